//! A key map of the application's own: one of the built-in ones, with keys added that call the
//! editor's methods directly (C23).

use crate::refed::{self, Ed};
use crate::session::{Cfg, Sh};
use crate::sim::*;
use liner::{Completer, Editor, EditorContext, Event, EventKind, KeyMap, Prompt, ViPromptMode, ViStatus};
use std::io;
use termion::event::Key;

/// Key::F(n) with n >= FIRST is method (n - FIRST) % METHODS with argument (n - FIRST) / METHODS.
pub const FIRST: u8 = 13;
pub const METHODS: u8 = 34;
pub const ARGS: u8 = 7;

/// Keys the application's key map handles all by itself: its Enter and its Tab.
pub const ENTER: Key = Key::F(252);
pub const TAB: Key = Key::F(253);

pub fn call() -> (u8, usize) {
    (choose(METHODS as u32) as u8, choose(ARGS as u32) as usize)
}

pub fn key() -> Key {
    match choose(40) {
        0 => return ENTER,
        1 | 2 => return TAB,
        _ => {}
    }
    let (m, a) = call();
    Key::F(FIRST + a as u8 * METHODS + m)
}

pub fn decode(k: Key) -> Option<(u8, usize)> {
    match k {
        Key::F(n) if n >= FIRST && n < FIRST + METHODS * ARGS => Some(((n - FIRST) % METHODS, ((n - FIRST) / METHODS) as usize)),
        _ => None,
    }
}

const TEXTS: [&str; 7] = ["", "a", "word ", "é漢", "two words", "x\\ y", "\\"];
const PLAIN: [&str; 7] = ["", "a", "word ", "é", "two words", "x\\ y", "\\"];
const PROMPTS: [&str; 7] = ["$ ", "", "> ", "\x1b[32mgreen\x1b[0m> ", "a much longer prompt than before> ", "é: ", "a row,\n\x1b[1ma second one\x1b[m and\n% "];

fn text(wide: bool, a: usize) -> &'static str {
    if wide {
        TEXTS[a]
    } else {
        PLAIN[a]
    }
}
/// A position or count: near, at the end, and far beyond it.
fn position(a: usize, len: usize) -> usize {
    match a {
        0 => 0,
        1 => 1,
        2 => 3,
        3 => len / 2,
        4 => len.saturating_sub(1),
        5 => len,
        _ if len % 2 == 0 => usize::MAX,
        _ => len + 5,
    }
}

/// The mode indicators of a new prompt: those of the session, others, or none.
fn indicators(a: usize, own: &Option<(String, String)>) -> Option<(String, String)> {
    match a {
        1 => Some(("normal ".into(), "".into())),
        2 => None,
        3 => Some(("[N] ".into(), "[I] ".into())),
        6 => Some(("-- normal --\n".into(), "-- insert --\n\n".into())),
        _ => own.clone(),
    }
}

/// What the real methods do.
pub fn act<C: EditorContext>(ed: &mut Editor<C>, m: u8, a: usize, sh: &Sh) -> io::Result<String> {
    let (wide, status) = {
        let s = sh.borrow();
        (s.cfg.wide, s.cfg.status.clone())
    };
    let len = ed.current_buffer().num_chars();
    let p = position(a, len);
    let r = match m {
        0 => format!("{}", ed.redo()?),
        1 => format!("{}", ed.undo()?),
        2 => format!("{}", ed.revert()?),
        3 => format!("{:?}", ed.delete_word_before_cursor(false)?),
        4 => format!("{:?}", ed.delete_word_before_cursor(true)?),
        5 => format!("{:?}", ed.clear()?),
        6 => format!("{:?}", ed.move_up()?),
        7 => format!("{:?}", ed.move_down()?),
        8 => format!("{:?}", ed.move_to_start_of_history()?),
        9 => format!("{:?}", ed.move_to_end_of_history()?),
        10 => format!("{:?}", ed.insert_str_after_cursor(text(wide, a))?),
        11 => format!("{:?}", ed.insert_chars_after_cursor(&text(wide, a).chars().collect::<Vec<_>>())?),
        12 => format!("{:?}", ed.delete_before_cursor()?),
        13 => format!("{:?}", ed.delete_after_cursor()?),
        14 => format!("{:?}", ed.delete_all_before_cursor()?),
        15 => format!("{:?}", ed.delete_all_after_cursor()?),
        16 => format!("{:?}", ed.delete_until(p)?),
        17 => format!("{:?}", ed.delete_until_inclusive(p)?),
        18 => format!("{:?}", ed.move_cursor_left(p)?),
        19 => format!("{:?}", ed.move_cursor_right(p)?),
        20 => format!("{:?}", ed.move_cursor_to(p)?),
        21 => format!("{:?}", ed.move_cursor_to_start_of_line()?),
        22 => format!("{:?}", ed.move_cursor_to_end_of_line()?),
        23 => format!("{:?}", ed.accept_autosuggestion()?),
        24 => {
            let mut prompt = Prompt::from(PROMPTS[a]);
            if let Some((n, i)) = indicators(a, &status) {
                let mode = if a % 2 == 0 { ViPromptMode::Normal } else { ViPromptMode::Insert };
                prompt.vi_status = Some(ViStatus::new(mode, n, i));
            }
            ed.set_prompt(prompt);
            format!("{:?}", ed.display()?)
        }
        25 => {
            ed.set_vi_mode(if a % 2 == 0 { ViPromptMode::Normal } else { ViPromptMode::Insert });
            format!("{:?}", ed.display()?)
        }
        26 => {
            let t = ed.take_exec_buffer();
            ed.display()?;
            t
        }
        27 => format!("{:?}", ed.search(true)?),
        28 => format!("{:?}", ed.search(false)?),
        29 => {
            ed.skip_completions_hint();
            format!("{:?}", ed.display()?)
        }
        30 => {
            let b = ed.current_buffer_mut();
            let at = std::cmp::min(position(a, len), len);
            let end = std::cmp::min(at + a % 3, len);
            if end > at {
                b.remove(at, end);
            }
            let s: Vec<char> = text(wide, (a * 3 + 1) % 7).chars().collect();
            if !s.is_empty() {
                b.insert(at, &s);
            }
            format!("{:?}", ed.display()?)
        }
        31 => format!("{:?}", ed.display()?),
        32 => {
            // several edits to be undone at once
            ed.current_buffer_mut().start_undo_group();
            for i in 0..a {
                match (a + i) % 3 {
                    0 => ed.delete_before_cursor()?,
                    1 => ed.insert_after_cursor('g')?,
                    _ => ed.insert_str_after_cursor(text(wide, i))?,
                }
            }
            ed.current_buffer_mut().end_undo_group();
            format!("{:?}", ed.display()?)
        }
        _ => {
            let (words, position) = ed.get_words_and_cursor_position();
            let b = ed.current_buffer();
            format!(
                "{:?} {:?} {} {} {:?} {:?} {:?} {:?}",
                words.collect::<Vec<_>>(),
                position,
                ed.cursor_is_at_end_of_line(),
                ed.is_currently_showing_autosuggestion(),
                b.char_before(ed.cursor()),
                b.char_after(ed.cursor()),
                b.last_arg().map(|a| a.iter().collect::<String>()),
                (b.num_chars(), b.num_bytes(), b.lines()),
            )
        }
    };
    Ok(r)
}

/// What they should do.
pub fn model(e: &mut Ed, m: u8, a: usize, cfg: &Cfg) -> String {
    let wide = cfg.wide;
    let len = e.len();
    let p = position(a, len);
    let chars = |a: usize| text(wide, a).chars().collect::<Vec<_>>();
    match m {
        0 => return e.redo().to_string(),
        1 => return e.undo().to_string(),
        2 => return e.revert().to_string(),
        3 => e.kill_word(false),
        4 => e.kill_word(true),
        5 => e.clear(),
        6 => e.up(),
        7 => e.down(),
        8 => e.first_entry(),
        9 => e.last_entry(),
        10 | 11 => e.insert(&chars(a)),
        12 => e.backspace(),
        13 => e.delete(),
        14 => e.kill_before(),
        15 => e.kill_after(),
        16 => e.delete_until(p, false),
        17 => e.delete_until(p, true),
        18 => e.left(p),
        19 => e.right(p),
        20 => e.go(p),
        21 => e.to_start(),
        22 => e.to_end(),
        23 => e.accept(),
        24 => {
            // (the mode shown so far goes on, if there is one)
            if e.status.is_none() {
                e.vi_normal_prompt = a % 2 == 0;
            }
            e.prompt = Some(PROMPTS[a].into());
            e.status = indicators(a, &cfg.status);
            e.display();
        }
        25 => {
            e.vi_normal_prompt = a % 2 == 0;
            e.display();
        }
        26 => {
            let t = e.take();
            e.display();
            return t;
        }
        27 => e.search(true),
        28 => e.search(false),
        29 => {
            e.list = None;
            e.display();
        }
        30 => {
            e.direct(position(a, len), a % 3, &chars((a * 3 + 1) % 7));
            e.display();
        }
        31 => e.display(),
        32 => {
            e.line().open();
            for i in 0..a {
                match (a + i) % 3 {
                    0 => e.backspace(),
                    1 => e.insert(&['g']),
                    _ => e.insert(&chars(i)),
                }
            }
            e.line().close();
            e.display();
        }
        _ => {
            let t = e.cur();
            let text = e.text();
            let last = text.split(' ').filter(|s| !s.is_empty()).last().map(|s| s.to_string());
            return format!(
                "{:?} {} {} {} {:?} {:?} {:?} {:?}",
                e.words(),
                e.position(),
                e.at_end(),
                e.sugg.is_some(),
                if e.cursor > 0 { Some(t[e.cursor - 1]) } else { None },
                t.get(e.cursor),
                last,
                (t.len(), text.len(), text.split('\n').collect::<Vec<_>>()),
            );
        }
    }
    "()".into()
}

/// One of the built-in key maps with the added keys.
pub struct Own<M> {
    pub keys: Added<M>,
}

pub struct Added<M> {
    inner: M,
    sh: Option<Sh>,
}

impl<M> Own<M> {
    pub fn new(inner: M, sh: Sh) -> Own<M> {
        Own { keys: Added { inner, sh: Some(sh) } }
    }
}

impl<M: Default> Default for Added<M> {
    fn default() -> Self {
        Added { inner: M::default(), sh: None }
    }
}
impl<M: Default> Default for Own<M> {
    fn default() -> Self {
        Own { keys: Added::default() }
    }
}

impl<M: KeyMap> KeyMap for Added<M> {
    fn init<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
        self.inner.init(ed)
    }
    fn handle_key_core<C: EditorContext>(&mut self, key: Key, ed: &mut Editor<C>) -> io::Result<()> {
        match (decode(key), &self.sh) {
            (Some((m, a)), Some(sh)) => {
                let r = act(ed, m, a, sh)?;
                sh.borrow_mut().returned.push(r);
                Ok(())
            }
            _ => self.inner.handle_key_core(key, ed),
        }
    }
}

impl<M: KeyMap> KeyMap for Own<M> {
    fn init<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
        self.keys.init(ed)
    }
    fn handle_key_core<C: EditorContext>(&mut self, key: Key, ed: &mut Editor<C>) -> io::Result<()> {
        self.keys.handle_key_core(key, ed)
    }
    fn handle_key<C: EditorContext, H: Completer>(&mut self, key: Key, ed: &mut Editor<C>, handler: &mut H) -> io::Result<bool> {
        if key != ENTER && key != TAB {
            return self.keys.handle_key(key, ed, handler);
        }
        handler.on_event(Event::new(ed, EventKind::BeforeKey(key)));
        let done = if key == ENTER {
            ed.handle_newline()?
        } else {
            ed.complete(handler)?;
            false
        };
        handler.on_event(Event::new(ed, EventKind::AfterKey(key)));
        ed.flush()?;
        Ok(done)
    }
}

/// The same for the model.
pub struct OwnKeys {
    pub inner: Box<dyn refed::Keys>,
    pub cfg: Cfg,
}

impl refed::Keys for OwnKeys {
    fn init(&mut self, e: &mut Ed) {
        self.inner.init(e)
    }
    fn core(&mut self, e: &mut Ed, k: Key) {
        match decode(k) {
            Some((m, a)) => {
                let r = model(e, m, a, &self.cfg);
                e.returned.push(r);
            }
            None => self.inner.core(e, k),
        }
    }
}
