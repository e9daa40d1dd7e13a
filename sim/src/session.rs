//! One simulated terminal session around the real `liner::Editor`: the terminal, the key source, the
//! completer, and the observer that compares every key's effect with the reference model and the
//! screen with the expected one.

use crate::api;
use crate::refed::{self, Ed, Emacs, Keys, Outcome, Vi};
use crate::sim::*;
use crate::trace;
use crate::vt::{self, Screen, Vt};
use liner::{Completer, Context, EditorContext, Event, EventKind, KeyBindings, Prompt, Tty, ViPromptMode, ViStatus};
use std::cell::RefCell;
use std::io::{self, ErrorKind};
use std::rc::Rc;
use termion::event::Key;

/// What the characters of an expected screen belong to.
const TYPED: u32 = 1 << 28;
const SUGGESTED: u32 = 2 << 28;
const LISTED: u32 = 3 << 28;
const SELECTED: u32 = 4 << 28;

#[derive(Clone, Debug, PartialEq)]
pub enum KeyEv {
    Key(Key),
    End,
    Fail(ErrorKind),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Profile {
    Edit,
    Hist,
    Undo,
    Tab,
    Any,
    /// everything, but text that stays on a screen as typed
    Screen,
}

#[derive(Clone)]
pub struct Cfg {
    pub p: &'static str,
    pub vi: bool,
    pub profile: Profile,
    pub width: usize,
    pub wide: bool,
    /// lines of the prompt before the last one, and the last one
    pub head: String,
    pub last: String,
    pub status: Option<(String, String)>,
    pub init: String,
    pub color: bool,
    /// compare lines and cursors with the model
    pub model: bool,
    pub screen: bool,
    pub mode_check: bool,
    pub max_keys: usize,
    /// the session may be cut off (end of input, error) instead of ended with a key
    pub cut: bool,
    pub breaks: bool,
    /// keys that call the editor's methods directly are added to the key map
    pub own: bool,
    /// the application divides lines into words its own way
    pub commas: bool,
    /// the completer is a `BasicCompleter` for these words
    pub basic: Option<Vec<String>>,
    /// the terminal's width changes at any moment
    pub resize: bool,
    /// ... only while the next key is waited for
    pub resize_rest: bool,
}

impl Cfg {
    pub fn basic(p: &'static str, vi: bool, profile: Profile) -> Cfg {
        Cfg {
            p,
            vi,
            profile,
            width: 80,
            wide: false,
            head: String::new(),
            last: "$ ".into(),
            status: None,
            init: String::new(),
            color: false,
            model: false,
            screen: false,
            mode_check: false,
            max_keys: 30,
            cut: true,
            breaks: true,
            own: false,
            commas: false,
            basic: None,
            resize: false,
            resize_rest: false,
        }
    }
}

#[derive(Clone, Default)]
pub struct TtyFaults {
    /// per mille of writes that are interrupted / accepted in part
    pub eintr: u32,
    pub short: u32,
    /// the terminal operation (write, flush or read, counted from session start) that fails
    pub fail_at: Option<u64>,
    pub fail_kind: Option<ErrorKind>,
    /// the failing write accepts nothing instead of returning an error
    pub write_zero: bool,
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub text: String,
    pub cursor: usize,
    pub loc: Option<usize>,
    pub hist: Vec<String>,
}

pub struct S {
    pub cfg: Cfg,
    pub faults: TtyFaults,
    pub vt: Vt,
    pub pending: Vec<u8>,
    pub delivered: Vec<u8>,
    /// bytes delivered when each key was asked for
    pub marks: Vec<usize>,
    pub ops: u64,
    /// ops when the last key was asked for
    pub key_from: u64,
    /// how often the width was asked for in this session
    pub widths: u64,
    /// the terminal's width from each key on
    pub key_widths: Vec<usize>,
    pub failed_with: Option<ErrorKind>,
    pub keys: Vec<KeyEv>,
    pub answers: Vec<(String, Vec<String>)>,
    pub replay: Option<(Vec<KeyEv>, Vec<(String, Vec<String>)>)>,
    pub replay_at: (usize, usize),
    pub model: Ed,
    pub map: Box<dyn Keys>,
    /// a key that was handed out and whose AfterKey event has not been seen
    pub open_key: Option<Key>,
    pub key_answers: Vec<(String, Vec<String>)>,
    pub outcome: Option<Outcome>,
    pub obs: Option<Obs>,
    pub ended: bool,
    /// model and code disagree about something another property is about: stop comparing
    pub off: bool,
    pub base: Screen,
    pub origin: usize,
    pub live: bool,
    pub first_hist: Vec<String>,
    /// the history may change because it is shared with other sessions
    pub shared: bool,
    pub sess_keys: usize,
    pub forced: usize,
    pub vi_state: Option<Rc<RefCell<Vi>>>,
    /// what happens elsewhere while the user thinks about the next key
    pub between: Option<Box<dyn FnMut()>>,
    /// a completer to ask instead of making up answers
    pub files: Option<Box<dyn FnMut(&str) -> Vec<String>>>,
    /// called after each key with what is seen and whether a shared history was reloaded
    pub probe: Option<Box<dyn FnMut(&Obs, bool)>>,
    /// methods called from the event handler since the key was delivered
    pub called: Vec<(u8, usize)>,
    /// events seen since the key was delivered
    pub events: Vec<&'static str>,
    /// keys that are pressed next, last one first
    pub script: Vec<Key>,
    /// what the methods called by the application's key map returned
    pub returned: Vec<String>,
}

pub type Sh = Rc<RefCell<S>>;

#[derive(Clone)]
pub struct SimTty(pub Sh);

struct ViShared(Rc<RefCell<Vi>>);
impl Keys for ViShared {
    fn core(&mut self, e: &mut Ed, k: Key) {
        self.0.borrow_mut().core(e, k)
    }
    fn init(&mut self, e: &mut Ed) {
        self.0.borrow_mut().init(e)
    }
}

pub fn new_state(width: usize) -> Sh {
    Rc::new(RefCell::new(S {
        cfg: Cfg::basic("ANY", false, Profile::Any),
        faults: TtyFaults::default(),
        vt: Vt::new(width),
        pending: vec![],
        delivered: vec![],
        marks: vec![],
        ops: 0,
        key_from: 0,
        widths: 0,
        key_widths: vec![],
        failed_with: None,
        keys: vec![],
        answers: vec![],
        replay: None,
        replay_at: (0, 0),
        model: Ed::new("", &[], false),
        map: Box::new(Emacs::default()),
        open_key: None,
        key_answers: vec![],
        outcome: None,
        obs: None,
        ended: false,
        off: false,
        base: Screen::new(width),
        origin: 0,
        live: false,
        first_hist: vec![],
        shared: false,
        sess_keys: 0,
        forced: 0,
        vi_state: None,
        between: None,
        files: None,
        probe: None,
        called: vec![],
        events: vec![],
        script: vec![],
        returned: vec![],
    }))
}

impl S {
    /// Does this terminal operation fail?
    fn fails(&mut self, what: &str) -> Option<io::Error> {
        let n = self.ops;
        self.ops += 1;
        if self.ops > self.key_from + 1_000_000 {
            violate("ANY", "spin", "more than 1000000 terminal operations for one key".into());
        }
        if self.faults.fail_at == Some(n) {
            let k = self.faults.fail_kind.unwrap_or(ErrorKind::BrokenPipe);
            self.failed_with = Some(k);
            count(match what {
                "write" => "fault.tty_write_error",
                "flush" => "fault.tty_flush_error",
                "width" => "fault.tty_width_error",
                _ => "fault.tty_read_error",
            });
            trace!("FAULT terminal {} fails with {:?}", what, k);
            return Some(io::Error::new(k, "simulated terminal failure"));
        }
        None
    }
}

impl io::Write for SimTty {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(e) = s.fails("write") {
            if s.faults.write_zero {
                s.failed_with = Some(ErrorKind::WriteZero);
                return Ok(0);
            }
            return Err(e);
        }
        if s.faults.eintr > 0 && chance(s.faults.eintr, 1000) {
            count("fault.tty_eintr");
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        let mut n = buf.len();
        if s.faults.short > 0 && n > 1 && chance(s.faults.short, 1000) {
            count("fault.tty_short_write");
            n = 1 + choose(n as u32 - 1) as usize;
        }
        s.pending.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        if let Some(e) = s.fails("flush") {
            return Err(e);
        }
        let b = std::mem::take(&mut s.pending);
        if s.cfg.screen || s.cfg.mode_check {
            s.vt.feed(&b);
        }
        s.delivered.extend_from_slice(&b);
        Ok(())
    }
}

impl Tty for SimTty {
    fn width(&self) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.widths += 1;
        // (the width asked for at the very start has a default)
        if s.widths > 1 {
            if let Some(e) = s.fails("width") {
                return Err(e);
            }
        }
        if s.cfg.resize && chance(1, 20) {
            s.cfg.width = match choose(4) {
                0 => choose(4) as usize,
                1 => choose(40) as usize,
                2 => *pick(&[80usize, 81, 79, 200]),
                _ => *pick(&[1usize, 132, 1000]),
            };
            count("fault.resize");
            trace!("the terminal is now {} wide", s.cfg.width);
        }
        Ok(s.cfg.width)
    }
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        if active().is_some() {
            yield_point(false);
        }
        let hook = self.0.borrow_mut().between.take();
        if let Some(mut f) = hook {
            f();
            self.0.borrow_mut().between = Some(f);
        }
        let mut s = self.0.borrow_mut();
        s.at_rest("when the next key was asked for");
        let p = s.cfg.p;
        if s.ended {
            violate(if p == "C02" { "C02" } else { "C01" }, "key_after_end", "another key was asked for after the one that ends the session".into());
            return None;
        }
        if let Some(k) = s.open_key {
            if s.cfg.p == "C24" {
                violate("C24", "missing", format!("the next key was asked for after the events {:?} of {:?}", s.events, k));
            }
            violate("C01", "key_lost", format!("the next key was asked for before {:?} was handled", k));
        }
        if s.cfg.p == "C24" && !s.events.is_empty() && s.events.last() != Some(&"after") {
            violate("C24", "missing", format!("the next key was asked for after the events {:?}", s.events));
        }
        s.key_from = s.ops;
        let m = s.delivered.len();
        s.marks.push(m);
        if let Some(e) = s.fails("read") {
            s.ended = true;
            return Some(Err(e));
        }
        let ev = if failed() || dead() {
            KeyEv::End
        } else if let Some((k, _)) = &s.replay {
            let i = s.replay_at.0;
            let ev = k.get(i).cloned().unwrap_or(KeyEv::End);
            s.replay_at.0 += 1;
            ev
        } else {
            crate::keygen::next(&mut s)
        };
        s.keys.push(ev.clone());
        if s.cfg.resize_rest && chance(1, 10) {
            s.cfg.width = *pick(&[80usize, 1, 2, 3, 5, 11, 40, 79, 81, 200, 300]);
            count("fault.resize");
            trace!("the terminal is now {} wide", s.cfg.width);
        }
        let w = s.cfg.width;
        s.key_widths.push(w);
        s.sess_keys += 1;
        trace!("key {:?}", ev);
        match ev {
            KeyEv::Key(k) => {
                hash_str(format!("{:?}", k).as_bytes());
                s.open_key = Some(k);
                s.events.clear();
                s.key_answers.clear();
                Some(Ok(k))
            }
            KeyEv::End => {
                s.ended = true;
                None
            }
            KeyEv::Fail(k) => {
                s.ended = true;
                s.failed_with = Some(k);
                Some(Err(io::Error::new(k, "simulated key source failure")))
            }
        }
    }
}

impl S {
    /// The session waits (or has returned): everything must be flushed and on screen.
    fn at_rest(&mut self, when: &str) {
        if !self.pending.is_empty() {
            if self.cfg.p == "C03" {
                violate("C03", "unflushed", format!("{} bytes were still unflushed {}", self.pending.len(), when));
            }
            let b = std::mem::take(&mut self.pending);
            self.vt.feed(&b);
            self.delivered.extend_from_slice(&b);
        }
        if self.live && !self.off && self.outcome.is_none() {
            if self.cfg.screen {
                self.check_screen();
            } else if self.cfg.mode_check {
                self.check_mode();
            }
        }
    }

    fn prompt_now(&self) -> String {
        let pre = match &self.model.status {
            Some((n, i)) => {
                if self.model.vi_normal_prompt {
                    n.clone()
                } else {
                    i.clone()
                }
            }
            None => String::new(),
        };
        let m = &self.model;
        if m.search.is_some() {
            let i = if m.subset.is_empty() { 0 } else { m.subset_loc.unwrap_or(0) + 1 };
            format!("{}(search)'{}` ({}/{}): ", vt::visible(&pre), m.text().replace('\n', "⏎"), i, m.subset.len())
        } else {
            vt::visible(&format!("{}{}", pre, m.prompt.as_ref().unwrap_or(&self.cfg.last)))
        }
    }

    /// What the screen must show now.
    pub fn expected(&self) -> Screen {
        let m = &self.model;
        let mut e = self.base.clone();
        e.rows.truncate(self.origin);
        e.r = self.origin;
        e.c = 0;
        e.rows.push(vec![vt::Cell::Blank; e.w]);
        if let Some(l) = &m.drawn_list {
            let w = e.w;
            let longest = l.items.iter().map(|x| vt::width(x)).max().unwrap_or(0).max(1);
            let per_row = (w / longest).max(1);
            let col = (2 + w / per_row).min(w);
            let per_row = (w / col).max(1);
            for (i, x) in l.items.iter().enumerate() {
                if i > 0 && i % per_row == 0 {
                    e.next_row();
                }
                e.attr = if Some(i) == l.at { SELECTED } else { LISTED };
                e.puts(x);
                e.attr = 0;
                for _ in vt::width(x)..col {
                    e.put(' ');
                }
            }
            e.next_row();
        }
        let start = (e.r, e.c);
        let prompt = self.prompt_now();
        puts_rows(&mut e, &prompt);
        let indent = vt::width(prompt.rsplit('\n').next().unwrap()).min(e.w - 1);
        let shown: Vec<char> = match &m.sugg {
            Some(s) => s.clone(),
            None => m.cur().clone(),
        };
        let mut cursor = None;
        // the cursor is in the line, whatever is suggested after it
        let line = m.cur();
        let mut at = e.clone();
        for (i, c) in line.iter().enumerate() {
            if i == m.cursor {
                cursor = Some(at.cursor());
            }
            if *c == '\n' {
                at.next_row();
                at.c = indent;
            } else {
                at.put(*c);
            }
        }
        let mut cursor = cursor.unwrap_or(at.cursor());
        if m.search.is_some() {
            let mut at = Screen::new(e.w);
            let pre = match &self.model.status {
                Some((n, i)) => vt::visible(if m.vi_normal_prompt { n } else { i }),
                None => String::new(),
            };
            puts_rows(&mut at, &format!("{}(search)'", pre));
            for c in &line[..m.cursor] {
                // (a line break in a search text is shown as a sign)
                at.put(if *c == '\n' { '⏎' } else { *c });
            }
            cursor = (start.0 + at.r, at.c);
        }
        for (i, c) in shown.iter().enumerate() {
            e.attr = if i < line.len() { TYPED } else { SUGGESTED };
            if *c == '\n' {
                e.next_row();
                e.c = indent;
            } else {
                e.put(*c);
            }
        }
        if cursor.1 >= e.w {
            cursor = (cursor.0 + 1, 0);
        }
        e.attr = 0;
        e.r = cursor.0;
        e.c = cursor.1;
        e
    }

    /// A suggestion looks different from the line it continues, the candidate that was inserted
    /// from the others, and nothing is left switched on.
    fn check_looks(&mut self, e: &Screen) {
        let m = &self.model;
        let s = &self.vt.s;
        let shared = |a, b| s.drawn_as(e, a).intersection(&s.drawn_as(e, b)).next().is_some();
        let plain = m.sugg.as_ref().map_or(false, |t| !t.iter().any(|c| vt::zero(*c)));
        let bad = if m.search.is_none() && plain && shared(TYPED, SUGGESTED) {
            "the suggestion looks like the line"
        } else if shared(SELECTED, LISTED) {
            "the candidate that was inserted looks like another one"
        } else if s.attr != 0 {
            "text that comes next would be coloured"
        } else {
            return;
        };
        violate(self.cfg.p, "looks", format!("after key {:?} {}: {} (width {})", self.keys.last(), bad, s.dump(), s.w));
    }

    /// Is what is shown covered by the property?  (One-line search texts; a prompt of less than a
    /// row where lines have breaks.)
    fn in_scope(&self) -> bool {
        let m = &self.model;
        let breaks = |t: &Vec<char>| t.contains(&'\n');
        // a combining character needs one to combine with
        let loose = |t: &Vec<char>| (0..t.len()).any(|i| vt::zero(t[i]) && (i == 0 || t[i - 1] == '\n'));
        if loose(m.cur()) || m.sugg.as_ref().map_or(false, loose) {
            return false;
        }
        true
    }

    fn check_screen(&mut self) {
        if !self.in_scope() {
            self.off = true;
            return;
        }
        let mut e = self.expected();
        if e.rows.len() > TALLEST {
            self.off = true;
            return;
        }
        if self.model.drawn_list.is_some() && self.model.list.is_none() && self.vt.s.differs(&e).is_some() {
            // a closed list goes with the next redraw, and keys without effect may or may not redraw
            let closed = self.model.drawn_list.take();
            let f = self.expected();
            if self.vt.s.differs(&f).is_none() {
                e = f;
            } else {
                self.model.drawn_list = closed;
            }
        }
        if let Some(u) = self.vt.unknown.first() {
            violate(self.cfg.p, "escape", format!("sent the terminal an unknown sequence: {:?}", u));
            return;
        }
        let k = self.keys.iter().rev().find_map(|k| if let KeyEv::Key(k) = k { Some(format!("{:?}", k)) } else { None });
        if let Some((r, c)) = self.vt.s.differs(&e) {
            violate(
                self.cfg.p,
                "screen",
                format!("after key {:?} the screen differs at row {} column {}: shows {} expected {} (width {})", k, r, c, self.vt.s.dump(), e.dump(), e.w),
            );
        } else if self.vt.s.cursor() != e.cursor() {
            violate(
                self.cfg.p,
                "cursor",
                format!("after key {:?} the cursor is at {:?}, expected {:?}: {} (width {})", k, self.vt.s.cursor(), e.cursor(), self.vt.s.dump(), e.w),
            );
        } else {
            self.check_looks(&e);
        }
    }

    fn check_mode(&mut self) {
        if let Some((n, i)) = &self.model.status {
            // on a wide terminal the mode is shown on the row of the prompt
            let want = if self.model.vi_normal_prompt { n } else { i };
            let rows: Vec<String> = (0..=self.vt.s.r + 1).map(|r| self.vt.s.row(r)).collect();
            let shown = rows.iter().rev().find(|r| r.starts_with(n.as_str()) || r.starts_with(i.as_str()));
            if let (Some(r), false) = (shown, n.is_empty() || i.is_empty()) {
                if !r.starts_with(want.as_str()) {
                    violate(self.cfg.p, "mode", format!("the prompt shows {:?}, the mode is {}", r, want));
                }
            }
        }
    }

    fn strings(v: &[Vec<char>]) -> Vec<String> {
        v.iter().map(|x| x.iter().collect()).collect()
    }

    /// Apply a handled key to the model and compare.
    fn settle(&mut self, key: Key, obs: Option<Obs>) {
        self.open_key = None;
        if let Some(o) = &obs {
            if o.cursor > o.text.chars().count() {
                violate("C01", "cursor", format!("after {:?} the cursor is at {} in a line of {} characters", key, o.cursor, o.text.chars().count()));
            }
        }
        let uses_model = self.cfg.model || self.cfg.screen || self.cfg.mode_check;
        if uses_model && !self.off {
            if let Some(o) = &obs {
                self.model.hist_after = o.hist.iter().map(|s| s.chars().collect()).collect();
            }
            self.model.answers = std::mem::take(&mut self.key_answers);
            let redo = key == Key::F(1);
            let mut map = std::mem::replace(&mut self.map, Box::new(Emacs::default()));
            if redo {
                // the observer calls Editor::redo on this key before it is handled
                self.model.redo();
            }
            self.model.returned.clear();
            self.model.cleared = false;
            self.model.reloaded = false;
            for (m, a) in std::mem::take(&mut self.called) {
                let r = api::model(&mut self.model, m, a, &self.cfg);
                self.model.returned.push(r);
                if self.cfg.screen && !self.in_scope() {
                    // (what was drawn in between cannot be known)
                    self.off = true;
                }
            }
            let out = refed::step(&mut *map, &mut self.model, key);
            self.map = map;
            if self.model.cleared {
                self.base = Screen::new(self.cfg.width);
                self.origin = 0;
                count("op.clear");
            }
            if out != Outcome::Continue {
                self.outcome = Some(out);
            }
            self.compare(key, &obs);
            self.returned.clear();
            if let (Some(o), false) = (&obs, self.off) {
                if let Some(f) = &mut self.probe {
                    f(o, self.model.reloaded);
                }
            }
        }
        if !uses_model || self.off {
            let done = match key {
                Key::Ctrl('c') => Some(Outcome::Interrupted),
                _ => None,
            };
            if done.is_some() {
                self.outcome = done;
            }
        }
        self.obs = obs.or(self.obs.take());
    }

    /// A method called after the key was handled.
    fn settle_call(&mut self, key: Key, m: u8, a: usize, obs: Obs) {
        if self.cfg.screen && !self.in_scope() {
            self.off = true;
            self.obs = Some(obs);
            return;
        }
        self.model.returned.clear();
        self.model.cleared = false;
        self.model.reloaded = false;
        self.model.hist_after = obs.hist.iter().map(|s| s.chars().collect()).collect();
        let r = api::model(&mut self.model, m, a, &self.cfg);
        self.model.returned.push(r);
        if self.model.cleared {
            self.base = Screen::new(self.cfg.width);
            self.origin = 0;
        }
        let obs = Some(obs);
        self.compare(key, &obs);
        self.returned.clear();
        self.obs = obs;
    }

    fn compare(&mut self, key: Key, obs: &Option<Obs>) {
        let p = self.cfg.p;
        let blame = self.cfg.model;
        let m = &self.model;
        let mut bad: Option<(&'static str, String)> = None;
        if let Some(c) = &m.complaint {
            bad = Some(("completer", c.clone()));
        }
        if bad.is_none() && m.returned != self.returned {
            bad = Some(("returned", format!("the method returned {:?}, expected {:?}", self.returned, m.returned)));
        }
        if let Some(o) = obs {
            let want = m.text();
            if bad.is_none() && o.text != want {
                bad = Some(("line", format!("the line is {:?}, expected {:?}", o.text, want)));
            } else if bad.is_none() && o.cursor != m.cursor {
                bad = Some(("cursor", format!("the cursor is at {} of {:?}, expected {}", o.cursor, o.text, m.cursor)));
            } else if bad.is_none() && o.loc != m.loc {
                bad = Some(("location", format!("the history location is {:?}, expected {:?}", o.loc, m.loc)));
            }
            if !m.reloaded && S::strings(&m.hist) != o.hist {
                if p == "C07" || p == "C08" {
                    violate("C07", "history", format!("after {:?} the history is {:?}, it was {:?}", key, o.hist, S::strings(&m.hist)));
                }
                self.off = true;
            }
        }
        if let Some((class, what)) = bad {
            if blame {
                violate(p, class, format!("after key {:?} {}", key, what));
            }
            trace!("model and code differ: {}", what);
            self.off = true;
        }
    }
}

pub struct Comp(pub Sh);

impl Completer for Comp {
    fn completions(&mut self, start: &str) -> Vec<String> {
        let hook = self.0.borrow_mut().files.take();
        let real = hook.map(|mut f| {
            let v = f(start);
            self.0.borrow_mut().files = Some(f);
            v
        });
        let mut s = self.0.borrow_mut();
        let v = if let Some(v) = real {
            v
        } else if let Some(words) = s.cfg.basic.clone() {
            let v = liner::BasicCompleter::new(words.clone()).completions(start);
            let want: Vec<String> = words.iter().filter(|w| w.as_bytes().get(..start.len()) == Some(start.as_bytes())).cloned().collect();
            count("probe.basic_completer");
            if v != want {
                violate("C10", "basic", format!("the basic completer for {:?} answered {:?} for {:?}, expected {:?}", words, v, start, want));
            }
            v
        } else if s.replay.is_some() {
            let i = s.replay_at.1;
            s.replay_at.1 += 1;
            s.replay.as_ref().unwrap().1.get(i).map(|a| a.1.clone()).unwrap_or_default()
        } else {
            crate::keygen::candidates(&s, start)
        };
        trace!("completer asked for {:?}: {:?}", start, v);
        s.answers.push((start.to_string(), v.clone()));
        s.key_answers.push((start.to_string(), v.clone()));
        v
    }
    fn on_event<C: EditorContext>(&mut self, ev: Event<C>) {
        match ev.kind {
            EventKind::AfterKey(k) => {
                self.event("after", Some(k), ev.editor);
                let obs = observe(ev.editor);
                hash_str(obs.text.as_bytes());
                hash_mix(obs.cursor as u64);
                trace!("  -> {:?} cursor {} history {:?}", obs.text, obs.cursor, obs.loc);
                let mut s = self.0.borrow_mut();
                let open = s.open_key;
                let norm = |k: Key| if k == Key::Ctrl('h') { Key::Backspace } else { k };
                if open.map(norm) != Some(k) {
                    violate("C01", "key_order", format!("{:?} was handled, {:?} had been delivered", k, open));
                }
                let k = open.unwrap_or(k);
                if k == Key::Ctrl('c') || (k == Key::Ctrl('d') && s.obs.as_ref().map_or(s.cfg.init.is_empty(), |o| o.text.is_empty())) {
                    violate("C01", "goes_on", format!("{:?} on {:?} did not end the session", k, s.obs.as_ref().map(|o| &o.text)));
                }
                s.settle(k, Some(obs));
                let done = s.outcome.is_some();
                drop(s);
                if !done && self.may_act() && chance(1, 4) {
                    let (m, a) = api::call();
                    trace!("  after the key: method {} argument {}", m, a);
                    self.act(ev.editor, m, a);
                    let obs = observe(ev.editor);
                    trace!("  -> {:?} cursor {} history {:?}", obs.text, obs.cursor, obs.loc);
                    self.0.borrow_mut().settle_call(k, m, a, obs);
                }
            }
            EventKind::BeforeKey(k) => {
                self.event("before", Some(k), ev.editor);
                // (an error here could not be passed on)
                if k == Key::F(1) && self.0.borrow().faults.fail_at.is_none() && self.0.borrow().cfg.p != "C02" {
                    let _ = ev.editor.redo();
                }
                self.act_before(ev.editor);
            }
            EventKind::BeforeComplete => {
                self.event("complete", None, ev.editor);
                self.act_before(ev.editor);
            }
        }
    }
}

fn observe<C: EditorContext>(e: &liner::Editor<C>) -> Obs {
    Obs {
        text: e.current_buffer().to_string(),
        cursor: e.cursor(),
        loc: e.current_history_location(),
        hist: e.context().history().buffers.iter().map(|b| b.to_string()).collect(),
    }
}

impl Comp {
    /// The application calls methods from its event handler (where the model is compared, the
    /// terminal does not fail and no list is open).
    fn may_act(&self) -> bool {
        let s = self.0.borrow();
        s.cfg.own && s.cfg.model && !s.off && s.faults.fail_at.is_none() && !failed()
    }
    fn act<C: EditorContext>(&self, e: &mut liner::Editor<C>, m: u8, a: usize) {
        if let Ok(r) = api::act(e, m, a, &self.0) {
            self.0.borrow_mut().returned.push(r);
        }
    }
    fn act_before<C: EditorContext>(&self, e: &mut liner::Editor<C>) {
        if self.may_act() && chance(1, 4) {
            let (m, a) = api::call();
            trace!("  before the key: method {} argument {}", m, a);
            self.act(e, m, a);
            let mut s = self.0.borrow_mut();
            s.called.push((m, a));
            s.obs = Some(observe(e));
        }
    }
    /// Every key is announced once before and once after it is handled, with the line as it is
    /// then; a completion is announced before the completer is asked.
    fn event<C: EditorContext>(&self, what: &'static str, k: Option<Key>, e: &liner::Editor<C>) {
        let mut s = self.0.borrow_mut();
        s.events.push(what);
        if s.cfg.p != "C24" {
            return;
        }
        let norm = |k: Key| if k == Key::Ctrl('h') { Key::Backspace } else { k };
        let open = s.open_key;
        if k.is_some() && open.map(norm) != k.map(norm) {
            violate("C24", "key", format!("{:?} was announced, {:?} had been delivered", k, open));
        }
        let tab = matches!(open, Some(Key::Char('\t') | api::TAB));
        let want: &[&str] = if tab { &["before", "complete", "after"] } else { &["before", "after"] };
        if !want.starts_with(&s.events) {
            violate("C24", "order", format!("while {:?} was handled the events were {:?}", open, s.events));
        }
        if what != "after" {
            let (text, cursor) = match &s.obs {
                Some(o) => (o.text.clone(), o.cursor),
                None => (s.cfg.init.clone(), s.cfg.init.chars().count()),
            };
            let now = e.current_buffer().to_string();
            if now != text || e.cursor() != cursor {
                violate("C24", "state", format!("{:?} was announced with the line {:?} and the cursor at {}, they were {:?} and {}", open, now, e.cursor(), text, cursor));
            }
        }
        if what == "complete" && !s.key_answers.is_empty() {
            violate("C24", "order", "the completer was asked before the completion was announced".into());
        }
    }
}

pub struct Ended {
    pub result: Result<io::Result<String>, String>,
}

/// Run one session on the context; the model starts from the context's history.
pub fn run(ctx: &mut Context<SimTty>, cfg: Cfg, faults: TtyFaults) -> Ended {
    let sh = ctx.terminal.0.clone();
    let hist: Vec<String> = ctx.history.buffers.iter().map(|b| b.to_string()).collect();
    let share = ctx.history.share;
    {
        let mut s = sh.borrow_mut();
        s.cfg = cfg.clone();
        s.faults = faults;
        s.ops = 0;
        s.key_from = 0;
        s.widths = 0;
        s.key_widths.clear();
        s.failed_with = None;
        s.pending.clear();
        s.keys.clear();
        s.marks.clear();
        s.answers.clear();
        s.open_key = None;
        s.outcome = None;
        s.obs = None;
        s.ended = false;
        s.off = false;
        s.sess_keys = 0;
        s.forced = 0;
        s.replay_at = (0, 0);
        s.first_hist = hist.clone();
        s.shared = share;
        if s.vt.s.w != cfg.width {
            s.vt = Vt::new(cfg.width);
        }
        s.model = Ed::new(&cfg.init, &hist, share);
        s.model.commas = cfg.commas;
        s.model.status = cfg.status.clone();
        let mut map: Box<dyn Keys> = if cfg.vi {
            let v = Rc::new(RefCell::new(Vi::default()));
            s.vi_state = Some(v.clone());
            Box::new(ViShared(v))
        } else {
            s.vi_state = None;
            Box::new(Emacs::default())
        };
        if cfg.own {
            map = Box::new(api::OwnKeys { inner: map, cfg: cfg.clone() });
        }
        s.returned.clear();
        s.called.clear();
        s.events.clear();
        s.script.clear();
        map.init(&mut s.model);
        s.map = map;
        if cfg.screen {
            // a fresh row below whatever is on the screen, then the prompt's earlier lines
            let mut b = s.vt.s.clone();
            b.put('⏎');
            for _ in 1..b.w {
                b.put(' ');
            }
            b.c = 0;
            b.put(' ');
            b.c = 0;
            let head = vt::visible(&cfg.head);
            for (i, l) in head.split('\n').enumerate() {
                if i > 0 {
                    b.next_row();
                }
                b.puts(l);
            }
            s.origin = b.r;
            s.base = b;
        }
        s.live = true;
    }
    ctx.word_divider_fn = if cfg.commas {
        Box::new(|b: &liner::Buffer| refed::comma_words(&b.chars().copied().collect::<Vec<_>>()))
    } else {
        Box::new(liner::get_buffer_words)
    };
    ctx.key_bindings = if cfg.vi { KeyBindings::Vi } else { KeyBindings::Emacs };
    let mut prompt = Prompt::from(format!("{}{}", cfg.head, cfg.last));
    if let Some((n, i)) = &cfg.status {
        prompt.vi_status = Some(ViStatus::new(ViPromptMode::Insert, n.clone(), i.clone()));
    }
    let f: Option<liner::ColorClosure> = if cfg.color { Some(Box::new(|s: &str| format!("\x1b[1m{}\x1b[0m", s))) } else { None };
    let mut comp = Comp(sh.clone());
    let init = cfg.init.clone();
    trace!("session: {} width {} prompt {:?} init {:?} history {:?}", if cfg.vi { "vi" } else { "emacs" }, cfg.width, format!("{}{}", cfg.head, cfg.last), init, hist);
    let result = guarded(|| {
        if !cfg.own {
            return (&mut *ctx).read_line_with_init_buffer(prompt, &mut comp, f, init);
        }
        let ed = liner::Editor::new_with_init_buffer(prompt, f, &mut *ctx, init)?;
        if cfg.vi {
            <&mut Context<SimTty> as EditorContext>::handle_keys(api::Own::new(liner::Vi::new(), sh.clone()), ed, &mut comp)
        } else {
            <&mut Context<SimTty> as EditorContext>::handle_keys(api::Own::new(liner::Emacs::new(), sh.clone()), ed, &mut comp)
        }
    });
    trace!("session ends: {:?}", result);
    let mut s = match sh.try_borrow_mut() {
        Ok(s) => s,
        Err(_) => return Ended { result },
    };
    s.live = false;
    if let Err(m) = &result {
        violate(s.cfg.p, &format!("panic:{}", m.rsplit('(').next().unwrap_or("")), format!("reading a line panicked: {}", m));
        return Ended { result };
    }
    if let Some(k) = s.open_key {
        // Ctrl-C, Ctrl-D and terminal errors end the session without an event
        let ends = matches!(k, Key::Ctrl('c') | Key::Ctrl('d'));
        if s.failed_with.is_none() && ends {
            s.settle(k, None);
        }
    }
    if s.cfg.p == "C24" {
        if let Some(KeyEv::Key(k)) = s.keys.last().cloned() {
            let want = if s.failed_with.is_some() || matches!(k, Key::Ctrl('c') | Key::Ctrl('d')) { "before" } else { "after" };
            if !s.events.contains(&want) {
                violate("C24", "missing", format!("the session ended with {:?} after the events {:?}", k, s.events));
            }
        }
    }
    judge_end(&mut s, &result.as_ref().unwrap());
    if s.failed_with.is_none() || s.faults.fail_at.is_none() {
        s.live = cfg.screen && (s.outcome == Some(Outcome::Done) || s.model.gave_up);
        finish_screen(&mut s);
        s.live = false;
    }
    Ended { result }
}

/// a prompt of several rows
fn puts_rows(e: &mut Screen, text: &str) {
    for (i, line) in text.split('\n').enumerate() {
        if i > 0 {
            e.next_row();
        }
        e.puts(line);
    }
}

/// no terminal has more rows: a row count is 16 bits wide
const TALLEST: usize = 65_000;

fn finish_screen(s: &mut S) {
    let live = s.live;
    s.live = false;
    s.at_rest("when the session returned");
    if !live || s.off || failed() {
        return;
    }
    // the finished line stays, without suggestion; the cursor is at the start of a row below it
    s.model.sugg = None;
    s.model.drawn_list = None;
    s.model.cursor = s.model.len();
    if !s.in_scope() {
        s.off = true;
        return;
    }
    let e = s.expected();
    if e.rows.len() > TALLEST {
        s.off = true;
        return;
    }
    let (r, c) = s.vt.s.cursor();
    let last = e.rows.iter().rposition(|r| r.iter().any(|c| !matches!(c, vt::Cell::Blank))).unwrap_or(0);
    if let Some((r, c)) = s.vt.s.differs(&e) {
        violate(s.cfg.p, "final_screen", format!("after the session the screen differs at row {} column {}: shows {} expected {} (width {})", r, c, s.vt.s.dump(), e.dump(), e.w));
    } else if c != 0 || r <= last || r > e.r + 1 {
        violate(s.cfg.p, "final_cursor", format!("after the session the cursor is at {:?}, the line ends on row {}: {} (width {})", (r, c), e.r, s.vt.s.dump(), e.w));
    }
}

/// Did the session end for the reason it reports?
fn judge_end(s: &mut S, r: &io::Result<String>) {
    let last = s.keys.last().cloned();
    let show = |r: &io::Result<String>| match r {
        Ok(t) => format!("Ok({:?})", t),
        Err(e) => format!("Err({:?})", e.kind()),
    };
    let p = s.cfg.p;
    if let Some(k) = s.failed_with {
        match r {
            Err(e) if e.kind() == k => {}
            _ => violate(if matches!(last, Some(KeyEv::Fail(_))) { "C01" } else { "C02" }, "error_kind", format!("the terminal failed with {:?}, reading the line returned {}", k, show(r))),
        }
        return;
    }
    let text = s.obs.as_ref().map(|o| o.text.clone()).unwrap_or_else(|| s.cfg.init.clone());
    match last {
        Some(KeyEv::End) => {
            // the line as it stood
            if p == "C07" && r.as_ref().ok() != Some(&text) {
                violate("C07", "returned", format!("{:?} was on display, reading the line returned {}", text, show(r)));
            }
            match r {
                Ok(t) if *t == text => {}
                _ => violate("C01", "end_of_keys", format!("the keys ended with {:?} on the line, reading it returned {}", text, show(r))),
            }
        }
        Some(KeyEv::Key(Key::Ctrl('c'))) => {
            if r.as_ref().err().map(|e| e.kind()) != Some(ErrorKind::Interrupted) {
                violate("C01", "ctrl_c", format!("Ctrl-C was pressed, reading the line returned {}", show(r)));
            }
        }
        Some(KeyEv::Key(Key::Ctrl('d'))) => {
            if !text.is_empty() || r.as_ref().err().map(|e| e.kind()) != Some(ErrorKind::UnexpectedEof) {
                violate("C01", "ctrl_d", format!("Ctrl-D was pressed on {:?}, reading the line returned {}", text, show(r)));
            }
        }
        Some(KeyEv::Key(Key::Char('\n') | api::ENTER)) => {
            if s.open_key.is_some() {
                violate("C01", "enter", format!("Enter was not handled to its end, reading the line returned {}", show(r)));
            }
            match r {
                Ok(t) if *t == text => {}
                _ => {
                    if p == "C07" {
                        violate("C07", "returned", format!("{:?} was on display, reading the line returned {}", text, show(r)));
                    }
                    violate("C01", "enter", format!("Enter was pressed on {:?}, reading the line returned {}", text, show(r)));
                }
            }
            if s.cfg.model && !s.off && s.outcome != Some(Outcome::Done) {
                violate(p, "ended", "Enter ended the session, it should not have".into());
            }
        }
        k => violate("C01", "ended", format!("the session ended after {:?} with {}", k, show(r))),
    }
    // a key that should have ended it
    if let Some(o) = s.outcome {
        let n = s.keys.len();
        let _ = (o, n);
    }
}
