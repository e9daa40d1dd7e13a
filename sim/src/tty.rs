//! C20: the process's own terminal (`DefaultTty`) on simulated standard streams.

use crate::scen::{context, in_process};
use crate::session::{self, Cfg, KeyEv, Profile, TtyFaults};
use crate::sim::*;
use crate::trace;
use liner::{Completer, Context, EditorContext, Prompt};
use std::io::{Read, Write};
use termion::event::Key;

const P: &str = "C20";

/// The bytes a terminal sends for a key, and whether they must arrive by themselves.
fn encode(k: Key) -> Option<(Vec<u8>, bool)> {
    let s = |s: &str| Some((s.as_bytes().to_vec(), false));
    match k {
        Key::Char('\n') => s("\r"),
        Key::Char('\t') => s("\t"),
        Key::Char(c) if (c as u32) >= 32 && c != '\x7f' && !('\u{80}'..'\u{a0}').contains(&c) => s(&c.to_string()),
        Key::Ctrl(c @ 'a'..='z') if !matches!(c, 'i' | 'j' | 'm') => Some((vec![c as u8 - b'a' + 1], false)),
        Key::Backspace => s("\x7f"),
        Key::Alt(c) if !matches!(c, 'O' | '[') && c != '\x1b' => s(&format!("\x1b{}", c)),
        Key::Left => s("\x1b[D"),
        Key::Right => s("\x1b[C"),
        Key::Up => s("\x1b[A"),
        Key::Down => s("\x1b[B"),
        Key::Home => s("\x1b[H"),
        Key::End => s("\x1b[F"),
        Key::Delete => s("\x1b[3~"),
        Key::Insert => s("\x1b[2~"),
        Key::PageUp => s("\x1b[5~"),
        Key::PageDown => s("\x1b[6~"),
        Key::BackTab => s("\x1b[Z"),
        Key::F(n @ 1..=4) => Some((vec![0x1b, b'O', b'P' + n - 1], false)),
        Key::Null => Some((vec![0], false)),
        Key::Esc => Some((vec![0x1b], true)),
        _ => None,
    }
}

/// Answers as recorded, then nothing; panics if told to.
struct Recorded {
    answers: Vec<(String, Vec<String>)>,
    at: usize,
    panic_at: Option<usize>,
    /// `redo` on F(1), as the simulated session's observer does
    redo: bool,
    /// the terminal's width from each key on
    widths: Vec<usize>,
    key: usize,
}
impl Completer for Recorded {
    fn completions(&mut self, _start: &str) -> Vec<String> {
        let i = self.at;
        self.at += 1;
        if self.panic_at == Some(i) {
            panic!("the completer panics");
        }
        self.answers.get(i).map(|a| a.1.clone()).unwrap_or_default()
    }
    fn on_event<C: EditorContext>(&mut self, ev: liner::Event<C>) {
        if let liner::EventKind::BeforeKey(_) = ev.kind {
            if let (Some(w), Some(io)) = (self.widths.get(self.key), &mut sim().stdio) {
                io.cols = *w as u16;
            }
            self.key += 1;
        }
        if self.redo {
            if let liner::EventKind::BeforeKey(Key::F(1)) = ev.kind {
                let _ = ev.editor.redo();
            }
        }
    }
}

fn termios() -> libc::termios {
    let mut t: libc::termios = unsafe { std::mem::zeroed() };
    let word = || choose(0x1_0000) | choose(0x1_0000) << 16;
    t.c_iflag = word();
    t.c_oflag = word();
    t.c_cflag = word();
    t.c_lflag = word() | if chance(3, 4) { libc::ICANON | libc::ECHO | libc::ISIG } else { 0 };
    for c in t.c_cc.iter_mut() {
        *c = choose(256) as u8;
    }
    t.c_ispeed = choose(20);
    t.c_ospeed = choose(20);
    t
}
fn same(a: &libc::termios, b: &libc::termios) -> bool {
    a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && a.c_cc == b.c_cc && a.c_line == b.c_line
}
/// Every byte arrives as typed, at once, and is not echoed; output is not changed.
pub fn is_raw(t: &libc::termios) -> bool {
    t.c_lflag & (libc::ICANON | libc::ECHO | libc::ECHONL | libc::ISIG | libc::IEXTEN) == 0
        && t.c_iflag & (libc::ICRNL | libc::INLCR | libc::IGNCR | libc::ISTRIP | libc::IXON) == 0
        && t.c_oflag & libc::OPOST == 0
        && t.c_cflag & libc::CSIZE == libc::CS8
}

/// Nothing of this run may stay in the streams' buffers.
fn drain() {
    if let Some(io) = &mut sim().stdio {
        io.input.clear();
        io.pos = 0;
        io.tokens.clear();
        io.read_fault = 0;
        io.write_fault = 0;
        io.chunk = false;
        io.fail_read = None;
        io.fail_write_at = None;
        io.fail_width_at = None;
        io.watch = false;
    }
    let mut b = [0u8; 4096];
    while let Ok(n) = std::io::stdin().read(&mut b) {
        if n == 0 {
            break;
        }
    }
    let _ = std::io::stdout().flush();
}

pub fn c20(_: &'static str) {
    in_process(|| {
        run();
        drain();
    });
}

struct Line {
    keys: Vec<KeyEv>,
    answers: Vec<(String, Vec<String>)>,
    result: String,
    /// bytes drawn when each key was asked for, and at the end
    marks: Vec<usize>,
    total: usize,
    /// the terminal's width from each key on
    widths: Vec<usize>,
    cfg: Cfg,
}

fn show(r: &std::io::Result<String>) -> String {
    match r {
        Ok(t) => format!("Ok({:?})", t),
        Err(e) => format!("Err({:?})", e.kind()),
    }
}

fn run() {
    let mut width = *pick(&[80usize, 20, 40, 132, 1, 2, 3, 7, 300]);
    // what the same lines look like on a terminal without any trouble
    let mut c = context(width);
    let st = c.terminal.0.clone();
    let past: Vec<String> = (0..choose(4)).map(|i| (*pick(&["ls", "echo one", "é漢 x", "cd /tmp", "a b c d e f g h i j k l m n o p"])).to_string() + &i.to_string()).collect();
    c.history.buffers = past.iter().map(|s| liner::Buffer::from(s.as_str())).collect();
    let mut lines: Vec<Line> = vec![];
    let profile = *pick(&[Profile::Edit, Profile::Edit, Profile::Hist, Profile::Tab, Profile::Undo]);
    let resize = chance(1, 3);
    for _ in 0..range(1, 4) {
        let vi = chance(1, 3);
        let mut cfg = Cfg::basic("ANY", vi, profile);
        cfg.width = width;
        cfg.wide = chance(1, 3);
        cfg.resize_rest = resize;
        if resize && chance(1, 3) {
            width = *pick(&[80usize, 1, 2, 20, 100]);
            cfg.width = width;
        }
        cfg.head = (*pick(&["", "", "", "one\n", "one\ntwo\n\n"])).into();
        cfg.max_keys = range(1, 20) as usize;
        cfg.breaks = false;
        let e = session::run(&mut c, cfg.clone(), TtyFaults::default());
        if failed() {
            return;
        }
        let s = st.borrow();
        let r = match &e.result {
            Ok(r) => r,
            Err(_) => return,
        };
        let keys = s.keys.clone();
        let last = keys.last().cloned();
        lines.push(Line { keys, answers: s.answers.clone(), result: show(r), marks: s.marks.clone(), total: s.delivered.len(), widths: s.key_widths.clone(), cfg });
        width = s.cfg.width;
        if matches!(last, Some(KeyEv::End) | Some(KeyEv::Fail(_)) | None) {
            break;
        }
    }
    let want_out = st.borrow().delivered.clone();
    // as bytes
    let mut input: Vec<u8> = vec![];
    let mut tokens: Vec<Token> = vec![];
    let mut fail_read = None;
    let mut marks = vec![];
    for l in &lines {
        for (i, k) in l.keys.iter().enumerate() {
            marks.push(l.marks[i]);
            match k {
                KeyEv::Key(k) => match encode(*k) {
                    Some((b, alone)) => {
                        let esc = b[0] == 0x1b;
                        input.extend_from_slice(&b);
                        tokens.push(Token { end: input.len(), whole: esc, alone });
                    }
                    None => {
                        count("probe.key_without_bytes");
                        return;
                    }
                },
                KeyEv::End => {}
                KeyEv::Fail(_) => fail_read = Some(*pick(&[libc::EIO, libc::EBADF, libc::ENXIO, libc::EINVAL])),
            }
        }
    }
    let fail_read = fail_read.map(|e| if e == libc::EBADF { libc::EIO } else { e });
    let hard = chance(1, 5);
    let fail_width_at = if hard && chance(1, 4) { Some(choose(12)) } else { None };
    let soft = chance(2, 3);
    let panics = chance(1, 8);
    let orig = termios();
    let attr_fault = if chance(1, 6) { 500 } else { 0 };
    let no_tty = chance(1, 20);
    sim().stdio = Some(Stdio {
        input,
        pos: 0,
        tokens,
        marks,
        chunk: soft && chance(3, 4),
        output: vec![],
        // (a terminal that does not know its width reports 0)
        cols: 0,
        raw: false,
        attr: if no_tty { None } else { Some(orig) },
        orig: Some(orig),
        set_calls: 0,
        read_fault: if soft && chance(2, 3) { 200 } else { 0 },
        write_fault: if soft && chance(1, 2) { 150 } else { 0 },
        attr_fault,
        fail_read,
        fail_write_at: if hard && fail_width_at.is_none() { Some(choose(1 + lines.iter().map(|l| l.keys.len() as u32).sum::<u32>() * 2)) } else { None },
        write_failed: false,
        writes: 0,
        fail_width_at,
        widths: 0,
        watch: !hard && !panics,
    });
    let io = || sim().stdio.as_mut().unwrap();
    let created = guarded(Context::new);
    let mut ctx = match created {
        Err(m) => {
            violate(P, "panic", format!("creating a context panicked: {}", m));
            return;
        }
        Ok(Err(e)) => {
            if !no_tty && sim().counts.get("fault.tcgetattr").is_none() && sim().counts.get("fault.tcsetattr").is_none() {
                violate(P, "create", format!("creating a context failed without a reason: {}", e));
            }
            count("probe.not_created");
            if !no_tty && !same(io().attr.as_ref().unwrap(), &orig) {
                violate(P, "create_left", "creating a context failed and left the terminal's settings changed".into());
            }
            sim().nontrivial = true;
            return;
        }
        Ok(Ok(c)) => c,
    };
    if no_tty || sim().counts.contains_key("fault.tcgetattr") || sim().counts.contains_key("fault.tcsetattr") {
        violate(P, "create_ok", "a context was created though the terminal's settings could not be read or changed".into());
        return;
    }
    io().attr_fault = 0;
    let raw_now = |when: &str| {
        if !is_raw(sim().stdio.as_ref().unwrap().attr.as_ref().unwrap()) {
            violate(P, "not_raw", format!("the terminal is not in raw mode {}", when));
        }
    };
    raw_now("after the context was created");
    ctx.history.buffers = past.iter().map(|s| liner::Buffer::from(s.as_str())).collect();
    let panic_line = if panics { choose(lines.len() as u32) as usize } else { usize::MAX };
    let mut done = 0;
    for (i, l) in lines.iter().enumerate() {
        ctx.key_bindings = if l.cfg.vi { liner::KeyBindings::Vi } else { liner::KeyBindings::Emacs };
        let mut comp = Recorded { answers: l.answers.clone(), at: 0, panic_at: if i == panic_line { Some(choose(2) as usize) } else { None }, redo: true, widths: l.widths.clone(), key: 0 };
        // (a terminal that does not know its width reports 0)
        io().cols = if l.cfg.width == 80 && chance(1, 3) { 0 } else { l.cfg.width as u16 };
        let prompt = Prompt::from(format!("{}{}", l.cfg.head, l.cfg.last));
        let init = l.cfg.init.clone();
        io().widths = 0;
        trace!("line {} on the process's terminal", i);
        let r = guarded(|| (&mut ctx).read_line_with_init_buffer(prompt, &mut comp, None, init));
        let r = match r {
            Ok(r) => r,
            Err(m) => {
                if comp.panic_at.map_or(false, |p| comp.at > p) {
                    count("probe.completer_panic");
                    break;
                }
                violate(P, "panic", format!("reading a line panicked: {}", m));
                break;
            }
        };
        trace!("line {} -> {}", i, show(&r));
        if failed() {
            break;
        }
        raw_now("after a line was read");
        if io().write_failed {
            count("probe.write_failed");
            // (the observer can not pass on an error of its own redo)
            if r.is_ok() && !l.keys.contains(&KeyEv::Key(Key::F(1))) {
                violate(P, "swallowed", "writing to the terminal (or asking for its width) failed, reading the line reported success".into());
            }
            break;
        }
        if l.result != show(&r) && !(matches!(l.keys.last(), Some(KeyEv::Fail(_))) && r.is_err()) {
            violate(P, "result", format!("the line read from the terminal is {}, from the same keys one by one {}", show(&r), l.result));
            break;
        }
        if !hard {
            let n = io().output.len();
            if n != l.total || io().output[..] != want_out[..n.min(want_out.len())] {
                violate(P, "output", format!("after line {} the terminal was sent {:?}, a terminal without trouble {:?}", i, String::from_utf8_lossy(&io().output), String::from_utf8_lossy(&want_out[..l.total])));
                break;
            }
        }
        done += 1;
    }
    if sim().sample.len() < 40 {
        sim().sample.push(format!("{} of {} lines, {} bytes in, {} out, chunk {} hard {} -> {:?}", done, lines.len(), io().pos, io().output.len(), io().chunk, hard, lines.iter().map(|l| l.result.clone()).collect::<Vec<_>>()));
    }
    drop(ctx);
    if !same(io().attr.as_ref().unwrap(), &orig) {
        violate(P, "not_restored", "after the context was dropped the terminal's settings are not what they were".into());
    }
    sim().nontrivial = io().pos > 2;
}
