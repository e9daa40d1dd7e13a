//! Scenarios around the line editor: C01 to C10.

use crate::hist::{self, PATH, PATHB};
use crate::session::{self, Cfg, Profile, SimTty, TtyFaults, S};
use crate::sim::*;
use crate::trace;
use liner::{Buffer, Context, History};
use std::io::ErrorKind;

type Ctx = Context<SimTty>;

pub fn in_process(f: impl FnOnce() + Send + 'static) {
    sim().cfg.budget = 4;
    run_procs(vec![Box::new(f)]);
    if let Some(p) = sim().procs.first().and_then(|p| p.panic.clone()) {
        violate("ANY", &format!("panic:{}", p.rsplit('(').next().unwrap_or("")), format!("it panicked: {}", p));
    }
}

pub fn context(width: usize) -> Ctx {
    let st = session::new_state(width);
    Context::with_terminal(SimTty(st))
}
fn state(c: &Ctx) -> session::Sh {
    c.terminal.0.clone()
}

const WORDS: &[&str] = &["ls", "ls -l", "als", "lsls", "l", "s", "a", "b", "ab", "ls", "a ls b", "sl", "éa"];
const LINES: &[&str] = &["echo one", "echo two three", "a", "ab", "abc d", "cd /tmp", "b.c-d e", "x", "  lead", "trail  ", "A b", "", "\\", "q\\ r s"];

/// What all the entries of a history may begin with.
const STEM: &str = "git commit -m é ";

/// Entries a history may hold before a session.
fn past(profile: Profile, breaks: bool, wide: bool) -> Vec<String> {
    let mut n = *pick(&[0usize, 1, 2, 3, 5, 8]);
    if profile == Profile::Hist && chance(1, 300) {
        n = range(400, 1100) as usize;
    } else if chance(1, 250) {
        n = range(30, 300) as usize;
    }
    let stem = if profile == Profile::Hist && chance(1, 15) { STEM } else { "" };
    (0..n)
        .map(|i| match weighted(&[8, if breaks { 2 } else { 0 }, if wide { 2 } else { 0 }, 1]) {
            // (what is looked for is a long way back)
            _ if n > 100 && i > 40 => format!("s{}", i),
            1 if profile == Profile::Hist => (*pick(&["ls\n-l", "a\nb", "l\ns", "ab\n\na", "\na", "ls\n"])).to_string(),
            _ if profile == Profile::Hist && chance(1, 200) => format!("{}{}", pick(WORDS), "zy ".repeat(range(60, 700) as usize)),
            _ if profile == Profile::Hist && chance(1, 12) => (*pick(&["Ls", "LS -l", "lS", "ÉA", "ls  -l", " ls"])).to_string(),
            _ if profile == Profile::Hist => format!("{}{}", pick(WORDS), if chance(1, 4) { i.to_string() } else { String::new() }),
            0 => (*pick(LINES)).to_string(),
            1 => (*pick(&["one\ntwo", "a\n", "if x\nthen y\nfi", "\nb", "for i in a b c\ndo\n  echo $i\ndone"])).to_string(),
            2 => (*pick(&["漢字 ok", "a漢", "e\u{301}t", "字字字字"])).to_string(),
            _ => format!("{} {}", pick(LINES), "z".repeat(range(5, if chance(1, 6) { 400 } else { 90 }) as usize)),
        })
        .map(|e| if stem.is_empty() || chance(1, 6) { e } else { format!("{}{}", stem, e) })
        .collect()
}

/// An initial line that one of the entries goes on from.
fn begun(v: &[String]) -> Option<String> {
    if v.is_empty() {
        return None;
    }
    let e: Vec<char> = pick(v).chars().collect();
    let mut n = choose(e.len() as u32 + 1) as usize;
    // (often where a row begins or ends)
    if let (Some(i), 1) = (e.iter().position(|c| *c == '\n'), choose(2)) {
        n = i + choose(2) as usize;
    }
    Some(e[..n].iter().collect())
}

fn fill(c: &mut Ctx, v: &[String]) {
    c.history.buffers = v
        .iter()
        .map(|s| {
            // (an application may store buffers that it edited)
            if chance(1, 4) {
                edited(s)
            } else {
                Buffer::from(s.as_str())
            }
        })
        .collect();
}

/// A buffer that has been edited and remembers how.
fn edited(s: &str) -> Buffer {
    let t: Vec<char> = s.chars().collect();
    let mut b = Buffer::from("zx");
    b.insert(0, &t);
    b.truncate(t.len());
    if chance(1, 2) {
        b.insert(t.len(), &['q']);
        b.undo();
    }
    b
}

/// A shared history on a file, and another session that writes to it now and then; with `faults` the
/// disk may fail and the file may vanish, too.
fn share(c: &mut Ctx, v: &[String], rate: u32, faults: bool) {
    let lines: Vec<String> = v.iter().filter(|s| !s.contains('\n') && !s.starts_with('#') && !s.is_empty()).cloned().collect();
    sim().fs.put(PATHB, &hist::serialize(&lines));
    c.history = hist::new_history(true, true, true, true);
    let _ = c.history.set_file_name_and_load_history(PATH);
    let mut other: Option<History> = None;
    let mut n = 0;
    if faults && chance(1, 3) {
        let cfg = &mut sim().cfg;
        cfg.budget = 6;
        cfg.eio_read = 80;
        cfg.open_fail = 100;
        cfg.stat_fail = 100;
        cfg.eio_write = 40;
        cfg.eintr = 40;
        cfg.short_read = 60;
    }
    state(c).borrow_mut().between = Some(Box::new(move || {
        if failed() || !chance(rate, 100) {
            return;
        }
        n += 1;
        count("probe.other_session_wrote");
        match choose(if faults { 9 } else { 8 }) {
            8 => {
                trace!("the history file is removed");
                sim().fs.remove(PATHB);
                other = None;
            }
            // a session that starts, and one that rewrites the file
            0 => {
                let mut h = hist::new_history(true, true, true, false);
                let _ = h.set_file_name_and_load_history(PATH);
                other = Some(h);
            }
            1 => {
                let f = sim().fs.get(PATHB).unwrap_or(b"").to_vec();
                let mut l = hist::decode(&hist::parse(&f));
                l.truncate(choose(l.len() as u32 + 1) as usize);
                sim().fs.put(PATHB, &hist::serialize(&l));
                trace!("the history file is cut down to {} entries", l.len());
            }
            _ => {
                let h = other.get_or_insert_with(|| {
                    let mut h = hist::new_history(true, true, true, false);
                    let _ = h.set_file_name_and_load_history(PATH);
                    h
                });
                let t = format!("{}{}", pick(WORDS), if chance(1, 2) { n.to_string() } else { String::new() });
                trace!("another session pushes {:?}", t);
                let _ = h.push(Buffer::from(t.as_str()));
            }
        }
    }));
}

fn prompt(cfg: &mut Cfg, plain: bool) {
    if cfg.vi && chance(1, 2) {
        cfg.status = Some(if plain || chance(2, 3) { ("[N] ".into(), "[I] ".into()) } else { ((*pick(&["\x1b[31mN\x1b[0m", "\x1b[1mN\x1b(B\x1b[m", "normal\n"])).into(), "".into()) });
    }
    cfg.last = (*pick(&["$ ", "", "> ", "\x1b[32muser@host\x1b[0m:~$ ", "a longer prompt than usual> ", "\x1b]0;title\x07# ", "\x1b]0;a title\x1b\\# ", "\x1b[1mme\x1b(B\x1b[m$ ", "\x1b]0;C:\\dir\x07> ", "\x1b*0\x1b+Bok "])).into();
    // (at the end of a full row it would erase the last character)
    if cfg.status.is_none() && chance(1, 10) {
        cfg.last = "\x1b[K% ".into();
    }
    if chance(1, 4) {
        cfg.head = (*pick(&["first\n", "\x1b[1mone\x1b[0m\ntwo\n", "\n", "one\ntwo\nthree\n", "\n\n", "one\n\n\nfour\n"])).into();
    }
}

/// What the application does with a finished line.
fn remember(c: &mut Ctx, e: &session::Ended) {
    if let Ok(Ok(t)) = &e.result {
        if !t.contains('\n') && chance(2, 3) {
            let _ = guarded(|| c.history.push(Buffer::from(t.as_str())));
        }
    }
}

/// Sessions one after the other on one context, judged against the reference model.
fn modelled(p: &'static str, vi: bool, profile: Profile) {
    in_process(move || {
        let width = *pick(&[80, 40, 20, 132, 7]);
        let mut c = context(width);
        let wide = chance(1, 4);
        let breaks = chance(1, if profile == Profile::Hist { 6 } else { 3 });
        let v = past(profile, breaks, wide);
        if chance(1, 4) {
            count("probe.shared_history");
            share(&mut c, &v, 12, true);
        } else {
            fill(&mut c, &v);
        }
        c.history.append_duplicate_entries = chance(1, 2);
        let n = range(1, 3);
        for _ in 0..n {
            if failed() {
                return;
            }
            let mut cfg = Cfg::basic(p, vi, profile);
            cfg.width = width;
            cfg.wide = wide;
            cfg.model = true;
            cfg.commas = chance(1, 6);
            cfg.breaks = profile != Profile::Hist || chance(1, 4);
            cfg.max_keys = range(4, if chance(1, 6) { 90 } else { 40 }) as usize;
            if chance(1, 80) {
                cfg.max_keys = range(120, 500) as usize;
            } else if chance(1, 1500) {
                cfg.max_keys = range(1000, 2500) as usize;
            }
            if vi {
                cfg.status = Some(("[N] ".into(), "[I] ".into()));
                cfg.mode_check = p == "C06" && width >= 20;
            }
            if chance(1, 3) {
                cfg.init = (*pick(&["init", "a b c", "foo.bar baz", "x", "ls"])).into();
                if chance(1, 3) {
                    cfg.init = begun(&v).unwrap_or_default();
                }
            }
            if v.iter().any(|e| e.starts_with(STEM)) && chance(1, 2) {
                cfg.init = STEM.into();
            }
            cfg.resize = !cfg.mode_check && chance(1, 5);
            if p == "C10" && chance(1, 6) {
                let n = range(0, 9) as usize;
                cfg.basic = Some((0..n).map(|_| (*pick(&["foo", "foobar", "fo o", "bar", "ba", "a", "ab", "abé", "f", "", "b/a", "é", "ﬀ", "Foo", "oof"])).to_string()).collect());
            }
            cfg.max_keys = cfg.max_keys.max(1);
            let faults = TtyFaults { eintr: if chance(1, 4) { 60 } else { 0 }, short: if chance(1, 4) { 100 } else { 0 }, ..TtyFaults::default() };
            let e = session::run(&mut c, cfg, faults);
            let st = state(&c);
            let used = interesting(&st.borrow(), profile);
            sim().nontrivial |= used;
            sample(&st.borrow(), &e);
            remember(&mut c, &e);
        }
    });
}

fn interesting(s: &S, profile: Profile) -> bool {
    use termion::event::Key::*;
    let n = |f: &dyn Fn(&termion::event::Key) -> bool| s.keys.iter().filter(|k| matches!(k, session::KeyEv::Key(k) if f(k))).count();
    let typed = n(&|k| matches!(k, Char(c) if *c != '\n' && *c != '\t'));
    match profile {
        Profile::Tab => n(&|k| *k == Char('\t')) > 1,
        Profile::Hist => !s.first_hist.is_empty() && s.keys.len() > 4,
        Profile::Undo => typed > 0 && n(&|k| matches!(k, Ctrl('x') | Char('u') | F(1) | Alt('r'))) > 0,
        _ => typed > 0 && s.keys.len() > 4,
    }
}

fn sample(s: &S, e: &session::Ended) {
    if sim().sample.len() < 40 {
        let k: Vec<String> = s.keys.iter().map(|k| format!("{:?}", k)).collect();
        sim().sample.push(format!("{} -> {:?}", k.join(" "), e.result));
    }
}

pub fn c05(p: &'static str) {
    modelled(p, false, Profile::Edit)
}
pub fn c06(p: &'static str) {
    modelled(p, true, Profile::Edit)
}
pub fn c08(p: &'static str) {
    let vi = chance(1, 4);
    modelled(p, vi, Profile::Hist)
}
pub fn c09(p: &'static str) {
    let vi = chance(1, 2);
    modelled(p, vi, Profile::Undo)
}
pub fn c10(p: &'static str) {
    let vi = chance(1, 4);
    modelled(p, vi, Profile::Tab)
}

/// A key map of the application's own on top of a built-in one.
pub fn c23(p: &'static str) {
    in_process(move || {
        let vi = chance(1, 2);
        let screen = chance(1, 3);
        let width = if screen { range(8, 60) as usize } else { *pick(&[80, 40, 20, 7]) };
        let profile = *pick(&[Profile::Edit, Profile::Hist, Profile::Undo, Profile::Tab]);
        let mut c = context(width);
        let wide = chance(1, 4);
        let v = past(profile, chance(1, 3), wide);
        if !screen && chance(1, 4) {
            count("probe.shared_history");
            share(&mut c, &v, 12, true);
        } else {
            fill(&mut c, &v);
        }
        for _ in 0..range(1, 3) {
            if failed() {
                return;
            }
            let mut cfg = Cfg::basic(p, vi, profile);
            cfg.own = true;
            cfg.width = width;
            cfg.wide = wide;
            cfg.model = true;
            cfg.commas = chance(1, 6);
            cfg.screen = screen;
            cfg.breaks = profile != Profile::Hist;
            cfg.max_keys = range(4, if chance(1, 6) { 90 } else { 40 }) as usize;
            if vi {
                cfg.status = Some(("[N] ".into(), "[I] ".into()));
                cfg.mode_check = !screen && width >= 60;
            }
            cfg.resize = !screen && !cfg.mode_check && chance(1, 6);
            if chance(1, 3) {
                cfg.init = (*pick(&["init", "a b c", "foo.bar baz", "x", "ls"])).into();
                if chance(1, 3) {
                    cfg.init = begun(&v).unwrap_or_default();
                }
            }
            let faults = TtyFaults { eintr: if chance(1, 4) { 60 } else { 0 }, short: if chance(1, 4) { 100 } else { 0 }, ..TtyFaults::default() };
            let e = session::run(&mut c, cfg, faults);
            let st = state(&c);
            sim().nontrivial |= st.borrow().keys.iter().filter(|k| matches!(k, session::KeyEv::Key(k) if crate::api::decode(*k).is_some())).count() > 2;
            sample(&st.borrow(), &e);
            if screen && !matches!(e.result, Ok(Ok(_))) {
                let mut s = st.borrow_mut();
                s.vt.feed("\r\n".repeat(20).as_bytes());
            }
            if st.borrow().off && screen {
                return;
            }
            remember(&mut c, &e);
        }
    });
}

/// Sessions watched through the events the completer gets.
pub fn c24(p: &'static str) {
    in_process(move || {
        let width = *pick(&[80usize, 20, 40]);
        let mut c = context(width);
        let v = past(Profile::Edit, true, true);
        if chance(1, 4) {
            share(&mut c, &v, 20, true);
        } else {
            fill(&mut c, &v);
        }
        for _ in 0..range(1, 2) {
            if failed() {
                return;
            }
            let vi = chance(1, 2);
            let mut cfg = Cfg::basic(p, vi, *pick(&[Profile::Edit, Profile::Tab, Profile::Hist, Profile::Any]));
            cfg.width = width;
            cfg.own = chance(1, 4);
            cfg.max_keys = range(1, 40) as usize;
            if chance(1, 3) {
                cfg.init = (*pick(&["init", "a b", "é"])).into();
            }
            let mut faults = TtyFaults { eintr: if chance(1, 4) { 60 } else { 0 }, short: if chance(1, 4) { 100 } else { 0 }, ..TtyFaults::default() };
            if chance(1, 6) {
                faults.fail_at = Some(choose(150) as u64);
                faults.fail_kind = Some(ErrorKind::BrokenPipe);
            }
            let e = session::run(&mut c, cfg, faults);
            let st = state(&c);
            sim().nontrivial |= st.borrow().keys.len() > 3;
            sample(&st.borrow(), &e);
            remember(&mut c, &e);
        }
    });
}

/// What a context holds besides the history's entries.
fn settings(c: &Ctx) -> String {
    use liner::KeyBindings::*;
    let h = &c.history;
    format!(
        "key bindings {}, file {:?}, append_duplicate_entries {}, inc_append {}, share {}, load_duplicates {}, limits {}",
        match c.key_bindings {
            Vi => "vi",
            Emacs => "emacs",
        },
        h.file_name(),
        h.append_duplicate_entries,
        h.inc_append,
        h.share,
        h.load_duplicates,
        limits(h)
    )
}

/// The history's limits, which only its debug format shows.
fn limits(h: &History) -> String {
    let mut h = h.clone();
    h.clear_history();
    let d = format!("{:?}", h);
    ["max_buffers_size: ", "max_file_size: "].iter().filter_map(|k| d.split_once(k)).map(|(_, r)| r.split(|c: char| !c.is_ascii_digit()).next().unwrap_or("").to_string()).collect::<Vec<_>>().join("/")
}

/// A context used for many lines, and by the application in between.
pub fn c25(p: &'static str) {
    in_process(move || {
        use std::fmt::Write;
        let width = *pick(&[80usize, 20, 40, 5]);
        let mut c = context(width);
        let v = past(Profile::Any, true, true);
        if chance(1, 3) {
            share(&mut c, &v, 15, true);
        } else {
            fill(&mut c, &v);
        }
        let mut own = String::new();
        let fds = sim().fs.fds.len();
        for _ in 0..range(1, 6) {
            if failed() {
                return;
            }
            if chance(1, 3) {
                let t = *pick(&["note", "漢\n", "", "x y"]);
                trace!("the application writes {:?} to the context", t);
                let r = guarded(|| c.write_str(t));
                own.push_str(t);
                if !matches!(r, Ok(Ok(()))) || c.buffer != own {
                    violate(p, "write", format!("{:?} was written to the context: {:?}, its buffer holds {:?}, expected {:?}", t, r, c.buffer, own));
                    return;
                }
            } else if chance(1, 4) {
                own.clear();
                c.buffer.clear();
            }
            let vi = chance(1, 2);
            let mut cfg = Cfg::basic(p, vi, *pick(&[Profile::Edit, Profile::Tab, Profile::Hist, Profile::Any]));
            cfg.width = width;
            cfg.wide = true;
            cfg.own = chance(1, 4);
            cfg.color = chance(1, 4);
            cfg.max_keys = range(1, 30) as usize;
            prompt(&mut cfg, false);
            if chance(1, 3) {
                cfg.init = (*pick(&["init", "a b", "é", "a\nb"])).into();
            }
            let mut faults = TtyFaults { eintr: if chance(1, 4) { 60 } else { 0 }, short: if chance(1, 4) { 100 } else { 0 }, ..TtyFaults::default() };
            if chance(1, 3) {
                faults.fail_at = Some(choose(80) as u64);
                faults.fail_kind = Some(ErrorKind::BrokenPipe);
            }
            // (a session is given its key bindings through the context)
            c.key_bindings = if vi { liner::KeyBindings::Vi } else { liner::KeyBindings::Emacs };
            let before = settings(&c);
            let e = session::run(&mut c, cfg, faults);
            let st = state(&c);
            sim().nontrivial |= st.borrow().keys.len() > 3;
            sample(&st.borrow(), &e);
            if c.buffer != own {
                violate(p, "buffer", format!("after the session the context's buffer holds {} bytes, before it {}", c.buffer.len(), own.len()));
            }
            let after = settings(&c);
            if after != before {
                violate(p, "settings", format!("after the session the context has {}, before it {}", after, before));
            }
            // (a file that is kept open from session to session would be fine)
            let open = sim().fs.fds.len();
            if open > fds + 1 {
                violate(p, "descriptors", format!("after the session {} files are open, before the first it were {}", open, fds));
            }
            remember(&mut c, &e);
        }
    });
}

pub fn c01(p: &'static str) {
    in_process(move || {
        let width = match choose(4) {
            0 => choose(6) as usize,
            1 => 80,
            2 => range(1, 30) as usize,
            _ => *pick(&[10usize, 200, 1000, 40]),
        };
        let mut c = context(width);
        let v = past(Profile::Any, true, true);
        let shared = chance(1, 5);
        if shared {
            share(&mut c, &v, 20, true);
        } else {
            fill(&mut c, &v);
        }
        for _ in 0..range(1, 3) {
            if failed() {
                return;
            }
            let vi = chance(1, 2);
            let mut cfg = Cfg::basic(p, vi, Profile::Any);
            cfg.width = width;
            cfg.wide = true;
            prompt(&mut cfg, false);
            if chance(1, 6) {
                cfg.last = (*pick(&["漢", "\x1b[", "\x1b", "\x1b]0;t\x07$", "\t", "\r", "x\x1b[3"])).into();
            }
            if chance(1, 3) {
                cfg.init = (*pick(&["init", "漢字", "a\nb", "\\", "\x1b[A", "e\u{301}", " ", "\n", "a b\\ c"])).into();
            }
            cfg.color = chance(1, 4);
            cfg.own = chance(1, 4);
            cfg.max_keys = range(1, if chance(1, 8) { 150 } else { 45 }) as usize;
            cfg.resize = chance(1, 4);
            let faults = TtyFaults { eintr: if chance(1, 4) { 60 } else { 0 }, short: if chance(1, 4) { 100 } else { 0 }, ..TtyFaults::default() };
            let e = session::run(&mut c, cfg, faults);
            let st = state(&c);
            sim().nontrivial |= st.borrow().keys.len() > 3;
            sample(&st.borrow(), &e);
            remember(&mut c, &e);
        }
    });
}

fn texts(c: &Ctx) -> Vec<String> {
    c.history.buffers.iter().map(|b| b.to_string()).collect()
}
/// What is left of the entries if everything done to them is taken back.
fn reverted(c: &Ctx) -> Vec<String> {
    c.history
        .buffers
        .iter()
        .map(|b| {
            let mut b = b.clone();
            b.revert();
            b.to_string()
        })
        .collect()
}

pub fn c02(p: &'static str) {
    in_process(move || {
        let width = *pick(&[80usize, 20, 5, 40]);
        let v = past(Profile::Any, true, true);
        let vi = chance(1, 2);
        let mut cfg = Cfg::basic(p, vi, Profile::Edit);
        cfg.width = width;
        cfg.wide = true;
        cfg.max_keys = range(1, 25) as usize;
        cfg.own = chance(1, 4);
        prompt(&mut cfg, false);
        // a healthy session first, to know what it does
        let mut c = context(width);
        fill(&mut c, &v);
        session::run(&mut c, cfg.clone(), TtyFaults::default());
        if failed() {
            return;
        }
        let (keys, answers, ops) = {
            let st = state(&c);
            let s = st.borrow();
            (s.keys.clone(), s.answers.clone(), s.ops)
        };
        let mut c = context(width);
        fill(&mut c, &v);
        let before = (texts(&c), reverted(&c));
        let st = state(&c);
        for _ in 0..range(1, 2) {
            let zero = chance(1, 6);
            let faults = TtyFaults {
                fail_at: Some(choose(ops.max(1) as u32) as u64),
                fail_kind: Some(*pick(&[ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof])),
                write_zero: zero,
                ..TtyFaults::default()
            };
            st.borrow_mut().replay = Some((keys.clone(), answers.clone()));
            let e = session::run(&mut c, cfg.clone(), faults);
            if failed() {
                return;
            }
            let hit = st.borrow().failed_with.is_some();
            sim().nontrivial |= hit;
            sample(&st.borrow(), &e);
            let after = (texts(&c), reverted(&c));
            if after != before {
                violate(p, "history", format!("after a terminal failure the history is {:?}, it was {:?}", after, before));
                return;
            }
        }
        // the next line on this context and on a fresh one
        st.borrow_mut().replay = None;
        let from = st.borrow().delivered.len();
        let mut next = cfg.clone();
        next.max_keys = range(1, 20) as usize;
        let a = session::run(&mut c, next.clone(), TtyFaults::default());
        if failed() {
            return;
        }
        let (keys, answers, bytes_a) = {
            let s = st.borrow();
            (s.keys.clone(), s.answers.clone(), s.delivered[from..].to_vec())
        };
        let mut d = context(width);
        fill(&mut d, &v);
        state(&d).borrow_mut().replay = Some((keys, answers.clone()));
        let b = session::run(&mut d, next, TtyFaults::default());
        if failed() {
            return;
        }
        let sd = state(&d);
        let sd = sd.borrow();
        let show = |e: &session::Ended| format!("{:?}", e.result.as_ref().map(|r| r.as_ref().map_err(|e| e.kind())));
        if show(&a) != show(&b) {
            violate(p, "next_result", format!("the line after a terminal failure is {}, on a fresh context {}", show(&a), show(&b)));
        } else if sd.answers != answers {
            violate(p, "next_completion", format!("after a terminal failure the completer is asked {:?}, on a fresh context {:?}", answers, sd.answers));
        } else if sd.delivered != bytes_a {
            violate(p, "next_screen", format!("what is drawn after a terminal failure differs from a fresh context: {:?} / {:?}", String::from_utf8_lossy(&bytes_a), String::from_utf8_lossy(&sd.delivered)));
        } else if texts(&c) != texts(&d) {
            violate(p, "history", format!("after the next line the history is {:?}, on a fresh context {:?}", texts(&c), texts(&d)));
        }
    });
}

pub fn c03(p: &'static str) {
    in_process(move || {
        let width = *pick(&[80usize, 20, 5, 40, 200]);
        let v = past(Profile::Any, true, true);
        let vi = chance(1, 2);
        let mut cfg = Cfg::basic(p, vi, if chance(1, 3) { Profile::Tab } else { Profile::Edit });
        cfg.width = width;
        cfg.wide = true;
        cfg.max_keys = range(1, 30) as usize;
        cfg.own = chance(1, 4);
        cfg.color = chance(1, 4);
        prompt(&mut cfg, false);
        if chance(1, 3) {
            cfg.init = "init é 漢".into();
            if chance(1, 20) {
                let n = *pick(&[300usize, 1100, 4200, 9000, 70_000]);
                cfg.init = "a long line é 漢 ".chars().cycle().take(n).collect();
            }
        }
        let mut a = context(width);
        fill(&mut a, &v);
        let ra = session::run(&mut a, cfg.clone(), TtyFaults::default());
        if failed() {
            return;
        }
        let sa = state(&a);
        let sa = sa.borrow();
        for round in 0..2 {
            let mut b = context(width);
            fill(&mut b, &v);
            let sb = state(&b);
            sb.borrow_mut().replay = Some((sa.keys.clone(), sa.answers.clone()));
            let f = if round == 0 { (300, 600) } else { (*pick(&[20, 100, 700]), *pick(&[20, 200, 950])) };
            let rb = session::run(&mut b, cfg.clone(), TtyFaults { eintr: f.0, short: f.1, ..TtyFaults::default() });
            if failed() {
                return;
            }
            let sb = sb.borrow();
            let show = |e: &session::Ended| format!("{:?}", e.result.as_ref().map(|r| r.as_ref().map_err(|e| e.kind())));
            if sa.delivered != sb.delivered {
                let i = sa.delivered.iter().zip(&sb.delivered).take_while(|(x, y)| x == y).count();
                violate(p, "bytes", format!("an interrupted terminal got {} bytes, an undisturbed one {}; they differ from byte {} on", sb.delivered.len(), sa.delivered.len(), i));
            } else if sa.marks != sb.marks {
                violate(p, "marks", "the same bytes were delivered at other times when the terminal interrupted writes".into());
            } else if show(&ra) != show(&rb) {
                violate(p, "result", format!("the terminal interrupting writes changed the result from {} to {}", show(&ra), show(&rb)));
            }
        }
        // something was drawn before the first key and after every key that changes the line
        if sa.marks.first() == Some(&0) {
            violate(p, "unflushed", "nothing had been delivered when the first key was asked for".into());
        }
        if me().touched_stdio > 0 {
            violate(p, "stray", format!("the session used the process's own terminal {} times", me().touched_stdio));
        }
        sim().nontrivial |= sa.keys.len() > 2;
        sample(&sa, &ra);
    });
}

pub fn c04(p: &'static str) {
    in_process(move || {
        let wide = chance(1, 3);
        let width = match choose(4) {
            0 => range(if wide { 2 } else { 1 }, 9) as usize,
            1 if chance(1, 4) => *pick(&[100usize, 128, 256, 257, 300, 400]),
            1 => 80,
            2 => range(10, 24) as usize,
            _ => range(8, 45) as usize,
        };
        let mut c = context(width);
        let v = past(if chance(1, 3) { Profile::Hist } else { Profile::Screen }, chance(1, 3), wide);
        if chance(1, 8) {
            count("probe.shared_history");
            share(&mut c, &v, 12, true);
        } else {
            fill(&mut c, &v);
        }
        // whatever is on the screen already
        {
            let st = state(&c);
            let mut s = st.borrow_mut();
            for _ in 0..choose(3) {
                s.vt.feed(b"earlier output\r\n");
            }
            let left = choose(width as u32) as usize;
            s.vt.feed("#".repeat(if chance(1, 2) { left } else { 0 }).as_bytes());
        }
        for _ in 0..range(1, 3) {
            if failed() {
                return;
            }
            let vi = chance(1, 3);
            let profile = *pick(&[Profile::Screen, Profile::Screen, Profile::Tab, Profile::Hist]);
            let mut cfg = Cfg::basic(p, vi, profile);
            cfg.width = width;
            cfg.wide = wide;
            cfg.screen = true;
            cfg.color = chance(1, 3);
            cfg.max_keys = range(2, if chance(1, 8) { 80 } else { 30 }) as usize;
            cfg.breaks = chance(1, 2);
            prompt(&mut cfg, false);
            if wide && chance(1, 5) {
                cfg.last = "漢> ".into();
            }
            if chance(1, 40) {
                cfg.last = format!("{}> ", "p".repeat(choose(width as u32 + 40) as usize));
            }
            if chance(1, 3) {
                cfg.init = match choose(6) {
                    4 | 5 => begun(&v).unwrap_or_default(),
                    0 if chance(1, 12) => "x".repeat(width * *pick(&[10usize, 30, 100, 260]) + choose(9) as usize),
                    0 => "x".repeat(width),
                    1 => "one\ntwo".into(),
                    2 => "y".repeat(choose(width as u32 * 2 + 3) as usize),
                    _ => "some words here".into(),
                };
            }
            let faults = TtyFaults { eintr: if chance(1, 5) { 60 } else { 0 }, short: if chance(1, 5) { 100 } else { 0 }, ..TtyFaults::default() };
            let e = session::run(&mut c, cfg, faults);
            let st = state(&c);
            sim().nontrivial |= st.borrow().keys.len() > 3 && !st.borrow().off;
            if st.borrow().off {
                count("probe.left_scope");
                return;
            }
            sample(&st.borrow(), &e);
            if failed() {
                return;
            }
            // only a finished session leaves a well-defined screen
            if !matches!(e.result, Ok(Ok(_))) && !st.borrow().model.gave_up {
                let mut s = st.borrow_mut();
                s.vt.feed(b"\r\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n");
            }
            remember(&mut c, &e);
        }
    });
}

pub fn c07(p: &'static str) {
    in_process(move || {
        let width = *pick(&[80usize, 20]);
        let mut c = context(width);
        let profile = *pick(&[Profile::Hist, Profile::Undo, Profile::Edit, Profile::Any]);
        let v = past(if chance(1, 2) { Profile::Hist } else { Profile::Edit }, true, true);
        let shared = chance(1, 3);
        let filed = shared || chance(1, 2);
        if filed {
            let lines: Vec<String> = v.iter().filter(|s| !s.contains('\n') && !s.starts_with('#')).cloned().collect();
            sim().fs.put(PATHB, &hist::serialize(&lines));
            c.history = hist::new_history(true, true, true, shared);
            let _ = c.history.set_file_name_and_load_history(PATH);
        } else {
            fill(&mut c, &v);
        }
        if chance(1, 3) {
            // entries that were themselves typed and edited
            for b in c.history.buffers.iter_mut() {
                b.insert(0, &['x']);
                b.remove(0, 1);
            }
        }
        let file = sim().fs.get(PATHB).map(|b| b.to_vec());
        let before = (texts(&c), reverted(&c));
        for _ in 0..range(1, 3) {
            if failed() {
                return;
            }
            let vi = chance(1, 2);
            let mut cfg = Cfg::basic(p, vi, profile);
            cfg.width = width;
            cfg.own = chance(1, 4);
            cfg.max_keys = range(3, 45) as usize;
            if chance(1, 4) {
                cfg.init = "l".into();
            }
            let mark = sim().fslog.len();
            let e = session::run(&mut c, cfg, TtyFaults::default());
            let st = state(&c);
            sim().nontrivial |= !before.0.is_empty() && st.borrow().keys.len() > 4;
            sample(&st.borrow(), &e);
            let after = (texts(&c), reverted(&c));
            if after.0 != before.0 {
                violate(p, "history", format!("after the session the history is {:?}, it was {:?}", after.0, before.0));
            } else if !shared && after.1 != before.1 {
                violate(p, "revert", format!("reverting the history's entries gives {:?}, before the session it gave {:?}", after.1, before.1));
            }
            let now = sim().fs.get(PATHB).map(|b| b.to_vec());
            if now != file {
                violate(p, "file", format!("the session changed the history file from {:?} to {:?}", file.as_ref().map(|f| hist::lossy(f)), now.map(|f| hist::lossy(&f))));
            }
            if let Some(ev) = sim().fslog[mark..].iter().find(|e| matches!(e.kind, "write" | "open_trunc" | "truncate" | "unlink" | "rename")) {
                violate(p, "file", format!("the session did {} on a file", ev.kind));
            }
        }
    });
}
