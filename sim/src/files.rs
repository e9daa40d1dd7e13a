//! C11: completing file names on a simulated directory tree.

use crate::scen::{context, in_process};
use crate::session::{self, Cfg, Profile, TtyFaults};
use crate::sim::*;
use crate::simfs::Node;
use crate::trace;
use liner::{Completer, FilenameCompleter};
use std::cell::RefCell;
use std::rc::Rc;

const P: &str = "C11";
const NAMES: &[&[u8]] = &[
    b"a", b"ab", b"abc", b"a b", b"b", b"B", b"Ab", b"foo", b"foo bar", b"fo", "éa".as_bytes(), "é".as_bytes(), "É".as_bytes(), "漢字".as_bytes(), b"f.txt", b".hid", b"..x", b"~", b"a\\b", b"a\xffb", b" ",
    b"a  b", b"'q'", b"o", b"'", b"\"",
];
const DIRS: &[&str] = &["/work", "/data", "/work/sub", "/work/sub/in", "/data/a b", "/work/é", "/work/.d", "/", "/data/B"];

struct Who {
    wd: Option<String>,
    case: bool,
}

/// The directory a word names, what the answers begin with, and the beginning of the name.
struct Named {
    dir: String,
    kept: String,
    name: String,
}

fn named(w: &Who, word: &str) -> Option<Named> {
    let t: String = match word.chars().next() {
        Some(q @ ('"' | '\'')) => {
            let rest = &word[1..];
            rest.strip_suffix(q).unwrap_or(rest).to_string()
        }
        _ => word.replace("\\ ", " "),
    };
    if t.contains("//") || t.contains("/./") || t.starts_with("./.") && t.len() == 3 {
        return None; // several ways to write the same thing
    }
    let cut = t.rfind('/').map_or(0, |i| i + 1);
    let (mut kept, mut name) = (t[..cut].to_string(), t[cut..].to_string());
    if name == "." || name == ".." {
        kept = format!("{}{}/", kept, name);
        name = String::new();
    }
    let dir = if kept.starts_with('/') {
        kept.clone()
    } else {
        let base = w.wd.clone().unwrap_or_default();
        let j = if base.is_empty() || base.ends_with('/') { format!("{}{}", base, kept) } else { format!("{}/{}", base, kept) };
        if j.is_empty() {
            ".".into()
        } else {
            j
        }
    };
    Some(Named { dir, kept, name })
}

fn tree() {
    for d in DIRS {
        // (a name put before may be in the way)
        if *d != "/" && chance(3, 4) {
            sim().fs.mkdirs(d.as_bytes());
        }
    }
    sim().fs.mkdirs(b"/work");
    for d in DIRS {
        if sim().fs.find(d.as_bytes(), true).is_err() {
            continue;
        }
        for _ in 0..choose(if *d == "/" { 4 } else { 9 }) {
            let mut p = d.as_bytes().to_vec();
            if p != b"/" {
                p.push(b'/');
            }
            p.extend_from_slice(pick(NAMES));
            put(&p);
        }
    }
}

fn put(p: &[u8]) {
    let cut = p.iter().rposition(|c| *c == b'/').unwrap_or(0).max(1);
    let up = sim().fs.find(&p[..cut], true);
    let free = matches!(up.map(|i| &sim().fs.inodes[i].node), Ok(Node::Dir(d)) if !d.contains_key(&p[p.iter().rposition(|c| *c == b'/').map_or(0, |i| i + 1)..]));
    if !free || p.ends_with(b"/") || p.ends_with(b"/.") || p.ends_with(b"/..") {
        return;
    }
    match weighted(&[6, 3, 1, 1, 1]) {
        0 => sim().fs.put(p, b"x"),
        1 => {
            let _ = sim().fs.mkdir(p, 0o755);
        }
        2 => sim().fs.put_link(p, b"/data"),
        3 => sim().fs.put_link(p, b"nowhere"),
        _ => sim().fs.put_link(p, b"/work/a"),
    }
}

fn component() -> String {
    let n = loop {
        let n = pick(NAMES);
        if let Ok(s) = std::str::from_utf8(n) {
            break s;
        }
    };
    // all of a name or its beginning
    let k = n.chars().count();
    let t = if chance(1, 2) { k } else { choose(k as u32 + 1) as usize };
    n.chars().take(t).collect()
}

fn word() -> String {
    let dir = match weighted(&[8, 4, 4, 2, 1, 1]) {
        0 => String::new(),
        1 => format!("{}/", pick(DIRS).trim_end_matches('/')),
        2 => (*pick(&["sub/", "sub/in/", "é/", ".d/", "a b/", "B/", "a/"])).to_string(),
        3 => (*pick(&["../", "./", "sub/../", "../data/", "../../", "/work/../", "sub/in/../../"])).to_string(),
        4 => (*pick(&["nowhere/", "/nowhere/x/", "f.txt/"])).to_string(),
        _ => format!("{}/", component()),
    };
    let name = match weighted(&[10, 3, 2, 1]) {
        0 => component(),
        1 => String::new(),
        2 => (*pick(&[".", "..", "...", "..x", ".h"])).to_string(),
        _ => (*pick(&["\0", "漢", "zz", "\u{301}", "a/b\0", "\u{FFFD}", "*", "~user"])).to_string(),
    };
    let t = format!("{}{}", dir, name);
    match weighted(&[8, 2, 1, 1, 1]) {
        0 => t.replace(' ', "\\ "),
        1 => t,
        2 => format!("\"{}", t),
        3 => format!("\"{}\"", t),
        _ => format!("'{}{}", t, if chance(1, 2) { "'" } else { "" }),
    }
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn snapshot() -> Vec<String> {
    let fs = &sim().fs;
    fs.inodes
        .iter()
        .map(|i| match &i.node {
            Node::File(d) => format!("file {:?} {}", d, i.mode),
            Node::Dir(d) => format!("dir {:?} {}", d, i.mode),
            Node::Link(l) => format!("link {:?} {}", l, i.mode),
        })
        .collect()
}

/// Ask the real completer and judge the answer.  `changing`: somebody changes the tree meanwhile.
fn ask(w: &Who, c: &mut FilenameCompleter, word: &str, changing: bool) -> Vec<String> {
    let n = named(w, word);
    let before = if changing { vec![] } else { snapshot() };
    let mark = sim().dirlog.len();
    let fds = sim().fs.fds.len();
    me().hard = 0;
    let there: Option<Vec<Vec<u8>>> = n.as_ref().and_then(|n| match sim().fs.find(n.dir.as_bytes(), true) {
        Ok(i) => match &sim().fs.inodes[i].node {
            Node::Dir(d) if !n.dir.contains('\0') => Some(d.keys().cloned().collect()),
            _ => None,
        },
        Err(_) => None,
    });
    let got = match crate::hist::call(P, "completions", || c.completions(word)) {
        Some(g) => g,
        None => return vec![],
    };
    trace!("file completer asked for {:?}: {:?}", word, got);
    let listed: Vec<Vec<u8>> = sim().dirlog[mark..].iter().filter(|n| *n != b"." && *n != b"..").cloned().collect();
    if !changing {
        if snapshot() != before {
            violate(P, "touched", format!("completing {:?} changed the file system", word));
        }
        if sim().dirs_open != 0 || sim().fs.fds.len() != fds {
            violate(P, "leak", format!("completing {:?} left {} directories and {} files open", word, sim().dirs_open, sim().fs.fds.len() - fds));
        }
    }
    let n = match n {
        Some(n) => n,
        None => return got,
    };
    let hard = me().hard;
    if hard > 0 {
        count("probe.faulted");
    }
    match &there {
        Some(t) if !changing => {
            // the listing was of that directory, and complete unless a fault cut it off
            let mut a = listed.clone();
            a.sort();
            a.dedup();
            if a.iter().any(|x| !t.contains(x)) || (hard == 0 && a.len() != t.len()) {
                violate(P, "wrong_dir", format!("completing {:?} did not list {:?} (but {:?})", word, n.dir, a.iter().map(|x| lossy(x)).collect::<Vec<_>>()));
                return got;
            }
        }
        None if !changing => {
            count("probe.no_directory");
            if !got.is_empty() {
                violate(P, "no_dir", format!("{:?} is not in a directory that can be read, the answer is {:?}", word, got));
            }
            return got;
        }
        _ => {}
    }
    let fold = |s: &str| if w.case { s.to_string() } else { s.to_lowercase() };
    // each entry listed, with and without a slash
    let mut want: Vec<(String, Option<bool>)> = vec![];
    for e in &listed {
        let name = lossy(e);
        if !fold(&name).starts_with(&fold(&n.name)) {
            continue;
        }
        let mut p = n.dir.clone().into_bytes();
        if !n.dir.ends_with('/') {
            p.push(b'/');
        }
        p.extend_from_slice(e);
        let dir = matches!(sim().fs.find(&p, true).map(|i| &sim().fs.inodes[i].node), Ok(Node::Dir(_)));
        want.push((format!("{}{}", n.kept, name).replace(' ', "\\ "), if changing { None } else { Some(dir) }));
    }
    if want.len() > 1 {
        count("probe.several");
    }
    let mut rest = got.clone();
    let mut missing = vec![];
    for (t, dir) in &want {
        let forms: Vec<String> = match dir {
            Some(true) if hard > 0 => vec![format!("{}/", t), t.clone()],
            Some(true) => vec![format!("{}/", t)],
            Some(false) => vec![t.clone()],
            None => vec![format!("{}/", t), t.clone()],
        };
        match rest.iter().position(|r| forms.contains(r)) {
            Some(i) => {
                rest.swap_remove(i);
            }
            None => missing.push(forms[0].clone()),
        }
    }
    if !missing.is_empty() || !rest.is_empty() {
        violate(
            P,
            "answer",
            format!("completing {:?} (directory {:?}, name {:?}) gives {:?}; missing {:?}, too many {:?}", word, n.dir, n.name, got, missing, rest),
        );
    }
    got
}

fn who() -> Who {
    Who {
        wd: match choose(7) {
            0 => None,
            1 | 2 => Some("/work".into()),
            3 => Some("/data/".into()),
            4 => Some("sub".into()),
            5 => Some((*pick(&["/nowhere", "..", ".", "/", "/work/f.txt", "", "/data/a b"])).into()),
            _ => Some("/work/sub".into()),
        },
        case: chance(2, 3),
    }
}
fn completer(w: &Who) -> FilenameCompleter {
    if w.case && chance(1, 2) {
        FilenameCompleter::new(w.wd.clone())
    } else {
        FilenameCompleter::with_case_sensitivity(w.wd.clone(), w.case)
    }
}

fn faults() {
    let c = &mut sim().cfg;
    c.budget = 3;
    c.dir_fail = *pick(&[0, 0, 60, 200]);
    c.stat_fail = *pick(&[0, 0, 100]);
}

fn direct() {
    in_process(|| {
        tree();
        faults();
        let w = who();
        let mut c = completer(&w);
        let mut found = 0;
        for _ in 0..range(1, 8) {
            if failed() {
                return;
            }
            let word = word();
            let a = ask(&w, &mut c, &word, false);
            found += a.len();
            if sim().sample.len() < 40 {
                sim().sample.push(format!("{:?} in {:?} -> {:?}", word, w.wd, a));
            }
            // a second question about one of the answers, as the next Tab would ask it
            if !a.is_empty() && chance(1, 3) {
                let again = pick(&a).clone();
                ask(&w, &mut c, &again, false);
            }
            if chance(1, 4) {
                let d = *pick(DIRS);
                put(format!("{}/{}", d.trim_end_matches('/'), component()).as_bytes());
            }
        }
        sim().nontrivial = found > 0;
    });
}

/// Somebody else changes the directories while they are listed.
fn changing() {
    tree();
    sim().switch_rate = *pick(&[150, 400, 700]);
    faults();
    let w = who();
    let a: Body = Box::new(move || {
        let mut c = completer(&w);
        for _ in 0..range(1, 6) {
            if failed() {
                return;
            }
            let word = word();
            let n = ask(&w, &mut c, &word, true).len();
            if n > 0 {
                sim().nontrivial = true;
            }
        }
    });
    let b: Body = Box::new(|| {
        for _ in 0..range(3, 25) {
            yield_point(false);
            if failed() {
                return;
            }
            let d = *pick(DIRS);
            let l = sim().fs.list(d.as_bytes());
            count("fault.tree_changed");
            if !l.is_empty() && chance(1, 2) {
                let n = pick(&l).clone();
                let mut p = format!("{}/", d.trim_end_matches('/')).into_bytes();
                p.extend_from_slice(&n);
                let _ = sim().fs.unlink(&p, false);
                let _ = sim().fs.unlink(&p, true);
                if chance(1, 3) {
                    put(&p);
                }
            } else if sim().fs.find(d.as_bytes(), true).is_ok() {
                let mut p = format!("{}/", d.trim_end_matches('/')).into_bytes();
                p.extend_from_slice(pick(NAMES));
                put(&p);
            }
        }
    });
    run_procs(vec![a, b]);
    if !failed() && sim().dirs_open != 0 {
        violate(P, "leak", format!("completing left {} directories open", sim().dirs_open));
    }
}

/// Tab in a real session.
fn typed() {
    in_process(|| {
        tree();
        faults();
        let w = who();
        let width = *pick(&[80usize, 30]);
        let mut c = context(width);
        let st = c.terminal.0.clone();
        let mut real = completer(&w);
        let answers = Rc::new(RefCell::new(0usize));
        {
            let answers = answers.clone();
            st.borrow_mut().files = Some(Box::new(move |word| {
                let a = ask(&w, &mut real, word, false);
                *answers.borrow_mut() += a.len();
                a
            }));
        }
        for _ in 0..range(1, 2) {
            if failed() {
                return;
            }
            let mut cfg = Cfg::basic(P, chance(1, 4), Profile::Tab);
            cfg.width = width;
            cfg.model = true;
            cfg.breaks = false;
            cfg.max_keys = range(3, 30) as usize;
            cfg.init = match choose(3) {
                0 => String::new(),
                1 => word().replace('\0', ""),
                _ => format!("ls {}", word().replace('\0', "")),
            };
            let e = session::run(&mut c, cfg, TtyFaults::default());
            if sim().sample.len() < 40 {
                let s = st.borrow();
                let k: Vec<String> = s.keys.iter().map(|k| format!("{:?}", k)).collect();
                sim().sample.push(format!("{} -> {:?}", k.join(" "), e.result));
            }
        }
        let n = *answers.borrow();
        sim().nontrivial = n > 0;
    });
}

pub fn c11(_: &'static str) {
    match choose(6) {
        0 | 1 | 2 => direct(),
        3 | 4 => typed(),
        _ => changing(),
    }
}
