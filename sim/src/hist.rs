//! Scenarios for the history: C12 (durable append), C13 (save), C14 (interrupted rewrite),
//! C15 (limits), C16 (concurrent appends), C18 (loading), C19 (duplicates).
//! The code under test is the real `liner::History` on the simulated file system.

use crate::sim::*;
use crate::trace;
use liner::{Buffer, History};

pub const PATH: &str = "/work/hist";
pub const PATHB: &[u8] = b"/work/hist";
pub const OTHER: &str = "/work/other";

/// The history file's path: mostly the plain one, sometimes one that is unusual (bytes that are not
/// UTF-8, blanks).
fn some_path() -> (&'static std::path::Path, &'static [u8]) {
    use std::os::unix::ffi::OsStrExt;
    let b: &'static [u8] = if chance(1, 10) { *pick(&[&b"/work/hi\xffst"[..], b"/work/my history \xc3\xa9"]) } else { PATHB };
    (std::path::Path::new(std::ffi::OsStr::from_bytes(b)), b)
}

/// What a history file's bytes mean: its lines without comments (bytes, not yet decoded).
pub fn parse(data: &[u8]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut rest = data;
    while !rest.is_empty() {
        let (mut line, nl) = match rest.iter().position(|c| *c == b'\n') {
            Some(i) => {
                let l = &rest[..i];
                rest = &rest[i + 1..];
                (l, true)
            }
            None => {
                let l = rest;
                rest = &[];
                (l, false)
            }
        };
        if nl && line.last() == Some(&b'\r') {
            line = &line[..line.len() - 1];
        }
        if line.first() != Some(&b'#') {
            out.push(line.to_vec());
        }
    }
    out
}
pub fn lossy(v: &[u8]) -> String {
    String::from_utf8_lossy(v).into_owned()
}
pub fn decode(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|l| lossy(l)).collect()
}
pub fn entries(h: &History) -> Vec<String> {
    h.buffers.iter().map(|b| b.to_string()).collect()
}
pub fn last_n(v: &[String], n: usize) -> Vec<String> {
    v[v.len().saturating_sub(n)..].to_vec()
}
/// Each text once, at its newest occurrence.
pub fn dedup_newest(v: &[String]) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for x in v.iter().rev() {
        if !out.contains(x) {
            out.push(x.clone());
        }
    }
    out.reverse();
    out
}
pub fn serialize(v: &[String]) -> Vec<u8> {
    let mut o = Vec::new();
    for x in v {
        o.extend_from_slice(x.as_bytes());
        o.push(b'\n');
    }
    o
}
pub fn show(v: &[String]) -> String {
    let f: Vec<String> = v
        .iter()
        .map(|s| {
            if s.chars().count() > 24 {
                let head: String = s.chars().take(16).collect();
                format!("{:?}..({}B)", head, s.len())
            } else {
                format!("{:?}", s)
            }
        })
        .collect();
    if f.len() > 24 {
        format!("[{} ... {}] ({} entries)", f[..8].join(","), f[f.len() - 8..].join(","), f.len())
    } else {
        format!("[{}]", f.join(","))
    }
}

/// A text no other call returns, storable on one line.
pub fn unique(tag: usize, k: usize, allow_huge: bool) -> String {
    // no text is a leading part of another one
    let base = format!("<s{}-{}>", tag, k);
    match weighted(&[50, 12, 12, 8, 6, if allow_huge { 6 } else { 0 }, 4, 4]) {
        0 => base,
        1 => format!("{} é漢字 ok", base),
        2 => format!(" {}  --flag 'q' ", base),
        3 => format!("{}{}", base, "x".repeat(range(1, 200) as usize)),
        4 => format!("{} # not a comment \\", base),
        6 => format!(" # {}", base),
        7 => format!("\u{feff}{}\ta\u{2028}b\u{85}\x0b\u{a0}", base),
        _ => {
            let n = if chance(1, 30) { range(60_000, 140_000) } else { range(8000, 20000) } as usize;
            format!("{}{}", base, "y".repeat(n))
        }
    }
}

pub const POOL: &[&str] = &[
    "ls", "ls ", "cd", "a", "A", "ls -l", " ls", "é", "e\u{301}", "l", "", "aa", " #a", "ls\t", "ls\u{a0}",
];

/// A text from the pool, or one of a family of long ones that differ in a single character.
fn pooled() -> String {
    if chance(1, 12) {
        let n = *pick(&[3usize, 31, 63, 64, 127, 255, 256, 1030]);
        let m = *pick(&[0usize, 0, 1, 64, 300]);
        count("probe.long_twin");
        return format!("{}{}{}", "p".repeat(n), *pick(&["a", "b", "é", "è"]), "q".repeat(m));
    }
    (*pick(POOL)).to_string()
}

pub fn new_history(dups: bool, app: bool, inc: bool, share: bool) -> History {
    let mut h = History::new();
    // (only what differs from the documented defaults is set)
    if !dups {
        h.load_duplicates = false;
    }
    if app {
        h.append_duplicate_entries = true;
    }
    if inc {
        h.inc_append = true;
    }
    if share {
        h.share = true;
    }
    h
}

fn io_ok<T>(r: &Result<std::io::Result<T>, String>) -> Option<bool> {
    match r {
        Ok(Ok(_)) => Some(true),
        Ok(Err(_)) => Some(false),
        Err(_) => None,
    }
}

/// Call into the code under test; a panic is a violation of whatever is being checked.
pub fn call<R>(prop: &'static str, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match guarded(f) {
        Ok(r) => Some(r),
        Err(m) => {
            violate(prop, &format!("panic:{}", m.rsplit('(').next().unwrap_or("")), format!("{} panicked: {}", what, m));
            None
        }
    }
}

fn some_lines(n: u32) -> Vec<String> {
    let k = choose(n + 1);
    (0..k)
        .map(|i| match choose(4) {
            0 | 1 => format!("old{}", i),
            2 => format!("old{} é {}", i, "z".repeat(choose(40) as usize)),
            _ => (*pick(POOL)).to_string(),
        })
        .collect()
}

// ------------------------------------------------------------------------------------------ C12

#[derive(Clone, Debug)]
struct Rec {
    text: String,
    acked: bool,
}

/// Is `line` a leading part of `text` (a compaction may since have replaced the broken last
/// character)?
fn torn_of(line: &[u8], text: &str) -> bool {
    text.as_bytes().starts_with(line)
        || match line.strip_suffix("\u{FFFD}".as_bytes()) {
            Some(head) => text.as_bytes().starts_with(head),
            None => false,
        }
}

/// Do the file's lines fit the records?  Acked records appear whole; others whole, as a leading
/// part, or not at all; nothing else appears (a bare line end may remain of a torn record).
fn fits(lines: &[Vec<u8>], recs: &[Rec]) -> Result<(), String> {
    // reachable positions in `recs` after consuming each line
    let mut pos: Vec<usize> = vec![0];
    for (n, line) in lines.iter().enumerate() {
        let mut next: Vec<usize> = Vec::new();
        for &p in &pos {
            let mut q = p;
            while q < recs.len() {
                let r = &recs[q];
                let m = if r.acked {
                    *line == r.text.as_bytes()
                } else {
                    torn_of(line, &r.text)
                };
                if m && !next.contains(&(q + 1)) {
                    next.push(q + 1);
                }
                if r.acked {
                    break;
                }
                // what a torn record leaves may be followed by a bare line end
                if line.is_empty() && !next.contains(&(q + 1)) {
                    next.push(q + 1);
                }
                q += 1;
            }
        }
        if next.is_empty() {
            return Err(format!("line {} {:?} does not belong there", n, clip(&lossy(line))));
        }
        pos = next;
    }
    let ok = pos.iter().any(|p| recs[*p..].iter().all(|r| !r.acked));
    if ok {
        Ok(())
    } else {
        let p = *pos.iter().max().unwrap();
        let miss: Vec<String> = recs[p..].iter().filter(|r| r.acked).map(|r| clip(&r.text)).collect();
        Err(format!("acknowledged entries are missing: {:?}", miss))
    }
}
pub fn clip(s: &str) -> String {
    let n = s.chars().count();
    if n > 40 {
        let h: String = s.chars().take(20).collect();
        format!("{}..({} chars)", h, n)
    } else {
        s.to_string()
    }
}

pub fn c12(_: &'static str) {
    const P: &str = "C12";
    let (path, pathb) = some_path();
    // prior content
    let mut recs: Vec<Rec> = Vec::new();
    let exists = choose(4) > 0;
    if exists {
        let mut data = Vec::new();
        let old = some_lines(5);
        for (i, l) in old.iter().enumerate() {
            // (compaction removes duplicates: keep the prior lines distinct)
            if l.is_empty() || old[..i].contains(l) {
                continue;
            }
            if chance(1, 6) {
                data.extend_from_slice(b"# comment\n");
            }
            data.extend_from_slice(l.as_bytes());
            data.push(b'\n');
            recs.push(Rec {
                text: l.clone(),
                acked: true,
            });
        }
        if !data.is_empty() && chance(1, 5) {
            data.pop(); // a last line without line end (hand-edited file)
            count("probe.unterminated_prior");
        }
        sim().fs.put(pathb, &data);
    }
    let share = chance(1, 4);
    let dups = !chance(1, 4);
    let app = chance(1, 2);
    let mode = choose(4); // 0 no faults, 1 soft faults, 2 crashes, 3 crashes + disk errors
    {
        let c = &mut sim().cfg;
        c.torn = true;
        c.budget = 3;
        if mode >= 1 {
            c.eintr = 40;
            c.short_write = 150;
            c.short_read = 60;
        }
        if mode == 3 {
            c.enospc = 30;
            c.eio_write = 30;
            c.open_fail = 15;
        }
    }
    let total = range(1, if dups { 12 } else { 45 });
    run_procs(vec![Box::new(move || {
        let mut k = 0;
        let mut crashes = 0;
        let mut recs = recs;
        loop {
            // one incarnation
            let saved = sim().cfg.clone();
            if mode == 3 {
                sim().cfg.open_fail = 0;
            }
            let mut h = new_history(dups, app, true, share);
            me().hard = 0;
            let r = match call(P, "set_file_name_and_load_history", || h.set_file_name_and_load_history(path)) {
                Some(r) => r,
                None => return,
            };
            sim().cfg = saved;
            if !dead() {
                if let Err(e) = &r {
                    if me().hard == 0 {
                        violate(P, "start-failed", format!("starting failed without a fault: {}", e));
                    }
                    // disk trouble at start: this session does not use the file
                    return;
                }
                let lines = parse(sim().fs.get(pathb).unwrap_or(b""));
                if let Err(e) = fits(&lines, &recs) {
                    violate(P, "restart", format!("after restart: {}; file {}", e, show(&decode(&lines))));
                    return;
                }
                let want = decode(&lines);
                let want = if dups { want } else { dedup_newest(&want) };
                if entries(&h) != want {
                    violate(P, "load", format!("loaded {} but the file holds {}", show(&entries(&h)), show(&want)));
                    return;
                }
                if crashes > 0 {
                    count("probe.restart_after_crash");
                }
            }
            if !dead() && mode >= 2 && crashes < 3 && chance(3, 4) {
                let now = me().ops;
                me().crash_at = Some(now + 1 + choose(30) as u64);
            }
            while k < total && !dead() {
                k += 1;
                let text = if dups && app && chance(1, 10) { (*pick(&["", " ", "a", "ls"])).to_string() } else { unique(0, k as usize, true) };
                trace!("push {:?}", clip(&text));
                me().hard = 0;
                let mark = sim().fslog.len();
                let r = match call(P, "push", || h.push(Buffer::from(text.as_str()))) {
                    Some(r) => r,
                    None => return,
                };
                let acked = !dead() && me().hard == 0;
                if me().hard > 0 && sim().fslog[mark..].iter().any(|e| e.kind == "open_trunc" && e.res >= 0) {
                    // an interrupted compaction: C14's subject
                    count("probe.compaction_interrupted");
                    return;
                }
                if acked && r.is_err() {
                    violate(P, "push-error", format!("push failed without a fault: {:?}", r));
                    return;
                }
                recs.push(Rec { text, acked });
                if acked {
                    count("probe.acked_push");
                }
                if !dead() {
                    if let Some(b) = h.buffers.back() {
                        if b.to_string() != recs.last().unwrap().text {
                            violate(P, "memory", "the pushed entry is not the newest in memory".into());
                            return;
                        }
                    }
                    let lines = parse(sim().fs.get(pathb).unwrap_or(b""));
                    if let Err(e) = fits(&lines, &recs) {
                        violate(P, "after-push", format!("after push: {}; file {}", e, show(&decode(&lines))));
                        return;
                    }
                    if mode == 3 && chance(1, 6) {
                        sim().fs.capacity = None; // someone freed space
                    }
                    if chance(1, 12) {
                        break; // leave and start again
                    }
                }
            }
            if dead() {
                crashes += 1;
                drop(h);
                revive();
                sim().fs.capacity = None;
                continue;
            }
            drop(h);
            if k >= total {
                break;
            }
        }
        sim().nontrivial = k > 1 && (crashes > 0 || mode < 2);
        sim().sample.push(format!("{} pushes, mode {}, {} crashes, dups={} share={}", k, mode, crashes, dups, share));
        // a last observer after everything
        sim().cfg = FaultCfg::default();
        sim().fs.capacity = None;
        me().crash_at = None;
        let mut h = History::new();
        let lines = parse(sim().fs.get(pathb).unwrap_or(b""));
        if let Err(e) = fits(&lines, &recs) {
            violate(P, "final", format!("at the end: {}; file {}", e, show(&decode(&lines))));
            return;
        }
        if let Some(Ok(_)) = call(P, "load", || h.set_file_name_and_load_history(path)) {
            if entries(&h) != decode(&lines) {
                violate(P, "final-load", format!("loaded {} but the file holds {}", show(&entries(&h)), show(&decode(&lines))));
            }
        } else {
            violate(P, "final-load", "final load failed".into());
        }
    })]);
}

// ------------------------------------------------------------------------------------------ C13

fn storable(k: usize) -> String {
    match choose(6) {
        0 | 1 => (*pick(POOL)).to_string(),
        2 => format!("cmd{} {}", k, "w".repeat(choose(120) as usize)),
        3 => format!("π{} 漢字 \t x", k),
        4 => unique(9, k, true),
        _ => format!("c{}", k),
    }
}

pub fn c13(_: &'static str) {
    const P: &str = "C13";
    let (path, pathb) = some_path();
    if choose(2) == 1 {
        let old = some_lines(30);
        let d = serialize(&old);
        sim().fs.put(pathb, &d);
    }
    let mode = choose(3);
    {
        let c = &mut sim().cfg;
        c.budget = 2;
        if mode >= 1 {
            c.eintr = 60;
            c.short_write = 200;
            c.short_read = 80;
        }
        if mode == 2 {
            c.enospc = 150;
            c.eio_write = 150;
            c.open_fail = 100;
        }
    }
    let n = choose(40) as usize;
    let limit = if chance(1, 2) { 1000 } else { choose(20) as usize };
    let app = chance(1, 2);
    let dups = chance(2, 3);
    let share = chance(1, 4);
    // the history may have logged its entries to another file, or to this one, before
    let logged = if chance(1, 3) { 1 + choose(2) } else { 0 };
    run_procs(vec![Box::new(move || {
        let mut h = new_history(dups, app, logged > 0, share);
        h.set_max_file_size(limit);
        let mut saves = 0;
        if logged > 0 {
            let saved = sim().cfg.clone();
            sim().cfg.budget = 0;
            let r = call(P, "start", || h.set_file_name_and_load_history(if logged == 1 { std::path::Path::new(OTHER) } else { path }));
            sim().cfg = saved;
            if r.is_none() {
                return;
            }
        }
        let stop = if logged > 0 { choose(n as u32 + 1) as usize } else { n };
        for k in 0..n {
            if k == stop {
                h.inc_append = false;
            }
            let _ = h.push(Buffer::from(storable(k)));
        }
        h.inc_append = false;
        for round in 0..range(1, 3) {
            if round > 0 {
                let _ = h.push(Buffer::from(storable(100 + round as usize)));
            }
            let want = last_n(&entries(&h), limit);
            me().hard = 0;
            let before = me().ops;
            if logged == 2 && chance(1, 3) {
                // (reports nothing, so only a save that met no fault can be judged)
                if call(P, "commit_to_file", || h.commit_to_file()).is_none() {
                    return;
                }
                let data = sim().fs.get(pathb).unwrap_or(b"").to_vec();
                if me().hard == 0 && data != serialize(&want) {
                    violate(P, "content", format!(
                        "commit_to_file without a fault left {} in the file instead of {}",
                        show(&decode(&parse(&data))), show(&want)));
                    return;
                }
                me().hard = 0;
            }
            let r = match call(P, "commit_to_file_path", || h.commit_to_file_path(path)) {
                Some(r) => r,
                None => return,
            };
            trace!("commit -> {:?}", r.is_ok());
            let kept = entries(&h);
            if kept.len() < want.len() || kept[kept.len() - want.len()..] != want[..] {
                violate(P, "memory", format!(
                    "saving left {} in memory, so that {} can not be saved any more", show(&kept), show(&want)));
                return;
            }
            saves += 1;
            let hard = me().hard;
            let data = sim().fs.get(pathb).unwrap_or(b"").to_vec();
            match r {
                Ok(_) => {
                    if hard > 0 {
                        count("probe.ok_despite_fault");
                    }
                    if data != serialize(&want) {
                        violate(P, if hard > 0 { "dishonest" } else { "content" }, format!(
                            "save reported success ({} injected failures, {} file operations) but the file holds {} instead of {}",
                            hard, me().ops - before, show(&decode(&parse(&data))), show(&want)));
                        return;
                    }
                    // read it back, still under soft faults
                    let saved = sim().cfg.clone();
                    sim().cfg.open_fail = 0;
                    let mut g = History::new();
                    g.set_max_file_size(limit.max(1));
                    let back = call(P, "load", || g.set_file_name_and_load_history(path));
                    sim().cfg = saved;
                    match back {
                        Some(Ok(_)) => {
                            let storable_want: Vec<String> = want.iter().filter(|s| !s.starts_with('#')).cloned().collect();
                            if entries(&g) != storable_want {
                                violate(P, "round-trip", format!("saved {} but loaded {}", show(&want), show(&entries(&g))));
                                return;
                            }
                        }
                        Some(Err(e)) => {
                            violate(P, "load-error", format!("loading a saved file failed: {}", e));
                            return;
                        }
                        None => return,
                    }
                }
                Err(e) => {
                    count("probe.save_error");
                    if hard == 0 {
                        violate(P, "spurious-error", format!("save failed without a fault: {}", e));
                        return;
                    }
                    sim().fs.capacity = None;
                }
            }
        }
        sim().nontrivial = n > 0 && saves > 0;
        sim().sample.push(format!("{} entries, limit {}, {} saves, mode {}", n, limit, saves, mode));
    })]);
}

// ------------------------------------------------------------------------------------------ C14

fn is_subsequence(a: &[String], b: &[String]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| y == x))
}

pub fn c14(_: &'static str) {
    const P: &str = "C14";
    let compaction = choose(2) == 1;
    let mode = 1 + choose(4); // 1 crash, 2 ENOSPC, 3 EIO on write, 4 read/open failure (compaction)
    let small = chance(1, 2);
    run_procs(vec![Box::new(move || {
        let mut h;
        let limit = if chance(1, 2) { 1000 } else { range(3, 40) as usize };
        let old: Vec<String>;
        if compaction {
            let lines = some_lines(25);
            sim().fs.put(PATHB, &serialize(&lines));
            let share = choose(2) == 1;
            h = new_history(false, chance(1, 2), true, share);
            h.set_max_file_size(limit);
            if call(P, "start", || h.set_file_name_and_load_history(PATH)).is_none() {
                return;
            }
            for k in 0..29 {
                let t = if chance(2, 3) { format!("{}{}", POOL[k % POOL.len()], k / 12) } else { unique(1, k, !small) };
                if call(P, "push", || h.push(Buffer::from(t.as_str()))).is_none() {
                    return;
                }
            }
        } else {
            let lines = some_lines(40);
            sim().fs.put(PATHB, &serialize(&lines));
            h = new_history(true, true, false, false);
            h.set_max_file_size(limit);
            if call(P, "start", || h.set_file_name_and_load_history(PATH)).is_none() {
                return;
            }
            for k in 0..choose(10) {
                let t = unique(1, k as usize, !small);
                let _ = h.push(Buffer::from(t.as_str()));
            }
            if !small {
                for k in 0..4 {
                    let t = format!("big{}{}", k, "q".repeat(range(3000, 9000) as usize));
                    let _ = h.push(Buffer::from(t.as_str()));
                }
            }
        }
        let before = sim().fs.get(PATHB).unwrap_or(b"").to_vec();
        old = decode(&parse(&before));
        let item = unique(2, 99, !small);
        // what a finished rewrite holds
        let new: Vec<String> = if compaction {
            let mut all = old.clone();
            all.push(item.clone());
            dedup_newest(&last_n(&all, limit))
        } else {
            last_n(&entries(&h), limit)
        };
        // the disturbance
        me().hard = 0;
        let at = 1 + choose(14) as u64;
        {
            let now = me().ops;
            let c = &mut sim().cfg;
            c.budget = 1;
            match mode {
                1 => {
                    c.torn = true;
                    me().crash_at = Some(now + at);
                }
                2 => c.enospc = 300,
                3 => c.eio_write = 300,
                _ => {
                    c.eio_read = 300;
                    c.open_fail = 150;
                    c.stat_fail = 100;
                }
            }
        }
        let mark = sim().fslog.len();
        trace!("{} under fault mode {}", if compaction { "30th push" } else { "save" }, mode);
        let ok = if compaction {
            call(P, "push", || h.push(Buffer::from(item.as_str()))).is_some()
        } else {
            call(P, "commit", || h.commit_to_file_path(PATH)).is_some()
        };
        if !ok {
            return;
        }
        let crashed = dead();
        let hard = me().hard;
        me().crash_at = None;
        let wfault = sim().fslog[mark..].iter().any(|e| e.kind == "write" && e.res < 0) || sim().fs.capacity.is_some();
        let truncated = sim().fslog[mark..].iter().any(|e| e.kind == "open_trunc" || e.kind == "ftruncate");
        sim().cfg = FaultCfg::default();
        sim().fs.capacity = None;
        let exists = sim().fs.get(PATHB).is_some();
        let data = sim().fs.get(PATHB).unwrap_or(b"").to_vec();
        let now = decode(&parse(&data));
        let full = serialize(&new);
        let mut appended = before.clone();
        appended.extend_from_slice(item.as_bytes());
        appended.push(b'\n');
        if hard > 0 {
            count("probe.rewrite_disturbed");
        }
        if truncated {
            count("probe.rewrite_reached");
        }
        sim().nontrivial = hard > 0 || crashed;
        sim().sample.push(format!("{} mode {} at {} hard {} old {} new {}", if compaction { "compaction" } else { "save" }, mode, at, hard, old.len(), new.len()));
        // entries that must survive
        let keep: Vec<String> = old.iter().filter(|x| new.contains(x)).cloned().collect();
        let keep = if compaction { dedup_newest(&keep) } else { keep };
        let mut allowed_torn = false;
        // each line is an old entry, a new one, or (its writing cut short) a leading part of the item
        let mut bad_line = None;
        for (i, l) in now.iter().enumerate() {
            let last = i + 1 == now.len();
            let known = old.contains(l) || new.contains(l) || *l == item;
            if !known {
                if last && hard > 0 && compaction && (item.starts_with(l.as_str()) || l.ends_with('\u{fffd}')) {
                    allowed_torn = true;
                    continue;
                }
                bad_line = Some(clip(l));
            }
        }
        let _ = allowed_torn;
        let survives = {
            let d = dedup_newest(&now);
            if compaction { keep.iter().all(|x| d.contains(x)) && in_order(&keep, &now) } else { is_subsequence(&keep, &now) || *now == new }
        };
        if bad_line.is_some() || !survives {
            // the rewrite is done in place: a crash or failed write after the truncation leaves a
            // leading part of the new content (known finding K2)
            if (crashed || wfault) && truncated && exists && full.starts_with(&data) && data.len() < full.len() {
                count("known.K2");
                return;
            }
            violate(P, if crashed { "crash" } else { "failure" }, format!(
                "after an interrupted {} (fault mode {}) the file holds {} ; before {} ; finished rewrite would hold {}",
                if compaction { "compaction" } else { "save" }, mode, show(&now), show(&old), show(&new)));
            return;
        }
        if crashed {
            revive();
        }
        let mut g = History::new();
        match call(P, "restart", || g.set_file_name_and_load_history(PATH)) {
            Some(Ok(_)) => {
                if entries(&g) != now {
                    violate(P, "restart-load", format!("file holds {} but restart loaded {}", show(&now), show(&entries(&g))));
                }
            }
            Some(Err(e)) => violate(P, "restart-error", format!("restart failed: {}", e)),
            None => {}
        }
    })]);
}

/// The newest occurrences in `now` of the texts in `keep` are in the order of `keep`.
fn in_order(keep: &[String], now: &[String]) -> bool {
    let d = dedup_newest(now);
    let r: Vec<&String> = d.iter().filter(|x| keep.contains(x)).collect();
    r.len() == keep.len() && r.iter().zip(keep).all(|(a, b)| *a == b)
}

// ---------------------------------------------------------------------------------- C15 and C19

/// Single-session history against a model that does every operation exactly.
fn policies(prop: &'static str) {
    let limits = prop == "C15";
    let big_limits = !limits && chance(2, 3);
    let mut max_buf = if big_limits { 1000 } else { choose(if limits { if chance(1, 4) { 45 } else { 14 } } else { 40 }) as usize };
    let mut max_file = if big_limits { 1000 } else { choose(if limits { if chance(1, 4) { 45 } else { 14 } } else { 40 }) as usize };
    // limits as they are by default (1000 each) or of that size, and a file to match
    let long = chance(1, 500);
    let default = long && chance(1, 2);
    if long {
        max_buf = if default { 1000 } else { range(200, 1200) as usize };
        max_file = if default { 1000 } else { range(200, 1200) as usize };
    }
    let dups = chance(1, 2);
    let app = chance(1, 2);
    let inc = chance(2, 3);
    let share = chance(1, 4);
    let soft = chance(1, 3);
    {
        let c = &mut sim().cfg;
        if soft {
            c.eintr = 50;
            c.short_write = 100;
            c.short_read = 100;
        }
    }
    let old: Vec<String> = {
        let k = if long { range(180, 1300) } else { choose(if limits { 40 } else { 12 }) };
        (0..k)
            .map(|i| if chance(1, 2) { pooled() } else { format!("o{}", i) })
            .filter(|s| !s.is_empty())
            .collect()
    };
    let exists = choose(3) > 0;
    if exists {
        let d = serialize(&old);
        sim().fs.put(PATHB, &d);
    }
    let steps = if long { range(30, 400) } else { range(1, 70) };
    // of 16 texts pushed so many are new ones
    let fresh = *pick(&[0u32, if limits { 8 } else { 0 }, if limits { 8 } else { 4 }, 15]);
    let memonly_multiline = chance(1, 4);
    run_procs(vec![Box::new(move || {
        let mut h = new_history(dups, app, inc, share);
        if !default {
            h.set_max_buffers_size(max_buf);
            h.set_max_file_size(max_file);
        }
        let mut mem: Vec<String>;
        let mut file: Vec<String> = if exists { old } else { vec![] };
        let load = |mem: &mut Vec<String>, file: &[String], append: bool, max_file: usize| {
            if !append {
                mem.clear();
            }
            mem.extend_from_slice(file);
            *mem = last_n(mem, max_file);
            if !dups {
                *mem = dedup_newest(mem);
            }
        };
        match call(prop, "start", || h.set_file_name_and_load_history(PATH)) {
            Some(Ok(_)) => {}
            Some(Err(e)) => {
                violate(prop, "start", format!("start failed: {}", e));
                return;
            }
            None => return,
        }
        mem = vec![];
        if exists {
            load(&mut mem, &file, false, max_file);
        }
        let mut since = 0;
        let mut compactions = 0;
        let mut pushes = 0;
        let check = |what: &str, h: &History, mem: &Vec<String>, file: &Vec<String>| -> bool {
            let e = entries(h);
            if e != *mem {
                violate(prop, &format!("memory-{}", what), format!("after {} the history is {} but should be {}", what, show(&e), show(mem)));
                return false;
            }
            let f = decode(&parse(sim().fs.get(PATHB).unwrap_or(b"")));
            if f != *file {
                violate(prop, &format!("file-{}", what), format!("after {} the file holds {} but should hold {}", what, show(&f), show(file)));
                return false;
            }
            true
        };
        if !check("start", &h, &mem, &file) {
            return;
        }
        for k in 0..steps {
            let what;
            match weighted(&[70, 6, 6, 5, 5, 4, 4]) {
                6 => {
                    what = "reload";
                    let append = choose(2) == 1;
                    let known = h.file_size;
                    let len = sim().fs.get(PATHB).map_or(0, |d| d.len()) as u64;
                    trace!("reload append={} known {} length {}", append, known, len);
                    match call(prop, "reload", || h.load_history(append)) {
                        Some(Ok(_)) => {}
                        Some(Err(e)) => {
                            violate(prop, "reload-error", format!("reload failed: {}", e));
                            return;
                        }
                        None => return,
                    }
                    // a file as long as it was when it was loaded needs no loading
                    if !(known == len && entries(&h) == mem) {
                        load(&mut mem, &file, append, max_file);
                    }
                }
                0 => {
                    what = "push";
                    let t: String = if memonly_multiline && !inc && chance(1, 3) {
                        (*pick(&["l\ns", "c\nd", "a\n", "a\na"])).to_string()
                    } else if chance(fresh, 16) {
                        format!("n{}", k)
                    } else {
                        pooled()
                    };
                    trace!("push {:?}", clip(&t));
                    match call(prop, "push", || h.push(Buffer::from(t.as_str()))) {
                        Some(Ok(())) => {}
                        Some(Err(e)) => {
                            violate(prop, "push-error", format!("push failed: {}", e));
                            return;
                        }
                        None => return,
                    }
                    pushes += 1;
                    if !app && mem.last() == Some(&t) {
                        count("probe.duplicate_skipped");
                    } else {
                        mem.push(t.clone());
                        mem = last_n(&mem, max_buf);
                        if inc {
                            file.push(t);
                            if !dups {
                                since += 1;
                                if since == 30 {
                                    since = 0;
                                    compactions += 1;
                                    count("probe.compaction");
                                    file = dedup_newest(&last_n(&file, max_file));
                                }
                            }
                        }
                    }
                }
                1 => {
                    what = "load";
                    let append = choose(2) == 1;
                    trace!("load append={}", append);
                    if memonly_multiline && append {
                        count("probe.append_load_multiline");
                    }
                    match call(prop, "load", || h.load_history_file(PATH, append)) {
                        Some(Ok(_)) => {}
                        Some(Err(e)) => {
                            violate(prop, "load-error", format!("load failed: {}", e));
                            return;
                        }
                        None => return,
                    }
                    if file.is_empty() && append {
                        // nothing to load: memory is left alone
                        let e = entries(&h);
                        if e == mem {
                            continue;
                        }
                    }
                    load(&mut mem, &file, append, max_file);
                }
                2 => {
                    what = "save";
                    trace!("save");
                    match call(prop, "save", || h.commit_to_file_path(PATH)) {
                        Some(Ok(_)) => {}
                        Some(Err(e)) => {
                            violate(prop, "save-error", format!("save failed: {}", e));
                            return;
                        }
                        None => return,
                    }
                    if !inc {
                        mem = last_n(&mem, max_file);
                        file = decode(&parse(&serialize(&mem)));
                    }
                }
                3 => {
                    what = "set-memory-limit";
                    if !limits || default {
                        continue;
                    }
                    max_buf = choose(14) as usize;
                    trace!("max_buffers {}", max_buf);
                    h.set_max_buffers_size(max_buf);
                }
                4 => {
                    what = "set-file-limit";
                    if !limits || default {
                        continue;
                    }
                    max_file = choose(14) as usize;
                    trace!("max_file {}", max_file);
                    h.set_max_file_size(max_file);
                }
                _ => {
                    what = "restart";
                    trace!("restart");
                    h = new_history(dups, app, inc, share);
                    if !default {
                        h.set_max_buffers_size(max_buf);
                        h.set_max_file_size(max_file);
                    }
                    since = 0;
                    match call(prop, "restart", || h.set_file_name_and_load_history(PATH)) {
                        Some(Ok(_)) => {}
                        Some(Err(e)) => {
                            violate(prop, "restart-error", format!("restart failed: {}", e));
                            return;
                        }
                        None => return,
                    }
                    mem.clear();
                    load(&mut mem, &file, false, max_file);
                }
            }
            if !check(what, &h, &mem, &file) {
                return;
            }
        }
        sim().nontrivial = pushes > 1;
        sim().sample.push(format!(
            "{} steps, {} pushes, {} compactions, dups={} app={} inc={} share={} limits {}/{}",
            steps, pushes, compactions, dups, app, inc, share, max_buf, max_file
        ));
    })]);
}

pub fn c15(p: &'static str) {
    policies(p)
}
pub fn c19(p: &'static str) {
    policies(p)
}

// ------------------------------------------------------------------------------------------ C16

pub fn c16(_: &'static str) {
    const P: &str = "C16";
    let n = range(2, 4) as usize;
    let exists = choose(3) > 0;
    let mut old: Vec<String> = vec![];
    if exists {
        old = some_lines(5).into_iter().filter(|s| !s.is_empty()).collect();
        old = dedup_newest(&old);
        let d = serialize(&old);
        sim().fs.put(PATHB, &d);
    }
    sim().watch = Some(PATHB.to_vec());
    sim().switch_rate = *pick(&[150, 350, 600, 50]);
    let compaction = chance(1, 4);
    if compaction && !old.is_empty() {
        // (something for the compaction to remove)
        for _ in 0..range(1, 4) {
            let t = pick(&old[..]).clone();
            old.push(t);
        }
        let d = serialize(&old);
        sim().fs.put(PATHB, &d);
    }
    let crashes = chance(1, 3);
    let share = chance(1, 3);
    let huge = chance(1, 2);
    sim().cfg.eintr = if chance(1, 3) { 60 } else { 0 };
    if !compaction && chance(1, 4) {
        // (a write that fails altogether; torn ones are C12's)
        sim().cfg.budget = 4;
        sim().cfg.eio_write = 80;
    }
    let results: std::sync::Arc<std::sync::Mutex<Vec<Vec<(Rec, u64, u64)>>>> =
        std::sync::Arc::new(std::sync::Mutex::new(vec![vec![]; n]));
    let mut bodies: Vec<Body> = Vec::new();
    for s in 0..n {
        let results = results.clone();
        let pushes = if compaction && (s == 0 || chance(1, 3)) { range(28, 36) } else { choose(8) };
        bodies.push(Box::new(move || {
            if crashes && chance(1, 2) {
                me().crash_at = Some(1 + choose(40) as u64);
            }
            let mut k = 0;
            loop {
                let mut h = new_history(!compaction, true, true, share);
                let r = call(P, "start", || h.set_file_name_and_load_history(PATH));
                match r {
                    None => return,
                    Some(Err(e)) if !dead() => {
                        violate(P, "start-error", format!("starting a session failed: {}", e));
                        return;
                    }
                    _ => {}
                }
                while k < pushes && !dead() {
                    if share && chance(1, 6) {
                        if call(P, "reload", || h.load_history(false).map(|_| ())).is_none() {
                            return;
                        }
                        continue_if_dead();
                    }
                    if dead() {
                        break;
                    }
                    k += 1;
                    let t = unique(s + 1, k as usize, huge);
                    trace!("push {:?}", clip(&t));
                    let a = sim().seq;
                    me().hard = 0;
                    if call(P, "push", || h.push(Buffer::from(t.as_str()))).is_none() {
                        return;
                    }
                    let acked = !dead() && me().hard == 0;
                    let b = sim().seq;
                    results.lock().unwrap()[s].push((Rec { text: t, acked }, a, b));
                    if acked {
                        count("probe.acked_push");
                    }
                }
                if dead() {
                    drop(h);
                    revive();
                    continue;
                }
                break;
            }
        }));
    }
    run_procs(bodies);
    if failed() {
        return;
    }
    let sw = sim().switches;
    sim().nontrivial = sw > 2;
    let data = sim().fs.get(PATHB).unwrap_or(b"").to_vec();
    let lines = decode(&parse(&data));
    let per = results.lock().unwrap().clone();
    let desc: Vec<usize> = per.iter().map(|v| v.len()).collect();
    sim().sample.push(format!("{} sessions, pushes {:?}, compaction={} crashes={} exists={} switches={}", n, desc, compaction, crashes, exists, sw));
    // intervals in which some session was rewriting the file: from the open it read through to its
    // last write (by file-operation log)
    let rewrites = rewrite_windows();
    // Known finding K1: a compaction is a read-modify-rewrite; what another session appends between
    // its read and its last write is lost or overwritten, and so is what another compaction keeps
    let racing = compaction && overlapping_rewrite(&rewrites);
    let two = compaction && rewrites.iter().any(|(p, a, b)| rewrites.iter().any(|(q, c, d)| p != q && a <= d && c <= b));
    if compaction && !rewrites.is_empty() {
        count("probe.rewritten");
    }
    // every line is an old line or somebody's entry
    let mut pos: Vec<usize> = vec![0; n];
    let mut kept: Vec<String> = vec![];
    let mut counts = std::collections::HashMap::new();
    for l in &lines {
        *counts.entry(l.clone()).or_insert(0) += 1;
    }
    let mut msg = None;
    for l in &lines {
        if old.contains(l) {
            kept.push(l.clone());
            continue;
        }
        let mut hit = false;
        for s in 0..n {
            if let Some(i) = per[s].iter().position(|(r, ..)| r.text == *l) {
                hit = true;
                if i < pos[s] {
                    msg = Some(("order", format!("entry {:?} of session {} is repeated or out of order", clip(l), s)));
                }
                pos[s] = i + 1;
                break;
            }
        }
        if !hit {
            msg = Some(("mangled", format!("line {:?} was never pushed", clip(l))));
        }
        if msg.is_some() {
            break;
        }
    }
    if msg.is_none() && kept != old && !(compaction && kept == dedup_newest(&old)) {
        msg = Some(("old", format!("of the prior entries {:?} there are {:?}", old, kept)));
    }
    // (a session that looked for an unfinished last line before the rewrite and wrote after it may
    // have left an empty line)
    let astride = per.iter().enumerate().any(|(s, v)| v.iter().any(|(_, a, b)| rewrites.iter().any(|(p, from, to)| *p != s && a <= to && from <= b)));
    let blank = matches!(&msg, Some(("mangled", m)) if m.starts_with("line \"\" was"));
    if let (Some(_), true) = (&msg, racing || two || blank && astride && compaction) {
        count("known.K1");
        msg = None;
    }
    for s in 0..n {
        for (r, a, b) in &per[s] {
            let c = counts.get(&r.text).copied().unwrap_or(0);
            if r.acked && c != 1 && msg.is_none() {
                let inside = sim().fslog.iter().any(|e| {
                    e.kind == "write" && e.pid == s && e.seq >= *a && e.seq <= *b && rewrites.iter().any(|(p, from, to)| *p != s && e.seq >= *from && e.seq <= *to)
                });
                if compaction && (two || inside || c > 1 && racing) {
                    count("known.K1");
                    continue;
                }
                msg = Some((if c == 0 { "lost" } else { "repeated" }, format!("entry {:?} of session {} is in the file {} times", clip(&r.text), s, c)));
            }
        }
    }
    if let Some((class, m)) = msg {
        violate(P, class, format!("{}; file {}", m, show(&lines)));
    }
}

fn continue_if_dead() {}

/// (pid, first seq, last seq) of each rewrite of the watched file: from the read-only open that
/// precedes a truncation to the last write through the truncated description (or to the rename that
/// puts the new file in the place of the old one).
pub fn rewrite_windows() -> Vec<(usize, u64, u64)> {
    let log = &sim().fslog;
    let mut out = Vec::new();
    for (i, e) in log.iter().enumerate() {
        if e.kind == "rename" && e.res >= 0 {
            if let Some(p) = log[..i].iter().rev().find(|p| p.pid == e.pid && p.kind == "open" && p.res >= 0) {
                // (what another process opened before goes on to be the old file)
                let stale = |w: &FsEv| w.pid != e.pid && w.kind == "write" && log.iter().any(|o| o.kind == "open" && o.fd == w.fd && o.pid == w.pid && o.res >= 0 && o.seq < e.seq);
                let last = log[i..].iter().filter(|w| stale(w)).map(|w| w.seq).max().unwrap_or(e.seq);
                out.push((e.pid, p.seq, last));
            }
        }
        if (e.kind == "open_trunc" || e.kind == "ftruncate") && e.res >= 0 {
            let mut first = e.seq;
            for p in log[..i].iter().rev() {
                if p.pid == e.pid {
                    if p.kind == "open" && p.res >= 0 {
                        first = p.seq;
                        break;
                    }
                    if p.kind == "write" {
                        break;
                    }
                }
            }
            let mut last = e.seq;
            for p in &log[i..] {
                if p.pid == e.pid && p.fd == e.fd && (p.kind == "write" || p.kind == "close") {
                    last = p.seq;
                    if p.kind == "close" {
                        break;
                    }
                }
            }
            out.push((e.pid, first, last));
        }
    }
    out
}

/// Was the file changed by another session inside some rewrite window?
pub fn overlapping_rewrite(w: &[(usize, u64, u64)]) -> bool {
    let log = &sim().fslog;
    w.iter().any(|(pid, a, b)| {
        log.iter().any(|e| {
            e.pid != *pid && e.seq >= *a && e.seq <= *b && (e.kind == "write" && e.res > 0 || e.kind == "open_trunc" && e.res >= 0)
        })
    })
}

// ------------------------------------------------------------------------------------------ C18

fn damaged(n: u32) -> Vec<u8> {
    let mut d = Vec::new();
    for i in 0..choose(n + 1) {
        match choose(17) {
            0..=3 => d.extend_from_slice(format!("line {}", i).as_bytes()),
            11 => d.extend_from_slice(b" # indented"),
            12 => d.extend_from_slice("a\u{2028}b\u{85}c\x0b\x0c".as_bytes()),
            13 => d.extend_from_slice(b"a\rb\r\r"),
            14 => d.extend_from_slice(b"  \t "),
            15 => {
                // around the size of a buffered reader's buffer
                let to = 8192 * (d.len() / 8192 + 1);
                let n = (to - d.len() + 2).saturating_sub(choose(5) as usize);
                d.extend(std::iter::repeat(b'm').take(n));
            }
            4 => d.extend_from_slice(b"# comment"),
            5 => d.extend_from_slice(&[b'a', 0xff, 0xfe, b'b']),
            6 => d.extend_from_slice(&[0xe6, 0xbc]), // torn multi-byte character
            7 => {}
            8 => d.extend_from_slice(b"\x00\x01\x1b[2J"),
            9 => d.extend_from_slice("é漢字".as_bytes()),
            10 => d.extend(std::iter::repeat(b'k').take(range(1, 9000) as usize)),
            _ => d.extend_from_slice(b"crlf\r"),
        }
        if chance(1, 8) {
            d.extend_from_slice(*pick(&[&b"\\"[..], b" ", b"\0", b"#", b"\"", b"\t", b"\xff"]));
        }
        d.push(b'\n');
    }
    if chance(1, 16) {
        // (a byte order mark is a character like any other)
        d.splice(0..0, "\u{feff}".bytes());
    }
    // a file that has grown for years, or one that got something into it that is no history
    if chance(1, 250) {
        let lines = *pick(&[3_000u32, 12_000, 80_000]);
        for i in 0..lines {
            d.extend_from_slice(format!("old command {}\n", i % 5000).as_bytes());
        }
    } else if chance(1, 250) {
        let n = *pick(&[70_000usize, 300_000, 1_200_000]);
        d.extend(std::iter::repeat(b'w').take(n));
        d.extend_from_slice(b"\nafter it\n");
    }
    if !d.is_empty() && chance(1, 3) {
        d.pop();
    }
    d
}

pub fn c18(_: &'static str) {
    const P: &str = "C18";
    let kind = choose(8);
    match kind {
        0 => {}
        1 => {
            sim().fs.mkdirs(PATHB);
        }
        _ => {
            let d = damaged(12);
            sim().fs.put(PATHB, &d);
        }
    }
    let mode = choose(3);
    {
        let c = &mut sim().cfg;
        c.budget = 1;
        if mode >= 1 {
            c.eintr = 80;
            c.short_read = 250;
        }
        if mode == 2 {
            c.eio_read = 250;
            c.open_fail = 120;
            c.stat_fail = 60;
        }
    }
    sim().watch = Some(PATHB.to_vec());
    let other = chance(1, 4);
    let dups = !chance(1, 4);
    let share = chance(1, 3);
    let limit = if chance(1, 2) { 1000 } else { range(1, 12) as usize };
    let mut bodies: Vec<Body> = vec![Box::new(move || {
        let mut h = new_history(dups, true, false, share);
        h.set_max_file_size(limit);
        for k in 0..choose(4) {
            let _ = h.push(Buffer::from(format!("mem{}", k)));
        }
        let mut named = false;
        let mut loads = 0;
        for _ in 0..range(1, 4) {
            let pre = entries(&h);
            let append = choose(2) == 1;
            let how = choose(3);
            me().hard = 0;
            let exists0 = sim().fs.find(PATHB, true).is_ok();
            let v0 = (sim().versions.len(), sim().versions.last().map(|v| v.0));
            let mark = sim().fslog.len();
            let seen0 = sim().fs.get(PATHB).map(|d| d.to_vec());
            let known = h.file_size;
            let mypid = my_pid();
            let (r, replace) = match how {
                0 => {
                    trace!("set_file_name_and_load_history");
                    let r = call(P, "set_file_name_and_load_history", || h.set_file_name_and_load_history(PATH));
                    named = true;
                    (r, true)
                }
                1 => {
                    trace!("load_history_file append={}", append);
                    (call(P, "load_history_file", || h.load_history_file(PATH, append)), !append)
                }
                _ => {
                    if !named {
                        let r = call(P, "load_history", || h.load_history(append));
                        match r {
                            None => return,
                            Some(Ok(_)) => {
                                violate(P, "unnamed", "load_history without a file name succeeded".into());
                                return;
                            }
                            Some(Err(_)) => {}
                        }
                        if entries(&h) != pre {
                            violate(P, "memory-on-error", "a failed load changed the history".into());
                            return;
                        }
                        continue;
                    }
                    trace!("load_history append={}", append);
                    (call(P, "load_history", || h.load_history(append)), !append)
                }
            };
            let r = match r {
                Some(r) => r,
                None => return,
            };
            loads += 1;
            let hard = me().hard;
            let foreign = {
                let s = sim();
                (s.versions.len(), s.versions.last().map(|v| v.0)) != v0 && s.versions.last().map(|v| v.1) != Some(mypid)
                    || s.fslog[mark..].iter().any(|e| e.pid != mypid && (e.kind == "unlink" || e.kind == "rename" || e.kind == "write" || e.kind == "open_trunc" || e.kind == "ftruncate"))
            };
            // loading changes no file
            let wrote = sim().fslog[mark..].iter().any(|e| {
                e.pid == mypid && (e.kind == "write" || e.kind == "ftruncate" || e.kind == "unlink" || e.kind == "rename" || (e.kind == "open_trunc" && exists0 && !foreign))
            });
            let data = sim().fs.get(PATHB).map(|d| d.to_vec());
            if wrote || (!foreign && seen0.is_some() && data != seen0) {
                violate(P, "modified", "loading modified the file".into());
                return;
            }
            let post = entries(&h);
            match &r {
                Err(e) => {
                    count("probe.load_error");
                    if post != pre {
                        violate(P, "memory-on-error", format!("load failed ({}) but the history changed from {} to {}", e, show(&pre), show(&post)));
                        return;
                    }
                    if hard == 0 && kind >= 2 && !foreign && exists0 {
                        violate(P, "spurious-error", format!("load failed without a fault: {}", e));
                        return;
                    }
                }
                Ok(_) => {
                    if foreign {
                        count("probe.changed_while_loading");
                        continue;
                    }
                    if kind == 1 {
                        violate(P, "directory", "loading a directory succeeded".into());
                        return;
                    }
                    if !exists0 {
                        if how != 0 {
                            violate(P, "missing", "loading a missing file succeeded".into());
                            return;
                        }
                        continue;
                    }
                    let data = data.unwrap_or_default();
                    let lines = decode(&parse(&data));
                    let full = |base: &[String]| {
                        let mut v = base.to_vec();
                        v.extend_from_slice(&lines);
                        let v = last_n(&v, limit);
                        if dups {
                            v
                        } else {
                            dedup_newest(&v)
                        }
                    };
                    let want = if replace { full(&[]) } else { full(&pre) };
                    // a file as long as it was when it was loaded needs no loading
                    let unchanged_ok = how == 2 && known == data.len() as u64 || (lines.is_empty() && !replace);
                    // a file that could not be examined is taken for a new one
                    let unchanged_ok = unchanged_ok || (how == 0 && hard > 0);
                    if post != want && !(unchanged_ok && post == pre) {
                        violate(P, "content", format!("the file holds {} ({} faults) but loading gave {} (before: {}, append={})", show(&lines), hard, show(&post), show(&pre), !replace));
                        return;
                    }
                }
            }
        }
        sim().nontrivial = loads > 0 && kind >= 2;
        sim().sample.push(format!("{} loads, kind {}, mode {}, other={}, limit {}", loads, kind, mode, other, limit));
    })];
    if other {
        bodies.push(Box::new(|| {
            // another program rewriting, shortening or removing the file
            use std::io::Write;
            for _ in 0..range(1, 3) {
                match choose(3) {
                    0 => {
                        let _ = std::fs::remove_file(PATH);
                    }
                    1 => {
                        if let Ok(f) = std::fs::OpenOptions::new().write(true).open(PATH) {
                            let _ = f.set_len(choose(10) as u64);
                        }
                    }
                    _ => {
                        if let Ok(mut f) = std::fs::File::create(PATH) {
                            let _ = f.write_all(b"fresh\nlines\n");
                        }
                    }
                }
            }
        }));
    }
    run_procs(bodies);
}

#[allow(dead_code)]
pub fn unused(r: &Result<std::io::Result<()>, String>) -> Option<bool> {
    io_ok(r)
}
