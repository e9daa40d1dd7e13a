//! C17: sessions that share one history file.

use crate::hist::{self, dedup_newest, decode, last_n, parse, serialize, PATH, PATHB};
use crate::scen::{context, in_process};
use crate::session::{self, Cfg, Profile, TtyFaults};
use crate::sim::*;
use crate::trace;
use liner::{Buffer, History};
use std::cell::RefCell;
use std::rc::Rc;

const P: &str = "C17";
const OTHER: &str = "/work/old";
const OTHERB: &[u8] = b"/work/old";
const TEXTS: &[&str] = &["ls", "ls -l", "als", "l", "s", "a", "b", "ab", "bb", "a ls b", "éa", "", "ls  ", "漢"];

#[derive(Clone, Copy)]
struct Policy {
    dups: bool,
    app: bool,
    limit: usize,
}
impl Policy {
    /// What a session's history is when it has just read these lines.
    fn loaded(&self, lines: &[String]) -> Vec<String> {
        let v = last_n(lines, self.limit);
        if self.dups {
            v
        } else {
            dedup_newest(&v)
        }
    }
    fn new(&self, share: bool) -> History {
        let mut h = hist::new_history(self.dups, self.app, true, share);
        h.set_max_buffers_size(self.limit);
        h.set_max_file_size(self.limit);
        h
    }
}

fn text(n: &mut usize) -> String {
    *n += 1;
    if chance(1, 2) {
        (*pick(TEXTS)).to_string()
    } else {
        format!("{}{}", pick(&["l", "ls", "a", "x", "sls"]), n)
    }
}

/// What one sharing session may know about the file.
struct Mem {
    name: &'static str,
    pol: Policy,
    mem: Vec<String>,
    /// length of the file at the last load plus what the session itself appended since
    /// (more than one if a fault leaves open what it made of it)
    lens: Vec<u64>,
    /// an append of its own failed
    failed: bool,
    /// its own appends (every 30th has it look through the file)
    appends: u32,
}

impl Mem {
    fn new(name: &'static str, pol: Policy) -> Mem {
        Mem { name, pol, mem: vec![], lens: vec![0], failed: false, appends: 0 }
    }

    /// The session has reloaded (or decided that it need not): `got` is its history now.
    fn reloaded(&mut self, got: &[String], faults: u32) {
        let file = match sim().fs.get(PATHB) {
            Some(f) => f.to_vec(),
            None => {
                if *got != self.mem {
                    violate(P, "gone", format!("{}: without a file the history is {}, it was {}", self.name, hist::show(got), hist::show(&self.mem)));
                }
                return;
            }
        };
        let want = self.pol.loaded(&decode(&parse(&file)));
        let len = file.len() as u64;
        if *got == want && *got == self.mem && faults > 0 {
            count("probe.reload_failed");
            self.lens.push(len);
        } else if *got == want {
            count(if want == self.mem { "probe.reload_same" } else { "probe.reload_changed" });
            self.mem = want;
            self.lens = vec![len];
            self.failed = false;
        } else if *got == self.mem && faults > 0 {
            count("probe.reload_failed");
        } else if *got == self.mem && self.lens.contains(&len) && len > 0 {
            if self.failed || self.pol.loaded(&self.mem) == want {
                count("probe.reload_own");
            } else {
                // it cannot tell (known finding K3)
                count("known.K3");
            }
        } else {
            violate(
                P,
                if self.lens.contains(&len) { "changed" } else { "stale" },
                format!("{}: after a reload the history is {}, the file holds {} (it was {} before)", self.name, hist::show(got), hist::show(&want), hist::show(&self.mem)),
            );
        }
    }

    /// One push; `rewritten`: it compacted the file.
    fn push(&mut self, h: &mut History, t: &str) {
        let mark = sim().fslog.len();
        let before = sim().fs.get(PATHB).map_or(0, |f| f.len());
        trace!("{} pushes {:?}", self.name, t);
        me().hard = 0;
        let r = hist::call(P, "push", || h.push(Buffer::from(t)));
        if r.is_none() {
            return;
        }
        if self.pol.app || self.mem.last().map(|s| s.as_str()) != Some(t) {
            self.mem.push(t.to_string());
            self.mem = last_n(&self.mem, self.pol.limit);
            let log = &sim().fslog[mark..];
            if log.iter().any(|e| e.kind == "open_trunc" && e.res >= 0) {
                count("probe.compaction");
                self.appends = 0;
                self.lens = vec![0];
            } else {
                let grown = sim().fs.get(PATHB).map_or(0, |f| f.len()) - before;
                if me().hard > 0 && grown <= t.len() {
                    count("probe.append_failed");
                    self.failed = true;
                } else {
                    for l in &mut self.lens {
                        *l += grown as u64;
                    }
                }
                self.appends += 1;
                if !self.pol.dups && self.appends % 30 == 0 {
                    // (it found nothing to compact)
                    self.lens.push(0);
                }
                if me().hard > 0 && !self.pol.dups {
                    // (a compaction that could not read the file)
                    self.lens.push(0);
                }
            }
        } else {
            count("probe.duplicate_skipped");
        }
        let got = hist::entries(h);
        if got != self.mem {
            violate(P, "push", format!("{}: after its own push the history is {}, expected {}", self.name, hist::show(&got), hist::show(&self.mem)));
        }
    }
}

/// Something another program does to the file.
fn external(n: &mut usize) {
    let f = sim().fs.get(PATHB).unwrap_or(b"").to_vec();
    let mut l = decode(&parse(&f));
    match choose(6) {
        0 => {
            l.truncate(choose(l.len() as u32 + 1) as usize);
            trace!("the file is cut down to {} lines", l.len());
        }
        1 => {
            let k = choose(l.len() as u32 + 1) as usize;
            l.drain(..k);
            trace!("the first {} lines are taken out of the file", k);
        }
        2 if !l.is_empty() => {
            let i = choose(l.len() as u32) as usize;
            l[i] = text(n);
            trace!("line {} of the file becomes {:?}", i, l[i]);
        }
        3 => {
            trace!("the file is emptied");
            l.clear();
        }
        4 => {
            trace!("the file is removed");
            sim().fs.remove(PATHB);
            return;
        }
        _ => {
            l.push(text(n));
            trace!("a line is added to the file");
        }
    }
    let mut d = serialize(&l);
    if chance(1, 8) && d.len() > 1 {
        d.pop();
    }
    if chance(1, 8) {
        d.extend_from_slice(b"# a comment\n");
    }
    sim().fs.put(PATHB, &d);
    count("probe.external_rewrite");
}

struct Others {
    sharing: Vec<(History, Mem)>,
    plain: Option<History>,
    pol: Policy,
    n: usize,
    heavy: bool,
    gone: bool,
}

impl Others {
    fn act(&mut self) {
        if failed() {
            return;
        }
        let pol = self.pol;
        match weighted(&[8, 3, 3, 2, 1, if self.heavy { 2 } else { 0 }, 1]) {
            0 => {
                if !self.sharing.is_empty() {
                    let i = choose(self.sharing.len() as u32) as usize;
                    let t = text(&mut self.n);
                    let (h, m) = &mut self.sharing[i];
                    m.push(h, &t);
                }
            }
            1 => {
                if !self.sharing.is_empty() {
                    let i = choose(self.sharing.len() as u32) as usize;
                    let (h, m) = &mut self.sharing[i];
                    load(h, m);
                }
            }
            2 => {
                // a session that does not share
                let t = text(&mut self.n);
                let h = self.plain.get_or_insert_with(|| {
                    let mut h = pol.new(false);
                    let _ = h.set_file_name_and_load_history(PATH);
                    h
                });
                trace!("a session without sharing pushes {:?}", t);
                let _ = h.push(Buffer::from(t.as_str()));
            }
            3 => {
                trace!("a session saves its history over the file");
                let mut h = pol.new(false);
                let _ = h.set_file_name_and_load_history(PATH);
                h.inc_append = false;
                let _ = h.push(Buffer::from(text(&mut self.n).as_str()));
                if chance(1, 2) {
                    h.set_max_file_size(choose(6) as usize);
                }
                let _ = h.commit_to_file_path(PATH);
                count("probe.commit");
            }
            4 => {
                if self.gone || chance(3, 4) {
                    external(&mut self.n);
                }
            }
            5 => {
                // enough pushes to make it compact
                let mut h = pol.new(false);
                h.load_duplicates = false;
                h.append_duplicate_entries = true;
                let _ = h.set_file_name_and_load_history(PATH);
                trace!("another session pushes 30 entries and compacts the file");
                for _ in 0..30 {
                    let _ = h.push(Buffer::from(text(&mut self.n).as_str()));
                }
                count("probe.other_compaction");
            }
            _ => self.plain = None,
        }
    }
}

fn load(h: &mut History, m: &mut Mem) {
    trace!("{} reloads", m.name);
    me().hard = 0;
    let r = match hist::call(P, "load_history", || h.load_history(false)) {
        Some(r) => r,
        None => return,
    };
    let gone = sim().fs.get(PATHB).is_none();
    if r.is_err() && me().hard == 0 && !gone {
        violate(P, "load-error", format!("{}: reloading failed without a fault: {:?}", m.name, r));
    }
    if r.is_ok() && gone {
        violate(P, "load-error", format!("{}: reloading a file that does not exist succeeded", m.name));
    }
    m.reloaded(&hist::entries(h), me().hard);
}

fn start(h: &mut History, m: &mut Mem) {
    if chance(1, 6) {
        // it was used with another file before
        let mut n = 900;
        let l: Vec<String> = (0..range(1, 2)).map(|_| text(&mut n)).collect();
        sim().fs.put(OTHERB, &serialize(&l));
        let _ = hist::call(P, "set_file_name_and_load_history", || h.set_file_name_and_load_history(OTHER));
        trace!("{} had the file of {} before", m.name, hist::show(&l));
        m.mem = hist::entries(h);
        count("probe.other_file_before");
    }
    let existed = sim().fs.get(PATHB).is_some();
    me().hard = 0;
    let r = hist::call(P, "set_file_name_and_load_history", || h.set_file_name_and_load_history(PATH));
    match r {
        Some(Ok(_)) => {
            let before = std::mem::replace(&mut m.mem, hist::entries(h));
            if !existed && m.mem != before {
                violate(P, "start", format!("{}: without a file it starts with {}, it had {}", m.name, hist::show(&m.mem), hist::show(&before)));
            }
            m.lens = vec![sim().fs.get(PATHB).map_or(0, |f| f.len()) as u64];
            let want = m.pol.loaded(&decode(&parse(sim().fs.get(PATHB).unwrap_or(b""))));
            if existed && m.mem != want {
                violate(P, "start", format!("{}: starts with {}, the file holds {}", m.name, hist::show(&m.mem), hist::show(&want)));
            }
        }
        Some(Err(e)) => {
            if me().hard == 0 {
                violate(P, "start-error", format!("{}: starting failed: {}", m.name, e));
            }
            m.mem = hist::entries(h);
        }
        None => {}
    }
}

/// Sessions at a terminal, others writing between the keys.
fn keys() {
    in_process(move || {
        let dups = chance(2, 3);
        let app = chance(1, 2);
        let pol = Policy { dups, app, limit: if dups && chance(1, 2) { range(1, 12) as usize } else { 1000 } };
        let mut n = 0;
        if chance(4, 5) {
            let l: Vec<String> = (0..choose(7)).map(|_| text(&mut n)).collect();
            sim().fs.put(PATHB, &serialize(&l));
        }
        let width = *pick(&[80usize, 20]);
        let mut c = context(width);
        let mine = Rc::new(RefCell::new(Mem::new("the session", pol)));
        c.history = pol.new(true);
        start(&mut c.history, &mut mine.borrow_mut());
        let mut o = Others { sharing: vec![], plain: None, pol, n: 100, heavy: chance(1, 3), gone: chance(1, 3) };
        for i in 0..choose(3) {
            let mut m = Mem::new(if i == 0 { "the second session" } else { "the third session" }, pol);
            let mut h = pol.new(true);
            start(&mut h, &mut m);
            o.sharing.push((h, m));
        }
        let others = Rc::new(RefCell::new(o));
        let soft = chance(1, 3);
        let hard = chance(1, 4);
        let cfg = &mut sim().cfg;
        cfg.budget = if hard { 3 } else { 0 };
        cfg.eintr = if soft { 40 } else { 0 };
        cfg.short_read = if soft { 60 } else { 0 };
        cfg.short_write = if soft { 60 } else { 0 };
        cfg.eio_read = if hard { 60 } else { 0 };
        cfg.eio_write = if hard { 60 } else { 0 };
        cfg.open_fail = if hard { 30 } else { 0 };
        let rate = *pick(&[0u32, 10, 30]);
        let st = c.terminal.0.clone();
        {
            let others = others.clone();
            let mine = mine.clone();
            let mut s = st.borrow_mut();
            s.between = Some(Box::new(move || {
                if chance(rate, 100) {
                    others.borrow_mut().act();
                }
                me().hard = 0;
            }));
            s.probe = Some(Box::new(move |o, reloaded| {
                let mut m = mine.borrow_mut();
                if reloaded {
                    count("probe.reload_by_key");
                    m.reloaded(&o.hist, me().hard);
                } else if o.hist != m.mem {
                    violate(P, "unasked", format!("the history changed to {} without a motion, it was {}", hist::show(&o.hist), hist::show(&m.mem)));
                }
            }));
        }
        let sessions = range(1, 5);
        let mut pushes = 0;
        for i in 0..sessions {
            for _ in 0..choose(5) {
                others.borrow_mut().act();
            }
            if failed() {
                return;
            }
            match choose(8) {
                0 => load(&mut c.history, &mut mine.borrow_mut()),
                1 if !pol.dups => {
                    // many pushes of its own: a compaction
                    for _ in 0..range(10, 32) {
                        let t = text(&mut n);
                        mine.borrow_mut().push(&mut c.history, &t);
                        pushes += 1;
                        if failed() {
                            return;
                        }
                    }
                }
                _ => {}
            }
            if failed() {
                return;
            }
            let vi = chance(1, 4);
            let mut cfg = Cfg::basic(P, vi, Profile::Hist);
            cfg.width = width;
            cfg.model = true;
            cfg.breaks = false;
            cfg.max_keys = range(2, 16) as usize;
            let e = session::run(&mut c, cfg, TtyFaults::default());
            if failed() {
                return;
            }
            if sim().sample.len() < 40 {
                let s = st.borrow();
                let k: Vec<String> = s.keys.iter().map(|k| format!("{:?}", k)).collect();
                sim().sample.push(format!("session {}: {} -> {:?}; history {}", i, k.join(" "), e.result, hist::show(&mine.borrow().mem)));
            }
            if st.borrow().off {
                return;
            }
            if let Ok(Ok(t)) = &e.result {
                if !t.contains('\n') && !t.ends_with('\r') && !t.starts_with('#') && chance(2, 3) {
                    mine.borrow_mut().push(&mut c.history, t);
                    pushes += 1;
                }
            }
        }
        sim().nontrivial = sim().counts.contains_key("probe.reload_changed");
        let _ = pushes;
    });
}

/// Sessions in processes of their own that append at the same time.
fn procs() {
    let n = range(2, 3) as usize;
    let dups = chance(3, 4);
    let pol = Policy { dups, app: chance(1, 2), limit: 1000 };
    if chance(2, 3) {
        let mut k = 0;
        let l: Vec<String> = (0..choose(5)).map(|_| text(&mut k)).collect();
        sim().fs.put(PATHB, &serialize(&l));
    } else if chance(1, 2) {
        sim().fs.put(PATHB, b"");
    }
    sim().watch = Some(PATHB.to_vec());
    note_change();
    sim().switch_rate = *pick(&[150, 350, 600, 50]);
    sim().cfg.eintr = if chance(1, 3) { 60 } else { 0 };
    sim().cfg.short_read = if chance(1, 3) { 100 } else { 0 };
    // (an entry written in two parts is not stored until both are there)
    let mut bodies: Vec<Body> = Vec::new();
    for s in 0..n {
        let terminal = chance(1, 3);
        bodies.push(Box::new(move || {
            let mut k = 100 * s;
            // is `got` what the file held at some moment from `a` to now?
            let seen = move |got: &[String], a: u64| {
                let v = &sim().versions;
                let from = v.iter().rposition(|(q, ..)| *q <= a).unwrap_or(0);
                if v[from..].iter().any(|(_, _, d)| pol.loaded(&decode(&parse(d))) == *got) {
                    count("probe.reload_concurrent");
                    return;
                }
                let d = v.last().map(|v| decode(&parse(&v.2))).unwrap_or_default();
                violate(P, "concurrent", format!("after a reload the history is {}, at no time since it was asked for did the file hold that; now it holds {}", hist::show(got), hist::show(&d)));
            };
            let mut c = context(80);
            c.history = pol.new(true);
            if let Some(Err(e)) = hist::call(P, "start", || c.history.set_file_name_and_load_history(PATH)) {
                violate(P, "start-error", format!("starting failed: {}", e));
                return;
            }
            let st = c.terminal.0.clone();
            let asked = Rc::new(RefCell::new(0u64));
            {
                let a = asked.clone();
                let b = asked.clone();
                let mut st = st.borrow_mut();
                st.between = Some(Box::new(move || *a.borrow_mut() = sim().seq));
                st.probe = Some(Box::new(move |o, reloaded| {
                    if reloaded {
                        count("probe.reload_by_key");
                        seen(&o.hist, *b.borrow());
                    }
                }));
            }
            // what it holds beyond the file's version it last read: its own entries
            for _ in 0..range(2, 8) {
                if failed() {
                    return;
                }
                match choose(5) {
                    0 | 1 => {
                        k += 1;
                        let t = format!("{}{}-{}", pick(&["l", "s", "ls", ""]), s, k);
                        trace!("process {} pushes {:?}", s, t);
                        let before = hist::entries(&c.history);
                        if hist::call(P, "push", || c.history.push(Buffer::from(t.as_str()))).is_none() {
                            return;
                        }
                        let mut want = before;
                        want.push(t);
                        if hist::entries(&c.history) != want {
                            violate(P, "push", format!("after its own push the history is {}, expected {}", hist::show(&hist::entries(&c.history)), hist::show(&want)));
                        }
                    }
                    2 | 3 if !terminal => {
                        let a = sim().seq;
                        trace!("process {} reloads", s);
                        match hist::call(P, "load_history", || c.history.load_history(false)) {
                            Some(Ok(_)) => seen(&hist::entries(&c.history), a),
                            Some(Err(e)) => violate(P, "load-error", format!("reloading failed: {}", e)),
                            None => {}
                        }
                    }
                    2 | 3 => {
                        let mut cfg = Cfg::basic(P, chance(1, 4), Profile::Hist);
                        cfg.model = true;
                        cfg.breaks = false;
                        cfg.max_keys = range(2, 10) as usize;
                        session::run(&mut c, cfg, TtyFaults::default());
                    }
                    _ => yield_point(true),
                }
            }
        }));
    }
    run_procs(bodies);
    sim().nontrivial = sim().switches > 2 && sim().counts.contains_key("probe.reload_concurrent");
    let v = sim().versions.len();
    sim().sample.push(format!("{} processes, {} switches, {} versions of the file", n, sim().switches, v));
}

pub fn c17(_: &'static str) {
    if chance(1, 3) {
        procs()
    } else {
        keys()
    }
}
