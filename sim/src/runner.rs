//! Batches of simulated runs: eight forked shard processes, one world at a time in each; failure
//! detection, minimisation, replay files and evidence.

use crate::chooser::Chooser;
use crate::sim::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

pub type Scenario = fn(&'static str);

pub struct Check {
    pub id: &'static str,
    pub run: Scenario,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub level: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(b)
        .wrapping_add(0x632BE59BD9B4E019);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn run_seed(base: u64, id: &str, i: u64) -> u64 {
    let mut h = base;
    for b in id.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, i)
}

/// Run one world.
pub fn run_world(c: &Check, mut ch: Chooser, tracing: bool, mirror: *mut u32) -> Sim {
    ch.mirror = mirror;
    if !mirror.is_null() {
        unsafe { *mirror = 0 };
    }
    let mut w = Sim::new(ch);
    w.tracing = tracing;
    let id = c.id;
    let f = c.run;
    with_world(w, move || f(id))
}

/// Does this finished world violate the property being checked?
pub fn verdict<'a>(c: &Check, w: &'a Sim) -> Option<&'a Violation> {
    match &w.violation {
        Some(v) if v.prop == c.id || v.prop == "ANY" => Some(v),
        _ => None,
    }
}

#[derive(Default)]
struct ShardOut {
    runs: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    steps: u64,
    switches: u64,
    other: u64,
    samples: Vec<String>,
    viol: Option<(u64, String, String, Vec<u32>)>,
}

const SLOT_WORDS: usize = 1 << 18;
// slot layout: [0] run index+1, [1] heartbeat, [8..] choice mirror

struct Shared {
    base: *mut u32,
}
impl Shared {
    fn new(n: usize) -> Shared {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n * SLOT_WORDS * 4,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shared {
            base: p as *mut u32,
        }
    }
    fn slot(&self, i: usize) -> *mut u32 {
        unsafe { self.base.add(i * SLOT_WORDS) }
    }
    fn log(&self, i: usize) -> Vec<u32> {
        unsafe {
            let p = self.slot(i).add(8);
            let n = (*p as usize).min(SLOT_WORDS - 16);
            (0..n).map(|k| *p.add(k + 1)).collect()
        }
    }
}

fn shard_main(c: &Check, base: u64, shard: u64, shards: u64, total: u64, slot: *mut u32, deadline: Instant) -> ShardOut {
    let mut o = ShardOut::default();
    let mut i = shard;
    while i < total {
        if Instant::now() > deadline {
            break;
        }
        unsafe {
            std::ptr::write_volatile(slot, i as u32 + 1);
            std::ptr::write_volatile(slot.add(1), std::ptr::read_volatile(slot.add(1)).wrapping_add(1));
        }
        let seed = run_seed(base, c.id, i);
        let w = run_world(c, Chooser::seeded(seed), false, unsafe { slot.add(8) });
        o.runs += 1;
        o.steps += w.seq;
        o.switches += w.switches;
        for (k, v) in &w.counts {
            *o.counts.entry(k.to_string()).or_insert(0) += v;
        }
        if w.nontrivial {
            o.nontrivial += 1;
            o.hashes.insert(w.hash);
        }
        if let Some(v) = verdict(c, &w) {
            o.viol = Some((i, v.class.clone(), v.msg.clone(), w.ch.log.clone()));
            break;
        }
        if let Some(v) = &w.violation {
            o.other += 1;
            *o.counts.entry(format!("other.{}.{}", v.prop, v.class)).or_insert(0) += 1;
        }
        if w.nontrivial && o.samples.len() < 2 && !w.sample.is_empty() {
            o.samples.push(format!("run {} (seed {:#x}): {}", i, seed, w.sample.join(" ")));
        }
        i += shards;
    }
    o
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn encode(o: &ShardOut) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "runs {} {} {} {} {}", o.runs, o.nontrivial, o.steps, o.switches, o.other);
    for (k, v) in &o.counts {
        let _ = writeln!(s, "count {} {}", v, k);
    }
    for x in &o.samples {
        let _ = writeln!(s, "sample {}", esc(x));
    }
    for h in &o.hashes {
        let _ = writeln!(s, "h {}", h);
    }
    if let Some((i, class, msg, log)) = &o.viol {
        let _ = writeln!(s, "viol {} {}", i, esc(class));
        let _ = writeln!(s, "msg {}", esc(msg));
        let l: Vec<String> = log.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(s, "log {}", l.join(" "));
    }
    let _ = writeln!(s, "end");
    s
}

fn decode(t: &str, o: &mut ShardOut) -> bool {
    let mut ended = false;
    let mut pend: (u64, String, String) = (0, String::new(), String::new());
    for line in t.lines() {
        let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
        match k {
            "runs" => {
                let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                o.runs += v[0];
                o.nontrivial += v[1];
                o.steps += v[2];
                o.switches += v[3];
                o.other += v[4];
            }
            "count" => {
                let (v, n) = rest.split_once(' ').unwrap_or(("0", "?"));
                *o.counts.entry(n.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
            }
            "sample" => o.samples.push(unesc(rest)),
            "h" => {
                o.hashes.insert(rest.parse().unwrap_or(0));
            }
            "viol" => {
                let (i, c) = rest.split_once(' ').unwrap_or(("0", ""));
                pend.0 = i.parse().unwrap_or(0);
                pend.1 = unesc(c);
            }
            "msg" => pend.2 = unesc(rest),
            "log" => {
                let log = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                let better = match &o.viol {
                    Some((i, ..)) => pend.0 < *i,
                    None => true,
                };
                if better {
                    o.viol = Some((pend.0, pend.1.clone(), pend.2.clone(), log));
                }
            }
            "end" => ended = true,
            _ => {}
        }
    }
    ended
}

struct Child {
    pid: i32,
    report: Report,
    done: bool,
    last_beat: u32,
    last_change: Instant,
    last_cpu: f64,
    dead: Option<String>,
    stalls: u32,
}

fn cpu_of(pid: i32) -> f64 {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = t.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() > 13 {
        let u: f64 = f[11].parse().unwrap_or(0.0);
        let s: f64 = f[12].parse().unwrap_or(0.0);
        (u + s) / 100.0
    } else {
        0.0
    }
}

/// What a forked child has to say: written to a memory file, read once the child has ended.
struct Report(std::fs::File);

impl Report {
    fn take(mut self) -> String {
        let mut s = Vec::new();
        let _ = self.0.seek(SeekFrom::Start(0));
        let _ = self.0.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    }
}

/// Fork; the child runs `f` and its returned text is left for the parent.  The parent has no other
/// threads (one that holds a lock of the standard library at the fork would leave it locked in the
/// child).
fn fork_run<F: FnOnce() -> String>(f: F) -> (i32, Report) {
    unsafe {
        let fd = libc::memfd_create(c"lsim".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0, "memfd_create failed");
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let text = f();
            let mut out = std::fs::File::from_raw_fd(fd);
            let _ = out.write_all(text.as_bytes());
            drop(out);
            libc::_exit(0);
        }
        assert!(pid > 0, "fork failed");
        (pid, Report(std::fs::File::from_raw_fd(fd)))
    }
}

/// Exit status of a child: None while running.
fn poll(pid: i32) -> Option<Result<i32, i32>> {
    let mut st = 0;
    let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
    if r == pid {
        if libc::WIFSIGNALED(st) {
            return Some(Err(libc::WTERMSIG(st)));
        }
        return Some(Ok(libc::WEXITSTATUS(st)));
    }
    None
}

pub struct Outcome {
    pub code: i32,
}

const HANG_CPU: f64 = 25.0;
const STALL_WALL: f64 = 60.0;

pub fn shards() -> u64 {
    std::env::var("LSIM_SHARDS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get() as u64)
                .unwrap_or(4)
                .clamp(2, 16)
        })
}

pub fn check(c: &Check, base: u64, tier: &str, scale: f64, evidence_dir: &str, replay_dir: &str, known: &[(String, String)]) -> Outcome {
    let t0 = Instant::now();
    let total = ((if tier == "thorough" { c.thorough } else { c.quick }) as f64 * scale).max(1.0) as u64;
    let cap = if tier == "thorough" { 5400 } else { 240 };
    let deadline = t0 + Duration::from_secs(cap);
    let n = shards() as usize;
    println!("check property={} tier={} VERIF_SEED={} runs={} shards={}", c.id, tier, base, total, n);
    let _ = std::io::stdout().flush();
    let shared = Shared::new(n + 1);
    let mut kids: Vec<Child> = Vec::new();
    let start = |s: usize| {
        let slot = shared.slot(s);
        fork_run(|| {
            let o = shard_main(c, base, s as u64, n as u64, total, slot, deadline);
            encode(&o)
        })
    };
    for s in 0..n {
        let (pid, report) = start(s);
        kids.push(Child {
            pid,
            report,
            done: false,
            last_beat: 0,
            last_change: Instant::now(),
            last_cpu: 0.0,
            dead: None,
            stalls: 0,
        });
    }
    let mut tick = 0u64;
    while kids.iter().any(|k| !k.done) {
        let nap = Instant::now();
        std::thread::sleep(Duration::from_millis(15));
        tick += 1;
        if nap.elapsed().as_secs() >= 5 {
            // the whole machine was held up
            for k in kids.iter_mut() {
                k.last_change = Instant::now();
            }
        }
        for (i, k) in kids.iter_mut().enumerate() {
            if k.done {
                continue;
            }
            match poll(k.pid) {
                Some(Ok(0)) => k.done = true,
                Some(Ok(e)) => {
                    k.done = true;
                    k.dead = Some(format!("exit {}", e));
                }
                Some(Err(sig)) => {
                    k.done = true;
                    k.dead = Some(format!("signal {}", sig));
                }
                None => {
                    if tick % 40 == 0 {
                        let beat = unsafe { std::ptr::read_volatile(shared.slot(i).add(1)) };
                        if beat != k.last_beat {
                            k.last_beat = beat;
                            k.last_change = Instant::now();
                            k.last_cpu = cpu_of(k.pid);
                        } else {
                            let cpu = cpu_of(k.pid) - k.last_cpu;
                            let wall = k.last_change.elapsed().as_secs_f64();
                            if cpu > HANG_CPU {
                                unsafe { libc::kill(k.pid, libc::SIGKILL) };
                                k.dead = Some("hang".into());
                                let _ = wait_blocking(k.pid);
                                k.done = true;
                            } else if wall > STALL_WALL && cpu < 1.0 {
                                // Blocked.  Start the shard over; blocked a second time means that
                                // the run itself blocks.
                                unsafe { libc::kill(k.pid, libc::SIGKILL) };
                                let _ = wait_blocking(k.pid);
                                k.stalls += 1;
                                if k.stalls > 1 {
                                    k.dead = Some("blocked".into());
                                    k.done = true;
                                } else {
                                    let (pid, report) = start(i);
                                    k.pid = pid;
                                    k.report = report;
                                    k.last_change = Instant::now();
                                    k.last_cpu = 0.0;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let mut all = ShardOut::default();
    let mut fatal: Option<(u64, String, Vec<u32>)> = None;
    let mut harness_error = None;
    for (i, k) in kids.into_iter().enumerate() {
        let text = k.report.take();
        match k.dead {
            None => {
                if !decode(&text, &mut all) {
                    harness_error = Some("truncated shard report".to_string());
                }
            }
            Some(why) => {
                let idx = unsafe { *shared.slot(i) } as u64;
                if why.starts_with("exit") {
                    harness_error = Some(format!("shard {}: {} in run {}", i, why, idx.saturating_sub(1)));
                } else {
                    fatal = Some((idx.saturating_sub(1), why, shared.log(i)));
                }
            }
        }
    }
    if let Some(e) = harness_error {
        eprintln!("harness error: {}", e);
        return Outcome { code: 3 };
    }
    let search_wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    if let Some((i, class, msg, log)) = all.viol.take() {
        code = 1;
        violations = 1;
        let seed = run_seed(base, c.id, i);
        println!("violation in run {} (seed {:#x}): {}: {}", i, seed, class, msg);
        let (log, tries) = minimise(c, log, &class);
        let path = format!("{}/{}-{:016x}.txt", replay_dir, c.id, seed);
        write_replay(c, &path, base, i, seed, &log, tries);
        println!("VIOLATION property={} replay={}", c.id, path);
    } else if let Some((i, why, log)) = fatal {
        code = 1;
        violations = 1;
        let seed = run_seed(base, c.id, i);
        println!("violation in run {} (seed {:#x}): the process under simulation ended with: {}", i, seed, why);
        let path = format!("{}/{}-{:016x}.txt", replay_dir, c.id, seed);
        let _ = std::fs::create_dir_all(replay_dir);
        let text = format!(
            "lsim-replay 1\nproperty {}\nclass fatal\nmessage {}\nbase {} run {} seed {:#x}\nchoices {}\n",
            c.id, why, base, i, seed,
            log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
        );
        let _ = std::fs::write(&path, text);
        println!("VIOLATION property={} replay={}", c.id, path);
    }
    // known findings: reproduce each one against the current tree
    for (kid, text) in known {
        println!("KNOWN-FINDING: property={} {} {}", c.id, kid, text);
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<String, u64> = all
        .counts
        .iter()
        .filter(|(k, _)| k.starts_with("fault."))
        .map(|(k, v)| (k[6..].to_string(), *v))
        .collect();
    let probes: BTreeMap<String, u64> = all
        .counts
        .iter()
        .filter(|(k, _)| !k.starts_with("fault."))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    let mut e = String::new();
    let _ = writeln!(e, "{{");
    let _ = writeln!(e, " \"property\": {},", js(c.id));
    let _ = writeln!(e, " \"tier\": {},", js(tier));
    let _ = writeln!(e, " \"seed\": {},", base);
    let _ = writeln!(e, " \"level\": {},", js(c.level));
    let _ = writeln!(e, " \"coverage\": {{");
    let _ = writeln!(e, "  \"evaluations\": {},", all.runs);
    let _ = writeln!(e, "  \"distinct_nontrivial\": {},", all.hashes.len());
    let _ = writeln!(e, "  \"rule\": {},", js(c.rule));
    let _ = writeln!(e, "  \"nontrivial_runs\": {},", all.nontrivial);
    let _ = writeln!(e, "  \"distinct_measure\": \"64-bit hash over every scheduling decision, file operation with its result, injected fault, key and resulting editor state of the run\",");
    let _ = writeln!(e, "  \"runs_requested\": {},", total);
    let _ = writeln!(e, "  \"seeds_per_hour\": {},", (all.runs as f64 / search_wall.max(0.001) * 3600.0) as u64);
    let _ = writeln!(e, "  \"simulated_steps\": {},", all.steps);
    let _ = writeln!(e, "  \"simulated_time_note\": \"the code under test reads no clock; simulated time is the number of scheduling points (file operations and key waits)\",");
    let _ = writeln!(e, "  \"context_switches\": {},", all.switches);
    let _ = writeln!(e, "  \"runs_ended_early_by_another_property\": {},", all.other);
    let _ = writeln!(e, "  \"faults_injected\": {},", jmap(&faults));
    let _ = writeln!(e, "  \"probes\": {},", jmap(&probes));
    let _ = writeln!(e, "  \"real_components\": {},", jlist(&c.real.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    let _ = writeln!(e, "  \"stub_components\": {},", jlist(&c.stub.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    all.samples.sort();
    all.samples.truncate(6);
    let _ = writeln!(e, "  \"samples\": {}", jlist(&all.samples));
    let _ = writeln!(e, " }},");
    let _ = writeln!(e, " \"assumptions\": {},", jlist(&c.assumptions.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    let _ = writeln!(e, " \"wall_s\": {:.3},", wall);
    let _ = writeln!(e, " \"violations\": {}", violations);
    let _ = writeln!(e, "}}");
    let _ = std::fs::create_dir_all(evidence_dir);
    if std::fs::write(format!("{}/{}.json", evidence_dir, c.id), e).is_err() {
        eprintln!("harness error: cannot write evidence");
        return Outcome { code: 3 };
    }
    println!(
        "property={} runs={} distinct_nontrivial={} other={} wall={:.1}s {}",
        c.id,
        all.runs,
        all.hashes.len(),
        all.other,
        wall,
        if code == 0 { "ok" } else { "VIOLATED" }
    );
    if code == 0 && all.runs * 2 < total {
        println!("note: wall-clock cap reached after {} of {} runs", all.runs, total);
    }
    Outcome { code }
}

fn wait_blocking(pid: i32) -> i32 {
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    st
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    let x: Vec<String> = v.iter().map(|s| js(s)).collect();
    format!("[{}]", x.join(", "))
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let x: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    format!("{{{}}}", x.join(", "))
}

/// Run one choice list in a forked process; (property, class) of what it violated.
fn try_log(c: &Check, log: &[u32]) -> (Option<(String, String)>, Vec<u32>) {
    let l = log.to_vec();
    let (pid, report) = fork_run(move || {
        let w = run_world(c, Chooser::replay(l), false, std::ptr::null_mut());
        let used: Vec<String> = w.ch.log.iter().map(|x| x.to_string()).collect();
        match verdict(c, &w) {
            Some(v) => format!("V {}\n{}\n", esc(&v.class), used.join(" ")),
            None => "N\n".into(),
        }
    });
    let t0 = Instant::now();
    loop {
        if let Some(r) = poll(pid) {
            let text = report.take();
            if r != Ok(0) {
                return (None, vec![]);
            }
            let mut it = text.lines();
            let first = it.next().unwrap_or("N");
            if let Some(class) = first.strip_prefix("V ") {
                let used = it
                    .next()
                    .unwrap_or("")
                    .split(' ')
                    .filter_map(|x| x.parse().ok())
                    .collect();
                return (Some((c.id.to_string(), unesc(class))), used);
            }
            return (None, vec![]);
        }
        if t0.elapsed() > Duration::from_secs(20) {
            unsafe { libc::kill(pid, libc::SIGKILL) };
            wait_blocking(pid);
            return (None, vec![]);
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

fn trim(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

/// Delete, zero and lower choices while the same violation class persists.
pub fn minimise(c: &Check, log: Vec<u32>, class: &str) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(45);
    let mut best = trim(log);
    let mut tries = 0u64;
    let mut attempt = |cand: &[u32], best: &mut Vec<u32>| -> bool {
        if t0.elapsed() > limit {
            return false;
        }
        let cand = trim(cand.to_vec());
        if cand == *best {
            return false;
        }
        tries += 1;
        if let (Some((_, k)), used) = try_log(c, &cand) {
            if k == class {
                let used = trim(used);
                let simpler = used.len() < best.len() || (used.len() == best.len() && used < *best);
                if simpler {
                    *best = used;
                    return true;
                }
            }
        }
        false
    };
    // make sure it reproduces at all before anything else
    loop {
        let before = best.clone();
        let mut size = best.len().next_power_of_two();
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                if attempt(&cand, &mut best) {
                    continue;
                }
                let mut cand = best.clone();
                let mut any = false;
                for x in &mut cand[i..end.min(best.len())] {
                    any |= *x != 0;
                    *x = 0;
                }
                if any {
                    attempt(&cand, &mut best);
                }
                i += size;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !attempt(&cand, &mut best) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > limit {
            break;
        }
    }
    (best, tries)
}

fn write_replay(c: &Check, path: &str, base: u64, i: u64, seed: u64, log: &[u32], tries: u64) {
    // the final run, traced, in this process
    let w = run_world(c, Chooser::replay(log.to_vec()), true, std::ptr::null_mut());
    let (class, msg) = match &w.violation {
        Some(v) => (v.class.clone(), v.msg.clone()),
        None => ("?".into(), "not reproduced".into()),
    };
    let mut s = String::new();
    let _ = writeln!(s, "lsim-replay 1");
    let _ = writeln!(s, "property {}", c.id);
    let _ = writeln!(s, "class {}", esc(&class));
    let _ = writeln!(s, "message {}", esc(&msg));
    let _ = writeln!(s, "base {} run {} seed {:#x} minimised_with {} runs", base, i, seed, tries);
    let _ = writeln!(s, "choices {}", log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(s, "--- trace (schedule, faults and events of the minimised run)");
    for t in &w.trace {
        let _ = writeln!(s, "{}", esc(t));
    }
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(path, s);
    println!("minimised to {} choices: {}: {}", log.len(), class, msg);
}

pub struct ReplayFile {
    pub property: String,
    pub class: String,
    pub choices: Vec<u32>,
}

pub fn load_replay(path: &str) -> Option<ReplayFile> {
    let t = std::fs::read_to_string(path).ok()?;
    let mut r = ReplayFile {
        property: String::new(),
        class: String::new(),
        choices: vec![],
    };
    for l in t.lines() {
        if l.starts_with("---") {
            break;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.property = v.to_string(),
            "class" => r.class = unesc(v),
            "choices" => r.choices = v.split(' ').filter_map(|x| x.parse().ok()).collect(),
            _ => {}
        }
    }
    Some(r)
}

/// Replay in this process; prints the trace.
pub fn replay(c: &Check, choices: Vec<u32>) -> i32 {
    let id = c.id;
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let cpu = cpu_of(unsafe { libc::getpid() });
        if cpu > HANG_CPU || (t0.elapsed().as_secs_f64() > STALL_WALL && cpu < 1.0) {
            println!("REPRODUCED property={} class=fatal hang", id);
            std::process::exit(1);
        }
    });
    let w = run_world(c, Chooser::replay(choices), true, std::ptr::null_mut());
    for t in &w.trace {
        println!("{}", t);
    }
    match &w.violation {
        Some(v) => {
            println!("REPRODUCED property={} class={} {}", v.prop, v.class, v.msg);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Run the same seeds twice, in different processes and shard layouts, and compare everything.
pub fn determinism(checks: &[Check], base: u64, per: u64) -> i32 {
    let mut bad = 0;
    for c in checks {
        let run = |rev: bool| {
            let (pid, r) = fork_run(|| {
                let mut s = String::new();
                let mut idx: Vec<u64> = (0..per).collect();
                if rev {
                    idx.reverse();
                }
                let mut lines = BTreeMap::new();
                for i in idx {
                    let w = run_world(c, Chooser::seeded(run_seed(base, c.id, i)), true, std::ptr::null_mut());
                    let mut h: u64 = w.hash;
                    for t in &w.trace {
                        for b in t.bytes() {
                            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                        }
                    }
                    lines.insert(i, format!("{:x} {} {}", h, w.ch.log.len(), w.seq));
                }
                for (i, l) in lines {
                    let _ = writeln!(s, "{} {}", i, l);
                }
                s
            });
            wait_blocking(pid);
            r.take()
        };
        let a = run(false);
        let b = run(true);
        let d = run(false);
        let same = a == b && a == d && a.lines().count() as u64 == per;
        println!("determinism {} {} runs x3: {}", c.id, per, if same { "identical" } else { "DIFFERENT" });
        if !same {
            bad += 1;
            for (x, y) in a.lines().zip(b.lines()) {
                if x != y {
                    println!("  {} | {}", x, y);
                    break;
                }
            }
        }
    }
    (bad > 0) as i32
}
