mod api;
mod chooser;
mod files;
mod hist;
mod interpose;
mod keygen;
mod refed;
mod runner;
mod scen;
mod session;
mod share;
mod sim;
mod simfs;
mod stdio;
mod tty;
mod vt;

use runner::Check;

const HIST_REAL: &[&str] = &["liner::History and liner::Buffer", "Rust std::fs / std::io on top of the intercepted libc calls"];
const HIST_STUB: &[&str] = &["kernel and file system (in-memory, with injected faults)", "process scheduler (seeded)"];
const HIST_ASSUME: &[&str] = &[
    "each write(2) on an O_APPEND descriptor is atomic with respect to other processes' operations unless it is short",
    "a crash keeps every byte whose write(2) returned and possibly a leading part of the one in progress",
];

macro_rules! hist {
    ($id:expr, $f:expr, $q:expr, $t:expr, $rule:expr) => {
        Check {
            id: $id,
            run: $f,
            quick: $q,
            thorough: $t,
            rule: $rule,
            level: "exploration",
            real: HIST_REAL,
            stub: HIST_STUB,
            assumptions: HIST_ASSUME,
        }
    };
}

const ED_REAL: &[&str] = &["liner::Context, Editor, Emacs and Vi key maps, Buffer, History", "Rust std::fs / std::io on top of the intercepted libc calls"];
const ED_STUB: &[&str] = &["terminal (emulated, with injected faults)", "user (seeded key source)", "completer (seeded answers)", "kernel and file system (in-memory)"];
const ED_ASSUME: &[&str] = &["keys arrive through the Tty trait as termion parses them"];

macro_rules! ed {
    ($id:expr, $f:expr, $q:expr, $t:expr, $rule:expr) => {
        Check {
            id: $id,
            run: $f,
            quick: $q,
            thorough: $t,
            rule: $rule,
            level: "exploration",
            real: ED_REAL,
            stub: ED_STUB,
            assumptions: ED_ASSUME,
        }
    };
}

pub fn checks() -> Vec<Check> {
    vec![
        ed!("C01", scen::c01, 200_000, 20_000_000, "a run is one to three sessions of arbitrary keys; non-trivial: more than three keys"),
        ed!("C02", scen::c02, 200_000, 20_000_000, "a run fails one terminal operation of one or two sessions, then compares the next session with one on a fresh context; non-trivial: the failure was hit"),
        ed!("C03", scen::c03, 200_000, 20_000_000, "a run repeats one session on terminals that interrupt and split writes; non-trivial: more than two keys"),
        ed!("C04", scen::c04, 150_000, 12_000_000, "a run is one to three sessions on one emulated screen compared after every key; non-trivial: more than three keys, compared to the end"),
        ed!("C05", scen::c05, 200_000, 20_000_000, "a run is one to three emacs sessions compared with the model after every key; non-trivial: something typed, more than four keys"),
        ed!("C06", scen::c06, 150_000, 12_000_000, "a run is one to three vi sessions compared with the model after every key; non-trivial: something typed, more than four keys"),
        ed!("C07", scen::c07, 200_000, 20_000_000, "a run is one to three sessions on a history with entries and a file; non-trivial: at least one entry, more than four keys"),
        ed!("C08", scen::c08, 200_000, 20_000_000, "a run is one to three sessions of history keys compared with the model; non-trivial: a non-empty history, more than four keys"),
        ed!("C09", scen::c09, 200_000, 20_000_000, "a run is one to three sessions of edits, undos and redos compared with the model; non-trivial: something typed and an undo, redo or revert"),
        ed!("C10", scen::c10, 200_000, 20_000_000, "a run is one to three sessions of completions compared with the model; non-trivial: at least two tabs"),
        ed!("C11", files::c11, 150_000, 15_000_000, "a run asks the file name completer about words on one simulated tree, directly, in a session, or while the tree changes; non-trivial: something was answered"),
        hist!("C12", hist::c12, 100_000, 4_000_000, "a run is one seeded session history of pushes on one file with crashes, restarts and disk faults; non-trivial: at least two pushes, and a crash if crashes were enabled"),
        hist!("C13", hist::c13, 160_000, 4_000_000, "a run saves a generated history one to three times under disk faults and loads it back; non-trivial: at least one entry"),
        hist!("C14", hist::c14, 160_000, 4_000_000, "a run disturbs one save or one compaction; non-trivial: the disturbance hit"),
        hist!("C15", hist::c15, 160_000, 4_000_000, "a run is one sequence of pushes, limit changes, loads, saves, compactions and restarts; non-trivial: at least two pushes"),
        hist!("C16", hist::c16, 100_000, 4_000_000, "a run interleaves two to four sessions at file-operation granularity; non-trivial: more than two context switches"),
        ed!("C17", share::c17, 150_000, 6_000_000, "a run is one to five lines read on a shared history while other sessions and programs write to its file between keys, or two to three processes appending and reloading at once; non-trivial: a reload that changed the history"),
        hist!("C18", hist::c18, 160_000, 4_000_000, "a run loads a generated damaged file several times under read faults; non-trivial: a file existed and was loaded"),
        hist!("C19", hist::c19, 160_000, 4_000_000, "a run is one sequence of pushes, loads, saves, compactions and restarts over few near-equal texts; non-trivial: at least two pushes"),
        ed!("C23", scen::c23, 200_000, 20_000_000, "a run is one to three sessions of an application's own key map calling the editor's methods, compared with the model after every key; non-trivial: at least three methods called"),
        ed!("C24", scen::c24, 150_000, 15_000_000, "a run is one or two sessions of which every event sent to the completer is checked; non-trivial: more than three keys"),
        ed!("C25", scen::c25, 150_000, 10_000_000, "a run is one to six sessions on one context the application also uses itself; non-trivial: more than three keys in one of them"),
        ed!("C20", tty::c20, 150_000, 10_000_000, "a run reads one to four lines through the process's own terminal and compares them with the same keys delivered one by one; non-trivial: more than two bytes of input, or a context that could not be created"),
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    sim::install_panic_hook();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = std::env::var("LSIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let all = checks();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(2).map(|s| s.as_str()).unwrap_or("");
            let tier = args.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let scale: f64 = std::env::var("LSIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            match all.iter().find(|c| c.id == id) {
                Some(c) => runner::check(c, base, &tier, scale, &format!("{}/evidence", root), &format!("{}/replays", root), &known(&root, id)).code,
                None => {
                    eprintln!("unknown property {}", id);
                    3
                }
            }
        }
        Some("replay") => {
            let r = args.get(2).and_then(|p| runner::load_replay(p));
            match r {
                Some(r) => match all.iter().find(|c| c.id == r.property) {
                    Some(c) => runner::replay(c, r.choices),
                    None => 3,
                },
                None => {
                    eprintln!("cannot read replay file");
                    3
                }
            }
        }
        Some("determinism") => {
            let per = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(200);
            runner::determinism(&all, base, per)
        }
        Some("list") => {
            for c in &all {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: lsim check <ID> [quick|thorough] | replay <file> | determinism [n] | list");
            3
        }
    };
    std::process::exit(code);
}

/// Listed findings of a property: (key, text).
fn known(root: &str, id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("finding: ")?;
            let (p, rest) = rest.split_once(' ')?;
            let (k, text) = rest.split_once(' ')?;
            if p == format!("property={}", id) {
                Some((k.to_string(), text.to_string()))
            } else {
                None
            }
        })
        .collect()
}
