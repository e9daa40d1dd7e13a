#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with seeded fault injection (%s)"
CHECKS = [
  ("C01", "sessions of arbitrary keys on disturbed terminals, files changed by other sessions; invariants: no panic or spin, cursor in the line, documented endings",
   "Seeded search over keys, widths, prompts, histories, completer answers and terminal faults; no model of the line."),
  ("C02", "one terminal operation of a session fails; oracle: the error's kind, the history before, and a second simulation of the next session on a fresh context",
   "The failing operation is drawn from all operations a healthy execution of the same session makes; errors of Tty::width are not injected."),
  ("C03", "the same session on an undisturbed and on interrupting, splitting terminals; oracle: equal bytes at every key",
   "Byte-for-byte comparison of simulations of one session under different terminal faults; stray use of the process's own descriptors is counted by the interposed libc calls."),
  ("C04", "sessions on an emulated screen; oracle: independent layout of prompt, list, line, suggestion and cursor after every key",
   "Screen contents compared cell by cell after every key, over several sessions on one screen; printable text only."),
  ("C05", "emacs sessions with terminal faults and another session rewriting the shared history; oracle: reference model after every key",
   "Refinement against an executable reference model of the emacs keys."),
  ("C06", "vi sessions with terminal faults and another session rewriting the shared history; oracle: reference model after every key",
   "Refinement against an executable reference model of the vi keys; the mode is read off the prompt."),
  ("C07", "sessions cut off at any point; oracle: history, undo logs and history file before the session",
   "Every session is compared entry for entry with the state before it, and its file operations are scanned for writes."),
  ("C08", "history keys while another session changes the shared file; oracle: reference model after every key",
   "Refinement against the reference model on histories of overlapping entries."),
  ("C09", "undo, redo and revert in both key maps; oracle: reference model of whole-line snapshots after every key",
   "Refinement against whole-line snapshots; redo is called through the Editor API by the observer."),
  ("C10", "completion with a completer whose answers change from call to call; oracle: reference model after every key",
   "Refinement against the reference model; every question to the completer is recorded and compared."),
  ("C11", "the file name completer on a simulated directory tree with failing and shuffled listings and a second process changing it; oracle: an independent matcher over the names the simulated listing handed out",
   "Seeded trees, words and listing faults; words with `//` or `/./` (several spellings of one path) are only checked for panics and side effects."),
  ("C12", "seeded pushes, crashes inside and between writes, disk faults, restarts; oracle: acknowledged-record history",
   "Seeded search over crash points and disk faults on an in-memory file system under the real History code; assumes a crash keeps every byte whose write returned and possibly a leading part of the one in progress."),
  ("C13", "saves under full disk, I/O errors, EINTR and short writes; oracle: the saved list",
   "Seeded search over fault placements on saves of generated histories; success is compared with a fresh load, failure must be reported."),
  ("C14", "crash or failure at a chosen operation of one save or compaction; oracle: old and new content",
   "Seeded search over the interruption point; the states the known finding K2 describes (a leading part of the new content) are listed and not reported again, every other loss is."),
  ("C15", "seeded operation histories over limits with restarts; oracle: reference list model after every call",
   "Reference model compared after every call, memory and file; no concurrency."),
  ("C16", "2-4 sessions interleaved at file-operation granularity with crashes; oracle: per-session push order and exactly-once",
   "Seeded scheduler over every libc file call of up to four sessions; a loss caused by a compaction overlapping another session's write (known finding K1) is listed and not reported again."),
  ("C17", "sessions reading lines on a shared file while others push, compact, save and edit it between keys, or at file-operation granularity; oracle: the file's content parsed independently at the moment of the reload",
   "Seeded histories of up to four sessions; a reload that cannot notice a change because the file has its old length again (known finding K3) is listed and not reported again."),
  ("C18", "damaged files under open/stat/read faults and concurrent change; oracle: independent parser",
   "Seeded damaged contents and read faults, compared with an independent line parser."),
  ("C19", "seeded operation histories over near-equal texts; oracle: reference list model after every call",
   "Reference model compared after every call, memory and file."),
  ("C20", "lines read through the process's own terminal with input in pieces, interrupted and failing reads and writes, failing attribute calls and panicking completers; oracle: the same keys delivered one by one, and the attributes before",
   "Input and output bytes, and every tcgetattr/tcsetattr, pass the simulator; escape sequences are never split, because termion tells an Esc key from a sequence by that."),
]
CHECKS += [
  ("C23", "sessions whose keys call the editor's methods, directly and from event handlers, with terminal faults and another session rewriting the shared history; oracle: reference model after every call",
   "Refinement of 33 method calls against the reference model, return values and screen included; calls from event handlers are made only while no completion list is open."),
  ("C24", "sessions with terminal faults and failures; oracle: the keys delivered and the line after each, against the events received",
   "The order and contents of all events of a session against the keys the simulated terminal delivered."),
  ("C25", "several sessions on one context, ended in every way and by terminal failures, with use of the context in between; oracle: the context before each session",
   "The buffer, key bindings, history settings and open files of the context after each session against those before it; heap use is not measured."),
]
NA = [
  ("C21", "get_buffer_words and CursorPosition::get are pure functions of their arguments: no concurrency, time, I/O or multi-party behaviour for a simulator to schedule or disturb. Their effect on sessions is checked through C05 and C10."),
  ("C22", "Buffer queries and the text helpers are pure functions: nothing for a simulator to schedule or disturb. Their effect on sessions is checked through C04, C08 and C10."),
]
m = {
  "version": 1,
  "setup_cmd": "bash /verif/build.sh",
  "hooks": {"guard": "none", "enable": "No hooks: the seams are the crate's own traits (Tty, Completer, EditorContext) and the libc calls, which the simulator's executable interposes at link time.", "source_commits": []},
  "checks": [
    {"property": i, "quick_cmd": "bash /verif/check.sh %s quick" % i, "thorough_cmd": "bash /verif/check.sh %s thorough" % i,
     "evidence_file": "evidence/%s.json" % i, "technique": TECH % t, "level": "exploration", "level_note": n} for i, t, n in CHECKS],
  "not_applicable": [{"property": i, "reason": r} for i, r in NA],
}
claimed = {c[0] for c in CHECKS} | {n[0] for n in NA}
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] not in claimed:
        m["not_applicable"].append({"property": p["id"], "reason": "The check is not built yet."})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
