#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": None}})

p("C01", "A session never panics or hangs and ends only in a documented way",
  "Whatever keys arrive, under either key binding style and whatever the prompt, initial line, history, completer answers and terminal width, reading a line never panics and never stops making progress, and after every key the cursor lies within the line. "
  "It returns only because Enter completed the line (that line), Ctrl-C was pressed (error Interrupted), Ctrl-D was pressed on an empty line (error UnexpectedEof), the key source ended (the line as it stood) or the key source failed (its error). "
  "No key is requested after the one that ends the session, and every key before it is consumed exactly once and in order.",
  ["inputs", "histories", "configurations"],
  "all key sequences and cut points x both key maps x prompts, initial lines, histories, completers and widths, with another session changing a shared history at any key",
  "The tests feed a few dozen fixed key sequences of one key map into an editor with an empty history; they reach almost none of the mode x history x completion combinations where an index can go out of range.",
  ["src/context.rs", "src/keymap/mod.rs", "src/keymap/emacs.rs", "src/keymap/vi.rs", "src/editor.rs"],
  [("key loop", "src/context.rs EditorContext::handle_keys"), ("special keys", "src/keymap/mod.rs KeyMap::handle_key"), ("cursor clamping", "src/editor.rs Editor::display_impl")],
  ["result of read_line", "Tty::next_key calls", "Completer::on_event BeforeKey/AfterKey"])

p("C02", "A failing terminal surfaces as its own error and damages nothing",
  "If writing to, flushing or reading from the terminal fails at any point of a session, reading the line returns an error of the kind the terminal reported, without panicking and without asking for another key. "
  "The history held by the context is what it was before the session, and once the terminal works again the same context reads the next line exactly as a fresh one would.",
  ["fault_sequences", "inputs", "histories"],
  "every failure kind at every terminal write, flush and key read of every session",
  "No test ever makes the terminal fail.",
  ["src/context.rs", "src/editor.rs", "src/keymap/mod.rs", "src/keymap/vi.rs"],
  [("error propagation with ?", "src/editor.rs Editor::display_impl, src/keymap/vi.rs Vi::pop_mode"), ("key errors", "src/context.rs EditorContext::handle_keys")],
  ["result of read_line", "Context::history after the session", "next session on the same context"])

p("C03", "Everything drawn reaches the session's own terminal before the next key",
  "All bytes a session draws go to the terminal it was given and nowhere else, and they are flushed whenever it waits for a key and when it returns. "
  "The byte sequence delivered is the same however the terminal splits, interrupts (EINTR) or shortens the individual writes.",
  ["fault_sequences", "inputs", "configurations"],
  "all sessions x all patterns of short and interrupted writes, with a terminal that buffers until flushed",
  "The test terminal accepts every write whole and throws the bytes away.",
  ["src/editor.rs", "src/context.rs", "src/keymap/mod.rs"],
  [("write_all + flush per redraw", "src/editor.rs Editor::display_impl"), ("flush after every key", "src/keymap/mod.rs KeyMap::handle_key")],
  ["bytes accepted by Tty::write", "Tty::flush", "the process's own file descriptors"])

p("C04", "The screen shows exactly the prompt, the line and the cursor",
  "After every key, on a terminal of any width that is tall enough, the screen shows from the row the prompt started on exactly the completion list (until the key after the one that closes it), the prompt or search prompt, and the current line followed by its pending suggestion, wrapped at the terminal width, with nothing stale left over and nothing above it disturbed. "
  "The cursor stands on the cell where the next typed character will appear (in a history search: in the search text), clearing the screen redraws all this at its top, and a line that is finished or given up (Ctrl-C, Ctrl-D) stays on screen without suggestion, the cursor at the start of a row below it. The suggestion is drawn unlike the line, the candidate inserted last unlike the rest of the list, and no colour stays on. "
  "(A line break in a search text is shown as a sign in the prompt. Printable text.)",
  ["inputs", "histories", "configurations"],
  "all key sequences x widths x prompts (multi-line, coloured, empty) x text with wide, zero-width and newline characters x histories and completions",
  "The tests never look at what is drawn: the test terminal discards it.",
  ["src/editor.rs", "src/util.rs", "src/buffer.rs"],
  [("redraw arithmetic", "src/editor.rs Editor::display_impl"), ("completion list", "src/editor.rs Editor::print_completion_list"), ("prompt width", "src/util.rs last_prompt_line_width")],
  ["the bytes written to Tty, interpreted by a terminal emulator"],
  [("term_cursor_line", "row of the cursor relative to the top of what is drawn", "src/editor.rs Editor")])

p("C05", "Emacs keys edit the line as documented, whatever goes on around them",
  "Under the Emacs key bindings, after every key the line and the cursor are exactly what the documented meaning of the keys so far gives: self-insertion, motion by character, word and line, deletion by character, word and to either end, last-argument insertion, undo and revert, and backslash-Enter continuing the line. "
  "This does not depend on terminal width, write interruptions, the time between keys, what other sessions do to the history file, or which key the session is cut off after.",
  ["inputs", "histories", "fault_sequences"],
  "all key sequences and cut points x initial lines x histories x environment disturbances",
  "Six unit tests try one short key sequence each.",
  ["src/keymap/emacs.rs", "src/editor.rs", "src/buffer.rs", "src/context.rs"],
  [("key dispatch", "src/keymap/emacs.rs Emacs::handle_key_core"), ("editing primitives", "src/editor.rs Editor")],
  ["Editor::current_buffer and Editor::cursor at BeforeKey/AfterKey", "the returned line"])

p("C06", "Vi keys edit the line as documented, whatever goes on around them",
  "Under the Vi key bindings, after every key the line, the cursor and the mode are exactly what the vi meaning of the keys so far gives: insert and normal mode, counts, motions, find-character and its repeats, delete and change with motions, replace, tilde, dot-repeat, and grouped undo. "
  "In normal mode the cursor is never past the last character; none of this depends on terminal width, write interruptions, what other sessions do to the history file, or which key the session is cut off after.",
  ["inputs", "histories", "fault_sequences"],
  "all key sequences and cut points x initial lines x histories x environment disturbances",
  "The vi tests are many but each is one fixed key sequence from one initial line; counts, dot-repeat, undo and history recall are never combined.",
  ["src/keymap/vi.rs", "src/editor.rs", "src/buffer.rs"],
  [("mode stack", "src/keymap/vi.rs ModeStack"), ("delete and change with motions", "src/keymap/vi.rs Vi::pop_mode_after_movement"), ("repeat", "src/keymap/vi.rs Vi::repeat")],
  ["Editor::current_buffer and Editor::cursor at BeforeKey/AfterKey", "the mode shown in the prompt", "the returned line"])

p("C07", "Editing a recalled entry never changes the stored history",
  "Recalling history entries, editing them, undoing, searching, accepting suggestions, completing and finishing or aborting a session at any point leaves the history held by the context entry for entry as it was (apart from refreshing a shared history from its file), and never writes to the history file. "
  "The line a session returns is the text that was on display when it ended.",
  ["inputs", "histories", "crash_points"],
  "all sessions, ended in every way at every key, over all histories",
  "No test edits a recalled entry and then looks at the history.",
  ["src/editor.rs", "src/context.rs", "src/history.rs"],
  [("copy on edit", "src/editor.rs cur_buf_mut!"), ("taking the result", "src/editor.rs impl From<Editor> for String, Editor::take_exec_buffer")],
  ["Context::history before and after", "file operations during a session", "the returned line"])

p("C08", "History navigation, suggestions and search show the right entry",
  "With an empty new line, Up and Down walk the whole history newest first and back to the new line; with text typed, they visit exactly the entries containing it, first those beginning with it from the newest, then the others from the newest, and Down past the newest restores the typed text. "
  "While typing, the suggestion is the newest entry that properly begins with the line, and accepting it makes the line that entry; in a search, the match shown is always an entry containing the search text, repeated searching visits every such entry in order and wraps, and Enter takes the match shown. "
  "When the history is shared and changes mid-session, what is shown is still an entry of the refreshed history.",
  ["inputs", "histories", "schedules"],
  "all key sequences over all histories, with other sessions appending, compacting and truncating the shared file between any two keys",
  "The few history tests use two or three entries and a fixed order of keys, and never a shared history.",
  ["src/editor.rs", "src/history.rs", "src/buffer.rs"],
  [("subset navigation", "src/editor.rs Editor::move_up/move_down, src/history.rs History::get_history_subset"), ("search", "src/editor.rs Editor::search/refresh_search"), ("suggestions", "src/editor.rs Editor::current_autosuggestion")],
  ["Editor::current_buffer, Editor::current_history_location, Editor::is_currently_showing_autosuggestion at every key", "the search prompt on screen", "the returned line"])

p("C09", "Undo, redo and revert step exactly through the line's past",
  "Each undo takes back exactly the most recent not-yet-undone insertion or deletion of the current line (or group of them: one vi insertion or change), each redo takes back that undo, and revert returns the line to the text it had before it was edited. "
  "Undo with nothing to undo changes nothing, a new edit forgets what was undone, and the edits of the new line and of recalled history lines never mix.",
  ["inputs", "histories"],
  "all interleavings of edits, undos, redos, reverts and history motions over all lines, cut after any key",
  "The tests undo one or two fixed edits; groups, redo after partial undo and undo across recalled lines are not reached.",
  ["src/buffer.rs", "src/editor.rs", "src/keymap/vi.rs"],
  [("action log", "src/buffer.rs Buffer::undo/redo/revert"), ("undo groups", "src/keymap/vi.rs Vi::set_mode_preserve_last/pop_mode")],
  ["Editor::current_buffer after every key or call", "return values of Editor::undo/redo/revert"])

p("C10", "Tab completes the word before the cursor and nothing else",
  "Tab asks the completer exactly once for the word that ends at or spans the cursor (empty if there is none); no candidate changes nothing, a single one replaces the part of the word before the cursor, several extend it to their longest common prefix if that adds to it, and otherwise open a sorted list without duplicates. "
  "With the list open, each further Tab replaces what the last one inserted by the next candidate, cyclically, Enter accepts without ending the session, and any other key closes the list; text outside the completed word is never altered, whatever the completer returns and however its answer changes between calls. The basic completer answers those of its words that begin with the word, in their order.",
  ["inputs", "histories", "fault_sequences"],
  "all lines and cursor positions x all completer answers, changing from call to call, x all key sequences around Tab",
  "The tests complete one word against one fixed list.",
  ["src/editor.rs", "src/complete.rs", "src/util.rs", "src/keymap/mod.rs"],
  [("completion state machine", "src/editor.rs Editor::complete"), ("common prefix", "src/util.rs find_longest_common_prefix")],
  ["arguments and answers of Completer::completions", "Editor::current_buffer and Editor::cursor at every key"])

p("C11", "File name completion offers exactly the matching directory entries",
  "For any typed word, the file name completer answers exactly the entries of the directory the word names whose names begin with the word's last component, each once, with the typed directory part kept (quotes around the word taken off), spaces escaped and a slash after directories, in whatever order the file system lists them; `.` and `..` at the end of a word name that directory itself. "
  "If the directory cannot be read it answers nothing, entries that cannot be read or vanish while listing are simply left out, and no word, file name or file system failure makes it panic or touch anything.",
  ["inputs", "fault_sequences", "schedules"],
  "all words (absolute, relative, quoted, escaped, with multi-byte characters) x directory trees x listing orders x directory read failures and concurrent removals",
  "One test lists the crate's own source directory; no failing or changing file system is ever used.",
  ["src/complete.rs"],
  [("directory listing", "src/complete.rs FilenameCompleter::completions")],
  ["the answer of FilenameCompleter::completions against the simulated file system", "file operations issued"])

p("C12", "With incremental append, every acknowledged push survives a crash",
  "With a history file set and incremental append on, once push has returned and no file operation failed, the entry is in the file: after a crash at any later point, a restarted session that loads the file finds every such entry, in push order, each intact and on its own line, and no entry that was never pushed (entries a line-based file can hold: no line break, not starting with '#'). "
  "A push that was interrupted by the crash adds its whole entry, a leading part of it or nothing, and never damages an entry before or after it. (A periodic compaction that is itself cut short is left to the property on interrupted rewrites.)",
  ["crash_points", "fault_sequences", "histories"],
  "all push sequences x all crash points (between and inside writes) x short and interrupted writes x restarts that continue pushing x any prior file content",
  "The tests never crash, and check one uninterrupted append.",
  ["src/history.rs"],
  [("append on push", "src/history.rs History::push"), ("loading", "src/history.rs History::load_history_file_test")],
  ["bytes of the history file", "entries after set_file_name_and_load_history"])

p("C13", "A saved history reads back the same, and a save that failed says so",
  "After commit_to_file_path reports success, loading that file into a fresh history gives exactly the entries that were saved, in order (entries a line-based file can hold: no line break, not starting with '#'). "
  "If creating, writing or completing the file failed for any reason (full disk, I/O error), it reports an error, and interrupted or short writes change nothing. Failed or not, it leaves these entries in memory, so that they can still be saved again.",
  ["fault_sequences", "inputs", "histories"],
  "all histories and size limits x all failing, short and interrupted file operations",
  "One test saves and loads two entries on a working disk.",
  ["src/history.rs"],
  [("rewrite", "src/history.rs History::overwrite_history, History::commit_to_file_path"), ("loading", "src/history.rs History::load_history_file_test")],
  ["result of commit_to_file_path", "bytes of the history file", "entries after loading"])

p("C14", "An interrupted rewrite of the history file loses nothing already stored",
  "If a save or the periodic compaction of the history file is cut short by a crash or a write failure, the file afterwards still holds every entry that it held before and that the finished rewrite would have kept, in order. "
  "It never holds a line that was in neither the old file nor the new list.",
  ["crash_points", "fault_sequences"],
  "all histories x a crash or failure at every file operation of every save and compaction",
  "No test interrupts a save or reaches a compaction under fault.",
  ["src/history.rs"],
  [("rewrite", "src/history.rs History::overwrite_history"), ("compaction", "src/history.rs History::deduplicate_history_file")],
  ["bytes of the history file after the crash", "entries after restart"])

p("C15", "History never exceeds its limits and always keeps the newest entries",
  "After every push the history holds at most the configured number of entries (1000 unless set), and after every load, save or compaction the history loaded and the file written hold at most the configured file limit (1000 unless set). "
  "What is dropped to meet a limit is always the oldest, never a newer entry while an older one stays, and the entry just pushed is the newest.",
  ["histories", "configurations", "fault_sequences"],
  "all limits and sequences of pushes, limit changes, loads, saves, compactions and restarts, from files of any length",
  "The tests use the default limit of 1000 with a handful of entries.",
  ["src/history.rs"],
  [("memory limit", "src/history.rs History::push"), ("file limit", "src/history.rs History::truncate, History::deduplicate_history_file")],
  ["History::buffers after each call", "lines in the history file"])

p("C16", "Concurrent sessions never lose or mangle each other's appended entries",
  "When several sessions append to one history file at the same time, in any interleaving and however they start, every entry whose push completed is in the file exactly once, whole and on its own line, and each session's entries are in its own push order. "
  "Starting a session never discards what another has written, and a session's crash damages no other session's entries.",
  ["schedules", "crash_points", "histories"],
  "all interleavings at file-operation granularity of up to four sessions pushing, starting, loading and crashing on one file, including entries of many kilobytes",
  "The tests run one session at a time.",
  ["src/history.rs"],
  [("O_APPEND write per entry", "src/history.rs History::push"), ("creating the file at start", "src/history.rs History::set_file_name_and_load_history")],
  ["bytes of the history file after every file operation", "entries after a final load"])

p("C17", "A shared history shows what the other sessions have stored",
  "With sharing on, the first history motion or search of a line makes the session's history equal to what its file then holds (within its limits and duplicate policy), whatever the other sessions did to the file in between. "
  "A session's own pushes do not make it lose, repeat or reorder entries, and a session that reloads sees each stored entry once, in file order.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of pushes, compactions and reloads of up to three sessions sharing one file, with failing appends and read errors",
  "One test exists for loading; none has two sessions.",
  ["src/history.rs", "src/editor.rs"],
  [("reload when the size differs", "src/history.rs History::load_history, History::file_size"), ("freshening", "src/editor.rs Editor::freshen_history")],
  ["History::buffers after a reload against the file's bytes", "entries reachable with Up"])

p("C18", "Loading copes with damaged files and failing reads without losing history",
  "Loading a history file never panics and gives every line of it that is not a comment, in order, whatever bytes it holds: bytes that are not UTF-8 damage at most the line they are on, and short or interrupted reads change nothing. "
  "If the file is missing or cannot be read to the end, loading reports an error and the entries in memory stay as they were; loading never modifies the file.",
  ["inputs", "fault_sequences", "schedules"],
  "all file contents (including torn and binary) x open, stat and read failures, short and interrupted reads, and the file vanishing or shrinking meanwhile",
  "The tests load one small well-formed file.",
  ["src/history.rs"],
  [("loading", "src/history.rs History::load_history_file_test"), ("compaction reads", "src/history.rs History::deduplicate_history_file")],
  ["result of the load calls", "History::buffers afterwards", "file operations issued"])

p("C19", "Duplicate policies hold and never drop an entry that is not a duplicate",
  "Unless duplicates are to be appended, pushing an entry equal to the newest one changes neither history nor file; otherwise every push adds exactly one entry. "
  "With duplicate loading off, a loaded history and a compacted file hold each text once, at the place of its newest occurrence, and with it on every line is kept; entries that differ in any character are never treated as duplicates.",
  ["histories", "configurations", "fault_sequences"],
  "all policy settings x sequences of pushes, loads, saves, compactions and restarts over few distinct and near-equal texts",
  "The tests check one load with duplicates; compaction happens only every thirtieth push and is never reached.",
  ["src/history.rs"],
  [("push-time check", "src/history.rs History::push"), ("load-time removal", "src/history.rs History::remove_duplicates"), ("file compaction", "src/history.rs History::deduplicate_history_file")],
  ["History::buffers after each call", "lines in the history file"])

p("C20", "The real terminal is raw during a session and restored afterwards",
  "A context on the process's own terminal has it in raw mode from creation until it is dropped, and then its settings are exactly what they were before, however the sessions on it ended: normally, by Ctrl-C or Ctrl-D, at end of input or with an error. "
  "Typed text is received the same however the input arrives in pieces or reads are interrupted, it is sent what any terminal of its width is sent (80 columns if it does not tell), and if the terminal's settings cannot be read or changed, creating the context reports an error and leaves them unchanged.",
  ["fault_sequences", "inputs"],
  "all sessions and endings x input chunking x interrupted reads and writes x failing terminal-attribute calls",
  "No test uses the real terminal type.",
  ["src/context.rs"],
  [("raw mode guard", "src/context.rs DefaultTty::new"), ("key source", "src/context.rs impl Tty for DefaultTty")],
  ["tcgetattr/tcsetattr/ioctl/read/write on descriptors 0 and 1", "result of read_line"])

p("C21", "Splitting text into words and cursor positions is right for every text",
  "For every text, the default word divider returns the maximal runs of characters separated by unescaped spaces, in order and without overlap, and the position of a cursor relative to them is the one its documentation describes.",
  ["inputs"], "all texts and cursor positions",
  "The tests try a few texts.",
  ["src/context.rs", "src/editor.rs"],
  [("get_buffer_words", "src/context.rs"), ("CursorPosition::get", "src/editor.rs")],
  ["return values"])

p("C22", "Buffer queries and text utilities agree with the text they are given",
  "For every buffer, its length, width, line, range, prefix and containment queries agree with its text, and the common-prefix and escape-sequence-stripping helpers return exactly the common prefix and the visible text.",
  ["inputs"], "all buffers, lists of words and strings with escape sequences",
  "The tests try a few values.",
  ["src/buffer.rs", "src/util.rs"],
  [("queries", "src/buffer.rs Buffer"), ("helpers", "src/util.rs")],
  ["return values"])

p("C23", "The editor's methods do exactly what they say when an application calls them",
  "An application's own key map, or its event handler, may call any of the editor's methods at any point of a session, also while a search is going on, an entry is recalled or a vi command is half typed. "
  "Each call changes the line, the cursor, the history location and the undo steps exactly as the method's description says (positions and counts beyond the line are cut back to it), returns what it should (whether something was undone, the line taken, the words and the cursor's position among them), and is on screen when it returns.",
  ["inputs", "histories", "configurations"],
  "all sequences of method calls and keys x both key maps x histories changed by other sessions x terminals that interrupt and split writes",
  "The tests call a few methods once on a short line in an otherwise untouched editor.",
  ["src/editor.rs", "src/buffer.rs", "src/keymap/mod.rs", "src/event.rs", "src/context.rs"],
  [("editing methods", "src/editor.rs Editor::insert_chars_after_cursor, delete_*"), ("movement", "src/editor.rs Editor::move_*"), ("prompt", "src/editor.rs Editor::set_prompt, set_vi_mode"), ("own key maps", "src/context.rs EditorContext::handle_keys, src/keymap/mod.rs KeyMap"), ("events", "src/event.rs")],
  ["return values", "Editor::current_buffer, cursor, current_history_location", "terminal output"])

p("C24", "The completer is told of every key, before and after it is handled",
  "For every key a session consumes, the completer gets exactly one event before the key is handled, with the line and the cursor as the previous key left them, and exactly one after it, with the result in place; the latter is left out only if the key ended the session with an error. "
  "Each time a completion is asked for by Tab, one event announces it before the completer is asked for candidates. Events come in the order of the keys.",
  ["inputs", "histories", "fault_sequences"],
  "all key sequences x both key maps x own key maps x histories changed by other sessions x terminal failures at any operation",
  "No test looks at the events.",
  ["src/event.rs", "src/keymap/mod.rs", "src/editor.rs", "src/complete.rs"],
  [("key events", "src/keymap/mod.rs KeyMap::handle_key"), ("completion event", "src/editor.rs Editor::complete")],
  ["Completer::on_event"])

p("C25", "A session leaves nothing of itself behind in the context",
  "However a session ends and however many went before it, the context keeps nothing of it: the context's string buffer holds exactly what the application itself wrote there, its key bindings and the history's settings are as before, and no file stays open. "
  "So a context can be used for any number of lines, the same way each time, without growing.",
  ["inputs", "histories", "fault_sequences"],
  "all sequences of sessions on one context x ways they end x terminal failures at any operation x use of the context in between",
  "No test reads two lines from one context, or looks at a context after a session failed.",
  ["src/context.rs", "src/editor.rs"],
  [("the context's buffer", "src/context.rs impl fmt::Write for Context"), ("drawing", "src/editor.rs Editor::display_impl"), ("reloading a shared history", "src/editor.rs Editor::freshen_history")],
  ["Context::buffer, key_bindings, history", "open files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
