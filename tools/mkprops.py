#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Added text can never smuggle control characters into a line",
  "Whatever text is added to a Line, the Line's text afterwards contains no control character other than newline and no U+2028/U+2029. Each such character is replaced, at its own place, by a visible substitute (^X below U+0020, U+XXXX with at least four upper-case hex digits otherwise) shown with the inverse style toggled, and every other character is kept, in order, in the style that was active. The active style and colors after the call are what they were before it.",
  ["inputs", "histories"], "every string added, to every Line already built by any sequence of calls",
  "One test adds one string with three control characters; the space of strings and of prior lines is unbounded.",
  ["src/line.rs"], [("add_text", "src/line.rs Line::add_text"), ("append_text", "src/line.rs Line::append_text")],
  observe=["Line::as_str", "Line::chars", "Line::get_style"])
p("C02", "Every character of a line carries the style active when it was added",
  "After any sequence of Line-building calls, iterating over a Line's characters yields every character of its text exactly once, in order, with its byte index and with exactly the style and the colors that were active when it was added; setting, toggling, activating or deactivating styles and colors changes nothing about earlier text, changes only the attribute named, and is what the getters report. No such sequence of calls panics.",
  ["inputs", "histories"], "every sequence of style, color and text calls, with every argument",
  "Tests build a handful of lines with two or three changes each and compare them with lines built by the same calls.",
  ["src/line.rs"], [("span bookkeeping", "src/line.rs Line::{append_text,set_style,set_colors,...}"), ("iteration", "src/line.rs LineCharIterator::next")],
  state=[dict(name="Line.elements", meaning="spans that tile the text", where="src/line.rs")],
  observe=["Line::chars", "Line::get_style", "Line::get_colors"])
p("C03", "Appending a line concatenates text and per-character attributes",
  "Appending one Line to another makes the text the concatenation of both texts; every character keeps the style and colors it had in the line it came from. If the appended Line ended in a style with no text after it, that style is the active one afterwards; the receiving Line stays valid for further calls.",
  ["inputs", "histories"], "every pair of Lines, however built, including empty ones and ones ending in an unused style",
  "No existing test appends lines.",
  ["src/line.rs"], [("append_line", "src/line.rs Line::append_line"), ("reset_and_break", "src/line.rs Line::reset_and_break")],
  observe=["Line::chars", "Line::as_str"])
p("C04", "Wrapping only turns blanks into line breaks, and keeps the styling",
  "Wrapping a Line to any positive width never panics and never loses, duplicates, reorders or restyles a character: the result is the original text with some runs of spaces replaced by one newline each, and with newlines inserted at some places; each surviving character has the style and colors it had before. The wrapped Line is valid: all of its text is covered by its styling exactly once, newlines included, so that it prints in full and can be built on further.",
  ["inputs", "histories"], "every Line (any Unicode text, newlines, style changes anywhere) and every width of at least 1",
  "The tests wrap ASCII text, where byte and character positions agree, and one styled line whose style changes lie inside words.",
  ["src/line.rs", "src/lib.rs"], [("break computation", "src/line.rs Line::wrap_to_width"), ("span repair", "src/line.rs Line::erase_and_insert_newline"), ("slice to range", "src/lib.rs convert_subset_slice_to_range")],
  observe=["Line::chars after Line::wrap_to_width"])
p("C05", "ANSI text: SGR sequences become styling, all else stays text",
  "Adding ANSI text never panics or loops for any input. Complete SGR sequences (ESC [ digits and other parameter bytes m) contribute no text and apply exactly the style and color changes they denote to the text that follows; everything else in the input is added exactly as plain text would be, in order. (A parameter that is no number counts as 0; the extended colors 38, 48 and 58 are skipped together with their arguments.)",
  ["inputs"], "every string, including truncated, nested and malformed escape sequences",
  "One test, with one well-formed string.",
  ["src/line/add_ansi.rs"], [("scanner", "src/line/add_ansi.rs Line::add_ansi_text")],
  observe=["Line::chars"])
p("C06", "The input cursor always sits on a character boundary of the input",
  "Through any sequence of editing keys, submissions, discards, prompt changes (with or without clearing the input), history movement and well-behaved completions, the cursor of the input line stays within the input and on a character boundary, and no editing operation panics or loops forever.",
  ["inputs", "histories"], "every sequence of requests and keys, every Unicode content of the input, clipboard, history and completions",
  "No test runs the editor at all; the failing states need particular multi-byte or zero-width characters or an order of requests.",
  ["src/worker.rs"], [("editing handlers", "src/worker.rs TtyState::handle_*"), ("prompt request", "src/worker.rs TtyState::handle")],
  state=[dict(name="input / input_cursor", meaning="current input and byte offset of the cursor", where="src/worker.rs TtyState")],
  observe=["TtyState.input_cursor", "Response::Input"], hook="read access to the private editor state, for replaying a failing key sequence")
p("C07", "Each editing key has exactly its documented effect on the input",
  "Typing a character inserts exactly it at the cursor and moves the cursor past it. Left/right move by one visible character, home/end to the ends; delete-back and delete-forward remove exactly the characters a left or right movement passes over; kill-to-end, kill-to-start remove exactly the text after or before the cursor and make it the clipboard, and yank inserts the clipboard at the cursor. Text not named here, and the clipboard otherwise, is unchanged.",
  ["inputs", "histories"], "every input, cursor position and clipboard, any Unicode",
  "No test runs the editor.",
  ["src/worker.rs"], [("editing handlers", "src/worker.rs TtyState::handle_{char_input,left_arrow,right_arrow,home,end,delete_back,delete_fore,kill_to_end,kill_to_start,yank}")],
  observe=["TtyState.input", "Response::Input"], hook="as C06")
p("C08", "Submitted, discarded and cleared input is exactly what was typed",
  "Return delivers exactly the current input, once, appends it to the history, and leaves the input empty; control-G delivers exactly the current input as discarded and leaves it empty; control-D reports Finish if and only if the input is empty and otherwise just clears it. A prompt request always takes effect in full: the prompt shown, whether input is allowed, and, if asked for, clearing the input. While input is not allowed, keys have no effect.",
  ["inputs", "histories"], "every editor state, every prompt request and key",
  "No test runs the editor.",
  ["src/worker.rs"], [("return/discard/finish", "src/worker.rs TtyState::handle_{return,discard,finish}"), ("prompt", "src/worker.rs TtyState::handle")],
  observe=["Response::Input", "Response::Discarded", "Response::Finish"], hook="as C06")
p("C09", "Every control key does what the key table says, on both input paths",
  "For every character received as raw input, the editor performs the one action that the documented key table names for it (line-editing command, history movement, completion, or the Response for it), reports any other control character as Unknown with its own value, and inserts every non-control character; the control keys of the table do the same when they arrive as terminal events, and any other control key that does is reported as Unknown with its own value. Tab presses are counted so that the first press after any other key is press 1.",
  ["inputs"], "every char, every key event with or without Control",
  "No test runs the editor.",
  ["src/worker.rs"], [("raw input dispatch", "src/worker.rs TtyState::handle_input"), ("event dispatch", "src/worker.rs TtyState::handle_event")],
  observe=["Response", "TtyState.input"], hook="as C06")
p("C10", "History movement never fails and always brings the unsent line back",
  "Moving to the previous or next history entry shows exactly that entry with the cursor at its end, moving forward past the newest entry brings back exactly the line that was being typed before, and at either end nothing changes except for a bell. None of this panics, even if the history is replaced or shortened by another thread between any two operations.",
  ["histories", "schedules"], "every interleaving of history keys, editing, submissions and history replacement",
  "No test runs the editor; the index panics need a history swap between two keys.",
  ["src/worker.rs", "src/lib.rs"], [("movement", "src/worker.rs TtyState::{history_prev,history_next}"), ("re-anchoring", "src/worker.rs TtyState::handle BumpHistory"), ("swap", "src/lib.rs InputOutput::swap_history")],
  state=[dict(name="cur_history_index / orphaned_new_input", meaning="where we are, and the unsent line", where="src/worker.rs TtyState")],
  observe=["TtyState.input"], hook="as C06")
p("C11", "Adding to the history keeps order, limit and uniqueness",
  "Adding a line makes it the newest entry; with duplicate stripping on, exactly the older equal entries disappear; with a limit N, the result is the newest N entries of the sequence thus formed; nothing else changes and the order is kept. The autosave handler runs exactly when the configured number of lines has been added since the last autosave, sees the history including the new line, and its error is returned.",
  ["inputs", "histories"], "every history content, line, limit, interval and setting",
  "No existing test adds to a history.",
  ["src/history.rs"], [("add_line", "src/history.rs History::add_line")],
  observe=["History::get_lines"])
p("C12", "A history written to a file reads back the same, or reports an error",
  "Writing a history and reading it back yields exactly the same lines, for every history of lines that the line editor can produce (no line breaks, no trailing carriage returns, no leading byte-order mark on the first). If any write to the file fails, including the last buffered one, writing returns an error; a failed read leaves the history unchanged.",
  ["inputs", "fault_sequences"], "every history of such lines, every point at which a write or read can fail",
  "No existing test touches a history file, and none injects I/O errors.",
  ["src/history.rs"], [("write", "src/history.rs History::write_history_to"), ("read", "src/history.rs History::read_history_from")],
  observe=["History::read_history_from", "History::write_history_to"])
p("C13", "Autosave never leaves a crash point at which the history is lost",
  "At every point during an autosave of a file-backed history, whether it stops there because of a crash or because a file operation failed, loading that history file again yields either the complete old history or the complete new one. When an autosave reports success, loading yields the new one, also on the very first save, when no file existed.",
  ["crash_points", "fault_sequences"], "every point between file operations, every file operation failing, every prior state of the file, its build copy and its backup",
  "No existing test saves a history.",
  ["src/history.rs"], [("autosave handler", "src/history.rs History::from_file (closure)"), ("loader", "src/history.rs History::from_file")],
  observe=["History::from_file"])
p("C14", "Terminal input bytes decode to exactly the characters typed",
  "The terminal input decoder never panics and always makes progress, for every byte stream and every way it is cut into reads. Outside escape sequences, every well-formed UTF-8 character in the stream arrives exactly once, unchanged and in order; each ill-formed sequence (a lead byte with the continuation bytes that follow it, as many as it calls for, that form no character: truncated, surrogates, beyond U+10FFFF; or a stray continuation byte) produces one replacement character instead; recognised cursor-key sequences produce their key. Nothing is held back but an unfinished escape sequence or UTF-8 sequence.",
  ["inputs", "schedules"], "every byte stream and every split of it into reads",
  "No test runs the decoder.",
  ["src/term/cross.rs"], [("decoder", "src/term/cross.rs input_thread"), ("CSI", "src/term/cross.rs parse_csi_sequence")],
  observe=["Request sent by the input thread"], hook="access to the private decoder for replay")
p("C15", "The VT52 input decoder always makes progress",
  "For every byte stream and every way it is cut into reads, the VT52 input decoder neither panics nor loops without consuming input: once it has processed what it was given it waits for more, holding back at most an unfinished identification reply. Plain 7-bit text arrives exactly once and in order; bytes with the high bit set are dropped.",
  ["inputs", "schedules"], "every byte stream and every split of it into reads",
  "No test runs the decoder.",
  ["src/term/vt52.rs"], [("decoder", "src/term/vt52.rs input_thread")],
  observe=["Request sent by the input thread"], hook="as C14")
p("C16", "Printed output appears in full, inside the screen, and ends on a fresh line",
  "Printing a Line sends every character of its text to the terminal exactly once, in order, with that character's style and colors, starting from column 0 and never starting a visible character beyond the last column; newlines in the text become line breaks, rows that are full are broken, and a character wider than what is left of its row goes to the next one. Afterwards the cursor is at column 0 of the row below the last printed row and the attributes are reset.",
  ["inputs", "configurations"], "every Line and every terminal width of at least 1",
  "No test prints anything to a terminal.",
  ["src/worker.rs"], [("output_line", "src/worker.rs TtyState::output_line")],
  observe=["Term trait calls"], hook="a recording terminal for replay")
p("C17", "Redrawing and erasing the prompt never touches earlier output",
  "The remembered position of the cursor within the status/prompt/input block always equals its real position, after any sequence of redraws, prints and erasures at a fixed terminal width on whose screen the block fits. Erasing the block therefore returns exactly to the block's first row and column 0 and clears from there, so no row above the block is ever moved to, overwritten or cleared by redrawing, erasing or printing. When Liso ends, the block is erased before the terminal is given back.",
  ["inputs", "histories", "configurations"], "every sequence of redraws (any lines, any cursor positions), prints and erasures, every width of at least 1",
  "No test draws anything.",
  ["src/worker.rs"], [("incremental redraw", "src/worker.rs TtyState::output_line_changes"), ("cursor bookkeeping", "src/worker.rs TtyState::reconcile_cursors"), ("erase", "src/worker.rs TtyState::rollin")],
  state=[dict(name="remembered_output", meaning="what is on screen and where the cursor is in it", where="src/worker.rs TtyState")],
  observe=["Term trait calls"], hook="as C16")
p("C18", "An incremental redraw shows the same screen as drawing afresh",
  "After the status/prompt/input block (of no more rows than the screen has) is updated from any previous content to any new content, the block's area of the screen shows exactly what drawing the new content on a cleared area would show - same characters in the same cells - and nothing of the previous content remains; the cursor is at the cell of the input cursor. Whenever the block has been updated it shows the current status, then the notice if there is one, else the prompt and the input: no request or key that changes one of these goes without an update.",
  ["inputs", "histories", "configurations"], "every pair of previous and new content and cursor position, every width of at least 1",
  "No test draws anything, and the mistakes need a particular pair of old and new content.",
  ["src/worker.rs"], [("incremental redraw", "src/worker.rs TtyState::output_line_changes"), ("block composition", "src/worker.rs TtyState::rollout")],
  observe=["Term trait calls"], hook="as C16")
p("C19", "After attributes are set, the terminal really has those attributes",
  "After the crossterm backend is asked for a style and a foreground and background color, the attributes and colors in force on the terminal are exactly those asked for, whatever was in force before; after a reset or clear they are the defaults. The same holds for the VT52 backend within its palette, with inverse exchanging foreground and background.",
  ["inputs", "histories", "configurations"], "every sequence of attribute requests, resets and clears, every style and color, both backends, every palette",
  "No test drives a backend; the failing case needs one particular transition.",
  ["src/term/cross.rs", "src/term/vt52.rs", "src/lib.rs"], [("crossterm set_attrs", "src/term/cross.rs Crossterminal::set_attrs"), ("VT52 set_attrs", "src/term/vt52.rs Vt52::set_attrs"), ("palettes", "src/lib.rs Color::to_*, Style::as_crossterm")],
  observe=["escape sequences written"], hook="as C14")
p("C20", "Every notice is taken down when its time is up",
  "For every sequence of notices, with any durations and at any times, the notice on display is removed no later than the first wake-up at or after its deadline, a wake-up is sent for every deadline at that deadline, and not before the deadline is the notice removed by a wake-up. The timer keeps working for as long as Liso runs, whatever notices have come and gone.",
  ["schedules", "histories"], "every sequence of notices, durations and arrival times",
  "No test shows a notice; the second notice is what fails.",
  ["src/worker.rs"], [("heartbeat thread", "src/worker.rs tty_worker (closure)"), ("expiry", "src/worker.rs TtyState::handle Heartbeat"), ("show", "src/worker.rs TtyState::show_notice")],
  observe=["Request::Heartbeat"], hook="as C06")
p("C21", "Pipe mode delivers each input line once and nothing else",
  "Liso works in pipe mode exactly when standard input or standard output is not a terminal, or TERM is \"dumb\" or \"pipe\". In pipe mode the program receives exactly the lines of standard input, each once, in order, without its line terminator (the newline, and any carriage returns directly before it or at the end of the input) and otherwise unchanged, and nothing after end of input or a read error; every printed or wrapped line is written to standard output as its plain text and one newline, and prompts, statuses, notices and echoes write nothing.",
  ["inputs", "histories"], "every input stream, every sequence of requests, every combination of terminals and TERM",
  "The only tests that start pipe mode never finish, because of the behaviour this rules out.",
  ["src/worker.rs"], [("stdin loop", "src/worker.rs pipe_worker (closure)"), ("request loop", "src/worker.rs pipe_worker"), ("choice", "src/worker.rs worker")],
  observe=["Response::Input", "standard output"])
p("C22", "The end of Liso is reported, and ignoring it cannot go on forever",
  "Every way of reading input returns Dead exactly when the worker is gone and nothing is left to read, returns queued responses first and unchanged, and panics at exactly the ninth Dead; it never panics earlier. A response maps to the control code documented for it.",
  ["histories"], "every sequence of reads of any kind, every response",
  "No test reads responses.",
  ["src/lib.rs"], [("read_*", "src/lib.rs InputOutput::{read_async,read_timeout,read_deadline,read_blocking,try_read}"), ("report_death", "src/lib.rs InputOutput::report_death"), ("as_unknown", "src/lib.rs Response::as_unknown")],
  observe=["InputOutput read methods"])
p("C23", "Captured stderr is passed on line by line, complete and in order",
  "With stderr capture enabled, for every stream of bytes written to stderr and every way it is cut into reads, the captured lines are exactly the newline-separated lines of that stream, in order, with any unterminated rest delivered when the stream ends; nothing is lost, repeated or invented, and capturing never panics. While it goes on, everything written to standard error goes to it and to nothing else; where it cannot be set up, a line says so; then, and when it has ended, standard error is what it was and no descriptor is left open.",
  ["inputs", "schedules", "fault_sequences"], "every byte stream, every split into reads, every outcome of the system calls",
  "The feature is compiled but no test runs it.",
  ["src/stderr_capture.rs"], [("line splitting", "src/stderr_capture.rs attempt_stderr_capture (closure)"), ("beginning and end", "src/stderr_capture.rs attempt_stderr_capture, wait_until_not_captured")],
  observe=["Request::StderrLine"], hook="as C14")
p("C24", "Lines printed from several threads are never mixed or lost",
  "Lines sent from any number of threads, through any clones of the output, are each printed whole and once, never mixed with one another, each thread's lines in the order sent; everything sent before Liso is told to end is still printed before it ends. The same holds for the other requests: each sending function sends exactly its one request, and each request is dealt with exactly once.",
  ["schedules"], "every interleaving of senders with the output thread",
  "No test prints from several threads.",
  ["src/lib.rs", "src/worker.rs"], [("sending", "src/lib.rs Output::{send,println,wrapln,echoln,status,notice,prompt,bell,suspend_and_run,clone_output,send_custom,set_completor}"), ("single consumer", "src/worker.rs tty_worker"), ("printing", "src/worker.rs TtyState::{handle,output_line}"), ("pipe mode", "src/worker.rs pipe_worker")],
  observe=["terminal output"])
p("C25", "Shutting down restores the terminal and stdin and stops the threads",
  "However Liso ends (the InputOutput dropped, die, blocking_die, a panic of the thread that owns it), as long as the terminal takes what is written to it: the terminal is in its normal mode again (not raw), the cursor shown, the attributes normal, long lines wrapped by the terminal; the panic hook there was before Liso started is the one in place again; standard input is what it was (descriptor 0 and the action of SIGHUP as before, no descriptor left over) and Liso's threads that read it are gone, without a key having to be pressed. After a panic, the terminal is back to normal before the message is printed. While a function given to suspend_and_run runs, and while the program is stopped by control-Z, the terminal is in that normal state too; afterwards Liso has it again, in raw mode. Whenever the program's own panic hook runs, the terminal is normal. This is about the way Liso reads standard input by default on Unix.",
  ["schedules", "fault_sequences"], "every way and moment of ending, every outcome of the system calls",
  "No test runs in a terminal.",
  ["src/unix_util.rs", "src/term/cross.rs", "src/term/vt52.rs", "src/worker.rs", "src/lib.rs"], [("interrupt", "src/unix_util.rs InterruptibleStdinThread::interrupt"), ("suspend/cleanup", "src/term/cross.rs Crossterminal::{new,suspend,unsuspend,cleanup}"), ("VT52", "src/term/vt52.rs Vt52::{new,suspend,unsuspend,cleanup}"), ("reader threads", "src/term/cross.rs, src/term/vt52.rs new (closures)"), ("worker", "src/worker.rs tty_worker, pipe_worker, TtyState::{handle_suspend,cleanup}"), ("ending", "src/lib.rs InputOutput::{die,blocking_die,drop}")],
  observe=["termios", "file descriptor 0", "panic hook", "terminal output"])
p("C26", "At most one Liso is active, and the global output follows it",
  "At no time are two InputOutput instances active, whatever threads create, drop, die or blocking_die them: while one exists, or is still shutting down (its worker has not ended), creating another one panics; once it has been dropped and has completely shut down, another one can be created. The global output() is that of the instance there is, from when it has been created until it begins to shut down; it panics when there is none.",
  ["schedules"], "every interleaving of creation, the ways of ending, and output()",
  "No test creates two instances.",
  ["src/lib.rs"], [("creation", "src/lib.rs InputOutput::new"), ("drop", "src/lib.rs Drop for InputOutput"), ("global", "src/lib.rs output")],
  observe=["InputOutput::new", "output"])
p("C27", "Wrapped lines fit the width",
  "After a Line is wrapped to a width, no line within it is wider than that many columns (or than two columns, which a single character may need, if the width is 1), not counting blanks at the end of the line. This holds for lines with newlines, indentation, wide and zero-width characters and words longer than the width.",
  ["inputs", "histories"], "every Line and every width of at least 1",
  "The tests compare a few wrapped lines; whether a line is too wide depends on all of its words and on the width.",
  ["src/line.rs"], [("break computation", "src/line.rs Line::wrap_to_width"), ("break insertion", "src/line.rs Line::erase_and_insert_newline")],
  observe=["Line::as_str after Line::wrap_to_width"])
p("C28", "liso! builds the line that its documentation describes",
  "Each element of liso_add! does to the line what the documentation says and nothing else: reset clears style and color; fg and bg set that color to the one named (capitalised, in lower case, none, None) or given by an expression; plain and a style set the style, +, - and ^ enable, disable and toggle just that style; ansi adds the text with its escape sequences interpreted, any other expression adds it as text. The elements act in the order they are written, whatever comes before and after, with a comma or, where it is optional, without. liso! does this to a new line; println! and wrapln!, also by their full paths alone, print and wrap that line.",
  ["inputs"], "every element in every kind of context; every line, text and color",
  "Only the examples in the documentation use the macros; a wrong rule shows only where that very element is used.",
  ["src/lib.rs"], [("elements", "src/lib.rs macro liso_add"), ("colors", "src/lib.rs macro color"), ("lines", "src/lib.rs macros liso, println, wrapln")],
  observe=["Line"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
