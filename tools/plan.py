# Which units (contract overlays) decide which property, and what the claim is.
# level: the level claimed; note: the assurance and what it rests on.
PLAN = {}
def p(id, units, level, note, search=15):
    PLAN[id] = dict(units=units, level=level, note=note, search=search)





LINE = ('Every obligation of the contracts on the real functions of Line (extracted from src/line.rs on every run) is discharged by Verus for all inputs and histories; '
        'the standard library and the bitflags operators enter through assumed contracts, listed as trusted base. ')
p('C01', ['line'], 'proof', LINE + 'add_text is proved equal to a character-by-character substitution; the text of every Line so built is free of control characters.')
p('C02', ['line'], 'proof', LINE + 'Data-structure invariant: the elements cover the text exactly once; abstract view: every byte with its attributes. Each function is proved against that view, the character iterator too.')
p('C03', ['line'], 'proof', LINE + 'append_line and reset_and_break against the same abstract view.')
p('C05', ['line'], 'proof', LINE + 'add_ansi_text is proved equal to a recursive reading of the text: SGR sequences change the active attributes, everything else is added as by add_text.')
EDITOR = ('Every obligation of the contracts on the real editor functions (extracted from src/worker.rs on every run) is discharged by Verus for all inputs and states; '
          'the terminal, channels, history lock and the standard library enter through assumed contracts, listed as trusted base. ')
p('C06', ['editor'], 'proof', EDITOR + 'Data-structure invariant: the cursor is on a character boundary within the input, preserved by every request handler.')
p('C07', ['editor'], 'proof', EDITOR + 'Each key handler is proved equal to the documented edit of (input, cursor, clipboard).')
p('C08', ['editor', 'sends'], 'proof', EDITOR + 'Responses sent and the input left by return, finish, discard, prompt requests.')
p('C09', ['dispatch'], 'proof', 'handle_input and handle_event are proved, for every input, to run exactly the sequence of edits of the key table; the handlers themselves enter by their contracts (C06-C08). ' + EDITOR)
p('C10', ['editor', 'sends'], 'proof', EDITOR + 'history_prev and history_next are proved against the documented movement for every history and state.')
DEC = ('The input thread is proved, for every byte stream, every way of cutting it into reads and every place where the escape deadline passes, to send exactly what a tokenizer defined on the whole stream says of the bytes so far, to hold back nothing but an unfinished token, '
       'never to wait without a deadline on an escape, to consume each read in finitely many steps, and to end only when input is over or nobody takes it. Channels and String::from_utf8_lossy (of ASCII) enter through assumed contracts. ')
p('C14', ['dec_ct', 'rawin', 'newterm'], 'proof', DEC + 'Lemma: the UTF-8 encoding of any text without escapes decodes to just that text, whatever comes after.')
p('C15', ['dec_vt', 'rawin', 'newterm'], 'proof', DEC)
SCREEN = ('Every obligation of the contracts on the real drawing functions (extracted from src/worker.rs and src/line.rs on every run) is discharged by Verus for all Lines, screens, widths and previous contents; '
          'what each operation of a terminal does to the screen (a grid of cells, a cursor, no automatic wrap) enters through assumed contracts on the Term trait, as does the width table of unicode-width (at most 2, none for control characters). ')
p('C16', ['screen', 'editor'], 'proof', SCREEN + 'output_line is proved to send exactly what laying out the characters one by one says, each with its attributes, to reset the attributes and end on a fresh row; handle to do just that for each print request, from column 0 of a blank row, after erasing the block.')
p('C17', ['screen', 'editor'], 'proof', SCREEN + 'Invariant: what is remembered is what is on the screen and the cursor is where it is remembered to be; output_line, output_line_changes and rollin preserve it and neither change nor move to a row above the block; and so does every request handler of the editor, by their contracts.')
p('C18', ['screen', 'editor', 'sends'], 'proof', SCREEN + 'output_line_changes is proved to leave the cells that drawing the new content on blank rows gives, whatever was drawn before, and the cursor in front of the character asked for; rollout to draw status, notice or prompt and input, and every request handler to ask for drawing whenever what is to be shown has changed.')
p('C19', ['attrs_ct', 'attrs_vt', 'newterm'], 'proof', 'set_attrs, reset_attrs, the clears, suspend/unsuspend and every other output function of both terminals are proved, for every attribute set and state, against a ghost terminal that interprets what is written '
  '(for crossterm: the meaning of each command; for the VT52: each character): after set_attrs the attributes really in force are those asked for, and nothing else changes them. crossterm\'s rendering of its commands as SGR sequences, the panic hook and raw mode enter through assumed contracts.')
p('C20', ['beat', 'editor', 'sends'], 'proof', 'The body of the timer thread is proved, for every sequence of deadlines and clock readings, against a contract over the deadlines announced and not yet woken up for: it waits without end only if there are none, never longer than to the first, sends a wake-up only for one that has come, and ends only when nobody is left. '
  'The editor is proved to announce the deadline of each notice and to take the notice down on a wake-up exactly if its deadline has come. ' + 'Scheduling delay between reading the clock and starting to wait is not modelled.')
p('C21', ['pipe', 'choice'], 'proof', 'The choice of the worker is proved for every combination of terminals and every TERM, and that nothing is captured in pipe mode. The loop of the input thread and the loop of the pipe worker are proved, for every input and every sequence of requests, against contracts over the line read and not yet passed on, and over the requests received, the Responses sent and the lines printed: every line is passed on once, without its terminator, nothing is read after the end or an error; every request has exactly its effect. '
  'read_line, channels, println!, is_tty and the environment enter through assumed contracts.')
p('C22', ['ends', 'editor', 'dispatch', 'pipe'], 'proof', 'Every reading function of InputOutput, report_death and Response::as_unknown are proved, for every state, against contracts over the sequence of responses received and the count of Deads; nothing that sends a response while Liso is up sends Dead; '
  'tokio channels, timeouts and runtimes enter through assumed contracts (a channel hands over each response once and in order, and reports its end only when the sender is gone and nothing is left; a receive given up by a timeout has received nothing), and an async function is taken as the call it makes when awaited.')
HIST = ('Every obligation of the contracts on the real functions of History (extracted from src/history.rs on every run) is discharged by Verus for all histories, settings and files; '
        'files enter through assumed contracts over a ghost file system (any call may fail; what a buffered writer has put into its file before it is flushed is any prefix; renaming is atomic), BufRead::lines, NonZeroUsize and the standard library likewise. ')
p('C11', ['history'], 'proof', HIST + 'add_line is proved equal to: remove older equal lines if asked to, append, keep the newest; and to run the handler exactly when the interval is reached, on the new lines, and to return its error.')
p('C12', ['history'], 'proof', HIST + 'write_history_to leaves exactly the encoding in the file if it succeeds, read_history_from takes exactly the lines of the file or leaves the history as it was; a lemma: reading an encoding gives the lines back.')
p('C13', ['history'], 'proof', HIST + 'The autosave handler: before each file operation and at the end, what from_file would load is the old or the new history, and the file being written is neither the history nor its backup; after success it is the new one. from_file is proved to load just that. Loss of power (no fsync) is not modelled.')
p('C23', ['errcap', 'errio', 'errset'], 'proof', 'The body of the capturing thread and write_all are proved, for every sequence of reads, refusals and write results, against contracts over the bytes read and the lines passed on: each line is passed on once and in order as soon as it is complete, an unterminated rest at the end, and when nobody takes lines any more exactly the bytes not passed on go to the real stderr, which is put back in place before the thread ends, with its descriptors closed. attempt_stderr_capture and wait_until_not_captured are proved, for every outcome of the system calls, to leave either everything captured or nothing changed, and everything as it was in the end. '
  'The wrappers around pipe, dup, dup2, close and read(2), that the thread ends when nobody else holds the pipe open, String::from_utf8_lossy and channels enter through assumed contracts.')
p('C24', ['sends', 'editor', 'pipe'], 'proof', 'Every sending function of Output is proved to put exactly the one request into the channel, with its whole line; the loops of both workers (tty_worker, pipe_worker), for every sequence of requests, to deal with every request received, once and in order, until told to die, and then with all that are still queued (terminal); each printing request to print its line whole (C16, C21). '
  'That the channel loses, duplicates and reorders nothing of one sender, whatever the threads do, is the assumed contract of std::sync::mpsc, and it is the only place where schedules matter: requests of several threads enter the loops as one arbitrary sequence. ' + EDITOR, search=30)
WRAP = ('Line::wrap_to_width, erase_and_insert_newline and convert_subset_slice_to_range are proved, for every line and every width. textwrap enters through an assumed contract: the pieces it returns are slices of the text, in order, and leave out only spaces; FirstFit makes no piece wider than the width, or than two columns; its display_width is the sum of the widths of the characters. Iterator adapters and pointers into a text enter through assumed contracts. ')
p('C04', ['wrap'], 'proof', WRAP + 'The result is the original with runs of spaces replaced by a newline each and newlines inserted, each byte with the attributes it had; it satisfies the invariant of Line, and no call panics.')
p('C27', ['wrap'], 'proof', WRAP + 'No part of a line of the result that ends in something other than a space is wider than the width (or than two columns).')
p('C26', ['life', 'life_ng'], 'proof', 'InputOutput::new, drop, die, blocking_die, actually_blocking_die, try_read, read_async and output() are proved, with the global output and without it (flag), against contracts over the one permission to have a Liso: it is in the lock (or flag) while there is none, taken by who finds it there, and given back only when the worker has ended, its thread of the capture included; a worker is started only by who has it; a guard is released where its scope ends. '
  'What other threads do in between is left open in the contracts of the lock and the flag. That a response channel reports its end, or a request channel that nobody receives, only when the worker has returned, and that locks exclude each other, is assumed of tokio and std.')
p('C25', ['stdin', 'end_ct', 'end_vt', 'rawin', 'editor', 'pipe', 'life', 'life_ng'], 'proof', 'interrupt, the bodies of the threads that read standard input, new, suspend, unsuspend, cleanup and the panic hook of both terminals, tty_worker, pipe_worker, handle_suspend and the ways of ending an InputOutput are proved, for every outcome of the system calls, against contracts over a ghost process: descriptors, the action of SIGHUP, the panic hook, raw mode, cursor, attributes and wrapping, what threads are left. '
  'The C library, crossterm\'s raw mode and commands, std::panic::take_hook/set_hook, thread joining, and that a read(2) ends when a signal interrupts it or there is nothing more to come enter through assumed contracts. The terminal is assumed to accept what is written to it.')
p('C28', ['macros'], 'other', 'The macros of src/lib.rs are extracted word for word on every run and used, in 78 functions under contract, in 1625 ways: each element of the documented grammar alone, after and before text, before each kind of element, with and without the optional comma; each use is proved, for every line before it, every text and every color, to do what the documentation says. '
  'A macro is not a function, so no contract can cover every sequence of elements at once: the uses are listed (bounded), what is proved is each of them for all values. Each rule takes the first element and hands the rest on, and the uses put every kind of element behind every element. The methods of Line enter by the contracts proved in unit line. The same uses are run against the method calls they stand for.')
NA = {}
