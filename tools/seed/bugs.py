# The planted bugs. edits: (file, old text, new text).
BUGS = {}
def bug(id, property, needs, breaks, edits, py=None, main=None):
    b = dict(property=property, needs=needs, breaks=breaks, edits=edits)
    if py: b['py'] = py
    if main: b['main'] = main
    BUGS[id] = b
import os
HOST = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'host.rs')).read()
W = 'src/worker.rs'
bug('yank-chars', 'C07', 'a clipboard with multi-byte characters', 'after a yank, the cursor is short of the end of the text yanked',
    [(W, 'self.input_cursor += self.clipboard.len();', 'self.input_cursor += self.clipboard.chars().count();')],
    py='''
h = Host()
h.keys('a\\u00e9\\u00e8b', ctl('u'), ctl('y'), 'X', '\\r')
expect('yanked text', h.wait(1), ['Input("a\\u00e9\\u00e8bX")'])
h.keys(ctl('c'))
''')
bug('word-mark', 'C07', 'a word that follows a space carrying a combining mark', 'deleting a word leaves the cursor inside a combined character',
    [(W, '''                if !self.cursor_on_nonspace() {
                    self.input_cursor += 1;
                    while !self.input.is_char_boundary(self.input_cursor)
                        || self.cursor_on_invisible()
                    {''', '''                if !self.cursor_on_nonspace() {
                    self.input_cursor += 1;
                    while !self.input.is_char_boundary(self.input_cursor)
                    {''')],
    py='''
h = Host()
h.keys('a \\u0301b', ctl('w'), 'X', '\\r')
expect('after deleting a word', h.wait(1), [r'Input("a \\u{301}X")'])
h.keys(ctl('c'))
''')
bug('finish-blank', 'C08', 'control-D with an input of blanks only', 'control-D reports Finish although the input is not empty',
    [(W, '''        if self.input.is_empty() {
            tx.send(Response::Finish)?;''', '''        if self.input.trim().is_empty() {
            tx.send(Response::Finish)?;''')],
    py='''
h = Host()
h.keys('  ', ctl('d'), 'x', '\\r')
expect('control-D on blanks', h.wait(1), ['Input("x")'])
h.keys(ctl('c'))
''')
bug('finish-history', 'C10', 'control-D while a history entry is shown, then the down key', 'clearing the input while in the history leaves the position in the history behind',
    [(W, '''            self.rollout_needed = true;
            self.input.clear();
            #[cfg(feature = "history")]
            {
                self.cur_history_index = None;
                self.orphaned_new_input = None;
                self.history_original_line = None;
            }''', '''            self.rollout_needed = true;
            self.input.clear();
            #[cfg(feature = "history")]
            {
                self.orphaned_new_input = None;
                self.history_original_line = None;
            }''')],
    py='''
h = Host('one', 'two', 'three')
h.keys(UP, UP, ctl('d'), UP, '\\r')
expect('the newest entry comes first after clearing', h.wait(1), ['Input("three")'])
h.keys(ctl('c'))
''')
bug('tab-count', 'C09', 'tab, another control key, tab, with a completor that looks at the number of presses', 'a tab press that follows another control key counts as a repeated press',
    [(W, """                self.consecutive_completion_presses =
                    self.consecutive_completion_presses.saturating_add(1);
            } else {
                self.consecutive_completion_presses = 0;
            }
            match ch {""", """                self.consecutive_completion_presses =
                    self.consecutive_completion_presses.saturating_add(1);
            } else if !ch.is_control() {
                self.consecutive_completion_presses = 0;
            }
            match ch {""")],
    main=HOST.replace('io.prompt(', """struct C(std::fs::File);
    impl Completor for C { fn complete(&mut self, _: &Output, _: &str, _: usize, n: std::num::NonZeroU32) -> Option<Completion> { writeln!(self.0, "tab {}", n).unwrap(); None } }
    io.set_completor(Some(Box::new(C(f.try_clone().unwrap()))));
    io.prompt("""),
    py='''
h = Host()
h.keys('a', b'\\t', b'\\t', ctl('a'), b'\\t', 'x', b'\\t')
expect('tab presses', h.wait(4), ['tab 1', 'tab 2', 'tab 1', 'tab 1'])
h.keys(ctl('c'))
''')
bug('left-mark', 'C06', 'two combining marks in a row before the cursor', 'moving left can stop between a character and its marks',
    [(W, '''        if self.input_cursor > 0 {
            self.rollout_needed = true;
            self.input_cursor -= 1;
            while !self.input.is_char_boundary(self.input_cursor)
                || self.cursor_on_invisible()
            {
                self.input_cursor -= 1;
            }
        }
        Ok(())
    }
    fn handle_home''', '''        if self.input_cursor > 0 {
            self.rollout_needed = true;
            self.input_cursor -= 1;
            if !self.input.is_char_boundary(self.input_cursor)
                || self.cursor_on_invisible()
            {
                self.input_cursor -= 1;
            }
        }
        Ok(())
    }
    fn handle_home''')],
    py='''
h = Host()
h.keys('xy\\u20ac', LEFT, 'Z', '\\r')
expect('left over a three-byte character', h.wait(1), ['Input("xyZ\\u20ac")'])
h.keys(ctl('c'))
''')
L = 'src/line.rs'
# a program that checks what lines look like
LINE_MAIN = '''
use liso::{Color, Line, Style};
#[allow(dead_code)]
fn show(l: &Line) -> String {
    let mut out = String::new();
    let mut last = None;
    for c in l.chars() {
        let a = (c.style, c.fg, c.bg);
        if last != Some(a) { out.push_str(&format!("<{:?} {:?} {:?}>", a.0, a.1, a.2)); last = Some(a); }
        out.push(c.ch);
    }
    out
}
#[allow(dead_code)]
fn same(what: &str, a: Line, b: Line) { if show(&a) != show(&b) { println!("{}: got {}, expected {}", what, show(&a), show(&b)); std::process::exit(1); } }
fn main() {
'''
bug('line-sep', 'C01', 'a text with U+2028 in it', 'a line separator gets into the text of a Line as it is',
    [(L, "(x.is_control() && x != '\\n') || x == '\\u{2028}' || x == '\\u{2029}'", "(x.is_control() && x != '\\n') || x == '\\u{2029}'")],
    main=LINE_MAIN + '''
    let l = Line::from_str("a\\u{2028}b\\u{1b}");
    println!("{:?}", l.as_str());
    assert_eq!(l.as_str(), "aU+2028b^[");
}
''')
bug('reset-bg', 'C02', 'reset_all while only a background color is active', 'the background color stays active after reset_all',
    [(L, 'self.set_style(Style::PLAIN).set_colors(None, None)', '''self.set_style(Style::PLAIN);
        if self.get_colors().0.is_some() {
            self.set_colors(None, None);
        }
        self''')],
    main=LINE_MAIN + '''
    let mut l = Line::new();
    l.set_bg_color(Some(Color::Red)).add_text("a");
    l.reset_all().add_text("b");
    let b: Vec<_> = l.chars().map(|c| c.bg).collect();
    println!("{:?}", b);
    assert_eq!(b, vec![Some(Color::Red), None]);
}
''')
bug('append-tail', 'C03', 'an appended line that ends in attributes without text, then more text', 'attributes that the appended line set at its end are not active after it',
    [(L, '''        for element in other.elements.iter() {
            self.set_style''', '''        for element in other.elements.iter() {
            if element.start == element.end {
                continue;
            }
            self.set_style''')],
    main=LINE_MAIN + '''
    let mut a = Line::new();
    a.add_text("a").activate_style(Style::BOLD);
    let mut b = Line::from_str("x");
    b.append_line(&a);
    b.add_text("y");
    let s: Vec<_> = b.chars().map(|c| c.style).collect();
    println!("{:?}", s);
    assert_eq!(s, vec![Style::PLAIN, Style::PLAIN, Style::BOLD]);
}
''')
bug('sgr-empty', 'C05', 'an SGR sequence without parameters', 'ESC [ m does not reset the attributes',
    [('src/line/add_ansi.rs', '''                    .split(';')
                    .map(''', '''                    .split(';')
                    .filter(|code| !code.is_empty())
                    .map(''')],
    main=LINE_MAIN + '''
    let mut l = Line::new();
    l.add_ansi_text("\\x1b[1mA\\x1b[mB\\x1b[4;;1mC");
    let s: Vec<_> = l.chars().map(|c| c.style).collect();
    println!("{:?}", s);
    assert_eq!(s, vec![Style::BOLD, Style::PLAIN, Style::BOLD]);
}
''')
bug('bold-dim', 'C19', 'a style that is both bold and dim', 'bold and dim at once shows as bold only',
    [('src/lib.rs', '''        if self.contains(Style::DIM) {
            ret.set''', '''        if self.contains(Style::DIM) && !self.contains(Style::BOLD) {
            ret.set''')],
    main=HOST.replace('io.prompt("READY> ", true, false);', 'let mut l = Line::from_str("READY> "); l.set_style(Style::BOLD | Style::DIM).add_text("bold and dim"); io.prompt(l, true, false);'),
    py='''
import re
h = Host()
h.until(lambda: b'bold and dim' in h.seen, 5)
i = h.seen.index(b'bold and dim')
on = set()
for m in re.finditer(rb'\\x1b\\[([0-9;]*)m', h.seen[:i]):
    for c in m.group(1).split(b';'):
        c = int(c or b'0')
        if c == 0: on = set()
        elif c == 22: on -= {1, 2}
        else: on.add(c)
expect('attributes in force', sorted(on & {1, 2}), [1, 2])
h.keys(ctl('c'))
''')
bug('vt52-inverse', 'C19', 'a VT52, inverse without colors of its own', 'on a VT52, inverse text in the default colors is not inverse',
    [('src/term/vt52.rs', 'let (fg, bg) = if style.contains(Style::INVERSE) {', 'let (fg, bg) = if style.contains(Style::INVERSE) && fg != 15 {')],
    main=HOST.replace('io.prompt("READY> ", true, false);', 'let mut l = Line::from_str("READY> "); l.set_style(Style::INVERSE).add_text("inverse"); io.prompt(l, true, false);'),
    py='''
h = Host(term='vt52')
h.until(lambda: b'inverse' in h.seen, 5)
b = h.seen; fg = bg = None; i = 0; end = b.index(b'inverse')
while i < end:
    if b[i] == 27:
        if b[i+1:i+2] == b'b': fg = b[i+2] & 15; i += 3
        elif b[i+1:i+2] == b'c': bg = b[i+2] & 15; i += 3
        elif b[i+1:i+2] == b'Y': i += 4
        else: i += 2
    else: i += 1
expect('colors in force', (fg, bg), (0, 15))
h.keys(ctl('c'))
''')
bug('closed-early', 'C22', 'read_timeout when Liso is gone and responses are still queued', 'read_timeout reports Dead before the responses still queued',
    [('src/lib.rs', """            .expect(
                "Couldn't create temporary Tokio runtime for `read_timeout`",
            );
""", """            .expect(
                "Couldn't create temporary Tokio runtime for `read_timeout`",
            );
        if self.rx.is_closed() {
            self.report_death();
            return Some(Response::Dead);
        }
""")],
    main="""
use liso::{InputOutput, Response};
use std::time::Duration;
fn main() {
    let mut io = InputOutput::new();
    std::thread::sleep(Duration::from_millis(700));
    // (standard output is a closed pipe, which is the end of the worker)
    io.println("x");
    std::thread::sleep(Duration::from_millis(700));
    for _ in 0..3 { eprintln!("{:?}", io.read_timeout(Duration::from_secs(5))); }
}
""",
    py="""
import subprocess, signal
p, q = os.pipe(); os.close(p)
r = subprocess.run([os.environ['DEMO']], input=b'a\\nb\\n', stdout=q, stderr=subprocess.PIPE, timeout=60)
expect('responses', [l for l in r.stderr.decode().split('\\n') if l[:4] in ('Some', 'None')], ['Some(Input("a"))', 'Some(Input("b"))', 'Some(Dead)'])
""")
bug('try-read-death', 'C22', 'a program that only polls with try_read and ignores Dead', 'try_read never counts the Deads it returns',
    [('src/lib.rs', """            Err(TryRecvError::Disconnected) => {
                self.report_death();
""", """            Err(TryRecvError::Disconnected) => {
                if self.death_count == 0 {
                    self.report_death();
                }
""")],
    main="""
use liso::{InputOutput, Response};
use std::time::Duration;
fn main() {
    let mut io = InputOutput::new();
    std::thread::sleep(Duration::from_millis(700));
    // (standard output is a closed pipe, which is the end of the worker)
    io.println("x");
    std::thread::sleep(Duration::from_millis(700));
    let mut n = 0;
    for _ in 0..40 { if let Some(Response::Dead) = io.try_read() { n += 1 } }
    eprintln!("STILL HERE {}", n);
}
""",
    py="""
import subprocess, signal
p, q = os.pipe(); os.close(p)
r = subprocess.run([os.environ['DEMO']], input=b'', stdout=q, stderr=subprocess.PIPE, timeout=60)
expect('after ignoring Dead 39 times', b'STILL HERE' in r.stderr, False)
""")
bug('short-notice', 'C20', 'a notice shorter than a second', 'a notice shorter than a second stays for a second',
    [(W, 'let interval = deadlines[0] - now;', 'let interval =\n                            (deadlines[0] - now).max(Duration::from_secs(1));')],
    main=HOST.replace('io.prompt("READY> ", true, false);', 'io.prompt("READY> ", true, false); std::thread::sleep(std::time::Duration::from_millis(500)); io.notice("BRIEF", std::time::Duration::from_millis(150));'),
    py='''
h = Host()
h.until(lambda: b'BRIEF' in h.seen, 5)
h.pump(0.1)
n = len(h.seen)
h.pump(0.6)
expect('the block was redrawn after the notice', len(h.seen) > n, True)
h.keys(ctl('c'))
''')

bug('second-notice', 'C20', 'a notice while another one is up, with a later deadline', 'the second of two notices is never taken down',
    [(W, '''        self.notice = Some((line, deadline));
        ded_tx.send(deadline)?;''', '''        let replaced = self.notice.replace((line, deadline));
        if replaced.is_none() {
            ded_tx.send(deadline)?;
        }''')],
    main=HOST.replace('io.prompt("READY> ", true, false);', 'io.prompt("READY> ", true, false); std::thread::sleep(std::time::Duration::from_millis(500)); io.notice("FIRST", std::time::Duration::from_millis(400)); std::thread::sleep(std::time::Duration::from_millis(100)); io.notice("second", std::time::Duration::from_millis(800));'),
    py='''
h = Host()
h.until(lambda: b'second' in h.seen, 5)
h.pump(0.5)
n = len(h.seen)
h.pump(1.2)
expect('the block was redrawn after the second notice', len(h.seen) > n, True)
h.keys(ctl('c'))
''')
PIPE = '''
use liso::{InputOutput, Response};
use std::time::Duration;
// prints what arrives from a pipe
fn main() {
    let mut io = InputOutput::new();
    io.println("out");
    io.echoln("echo");
    io.wrapln("wrapped");
    for k in 0.. {
        match io.read_timeout(Duration::from_millis(if k == 0 { 3000 } else { 700 })) {
            Some(Response::Input(x)) => std::eprintln!("GOT {:?}", x),
            Some(x) => std::eprintln!("GOT {:?}", x),
            None => break,
        }
    }
}
'''
PIPEPY = '''
import subprocess
def run(b):
    r = subprocess.run([os.environ['DEMO']], input=b, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return [l[4:] for l in r.stderr.decode().split('\\n') if l.startswith('GOT ')], r.stdout.decode()
'''
bug('pipe-cr', 'C21', 'a line ending in several carriage returns, or in one without a newline at the end of input', 'carriage returns of the line terminator stay in the line',
    [(W, '''                            while buf.ends_with('\\n') || buf.ends_with('\\r') {
                                buf.pop();
                            }''', '''                            if buf.ends_with('\\n') {
                                buf.pop();
                                if buf.ends_with('\\r') {
                                    buf.pop();
                                }
                            }''')],
    main=PIPE, py=PIPEPY + '''
expect('lines', run(b'a\\r\\r\\nb\\nc\\r')[0], ['"a"', '"b"', '"c"'])
''')
bug('pipe-echo', 'C21', 'an echo in pipe mode', 'echoes are written to standard output in pipe mode',
    [(W, '''            #[cfg(feature = "wrap")]
            Request::Output(line) | Request::OutputWrapped(line) => {
                std::println!''', '''            #[cfg(feature = "wrap")]
            Request::Output(line)
            | Request::OutputWrapped(line)
            | Request::OutputEcho(line) => {
                std::println!''')],
    main=PIPE, py=PIPEPY + '''
expect('output', run(b'x\\n')[1], 'out\\nwrapped\\n')
''')
H = 'src/history.rs'
E_ = 'src/stderr_capture.rs'
bug('stderr-long', 'C23', 'a line of 4096 bytes or more on stderr', 'capturing ends at an overlong line: its rest and all later lines are not captured',
    [(E_, 'buf.resize(buf.len() + 128, 0u8);', 'buf.resize((buf.len() + 128).min(4096), 0u8);')],
    main=HOST.replace('io.prompt("READY> ", true, false);', 'io.prompt("READY> ", true, false); std::thread::sleep(std::time::Duration::from_millis(300)); eprintln!("{}", "a".repeat(4099)); eprintln!("second");'),
    py='''
h = Host()
h.until(lambda: b'second' in h.seen, 5)
h.pump(0.5)
i = h.seen.find(b'second')
expect('second line captured', b'E: ' in h.seen[max(0, i - 40):i], True)
h.keys(ctl('c'))
''')
bug('stderr-rest', 'C23', 'a read that ends in the middle of a line, after a complete one', 'the beginning of an unfinished line after a complete one is lost',
    [(E_, '''                    buf_pos = end_pos;
                    if let Some(p) = last_newline_pos {
                        buf.copy_within(p + 1.., 0);
                        buf_pos -= p + 1;
                    }''', '''                    if let Some(p) = last_newline_pos {
                        buf.copy_within(p + 1.., 0);
                        buf_pos -= p + 1;
                    } else {
                        buf_pos = end_pos;
                    }''')],
    main=HOST.replace('io.prompt("READY> ", true, false);', 'io.prompt("READY> ", true, false); std::thread::sleep(std::time::Duration::from_millis(300)); use std::io::Write as _; std::io::stderr().write_all(b"first\\nsec").unwrap(); std::thread::sleep(std::time::Duration::from_millis(300)); std::io::stderr().write_all(b"ond\\n").unwrap();'),
    py='''
h = Host()
h.until(lambda: h.seen.count(b'ond') > 0, 5)
h.pump(0.5)
expect('second line captured', b'second' in h.seen, True)
h.keys(ctl('c'))
''')
HIST = '''
use liso::History;
use std::num::NonZeroUsize;
#[allow(dead_code)]
fn expect(what: &str, got: &[String], want: &[&str]) { if got != want { println!("{}: got {:?}, expected {:?}", what, got, want); std::process::exit(1); } }
fn main() {
    let dir = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    let file = dir.join("history");
'''
bug('dup-at-limit', 'C11', 'a history at its limit, and a line added that it has already', 'the oldest line is dropped although removing the duplicate made room',
    [(H, '''        if self.strip_duplicates {
            // wish drain_filter were stable
            for x in (0..self.lines.len()).rev() {
                if self.lines[x] == line {
                    self.lines.remove(x);
                }
            }
        }
        if let Some(limit) = self.limit {
            let limit = limit.get() - 1;
            if self.lines.len() > limit {
                self.lines.splice(0..(self.lines.len() - limit), None);
            }
        }
''', '''        if let Some(limit) = self.limit {
            let limit = limit.get() - 1;
            if self.lines.len() > limit {
                self.lines.splice(0..(self.lines.len() - limit), None);
            }
        }
        if self.strip_duplicates {
            // wish drain_filter were stable
            for x in (0..self.lines.len()).rev() {
                if self.lines[x] == line {
                    self.lines.remove(x);
                }
            }
        }
''')],
    main=HIST + '''
    let _ = file;
    let mut h = History::new();
    h.set_limit(NonZeroUsize::new(3));
    for l in ["a", "b", "c", "b"] { h.add_line(l.to_string()).unwrap(); }
    expect("lines", h.get_lines(), &["a", "c", "b"]);
}
''')
bug('autosave-early', 'C11', 'an interval set, taken away and set again, with lines added before', 'lines added before the interval was taken away still count',
    [(H, '''        if autosave_interval.is_none() {
            self.lines_since_last_autosave = 0;
        }
''', '''        if autosave_interval == self.autosave_interval {
            self.lines_since_last_autosave = 0;
        }
''')],
    main=HIST + '''
    let _ = file;
    use std::sync::{Arc, atomic::{AtomicUsize, Ordering}};
    let n = Arc::new(AtomicUsize::new(0)); let m = n.clone();
    let mut h = History::new();
    h.set_autosave_handler(Some(Box::new(move |_| { m.fetch_add(1, Ordering::SeqCst); Ok(()) })));
    h.set_autosave_interval(NonZeroUsize::new(4));
    for l in ["a", "b", "c"] { h.add_line(l.to_string()).unwrap(); }
    h.set_autosave_interval(None);
    for l in ["d", "e"] { h.add_line(l.to_string()).unwrap(); }
    h.set_autosave_interval(NonZeroUsize::new(4));
    for l in ["f", "g"] { h.add_line(l.to_string()).unwrap(); }
    let k = n.load(Ordering::SeqCst);
    if k != 0 { println!("{} autosaves after two lines with an interval of four", k); std::process::exit(1); }
}
''')
bug('every-bom', 'C12', 'a line other than the first that begins with U+FEFF', 'the character is lost when the history is read back',
    [(H, "if new_history.is_empty() && l.starts_with('\\u{FEFF}') {", "if l.starts_with('\\u{FEFF}') {")],
    main=HIST + '''
    let mut h = History::new();
    for l in ["a", "\\u{feff}b", ""] { h.add_line(l.to_string()).unwrap(); }
    h.write_history_to(&file).unwrap();
    let mut g = History::new();
    g.read_history_from(&file).unwrap();
    expect("lines", g.get_lines(), &["a", "\\u{feff}b", ""]);
}
''')
bug('partial-read', 'C12', 'a history file that is not valid UTF-8 after some lines', 'a failed read changes the history',
    [(H, '''        let mut new_history = Vec::new();
        for l in BufReader::new(f).lines() {
            let mut l = l?;
            if new_history.is_empty() && l.starts_with('\\u{FEFF}') {
                l.remove(0);
            }
            while l.ends_with('\\r') {
                l.pop();
            }
            new_history.push(l);
        }
        let ret = new_history.len();
        self.lines = new_history;
''', '''        self.lines.clear();
        for l in BufReader::new(f).lines() {
            let mut l = l?;
            if self.lines.is_empty() && l.starts_with('\\u{FEFF}') {
                l.remove(0);
            }
            while l.ends_with('\\r') {
                l.pop();
            }
            self.lines.push(l);
        }
        let ret = self.lines.len();
''')],
    main=HIST + '''
    std::fs::write(&file, b"x\\n\\xff\\ny\\n").unwrap();
    let mut h = History::new();
    for l in ["a", "b"] { h.add_line(l.to_string()).unwrap(); }
    assert!(h.read_history_from(&file).is_err());
    expect("lines", h.get_lines(), &["a", "b"]);
    let _ = NonZeroUsize::new(1);
}
''')
bug('early-cleanup', 'C13', 'a crash or error between the two renames of an autosave', 'the backup is removed before the new file is in place',
    [(H, '''            rename(&build_path, &history_path)?;
            let _ = remove_file(&backup_path);
''', '''            let _ = remove_file(&backup_path);
            rename(&build_path, &history_path)?;
''')],
    main=HIST + '''
    if std::env::args().count() > 1 {
        let mut h = History::from_file(&file).unwrap();
        println!("{}", h.get_lines().join(","));
        h.set_autosave_interval(NonZeroUsize::new(1));
        if std::env::args().nth(1).unwrap() == "add" { let _ = h.add_line("c".to_string()); }
    }
}
''',
    py='''
import subprocess
open(os.path.join(D, 'stop.c'), 'w').write("""
#define _GNU_SOURCE
#include <errno.h>
#include <stdlib.h>
#include <dlfcn.h>
static int n;
int rename(const char *a, const char *b) {
    if (++n == atoi(getenv("STOP"))) { errno = EIO; return -1; }
    return ((int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename"))(a, b);
}
""")
subprocess.run(['gcc', '-shared', '-fPIC', '-o', D + '/stop.so', D + '/stop.c', '-ldl'], check=True)
for k in (1, 2, 3):
    for f in ('history', 'history~', 'history^'):
        if os.path.exists(os.path.join(D, f)): os.remove(os.path.join(D, f))
    open(os.path.join(D, 'history'), 'w').write('a\\nb\\n')
    subprocess.run([os.environ['DEMO'], 'add'], env=dict(os.environ, LD_PRELOAD=D + '/stop.so', STOP=str(k)), check=True, stdout=subprocess.DEVNULL)
    r = subprocess.run([os.environ['DEMO'], 'show'], stdout=subprocess.PIPE).stdout.decode().strip()
    expect('history after rename %d failed' % k, r in ('a,b', 'a,b,c'), True)
''')
bug('no-backup-load', 'C13', 'loading a history after a crash between the two renames of an autosave, with an empty file left', 'the backup is not looked at when the history file is empty or missing',
    [(H, '''            Err(x) if x.kind() == io::ErrorKind::NotFound => {
                match ret.read_history_from(&backup_path) {
                    Ok(x) => Ok(x),
''', '''            Err(x) if x.kind() == io::ErrorKind::NotFound => {
                match ret.read_history_from(&build_path) {
                    Ok(x) => Ok(x),
''')],
    main=HIST + '''
    std::fs::write(dir.join("history~"), "a\\nb\\n").unwrap();
    std::fs::write(dir.join("history^"), "a\\n").unwrap();
    let h = History::from_file(&file).unwrap();
    expect("lines", h.get_lines(), &["a", "b"]);
    let _ = NonZeroUsize::new(1);
}
''')
X = 'src/term/cross.rs'
V = 'src/term/vt52.rs'
bug('csi-at', 'C14', 'an unknown control sequence that ends with @, followed by text', 'the text right after the sequence is taken for part of it',
    [(X, 'if buf[i] < 0x20 || buf[i] >= 0x40 {', 'if buf[i] < 0x20 || buf[i] > 0x40 {')],
    py='''
h = Host()
h.keys('a', b'\\x1b[2@bc', 'd', '\\r')
expect('text around a sequence', h.wait(1), ['Input("abcd")'])
h.keys(ctl('c'))
''')
bug('trunc-swallow', 'C14', 'a truncated UTF-8 sequence directly followed by a character', 'the character after a truncated sequence is lost',
    [(X, '''                        start += i;
                        // send the replacement character''', '''                        start += i + 1;
                        // send the replacement character''')],
    py='''
h = Host()
h.keys(b'a\\xe2\\x82bc', '\\r')
expect('text after a truncated sequence', h.wait(1), ['Input("a\\ufffdbc")'])
h.keys(ctl('c'))
''')
bug('esc-delete', 'C14', 'escape and delete in one read', 'a delete that comes right after an escape is lost, and so is the escape',
    [(X, '''                    || buf[start + 1] >= 0x7F
                {''', '''                    || buf[start + 1] > 0x7F
                {''')],
    py='''
h = Host()
h.keys('ab', b'\\x1b\\x7f', 'c', '\\r')
expect('delete after escape', h.wait(1)[-1:], ['Input("ac")'])
h.keys(ctl('c'))
''')
bug('reply-split', 'C15', 'an identification reply cut before its last byte', 'the last byte of the reply is taken for typed text',
    [(V, '''                        if start + 2 >= buf.len() {
                            // more input needed!''', '''                        if start + 1 >= buf.len() {
                            // more input needed!''')],
    main=HOST,
    py='''
h = Host(term='vt52')
h.keys('a', b'\\x1b/', b'Kb', '\\r')
expect('text around a reply', h.wait(1), ['Input("ab")'])
h.keys(ctl('c'))
''')
bug('vt52-held', 'C15', 'a read that ends inside an identification reply, after text', 'text that came before an unfinished reply in the same read is taken twice',
    [(V, '''            buf.copy_within(start..buf_len, 0);
            buf.truncate(buf.len() - start);''', '''            if start + 2 < buf_len {
                buf.copy_within(start..buf_len, 0);
                buf.truncate(buf.len() - start);
            }''')],
    main=HOST,
    py='''
h = Host(term='vt52')
h.keys('x', b'ab\\x1b/', b'Kc', '\\r')
expect('text around a reply', h.wait(1), ['Input("xabc")'])
h.keys(ctl('c'))
''')

L2 = 'src/line.rs'
DRAW = """
// Takes steps, each left on the screen for a while; then waits.
use liso::*;
use std::io::Write;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut f = std::fs::File::create(&a[0]).unwrap();
    let mut io = InputOutput::new();
    io.prompt("READY>", true, false); step();
    STEPS
    writeln!(f, "done").unwrap(); f.flush().unwrap();
    loop { match io.read_blocking() { Response::Quit | Response::Dead => break, _ => () } }
}
fn step() { std::thread::sleep(std::time::Duration::from_millis(150)); }
"""
def draw(id, property, needs, breaks, edits, steps, check, cols=20):
    bug(id, property, needs, breaks, edits, main=DRAW.replace('STEPS', steps), py="""
h = Host(cols=%d)
h.wait(1, 20); h.pump(0.3)
g, x, y = h.screen(%d); r = until_last(rows(g))
""" % (cols, cols) + check.strip() + "\nh.keys(ctl('c'))\n")
draw('row-full-clear', 'C16', 'text that continues after a row that is exactly full', 'the last character of a full row is erased',
    [(W, """                    if cur_column < term_width {
                        if term.cur_style()""", """                    if cur_column <= term_width {
                        if term.cur_style()""")],
    'io.println("abcdefghijklmnopqrstuvwxyz"); step();', """
expect('printed rows', r, ['abcdefghijklmnopqrst', 'uvwxyz', 'READY>'])""")
draw('plain-again', 'C16', 'uncolored text right after colored text of the same style', 'text is printed in the color of the text before it',
    [(W, """            term.set_attrs(element.style, element.fg, element.bg)?;
            let text = &line.text""", """            if term.cur_style() != element.style
                || element.fg.is_some()
                || element.bg.is_some()
            {
                term.set_attrs(element.style, element.fg, element.bg)?;
            }
            let text = &line.text""")],
    'io.println(liso!(fg = red, "red", fg = none, "plain")); step();', """
expect('printed rows', r, ['redplain', 'READY>'])
expect('colors', [bool(dict(a).get('fg')) for _, a in g[0][:8]], [True] * 3 + [False] * 5)""")
draw('remembered-row', 'C17', 'an input that takes several rows, with the cursor in one of the first, and output printed then', 'rows of the input stay on the screen, and output before it is erased',
    [(W, """            cursor_left,
            cursor_top,
        });""", """            cursor_left,
            cursor_top: cur_breaks,
        });""")],
    'io.println("one"); io.println("two"); io.println("three"); step(); io.status(Some("abc")); step(); let mut l = Line::from_str("status"); l.add_text("!"); writeln!(f, "type").unwrap(); f.flush().unwrap(); std::thread::sleep(std::time::Duration::from_millis(1500)); io.println("four"); step();', """
h.keys('x' * 30, ctl('a')); h.wait(2, 20); h.pump(0.3)
g, x, y = h.screen(20); r = until_last(rows(g))
expect('rows', r, ['one', 'two', 'three', 'four', 'abc', 'READY>' + 'x' * 14, 'x' * 16])""")
draw('sim-full-row', 'C17', 'a bold status line exactly as wide as the screen with more below it, kept while the prompt changes at the bottom of the screen', 'the cursor is taken to be a row further down than it is, and output is erased',
    [(W, """        let ch = lc.ch;
        let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
        if ch != '\\n' {
            *cur_column += char_width;
            *implied_newline = false;
        } else if ch == '\\n' && *implied_newline {
            *implied_newline = false;
            return Ok(());
        }""".replace('\\\\', '\\'), """        let ch = lc.ch;
        let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
        if ch != '\\n' {
            *cur_column += char_width;
            *implied_newline = false;
        } else if ch == '\\n' && *implied_newline && lc.style.is_empty() {
            *implied_newline = false;
            return Ok(());
        }""".replace('\\\\', '\\'))],
    'for i in 0..30 { io.println(format!("line {}", i)); } step(); io.status(Some(liso!(bold, "abcdefghijklmnopqrst\\nu", plain))); step(); io.prompt("other>", true, false); step(); io.println("three"); step();', """
expect('rows', r, ['line %d' % i for i in range(10, 30)] + ['three', 'abcdefghijklmnopqrst', 'u', 'other>'])""")
draw('filled-left', 'C18', 'a block whose last row is filled with color, with the cursor before the end of it', 'the cursor is one column too far to the left',
    [(W, "let real_shown_column = (*real_column).min(term_width - 1);", "let real_shown_column = *real_column;")],
    'io.prompt(liso!(bg = blue, "name: "), true, false); step();', """
h.keys('abc'); g, x, y = h.screen(20); r = until_last(rows(g))
expect('rows', r, ['name: abc'])
expect('cursor', (x, y), (9, 0))""")
draw('inverse-bg', 'C18', 'a change of the background of text in inverse video and nothing else', 'the text keeps its old color on the screen',
    [('src/line.rs', """            && self.fg == other.fg
            && self.bg == other.bg
    }
}

impl LineChar""", """            && self.fg == other.fg
            && (self.bg == other.bg || self.style.contains(Style::INVERSE))
    }
}

impl LineChar""")],
    'io.status(Some(liso!(inverse, bg = red, "busy", plain))); step(); io.status(Some(liso!(inverse, bg = blue, "busy", plain))); step();', """
expect('rows', r, ['busy', 'READY>'])
i = [dict(z).get('bg') for _, z in g[0][:4]]
expect('colors', len(set(i)), 1)
expect('blue', str(i[0]) in ('44', '104', '(5, 4)', '(5, 12)'), True)""")
draw('stale-attr', 'C18', 'a redraw that changes colored text and, further on, replaces a character of that color by a newline or the other way around', 'text after the place is drawn without its color',
    [(W, """                        term.clear_forward_and_reset()?;
                        cur_attr = (Style::empty(), None, None);
                        old_chars = None;""", """                        term.clear_forward_and_reset()?;
                        old_chars = None;""")],
    'io.status(Some(liso!(fg = red, "abc\\ndef"))); step(); io.status(Some(liso!(fg = red, "xbcd\\nef"))); step();', """
expect('rows', r, ['xbcd', 'ef', 'READY>'])
expect('colors', [bool(dict(z).get('fg')) for _, z in g[0][:4] + g[1][:2]], [True] * 6)""")
draw('same-text', 'C18', 'a status or prompt replaced by one with the same text and other attributes', 'the old attributes stay on the screen',
    [(W, """            if new_line == &rem.output_line && cursor_pos""", """            if new_line.text == rem.output_line.text && cursor_pos""")],
    'io.status(Some(liso!(fg = red, "state"))); step(); io.status(Some("state")); step();', """
expect('rows', r, ['state', 'READY>'])
expect('colors', [bool(dict(z).get('fg')) for _, z in g[0][:5]], [False] * 5)""")
draw('coalesce-status', 'C24', 'a status sent directly before another request, while the output thread is busy', 'the status is not shown',
    [(W, """                Ok(request) => state.handle(&mut tx, &mut ded_tx, request)?,
                Err(TryRecvError::Empty) => break,""", """                Ok(mut request) => {
                    // of several statuses, only the last one gets shown
                    while let Request::Status(_) = request {
                        match rx.try_recv() {
                            Ok(Request::Die) => dying = true,
                            Ok(next) => request = next,
                            Err(_) => break,
                        }
                    }
                    state.handle(&mut tx, &mut ded_tx, request)?
                }
                Err(TryRecvError::Empty) => break,""")],
    'io.suspend_and_run(|| { step(); step() }); io.status(Some("working")); io.println("one"); io.println("two"); step(); step(); step(); step();', """
expect('rows', r[-4:], ['one', 'two', 'working', 'READY>'])""")
bug('die-batch', 'C24', 'the end of Liso requested while lines are waiting to be printed', 'lines printed right before the end are lost',
    [(W, """        loop {
            use std_mpsc::TryRecvError;
            match rx.try_recv() {
                Ok(Request::Die) => {
                    dying = true;
                    if cfg!(not(feature = "capture-stderr")) {
                        // if we're not capturing stderr, there's no reason not
                        // to break immediately
                        break;
                    }
                }
                Ok(request) => state.handle(&mut tx, &mut ded_tx, request)?,
                Err(TryRecvError::Empty) => break,
                Err(TryRecvError::Disconnected) => break 'outer,
            }
        }""", """        let batch: Vec<Request> = rx.try_iter().collect();
        if batch.iter().any(|x| matches!(x, Request::Die)) {
            dying = true;
            if cfg!(not(feature = "capture-stderr")) {
                // if we're not capturing stderr, there's no reason not
                // to break immediately
                break 'outer;
            }
            continue 'outer;
        }
        for request in batch {
            state.handle(&mut tx, &mut ded_tx, request)?;
        }""")],
    main="""
use liso::*;
// prints while the output is held up, and ends
fn main() {
    let io = InputOutput::new();
    io.prompt("READY> ", true, false);
    std::thread::sleep(std::time::Duration::from_millis(500));
    io.suspend_and_run(|| std::thread::sleep(std::time::Duration::from_millis(300)));
    let h: Vec<_> = (0..3).map(|t| { let o = io.clone_output(); std::thread::spawn(move || for k in 0..5 { o.println(format!("line {} of {}", k, t)); }) }).collect();
    for t in h { t.join().unwrap(); }
    drop(io);
}
""", py="""
h = Host()
h.pump(2)
t = h.seen.decode('utf-8', 'replace')
expect('lines', sorted('line %d of %d' % (k, t) for k in range(5) for t in range(3) if 'line %d of %d' % (k, t) in h.seen.decode('utf-8', 'replace')), sorted('line %d of %d' % (k, t) for k in range(5) for t in range(3)))
""")
bug('pipe-flush', 'C24', 'output to a pipe that ends while lines are waiting', 'the last lines are not printed in pipe mode',
    [(W, """    while let Ok(request) = rx.recv() {
        match request {
            #[cfg(feature = "wrap")]
            Request::Output(line) | Request::OutputWrapped(line) => {
                std::println!("{}", line.text);
            }""", """    let mut held: Option<Line> = None;
    while let Ok(request) = rx.recv() {
        match request {
            #[cfg(feature = "wrap")]
            Request::Output(line) | Request::OutputWrapped(line) => {
                // print what continues the line before together with it
                if let Some(l) = held.take() {
                    std::println!("{}", l.text);
                }
                if line.text.ends_with('\\n') {
                    held = Some(line);
                } else {
                    std::println!("{}", line.text);
                }
            }""")],
    main="""
use liso::*;
fn main() {
    let io = InputOutput::new();
    io.println("one");
    io.println("two\\\\n");
    let o = io.clone_output();
    std::thread::spawn(move || { o.println("three"); o.println("four\\\\n"); }).join().unwrap();
    drop(io);
}
""".replace('\\\\n', '\\n'), py="""
import subprocess
r = subprocess.run([os.environ['DEMO']], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
expect('output', r.stdout.decode(), 'one\\ntwo\\n\\nthree\\nfour\\n\\n')
""")
bug('end-block', 'C17', 'the end of Liso with a status but no prompt shown', 'the status is left on the screen when Liso ends, and what the program prints then is mixed with it',
    [(W, """    state.rollin()?;
    state.cleanup()?;""", """    if state.prompt.is_some() || !state.input.is_empty() {
        state.rollin()?;
    }
    state.cleanup()?;""")],
    main="""
use liso::*;
use std::time::Duration;
fn main() {
    let io = InputOutput::new();
    io.prompt("READY> ", true, false);
    std::thread::sleep(Duration::from_millis(500));
    io.remove_prompt(true, false);
    io.status(Some("status"));
    std::thread::sleep(Duration::from_millis(300));
    drop(io);
    std::println!("after\\r");
    std::thread::sleep(Duration::from_millis(300));
}
""", py="""
h = Host(cols=20)
h.pump(2)
g, x, y = h.screen(20); r = until_last(rows(g))
expect('rows', r, ['after'])
""")
draw('prompt-allow', 'C18', 'a prompt request that only clears the input', 'the input cleared stays on the screen',
    [(W, """                if self.prompt != line
                    || self.input_allowed != input_allowed
                    || (clear_input && !self.input.is_empty())
                {
                    self.rollout_needed = true;
                    self.prompt = line;""", """                if self.prompt != line
                    || self.input_allowed != input_allowed
                    || (clear_input && !self.input.is_empty())
                {
                    self.rollout_needed |= self.prompt != line
                        || self.input_allowed != input_allowed
                        || !clear_input;
                    self.prompt = line;""")],
    'writeln!(f, "type").unwrap(); f.flush().unwrap(); std::thread::sleep(std::time::Duration::from_millis(1200)); io.prompt("READY>", true, true); step();', """
h.keys('abc'); h.wait(2, 20); h.pump(0.3)
g, x, y = h.screen(20); r = until_last(rows(g))
expect('rows', r, ['READY>'])""")
bug('wrap-hyphen', 'C27', 'a line that has to be broken after a hyphen', 'the line is not broken there, and is too wide',
    [(L, '''                    && self.text.as_bytes()[range.start - 1] == b'\\n'
''', '''                    && matches!(self.text.as_bytes()[range.start - 1], b'\\n' | b'-')
''')],
    main=LINE_MAIN + '''
    let mut l = Line::from_str("well-known half-truths");
    l.wrap_to_width(6);
    println!("{}", show(&l));
    assert!(l.as_str().split('\\n').all(|x| x.trim_end().len() <= 6));
}
''')
bug('wrap-lead', 'C27', 'a Line that starts with one blank, before a word as wide as the width', 'the first line is one column too wide',
    [(L, '''                if start != 0 {
                    edit_vec''', '''                if start > 1 {
                    edit_vec''')],
    main=LINE_MAIN + '''
    let mut l = Line::from_str(" abcdef gh");
    l.wrap_to_width(6);
    println!("{}", show(&l));
    assert!(l.as_str().split('\\n').all(|x| x.trim_end().len() <= 6));
}
''')
LIFE_MAIN = '''
use liso::InputOutput;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::Duration;
#[allow(dead_code)]
static LIVE: AtomicU32 = AtomicU32::new(0);
fn create() -> Option<InputOutput> { std::panic::catch_unwind(InputOutput::new).ok() }
fn main() {
    if std::env::args().nth(1).as_deref() == Some("--child") { std::panic::set_hook(Box::new(|_| ())); std::process::exit(child()) }
    let mut c = Command::new(std::env::current_exe().unwrap()).arg("--child").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
    std::thread::sleep(Duration::from_millis(1500));
    let mut b = Vec::new();
    c.stdout.take().unwrap().read_to_end(&mut b).unwrap();
    let r = c.wait().unwrap().code();
    println!("exit {:?}, {} bytes", r, b.len());
    std::process::exit(r.unwrap_or(99));
}
'''
bug('two-check', 'C26', 'two threads that create an InputOutput at the same moment', 'both succeed',
    [('src/lib.rs', '''        let mut global_lock = LISO_OUTPUT_TX.lock();
        #[cfg(feature = "global")]
        {
            we_are_alone = global_lock.is_none();
''', '''        {
            we_are_alone = LISO_OUTPUT_TX.lock().is_none();
'''), ('src/lib.rs', '            *global_lock = Some(request_tx.clone());', '            *LISO_OUTPUT_TX.lock() = Some(request_tx.clone());')],
    main=LIFE_MAIN + '''
fn child() -> i32 {
    for _ in 0..60 {
        let b = std::sync::Arc::new(std::sync::Barrier::new(8));
        let hs: Vec<_> = (0..8).map(|_| { let b = b.clone(); std::thread::spawn(move || {
            b.wait();
            let io = create();
            if io.is_some() { LIVE.fetch_add(1, SeqCst); }
            b.wait();
            drop(io);
        }) }).collect();
        for h in hs { h.join().unwrap(); }
        if LIVE.swap(0, SeqCst) != 1 { return 3 }
    }
    0
}
''')
bug('die-any', 'C26', 'an InputOutput dropped while a response nobody has read is waiting, and the output thread is busy', 'another one can be created although the first is still at work',
    [('src/lib.rs', '''                None => std::thread::yield_now(),
                Some(Response::Dead) => break,
                _ => (),
''', '''                None => std::thread::yield_now(),
                Some(_) => break,
''')],
    main=LIFE_MAIN + '''
fn child() -> i32 {
    let io = create().unwrap();
    io.send_custom(1);
    std::thread::sleep(Duration::from_millis(200));
    for _ in 0..3000 { io.println("x".repeat(99)); }
    let t = std::thread::spawn(move || drop(io));
    for _ in 0..100 {
        if let Some(x) = create() { std::mem::forget(x); return 3 }
        std::thread::sleep(Duration::from_millis(5));
    }
    t.join().unwrap();
    match create() { Some(x) => { drop(x); 0 } None => 4 }
}
''')

END_MAIN = '''
use liso::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::Duration;
static HOOKED: AtomicU32 = AtomicU32::new(0);
fn termios() -> (u32, u32, u32) { unsafe { let mut m: libc::termios = std::mem::zeroed(); libc::tcgetattr(1, &mut m); (m.c_iflag as u32, m.c_oflag as u32, m.c_lflag as u32) } }
fn say(s: &str) { let f = std::env::args().nth(1).unwrap(); use std::io::Write; let mut f = std::fs::OpenOptions::new().append(true).open(f).unwrap(); writeln!(f, "{}", s).unwrap(); }
extern "C" fn own(_: i32) { HOOKED.fetch_add(1000, SeqCst); }
fn start() -> InputOutput { let io = InputOutput::new(); io.prompt("READY> ", true, false); io.send_custom(1u8); io }
fn ready(io: &mut InputOutput) { loop { if let Response::Custom(_) = io.read_blocking() { break } } std::thread::sleep(Duration::from_millis(700)); }
'''
bug('hup-default', 'C25', 'a program that handles or ignores SIGHUP itself', 'after Liso has ended, SIGHUP has its default action instead of that of the program',
    [('src/unix_util.rs', '''            let old_action = sigaction(Signal::SIGHUP, &new_action)
                .expect("unable to override SIGHUP handler");
''', '''            sigaction(Signal::SIGHUP, &new_action)
                .expect("unable to override SIGHUP handler");
            let old_action = SigAction::new(
                SigHandler::SigDfl,
                SaFlags::empty(),
                SigSet::empty(),
            );
''')],
    main=END_MAIN + '''
fn main() {
    unsafe { libc::signal(libc::SIGHUP, own as *const () as usize); }
    let mut io = start(); ready(&mut io); drop(io);
    let mut a: libc::sigaction = unsafe { std::mem::zeroed() };
    unsafe { libc::sigaction(libc::SIGHUP, std::ptr::null(), &mut a); }
    say(if a.sa_sigaction == own as *const () as usize { "as before" } else { "changed" });
}
''', py='''
h = Host()
expect('the action of SIGHUP', h.wait(1), ['as before'])
''')
bug('fd-left', 'C25', 'creating and ending an InputOutput repeatedly', 'every end leaves a descriptor behind',
    [('src/unix_util.rs', '            let _ = close(hidden_stdin);\n', '            std::mem::forget(hidden_stdin);\n')],
    main=END_MAIN + '''
fn fds() -> usize { (0..1024).filter(|n| unsafe { libc::fcntl(*n, libc::F_GETFD) } >= 0).count() }
fn main() {
    let a = fds();
    for _ in 0..3 { let mut io = start(); ready(&mut io); drop(io); }
    std::thread::sleep(Duration::from_millis(500));
    say(&format!("{} more", fds() as i64 - a as i64));
}
''', py='''
h = Host()
expect('descriptors left', h.wait(1, 15), ['0 more'])
''')
bug('stop-raw', 'C25', 'control-Z', 'the program is stopped before the terminal has been put into its normal mode',
    [('src/worker.rs', '''        term.suspend()?;
        std::println!("^Z");
        unix_util::sigstop_ourselves();
        term.unsuspend()?;''', '''        std::print!("^Z\\r\\n");
        unix_util::sigstop_ourselves();
        term.suspend()?;
        term.unsuspend()?;''')],
    main=END_MAIN + '''
fn main() {
    let mut io = start(); ready(&mut io);
    say("ready");
    while !matches!(io.read_blocking(), Response::Input(_)) {}
    drop(io);
    say("done");
}
''', py='''
import signal
h = Host()
h.wait(1, 5)
os.write(h.fd, ctl('z'))
st = []
def stopped():
    if not st:
        p, x = os.waitpid(h.pid, os.WUNTRACED | os.WNOHANG)
        if p == h.pid and os.WIFSTOPPED(x): st.append(x)
    return bool(st)
expect('stopped', h.until(stopped, 10), True)
lflag = termios.tcgetattr(h.fd)[3]
os.kill(h.pid, signal.SIGCONT)
expect('lines are put together and echoed while the program is stopped', bool(lflag & termios.ICANON and lflag & termios.ECHO), True)
h.pump(0.5)
h.keys('x', '\\r')
expect('it goes on', h.wait(2, 5), ['ready', 'done'])
''')
bug('susp-hook', 'C25', 'a panic after the InputOutput has ended, with a suspend_and_run before', "the program's panic hook is lost",
    [('src/term/cross.rs', '''        if let Some(old_hook) = self.old_hook.take() {
            panic::set_hook(old_hook);
        }
''', ''), ('src/term/cross.rs', '''        if !self.suspended {
            self.suspend()?;
        }
''', '''        if !self.suspended {
            self.suspend()?;
        }
        if let Some(old_hook) = self.old_hook.take() {
            panic::set_hook(old_hook);
        }
''')],
    main=END_MAIN + '''
fn main() {
    std::panic::set_hook(Box::new(|_| { HOOKED.fetch_add(1, SeqCst); }));
    let mut io = start(); ready(&mut io);
    io.suspend_and_run(|| ());
    io.send_custom(2u8); ready(&mut io);
    drop(io);
    let _ = std::panic::catch_unwind(|| panic!("now"));
    say(if HOOKED.load(SeqCst) == 1 { "own hook" } else { "another hook" });
}
''', py='''
h = Host()
expect('after the end, a panic calls', h.wait(1, 10), ['own hook'])
''')
bug('vt-white', 'C25', 'a VT52 with ATARI_WHITE_ON_BLACK=1, ended or suspended', 'the terminal is left with black text on white',
    [('src/term/vt52.rs', '''        assert!(!self.suspended);
        if self.white_on_black {
            write!(self.stdout, "\\x1Bb\\x20\\x1Bc\\x2F\\x1BJ\\x1Bv\\x1Be")?;''', '''        assert!(!self.suspended);
        if self.white_on_black {
            write!(self.stdout, "\\x1Bb\\x2F\\x1Bc\\x20\\x1BJ\\x1Bv\\x1Be")?;''')],
    main=END_MAIN + '''
fn main() {
    let mut io = start(); ready(&mut io);
    drop(io);
    say("done");
    std::thread::sleep(Duration::from_millis(500));
}
''', py='''
import re
os.environ['ATARI_WHITE_ON_BLACK'] = '1'
h = Host(term='tt52')
h.wait(1, 5); h.pump(0.2)
fg, bg = re.findall(rb'\\x1bb(.)', h.seen)[-1], re.findall(rb'\\x1bc(.)', h.seen)[-1]
expect('colors left', (fg[0] & 15, bg[0] & 15), (0, 15))
''')

MAC = '''
use liso::*;
use liso::liso;
#[allow(dead_code)]
fn show(l: &Line) -> String { l.chars().map(|c| format!("{}:{:?}:{:?}:{:?} ", c.ch, c.style, c.fg, c.bg)).collect() }
#[allow(dead_code)]
fn same(what: &str, a: &Line, b: &Line) { if show(a) != show(b) { std::println!("{}: {} instead of {}", what, show(a), show(b)); std::process::exit(1); } }
'''
bug('mac-toggle', 'C28', '^italic while italic is on', 'italic stays on',
    [('src/lib.rs', '        $line.toggle_style($crate::Style::ITALIC);', '        $line.activate_style($crate::Style::ITALIC);')],
    main=MAC + '''
fn main() {
    let mut a = liso!("a", +italic, "b", ^italic, "c");
    liso_add!(a, ^italic, "d");
    let mut b = Line::new();
    b.add_text("a").activate_style(Style::ITALIC).add_text("b").toggle_style(Style::ITALIC).add_text("c").toggle_style(Style::ITALIC).add_text("d");
    same("toggling", &a, &b);
}
''')
bug('mac-bgexpr', 'C28', 'bg = an expression that is not a single token, as the last element', 'the text color is set instead',
    [('src/lib.rs', '''    ($line:ident, bg = $color:expr) => {
        $line.set_bg_color($color);''', '''    ($line:ident, bg = $color:expr) => {
        $line.set_fg_color($color);''')],
    main=MAC + '''
fn main() {
    let mut a = liso!("a");
    liso_add!(a, fg = red, bg = Some(Color::Blue));
    a.add_text("b");
    let mut b = Line::new();
    b.add_text("a").set_colors(Some(Color::Red), Some(Color::Blue)).add_text("b");
    same("background", &a, &b);
}
''')
bug('mac-rest', 'C28', '-reverse (not -inverse) with further elements after it', 'the elements after -reverse are dropped',
    [('src/lib.rs', '''    ($line:ident, -reverse $($rest:tt)*) => {
        $line.deactivate_style($crate::Style::INVERSE);
        $crate::liso_add!($line, $($rest)*);''', '''    ($line:ident, -reverse $($rest:tt)*) => {
        $line.deactivate_style($crate::Style::INVERSE);''')],
    main=MAC + '''
fn main() {
    let a = liso!(+reverse, "a", -reverse, "b", fg = green, "c");
    let mut b = Line::new();
    b.activate_style(Style::INVERSE).add_text("a").deactivate_style(Style::INVERSE).add_text("b").set_fg_color(Some(Color::Green)).add_text("c");
    same("after -reverse", &a, &b);
}
''')
bug('pipe-half', 'C21', 'standard output is a terminal, and standard input is not', 'the program takes over the terminal, and what is piped in is not delivered',
    [(W, '    if !(std::io::stdout().is_tty() && std::io::stdin().is_tty())', '    if !(std::io::stdout().is_tty() || std::io::stdin().is_tty())')],
    main=PIPE, py='''
import subprocess, pty
m, s = pty.openpty()
r = subprocess.run([os.environ['DEMO']], input=b'one\\ntwo\\n', stdout=s, stderr=subprocess.PIPE, timeout=60, env=dict(os.environ, TERM='xterm'))
expect('lines', [l[4:] for l in r.stderr.decode().split('\\n') if l.startswith('GOT ')], ['Input("one")', 'Input("two")'] if b'GOT Input' in r.stderr else ['"one"', '"two"'])
expect('output', os.read(m, 4096).replace(b'\\r', b''), b'out\\nwrapped\\n')
''')
bug('cap-fd', 'C23', 'creating and ending an InputOutput repeatedly, with stderr a terminal', 'every end leaves the reading end of the pipe open',
    [(E_, '''            let _ = write_all(STDERR_FD, &buf[..amount]);
        }
        close(r);
''', '''            let _ = write_all(STDERR_FD, &buf[..amount]);
        }
''')],
    main=END_MAIN + '''
fn fds() -> usize { (0..1024).filter(|n| unsafe { libc::fcntl(*n, libc::F_GETFD) } >= 0).count() }
fn main() {
    let a = fds();
    for _ in 0..3 { let mut io = start(); ready(&mut io); drop(io); }
    std::thread::sleep(Duration::from_millis(500));
    say(&format!("{} more", fds() as i64 - a as i64));
}
''', py='''
h = Host()
expect('descriptors left', h.wait(1, 15), ['0 more'])
''')
bug('cap-tty', 'C23', 'stderr redirected to a file', 'what the program writes to its redirected stderr appears on the terminal instead of in the file',
    [(E_, 'if !std::io::stderr().is_tty() {', 'if !std::io::stdout().is_tty() {')],
    main=END_MAIN + '''
fn main() {
    let f = std::env::args().nth(1).unwrap() + ".err";
    use std::os::fd::AsRawFd;
    let e = std::fs::File::create(&f).unwrap();
    unsafe { libc::dup2(e.as_raw_fd(), 2); }
    let mut io = start(); ready(&mut io);
    std::eprintln!("to the file");
    std::thread::sleep(Duration::from_millis(500));
    drop(io);
    say(&format!("{:?}", std::fs::read_to_string(&f).unwrap()));
    let _ = std::fs::remove_file(&f);
}
''', py='''
h = Host()
expect('the file', h.wait(1, 15), ['"to the file\\\\n"'])
''')
