//! C26: at most one Liso at a time.
use crate::util::*;
use liso::InputOutput;
use std::io::{BufRead, BufReader, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::time::Duration;

static LIVE: AtomicU32 = AtomicU32::new(0);
fn end(io: InputOutput, how: u8) {
    match how {
        0 => drop(io),
        1 => io.blocking_die(),
        _ => tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(io.die()),
    }
}
fn say(s: &str) { let mut e = std::io::stderr(); let _ = writeln!(e, "{}", s); let _ = e.flush(); }
fn fail(s: &str) -> ! { say(&format!("F{}", s)); std::process::exit(1) }
fn create() -> Option<InputOutput> { catch_unwind(InputOutput::new).ok() }
fn global(what: &str) -> bool { catch_unwind(AssertUnwindSafe(|| liso::output().println(what))).is_ok() }
pub fn child(a: &[String]) {
    std::panic::set_hook(Box::new(|_| ()));
    let b = unhex(&a[0]); let mut t = Tape::new(&b);
    if t.n(3) > 0 { slow(&mut t) } else { race(&mut t) }
    if global("no") { fail("output() is available although there is no InputOutput") }
    match create() { None => fail("no InputOutput can be created although there is none"), Some(io) => { if !global("END") { fail("output() is not available although there is an InputOutput") } if create().is_some() { fail("a second InputOutput was created while there is one") } end(io, t.n(3) as u8) } }
    say("D");
}
/// the end takes long, since nobody reads what is still to be written
fn slow(t: &mut Tape) {
    let io = create().unwrap_or_else(|| fail("no InputOutput can be created although there is none"));
    let keep = if t.bool() { Some(io.clone_output()) } else { None };
    let how = t.n(3) as u8;
    if t.bool() { io.send_custom(1u8); std::thread::sleep(Duration::from_millis(5)) }
    for _ in 0..1000 { io.println("x".repeat(99)) }
    let h = std::thread::spawn(move || { end(io, how); LIVE.store(1, SeqCst) });
    std::thread::sleep(Duration::from_millis(t.n(30) as u64));
    let n = 1 + t.n(8);
    for _ in 0..n {
        if create().is_some() { fail(if LIVE.load(SeqCst) == 0 { "an InputOutput was created while the one before was still ending" } else { "an InputOutput ended although what it had to write was not written" }) }
        std::thread::sleep(Duration::from_millis(5));
    }
    say("R");
    if h.join().is_err() { fail("ending an InputOutput panics") }
    drop(keep);
}
/// several threads at once
fn race(t: &mut Tape) {
    say("R");
    let (n, k, pause) = (2 + t.n(6), 1 + t.n(8), t.n(3) as u64);
    let b = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|i| { let b = b.clone(); std::thread::spawn(move || for r in 0..k {
        b.wait();
        if let Some(io) = create() {
            if LIVE.swap(1, SeqCst) != 0 { fail("two InputOutputs at the same time") }
            if !global("x") { fail("output() is not available although there is an InputOutput") }
            std::thread::sleep(Duration::from_micros(200 * pause));
            if create().is_some() { fail("two InputOutputs at the same time") }
            LIVE.store(0, SeqCst);
            end(io, ((i + r) % 3) as u8);
        }
    }) }).collect();
    for h in hs { if h.join().is_err() { fail("ending an InputOutput panics") } }
}
pub fn c26(t: &mut Tape) -> R {
    let tape: Vec<u8> = t.rest();
    { let mut u = Tape::new(&tape);
      if u.n(3) > 0 { t.say(format!("an InputOutput with a thousand lines to print and nobody who reads them{}, ended by {}, and others tried to be created meanwhile", if u.bool() { ", with another Output of it" } else { "" }, ["drop", "blocking_die", "die"][u.n(3)])); if u.bool() { t.say("a response is waiting".into()) } }
      else { t.say(format!("{} threads create and end InputOutputs, {} times", 2 + u.n(6), 1 + u.n(8))) } }
    t.log.insert(0, "*".into());
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["child26", &hex(&tape)]).env("TERM", "xterm").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let i = c.stdin.take();
    let mut e = BufReader::new(c.stderr.take().unwrap());
    let mut o = c.stdout.take().unwrap();
    let mut rd = None; let mut res = Err("the program ended early".to_string());
    let mut l = String::new();
    while { l.clear(); e.read_line(&mut l).unwrap_or(0) > 0 } {
        match l.trim_end().as_bytes().first() {
            Some(b'R') => { let mut o = std::mem::replace(&mut o, std::fs::File::open("/dev/null").map(|f| std::process::ChildStdout::from(std::os::fd::OwnedFd::from(f))).unwrap()); rd = Some(std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v })) }
            Some(b'F') => { res = Err(l[1..].trim_end().to_string()); break }
            Some(b'D') => res = Ok(()),
            _ => (),
        }
    }
    drop(i);
    if res.is_err() { let _ = c.kill(); }
    let _ = c.wait();
    if let Some(h) = rd {
        let v = h.join().unwrap();
        if res.is_ok() && !v.ends_with(b"END\n") { return Err("what was printed through output() did not go to the InputOutput that was there".into()) }
    }
    res
}

// ---- C25 -------------------------------------------------------------------
/// what is to be as it was
#[derive(PartialEq, Clone)]
struct Sys { modes: Vec<u8>, files: Vec<(i32, String)>, hup: usize }
fn sys() -> Sys { unsafe {
    let mut m: libc::termios = std::mem::zeroed(); libc::tcgetattr(1, &mut m);
    let mut a: libc::sigaction = std::mem::zeroed(); libc::sigaction(libc::SIGHUP, std::ptr::null(), &mut a);
    let mut f: Vec<(i32, String)> = (0..64).filter_map(|n| std::fs::read_link(format!("/proc/self/fd/{}", n)).ok().map(|x| (n, x.to_string_lossy().to_string()))).collect();
    // (the descriptors of the directory read above are gone)
    f.retain(|x| libc::fcntl(x.0, libc::F_GETFD) >= 0);
    Sys { modes: [m.c_iflag, m.c_oflag, m.c_cflag, m.c_lflag].iter().flat_map(|x| x.to_le_bytes()).collect(), files: f, hup: a.sa_sigaction }
} }
fn modes() -> Vec<u8> { sys().modes }
fn liso_threads() -> Vec<String> {
    std::fs::read_dir("/proc/self/task").map(|d| d.filter_map(|e| e.ok()).filter_map(|e| std::fs::read_to_string(e.path().join("comm")).ok()).filter(|x| x.starts_with("Liso")).map(|x| x.trim().to_string()).collect()).unwrap_or_default()
}
extern "C" fn of_the_program(_: i32) {}
static HOOKED: AtomicU32 = AtomicU32::new(0);
struct Talk { out: std::fs::File, back: std::fs::File }
impl Talk {
    /// tells the parent, and waits for it to go on
    fn tell(&mut self, s: &str) { let _ = self.out.write_all(format!("{}\n", s).as_bytes()); let mut b = [0u8]; let _ = self.back.read(&mut b); }
    fn fail(&mut self, s: &str) -> ! { self.tell(&format!("F{}", s)); unsafe { libc::_exit(1) } }
}
/// when the terminal is to be back in its normal state: (place, description)
pub fn child25(a: &[String]) {
    use std::os::fd::FromRawFd;
    let b = unhex(&a[0]); let mut t = Tape::new(&b);
    let mut k = unsafe { Talk { out: std::fs::File::from_raw_fd(a[1].parse().unwrap()), back: std::fs::File::from_raw_fd(a[2].parse().unwrap()) } };
    let normal = modes();
    std::panic::set_hook(Box::new(move |_| { HOOKED.fetch_add(1, SeqCst); if modes() != normal { LIVE.store(1, SeqCst) } }));
    let tries = 1 + t.n(2);
    match t.n(3) { 0 => (), 1 => unsafe { libc::signal(libc::SIGHUP, libc::SIG_IGN); }, _ => unsafe { libc::signal(libc::SIGHUP, of_the_program as *const () as usize); } }
    let was = sys();
    for _ in 0..tries {
        let p = plan25(&mut t);
        let (n2, w2) = (p.suspend, was.clone());
        let bad = Arc::new(std::sync::Mutex::new(None::<&'static str>));
        let run = |k: &mut Talk| {
            let io = InputOutput::new();
            if p.prompt { io.prompt("> ", true, false); io.status(Some("status")); }
            if p.text { io.println("text"); }
            if p.notice { io.notice("notice", Duration::from_secs(60)); }
            for _ in 0..n2 { let (b, w) = (bad.clone(), w2.modes.clone()); io.suspend_and_run(move || if modes() != w { *b.lock().unwrap() = Some("while a function runs in suspend_and_run, the terminal is not in its normal mode") }); }
            std::thread::sleep(Duration::from_millis(p.wait));
            if p.stop && !p.storm { while modes() == w2.modes { std::thread::sleep(Duration::from_millis(1)) } k.tell("Z"); }
            io
        };
        let other = |io: &mut InputOutput, k: &mut Talk| {
            // a panic in another thread: what it says is to be readable
            // (at a moment when Liso is at rest)
            io.send_custom(1u8);
            while !matches!(io.read_blocking(), liso::Response::Custom(_)) {}
            k.tell("Q");
            let _ = std::thread::spawn(|| panic!("of another thread")).join();
            if modes() != w2.modes { k.fail("after a panic in another thread, the terminal is not in its normal mode") }
            k.tell("P");
        };
        let go = Arc::new(std::sync::atomic::AtomicBool::new(p.storm));
        let storm = { let go = go.clone(); std::thread::spawn(move || while go.load(SeqCst) { let _ = catch_unwind(|| panic!("again")); std::thread::yield_now() }) };
        match p.how {
            0..=2 => end(run(&mut k), p.how),
            3 => { let _ = catch_unwind(AssertUnwindSafe(|| { let io = run(&mut k); let _io = io; panic!("of the thread that has the InputOutput") })); }
            x if p.storm => { let io = run(&mut k); end(io, x - 4) }
            _ => { let mut io = run(&mut k); other(&mut io, &mut k); end(io, p.how - 4) }
        }
        go.store(false, SeqCst); let _ = storm.join();
        if LIVE.load(SeqCst) != 0 { k.fail("a panic in another thread is handled by the program's own panic hook while the terminal is not in its normal mode") }
        HOOKED.store(0, SeqCst);
        if let Some(x) = *bad.lock().unwrap() { k.fail(x) }
        let now = sys();
        if now.modes != was.modes { k.fail("the terminal is not back in its normal mode") }
        if now.files.iter().find(|x| x.0 == 0) != was.files.iter().find(|x| x.0 == 0) { k.fail("standard input is not what it was") }
        if now.hup != was.hup { k.fail("the action of SIGHUP is not what it was") }
        let mut i = 0;
        loop {
            let (l, now) = (liso_threads(), sys());
            if l.is_empty() && now.files == was.files { break }
            i += 1;
            if i > 300 { k.fail(&if l.is_empty() { format!("descriptors: {:?} before, {:?} after", was.files, now.files) } else { format!("still running: {}", l.join(", ")) }) }
            std::thread::sleep(Duration::from_millis(10));
        }
        let h = HOOKED.swap(0, SeqCst);
        let _ = catch_unwind(|| panic!("after the end"));
        if HOOKED.swap(0, SeqCst) != 1 { k.fail("the panic hook is not the one there was before") }
        let _ = h;
        k.tell("E");
        unsafe { libc::tcflush(0, libc::TCIFLUSH) };
        k.tell("I");
        let mut l = [0u8; 64];
        let n = unsafe { libc::read(0, l.as_mut_ptr() as _, 64) };
        if n < 0 || &l[..n as usize] != b"hello\n" { k.fail("standard input cannot be read") }
    }
    k.tell("D");
    unsafe { libc::_exit(0) }
}
struct Plan25 { how: u8, wait: u64, prompt: bool, text: bool, notice: bool, suspend: usize, stop: bool, storm: bool }
fn plan25(t: &mut Tape) -> Plan25 {
    let how = t.n(7) as u8; let wait = [0, 0, 1, 2, 5, 20][t.n(6)]; let b = t.byte();
    Plan25 { how, wait, prompt: b & 1 != 0, text: b & 2 != 0, notice: b & 4 != 0, suspend: if b & 8 != 0 { 1 + (b as usize >> 4 & 1) } else { 0 }, stop: b & 0x60 == 0x60, storm: b & 0x90 == 0x90 }
}
/// the state in which the output has left the terminal
#[derive(Default)]
struct Left { hidden: bool, nowrap: bool, attrs: bool, wrong: bool, cut: bool }
fn left(b: &[u8], vt: Option<bool>) -> Left {
    let mut r = Left::default(); let mut i = 0;
    let (mut fg, mut bg, mut inv) = (None, None, false);
    while i < b.len() {
        if b[i] != 0x1b { i += 1; continue }
        let Some(&c) = b.get(i + 1) else { r.cut = true; break };
        if vt.is_some() {
            match c { b'e' => r.hidden = false, b'f' => r.hidden = true, b'v' => r.nowrap = false, b'w' => r.nowrap = true, b'p' => inv = true, b'q' => inv = false,
                b'b' => { fg = b.get(i + 2).copied(); i += 1 } b'c' => { bg = b.get(i + 2).copied(); i += 1 } b'Y' => i += 2, b'[' => r.wrong = true, _ => () }
            i += 2; continue;
        }
        if c != b'[' { r.wrong = true; i += 2; continue }
        let s = i + 2; let mut e = s;
        while e < b.len() && !(0x40..0x7f).contains(&b[e]) { e += 1 }
        if e >= b.len() { r.cut = true; break }
        match (&b[s..e], b[e]) {
            (b"?25", b'h') => r.hidden = false, (b"?25", b'l') => r.hidden = true,
            (b"?7", b'h') => r.nowrap = false, (b"?7", b'l') => r.nowrap = true,
            (x, b'm') => r.attrs = !(x.is_empty() || x == b"0" || x.ends_with(b";0")),
            _ => (),
        }
        i = e + 1;
    }
    if let Some(w) = vt { let (f, g) = if w { (0x20, 0x2f) } else { (0x2f, 0x20) }; let z = |x: Option<u8>, y: u8| x.map_or(false, |x| x & 15 != y & 15); r.attrs = inv || z(fg, f) || z(bg, g) }
    r
}
fn judge25(b: &[u8], vt: Option<bool>, when: &str) -> R {
    let l = left(b, vt);
    Err(format!("{}, {}", when, if l.wrong { "something was sent that this terminal does not understand" } else if l.cut { "an unfinished sequence has been sent" } else if l.hidden { "the cursor is hidden" } else if l.nowrap { "the terminal does not wrap lines" } else if l.attrs { "the terminal's attributes are not the normal ones" } else { return Ok(()) }))
}
pub fn c25(t: &mut Tape) -> R {
    let term = ["xterm", "xterm", "vt52", "st52", "tt52"][t.n(5)];
    let white = term != "xterm" && t.bool();
    let typed = t.n(4) == 0;
    let tape: Vec<u8> = t.rest();
    { let mut u = Tape::new(&tape); let tries = 1 + u.n(2); let hup = u.n(3); if hup > 0 { t.say(format!("the program {} SIGHUP", ["ignores", "handles"][hup - 1])) } t.say(format!("TERM={}{}", term, if white { " ATARI_WHITE_ON_BLACK=1" } else { "" }));
      for _ in 0..tries { let p = plan25(&mut u); t.say(format!("{}{}{}{}after {} ms, {}{}ended by {}", if p.prompt { "a prompt and a status, " } else { "" }, if p.text { "text, " } else { "" }, if p.notice { "a notice, " } else { "" }, if p.suspend > 0 { "suspend_and_run, " } else { "" }, p.wait, if p.stop && !p.storm { "control-Z typed, " } else { "" }, if p.storm { "with panics in another thread again and again, " } else { "" }, ["drop", "blocking_die", "die", "a panic while it is there", "drop after a panic in another thread", "blocking_die after a panic in another thread", "die after a panic in another thread"][p.how as usize])) }
      if typed { t.say("something is typed all the time".into()) } }
    t.log.insert(0, "*".into());
    let (m, s) = crate::attrs::pty();
    let (mut rep, mut ack) = ([0i32; 2], [0i32; 2]);
    unsafe {
        let mut m: libc::termios = std::mem::zeroed(); libc::tcgetattr(s, &mut m);
        m.c_lflag |= libc::ICANON | libc::ECHO | libc::ISIG; m.c_iflag |= libc::ICRNL; m.c_oflag |= libc::OPOST | libc::ONLCR; libc::tcsetattr(s, libc::TCSANOW, &m);
        libc::pipe2(rep.as_mut_ptr(), libc::O_CLOEXEC); libc::pipe2(ack.as_mut_ptr(), libc::O_CLOEXEC);
    }
    let (r1, a0) = (rep[1], ack[0]);
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["child25", &hex(&tape), &r1.to_string(), &a0.to_string()]).env("TERM", term).env_remove("NO_COLOR").env_remove("LISO_CROSSTERM_INPUT").env("ATARI_WHITE_ON_BLACK", if white { "1" } else { "0" });
    unsafe { use std::os::unix::process::CommandExt; use std::os::fd::{FromRawFd, OwnedFd};
        for std in [0, 1] { let d = libc::fcntl(s, libc::F_DUPFD_CLOEXEC, 3); let o = Stdio::from(OwnedFd::from_raw_fd(d)); if std == 0 { c.stdin(o); } else { c.stdout(o); } }
        c.stderr(Stdio::null());
        c.pre_exec(move || { libc::fcntl(r1, libc::F_SETFD, 0); libc::fcntl(a0, libc::F_SETFD, 0); Ok(()) }); }
    let ch = c.spawn();
    drop(c);
    unsafe { libc::close(r1); libc::close(a0); }
    let mut ch = ch.map_err(|e| e.to_string())?;
    let mut all: Vec<u8> = vec![]; let mut line: Vec<u8> = vec![];
    let mut res = Err("the program ended early".to_string());
    let t0 = std::time::Instant::now();
    let mut typing = typed;
    // what the terminal has been sent so far
    fn drain(m: i32, all: &mut Vec<u8>, ms: i32) { let mut b = [0u8; 4096]; loop {
        let mut p = libc::pollfd { fd: m, events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, ms) } <= 0 || p.revents & libc::POLLIN == 0 { return }
        let n = unsafe { libc::read(m, b.as_mut_ptr() as _, b.len()) };
        if n <= 0 { return } all.extend_from_slice(&b[..n as usize]);
    } }
    'all: loop {
        if t0.elapsed() > Duration::from_secs(9) { res = Err("ending does not return".into()); break }
        drain(m, &mut all, 0);
        let mut p = libc::pollfd { fd: rep[0], events: libc::POLLIN, revents: 0 };
        if typing { unsafe { libc::write(m, b"x".as_ptr() as _, 1); } }
        if unsafe { libc::poll(&mut p, 1, 2) } <= 0 { continue }
        let mut b = [0u8; 1024];
        let n = unsafe { libc::read(rep[0], b.as_mut_ptr() as _, b.len()) };
        if n <= 0 { break }
        line.extend_from_slice(&b[..n as usize]);
        if !line.ends_with(b"\n") { continue }
        let l = String::from_utf8_lossy(&line).trim_end().to_string(); line.clear();
        drain(m, &mut all, 20);
        let vt = if term == "xterm" { None } else { Some(white) };
        match l.as_bytes()[0] {
            b'P' => if let Err(e) = judge25(&all, vt, "after a panic in another thread") { res = Err(e); break 'all },
            b'E' => { typing = false; if let Err(e) = judge25(&all, vt, "after the end") { res = Err(e); break 'all } }
            b'Q' => { typing = false; loop { let n = all.len(); drain(m, &mut all, 50); if n == all.len() { break } } }
            b'Z' => if let Err(e) = stopped(m, s, ch.id() as i32, &mut all, vt, drain) { res = Err(e); break 'all },
            b'I' => unsafe { libc::write(m, b"hello\n".as_ptr() as _, 6); },
            b'F' => { res = Err(l[1..].to_string()); break 'all }
            _ => { res = Ok(()); unsafe { libc::write(ack[1], b"g".as_ptr() as _, 1); } break 'all }
        }
        if l.as_bytes()[0] == b'I' { typing = false; }
        unsafe { libc::write(ack[1], b"g".as_ptr() as _, 1); }
        if l.as_bytes()[0] == b'I' { typing = false; }
    }
    let _ = ch.kill(); let _ = ch.wait();
    unsafe { libc::close(m); libc::close(s); libc::close(rep[0]); libc::close(ack[1]); }
    res
}
/// control-Z: while the program is stopped, the terminal is in its normal state
fn stopped(m: i32, s: i32, pid: i32, all: &mut Vec<u8>, vt: Option<bool>, drain: fn(i32, &mut Vec<u8>, i32)) -> R {
    let raw = |t: libc::termios| t.c_lflag & (libc::ICANON | libc::ECHO) == 0;
    let now = || unsafe { let mut t: libc::termios = std::mem::zeroed(); libc::tcgetattr(s, &mut t); t };
    unsafe { libc::write(m, b"\x1a".as_ptr() as _, 1); }
    for i in 0.. {
        let mut st = 0;
        if unsafe { libc::waitpid(pid, &mut st, libc::WUNTRACED | libc::WNOHANG) } == pid && libc::WIFSTOPPED(st) { break }
        drain(m, all, 2);
        if i > 2000 { return Err("control-Z does not stop the program".into()) }
    }
    drain(m, all, 20);
    let t = now();
    let r = if raw(t) || t.c_lflag & libc::ISIG == 0 || t.c_oflag & libc::OPOST == 0 { Err("while the program is stopped by control-Z, the terminal is not in its normal mode".to_string()) } else { judge25(all, vt, "while the program is stopped by control-Z") };
    unsafe { libc::kill(pid, libc::SIGCONT); }
    r?;
    for _ in 0..1500 { if raw(now()) { return Ok(()) } drain(m, all, 2); }
    Err("after control-Z and going on, the terminal is not Liso's again".into())
}
/// every way of ending on every kind of terminal
pub fn fixed25() -> Vec<Vec<u8>> {
    let mut r = vec![];
    for how in 0..4u8 { let mut v = if how & 1 == 0 { vec![0] } else { vec![2, 0] }; v.extend([1, 0, how % 3, how, how, 0x97]); r.push(v) }
    for how in 0..7u8 { for term in [0u8, 2, 3] { let mut v = vec![term]; if term > 0 { v.push(how & 1) } v.extend([1 + how % 2, 1, how % 3, how, 3 + term, (0x0f >> (how & 1)) | if how % 2 == 0 { 0x60 } else { 0 }, (how + 1) % 7, how, 8]); r.push(v) } }
    r
}
