use crate::attrs::{pty, with_fds};
use crate::line::PLAIN;
use crate::screen::Screen;
use crate::sys::{self, Feed};
use crate::util::*;
use liso::liso;
use liso::verif::term::{Op, TermApi};
use liso::verif::worker::new_editor;
use liso::{InputOutput, Line, Response, Style};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---- C20 -------------------------------------------------------------------

struct Null;
impl TermApi for Null {
    fn op(&mut self, _: Op) {}
    fn width(&mut self) -> u32 { 40 }
    fn style(&self) -> Style { Style::PLAIN }
}
fn text(l: &Option<Line>) -> Option<String> { l.as_ref().map(|x| x.as_str().to_string()) }
/// The editor's part: deadlines are announced, wake-ups take the notice down if and only if it is due.
fn c20_editor(t: &mut Tape) -> R {
    let mut ed = new_editor(Box::new(Null));
    let mut cur: Option<(String, Instant, Instant)> = None; // text; the deadline lies between these
    let mut n = 0;
    for i in 0..2 + t.n(10) {
        if t.end() { break }
        match t.n(6) {
            0 | 1 | 2 => {
                let d = [Duration::ZERO, Duration::from_micros(300), Duration::from_millis(2), Duration::from_secs(3600), Duration::from_nanos(1)][t.n(5)];
                let s = format!("N{}", i); t.say(format!("notice {} for {:?}", s, d)); n += 1;
                let a = Instant::now() + d;
                if !ed.notice(Line::from_str(&s), d) { return Err("notice failed".into()) }
                let b = Instant::now() + d;
                let dl = ed.deadlines();
                if dl.len() != 1 || dl[0] < a || dl[0] > b { return Err(format!("{} wake-ups were asked for, or not for the deadline", dl.len())) }
                cur = Some((s, dl[0], dl[0]));
            }
            3 => { let k = t.n(4); t.say(format!("{} ms pass", k)); std::thread::sleep(Duration::from_millis(k as u64)) }
            _ => {
                t.say("wake-up".into());
                let a = Instant::now(); if !ed.heartbeat() { return Err("wake-up failed".into()) } let b = Instant::now();
                let shown = text(&ed.view().notice);
                if let Some((s, dl, _)) = &cur {
                    if a >= *dl { if shown.is_some() { return Err(format!("the notice {} is still shown after a wake-up past its deadline", s)) } cur = None }
                    else if b < *dl { if shown.as_ref() != Some(s) { return Err(format!("the notice {} was taken down too early", s)) } }
                    else if shown.is_none() { cur = None }
                }
            }
        }
        let shown = text(&ed.view().notice);
        if shown != cur.as_ref().map(|x| x.0.clone()) { return Err(format!("the notice shown is {:?}, expected {:?}", shown, cur.as_ref().map(|x| &x.0))) }
    }
    if n > 1 { t.log.insert(0, "*".into()) }
    Ok(())
}
/// interprets what is written to a terminal
struct Vt { s: Screen, pend: Vec<u8> }
impl Vt {
    fn feed(&mut self, b: &[u8]) {
        self.pend.extend_from_slice(b);
        let b = std::mem::take(&mut self.pend);
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                0x1b => {
                    if i + 1 >= b.len() { break }
                    if b[i + 1] != b'[' { i += 2; continue }
                    let mut e = i + 2; while e < b.len() && !(0x40..0x7f).contains(&b[e]) { e += 1 }
                    if e >= b.len() { break }
                    let n = std::str::from_utf8(&b[i + 2..e]).unwrap_or("").parse::<u32>().unwrap_or(1);
                    match b[e] { b'A' => self.s.op(Op::Up(n.min(self.s.r as u32))), b'B' => self.s.op(Op::Down(n)), b'C' => self.s.op(Op::Right(n)), b'D' => self.s.op(Op::Left(n)),
                        b'J' => self.s.op(Op::ClearForward), b'K' => self.s.op(Op::ClearEol), _ => () }
                    self.s.attr = PLAIN;
                    i = e + 1; continue
                }
                b'\r' => self.s.op(Op::Cr), b'\n' => { let c = self.s.c; self.s.op(Op::Newline); self.s.c = c } ,
                7 => (), c => self.s.op(Op::Print((c as char).to_string())),
            }
            i += 1;
        }
        self.pend = b[i..].to_vec();
    }
    fn shows(&self, s: &str) -> bool { self.s.rows.iter().any(|r| r.iter().map(|x| x.0.as_str()).collect::<String>().split(' ').any(|x| x == s)) }
}
/// A burst of requests to a real worker on a pseudo-terminal: what the screen shows when it has settled, and when Liso
/// has ended.
pub fn real_rows(t: &mut Tape, rest: bool, end: bool) -> R {
    let (m, sl) = pty();
    std::env::set_var("TERM", "xterm");
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false)); let st2 = stop.clone();
    let vt = Arc::new(Mutex::new(Vt { s: Screen::new(40), pend: vec![] }));
    let v2 = vt.clone();
    let rd = std::thread::spawn(move || {
        let mut b = [0u8; 4096];
        loop {
            let done = st2.load(Ordering::SeqCst);
            let mut p = libc::pollfd { fd: m, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 10) } <= 0 || p.revents & libc::POLLIN == 0 { if done { break } continue }
            let n = unsafe { libc::read(m, b.as_mut_ptr() as _, b.len()) };
            if n > 0 { v2.lock().unwrap().feed(&b[..n as usize]) }
        }
    });
    let rows = |vt: &Arc<Mutex<Vt>>| {
        let v = vt.lock().unwrap();
        let mut r: Vec<String> = v.s.rows.iter().map(|r| r.iter().map(|x| x.0.as_str()).collect::<String>().trim_end().to_string()).collect();
        while r.last().map_or(false, |x| x.is_empty()) { r.pop(); }
        (r, v.s.r, v.s.c)
    };
    let wrap = |s: &str| -> Vec<String> { s.split('\n').flat_map(|l| { let c: Vec<char> = l.chars().collect(); if c.is_empty() { vec![String::new()] } else { c.chunks(40).map(|x| x.iter().collect()).collect() } }).collect() };
    let trim = |mut v: Vec<String>| { while v.last().map_or(false, |x: &String| x.is_empty()) { v.pop(); } v };
    let r = with_fds(&[(sl, 0), (sl, 1)], || -> R {
        let mut io = InputOutput::new();
        let (mut lines, mut status, mut prompt): (Vec<String>, Option<String>, Option<String>) = (vec![], None, None);
        let mut sent = 0u32;
        if t.bool() { prompt = Some("P>".into()); io.prompt("P>", true, false); std::thread::sleep(Duration::from_millis(2)); }
        if t.bool() { t.say("(the worker is held up)".into()); io.suspend_and_run(|| std::thread::sleep(Duration::from_millis(4))); }
        for i in 0..1 + t.n(8) {
            let x = format!("{}{}", i, ["a", "bc", "b c", "", "0123456789012345678901234567890123456789", "01234567890123456789012345678901234567890", "x\ny", "-----------------------------------------------------------------------------------"][t.n(8)]);
            match t.n(9) {
                0 | 1 => { t.say(format!("println {:?}", x)); lines.push(x.clone()); io.println(x) }
                2 => { t.say(format!("echoln {:?}", x)); lines.push(x.clone()); io.echoln(x) }
                3 | 4 => { t.say(format!("status {:?}", x)); status = Some(x.clone()); io.status(Some(x)) }
                5 => { t.say("no status".into()); status = None; io.remove_status() }
                6 => { t.say(format!("prompt {:?}", x)); prompt = Some(x.clone()); io.prompt(x, true, t.bool()) }
                7 => { t.say("a custom response".into()); sent += 1; io.send_custom(1u8) }
                _ => { t.say("wait".into()); std::thread::sleep(Duration::from_millis(2)) }
            }
        }
        let mut res = Ok(());
        if t.bool() || !end {
            // until all of it has been dealt with, and a little longer
            io.send_custom(2u8);
            let mut got = 0;
            loop {
                match io.read_timeout(Duration::from_secs(5)) {
                    Some(Response::Custom(c)) => match c.downcast_ref::<u8>() { Some(2) => break, _ => got += 1 },
                    Some(x) => { res = Err(format!("the response {:?} came out of nowhere", x)); break }
                    None => { res = Err("a response is missing".to_string()); break }
                }
            }
            if res.is_ok() && got != sent { res = Err(format!("{} custom responses arrived of {} sent", got, sent)) }
            let mut block = lines.iter().flat_map(|l| wrap(l)).collect::<Vec<_>>();
            if let Some(s) = &status { block.extend(wrap(s)); }
            block.extend(wrap(prompt.as_deref().unwrap_or("")));
            let block = trim(block);
            let mut now = rows(&vt).0;
            for _ in 0..1000 { if now == block { break } std::thread::sleep(Duration::from_millis(2)); now = rows(&vt).0; }
            if rest && res.is_ok() && now != block { res = Err(format!("the screen shows {:?}, expected {:?}", now, block)) }
        }
        drop(io);
        let want: Vec<String> = lines.iter().flat_map(|l| wrap(l)).collect();
        let (n, want) = (want.len(), trim(want));
        let mut now = rows(&vt);
        for _ in 0..1000 { if now == (want.clone(), n, 0) { break } std::thread::sleep(Duration::from_millis(2)); now = rows(&vt); }
        if end && res.is_ok() && now != (want.clone(), n, 0) { res = Err(format!("after the end the screen shows {:?} with the cursor at row {}, column {}; expected {:?}, row {}, column 0", now.0, now.1, now.2, want, n)) }
        t.log.insert(0, "*".into());
        res
    });
    stop.store(true, Ordering::SeqCst);
    let _ = rd.join();
    unsafe { libc::close(m); libc::close(sl); }
    quiet_panics();
    r
}
/// A real worker on a pseudo-terminal.
fn c20_real(t: &mut Tape) -> R {
    let (m, sl) = pty();
    std::env::set_var("TERM", "xterm");
    let vt = Arc::new(Mutex::new(Vt { s: Screen::new(40), pend: vec![] }));
    let v2 = vt.clone();
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false)); let st2 = stop.clone();
    let rd = std::thread::spawn(move || {
        let mut b = [0u8; 4096];
        while !st2.load(Ordering::SeqCst) {
            let mut p = libc::pollfd { fd: m, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 20) } <= 0 || p.revents & libc::POLLIN == 0 { continue }
            let n = unsafe { libc::read(m, b.as_mut_ptr() as _, b.len()) };
            if n > 0 { v2.lock().unwrap().feed(&b[..n as usize]) }
        }
    });
    let r = with_fds(&[(sl, 0), (sl, 1)], || -> R {
        let mut io = InputOutput::new();
        io.prompt("P>", true, false);
        let mut n = 0;
        let mut act = || -> R {
            for i in 0..2 + t.n(4) {
                let ms = [5u64, 20, 60, 400, 100000][t.n(5)];
                let how = if ms > 1000 { 1 } else { t.n(3) };
                t.say(format!("notice N{} for {} ms", i, ms)); n += 1;
                let d = Duration::from_millis(ms);
                // (late only if it is late each time: the machine may be busy)
                for again in 0..4 {
                    let s = if again == 0 { format!("N{}", i) } else { format!("N{}x{}", i, again) };
                    let t0 = Instant::now();
                    io.notice(Line::from_str(&s), d);
                    if how == 1 { t.say("replaced".into()); std::thread::sleep(Duration::from_millis(t.n(8) as u64)); break }
                    // it must be gone when its time is up, and must not be gone before
                    let mut seen = false;
                    let late = loop {
                        let shown = vt.lock().unwrap().shows(&s);
                        let now = Instant::now();
                        if seen && !shown { if now < t0 + d { return Err(format!("the notice {} was taken down {:?} early", s, t0 + d - now)) } break now - (t0 + d) }
                        seen |= shown;
                        if !seen && now >= t0 + d + Duration::from_millis(300) && vt.lock().unwrap().shows("P>") { break Duration::ZERO }
                        if now > t0 + d + Duration::from_millis(6000) { return Err(format!("the notice {} is still shown 6 s after its deadline", s)) }
                        std::thread::sleep(Duration::from_micros(500));
                    };
                    if late < Duration::from_millis(350) { break }
                    t.say(format!("late by {:?}", late));
                    if again == 3 { return Err(format!("notices for {} ms stayed more than 0.35 s beyond their time, four times in a row", ms)) }
                }
            }
            Ok(())
        };
        let r = act();
        let _ = io.try_read();
        drop(io);
        if n > 1 { t.log.insert(0, "*".into()) }
        r
    });
    stop.store(true, Ordering::SeqCst);
    let _ = rd.join();
    unsafe { libc::close(m); libc::close(sl); }
    quiet_panics();
    r
}
pub fn c20(t: &mut Tape) -> R { if t.n(64) == 7 { return one_request(t, b"n") } if t.byte() < 40 { t.say("real worker".into()); c20_real(t) } else { c20_editor(t) } }

// ---- C21 -------------------------------------------------------------------

pub fn child(a: &[String]) {
    // what to print; how many lines to expect
    let n: usize = a[0].parse().unwrap();
    let mut io = InputOutput::new();
    for x in &a[1..] {
        let s = String::from_utf8(unhex(&x[1..])).unwrap();
        let styled = liso::liso!(bold, fg = red, s.clone(), reset);
        match &x[..1] { "m" => liso::println!(bold, s), "M" => liso::wrapln!(s, fg = red), "p" => io.println(s), "P" => io.println(styled), "w" => io.wrapln(s), "W" => io.wrapln(styled), "e" => io.echoln(s), "r" => io.prompt(s, true, true), "s" => io.status(Some(s)), "n" => io.notice(s, Duration::from_millis(1)), "b" => io.bell(), _ => panic!() }
    }
    let mut got = String::new(); let mut k = 0;
    loop {
        let w = if k < n { Duration::from_secs(4) } else { Duration::from_millis(25) };
        match io.read_timeout(w) {
            None => break,
            Some(Response::Input(s)) => { got.push_str(&format!("i{}\n", hex(s.as_bytes()))); k += 1 }
            Some(x) => { got.push_str(&format!("x{:?}\n", x)); if let Response::Dead = x { break } }
        }
    }
    drop(io);
    std::io::stderr().write_all(got.as_bytes()).unwrap();
}
/// Which kind of worker there is, for each combination of terminals and each TERM.
fn c21_choice(t: &mut Tape) -> R {
    let (tin, tout) = ([true, true, true, false][t.n(4)], [true, true, true, false][t.n(4)]);
    let term = [Some("xterm"), Some("dumb"), Some("pipe"), Some("linux"), Some("DUMB"), Some("dumber"), Some("xpipe"), Some(""), None][t.n(9)];
    t.say(format!("TERM is {:?}, standard input is a {}, standard output a {}", term, if tin { "terminal" } else { "pipe" }, if tout { "terminal" } else { "pipe" }));
    let (m, sl) = pty();
    let fd = || -> Stdio { use std::os::fd::FromRawFd; unsafe { Stdio::from_raw_fd(libc::dup(sl)) } };
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["child", "0", &format!("P{}", hex(b"hello")), &format!("r{}", hex(b"Q>"))]).stderr(Stdio::piped());
    match term { Some(x) => c.env("TERM", x), None => c.env_remove("TERM") };
    c.stdin(if tin { fd() } else { Stdio::null() }).stdout(if tout { fd() } else { Stdio::piped() });
    let ch = c.spawn().map_err(|e| e.to_string()); drop(c);
    let o = ch.and_then(|ch| ch.wait_with_output().map_err(|e| e.to_string()));
    let mut out = vec![];
    if tout {
        let mut b = [0u8; 4096];
        loop {
            let mut p = libc::pollfd { fd: m, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 20) } <= 0 || p.revents & libc::POLLIN == 0 { break }
            let n = unsafe { libc::read(m, b.as_mut_ptr() as _, b.len()) };
            if n <= 0 { break } out.extend_from_slice(&b[..n as usize]);
        }
    }
    unsafe { libc::close(m); libc::close(sl); }
    let o = o?;
    if !tout { out = o.stdout }
    let plain = out == b"hello\n" || out == b"hello\r\n";
    let pipe = !tin || !tout || term == Some("dumb") || term == Some("pipe");
    if pipe && !plain { return Err(format!("pipe mode was asked for; standard output is {:?}", String::from_utf8_lossy(&out))) }
    if !pipe && !out.contains(&27) { return Err(format!("there is a terminal; it receives only {:?}", String::from_utf8_lossy(&out))) }
    t.log.insert(0, "*".into());
    Ok(())
}
pub fn c21(t: &mut Tape) -> R {
    if t.n(16) == 3 { return c21_choice(t) }
    const IN: &[&[u8]] = &[b"one", b"\n", b"\n", b"\r\n", b"two words", "é漢".as_bytes(), b"\r", b"\t", b" ", b"\x1b[A", b"\x03", b"\0", b"x", b"\xff", b"\x04", b"\xef\xbb\xbf", "\u{2028}".as_bytes()];
    const OUT: &[&str] = &["hello", "", "two  words", "é漢", "a\nb", "tab\there", "long long long long long long long long long long long long long long long long long long text", "\u{1b}[1mX", " lead", "trail "];
    let mut input: Vec<u8> = vec![];
    for _ in 0..t.n(14) { let p = t.n(IN.len() + 4); input.extend_from_slice(IN.get(p).unwrap_or(&&b"\n"[..])) }
    if t.n(12) == 0 { for _ in 0..300 { input.extend_from_slice(b"0123456789 many bytes ") } input.push(b'\n') }
    // the lines: up to the first that is not UTF-8
    let mut want = vec![];
    for l in input.split_inclusive(|b| *b == b'\n') {
        let Ok(s) = std::str::from_utf8(l) else { break };
        want.push(s.trim_end_matches(['\r', '\n']).to_string());
    }
    let mut args = vec!["child".to_string(), want.len().to_string()]; let mut out = String::new();
    for _ in 0..t.n(6) {
        let k = ["p", "P", "w", "W", "e", "r", "s", "n", "b", "m", "M"][t.n(11)]; let s = OUT[t.n(OUT.len())];
        args.push(format!("{}{}", k, hex(s.as_bytes())));
        if "pPwWmM".contains(k) { let mut m = crate::line::Model::new(); m.text(s); out.push_str(&m.string()); out.push('\n') }
    }
    t.say(format!("input {:?}, output {:?}", String::from_utf8_lossy(&input), args[2..].iter().map(|x| format!("{}:{:?}", &x[..1], String::from_utf8(unhex(&x[1..])).unwrap())).collect::<Vec<_>>()));
    let mut c = Command::new(std::env::current_exe().unwrap()).args(&args).env("TERM", if t.bool() { "dumb" } else { "xterm" }).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let mut i = c.stdin.take().unwrap();
    let cut = t.n(input.len() + 1); let data = input.clone();
    let w = std::thread::spawn(move || { let _ = i.write_all(&data[..cut]); let _ = i.flush(); let _ = i.write_all(&data[cut..]); });
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    let _ = w.join();
    let got: Vec<String> = String::from_utf8_lossy(&o.stderr).lines().map(|x| if x.starts_with('i') { String::from_utf8_lossy(&unhex(&x[1..])).to_string() } else { format!("<{}>", x) }).collect();
    if got != want { return Err(format!("the program received {:?}, expected {:?}", got, want)) }
    if o.stdout != out.as_bytes() { return Err(format!("standard output is {:?}, expected {:?}", String::from_utf8_lossy(&o.stdout), out)) }
    if !o.status.success() { return Err(format!("{}", o.status)) }
    if !want.is_empty() { t.log.insert(0, "*".into()) }
    Ok(())
}

// ---- C24 -------------------------------------------------------------------

#[derive(Clone)]
struct Sent { kind: u8, text: String }
/// What the threads print: thread, then its lines.
fn plan24(t: &mut Tape) -> Vec<Vec<Sent>> {
    let nt = 1 + t.n(4);
    let mut r = Rng(1 + t.byte() as u64 * 256 + t.byte() as u64);
    let most = 1 + t.n(40);
    (0..nt).map(|i| {
        let n = 1 + r.below(most);
        (0..n).map(|k| {
            let kind = b"ppwwesrbnc"[r.below(10)];
            let pad = ["", "aa", "aa bb", "a\nb", "\u{e9}", "x\n\ny", "0123456789"][r.below(7)];
            let end = ["", "", "", "\n"][r.below(4)];
            Sent { kind, text: if b"pwe".contains(&kind) { format!("<{}.{}.{}>{}", i, k, pad, end) } else { format!("s{}", k) } }
        }).collect()
    }).collect()
}
fn send24(o: &liso::Output, x: &Sent) {
    let l = x.text.clone();
    match x.kind {
        b'p' => o.println(l), b'w' => o.wrapln(l), b'e' => o.echoln(l), b's' => o.status(Some(l)), b'r' => o.prompt(l, true, false),
        b'b' => o.bell(), b'n' => o.notice(l, Duration::from_millis(1)), _ => o.send_custom(1u8),
    }
}
/// Each method of Output sends its one request, with just what it was given.
pub fn one_request(t: &mut Tape, which: &[u8]) -> R {
    let (o, mut got) = liso::verif::recording_output();
    let mut want = vec![];
    for _ in 0..1 + t.n(3) {
        let x = t.text(&["a", "", "\n", "\u{e9}", " ", "\x1b", "<b>"], 4);
        let mut l = Line::from_str(&x);
        if t.bool() { l.set_style(Style::BOLD); if t.bool() { l.add_text("q"); } }
        let (a, b) = (t.bool(), t.bool());
        let opt = if l.is_empty() { None } else { Some(l.clone()) };
        let d = Duration::from_millis(t.byte() as u64 * 100);
        let k = which[t.n(which.len())];
        t.say(format!("{} {:?} {} {}", k as char, x, a, b));
        want.push(match k {
            b'p' => { o.println(l.clone()); format!("Output {:?}", l) }
            b'q' => { o.println(x.as_str()); format!("Output {:?}", Line::from_str(&x)) }
            b'Q' => { o.println(std::borrow::Cow::from(x.clone())); format!("Output {:?}", Line::from_str(&x)) }
            b'w' => { o.wrapln(l.clone()); format!("OutputWrapped {:?}", l) }
            b'e' => { o.echoln(l.clone()); format!("OutputEcho {:?}", l) }
            b's' => { o.status(Some(l.clone())); format!("Status {:?}", Some(l)) }
            b'S' => { o.status::<Line>(None); format!("Status {:?}", None::<Line>) }
            b'R' => { o.remove_status(); format!("Status {:?}", None::<Line>) }
            b'n' => { o.notice(l.clone(), d); format!("Notice {:?} {:?}", l, d) }
            b'r' => { o.prompt(l.clone(), a, b); format!("Prompt {:?} {:?} {:?}", opt, a, b) }
            b'b' => { o.bell(); "Bell".into() }
            b'c' => { o.send_custom(7u8); "Custom".into() }
            b'C' => { o.send_custom_box(Box::new(7u8)); "Custom".into() }
            b'x' => { o.suspend_and_run(|| ()); "SuspendAndRun".into() }
            b'o' => { let o2 = o.clone_output(); o2.clone().println(l.clone()); format!("Output {:?}", l) }
            _ => { o.set_completor(None); "SetCompletor false".into() }
        });
    }
    t.log.insert(0, "*".into());
    let g = got();
    if g != want { return Err(format!("requests sent: {:?}, expected {:?}", g, want)) }
    Ok(())
}
/// Prints from several threads at once; the lines sent before the end.
fn threads24(io: InputOutput, plan: &[Vec<Sent>], global: bool) {
    let hs: Vec<_> = plan.iter().cloned().map(|p| {
        let o = io.clone_output();
        std::thread::spawn(move || for x in p { if global && x.kind == b'p' { liso::output().println(x.text) } else { send24(&o, &x) } })
    }).collect();
    for h in hs { let _ = h.join(); }
    drop(io);
}
fn judge24(plan: &[Vec<Sent>], out: &str, echo: bool) -> R {
    // escape sequences, line ends and blanks do not count
    let mut got: Vec<String> = vec![]; let mut cur: Option<String> = None;
    let mut it = out.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\x1b' => { if it.peek() == Some(&'[') { it.next(); for d in it.by_ref() { if ('@'..='~').contains(&d) { break } } } else { it.next(); } }
            '<' => { if let Some(x) = &cur { return Err(format!("the line {:?} is broken up by another one", x)) } cur = Some("<".into()) }
            '>' => { match cur.take() { Some(x) => got.push(x + ">"), None => return Err("the end of a line without its beginning".into()) } }
            c if c.is_control() || c == ' ' => (),
            c => if let Some(x) = &mut cur { x.push(c) },
        }
    }
    if let Some(x) = cur { return Err(format!("the line {:?} is not complete", x)) }
    let want: Vec<Vec<String>> = plan.iter().map(|p| p.iter().filter(|x| x.kind == b'p' || x.kind == b'w' || (echo && x.kind == b'e')).map(|x| x.text.replace(['\n', ' '], "")).collect()).collect();
    for (i, w) in want.iter().enumerate() {
        let g: Vec<&String> = got.iter().filter(|x| x.starts_with(&format!("<{}.", i))).collect();
        if g.len() != w.len() || g.iter().zip(w).any(|(a, b)| *a != b) {
            let k = g.iter().zip(w).position(|(a, b)| *a != b).unwrap_or(g.len().min(w.len()));
            return Err(format!("thread {}: {} lines arrived of {} sent; the {}th is {:?}, sent was {:?}", i, g.len(), w.len(), k + 1, g.get(k), w.get(k)))
        }
    }
    if got.len() != want.iter().map(|x| x.len()).sum::<usize>() { return Err("a line nobody sent".into()) }
    Ok(())
}
pub fn child24(a: &[String]) {
    let b = unhex(&a[0]); let mut t = Tape::new(&b);
    let plan = plan24(&mut t); let global = t.bool();
    threads24(InputOutput::new(), &plan, global);
}
fn c24_once(tape: &[u8], pipe: bool, t: &mut Tape) -> R {
    let plan = plan24(t); let global = t.bool();
    if pipe {
        let mut c = Command::new(std::env::current_exe().unwrap()).args(["child24", &hex(tape)]).env("TERM", "xterm").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        let i = c.stdin.take();
        let o = c.wait_with_output().map_err(|e| e.to_string())?;
        drop(i);
        if !o.status.success() { return Err(format!("the program ended with {}", o.status)) }
        return judge24(&plan, &String::from_utf8_lossy(&o.stdout), false);
    }
    let (m, sl) = pty();
    std::env::set_var("TERM", "xterm");
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false)); let st2 = stop.clone();
    let rd = std::thread::spawn(move || {
        let mut all = vec![]; let mut b = [0u8; 4096];
        loop {
            let done = st2.load(Ordering::SeqCst);
            let mut p = libc::pollfd { fd: m, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 10) } <= 0 || p.revents & libc::POLLIN == 0 { if done { break } continue }
            let n = unsafe { libc::read(m, b.as_mut_ptr() as _, b.len()) };
            if n > 0 { all.extend_from_slice(&b[..n as usize]) }
        }
        all
    });
    with_fds(&[(sl, 0), (sl, 1)], || threads24(InputOutput::new(), &plan, global));
    stop.store(true, Ordering::SeqCst);
    let all = rd.join().unwrap();
    unsafe { libc::close(m); libc::close(sl); }
    quiet_panics();
    judge24(&plan, &String::from_utf8_lossy(&all), true)
}
pub fn c24(t: &mut Tape) -> R {
    if t.n(5) == 0 { for _ in 0..3 { one_request(t, b"pqQwebcCxom")?; } return Ok(()) }
    if t.n(3) == 0 { t.say("on a terminal".into()); return real_rows(t, true, true) }
    let pipe = t.n(3) == 0;
    let tape: Vec<u8> = t.rest();
    { let mut u = Tape::new(&tape); let p = plan24(&mut u);
      for (i, x) in p.iter().enumerate() { t.say(format!("thread {} sends {:?}", i, x.iter().map(|y| format!("{}:{:?}", y.kind as char, y.text)).collect::<Vec<_>>())) }
      if p.len() > 1 { t.log.insert(0, "*".into()) } }
    t.say(if pipe { "in pipe mode".into() } else { "on a terminal".into() });
    // (which thread comes first is not in our hands)
    for _ in 0..2 { let mut u = Tape::new(&tape); c24_once(&tape, pipe, &mut u)?; }
    Ok(())
}

// ---- C22 -------------------------------------------------------------------

fn resp(t: &mut Tape) -> (Response, u8) {
    match t.n(11) {
        0 => (Response::Input(["a", "", "é x"][t.n(3)].to_string()), 10), 1 => (Response::Discarded("d".into()), 7), 2 => (Response::Quit, 3), 3 => (Response::Finish, 4),
        4 => (Response::Info, 20), 5 => (Response::Break, 28), 6 => (Response::Escape, 27), 7 => (Response::Swap, 24), 8 => (Response::Custom(Box::new(7u8)), 0),
        9 => (Response::Input("x".into()), 10), _ => { let k = t.n(32) as u8; (Response::Unknown(k), k) }
    }
}
pub fn c22(t: &mut Tape) -> R {
    let (mut io, tx, _keep) = liso::verif::bare_io();
    let mut tx = Some(tx);
    let mut queue: std::collections::VecDeque<(String, u8)> = Default::default();
    let (mut dead, mut n) = (0, 0);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    for _ in 0..3 + t.n(30) {
        if t.end() { break }
        match t.n(8) {
            0 | 1 => if let Some(s) = &tx { let (r, k) = resp(t); let d = format!("{:?}", r); t.say(format!("queued {}", d)); n += 1; let _ = s.send(r); queue.push_back((d, k)) },
            2 => if t.n(3) == 0 { t.say("the worker is gone".into()); tx = None },
            _ => {
                let blocks = queue.is_empty() && tx.is_some();
                let how = t.n(if blocks { 3 } else { 5 });
                let ms = if blocks { 1 } else { 2000 };
                t.say(["try_read", "read_timeout", "read_deadline", "read_blocking", "read_async"][how].to_string());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match how {
                    0 => io.try_read(), 1 => io.read_timeout(Duration::from_millis(ms)), 2 => io.read_deadline(Instant::now() + Duration::from_millis(ms)),
                    3 => Some(io.read_blocking()), _ => Some(rt.block_on(io.read_async())),
                }));
                let want = if let Some((d, k)) = queue.pop_front() { Ok(Some((d, k))) } else if tx.is_some() { Ok(None) } else { dead += 1; if dead >= 9 { Err(()) } else { Ok(Some(("Dead".to_string(), 28))) } };
                let got = match &r { Ok(x) => Ok(x.as_ref().map(|x| (format!("{:?}", x), x.as_unknown()))), Err(_) => Err(()) };
                if got != want { return Err(format!("got {:?}, expected {:?} (Err: panic; Dead number {})", got, want, dead)) }
                if dead >= 9 { break }
            }
        }
    }
    if n > 0 && dead > 0 { t.log.insert(0, "*".into()) }
    Ok(())
}

// ---- C23 -------------------------------------------------------------------

/// Capturing is set up, with few descriptors left, and ended again.
fn c23_setup(t: &mut Tape) -> R {
    let left = t.n(5);
    let tty = t.n(4) != 0;
    let text = ["", "one\n", "one\ntwo", "rest"][t.n(4)];
    t.say(format!("capturing with {} descriptors left; stderr is a {}; {:?} is written", left, if tty { "terminal" } else { "file" }, text));
    let (m, sl) = pty();
    let null = unsafe { libc::open(b"/dev/null\0".as_ptr() as _, libc::O_RDWR) };
    let r = with_fds(&[(if tty { sl } else { null }, 2)], || -> R {
        let mut old: libc::rlimit = unsafe { std::mem::zeroed() };
        let mut fill = vec![];
        const N: i32 = 200;
        unsafe {
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
            let lim = libc::rlimit { rlim_cur: N as u64, rlim_max: old.rlim_max };
            if libc::setrlimit(libc::RLIMIT_NOFILE, &lim) != 0 { return Ok(()) }
            loop { let f = libc::dup(null); if f < 0 { break } fill.push(f) }
            for _ in 0..left { if let Some(f) = fill.pop() { libc::close(f); } }
        }
        let open = || (0..N).filter(|f| unsafe { libc::fcntl(*f, libc::F_GETFD) } >= 0).collect::<Vec<_>>();
        let id = || { let mut st: libc::stat = unsafe { std::mem::zeroed() }; unsafe { libc::fstat(2, &mut st) }; (st.st_dev, st.st_ino, st.st_rdev) };
        let diff = |a: &[i32], b: &[i32]| format!("{} descriptors more are open, and {} fewer", a.iter().filter(|x| !b.contains(x)).count(), b.iter().filter(|x| !a.contains(x)).count());
        let (o0, i0) = (open(), id());
        let mut rx = liso::verif::stderr_capture::capture();
        let (o1, i1) = (open(), id());
        let on = i1 != i0;
        unsafe { libc::write(2, text.as_ptr() as _, text.len()); }
        liso::verif::stderr_capture::finish();
        let (o2, i2) = (open(), id());
        let got = rx();
        unsafe { for f in fill { libc::close(f); } libc::setrlimit(libc::RLIMIT_NOFILE, &old); }
        if on != (tty && left >= 3) { return Err(format!("standard error is {}captured", if on { "" } else { "not " })) }
        if !on && o1 != o0 { return Err(format!("not captured, but {}", diff(&o1, &o0))) }
        if o2 != o0 { return Err(format!("afterwards {}", diff(&o2, &o0))) }
        if i2 != i0 { return Err("afterwards standard error is not what it was".into()) }
        if on { let want: Vec<_> = text.lines().map(|x| x.to_string()).collect(); if got != want { return Err(format!("captured {:?}, expected {:?}", got, want)) } }
        else if tty && (got.len() != 1 || !got[0].contains("error")) { return Err(format!("capturing failed; the lines are {:?}", got)) }
        else if !tty && !got.is_empty() { return Err(format!("nothing was captured; the lines are {:?}", got)) }
        Ok(())
    });
    unsafe { libc::close(m); libc::close(sl); libc::close(null); }
    t.log.insert(0, "*".into());
    r
}
pub fn c23(t: &mut Tape) -> R {
    if t.n(16) == 3 { return c23_setup(t) }
    const P: &[&[u8]] = &[b"\n", b"a", b"line\n", b"\n\n", "é\n".as_bytes(), b"\xff\xfe", b"0123456789012345678901234567890123456789", b"x\ny", b"\r\n", b"\xe6\xbc", b"tail", b"\0", "漢字".as_bytes(), b" "];
    let mut reads: Vec<Vec<u8>> = vec![]; let mut cur = vec![];
    for _ in 0..1 + t.n(16) { if t.end() { break } cur.extend_from_slice(P[t.n(P.len())]); if t.n(3) == 0 { let k = 1 + t.n(cur.len()); reads.push(cur.drain(..k).collect()) } }
    if !cur.is_empty() { reads.push(cur) }
    let stream: Vec<u8> = reads.concat();
    let end = t.n(4); let drop_at = if t.n(4) == 0 && end != 1 && std::str::from_utf8(&stream).is_ok() { Some(t.n(reads.len() + 1)) } else { None };
    for (i, r) in reads.iter().enumerate() { if Some(i) == drop_at { t.say("Liso's worker goes away".into()) } t.say(format!("read {:?}", String::from_utf8_lossy(r))) }
    t.say(if end == 1 { "read error".into() } else { "end".to_string() });
    let (m, sl) = pty();
    let got: Arc<Mutex<Vec<String>>> = Arc::default();
    let id = || { let mut st: libc::stat = unsafe { std::mem::zeroed() }; if unsafe { libc::fstat(2, &mut st) } != 0 { return None } Some((st.st_dev, st.st_ino, st.st_rdev)) };
    let (mut id0, mut id2) = (None, None);
    let rest = with_fds(&[(sl, 2)], || {
        sys::this_thread_is_not_fed();
        id0 = id();
        let rx: Arc<Mutex<Option<Box<dyn FnMut() -> Vec<String> + Send>>>> = Arc::new(Mutex::new(None));
        {
            let mut f = sys::FEED.lock().unwrap(); f.clear();
            // (nothing is read before everything is prepared)
            let ready = rx.clone();
            f.push(Feed::Call(Box::new(move || while ready.lock().unwrap().is_none() { std::thread::yield_now() })));
            for (i, r) in reads.iter().cloned().enumerate() {
                if Some(i) == drop_at { let (rx, got) = (rx.clone(), got.clone()); f.push(Feed::Call(Box::new(move || { let mut g = rx.lock().unwrap(); if let Some(mut x) = g.take() { got.lock().unwrap().extend(x()) } *g = Some(Box::new(Vec::new)) }))) }
                f.push(Feed::Bytes(r));
            }
            if end == 1 { f.push(Feed::Fail(libc::EIO)) }
        }
        sys::EOFS.store(0, Ordering::SeqCst);
        sys::FEED_ON.store(true, Ordering::SeqCst);
        let r = liso::verif::stderr_capture::capture();
        let id1 = id();
        *rx.lock().unwrap() = Some(r);
        // (the thread ends by itself)
        let t0 = Instant::now();
        while sys::EOFS.load(Ordering::SeqCst) == 0 && t0.elapsed() < Duration::from_secs(10) { std::thread::yield_now() }
        // (once in a while it has time to put standard error back by itself)
        if drop_at.is_some() && t.n(4) == 0 { let t0 = Instant::now(); while id() == id1 && t0.elapsed() < Duration::from_millis(200) { std::thread::yield_now() } }
        liso::verif::stderr_capture::finish();
        id2 = id();
        if let Some(mut x) = rx.lock().unwrap().take() { got.lock().unwrap().extend(x()) }
        sys::FEED_ON.store(false, Ordering::SeqCst);
        let mut b = vec![0u8; 65536]; let mut n = 0;
        loop { let mut p = libc::pollfd { fd: m, events: libc::POLLIN, revents: 0 }; if unsafe { libc::poll(&mut p, 1, 0) } <= 0 || p.revents & libc::POLLIN == 0 { break } let k = unsafe { libc::read(m, b[n..].as_mut_ptr() as _, b.len() - n) }; if k <= 0 { break } n += k as usize; }
        b.truncate(n); b
    });
    unsafe { libc::close(m); libc::close(sl); }
    let got = got.lock().unwrap().clone();
    if !sys::FEED.lock().unwrap_or_else(|e| e.into_inner()).is_empty() { sys::FEED.lock().unwrap_or_else(|e| e.into_inner()).clear(); return Err(format!("capturing stopped early, after {:?}", got)) }
    if id0.is_none() || id0 != id2 { return Err(format!("afterwards standard error is {}", if id2.is_none() { "closed" } else { "not what it was" })) }
    if stream.contains(&b'\n') { t.log.insert(0, "*".into()) }
    if drop_at.is_some() {
        let mut all = String::new(); for l in &got { all.push_str(l); all.push('\n') }
        let mut all = all.into_bytes();
        if rest.is_empty() && !stream.ends_with(b"\n") && !got.is_empty() { all.pop(); }
        all.extend_from_slice(&rest);
        if all != stream { return Err(format!("captured {:?} and passed on {:?} of {:?}", got, String::from_utf8_lossy(&rest), String::from_utf8_lossy(&stream))) }
        return Ok(())
    }
    let mut want: Vec<String> = stream.split(|b| *b == b'\n').map(|x| String::from_utf8_lossy(x).to_string()).collect();
    if want.last().map(|x| x.is_empty()).unwrap_or(false) { want.pop(); }
    let mut g = got.clone();
    if end == 1 { if g.last().map(|x| x.contains("read() returned error")).unwrap_or(false) { g.pop(); } else { return Err("no message about the read error".into()) } }
    if g != want { return Err(format!("captured {:?}, expected {:?}", g, want)) }
    if !rest.is_empty() { return Err(format!("{:?} went to stderr itself", String::from_utf8_lossy(&rest))) }
    Ok(())
}
