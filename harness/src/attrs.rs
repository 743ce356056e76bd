use crate::line::*;
use crate::util::*;
use liso::verif::term::{cross, vt52, Backend, Op};
use liso::{Color, Style};
use std::sync::atomic::{AtomicI32, Ordering};

static OUT: AtomicI32 = AtomicI32::new(1);
/// keeps the real standard output, as checks redirect descriptor 1
pub fn save_stdout() { unsafe { let f = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 100); if f >= 0 { OUT.store(f, Ordering::SeqCst) } } }
pub fn say(s: &str) { let s = format!("{}\n", s); let mut b = s.as_bytes(); while !b.is_empty() { let n = unsafe { libc::write(OUT.load(Ordering::SeqCst), b.as_ptr() as _, b.len()) }; if n <= 0 { break } b = &b[n as usize..] } }
/// a pseudo-terminal: (master, slave)
pub fn pty() -> (i32, i32) {
    unsafe {
        let (mut m, mut s) = (0, 0);
        let ws = libc::winsize { ws_row: 30, ws_col: 40, ws_xpixel: 0, ws_ypixel: 0 };
        assert!(libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws) == 0, "openpty");
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(s, &mut t); libc::cfmakeraw(&mut t); libc::tcsetattr(s, libc::TCSANOW, &t);
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC); libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
        (m, s)
    }
}
struct Fds { old: Vec<(i32, i32)>, close: Vec<i32> }
/// descriptors put in place of others until dropped
impl Fds {
    fn new() -> Fds { Fds { old: vec![], close: vec![] } }
    fn put(&mut self, fd: i32, to: i32) { unsafe { self.old.push((to, libc::fcntl(to, libc::F_DUPFD_CLOEXEC, 100))); libc::dup2(fd, to); } }
}
impl Drop for Fds {
    fn drop(&mut self) { unsafe { for (to, old) in self.old.drain(..).rev() { if old >= 0 { libc::dup2(old, to); libc::close(old); } else { libc::close(to); } } for f in self.close.drain(..) { libc::close(f); } } }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum In { Cross(Style, Option<u8>, Option<u8>), Vt(u8, u8), Unknown }
fn ansi(c: Color) -> u8 { match c { Color::Black => 0, Color::Red => 1, Color::Green => 2, Color::Yellow => 3, Color::Blue => 4, Color::Magenta => 5, Color::Cyan => 6, Color::White => 7 } }
/// what the bytes make the attributes in force
fn interpret(b: &[u8], st: In, vt: bool) -> Result<In, String> {
    let mut i = 0; let mut st = st;
    while i < b.len() {
        if b[i] != 0x1b { i += 1; continue }
        if vt {
            let (f, g) = match st { In::Vt(f, g) => (f, g), _ => (255, 255) };
            match b.get(i + 1) {
                Some(b'b') => { st = In::Vt(b[i + 2] & 15, g); i += 3 }
                Some(b'c') => { st = In::Vt(f, b[i + 2] & 15); i += 3 }
                Some(b'Y') => i += 4,
                _ => i += 2,
            }
            continue
        }
        if b.get(i + 1) != Some(&b'[') { i += 1; continue }
        let s = i + 2; let mut e = s;
        while e < b.len() && !(0x40..0x7f).contains(&b[e]) { e += 1 }
        if e >= b.len() { return Err("unfinished sequence".into()) }
        if b[e] == b'm' {
            let p = std::str::from_utf8(&b[s..e]).unwrap();
            let c: Vec<u32> = p.split(';').map(|x| x.parse().unwrap_or(0)).collect();
            let (mut sty, mut fg, mut bg) = match st { In::Cross(a, b, c) => (a, b, c), _ => (Style::all(), Some(99), Some(99)) };
            let mut k = 0;
            while k < c.len() {
                match c[k] {
                    0 => { sty = Style::PLAIN; fg = None; bg = None }
                    1 => sty |= Style::BOLD, 2 => sty |= Style::DIM, 3 => sty |= Style::ITALIC, 4 => sty |= Style::UNDERLINE, 7 => sty |= Style::INVERSE,
                    22 => sty -= Style::BOLD | Style::DIM, 23 => sty -= Style::ITALIC, 24 => sty -= Style::UNDERLINE, 27 => sty -= Style::INVERSE,
                    x @ 30..=37 => fg = Some((x - 30) as u8), 39 => fg = None, x @ 40..=47 => bg = Some((x - 40) as u8), 49 => bg = None,
                    x @ (38 | 48) => { let v = if c.get(k + 1) == Some(&5) { c.get(k + 2).copied().unwrap_or(98) as u8 } else { 97 }; k += 2; if x == 38 { fg = Some(v) } else { bg = Some(v) } }
                    x => return Err(format!("unexpected SGR {}", x)),
                }
                k += 1;
            }
            st = In::Cross(sty, fg, bg);
        }
        i = e + 1;
    }
    Ok(st)
}
fn palette(n: u8, wb: bool, s: Style, f: Option<Color>, b: Option<Color>) -> In {
    let bright = |c: Color| match c { Color::Black => 8, Color::Red => 1, Color::Green => 2, Color::Yellow => 13, Color::Blue => 4, Color::Cyan => 9, Color::Magenta => 12, Color::White => 0 };
    let dim = |c: Color| match c { Color::Black => 15, Color::Red => 3, Color::Green => 5, Color::Yellow => 11, Color::Blue => 6, Color::Cyan => 10, Color::Magenta => 14, Color::White => 7 };
    let four = |c: Color| match c { Color::Black => 15, Color::Red | Color::Magenta => 1, Color::Green | Color::Yellow | Color::Cyan => 2, Color::Blue => 3, Color::White => 0 };
    let (df, db) = if wb { (0, 15) } else { (15, 0) };
    let (f, b) = match n { 2 => (df, db), 4 => (f.map(four).unwrap_or(df), b.map(four).unwrap_or(db)),
        _ => if wb { (f.map(bright).unwrap_or(df), b.map(dim).unwrap_or(db)) } else { (f.map(dim).unwrap_or(df), b.map(bright).unwrap_or(db)) } };
    if s.contains(Style::INVERSE) { In::Vt(b, f) } else { In::Vt(f, b) }
}
pub fn c19(t: &mut Tape) -> R {
    let mut fds = Fds::new();
    let (m, sl) = pty(); fds.close.push(m); fds.close.push(sl);
    fds.put(sl, 0);
    let mem = unsafe { libc::memfd_create(b"out\0".as_ptr() as _, libc::MFD_CLOEXEC) };
    fds.close.push(mem); fds.put(mem, 1);
    let kind = t.n(7);
    let vt = kind > 0;
    let (colors, wb) = [(16, false), (16, true), (4, false), (4, true), (2, false), (2, true)][kind.max(1) - 1];
    t.say(if vt { format!("VT52, {} colors{}", colors, if wb { ", white on black" } else { "" }) } else { "crossterm".into() });
    let be = if vt { vt52::backend(colors, wb) } else { cross::backend() };
    quiet_panics();
    let Some(be) = be else { return Err("no backend".into()) };
    struct Clean(Backend);
    impl Drop for Clean { fn drop(&mut self) { self.0.op(&Op::Cleanup); quiet_panics() } }
    let mut be = Clean(be);
    let mut pos = 0i64; let mut state = In::Unknown; let mut sets = 0;
    let default = if vt { palette(colors, wb, Style::PLAIN, None, None) } else { In::Cross(Style::PLAIN, None, None) };
    let mut want = default;
    for step in 0..2 + t.n(14) {
        if t.end() { break }
        let mut check = false;
        let op = if step == 0 { Op::Flush } else { match t.n(14) {
            0 => { want = default; check = true; Op::ResetAttrs }
            1 => { want = default; check = true; Op::ClearForward }
            2 => { want = default; check = true; Op::ClearAll }
            3 => Op::ClearEol,
            4 => Op::Print("x y".into()),
            5 if t.n(3) == 0 => { t.say("suspend".into()); be.0.op(&Op::Suspend); want = default; check = true; Op::Unsuspend }
            _ => {
                let s = match t.n(4) { 0 => Style::PLAIN, 1 => Style::from_bits_truncate(1 << t.n(5)), _ => Style::from_bits_truncate(t.byte() as u32) };
                let f = if t.bool() { Some(COLORS[t.n(8)]) } else { None }; let b = if t.bool() { Some(COLORS[t.n(8)]) } else { None };
                want = if vt { palette(colors, wb, s, f, b) } else { In::Cross(s, f.map(ansi), b.map(ansi)) };
                check = true; sets += 1;
                Op::SetAttrs(s, f, b)
            }
        } };
        t.say(format!("{:?}", op));
        if !be.0.op(&op) { return Err("the backend failed".into()) }
        quiet_panics();
        be.0.op(&Op::Flush);
        let end = unsafe { libc::lseek(mem, 0, libc::SEEK_END) };
        let mut b = vec![0u8; (end - pos) as usize];
        let n = unsafe { libc::pread(mem, b.as_mut_ptr() as _, b.len(), pos) };
        if n < 0 || n as usize != b.len() { return Err("harness: cannot read the output".into()) }
        pos = end;
        state = interpret(&b, state, vt)?;
        if state != want && (check || step > 0) { return Err(format!("in force: {:?}, expected {:?}", state, want)) }
    }
    if sets > 1 { t.log.insert(0, "*".into()) }
    Ok(())
}
pub fn with_fds<T>(map: &[(i32, i32)], f: impl FnOnce() -> T) -> T { let mut g = Fds::new(); for (a, b) in map { g.put(*a, *b) } f() }
