use crate::sys::{self, Act, Kind};
use crate::util::*;
use liso::History;
use std::cell::RefCell;
use std::num::NonZeroUsize;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

pub fn scratch() -> &'static PathBuf {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let p = std::env::temp_dir().join(format!("lv.{}", std::process::id()));
        let _ = std::fs::create_dir_all(&p);
        p
    })
}
pub fn remove_scratch() { let p = std::env::temp_dir().join(format!("lv.{}", std::process::id())); if p.is_dir() { let _ = std::fs::remove_dir_all(p); } }
const LINES: &[&str] = &["a", "b", "", "c d", "é", "漢字", "a ", "\u{feff}x", "x\ry", "\t", "one two three", "\u{85}", "last"];
struct Ref { lines: Vec<String>, limit: Option<usize>, strip: bool, interval: Option<usize>, since: usize }
pub fn c11(t: &mut Tape) -> R {
    let mut h = History::new();
    let mut r = Ref { lines: vec![], limit: Some(100), strip: true, interval: None, since: 0 };
    let seen: Arc<Mutex<Vec<Vec<String>>>> = Arc::default();
    let fail = Arc::new(Mutex::new(false));
    let (s2, f2) = (seen.clone(), fail.clone());
    h.set_autosave_handler(Some(Box::new(move |h: &History| {
        s2.lock().unwrap().push(h.get_lines().to_vec());
        if *f2.lock().unwrap() { Err(std::io::Error::new(std::io::ErrorKind::Other, "planned")) } else { Ok(()) }
    })));
    let mut adds = 0;
    for _ in 0..1 + t.n(40) {
        if t.end() { break }
        match t.n(12) {
            0 => { let l = [None, Some(1), Some(2), Some(3), Some(5)][t.n(5)]; t.say(format!("set_limit({:?})", l)); h.set_limit(l.and_then(NonZeroUsize::new)); r.limit = l }
            1 => { let b = t.bool(); t.say(format!("set_strip_duplicates({})", b)); h.set_strip_duplicates(b); r.strip = b }
            2 => { let l = [None, Some(1), Some(2), Some(3)][t.n(4)]; t.say(format!("set_autosave_interval({:?})", l)); h.set_autosave_interval(l.and_then(NonZeroUsize::new)); if l.is_none() { r.since = 0 } r.interval = l }
            3 => { let b = t.bool(); *fail.lock().unwrap() = b; t.say(format!("autosave {}", if b { "fails" } else { "works" })) }
            _ => {
                let l = LINES[t.n(LINES.len())].to_string();
                t.say(format!("add_line({:?})", l)); adds += 1;
                if r.strip { r.lines.retain(|x| *x != l) }
                r.lines.push(l.clone());
                if let Some(n) = r.limit { while r.lines.len() > n { r.lines.remove(0); } }
                let mut want = vec![];
                if let Some(n) = r.interval { r.since += 1; if r.since >= n { r.since = 0; want.push(r.lines.clone()) } }
                let res = h.add_line(l);
                let got = std::mem::take(&mut *seen.lock().unwrap());
                if got != want { return Err(format!("autosaved {:?}, expected {:?}", got, want)) }
                let bad = !want.is_empty() && *fail.lock().unwrap();
                match res { Ok(()) if bad => return Err("the autosave error was not returned".into()), Err(e) if !bad || e.to_string() != "planned" => return Err(format!("unexpected error {}", e)), _ => () }
            }
        }
        if h.get_lines() != &r.lines[..] { return Err(format!("the history is {:?}, expected {:?}", h.get_lines(), r.lines)) }
    }
    if adds > 1 { t.log.insert(0, "*".into()) }
    Ok(())
}
fn some_line(t: &mut Tape, first: bool) -> String {
    let mut s = LINES[t.n(LINES.len())].to_string();
    if t.n(8) == 0 { let k = 1000 + 31 * t.byte() as usize; s.push_str(&"0123456789é".repeat(k / 12)) }
    while s.ends_with('\r') { s.pop(); }
    if first && s.starts_with('\u{feff}') { s.remove(0); }
    s
}
fn short(v: &[String]) -> String { format!("{:?}", v.iter().map(|x| if x.len() > 40 { format!("{}...({} bytes)", &x[..20], x.len()) } else { x.clone() }).collect::<Vec<_>>()) }
fn history(t: &mut Tape, max: usize) -> Vec<String> { let n = t.n(max + 1); (0..n).map(|i| some_line(t, i == 0)).collect() }
fn make(v: &[String]) -> History { let mut h = History::new(); h.set_limit(None); h.set_strip_duplicates(false); for x in v { h.add_line(x.clone()).unwrap() } h }
pub fn c12(t: &mut Tape) -> R {
    let p = scratch().join("h");
    let v = history(t, 10);
    let h = make(&v);
    t.say(format!("write {}", short(&v)));
    let mut o = make(&["old".to_string()]);
    match t.n(4) {
        0 | 1 => {
            // in pieces, too
            let k = [0usize, 1, 7, 4000][t.n(4)];
            let res = sys::with(Box::new(move |x| if x == Kind::Write && k > 0 { Act::Short(k) } else { Act::Go }), || h.write_history_to(&p));
            if let Err(e) = res { return Err(format!("writing failed: {}", e)) }
            match o.read_history_from(&p) { Ok(n) if n == v.len() => (), x => return Err(format!("reading back returned {:?}", x)) }
            if o.get_lines() != &v[..] { return Err(format!("read back {}, wrote {}", short(o.get_lines()), short(&v))) }
        }
        2 => {
            // a write that fails must be reported
            let k = t.n(4); let e = [libc::ENOSPC, libc::EIO, libc::EDQUOT][t.n(3)];
            let failed = Rc::new(RefCell::new(false)); let f2 = failed.clone(); let mut i = 0;
            t.say(format!("write {} fails", k));
            let res = sys::with(Box::new(move |x| if x == Kind::Write { i += 1; if i == k + 1 { *f2.borrow_mut() = true; Act::Fail(e) } else { Act::Go } } else { Act::Go }), || h.write_history_to(&p));
            if *failed.borrow() && res.is_ok() { return Err("a write failed and writing the history returned Ok".into()) }
            if !*failed.borrow() && res.is_err() { return Err("writing failed for no reason".into()) }
        }
        _ => {
            // a read that fails must change nothing
            match t.n(3) {
                0 => { let _ = std::fs::remove_file(&p); t.say("read a missing file".into()); if o.read_history_from(&p).is_ok() { return Err("reading a missing file succeeded".into()) } }
                1 => {
                    let mut b: Vec<u8> = vec![]; for l in &v { b.extend_from_slice(l.as_bytes()); b.push(b'\n') }
                    b.extend_from_slice(b"x\xffy\nz\n"); std::fs::write(&p, b).unwrap();
                    t.say("followed by an invalid line".into());
                    if o.read_history_from(&p).is_ok() { return Err("reading an invalid file succeeded".into()) }
                }
                _ => {
                    h.write_history_to(&p).unwrap(); let k = t.n(3);
                    let failed = Rc::new(RefCell::new(false)); let f2 = failed.clone(); let mut i = 0;
                    t.say(format!("read {} fails", k));
                    let res = sys::with(Box::new(move |x| if x == Kind::Read { i += 1; if i == k + 1 { *f2.borrow_mut() = true; Act::Fail(libc::EIO) } else { Act::Go } } else { Act::Go }), || o.read_history_from(&p));
                    if *failed.borrow() && res.is_ok() { return Err("a read failed and reading the history returned Ok".into()) }
                    if res.is_ok() { o = make(&["old".to_string()]) }
                }
            }
            if o.get_lines() != ["old".to_string()] { return Err(format!("a failed read changed the history to {}", short(o.get_lines()))) }
        }
    }
    if !v.is_empty() { t.log.insert(0, "*".into()) }
    Ok(())
}
fn put(p: &PathBuf, v: &[String]) { let mut s = String::new(); for l in v { s.push_str(l); s.push('\n') } std::fs::write(p, s).unwrap() }
pub fn c13(t: &mut Tape) -> R {
    let d = scratch();
    for f in ["h", "h^", "h~"] { let _ = std::fs::remove_file(d.join(f)); }
    let p = d.join("h");
    // what an earlier run may have left behind
    let mut old = history(t, 4);
    let left = t.n(6);
    match left {
        0 => { old = vec![]; t.say("no file".into()) }
        1 | 2 => { put(&p, &old); t.say(format!("file {}", short(&old))) }
        3 => { put(&d.join("h~"), &old); t.say(format!("only the backup {}", short(&old))) }
        4 => { put(&p, &old); std::fs::write(d.join("h^"), "partial").unwrap(); t.say(format!("file {} and a partial new one", short(&old))) }
        _ => { put(&p, &[]); put(&d.join("h~"), &old); t.say(format!("an empty file, backup {}", short(&old))) }
    }
    let mut h = match History::from_file(&p) { Ok(h) => h, Err(e) => return Err(format!("loading failed: {}", e)) };
    if h.get_lines() != &old[..] { return Err(format!("loaded {}, expected {}", short(h.get_lines()), short(&old))) }
    h.set_autosave_interval(NonZeroUsize::new(1)); h.set_strip_duplicates(false);
    let mut real = false;
    for _ in 0..1 + t.n(3) {
        let l = { let e = h.get_lines().is_empty(); some_line(t, e) };
        let mut new = h.get_lines().to_vec(); new.push(l.clone());
        let k = t.n(9); let mode = t.n(5); let e = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EXDEV][t.n(4)];
        // mode 0: nothing happens; 1: one operation fails; 2: all fail from then on; 3, 4: stopped there (4: in the middle of a write)
        t.say(format!("add {} {}", short(&[l.clone()]), match mode { 0 => String::new(), 1 => format!("operation {} fails", k), 2 => format!("all from operation {} on fail", k), _ => format!("stopped at operation {}", k) }));
        let hit = Rc::new(RefCell::new(false)); let h2 = hit.clone(); let mut i = 0;
        let d: Box<dyn FnMut(Kind) -> Act> = Box::new(move |x| {
            if mode == 0 || x == Kind::Read { return Act::Go }
            i += 1;
            if mode == 4 && i == k + 1 && x == Kind::Write { *h2.borrow_mut() = true; return Act::Short(3) }
            let go = match mode { 1 => i != k + 1, _ => i < k + 1 };
            if go { Act::Go } else { *h2.borrow_mut() = true; Act::Fail(e) }
        });
        let res = sys::with(d, || h.add_line(l));
        real |= *hit.borrow();
        let stopped = mode >= 3 && *hit.borrow();
        let got = match History::from_file(&p) { Ok(g) => g.get_lines().to_vec(), Err(e) => return Err(format!("loading afterwards failed: {}", e)) };
        // (loading applies no limit; both have none removed here)
        if got != new && got != old { return Err(format!("loading afterwards gives {}, neither the old {} nor the new {}", short(&got), short(&old), short(&new))) }
        if res.is_ok() && !stopped && got != new { return Err(format!("the autosave succeeded, but loading gives {}", short(&got))) }
        if !*hit.borrow() { if let Err(e) = res { return Err(format!("the autosave failed for no reason: {}", e)) } }
        old = got;
        if stopped { h = match History::from_file(&p) { Ok(h) => h, Err(e) => return Err(format!("{}", e)) }; h.set_autosave_interval(NonZeroUsize::new(1)); h.set_strip_duplicates(false); }
    }
    if real { t.log.insert(0, "*".into()) }
    Ok(())
}
