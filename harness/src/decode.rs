use crate::util::*;
use crossterm::event::{Event, KeyCode};
use liso::verif::term::{cross, vt52, Tok};

/// K: a key event; T: a character that is text; C: a control character on the raw path
#[derive(Debug, Clone, PartialEq)]
enum Out { Key(KeyCode), Ch(char), RawControl(char), EventControl(char), Odd(String) }
fn outs(v: Vec<Tok>) -> Vec<Out> {
    let mut r = vec![];
    for t in v {
        match t {
            Tok::Raw(s) => for c in s.chars() { r.push(if c.is_control() { Out::RawControl(c) } else { Out::Ch(c) }) },
            Tok::Event(Event::Key(k)) => match k.code {
                _ if !k.modifiers.is_empty() => r.push(Out::Odd(format!("{:?}", k))),
                KeyCode::Char(c) => r.push(if c.is_control() { Out::EventControl(c) } else { Out::Ch(c) }),
                c => r.push(Out::Key(c)),
            },
            x => r.push(Out::Odd(format!("{:?}", x))),
        }
    }
    r
}
fn collapse(v: Vec<Out>) -> Vec<Out> {
    let mut r: Vec<Out> = vec![];
    for x in v { if x == Out::Ch('\u{fffd}') && r.last() == Some(&x) { continue } r.push(x) }
    r
}
/// the length of the well-formed UTF-8 character b starts with; Err(true): more bytes could make one
fn utf8(b: &[u8]) -> Result<char, bool> {
    for n in 1..=b.len().min(4) { if let Ok(s) = std::str::from_utf8(&b[..n]) { return Ok(s.chars().next().unwrap()) } }
    let need = match b[0] { 0xC0..=0xDF => 2, 0xE0..=0xEF => 3, 0xF0..=0xFF => 4, _ => return Err(false) };
    Err(b.len() < need && b[1..].iter().all(|x| *x >= 0x80 && *x < 0xC0))
}
/// Decodes what it can, leaving what may need more input. `esc`: a final ESC is not going to be followed up in time.
fn oracle(buf: &mut Vec<u8>, esc: bool, vt: bool, out: &mut Vec<Out>) {
    loop {
        if buf.is_empty() { return }
        let n = match buf[0] {
            0x1b => {
                if buf.len() == 1 { if !esc { return } out.push(Out::Key(KeyCode::Esc)); 1 }
                else if buf[1] < 0x20 || buf[1] >= 0x7f { out.push(Out::Key(KeyCode::Esc)); 1 }
                else if vt { if buf[1] == b'/' { if buf.len() < 3 { return } 3 } else { 2 } }
                else if buf[1] == b'[' {
                    let Some(p) = buf[2..].iter().position(|x| !(0x20..0x40).contains(x)) else { return };
                    let key = match &buf[2..p + 3] { b"A" => Some(KeyCode::Up), b"B" => Some(KeyCode::Down), b"C" => Some(KeyCode::Right), b"D" => Some(KeyCode::Left),
                        b"3~" => Some(KeyCode::Delete), b"H" => Some(KeyCode::Home), b"F" => Some(KeyCode::End), _ => None };
                    if let Some(k) = key { out.push(Out::Key(k)) }
                    p + 3
                } else { 2 }
            }
            x if x < 0x80 => { out.push(if x < 0x20 || x == 0x7f { Out::RawControl(x as char) } else { Out::Ch(x as char) }); 1 }
            _ if vt => 1,
            _ => match utf8(buf) {
                Ok(c) => { out.push(if c.is_control() { Out::EventControl(c) } else { Out::Ch(c) }); c.len_utf8() }
                Err(true) => return,
                Err(false) => { out.push(Out::Ch('\u{fffd}')); 1 }
            },
        };
        buf.drain(..n);
    }
}
const PIECES: &[&[u8]] = &[b"a", b"xyz", b"\x1b", b"[", b"\x1b[", b"A", b"\x1b[A", b"\x1b[3~", b"3~", b"H", "é".as_bytes(), "漢".as_bytes(), "😀".as_bytes(), b"\xc3", b"\xa9", b"\xe6", b"\xe6\xbc",
    b"\xf0\x9f", b"\x80", b"\xff", b"\xfe", b"\xf8\x88\x80\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xe0\x80\x80", b"\x03", b"\r", b"\x7f", b"\x1b/", b"K", b"\x1bA", b"1;5", b"\x1b[F", b"\x1b\x1b", b"\t", b"\xc2\x85", b"\xf5\x80\x80\x80", b"\xef\xbf\xbf", b"\xf0\x80\x80\x80", b"\x1b[1;2C"];
fn run(t: &mut Tape, vt: bool) -> R {
    let slow = t.byte() == 255;
    let mut reads: Vec<(u64, Vec<u8>)> = vec![]; let mut cur = vec![]; let mut pause = 0;
    for _ in 0..1 + t.n(14) {
        if t.end() { break }
        let p = t.n(PIECES.len() + 2);
        if p < PIECES.len() { cur.extend_from_slice(PIECES[p]) } else { cur.push(t.byte()) }
        if !cur.is_empty() && t.n(3) == 0 {
            let k = 1 + t.n(cur.len());
            reads.push((pause, cur.drain(..k).collect()));
            pause = if slow && t.n(3) == 0 { 100 } else { 0 };
        }
    }
    if !cur.is_empty() { reads.push((pause, cur)) }
    let end_pause = if slow { 100 } else { 0 };
    for r in &reads { t.say(format!("{}read {:?}", if r.0 > 0 { "(pause) " } else { "" }, r.1.iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(" "))); }
    let mut want = vec![]; let mut buf = vec![];
    for (i, r) in reads.iter().enumerate() {
        buf.extend_from_slice(&r.1);
        oracle(&mut buf, reads.get(i + 1).map(|x| x.0).unwrap_or(end_pause) > 0, vt, &mut want);
    }
    if t.log.iter().any(|x| x.contains("1b")) || reads.iter().any(|x| x.1.iter().any(|b| *b >= 0x80)) { t.log.insert(0, "*".into()) }
    let got = if vt { vt52::decode(reads, end_pause) } else { cross::decode(reads, end_pause) };
    let (got, want) = (collapse(outs(got)), collapse(want));
    if got != want { return Err(format!("decoded {:?}, expected {:?}", got, want)) }
    Ok(())
}
pub fn c14(t: &mut Tape) -> R { run(t, false) }
pub fn c15(t: &mut Tape) -> R { run(t, true) }
