use crate::util::*;
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers};
use liso::verif::term::{Op, TermApi};
use liso::verif::worker::{new_editor, Editor};
use liso::{Completion, Completor, History, Line, Output, Style};
use std::num::NonZeroU32;
use std::sync::{Arc, Mutex};
use unicode_width::UnicodeWidthChar;

#[derive(Default)]
struct Null { bells: Arc<Mutex<u32>> }
impl TermApi for Null {
    fn op(&mut self, op: Op) { if op == Op::Bell { *self.bells.lock().unwrap() += 1 } }
    fn width(&mut self) -> u32 { 80 }
    fn style(&self) -> Style { Style::PLAIN }
}
struct Comp { next: Arc<Mutex<(Option<Completion>, Vec<(String, usize, u32)>)>> }
impl Completor for Comp {
    fn complete(&mut self, _o: &Output, input: &str, cursor: usize, n: NonZeroU32) -> Option<Completion> {
        let mut l = self.next.lock().unwrap();
        l.1.push((input.to_string(), cursor, n.get()));
        l.0.take()
    }
}
#[derive(Clone)]
struct Ref {
    ch: Vec<char>, cur: usize, clip: Vec<char>, allowed: bool, prompt: Option<String>,
    hi: Option<usize>, orphan: Option<Vec<char>>, orig: Option<String>,
    presses: u32, comp: bool, out: Vec<String>, bells: u32, hist: Vec<String>,
}
fn vis(c: char) -> bool { UnicodeWidthChar::width(c).unwrap_or(0) > 0 }
fn chars(s: &str) -> Vec<char> { s.chars().collect() }
impl Ref {
    fn s(&self) -> String { self.ch.iter().collect() }
    fn pos(&self) -> usize { self.ch[..self.cur].iter().map(|c| c.len_utf8()).sum() }
    fn stop(&self, i: usize) -> bool { i == 0 || i >= self.ch.len() || vis(self.ch[i]) }
    fn prev(&self) -> usize { let mut i = self.cur - 1; while !self.stop(i) { i -= 1 } i }
    fn next(&self, from: usize) -> usize { let mut i = from + 1; while !self.stop(i) { i += 1 } i }
    fn empty(&mut self) { self.ch.clear(); self.cur = 0; self.hi = None; self.orphan = None; self.orig = None }
    fn set(&mut self, s: Vec<char>) { self.cur = s.len(); self.ch = s }
    fn hprev(&mut self) {
        let p = match self.hi { None => self.hist.len().checked_sub(1), Some(x) => x.min(self.hist.len()).checked_sub(1) };
        match p {
            None => self.bells += 1,
            Some(i) => { if self.orphan.is_none() { self.orphan = Some(self.ch.clone()) } let h = chars(&self.hist[i]); self.set(h); self.hi = Some(i) }
        }
        self.orig = self.hi.and_then(|i| self.hist.get(i).cloned());
    }
    fn hnext(&mut self) {
        match self.hi {
            None => self.bells += 1,
            Some(i) if i + 1 >= self.hist.len() => { let o = self.orphan.take().unwrap_or_default(); self.set(o); self.hi = None }
            Some(i) => { let h = chars(&self.hist[i + 1]); self.set(h); self.hi = Some(i + 1) }
        }
        self.orig = self.hi.and_then(|i| self.hist.get(i).cloned());
    }
    fn act(&mut self, a: &str) {
        match a {
            "home" => self.cur = 0,
            "end" => self.cur = self.ch.len(),
            "left" => if self.cur > 0 { self.cur = self.prev() },
            "right" => if self.cur < self.ch.len() { self.cur = self.next(self.cur) },
            "Quit" | "Info" | "Swap" | "Escape" | "Break" => self.out.push(a.to_string()),
            "finish" => if self.ch.is_empty() { self.out.push("Finish".into()) } else { self.empty() },
            "discard" => { let s = self.s(); self.out.push(format!("Discarded({:?})", s)); self.empty() }
            "kill" => if self.cur < self.ch.len() { self.clip = self.ch.split_off(self.cur) },
            "killback" => if self.cur > 0 { let r = self.ch.split_off(self.cur); self.clip = std::mem::replace(&mut self.ch, r); self.cur = 0 },
            "clear" => (),
            "hprev" => self.hprev(),
            "hnext" => self.hnext(),
            "yank" => { let c = self.clip.clone(); for (i, x) in c.iter().enumerate() { self.ch.insert(self.cur + i, *x) } self.cur += c.len() }
            "back" => if self.cur > 0 { let p = self.prev(); self.ch.drain(p..self.cur); self.cur = p },
            "fore" => if self.cur < self.ch.len() { let n = self.next(self.cur); self.ch.drain(self.cur..n); },
            "word" => if self.cur > 0 {
                let mut q = self.cur - 1;
                while q > 0 && !(vis(self.ch[q]) && !self.ch[q].is_whitespace()) { q -= 1 }
                if q > 0 {
                    while q > 0 && !(vis(self.ch[q]) && self.ch[q].is_whitespace()) { q -= 1 }
                    if self.ch[q].is_whitespace() { q = self.next(q) }
                }
                self.ch.drain(q..self.cur); self.cur = q;
            },
            "return" => {
                let s = self.s();
                self.hist.retain(|x| *x != s); self.hist.push(s.clone());
                while self.hist.len() > 100 { self.hist.remove(0); }
                self.out.push(format!("Input({:?})", s)); self.empty()
            }
            x => panic!("{}", x),
        }
    }
    fn ins(&mut self, c: char) { self.ch.insert(self.cur, c); self.cur += 1 }
}
fn action(c: char) -> Option<&'static str> {
    Some(match c {
        '\x01' => "home", '\x02' => "left", '\x03' => "Quit", '\x04' => "finish", '\x05' => "end", '\x06' => "right", '\x07' => "discard",
        '\x08' | '\x7f' => "back", '\n' | '\r' => "return", '\x0b' => "kill", '\x0c' => "clear", '\x0e' => "hnext", '\x10' => "hprev",
        '\x14' => "Info", '\x15' => "killback", '\x17' => "word", '\x18' => "Swap", '\x19' => "yank", '\x1b' => "Escape", '\x1c' => "Break",
        _ => return None,
    })
}
const TEXT: &[&str] = &["a", " ", "b", "é", "\u{301}", "漢", "e\u{301}", "😀", "  ", "x y", "\u{200b}", "\u{a0}", "word", "\u{2003}", "/", "\u{00ad}"];
const HIST: &[&str] = &["one", "", "zwei é", "\u{301}x", "漢字", "a b c", "one", "\t", "last"];
struct Env { ed: Editor, r: Ref, bells: Arc<Mutex<u32>>, comp: Arc<Mutex<(Option<Completion>, Vec<(String, usize, u32)>)>>, pend: Vec<(String, usize, u32)>, some: bool }
fn env() -> Env {
    let bells = Arc::new(Mutex::new(0));
    let ed = new_editor(Box::new(Null { bells: bells.clone() }));
    Env { ed, bells, comp: Arc::new(Mutex::new((None, vec![]))), pend: vec![], some: false,
        r: Ref { ch: vec![], cur: 0, clip: vec![], allowed: true, prompt: None, hi: None, orphan: None, orig: None, presses: 0, comp: false, out: vec![], bells: 0, hist: vec![] } }
}
impl Env {
    fn key(&mut self, c: char) {
        if c == '\t' { self.tab(); return }
        self.r.presses = 0;
        if let Some(a) = action(c) { self.r.act(a) }
        else if (c as u32) < 0x20 || (0x80..0xa0).contains(&(c as u32)) { self.r.out.push(format!("Unknown({})", c as u32)) }
        else { self.r.ins(c) }
    }
    fn tab(&mut self) {
        self.r.presses = self.r.presses.saturating_add(1);
        if self.r.comp {
            self.pend.push((self.r.s(), self.r.pos(), self.r.presses));
            match dup(&self.comp.lock().unwrap().0) {
                None => (),
                Some(Completion::InsertAtCursor { text }) => { for c in text.chars() { self.r.ins(c) } }
                Some(Completion::ReplaceWholeLine { new_line, new_cursor }) => {
                    self.r.cur = new_line[..new_cursor].chars().count(); self.r.ch = chars(&new_line);
                }
            }
        }
    }
    fn check(&mut self, inv_only: bool) -> R {
        let v = self.ed.view();
        if !v.input.is_char_boundary(v.cursor) { return Err(format!("the cursor {} is not on a character boundary of {:?}", v.cursor, v.input)) }
        self.some |= !v.input.is_empty();
        if inv_only { self.ed.responses(); self.r.out.clear(); return Ok(()) }
        if v.input != self.r.s() || v.cursor != self.r.pos() { return Err(format!("the input is {:?} with cursor {}, expected {:?} with cursor {}", v.input, v.cursor, self.r.s(), self.r.pos())) }
        let clip: String = self.r.clip.iter().collect();
        if v.clipboard != clip { return Err(format!("the clipboard is {:?}, expected {:?}", v.clipboard, clip)) }
        if v.input_allowed != self.r.allowed { return Err(format!("input_allowed is {}, expected {}", v.input_allowed, self.r.allowed)) }
        if v.prompt.as_ref().map(|x| x.as_str().to_string()) != self.r.prompt { return Err(format!("the prompt is {:?}, expected {:?}", v.prompt, self.r.prompt)) }
        let out: Vec<String> = self.ed.responses().iter().map(|x| format!("{:?}", x)).collect();
        if out != self.r.out { return Err(format!("responses {:?}, expected {:?}", out, self.r.out)) }
        self.r.out.clear();
        if self.ed.history_lines() != self.r.hist { return Err(format!("the history is {:?}, expected {:?}", self.ed.history_lines(), self.r.hist)) }
        if *self.bells.lock().unwrap() != self.r.bells { return Err("wrong number of bells".into()) }
        let seen = std::mem::take(&mut self.comp.lock().unwrap().1);
        if seen != self.pend { return Err(format!("the completor was called with {:?}, expected {:?}", seen, self.pend)) }
        self.pend.clear();
        Ok(())
    }
}
const W_EDIT: &[u8] = &[0, 0, 0, 1, 1, 1, 1, 1, 1, 2];
const W_SUBMIT: &[u8] = &[0, 0, 1, 3, 3, 4, 4, 4, 6];
const W_KEYS: &[u8] = &[0, 5, 5, 5, 6, 6, 6, 2, 2, 10];
const W_HIST: &[u8] = &[0, 1, 7, 7, 7, 7, 8, 8, 9, 3];
const W_ALL: &[u8] = &[0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
fn run(t: &mut Tape, w: &[u8], inv_only: bool) -> R {
    let mut e = env();
    let n = 3 + t.n(28);
    let mut hist0 = vec![];
    if t.bool() {
        for _ in 0..t.n(5) { let s = HIST[t.n(HIST.len())].to_string(); hist0.push(s) }
        for s in &hist0 { e.ed.add_history(s); e.r.hist.retain(|x| x != s); e.r.hist.push(s.clone()) }
        t.say(format!("history {:?}", e.r.hist));
    }
    for _ in 0..n {
        if t.end() { break }
        let r = step(t, &mut e, w);
        let ok = r?;
        if !ok { return Err("the editor gave up".into()) }
        e.check(inv_only)?;
    }
    if e.some { t.log.insert(0, "*".into()) }
    Ok(())
}
fn step(t: &mut Tape, e: &mut Env, w: &[u8]) -> Result<bool, String> {
    let al = e.r.allowed;
    Ok(match w[t.n(w.len())] {
        0 => {
            let s = t.text(TEXT, 4); t.say(format!("type {:?}", s));
            if al { for c in s.chars() { e.key(c) } }
            e.ed.raw(&s)
        }
        1 => {
            let k = [('\x01'), '\x02', '\x05', '\x06', '\x08', '\x0b', '\x15', '\x17', '\x19', '\x02', '\x06', '\x02'][t.n(12)];
            t.say(format!("key {:?}", k));
            if al { e.key(k) }
            e.ed.raw(&k.to_string())
        }
        2 => {
            let (c, a) = [(KeyCode::Left, "left"), (KeyCode::Right, "right"), (KeyCode::Home, "home"), (KeyCode::End, "end"), (KeyCode::Delete, "fore"), (KeyCode::Backspace, "back"),
                (KeyCode::Up, "hprev"), (KeyCode::Down, "hnext"), (KeyCode::Enter, "return"), (KeyCode::Esc, "Escape")][t.n(10)];
            t.say(format!("event {:?}", c));
            if al { e.r.presses = 0; e.r.act(a) }
            e.ed.event(Event::Key(KeyEvent::new(c, KeyModifiers::empty())))
        }
        3 => { let k = ['\n', '\r', '\x07', '\x04'][t.n(4)]; t.say(format!("key {:?}", k)); if al { e.key(k) } e.ed.raw(&k.to_string()) }
        4 => {
            let p = [None, Some("> "), Some("$")][t.n(3)]; let allow = t.n(4) != 0; let clear = t.bool();
            t.say(format!("prompt {:?} {} {}", p, allow, clear));
            let np = p.map(|x| x.to_string());
            // (a request that changes nothing does not touch the history position)
            if clear && (np != e.r.prompt || allow != e.r.allowed || !e.r.ch.is_empty()) { e.r.empty() }
            e.r.prompt = np; e.r.allowed = allow;
            e.ed.prompt(p.map(Line::from_str), allow, clear)
        }
        5 => {
            let mut c = char::from_u32(t.byte() as u32 % 0xa8).unwrap(); if c == '\x1a' { c = 'z' }
            t.say(format!("raw {:?}", c));
            if al { e.key(c) }
            e.ed.raw(&c.to_string())
        }
        6 => {
            let ctl = t.bool();
            if ctl {
                const T: &[u8] = b"abcdefgklnptuwxy\\jmi[h@^_]oqrsv1AZ~";
                let c = T[t.n(T.len())] as char;
                t.say(format!("event control-{:?}", c));
                if al {
                    let named = "abcdefgklnptuwxy\\jm".contains(c);
                    if c == 'i' { e.tab() } else {
                        e.r.presses = 0;
                        if named { let k = (c as u8 & 0x1f) as char; e.r.act(action(k).unwrap()) }
                        else if ('\u{40}'..='\u{7e}').contains(&c) { e.r.out.push(format!("Unknown({})", c as u8 & 0x1f)) }
                    }
                }
                e.ed.event(Event::Key(KeyEvent::new(KeyCode::Char(c), KeyModifiers::CONTROL)))
            } else {
                let k = t.n(8);
                let ev = match k { 0 => Event::Key(KeyEvent::new(KeyCode::Tab, KeyModifiers::empty())), 1 => Event::Resize(80, 24), 2 => Event::FocusGained,
                    3 => Event::Key(KeyEvent::new(KeyCode::F(1), KeyModifiers::empty())),
                    _ => { let s = ["A", "é", "\u{301}", "\u{85}", "漢", "\u{2028}", "\x1b", "z"][t.n(8)]; Event::Key(KeyEvent::new(KeyCode::Char(s.chars().next().unwrap()), KeyModifiers::SHIFT)) } };
                t.say(format!("event {:?}", ev));
                if al { match &ev {
                    Event::Key(k) => match k.code {
                        KeyCode::Tab => e.tab(),
                        KeyCode::Char(c) => { e.r.presses = 0; if !c.is_control() && c != '\u{2028}' && c != '\u{2029}' { e.r.ins(c) } }
                        _ => e.r.presses = 0,
                    }, _ => (),
                } }
                e.ed.event(ev)
            }
        }
        7 => {
            let up = t.n(5) < 3; let by_event = t.bool();
            t.say(format!("history {}", if up { "prev" } else { "next" }));
            if al { e.r.presses = 0; e.r.act(if up { "hprev" } else { "hnext" }) }
            if by_event { e.ed.event(Event::Key(KeyEvent::new(if up { KeyCode::Up } else { KeyCode::Down }, KeyModifiers::empty()))) } else { e.ed.raw(if up { "\x10" } else { "\x0e" }) }
        }
        8 => {
            let mut h = History::new(); let mut v: Vec<String> = vec![];
            for _ in 0..t.n(5) { let s = HIST[t.n(HIST.len())].to_string(); let _ = h.add_line(s.clone()); v.retain(|x| *x != s); v.push(s) }
            t.say(format!("the history is replaced by {:?}", v));
            e.ed.swap_history(h); e.r.hist = v;
            if t.n(3) != 0 { bump(t, e) } else { true }
        }
        9 => bump(t, e),
        _ => {
            let c = match t.n(4) {
                0 => None,
                1 => Some(Completion::InsertAtCursor { text: t.text(TEXT, 3) }),
                _ => { let s = t.text(TEXT, 4); let b: Vec<usize> = s.char_indices().map(|x| x.0).chain(Some(s.len())).collect(); let p = b[t.n(b.len())]; Some(Completion::ReplaceWholeLine { new_line: s, new_cursor: p }) }
            };
            t.say(format!("tab, completion {:?}", show(&c)));
            if !e.r.comp { e.r.comp = true; e.ed.set_completor(Some(Box::new(Comp { next: e.comp.clone() }))); }
            e.comp.lock().unwrap().0 = c;
            if al { e.tab() }
            let r = e.ed.raw("\t");
            e.comp.lock().unwrap().0 = None;
            r
        }
    })
}
fn dup(c: &Option<Completion>) -> Option<Completion> {
    match c { None => None, Some(Completion::InsertAtCursor { text }) => Some(Completion::InsertAtCursor { text: text.clone() }), Some(Completion::ReplaceWholeLine { new_line, new_cursor }) => Some(Completion::ReplaceWholeLine { new_line: new_line.clone(), new_cursor: *new_cursor }) }
}
fn show(c: &Option<Completion>) -> String {
    match c { None => "none".into(), Some(Completion::InsertAtCursor { text }) => format!("insert {:?}", text), Some(Completion::ReplaceWholeLine { new_line, new_cursor }) => format!("{:?} at {}", new_line, new_cursor) }
}
fn bump(t: &mut Tape, e: &mut Env) -> bool {
    t.say("bump".into());
    if e.r.hi.is_some() {
        e.r.hi = e.r.orig.as_ref().and_then(|o| e.r.hist.iter().rposition(|x| x == o));
        if e.r.hi.is_none() { e.r.orphan = None; e.r.orig = None }
    }
    e.ed.bump()
}
pub fn c06(t: &mut Tape) -> R { run(t, W_ALL, true) }
pub fn c07(t: &mut Tape) -> R { run(t, W_EDIT, false) }
pub fn c08(t: &mut Tape) -> R { if t.n(64) == 7 { return crate::procs::one_request(t, b"r") } run(t, W_SUBMIT, false) }
pub fn c09(t: &mut Tape) -> R { run(t, W_KEYS, false) }
pub fn c10(t: &mut Tape) -> R { run(t, W_HIST, false) }
