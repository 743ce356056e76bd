use crate::line::*;
use crate::util::*;
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers};
use liso::verif::term::{Op, TermApi};
use liso::verif::worker::{new_editor, Editor};
use liso::{Line, Style};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use unicode_width::UnicodeWidthChar;

/// A cell: what is printed there, and with which attributes.  The right half
/// of a wide character is a cell with an empty text.
type Cell = (String, Attr);
fn blank() -> Cell { (" ".to_string(), PLAIN) }
/// A terminal without automatic line wrap and with as many rows as needed.
pub struct Screen {
    pub w: usize, pub rows: Vec<Vec<Cell>>, pub r: usize, pub c: usize, pub full: bool, pub attr: Attr,
    /// rows below this one must not be moved to or changed
    pub floor: usize, pub bad: Option<String>, pub starts: Vec<(usize, usize, char, Attr)>, pub cleared: bool, pub whole: bool,
}
impl Screen {
    pub fn new(w: usize) -> Screen { Screen { w, rows: vec![vec![blank(); w]], r: 0, c: 0, full: false, attr: PLAIN, floor: 0, bad: None, starts: vec![], cleared: false, whole: false } }
    fn blame(&mut self, s: String) { if self.bad.is_none() { self.bad = Some(s) } }
    fn put(&mut self, ch: char) {
        let w = UnicodeWidthChar::width(ch).unwrap_or(0);
        if w == 0 {
            self.starts.push((self.r, if self.full { self.w } else { self.c }, ch, self.attr));
            if ch.is_control() { self.blame(format!("the control character {:?} was printed", ch)); return }
            let c = if self.full { self.w - 1 } else if self.c > 0 { self.c - 1 } else { return };
            let c = if self.rows[self.r][c].0.is_empty() && c > 0 { c - 1 } else { c };
            self.rows[self.r][c].0.push(ch);
            return
        }
        if self.full && self.whole { self.blame(format!("{:?} was printed beyond the last column", ch)) }
        if self.whole && self.c > 0 && self.c + w > self.w { self.blame(format!("{:?} does not fit into the row at column {}", ch, self.c)) }
        self.starts.push((self.r, self.c, ch, self.attr));
        self.break_wide(self.c);
        self.rows[self.r][self.c] = (ch.to_string(), self.attr);
        if w == 2 && self.c + 1 < self.w { self.break_wide(self.c + 1); self.rows[self.r][self.c + 1] = (String::new(), self.attr); }
        if self.c + w >= self.w { self.c = self.w - 1; self.full = true } else { self.c += w }
    }
    /// overwriting half of a wide character blanks the other half
    fn break_wide(&mut self, c: usize) {
        if self.rows[self.r][c].0.is_empty() && c > 0 { self.rows[self.r][c - 1] = blank() }
        if c + 1 < self.w && self.rows[self.r][c + 1].0.is_empty() { self.rows[self.r][c + 1] = blank() }
    }
    fn clear_eol(&mut self) {
        self.break_wide(self.c);
        let b = (" ".to_string(), (Style::PLAIN, None, self.attr.2));
        for x in self.c..self.w { self.rows[self.r][x] = b.clone() }
    }
    pub fn op(&mut self, op: Op) {
        match op {
            Op::SetAttrs(s, f, b) => self.attr = (s, f, b),
            Op::ResetAttrs => self.attr = PLAIN,
            Op::Print(s) => for c in s.chars() { self.put(c) },
            Op::Up(n) => { if (n as usize) > self.r { self.blame(format!("moved up {} rows from row {}", n, self.r)) } self.r = self.r.saturating_sub(n as usize); if n > 0 { self.full = false } }
            Op::Down(n) => { if n > 0 { self.full = false } self.r = (self.r + n as usize).min(self.rows.len() - 1) }
            Op::Left(n) => { if n > 0 { self.c = self.c.saturating_sub(n as usize); self.full = false } }
            Op::Right(n) => { if n > 0 { self.c = (self.c + n as usize).min(self.w - 1); self.full = false } }
            Op::Newline => { self.r += 1; self.c = 0; self.full = false; if self.r == self.rows.len() { self.rows.push(vec![blank(); self.w]) } }
            Op::Cr => { self.c = 0; self.full = false }
            Op::Bell => (),
            Op::ClearAll => {
                // the whole screen is blank and the cursor at its top: like a new screen below everything
                self.attr = PLAIN; self.rows.push(vec![blank(); self.w]); self.r = self.rows.len() - 1; self.c = 0; self.full = false; self.floor = self.r; self.cleared = true;
            }
            Op::ClearForward => { self.attr = PLAIN; self.clear_eol(); for r in self.r + 1..self.rows.len() { self.rows[r] = vec![blank(); self.w] } }
            Op::ClearEol => self.clear_eol(),
            Op::Hide | Op::Show | Op::Flush | Op::Suspend | Op::Unsuspend | Op::Cleanup => (),
        }
        if self.r < self.floor { let s = format!("row {} above the block was moved to", self.r); self.blame(s); }
    }
}
#[derive(Clone)]
pub struct Shared(pub Arc<Mutex<Screen>>);
impl TermApi for Shared {
    fn op(&mut self, op: Op) { self.0.lock().unwrap().op(op) }
    fn width(&mut self) -> u32 { self.0.lock().unwrap().w as u32 }
    fn style(&self) -> Style { self.0.lock().unwrap().attr.0 }
}
fn new(w: usize) -> (Editor, Shared) {
    let s = Shared(Arc::new(Mutex::new(Screen::new(w))));
    (new_editor(Box::new(s.clone())), s)
}
fn chars(l: &Line) -> Vec<(char, Attr, usize)> { l.chars().map(|x| (x.ch, (x.style, x.fg, x.bg), x.index)).collect() }
fn width(c: char) -> usize { UnicodeWidthChar::width(c).unwrap_or(0) }
/// where output_line must put each character: a row is broken when a visible character comes and the row is full
fn layout_print(l: &Line, w: usize, top: usize) -> (Vec<(usize, usize, char, Attr)>, usize) {
    let (mut r, mut c, mut v) = (top, 0, vec![]);
    for (ch, a, _) in chars(l) {
        if ch == '\n' { r += 1; c = 0; continue }
        if width(ch) > 0 && c > 0 && c + width(ch) > w { r += 1; c = 0 }
        v.push((r, c.min(w), ch, a)); c += width(ch);
    }
    (v, r + 1)
}
/// where the block's characters are, and the cell of byte position `cur`: a row is broken as soon as it is full
fn layout_block(l: &Line, w: usize, top: usize, cur: Option<usize>) -> (Vec<(usize, usize, char, Attr)>, (usize, usize)) {
    let (mut r, mut c, mut v, mut pending, mut at) = (top, 0, vec![], false, None);
    for (ch, a, i) in chars(l) {
        if Some(i) == cur { at = Some((r, c)) }
        if ch == '\n' { if !pending { r += 1; c = 0 } pending = false; continue }
        v.push((r, c, ch, a)); c += width(ch); pending = false;
        if width(ch) > 0 && c >= w { r += 1; c = 0; pending = true }
    }
    (v, at.unwrap_or((r, c)))
}
/// the cells of the characters must hold exactly them
fn check_cells(s: &Screen, v: &[(usize, usize, char, Attr)], top: usize, end: usize) -> R {
    let mut want: Vec<Vec<Option<Cell>>> = vec![vec![None; s.w]; end.max(top) - top];
    for (r, c, ch, a) in v {
        if width(*ch) == 0 {
            let c = if *c == 0 { continue } else { *c - 1 };
            let row = &mut want[r - top];
            let c = if c > 0 && row[c].as_ref().map(|x| x.0.is_empty()).unwrap_or(false) { c - 1 } else { c };
            if let Some(x) = row[c].as_mut() { x.0.push(*ch) }
        } else {
            want[r - top][*c] = Some((ch.to_string(), *a));
            if width(*ch) == 2 && c + 1 < s.w { want[r - top][c + 1] = Some((String::new(), *a)) }
        }
    }
    for (i, row) in want.iter().enumerate() {
        let b = blank();
        let have = s.rows.get(top + i);
        for c in 0..s.w {
            let h = have.map(|x| &x[c]).unwrap_or(&b);
            match &row[c] {
                Some(x) => if x != h { return Err(format!("row {} column {} shows {:?}, expected {:?}", i, c, h, x)) },
                None => if h.0 != " " { return Err(format!("row {} column {} shows {:?}, expected a blank", i, c, h)) },
            }
        }
    }
    for r in end..s.rows.len() { if s.rows[r].iter().any(|x| x.0 != " ") { return Err(format!("row {} below the block is not blank", r - top)) } }
    Ok(())
}
/// a line without control characters, or invisible ones where a cell of their own is not defined
fn line(t: &mut Tape, max: usize) -> Line {
    const A: &[&str] = &["a", "b", "c", " ", "\n", "xyz", "漢", "é", "word", "e\u{301}", "x\u{300}", "-", "ab", "好"];
    let mut l = Line::new();
    for _ in 0..t.n(max + 1) {
        match t.n(9) {
            0 => { l.set_style([Style::PLAIN, Style::BOLD, Style::INVERSE, Style::UNDERLINE][t.n(4)]); }
            1 => { l.set_bg_color([None, Some(COLORS[1]), Some(COLORS[4])][t.n(3)]); }
            2 => { l.set_fg_color([None, Some(COLORS[2])][t.n(2)]); }
            _ => { l.add_text(t.text(A, 3)); }
        }
    }
    l
}
fn show(l: &Line) -> String {
    let mut s = String::new(); let mut last = PLAIN;
    for (c, a, _) in chars(l) { if a != last { s.push_str(&format!("<{:?} {:?} {:?}>", a.0, a.1, a.2)); last = a } s.extend(c.escape_debug()) }
    s
}
pub fn c16(t: &mut Tape) -> R {
    let w = 1 + t.n(12);
    let (mut ed, s) = new(w);
    let mut rows = 0; let mut n = 0;
    for _ in 0..1 + t.n(4) {
        // what is above must stay
        let above: Vec<Vec<Cell>>; let top;
        if t.n(3) == 0 { let l = line(t, 3); t.say(format!("width {}: status {:?}", w, show(&l))); s.0.lock().unwrap().whole = false; ed.status(Some(l)); ed.rollout(); }
        ed.rollin();
        { let mut s = s.0.lock().unwrap(); top = s.r; above = s.rows[..top].to_vec(); s.starts.clear(); s.floor = top; s.whole = true; }
        let l = line(t, 6);
        let wrapped = t.n(4) == 0;
        t.say(format!("width {}: print{} {}", w, if wrapped { " wrapped" } else { "" }, show(&l)));
        let mut shown = l.clone();
        let ok = if wrapped { shown.wrap_to_width(w); ed.output_wrapped(l.clone()) } else { ed.output(l.clone()) };
        if !ok { return Err("printing failed".into()) }
        let s = s.0.lock().unwrap();
        if let Some(b) = &s.bad { return Err(b.clone()) }
        let (v, end) = layout_print(&shown, w, top);
        // (padding aside) every character was sent once, in order, at its place
        let mut k = 0;
        for x in &s.starts {
            if k < v.len() && *x == v[k] { k += 1 } else if x.2 != ' ' { return Err(format!("printed {:?} at row {} column {}; expected {:?}", x.2, x.0 - top, x.1, v.get(k))) }
        }
        if k < v.len() { return Err(format!("{:?} was not printed", v[k])) }
        check_cells(&s, &v, top, end)?;
        if s.r != end || s.c != 0 { return Err(format!("the cursor is at row {} column {}, expected row {} column 0", s.r - top, s.c, end - top)) }
        if s.attr != PLAIN { return Err(format!("the attributes afterwards are {:?}", s.attr)) }
        if s.rows[..top] != above[..] { return Err("rows above were changed".into()) }
        rows = rows.max(end - top); n += 1;
    }
    if rows > 1 && n > 0 { t.log.insert(0, "*".into()) }
    Ok(())
}
struct Env { ed: Editor, s: Shared, w: usize, top: usize, above: Vec<Vec<Cell>>, shown: bool, redraws: u32 }
fn content(ed: &Editor) -> (Line, Option<usize>) {
    let v = ed.view();
    let mut l = Line::new();
    if let Some(s) = &v.status { l.append_line(s); l.reset_and_break() }
    if let Some(n) = &v.notice { l.append_line(n); return (l, None) }
    if let Some(p) = &v.prompt { l.append_line(p) }
    let c = l.len() + v.cursor;
    l.add_text(&v.input);
    (l, Some(c))
}
impl Env {
    fn new(w: usize) -> Env { let (ed, s) = new(w); Env { ed, s, w, top: 0, above: vec![], shown: false, redraws: 0 } }
    /// after anything that printed above: the block is gone, and the cursor is at the start of a fresh row
    fn moved(&mut self) -> R {
        let mut s = self.s.0.lock().unwrap();
        if s.c != 0 { return Err(format!("printing left the cursor in column {}", s.c)) }
        if s.cleared { s.cleared = false; self.above = s.rows[..s.floor].to_vec(); }
        let k = self.above.len();
        if s.rows[..k] != self.above[..] { return Err("rows above the block were changed".into()) }
        self.top = s.r; self.above = s.rows[..self.top].to_vec(); s.floor = self.top;
        self.shown = false;
        Ok(())
    }
    fn check(&self, l: Option<(&Line, Option<usize>)>, full: bool) -> R {
        let s = self.s.0.lock().unwrap();
        if let Some(b) = &s.bad { return Err(b.clone()) }
        if s.rows[..self.top] != self.above[..] { return Err("rows above the block were changed".into()) }
        if s.attr != PLAIN { return Err(format!("the attributes afterwards are {:?}", s.attr)) }
        let Some((l, cur)) = l else { return Ok(()) };
        if let (_, Some(_)) = (l, cur) {
            let (v, at) = layout_block(l, self.w, self.top, cur);
            if at != (s.r, s.c) { return Err(format!("the cursor is at row {} column {}, expected row {} column {}", s.r as i64 - self.top as i64, s.c, at.0 - self.top, at.1)) }
            if full { let end = v.iter().map(|x| x.0 + 1).max().unwrap_or(self.top); check_cells(&s, &v, self.top, end)? }
        } else if full {
            let (v, _) = layout_block(l, self.w, self.top, cur);
            let end = v.iter().map(|x| x.0 + 1).max().unwrap_or(self.top); check_cells(&s, &v, self.top, end)?
        }
        if full {
            // the same content drawn afresh
            let mut f = Env::new(self.w);
            f.ed.draw(l, cur);
            let fs = f.s.0.lock().unwrap();
            for r in 0..fs.rows.len().max(s.rows.len() - self.top) {
                let b = vec![blank(); self.w];
                let (x, y) = (s.rows.get(self.top + r).unwrap_or(&b), fs.rows.get(r).unwrap_or(&b));
                if x != y { return Err(format!("row {} shows {}, drawn afresh {}", r, row(x), row(y))) }
            }
        }
        Ok(())
    }
    /// erases the block: back to its first row, and nothing left
    fn erase(&mut self, t: &mut Tape) -> R {
        t.say("erase".into());
        if !self.ed.rollin() { return Err("erasing failed".into()) }
        let s = self.s.0.lock().unwrap();
        if let Some(b) = &s.bad { return Err(b.clone()) }
        if s.r != self.top || s.c != 0 { return Err(format!("erasing went to row {} column {} of the block", s.r as i64 - self.top as i64, s.c)) }
        if s.rows[..self.top] != self.above[..] { return Err("rows above the block were changed".into()) }
        for r in self.top..s.rows.len() { if s.rows[r] != vec![blank(); self.w] { return Err(format!("erasing left row {} of the block as {}", r - self.top, row(&s.rows[r]))) } }
        drop(s);
        self.shown = false;
        Ok(())
    }
}
fn row(r: &[Cell]) -> String {
    let mut s = String::new(); let mut last = PLAIN;
    for (x, a) in r { if *a != last { s.push_str(&format!("<{:?} {:?} {:?}>", a.0, a.1, a.2)); last = *a } s.push_str(x) }
    format!("{:?}", s)
}
/// variations of a line, so that successive contents share a lot
fn vary(t: &mut Tape, l: &Line) -> Line {
    let mut c = chars(l);
    for _ in 0..t.n(3) {
        let p = t.n(c.len() + 1);
        const A: &[&str] = &["a", "b", " ", "\n", "漢", "é", "xyz", "e\u{301}"];
        match t.n(8) {
            // one component of the attributes of the characters alike from there on
            6 | 7 => if p < c.len() {
                let a = c[p].1; let (w, k) = (t.n(4), t.n(8)); let mut b = a;
                match w { 0 => b.0 = b.0 ^ [Style::INVERSE, Style::UNDERLINE, Style::BOLD, Style::DIM][k % 4], 1 => b.1 = if k < 4 { None } else { Some(COLORS[k]) }, _ => b.2 = if k < 3 { None } else { Some(COLORS[k]) } }
                for q in p..c.len() { if c[q].1 != a { break } c[q].1 = b }
            },
            4 => c.truncate(p),
            5 => { let a = if p > 0 { c[p - 1].1 } else { PLAIN }; c.insert(p, ('\n', a, 0)); c.insert(p + 1, ('x', a, 0)) }
            0 => { let s = A[t.n(A.len())]; let a = if p > 0 { c[p - 1].1 } else { PLAIN }; for (k, x) in s.chars().enumerate() { c.insert(p + k, (x, a, 0)) } }
            1 => if p < c.len() { c.remove(p); },
            2 => if p < c.len() { c[p].0 = A[t.n(A.len())].chars().next().unwrap() },
            _ => if p < c.len() { c[p].1 = [PLAIN, (Style::INVERSE, None, None), (Style::PLAIN, None, Some(COLORS[1])), (Style::BOLD, Some(COLORS[3]), None)][t.n(4)] },
        }
    }
    let mut l = Line::new();
    for (ch, a, _) in c { l.set_style(a.0); l.set_colors(a.1, a.2); l.add_text(ch.to_string()); }
    l
}
fn block(t: &mut Tape, full: bool) -> R {
    let w = [5, 2, 3, 4, 7, 10, 6][t.n(7)];
    t.say(format!("width {}", w));
    let mut e = Env::new(w);
    if t.n(3) == 0 { direct(t, &mut e, full)? } else {
        for _ in 0..2 + t.n(14) {
            if t.end() { break }
            let ok = match t.n(12) {
                0 | 1 => { let l = if t.n(5) == 0 { None } else { let b = e.ed.view().status.unwrap_or(Line::new()); Some(if t.bool() { vary(t, &b) } else { line(t, 4) }) }; t.say(format!("status {:?}", l.as_ref().map(show))); e.ed.status(l) }
                2 | 3 => { let l = if t.n(5) == 0 { None } else { let b = e.ed.view().prompt.unwrap_or(Line::new()); Some(if t.bool() { vary(t, &b) } else { line(t, 3) }) }; let (a, c) = (t.n(4) != 0, t.bool()); t.say(format!("prompt {:?} {} {}", l.as_ref().map(show), a, c)); e.ed.prompt(l, a, c) }
                4 => { let l = line(t, 4); let d = if t.bool() { Duration::from_secs(1000) } else { Duration::ZERO }; t.say(format!("notice {:?}", show(&l))); e.ed.notice(l, d) }
                5 => match t.n(4) {
                    0 => { t.say("suspend and run".into()); let r = e.ed.suspend_and_run(); e.moved()?; r }
                    1 => { t.say("resize event".into()); let r = e.ed.event(Event::Resize(e.w as u16, 24)); if e.ed.view().input_allowed { e.moved()? } r }
                    2 => { t.say("bump, bell".into()); e.ed.add_history("neu"); e.ed.bump() && e.ed.bell() }
                    _ => { t.say("heartbeat".into()); e.ed.heartbeat() }
                },
                6 => { let l = line(t, 4); t.say(format!("print {:?}", show(&l))); let r = e.ed.output(l); e.moved()?; r }
                7 => { e.erase(t)?; true }
                8 => { let l = if t.bool() { "\x0c" } else { "\x01" }; t.say(format!("key {:?}", l)); let r = e.ed.raw(l); if l == "\x0c" && e.ed.view().input_allowed { e.moved()? } r }
                _ => {
                    let s = ["a", "b c", "漢", "\x08", "\x02", "\x06", "\x01", "\x05", "\x15", "\n", "hello", "e\u{301}", "\x0b", "\x19", "\x02\x02", "\x10", "\x0e", "\x07", "\x17", "\x04"][t.n(20)];
                    t.say(format!("keys {:?}", s));
                    if t.n(6) == 0 { e.ed.event(Event::Key(KeyEvent::new(KeyCode::Delete, KeyModifiers::empty()))) } else { e.ed.raw(s) }
                }
            };
            if !ok { return Err("the editor gave up".into()) }
            if t.n(4) != 0 {
                if !e.ed.rollout() { return Err("drawing failed".into()) }
                e.redraws += 1;
                let (l, c) = content(&e.ed);
                t.say(format!("draw {} with cursor {:?}", show(&l), c));
                e.shown = true;
                e.check(Some((&l, c)), full)?;
            }
        }
    }
    if !full { e.erase(t)? }
    if e.redraws > 1 { t.log.insert(0, "*".into()) }
    Ok(())
}
/// rows that are nearly, exactly or barely not full
fn rows(t: &mut Tape, w: usize) -> Line {
    let mut l = Line::new();
    let a = [PLAIN, (Style::INVERSE, None, None), (Style::PLAIN, None, Some(COLORS[1]))][t.n(3)];
    l.set_style(a.0); l.set_colors(a.1, a.2);
    for k in 0..1 + t.n(3) { if k > 0 { l.add_text("\n"); } l.add_text("abcdefghijkl"[..(w + t.n(3)).saturating_sub(1)].to_string()); }
    l
}
fn direct(t: &mut Tape, e: &mut Env, full: bool) -> R {
    let mut last = Line::new();
    for _ in 0..2 + t.n(4) {
        let l = match t.n(6) { 0 => line(t, 6), 1 => rows(t, e.w), _ => vary(t, &last) };
        let b: Vec<usize> = l.as_str().char_indices().map(|x| x.0).chain(Some(l.len())).collect();
        let c = if t.n(3) == 0 { None } else { Some(b[t.n(b.len())]) };
        t.say(format!("draw {} with cursor {:?}", show(&l), c));
        if !e.ed.draw(&l, c) { return Err("drawing failed".into()) }
        e.redraws += 1;
        e.check(Some((&l, c)), full)?;
        if t.n(5) == 0 { e.erase(t)?; last = Line::new() } else { last = l }
    }
    Ok(())
}
pub fn c17(t: &mut Tape) -> R { if t.n(200) == 7 { return crate::procs::real_rows(t, false, true) } block(t, false) }
pub fn c18(t: &mut Tape) -> R { if t.n(64) == 7 { return crate::procs::one_request(t, b"sSR") } if t.n(200) == 7 { return crate::procs::real_rows(t, true, false) } block(t, true) }
