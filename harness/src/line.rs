use crate::util::*;
use liso::{Color, Line, Style};
use unicode_width::UnicodeWidthChar;

pub const COLORS: [Color; 8] = [Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Cyan, Color::Magenta, Color::White];
pub type Attr = (Style, Option<Color>, Option<Color>);
pub const PLAIN: Attr = (Style::PLAIN, None, None);
/// The reference: every character with its attributes.
#[derive(Clone, Debug)]
pub struct Model { pub ch: Vec<(char, Attr)>, pub cur: Attr, pub touched: bool }
impl Model {
    pub fn new() -> Model { Model { ch: vec![], cur: PLAIN, touched: false } }
    pub fn style(&mut self, s: Style) { self.cur.0 = s; self.touched = true }
    pub fn text(&mut self, t: &str) {
        for c in t.chars() {
            if (c.is_control() && c != '\n') || c == '\u{2028}' || c == '\u{2029}' {
                let mut a = self.cur; a.0 = a.0 ^ Style::INVERSE;
                let s = if (c as u32) < 0x20 { format!("^{}", (c as u8 + 0x40) as char) } else { format!("U+{:04X}", c as u32) };
                for d in s.chars() { self.ch.push((d, a)) }
            } else { self.ch.push((c, self.cur)) }
            self.touched = true;
        }
    }
    pub fn string(&self) -> String { self.ch.iter().map(|x| x.0).collect() }
    pub fn append(&mut self, o: &Model, real_other: &Line) {
        self.ch.extend(o.ch.iter().cloned());
        if liso::verif::elements(real_other).len() > 0 || !o.ch.is_empty() { self.cur = o.cur; self.touched = true; }
    }
    pub fn same(&self, l: &Line) -> R {
        if l.as_str() != self.string() { return Err(format!("text is {:?}, expected {:?}", l.as_str(), self.string())) }
        if l.len() != self.string().len() || l.is_empty() != self.ch.is_empty() { return Err(format!("len {} / is_empty {} for {:?}", l.len(), l.is_empty(), l.as_str())) }
        let mut idx = 0;
        let mut it = l.chars();
        for (n, (c, a)) in self.ch.iter().enumerate() {
            let Some(x) = it.next() else { return Err(format!("characters end after {}", n)) };
            if x.ch != *c || x.index != idx { return Err(format!("character {} is {:?} at {}, expected {:?} at {}", n, x.ch, x.index, c, idx)) }
            if (x.style, x.fg, x.bg) != *a { return Err(format!("character {} ({:?}) has {:?}, expected {:?}", n, c, (x.style, x.fg, x.bg), a)) }
            idx += c.len_utf8();
        }
        if it.next().is_some() { return Err("too many characters".into()) }
        if l.get_style() != self.cur.0 || l.get_colors() != (self.cur.1, self.cur.2) {
            return Err(format!("active {:?} {:?}, expected {:?}", l.get_style(), l.get_colors(), self.cur))
        }
        tiling(l)
    }
}
/// the whole text is covered by the styling exactly once
pub fn tiling(l: &Line) -> R {
    let e = liso::verif::elements(l);
    let mut p = 0;
    for x in &e {
        if x.3 != p || x.4 < x.3 || !l.as_str().is_char_boundary(x.4) { return Err(format!("styling does not cover the text: {:?} of {:?}", e, l.as_str())) }
        p = x.4;
    }
    if p != l.len() { return Err(format!("styling does not cover the text: {:?} of {:?}", e, l.as_str())) }
    Ok(())
}
pub const ALPHA: &[&str] = &["a", "b", " ", "xyz", "\n", "é", "漢", "\u{301}", "  ", "😀", "-", "word", "\u{200b}", "\u{a0}", "Q", "\t", "\u{7f}", "\u{85}", "\u{2028}", "\x1b", "\0", "\u{9f}", "\u{2029}", "\r"];
pub const CLEAN: usize = 15;
const ANSI: &[&str] = &["\x1b", "[", "m", ";", "1", "3", "0", "4", "7", "2", "\x1b[", "\x1b[1m", "\x1b[31m", "\x1b[0m", "a", "é", "\x1b[4", " ", "漢", "?", "\x1b[m", "38;5;1", "\x1b[27m", "\x1b[43;1m", "5", ":", "\n", "\x07", "99999999999", "A", "48;2;1;2;3", "8", "9"];

pub fn style(t: &mut Tape) -> Style {
    let b = t.byte();
    // mostly single styles
    if b < 160 { [Style::PLAIN, Style::BOLD, Style::DIM, Style::UNDERLINE, Style::INVERSE, Style::ITALIC, Style::BOLD | Style::DIM, Style::PLAIN][b as usize % 8] } else { Style::from_bits_truncate(b as u32) }
}
pub fn color(t: &mut Tape) -> Option<Color> { let k = t.n(12); if k < 8 { Some(COLORS[k]) } else { None } }

/// one building step, on both
pub fn step(t: &mut Tape, l: &mut Line, m: &mut Model, clean: bool, depth: u8) {
    let alpha = if clean { &ALPHA[..CLEAN] } else { ALPHA };
    let k = t.n(if depth == 0 { 16 } else { 18 });
    match k {
        0 | 1 | 2 | 3 => { let s = t.text(alpha, 6); t.say(format!("add_text({:?})", s)); l.add_text(&s[..]); m.text(&s); }
        4 => { let s = style(t); t.say(format!("set_style({:?})", s)); l.set_style(s); m.style(s); }
        5 => { let s = style(t); t.say(format!("toggle_style({:?})", s)); l.toggle_style(s); let c = m.cur.0 ^ s; m.style(c); }
        6 => { let s = style(t); t.say(format!("activate_style({:?})", s)); l.activate_style(s); let c = m.cur.0 | s; m.style(c); }
        7 => { let s = style(t); t.say(format!("deactivate_style({:?})", s)); l.deactivate_style(s); let c = m.cur.0 - s; m.style(c); }
        8 => { t.say("clear_style()".into()); l.clear_style(); m.style(Style::PLAIN); }
        9 => { let c = color(t); t.say(format!("set_fg_color({:?})", c)); l.set_fg_color(c); if m.cur.1 != c { m.cur.1 = c; m.touched = true } }
        10 => { let c = color(t); t.say(format!("set_bg_color({:?})", c)); l.set_bg_color(c); if m.cur.2 != c { m.cur.2 = c; m.touched = true } }
        11 => { let c = color(t); let d = color(t); t.say(format!("set_colors({:?}, {:?})", c, d)); l.set_colors(c, d); m.cur.1 = c; m.cur.2 = d; m.touched = true; }
        12 => { t.say("reset_all()".into()); l.reset_all(); m.cur = PLAIN; m.touched = true; }
        13 => { t.say("reset_and_break()".into()); l.reset_and_break(); m.text("\n"); m.cur = PLAIN; }
        14 => { t.say("active style and colors toggled by hand".into()); let s = m.cur.0 ^ Style::BOLD; l.set_style(s); m.style(s); }
        15 => { let s = t.text(alpha, 2); t.say(format!("add_text({:?})", s)); l.add_text(s.clone()); m.text(&s); }
        _ => {
            let (mut l2, mut m2) = (Line::new(), Model::new());
            t.say("append_line(new line:".into());
            for _ in 0..t.n(4) { step(t, &mut l2, &mut m2, clean, 0) }
            t.say(")".into());
            l.append_line(&l2); m.append(&m2, &l2);
        }
    }
}
pub fn build(t: &mut Tape, clean: bool, depth: u8, max: usize) -> (Line, Model) {
    let (mut l, mut m) = (Line::new(), Model::new());
    let n = t.n(max + 1);
    for _ in 0..n { step(t, &mut l, &mut m, clean, depth) }
    (l, m)
}
fn mark(t: &mut Tape, b: bool) { if b { t.log.insert(0, "*".into()) } }

pub fn c01(t: &mut Tape) -> R {
    let (mut l, mut m) = build(t, true, 1, 4);
    let s = t.text(ALPHA, 8);
    let how = t.n(4);
    t.say(format!("add {:?} (way {})", s, how));
    match how {
        0 => { l.add_text(&s[..]); m.text(&s); }
        1 => { l.add_text(s.clone()); m.text(&s); }
        2 => { let o = Line::from_str(&s); let mut om = Model::new(); om.text(&s); om.same(&o)?; l.append_line(&o); m.append(&om, &o); }
        _ => { l = Line::from_string(s.clone()); m = Model::new(); m.text(&s); }
    }
    if let Some(c) = l.as_str().chars().find(|x| (x.is_control() && *x != '\n') || *x == '\u{2028}' || *x == '\u{2029}') {
        return Err(format!("the line contains {:?}", c))
    }
    mark(t, m.string() != s && !s.is_empty());
    m.same(&l)
}
/// Each use of the macros does what the method calls it stands for do.
pub fn c28(t: &mut Tape) -> R {
    let (p, _) = build(t, false, 0, 4);
    let (x, y) = (t.text(ALPHA, 3), t.text(ALPHA, 2));
    let c = [None, Some(Color::Black), Some(Color::Green), Some(Color::White)][t.n(4)];
    t.say(format!("x is {:?}, y {:?}, c {:?}", x, y, c));
    let mut r = Ok(());
    let see = |mut l: Line| { l.add_text("#"); l.chars().map(|x| (x.ch, (x.style, x.fg, x.bg))).collect::<Vec<(char, Attr)>>() };
    for f in crate::macros_gen::ALL {
        f(&p, &x, &y, c, &mut |what, a, l| if r.is_ok() { let (a, l) = (see(a), see(l)); if a != l { r = Err(format!("{} makes {:?}, the methods make {:?}", what, a, l)) } });
    }
    mark(t, true);
    r
}
pub fn c02(t: &mut Tape) -> R {
    let (mut l, mut m) = (Line::new(), Model::new());
    let n = 1 + t.n(12);
    for _ in 0..n { step(t, &mut l, &mut m, false, 0); m.same(&l)? }
    let d = m.ch.windows(2).any(|w| w[0].1 != w[1].1);
    mark(t, d);
    Ok(())
}
pub fn c03(t: &mut Tape) -> R {
    let (mut l, mut m) = build(t, false, 1, 6);
    t.say("append_line(new line:".into());
    let (l2, m2) = build(t, false, 1, 6);
    t.say(")".into());
    l.append_line(&l2); m.append(&m2, &l2);
    m.same(&l)?;
    for _ in 0..t.n(4) { step(t, &mut l, &mut m, false, 1); m.same(&l)? }
    mark(t, !l.is_empty() && !l2.is_empty());
    Ok(())
}
pub fn c04(t: &mut Tape) -> R {
    let width = 1 + t.n(9);
    let (mut l, m) = build(t, true, 0, 8);
    t.say(format!("wrap_to_width({})", width));
    let before = m.ch;
    l.wrap_to_width(width);
    let after: Vec<(char, Attr)> = l.chars().map(|x| (x.ch, (x.style, x.fg, x.bg))).collect();
    if after.iter().map(|x| x.0).collect::<String>() != l.as_str() { return Err("characters do not match the text".into()) }
    // which prefixes of the original can the prefix of the result come from?
    let n = before.len();
    let mut ok = vec![false; n + 1]; ok[0] = true;
    for (c, a) in &after {
        let mut nx = vec![false; n + 1];
        for i in 0..=n {
            if !ok[i] { continue }
            if i < n && before[i] == (*c, *a) { nx[i + 1] = true }
            if *c == '\n' {
                if i < n && before[i].0 == '\n' { nx[i + 1] = true }
                nx[i] = true;
                let mut k = i;
                while k < n && before[k].0 == ' ' { k += 1; nx[k] = true }
            }
        }
        ok = nx;
    }
    if !ok[n] { return Err(format!("not a rewrapping: {:?} became {:?}", before, after)) }
    if l.get_style() != m.cur.0 || l.get_colors() != (m.cur.1, m.cur.2) { return Err(format!("the active style changed to {:?} {:?}, was {:?}", l.get_style(), l.get_colors(), m.cur)) }
    tiling(&l)?;
    // and can be built on
    let mut m2 = Model { ch: after.clone(), cur: m.cur, touched: true };
    for _ in 0..1 + t.n(3) { step(t, &mut l, &mut m2, true, 0); }
    m2.same(&l)?;
    mark(t, after.iter().filter(|x| x.0 == '\n').count() > before.iter().filter(|x| x.0 == '\n').count());
    Ok(())
}
/// words of all widths, blanks anywhere
pub fn c27(t: &mut Tape) -> R {
    let (width, mut l) = if t.n(2) == 0 { (1 + t.n(9), build(t, true, 0, 8).0) } else {
        let width = 1 + t.n(99);
        let mut s = String::new();
        for _ in 0..1 + t.n(7) {
            for _ in 0..t.n(3) { s.push_str(["", " ", "  ", "\n", "      "][t.n(5)]); }
            let c = ['x', 'y', '\u{4e00}', '\u{301}', 'e', '-'][t.n(6)];
            for _ in 0..t.n(1 + width) { s.push(c); }
            s.push_str([" ", "", "\n", "  ", "-"][t.n(5)]);
        }
        t.say(format!("Line::from({:?})", s));
        let mut l = Line::from_string(s);
        if t.bool() { l.set_style(Style::BOLD); l.add_text("ab  cd ef"); t.say("add bold \"ab  cd ef\"".to_string()); }
        (width, l)
    };
    t.say(format!("wrap_to_width({})", width));
    let n = l.as_str().len();
    l.wrap_to_width(width);
    for part in l.as_str().split('\n') {
        let p = part.trim_end_matches(' ');
        let w: usize = p.chars().map(|c| UnicodeWidthChar::width(c).unwrap_or(0)).sum();
        if w > width.max(2) { return Err(format!("{:?} is {} columns wide, asked for {}", part, w, width)) }
    }
    mark(t, n > width);
    Ok(())
}
fn sgr(m: &mut Model, p: &str) {
    let codes: Vec<u32> = p.split(';').map(|x| x.parse().unwrap_or(0)).collect();
    let mut i = 0;
    while i < codes.len() {
        let c = codes[i]; i += 1;
        let col = |n: u32| -> Option<Color> { Some([Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White][n as usize]) };
        let s = |m: &mut Model, on: Style, off: Style| { m.cur.0 = (m.cur.0 | on) - off; };
        match c {
            0 => m.cur = PLAIN,
            1 => s(m, Style::BOLD, Style::PLAIN), 2 => s(m, Style::DIM, Style::PLAIN), 3 => s(m, Style::ITALIC, Style::PLAIN),
            4 => s(m, Style::UNDERLINE, Style::PLAIN), 7 => s(m, Style::INVERSE, Style::PLAIN),
            21 => s(m, Style::PLAIN, Style::BOLD), 22 => s(m, Style::PLAIN, Style::BOLD | Style::DIM), 23 => s(m, Style::PLAIN, Style::ITALIC),
            24 => s(m, Style::PLAIN, Style::UNDERLINE), 27 => s(m, Style::PLAIN, Style::INVERSE),
            30..=37 => m.cur.1 = col(c - 30), 39 => m.cur.1 = None,
            40..=47 => m.cur.2 = col(c - 40), 49 => m.cur.2 = None,
            38 | 48 | 58 => {
                let k = codes.get(i).copied(); if k.is_some() { i += 1 }
                match k { Some(5) => i += 1, Some(2) => i += 3, _ => () }
            }
            _ => (),
        }
    }
}
pub fn c05(t: &mut Tape) -> R {
    let (mut l, mut m) = build(t, true, 0, 3);
    for _ in 0..1 + t.n(2) {
        let s = t.text(ANSI, 12);
        t.say(format!("add_ansi_text({:?})", s));
        l.add_ansi_text(&s[..]);
        let mut rest = &s[..];
        while let Some(p) = rest.find("\x1b[") {
            let par = &rest[p + 2..];
            let n = par.bytes().take_while(|b| (0x30..=0x3f).contains(b)).count();
            if par.as_bytes().get(n) == Some(&b'm') {
                m.text(&rest[..p]); sgr(&mut m, &par[..n]); rest = &par[n + 1..];
            } else { m.text(&rest[..p + 2]); rest = par; }
        }
        m.text(rest);
        m.same(&l)?;
    }
    let e = t.log.iter().any(|x| x.contains("u{1b}"));
    mark(t, e);
    Ok(())
}
