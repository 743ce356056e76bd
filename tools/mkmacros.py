#!/usr/bin/env python3
"""Writes units/macros/overlay.vx (uses of liso_add! and liso! with what each must do, as functions under contract) and
harness/src/macros_gen.rs (the same uses, next to the method calls they stand for)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = []  # (name, tokens, effect on the line's state v, method call, comma needed)
def el(n, t, f, m, comma=True): E.append((n, t, f, m, comma))
el('reset', 'reset', 'e_reset({v})', 'l.reset_all()')
COL = ['Black', 'Red', 'Green', 'Yellow', 'Blue', 'Cyan', 'Magenta', 'White']
for g in ('fg', 'bg'):
    def co(n, t, c): el('%s_%s' % (g, n), '%s = %s' % (g, t), 'e_%s({v}, %s)' % (g, c), 'l.set_%s_color(%s)' % (g, c))
    for c in COL:
        co('cap_' + c.lower(), c, 'Some(Color::%s)' % c); co(c.lower(), c.lower(), 'Some(Color::%s)' % c)
    co('none', 'none', 'None'); co('cap_none', 'None', 'None'); co('var', 'c', 'c'); co('some', 'Some(Color::Cyan)', 'Some(Color::Cyan)'); co('paren', '(c)', 'c')
    co('call', 'same(c)', 'c')
el('plain', 'plain', 'e_set({v}, Style::PLAIN)', 'l.set_style(Style::PLAIN)', False)
ST = [('bold', 'BOLD'), ('dim', 'DIM'), ('underline', 'UNDERLINE'), ('inverse', 'INVERSE'), ('reverse', 'INVERSE'), ('italic', 'ITALIC')]
for p, q, f, m in (('', '', 'e_set', 'set'), ('+', 'on_', 'e_on', 'activate'), ('-', 'off_', 'e_off', 'deactivate'), ('^', 'toggle_', 'e_tog', 'toggle')):
    for s, k in ST: el(q + s, p + s, '%s({v}, Style::%s)' % (f, k), 'l.%s_style(Style::%s)' % (m, k), False)
el('ansi', 'ansi x', 'e_ansi({v}, x@)', 'l.add_ansi_text(x)')
el('ansi_lit', 'ansi "lit"', 'e_ansi({v}, "lit"@)', 'l.add_ansi_text("lit")')
el('text', 'x', 'e_text({v}, x@)', 'l.add_text(x)')
el('text_lit', '"lit"', 'e_text({v}, "lit"@)', 'l.add_text("lit")')
el('text_call', 'whole(x)', 'e_text({v}, x@)', 'l.add_text(whole(x))')
R = ['reset', 'fg_red', 'bg_none', 'fg_var', 'plain', 'bold', 'on_dim', 'off_italic', 'toggle_inverse', 'ansi', 'text']
B = {e[0]: e for e in E}
TX = ('y', 'y', 'e_text({v}, y@)', 'l.add_text(y)', True)
def uses(e):
    """(what is written, the elements it consists of)"""
    u = [(e[1], [e]), (e[1] + ',', [e]), ('y, ' + e[1], [TX, e]), ('y, ' + e[1] + ',, y,', [TX, e, TX]), (', ' + e[1] + ', y', [e, TX])]
    u += [('%s, %s' % (e[1], B[r][1]), [e, B[r]]) for r in R]
    if not e[4]: u += [('%s %s' % (e[1], B[r][1]), [e, B[r]]) for r in R]
    return u
def eff(es, v):
    for x in es: v = x[2].replace('{v}', v)
    return v
o = []; h = []; n = 0
for e in E:
    us = uses(e); n += len(us)
    o.append('//@use use_%s props=C28' % e[0])
    o.append('pub fn use_%s(x: &str, y: &str, c: Option<Color>, %s)' % (e[0], ', '.join('l%d: &mut Line' % i for i in range(len(us)))))
    o.append('    ensures')
    for i, (t, es) in enumerate(us): o.append('        final(l%d).g@ == %s, //# C28' % (i, eff(es, 'old(l%d).g@' % i)))
    o.append('{')
    for i, (t, es) in enumerate(us): o.append('    liso_add!(l%d, %s);' % (i, t))
    o.append('    let r = liso!(%s);' % e[1])
    o.append('    assert(r.g@ == %s); //# C28' % eff([e], 'v_new()'))
    o.append('    let r = liso!(y, %s, y);' % e[1])
    o.append('    assert(r.g@ == %s); //# C28' % eff([TX, e, TX], 'v_new()'))
    o.append('}'); n += 2
    h.append('fn use_%s(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {' % e[0])
    for t, es in us:
        h.append('    let mut a = p.clone(); liso_add!(a, %s); let mut l = p.clone(); %s f(%s, a, l);' % (t, ' '.join(x[3] + ';' for x in es), '"' + ('liso_add!(a, %s)' % t).replace('"', '\\"') + '"'))
    h.append('    let a = liso!(%s); let mut l = Line::new(); %s; f(%s, a, l);' % (e[1], e[3], '"' + ('liso!(%s)' % e[1]).replace('"', '\\"') + '"'))
    h.append('    let a = liso!(y, %s, y); let mut l = Line::new(); l.add_text(y); %s; l.add_text(y); f(%s, a, l);' % (e[1], e[3], '"' + ('liso!(y, %s, y)' % e[1]).replace('"', '\\"') + '"'))
    h.append('}')
HEAD = r'''//@header
//@include ../common/sx.rs
// (written by tools/mkmacros.py)
use sx::*;
//@features wrap history completion global
//@file src/lib.rs
//@macros
//@raw
verus! {
use sx::*;
//@type Color #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@raw
/// (the bits: units attrs_ct and attrs_vt)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Style { pub bits: u32 }
impl Style { pub const PLAIN: Style = Style { bits: 0 }; pub const BOLD: Style = Style { bits: 1 }; pub const DIM: Style = Style { bits: 2 }; pub const UNDERLINE: Style = Style { bits: 4 };
    pub const INVERSE: Style = Style { bits: 8 }; pub const REVERSE: Style = Style { bits: 8 }; pub const ITALIC: Style = Style { bits: 16 }; }
/// What a Line is: the text so far, each piece with its attributes, and the attributes that further text will have.
pub struct VxAt { pub s: Style, pub fg: Option<Color>, pub bg: Option<Color> }
pub struct VxL { pub parts: Seq<(Seq<char>, bool, VxAt)>, pub at: VxAt }
pub open spec fn v_plain() -> VxAt { VxAt { s: Style { bits: 0 }, fg: None, bg: None } }
pub open spec fn v_new() -> VxL { VxL { parts: Seq::empty(), at: v_plain() } }
pub open spec fn e_reset(v: VxL) -> VxL { VxL { at: v_plain(), ..v } }
pub open spec fn e_fg(v: VxL, c: Option<Color>) -> VxL { VxL { at: VxAt { fg: c, ..v.at }, ..v } }
pub open spec fn e_bg(v: VxL, c: Option<Color>) -> VxL { VxL { at: VxAt { bg: c, ..v.at }, ..v } }
pub open spec fn e_set(v: VxL, s: Style) -> VxL { VxL { at: VxAt { s: s, ..v.at }, ..v } }
pub open spec fn e_on(v: VxL, s: Style) -> VxL { e_set(v, Style { bits: v.at.s.bits | s.bits }) }
pub open spec fn e_off(v: VxL, s: Style) -> VxL { e_set(v, Style { bits: v.at.s.bits & !s.bits }) }
pub open spec fn e_tog(v: VxL, s: Style) -> VxL { e_set(v, Style { bits: v.at.s.bits ^ s.bits }) }
pub open spec fn e_text(v: VxL, t: Seq<char>) -> VxL { VxL { parts: v.parts.push((t, false, v.at)), ..v } }
/// the attributes after ANSI text (unit line)
pub uninterp spec fn ansi_at(a: VxAt, t: Seq<char>) -> VxAt;
pub open spec fn e_ansi(v: VxL, t: Seq<char>) -> VxL { VxL { parts: v.parts.push((t, true, v.at)), at: ansi_at(v.at, t) } }
pub trait VxText { spec fn tx(&self) -> Seq<char>; }
impl VxText for &str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VxText for String { open spec fn tx(&self) -> Seq<char> { self@ } }
pub struct Line { pub g: Ghost<VxL> }
/// (the contracts of these methods: unit line)
impl Line {
    #[verifier::external_body]
    pub fn new() -> (r: Line) ensures r.g@ == v_new() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset_all(&mut self) ensures final(self).g@ == e_reset(old(self).g@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_fg_color(&mut self, c: Option<Color>) ensures final(self).g@ == e_fg(old(self).g@, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_bg_color(&mut self, c: Option<Color>) ensures final(self).g@ == e_bg(old(self).g@, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_colors(&mut self, f: Option<Color>, b: Option<Color>) ensures final(self).g@ == e_bg(e_fg(old(self).g@, f), b) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_style(&mut self, s: Style) ensures final(self).g@ == e_set(old(self).g@, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear_style(&mut self) ensures final(self).g@ == e_set(old(self).g@, Style::PLAIN) { unimplemented!() }
    #[verifier::external_body]
    pub fn activate_style(&mut self, s: Style) ensures final(self).g@ == e_on(old(self).g@, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn deactivate_style(&mut self, s: Style) ensures final(self).g@ == e_off(old(self).g@, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn toggle_style(&mut self, s: Style) ensures final(self).g@ == e_tog(old(self).g@, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_text<T: VxText>(&mut self, t: T) ensures final(self).g@ == e_text(old(self).g@, t.tx()) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_ansi_text<T: VxText>(&mut self, t: T) ensures final(self).g@ == e_ansi(old(self).g@, t.tx()) { unimplemented!() }
}
pub fn same(c: Option<Color>) -> (r: Option<Color>) ensures r == c { c }
#[verifier::external_body]
pub fn whole(x: &str) -> (r: String) ensures r@ == x@ { unimplemented!() }
/// the lines that may be printed, and wrapped
pub uninterp spec fn printed(v: VxL) -> bool;
pub uninterp spec fn wrapped(v: VxL) -> bool;
pub struct OutputOnly { pub x: u8 }
#[verifier::external_body]
pub fn output() -> OutputOnly { unimplemented!() }
impl OutputOnly {
    #[verifier::external_body]
    pub fn println(&self, l: Line)
        requires printed(l.g@), //# C28
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wrapln(&self, l: Line)
        requires wrapped(l.g@), //# C28
    { unimplemented!() }
}
//@use use_println props=C28
pub fn use_println(x: &str)
    requires printed(e_text(e_set(e_fg(v_new(), Some(Color::Red)), Style::BOLD), x@)), printed(v_new()), printed(e_text(v_new(), x@))
{
    println!(fg = red, bold, x);
    println!();
    println!(x)
}
//@use use_wrapln props=C28
pub fn use_wrapln(x: &str)
    requires wrapped(e_text(e_set(e_fg(v_new(), Some(Color::Red)), Style::BOLD), x@)), wrapped(v_new()), wrapped(e_text(v_new(), x@))
{
    wrapln!(fg = red, bold, x);
    wrapln!();
    wrapln!(x)
}
//@use use_nothing props=C28
pub fn use_nothing(l0: &mut Line, l1: &mut Line)
    ensures final(l0).g@ == old(l0).g@, final(l1).g@ == old(l1).g@, //# C28
{
    liso_add!(l0,);
    liso_add!(l1);
    let r = liso!();
    assert(r.g@ == v_new()); //# C28
}
'''
os.makedirs(V + '/units/macros', exist_ok=True)
open(V + '/units/macros/overlay.vx', 'w').write(HEAD + '\n'.join(o) + '\n//@footer\n}\nfn main() {}\n')
G = '''// Written by tools/mkmacros.py: each use of liso_add! and liso!, next to the method calls it stands for.
use liso::{liso, liso_add, Color, Line, Style};
fn same(c: Option<Color>) -> Option<Color> { c }
fn whole(x: &str) -> String { x.to_string() }
'''
G += '\n'.join(h) + '\npub const ALL: &[fn(&Line, &str, &str, Option<Color>, &mut dyn FnMut(&str, Line, Line))] = &[%s];\n' % ', '.join('use_' + e[0] for e in E)
open(V + '/harness/src/macros_gen.rs', 'w').write(G)
print('%d elements, %d uses' % (len(E), n))
