//@header
//@include ../common/sx.rs
// (written by tools/mkmacros.py)
use sx::*;
//@features wrap history completion global
//@file src/lib.rs
//@macros
//@raw
verus! {
use sx::*;
//@type Color #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@raw
/// (the bits: units attrs_ct and attrs_vt)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Style { pub bits: u32 }
impl Style { pub const PLAIN: Style = Style { bits: 0 }; pub const BOLD: Style = Style { bits: 1 }; pub const DIM: Style = Style { bits: 2 }; pub const UNDERLINE: Style = Style { bits: 4 };
    pub const INVERSE: Style = Style { bits: 8 }; pub const REVERSE: Style = Style { bits: 8 }; pub const ITALIC: Style = Style { bits: 16 }; }
/// What a Line is: the text so far, each piece with its attributes, and the attributes that further text will have.
pub struct VxAt { pub s: Style, pub fg: Option<Color>, pub bg: Option<Color> }
pub struct VxL { pub parts: Seq<(Seq<char>, bool, VxAt)>, pub at: VxAt }
pub open spec fn v_plain() -> VxAt { VxAt { s: Style { bits: 0 }, fg: None, bg: None } }
pub open spec fn v_new() -> VxL { VxL { parts: Seq::empty(), at: v_plain() } }
pub open spec fn e_reset(v: VxL) -> VxL { VxL { at: v_plain(), ..v } }
pub open spec fn e_fg(v: VxL, c: Option<Color>) -> VxL { VxL { at: VxAt { fg: c, ..v.at }, ..v } }
pub open spec fn e_bg(v: VxL, c: Option<Color>) -> VxL { VxL { at: VxAt { bg: c, ..v.at }, ..v } }
pub open spec fn e_set(v: VxL, s: Style) -> VxL { VxL { at: VxAt { s: s, ..v.at }, ..v } }
pub open spec fn e_on(v: VxL, s: Style) -> VxL { e_set(v, Style { bits: v.at.s.bits | s.bits }) }
pub open spec fn e_off(v: VxL, s: Style) -> VxL { e_set(v, Style { bits: v.at.s.bits & !s.bits }) }
pub open spec fn e_tog(v: VxL, s: Style) -> VxL { e_set(v, Style { bits: v.at.s.bits ^ s.bits }) }
pub open spec fn e_text(v: VxL, t: Seq<char>) -> VxL { VxL { parts: v.parts.push((t, false, v.at)), ..v } }
/// the attributes after ANSI text (unit line)
pub uninterp spec fn ansi_at(a: VxAt, t: Seq<char>) -> VxAt;
pub open spec fn e_ansi(v: VxL, t: Seq<char>) -> VxL { VxL { parts: v.parts.push((t, true, v.at)), at: ansi_at(v.at, t) } }
pub trait VxText { spec fn tx(&self) -> Seq<char>; }
impl VxText for &str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VxText for String { open spec fn tx(&self) -> Seq<char> { self@ } }
pub struct Line { pub g: Ghost<VxL> }
/// (the contracts of these methods: unit line)
impl Line {
    #[verifier::external_body]
    pub fn new() -> (r: Line) ensures r.g@ == v_new() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset_all(&mut self) ensures final(self).g@ == e_reset(old(self).g@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_fg_color(&mut self, c: Option<Color>) ensures final(self).g@ == e_fg(old(self).g@, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_bg_color(&mut self, c: Option<Color>) ensures final(self).g@ == e_bg(old(self).g@, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_colors(&mut self, f: Option<Color>, b: Option<Color>) ensures final(self).g@ == e_bg(e_fg(old(self).g@, f), b) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_style(&mut self, s: Style) ensures final(self).g@ == e_set(old(self).g@, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear_style(&mut self) ensures final(self).g@ == e_set(old(self).g@, Style::PLAIN) { unimplemented!() }
    #[verifier::external_body]
    pub fn activate_style(&mut self, s: Style) ensures final(self).g@ == e_on(old(self).g@, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn deactivate_style(&mut self, s: Style) ensures final(self).g@ == e_off(old(self).g@, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn toggle_style(&mut self, s: Style) ensures final(self).g@ == e_tog(old(self).g@, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_text<T: VxText>(&mut self, t: T) ensures final(self).g@ == e_text(old(self).g@, t.tx()) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_ansi_text<T: VxText>(&mut self, t: T) ensures final(self).g@ == e_ansi(old(self).g@, t.tx()) { unimplemented!() }
}
pub fn same(c: Option<Color>) -> (r: Option<Color>) ensures r == c { c }
#[verifier::external_body]
pub fn whole(x: &str) -> (r: String) ensures r@ == x@ { unimplemented!() }
/// the lines that may be printed, and wrapped
pub uninterp spec fn printed(v: VxL) -> bool;
pub uninterp spec fn wrapped(v: VxL) -> bool;
pub struct OutputOnly { pub x: u8 }
#[verifier::external_body]
pub fn output() -> OutputOnly { unimplemented!() }
impl OutputOnly {
    #[verifier::external_body]
    pub fn println(&self, l: Line)
        requires printed(l.g@), //# C28
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wrapln(&self, l: Line)
        requires wrapped(l.g@), //# C28
    { unimplemented!() }
}
//@use use_println props=C28
pub fn use_println(x: &str)
    requires printed(e_text(e_set(e_fg(v_new(), Some(Color::Red)), Style::BOLD), x@)), printed(v_new()), printed(e_text(v_new(), x@))
{
    println!(fg = red, bold, x);
    println!();
    println!(x)
}
//@use use_wrapln props=C28
pub fn use_wrapln(x: &str)
    requires wrapped(e_text(e_set(e_fg(v_new(), Some(Color::Red)), Style::BOLD), x@)), wrapped(v_new()), wrapped(e_text(v_new(), x@))
{
    wrapln!(fg = red, bold, x);
    wrapln!();
    wrapln!(x)
}
//@use use_nothing props=C28
pub fn use_nothing(l0: &mut Line, l1: &mut Line)
    ensures final(l0).g@ == old(l0).g@, final(l1).g@ == old(l1).g@, //# C28
{
    liso_add!(l0,);
    liso_add!(l1);
    let r = liso!();
    assert(r.g@ == v_new()); //# C28
}
//@use use_reset props=C28
pub fn use_reset(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_reset(old(l0).g@), //# C28
        final(l1).g@ == e_reset(old(l1).g@), //# C28
        final(l2).g@ == e_reset(e_text(old(l2).g@, y@)), //# C28
        final(l3).g@ == e_text(e_reset(e_text(old(l3).g@, y@)), y@), //# C28
        final(l4).g@ == e_text(e_reset(old(l4).g@), y@), //# C28
        final(l5).g@ == e_reset(e_reset(old(l5).g@)), //# C28
        final(l6).g@ == e_fg(e_reset(old(l6).g@), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_reset(old(l7).g@), None), //# C28
        final(l8).g@ == e_fg(e_reset(old(l8).g@), c), //# C28
        final(l9).g@ == e_set(e_reset(old(l9).g@), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_reset(old(l10).g@), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_reset(old(l11).g@), Style::DIM), //# C28
        final(l12).g@ == e_off(e_reset(old(l12).g@), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_reset(old(l13).g@), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_reset(old(l14).g@), x@), //# C28
        final(l15).g@ == e_text(e_reset(old(l15).g@), x@), //# C28
{
    liso_add!(l0, reset);
    liso_add!(l1, reset,);
    liso_add!(l2, y, reset);
    liso_add!(l3, y, reset,, y,);
    liso_add!(l4, , reset, y);
    liso_add!(l5, reset, reset);
    liso_add!(l6, reset, fg = red);
    liso_add!(l7, reset, bg = none);
    liso_add!(l8, reset, fg = c);
    liso_add!(l9, reset, plain);
    liso_add!(l10, reset, bold);
    liso_add!(l11, reset, +dim);
    liso_add!(l12, reset, -italic);
    liso_add!(l13, reset, ^inverse);
    liso_add!(l14, reset, ansi x);
    liso_add!(l15, reset, x);
    let r = liso!(reset);
    assert(r.g@ == e_reset(v_new())); //# C28
    let r = liso!(y, reset, y);
    assert(r.g@ == e_text(e_reset(e_text(v_new(), y@)), y@)); //# C28
}
//@use use_fg_cap_black props=C28
pub fn use_fg_cap_black(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Black)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Black)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Black)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Black)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Black)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Black))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Black)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Black)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Black)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Black)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Black)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Black)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Black)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Black)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Black)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Black)), x@), //# C28
{
    liso_add!(l0, fg = Black);
    liso_add!(l1, fg = Black,);
    liso_add!(l2, y, fg = Black);
    liso_add!(l3, y, fg = Black,, y,);
    liso_add!(l4, , fg = Black, y);
    liso_add!(l5, fg = Black, reset);
    liso_add!(l6, fg = Black, fg = red);
    liso_add!(l7, fg = Black, bg = none);
    liso_add!(l8, fg = Black, fg = c);
    liso_add!(l9, fg = Black, plain);
    liso_add!(l10, fg = Black, bold);
    liso_add!(l11, fg = Black, +dim);
    liso_add!(l12, fg = Black, -italic);
    liso_add!(l13, fg = Black, ^inverse);
    liso_add!(l14, fg = Black, ansi x);
    liso_add!(l15, fg = Black, x);
    let r = liso!(fg = Black);
    assert(r.g@ == e_fg(v_new(), Some(Color::Black))); //# C28
    let r = liso!(y, fg = Black, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Black)), y@)); //# C28
}
//@use use_fg_black props=C28
pub fn use_fg_black(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Black)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Black)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Black)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Black)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Black)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Black))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Black)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Black)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Black)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Black)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Black)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Black)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Black)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Black)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Black)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Black)), x@), //# C28
{
    liso_add!(l0, fg = black);
    liso_add!(l1, fg = black,);
    liso_add!(l2, y, fg = black);
    liso_add!(l3, y, fg = black,, y,);
    liso_add!(l4, , fg = black, y);
    liso_add!(l5, fg = black, reset);
    liso_add!(l6, fg = black, fg = red);
    liso_add!(l7, fg = black, bg = none);
    liso_add!(l8, fg = black, fg = c);
    liso_add!(l9, fg = black, plain);
    liso_add!(l10, fg = black, bold);
    liso_add!(l11, fg = black, +dim);
    liso_add!(l12, fg = black, -italic);
    liso_add!(l13, fg = black, ^inverse);
    liso_add!(l14, fg = black, ansi x);
    liso_add!(l15, fg = black, x);
    let r = liso!(fg = black);
    assert(r.g@ == e_fg(v_new(), Some(Color::Black))); //# C28
    let r = liso!(y, fg = black, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Black)), y@)); //# C28
}
//@use use_fg_cap_red props=C28
pub fn use_fg_cap_red(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Red)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Red)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Red)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Red)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Red)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Red))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Red)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Red)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Red)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Red)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Red)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Red)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Red)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Red)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Red)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Red)), x@), //# C28
{
    liso_add!(l0, fg = Red);
    liso_add!(l1, fg = Red,);
    liso_add!(l2, y, fg = Red);
    liso_add!(l3, y, fg = Red,, y,);
    liso_add!(l4, , fg = Red, y);
    liso_add!(l5, fg = Red, reset);
    liso_add!(l6, fg = Red, fg = red);
    liso_add!(l7, fg = Red, bg = none);
    liso_add!(l8, fg = Red, fg = c);
    liso_add!(l9, fg = Red, plain);
    liso_add!(l10, fg = Red, bold);
    liso_add!(l11, fg = Red, +dim);
    liso_add!(l12, fg = Red, -italic);
    liso_add!(l13, fg = Red, ^inverse);
    liso_add!(l14, fg = Red, ansi x);
    liso_add!(l15, fg = Red, x);
    let r = liso!(fg = Red);
    assert(r.g@ == e_fg(v_new(), Some(Color::Red))); //# C28
    let r = liso!(y, fg = Red, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Red)), y@)); //# C28
}
//@use use_fg_red props=C28
pub fn use_fg_red(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Red)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Red)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Red)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Red)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Red)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Red))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Red)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Red)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Red)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Red)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Red)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Red)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Red)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Red)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Red)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Red)), x@), //# C28
{
    liso_add!(l0, fg = red);
    liso_add!(l1, fg = red,);
    liso_add!(l2, y, fg = red);
    liso_add!(l3, y, fg = red,, y,);
    liso_add!(l4, , fg = red, y);
    liso_add!(l5, fg = red, reset);
    liso_add!(l6, fg = red, fg = red);
    liso_add!(l7, fg = red, bg = none);
    liso_add!(l8, fg = red, fg = c);
    liso_add!(l9, fg = red, plain);
    liso_add!(l10, fg = red, bold);
    liso_add!(l11, fg = red, +dim);
    liso_add!(l12, fg = red, -italic);
    liso_add!(l13, fg = red, ^inverse);
    liso_add!(l14, fg = red, ansi x);
    liso_add!(l15, fg = red, x);
    let r = liso!(fg = red);
    assert(r.g@ == e_fg(v_new(), Some(Color::Red))); //# C28
    let r = liso!(y, fg = red, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Red)), y@)); //# C28
}
//@use use_fg_cap_green props=C28
pub fn use_fg_cap_green(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Green)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Green)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Green)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Green)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Green)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Green))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Green)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Green)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Green)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Green)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Green)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Green)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Green)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Green)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Green)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Green)), x@), //# C28
{
    liso_add!(l0, fg = Green);
    liso_add!(l1, fg = Green,);
    liso_add!(l2, y, fg = Green);
    liso_add!(l3, y, fg = Green,, y,);
    liso_add!(l4, , fg = Green, y);
    liso_add!(l5, fg = Green, reset);
    liso_add!(l6, fg = Green, fg = red);
    liso_add!(l7, fg = Green, bg = none);
    liso_add!(l8, fg = Green, fg = c);
    liso_add!(l9, fg = Green, plain);
    liso_add!(l10, fg = Green, bold);
    liso_add!(l11, fg = Green, +dim);
    liso_add!(l12, fg = Green, -italic);
    liso_add!(l13, fg = Green, ^inverse);
    liso_add!(l14, fg = Green, ansi x);
    liso_add!(l15, fg = Green, x);
    let r = liso!(fg = Green);
    assert(r.g@ == e_fg(v_new(), Some(Color::Green))); //# C28
    let r = liso!(y, fg = Green, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Green)), y@)); //# C28
}
//@use use_fg_green props=C28
pub fn use_fg_green(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Green)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Green)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Green)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Green)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Green)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Green))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Green)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Green)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Green)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Green)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Green)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Green)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Green)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Green)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Green)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Green)), x@), //# C28
{
    liso_add!(l0, fg = green);
    liso_add!(l1, fg = green,);
    liso_add!(l2, y, fg = green);
    liso_add!(l3, y, fg = green,, y,);
    liso_add!(l4, , fg = green, y);
    liso_add!(l5, fg = green, reset);
    liso_add!(l6, fg = green, fg = red);
    liso_add!(l7, fg = green, bg = none);
    liso_add!(l8, fg = green, fg = c);
    liso_add!(l9, fg = green, plain);
    liso_add!(l10, fg = green, bold);
    liso_add!(l11, fg = green, +dim);
    liso_add!(l12, fg = green, -italic);
    liso_add!(l13, fg = green, ^inverse);
    liso_add!(l14, fg = green, ansi x);
    liso_add!(l15, fg = green, x);
    let r = liso!(fg = green);
    assert(r.g@ == e_fg(v_new(), Some(Color::Green))); //# C28
    let r = liso!(y, fg = green, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Green)), y@)); //# C28
}
//@use use_fg_cap_yellow props=C28
pub fn use_fg_cap_yellow(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Yellow)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Yellow)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Yellow)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Yellow)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Yellow)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Yellow))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Yellow)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Yellow)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Yellow)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Yellow)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Yellow)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Yellow)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Yellow)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Yellow)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Yellow)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Yellow)), x@), //# C28
{
    liso_add!(l0, fg = Yellow);
    liso_add!(l1, fg = Yellow,);
    liso_add!(l2, y, fg = Yellow);
    liso_add!(l3, y, fg = Yellow,, y,);
    liso_add!(l4, , fg = Yellow, y);
    liso_add!(l5, fg = Yellow, reset);
    liso_add!(l6, fg = Yellow, fg = red);
    liso_add!(l7, fg = Yellow, bg = none);
    liso_add!(l8, fg = Yellow, fg = c);
    liso_add!(l9, fg = Yellow, plain);
    liso_add!(l10, fg = Yellow, bold);
    liso_add!(l11, fg = Yellow, +dim);
    liso_add!(l12, fg = Yellow, -italic);
    liso_add!(l13, fg = Yellow, ^inverse);
    liso_add!(l14, fg = Yellow, ansi x);
    liso_add!(l15, fg = Yellow, x);
    let r = liso!(fg = Yellow);
    assert(r.g@ == e_fg(v_new(), Some(Color::Yellow))); //# C28
    let r = liso!(y, fg = Yellow, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Yellow)), y@)); //# C28
}
//@use use_fg_yellow props=C28
pub fn use_fg_yellow(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Yellow)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Yellow)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Yellow)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Yellow)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Yellow)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Yellow))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Yellow)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Yellow)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Yellow)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Yellow)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Yellow)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Yellow)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Yellow)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Yellow)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Yellow)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Yellow)), x@), //# C28
{
    liso_add!(l0, fg = yellow);
    liso_add!(l1, fg = yellow,);
    liso_add!(l2, y, fg = yellow);
    liso_add!(l3, y, fg = yellow,, y,);
    liso_add!(l4, , fg = yellow, y);
    liso_add!(l5, fg = yellow, reset);
    liso_add!(l6, fg = yellow, fg = red);
    liso_add!(l7, fg = yellow, bg = none);
    liso_add!(l8, fg = yellow, fg = c);
    liso_add!(l9, fg = yellow, plain);
    liso_add!(l10, fg = yellow, bold);
    liso_add!(l11, fg = yellow, +dim);
    liso_add!(l12, fg = yellow, -italic);
    liso_add!(l13, fg = yellow, ^inverse);
    liso_add!(l14, fg = yellow, ansi x);
    liso_add!(l15, fg = yellow, x);
    let r = liso!(fg = yellow);
    assert(r.g@ == e_fg(v_new(), Some(Color::Yellow))); //# C28
    let r = liso!(y, fg = yellow, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Yellow)), y@)); //# C28
}
//@use use_fg_cap_blue props=C28
pub fn use_fg_cap_blue(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Blue)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Blue)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Blue)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Blue)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Blue)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Blue))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Blue)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Blue)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Blue)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Blue)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Blue)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Blue)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Blue)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Blue)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Blue)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Blue)), x@), //# C28
{
    liso_add!(l0, fg = Blue);
    liso_add!(l1, fg = Blue,);
    liso_add!(l2, y, fg = Blue);
    liso_add!(l3, y, fg = Blue,, y,);
    liso_add!(l4, , fg = Blue, y);
    liso_add!(l5, fg = Blue, reset);
    liso_add!(l6, fg = Blue, fg = red);
    liso_add!(l7, fg = Blue, bg = none);
    liso_add!(l8, fg = Blue, fg = c);
    liso_add!(l9, fg = Blue, plain);
    liso_add!(l10, fg = Blue, bold);
    liso_add!(l11, fg = Blue, +dim);
    liso_add!(l12, fg = Blue, -italic);
    liso_add!(l13, fg = Blue, ^inverse);
    liso_add!(l14, fg = Blue, ansi x);
    liso_add!(l15, fg = Blue, x);
    let r = liso!(fg = Blue);
    assert(r.g@ == e_fg(v_new(), Some(Color::Blue))); //# C28
    let r = liso!(y, fg = Blue, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Blue)), y@)); //# C28
}
//@use use_fg_blue props=C28
pub fn use_fg_blue(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Blue)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Blue)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Blue)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Blue)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Blue)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Blue))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Blue)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Blue)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Blue)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Blue)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Blue)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Blue)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Blue)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Blue)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Blue)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Blue)), x@), //# C28
{
    liso_add!(l0, fg = blue);
    liso_add!(l1, fg = blue,);
    liso_add!(l2, y, fg = blue);
    liso_add!(l3, y, fg = blue,, y,);
    liso_add!(l4, , fg = blue, y);
    liso_add!(l5, fg = blue, reset);
    liso_add!(l6, fg = blue, fg = red);
    liso_add!(l7, fg = blue, bg = none);
    liso_add!(l8, fg = blue, fg = c);
    liso_add!(l9, fg = blue, plain);
    liso_add!(l10, fg = blue, bold);
    liso_add!(l11, fg = blue, +dim);
    liso_add!(l12, fg = blue, -italic);
    liso_add!(l13, fg = blue, ^inverse);
    liso_add!(l14, fg = blue, ansi x);
    liso_add!(l15, fg = blue, x);
    let r = liso!(fg = blue);
    assert(r.g@ == e_fg(v_new(), Some(Color::Blue))); //# C28
    let r = liso!(y, fg = blue, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Blue)), y@)); //# C28
}
//@use use_fg_cap_cyan props=C28
pub fn use_fg_cap_cyan(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Cyan)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Cyan)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Cyan)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Cyan)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Cyan)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Cyan))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Cyan)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Cyan)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Cyan)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Cyan)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Cyan)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Cyan)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Cyan)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Cyan)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Cyan)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Cyan)), x@), //# C28
{
    liso_add!(l0, fg = Cyan);
    liso_add!(l1, fg = Cyan,);
    liso_add!(l2, y, fg = Cyan);
    liso_add!(l3, y, fg = Cyan,, y,);
    liso_add!(l4, , fg = Cyan, y);
    liso_add!(l5, fg = Cyan, reset);
    liso_add!(l6, fg = Cyan, fg = red);
    liso_add!(l7, fg = Cyan, bg = none);
    liso_add!(l8, fg = Cyan, fg = c);
    liso_add!(l9, fg = Cyan, plain);
    liso_add!(l10, fg = Cyan, bold);
    liso_add!(l11, fg = Cyan, +dim);
    liso_add!(l12, fg = Cyan, -italic);
    liso_add!(l13, fg = Cyan, ^inverse);
    liso_add!(l14, fg = Cyan, ansi x);
    liso_add!(l15, fg = Cyan, x);
    let r = liso!(fg = Cyan);
    assert(r.g@ == e_fg(v_new(), Some(Color::Cyan))); //# C28
    let r = liso!(y, fg = Cyan, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Cyan)), y@)); //# C28
}
//@use use_fg_cyan props=C28
pub fn use_fg_cyan(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Cyan)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Cyan)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Cyan)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Cyan)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Cyan)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Cyan))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Cyan)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Cyan)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Cyan)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Cyan)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Cyan)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Cyan)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Cyan)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Cyan)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Cyan)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Cyan)), x@), //# C28
{
    liso_add!(l0, fg = cyan);
    liso_add!(l1, fg = cyan,);
    liso_add!(l2, y, fg = cyan);
    liso_add!(l3, y, fg = cyan,, y,);
    liso_add!(l4, , fg = cyan, y);
    liso_add!(l5, fg = cyan, reset);
    liso_add!(l6, fg = cyan, fg = red);
    liso_add!(l7, fg = cyan, bg = none);
    liso_add!(l8, fg = cyan, fg = c);
    liso_add!(l9, fg = cyan, plain);
    liso_add!(l10, fg = cyan, bold);
    liso_add!(l11, fg = cyan, +dim);
    liso_add!(l12, fg = cyan, -italic);
    liso_add!(l13, fg = cyan, ^inverse);
    liso_add!(l14, fg = cyan, ansi x);
    liso_add!(l15, fg = cyan, x);
    let r = liso!(fg = cyan);
    assert(r.g@ == e_fg(v_new(), Some(Color::Cyan))); //# C28
    let r = liso!(y, fg = cyan, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Cyan)), y@)); //# C28
}
//@use use_fg_cap_magenta props=C28
pub fn use_fg_cap_magenta(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Magenta)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Magenta)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Magenta)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Magenta)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Magenta)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Magenta))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Magenta)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Magenta)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Magenta)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Magenta)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Magenta)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Magenta)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Magenta)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Magenta)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Magenta)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Magenta)), x@), //# C28
{
    liso_add!(l0, fg = Magenta);
    liso_add!(l1, fg = Magenta,);
    liso_add!(l2, y, fg = Magenta);
    liso_add!(l3, y, fg = Magenta,, y,);
    liso_add!(l4, , fg = Magenta, y);
    liso_add!(l5, fg = Magenta, reset);
    liso_add!(l6, fg = Magenta, fg = red);
    liso_add!(l7, fg = Magenta, bg = none);
    liso_add!(l8, fg = Magenta, fg = c);
    liso_add!(l9, fg = Magenta, plain);
    liso_add!(l10, fg = Magenta, bold);
    liso_add!(l11, fg = Magenta, +dim);
    liso_add!(l12, fg = Magenta, -italic);
    liso_add!(l13, fg = Magenta, ^inverse);
    liso_add!(l14, fg = Magenta, ansi x);
    liso_add!(l15, fg = Magenta, x);
    let r = liso!(fg = Magenta);
    assert(r.g@ == e_fg(v_new(), Some(Color::Magenta))); //# C28
    let r = liso!(y, fg = Magenta, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Magenta)), y@)); //# C28
}
//@use use_fg_magenta props=C28
pub fn use_fg_magenta(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Magenta)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Magenta)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Magenta)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Magenta)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Magenta)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Magenta))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Magenta)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Magenta)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Magenta)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Magenta)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Magenta)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Magenta)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Magenta)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Magenta)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Magenta)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Magenta)), x@), //# C28
{
    liso_add!(l0, fg = magenta);
    liso_add!(l1, fg = magenta,);
    liso_add!(l2, y, fg = magenta);
    liso_add!(l3, y, fg = magenta,, y,);
    liso_add!(l4, , fg = magenta, y);
    liso_add!(l5, fg = magenta, reset);
    liso_add!(l6, fg = magenta, fg = red);
    liso_add!(l7, fg = magenta, bg = none);
    liso_add!(l8, fg = magenta, fg = c);
    liso_add!(l9, fg = magenta, plain);
    liso_add!(l10, fg = magenta, bold);
    liso_add!(l11, fg = magenta, +dim);
    liso_add!(l12, fg = magenta, -italic);
    liso_add!(l13, fg = magenta, ^inverse);
    liso_add!(l14, fg = magenta, ansi x);
    liso_add!(l15, fg = magenta, x);
    let r = liso!(fg = magenta);
    assert(r.g@ == e_fg(v_new(), Some(Color::Magenta))); //# C28
    let r = liso!(y, fg = magenta, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Magenta)), y@)); //# C28
}
//@use use_fg_cap_white props=C28
pub fn use_fg_cap_white(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::White)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::White)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::White)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::White)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::White)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::White))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::White)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::White)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::White)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::White)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::White)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::White)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::White)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::White)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::White)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::White)), x@), //# C28
{
    liso_add!(l0, fg = White);
    liso_add!(l1, fg = White,);
    liso_add!(l2, y, fg = White);
    liso_add!(l3, y, fg = White,, y,);
    liso_add!(l4, , fg = White, y);
    liso_add!(l5, fg = White, reset);
    liso_add!(l6, fg = White, fg = red);
    liso_add!(l7, fg = White, bg = none);
    liso_add!(l8, fg = White, fg = c);
    liso_add!(l9, fg = White, plain);
    liso_add!(l10, fg = White, bold);
    liso_add!(l11, fg = White, +dim);
    liso_add!(l12, fg = White, -italic);
    liso_add!(l13, fg = White, ^inverse);
    liso_add!(l14, fg = White, ansi x);
    liso_add!(l15, fg = White, x);
    let r = liso!(fg = White);
    assert(r.g@ == e_fg(v_new(), Some(Color::White))); //# C28
    let r = liso!(y, fg = White, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::White)), y@)); //# C28
}
//@use use_fg_white props=C28
pub fn use_fg_white(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::White)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::White)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::White)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::White)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::White)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::White))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::White)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::White)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::White)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::White)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::White)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::White)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::White)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::White)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::White)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::White)), x@), //# C28
{
    liso_add!(l0, fg = white);
    liso_add!(l1, fg = white,);
    liso_add!(l2, y, fg = white);
    liso_add!(l3, y, fg = white,, y,);
    liso_add!(l4, , fg = white, y);
    liso_add!(l5, fg = white, reset);
    liso_add!(l6, fg = white, fg = red);
    liso_add!(l7, fg = white, bg = none);
    liso_add!(l8, fg = white, fg = c);
    liso_add!(l9, fg = white, plain);
    liso_add!(l10, fg = white, bold);
    liso_add!(l11, fg = white, +dim);
    liso_add!(l12, fg = white, -italic);
    liso_add!(l13, fg = white, ^inverse);
    liso_add!(l14, fg = white, ansi x);
    liso_add!(l15, fg = white, x);
    let r = liso!(fg = white);
    assert(r.g@ == e_fg(v_new(), Some(Color::White))); //# C28
    let r = liso!(y, fg = white, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::White)), y@)); //# C28
}
//@use use_fg_none props=C28
pub fn use_fg_none(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, None), //# C28
        final(l1).g@ == e_fg(old(l1).g@, None), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), None), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), None), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, None), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, None)), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, None), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, None), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, None), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, None), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, None), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, None), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, None), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, None), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, None), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, None), x@), //# C28
{
    liso_add!(l0, fg = none);
    liso_add!(l1, fg = none,);
    liso_add!(l2, y, fg = none);
    liso_add!(l3, y, fg = none,, y,);
    liso_add!(l4, , fg = none, y);
    liso_add!(l5, fg = none, reset);
    liso_add!(l6, fg = none, fg = red);
    liso_add!(l7, fg = none, bg = none);
    liso_add!(l8, fg = none, fg = c);
    liso_add!(l9, fg = none, plain);
    liso_add!(l10, fg = none, bold);
    liso_add!(l11, fg = none, +dim);
    liso_add!(l12, fg = none, -italic);
    liso_add!(l13, fg = none, ^inverse);
    liso_add!(l14, fg = none, ansi x);
    liso_add!(l15, fg = none, x);
    let r = liso!(fg = none);
    assert(r.g@ == e_fg(v_new(), None)); //# C28
    let r = liso!(y, fg = none, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), None), y@)); //# C28
}
//@use use_fg_cap_none props=C28
pub fn use_fg_cap_none(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, None), //# C28
        final(l1).g@ == e_fg(old(l1).g@, None), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), None), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), None), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, None), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, None)), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, None), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, None), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, None), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, None), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, None), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, None), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, None), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, None), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, None), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, None), x@), //# C28
{
    liso_add!(l0, fg = None);
    liso_add!(l1, fg = None,);
    liso_add!(l2, y, fg = None);
    liso_add!(l3, y, fg = None,, y,);
    liso_add!(l4, , fg = None, y);
    liso_add!(l5, fg = None, reset);
    liso_add!(l6, fg = None, fg = red);
    liso_add!(l7, fg = None, bg = none);
    liso_add!(l8, fg = None, fg = c);
    liso_add!(l9, fg = None, plain);
    liso_add!(l10, fg = None, bold);
    liso_add!(l11, fg = None, +dim);
    liso_add!(l12, fg = None, -italic);
    liso_add!(l13, fg = None, ^inverse);
    liso_add!(l14, fg = None, ansi x);
    liso_add!(l15, fg = None, x);
    let r = liso!(fg = None);
    assert(r.g@ == e_fg(v_new(), None)); //# C28
    let r = liso!(y, fg = None, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), None), y@)); //# C28
}
//@use use_fg_var props=C28
pub fn use_fg_var(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, c), //# C28
        final(l1).g@ == e_fg(old(l1).g@, c), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), c), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), c), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, c), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, c)), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, c), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, c), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, c), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, c), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, c), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, c), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, c), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, c), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, c), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, c), x@), //# C28
{
    liso_add!(l0, fg = c);
    liso_add!(l1, fg = c,);
    liso_add!(l2, y, fg = c);
    liso_add!(l3, y, fg = c,, y,);
    liso_add!(l4, , fg = c, y);
    liso_add!(l5, fg = c, reset);
    liso_add!(l6, fg = c, fg = red);
    liso_add!(l7, fg = c, bg = none);
    liso_add!(l8, fg = c, fg = c);
    liso_add!(l9, fg = c, plain);
    liso_add!(l10, fg = c, bold);
    liso_add!(l11, fg = c, +dim);
    liso_add!(l12, fg = c, -italic);
    liso_add!(l13, fg = c, ^inverse);
    liso_add!(l14, fg = c, ansi x);
    liso_add!(l15, fg = c, x);
    let r = liso!(fg = c);
    assert(r.g@ == e_fg(v_new(), c)); //# C28
    let r = liso!(y, fg = c, y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), c), y@)); //# C28
}
//@use use_fg_some props=C28
pub fn use_fg_some(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, Some(Color::Cyan)), //# C28
        final(l1).g@ == e_fg(old(l1).g@, Some(Color::Cyan)), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), Some(Color::Cyan)), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), Some(Color::Cyan)), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, Some(Color::Cyan)), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, Some(Color::Cyan))), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, Some(Color::Cyan)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, Some(Color::Cyan)), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, Some(Color::Cyan)), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, Some(Color::Cyan)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, Some(Color::Cyan)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, Some(Color::Cyan)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, Some(Color::Cyan)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, Some(Color::Cyan)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, Some(Color::Cyan)), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, Some(Color::Cyan)), x@), //# C28
{
    liso_add!(l0, fg = Some(Color::Cyan));
    liso_add!(l1, fg = Some(Color::Cyan),);
    liso_add!(l2, y, fg = Some(Color::Cyan));
    liso_add!(l3, y, fg = Some(Color::Cyan),, y,);
    liso_add!(l4, , fg = Some(Color::Cyan), y);
    liso_add!(l5, fg = Some(Color::Cyan), reset);
    liso_add!(l6, fg = Some(Color::Cyan), fg = red);
    liso_add!(l7, fg = Some(Color::Cyan), bg = none);
    liso_add!(l8, fg = Some(Color::Cyan), fg = c);
    liso_add!(l9, fg = Some(Color::Cyan), plain);
    liso_add!(l10, fg = Some(Color::Cyan), bold);
    liso_add!(l11, fg = Some(Color::Cyan), +dim);
    liso_add!(l12, fg = Some(Color::Cyan), -italic);
    liso_add!(l13, fg = Some(Color::Cyan), ^inverse);
    liso_add!(l14, fg = Some(Color::Cyan), ansi x);
    liso_add!(l15, fg = Some(Color::Cyan), x);
    let r = liso!(fg = Some(Color::Cyan));
    assert(r.g@ == e_fg(v_new(), Some(Color::Cyan))); //# C28
    let r = liso!(y, fg = Some(Color::Cyan), y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), Some(Color::Cyan)), y@)); //# C28
}
//@use use_fg_paren props=C28
pub fn use_fg_paren(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, c), //# C28
        final(l1).g@ == e_fg(old(l1).g@, c), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), c), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), c), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, c), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, c)), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, c), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, c), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, c), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, c), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, c), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, c), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, c), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, c), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, c), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, c), x@), //# C28
{
    liso_add!(l0, fg = (c));
    liso_add!(l1, fg = (c),);
    liso_add!(l2, y, fg = (c));
    liso_add!(l3, y, fg = (c),, y,);
    liso_add!(l4, , fg = (c), y);
    liso_add!(l5, fg = (c), reset);
    liso_add!(l6, fg = (c), fg = red);
    liso_add!(l7, fg = (c), bg = none);
    liso_add!(l8, fg = (c), fg = c);
    liso_add!(l9, fg = (c), plain);
    liso_add!(l10, fg = (c), bold);
    liso_add!(l11, fg = (c), +dim);
    liso_add!(l12, fg = (c), -italic);
    liso_add!(l13, fg = (c), ^inverse);
    liso_add!(l14, fg = (c), ansi x);
    liso_add!(l15, fg = (c), x);
    let r = liso!(fg = (c));
    assert(r.g@ == e_fg(v_new(), c)); //# C28
    let r = liso!(y, fg = (c), y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), c), y@)); //# C28
}
//@use use_fg_call props=C28
pub fn use_fg_call(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_fg(old(l0).g@, c), //# C28
        final(l1).g@ == e_fg(old(l1).g@, c), //# C28
        final(l2).g@ == e_fg(e_text(old(l2).g@, y@), c), //# C28
        final(l3).g@ == e_text(e_fg(e_text(old(l3).g@, y@), c), y@), //# C28
        final(l4).g@ == e_text(e_fg(old(l4).g@, c), y@), //# C28
        final(l5).g@ == e_reset(e_fg(old(l5).g@, c)), //# C28
        final(l6).g@ == e_fg(e_fg(old(l6).g@, c), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_fg(old(l7).g@, c), None), //# C28
        final(l8).g@ == e_fg(e_fg(old(l8).g@, c), c), //# C28
        final(l9).g@ == e_set(e_fg(old(l9).g@, c), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_fg(old(l10).g@, c), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_fg(old(l11).g@, c), Style::DIM), //# C28
        final(l12).g@ == e_off(e_fg(old(l12).g@, c), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_fg(old(l13).g@, c), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_fg(old(l14).g@, c), x@), //# C28
        final(l15).g@ == e_text(e_fg(old(l15).g@, c), x@), //# C28
{
    liso_add!(l0, fg = same(c));
    liso_add!(l1, fg = same(c),);
    liso_add!(l2, y, fg = same(c));
    liso_add!(l3, y, fg = same(c),, y,);
    liso_add!(l4, , fg = same(c), y);
    liso_add!(l5, fg = same(c), reset);
    liso_add!(l6, fg = same(c), fg = red);
    liso_add!(l7, fg = same(c), bg = none);
    liso_add!(l8, fg = same(c), fg = c);
    liso_add!(l9, fg = same(c), plain);
    liso_add!(l10, fg = same(c), bold);
    liso_add!(l11, fg = same(c), +dim);
    liso_add!(l12, fg = same(c), -italic);
    liso_add!(l13, fg = same(c), ^inverse);
    liso_add!(l14, fg = same(c), ansi x);
    liso_add!(l15, fg = same(c), x);
    let r = liso!(fg = same(c));
    assert(r.g@ == e_fg(v_new(), c)); //# C28
    let r = liso!(y, fg = same(c), y);
    assert(r.g@ == e_text(e_fg(e_text(v_new(), y@), c), y@)); //# C28
}
//@use use_bg_cap_black props=C28
pub fn use_bg_cap_black(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Black)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Black)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Black)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Black)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Black)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Black))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Black)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Black)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Black)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Black)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Black)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Black)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Black)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Black)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Black)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Black)), x@), //# C28
{
    liso_add!(l0, bg = Black);
    liso_add!(l1, bg = Black,);
    liso_add!(l2, y, bg = Black);
    liso_add!(l3, y, bg = Black,, y,);
    liso_add!(l4, , bg = Black, y);
    liso_add!(l5, bg = Black, reset);
    liso_add!(l6, bg = Black, fg = red);
    liso_add!(l7, bg = Black, bg = none);
    liso_add!(l8, bg = Black, fg = c);
    liso_add!(l9, bg = Black, plain);
    liso_add!(l10, bg = Black, bold);
    liso_add!(l11, bg = Black, +dim);
    liso_add!(l12, bg = Black, -italic);
    liso_add!(l13, bg = Black, ^inverse);
    liso_add!(l14, bg = Black, ansi x);
    liso_add!(l15, bg = Black, x);
    let r = liso!(bg = Black);
    assert(r.g@ == e_bg(v_new(), Some(Color::Black))); //# C28
    let r = liso!(y, bg = Black, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Black)), y@)); //# C28
}
//@use use_bg_black props=C28
pub fn use_bg_black(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Black)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Black)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Black)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Black)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Black)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Black))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Black)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Black)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Black)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Black)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Black)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Black)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Black)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Black)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Black)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Black)), x@), //# C28
{
    liso_add!(l0, bg = black);
    liso_add!(l1, bg = black,);
    liso_add!(l2, y, bg = black);
    liso_add!(l3, y, bg = black,, y,);
    liso_add!(l4, , bg = black, y);
    liso_add!(l5, bg = black, reset);
    liso_add!(l6, bg = black, fg = red);
    liso_add!(l7, bg = black, bg = none);
    liso_add!(l8, bg = black, fg = c);
    liso_add!(l9, bg = black, plain);
    liso_add!(l10, bg = black, bold);
    liso_add!(l11, bg = black, +dim);
    liso_add!(l12, bg = black, -italic);
    liso_add!(l13, bg = black, ^inverse);
    liso_add!(l14, bg = black, ansi x);
    liso_add!(l15, bg = black, x);
    let r = liso!(bg = black);
    assert(r.g@ == e_bg(v_new(), Some(Color::Black))); //# C28
    let r = liso!(y, bg = black, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Black)), y@)); //# C28
}
//@use use_bg_cap_red props=C28
pub fn use_bg_cap_red(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Red)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Red)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Red)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Red)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Red)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Red))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Red)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Red)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Red)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Red)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Red)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Red)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Red)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Red)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Red)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Red)), x@), //# C28
{
    liso_add!(l0, bg = Red);
    liso_add!(l1, bg = Red,);
    liso_add!(l2, y, bg = Red);
    liso_add!(l3, y, bg = Red,, y,);
    liso_add!(l4, , bg = Red, y);
    liso_add!(l5, bg = Red, reset);
    liso_add!(l6, bg = Red, fg = red);
    liso_add!(l7, bg = Red, bg = none);
    liso_add!(l8, bg = Red, fg = c);
    liso_add!(l9, bg = Red, plain);
    liso_add!(l10, bg = Red, bold);
    liso_add!(l11, bg = Red, +dim);
    liso_add!(l12, bg = Red, -italic);
    liso_add!(l13, bg = Red, ^inverse);
    liso_add!(l14, bg = Red, ansi x);
    liso_add!(l15, bg = Red, x);
    let r = liso!(bg = Red);
    assert(r.g@ == e_bg(v_new(), Some(Color::Red))); //# C28
    let r = liso!(y, bg = Red, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Red)), y@)); //# C28
}
//@use use_bg_red props=C28
pub fn use_bg_red(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Red)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Red)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Red)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Red)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Red)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Red))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Red)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Red)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Red)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Red)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Red)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Red)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Red)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Red)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Red)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Red)), x@), //# C28
{
    liso_add!(l0, bg = red);
    liso_add!(l1, bg = red,);
    liso_add!(l2, y, bg = red);
    liso_add!(l3, y, bg = red,, y,);
    liso_add!(l4, , bg = red, y);
    liso_add!(l5, bg = red, reset);
    liso_add!(l6, bg = red, fg = red);
    liso_add!(l7, bg = red, bg = none);
    liso_add!(l8, bg = red, fg = c);
    liso_add!(l9, bg = red, plain);
    liso_add!(l10, bg = red, bold);
    liso_add!(l11, bg = red, +dim);
    liso_add!(l12, bg = red, -italic);
    liso_add!(l13, bg = red, ^inverse);
    liso_add!(l14, bg = red, ansi x);
    liso_add!(l15, bg = red, x);
    let r = liso!(bg = red);
    assert(r.g@ == e_bg(v_new(), Some(Color::Red))); //# C28
    let r = liso!(y, bg = red, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Red)), y@)); //# C28
}
//@use use_bg_cap_green props=C28
pub fn use_bg_cap_green(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Green)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Green)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Green)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Green)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Green)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Green))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Green)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Green)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Green)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Green)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Green)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Green)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Green)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Green)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Green)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Green)), x@), //# C28
{
    liso_add!(l0, bg = Green);
    liso_add!(l1, bg = Green,);
    liso_add!(l2, y, bg = Green);
    liso_add!(l3, y, bg = Green,, y,);
    liso_add!(l4, , bg = Green, y);
    liso_add!(l5, bg = Green, reset);
    liso_add!(l6, bg = Green, fg = red);
    liso_add!(l7, bg = Green, bg = none);
    liso_add!(l8, bg = Green, fg = c);
    liso_add!(l9, bg = Green, plain);
    liso_add!(l10, bg = Green, bold);
    liso_add!(l11, bg = Green, +dim);
    liso_add!(l12, bg = Green, -italic);
    liso_add!(l13, bg = Green, ^inverse);
    liso_add!(l14, bg = Green, ansi x);
    liso_add!(l15, bg = Green, x);
    let r = liso!(bg = Green);
    assert(r.g@ == e_bg(v_new(), Some(Color::Green))); //# C28
    let r = liso!(y, bg = Green, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Green)), y@)); //# C28
}
//@use use_bg_green props=C28
pub fn use_bg_green(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Green)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Green)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Green)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Green)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Green)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Green))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Green)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Green)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Green)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Green)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Green)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Green)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Green)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Green)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Green)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Green)), x@), //# C28
{
    liso_add!(l0, bg = green);
    liso_add!(l1, bg = green,);
    liso_add!(l2, y, bg = green);
    liso_add!(l3, y, bg = green,, y,);
    liso_add!(l4, , bg = green, y);
    liso_add!(l5, bg = green, reset);
    liso_add!(l6, bg = green, fg = red);
    liso_add!(l7, bg = green, bg = none);
    liso_add!(l8, bg = green, fg = c);
    liso_add!(l9, bg = green, plain);
    liso_add!(l10, bg = green, bold);
    liso_add!(l11, bg = green, +dim);
    liso_add!(l12, bg = green, -italic);
    liso_add!(l13, bg = green, ^inverse);
    liso_add!(l14, bg = green, ansi x);
    liso_add!(l15, bg = green, x);
    let r = liso!(bg = green);
    assert(r.g@ == e_bg(v_new(), Some(Color::Green))); //# C28
    let r = liso!(y, bg = green, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Green)), y@)); //# C28
}
//@use use_bg_cap_yellow props=C28
pub fn use_bg_cap_yellow(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Yellow)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Yellow)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Yellow)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Yellow)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Yellow)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Yellow))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Yellow)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Yellow)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Yellow)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Yellow)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Yellow)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Yellow)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Yellow)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Yellow)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Yellow)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Yellow)), x@), //# C28
{
    liso_add!(l0, bg = Yellow);
    liso_add!(l1, bg = Yellow,);
    liso_add!(l2, y, bg = Yellow);
    liso_add!(l3, y, bg = Yellow,, y,);
    liso_add!(l4, , bg = Yellow, y);
    liso_add!(l5, bg = Yellow, reset);
    liso_add!(l6, bg = Yellow, fg = red);
    liso_add!(l7, bg = Yellow, bg = none);
    liso_add!(l8, bg = Yellow, fg = c);
    liso_add!(l9, bg = Yellow, plain);
    liso_add!(l10, bg = Yellow, bold);
    liso_add!(l11, bg = Yellow, +dim);
    liso_add!(l12, bg = Yellow, -italic);
    liso_add!(l13, bg = Yellow, ^inverse);
    liso_add!(l14, bg = Yellow, ansi x);
    liso_add!(l15, bg = Yellow, x);
    let r = liso!(bg = Yellow);
    assert(r.g@ == e_bg(v_new(), Some(Color::Yellow))); //# C28
    let r = liso!(y, bg = Yellow, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Yellow)), y@)); //# C28
}
//@use use_bg_yellow props=C28
pub fn use_bg_yellow(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Yellow)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Yellow)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Yellow)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Yellow)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Yellow)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Yellow))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Yellow)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Yellow)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Yellow)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Yellow)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Yellow)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Yellow)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Yellow)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Yellow)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Yellow)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Yellow)), x@), //# C28
{
    liso_add!(l0, bg = yellow);
    liso_add!(l1, bg = yellow,);
    liso_add!(l2, y, bg = yellow);
    liso_add!(l3, y, bg = yellow,, y,);
    liso_add!(l4, , bg = yellow, y);
    liso_add!(l5, bg = yellow, reset);
    liso_add!(l6, bg = yellow, fg = red);
    liso_add!(l7, bg = yellow, bg = none);
    liso_add!(l8, bg = yellow, fg = c);
    liso_add!(l9, bg = yellow, plain);
    liso_add!(l10, bg = yellow, bold);
    liso_add!(l11, bg = yellow, +dim);
    liso_add!(l12, bg = yellow, -italic);
    liso_add!(l13, bg = yellow, ^inverse);
    liso_add!(l14, bg = yellow, ansi x);
    liso_add!(l15, bg = yellow, x);
    let r = liso!(bg = yellow);
    assert(r.g@ == e_bg(v_new(), Some(Color::Yellow))); //# C28
    let r = liso!(y, bg = yellow, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Yellow)), y@)); //# C28
}
//@use use_bg_cap_blue props=C28
pub fn use_bg_cap_blue(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Blue)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Blue)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Blue)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Blue)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Blue)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Blue))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Blue)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Blue)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Blue)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Blue)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Blue)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Blue)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Blue)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Blue)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Blue)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Blue)), x@), //# C28
{
    liso_add!(l0, bg = Blue);
    liso_add!(l1, bg = Blue,);
    liso_add!(l2, y, bg = Blue);
    liso_add!(l3, y, bg = Blue,, y,);
    liso_add!(l4, , bg = Blue, y);
    liso_add!(l5, bg = Blue, reset);
    liso_add!(l6, bg = Blue, fg = red);
    liso_add!(l7, bg = Blue, bg = none);
    liso_add!(l8, bg = Blue, fg = c);
    liso_add!(l9, bg = Blue, plain);
    liso_add!(l10, bg = Blue, bold);
    liso_add!(l11, bg = Blue, +dim);
    liso_add!(l12, bg = Blue, -italic);
    liso_add!(l13, bg = Blue, ^inverse);
    liso_add!(l14, bg = Blue, ansi x);
    liso_add!(l15, bg = Blue, x);
    let r = liso!(bg = Blue);
    assert(r.g@ == e_bg(v_new(), Some(Color::Blue))); //# C28
    let r = liso!(y, bg = Blue, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Blue)), y@)); //# C28
}
//@use use_bg_blue props=C28
pub fn use_bg_blue(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Blue)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Blue)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Blue)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Blue)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Blue)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Blue))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Blue)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Blue)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Blue)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Blue)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Blue)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Blue)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Blue)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Blue)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Blue)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Blue)), x@), //# C28
{
    liso_add!(l0, bg = blue);
    liso_add!(l1, bg = blue,);
    liso_add!(l2, y, bg = blue);
    liso_add!(l3, y, bg = blue,, y,);
    liso_add!(l4, , bg = blue, y);
    liso_add!(l5, bg = blue, reset);
    liso_add!(l6, bg = blue, fg = red);
    liso_add!(l7, bg = blue, bg = none);
    liso_add!(l8, bg = blue, fg = c);
    liso_add!(l9, bg = blue, plain);
    liso_add!(l10, bg = blue, bold);
    liso_add!(l11, bg = blue, +dim);
    liso_add!(l12, bg = blue, -italic);
    liso_add!(l13, bg = blue, ^inverse);
    liso_add!(l14, bg = blue, ansi x);
    liso_add!(l15, bg = blue, x);
    let r = liso!(bg = blue);
    assert(r.g@ == e_bg(v_new(), Some(Color::Blue))); //# C28
    let r = liso!(y, bg = blue, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Blue)), y@)); //# C28
}
//@use use_bg_cap_cyan props=C28
pub fn use_bg_cap_cyan(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Cyan)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Cyan)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Cyan)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Cyan)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Cyan)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Cyan))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Cyan)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Cyan)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Cyan)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Cyan)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Cyan)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Cyan)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Cyan)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Cyan)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Cyan)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Cyan)), x@), //# C28
{
    liso_add!(l0, bg = Cyan);
    liso_add!(l1, bg = Cyan,);
    liso_add!(l2, y, bg = Cyan);
    liso_add!(l3, y, bg = Cyan,, y,);
    liso_add!(l4, , bg = Cyan, y);
    liso_add!(l5, bg = Cyan, reset);
    liso_add!(l6, bg = Cyan, fg = red);
    liso_add!(l7, bg = Cyan, bg = none);
    liso_add!(l8, bg = Cyan, fg = c);
    liso_add!(l9, bg = Cyan, plain);
    liso_add!(l10, bg = Cyan, bold);
    liso_add!(l11, bg = Cyan, +dim);
    liso_add!(l12, bg = Cyan, -italic);
    liso_add!(l13, bg = Cyan, ^inverse);
    liso_add!(l14, bg = Cyan, ansi x);
    liso_add!(l15, bg = Cyan, x);
    let r = liso!(bg = Cyan);
    assert(r.g@ == e_bg(v_new(), Some(Color::Cyan))); //# C28
    let r = liso!(y, bg = Cyan, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Cyan)), y@)); //# C28
}
//@use use_bg_cyan props=C28
pub fn use_bg_cyan(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Cyan)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Cyan)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Cyan)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Cyan)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Cyan)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Cyan))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Cyan)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Cyan)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Cyan)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Cyan)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Cyan)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Cyan)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Cyan)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Cyan)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Cyan)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Cyan)), x@), //# C28
{
    liso_add!(l0, bg = cyan);
    liso_add!(l1, bg = cyan,);
    liso_add!(l2, y, bg = cyan);
    liso_add!(l3, y, bg = cyan,, y,);
    liso_add!(l4, , bg = cyan, y);
    liso_add!(l5, bg = cyan, reset);
    liso_add!(l6, bg = cyan, fg = red);
    liso_add!(l7, bg = cyan, bg = none);
    liso_add!(l8, bg = cyan, fg = c);
    liso_add!(l9, bg = cyan, plain);
    liso_add!(l10, bg = cyan, bold);
    liso_add!(l11, bg = cyan, +dim);
    liso_add!(l12, bg = cyan, -italic);
    liso_add!(l13, bg = cyan, ^inverse);
    liso_add!(l14, bg = cyan, ansi x);
    liso_add!(l15, bg = cyan, x);
    let r = liso!(bg = cyan);
    assert(r.g@ == e_bg(v_new(), Some(Color::Cyan))); //# C28
    let r = liso!(y, bg = cyan, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Cyan)), y@)); //# C28
}
//@use use_bg_cap_magenta props=C28
pub fn use_bg_cap_magenta(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Magenta)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Magenta)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Magenta)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Magenta)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Magenta)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Magenta))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Magenta)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Magenta)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Magenta)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Magenta)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Magenta)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Magenta)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Magenta)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Magenta)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Magenta)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Magenta)), x@), //# C28
{
    liso_add!(l0, bg = Magenta);
    liso_add!(l1, bg = Magenta,);
    liso_add!(l2, y, bg = Magenta);
    liso_add!(l3, y, bg = Magenta,, y,);
    liso_add!(l4, , bg = Magenta, y);
    liso_add!(l5, bg = Magenta, reset);
    liso_add!(l6, bg = Magenta, fg = red);
    liso_add!(l7, bg = Magenta, bg = none);
    liso_add!(l8, bg = Magenta, fg = c);
    liso_add!(l9, bg = Magenta, plain);
    liso_add!(l10, bg = Magenta, bold);
    liso_add!(l11, bg = Magenta, +dim);
    liso_add!(l12, bg = Magenta, -italic);
    liso_add!(l13, bg = Magenta, ^inverse);
    liso_add!(l14, bg = Magenta, ansi x);
    liso_add!(l15, bg = Magenta, x);
    let r = liso!(bg = Magenta);
    assert(r.g@ == e_bg(v_new(), Some(Color::Magenta))); //# C28
    let r = liso!(y, bg = Magenta, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Magenta)), y@)); //# C28
}
//@use use_bg_magenta props=C28
pub fn use_bg_magenta(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Magenta)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Magenta)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Magenta)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Magenta)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Magenta)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Magenta))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Magenta)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Magenta)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Magenta)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Magenta)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Magenta)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Magenta)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Magenta)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Magenta)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Magenta)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Magenta)), x@), //# C28
{
    liso_add!(l0, bg = magenta);
    liso_add!(l1, bg = magenta,);
    liso_add!(l2, y, bg = magenta);
    liso_add!(l3, y, bg = magenta,, y,);
    liso_add!(l4, , bg = magenta, y);
    liso_add!(l5, bg = magenta, reset);
    liso_add!(l6, bg = magenta, fg = red);
    liso_add!(l7, bg = magenta, bg = none);
    liso_add!(l8, bg = magenta, fg = c);
    liso_add!(l9, bg = magenta, plain);
    liso_add!(l10, bg = magenta, bold);
    liso_add!(l11, bg = magenta, +dim);
    liso_add!(l12, bg = magenta, -italic);
    liso_add!(l13, bg = magenta, ^inverse);
    liso_add!(l14, bg = magenta, ansi x);
    liso_add!(l15, bg = magenta, x);
    let r = liso!(bg = magenta);
    assert(r.g@ == e_bg(v_new(), Some(Color::Magenta))); //# C28
    let r = liso!(y, bg = magenta, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Magenta)), y@)); //# C28
}
//@use use_bg_cap_white props=C28
pub fn use_bg_cap_white(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::White)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::White)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::White)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::White)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::White)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::White))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::White)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::White)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::White)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::White)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::White)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::White)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::White)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::White)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::White)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::White)), x@), //# C28
{
    liso_add!(l0, bg = White);
    liso_add!(l1, bg = White,);
    liso_add!(l2, y, bg = White);
    liso_add!(l3, y, bg = White,, y,);
    liso_add!(l4, , bg = White, y);
    liso_add!(l5, bg = White, reset);
    liso_add!(l6, bg = White, fg = red);
    liso_add!(l7, bg = White, bg = none);
    liso_add!(l8, bg = White, fg = c);
    liso_add!(l9, bg = White, plain);
    liso_add!(l10, bg = White, bold);
    liso_add!(l11, bg = White, +dim);
    liso_add!(l12, bg = White, -italic);
    liso_add!(l13, bg = White, ^inverse);
    liso_add!(l14, bg = White, ansi x);
    liso_add!(l15, bg = White, x);
    let r = liso!(bg = White);
    assert(r.g@ == e_bg(v_new(), Some(Color::White))); //# C28
    let r = liso!(y, bg = White, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::White)), y@)); //# C28
}
//@use use_bg_white props=C28
pub fn use_bg_white(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::White)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::White)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::White)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::White)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::White)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::White))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::White)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::White)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::White)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::White)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::White)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::White)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::White)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::White)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::White)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::White)), x@), //# C28
{
    liso_add!(l0, bg = white);
    liso_add!(l1, bg = white,);
    liso_add!(l2, y, bg = white);
    liso_add!(l3, y, bg = white,, y,);
    liso_add!(l4, , bg = white, y);
    liso_add!(l5, bg = white, reset);
    liso_add!(l6, bg = white, fg = red);
    liso_add!(l7, bg = white, bg = none);
    liso_add!(l8, bg = white, fg = c);
    liso_add!(l9, bg = white, plain);
    liso_add!(l10, bg = white, bold);
    liso_add!(l11, bg = white, +dim);
    liso_add!(l12, bg = white, -italic);
    liso_add!(l13, bg = white, ^inverse);
    liso_add!(l14, bg = white, ansi x);
    liso_add!(l15, bg = white, x);
    let r = liso!(bg = white);
    assert(r.g@ == e_bg(v_new(), Some(Color::White))); //# C28
    let r = liso!(y, bg = white, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::White)), y@)); //# C28
}
//@use use_bg_none props=C28
pub fn use_bg_none(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, None), //# C28
        final(l1).g@ == e_bg(old(l1).g@, None), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), None), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), None), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, None), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, None)), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, None), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, None), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, None), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, None), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, None), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, None), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, None), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, None), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, None), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, None), x@), //# C28
{
    liso_add!(l0, bg = none);
    liso_add!(l1, bg = none,);
    liso_add!(l2, y, bg = none);
    liso_add!(l3, y, bg = none,, y,);
    liso_add!(l4, , bg = none, y);
    liso_add!(l5, bg = none, reset);
    liso_add!(l6, bg = none, fg = red);
    liso_add!(l7, bg = none, bg = none);
    liso_add!(l8, bg = none, fg = c);
    liso_add!(l9, bg = none, plain);
    liso_add!(l10, bg = none, bold);
    liso_add!(l11, bg = none, +dim);
    liso_add!(l12, bg = none, -italic);
    liso_add!(l13, bg = none, ^inverse);
    liso_add!(l14, bg = none, ansi x);
    liso_add!(l15, bg = none, x);
    let r = liso!(bg = none);
    assert(r.g@ == e_bg(v_new(), None)); //# C28
    let r = liso!(y, bg = none, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), None), y@)); //# C28
}
//@use use_bg_cap_none props=C28
pub fn use_bg_cap_none(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, None), //# C28
        final(l1).g@ == e_bg(old(l1).g@, None), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), None), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), None), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, None), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, None)), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, None), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, None), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, None), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, None), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, None), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, None), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, None), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, None), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, None), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, None), x@), //# C28
{
    liso_add!(l0, bg = None);
    liso_add!(l1, bg = None,);
    liso_add!(l2, y, bg = None);
    liso_add!(l3, y, bg = None,, y,);
    liso_add!(l4, , bg = None, y);
    liso_add!(l5, bg = None, reset);
    liso_add!(l6, bg = None, fg = red);
    liso_add!(l7, bg = None, bg = none);
    liso_add!(l8, bg = None, fg = c);
    liso_add!(l9, bg = None, plain);
    liso_add!(l10, bg = None, bold);
    liso_add!(l11, bg = None, +dim);
    liso_add!(l12, bg = None, -italic);
    liso_add!(l13, bg = None, ^inverse);
    liso_add!(l14, bg = None, ansi x);
    liso_add!(l15, bg = None, x);
    let r = liso!(bg = None);
    assert(r.g@ == e_bg(v_new(), None)); //# C28
    let r = liso!(y, bg = None, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), None), y@)); //# C28
}
//@use use_bg_var props=C28
pub fn use_bg_var(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, c), //# C28
        final(l1).g@ == e_bg(old(l1).g@, c), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), c), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), c), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, c), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, c)), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, c), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, c), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, c), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, c), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, c), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, c), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, c), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, c), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, c), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, c), x@), //# C28
{
    liso_add!(l0, bg = c);
    liso_add!(l1, bg = c,);
    liso_add!(l2, y, bg = c);
    liso_add!(l3, y, bg = c,, y,);
    liso_add!(l4, , bg = c, y);
    liso_add!(l5, bg = c, reset);
    liso_add!(l6, bg = c, fg = red);
    liso_add!(l7, bg = c, bg = none);
    liso_add!(l8, bg = c, fg = c);
    liso_add!(l9, bg = c, plain);
    liso_add!(l10, bg = c, bold);
    liso_add!(l11, bg = c, +dim);
    liso_add!(l12, bg = c, -italic);
    liso_add!(l13, bg = c, ^inverse);
    liso_add!(l14, bg = c, ansi x);
    liso_add!(l15, bg = c, x);
    let r = liso!(bg = c);
    assert(r.g@ == e_bg(v_new(), c)); //# C28
    let r = liso!(y, bg = c, y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), c), y@)); //# C28
}
//@use use_bg_some props=C28
pub fn use_bg_some(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, Some(Color::Cyan)), //# C28
        final(l1).g@ == e_bg(old(l1).g@, Some(Color::Cyan)), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), Some(Color::Cyan)), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), Some(Color::Cyan)), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, Some(Color::Cyan)), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, Some(Color::Cyan))), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, Some(Color::Cyan)), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, Some(Color::Cyan)), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, Some(Color::Cyan)), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, Some(Color::Cyan)), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, Some(Color::Cyan)), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, Some(Color::Cyan)), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, Some(Color::Cyan)), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, Some(Color::Cyan)), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, Some(Color::Cyan)), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, Some(Color::Cyan)), x@), //# C28
{
    liso_add!(l0, bg = Some(Color::Cyan));
    liso_add!(l1, bg = Some(Color::Cyan),);
    liso_add!(l2, y, bg = Some(Color::Cyan));
    liso_add!(l3, y, bg = Some(Color::Cyan),, y,);
    liso_add!(l4, , bg = Some(Color::Cyan), y);
    liso_add!(l5, bg = Some(Color::Cyan), reset);
    liso_add!(l6, bg = Some(Color::Cyan), fg = red);
    liso_add!(l7, bg = Some(Color::Cyan), bg = none);
    liso_add!(l8, bg = Some(Color::Cyan), fg = c);
    liso_add!(l9, bg = Some(Color::Cyan), plain);
    liso_add!(l10, bg = Some(Color::Cyan), bold);
    liso_add!(l11, bg = Some(Color::Cyan), +dim);
    liso_add!(l12, bg = Some(Color::Cyan), -italic);
    liso_add!(l13, bg = Some(Color::Cyan), ^inverse);
    liso_add!(l14, bg = Some(Color::Cyan), ansi x);
    liso_add!(l15, bg = Some(Color::Cyan), x);
    let r = liso!(bg = Some(Color::Cyan));
    assert(r.g@ == e_bg(v_new(), Some(Color::Cyan))); //# C28
    let r = liso!(y, bg = Some(Color::Cyan), y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), Some(Color::Cyan)), y@)); //# C28
}
//@use use_bg_paren props=C28
pub fn use_bg_paren(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, c), //# C28
        final(l1).g@ == e_bg(old(l1).g@, c), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), c), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), c), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, c), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, c)), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, c), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, c), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, c), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, c), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, c), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, c), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, c), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, c), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, c), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, c), x@), //# C28
{
    liso_add!(l0, bg = (c));
    liso_add!(l1, bg = (c),);
    liso_add!(l2, y, bg = (c));
    liso_add!(l3, y, bg = (c),, y,);
    liso_add!(l4, , bg = (c), y);
    liso_add!(l5, bg = (c), reset);
    liso_add!(l6, bg = (c), fg = red);
    liso_add!(l7, bg = (c), bg = none);
    liso_add!(l8, bg = (c), fg = c);
    liso_add!(l9, bg = (c), plain);
    liso_add!(l10, bg = (c), bold);
    liso_add!(l11, bg = (c), +dim);
    liso_add!(l12, bg = (c), -italic);
    liso_add!(l13, bg = (c), ^inverse);
    liso_add!(l14, bg = (c), ansi x);
    liso_add!(l15, bg = (c), x);
    let r = liso!(bg = (c));
    assert(r.g@ == e_bg(v_new(), c)); //# C28
    let r = liso!(y, bg = (c), y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), c), y@)); //# C28
}
//@use use_bg_call props=C28
pub fn use_bg_call(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_bg(old(l0).g@, c), //# C28
        final(l1).g@ == e_bg(old(l1).g@, c), //# C28
        final(l2).g@ == e_bg(e_text(old(l2).g@, y@), c), //# C28
        final(l3).g@ == e_text(e_bg(e_text(old(l3).g@, y@), c), y@), //# C28
        final(l4).g@ == e_text(e_bg(old(l4).g@, c), y@), //# C28
        final(l5).g@ == e_reset(e_bg(old(l5).g@, c)), //# C28
        final(l6).g@ == e_fg(e_bg(old(l6).g@, c), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_bg(old(l7).g@, c), None), //# C28
        final(l8).g@ == e_fg(e_bg(old(l8).g@, c), c), //# C28
        final(l9).g@ == e_set(e_bg(old(l9).g@, c), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_bg(old(l10).g@, c), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_bg(old(l11).g@, c), Style::DIM), //# C28
        final(l12).g@ == e_off(e_bg(old(l12).g@, c), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_bg(old(l13).g@, c), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_bg(old(l14).g@, c), x@), //# C28
        final(l15).g@ == e_text(e_bg(old(l15).g@, c), x@), //# C28
{
    liso_add!(l0, bg = same(c));
    liso_add!(l1, bg = same(c),);
    liso_add!(l2, y, bg = same(c));
    liso_add!(l3, y, bg = same(c),, y,);
    liso_add!(l4, , bg = same(c), y);
    liso_add!(l5, bg = same(c), reset);
    liso_add!(l6, bg = same(c), fg = red);
    liso_add!(l7, bg = same(c), bg = none);
    liso_add!(l8, bg = same(c), fg = c);
    liso_add!(l9, bg = same(c), plain);
    liso_add!(l10, bg = same(c), bold);
    liso_add!(l11, bg = same(c), +dim);
    liso_add!(l12, bg = same(c), -italic);
    liso_add!(l13, bg = same(c), ^inverse);
    liso_add!(l14, bg = same(c), ansi x);
    liso_add!(l15, bg = same(c), x);
    let r = liso!(bg = same(c));
    assert(r.g@ == e_bg(v_new(), c)); //# C28
    let r = liso!(y, bg = same(c), y);
    assert(r.g@ == e_text(e_bg(e_text(v_new(), y@), c), y@)); //# C28
}
//@use use_plain props=C28
pub fn use_plain(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_set(old(l0).g@, Style::PLAIN), //# C28
        final(l1).g@ == e_set(old(l1).g@, Style::PLAIN), //# C28
        final(l2).g@ == e_set(e_text(old(l2).g@, y@), Style::PLAIN), //# C28
        final(l3).g@ == e_text(e_set(e_text(old(l3).g@, y@), Style::PLAIN), y@), //# C28
        final(l4).g@ == e_text(e_set(old(l4).g@, Style::PLAIN), y@), //# C28
        final(l5).g@ == e_reset(e_set(old(l5).g@, Style::PLAIN)), //# C28
        final(l6).g@ == e_fg(e_set(old(l6).g@, Style::PLAIN), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_set(old(l7).g@, Style::PLAIN), None), //# C28
        final(l8).g@ == e_fg(e_set(old(l8).g@, Style::PLAIN), c), //# C28
        final(l9).g@ == e_set(e_set(old(l9).g@, Style::PLAIN), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_set(old(l10).g@, Style::PLAIN), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_set(old(l11).g@, Style::PLAIN), Style::DIM), //# C28
        final(l12).g@ == e_off(e_set(old(l12).g@, Style::PLAIN), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_set(old(l13).g@, Style::PLAIN), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_set(old(l14).g@, Style::PLAIN), x@), //# C28
        final(l15).g@ == e_text(e_set(old(l15).g@, Style::PLAIN), x@), //# C28
        final(l16).g@ == e_reset(e_set(old(l16).g@, Style::PLAIN)), //# C28
        final(l17).g@ == e_fg(e_set(old(l17).g@, Style::PLAIN), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_set(old(l18).g@, Style::PLAIN), None), //# C28
        final(l19).g@ == e_fg(e_set(old(l19).g@, Style::PLAIN), c), //# C28
        final(l20).g@ == e_set(e_set(old(l20).g@, Style::PLAIN), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_set(old(l21).g@, Style::PLAIN), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_set(old(l22).g@, Style::PLAIN), Style::DIM), //# C28
        final(l23).g@ == e_off(e_set(old(l23).g@, Style::PLAIN), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_set(old(l24).g@, Style::PLAIN), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_set(old(l25).g@, Style::PLAIN), x@), //# C28
        final(l26).g@ == e_text(e_set(old(l26).g@, Style::PLAIN), x@), //# C28
{
    liso_add!(l0, plain);
    liso_add!(l1, plain,);
    liso_add!(l2, y, plain);
    liso_add!(l3, y, plain,, y,);
    liso_add!(l4, , plain, y);
    liso_add!(l5, plain, reset);
    liso_add!(l6, plain, fg = red);
    liso_add!(l7, plain, bg = none);
    liso_add!(l8, plain, fg = c);
    liso_add!(l9, plain, plain);
    liso_add!(l10, plain, bold);
    liso_add!(l11, plain, +dim);
    liso_add!(l12, plain, -italic);
    liso_add!(l13, plain, ^inverse);
    liso_add!(l14, plain, ansi x);
    liso_add!(l15, plain, x);
    liso_add!(l16, plain reset);
    liso_add!(l17, plain fg = red);
    liso_add!(l18, plain bg = none);
    liso_add!(l19, plain fg = c);
    liso_add!(l20, plain plain);
    liso_add!(l21, plain bold);
    liso_add!(l22, plain +dim);
    liso_add!(l23, plain -italic);
    liso_add!(l24, plain ^inverse);
    liso_add!(l25, plain ansi x);
    liso_add!(l26, plain x);
    let r = liso!(plain);
    assert(r.g@ == e_set(v_new(), Style::PLAIN)); //# C28
    let r = liso!(y, plain, y);
    assert(r.g@ == e_text(e_set(e_text(v_new(), y@), Style::PLAIN), y@)); //# C28
}
//@use use_bold props=C28
pub fn use_bold(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_set(old(l0).g@, Style::BOLD), //# C28
        final(l1).g@ == e_set(old(l1).g@, Style::BOLD), //# C28
        final(l2).g@ == e_set(e_text(old(l2).g@, y@), Style::BOLD), //# C28
        final(l3).g@ == e_text(e_set(e_text(old(l3).g@, y@), Style::BOLD), y@), //# C28
        final(l4).g@ == e_text(e_set(old(l4).g@, Style::BOLD), y@), //# C28
        final(l5).g@ == e_reset(e_set(old(l5).g@, Style::BOLD)), //# C28
        final(l6).g@ == e_fg(e_set(old(l6).g@, Style::BOLD), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_set(old(l7).g@, Style::BOLD), None), //# C28
        final(l8).g@ == e_fg(e_set(old(l8).g@, Style::BOLD), c), //# C28
        final(l9).g@ == e_set(e_set(old(l9).g@, Style::BOLD), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_set(old(l10).g@, Style::BOLD), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_set(old(l11).g@, Style::BOLD), Style::DIM), //# C28
        final(l12).g@ == e_off(e_set(old(l12).g@, Style::BOLD), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_set(old(l13).g@, Style::BOLD), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_set(old(l14).g@, Style::BOLD), x@), //# C28
        final(l15).g@ == e_text(e_set(old(l15).g@, Style::BOLD), x@), //# C28
        final(l16).g@ == e_reset(e_set(old(l16).g@, Style::BOLD)), //# C28
        final(l17).g@ == e_fg(e_set(old(l17).g@, Style::BOLD), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_set(old(l18).g@, Style::BOLD), None), //# C28
        final(l19).g@ == e_fg(e_set(old(l19).g@, Style::BOLD), c), //# C28
        final(l20).g@ == e_set(e_set(old(l20).g@, Style::BOLD), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_set(old(l21).g@, Style::BOLD), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_set(old(l22).g@, Style::BOLD), Style::DIM), //# C28
        final(l23).g@ == e_off(e_set(old(l23).g@, Style::BOLD), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_set(old(l24).g@, Style::BOLD), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_set(old(l25).g@, Style::BOLD), x@), //# C28
        final(l26).g@ == e_text(e_set(old(l26).g@, Style::BOLD), x@), //# C28
{
    liso_add!(l0, bold);
    liso_add!(l1, bold,);
    liso_add!(l2, y, bold);
    liso_add!(l3, y, bold,, y,);
    liso_add!(l4, , bold, y);
    liso_add!(l5, bold, reset);
    liso_add!(l6, bold, fg = red);
    liso_add!(l7, bold, bg = none);
    liso_add!(l8, bold, fg = c);
    liso_add!(l9, bold, plain);
    liso_add!(l10, bold, bold);
    liso_add!(l11, bold, +dim);
    liso_add!(l12, bold, -italic);
    liso_add!(l13, bold, ^inverse);
    liso_add!(l14, bold, ansi x);
    liso_add!(l15, bold, x);
    liso_add!(l16, bold reset);
    liso_add!(l17, bold fg = red);
    liso_add!(l18, bold bg = none);
    liso_add!(l19, bold fg = c);
    liso_add!(l20, bold plain);
    liso_add!(l21, bold bold);
    liso_add!(l22, bold +dim);
    liso_add!(l23, bold -italic);
    liso_add!(l24, bold ^inverse);
    liso_add!(l25, bold ansi x);
    liso_add!(l26, bold x);
    let r = liso!(bold);
    assert(r.g@ == e_set(v_new(), Style::BOLD)); //# C28
    let r = liso!(y, bold, y);
    assert(r.g@ == e_text(e_set(e_text(v_new(), y@), Style::BOLD), y@)); //# C28
}
//@use use_dim props=C28
pub fn use_dim(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_set(old(l0).g@, Style::DIM), //# C28
        final(l1).g@ == e_set(old(l1).g@, Style::DIM), //# C28
        final(l2).g@ == e_set(e_text(old(l2).g@, y@), Style::DIM), //# C28
        final(l3).g@ == e_text(e_set(e_text(old(l3).g@, y@), Style::DIM), y@), //# C28
        final(l4).g@ == e_text(e_set(old(l4).g@, Style::DIM), y@), //# C28
        final(l5).g@ == e_reset(e_set(old(l5).g@, Style::DIM)), //# C28
        final(l6).g@ == e_fg(e_set(old(l6).g@, Style::DIM), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_set(old(l7).g@, Style::DIM), None), //# C28
        final(l8).g@ == e_fg(e_set(old(l8).g@, Style::DIM), c), //# C28
        final(l9).g@ == e_set(e_set(old(l9).g@, Style::DIM), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_set(old(l10).g@, Style::DIM), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_set(old(l11).g@, Style::DIM), Style::DIM), //# C28
        final(l12).g@ == e_off(e_set(old(l12).g@, Style::DIM), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_set(old(l13).g@, Style::DIM), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_set(old(l14).g@, Style::DIM), x@), //# C28
        final(l15).g@ == e_text(e_set(old(l15).g@, Style::DIM), x@), //# C28
        final(l16).g@ == e_reset(e_set(old(l16).g@, Style::DIM)), //# C28
        final(l17).g@ == e_fg(e_set(old(l17).g@, Style::DIM), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_set(old(l18).g@, Style::DIM), None), //# C28
        final(l19).g@ == e_fg(e_set(old(l19).g@, Style::DIM), c), //# C28
        final(l20).g@ == e_set(e_set(old(l20).g@, Style::DIM), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_set(old(l21).g@, Style::DIM), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_set(old(l22).g@, Style::DIM), Style::DIM), //# C28
        final(l23).g@ == e_off(e_set(old(l23).g@, Style::DIM), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_set(old(l24).g@, Style::DIM), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_set(old(l25).g@, Style::DIM), x@), //# C28
        final(l26).g@ == e_text(e_set(old(l26).g@, Style::DIM), x@), //# C28
{
    liso_add!(l0, dim);
    liso_add!(l1, dim,);
    liso_add!(l2, y, dim);
    liso_add!(l3, y, dim,, y,);
    liso_add!(l4, , dim, y);
    liso_add!(l5, dim, reset);
    liso_add!(l6, dim, fg = red);
    liso_add!(l7, dim, bg = none);
    liso_add!(l8, dim, fg = c);
    liso_add!(l9, dim, plain);
    liso_add!(l10, dim, bold);
    liso_add!(l11, dim, +dim);
    liso_add!(l12, dim, -italic);
    liso_add!(l13, dim, ^inverse);
    liso_add!(l14, dim, ansi x);
    liso_add!(l15, dim, x);
    liso_add!(l16, dim reset);
    liso_add!(l17, dim fg = red);
    liso_add!(l18, dim bg = none);
    liso_add!(l19, dim fg = c);
    liso_add!(l20, dim plain);
    liso_add!(l21, dim bold);
    liso_add!(l22, dim +dim);
    liso_add!(l23, dim -italic);
    liso_add!(l24, dim ^inverse);
    liso_add!(l25, dim ansi x);
    liso_add!(l26, dim x);
    let r = liso!(dim);
    assert(r.g@ == e_set(v_new(), Style::DIM)); //# C28
    let r = liso!(y, dim, y);
    assert(r.g@ == e_text(e_set(e_text(v_new(), y@), Style::DIM), y@)); //# C28
}
//@use use_underline props=C28
pub fn use_underline(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_set(old(l0).g@, Style::UNDERLINE), //# C28
        final(l1).g@ == e_set(old(l1).g@, Style::UNDERLINE), //# C28
        final(l2).g@ == e_set(e_text(old(l2).g@, y@), Style::UNDERLINE), //# C28
        final(l3).g@ == e_text(e_set(e_text(old(l3).g@, y@), Style::UNDERLINE), y@), //# C28
        final(l4).g@ == e_text(e_set(old(l4).g@, Style::UNDERLINE), y@), //# C28
        final(l5).g@ == e_reset(e_set(old(l5).g@, Style::UNDERLINE)), //# C28
        final(l6).g@ == e_fg(e_set(old(l6).g@, Style::UNDERLINE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_set(old(l7).g@, Style::UNDERLINE), None), //# C28
        final(l8).g@ == e_fg(e_set(old(l8).g@, Style::UNDERLINE), c), //# C28
        final(l9).g@ == e_set(e_set(old(l9).g@, Style::UNDERLINE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_set(old(l10).g@, Style::UNDERLINE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_set(old(l11).g@, Style::UNDERLINE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_set(old(l12).g@, Style::UNDERLINE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_set(old(l13).g@, Style::UNDERLINE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_set(old(l14).g@, Style::UNDERLINE), x@), //# C28
        final(l15).g@ == e_text(e_set(old(l15).g@, Style::UNDERLINE), x@), //# C28
        final(l16).g@ == e_reset(e_set(old(l16).g@, Style::UNDERLINE)), //# C28
        final(l17).g@ == e_fg(e_set(old(l17).g@, Style::UNDERLINE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_set(old(l18).g@, Style::UNDERLINE), None), //# C28
        final(l19).g@ == e_fg(e_set(old(l19).g@, Style::UNDERLINE), c), //# C28
        final(l20).g@ == e_set(e_set(old(l20).g@, Style::UNDERLINE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_set(old(l21).g@, Style::UNDERLINE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_set(old(l22).g@, Style::UNDERLINE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_set(old(l23).g@, Style::UNDERLINE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_set(old(l24).g@, Style::UNDERLINE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_set(old(l25).g@, Style::UNDERLINE), x@), //# C28
        final(l26).g@ == e_text(e_set(old(l26).g@, Style::UNDERLINE), x@), //# C28
{
    liso_add!(l0, underline);
    liso_add!(l1, underline,);
    liso_add!(l2, y, underline);
    liso_add!(l3, y, underline,, y,);
    liso_add!(l4, , underline, y);
    liso_add!(l5, underline, reset);
    liso_add!(l6, underline, fg = red);
    liso_add!(l7, underline, bg = none);
    liso_add!(l8, underline, fg = c);
    liso_add!(l9, underline, plain);
    liso_add!(l10, underline, bold);
    liso_add!(l11, underline, +dim);
    liso_add!(l12, underline, -italic);
    liso_add!(l13, underline, ^inverse);
    liso_add!(l14, underline, ansi x);
    liso_add!(l15, underline, x);
    liso_add!(l16, underline reset);
    liso_add!(l17, underline fg = red);
    liso_add!(l18, underline bg = none);
    liso_add!(l19, underline fg = c);
    liso_add!(l20, underline plain);
    liso_add!(l21, underline bold);
    liso_add!(l22, underline +dim);
    liso_add!(l23, underline -italic);
    liso_add!(l24, underline ^inverse);
    liso_add!(l25, underline ansi x);
    liso_add!(l26, underline x);
    let r = liso!(underline);
    assert(r.g@ == e_set(v_new(), Style::UNDERLINE)); //# C28
    let r = liso!(y, underline, y);
    assert(r.g@ == e_text(e_set(e_text(v_new(), y@), Style::UNDERLINE), y@)); //# C28
}
//@use use_inverse props=C28
pub fn use_inverse(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_set(old(l0).g@, Style::INVERSE), //# C28
        final(l1).g@ == e_set(old(l1).g@, Style::INVERSE), //# C28
        final(l2).g@ == e_set(e_text(old(l2).g@, y@), Style::INVERSE), //# C28
        final(l3).g@ == e_text(e_set(e_text(old(l3).g@, y@), Style::INVERSE), y@), //# C28
        final(l4).g@ == e_text(e_set(old(l4).g@, Style::INVERSE), y@), //# C28
        final(l5).g@ == e_reset(e_set(old(l5).g@, Style::INVERSE)), //# C28
        final(l6).g@ == e_fg(e_set(old(l6).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_set(old(l7).g@, Style::INVERSE), None), //# C28
        final(l8).g@ == e_fg(e_set(old(l8).g@, Style::INVERSE), c), //# C28
        final(l9).g@ == e_set(e_set(old(l9).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_set(old(l10).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_set(old(l11).g@, Style::INVERSE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_set(old(l12).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_set(old(l13).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_set(old(l14).g@, Style::INVERSE), x@), //# C28
        final(l15).g@ == e_text(e_set(old(l15).g@, Style::INVERSE), x@), //# C28
        final(l16).g@ == e_reset(e_set(old(l16).g@, Style::INVERSE)), //# C28
        final(l17).g@ == e_fg(e_set(old(l17).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_set(old(l18).g@, Style::INVERSE), None), //# C28
        final(l19).g@ == e_fg(e_set(old(l19).g@, Style::INVERSE), c), //# C28
        final(l20).g@ == e_set(e_set(old(l20).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_set(old(l21).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_set(old(l22).g@, Style::INVERSE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_set(old(l23).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_set(old(l24).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_set(old(l25).g@, Style::INVERSE), x@), //# C28
        final(l26).g@ == e_text(e_set(old(l26).g@, Style::INVERSE), x@), //# C28
{
    liso_add!(l0, inverse);
    liso_add!(l1, inverse,);
    liso_add!(l2, y, inverse);
    liso_add!(l3, y, inverse,, y,);
    liso_add!(l4, , inverse, y);
    liso_add!(l5, inverse, reset);
    liso_add!(l6, inverse, fg = red);
    liso_add!(l7, inverse, bg = none);
    liso_add!(l8, inverse, fg = c);
    liso_add!(l9, inverse, plain);
    liso_add!(l10, inverse, bold);
    liso_add!(l11, inverse, +dim);
    liso_add!(l12, inverse, -italic);
    liso_add!(l13, inverse, ^inverse);
    liso_add!(l14, inverse, ansi x);
    liso_add!(l15, inverse, x);
    liso_add!(l16, inverse reset);
    liso_add!(l17, inverse fg = red);
    liso_add!(l18, inverse bg = none);
    liso_add!(l19, inverse fg = c);
    liso_add!(l20, inverse plain);
    liso_add!(l21, inverse bold);
    liso_add!(l22, inverse +dim);
    liso_add!(l23, inverse -italic);
    liso_add!(l24, inverse ^inverse);
    liso_add!(l25, inverse ansi x);
    liso_add!(l26, inverse x);
    let r = liso!(inverse);
    assert(r.g@ == e_set(v_new(), Style::INVERSE)); //# C28
    let r = liso!(y, inverse, y);
    assert(r.g@ == e_text(e_set(e_text(v_new(), y@), Style::INVERSE), y@)); //# C28
}
//@use use_reverse props=C28
pub fn use_reverse(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_set(old(l0).g@, Style::INVERSE), //# C28
        final(l1).g@ == e_set(old(l1).g@, Style::INVERSE), //# C28
        final(l2).g@ == e_set(e_text(old(l2).g@, y@), Style::INVERSE), //# C28
        final(l3).g@ == e_text(e_set(e_text(old(l3).g@, y@), Style::INVERSE), y@), //# C28
        final(l4).g@ == e_text(e_set(old(l4).g@, Style::INVERSE), y@), //# C28
        final(l5).g@ == e_reset(e_set(old(l5).g@, Style::INVERSE)), //# C28
        final(l6).g@ == e_fg(e_set(old(l6).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_set(old(l7).g@, Style::INVERSE), None), //# C28
        final(l8).g@ == e_fg(e_set(old(l8).g@, Style::INVERSE), c), //# C28
        final(l9).g@ == e_set(e_set(old(l9).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_set(old(l10).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_set(old(l11).g@, Style::INVERSE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_set(old(l12).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_set(old(l13).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_set(old(l14).g@, Style::INVERSE), x@), //# C28
        final(l15).g@ == e_text(e_set(old(l15).g@, Style::INVERSE), x@), //# C28
        final(l16).g@ == e_reset(e_set(old(l16).g@, Style::INVERSE)), //# C28
        final(l17).g@ == e_fg(e_set(old(l17).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_set(old(l18).g@, Style::INVERSE), None), //# C28
        final(l19).g@ == e_fg(e_set(old(l19).g@, Style::INVERSE), c), //# C28
        final(l20).g@ == e_set(e_set(old(l20).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_set(old(l21).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_set(old(l22).g@, Style::INVERSE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_set(old(l23).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_set(old(l24).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_set(old(l25).g@, Style::INVERSE), x@), //# C28
        final(l26).g@ == e_text(e_set(old(l26).g@, Style::INVERSE), x@), //# C28
{
    liso_add!(l0, reverse);
    liso_add!(l1, reverse,);
    liso_add!(l2, y, reverse);
    liso_add!(l3, y, reverse,, y,);
    liso_add!(l4, , reverse, y);
    liso_add!(l5, reverse, reset);
    liso_add!(l6, reverse, fg = red);
    liso_add!(l7, reverse, bg = none);
    liso_add!(l8, reverse, fg = c);
    liso_add!(l9, reverse, plain);
    liso_add!(l10, reverse, bold);
    liso_add!(l11, reverse, +dim);
    liso_add!(l12, reverse, -italic);
    liso_add!(l13, reverse, ^inverse);
    liso_add!(l14, reverse, ansi x);
    liso_add!(l15, reverse, x);
    liso_add!(l16, reverse reset);
    liso_add!(l17, reverse fg = red);
    liso_add!(l18, reverse bg = none);
    liso_add!(l19, reverse fg = c);
    liso_add!(l20, reverse plain);
    liso_add!(l21, reverse bold);
    liso_add!(l22, reverse +dim);
    liso_add!(l23, reverse -italic);
    liso_add!(l24, reverse ^inverse);
    liso_add!(l25, reverse ansi x);
    liso_add!(l26, reverse x);
    let r = liso!(reverse);
    assert(r.g@ == e_set(v_new(), Style::INVERSE)); //# C28
    let r = liso!(y, reverse, y);
    assert(r.g@ == e_text(e_set(e_text(v_new(), y@), Style::INVERSE), y@)); //# C28
}
//@use use_italic props=C28
pub fn use_italic(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_set(old(l0).g@, Style::ITALIC), //# C28
        final(l1).g@ == e_set(old(l1).g@, Style::ITALIC), //# C28
        final(l2).g@ == e_set(e_text(old(l2).g@, y@), Style::ITALIC), //# C28
        final(l3).g@ == e_text(e_set(e_text(old(l3).g@, y@), Style::ITALIC), y@), //# C28
        final(l4).g@ == e_text(e_set(old(l4).g@, Style::ITALIC), y@), //# C28
        final(l5).g@ == e_reset(e_set(old(l5).g@, Style::ITALIC)), //# C28
        final(l6).g@ == e_fg(e_set(old(l6).g@, Style::ITALIC), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_set(old(l7).g@, Style::ITALIC), None), //# C28
        final(l8).g@ == e_fg(e_set(old(l8).g@, Style::ITALIC), c), //# C28
        final(l9).g@ == e_set(e_set(old(l9).g@, Style::ITALIC), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_set(old(l10).g@, Style::ITALIC), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_set(old(l11).g@, Style::ITALIC), Style::DIM), //# C28
        final(l12).g@ == e_off(e_set(old(l12).g@, Style::ITALIC), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_set(old(l13).g@, Style::ITALIC), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_set(old(l14).g@, Style::ITALIC), x@), //# C28
        final(l15).g@ == e_text(e_set(old(l15).g@, Style::ITALIC), x@), //# C28
        final(l16).g@ == e_reset(e_set(old(l16).g@, Style::ITALIC)), //# C28
        final(l17).g@ == e_fg(e_set(old(l17).g@, Style::ITALIC), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_set(old(l18).g@, Style::ITALIC), None), //# C28
        final(l19).g@ == e_fg(e_set(old(l19).g@, Style::ITALIC), c), //# C28
        final(l20).g@ == e_set(e_set(old(l20).g@, Style::ITALIC), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_set(old(l21).g@, Style::ITALIC), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_set(old(l22).g@, Style::ITALIC), Style::DIM), //# C28
        final(l23).g@ == e_off(e_set(old(l23).g@, Style::ITALIC), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_set(old(l24).g@, Style::ITALIC), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_set(old(l25).g@, Style::ITALIC), x@), //# C28
        final(l26).g@ == e_text(e_set(old(l26).g@, Style::ITALIC), x@), //# C28
{
    liso_add!(l0, italic);
    liso_add!(l1, italic,);
    liso_add!(l2, y, italic);
    liso_add!(l3, y, italic,, y,);
    liso_add!(l4, , italic, y);
    liso_add!(l5, italic, reset);
    liso_add!(l6, italic, fg = red);
    liso_add!(l7, italic, bg = none);
    liso_add!(l8, italic, fg = c);
    liso_add!(l9, italic, plain);
    liso_add!(l10, italic, bold);
    liso_add!(l11, italic, +dim);
    liso_add!(l12, italic, -italic);
    liso_add!(l13, italic, ^inverse);
    liso_add!(l14, italic, ansi x);
    liso_add!(l15, italic, x);
    liso_add!(l16, italic reset);
    liso_add!(l17, italic fg = red);
    liso_add!(l18, italic bg = none);
    liso_add!(l19, italic fg = c);
    liso_add!(l20, italic plain);
    liso_add!(l21, italic bold);
    liso_add!(l22, italic +dim);
    liso_add!(l23, italic -italic);
    liso_add!(l24, italic ^inverse);
    liso_add!(l25, italic ansi x);
    liso_add!(l26, italic x);
    let r = liso!(italic);
    assert(r.g@ == e_set(v_new(), Style::ITALIC)); //# C28
    let r = liso!(y, italic, y);
    assert(r.g@ == e_text(e_set(e_text(v_new(), y@), Style::ITALIC), y@)); //# C28
}
//@use use_on_bold props=C28
pub fn use_on_bold(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_on(old(l0).g@, Style::BOLD), //# C28
        final(l1).g@ == e_on(old(l1).g@, Style::BOLD), //# C28
        final(l2).g@ == e_on(e_text(old(l2).g@, y@), Style::BOLD), //# C28
        final(l3).g@ == e_text(e_on(e_text(old(l3).g@, y@), Style::BOLD), y@), //# C28
        final(l4).g@ == e_text(e_on(old(l4).g@, Style::BOLD), y@), //# C28
        final(l5).g@ == e_reset(e_on(old(l5).g@, Style::BOLD)), //# C28
        final(l6).g@ == e_fg(e_on(old(l6).g@, Style::BOLD), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_on(old(l7).g@, Style::BOLD), None), //# C28
        final(l8).g@ == e_fg(e_on(old(l8).g@, Style::BOLD), c), //# C28
        final(l9).g@ == e_set(e_on(old(l9).g@, Style::BOLD), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_on(old(l10).g@, Style::BOLD), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_on(old(l11).g@, Style::BOLD), Style::DIM), //# C28
        final(l12).g@ == e_off(e_on(old(l12).g@, Style::BOLD), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_on(old(l13).g@, Style::BOLD), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_on(old(l14).g@, Style::BOLD), x@), //# C28
        final(l15).g@ == e_text(e_on(old(l15).g@, Style::BOLD), x@), //# C28
        final(l16).g@ == e_reset(e_on(old(l16).g@, Style::BOLD)), //# C28
        final(l17).g@ == e_fg(e_on(old(l17).g@, Style::BOLD), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_on(old(l18).g@, Style::BOLD), None), //# C28
        final(l19).g@ == e_fg(e_on(old(l19).g@, Style::BOLD), c), //# C28
        final(l20).g@ == e_set(e_on(old(l20).g@, Style::BOLD), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_on(old(l21).g@, Style::BOLD), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_on(old(l22).g@, Style::BOLD), Style::DIM), //# C28
        final(l23).g@ == e_off(e_on(old(l23).g@, Style::BOLD), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_on(old(l24).g@, Style::BOLD), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_on(old(l25).g@, Style::BOLD), x@), //# C28
        final(l26).g@ == e_text(e_on(old(l26).g@, Style::BOLD), x@), //# C28
{
    liso_add!(l0, +bold);
    liso_add!(l1, +bold,);
    liso_add!(l2, y, +bold);
    liso_add!(l3, y, +bold,, y,);
    liso_add!(l4, , +bold, y);
    liso_add!(l5, +bold, reset);
    liso_add!(l6, +bold, fg = red);
    liso_add!(l7, +bold, bg = none);
    liso_add!(l8, +bold, fg = c);
    liso_add!(l9, +bold, plain);
    liso_add!(l10, +bold, bold);
    liso_add!(l11, +bold, +dim);
    liso_add!(l12, +bold, -italic);
    liso_add!(l13, +bold, ^inverse);
    liso_add!(l14, +bold, ansi x);
    liso_add!(l15, +bold, x);
    liso_add!(l16, +bold reset);
    liso_add!(l17, +bold fg = red);
    liso_add!(l18, +bold bg = none);
    liso_add!(l19, +bold fg = c);
    liso_add!(l20, +bold plain);
    liso_add!(l21, +bold bold);
    liso_add!(l22, +bold +dim);
    liso_add!(l23, +bold -italic);
    liso_add!(l24, +bold ^inverse);
    liso_add!(l25, +bold ansi x);
    liso_add!(l26, +bold x);
    let r = liso!(+bold);
    assert(r.g@ == e_on(v_new(), Style::BOLD)); //# C28
    let r = liso!(y, +bold, y);
    assert(r.g@ == e_text(e_on(e_text(v_new(), y@), Style::BOLD), y@)); //# C28
}
//@use use_on_dim props=C28
pub fn use_on_dim(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_on(old(l0).g@, Style::DIM), //# C28
        final(l1).g@ == e_on(old(l1).g@, Style::DIM), //# C28
        final(l2).g@ == e_on(e_text(old(l2).g@, y@), Style::DIM), //# C28
        final(l3).g@ == e_text(e_on(e_text(old(l3).g@, y@), Style::DIM), y@), //# C28
        final(l4).g@ == e_text(e_on(old(l4).g@, Style::DIM), y@), //# C28
        final(l5).g@ == e_reset(e_on(old(l5).g@, Style::DIM)), //# C28
        final(l6).g@ == e_fg(e_on(old(l6).g@, Style::DIM), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_on(old(l7).g@, Style::DIM), None), //# C28
        final(l8).g@ == e_fg(e_on(old(l8).g@, Style::DIM), c), //# C28
        final(l9).g@ == e_set(e_on(old(l9).g@, Style::DIM), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_on(old(l10).g@, Style::DIM), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_on(old(l11).g@, Style::DIM), Style::DIM), //# C28
        final(l12).g@ == e_off(e_on(old(l12).g@, Style::DIM), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_on(old(l13).g@, Style::DIM), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_on(old(l14).g@, Style::DIM), x@), //# C28
        final(l15).g@ == e_text(e_on(old(l15).g@, Style::DIM), x@), //# C28
        final(l16).g@ == e_reset(e_on(old(l16).g@, Style::DIM)), //# C28
        final(l17).g@ == e_fg(e_on(old(l17).g@, Style::DIM), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_on(old(l18).g@, Style::DIM), None), //# C28
        final(l19).g@ == e_fg(e_on(old(l19).g@, Style::DIM), c), //# C28
        final(l20).g@ == e_set(e_on(old(l20).g@, Style::DIM), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_on(old(l21).g@, Style::DIM), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_on(old(l22).g@, Style::DIM), Style::DIM), //# C28
        final(l23).g@ == e_off(e_on(old(l23).g@, Style::DIM), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_on(old(l24).g@, Style::DIM), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_on(old(l25).g@, Style::DIM), x@), //# C28
        final(l26).g@ == e_text(e_on(old(l26).g@, Style::DIM), x@), //# C28
{
    liso_add!(l0, +dim);
    liso_add!(l1, +dim,);
    liso_add!(l2, y, +dim);
    liso_add!(l3, y, +dim,, y,);
    liso_add!(l4, , +dim, y);
    liso_add!(l5, +dim, reset);
    liso_add!(l6, +dim, fg = red);
    liso_add!(l7, +dim, bg = none);
    liso_add!(l8, +dim, fg = c);
    liso_add!(l9, +dim, plain);
    liso_add!(l10, +dim, bold);
    liso_add!(l11, +dim, +dim);
    liso_add!(l12, +dim, -italic);
    liso_add!(l13, +dim, ^inverse);
    liso_add!(l14, +dim, ansi x);
    liso_add!(l15, +dim, x);
    liso_add!(l16, +dim reset);
    liso_add!(l17, +dim fg = red);
    liso_add!(l18, +dim bg = none);
    liso_add!(l19, +dim fg = c);
    liso_add!(l20, +dim plain);
    liso_add!(l21, +dim bold);
    liso_add!(l22, +dim +dim);
    liso_add!(l23, +dim -italic);
    liso_add!(l24, +dim ^inverse);
    liso_add!(l25, +dim ansi x);
    liso_add!(l26, +dim x);
    let r = liso!(+dim);
    assert(r.g@ == e_on(v_new(), Style::DIM)); //# C28
    let r = liso!(y, +dim, y);
    assert(r.g@ == e_text(e_on(e_text(v_new(), y@), Style::DIM), y@)); //# C28
}
//@use use_on_underline props=C28
pub fn use_on_underline(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_on(old(l0).g@, Style::UNDERLINE), //# C28
        final(l1).g@ == e_on(old(l1).g@, Style::UNDERLINE), //# C28
        final(l2).g@ == e_on(e_text(old(l2).g@, y@), Style::UNDERLINE), //# C28
        final(l3).g@ == e_text(e_on(e_text(old(l3).g@, y@), Style::UNDERLINE), y@), //# C28
        final(l4).g@ == e_text(e_on(old(l4).g@, Style::UNDERLINE), y@), //# C28
        final(l5).g@ == e_reset(e_on(old(l5).g@, Style::UNDERLINE)), //# C28
        final(l6).g@ == e_fg(e_on(old(l6).g@, Style::UNDERLINE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_on(old(l7).g@, Style::UNDERLINE), None), //# C28
        final(l8).g@ == e_fg(e_on(old(l8).g@, Style::UNDERLINE), c), //# C28
        final(l9).g@ == e_set(e_on(old(l9).g@, Style::UNDERLINE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_on(old(l10).g@, Style::UNDERLINE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_on(old(l11).g@, Style::UNDERLINE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_on(old(l12).g@, Style::UNDERLINE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_on(old(l13).g@, Style::UNDERLINE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_on(old(l14).g@, Style::UNDERLINE), x@), //# C28
        final(l15).g@ == e_text(e_on(old(l15).g@, Style::UNDERLINE), x@), //# C28
        final(l16).g@ == e_reset(e_on(old(l16).g@, Style::UNDERLINE)), //# C28
        final(l17).g@ == e_fg(e_on(old(l17).g@, Style::UNDERLINE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_on(old(l18).g@, Style::UNDERLINE), None), //# C28
        final(l19).g@ == e_fg(e_on(old(l19).g@, Style::UNDERLINE), c), //# C28
        final(l20).g@ == e_set(e_on(old(l20).g@, Style::UNDERLINE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_on(old(l21).g@, Style::UNDERLINE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_on(old(l22).g@, Style::UNDERLINE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_on(old(l23).g@, Style::UNDERLINE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_on(old(l24).g@, Style::UNDERLINE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_on(old(l25).g@, Style::UNDERLINE), x@), //# C28
        final(l26).g@ == e_text(e_on(old(l26).g@, Style::UNDERLINE), x@), //# C28
{
    liso_add!(l0, +underline);
    liso_add!(l1, +underline,);
    liso_add!(l2, y, +underline);
    liso_add!(l3, y, +underline,, y,);
    liso_add!(l4, , +underline, y);
    liso_add!(l5, +underline, reset);
    liso_add!(l6, +underline, fg = red);
    liso_add!(l7, +underline, bg = none);
    liso_add!(l8, +underline, fg = c);
    liso_add!(l9, +underline, plain);
    liso_add!(l10, +underline, bold);
    liso_add!(l11, +underline, +dim);
    liso_add!(l12, +underline, -italic);
    liso_add!(l13, +underline, ^inverse);
    liso_add!(l14, +underline, ansi x);
    liso_add!(l15, +underline, x);
    liso_add!(l16, +underline reset);
    liso_add!(l17, +underline fg = red);
    liso_add!(l18, +underline bg = none);
    liso_add!(l19, +underline fg = c);
    liso_add!(l20, +underline plain);
    liso_add!(l21, +underline bold);
    liso_add!(l22, +underline +dim);
    liso_add!(l23, +underline -italic);
    liso_add!(l24, +underline ^inverse);
    liso_add!(l25, +underline ansi x);
    liso_add!(l26, +underline x);
    let r = liso!(+underline);
    assert(r.g@ == e_on(v_new(), Style::UNDERLINE)); //# C28
    let r = liso!(y, +underline, y);
    assert(r.g@ == e_text(e_on(e_text(v_new(), y@), Style::UNDERLINE), y@)); //# C28
}
//@use use_on_inverse props=C28
pub fn use_on_inverse(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_on(old(l0).g@, Style::INVERSE), //# C28
        final(l1).g@ == e_on(old(l1).g@, Style::INVERSE), //# C28
        final(l2).g@ == e_on(e_text(old(l2).g@, y@), Style::INVERSE), //# C28
        final(l3).g@ == e_text(e_on(e_text(old(l3).g@, y@), Style::INVERSE), y@), //# C28
        final(l4).g@ == e_text(e_on(old(l4).g@, Style::INVERSE), y@), //# C28
        final(l5).g@ == e_reset(e_on(old(l5).g@, Style::INVERSE)), //# C28
        final(l6).g@ == e_fg(e_on(old(l6).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_on(old(l7).g@, Style::INVERSE), None), //# C28
        final(l8).g@ == e_fg(e_on(old(l8).g@, Style::INVERSE), c), //# C28
        final(l9).g@ == e_set(e_on(old(l9).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_on(old(l10).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_on(old(l11).g@, Style::INVERSE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_on(old(l12).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_on(old(l13).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_on(old(l14).g@, Style::INVERSE), x@), //# C28
        final(l15).g@ == e_text(e_on(old(l15).g@, Style::INVERSE), x@), //# C28
        final(l16).g@ == e_reset(e_on(old(l16).g@, Style::INVERSE)), //# C28
        final(l17).g@ == e_fg(e_on(old(l17).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_on(old(l18).g@, Style::INVERSE), None), //# C28
        final(l19).g@ == e_fg(e_on(old(l19).g@, Style::INVERSE), c), //# C28
        final(l20).g@ == e_set(e_on(old(l20).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_on(old(l21).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_on(old(l22).g@, Style::INVERSE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_on(old(l23).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_on(old(l24).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_on(old(l25).g@, Style::INVERSE), x@), //# C28
        final(l26).g@ == e_text(e_on(old(l26).g@, Style::INVERSE), x@), //# C28
{
    liso_add!(l0, +inverse);
    liso_add!(l1, +inverse,);
    liso_add!(l2, y, +inverse);
    liso_add!(l3, y, +inverse,, y,);
    liso_add!(l4, , +inverse, y);
    liso_add!(l5, +inverse, reset);
    liso_add!(l6, +inverse, fg = red);
    liso_add!(l7, +inverse, bg = none);
    liso_add!(l8, +inverse, fg = c);
    liso_add!(l9, +inverse, plain);
    liso_add!(l10, +inverse, bold);
    liso_add!(l11, +inverse, +dim);
    liso_add!(l12, +inverse, -italic);
    liso_add!(l13, +inverse, ^inverse);
    liso_add!(l14, +inverse, ansi x);
    liso_add!(l15, +inverse, x);
    liso_add!(l16, +inverse reset);
    liso_add!(l17, +inverse fg = red);
    liso_add!(l18, +inverse bg = none);
    liso_add!(l19, +inverse fg = c);
    liso_add!(l20, +inverse plain);
    liso_add!(l21, +inverse bold);
    liso_add!(l22, +inverse +dim);
    liso_add!(l23, +inverse -italic);
    liso_add!(l24, +inverse ^inverse);
    liso_add!(l25, +inverse ansi x);
    liso_add!(l26, +inverse x);
    let r = liso!(+inverse);
    assert(r.g@ == e_on(v_new(), Style::INVERSE)); //# C28
    let r = liso!(y, +inverse, y);
    assert(r.g@ == e_text(e_on(e_text(v_new(), y@), Style::INVERSE), y@)); //# C28
}
//@use use_on_reverse props=C28
pub fn use_on_reverse(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_on(old(l0).g@, Style::INVERSE), //# C28
        final(l1).g@ == e_on(old(l1).g@, Style::INVERSE), //# C28
        final(l2).g@ == e_on(e_text(old(l2).g@, y@), Style::INVERSE), //# C28
        final(l3).g@ == e_text(e_on(e_text(old(l3).g@, y@), Style::INVERSE), y@), //# C28
        final(l4).g@ == e_text(e_on(old(l4).g@, Style::INVERSE), y@), //# C28
        final(l5).g@ == e_reset(e_on(old(l5).g@, Style::INVERSE)), //# C28
        final(l6).g@ == e_fg(e_on(old(l6).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_on(old(l7).g@, Style::INVERSE), None), //# C28
        final(l8).g@ == e_fg(e_on(old(l8).g@, Style::INVERSE), c), //# C28
        final(l9).g@ == e_set(e_on(old(l9).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_on(old(l10).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_on(old(l11).g@, Style::INVERSE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_on(old(l12).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_on(old(l13).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_on(old(l14).g@, Style::INVERSE), x@), //# C28
        final(l15).g@ == e_text(e_on(old(l15).g@, Style::INVERSE), x@), //# C28
        final(l16).g@ == e_reset(e_on(old(l16).g@, Style::INVERSE)), //# C28
        final(l17).g@ == e_fg(e_on(old(l17).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_on(old(l18).g@, Style::INVERSE), None), //# C28
        final(l19).g@ == e_fg(e_on(old(l19).g@, Style::INVERSE), c), //# C28
        final(l20).g@ == e_set(e_on(old(l20).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_on(old(l21).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_on(old(l22).g@, Style::INVERSE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_on(old(l23).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_on(old(l24).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_on(old(l25).g@, Style::INVERSE), x@), //# C28
        final(l26).g@ == e_text(e_on(old(l26).g@, Style::INVERSE), x@), //# C28
{
    liso_add!(l0, +reverse);
    liso_add!(l1, +reverse,);
    liso_add!(l2, y, +reverse);
    liso_add!(l3, y, +reverse,, y,);
    liso_add!(l4, , +reverse, y);
    liso_add!(l5, +reverse, reset);
    liso_add!(l6, +reverse, fg = red);
    liso_add!(l7, +reverse, bg = none);
    liso_add!(l8, +reverse, fg = c);
    liso_add!(l9, +reverse, plain);
    liso_add!(l10, +reverse, bold);
    liso_add!(l11, +reverse, +dim);
    liso_add!(l12, +reverse, -italic);
    liso_add!(l13, +reverse, ^inverse);
    liso_add!(l14, +reverse, ansi x);
    liso_add!(l15, +reverse, x);
    liso_add!(l16, +reverse reset);
    liso_add!(l17, +reverse fg = red);
    liso_add!(l18, +reverse bg = none);
    liso_add!(l19, +reverse fg = c);
    liso_add!(l20, +reverse plain);
    liso_add!(l21, +reverse bold);
    liso_add!(l22, +reverse +dim);
    liso_add!(l23, +reverse -italic);
    liso_add!(l24, +reverse ^inverse);
    liso_add!(l25, +reverse ansi x);
    liso_add!(l26, +reverse x);
    let r = liso!(+reverse);
    assert(r.g@ == e_on(v_new(), Style::INVERSE)); //# C28
    let r = liso!(y, +reverse, y);
    assert(r.g@ == e_text(e_on(e_text(v_new(), y@), Style::INVERSE), y@)); //# C28
}
//@use use_on_italic props=C28
pub fn use_on_italic(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_on(old(l0).g@, Style::ITALIC), //# C28
        final(l1).g@ == e_on(old(l1).g@, Style::ITALIC), //# C28
        final(l2).g@ == e_on(e_text(old(l2).g@, y@), Style::ITALIC), //# C28
        final(l3).g@ == e_text(e_on(e_text(old(l3).g@, y@), Style::ITALIC), y@), //# C28
        final(l4).g@ == e_text(e_on(old(l4).g@, Style::ITALIC), y@), //# C28
        final(l5).g@ == e_reset(e_on(old(l5).g@, Style::ITALIC)), //# C28
        final(l6).g@ == e_fg(e_on(old(l6).g@, Style::ITALIC), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_on(old(l7).g@, Style::ITALIC), None), //# C28
        final(l8).g@ == e_fg(e_on(old(l8).g@, Style::ITALIC), c), //# C28
        final(l9).g@ == e_set(e_on(old(l9).g@, Style::ITALIC), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_on(old(l10).g@, Style::ITALIC), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_on(old(l11).g@, Style::ITALIC), Style::DIM), //# C28
        final(l12).g@ == e_off(e_on(old(l12).g@, Style::ITALIC), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_on(old(l13).g@, Style::ITALIC), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_on(old(l14).g@, Style::ITALIC), x@), //# C28
        final(l15).g@ == e_text(e_on(old(l15).g@, Style::ITALIC), x@), //# C28
        final(l16).g@ == e_reset(e_on(old(l16).g@, Style::ITALIC)), //# C28
        final(l17).g@ == e_fg(e_on(old(l17).g@, Style::ITALIC), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_on(old(l18).g@, Style::ITALIC), None), //# C28
        final(l19).g@ == e_fg(e_on(old(l19).g@, Style::ITALIC), c), //# C28
        final(l20).g@ == e_set(e_on(old(l20).g@, Style::ITALIC), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_on(old(l21).g@, Style::ITALIC), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_on(old(l22).g@, Style::ITALIC), Style::DIM), //# C28
        final(l23).g@ == e_off(e_on(old(l23).g@, Style::ITALIC), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_on(old(l24).g@, Style::ITALIC), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_on(old(l25).g@, Style::ITALIC), x@), //# C28
        final(l26).g@ == e_text(e_on(old(l26).g@, Style::ITALIC), x@), //# C28
{
    liso_add!(l0, +italic);
    liso_add!(l1, +italic,);
    liso_add!(l2, y, +italic);
    liso_add!(l3, y, +italic,, y,);
    liso_add!(l4, , +italic, y);
    liso_add!(l5, +italic, reset);
    liso_add!(l6, +italic, fg = red);
    liso_add!(l7, +italic, bg = none);
    liso_add!(l8, +italic, fg = c);
    liso_add!(l9, +italic, plain);
    liso_add!(l10, +italic, bold);
    liso_add!(l11, +italic, +dim);
    liso_add!(l12, +italic, -italic);
    liso_add!(l13, +italic, ^inverse);
    liso_add!(l14, +italic, ansi x);
    liso_add!(l15, +italic, x);
    liso_add!(l16, +italic reset);
    liso_add!(l17, +italic fg = red);
    liso_add!(l18, +italic bg = none);
    liso_add!(l19, +italic fg = c);
    liso_add!(l20, +italic plain);
    liso_add!(l21, +italic bold);
    liso_add!(l22, +italic +dim);
    liso_add!(l23, +italic -italic);
    liso_add!(l24, +italic ^inverse);
    liso_add!(l25, +italic ansi x);
    liso_add!(l26, +italic x);
    let r = liso!(+italic);
    assert(r.g@ == e_on(v_new(), Style::ITALIC)); //# C28
    let r = liso!(y, +italic, y);
    assert(r.g@ == e_text(e_on(e_text(v_new(), y@), Style::ITALIC), y@)); //# C28
}
//@use use_off_bold props=C28
pub fn use_off_bold(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_off(old(l0).g@, Style::BOLD), //# C28
        final(l1).g@ == e_off(old(l1).g@, Style::BOLD), //# C28
        final(l2).g@ == e_off(e_text(old(l2).g@, y@), Style::BOLD), //# C28
        final(l3).g@ == e_text(e_off(e_text(old(l3).g@, y@), Style::BOLD), y@), //# C28
        final(l4).g@ == e_text(e_off(old(l4).g@, Style::BOLD), y@), //# C28
        final(l5).g@ == e_reset(e_off(old(l5).g@, Style::BOLD)), //# C28
        final(l6).g@ == e_fg(e_off(old(l6).g@, Style::BOLD), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_off(old(l7).g@, Style::BOLD), None), //# C28
        final(l8).g@ == e_fg(e_off(old(l8).g@, Style::BOLD), c), //# C28
        final(l9).g@ == e_set(e_off(old(l9).g@, Style::BOLD), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_off(old(l10).g@, Style::BOLD), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_off(old(l11).g@, Style::BOLD), Style::DIM), //# C28
        final(l12).g@ == e_off(e_off(old(l12).g@, Style::BOLD), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_off(old(l13).g@, Style::BOLD), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_off(old(l14).g@, Style::BOLD), x@), //# C28
        final(l15).g@ == e_text(e_off(old(l15).g@, Style::BOLD), x@), //# C28
        final(l16).g@ == e_reset(e_off(old(l16).g@, Style::BOLD)), //# C28
        final(l17).g@ == e_fg(e_off(old(l17).g@, Style::BOLD), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_off(old(l18).g@, Style::BOLD), None), //# C28
        final(l19).g@ == e_fg(e_off(old(l19).g@, Style::BOLD), c), //# C28
        final(l20).g@ == e_set(e_off(old(l20).g@, Style::BOLD), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_off(old(l21).g@, Style::BOLD), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_off(old(l22).g@, Style::BOLD), Style::DIM), //# C28
        final(l23).g@ == e_off(e_off(old(l23).g@, Style::BOLD), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_off(old(l24).g@, Style::BOLD), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_off(old(l25).g@, Style::BOLD), x@), //# C28
        final(l26).g@ == e_text(e_off(old(l26).g@, Style::BOLD), x@), //# C28
{
    liso_add!(l0, -bold);
    liso_add!(l1, -bold,);
    liso_add!(l2, y, -bold);
    liso_add!(l3, y, -bold,, y,);
    liso_add!(l4, , -bold, y);
    liso_add!(l5, -bold, reset);
    liso_add!(l6, -bold, fg = red);
    liso_add!(l7, -bold, bg = none);
    liso_add!(l8, -bold, fg = c);
    liso_add!(l9, -bold, plain);
    liso_add!(l10, -bold, bold);
    liso_add!(l11, -bold, +dim);
    liso_add!(l12, -bold, -italic);
    liso_add!(l13, -bold, ^inverse);
    liso_add!(l14, -bold, ansi x);
    liso_add!(l15, -bold, x);
    liso_add!(l16, -bold reset);
    liso_add!(l17, -bold fg = red);
    liso_add!(l18, -bold bg = none);
    liso_add!(l19, -bold fg = c);
    liso_add!(l20, -bold plain);
    liso_add!(l21, -bold bold);
    liso_add!(l22, -bold +dim);
    liso_add!(l23, -bold -italic);
    liso_add!(l24, -bold ^inverse);
    liso_add!(l25, -bold ansi x);
    liso_add!(l26, -bold x);
    let r = liso!(-bold);
    assert(r.g@ == e_off(v_new(), Style::BOLD)); //# C28
    let r = liso!(y, -bold, y);
    assert(r.g@ == e_text(e_off(e_text(v_new(), y@), Style::BOLD), y@)); //# C28
}
//@use use_off_dim props=C28
pub fn use_off_dim(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_off(old(l0).g@, Style::DIM), //# C28
        final(l1).g@ == e_off(old(l1).g@, Style::DIM), //# C28
        final(l2).g@ == e_off(e_text(old(l2).g@, y@), Style::DIM), //# C28
        final(l3).g@ == e_text(e_off(e_text(old(l3).g@, y@), Style::DIM), y@), //# C28
        final(l4).g@ == e_text(e_off(old(l4).g@, Style::DIM), y@), //# C28
        final(l5).g@ == e_reset(e_off(old(l5).g@, Style::DIM)), //# C28
        final(l6).g@ == e_fg(e_off(old(l6).g@, Style::DIM), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_off(old(l7).g@, Style::DIM), None), //# C28
        final(l8).g@ == e_fg(e_off(old(l8).g@, Style::DIM), c), //# C28
        final(l9).g@ == e_set(e_off(old(l9).g@, Style::DIM), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_off(old(l10).g@, Style::DIM), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_off(old(l11).g@, Style::DIM), Style::DIM), //# C28
        final(l12).g@ == e_off(e_off(old(l12).g@, Style::DIM), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_off(old(l13).g@, Style::DIM), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_off(old(l14).g@, Style::DIM), x@), //# C28
        final(l15).g@ == e_text(e_off(old(l15).g@, Style::DIM), x@), //# C28
        final(l16).g@ == e_reset(e_off(old(l16).g@, Style::DIM)), //# C28
        final(l17).g@ == e_fg(e_off(old(l17).g@, Style::DIM), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_off(old(l18).g@, Style::DIM), None), //# C28
        final(l19).g@ == e_fg(e_off(old(l19).g@, Style::DIM), c), //# C28
        final(l20).g@ == e_set(e_off(old(l20).g@, Style::DIM), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_off(old(l21).g@, Style::DIM), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_off(old(l22).g@, Style::DIM), Style::DIM), //# C28
        final(l23).g@ == e_off(e_off(old(l23).g@, Style::DIM), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_off(old(l24).g@, Style::DIM), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_off(old(l25).g@, Style::DIM), x@), //# C28
        final(l26).g@ == e_text(e_off(old(l26).g@, Style::DIM), x@), //# C28
{
    liso_add!(l0, -dim);
    liso_add!(l1, -dim,);
    liso_add!(l2, y, -dim);
    liso_add!(l3, y, -dim,, y,);
    liso_add!(l4, , -dim, y);
    liso_add!(l5, -dim, reset);
    liso_add!(l6, -dim, fg = red);
    liso_add!(l7, -dim, bg = none);
    liso_add!(l8, -dim, fg = c);
    liso_add!(l9, -dim, plain);
    liso_add!(l10, -dim, bold);
    liso_add!(l11, -dim, +dim);
    liso_add!(l12, -dim, -italic);
    liso_add!(l13, -dim, ^inverse);
    liso_add!(l14, -dim, ansi x);
    liso_add!(l15, -dim, x);
    liso_add!(l16, -dim reset);
    liso_add!(l17, -dim fg = red);
    liso_add!(l18, -dim bg = none);
    liso_add!(l19, -dim fg = c);
    liso_add!(l20, -dim plain);
    liso_add!(l21, -dim bold);
    liso_add!(l22, -dim +dim);
    liso_add!(l23, -dim -italic);
    liso_add!(l24, -dim ^inverse);
    liso_add!(l25, -dim ansi x);
    liso_add!(l26, -dim x);
    let r = liso!(-dim);
    assert(r.g@ == e_off(v_new(), Style::DIM)); //# C28
    let r = liso!(y, -dim, y);
    assert(r.g@ == e_text(e_off(e_text(v_new(), y@), Style::DIM), y@)); //# C28
}
//@use use_off_underline props=C28
pub fn use_off_underline(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_off(old(l0).g@, Style::UNDERLINE), //# C28
        final(l1).g@ == e_off(old(l1).g@, Style::UNDERLINE), //# C28
        final(l2).g@ == e_off(e_text(old(l2).g@, y@), Style::UNDERLINE), //# C28
        final(l3).g@ == e_text(e_off(e_text(old(l3).g@, y@), Style::UNDERLINE), y@), //# C28
        final(l4).g@ == e_text(e_off(old(l4).g@, Style::UNDERLINE), y@), //# C28
        final(l5).g@ == e_reset(e_off(old(l5).g@, Style::UNDERLINE)), //# C28
        final(l6).g@ == e_fg(e_off(old(l6).g@, Style::UNDERLINE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_off(old(l7).g@, Style::UNDERLINE), None), //# C28
        final(l8).g@ == e_fg(e_off(old(l8).g@, Style::UNDERLINE), c), //# C28
        final(l9).g@ == e_set(e_off(old(l9).g@, Style::UNDERLINE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_off(old(l10).g@, Style::UNDERLINE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_off(old(l11).g@, Style::UNDERLINE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_off(old(l12).g@, Style::UNDERLINE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_off(old(l13).g@, Style::UNDERLINE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_off(old(l14).g@, Style::UNDERLINE), x@), //# C28
        final(l15).g@ == e_text(e_off(old(l15).g@, Style::UNDERLINE), x@), //# C28
        final(l16).g@ == e_reset(e_off(old(l16).g@, Style::UNDERLINE)), //# C28
        final(l17).g@ == e_fg(e_off(old(l17).g@, Style::UNDERLINE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_off(old(l18).g@, Style::UNDERLINE), None), //# C28
        final(l19).g@ == e_fg(e_off(old(l19).g@, Style::UNDERLINE), c), //# C28
        final(l20).g@ == e_set(e_off(old(l20).g@, Style::UNDERLINE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_off(old(l21).g@, Style::UNDERLINE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_off(old(l22).g@, Style::UNDERLINE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_off(old(l23).g@, Style::UNDERLINE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_off(old(l24).g@, Style::UNDERLINE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_off(old(l25).g@, Style::UNDERLINE), x@), //# C28
        final(l26).g@ == e_text(e_off(old(l26).g@, Style::UNDERLINE), x@), //# C28
{
    liso_add!(l0, -underline);
    liso_add!(l1, -underline,);
    liso_add!(l2, y, -underline);
    liso_add!(l3, y, -underline,, y,);
    liso_add!(l4, , -underline, y);
    liso_add!(l5, -underline, reset);
    liso_add!(l6, -underline, fg = red);
    liso_add!(l7, -underline, bg = none);
    liso_add!(l8, -underline, fg = c);
    liso_add!(l9, -underline, plain);
    liso_add!(l10, -underline, bold);
    liso_add!(l11, -underline, +dim);
    liso_add!(l12, -underline, -italic);
    liso_add!(l13, -underline, ^inverse);
    liso_add!(l14, -underline, ansi x);
    liso_add!(l15, -underline, x);
    liso_add!(l16, -underline reset);
    liso_add!(l17, -underline fg = red);
    liso_add!(l18, -underline bg = none);
    liso_add!(l19, -underline fg = c);
    liso_add!(l20, -underline plain);
    liso_add!(l21, -underline bold);
    liso_add!(l22, -underline +dim);
    liso_add!(l23, -underline -italic);
    liso_add!(l24, -underline ^inverse);
    liso_add!(l25, -underline ansi x);
    liso_add!(l26, -underline x);
    let r = liso!(-underline);
    assert(r.g@ == e_off(v_new(), Style::UNDERLINE)); //# C28
    let r = liso!(y, -underline, y);
    assert(r.g@ == e_text(e_off(e_text(v_new(), y@), Style::UNDERLINE), y@)); //# C28
}
//@use use_off_inverse props=C28
pub fn use_off_inverse(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_off(old(l0).g@, Style::INVERSE), //# C28
        final(l1).g@ == e_off(old(l1).g@, Style::INVERSE), //# C28
        final(l2).g@ == e_off(e_text(old(l2).g@, y@), Style::INVERSE), //# C28
        final(l3).g@ == e_text(e_off(e_text(old(l3).g@, y@), Style::INVERSE), y@), //# C28
        final(l4).g@ == e_text(e_off(old(l4).g@, Style::INVERSE), y@), //# C28
        final(l5).g@ == e_reset(e_off(old(l5).g@, Style::INVERSE)), //# C28
        final(l6).g@ == e_fg(e_off(old(l6).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_off(old(l7).g@, Style::INVERSE), None), //# C28
        final(l8).g@ == e_fg(e_off(old(l8).g@, Style::INVERSE), c), //# C28
        final(l9).g@ == e_set(e_off(old(l9).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_off(old(l10).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_off(old(l11).g@, Style::INVERSE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_off(old(l12).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_off(old(l13).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_off(old(l14).g@, Style::INVERSE), x@), //# C28
        final(l15).g@ == e_text(e_off(old(l15).g@, Style::INVERSE), x@), //# C28
        final(l16).g@ == e_reset(e_off(old(l16).g@, Style::INVERSE)), //# C28
        final(l17).g@ == e_fg(e_off(old(l17).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_off(old(l18).g@, Style::INVERSE), None), //# C28
        final(l19).g@ == e_fg(e_off(old(l19).g@, Style::INVERSE), c), //# C28
        final(l20).g@ == e_set(e_off(old(l20).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_off(old(l21).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_off(old(l22).g@, Style::INVERSE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_off(old(l23).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_off(old(l24).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_off(old(l25).g@, Style::INVERSE), x@), //# C28
        final(l26).g@ == e_text(e_off(old(l26).g@, Style::INVERSE), x@), //# C28
{
    liso_add!(l0, -inverse);
    liso_add!(l1, -inverse,);
    liso_add!(l2, y, -inverse);
    liso_add!(l3, y, -inverse,, y,);
    liso_add!(l4, , -inverse, y);
    liso_add!(l5, -inverse, reset);
    liso_add!(l6, -inverse, fg = red);
    liso_add!(l7, -inverse, bg = none);
    liso_add!(l8, -inverse, fg = c);
    liso_add!(l9, -inverse, plain);
    liso_add!(l10, -inverse, bold);
    liso_add!(l11, -inverse, +dim);
    liso_add!(l12, -inverse, -italic);
    liso_add!(l13, -inverse, ^inverse);
    liso_add!(l14, -inverse, ansi x);
    liso_add!(l15, -inverse, x);
    liso_add!(l16, -inverse reset);
    liso_add!(l17, -inverse fg = red);
    liso_add!(l18, -inverse bg = none);
    liso_add!(l19, -inverse fg = c);
    liso_add!(l20, -inverse plain);
    liso_add!(l21, -inverse bold);
    liso_add!(l22, -inverse +dim);
    liso_add!(l23, -inverse -italic);
    liso_add!(l24, -inverse ^inverse);
    liso_add!(l25, -inverse ansi x);
    liso_add!(l26, -inverse x);
    let r = liso!(-inverse);
    assert(r.g@ == e_off(v_new(), Style::INVERSE)); //# C28
    let r = liso!(y, -inverse, y);
    assert(r.g@ == e_text(e_off(e_text(v_new(), y@), Style::INVERSE), y@)); //# C28
}
//@use use_off_reverse props=C28
pub fn use_off_reverse(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_off(old(l0).g@, Style::INVERSE), //# C28
        final(l1).g@ == e_off(old(l1).g@, Style::INVERSE), //# C28
        final(l2).g@ == e_off(e_text(old(l2).g@, y@), Style::INVERSE), //# C28
        final(l3).g@ == e_text(e_off(e_text(old(l3).g@, y@), Style::INVERSE), y@), //# C28
        final(l4).g@ == e_text(e_off(old(l4).g@, Style::INVERSE), y@), //# C28
        final(l5).g@ == e_reset(e_off(old(l5).g@, Style::INVERSE)), //# C28
        final(l6).g@ == e_fg(e_off(old(l6).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_off(old(l7).g@, Style::INVERSE), None), //# C28
        final(l8).g@ == e_fg(e_off(old(l8).g@, Style::INVERSE), c), //# C28
        final(l9).g@ == e_set(e_off(old(l9).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_off(old(l10).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_off(old(l11).g@, Style::INVERSE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_off(old(l12).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_off(old(l13).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_off(old(l14).g@, Style::INVERSE), x@), //# C28
        final(l15).g@ == e_text(e_off(old(l15).g@, Style::INVERSE), x@), //# C28
        final(l16).g@ == e_reset(e_off(old(l16).g@, Style::INVERSE)), //# C28
        final(l17).g@ == e_fg(e_off(old(l17).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_off(old(l18).g@, Style::INVERSE), None), //# C28
        final(l19).g@ == e_fg(e_off(old(l19).g@, Style::INVERSE), c), //# C28
        final(l20).g@ == e_set(e_off(old(l20).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_off(old(l21).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_off(old(l22).g@, Style::INVERSE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_off(old(l23).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_off(old(l24).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_off(old(l25).g@, Style::INVERSE), x@), //# C28
        final(l26).g@ == e_text(e_off(old(l26).g@, Style::INVERSE), x@), //# C28
{
    liso_add!(l0, -reverse);
    liso_add!(l1, -reverse,);
    liso_add!(l2, y, -reverse);
    liso_add!(l3, y, -reverse,, y,);
    liso_add!(l4, , -reverse, y);
    liso_add!(l5, -reverse, reset);
    liso_add!(l6, -reverse, fg = red);
    liso_add!(l7, -reverse, bg = none);
    liso_add!(l8, -reverse, fg = c);
    liso_add!(l9, -reverse, plain);
    liso_add!(l10, -reverse, bold);
    liso_add!(l11, -reverse, +dim);
    liso_add!(l12, -reverse, -italic);
    liso_add!(l13, -reverse, ^inverse);
    liso_add!(l14, -reverse, ansi x);
    liso_add!(l15, -reverse, x);
    liso_add!(l16, -reverse reset);
    liso_add!(l17, -reverse fg = red);
    liso_add!(l18, -reverse bg = none);
    liso_add!(l19, -reverse fg = c);
    liso_add!(l20, -reverse plain);
    liso_add!(l21, -reverse bold);
    liso_add!(l22, -reverse +dim);
    liso_add!(l23, -reverse -italic);
    liso_add!(l24, -reverse ^inverse);
    liso_add!(l25, -reverse ansi x);
    liso_add!(l26, -reverse x);
    let r = liso!(-reverse);
    assert(r.g@ == e_off(v_new(), Style::INVERSE)); //# C28
    let r = liso!(y, -reverse, y);
    assert(r.g@ == e_text(e_off(e_text(v_new(), y@), Style::INVERSE), y@)); //# C28
}
//@use use_off_italic props=C28
pub fn use_off_italic(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_off(old(l0).g@, Style::ITALIC), //# C28
        final(l1).g@ == e_off(old(l1).g@, Style::ITALIC), //# C28
        final(l2).g@ == e_off(e_text(old(l2).g@, y@), Style::ITALIC), //# C28
        final(l3).g@ == e_text(e_off(e_text(old(l3).g@, y@), Style::ITALIC), y@), //# C28
        final(l4).g@ == e_text(e_off(old(l4).g@, Style::ITALIC), y@), //# C28
        final(l5).g@ == e_reset(e_off(old(l5).g@, Style::ITALIC)), //# C28
        final(l6).g@ == e_fg(e_off(old(l6).g@, Style::ITALIC), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_off(old(l7).g@, Style::ITALIC), None), //# C28
        final(l8).g@ == e_fg(e_off(old(l8).g@, Style::ITALIC), c), //# C28
        final(l9).g@ == e_set(e_off(old(l9).g@, Style::ITALIC), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_off(old(l10).g@, Style::ITALIC), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_off(old(l11).g@, Style::ITALIC), Style::DIM), //# C28
        final(l12).g@ == e_off(e_off(old(l12).g@, Style::ITALIC), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_off(old(l13).g@, Style::ITALIC), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_off(old(l14).g@, Style::ITALIC), x@), //# C28
        final(l15).g@ == e_text(e_off(old(l15).g@, Style::ITALIC), x@), //# C28
        final(l16).g@ == e_reset(e_off(old(l16).g@, Style::ITALIC)), //# C28
        final(l17).g@ == e_fg(e_off(old(l17).g@, Style::ITALIC), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_off(old(l18).g@, Style::ITALIC), None), //# C28
        final(l19).g@ == e_fg(e_off(old(l19).g@, Style::ITALIC), c), //# C28
        final(l20).g@ == e_set(e_off(old(l20).g@, Style::ITALIC), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_off(old(l21).g@, Style::ITALIC), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_off(old(l22).g@, Style::ITALIC), Style::DIM), //# C28
        final(l23).g@ == e_off(e_off(old(l23).g@, Style::ITALIC), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_off(old(l24).g@, Style::ITALIC), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_off(old(l25).g@, Style::ITALIC), x@), //# C28
        final(l26).g@ == e_text(e_off(old(l26).g@, Style::ITALIC), x@), //# C28
{
    liso_add!(l0, -italic);
    liso_add!(l1, -italic,);
    liso_add!(l2, y, -italic);
    liso_add!(l3, y, -italic,, y,);
    liso_add!(l4, , -italic, y);
    liso_add!(l5, -italic, reset);
    liso_add!(l6, -italic, fg = red);
    liso_add!(l7, -italic, bg = none);
    liso_add!(l8, -italic, fg = c);
    liso_add!(l9, -italic, plain);
    liso_add!(l10, -italic, bold);
    liso_add!(l11, -italic, +dim);
    liso_add!(l12, -italic, -italic);
    liso_add!(l13, -italic, ^inverse);
    liso_add!(l14, -italic, ansi x);
    liso_add!(l15, -italic, x);
    liso_add!(l16, -italic reset);
    liso_add!(l17, -italic fg = red);
    liso_add!(l18, -italic bg = none);
    liso_add!(l19, -italic fg = c);
    liso_add!(l20, -italic plain);
    liso_add!(l21, -italic bold);
    liso_add!(l22, -italic +dim);
    liso_add!(l23, -italic -italic);
    liso_add!(l24, -italic ^inverse);
    liso_add!(l25, -italic ansi x);
    liso_add!(l26, -italic x);
    let r = liso!(-italic);
    assert(r.g@ == e_off(v_new(), Style::ITALIC)); //# C28
    let r = liso!(y, -italic, y);
    assert(r.g@ == e_text(e_off(e_text(v_new(), y@), Style::ITALIC), y@)); //# C28
}
//@use use_toggle_bold props=C28
pub fn use_toggle_bold(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_tog(old(l0).g@, Style::BOLD), //# C28
        final(l1).g@ == e_tog(old(l1).g@, Style::BOLD), //# C28
        final(l2).g@ == e_tog(e_text(old(l2).g@, y@), Style::BOLD), //# C28
        final(l3).g@ == e_text(e_tog(e_text(old(l3).g@, y@), Style::BOLD), y@), //# C28
        final(l4).g@ == e_text(e_tog(old(l4).g@, Style::BOLD), y@), //# C28
        final(l5).g@ == e_reset(e_tog(old(l5).g@, Style::BOLD)), //# C28
        final(l6).g@ == e_fg(e_tog(old(l6).g@, Style::BOLD), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_tog(old(l7).g@, Style::BOLD), None), //# C28
        final(l8).g@ == e_fg(e_tog(old(l8).g@, Style::BOLD), c), //# C28
        final(l9).g@ == e_set(e_tog(old(l9).g@, Style::BOLD), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_tog(old(l10).g@, Style::BOLD), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_tog(old(l11).g@, Style::BOLD), Style::DIM), //# C28
        final(l12).g@ == e_off(e_tog(old(l12).g@, Style::BOLD), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_tog(old(l13).g@, Style::BOLD), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_tog(old(l14).g@, Style::BOLD), x@), //# C28
        final(l15).g@ == e_text(e_tog(old(l15).g@, Style::BOLD), x@), //# C28
        final(l16).g@ == e_reset(e_tog(old(l16).g@, Style::BOLD)), //# C28
        final(l17).g@ == e_fg(e_tog(old(l17).g@, Style::BOLD), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_tog(old(l18).g@, Style::BOLD), None), //# C28
        final(l19).g@ == e_fg(e_tog(old(l19).g@, Style::BOLD), c), //# C28
        final(l20).g@ == e_set(e_tog(old(l20).g@, Style::BOLD), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_tog(old(l21).g@, Style::BOLD), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_tog(old(l22).g@, Style::BOLD), Style::DIM), //# C28
        final(l23).g@ == e_off(e_tog(old(l23).g@, Style::BOLD), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_tog(old(l24).g@, Style::BOLD), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_tog(old(l25).g@, Style::BOLD), x@), //# C28
        final(l26).g@ == e_text(e_tog(old(l26).g@, Style::BOLD), x@), //# C28
{
    liso_add!(l0, ^bold);
    liso_add!(l1, ^bold,);
    liso_add!(l2, y, ^bold);
    liso_add!(l3, y, ^bold,, y,);
    liso_add!(l4, , ^bold, y);
    liso_add!(l5, ^bold, reset);
    liso_add!(l6, ^bold, fg = red);
    liso_add!(l7, ^bold, bg = none);
    liso_add!(l8, ^bold, fg = c);
    liso_add!(l9, ^bold, plain);
    liso_add!(l10, ^bold, bold);
    liso_add!(l11, ^bold, +dim);
    liso_add!(l12, ^bold, -italic);
    liso_add!(l13, ^bold, ^inverse);
    liso_add!(l14, ^bold, ansi x);
    liso_add!(l15, ^bold, x);
    liso_add!(l16, ^bold reset);
    liso_add!(l17, ^bold fg = red);
    liso_add!(l18, ^bold bg = none);
    liso_add!(l19, ^bold fg = c);
    liso_add!(l20, ^bold plain);
    liso_add!(l21, ^bold bold);
    liso_add!(l22, ^bold +dim);
    liso_add!(l23, ^bold -italic);
    liso_add!(l24, ^bold ^inverse);
    liso_add!(l25, ^bold ansi x);
    liso_add!(l26, ^bold x);
    let r = liso!(^bold);
    assert(r.g@ == e_tog(v_new(), Style::BOLD)); //# C28
    let r = liso!(y, ^bold, y);
    assert(r.g@ == e_text(e_tog(e_text(v_new(), y@), Style::BOLD), y@)); //# C28
}
//@use use_toggle_dim props=C28
pub fn use_toggle_dim(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_tog(old(l0).g@, Style::DIM), //# C28
        final(l1).g@ == e_tog(old(l1).g@, Style::DIM), //# C28
        final(l2).g@ == e_tog(e_text(old(l2).g@, y@), Style::DIM), //# C28
        final(l3).g@ == e_text(e_tog(e_text(old(l3).g@, y@), Style::DIM), y@), //# C28
        final(l4).g@ == e_text(e_tog(old(l4).g@, Style::DIM), y@), //# C28
        final(l5).g@ == e_reset(e_tog(old(l5).g@, Style::DIM)), //# C28
        final(l6).g@ == e_fg(e_tog(old(l6).g@, Style::DIM), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_tog(old(l7).g@, Style::DIM), None), //# C28
        final(l8).g@ == e_fg(e_tog(old(l8).g@, Style::DIM), c), //# C28
        final(l9).g@ == e_set(e_tog(old(l9).g@, Style::DIM), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_tog(old(l10).g@, Style::DIM), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_tog(old(l11).g@, Style::DIM), Style::DIM), //# C28
        final(l12).g@ == e_off(e_tog(old(l12).g@, Style::DIM), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_tog(old(l13).g@, Style::DIM), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_tog(old(l14).g@, Style::DIM), x@), //# C28
        final(l15).g@ == e_text(e_tog(old(l15).g@, Style::DIM), x@), //# C28
        final(l16).g@ == e_reset(e_tog(old(l16).g@, Style::DIM)), //# C28
        final(l17).g@ == e_fg(e_tog(old(l17).g@, Style::DIM), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_tog(old(l18).g@, Style::DIM), None), //# C28
        final(l19).g@ == e_fg(e_tog(old(l19).g@, Style::DIM), c), //# C28
        final(l20).g@ == e_set(e_tog(old(l20).g@, Style::DIM), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_tog(old(l21).g@, Style::DIM), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_tog(old(l22).g@, Style::DIM), Style::DIM), //# C28
        final(l23).g@ == e_off(e_tog(old(l23).g@, Style::DIM), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_tog(old(l24).g@, Style::DIM), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_tog(old(l25).g@, Style::DIM), x@), //# C28
        final(l26).g@ == e_text(e_tog(old(l26).g@, Style::DIM), x@), //# C28
{
    liso_add!(l0, ^dim);
    liso_add!(l1, ^dim,);
    liso_add!(l2, y, ^dim);
    liso_add!(l3, y, ^dim,, y,);
    liso_add!(l4, , ^dim, y);
    liso_add!(l5, ^dim, reset);
    liso_add!(l6, ^dim, fg = red);
    liso_add!(l7, ^dim, bg = none);
    liso_add!(l8, ^dim, fg = c);
    liso_add!(l9, ^dim, plain);
    liso_add!(l10, ^dim, bold);
    liso_add!(l11, ^dim, +dim);
    liso_add!(l12, ^dim, -italic);
    liso_add!(l13, ^dim, ^inverse);
    liso_add!(l14, ^dim, ansi x);
    liso_add!(l15, ^dim, x);
    liso_add!(l16, ^dim reset);
    liso_add!(l17, ^dim fg = red);
    liso_add!(l18, ^dim bg = none);
    liso_add!(l19, ^dim fg = c);
    liso_add!(l20, ^dim plain);
    liso_add!(l21, ^dim bold);
    liso_add!(l22, ^dim +dim);
    liso_add!(l23, ^dim -italic);
    liso_add!(l24, ^dim ^inverse);
    liso_add!(l25, ^dim ansi x);
    liso_add!(l26, ^dim x);
    let r = liso!(^dim);
    assert(r.g@ == e_tog(v_new(), Style::DIM)); //# C28
    let r = liso!(y, ^dim, y);
    assert(r.g@ == e_text(e_tog(e_text(v_new(), y@), Style::DIM), y@)); //# C28
}
//@use use_toggle_underline props=C28
pub fn use_toggle_underline(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_tog(old(l0).g@, Style::UNDERLINE), //# C28
        final(l1).g@ == e_tog(old(l1).g@, Style::UNDERLINE), //# C28
        final(l2).g@ == e_tog(e_text(old(l2).g@, y@), Style::UNDERLINE), //# C28
        final(l3).g@ == e_text(e_tog(e_text(old(l3).g@, y@), Style::UNDERLINE), y@), //# C28
        final(l4).g@ == e_text(e_tog(old(l4).g@, Style::UNDERLINE), y@), //# C28
        final(l5).g@ == e_reset(e_tog(old(l5).g@, Style::UNDERLINE)), //# C28
        final(l6).g@ == e_fg(e_tog(old(l6).g@, Style::UNDERLINE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_tog(old(l7).g@, Style::UNDERLINE), None), //# C28
        final(l8).g@ == e_fg(e_tog(old(l8).g@, Style::UNDERLINE), c), //# C28
        final(l9).g@ == e_set(e_tog(old(l9).g@, Style::UNDERLINE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_tog(old(l10).g@, Style::UNDERLINE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_tog(old(l11).g@, Style::UNDERLINE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_tog(old(l12).g@, Style::UNDERLINE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_tog(old(l13).g@, Style::UNDERLINE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_tog(old(l14).g@, Style::UNDERLINE), x@), //# C28
        final(l15).g@ == e_text(e_tog(old(l15).g@, Style::UNDERLINE), x@), //# C28
        final(l16).g@ == e_reset(e_tog(old(l16).g@, Style::UNDERLINE)), //# C28
        final(l17).g@ == e_fg(e_tog(old(l17).g@, Style::UNDERLINE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_tog(old(l18).g@, Style::UNDERLINE), None), //# C28
        final(l19).g@ == e_fg(e_tog(old(l19).g@, Style::UNDERLINE), c), //# C28
        final(l20).g@ == e_set(e_tog(old(l20).g@, Style::UNDERLINE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_tog(old(l21).g@, Style::UNDERLINE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_tog(old(l22).g@, Style::UNDERLINE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_tog(old(l23).g@, Style::UNDERLINE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_tog(old(l24).g@, Style::UNDERLINE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_tog(old(l25).g@, Style::UNDERLINE), x@), //# C28
        final(l26).g@ == e_text(e_tog(old(l26).g@, Style::UNDERLINE), x@), //# C28
{
    liso_add!(l0, ^underline);
    liso_add!(l1, ^underline,);
    liso_add!(l2, y, ^underline);
    liso_add!(l3, y, ^underline,, y,);
    liso_add!(l4, , ^underline, y);
    liso_add!(l5, ^underline, reset);
    liso_add!(l6, ^underline, fg = red);
    liso_add!(l7, ^underline, bg = none);
    liso_add!(l8, ^underline, fg = c);
    liso_add!(l9, ^underline, plain);
    liso_add!(l10, ^underline, bold);
    liso_add!(l11, ^underline, +dim);
    liso_add!(l12, ^underline, -italic);
    liso_add!(l13, ^underline, ^inverse);
    liso_add!(l14, ^underline, ansi x);
    liso_add!(l15, ^underline, x);
    liso_add!(l16, ^underline reset);
    liso_add!(l17, ^underline fg = red);
    liso_add!(l18, ^underline bg = none);
    liso_add!(l19, ^underline fg = c);
    liso_add!(l20, ^underline plain);
    liso_add!(l21, ^underline bold);
    liso_add!(l22, ^underline +dim);
    liso_add!(l23, ^underline -italic);
    liso_add!(l24, ^underline ^inverse);
    liso_add!(l25, ^underline ansi x);
    liso_add!(l26, ^underline x);
    let r = liso!(^underline);
    assert(r.g@ == e_tog(v_new(), Style::UNDERLINE)); //# C28
    let r = liso!(y, ^underline, y);
    assert(r.g@ == e_text(e_tog(e_text(v_new(), y@), Style::UNDERLINE), y@)); //# C28
}
//@use use_toggle_inverse props=C28
pub fn use_toggle_inverse(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_tog(old(l0).g@, Style::INVERSE), //# C28
        final(l1).g@ == e_tog(old(l1).g@, Style::INVERSE), //# C28
        final(l2).g@ == e_tog(e_text(old(l2).g@, y@), Style::INVERSE), //# C28
        final(l3).g@ == e_text(e_tog(e_text(old(l3).g@, y@), Style::INVERSE), y@), //# C28
        final(l4).g@ == e_text(e_tog(old(l4).g@, Style::INVERSE), y@), //# C28
        final(l5).g@ == e_reset(e_tog(old(l5).g@, Style::INVERSE)), //# C28
        final(l6).g@ == e_fg(e_tog(old(l6).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_tog(old(l7).g@, Style::INVERSE), None), //# C28
        final(l8).g@ == e_fg(e_tog(old(l8).g@, Style::INVERSE), c), //# C28
        final(l9).g@ == e_set(e_tog(old(l9).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_tog(old(l10).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_tog(old(l11).g@, Style::INVERSE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_tog(old(l12).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_tog(old(l13).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_tog(old(l14).g@, Style::INVERSE), x@), //# C28
        final(l15).g@ == e_text(e_tog(old(l15).g@, Style::INVERSE), x@), //# C28
        final(l16).g@ == e_reset(e_tog(old(l16).g@, Style::INVERSE)), //# C28
        final(l17).g@ == e_fg(e_tog(old(l17).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_tog(old(l18).g@, Style::INVERSE), None), //# C28
        final(l19).g@ == e_fg(e_tog(old(l19).g@, Style::INVERSE), c), //# C28
        final(l20).g@ == e_set(e_tog(old(l20).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_tog(old(l21).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_tog(old(l22).g@, Style::INVERSE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_tog(old(l23).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_tog(old(l24).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_tog(old(l25).g@, Style::INVERSE), x@), //# C28
        final(l26).g@ == e_text(e_tog(old(l26).g@, Style::INVERSE), x@), //# C28
{
    liso_add!(l0, ^inverse);
    liso_add!(l1, ^inverse,);
    liso_add!(l2, y, ^inverse);
    liso_add!(l3, y, ^inverse,, y,);
    liso_add!(l4, , ^inverse, y);
    liso_add!(l5, ^inverse, reset);
    liso_add!(l6, ^inverse, fg = red);
    liso_add!(l7, ^inverse, bg = none);
    liso_add!(l8, ^inverse, fg = c);
    liso_add!(l9, ^inverse, plain);
    liso_add!(l10, ^inverse, bold);
    liso_add!(l11, ^inverse, +dim);
    liso_add!(l12, ^inverse, -italic);
    liso_add!(l13, ^inverse, ^inverse);
    liso_add!(l14, ^inverse, ansi x);
    liso_add!(l15, ^inverse, x);
    liso_add!(l16, ^inverse reset);
    liso_add!(l17, ^inverse fg = red);
    liso_add!(l18, ^inverse bg = none);
    liso_add!(l19, ^inverse fg = c);
    liso_add!(l20, ^inverse plain);
    liso_add!(l21, ^inverse bold);
    liso_add!(l22, ^inverse +dim);
    liso_add!(l23, ^inverse -italic);
    liso_add!(l24, ^inverse ^inverse);
    liso_add!(l25, ^inverse ansi x);
    liso_add!(l26, ^inverse x);
    let r = liso!(^inverse);
    assert(r.g@ == e_tog(v_new(), Style::INVERSE)); //# C28
    let r = liso!(y, ^inverse, y);
    assert(r.g@ == e_text(e_tog(e_text(v_new(), y@), Style::INVERSE), y@)); //# C28
}
//@use use_toggle_reverse props=C28
pub fn use_toggle_reverse(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_tog(old(l0).g@, Style::INVERSE), //# C28
        final(l1).g@ == e_tog(old(l1).g@, Style::INVERSE), //# C28
        final(l2).g@ == e_tog(e_text(old(l2).g@, y@), Style::INVERSE), //# C28
        final(l3).g@ == e_text(e_tog(e_text(old(l3).g@, y@), Style::INVERSE), y@), //# C28
        final(l4).g@ == e_text(e_tog(old(l4).g@, Style::INVERSE), y@), //# C28
        final(l5).g@ == e_reset(e_tog(old(l5).g@, Style::INVERSE)), //# C28
        final(l6).g@ == e_fg(e_tog(old(l6).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_tog(old(l7).g@, Style::INVERSE), None), //# C28
        final(l8).g@ == e_fg(e_tog(old(l8).g@, Style::INVERSE), c), //# C28
        final(l9).g@ == e_set(e_tog(old(l9).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_tog(old(l10).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_tog(old(l11).g@, Style::INVERSE), Style::DIM), //# C28
        final(l12).g@ == e_off(e_tog(old(l12).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_tog(old(l13).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_tog(old(l14).g@, Style::INVERSE), x@), //# C28
        final(l15).g@ == e_text(e_tog(old(l15).g@, Style::INVERSE), x@), //# C28
        final(l16).g@ == e_reset(e_tog(old(l16).g@, Style::INVERSE)), //# C28
        final(l17).g@ == e_fg(e_tog(old(l17).g@, Style::INVERSE), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_tog(old(l18).g@, Style::INVERSE), None), //# C28
        final(l19).g@ == e_fg(e_tog(old(l19).g@, Style::INVERSE), c), //# C28
        final(l20).g@ == e_set(e_tog(old(l20).g@, Style::INVERSE), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_tog(old(l21).g@, Style::INVERSE), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_tog(old(l22).g@, Style::INVERSE), Style::DIM), //# C28
        final(l23).g@ == e_off(e_tog(old(l23).g@, Style::INVERSE), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_tog(old(l24).g@, Style::INVERSE), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_tog(old(l25).g@, Style::INVERSE), x@), //# C28
        final(l26).g@ == e_text(e_tog(old(l26).g@, Style::INVERSE), x@), //# C28
{
    liso_add!(l0, ^reverse);
    liso_add!(l1, ^reverse,);
    liso_add!(l2, y, ^reverse);
    liso_add!(l3, y, ^reverse,, y,);
    liso_add!(l4, , ^reverse, y);
    liso_add!(l5, ^reverse, reset);
    liso_add!(l6, ^reverse, fg = red);
    liso_add!(l7, ^reverse, bg = none);
    liso_add!(l8, ^reverse, fg = c);
    liso_add!(l9, ^reverse, plain);
    liso_add!(l10, ^reverse, bold);
    liso_add!(l11, ^reverse, +dim);
    liso_add!(l12, ^reverse, -italic);
    liso_add!(l13, ^reverse, ^inverse);
    liso_add!(l14, ^reverse, ansi x);
    liso_add!(l15, ^reverse, x);
    liso_add!(l16, ^reverse reset);
    liso_add!(l17, ^reverse fg = red);
    liso_add!(l18, ^reverse bg = none);
    liso_add!(l19, ^reverse fg = c);
    liso_add!(l20, ^reverse plain);
    liso_add!(l21, ^reverse bold);
    liso_add!(l22, ^reverse +dim);
    liso_add!(l23, ^reverse -italic);
    liso_add!(l24, ^reverse ^inverse);
    liso_add!(l25, ^reverse ansi x);
    liso_add!(l26, ^reverse x);
    let r = liso!(^reverse);
    assert(r.g@ == e_tog(v_new(), Style::INVERSE)); //# C28
    let r = liso!(y, ^reverse, y);
    assert(r.g@ == e_text(e_tog(e_text(v_new(), y@), Style::INVERSE), y@)); //# C28
}
//@use use_toggle_italic props=C28
pub fn use_toggle_italic(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line, l16: &mut Line, l17: &mut Line, l18: &mut Line, l19: &mut Line, l20: &mut Line, l21: &mut Line, l22: &mut Line, l23: &mut Line, l24: &mut Line, l25: &mut Line, l26: &mut Line)
    ensures
        final(l0).g@ == e_tog(old(l0).g@, Style::ITALIC), //# C28
        final(l1).g@ == e_tog(old(l1).g@, Style::ITALIC), //# C28
        final(l2).g@ == e_tog(e_text(old(l2).g@, y@), Style::ITALIC), //# C28
        final(l3).g@ == e_text(e_tog(e_text(old(l3).g@, y@), Style::ITALIC), y@), //# C28
        final(l4).g@ == e_text(e_tog(old(l4).g@, Style::ITALIC), y@), //# C28
        final(l5).g@ == e_reset(e_tog(old(l5).g@, Style::ITALIC)), //# C28
        final(l6).g@ == e_fg(e_tog(old(l6).g@, Style::ITALIC), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_tog(old(l7).g@, Style::ITALIC), None), //# C28
        final(l8).g@ == e_fg(e_tog(old(l8).g@, Style::ITALIC), c), //# C28
        final(l9).g@ == e_set(e_tog(old(l9).g@, Style::ITALIC), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_tog(old(l10).g@, Style::ITALIC), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_tog(old(l11).g@, Style::ITALIC), Style::DIM), //# C28
        final(l12).g@ == e_off(e_tog(old(l12).g@, Style::ITALIC), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_tog(old(l13).g@, Style::ITALIC), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_tog(old(l14).g@, Style::ITALIC), x@), //# C28
        final(l15).g@ == e_text(e_tog(old(l15).g@, Style::ITALIC), x@), //# C28
        final(l16).g@ == e_reset(e_tog(old(l16).g@, Style::ITALIC)), //# C28
        final(l17).g@ == e_fg(e_tog(old(l17).g@, Style::ITALIC), Some(Color::Red)), //# C28
        final(l18).g@ == e_bg(e_tog(old(l18).g@, Style::ITALIC), None), //# C28
        final(l19).g@ == e_fg(e_tog(old(l19).g@, Style::ITALIC), c), //# C28
        final(l20).g@ == e_set(e_tog(old(l20).g@, Style::ITALIC), Style::PLAIN), //# C28
        final(l21).g@ == e_set(e_tog(old(l21).g@, Style::ITALIC), Style::BOLD), //# C28
        final(l22).g@ == e_on(e_tog(old(l22).g@, Style::ITALIC), Style::DIM), //# C28
        final(l23).g@ == e_off(e_tog(old(l23).g@, Style::ITALIC), Style::ITALIC), //# C28
        final(l24).g@ == e_tog(e_tog(old(l24).g@, Style::ITALIC), Style::INVERSE), //# C28
        final(l25).g@ == e_ansi(e_tog(old(l25).g@, Style::ITALIC), x@), //# C28
        final(l26).g@ == e_text(e_tog(old(l26).g@, Style::ITALIC), x@), //# C28
{
    liso_add!(l0, ^italic);
    liso_add!(l1, ^italic,);
    liso_add!(l2, y, ^italic);
    liso_add!(l3, y, ^italic,, y,);
    liso_add!(l4, , ^italic, y);
    liso_add!(l5, ^italic, reset);
    liso_add!(l6, ^italic, fg = red);
    liso_add!(l7, ^italic, bg = none);
    liso_add!(l8, ^italic, fg = c);
    liso_add!(l9, ^italic, plain);
    liso_add!(l10, ^italic, bold);
    liso_add!(l11, ^italic, +dim);
    liso_add!(l12, ^italic, -italic);
    liso_add!(l13, ^italic, ^inverse);
    liso_add!(l14, ^italic, ansi x);
    liso_add!(l15, ^italic, x);
    liso_add!(l16, ^italic reset);
    liso_add!(l17, ^italic fg = red);
    liso_add!(l18, ^italic bg = none);
    liso_add!(l19, ^italic fg = c);
    liso_add!(l20, ^italic plain);
    liso_add!(l21, ^italic bold);
    liso_add!(l22, ^italic +dim);
    liso_add!(l23, ^italic -italic);
    liso_add!(l24, ^italic ^inverse);
    liso_add!(l25, ^italic ansi x);
    liso_add!(l26, ^italic x);
    let r = liso!(^italic);
    assert(r.g@ == e_tog(v_new(), Style::ITALIC)); //# C28
    let r = liso!(y, ^italic, y);
    assert(r.g@ == e_text(e_tog(e_text(v_new(), y@), Style::ITALIC), y@)); //# C28
}
//@use use_ansi props=C28
pub fn use_ansi(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_ansi(old(l0).g@, x@), //# C28
        final(l1).g@ == e_ansi(old(l1).g@, x@), //# C28
        final(l2).g@ == e_ansi(e_text(old(l2).g@, y@), x@), //# C28
        final(l3).g@ == e_text(e_ansi(e_text(old(l3).g@, y@), x@), y@), //# C28
        final(l4).g@ == e_text(e_ansi(old(l4).g@, x@), y@), //# C28
        final(l5).g@ == e_reset(e_ansi(old(l5).g@, x@)), //# C28
        final(l6).g@ == e_fg(e_ansi(old(l6).g@, x@), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_ansi(old(l7).g@, x@), None), //# C28
        final(l8).g@ == e_fg(e_ansi(old(l8).g@, x@), c), //# C28
        final(l9).g@ == e_set(e_ansi(old(l9).g@, x@), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_ansi(old(l10).g@, x@), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_ansi(old(l11).g@, x@), Style::DIM), //# C28
        final(l12).g@ == e_off(e_ansi(old(l12).g@, x@), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_ansi(old(l13).g@, x@), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_ansi(old(l14).g@, x@), x@), //# C28
        final(l15).g@ == e_text(e_ansi(old(l15).g@, x@), x@), //# C28
{
    liso_add!(l0, ansi x);
    liso_add!(l1, ansi x,);
    liso_add!(l2, y, ansi x);
    liso_add!(l3, y, ansi x,, y,);
    liso_add!(l4, , ansi x, y);
    liso_add!(l5, ansi x, reset);
    liso_add!(l6, ansi x, fg = red);
    liso_add!(l7, ansi x, bg = none);
    liso_add!(l8, ansi x, fg = c);
    liso_add!(l9, ansi x, plain);
    liso_add!(l10, ansi x, bold);
    liso_add!(l11, ansi x, +dim);
    liso_add!(l12, ansi x, -italic);
    liso_add!(l13, ansi x, ^inverse);
    liso_add!(l14, ansi x, ansi x);
    liso_add!(l15, ansi x, x);
    let r = liso!(ansi x);
    assert(r.g@ == e_ansi(v_new(), x@)); //# C28
    let r = liso!(y, ansi x, y);
    assert(r.g@ == e_text(e_ansi(e_text(v_new(), y@), x@), y@)); //# C28
}
//@use use_ansi_lit props=C28
pub fn use_ansi_lit(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_ansi(old(l0).g@, "lit"@), //# C28
        final(l1).g@ == e_ansi(old(l1).g@, "lit"@), //# C28
        final(l2).g@ == e_ansi(e_text(old(l2).g@, y@), "lit"@), //# C28
        final(l3).g@ == e_text(e_ansi(e_text(old(l3).g@, y@), "lit"@), y@), //# C28
        final(l4).g@ == e_text(e_ansi(old(l4).g@, "lit"@), y@), //# C28
        final(l5).g@ == e_reset(e_ansi(old(l5).g@, "lit"@)), //# C28
        final(l6).g@ == e_fg(e_ansi(old(l6).g@, "lit"@), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_ansi(old(l7).g@, "lit"@), None), //# C28
        final(l8).g@ == e_fg(e_ansi(old(l8).g@, "lit"@), c), //# C28
        final(l9).g@ == e_set(e_ansi(old(l9).g@, "lit"@), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_ansi(old(l10).g@, "lit"@), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_ansi(old(l11).g@, "lit"@), Style::DIM), //# C28
        final(l12).g@ == e_off(e_ansi(old(l12).g@, "lit"@), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_ansi(old(l13).g@, "lit"@), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_ansi(old(l14).g@, "lit"@), x@), //# C28
        final(l15).g@ == e_text(e_ansi(old(l15).g@, "lit"@), x@), //# C28
{
    liso_add!(l0, ansi "lit");
    liso_add!(l1, ansi "lit",);
    liso_add!(l2, y, ansi "lit");
    liso_add!(l3, y, ansi "lit",, y,);
    liso_add!(l4, , ansi "lit", y);
    liso_add!(l5, ansi "lit", reset);
    liso_add!(l6, ansi "lit", fg = red);
    liso_add!(l7, ansi "lit", bg = none);
    liso_add!(l8, ansi "lit", fg = c);
    liso_add!(l9, ansi "lit", plain);
    liso_add!(l10, ansi "lit", bold);
    liso_add!(l11, ansi "lit", +dim);
    liso_add!(l12, ansi "lit", -italic);
    liso_add!(l13, ansi "lit", ^inverse);
    liso_add!(l14, ansi "lit", ansi x);
    liso_add!(l15, ansi "lit", x);
    let r = liso!(ansi "lit");
    assert(r.g@ == e_ansi(v_new(), "lit"@)); //# C28
    let r = liso!(y, ansi "lit", y);
    assert(r.g@ == e_text(e_ansi(e_text(v_new(), y@), "lit"@), y@)); //# C28
}
//@use use_text props=C28
pub fn use_text(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_text(old(l0).g@, x@), //# C28
        final(l1).g@ == e_text(old(l1).g@, x@), //# C28
        final(l2).g@ == e_text(e_text(old(l2).g@, y@), x@), //# C28
        final(l3).g@ == e_text(e_text(e_text(old(l3).g@, y@), x@), y@), //# C28
        final(l4).g@ == e_text(e_text(old(l4).g@, x@), y@), //# C28
        final(l5).g@ == e_reset(e_text(old(l5).g@, x@)), //# C28
        final(l6).g@ == e_fg(e_text(old(l6).g@, x@), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_text(old(l7).g@, x@), None), //# C28
        final(l8).g@ == e_fg(e_text(old(l8).g@, x@), c), //# C28
        final(l9).g@ == e_set(e_text(old(l9).g@, x@), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_text(old(l10).g@, x@), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_text(old(l11).g@, x@), Style::DIM), //# C28
        final(l12).g@ == e_off(e_text(old(l12).g@, x@), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_text(old(l13).g@, x@), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_text(old(l14).g@, x@), x@), //# C28
        final(l15).g@ == e_text(e_text(old(l15).g@, x@), x@), //# C28
{
    liso_add!(l0, x);
    liso_add!(l1, x,);
    liso_add!(l2, y, x);
    liso_add!(l3, y, x,, y,);
    liso_add!(l4, , x, y);
    liso_add!(l5, x, reset);
    liso_add!(l6, x, fg = red);
    liso_add!(l7, x, bg = none);
    liso_add!(l8, x, fg = c);
    liso_add!(l9, x, plain);
    liso_add!(l10, x, bold);
    liso_add!(l11, x, +dim);
    liso_add!(l12, x, -italic);
    liso_add!(l13, x, ^inverse);
    liso_add!(l14, x, ansi x);
    liso_add!(l15, x, x);
    let r = liso!(x);
    assert(r.g@ == e_text(v_new(), x@)); //# C28
    let r = liso!(y, x, y);
    assert(r.g@ == e_text(e_text(e_text(v_new(), y@), x@), y@)); //# C28
}
//@use use_text_lit props=C28
pub fn use_text_lit(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_text(old(l0).g@, "lit"@), //# C28
        final(l1).g@ == e_text(old(l1).g@, "lit"@), //# C28
        final(l2).g@ == e_text(e_text(old(l2).g@, y@), "lit"@), //# C28
        final(l3).g@ == e_text(e_text(e_text(old(l3).g@, y@), "lit"@), y@), //# C28
        final(l4).g@ == e_text(e_text(old(l4).g@, "lit"@), y@), //# C28
        final(l5).g@ == e_reset(e_text(old(l5).g@, "lit"@)), //# C28
        final(l6).g@ == e_fg(e_text(old(l6).g@, "lit"@), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_text(old(l7).g@, "lit"@), None), //# C28
        final(l8).g@ == e_fg(e_text(old(l8).g@, "lit"@), c), //# C28
        final(l9).g@ == e_set(e_text(old(l9).g@, "lit"@), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_text(old(l10).g@, "lit"@), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_text(old(l11).g@, "lit"@), Style::DIM), //# C28
        final(l12).g@ == e_off(e_text(old(l12).g@, "lit"@), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_text(old(l13).g@, "lit"@), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_text(old(l14).g@, "lit"@), x@), //# C28
        final(l15).g@ == e_text(e_text(old(l15).g@, "lit"@), x@), //# C28
{
    liso_add!(l0, "lit");
    liso_add!(l1, "lit",);
    liso_add!(l2, y, "lit");
    liso_add!(l3, y, "lit",, y,);
    liso_add!(l4, , "lit", y);
    liso_add!(l5, "lit", reset);
    liso_add!(l6, "lit", fg = red);
    liso_add!(l7, "lit", bg = none);
    liso_add!(l8, "lit", fg = c);
    liso_add!(l9, "lit", plain);
    liso_add!(l10, "lit", bold);
    liso_add!(l11, "lit", +dim);
    liso_add!(l12, "lit", -italic);
    liso_add!(l13, "lit", ^inverse);
    liso_add!(l14, "lit", ansi x);
    liso_add!(l15, "lit", x);
    let r = liso!("lit");
    assert(r.g@ == e_text(v_new(), "lit"@)); //# C28
    let r = liso!(y, "lit", y);
    assert(r.g@ == e_text(e_text(e_text(v_new(), y@), "lit"@), y@)); //# C28
}
//@use use_text_call props=C28
pub fn use_text_call(x: &str, y: &str, c: Option<Color>, l0: &mut Line, l1: &mut Line, l2: &mut Line, l3: &mut Line, l4: &mut Line, l5: &mut Line, l6: &mut Line, l7: &mut Line, l8: &mut Line, l9: &mut Line, l10: &mut Line, l11: &mut Line, l12: &mut Line, l13: &mut Line, l14: &mut Line, l15: &mut Line)
    ensures
        final(l0).g@ == e_text(old(l0).g@, x@), //# C28
        final(l1).g@ == e_text(old(l1).g@, x@), //# C28
        final(l2).g@ == e_text(e_text(old(l2).g@, y@), x@), //# C28
        final(l3).g@ == e_text(e_text(e_text(old(l3).g@, y@), x@), y@), //# C28
        final(l4).g@ == e_text(e_text(old(l4).g@, x@), y@), //# C28
        final(l5).g@ == e_reset(e_text(old(l5).g@, x@)), //# C28
        final(l6).g@ == e_fg(e_text(old(l6).g@, x@), Some(Color::Red)), //# C28
        final(l7).g@ == e_bg(e_text(old(l7).g@, x@), None), //# C28
        final(l8).g@ == e_fg(e_text(old(l8).g@, x@), c), //# C28
        final(l9).g@ == e_set(e_text(old(l9).g@, x@), Style::PLAIN), //# C28
        final(l10).g@ == e_set(e_text(old(l10).g@, x@), Style::BOLD), //# C28
        final(l11).g@ == e_on(e_text(old(l11).g@, x@), Style::DIM), //# C28
        final(l12).g@ == e_off(e_text(old(l12).g@, x@), Style::ITALIC), //# C28
        final(l13).g@ == e_tog(e_text(old(l13).g@, x@), Style::INVERSE), //# C28
        final(l14).g@ == e_ansi(e_text(old(l14).g@, x@), x@), //# C28
        final(l15).g@ == e_text(e_text(old(l15).g@, x@), x@), //# C28
{
    liso_add!(l0, whole(x));
    liso_add!(l1, whole(x),);
    liso_add!(l2, y, whole(x));
    liso_add!(l3, y, whole(x),, y,);
    liso_add!(l4, , whole(x), y);
    liso_add!(l5, whole(x), reset);
    liso_add!(l6, whole(x), fg = red);
    liso_add!(l7, whole(x), bg = none);
    liso_add!(l8, whole(x), fg = c);
    liso_add!(l9, whole(x), plain);
    liso_add!(l10, whole(x), bold);
    liso_add!(l11, whole(x), +dim);
    liso_add!(l12, whole(x), -italic);
    liso_add!(l13, whole(x), ^inverse);
    liso_add!(l14, whole(x), ansi x);
    liso_add!(l15, whole(x), x);
    let r = liso!(whole(x));
    assert(r.g@ == e_text(v_new(), x@)); //# C28
    let r = liso!(y, whole(x), y);
    assert(r.g@ == e_text(e_text(e_text(v_new(), y@), x@), y@)); //# C28
}
//@footer
}
fn main() {}
