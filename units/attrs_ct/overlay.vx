//@header
//@include ../common/sx.rs
//@include ../common/style_sx.rs
verus! {
use sx::*;
pub struct DummyError {}
pub type LifeOrDeath = std::result::Result<(), DummyError>;
// crossterm
#[derive(Clone, Copy)]
pub enum CtColor { Reset, Black, DarkGrey, Red, DarkRed, Green, DarkGreen, Yellow, DarkYellow, Blue, DarkBlue, Magenta, DarkMagenta, Cyan, DarkCyan, White, Grey }
#[derive(Clone, Copy)]
pub enum CtAttribute { Reset, Bold, Dim, Italic, Underlined, Reverse, NormalIntensity, NoBold, NoItalic, NoUnderline, NoReverse, SlowBlink, RapidBlink, Hidden, CrossedOut }
/// attributes in force
pub struct Sty { pub bold: bool, pub dim: bool, pub ul: bool, pub rev: bool, pub ital: bool }
pub struct CtAttributes { pub s: Ghost<Sty> }
pub struct Colors { pub foreground: Option<CtColor>, pub background: Option<CtColor> }
pub type C2 = (Sty, CtColor, CtColor);
pub open spec fn sty0() -> Sty { Sty { bold: false, dim: false, ul: false, rev: false, ital: false } }
pub open spec fn dflt() -> C2 { (sty0(), CtColor::Reset, CtColor::Reset) }
pub open spec fn on(s: Sty, a: CtAttribute) -> Sty {
    match a {
        CtAttribute::Bold => Sty { bold: true, ..s }, CtAttribute::Dim => Sty { dim: true, ..s }, CtAttribute::Italic => Sty { ital: true, ..s },
        CtAttribute::Underlined => Sty { ul: true, ..s }, CtAttribute::Reverse => Sty { rev: true, ..s },
        CtAttribute::NormalIntensity => Sty { bold: false, dim: false, ..s }, CtAttribute::NoItalic => Sty { ital: false, ..s },
        CtAttribute::NoUnderline => Sty { ul: false, ..s }, CtAttribute::NoReverse => Sty { rev: false, ..s }, _ => s,
    }
}
pub open spec fn both(a: Sty, b: Sty) -> Sty { Sty { bold: a.bold || b.bold, dim: a.dim || b.dim, ul: a.ul || b.ul, rev: a.rev || b.rev, ital: a.ital || b.ital } }
impl CtAttributes {
    #[verifier::external_body]
    pub fn default() -> (r: CtAttributes) ensures r.s@ == sty0() { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, a: CtAttribute) ensures final(self).s@ == on(old(self).s@, a) { unimplemented!() }
}
/// what a crossterm command makes of the attributes in force
pub trait VxCmd { spec fn eff(self, t: C2) -> C2; }
pub mod style { use super::*;
    pub struct SetAttribute(pub CtAttribute);
    pub struct SetAttributes(pub CtAttributes);
    pub struct SetColors(pub Colors);
    pub struct SetForegroundColor(pub CtColor);
    pub struct SetBackgroundColor(pub CtColor);
    pub struct ResetColor;
    pub struct Print<T>(pub T);
}
pub mod terminal { use super::*;
    pub enum ClearType { All, FromCursorDown, UntilNewLine, Purge, FromCursorUp, CurrentLine }
    pub struct Clear(pub ClearType);
    pub struct EnableLineWrap;
    pub struct DisableLineWrap;
    #[verifier::external_body]
    pub fn enable_raw_mode() -> (r: LifeOrDeath) { unimplemented!() }
    #[verifier::external_body]
    pub fn disable_raw_mode() -> (r: LifeOrDeath) { unimplemented!() }
}
pub mod cursor { use super::*;
    pub struct Hide;
    pub struct Show;
    pub struct MoveTo(pub u16, pub u16);
    pub struct MoveUp(pub u16);
    pub struct MoveDown(pub u16);
    pub struct MoveLeft(pub u16);
    pub struct MoveRight(pub u16);
}
impl VxCmd for style::SetAttribute { open spec fn eff(self, t: C2) -> C2 { if self.0 is Reset { dflt() } else { (on(t.0, self.0), t.1, t.2) } } }
impl VxCmd for style::SetAttributes { open spec fn eff(self, t: C2) -> C2 { (both(t.0, self.0.s@), t.1, t.2) } }
impl VxCmd for style::SetColors { open spec fn eff(self, t: C2) -> C2 { (t.0, match self.0.foreground { Some(c) => c, None => t.1 }, match self.0.background { Some(c) => c, None => t.2 }) } }
impl VxCmd for style::SetForegroundColor { open spec fn eff(self, t: C2) -> C2 { (t.0, self.0, t.2) } }
impl VxCmd for style::SetBackgroundColor { open spec fn eff(self, t: C2) -> C2 { (t.0, t.1, self.0) } }
impl VxCmd for style::ResetColor { open spec fn eff(self, t: C2) -> C2 { (t.0, CtColor::Reset, CtColor::Reset) } }
impl<T> VxCmd for style::Print<T> { open spec fn eff(self, t: C2) -> C2 { t } }
impl VxCmd for terminal::Clear { open spec fn eff(self, t: C2) -> C2 { t } }
impl VxCmd for terminal::EnableLineWrap { open spec fn eff(self, t: C2) -> C2 { t } }
impl VxCmd for terminal::DisableLineWrap { open spec fn eff(self, t: C2) -> C2 { t } }
impl VxCmd for cursor::Hide { open spec fn eff(self, t: C2) -> C2 { t } }
impl VxCmd for cursor::Show { open spec fn eff(self, t: C2) -> C2 { t } }
impl VxCmd for cursor::MoveTo { open spec fn eff(self, t: C2) -> C2 { t } }
impl VxCmd for cursor::MoveUp { open spec fn eff(self, t: C2) -> C2 { t } }
impl VxCmd for cursor::MoveDown { open spec fn eff(self, t: C2) -> C2 { t } }
impl VxCmd for cursor::MoveLeft { open spec fn eff(self, t: C2) -> C2 { t } }
impl VxCmd for cursor::MoveRight { open spec fn eff(self, t: C2) -> C2 { t } }
/// standard output: the attributes that what has been written puts in force
pub struct Stdout { pub t: Ghost<C2> }
impl Stdout { #[verifier::external_body] pub fn flush(&mut self) -> (r: LifeOrDeath) ensures final(self).t == old(self).t { unimplemented!() } }
#[verifier::external_body]
pub fn vx_queue<C: VxCmd>(s: &mut Stdout, c: C) -> (r: LifeOrDeath) ensures r is Ok ==> final(s).t@ == c.eff(old(s).t@) { unimplemented!() }
// the panic hook is not in reach: replacing it is taken to change nothing here
pub struct VxHook { pub x: u8 }
#[verifier::external_body]
pub fn vx_take_hook() -> VxHook { unimplemented!() }
#[verifier::external_body]
pub fn vx_set_hook() { unimplemented!() }
/// what was asked for
pub open spec fn asked(s: Style, fg: Option<Color>, bg: Option<Color>) -> C2 {
    (Sty { bold: s.bits & Style::BOLD.bits != 0, dim: s.bits & Style::DIM.bits != 0, ul: s.bits & Style::UNDERLINE.bits != 0, rev: s.bits & Style::INVERSE.bits != 0, ital: s.bits & Style::ITALIC.bits != 0 },
     col(fg), col(bg))
}
pub open spec fn col(c: Option<Color>) -> CtColor { match c { None => CtColor::Reset, Some(c) => ct(c) } }
/// (crossterm's dark colors are the eight colors of ANSI)
pub open spec fn ct(c: Color) -> CtColor {
    match c { Color::Black => CtColor::Black, Color::Red => CtColor::DarkRed, Color::Green => CtColor::DarkGreen, Color::Yellow => CtColor::DarkYellow,
        Color::Blue => CtColor::DarkBlue, Color::Cyan => CtColor::DarkCyan, Color::Magenta => CtColor::DarkMagenta, Color::White => CtColor::Grey }
}
impl Crossterminal {
    /// what the terminal really has in force is what is remembered
    pub open spec fn inv(&self) -> bool { self.stdout.t@ == asked(self.cur_style, self.cur_fg, self.cur_bg) }
}
pub proof fn lemma_plain() ensures asked(Style::PLAIN, None, None) == dflt()
{ assert(1u32 << 0 == 1 && 1u32 << 1 == 2 && 1u32 << 2 == 4 && 1u32 << 3 == 8 && 1u32 << 4 == 16) by(bit_vector); assert(0u32 & 1u32 == 0u32 && 0u32 & 2u32 == 0u32 && 0u32 & 4u32 == 0u32 && 0u32 & 8u32 == 0u32 && 0u32 & 16u32 == 0u32) by(bit_vector); }
//@macro cfg => false
//@path panic::take_hook => vx_take_hook()
//@path panic::set_hook => vx_set_hook()
//@features wrap history completion
//@file src/lib.rs
//@type Style #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type Color #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@impl Color
//@fn to_crossterm props=C19 ret=res
    ensures res == ct(self), //# C19
//@endimpl
//@impl Style
//@fn as_crossterm props=C19 ret=res
    ensures res.s@ == asked(*self, None, None).0, //# C19
//@hint start
    proof { let b = self.bits; assert(1u32 << 0 == 1 && 1u32 << 1 == 2 && 1u32 << 2 == 4 && 1u32 << 3 == 8 && 1u32 << 4 == 16) by(bit_vector); assert(b & 1 == 1 <==> b & 1 != 0) by(bit_vector); assert(b & 2 == 2 <==> b & 2 != 0) by(bit_vector); assert(b & 4 == 4 <==> b & 4 != 0) by(bit_vector); assert(b & 8 == 8 <==> b & 8 != 0) by(bit_vector); assert(b & 16 == 16 <==> b & 16 != 0) by(bit_vector); }
//@endimpl
//@file src/term/cross.rs
//@type Crossterminal
    old_hook: Option<VxHook>
    input_thread: -
//@impl Crossterminal trait Term : impl Crossterminal
//@fn set_attrs props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t@ == asked(style, fg, bg) && final(self).inv(), //# C19
//@hint start
    proof { lemma_plain(); }
//@fn reset_attrs props=C19 ret=res
    ensures res is Ok ==> final(self).stdout.t@ == dflt() && final(self).inv(), //# C19
//@hint start
    proof { lemma_plain(); }
//@fn clear_all_and_reset props=C19 ret=res
    ensures res is Ok ==> final(self).stdout.t@ == dflt() && final(self).inv(), //# C19
//@hint start
    proof { lemma_plain(); }
//@fn clear_forward_and_reset props=C19 ret=res
    ensures res is Ok ==> final(self).stdout.t@ == dflt() && final(self).inv(), //# C19
//@hint start
    proof { lemma_plain(); }
//@fn cur_style props=C19 ret=res
    ensures res == self.cur_style, //# C19
//@fn print props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn print_char props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn print_spaces props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@loop 0
    invariant self.inv(), self.stdout.t == old(self).stdout.t
    decreases vx_it0.end - vx_it0.start
//@fn move_cursor_up props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn move_cursor_down props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn move_cursor_left props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn move_cursor_right props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn newline props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn carriage_return props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn bell props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn clear_to_end_of_line props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn hide_cursor props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn show_cursor props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn flush props=C19 ret=res
    requires old(self).inv()
    ensures final(self).stdout.t == old(self).stdout.t && final(self).inv(), //# C19
//@fn unsuspend props=C19 ret=res
    requires old(self).suspended, old(self).cur_style == Style::PLAIN, old(self).cur_fg is None, old(self).cur_bg is None,
    ensures res is Ok ==> final(self).stdout.t@ == dflt() && final(self).inv() && !final(self).suspended, //# C19
//@hint start
    proof { lemma_plain(); }
//@fn suspend props=C19 ret=res
    requires !old(self).suspended
    ensures res is Ok ==> final(self).stdout.t@ == dflt() && final(self).inv() && final(self).suspended //# C19
        && final(self).cur_style == Style::PLAIN && final(self).cur_fg is None && final(self).cur_bg is None, //# C19
//@hint start
    proof { lemma_plain(); }
//@endimpl
//@footer
}
fn main() {}
