//@header
//@include ../common/sx.rs
//@include ../common/style_sx.rs
verus! {
use sx::*;
pub struct DummyError {}
pub type LifeOrDeath = std::result::Result<(), DummyError>;
/// a VT52 (an Atari ST being one): colors in force, and what an escape sequence still waits for
pub struct Vt { pub fg: int, pub bg: int, pub e: int }
/// what the next character does to it
pub open spec fn step(t: Vt, c: int) -> Vt {
    if t.e == 0 { if c == 0x1b { Vt { e: 1, ..t } } else { t } }
    else if t.e == 1 { if c == 'b' as int { Vt { e: 2, ..t } } else if c == 'c' as int { Vt { e: 3, ..t } } else if c == 'Y' as int { Vt { e: 4, ..t } } else { Vt { e: 0, ..t } } }
    else if t.e == 2 { Vt { e: 0, fg: c - 0x20, ..t } }
    else if t.e == 3 { Vt { e: 0, bg: c - 0x20, ..t } }
    else if t.e == 4 { Vt { e: 5, ..t } }
    else { Vt { e: 0, ..t } }
}
pub open spec fn feed(t: Vt, s: Seq<char>, n: int) -> Vt decreases n { if n <= 0 { t } else { step(feed(t, s, n - 1), s[n - 1] as int) } }
pub open spec fn feedb(t: Vt, s: Seq<u8>, n: int) -> Vt decreases n { if n <= 0 { t } else { step(feedb(t, s, n - 1), s[n - 1] as int) } }
/// no escapes
pub open spec fn noesc(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 0x1b }
pub proof fn lemma_noesc(t: Vt, s: Seq<u8>, n: int)
    requires t.e == 0, noesc(s), n <= s.len()
    ensures feedb(t, s, n) == t
    decreases n
{ if n > 0 { lemma_noesc(t, s, n - 1); } }
/// standard output: what has been written makes of the terminal
pub struct Stdout { pub t: Ghost<Vt> }
impl Stdout {
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: LifeOrDeath) ensures final(self).t == old(self).t { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).t@ == feedb(old(self).t@, b@, b@.len() as int) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_write(s: &mut Stdout, l: &str) -> (r: LifeOrDeath) ensures r is Ok ==> final(s).t@ == feed(old(s).t@, l@, l@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_write_disp(s: &mut Stdout, c: char) -> (r: LifeOrDeath) ensures r is Ok ==> final(s).t@ == step(old(s).t@, c as int) { unimplemented!() }
pub trait VxChars: VxText {
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxCh) ensures r.s@ == self.vt() { unimplemented!() }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == by(self.vt()) { unimplemented!() }
}
impl VxChars for str {}
pub struct VxCh { pub s: Ghost<Seq<char>> }
impl VxCh {
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<char>) ensures r is Some <==> n < old(self).s@.len(), r matches Some(c) ==> c == old(self).s@[n as int] { unimplemented!() }
}
pub trait VxSub {
    spec fn vs(&self) -> Seq<u8>;
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.vs().len() ensures r@ == self.vs().subrange(a as int, b as int);
}
impl VxSub for [u8] {
    open spec fn vs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
}
// the panic hook is not in reach: replacing it is taken to change nothing here
pub struct VxHook { pub x: u8 }
#[verifier::external_body]
pub fn vx_take_hook() -> VxHook { unimplemented!() }
#[verifier::external_body]
pub fn vx_set_hook() { unimplemented!() }
pub mod terminal { use super::*;
    #[verifier::external_body]
    pub fn enable_raw_mode() -> (r: LifeOrDeath) { unimplemented!() }
    #[verifier::external_body]
    pub fn disable_raw_mode() -> (r: LifeOrDeath) { unimplemented!() }
}
/// a character starts at a byte that is no continuation
pub proof fn lemma_lead(s: Seq<char>, i: int)
    requires 0 <= i < by(s).len(), by(s)[i] >= 0xc0u8
    ensures bnd(by(s), i), forall|r: Seq<char>| #[trigger] by(r) == by(s).subrange(i, by(s).len() as int) ==> r.len() > 0
{
    let b = by(s)[i];
    assert(b >= 0xc0u8 ==> b & 0xc0 != 0x80) by(bit_vector);
    assert forall|r: Seq<char>| #[trigger] by(r) == by(s).subrange(i, by(s).len() as int) implies r.len() > 0 by { reveal_with_fuel(encode_utf8, 2); if r.len() == 0 { assert(by(r).len() == 0); } }
}
// the palettes
pub open spec fn bright(c: Color) -> int { match c { Color::Black => 8, Color::Red => 1, Color::Green => 2, Color::Yellow => 13, Color::Blue => 4, Color::Cyan => 9, Color::Magenta => 12, Color::White => 0 } }
pub open spec fn dim(c: Color) -> int { match c { Color::Black => 15, Color::Red => 3, Color::Green => 5, Color::Yellow => 11, Color::Blue => 6, Color::Cyan => 10, Color::Magenta => 14, Color::White => 7 } }
pub open spec fn four(c: Color) -> int { match c { Color::Black => 15, Color::Red => 1, Color::Green => 2, Color::Yellow => 2, Color::Blue => 3, Color::Cyan => 2, Color::Magenta => 1, Color::White => 0 } }
pub open spec fn pal(n: u8, wb: bool, s: Style, f: Option<Color>, b: Option<Color>) -> (int, int) {
    let df: int = if wb { 0 } else { 15 };
    let db: int = if wb { 15 } else { 0 };
    let x: (int, int) = if n == 2 { (df, db) }
        else if n == 4 { (match f { Some(c) => four(c), None => df }, match b { Some(c) => four(c), None => db }) }
        else if wb { (match f { Some(c) => bright(c), None => df }, match b { Some(c) => dim(c), None => db }) }
        else { (match f { Some(c) => dim(c), None => df }, match b { Some(c) => bright(c), None => db }) };
    if s.bits & 8 != 0 { (x.1, x.0) } else { x }
}
impl Vt52 {
    pub open spec fn kind(&self) -> bool { self.num_colors == 2 || self.num_colors == 4 || self.num_colors == 16 }
    /// the colors really in force are those remembered
    pub open spec fn inv(&self) -> bool { self.kind() && self.stdout.t@ == (Vt { fg: self.cur_fg as int, bg: self.cur_bg as int, e: 0 }) }
    pub open spec fn same(&self, o: &Self) -> bool { self.stdout.t == o.stdout.t && self.num_colors == o.num_colors && self.white_on_black == o.white_on_black && self.cur_style == o.cur_style }
    /// the terminal is in these colors
    pub open spec fn shows(&self, s: Style, f: Option<Color>, b: Option<Color>) -> bool {
        let p = pal(self.num_colors, self.white_on_black, s, f, b);
        self.stdout.t@ == (Vt { fg: p.0, bg: p.1, e: 0 }) && self.cur_style == s
    }
}
pub proof fn lemma_plain() ensures forall|n: u8, wb: bool| #[trigger] pal(n, wb, Style::PLAIN, None, None) == (if wb { (0int, 15int) } else { (15int, 0int) })
{ assert(0u32 & 8u32 == 0u32) by(bit_vector); }
//@macro cfg => false
//@path panic::take_hook => vx_take_hook()
//@path panic::set_hook => vx_set_hook()
//@method chars => vx_chars
//@method as_bytes => vx_as_bytes
//@features wrap history completion
//@file src/lib.rs
//@type Style #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type Color #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@impl Color
//@fn to_atari16_bright props=C19 ret=res
    ensures res == bright(self), res < 16, //# C19
//@fn to_atari16_dim props=C19 ret=res
    ensures res == dim(self), res < 16, //# C19
//@fn to_atari4 props=C19 ret=res
    ensures res == four(self), res < 16, //# C19
//@endimpl
//@file src/term/vt52.rs
//@type Vt52
    old_hook: Option<VxHook>
    input_thread: -
//@impl Vt52 trait Term : impl Vt52
//@fn set_attrs props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).shows(style, fg, bg) && final(self).num_colors == old(self).num_colors && final(self).white_on_black == old(self).white_on_black, //# C19
//@hint start
    proof { reveal_with_fuel(feed, 16); assert(1u32 << 3 == 8) by(bit_vector); let b = style.bits; assert(b & 8 == 8 <==> b & 8 != 0) by(bit_vector); }
//@fn reset_attrs props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).shows(Style::PLAIN, None, None) && final(self).num_colors == old(self).num_colors && final(self).white_on_black == old(self).white_on_black, //# C19
//@hint start
    proof { reveal_with_fuel(feed, 24); lemma_plain(); }
//@fn clear_all_and_reset props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).shows(Style::PLAIN, None, None) && final(self).num_colors == old(self).num_colors && final(self).white_on_black == old(self).white_on_black, //# C19
//@hint start
    proof { reveal_with_fuel(feed, 24); lemma_plain(); }
//@fn clear_forward_and_reset props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).shows(Style::PLAIN, None, None) && final(self).num_colors == old(self).num_colors && final(self).white_on_black == old(self).white_on_black, //# C19
//@hint start
    proof { reveal_with_fuel(feed, 24); lemma_plain(); }
//@fn cur_style props=C19 ret=res
    ensures res == self.cur_style, //# C19
//@fn print props=C19 ret=res
    requires old(self).inv(), noesc(by(text@))
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@loop 0
    invariant self.inv(), self.same(old(self)), bytes@ == by(text@), noesc(by(text@)), start <= pos <= bytes@.len()
    decreases bytes@.len() - pos
//@hint loop 0 start
    proof { assert forall|a: int, b: int, t: Vt| 0 <= a <= b <= bytes@.len() && t.e == 0 implies #[trigger] feedb(t, bytes@.subrange(a, b), b - a) == t by { lemma_noesc(t, bytes@.subrange(a, b), b - a); } }
//@hint let ch 0 before
    proof { lemma_lead(text@, pos as int); }
//@hint loop 0 after
    proof { if start < pos { lemma_noesc(self.stdout.t@, bytes@.subrange(start as int, pos as int), pos - start); } }
//@loop 1
    invariant self.inv(), self.same(old(self)), bytes@ == by(text@), noesc(by(text@))
    decreases vx_it1.end - vx_it1.start
//@hint loop 1 start
    proof { reveal_with_fuel(feed, 3); reveal_with_fuel(feedb, 3); reveal_strlit("\x7F"); }
//@fn print_char props=C19 ret=res
    requires old(self).inv(), ch != '\u{1b}'
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@loop 0
    invariant self.inv(), self.same(old(self))
    decreases vx_it0.end - vx_it0.start
//@hint loop 0 start
    proof { reveal_with_fuel(feed, 3); reveal_with_fuel(feedb, 3); reveal_strlit("\x7F"); }
//@hint start
    proof { reveal_with_fuel(feedb, 3); }
//@fn print_spaces props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@loop 0
    invariant self.inv(), self.same(old(self))
    decreases vx_it0.end - vx_it0.start
//@hint loop 0 start
    proof { reveal_with_fuel(feed, 16); }
//@fn move_cursor_up props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@loop 0
    invariant self.inv(), self.same(old(self))
    decreases vx_it0.end - vx_it0.start
//@hint loop 0 start
    proof { reveal_with_fuel(feed, 16); }
//@fn move_cursor_down props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@loop 0
    invariant self.inv(), self.same(old(self))
    decreases vx_it0.end - vx_it0.start
//@hint loop 0 start
    proof { reveal_with_fuel(feed, 16); }
//@fn move_cursor_left props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@loop 0
    invariant self.inv(), self.same(old(self))
    decreases vx_it0.end - vx_it0.start
//@hint loop 0 start
    proof { reveal_with_fuel(feed, 16); }
//@fn move_cursor_right props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@loop 0
    invariant self.inv(), self.same(old(self))
    decreases vx_it0.end - vx_it0.start
//@hint loop 0 start
    proof { reveal_with_fuel(feed, 16); }
//@fn newline props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@hint start
    proof { reveal_with_fuel(feed, 16); }
//@fn carriage_return props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@hint start
    proof { reveal_with_fuel(feed, 16); }
//@fn bell props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@hint start
    proof { reveal_with_fuel(feed, 16); }
//@fn clear_to_end_of_line props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@hint start
    proof { reveal_with_fuel(feed, 16); }
//@fn hide_cursor props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@hint start
    proof { reveal_with_fuel(feed, 16); }
//@fn show_cursor props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@hint start
    proof { reveal_with_fuel(feed, 16); }
//@fn flush props=C19 ret=res
    requires old(self).inv()
    ensures res is Ok ==> final(self).inv() && final(self).same(old(self)), //# C19
//@hint start
    proof { reveal_with_fuel(feed, 16); }
//@fn unsuspend props=C19 ret=res
    requires old(self).suspended, old(self).kind(), old(self).stdout.t@.e == 0
    ensures res is Ok ==> final(self).inv() && final(self).shows(Style::PLAIN, None, None) && !final(self).suspended && final(self).num_colors == old(self).num_colors && final(self).white_on_black == old(self).white_on_black, //# C19
//@hint start
    proof { reveal_with_fuel(feed, 24); lemma_plain(); }
//@fn suspend props=C19 ret=res
    requires !old(self).suspended, old(self).inv()
    ensures res is Ok ==> final(self).suspended && final(self).kind() && final(self).stdout.t@ == (if final(self).white_on_black { Vt { fg: 0, bg: 15, e: 0 } } else { Vt { fg: 15, bg: 0, e: 0 } }), //# C19
//@hint start
    proof { reveal_with_fuel(feed, 24); }
//@endimpl
//@footer
}
fn main() {}
