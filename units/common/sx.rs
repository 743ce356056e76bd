// Contracts assumed for the standard library and for dependencies.  Every
// assume_specification / external_body in this file is part of the trusted
// base that each check reports.
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use vstd::string::*;
#[allow(unused_imports)] use vstd::utf8::*;
#[allow(unused_imports)] use std::mem::swap;
verus! {
pub mod sx {
#[allow(unused_imports)] use super::*;
/// the bytes of a text
pub open spec fn by(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
/// `i` is a character boundary of the text with the bytes `b`
pub open spec fn bnd(b: Seq<u8>, i: int) -> bool {
    0 <= i <= b.len() && (i == b.len() || !is_continuation_byte(b[i]))
}
/// `b` with `x` inserted at `i`
pub open spec fn ins(b: Seq<u8>, i: int, x: Seq<u8>) -> Seq<u8> { repl(b, i, i, x) }
/// `b` with the bytes from `l` to `h` replaced by `x`
pub open spec fn repl(b: Seq<u8>, l: int, h: int, x: Seq<u8>) -> Seq<u8> { b.subrange(0, l) + x + b.subrange(h, b.len() as int) }
/// `b` without the bytes from `l` to `h`
pub open spec fn cut(b: Seq<u8>, l: int, h: int) -> Seq<u8> { b.subrange(0, l) + b.subrange(h, b.len() as int) }
/// the character that starts at byte `i` of a text
pub open spec fn char_at(b: Seq<u8>, i: int) -> char { decode_utf8(b.subrange(i, b.len() as int))[0] }
/// unicode-width's width of a character
pub uninterp spec fn cw(c: char) -> Option<usize>;
pub open spec fn is_ws(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
pub open spec fn is_ctl(c: char) -> bool { (c as u32) < 0x20 || 0x7f <= (c as u32) < 0xa0 }
pub open spec fn w0(c: char) -> bool { (match cw(c) { Some(w) => w, None => 0 }) == 0 }

pub uninterp spec fn rb_lo<R: ?Sized>(r: &R, len: int) -> int;
pub uninterp spec fn rb_hi<R: ?Sized>(r: &R, len: int) -> int;
pub broadcast axiom fn ax_rb_range(r: std::ops::Range<usize>, len: int)
    ensures #![trigger rb_lo(&r, len)] #![trigger rb_hi(&r, len)] rb_lo(&r, len) == r.start as int, rb_hi(&r, len) == r.end as int;
pub broadcast axiom fn ax_rb_rangefrom(r: std::ops::RangeFrom<usize>, len: int)
    ensures #![trigger rb_lo(&r, len)] #![trigger rb_hi(&r, len)] rb_lo(&r, len) == r.start as int, rb_hi(&r, len) == len;
pub broadcast axiom fn ax_rb_rangeto(r: std::ops::RangeTo<usize>, len: int)
    ensures #![trigger rb_lo(&r, len)] #![trigger rb_hi(&r, len)] rb_lo(&r, len) == 0, rb_hi(&r, len) == r.end as int;

pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
    ensures r as int == by(s@).len();
pub assume_specification [std::string::String::insert] (s: &mut std::string::String, i: usize, ch: char)
    requires bnd(by(old(s)@), i as int)
    ensures by(final(s)@) == ins(by(old(s)@), i as int, by(seq![ch]));
pub assume_specification [std::string::String::insert_str] (s: &mut std::string::String, i: usize, t: &str)
    requires bnd(by(old(s)@), i as int)
    ensures by(final(s)@) == ins(by(old(s)@), i as int, by(t@));
pub assume_specification<R: std::ops::RangeBounds<usize>> [std::string::String::replace_range::<R>] (s: &mut std::string::String, r: R, w: &str)
    requires ({ let b = by(old(s)@); let l = rb_lo(&r, b.len() as int); let h = rb_hi(&r, b.len() as int); 0 <= l <= h <= b.len() && bnd(b, l) && bnd(b, h) })
    ensures ({ let b = by(old(s)@); let l = rb_lo(&r, b.len() as int); let h = rb_hi(&r, b.len() as int); by(final(s)@) == repl(b, l, h, by(w@)) });

/// where a text is
pub uninterp spec fn sa(s: &str) -> int;
pub trait VxText {
    spec fn vt(&self) -> Seq<char>;
    /// where the text is
    spec fn va(&self) -> int;
    fn vx_from(&self, a: usize) -> (r: &str)
        requires bnd(by(self.vt()), a as int)
        ensures by(r@) == by(self.vt()).subrange(a as int, by(self.vt()).len() as int);
    fn vx_to(&self, b: usize) -> (r: &str)
        requires bnd(by(self.vt()), b as int)
        ensures by(r@) == by(self.vt()).subrange(0, b as int);
    fn vx_range(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, bnd(by(self.vt()), a as int), bnd(by(self.vt()), b as int)
        ensures by(r@) == by(self.vt()).subrange(a as int, b as int), sa(r) == self.va() + a;
}
impl VxText for std::string::String {
    open spec fn vt(&self) -> Seq<char> { self@ }
    uninterp spec fn va(&self) -> int;
    #[verifier::external_body]
    fn vx_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body]
    fn vx_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
}
impl VxText for str {
    open spec fn vt(&self) -> Seq<char> { self@ }
    open spec fn va(&self) -> int { sa(self) }
    #[verifier::external_body]
    fn vx_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body]
    fn vx_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
}
pub trait VxLen { spec fn vl(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r as nat == self.vl(), r <= isize::MAX; }
impl VxLen for str { open spec fn vl(&self) -> nat { by(self@).len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
impl VxLen for std::string::String { open spec fn vl(&self) -> nat { by(self@).len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
impl<T> VxLen for Vec<T> { open spec fn vl(&self) -> nat { self@.len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
impl<T> VxLen for [T] { open spec fn vl(&self) -> nat { self@.len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
pub assume_specification [char::is_control] (c: char) -> (r: bool) ensures r == is_ctl(c);

pub struct UnicodeWidthChar {}
impl UnicodeWidthChar {
    #[verifier::external_body]
    pub fn width(c: char) -> (r: Option<usize>) ensures r == cw(c), r matches Some(w) ==> w <= 2, is_ctl(c) && c != '\0' ==> r is None { unimplemented!() }
}

pub fn vx_drop<T>(t: T) ensures has_resolved(t) { }
pub fn vx_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_print() { unimplemented!() }
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }
pub fn vx_iter<I>(i: I) -> (r: I) ensures r == i { i }

// iteration over slices and vectors, in plain (verified) code
pub struct VxIt<'a, T> { pub s: &'a [T], pub lo: usize, pub hi: usize }
pub struct VxEn<'a, T> { pub s: &'a [T], pub lo: usize, pub hi: usize, pub base: usize }
pub struct VxEnRev<'a, T> { pub s: &'a [T], pub lo: usize, pub hi: usize, pub base: usize }
pub struct VxRev<'a, T> { pub s: &'a [T], pub lo: usize, pub hi: usize }
impl<'a, T> VxIt<'a, T> {
    pub open spec fn wf(&self) -> bool { self.lo <= self.hi <= self.s@.len() }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s == old(self).s, final(self).hi == old(self).hi,
            old(self).lo < old(self).hi ==> r == Some(&old(self).s@[old(self).lo as int]) && final(self).lo == old(self).lo + 1,
            old(self).lo == old(self).hi ==> r is None && final(self).lo == old(self).lo,
    {
        if self.lo < self.hi { let i = self.lo; self.lo = self.lo + 1; Some(&self.s[i]) } else { None }
    }
    pub fn enumerate(self) -> (r: VxEn<'a, T>)
        requires self.wf()
        ensures r.s == self.s, r.lo == self.lo, r.hi == self.hi, r.base == self.lo
    { VxEn { s: self.s, lo: self.lo, hi: self.hi, base: self.lo } }
    pub fn all<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool)
        requires self.wf(), forall|i: int| self.lo <= i < self.hi ==> f.requires((&#[trigger] self.s@[i],))
        ensures r ==> (forall|i: int| self.lo <= i < self.hi ==> f.ensures((&#[trigger] self.s@[i],), true)),
            !r ==> (exists|i: int| self.lo <= i < self.hi && f.ensures((&#[trigger] self.s@[i],), false)),
    {
        let mut i = self.lo;
        while i < self.hi
            invariant self.wf(), self.lo <= i <= self.hi, forall|j: int| self.lo <= j < self.hi ==> f.requires((&#[trigger] self.s@[j],)), forall|j: int| self.lo <= j < i ==> f.ensures((&#[trigger] self.s@[j],), true),
            decreases self.hi - i
        { if !f(&self.s[i]) { assert(f.ensures((&self.s@[i as int],), false)); return false; } i = i + 1; }
        true
    }
    pub fn any<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool)
        requires self.wf(), forall|i: int| self.lo <= i < self.hi ==> f.requires((&#[trigger] self.s@[i],))
        ensures !r ==> (forall|i: int| self.lo <= i < self.hi ==> f.ensures((&#[trigger] self.s@[i],), false)),
            r ==> (exists|i: int| self.lo <= i < self.hi && f.ensures((&#[trigger] self.s@[i],), true)),
    {
        let mut i = self.lo;
        while i < self.hi
            invariant self.wf(), self.lo <= i <= self.hi, forall|j: int| self.lo <= j < self.hi ==> f.requires((&#[trigger] self.s@[j],)), forall|j: int| self.lo <= j < i ==> f.ensures((&#[trigger] self.s@[j],), false),
            decreases self.hi - i
        { if f(&self.s[i]) { assert(f.ensures((&self.s@[i as int],), true)); return true; } i = i + 1; }
        false
    }
    pub fn rev(self) -> (r: VxRev<'a, T>)
        ensures r.s == self.s, r.lo == self.lo, r.hi == self.hi
    { VxRev { s: self.s, lo: self.lo, hi: self.hi } }
}
impl<'a, T> VxRev<'a, T> {
    pub open spec fn wf(&self) -> bool { self.lo <= self.hi <= self.s@.len() }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s == old(self).s, final(self).lo == old(self).lo,
            old(self).lo < old(self).hi ==> r == Some(&old(self).s@[old(self).hi - 1]) && final(self).hi == old(self).hi - 1,
            old(self).lo == old(self).hi ==> r is None && final(self).hi == old(self).hi,
    {
        if self.lo < self.hi { self.hi = self.hi - 1; Some(&self.s[self.hi]) } else { None }
    }
}
impl<'a, T> VxEn<'a, T> {
    pub open spec fn wf(&self) -> bool { self.base <= self.lo <= self.hi <= self.s@.len() }
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s == old(self).s, final(self).hi == old(self).hi, final(self).base == old(self).base,
            old(self).lo < old(self).hi ==> r == Some(((old(self).lo - old(self).base) as usize, &old(self).s@[old(self).lo as int])) && final(self).lo == old(self).lo + 1,
            old(self).lo == old(self).hi ==> r is None && final(self).lo == old(self).lo,
    {
        if self.lo < self.hi { let i = self.lo; self.lo = self.lo + 1; Some((i - self.base, &self.s[i])) } else { None }
    }
    pub fn rev(self) -> (r: VxEnRev<'a, T>)
        ensures r.s == self.s, r.lo == self.lo, r.hi == self.hi, r.base == self.base
    { VxEnRev { s: self.s, lo: self.lo, hi: self.hi, base: self.base } }
}
impl<'a, T> VxEnRev<'a, T> {
    pub open spec fn wf(&self) -> bool { self.base <= self.lo <= self.hi <= self.s@.len() }
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s == old(self).s, final(self).lo == old(self).lo, final(self).base == old(self).base,
            old(self).lo < old(self).hi ==> r == Some(((old(self).hi - 1 - old(self).base) as usize, &old(self).s@[old(self).hi - 1])) && final(self).hi == old(self).hi - 1,
            old(self).lo == old(self).hi ==> r is None && final(self).hi == old(self).hi,
    {
        if self.lo < self.hi { self.hi = self.hi - 1; let i = self.hi; Some((i - self.base, &self.s[i])) } else { None }
    }
}
pub trait VxIterable { type Item; spec fn vs(&self) -> Seq<Self::Item>;
    fn vx_it<'a>(&'a self) -> (r: VxIt<'a, Self::Item>)
        ensures r.s@ == self.vs(), r.lo == 0, r.hi == self.vs().len();
}
impl<T> VxIterable for Vec<T> { type Item = T; open spec fn vs(&self) -> Seq<T> { self@ }
    fn vx_it<'a>(&'a self) -> (r: VxIt<'a, T>) { VxIt { s: self.as_slice(), lo: 0, hi: self.len() } }
}
impl<T> VxIterable for [T] { type Item = T; open spec fn vs(&self) -> Seq<T> { self@ }
    fn vx_it<'a>(&'a self) -> (r: VxIt<'a, T>) { VxIt { s: self, lo: 0, hi: self.len() } }
}

// ---- facts about UTF-8 texts, proved from vstd
pub broadcast proof fn lemma_bnd_ends(s: Seq<char>)
    ensures #![trigger by(s)] bnd(by(s), 0), bnd(by(s), by(s).len() as int)
{
    broadcast use vstd::utf8::group_utf8_lib;
    encode_utf8_valid_utf8(s);
    is_char_boundary_start_end_of_seq(by(s));
    if by(s).len() > 0 {
        is_char_boundary_iff_not_is_continuation_byte(by(s), 0);
    }
}
pub broadcast proof fn lemma_char_bytes(ch: char)
    ensures
        #![trigger by(seq![ch])]
        1 <= by(seq![ch]).len() <= 4,
        !is_continuation_byte(by(seq![ch])[0]),
        forall|j: int| 1 <= j < by(seq![ch]).len() ==> is_continuation_byte(#[trigger] by(seq![ch])[j]),
{
    reveal_with_fuel(encode_utf8, 3);
    let v = ch as u32;
    assert(seq![ch].drop_first() =~= Seq::<char>::empty());
    assert(by(seq![ch]) =~= encode_scalar(v));
    assert(v <= 0x10ffff);
    assert(0x80u8 <= (0x80u8 | ((v & 0x3f) as u8)) <= 0xbfu8) by(bit_vector);
    assert(0x80u8 <= (0x80u8 | (((v >> 6) & 0x3f) as u8)) <= 0xbfu8) by(bit_vector);
    assert(0x80u8 <= (0x80u8 | (((v >> 12) & 0x3f) as u8)) <= 0xbfu8) by(bit_vector);
    assert(((v & 0x7f) as u8) < 0x80u8) by(bit_vector);
    assert((0xc0u8 | (((v >> 6) & 0x1f) as u8)) >= 0xc0u8) by(bit_vector);
    assert((0xe0u8 | (((v >> 12) & 0x0f) as u8)) >= 0xc0u8) by(bit_vector);
    assert((0xf0u8 | (((v >> 18) & 0x07) as u8)) >= 0xc0u8) by(bit_vector);
}
pub broadcast proof fn lemma_repl_bnd(b: Seq<u8>, l: int, h: int, x: Seq<u8>, i: int)
    requires 0 <= l <= h <= b.len(), bnd(b, l), bnd(b, h), bnd(x, 0),
    ensures
        #[trigger] bnd(repl(b, l, h, x), i) == (if i < l { bnd(b, i) } else if i < l + x.len() { bnd(x, i - l) } else { bnd(b, i - x.len() - l + h) }),
{
    if 0 <= i < l { assert(repl(b, l, h, x)[i] == b[i]); }
    else if l <= i < l + x.len() { assert(repl(b, l, h, x)[i] == x[i - l]); }
    else if l + x.len() <= i < repl(b, l, h, x).len() { assert(repl(b, l, h, x)[i] == b[i - x.len() - l + h]); }
}
pub broadcast proof fn lemma_repl_cut(b: Seq<u8>, l: int, h: int, x: Seq<u8>)
    requires x.len() == 0, 0 <= l <= h <= b.len(),
    ensures #[trigger] repl(b, l, h, x) == cut(b, l, h)
{ assert(repl(b, l, h, x) =~= cut(b, l, h)); }
pub broadcast proof fn lemma_cut_bnd(b: Seq<u8>, l: int, h: int, i: int)
    requires 0 <= l <= h <= b.len(), bnd(b, l), bnd(b, h),
    ensures
        #[trigger] bnd(cut(b, l, h), i) == (if i < l { bnd(b, i) } else { bnd(b, i - l + h) }),
{
    if 0 <= i < l { assert(cut(b, l, h)[i] == b[i]); }
    else if l <= i < cut(b, l, h).len() { assert(cut(b, l, h)[i] == b[i - l + h]); }
}
pub broadcast proof fn lemma_is_bnd(s: Seq<char>, i: int)
    ensures #[trigger] is_char_boundary(by(s), i) == bnd(by(s), i)
{
    encode_utf8_valid_utf8(s);
    is_char_boundary_start_end_of_seq(by(s));
    if 0 <= i < by(s).len() { is_char_boundary_iff_not_is_continuation_byte(by(s), i); }
    else if i != by(s).len() { lemma_out(by(s), i); }
}
proof fn lemma_out(b: Seq<u8>, i: int)
    requires i < 0 || i > b.len(), valid_utf8(b)
    ensures !is_char_boundary(b, i)
    decreases b.len()
{ reveal_with_fuel(is_char_boundary, 2); }
pub broadcast proof fn lemma_by_empty(s: Seq<char>)
    requires s.len() == 0
    ensures #[trigger] by(s).len() == 0
{ broadcast use vstd::utf8::group_utf8_lib; assert(s =~= Seq::<char>::empty()); reveal_with_fuel(encode_utf8, 1); }
/// allocations are never larger than isize::MAX
pub broadcast axiom fn ax_string_len(s: std::string::String) ensures #[trigger] by(s@).len() <= isize::MAX;
pub broadcast group group_sx { ax_rb_range, ax_rb_rangefrom, ax_rb_rangeto, lemma_bnd_ends, lemma_char_bytes, lemma_is_bnd, lemma_repl_bnd, lemma_repl_cut, lemma_cut_bnd, lemma_by_empty, ax_string_len }
}
} // verus!
