verus! {
/// a line of a reasonable size
pub open spec fn good_line(l: Line) -> bool { l.wf() && by(l.text@).len() <= 0x7fff_ffff }
pub open spec fn same_line(a: Line, b: Line) -> bool { a.text@ == b.text@ && a.elements@ == b.elements@ }
pub open spec fn in_line(l: Line, p: int) -> bool { bnd(by(l.text@), p) }
pub open spec fn kx(l: Line, p: int) -> int { cidx(l.text@, p) }
/// what the rest of the last row is filled with, if that can be seen
pub open spec fn tf(l: Line) -> Option<Attr> { if l.elements@.len() > 0 && vis(l.active()) { Some(l.active()) } else { None } }
pub proof fn lemma_same_line(a: Line, b: Line)
    requires a.text@ == b.text@, a.elements@ == b.elements@
    ensures cells(a) == cells(b), tf(a) == tf(b), good_line(a) == good_line(b), forall|wd: int, p: int| #[trigger] spot(a, wd, p) == spot(b, wd, p), forall|p: int| #[trigger] in_line(a, p) == in_line(b, p)
{ reveal(cells); reveal(Line::sb); assert(a.sb() =~= b.sb()); assert(cells(a) =~= cells(b)); }
pub proof fn lemma_spot(l: Line, wd: int, k: int)
    requires 0 <= k <= l.text@.len()
    ensures spot(l, wd, by(l.text@.take(k)).len() as int) == ({ let q = walk(wd, cells(l).take(k)); (q.0, q.1) }), in_line(l, by(l.text@.take(k)).len() as int)
{ lemma_cidx(l.text@, k); lemma_take_cut(l.text@, k, k); }
pub proof fn lemma_cell(l: Line, k: int)
    requires 0 <= k < l.text@.len()
    ensures cells(l)[k] == (l.text@[k], l.sb()[by(l.text@.take(k)).len() as int].1), cells(l).len() == l.text@.len()
{ reveal(cells); }
pub proof fn lemma_cells_len(l: Line)
    ensures cells(l).len() == l.text@.len(), l.text@.len() <= by(l.text@).len(), by(l.text@.take(l.text@.len() as int)) == by(l.text@)
{ reveal(cells); lemma_len(l.text@); assert(l.text@.take(l.text@.len() as int) =~= l.text@); }
pub proof fn lemma_len(s: Seq<char>)
    ensures s.len() <= by(s).len()
    decreases s.len()
{ if s.len() > 0 { let k = s.len() - 1; lemma_take1(s, k); lemma_len(s.take(k)); assert(s.take(k + 1) =~= s); } }
/// where the cursor is to be left, as far as it is known after `j` characters
#[verifier::opaque]
pub open spec fn rep(l: Line, wd: int, j: int, cp: Option<usize>, left: Option<u32>, top: Option<u32>) -> bool {
    &&& left is None == top is None
    &&& match cp {
        None => left is None,
        Some(p) => if left is None { forall|k: int| 0 <= k < j ==> by(#[trigger] l.text@.take(k)).len() != p }
            else { in_line(l, p as int) && (left->0 as int, top->0 as int) == spot(l, wd, p as int) && left->0 < wd && top->0 <= walk(wd, cells(l)).1 },
    }
}
pub proof fn lemma_rep0(l: Line, wd: int, cp: Option<usize>)
    ensures rep(l, wd, 0, cp, None, None)
{ reveal(rep); }
pub proof fn lemma_rep(l: Line, wd: int, j: int, cp: Option<usize>, left: Option<u32>, top: Option<u32>, index: int, cc: u32, cb: u32)
    requires rep(l, wd, j, cp, left, top), 0 <= j <= l.text@.len(), index == by(l.text@.take(j)).len(), ({ let q = walk(wd, cells(l).take(j)); q.0 == cc && q.1 == cb }), cc < wd
    ensures cp is Some && cp->0 == index ==> rep(l, wd, j + 1, cp, Some(cc), Some(cb)),
        !(cp is Some && cp->0 == index) ==> rep(l, wd, j + 1, cp, left, top),
{
    reveal(rep); lemma_spot(l, wd, j); lemma_cells_len(l); lemma_walk_mono(wd, cells(l), j);
}
pub proof fn lemma_rep_end(l: Line, wd: int, cp: Option<usize>, left: Option<u32>, top: Option<u32>)
    requires rep(l, wd, l.text@.len() as int + 1, cp, left, top)
    ensures left is None == top is None, left is Some ==> left->0 < wd && top->0 <= walk(wd, cells(l)).1,
        cp matches Some(p) ==> in_line(l, p as int) ==> left is Some && (left->0 as int, top->0 as int) == spot(l, wd, p as int),
{
    reveal(rep); lemma_cells_len(l);
    if cp is Some && in_line(l, cp->0 as int) { lemma_bnd_idx(l.text@, cp->0 as int); let k = cidx(l.text@, cp->0 as int); assert(by(l.text@.take(k)).len() == cp->0); }
}
// ---- comparisons
pub trait VxEq { spec fn eqv(&self, o: &Self) -> bool; fn vx_cmp(&self, o: &Self) -> (r: bool) ensures r == self.eqv(o); }
pub fn vx_eq<T: VxEq>(a: &T, b: &T) -> (r: bool) ensures r == a.eqv(b) { a.vx_cmp(b) }
pub fn vx_ne<T: VxEq>(a: &T, b: &T) -> (r: bool) ensures r == !a.eqv(b) { !a.vx_cmp(b) }
impl VxEq for u32 { open spec fn eqv(&self, o: &u32) -> bool { *self == *o } fn vx_cmp(&self, o: &u32) -> (r: bool) { *self == *o } }
impl VxEq for usize { open spec fn eqv(&self, o: &usize) -> bool { *self == *o } fn vx_cmp(&self, o: &usize) -> (r: bool) { *self == *o } }
impl VxEq for bool { open spec fn eqv(&self, o: &bool) -> bool { *self == *o } fn vx_cmp(&self, o: &bool) -> (r: bool) { *self == *o } }
impl VxEq for char { open spec fn eqv(&self, o: &char) -> bool { *self == *o } fn vx_cmp(&self, o: &char) -> (r: bool) { *self == *o } }
impl VxEq for Style { open spec fn eqv(&self, o: &Style) -> bool { *self == *o } fn vx_cmp(&self, o: &Style) -> (r: bool) { *self == *o } }
impl VxEq for Color { open spec fn eqv(&self, o: &Color) -> bool { *self == *o } fn vx_cmp(&self, o: &Color) -> (r: bool) { *self == *o } }
impl<T: VxEq> VxEq for Option<T> {
    open spec fn eqv(&self, o: &Option<T>) -> bool { match (self, o) { (Some(a), Some(b)) => a.eqv(b), (None, None) => true, _ => false } }
    fn vx_cmp(&self, o: &Option<T>) -> (r: bool) { match (self, o) { (Some(a), Some(b)) => a.vx_cmp(b), (None, None) => true, _ => false } }
}
impl<A: VxEq, B: VxEq, C: VxEq> VxEq for (A, B, C) {
    open spec fn eqv(&self, o: &(A, B, C)) -> bool { self.0.eqv(&o.0) && self.1.eqv(&o.1) && self.2.eqv(&o.2) }
    fn vx_cmp(&self, o: &(A, B, C)) -> (r: bool) { self.0.vx_cmp(&o.0) && self.1.vx_cmp(&o.1) && self.2.vx_cmp(&o.2) }
}
impl<'a, T: VxEq> VxEq for &'a T { open spec fn eqv(&self, o: &&'a T) -> bool { (**self).eqv(*o) } fn vx_cmp(&self, o: &&'a T) -> (r: bool) { (**self).vx_cmp(*o) } }
impl VxEq for LineChar {
    open spec fn eqv(&self, o: &LineChar) -> bool { self.ch == o.ch && self.style == o.style && self.fg == o.fg && self.bg == o.bg }
    fn vx_cmp(&self, o: &LineChar) -> (r: bool) { self.vx_same(o) }
}
// (derived)
impl VxEq for Line {
    open spec fn eqv(&self, o: &Line) -> bool { self.text@ == o.text@ && self.elements@ == o.elements@ }
    #[verifier::external_body] fn vx_cmp(&self, o: &Line) -> (r: bool) { unimplemented!() }
}
impl Clone for Line {
    #[verifier::external_body] fn clone(&self) -> (r: Line) ensures r.text@ == self.text@, r.elements@ == self.elements@ { unimplemented!() }
}
pub trait VxAsMut<T> { spec fn o(&self) -> Option<T>; fn vx_as_mut(&mut self) -> (r: Option<&mut T>)
    ensures old(self).o() is None ==> r is None && final(self).o() is None, old(self).o() is Some ==> r is Some && *r->Some_0 == old(self).o()->Some_0 && final(self).o() == Some(*final(r->Some_0)); }
impl<T> VxAsMut<T> for Option<T> { open spec fn o(&self) -> Option<T> { *self } fn vx_as_mut(&mut self) -> (r: Option<&mut T>) { match self { Some(x) => Some(x), None => None } } }
pub trait VxMin: Sized { spec fn mn(self, o: Self) -> Self; fn vx_min(self, o: Self) -> (r: Self) ensures r == self.mn(o); }
impl VxMin for u32 { open spec fn mn(self, o: u32) -> u32 { if self < o { self } else { o } } fn vx_min(self, o: u32) -> (r: u32) { if self < o { self } else { o } } }
/// str::chars
pub struct VxCharIt { pub s: Ghost<Seq<char>> }
pub trait VxStrChars: VxText { #[verifier::external_body] fn vx_chars(&self) -> (r: VxCharIt) ensures r.s@ == self.vt() { unimplemented!() } }
impl VxStrChars for String {}
impl VxStrChars for str {}
impl VxCharIt {
    #[verifier::external_body]
    pub fn any<F: Fn(char) -> bool>(self, f: F) -> (r: bool)
        requires forall|c: char| f.requires((c,))
        ensures r ==> exists|i: int| 0 <= i < self.s@.len() && f.ensures((#[trigger] self.s@[i],), true), !r ==> forall|i: int| 0 <= i < self.s@.len() ==> f.ensures((#[trigger] self.s@[i],), false)
    { unimplemented!() }
}
}
