
// The bytes of a terminal, what they mean, and what an input thread deals with.
verus! {
use std_mpsc::RecvTimeoutError; use crossterm::event as event; use crossterm::event::{KeyCode, KeyEvent};
/// what is typed: a character, or a key that is none
pub enum Sym { Ch(char), Key(KeyCode), Other }
pub mod dx {
#[allow(unused_imports)] use super::*;
pub open spec fn chs(t: Seq<char>) -> Seq<Sym> { t.map_values(|c: char| Sym::Ch(c)) }
pub open spec fn syms(q: Request) -> Seq<Sym> {
    match q {
        Request::RawInput(t) => chs(t@),
        Request::CrosstermEvent(Event::Key(k)) => if k.modifiers.bits == 0 && k.state.bits == 0 && k.kind is Press { match k.code { KeyCode::Char(c) => if (c as u32) < 0x20 || c as u32 == 0x7f { seq![Sym::Other] } else { seq![Sym::Ch(c)] }, x => seq![Sym::Key(x)] } } else { seq![Sym::Other] },
        _ => seq![Sym::Other],
    }
}
pub open spec fn plain(b: u8) -> bool { b < 0x80 && b != 0x1b }
/// everything decoded from position i on, and where that comes to a halt
#[verifier::opaque] pub open spec fn dec(s: Seq<u8>, p: Set<int>, i: int) -> Seq<Sym> decreases s.len() - i {
    match tok(s, p, i) { Some((n, y)) => if 0 < n && i + n <= s.len() { y + dec(s, p, i + n) } else { Seq::empty() }, None => Seq::empty() }
}
#[verifier::opaque] pub open spec fn halt(s: Seq<u8>, p: Set<int>, i: int) -> int decreases s.len() - i {
    match tok(s, p, i) { Some((n, y)) => if 0 < n && i + n <= s.len() { halt(s, p, i + n) } else { i }, None => i }
}
/// what is before position k has been decoded to `out`
#[verifier::opaque] pub open spec fn ok(s: Seq<u8>, p: Set<int>, k: int, out: Seq<Sym>) -> bool {
    0 <= k <= s.len() && dec(s, p, 0) == out + dec(s, p, k) && halt(s, p, 0) == halt(s, p, k)
}
pub broadcast proof fn lemma_start(s: Seq<u8>, p: Set<int>, k: int, out: Seq<Sym>)
    requires s.len() == 0, k == 0, out.len() == 0
    ensures #[trigger] ok(s, p, k, out)
{ reveal(ok); assert(out + dec(s, p, 0) =~= dec(s, p, 0)); }
pub proof fn lemma_step(s: Seq<u8>, p: Set<int>, k: int, out: Seq<Sym>, n: int, y: Seq<Sym>)
    requires ok(s, p, k, out), tok(s, p, k) == Some((n, y))
    ensures ok(s, p, k + n, out + y)
{ reveal(ok); reveal_with_fuel(dec, 2); reveal_with_fuel(halt, 2); tok_ok(s, p, k);
  assert(dec(s, p, k) == y + dec(s, p, k + n));
  assert(out + (y + dec(s, p, k + n)) =~= (out + y) + dec(s, p, k + n)); }
pub broadcast proof fn lemma_steps(s: Seq<u8>, p: Set<int>, k: int, out: Seq<Sym>, k2: int, out2: Seq<Sym>)
    requires #[trigger] ok(s, p, k, out), tok(s, p, k) matches Some((n, y)) && k2 == k + n && out2 == out + y
    ensures #[trigger] ok(s, p, k2, out2)
{ if let Some((n, y)) = tok(s, p, k) { lemma_step(s, p, k, out, n, y); } }
/// a run of plain text
pub open spec fn run_of(s: Seq<u8>, k: int, k2: int) -> Seq<char> { Seq::new((k2 - k) as nat, |i: int| s[k + i] as char) }
pub proof fn lemma_run(s: Seq<u8>, p: Set<int>, k: int, out: Seq<Sym>, k2: int)
    requires ok(s, p, k, out), 0 <= k <= k2 <= s.len(), forall|i: int| k <= i < k2 ==> plain(#[trigger] s[i])
    ensures ok(s, p, k2, out + chs(run_of(s, k, k2)))
    decreases k2 - k
{
    if k2 == k { assert(out + chs(run_of(s, k, k2)) =~= out); } else {
        lemma_run(s, p, k, out, k2 - 1);
        tok_plain(s, p, k2 - 1);
        lemma_step(s, p, k2 - 1, out + chs(run_of(s, k, k2 - 1)), 1, seq![Sym::Ch(s[k2 - 1] as char)]);
        assert((out + chs(run_of(s, k, k2 - 1))) + seq![Sym::Ch(s[k2 - 1] as char)] =~= out + chs(run_of(s, k, k2)));
    }
}
pub broadcast proof fn lemma_runs(s: Seq<u8>, p: Set<int>, k: int, out: Seq<Sym>, k2: int, out2: Seq<Sym>)
    requires #[trigger] ok(s, p, k, out), 0 <= k <= k2 <= s.len(), forall|i: int| k <= i < k2 ==> plain(#[trigger] s[i]), out2 == out + chs(run_of(s, k, k2))
    ensures #[trigger] ok(s, p, k2, out2)
{ lemma_run(s, p, k, out, k2); }
/// more bytes, or a pause, after everything that could be decoded was
pub broadcast proof fn lemma_more(s: Seq<u8>, p: Set<int>, k: int, out: Seq<Sym>, s2: Seq<u8>, p2: Set<int>)
    requires #[trigger] ok(s, p, k, out), tok(s, p, k) is None, #[trigger] later(s, p, s2, p2)
    ensures ok(s2, p2, k, out)
{ reveal(ok); reveal_with_fuel(dec, 2); reveal_with_fuel(halt, 2); lemma_ext(s, p, s2, p2, 0); assert(out + Seq::<Sym>::empty() =~= out); }
pub open spec fn later(s: Seq<u8>, p: Set<int>, s2: Seq<u8>, p2: Set<int>) -> bool {
    s.len() <= s2.len() && s2.subrange(0, s.len() as int) == s && (forall|i: int| i < s.len() ==> (p2.contains(i) <==> p.contains(i))) && p.subset_of(p2)
}
pub proof fn lemma_ext(s: Seq<u8>, p: Set<int>, s2: Seq<u8>, p2: Set<int>, i: int)
    requires later(s, p, s2, p2), 0 <= i <= s.len()
    ensures dec(s2, p2, i) == dec(s, p, i) + dec(s2, p2, halt(s, p, i)), halt(s2, p2, i) == halt(s2, p2, halt(s, p, i)), i <= halt(s, p, i) <= s.len()
    decreases s.len() - i
{
    reveal_with_fuel(dec, 2); reveal_with_fuel(halt, 2);
    match tok(s, p, i) {
        None => { assert(Seq::<Sym>::empty() + dec(s2, p2, i) =~= dec(s2, p2, i)); }
        Some((n, y)) => {
            tok_ok(s, p, i); tok_later(s, p, s2, p2, i);
            lemma_ext(s, p, s2, p2, i + n);
            assert(y + (dec(s, p, i + n) + dec(s2, p2, halt(s, p, i + n))) =~= (y + dec(s, p, i + n)) + dec(s2, p2, halt(s, p, i + n)));
        }
    }
}
/// when everything that can be decoded has been
pub broadcast proof fn lemma_all(s: Seq<u8>, p: Set<int>, k: int, out: Seq<Sym>)
    requires #[trigger] ok(s, p, k, out), tok(s, p, k) is None
    ensures out == dec(s, p, 0), halt(s, p, 0) == k
{ reveal(ok); reveal_with_fuel(dec, 2); reveal_with_fuel(halt, 2); assert(out + Seq::<Sym>::empty() =~= out); }
/// `b` is what of the input is at its end
pub open spec fn tail_is(s: Seq<u8>, b: Seq<u8>) -> bool { b.len() <= s.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == s[s.len() - b.len() + i] }
pub broadcast proof fn lemma_tail_at(s: Seq<u8>, b: Seq<u8>)
    requires #[trigger] tail_is(s, b)
    ensures forall|i: int| s.len() - b.len() <= i < s.len() ==> #[trigger] s[i] == b[i - s.len() + b.len()]
{ }
/// no pause after position k
pub open spec fn nop(p: Set<int>, k: int) -> bool { forall|q: int| #[trigger] p.contains(q) ==> q <= k }
pub broadcast group group_dec { lemma_start, lemma_steps, lemma_more, lemma_all }
}
pub use dx::*;
pub struct VxErr {}
impl From<VxErr> for DummyError {
    #[verifier::external_body]
    fn from(e: VxErr) -> DummyError { unimplemented!() }
}
/// stands for what the thread was given; it deals with VxDec
pub struct VxNone {}
/// What an input thread deals with, as one: the bytes read so far, the positions at which a read came to its deadline,
/// what was passed on. `left`: how often there is still something to be read (the stream may be cut anywhere).
pub struct VxDec { pub rx: Ghost<Seq<u8>>, pub p: Ghost<Set<int>>, pub out: Ghost<Seq<Sym>>, pub over: Ghost<bool>, pub gone: Ghost<bool>, pub left: Ghost<nat> }
pub open spec fn esc_last(s: Seq<u8>, p: Set<int>) -> bool { s.len() > 0 && s.last() == 0x1b && halt(s, p, 0) == s.len() - 1 }
impl VxDec {
    /// waits until something is read, or input is over
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: Result<Vec<u8>, VxErr>)
        requires !old(self).over@, !old(self).gone@,
            // everything that can be decoded has been, and no escape waits for its deadline
            old(self).out@ == dec(old(self).rx@, old(self).p@, 0), //# C14,C15
            !esc_last(old(self).rx@, old(self).p@), //# C14,C15
        ensures final(self).out == old(self).out, final(self).gone == old(self).gone, final(self).p == old(self).p,
            r matches Ok(x) ==> !final(self).over@ && final(self).rx@ == old(self).rx@ + x@ && final(self).left@ < old(self).left@ && later(old(self).rx@, old(self).p@, final(self).rx@, final(self).p@),
            r is Err ==> final(self).over@ && final(self).rx == old(self).rx,
    { unimplemented!() }
    /// waits until something is read, input is over, or the deadline has come
    #[verifier::external_body]
    pub fn recv_timeout(&mut self, d: Duration) -> (r: Result<Vec<u8>, RecvTimeoutError>)
        requires !old(self).over@, !old(self).gone@,
        ensures final(self).out == old(self).out, final(self).gone == old(self).gone, later(old(self).rx@, old(self).p@, final(self).rx@, final(self).p@),
            r matches Ok(x) ==> !final(self).over@ && final(self).rx@ == old(self).rx@ + x@ && final(self).p@ == (if x@.len() == 0 { old(self).p@.insert(old(self).rx@.len() as int) } else { old(self).p@ }) && (x@.len() == 0 ==> final(self).left == old(self).left) && (x@.len() > 0 ==> final(self).left@ < old(self).left@),
            r matches Err(RecvTimeoutError::Timeout) ==> !final(self).over@ && final(self).rx == old(self).rx && final(self).p@ == old(self).p@.insert(old(self).rx@.len() as int) && final(self).left == old(self).left,
            r matches Err(RecvTimeoutError::Disconnected) ==> final(self).over@ && final(self).rx == old(self).rx && final(self).p == old(self).p,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&mut self, q: Request) -> (r: Result<(), VxErr>)
        requires !old(self).gone@,
        ensures final(self).rx == old(self).rx, final(self).p == old(self).p, final(self).over == old(self).over, final(self).left == old(self).left,
            r is Ok ==> final(self).out@ == old(self).out@ + syms(q) && !final(self).gone@, r is Err ==> final(self).gone@
    { unimplemented!() }
    /// the thread is done: nobody takes what it decodes, or input is over and everything in it was decoded
    pub open spec fn fin(&self) -> bool { self.gone@ || self.over@ && self.out@ == dec(self.rx@, self.p@, 0) }
}
#[verifier::external_body]
pub const ESCAPE_DELAY: Duration = Duration { d: Ghost::assume_new() };
pub struct VxLossy { pub s: String }
/// String::from_utf8_lossy, of ASCII
#[verifier::external_body]
pub fn vx_lossy(b: &[u8]) -> (r: VxLossy)
    ensures (forall|i: int| 0 <= i < b@.len() ==> b@[i] < 0x80) ==> r.s@ == b@.map_values(|x: u8| x as char)
{ unimplemented!() }
impl VxLossy {
    #[verifier::external_body]
    pub fn to_string(self) -> (r: String) ensures r@ == self.s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self.s@ { unimplemented!() }
}
pub trait VxBytes { spec fn vb(&self) -> Seq<u8>;
    fn vx_from(&self, a: usize) -> (r: &[u8]) requires a <= self.vb().len() ensures r@ == self.vb().subrange(a as int, self.vb().len() as int);
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.vb().len() ensures r@ == self.vb().subrange(a as int, b as int);
}
impl VxBytes for Vec<u8> { open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_from(&self, a: usize) -> (r: &[u8]) { &self[a..] }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
}
impl VxBytes for [u8] { open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_from(&self, a: usize) -> (r: &[u8]) { &self[a..] }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
}
pub trait VxCopyWithin { spec fn cv(&self) -> Seq<u8>;
    fn vx_copy_within(&mut self, r: std::ops::Range<usize>, d: usize)
        requires r.start <= r.end <= old(self).cv().len(), d + (r.end - r.start) <= old(self).cv().len()
        ensures final(self).cv() == old(self).cv().subrange(0, d as int) + old(self).cv().subrange(r.start as int, r.end as int) + old(self).cv().subrange(d + (r.end - r.start), old(self).cv().len() as int);
}
impl VxCopyWithin for Vec<u8> { open spec fn cv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_copy_within(&mut self, r: std::ops::Range<usize>, d: usize) { self.copy_within(r, d) }
}
/// char::from_u32
#[verifier::external_body]
pub fn vx_from_u32(c: u32) -> (r: Option<char>)
    ensures r == (if c <= 0x10ffff && !(0xd800 <= c <= 0xdfff) { Some(c as char) } else { None })
{ unimplemented!() }
} // verus!
