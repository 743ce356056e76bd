//@header
//@include ../common/sx.rs
verus! {
use sx::*;
// -- what is read from standard input --
/// got: all that was read; sent: all that was passed on
pub struct VxIn { pub got: Seq<u8>, pub sent: Seq<u8>, pub gone: bool, pub over: bool }
pub struct VxInW { pub g: Ghost<VxIn> }
pub struct VxStdin { pub x: u8 }
pub struct VxLock { pub x: u8 }
#[verifier::external_body]
pub fn vx_stdin() -> VxStdin { unimplemented!() }
impl VxStdin { #[verifier::external_body] pub fn lock(&self) -> VxLock { unimplemented!() } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { Interrupted, WouldBlock, Other }
pub struct VxErr { pub k: ErrorKind }
impl VxErr { pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k } }
impl VxLock {
    /// one read: some bytes; nothing at the end; or an error (interrupted: nothing has happened)
    #[verifier::external_body]
    pub fn read(&mut self, w: &mut VxInW, b: &mut [u8]) -> (r: Result<usize, VxErr>)
        requires !old(w).g@.over
        ensures final(b)@.len() == old(b)@.len(), match r {
            Ok(n) => n <= old(b)@.len() && final(w).g@ == (VxIn { got: old(w).g@.got + final(b)@.subrange(0, n as int), over: n == 0 && old(b)@.len() > 0, ..old(w).g@ }),
            Err(e) => final(w).g@ == (VxIn { over: e.k != ErrorKind::Interrupted, ..old(w).g@ }) }
    { unimplemented!() }
}
pub struct VxBytesTx { pub x: u8 }
impl VxBytesTx {
    #[verifier::external_body]
    pub fn send(&self, w: &mut VxInW, v: Vec<u8>) -> (r: Result<(), VxErr>)
        ensures r is Ok ==> final(w).g@ == (VxIn { sent: old(w).g@.sent + v@, ..old(w).g@ }), r is Err ==> final(w).g@ == (VxIn { gone: true, ..old(w).g@ })
    { unimplemented!() }
}
pub trait VxOwned { fn vx_to_vec(&self) -> (r: Vec<u8>); }
impl VxOwned for [u8] { #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
pub struct Crossterminal { pub x: u8 }
pub struct Vt52 { pub x: u8 }
/// sub-slices of the buffer
pub trait VxArr { spec fn arr(&self) -> Seq<u8>;
    fn vx_from_mut(&mut self, a: usize) -> (r: &mut [u8])
        requires a <= old(self).arr().len()
        ensures r@ == old(self).arr().skip(a as int), final(r)@.len() == r@.len() ==> final(self).arr() == old(self).arr().take(a as int) + final(r)@;
    fn vx_to(&self, b: usize) -> (r: &[u8]) requires b <= self.arr().len() ensures r@ == self.arr().take(b as int);
    fn vx_from(&self, a: usize) -> (r: &[u8]) requires a <= self.arr().len() ensures r@ == self.arr().skip(a as int);
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.arr().len() ensures r@ == self.arr().subrange(a as int, b as int);
}
impl<const N: usize> VxArr for [u8; N] {
    open spec fn arr(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_from_mut(&mut self, a: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
}
//@path std::io::stdin => vx_stdin
//@method read => read(+w)
//@method send => send(+w)
//@method to_owned => vx_to_vec
//@features wrap history completion
//@file src/term/cross.rs
//@impl Crossterminal
//@fn new props=C14,C25 as=read_ct ret=res attr=#[verifier::exec_allows_no_decreases_clause]
//@part closure ~stdin.read(
//@sig (w: &mut VxInW, input_tx: VxBytesTx)
    requires old(w).g@.got == old(w).g@.sent, !old(w).g@.gone, !old(w).g@.over
    ensures final(w).g@.gone || final(w).g@.over, final(w).g@.over ==> final(w).g@.got == final(w).g@.sent, //# C14,C25
//@loop 0
    invariant_except_break w.g@.got == w.g@.sent, !w.g@.gone, !w.g@.over, //# C14
    ensures w.g@.gone || w.g@.over, w.g@.over ==> w.g@.got == w.g@.sent, //# C14,C25
//@endimpl
//@file src/term/vt52.rs
//@impl Vt52
//@fn new props=C15,C25 as=read_vt ret=res attr=#[verifier::exec_allows_no_decreases_clause]
//@part closure ~stdin.read(
//@sig (w: &mut VxInW, input_tx: VxBytesTx)
    requires old(w).g@.got == old(w).g@.sent, !old(w).g@.gone, !old(w).g@.over
    ensures final(w).g@.gone || final(w).g@.over, final(w).g@.over ==> final(w).g@.got == final(w).g@.sent, //# C15,C25
//@loop 0
    invariant_except_break w.g@.got == w.g@.sent, !w.g@.gone, !w.g@.over, //# C15
    ensures w.g@.gone || w.g@.over, w.g@.over ==> w.g@.got == w.g@.sent, //# C15,C25
//@endimpl
//@footer
}
fn main() {}
