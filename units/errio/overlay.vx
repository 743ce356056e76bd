//@header
//@include ../common/sx.rs
verus! {
use sx::*;
#[allow(non_camel_case_types)]
pub type c_int = i32;
// -- file descriptors --
/// `out`: what has been written so far; `inn`: what has been read so far; `dead`: an error other than an
/// interruption was seen; `intr`: the last call was interrupted
pub struct VxFd { pub out: Ghost<Seq<u8>>, pub inn: Ghost<Seq<u8>>, pub err: Ghost<Option<c_int>> }
pub struct Errno(pub c_int);
pub struct VxPtr<'a> { pub s: &'a [u8] }
pub struct VxPtrMut<'a> { pub s: &'a mut [u8] }
pub trait VxAsPtr { spec fn ap(&self) -> Seq<u8>; fn vx_as_ptr<'a>(&'a self) -> (r: VxPtr<'a>) ensures r.s@ == self.ap(); }
impl VxAsPtr for [u8] { open spec fn ap(&self) -> Seq<u8> { self@ } fn vx_as_ptr<'a>(&'a self) -> (r: VxPtr<'a>) { VxPtr { s: self } } }
pub fn vx_id<T>(x: T) -> (r: T) ensures r == x { x }
impl VxFd {
    #[verifier::external_body]
    pub fn write(&mut self, fd: c_int, p: VxPtr, n: usize) -> (r: isize)
        requires n <= p.s@.len()
        ensures final(self).inn == old(self).inn, r <= n,
            r >= 0 ==> final(self).out@ == old(self).out@ + p.s@.subrange(0, r as int) && final(self).err@ is None,
            r < 0 ==> final(self).out == old(self).out && final(self).err@ is Some
    { unimplemented!() }
    #[verifier::external_body]
    pub fn errno(&self) -> (r: Errno) ensures self.err@ is Some ==> r.0 == self.err@->0 { unimplemented!() }
}
pub mod libc { pub const EINTR: i32 = 4; pub const ENOSYS: i32 = 38; #[allow(non_camel_case_types)] pub type size_t = usize; }
pub trait VxFromS { spec fn fs(&self) -> Seq<u8>; fn vx_from(&self, a: usize) -> (r: &Self) requires a <= self.fs().len() ensures r.fs() == self.fs().subrange(a as int, self.fs().len() as int); }
impl VxFromS for [u8] { open spec fn fs(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { &self[a..] } }
//@method as_ptr => vx_as_ptr
//@path std::mem::transmute => vx_id
//@path libc::write => w.write
//@path errno::errno => w.errno
//@file src/stderr_capture.rs
//@fn write_all props=C23 attr=#[verifier::exec_allows_no_decreases_clause]
//@sig (w: &mut VxFd, fd: c_int, mut buf: &[u8]) -> (r: Result<(), c_int>)
    ensures final(w).inn == old(w).inn,
        r is Ok ==> final(w).out@ == old(w).out@ + buf@, //# C23
        r is Err ==> exists|k: int| 0 <= k <= buf@.len() && final(w).out@ =~= old(w).out@ + #[trigger] buf@.subrange(0, k), //# C23
//@hint start
    let ghost b0 = buf@;
    proof { assert(w.out@ =~= old(w).out@ + b0.subrange(0, 0)); assert(b0.subrange(0, b0.len() as int) =~= b0); }
//@hint loop 0 before
    #[verifier::loop_isolation(false)]
//@loop 0
    invariant w.inn == old(w).inn, buf@.len() <= b0.len(), buf@ == b0.subrange(b0.len() - buf@.len(), b0.len() as int),
        w.out@ =~= old(w).out@ + b0.subrange(0, b0.len() - buf@.len()), //# C23
//@hint loop 0 start
    let ghost k = b0.len() - buf@.len();
    proof { assert forall|n: int| 0 <= n <= buf@.len() implies #[trigger] buf@.subrange(0, n) =~= b0.subrange(k, k + n) by {}; }
//@footer
}
fn main() {}
