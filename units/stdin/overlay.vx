//@header
//@include ../common/sx.rs
verus! {
use sx::*;
// What `interrupt` deals with: the file descriptors of the process, its signal actions, and the thread that reads
// standard input.
/// fds: the open file behind each descriptor (those that something owns and closes are in `owned` instead); eof: the
/// files from which a read gets the end of input at once; act: the action of each signal (harmless: a handler that does
/// nothing; restart: a system call that it interrupted goes on); told: the thread's reading has been interrupted since
/// descriptor 0 became what it is now; pending: a signal may still be on its way to the thread; ended: the thread has
/// ended.
pub struct VxAct { pub id: int, pub harmless: bool, pub restart: bool }
pub struct VxP { pub fds: Map<int, int>, pub owned: Map<int, int>, pub eof: Set<int>, pub act: Map<Signal, VxAct>, pub told: bool, pub pending: Option<Signal>, pub ended: bool }
pub struct VxWorld { pub g: Ghost<VxP> }
impl VxP {
    pub open spec fn file(self, n: int) -> int { if self.fds.dom().contains(n) { self.fds[n] } else { self.owned[n] } }
    pub open spec fn open(self, n: int) -> bool { self.fds.dom().contains(n) || self.owned.dom().contains(n) }
    /// a read from standard input returns at once
    pub open spec fn at_eof(self) -> bool { self.fds.dom().contains(0) && self.eof.contains(self.fds[0]) }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Signal { SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGUSR1, SIGUSR2, SIGCONT, SIGWINCH, SIGALRM, SIGPIPE, SIGURG, SIGIO, SIGCHLD }
pub struct VxErr {}
/// the result of a system call (if it fails, `expect` panics)
pub struct VxRes<T> { pub v: T }
impl<T> VxRes<T> {
    #[verifier::external_body]
    pub fn expect(self, s: &str) -> (r: T) ensures r == self.v { unimplemented!() }
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: T) ensures r == self.v { unimplemented!() }
}
/// a descriptor with an owner, that closes it; for the writing end of a pipe: the file of the reading end
pub struct OwnedFd { pub n: i32, pub peer: Ghost<Option<int>> }
impl OwnedFd { pub fn as_raw_fd(&self) -> (r: i32) ensures r == self.n { self.n } }
#[verifier::external_body]
pub fn pipe(w: &mut VxWorld) -> (r: VxRes<(OwnedFd, OwnedFd)>)
    ensures ({ let o = old(w).g@; let (rx, tx) = (r.v.0, r.v.1);
        &&& rx.n != tx.n && !o.open(rx.n as int) && !o.open(tx.n as int) && rx.n > 2 && tx.n > 2
        &&& exists|f: int, g: int| f != g && (forall|k: int| o.open(k) ==> o.file(k) != f && o.file(k) != g) && !o.eof.contains(f) && rx.peer@ is None && tx.peer@ == Some(f)
            && final(w).g@ == (VxP { owned: o.owned.insert(rx.n as int, f).insert(tx.n as int, g), ..o }) })
{ unimplemented!() }
/// the descriptor is closed; if it was the writing end of a pipe (there is no other descriptor for it), the reading end is at its end
#[verifier::external_body]
pub fn vx_drop(w: &mut VxWorld, f: OwnedFd)
    ensures final(w).g@ == (VxP { owned: old(w).g@.owned.remove(f.n as int), eof: match f.peer@ { Some(x) => old(w).g@.eof.insert(x), None => old(w).g@.eof }, ..old(w).g@ })
{ unimplemented!() }
#[verifier::external_body]
pub fn dup(w: &mut VxWorld, n: i32) -> (r: VxRes<i32>)
    requires old(w).g@.open(n as int), //# C25
    ensures r.v > 2, !old(w).g@.open(r.v as int), final(w).g@ == (VxP { fds: old(w).g@.fds.insert(r.v as int, old(w).g@.file(n as int)), ..old(w).g@ })
{ unimplemented!() }
#[verifier::external_body]
pub fn dup2(w: &mut VxWorld, a: i32, b: i32) -> (r: VxRes<i32>)
    requires old(w).g@.open(a as int), !old(w).g@.owned.dom().contains(b as int), //# C25
    ensures r.v == b, final(w).g@ == (VxP { fds: old(w).g@.fds.insert(b as int, old(w).g@.file(a as int)), told: old(w).g@.told && b != 0, ..old(w).g@ })
{ unimplemented!() }
#[verifier::external_body]
pub fn close(w: &mut VxWorld, a: i32) -> (r: Result<(), VxErr>)
    requires old(w).g@.fds.dom().contains(a as int), //# C25
    ensures final(w).g@ == (VxP { fds: old(w).g@.fds.remove(a as int), told: old(w).g@.told && a != 0, ..old(w).g@ })
{ unimplemented!() }
pub struct SaFlags { pub restart: bool }
impl SaFlags {
    pub const SA_RESTART: SaFlags = SaFlags { restart: true };
    pub fn empty() -> (r: SaFlags) ensures !r.restart { SaFlags { restart: false } }
}
pub struct SigSet { pub x: u8 }
impl SigSet { pub fn empty() -> SigSet { SigSet { x: 0 } } pub fn all() -> SigSet { SigSet { x: 0 } } }
pub struct SigHandler { pub harmless: bool }
#[allow(non_upper_case_globals)]
impl SigHandler {
    pub const SigDfl: SigHandler = SigHandler { harmless: false };
    /// (harmless would be right, but an ignored signal does not interrupt anything)
    pub const SigIgn: SigHandler = SigHandler { harmless: false };
}
#[verifier::external_body]
pub fn vx_forget<T>(x: T) { unimplemented!() }
/// a handler (`dummy_handler`, which does nothing)
pub fn vx_handler() -> (r: SigHandler) ensures r.harmless { SigHandler { harmless: true } }
pub struct SigAction { pub a: Ghost<VxAct> }
impl SigAction { #[verifier::external_body] pub fn new(h: SigHandler, f: SaFlags, m: SigSet) -> (r: SigAction) ensures r.a@.harmless == h.harmless, r.a@.restart == f.restart { unimplemented!() } }
/// (while a signal is on its way, its action must stay harmless)
#[verifier::external_body]
pub fn sigaction(w: &mut VxWorld, s: Signal, a: &SigAction) -> (r: VxRes<SigAction>)
    requires old(w).g@.pending == Some(s) ==> a.a@.harmless, //# C25
    ensures r.v.a@ == old(w).g@.act[s], final(w).g@ == (VxP { act: old(w).g@.act.insert(s, a.a@), ..old(w).g@ })
{ unimplemented!() }
pub struct VxThread { pub x: u8 }
pub struct VxHandle { pub x: u8 }
impl VxHandle {
    #[verifier::external_body]
    pub fn is_finished(&self, w: &VxWorld) -> (r: bool) ensures r ==> w.g@.ended { unimplemented!() }
    #[verifier::external_body]
    pub fn as_pthread_t(&self) -> VxThread { unimplemented!() }
    /// waits for the end of the thread: it must have been interrupted, and find the end of its input
    #[verifier::external_body]
    pub fn join(self, w: &mut VxWorld) -> (r: VxRes<()>)
        requires old(w).g@.ended || old(w).g@.told && old(w).g@.at_eof(), //# C25
        ensures final(w).g@ == (VxP { ended: true, pending: None, ..old(w).g@ })
    { unimplemented!() }
}
/// interrupts what the thread is doing
#[verifier::external_body]
pub fn pthread_kill(w: &mut VxWorld, t: VxThread, s: Option<Signal>) -> (r: Result<(), VxErr>)
    requires s matches Some(x) ==> old(w).g@.act.dom().contains(x) && old(w).g@.act[x].harmless && old(w).g@.pending is None, //# C25
    ensures match s { None => final(w).g@ == old(w).g@, Some(x) => final(w).g@ == (VxP { told: old(w).g@.at_eof() && !old(w).g@.act[x].restart, pending: s, ..old(w).g@ }) }
{ unimplemented!() }
impl InterruptibleStdinThread {
    /// without a handle, the thread has ended
    pub open spec fn inv(&self, w: VxP) -> bool { self.join_handle is None ==> w.ended }
}
//@typemap JoinHandle<()> => VxHandle
//@path pipe => pipe(+w)
//@path drop => vx_drop(+w)
//@path std::mem::forget => vx_forget
//@path dup => dup(+w)
//@path dup2 => dup2(+w)
//@path close => close(+w)
//@path sigaction => sigaction(+w)
//@path pthread_kill => pthread_kill(+w)
//@method is_finished => is_finished(+w)
//@method join => join(+w)
//@path SigHandler::Handler => vx_handler()
//@features wrap history completion
//@file src/unix_util.rs
//@type InterruptibleStdinThread
//@impl InterruptibleStdinThread
//@fn new props=C25 ret=res
    ensures res.join_handle is Some, //# C25
//@fn interrupt props=C25 ret=res
//@sig (&mut self, w: &mut VxWorld)
    requires old(self).inv(old(w).g@), old(w).g@.fds.dom().contains(0), !old(w).g@.owned.dom().contains(0), old(w).g@.act.dom().contains(Signal::SIGHUP), old(w).g@.pending is None,
    ensures
        final(w).g@.ended, final(self).inv(final(w).g@), //# C25
        final(w).g@.fds =~= old(w).g@.fds, //# C25
        final(w).g@.act =~= old(w).g@.act, //# C25
        final(w).g@.pending is None, //# C25
//@endimpl
//@footer
}
fn main() {}
