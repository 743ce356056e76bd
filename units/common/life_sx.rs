verus! {
use sx::*;
pub struct VxErr {}
/// What a thread that creates or drops a Liso knows of the world.
/// holds: the permission to have a Liso is with this thread (there is one such permission in the process: taken from
/// the lock or flag by finding it free, given back by setting it free); running: the worker of that Liso may still be
/// running; shown: the global output has been set up for it; captured: its capturing of stderr may still be going on;
/// locked: the lock is held; seen: the global output that was last seen (or that there is a Liso).
pub struct VxW { pub holds: bool, pub running: bool, pub shown: bool, pub captured: bool, pub locked: bool, pub tx: int, pub rtx: int, pub hist: int, pub seen: Option<int> }
pub struct VxWorld { pub g: Ghost<VxW> }
pub open spec fn fresh(w: VxW) -> VxW { VxW { seen: None, holds: true, running: false, shown: false, captured: false, ..w } }
/// somebody has the permission
pub open spec fn busy(w: VxW) -> VxW { VxW { seen: Some(w.tx), ..w } }
// -- channels --
pub struct VxReqTx { pub id: Ghost<int> }
pub struct VxReqRx { pub id: Ghost<int> }
pub struct VxResTx { pub id: Ghost<int> }
pub struct VxRx { pub id: Ghost<int> }
impl Clone for VxReqTx { #[verifier::external_body] fn clone(&self) -> (r: VxReqTx) ensures r.id == self.id { unimplemented!() } }
#[verifier::external_body]
pub fn vx_channel() -> (r: (VxReqTx, VxReqRx)) ensures r.0.id == r.1.id { unimplemented!() }
#[verifier::external_body]
pub fn vx_rchannel() -> (r: (VxResTx, VxRx)) ensures r.0.id == r.1.id { unimplemented!() }
impl VxReqTx {
    /// only the worker receives requests: if nobody does, it has ended
    #[verifier::external_body]
    pub fn send(&self, w: &mut VxWorld, q: Request) -> (r: Result<(), VxErr>)
        ensures r is Ok ==> final(w).g@ == old(w).g@, r is Err ==> final(w).g@ == (VxW { running: old(w).g@.running && self.id@ != old(w).g@.tx, ..old(w).g@ })
    { unimplemented!() }
}
pub struct VxRecv<'a> { pub rx: &'a mut VxRx }
impl VxRx {
    /// only the worker sends responses, and no `Dead` among them (unit editor, pipe): if there is nobody who could, it has ended
    #[verifier::external_body]
    pub fn try_recv(&mut self, w: &mut VxWorld) -> (r: Result<Response, TryRecvError>)
        ensures final(self).id == old(self).id, match r {
            Ok(x) => !(x is Dead) && final(w).g@ == old(w).g@,
            Err(TryRecvError::Empty) => final(w).g@ == old(w).g@,
            Err(TryRecvError::Disconnected) => final(w).g@ == (VxW { running: old(w).g@.running && old(self).id@ != old(w).g@.rtx, ..old(w).g@ }) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: VxRecv<'_>) ensures *r.rx == *old(self), *final(self) == *final(r.rx) { unimplemented!() }
}
impl<'a> VxRecv<'a> {
    #[verifier::external_body]
    pub fn vx_await(self, w: &mut VxWorld) -> (r: Option<Response>)
        ensures final(self.rx).id == old(self.rx).id, match r {
            Some(x) => !(x is Dead) && final(w).g@ == old(w).g@,
            None => final(w).g@ == (VxW { running: old(w).g@.running && old(self.rx).id@ != old(w).g@.rtx, ..old(w).g@ }) }
    { unimplemented!() }
}
pub enum TryRecvError { Empty, Disconnected }
pub mod tokio { pub mod sync { pub mod mpsc { pub mod error { pub use crate::TryRecvError; } } } }
// -- the history --
#[verifier::external_body]
pub struct History { _x: u8 }
impl History { #[verifier::external_body] pub fn new() -> History { unimplemented!() } }
pub struct VxRwLock { pub x: u8 }
#[verifier::external_body]
pub fn vx_rwlock(h: History) -> VxRwLock { unimplemented!() }
pub struct VxHist { pub id: Ghost<int> }
#[verifier::external_body]
pub fn vx_arc(h: VxRwLock) -> VxHist { unimplemented!() }
impl Clone for VxHist { #[verifier::external_body] fn clone(&self) -> (r: VxHist) ensures r.id == self.id { unimplemented!() } }
// -- the output thread --
pub struct VxBuilder { pub x: u8 }
pub struct VxJoin { pub x: u8 }
#[verifier::external_body]
pub fn vx_builder() -> VxBuilder { unimplemented!() }
impl VxBuilder {
    pub fn name(self, s: String) -> VxBuilder { self }
    /// starts the worker: one at a time
    #[verifier::external_body]
    pub fn vx_spawn(self, w: &mut VxWorld, tx: &VxReqTx, rx: &VxReqRx, rtx: &VxResTx, h: &VxHist) -> (r: VxJoin)
        requires old(w).g@.holds && !old(w).g@.running, //# C26
        ensures final(w).g@ == (VxW { running: true, captured: true, tx: rx.id@, rtx: rtx.id@, hist: h.id@, ..old(w).g@ })
    { unimplemented!() }
}
/// (if no thread can be started: a panic)
impl VxJoin { pub fn unwrap(self) -> VxJoin { self } }
/// what the thread did: it ran the worker with these
pub struct VxRan { pub tx: int, pub rx: int, pub rtx: int, pub hist: int }
pub struct VxT { pub ran: Ghost<Seq<VxRan>> }
#[verifier::external_body]
pub fn vx_worker(t: &mut VxT, tx: VxReqTx, rx: VxReqRx, rtx: VxResTx, h: VxHist) -> (r: Result<(), VxErr>)
    ensures final(t).ran@ == old(t).ran@.push(VxRan { tx: tx.id@, rx: rx.id@, rtx: rtx.id@, hist: h.id@ })
{ unimplemented!() }
// -- the rest --
#[verifier::external_body]
pub fn vx_yield() { unimplemented!() }
/// a panic, allowed only at the ninth Dead
#[verifier::external_body]
pub fn vx_panic_dead(n: u32) -> ! requires n >= 9 { unimplemented!() }
/// a panic, allowed only if another Liso is there
#[verifier::external_body]
pub fn vx_panic_two(w: &VxWorld) -> !
    requires w.g@.seen is Some, //# C26
{ unimplemented!() }
/// a panic, allowed only if there is no Liso
#[verifier::external_body]
pub fn vx_panic_none(w: &VxWorld) -> !
    requires w.g@.seen is None, //# C26
{ unimplemented!() }
/// (an async function is extracted as an ordinary one, which is run when called)
impl Response { pub fn vx_await(self, w: &mut VxWorld) -> (r: Response) ensures r == self, final(w).g@ == old(w).g@ { self } }
/// the end of the capturing thread, awaited
pub mod stderr_capture {
    use super::*;
    #[verifier::external_body]
    pub fn wait_until_not_captured(w: &mut VxWorld)
        requires !old(w).g@.running, //# C26
        ensures final(w).g@ == (VxW { captured: false, ..old(w).g@ })
    { unimplemented!() }
}
/// an instance of Liso and its permission
pub open spec fn owns(w: VxW, io: InputOutput) -> bool { w.holds && !w.locked && io.output.tx.id@ == w.tx && io.rx.id@ == w.rtx && io.history.id@ == w.hist && io.death_count < 9 }
}
