//@header
//@include ../common/sx.rs
//@include ../common/life_sx.rs
verus! {
use sx::*;
#[verifier::external_body]
pub struct VxAny { _x: u8 }
#[verifier::external_body]
pub struct VxFnMut { _x: u8 }
#[verifier::external_body]
pub struct VxCompletor { _x: u8 }
#[verifier::external_body]
pub struct Duration { _x: u8 }
#[verifier::external_body]
pub struct Event { _x: u8 }
#[verifier::external_body]
pub struct Line { _x: u8 }
/// the global output, behind its lock
pub struct VxGlobal { pub x: u8 }
pub const LISO_OUTPUT_TX: VxGlobal = VxGlobal { x: 0 };
pub struct VxGuard { pub v: Option<VxReqTx>, pub orig: Ghost<Option<VxReqTx>> }
impl VxGlobal {
    /// If there is nothing behind the lock, the permission is, and is taken from there; if this thread has it, what
    /// is there is as this thread has left it.
    #[verifier::external_body]
    pub fn vx_lock(&self, w: &mut VxWorld) -> (r: VxGuard)
        requires !old(w).g@.locked, //# C26
        ensures r.orig@ == r.v, ({
            let o = VxW { locked: true, seen: match r.v { Some(x) => Some(x.id@), None => None }, ..old(w).g@ };
            if old(w).g@.holds { final(w).g@ == o && (r.v is Some) == o.shown && (r.v matches Some(x) ==> x.id@ == o.tx) } else { final(w).g@ == (if r.v is None { fresh(o) } else { o }) } })
    { unimplemented!() }
}
/// The lock is released: with nothing behind it, the permission goes there, for anybody; something else may have been
/// put there only by who has the permission.
#[verifier::external_body]
pub fn vx_unlock(w: &mut VxWorld, g: VxGuard)
    requires
        g.v is None ==> old(w).g@.holds && !old(w).g@.running && !old(w).g@.captured, //# C26
        g.v is Some && g.v != g.orig@ ==> old(w).g@.holds && old(w).g@.running && g.v->0.id@ == old(w).g@.tx, //# C26
    ensures final(w).g@ == (VxW { locked: false, holds: old(w).g@.holds && g.v is Some, shown: if old(w).g@.holds { g.v is Some } else { old(w).g@.shown }, ..old(w).g@ })
{ unimplemented!() }
//@guard LISO_OUTPUT_TX
//@path vx_unlock => vx_unlock(+w)
//@method vx_lock => vx_lock(+w)
//@path stderr_capture::wait_until_not_captured => stderr_capture::wait_until_not_captured(+w)
//@method send => send(+w)
//@method try_recv => try_recv(+w)
//@method vx_await => vx_await(+w)
//@method actually_blocking_die => actually_blocking_die(+w)
//@method try_read => try_read(+w)
//@method read_async => read_async(+w)
//@path std_mpsc::channel => vx_channel
//@path tokio_mpsc::unbounded_channel => vx_rchannel
//@path RwLock::new => vx_rwlock
//@path Arc::new => vx_arc
//@path std::thread::Builder::new => vx_builder
//@path std::thread::yield_now => vx_yield
//@path worker::worker => vx_worker(+w)
//@method spawn => vx_spawn(w, &request_tx_clone, &request_rx, &response_tx, &history_clone)
//@typemap Box<dyn Any + Send> => VxAny
//@typemap Box<dyn FnMut() + Send> => VxFnMut
//@typemap Box<dyn Completor> => VxCompletor
//@typemap crossterm::event::Event => Event
//@typemap tokio_mpsc::UnboundedReceiver<Response> => VxRx
//@typemap Arc<RwLock<History>> => VxHist
//@typemap std_mpsc::Sender<Request> => VxReqTx
//@features wrap history completion capture-stderr global
//@file src/lib.rs
//@type Request
//@type Response
//@type Output
//@type OutputOnly
//@type InputOutput
//@fn output props=C26 ret=res
//@fnmacro panic => vx_panic_none(w)
//@sig (w: &mut VxWorld) -> (res: OutputOnly)
    requires !old(w).g@.locked, old(w).g@.holds ==> old(w).g@.shown
    ensures final(w).g@ == (VxW { seen: Some(res.0.tx.id@), ..old(w).g@ }), old(w).g@.holds ==> res.0.tx.id@ == old(w).g@.tx, //# C26
//@impl InputOutput
//@fn new props=C26 as=new_thread ret=res
//@part closure ~worker::worker
//@sig (w: &mut VxT, request_tx_clone: VxReqTx, request_rx: VxReqRx, response_tx: VxResTx, history_clone: VxHist)
    ensures final(w).ran@ == old(w).ran@.push(VxRan { tx: request_tx_clone.id@, rx: request_rx.id@, rtx: response_tx.id@, hist: history_clone.id@ }), //# C26
//@fn new props=C26 ret=res
//@fnmacro panic => vx_panic_two(w)
//@sig (w: &mut VxWorld) -> (res: InputOutput)
    requires !old(w).g@.locked, old(w).g@.holds ==> old(w).g@.shown
    ensures !old(w).g@.holds, owns(final(w).g@, res), final(w).g@.running, final(w).g@.shown, //# C26
//@fn report_death props=C26 ret=res
//@fnmacro panic => vx_panic_dead(self.death_count)
    requires old(self).death_count < 9
    ensures final(self).death_count == old(self).death_count + 1, final(self).death_count < 9, final(self).rx == old(self).rx, final(self).output == old(self).output, final(self).history == old(self).history,
//@fn try_read props=C26,C25 ret=res
//@sig (&mut self, w: &mut VxWorld) -> (res: Option<Response>)
    requires owns(old(w).g@, *old(self))
    ensures owns(final(w).g@, *final(self)), final(w).g@ == (VxW { running: final(w).g@.running, ..old(w).g@ }), res matches Some(Response::Dead) ==> !final(w).g@.running, !old(w).g@.running ==> !final(w).g@.running, //# C26,C25
//@fn read_async props=C26,C25 ret=res
//@sig (&mut self, w: &mut VxWorld) -> (res: Response)
    requires owns(old(w).g@, *old(self))
    ensures owns(final(w).g@, *final(self)), final(w).g@ == (VxW { running: final(w).g@.running, ..old(w).g@ }), res is Dead ==> !final(w).g@.running, !old(w).g@.running ==> !final(w).g@.running, //# C26,C25
//@fn actually_blocking_die props=C26,C25 ret=res attr=#[verifier::exec_allows_no_decreases_clause]
//@sig (&mut self, w: &mut VxWorld)
    requires owns(old(w).g@, *old(self))
    ensures owns(final(w).g@, *final(self)), final(w).g@ == (VxW { running: false, ..old(w).g@ }), //# C26,C25
//@loop 0
    invariant_except_break owns(w.g@, *self), w.g@ == (VxW { running: w.g@.running, ..old(w).g@ }), //# C26,C25
    ensures owns(w.g@, *self), w.g@ == (VxW { running: false, ..old(w).g@ }), //# C26,C25
//@fn blocking_die props=C26,C25 ret=res
//@sig (&mut self, w: &mut VxWorld)
    requires owns(old(w).g@, *old(self))
    ensures owns(final(w).g@, *final(self)), final(w).g@ == (VxW { running: false, ..old(w).g@ }), //# C26,C25
//@fn die props=C26,C25 ret=res attr=#[verifier::exec_allows_no_decreases_clause]
//@sig (&mut self, w: &mut VxWorld)
    requires owns(old(w).g@, *old(self))
    ensures owns(final(w).g@, *final(self)), final(w).g@ == (VxW { running: false, ..old(w).g@ }), //# C26,C25
//@loop 0
    invariant_except_break owns(w.g@, *self), w.g@ == (VxW { running: w.g@.running, ..old(w).g@ }), //# C26,C25
    ensures owns(w.g@, *self), w.g@ == (VxW { running: false, ..old(w).g@ }), //# C26,C25
//@endimpl
//@impl InputOutput trait Drop : impl InputOutput
//@fn drop props=C26,C25 ret=res
//@sig (&mut self, w: &mut VxWorld)
    requires owns(old(w).g@, *old(self)), old(w).g@.shown
    ensures !final(w).g@.holds, !final(w).g@.running, !final(w).g@.locked, //# C26,C25
//@endimpl
//@footer
}
fn main() {}
