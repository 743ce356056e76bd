//@header
//@include ../common/sx.rs
//@include ../common/life_sx.rs
verus! {
use sx::*;
#[verifier::external_body]
pub struct VxAny { _x: u8 }
#[verifier::external_body]
pub struct VxFnMut { _x: u8 }
#[verifier::external_body]
pub struct VxCompletor { _x: u8 }
#[verifier::external_body]
pub struct Duration { _x: u8 }
#[verifier::external_body]
pub struct Event { _x: u8 }
#[verifier::external_body]
pub struct Line { _x: u8 }
/// whether there is a Liso
pub struct VxFlag { pub x: u8 }
pub const LISO_IS_ACTIVE: VxFlag = VxFlag { x: 0 };
pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
impl VxFlag {
    /// The flag's owner finds it set. Who sets it, finding it not set, has the permission; and knows that what the one
    /// before did has been done, only if that was released and this acquires it.
    #[verifier::external_body]
    pub fn compare_exchange(&self, w: &mut VxWorld, a: bool, b: bool, o: Ordering, p: Ordering) -> (r: Result<bool, bool>)
        requires !a && b, o is Acquire || o is AcqRel || o is SeqCst, !(p is Release), !(p is AcqRel), //# C26
        ensures match r { Ok(x) => !x && !old(w).g@.holds && final(w).g@ == fresh(old(w).g@), Err(x) => x && final(w).g@ == busy(old(w).g@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, w: &mut VxWorld, a: bool, b: bool, o: Ordering, p: Ordering) -> (r: Result<bool, bool>)
        requires !a && b, o is Acquire || o is AcqRel || o is SeqCst, !(p is Release), !(p is AcqRel), //# C26
        ensures match r { Ok(x) => !x && !old(w).g@.holds && final(w).g@ == fresh(old(w).g@), Err(x) => final(w).g@ == (if x { busy(old(w).g@) } else { old(w).g@ }) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, w: &mut VxWorld, b: bool, o: Ordering) -> (r: bool)
        requires b && (o is Acquire || o is AcqRel || o is SeqCst) || !b && old(w).g@.holds && !old(w).g@.running && !old(w).g@.captured && (o is Release || o is AcqRel || o is SeqCst), //# C26
        ensures old(w).g@.holds ==> r, if b { final(w).g@ == (if r { busy(old(w).g@) } else { fresh(old(w).g@) }) } else { final(w).g@ == (VxW { holds: false, ..old(w).g@ }) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, w: &mut VxWorld, o: Ordering) -> (r: bool)
        ensures old(w).g@.holds ==> r, final(w).g@ == (if r { busy(old(w).g@) } else { old(w).g@ })
    { unimplemented!() }
    /// only who has the permission may say that there is no Liso
    #[verifier::external_body]
    pub fn store(&self, w: &mut VxWorld, b: bool, o: Ordering)
        requires old(w).g@.holds, !b ==> !old(w).g@.running && !old(w).g@.captured && (o is Release || o is SeqCst), //# C26
        ensures final(w).g@ == (VxW { holds: old(w).g@.holds && b, ..old(w).g@ })
    { unimplemented!() }
}
//@method compare_exchange => compare_exchange(+w)
//@method compare_exchange_weak => compare_exchange_weak(+w)
//@method swap => swap(+w)
//@method load => load(+w)
//@method store => store(+w)
//@path stderr_capture::wait_until_not_captured => stderr_capture::wait_until_not_captured(+w)
//@method send => send(+w)
//@method try_recv => try_recv(+w)
//@method vx_await => vx_await(+w)
//@method actually_blocking_die => actually_blocking_die(+w)
//@method try_read => try_read(+w)
//@method read_async => read_async(+w)
//@path std_mpsc::channel => vx_channel
//@path tokio_mpsc::unbounded_channel => vx_rchannel
//@path RwLock::new => vx_rwlock
//@path Arc::new => vx_arc
//@path std::thread::Builder::new => vx_builder
//@path std::thread::yield_now => vx_yield
//@path worker::worker => vx_worker(+w)
//@method spawn => vx_spawn(w, &request_tx_clone, &request_rx, &response_tx, &history_clone)
//@typemap Box<dyn Any + Send> => VxAny
//@typemap Box<dyn FnMut() + Send> => VxFnMut
//@typemap Box<dyn Completor> => VxCompletor
//@typemap crossterm::event::Event => Event
//@typemap tokio_mpsc::UnboundedReceiver<Response> => VxRx
//@typemap Arc<RwLock<History>> => VxHist
//@typemap std_mpsc::Sender<Request> => VxReqTx
//@features wrap history completion capture-stderr
//@file src/lib.rs
//@type Request
//@type Response
//@type Output
//@type OutputOnly
//@type InputOutput
//@impl InputOutput
//@fn new props=C26 as=new_thread ret=res
//@part closure ~worker::worker
//@sig (w: &mut VxT, request_tx_clone: VxReqTx, request_rx: VxReqRx, response_tx: VxResTx, history_clone: VxHist)
    ensures final(w).ran@ == old(w).ran@.push(VxRan { tx: request_tx_clone.id@, rx: request_rx.id@, rtx: response_tx.id@, hist: history_clone.id@ }), //# C26
//@fn new props=C26 ret=res
//@fnmacro panic => vx_panic_two(w)
//@sig (w: &mut VxWorld) -> (res: InputOutput)
    requires !old(w).g@.locked, old(w).g@.holds ==> old(w).g@.shown
    ensures !old(w).g@.holds, owns(final(w).g@, res), final(w).g@.running, //# C26
//@fn report_death props=C26 ret=res
//@fnmacro panic => vx_panic_dead(self.death_count)
    requires old(self).death_count < 9
    ensures final(self).death_count == old(self).death_count + 1, final(self).death_count < 9, final(self).rx == old(self).rx, final(self).output == old(self).output, final(self).history == old(self).history,
//@fn try_read props=C26,C25 ret=res
//@sig (&mut self, w: &mut VxWorld) -> (res: Option<Response>)
    requires owns(old(w).g@, *old(self))
    ensures owns(final(w).g@, *final(self)), final(w).g@ == (VxW { running: final(w).g@.running, ..old(w).g@ }), res matches Some(Response::Dead) ==> !final(w).g@.running, !old(w).g@.running ==> !final(w).g@.running, //# C26,C25
//@fn read_async props=C26,C25 ret=res
//@sig (&mut self, w: &mut VxWorld) -> (res: Response)
    requires owns(old(w).g@, *old(self))
    ensures owns(final(w).g@, *final(self)), final(w).g@ == (VxW { running: final(w).g@.running, ..old(w).g@ }), res is Dead ==> !final(w).g@.running, !old(w).g@.running ==> !final(w).g@.running, //# C26,C25
//@fn actually_blocking_die props=C26,C25 ret=res attr=#[verifier::exec_allows_no_decreases_clause]
//@sig (&mut self, w: &mut VxWorld)
    requires owns(old(w).g@, *old(self))
    ensures owns(final(w).g@, *final(self)), final(w).g@ == (VxW { running: false, ..old(w).g@ }), //# C26,C25
//@loop 0
    invariant_except_break owns(w.g@, *self), w.g@ == (VxW { running: w.g@.running, ..old(w).g@ }), //# C26,C25
    ensures owns(w.g@, *self), w.g@ == (VxW { running: false, ..old(w).g@ }), //# C26,C25
//@fn blocking_die props=C26,C25 ret=res
//@sig (&mut self, w: &mut VxWorld)
    requires owns(old(w).g@, *old(self))
    ensures owns(final(w).g@, *final(self)), final(w).g@ == (VxW { running: false, ..old(w).g@ }), //# C26,C25
//@fn die props=C26,C25 ret=res attr=#[verifier::exec_allows_no_decreases_clause]
//@sig (&mut self, w: &mut VxWorld)
    requires owns(old(w).g@, *old(self))
    ensures owns(final(w).g@, *final(self)), final(w).g@ == (VxW { running: false, ..old(w).g@ }), //# C26,C25
//@loop 0
    invariant_except_break owns(w.g@, *self), w.g@ == (VxW { running: w.g@.running, ..old(w).g@ }), //# C26,C25
    ensures owns(w.g@, *self), w.g@ == (VxW { running: false, ..old(w).g@ }), //# C26,C25
//@endimpl
//@impl InputOutput trait Drop : impl InputOutput
//@fn drop props=C26,C25 ret=res
//@sig (&mut self, w: &mut VxWorld)
    requires owns(old(w).g@, *old(self))
    ensures !final(w).g@.holds, !final(w).g@.running, !final(w).g@.locked, //# C26,C25
//@endimpl
//@footer
}
fn main() {}
