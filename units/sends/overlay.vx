//@header
//@include ../common/sx.rs
verus! {
use sx::*;
#[verifier::external_body]
pub struct VxAny { _x: u8 }
#[verifier::external_body]
pub struct VxFnMut { _x: u8 }
#[verifier::external_body]
pub struct VxCompletor { _x: u8 }
#[verifier::external_body]
pub struct Duration { _x: u8 }
#[verifier::external_body]
pub struct Event { _x: u8 }
pub struct VxErr {}
impl std::fmt::Debug for VxErr { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
#[verifier::external_body]
pub struct Line { _x: u8 }
/// the line has no text
pub uninterp spec fn ln_none(l: Line) -> bool;
impl Line {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == ln_none(*self) { unimplemented!() }
}
/// what a value becomes as a line (unit line: `from_str`, `from_string`, `from_cow`)
pub uninterp spec fn to_line<T>(t: T) -> Line;
#[verifier::external_body]
pub fn vx_to_line<T: Into<Line>>(t: T) -> (r: Line) ensures r == to_line(t) { unimplemented!() }
pub trait VxInto: Sized { fn vx_into(self) -> (r: Line) ensures r == to_line(self); }
impl<T: Into<Line>> VxInto for T {
    #[verifier::external_body]
    fn vx_into(self) -> (r: Line) { unimplemented!() }
}
/// a boxed value
pub uninterp spec fn boxed<F, R>(f: F) -> R;
#[verifier::external_body]
pub fn vx_box<F, R>(f: F) -> (r: R) ensures r == boxed::<F, R>(f) { unimplemented!() }
/// The request channel, as one of its senders knows it: what it has sent itself, in order; whether nobody takes
/// requests any more.
pub struct VxW { pub sent: Ghost<Seq<Request>>, pub gone: Ghost<bool>, pub history: History }
#[verifier::external_body]
pub struct History { _x: u8 }
pub struct VxLock { pub x: u8 }
impl VxLock {
    /// the history, locked (by whoever holds the lock, it may be changed)
    #[verifier::external_body]
    pub fn vx_write<'a>(&self, w: &'a mut VxW) -> (r: Result<&'a mut History, VxErr>)
        ensures r is Ok, *r->Ok_0 == old(w).history, *final(w) == (VxW { history: *final(r->Ok_0), ..*old(w) })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VxResponses { _x: u8 }
#[verifier::external_body]
pub fn vx_drop<T>(t: T) ensures has_resolved(t) { unimplemented!() }
pub struct VxReqTx { pub id: Ghost<int> }
impl Clone for VxReqTx { #[verifier::external_body] fn clone(&self) -> (r: VxReqTx) ensures r.id == self.id { unimplemented!() } }
impl VxReqTx {
    #[verifier::external_body]
    pub fn send(&self, w: &mut VxW, q: Request) -> (r: Result<(), VxErr>)
        ensures final(w).history == old(w).history, r is Ok ==> final(w).sent@ == old(w).sent@.push(q) && final(w).gone == old(w).gone,
            r is Err ==> final(w).sent == old(w).sent && final(w).gone@
    { unimplemented!() }
}
pub trait VxExpect: Sized {
    spec fn good(self) -> bool;
    /// a panic, allowed only if nobody takes requests any more
    fn vx_expect(self, w: &VxW, s: &str) requires !self.good() ==> w.gone@ ensures self.good();
}
impl VxExpect for Result<(), VxErr> {
    open spec fn good(self) -> bool { self is Ok }
    #[verifier::external_body]
    fn vx_expect(self, w: &VxW, s: &str) { unimplemented!() }
}
/// this one request has been sent, and nothing else
pub open spec fn sent1(a: VxW, b: VxW, q: Request) -> bool { b.sent@ == a.sent@.push(q) }
//@method send => send(+w)
//@method into => vx_into
//@path T::into => vx_to_line
//@path Box::new => vx_box
//@method write => vx_write(+w)
//@path drop => vx_drop
//@typemap Arc<RwLock<History>> => VxLock
//@typemap tokio_mpsc::UnboundedReceiver<Response> => VxResponses
//@method expect => vx_expect(+w)
//@typemap Box<dyn Any + Send> => VxAny
//@typemap Box<dyn FnMut() + Send> => VxFnMut
//@typemap Box<dyn Completor> => VxCompletor
//@typemap crossterm::event::Event => Event
//@typemap std_mpsc::Sender<Request> => VxReqTx
//@features wrap history completion capture-stderr global
//@file src/lib.rs
//@type Request
//@type Output
//@type OutputOnly
//@type InputOutput
//@impl Output
//@fn send props=C24 ret=res
//@sig (&self, w: &mut VxW, thing: Request)
    ensures sent1(*old(w), *final(w), thing), //# C24
//@fn println props=C24 ret=res
//@sig <T: Into<Line>>(&self, w: &mut VxW, line: T)
    ensures sent1(*old(w), *final(w), Request::Output(to_line(line))), //# C24
//@fn wrapln props=C24 ret=res
//@sig <T: Into<Line>>(&self, w: &mut VxW, line: T)
    ensures sent1(*old(w), *final(w), Request::OutputWrapped(to_line(line))), //# C24
//@fn echoln props=C24 ret=res
//@sig <T: Into<Line>>(&self, w: &mut VxW, line: T)
    ensures sent1(*old(w), *final(w), Request::OutputEcho(to_line(line))), //# C24
//@fn status props=C18 ret=res
//@sig <T: Into<Line>>(&self, w: &mut VxW, line: Option<T>)
    ensures sent1(*old(w), *final(w), Request::Status(match line { Some(l) => Some(to_line(l)), None => None })), //# C18
//@fn remove_status props=C18 ret=res
//@sig (&self, w: &mut VxW)
    ensures sent1(*old(w), *final(w), Request::Status(None)), //# C18
//@fn notice props=C20 ret=res
//@sig <T: Into<Line>>(&self, w: &mut VxW, line: T, max_duration: Duration)
    ensures sent1(*old(w), *final(w), Request::Notice(to_line(line), max_duration)), //# C20
//@fn prompt props=C08 ret=res
//@sig <T: Into<Line>>(&self, w: &mut VxW, line: T, input_allowed: bool, clear_input: bool)
    ensures sent1(*old(w), *final(w), Request::Prompt { line: if ln_none(to_line(line)) { None } else { Some(to_line(line)) }, input_allowed, clear_input }), //# C08
//@fn remove_prompt props=C08 ret=res
//@sig (&self, w: &mut VxW, input_allowed: bool, clear_input: bool)
    ensures sent1(*old(w), *final(w), Request::Prompt { line: None, input_allowed, clear_input }), //# C08
//@fn bell props=C24 ret=res
//@sig (&self, w: &mut VxW)
    ensures sent1(*old(w), *final(w), Request::Bell), //# C24
//@fn suspend_and_run props=C24 ret=res
//@sig <F>(&self, w: &mut VxW, f: F)
    ensures sent1(*old(w), *final(w), Request::SuspendAndRun(boxed(f))), //# C24
//@fn clone_output props=C24 ret=res
    ensures res.0.tx.id == self.tx.id, //# C24
//@fn clone_sender props=C24 ret=res
    ensures res.0.tx.id == self.tx.id, //# C24
//@fn send_custom props=C24 ret=res
//@sig <T>(&self, w: &mut VxW, value: T)
    ensures sent1(*old(w), *final(w), Request::Custom(boxed(value))), //# C24
//@fn send_custom_box props=C24 ret=res
//@sig (&self, w: &mut VxW, value: VxAny)
    ensures sent1(*old(w), *final(w), Request::Custom(value)), //# C24
//@fn set_completor props=C24 ret=res
//@sig (&self, w: &mut VxW, completor: Option<VxCompletor>)
    ensures sent1(*old(w), *final(w), Request::SetCompletor(completor)), //# C24
//@endimpl
//@impl InputOutput
//@fn swap_history props=C10 ret=res
//@sig (&self, w: &mut VxW, history0: History) -> (res: History)
//@sub self.tx => self.output.tx
    ensures final(w).history == history0, res == old(w).history, //# C10
        final(w).gone@ || sent1(*old(w), *final(w), Request::BumpHistory), //# C10
//@hint start
    let mut history = history0;
//@endimpl
//@footer
}
fn main() {}
