//@header
//@include ../common/sx.rs
verus! {
use sx::*;
#[verifier::external_body]
pub struct VxAny { _x: u8 }
#[verifier::external_body]
pub struct Duration { _x: u8 }
#[verifier::external_body]
pub struct Instant { _x: u8 }
pub struct TokioInstant { pub x: u8 }
pub struct VxRt { pub x: u8 }
pub struct VxElapsed { pub x: u8 }
pub enum TryRecvError { Empty, Disconnected }
pub mod tokio { pub mod sync { pub mod mpsc { pub mod error { pub use crate::TryRecvError; } } } }
/// the receiving end of the response channel: what has been taken from it so far, and whether it has been found closed
pub struct VxRx { pub got: Ghost<Seq<Response>>, pub over: Ghost<bool> }
/// what receiving does: the next response, unchanged; or nothing any more, once the sender is gone and all is received
pub open spec fn rcv(a: VxRx, b: VxRx, r: Option<Response>) -> bool {
    match r { Some(x) => !a.over@ && b.got@ == a.got@.push(x) && !b.over@, None => b.got@ == a.got@ && b.over@ }
}
pub struct VxRecv<'a> { pub rx: &'a mut VxRx }
pub struct VxTimeout<'a> { pub f: VxRecv<'a> }
impl VxRx {
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: VxRecv<'_>) ensures *r.rx == *old(self), *final(self) == *final(r.rx) { unimplemented!() }
    #[verifier::external_body]
    pub fn blocking_recv(&mut self) -> (r: Option<Response>) ensures rcv(*old(self), *final(self), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<Response, TryRecvError>)
        ensures match r { Ok(x) => rcv(*old(self), *final(self), Some(x)), Err(TryRecvError::Disconnected) => rcv(*old(self), *final(self), None), Err(TryRecvError::Empty) => *final(self) == *old(self) && !old(self).over@ }
    { unimplemented!() }
}
impl<'a> VxRecv<'a> {
    #[verifier::external_body]
    pub fn vx_await(self) -> (r: Option<Response>) ensures rcv(*old(self.rx), *final(self.rx), r) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_timeout<'a>(d: Duration, f: VxRecv<'a>) -> (r: VxTimeout<'a>) ensures r.f == f { unimplemented!() }
#[verifier::external_body]
pub fn vx_timeout_at<'a>(d: TokioInstant, f: VxRecv<'a>) -> (r: VxTimeout<'a>) ensures r.f == f { unimplemented!() }
impl<'a> VxTimeout<'a> {
    /// (a receive that is given up has received nothing)
    #[verifier::external_body]
    pub fn vx_await(self) -> (r: Result<Option<Response>, VxElapsed>) ensures match r { Ok(o) => rcv(*old(self.f.rx), *final(self.f.rx), o), Err(_) => *final(self.f.rx) == *old(self.f.rx) } { unimplemented!() }
}
impl TokioInstant { #[verifier::external_body] pub fn from_std(i: Instant) -> TokioInstant { unimplemented!() } }
impl VxRt {
    #[verifier::external_body]
    pub fn new_current_thread() -> VxRt { unimplemented!() }
    #[verifier::external_body]
    pub fn enable_time(self) -> VxRt { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> VxRt { unimplemented!() }
    #[verifier::external_body]
    pub fn expect(self, s: &str) -> VxRt { unimplemented!() }
    pub fn block_on<T>(&self, t: T) -> (r: T) ensures r == t { t }
}
/// a panic, allowed only at the ninth Dead
#[verifier::external_body]
pub fn vx_panic(n: u32) -> ! requires n >= 9 { unimplemented!() }
/// (an async function is extracted as an ordinary one, which is run when called)
impl Response { pub fn vx_await(self) -> (r: Response) ensures r == self { self } }
/// what a blocking read does
pub open spec fn reads(a: InputOutput, b: InputOutput, r: Response) -> bool {
    ||| rcv(a.rx, b.rx, Some(r)) && b.death_count == a.death_count
    ||| rcv(a.rx, b.rx, None) && r is Dead && b.death_count == a.death_count + 1 && b.death_count < 9
}
/// the control code documented for a Response
pub open spec fn control(r: Response) -> u8 {
    match r {
        Response::Input(_) => 10, Response::Discarded(_) => 7, Response::Custom(_) => 0, Response::Quit => 3, Response::Finish => 4, Response::Info => 20,
        Response::Dead => 28, Response::Break => 28, Response::Escape => 27, Response::Swap => 24, Response::Unknown(x) => x,
    }
}
//@typemap Box<dyn Any + Send> => VxAny
//@typemap tokio_mpsc::UnboundedReceiver<Response> => VxRx
//@path tokio::time::timeout => vx_timeout
//@path tokio::time::timeout_at => vx_timeout_at
//@path tokio::time::Instant::from_std => TokioInstant::from_std
//@path tokio::runtime::Builder::new_current_thread => VxRt::new_current_thread
//@features wrap history completion global
//@file src/lib.rs
//@type Response
//@type InputOutput
    output: -
    history: -
//@impl Response
//@fn as_unknown props=C22 ret=res
    ensures res == control(*self), //# C22
//@endimpl
//@impl InputOutput
//@fn report_death props=C22 ret=res
//@fnmacro panic => vx_panic(self.death_count)
    requires old(self).death_count < 9
    ensures final(self).death_count == old(self).death_count + 1, final(self).death_count < 9, final(self).rx == old(self).rx, //# C22
//@fn read_async props=C22 ret=res
    requires old(self).death_count < 9
    ensures reads(*old(self), *final(self), res), //# C22
//@fn read props=C22 ret=res
    requires old(self).death_count < 9
    ensures reads(*old(self), *final(self), res), //# C22
//@fn read_blocking props=C22 ret=res
    requires old(self).death_count < 9
    ensures reads(*old(self), *final(self), res), //# C22
//@fn blocking_read props=C22 ret=res
    requires old(self).death_count < 9
    ensures reads(*old(self), *final(self), res), //# C22
//@fn read_timeout props=C22 ret=res
    requires old(self).death_count < 9
    ensures match res { Some(r) => reads(*old(self), *final(self), r), None => *final(self) == *old(self) }, //# C22
//@fn read_deadline props=C22 ret=res
    requires old(self).death_count < 9
    ensures match res { Some(r) => reads(*old(self), *final(self), r), None => *final(self) == *old(self) }, //# C22
//@fn try_read props=C22 ret=res
    requires old(self).death_count < 9
    ensures match res { Some(r) => reads(*old(self), *final(self), r), None => *final(self) == *old(self) && !old(self).rx.over@ }, //# C22
//@endimpl
//@footer
}
fn main() {}
