//@header
//@include ../common/sx.rs
verus! {
use sx::*;
pub struct DummyError {}
pub type LifeOrDeath = std::result::Result<(), DummyError>;
pub struct VxSender { pub x: u8 }
impl VxSender { #[verifier::external_body] pub fn clone(&self) -> VxSender { unimplemented!() } }
pub struct VxReceiver { pub x: u8 }
pub struct VxTx { pub x: u8 }
pub struct VxHistory { pub x: u8 }
pub struct Output { pub tx: VxSender }
/// What the choice rests on, and what has been done: whether standard error is captured, which worker has run.
pub struct VxP { pub out_tty: bool, pub in_tty: bool, pub term: Option<Seq<char>>, pub captured: bool, pub piped: bool, pub drawn: bool }
pub struct VxWorld { pub g: Ghost<VxP> }
/// there is a terminal to draw on
pub open spec fn terminal(p: VxP) -> bool { p.out_tty && p.in_tty && p.term != Some("dumb"@) && p.term != Some("pipe"@) }
/// a string is what its characters are (the verifier's patterns compare the strings as values)
#[verifier::external_body]
pub proof fn ax_str() ensures forall|a: &str, b: &str| #![trigger a@, b@] a@ == b@ ==> a == b { }
pub struct VxStdout { pub x: u8 }
pub struct VxStdin { pub x: u8 }
#[verifier::external_body]
pub fn vx_stdout() -> VxStdout { unimplemented!() }
#[verifier::external_body]
pub fn vx_stdin() -> VxStdin { unimplemented!() }
impl VxStdout { #[verifier::external_body] pub fn is_tty(&self, w: &VxWorld) -> (r: bool) ensures r == w.g@.out_tty { unimplemented!() } }
impl VxStdin { #[verifier::external_body] pub fn is_tty(&self, w: &VxWorld) -> (r: bool) ensures r == w.g@.in_tty { unimplemented!() } }
pub struct VxVarError {}
/// (what a variable is, if it is set and is UTF-8)
#[verifier::external_body]
pub fn vx_var(w: &VxWorld, name: &str) -> (r: std::result::Result<String, VxVarError>)
    ensures name@ == "TERM"@ ==> (r is Ok == w.g@.term is Some && (r matches Ok(s) ==> Some(s@) == w.g@.term))
{ unimplemented!() }
pub trait VxDeref { spec fn odv(&self) -> Option<Seq<char>>; fn vx_as_deref(&self) -> (r: Option<&str>) ensures r is Some == self.odv() is Some, r matches Some(s) ==> Some(s@) == self.odv(); }
impl VxDeref for Option<String> { open spec fn odv(&self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } }
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&str>) { self.as_deref() } }
impl VxDeref for std::result::Result<String, VxVarError> { open spec fn odv(&self) -> Option<Seq<char>> { match self { Ok(s) => Some(s@), Err(_) => None } }
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
/// (unit pipe: captured lines never come, since nothing is captured)
#[verifier::external_body]
pub fn vx_pipe_worker(w: &mut VxWorld, req_tx: VxSender, rx: VxReceiver, tx: VxTx) -> (r: LifeOrDeath)
    requires !terminal(old(w).g@), //# C21
        !old(w).g@.captured, //# C21,C23
        !old(w).g@.piped, !old(w).g@.drawn, //# C21
    ensures final(w).g@ == (VxP { piped: true, ..old(w).g@ })
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_tty_worker(w: &mut VxWorld, req_tx: VxSender, rx: VxReceiver, tx: VxTx, history: VxHistory) -> (r: LifeOrDeath)
    requires terminal(old(w).g@), //# C21
        !old(w).g@.piped, !old(w).g@.drawn, //# C21
    ensures final(w).g@ == (VxP { drawn: true, ..old(w).g@ })
{ unimplemented!() }
pub mod stderr_capture { use super::*;
    #[verifier::external_body]
    pub fn attempt_stderr_capture(w: &mut VxWorld, o: Output)
        ensures final(w).g@ == (VxP { captured: final(w).g@.captured, ..old(w).g@ }), old(w).g@.captured ==> final(w).g@.captured
    { unimplemented!() }
}
//@path std::io::stdout => vx_stdout
//@path std::io::stdin => vx_stdin
//@path std::env::var => vx_var(+&*w)
//@provides pipe_worker tty_worker
//@path pipe_worker => vx_pipe_worker(+w)
//@path tty_worker => vx_tty_worker(+w)
//@path stderr_capture::attempt_stderr_capture => stderr_capture::attempt_stderr_capture(+w)
//@method as_deref => vx_as_deref
//@method is_tty => is_tty(+&*w)
//@features wrap history completion capture-stderr
//@file src/worker.rs
//@fn is_pipe_term props=C21 ret=res
    ensures res == (input matches Some(s) && (s@ == "dumb"@ || s@ == "pipe"@)), //# C21
//@hint start
    proof { ax_str(); }
//@fn worker props=C21 ret=res
//@sig (w: &mut VxWorld, req_tx: VxSender, rx: VxReceiver, tx: VxTx, history: VxHistory) -> (res: LifeOrDeath)
    requires !old(w).g@.captured, !old(w).g@.piped, !old(w).g@.drawn
    ensures terminal(old(w).g@) ==> final(w).g@.drawn, !terminal(old(w).g@) ==> final(w).g@.piped, //# C21
//@footer
}
fn main() {}
