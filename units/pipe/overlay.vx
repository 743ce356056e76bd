//@header
//@include ../common/sx.rs
//@include ../common/worker_sx.rs
verus! {
use sx::*;
broadcast use {vstd::utf8::group_utf8_lib, sx::group_sx, vstd::seq_lib::group_seq_properties};
pub struct Line { pub text: String }
pub struct VxCompletor { pub x: u8 }
pub struct VxErr {}
/// without the terminator: the newline, and carriage returns directly before it or at the end
pub open spec fn strip(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && (s.last() == '\n' || s.last() == '\r') { strip(s.drop_last()) } else { s } }
// -- the input thread --
/// What the input thread deals with, as one: standard input, by lines, and the request channel. `todo`: the line
/// read last, if it has not been passed on yet; `over`: input has ended or failed; `gone`: nobody takes requests.
pub struct VxIn { pub todo: Ghost<Option<Seq<char>>>, pub over: Ghost<bool>, pub gone: Ghost<bool> }
impl VxIn {
    #[verifier::external_body]
    pub fn read_line(&mut self, b: &mut String) -> (r: Result<usize, VxErr>)
        requires old(self).todo@ is None, !old(self).over@, //# C21
        ensures final(self).gone == old(self).gone,
            r matches Ok(n) ==> (n == 0 ==> final(self).over@ && final(self).todo@ is None && final(b)@ == old(b)@)
                && (n > 0 ==> !final(self).over@ && (final(self).todo@ matches Some(l) && l.len() > 0 && final(b)@ == old(b)@ + l)),
            r is Err ==> final(self).over@ && final(self).todo@ is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&mut self, q: Request) -> (r: Result<(), VxErr>)
        requires old(self).todo@ matches Some(l) && (q matches Request::RawInput(t) && t@ == strip(l)), //# C21
        ensures final(self).todo@ is None, final(self).over == old(self).over, final(self).gone@ == (r is Err)
    { unimplemented!() }
}
pub trait VxEnds: VxText {
    #[verifier::external_body]
    fn vx_ends_with(&self, c: char) -> (r: bool) ensures r == (self.vt().len() > 0 && self.vt().last() == c) { unimplemented!() }
}
impl VxEnds for String {}
impl VxEnds for str {}
// -- the worker --
/// What the worker deals with, as one: the requests received so far, what went to the program, what was printed.
pub struct VxW { pub got: Ghost<Seq<Request>>, pub sent: Ghost<Seq<Response>>, pub out: Ghost<Seq<Seq<char>>>, pub closed: Ghost<bool>, pub refused: Ghost<bool>, pub ended: Ghost<bool> }
/// the Responses due to requests
pub open spec fn resp(s: Seq<Request>) -> Seq<Response> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let p = resp(s.drop_last()); match s.last() { Request::RawInput(x) => p.push(Response::Input(x)), Request::Custom(x) => p.push(Response::Custom(x)), _ => p } }
}
/// the lines printed due to requests
pub open spec fn outs(s: Seq<Request>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let p = outs(s.drop_last()); match s.last() { Request::Output(l) => p.push(l.text@), Request::OutputWrapped(l) => p.push(l.text@), _ => p } }
}
pub open spec fn died(s: Seq<Request>) -> bool { s.len() > 0 && s.last() is Die }
impl VxW {
    /// everything received so far has been dealt with, and nothing else
    pub open spec fn done(&self) -> bool { self.sent@ == resp(self.got@) && self.out@ == outs(self.got@) }
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: Result<Request, VxErr>)
        requires old(self).done(), !died(old(self).got@), !old(self).refused@, //# C21,C24
        ensures final(self).sent == old(self).sent, final(self).out == old(self).out, final(self).refused == old(self).refused, final(self).ended == old(self).ended,
            r matches Ok(x) ==> final(self).got@ == old(self).got@.push(x) && final(self).closed == old(self).closed && !(x is StderrLine),
            r is Err ==> final(self).got == old(self).got && final(self).closed@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&mut self, x: Response) -> (r: LifeOrDeath)
        // (that Liso is gone is told by the end of the channel alone)
        requires !(x is Dead), //# C22
        ensures final(self).got == old(self).got, final(self).out == old(self).out, final(self).closed == old(self).closed, final(self).ended == old(self).ended,
            r is Ok ==> final(self).sent@ == old(self).sent@.push(x) && final(self).refused == old(self).refused,
            r is Err ==> final(self).sent == old(self).sent && final(self).refused@
    { unimplemented!() }
    /// something else on standard output
    #[verifier::external_body]
    pub fn vx_print(&mut self)
        ensures final(self).got == old(self).got, final(self).sent == old(self).sent, final(self).closed == old(self).closed, final(self).refused == old(self).refused, final(self).ended == old(self).ended, final(self).out@.len() > old(self).out@.len()
    { unimplemented!() }
    /// a line on standard output
    #[verifier::external_body]
    pub fn vx_println(&mut self, s: &String)
        ensures final(self).got == old(self).got, final(self).sent == old(self).sent, final(self).closed == old(self).closed, final(self).refused == old(self).refused, final(self).ended == old(self).ended, final(self).out@ == old(self).out@.push(s@)
    { unimplemented!() }
}
pub broadcast proof fn lemma_dl(s: Seq<Request>, x: Request) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_push(s: Seq<Request>, x: Request)
    ensures
        resp(s.push(x)) == (match x { Request::RawInput(i) => resp(s).push(Response::Input(i)), Request::Custom(i) => resp(s).push(Response::Custom(i)), _ => resp(s) }),
        outs(s.push(x)) == (match x { Request::Output(l) => outs(s).push(l.text@), Request::OutputWrapped(l) => outs(s).push(l.text@), _ => outs(s) }),
{ assert(s.push(x).drop_last() =~= s); }
/// reads: the thread is the one that reads standard input
pub struct VxJoin { pub reads: bool }
impl VxJoin { pub fn unwrap(self) -> (r: VxJoin) ensures r == self { self } }
pub struct VxBuilder { pub x: u8 }
#[verifier::external_body]
pub fn vx_builder() -> VxBuilder { unimplemented!() }
impl VxBuilder {
    pub fn vx_name(self) -> VxBuilder { self }
    #[verifier::external_body]
    pub fn vx_spawn_reader(self) -> (r: VxJoin) ensures r.reads { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_spawn_other(self) -> (r: VxJoin) { unimplemented!() }
}
pub struct InterruptibleStdinThread { pub reads: bool }
impl InterruptibleStdinThread {
    pub fn new(h: VxJoin) -> (r: InterruptibleStdinThread)
        requires h.reads, //# C25
        ensures r.reads
    { InterruptibleStdinThread { reads: h.reads } }
    /// (unit stdin)
    #[verifier::external_body]
    pub fn interrupt(&mut self, w: &mut VxW)
        requires old(self).reads, //# C25
        ensures final(self).reads == old(self).reads, final(w).got == old(w).got, final(w).sent == old(w).sent, final(w).out == old(w).out, final(w).closed == old(w).closed, final(w).refused == old(w).refused, final(w).ended@
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_stdin() -> VxStdin { unimplemented!() }
pub struct VxStdin { pub x: u8 }
impl VxStdin {
    #[verifier::external_body]
    pub fn lock(&self) -> VxStdin { unimplemented!() }
}
//@method send => w.send
//@method recv => w.recv
//@method read_line => w.read_line
//@path std::io::stdin => vx_stdin
//@path std::thread::Builder::new => vx_builder
//@method name => vx_name()
//@method spawn ~.read_line( => vx_spawn_reader()
//@method spawn => vx_spawn_other()
//@method interrupt => interrupt(+w)
//@path vx_println => w.vx_println
//@path vx_print => w.vx_print
//@method ends_with => vx_ends_with
//@typemap Box<dyn Any + Send> => VxAny
//@typemap Box<dyn FnMut() + Send> => VxFnMut
//@typemap Box<dyn Completor> => VxCompletor
//@typemap crossterm::event::Event => Event
//@features wrap history completion capture-stderr
//@file src/lib.rs
//@type Response
//@type Request
//@file src/worker.rs
//@fn pipe_worker props=C21,C25 as=pipe_input_thread attr=#[verifier::exec_allows_no_decreases_clause]
//@part closure ~read_line
//@sig (w: &mut VxIn)
    requires old(w).todo@ is None, !old(w).over@, !old(w).gone@,
    ensures final(w).over@ && final(w).todo@ is None || final(w).gone@, //# C21,C25
//@loop 0
    invariant_except_break w.todo@ is None, !w.over@, !w.gone@, //# C21
    ensures w.over@ && w.todo@ is None || w.gone@, //# C21,C25
//@loop 1
    invariant w.todo@ matches Some(l) && strip(l) == strip(buf@), !w.over@, !w.gone@, //# C21
    ensures !(buf@.len() > 0 && (buf@.last() == '\n' || buf@.last() == '\r')), //# C21
    decreases buf@.len()
//@hint loop 1 start
    proof { let s = buf@; assert(strip(s) == strip(s.drop_last())); }
//@fn pipe_worker props=C21,C24,C25 attr=#[verifier::exec_allows_no_decreases_clause]
//@sig (w: &mut VxW) -> (res: LifeOrDeath)
    requires old(w).done(), old(w).got@.len() == 0, !old(w).closed@, !old(w).refused@,
    ensures (final(w).closed@ || died(final(w).got@)) && final(w).done() || final(w).refused@, //# C21,C24
        final(w).ended@ || final(w).refused@, //# C25
//@loop 0
    invariant_except_break w.done(), !died(w.got@), !w.refused@, //# C21,C24
    ensures (w.closed@ || died(w.got@)) && w.done() || w.refused@, //# C21,C24
//@hint loop 0 start
    broadcast use lemma_dl;
    proof { let g = w.got@.drop_last(); lemma_push(g, request); assert(w.sent@ == resp(g) && w.out@ == outs(g)); assert(w.got@.drop_last().push(request) =~= w.got@); }
//@footer
}
fn main() {}
