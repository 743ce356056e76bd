verus! {
use sx::*;
pub struct DummyError {}
pub type LifeOrDeath = std::result::Result<(), DummyError>;
/// What giving the terminal back is about.
/// t: the state in which what has been written leaves the terminal; clean: all of it has been sent; raw: raw mode;
/// failed: something that was tried did not work; hook: the panic hook in force (prog: the program's own; 1: Liso's;
/// 2: Rust's); ended: the thread that reads standard input has ended; said: the message of a panic has been given
pub struct VxE { pub t: Tm, pub clean: bool, pub raw: bool, pub failed: bool, pub hook: int, pub prog: int, pub ended: bool, pub said: bool }
pub struct VxWorld { pub g: Ghost<VxE> }
/// the terminal is in its normal state
pub open spec fn normal(w: VxE) -> bool { plain(w.t) && w.clean && !w.raw }
/// (what is not written about here stays)
pub open spec fn put(o: VxE, t: Tm, ok: bool) -> VxE { VxE { t: t, clean: false, failed: o.failed || !ok, ..o } }
/// standard output
pub struct Stdout { pub x: u8 }
impl Stdout {
    #[verifier::external_body]
    pub fn flush(&mut self, w: &mut VxWorld) -> (r: LifeOrDeath)
        ensures r is Ok ==> final(w).g@ == (VxE { clean: true, ..old(w).g@ }), r is Err ==> final(w).g@ == (VxE { failed: true, ..old(w).g@ })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_stdout() -> Stdout { unimplemented!() }
#[verifier::external_body]
pub fn vx_raw(w: &mut VxWorld) -> (r: LifeOrDeath)
    requires old(w).g@.hook == 1, //# C25
    ensures r is Ok ==> final(w).g@ == (VxE { raw: true, ..old(w).g@ }), r is Err ==> final(w).g@ == (VxE { failed: true, ..old(w).g@ })
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_unraw(w: &mut VxWorld) -> (r: LifeOrDeath)
    ensures r is Ok ==> final(w).g@ == (VxE { raw: false, ..old(w).g@ }), r is Err ==> final(w).g@ == (VxE { failed: true, ..old(w).g@ })
{ unimplemented!() }
// -- panic hooks: another thread may panic at any moment, so there is Liso's hook whenever the terminal is raw --
pub struct VxHook { pub id: Ghost<int> }
#[verifier::external_body]
pub fn vx_take_hook(w: &mut VxWorld) -> (r: VxHook)
    requires !old(w).g@.raw, //# C25
    ensures r.id@ == old(w).g@.hook, final(w).g@ == (VxE { hook: 2, ..old(w).g@ })
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_set_hook(w: &mut VxWorld, h: VxHook)
    requires h.id@ == 1 || normal(old(w).g@), //# C25
    ensures final(w).g@ == (VxE { hook: h.id@, ..old(w).g@ })
{ unimplemented!() }
/// Liso's hook (its body: see the closure)
#[verifier::external_body]
pub fn vx_liso_hook() -> (r: VxHook) ensures r.id@ == 1 { unimplemented!() }
pub struct VxInfo { pub x: u8 }
/// the message of the panic is given: the terminal must be in its normal state (unless that could not be achieved)
#[verifier::external_body]
pub fn vx_default_hook(w: &mut VxWorld, i: VxInfo)
    requires old(w).g@.failed || normal(old(w).g@), //# C25
    ensures final(w).g@ == (VxE { said: true, ..old(w).g@ })
{ unimplemented!() }
// -- threads --
/// reads: the thread is the one that waits for standard input
pub struct VxJoin { pub reads: bool }
impl VxJoin { pub fn unwrap(self) -> (r: VxJoin) ensures r == self { self } }
pub struct VxBuilder { pub x: u8 }
#[verifier::external_body]
pub fn vx_builder() -> VxBuilder { unimplemented!() }
impl VxBuilder {
    pub fn vx_name(self) -> VxBuilder { self }
    #[verifier::external_body]
    pub fn vx_spawn_reader(self) -> (r: VxJoin) ensures r.reads { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_spawn_other(self) -> (r: VxJoin) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_chan() -> (r: (VxA, VxA)) { unimplemented!() }
pub struct VxA { pub x: u8 }
pub struct InterruptibleStdinThread { pub reads: bool }
impl InterruptibleStdinThread {
    pub fn new(h: VxJoin) -> (r: InterruptibleStdinThread)
        requires h.reads, //# C25
        ensures r.reads
    { InterruptibleStdinThread { reads: h.reads } }
    /// (unit stdin)
    #[verifier::external_body]
    pub fn interrupt(&mut self, w: &mut VxWorld)
        requires old(self).reads, //# C25
        ensures final(self).reads == old(self).reads, final(w).g@ == (VxE { ended: true, ..old(w).g@ })
    { unimplemented!() }
}
}
