//@header
//@include ../common/sx.rs
verus! {
use sx::*;
#[allow(non_camel_case_types)]
pub type c_int = i32;
#[verifier::external_body]
pub struct VxAny { _x: u8 }
#[verifier::external_body]
pub struct VxFnMut { _x: u8 }
#[verifier::external_body]
pub struct VxCompletor { _x: u8 }
#[verifier::external_body]
pub struct Duration { _x: u8 }
#[verifier::external_body]
pub struct Event { _x: u8 }
#[verifier::external_body]
pub struct Line { _x: u8 }
pub struct VxErr {}
/// What a descriptor refers to.
pub enum VxFile { RealErr, PipeIn, PipeOut }
/// tty: the real standard error is a terminal; fds: what the open descriptors refer to (2 is standard error); running:
/// the thread that passes captured lines on has been started and not waited for; kept: where there is a lock, whether
/// that thread is behind it, and rfd and kfd the descriptors it reads from and puts standard error back with; notes: how
/// many lines were sent to say that something failed
pub struct VxE { pub tty: bool, pub fds: Map<int, VxFile>, pub running: bool, pub kept: bool, pub rfd: int, pub kfd: int, pub locked: bool, pub notes: nat }
pub struct VxWorld { pub g: Ghost<VxE> }
/// only standard error writes to the pipe
pub open spec fn one_way(e: VxE) -> bool { forall|i: int| i != 2 && e.fds.contains_key(i) ==> !(#[trigger] e.fds[i] is PipeIn) }
/// nothing is captured
pub open spec fn free(e: VxE) -> bool { !e.running && !e.kept && e.fds.contains_key(2) && e.fds[2] is RealErr && one_way(e) }
/// everything written to standard error arrives in the pipe, and the thread can put standard error back
pub open spec fn captured(e: VxE, before: VxE) -> bool {
    &&& e.running && e.kept && e.fds.contains_key(2) && e.fds[2] is PipeIn
    // (what the thread reads until it ends must be only what is written to standard error)
    &&& one_way(e)
    &&& ({ let r = e.rfd; let k = e.kfd; r != k && r > 2 && k > 2 && !before.fds.contains_key(r) && !before.fds.contains_key(k) && e.fds =~= before.fds.insert(r, VxFile::PipeOut).insert(k, VxFile::RealErr).insert(2, VxFile::PipeIn) })
}
pub struct VxStderr { pub x: u8 }
#[verifier::external_body]
pub fn vx_stderr() -> VxStderr { unimplemented!() }
impl VxStderr { #[verifier::external_body] pub fn is_tty(&self, w: &VxWorld) -> (r: bool) ensures r == (w.g@.fds[2] is RealErr && w.g@.tty) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_pipe(w: &mut VxWorld) -> (r: Result<(c_int, c_int), c_int>)
    ensures match r { Ok((a, b)) => a > 2 && b > 2 && a != b && !old(w).g@.fds.contains_key(a as int) && !old(w).g@.fds.contains_key(b as int) && final(w).g@ == (VxE { fds: old(w).g@.fds.insert(a as int, VxFile::PipeOut).insert(b as int, VxFile::PipeIn), ..old(w).g@ }), Err(_) => final(w).g@ == old(w).g@ }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_dup(w: &mut VxWorld, s: c_int) -> (r: Result<c_int, c_int>)
    requires old(w).g@.fds.contains_key(s as int), //# C23
    ensures match r { Ok(a) => a > 2 && !old(w).g@.fds.contains_key(a as int) && final(w).g@ == (VxE { fds: old(w).g@.fds.insert(a as int, old(w).g@.fds[s as int]), ..old(w).g@ }), Err(_) => final(w).g@ == old(w).g@ }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_dup2(w: &mut VxWorld, s: c_int, d: c_int) -> (r: Result<(), c_int>)
    requires old(w).g@.fds.contains_key(s as int), //# C23
    ensures match r { Ok(_) => final(w).g@ == (VxE { fds: old(w).g@.fds.insert(d as int, old(w).g@.fds[s as int]), ..old(w).g@ }), Err(_) => final(w).g@ == old(w).g@ },
        // (putting standard error back is taken to work)
        d == 2 && old(w).g@.fds[s as int] is RealErr ==> r is Ok
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_close(w: &mut VxWorld, d: c_int)
    requires old(w).g@.fds.contains_key(d as int), //# C23
        // the thread may have put standard error back at any moment (when nobody takes its lines any more)
        d != 2, //# C23
        // and it may still need this
        old(w).g@.running ==> d != old(w).g@.kfd && d != old(w).g@.rfd, //# C23
    ensures final(w).g@ == (VxE { fds: old(w).g@.fds.remove(d as int), ..old(w).g@ })
{ unimplemented!() }
// -- the thread, behind its lock --
pub struct VxJoin { pub r: Ghost<int>, pub k: Ghost<int> }
pub struct VxLock { pub x: u8 }
pub struct VxGuard { pub v: Option<(VxJoin, c_int)> }
#[verifier::external_body]
pub fn vx_no_guard() -> VxGuard { unimplemented!() }
#[verifier::external_body]
pub fn vx_lock(w: &mut VxWorld) -> (r: VxGuard)
    requires !old(w).g@.locked, //# C23
    ensures final(w).g@ == (VxE { locked: true, ..old(w).g@ }), r.v is Some == old(w).g@.kept, r.v matches Some((j, k)) ==> j.r@ == old(w).g@.rfd && k == old(w).g@.kfd
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_unlock(w: &mut VxWorld, g: VxGuard)
    ensures final(w).g@ == (VxE { locked: false, kept: g.v is Some, rfd: match g.v { Some((j, _)) => j.r@, None => old(w).g@.rfd }, kfd: match g.v { Some((_, k)) => k as int, None => old(w).g@.kfd }, ..old(w).g@ })
{ unimplemented!() }
/// (the thread: unit errcap)
#[verifier::external_body]
pub fn vx_spawn_capture(w: &mut VxWorld, r: c_int, k: c_int) -> (j: VxJoin)
    requires !old(w).g@.running, r > 2, k > 2, old(w).g@.fds.contains_key(r as int), old(w).g@.fds[r as int] is PipeOut, old(w).g@.fds.contains_key(k as int), old(w).g@.fds[k as int] is RealErr, //# C23
    ensures final(w).g@ == (VxE { running: true, rfd: r as int, kfd: k as int, ..old(w).g@ }), j.r@ == r as int, j.k@ == k as int
{ unimplemented!() }
impl VxJoin {
    /// The thread ends when nobody can write to the pipe any more (and only then, as far as is known here), and has put
    /// standard error back then (unit errcap). (It may have ended, and put standard error back, before.)
    #[verifier::external_body]
    pub fn join(self, w: &mut VxWorld) -> (r: Result<(), VxErr>)
        requires old(w).g@.locked, //# C23
            forall|i: int| old(w).g@.fds.contains_key(i) ==> !(#[trigger] old(w).g@.fds[i] is PipeIn), //# C23,C25
        ensures final(w).g@ == (VxE { running: false, fds: final(w).g@.fds, ..old(w).g@ }), final(w).g@.fds == old(w).g@.fds.remove(self.r@).insert(2, VxFile::RealErr)
    { unimplemented!() }
}
pub struct VxSender { pub x: u8 }
impl VxSender {
    #[verifier::external_body]
    pub fn send(&self, w: &mut VxWorld, q: Request) -> (r: Result<(), VxErr>)
        requires q is StderrLine, //# C23
        ensures final(w).g@ == (VxE { notes: old(w).g@.notes + 1, ..old(w).g@ })
    { unimplemented!() }
}
pub struct Output { pub tx: VxSender }
//@provides pipe dup dup2 close read write_all
//@path std::io::stderr => vx_stderr
//@method is_tty => is_tty(+&*wd)
//@path pipe => vx_pipe(+wd)
//@path dup => vx_dup(+wd)
//@path dup2 => vx_dup2(+wd)
//@path close => vx_close(+wd)
//@path std::thread::spawn => vx_spawn_capture(wd, r, real_stderr)
//@method send => send(+wd)
//@method join => join(+wd)
//@path wait_until_not_captured => wait_until_not_captured(+wd)
//@typemap Box<dyn Any + Send> => VxAny
//@typemap Box<dyn FnMut() + Send> => VxFnMut
//@typemap Box<dyn Completor> => VxCompletor
//@typemap crossterm::event::Event => Event
//@features wrap history completion capture-stderr
//@file src/lib.rs
//@type Response
//@type Request
//@file src/stderr_capture.rs
//@fn attempt_stderr_capture props=C23,C25
//@sig (wd: &mut VxWorld, output: Output)
    requires free(old(wd).g@), !old(wd).g@.locked
    ensures captured(final(wd).g@, old(wd).g@) || (final(wd).g@ == (VxE { notes: final(wd).g@.notes, locked: final(wd).g@.locked, fds: final(wd).g@.fds, ..old(wd).g@ }) && final(wd).g@.fds =~= old(wd).g@.fds), //# C23,C25
        old(wd).g@.tty && !final(wd).g@.running ==> final(wd).g@.notes > old(wd).g@.notes, //# C23
        !old(wd).g@.tty ==> !final(wd).g@.running, //# C23
//@sub let mut lock; => let mut lock = vx_no_guard();
//@sub STDERR_CAPTURE_THREAD.lock() => vx_lock(wd)
//@sub lock.as_ref() => lock.v.as_ref()
//@sub *lock => lock.v
//@loop 0
    invariant_except_break free(wd.g@), !wd.g@.locked, wd.g@ == old(wd).g@, //# C23
    ensures lock.v is None, wd.g@ == (VxE { locked: true, ..old(wd).g@ }), //# C23
    decreases 1int
//@hint end
    let ghost e0 = old(wd).g@.fds;
    proof { assert(wd.g@.fds =~= (e0.insert(r as int, VxFile::PipeOut).insert(real_stderr as int, VxFile::RealErr)).insert(2, VxFile::PipeIn)); }
    vx_unlock(wd, lock);
//@fn wait_until_not_captured props=C23,C25
//@sig (wd: &mut VxWorld)
    requires !old(wd).g@.locked, old(wd).g@.running == old(wd).g@.kept, !old(wd).g@.running ==> free(old(wd).g@),
        // (whether the thread has put standard error back already is not known)
        old(wd).g@.running ==> one_way(old(wd).g@) && old(wd).g@.fds.contains_key(2) && old(wd).g@.fds.contains_key(old(wd).g@.kfd) && old(wd).g@.fds[old(wd).g@.kfd] is RealErr && old(wd).g@.kfd > 2 && old(wd).g@.rfd > 2 && old(wd).g@.rfd != old(wd).g@.kfd
    ensures old(wd).g@.running ==> final(wd).g@.fds =~= old(wd).g@.fds.remove(old(wd).g@.rfd).remove(old(wd).g@.kfd).insert(2, VxFile::RealErr), //# C23
        free(final(wd).g@), !final(wd).g@.locked, !old(wd).g@.running ==> final(wd).g@ == old(wd).g@, //# C23,C25
//@sub STDERR_CAPTURE_THREAD.lock() => vx_lock(wd)
//@sub lock.take() => lock.v.take()
//@sub drop(lock) => vx_unlock(wd, lock)
//@footer
}
fn main() {}
