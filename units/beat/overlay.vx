//@header
//@include ../common/sx.rs
verus! {
use sx::*;
use vstd::multiset::Multiset;
#[verifier::external_type_specification]
pub struct ExRecvTimeoutError(std::sync::mpsc::RecvTimeoutError);
/// time, in unspecified units
pub struct Duration { pub d: Ghost<int> }
pub struct Instant { pub t: Ghost<int> }
impl Clone for Instant { fn clone(&self) -> (r: Instant) ensures r == *self { Instant { t: self.t } } }
impl Copy for Instant {}
impl vstd::std_specs::ops::SubSpecImpl for Instant {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Instant) -> bool { true }
    open spec fn sub_spec(self, o: Instant) -> Duration { Duration { d: Ghost(if self.t@ >= o.t@ { self.t@ - o.t@ } else { 0 }) } }
}
impl core::ops::Sub for Instant { type Output = Duration;
    #[verifier::external_body]
    fn sub(self, o: Instant) -> Duration { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Instant) -> bool { self.t@ == o.t@ }
}
impl PartialEq for Instant {
    #[verifier::external_body]
    fn eq(&self, o: &Instant) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<core::cmp::Ordering> {
        if self.t@ < o.t@ { Some(core::cmp::Ordering::Less) } else if self.t@ == o.t@ { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for Instant {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Instant) -> Option<core::cmp::Ordering> { unimplemented!() }
}
impl Instant {
    /// the deadline has not passed yet
    #[verifier::external_body]
    pub fn saturating_duration_since(&self, o: Instant) -> (r: Duration) ensures r.d@ == (if self.t@ >= o.t@ { self.t@ - o.t@ } else { 0 }) { unimplemented!() }
}
pub trait VxSort { spec fn sv(&self) -> Seq<Instant>; fn vx_sort(&mut self) ensures final(self).sv().to_multiset() == old(self).sv().to_multiset(), final(self).sv().len() == old(self).sv().len(), sorted(final(self).sv()); }
impl VxSort for Vec<Instant> { open spec fn sv(&self) -> Seq<Instant> { self@ }
    #[verifier::external_body]
    fn vx_sort(&mut self) { unimplemented!() } }
pub open spec fn sorted(s: Seq<Instant>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i].t@ <= s[j].t@ }
pub enum Request { Heartbeat, Other }
/// What the timer thread deals with, as one: the deadlines announced to it for which no wake-up was sent yet, the
/// clock as last read, and whether nobody is left to announce deadlines or to be woken.
pub struct VxTimer { pub pend: Ghost<Multiset<Instant>>, pub now: Ghost<int>, pub gone: Ghost<bool> }
impl VxTimer {
    /// time passes
    #[verifier::external_body]
    pub fn now(&mut self) -> (r: Instant) ensures r.t@ >= old(self).now@, final(self).now@ == r.t@, final(self).pend == old(self).pend, final(self).gone == old(self).gone { unimplemented!() }
    /// waiting without end: only if there is nothing to wake up for
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: Result<Instant, ()>)
        requires forall|d: Instant| old(self).pend@.count(d) == 0, //# C20
        ensures final(self).now@ >= old(self).now@, r matches Ok(x) ==> final(self).pend@ == old(self).pend@.insert(x) && final(self).gone == old(self).gone,
            r is Err ==> final(self).pend == old(self).pend && final(self).gone@
    { unimplemented!() }
    /// waiting: no longer than up to the first deadline
    #[verifier::external_body]
    pub fn recv_timeout(&mut self, t: Duration) -> (r: Result<Instant, std::sync::mpsc::RecvTimeoutError>)
        requires forall|d: Instant| old(self).pend@.count(d) > 0 ==> old(self).now@ + t.d@ <= d.t@, //# C20
        ensures final(self).now@ >= old(self).now@, r matches Ok(x) ==> final(self).pend@ == old(self).pend@.insert(x) && final(self).gone == old(self).gone,
            r matches Err(e) ==> final(self).pend == old(self).pend && (e is Disconnected ==> final(self).gone@) && (e is Timeout ==> final(self).gone == old(self).gone && final(self).now@ >= old(self).now@ + t.d@)
    { unimplemented!() }
    /// a wake-up: for a deadline that has come, the first if there are several
    #[verifier::external_body]
    pub fn send(&mut self, q: Request) -> (r: Result<(), ()>)
        requires q is Heartbeat, exists|d: Instant| first(old(self).pend@, d) && d.t@ <= old(self).now@, //# C20
        ensures final(self).now@ >= old(self).now@, exists|d: Instant| first(old(self).pend@, d) && final(self).pend@ == old(self).pend@.remove(d), r is Ok ==> final(self).gone == old(self).gone, r is Err ==> final(self).gone@
    { unimplemented!() }
}
pub open spec fn first(p: Multiset<Instant>, d: Instant) -> bool { p.count(d) > 0 && forall|e: Instant| p.count(e) > 0 ==> d.t@ <= e.t@ }
/// the deadlines in hand are those for which no wake-up was sent yet, in order
pub open spec fn inv(w: &VxTimer, s: Seq<Instant>) -> bool { w.pend@ == s.to_multiset() && sorted(s) }
pub proof fn lemma_inv(w: &VxTimer, s: Seq<Instant>)
    requires inv(w, s)
    ensures forall|d: Instant| #[trigger] w.pend@.count(d) > 0 ==> s.len() > 0 && s[0].t@ <= d.t@, s.len() > 0 ==> first(w.pend@, s[0])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|d: Instant| #[trigger] w.pend@.count(d) > 0 implies s.len() > 0 && s[0].t@ <= d.t@ by { assert(s.contains(d)); }
    if s.len() > 0 { assert(s.contains(s[0])); }
}
pub proof fn lemma_first(p: Multiset<Instant>, a: Instant, b: Instant)
    requires first(p, a), first(p, b)
    ensures a == b
{ assert(a.t@ == b.t@); }
pub proof fn lemma_remove(s: Seq<Instant>, i: int)
    requires 0 <= i < s.len()
    ensures s.remove(i).to_multiset() == s.to_multiset().remove(s[i])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.remove(i).insert(i, s[i]) =~= s);
    vstd::seq_lib::to_multiset_insert(s.remove(i), i, s[i]);
    assert(s.remove(i).to_multiset() =~= s.to_multiset().remove(s[i]));
}
//@path Instant::now => w.now
//@method recv => w.recv
//@method recv_timeout => w.recv_timeout
//@method send => w.send
//@method sort => vx_sort
//@method sort_unstable => vx_sort
//@features wrap history completion capture-stderr
//@file src/worker.rs
//@fn tty_worker props=C20 as=heartbeat_thread attr=#[verifier::exec_allows_no_decreases_clause]
//@part closure ~ded_rx.recv
//@sig (w: &mut VxTimer)
    requires old(w).pend@ == Multiset::<Instant>::empty(), !old(w).gone@,
    ensures final(w).gone@, //# C20
//@hint start
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    proof { assert(Seq::<Instant>::empty().to_multiset() =~= Multiset::empty()); }
//@loop 0
    invariant_except_break inv(w, deadlines@), !w.gone@, //# C20
    ensures w.gone@, //# C20
//@hint loop 0 start
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    proof { lemma_inv(w, deadlines@); }
//@hint call remove 0 before
    proof { lemma_remove(deadlines@, 0); lemma_inv(w, deadlines@); let d0 = deadlines@[0];
        assert forall|d: Instant| first(w.pend@, d) implies d == d0 by { lemma_first(w.pend@, d, d0); } }
//@footer
}
fn main() {}
