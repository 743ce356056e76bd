//@header
//@include ../common/sx.rs
//@include ../common/worker_sx.rs
verus! {
use sx::*;
broadcast use {sx::ax_rb_range, sx::ax_rb_rangefrom, sx::ax_rb_rangeto};
#[verifier::external_body]
pub struct Line { _x: u8 }
pub struct VxCompletor { pub x: u8 }
#[allow(non_camel_case_types)]
pub type c_int = i32;
/// what String::from_utf8_lossy makes of bytes
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub struct VxLossy { pub s: String }
#[verifier::external_body]
pub fn vx_lossy(b: &[u8]) -> (r: VxLossy) ensures r.s@ == lossy(b@) { unimplemented!() }
impl VxLossy { #[verifier::external_body] pub fn to_string(self) -> (r: String) ensures r@ == self.s@ { unimplemented!() } #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self.s@ { unimplemented!() } }
// -- the lines of a stream --
#[verifier::opaque] pub open spec fn rest(g: Seq<u8>) -> Seq<u8> decreases g.len() { if g.len() == 0 || g.last() == 10 { Seq::empty() } else { rest(g.drop_last()).push(g.last()) } }
#[verifier::opaque] pub open spec fn lines(g: Seq<u8>) -> Seq<Seq<char>> decreases g.len() {
    if g.len() == 0 { Seq::empty() } else { let p = lines(g.drop_last()); if g.last() == 10 { p.push(lossy(rest(g.drop_last()))) } else { p } }
}
/// the unterminated rest, as a line if there is one
pub open spec fn tail(g: Seq<u8>) -> Seq<Seq<char>> { if rest(g).len() > 0 { seq![lossy(rest(g))] } else { Seq::empty() } }
pub open spec fn nonl(x: Seq<u8>) -> bool { forall|i: int| 0 <= i < x.len() ==> x[i] != 10 }
pub proof fn lemma_nonl(g: Seq<u8>, x: Seq<u8>)
    requires nonl(x)
    ensures lines(g + x) == lines(g), rest(g + x) == rest(g) + x
    decreases x.len()
{ reveal(rest); reveal(lines);
    if x.len() == 0 { assert(g + x =~= g); assert(rest(g) + x =~= rest(g)); } else {
        lemma_nonl(g, x.drop_last());
        assert((g + x).drop_last() =~= g + x.drop_last());
        assert((g + x).last() == x.last());
        assert((rest(g) + x.drop_last()).push(x.last()) =~= rest(g) + x);
    }
}
pub proof fn lemma_nl(g: Seq<u8>)
    ensures lines(g.push(10)) == lines(g).push(lossy(rest(g))), rest(g.push(10)).len() == 0
{ reveal(rest); reveal(lines); assert(g.push(10).drop_last() =~= g); }
pub proof fn lemma_rest(g: Seq<u8>)
    ensures rest(g).len() <= g.len(), nonl(rest(g)), g.subrange(0, g.len() - rest(g).len()) + rest(g) == g, lines(g.subrange(0, g.len() - rest(g).len())) == lines(g), rest(g.subrange(0, g.len() - rest(g).len())).len() == 0
    decreases g.len()
{ reveal(rest); reveal(lines);
    broadcast use vstd::seq_lib::group_seq_properties;
    if g.len() == 0 || g.last() == 10 { assert(g.subrange(0, g.len() as int) + rest(g) =~= g); assert(g.subrange(0, g.len() as int) =~= g); }
    else {
        let h = g.drop_last();
        lemma_rest(h);
        assert(g.subrange(0, g.len() - rest(g).len()) =~= h.subrange(0, h.len() - rest(h).len()));
        assert(g.subrange(0, g.len() - rest(g).len()) + rest(g) =~= g);
    }
}
pub open spec fn upto_n(g: Seq<u8>, n: int) -> Seq<u8> { g.subrange(0, n) }
pub open spec fn start_of(l: Option<usize>) -> int { match l { Some(p) => p + 1, None => 0 } }
/// when a line is refused after the first n bytes' complete lines have been passed on
pub proof fn lemma_refused(g: Seq<u8>, n: int)
    requires 0 <= n <= g.len()
    ensures ({ let h = upto_n(g, n); let k = n - rest(h).len(); 0 <= k <= n && lines(g.subrange(0, k)) == lines(h) && rest(g.subrange(0, k)).len() == 0 && g.subrange(k, g.len() as int) == rest(h) + g.subrange(n, g.len() as int) })
{ reveal(rest); reveal(lines);
    let h = upto_n(g, n);
    lemma_rest(h);
    let k = n - rest(h).len();
    assert(g.subrange(0, k) =~= h.subrange(0, k));
    assert(g.subrange(k, g.len() as int) =~= rest(h) + g.subrange(n, g.len() as int)) by { assert(h.subrange(0, k) + rest(h) == h); assert forall|i: int| 0 <= i < rest(h).len() implies g[k + i] == rest(h)[i] by { assert((h.subrange(0, k) + rest(h))[k + i] == h[k + i]); } };
}
/// the next complete line
pub proof fn lemma_line(g: Seq<u8>, n: int, p: int)
    requires 0 <= n <= p < g.len(), nonl(g.subrange(n, p)), g[p] == 10
    ensures lines(upto_n(g, p + 1)) == lines(upto_n(g, n)).push(lossy(rest(upto_n(g, n)) + g.subrange(n, p))), rest(upto_n(g, p + 1)).len() == 0
{ reveal(rest); reveal(lines);
    lemma_nonl(upto_n(g, n), g.subrange(n, p));
    lemma_nl(upto_n(g, n) + g.subrange(n, p));
    assert(upto_n(g, p + 1) =~= (upto_n(g, n) + g.subrange(n, p)).push(10));
}
// -- what the capturing thread deals with, as one --
/// `got`: what was read from the pipe while capturing; `sent`: the lines passed on; `real`: what was written to the
/// real stderr because nobody took lines any more; `over`: the stream has ended or failed; `gone`: a line was
/// refused; `got2`/`back`: what was read afterwards, and what was written to stderr once it was back in place
pub struct VxCap { pub got: Ghost<Seq<u8>>, pub sent: Ghost<Seq<Seq<char>>>, pub real: Ghost<Seq<u8>>, pub over: Ghost<bool>, pub failed: Ghost<bool>, pub gone: Ghost<bool>,
    pub restored: Ghost<bool>, pub got2: Ghost<Seq<u8>>, pub back: Ghost<Seq<u8>>,
    /// the descriptors that are open, besides 0, 1 and 2
    pub open: Ghost<Set<int>> }
impl VxCap {
    /// every line complete so far has been passed on, and nothing else
    pub open spec fn upto(&self) -> bool { !self.over@ && !self.gone@ && self.sent@ == lines(self.got@) && self.real@.len() == 0 && !self.restored@ && self.got2@.len() == 0 && self.back@.len() == 0 }
    /// everything has been passed on: all as lines, the rest last (and a note of a read error); or, since nobody took
    /// lines any more, lines first and the remaining bytes to the real stderr
    pub open spec fn all(&self) -> bool {
        ||| self.over@ && self.real@.len() == 0 && self.sent@ =~= lines(self.got@) + tail(self.got@)
        ||| self.failed@ && self.real@.len() == 0 && self.sent@.len() > 0 && self.sent@.drop_last() =~= lines(self.got@) + tail(self.got@)
        ||| self.gone@ && exists|k: int| 0 <= k <= self.got@.len() && self.sent@ =~= #[trigger] lines(self.got@.subrange(0, k)) && rest(self.got@.subrange(0, k)).len() == 0 && self.real@ =~= self.got@.subrange(k, self.got@.len() as int)
    }
    pub open spec fn same_but_out(&self, o: &Self) -> bool { self.open == o.open && self.got == o.got && self.over == o.over && self.failed == o.failed && self.restored == o.restored && self.got2 == o.got2 && self.back == o.back }
    #[verifier::external_body]
    pub fn read(&mut self, fd: c_int, b: &mut [u8]) -> (r: Result<usize, c_int>)
        requires old(self).open@.contains(fd as int), old(b)@.len() > 0, old(self).upto() || (old(self).all() && old(self).restored@ && old(self).back@ == old(self).got2@), //# C23
        ensures final(self).open == old(self).open, final(b)@.len() == old(b)@.len(), final(self).sent == old(self).sent, final(self).real == old(self).real, final(self).gone == old(self).gone, final(self).back == old(self).back, final(self).restored == old(self).restored,
            r matches Ok(n) ==> n <= final(b)@.len() && (forall|i: int| n <= i < final(b)@.len() ==> final(b)@[i] == old(b)@[i]) && final(self).failed == old(self).failed
                && (if old(self).restored@ { final(self).got == old(self).got && final(self).got2@ == old(self).got2@ + final(b)@.subrange(0, n as int) && final(self).over == old(self).over }
                    else { final(self).got2 == old(self).got2 && final(self).got@ == old(self).got@ + final(b)@.subrange(0, n as int) && final(self).over@ == (n == 0) }),
            r is Err ==> final(self).got == old(self).got && final(self).got2 == old(self).got2 && (if old(self).restored@ { final(self).over == old(self).over && final(self).failed == old(self).failed } else { final(self).over@ && final(self).failed@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&mut self, q: Request) -> (r: Result<(), DummyError>)
        requires q is StderrLine, !old(self).gone@ || old(self).failed@, //# C23
        ensures final(self).same_but_out(old(self)), final(self).real == old(self).real, final(self).gone@ == (old(self).gone@ || r is Err), old(self).gone@ ==> r is Err,
            r is Ok ==> final(self).sent@ == old(self).sent@.push(q->StderrLine_0@), r is Err ==> final(self).sent == old(self).sent
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, fd: c_int, b: &[u8]) -> (r: Result<(), c_int>)
        requires old(self).restored@ || old(self).gone@, //# C23
            fd == 2 || old(self).open@.contains(fd as int), //# C23
        ensures final(self).open == old(self).open, final(self).got == old(self).got, final(self).over == old(self).over, final(self).failed == old(self).failed, final(self).restored == old(self).restored, final(self).got2 == old(self).got2, final(self).sent == old(self).sent, final(self).gone == old(self).gone,
            (if old(self).restored@ && fd == 2 { final(self).back@ == old(self).back@ + b@ && final(self).real == old(self).real } else { final(self).real@ == old(self).real@ + b@ && final(self).back == old(self).back })
    { unimplemented!() }
    /// stderr is put back in place (which is taken to work)
    #[verifier::external_body]
    pub fn dup2(&mut self, a: c_int, b: c_int) -> (r: Result<(), c_int>)
        requires old(self).all(), old(self).open@.contains(a as int), //# C23
        ensures r is Ok, final(self).open == old(self).open, final(self).got == old(self).got, final(self).over == old(self).over, final(self).failed == old(self).failed, final(self).got2 == old(self).got2, final(self).sent == old(self).sent, final(self).gone == old(self).gone, final(self).real == old(self).real, final(self).back == old(self).back,
            final(self).restored@ == (b == 2)
    { unimplemented!() }
    /// (standard error itself is put back in place by dup2 alone)
    #[verifier::external_body]
    pub fn close(&mut self, fd: c_int)
        requires old(self).open@.contains(fd as int), //# C23
        ensures final(self).open@ == old(self).open@.remove(fd as int), final(self).sent == old(self).sent, final(self).real == old(self).real, final(self).gone == old(self).gone,
            final(self).got == old(self).got, final(self).over == old(self).over, final(self).failed == old(self).failed, final(self).restored == old(self).restored, final(self).got2 == old(self).got2, final(self).back == old(self).back
    { unimplemented!() }
}
pub trait VxMut { spec fn vm(&self) -> Seq<u8>;
    fn vx_from_mut(&mut self, a: usize) -> (r: &mut [u8]) requires a <= old(self).vm().len()
        ensures r@ == old(self).vm().subrange(a as int, old(self).vm().len() as int), final(self).vm() == old(self).vm().subrange(0, a as int) + final(r)@;
    fn vx_from(&self, a: usize) -> (r: &[u8]) requires a <= self.vm().len() ensures r@ == self.vm().subrange(a as int, self.vm().len() as int);
    fn vx_to(&self, b: usize) -> (r: &[u8]) requires b <= self.vm().len() ensures r@ == self.vm().subrange(0, b as int);
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.vm().len() ensures r@ == self.vm().subrange(a as int, b as int);
    fn vx_copy_within<R: std::ops::RangeBounds<usize>>(&mut self, r: R, d: usize)
        requires ({ let n = old(self).vm().len() as int; let l = rb_lo(&r, n); let h = rb_hi(&r, n); 0 <= l <= h <= n && d + (h - l) <= n })
        ensures ({ let n = old(self).vm().len() as int; let l = rb_lo(&r, n); let h = rb_hi(&r, n); final(self).vm() == old(self).vm().subrange(0, d as int) + old(self).vm().subrange(l, h) + old(self).vm().subrange(d + (h - l), n) });
}
impl VxMut for Vec<u8> { open spec fn vm(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_from_mut(&mut self, a: usize) -> (r: &mut [u8]) { &mut self[a..] }
    #[verifier::external_body]
    fn vx_from(&self, a: usize) -> (r: &[u8]) { &self[a..] }
    #[verifier::external_body]
    fn vx_to(&self, b: usize) -> (r: &[u8]) { &self[..b] }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
    #[verifier::external_body]
    fn vx_copy_within<R: std::ops::RangeBounds<usize>>(&mut self, r: R, d: usize) { self.copy_within(r, d) }
}
pub trait VxPos<'a> { spec fn ps(&self) -> Seq<u8>; spec fn pl(&self) -> int; spec fn ph(&self) -> int; spec fn pw(&self) -> bool;
    fn position<F: Fn(&'a u8) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires old(self).pw(), forall|i: int| old(self).pl() <= i < old(self).ph() ==> call_requires(f, (&#[trigger] old(self).ps()[i],))
        ensures final(self).ps() == old(self).ps(), r matches Some(i) ==> old(self).pl() + i < old(self).ph() && call_ensures(f, (&old(self).ps()[old(self).pl() + i],), true) && (forall|j: int| old(self).pl() <= j < old(self).pl() + i ==> call_ensures(f, (&#[trigger] old(self).ps()[j],), false)),
            r is None ==> forall|j: int| old(self).pl() <= j < old(self).ph() ==> call_ensures(f, (&#[trigger] old(self).ps()[j],), false);
}
impl<'a> VxPos<'a> for VxIt<'a, u8> {
    open spec fn ps(&self) -> Seq<u8> { self.s@ }
    open spec fn pl(&self) -> int { self.lo as int }
    open spec fn ph(&self) -> int { self.hi as int }
    open spec fn pw(&self) -> bool { self.wf() }
    #[verifier::external_body]
    fn position<F: Fn(&'a u8) -> bool>(&mut self, f: F) -> (r: Option<usize>) { unimplemented!() }
}
//@provides read write_all dup2 close
//@method iter => vx_it
//@method len => vx_len
//@method copy_within => vx_copy_within
//@method send => w.send
//@path read => w.read
//@path write_all => w.write_all
//@path dup2 => w.dup2
//@path close => w.close
//@path String::from_utf8_lossy => vx_lossy
//@typemap Box<dyn Any + Send> => VxAny
//@typemap Box<dyn FnMut() + Send> => VxFnMut
//@typemap Box<dyn Completor> => VxCompletor
//@typemap crossterm::event::Event => Event
//@features wrap history completion capture-stderr
//@file src/lib.rs
//@type Response
//@type Request
//@file src/stderr_capture.rs
//@fn attempt_stderr_capture props=C23 as=stderr_capture_thread attr=#[verifier::exec_allows_no_decreases_clause] attr=#[verifier::rlimit(100)]
//@part closure ~read(r
//@sig (w: &mut VxCap, r: c_int, real_stderr: c_int)
    requires old(w).upto(), old(w).got@.len() == 0, real_stderr > 2, r > 2, r != real_stderr, old(w).open@.contains(r as int), old(w).open@.contains(real_stderr as int),
    ensures final(w).all(), final(w).restored@, final(w).back@ == final(w).got2@, //# C23
        final(w).open@ =~= old(w).open@.remove(r as int), //# C23
//@hint start
    proof { reveal(rest); reveal(lines); assert(lines(w.got@) =~= seq![]); assert(rest(w.got@) =~= seq![]); }
    broadcast use {sx::ax_rb_range, sx::ax_rb_rangefrom, sx::ax_rb_rangeto};
//@loop 0
    invariant_except_break
        w.upto(), buf_pos <= buf@.len(), buf@.subrange(0, buf_pos as int) == rest(w.got@), //# C23
    invariant buf@.len() > 0, w.open == old(w).open, w.open@.contains(r as int), w.open@.contains(real_stderr as int), real_stderr > 2
    ensures w.all(), !w.restored@, w.got2@.len() == 0, w.back@.len() == 0, buf_pos == 0, buf@.len() > 0, //# C23
//@hint loop 0 start
    broadcast use {sx::ax_rb_range, sx::ax_rb_rangefrom, sx::ax_rb_rangeto};
    let ghost g0 = w.got@; let ghost p0 = buf_pos as int;
    proof { lemma_rest(g0); }
//@hint arm Ok(0)
    proof { assert(w.got@ =~= g0); assert(upto_n(g0, g0.len() as int) =~= g0); assert(buf@.subrange(0, buf_pos as int) =~= rest(g0)); lemma_refused(w.got@, g0.len() as int); }
//@hint arm Err(x)
    proof { assert(upto_n(g0, g0.len() as int) =~= g0); assert(buf@.subrange(0, buf_pos as int) =~= rest(g0)); lemma_refused(w.got@, g0.len() as int); }
//@hint loop 1 before
    proof { assert(buf@.subrange(0, buf_pos as int) =~= rest(g0)); assert(upto_n(w.got@, g0.len() as int) =~= g0); }
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
//@loop 1
    invariant
        w.open == old(w).open,
        !w.over@, !w.gone@, !w.restored@, w.real@.len() == 0, w.got2@.len() == 0, w.back@.len() == 0,
        start_of(last_newline_pos) <= buf_pos <= end_pos <= buf@.len(), end_pos - buf_pos <= w.got@.len(),
        w.got@.subrange(w.got@.len() - (end_pos - buf_pos), w.got@.len() as int) == buf@.subrange(buf_pos as int, end_pos as int),
        rest(upto_n(w.got@, w.got@.len() - (end_pos - buf_pos))) == buf@.subrange(start_of(last_newline_pos), buf_pos as int),
        w.sent@ == lines(upto_n(w.got@, w.got@.len() - (end_pos - buf_pos))), //# C23
    ensures nonl(buf@.subrange(buf_pos as int, end_pos as int))
//@hint loop 1 start
    broadcast use {sx::ax_rb_range, sx::ax_rb_rangefrom, sx::ax_rb_rangeto};
    let ghost n = w.got@.len() - (end_pos - buf_pos);
    let ghost q = n + (p - buf_pos);
    proof {
        assert(buf_pos <= p < end_pos);
        assert forall|i: int| n <= i < w.got@.len() implies w.got@[i] == buf@[buf_pos + (i - n)] by { assert(w.got@.subrange(n, w.got@.len() as int)[i - n] == buf@.subrange(buf_pos as int, end_pos as int)[i - n]); };
        assert(buf@[p as int] == 10);
        assert forall|i: int| n <= i < q implies w.got@[i] != 10 by { assert(buf@.subrange(buf_pos as int, end_pos as int)[i - n] != 10); };
        lemma_line(w.got@, n, q);
        lemma_refused(w.got@, n);
        assert(w.got@.subrange(n, q) =~= buf@.subrange(buf_pos as int, p as int));
        assert(buf@.subrange(start_of(last_newline_pos), buf_pos as int) + buf@.subrange(buf_pos as int, p as int) =~= buf@.subrange(start_of(last_newline_pos), p as int));
        assert(buf@.subrange(start_of(last_newline_pos), buf_pos as int) + buf@.subrange(buf_pos as int, end_pos as int) =~= buf@.subrange(start_of(last_newline_pos), end_pos as int));
        assert(w.got@.subrange(q + 1, w.got@.len() as int) =~= buf@.subrange(p + 1, end_pos as int));
    }
//@hint loop 1 after
    proof { 
        let n = w.got@.len() - (end_pos - buf_pos);
        lemma_nonl(upto_n(w.got@, n), buf@.subrange(buf_pos as int, end_pos as int));
        assert(w.got@ =~= upto_n(w.got@, n) + w.got@.subrange(n, w.got@.len() as int));
        assert(buf@.subrange(start_of(last_newline_pos), buf_pos as int) + buf@.subrange(buf_pos as int, end_pos as int) =~= buf@.subrange(start_of(last_newline_pos), end_pos as int));
    }
//@closure 0 (&u8) -> (r: bool)
    ensures r == (*$0 == 10)
//@closure 1 (usize) -> (r: usize)
    requires $0 + buf_pos <= usize::MAX
    ensures r == $0 + buf_pos
//@closure 2 (usize) -> (r: usize)
    requires $0 < usize::MAX
    ensures r == $0 + 1
//@hint loop 2 before
    let ghost o2 = w.open@;
    #[verifier::loop_isolation(false)]
//@loop 2
    invariant w.open@ == o2, buf@.len() > 0, w.all(), w.restored@, w.back@ == w.got2@, //# C23
//@footer
}
fn main() {}
