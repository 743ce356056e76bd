//@header
//@include ../common/sx.rs
//@include ../common/worker_sx.rs
//@include ../common/dec_sx.rs
verus! {
use sx::*;
broadcast use {sx::ax_rb_range, sx::ax_rb_rangefrom, sx::ax_rb_rangeto, dx::group_dec, tk::group_tok};
#[verifier::external_body]
pub struct Line { _x: u8 }
pub struct VxCompletor { pub x: u8 }
pub mod tk {
#[allow(unused_imports)] use super::*;
/// what starts at position i, if it is complete: how long it is, what it means
#[verifier::opaque] pub open spec fn tok(s: Seq<u8>, p: Set<int>, i: int) -> Option<(int, Seq<Sym>)> { what(s, p, i) }
pub proof fn is_what(s: Seq<u8>, p: Set<int>, i: int) ensures tok(s, p, i) == what(s, p, i) { reveal(tok); }
pub open spec fn what(s: Seq<u8>, p: Set<int>, i: int) -> Option<(int, Seq<Sym>)> {
    if !(0 <= i < s.len()) { None }
    else if plain(s[i]) { Some((1, seq![Sym::Ch(s[i] as char)])) }
    else if s[i] == 0x1b {
        if p.contains(i + 1) || (i + 1 < s.len() && !(0x20 <= s[i + 1] < 0x7f)) { Some((1, seq![Sym::Key(KeyCode::Esc)])) }
        else if i + 1 >= s.len() { None }
        else if s[i + 1] == 0x2f { if i + 2 < s.len() { Some((3, Seq::empty())) } else { None } }
        else { Some((2, Seq::empty())) }
    } else { Some((1, Seq::empty())) }
}
pub proof fn tok_ok(s: Seq<u8>, p: Set<int>, i: int)
    ensures tok(s, p, i) matches Some((n, y)) ==> 0 < n && i + n <= s.len()
{ reveal(tok); }
pub proof fn tok_plain(s: Seq<u8>, p: Set<int>, i: int)
    requires 0 <= i < s.len(), plain(s[i])
    ensures tok(s, p, i) == Some((1int, seq![Sym::Ch(s[i] as char)]))
{ reveal(tok); }
pub proof fn tok_later(s: Seq<u8>, p: Set<int>, t: Seq<u8>, q: Set<int>, i: int)
    requires later(s, p, t, q), tok(s, p, i) is Some
    ensures tok(t, q, i) == tok(s, p, i)
{ reveal(tok); assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t.subrange(0, s.len() as int)[i]); }
pub broadcast proof fn lemma_tok_end(s: Seq<u8>, p: Set<int>, i: int)
    requires i == s.len()
    ensures #[trigger] tok(s, p, i) is None
{ reveal(tok); }
pub broadcast group group_tok { lemma_tok_end }
}
pub use tk::*;
//@method send => w.send
//@method recv => w.recv
//@method recv_timeout => w.recv_timeout
//@method iter => vx_it
//@method copy_within => vx_copy_within
//@method len => vx_len
//@path String::from_utf8_lossy => vx_lossy
//@typemap Box<dyn Any + Send> => VxAny
//@typemap Box<dyn FnMut() + Send> => VxFnMut
//@typemap Box<dyn Completor> => VxCompletor
//@typemap crossterm::event::Event => Event
//@typemap std_mpsc::Sender<Request> => VxNone
//@typemap std_mpsc::Receiver<Vec<u8>> => VxNone
//@features wrap history completion capture-stderr
//@file src/lib.rs
//@type Request
//@file src/term/vt52.rs
//@fn input_thread props=C15 attr=#[verifier::rlimit(100)]
//@sig (w: &mut VxDec, input_rx: VxNone, mut req_tx: VxNone) -> (res: LifeOrDeath)
    requires old(w).rx@.len() == 0, nop(old(w).p@, 0), old(w).out@.len() == 0, !old(w).over@, !old(w).gone@,
    ensures final(w).fin(), //# C15
//@loop 0
    invariant
        !w.over@, !w.gone@, tail_is(w.rx@, buf@), //# C15
        ok(w.rx@, w.p@, w.rx@.len() - buf@.len(), w.out@), //# C15
        tok(w.rx@, w.p@, w.rx@.len() - buf@.len()) is None, nop(w.p@, w.rx@.len() - buf@.len()), //# C15
        !(buf@.len() > 0 && esc_last(w.rx@, w.p@)), //# C15
    decreases w.left@
//@hint loop 0 start
    let ghost left0 = w.left@;
//@loop 1
    invariant_except_break
        start <= buf@.len(), //# C15
    invariant
        w.left@ < left0, //# C15
        !w.over@, !w.gone@, tail_is(w.rx@, buf@), //# C15
        start <= buf@.len() ==> ok(w.rx@, w.p@, w.rx@.len() - buf@.len() + start, w.out@), //# C15
        start <= buf@.len() ==> nop(w.p@, w.rx@.len() - buf@.len() + start), //# C15
    ensures
        tok(w.rx@, w.p@, w.rx@.len() - buf@.len() + start) is None, //# C15
        start <= buf@.len(),
        !(buf@.len() > 0 && esc_last(w.rx@, w.p@)), //# C15
    decreases w.left@, buf@.len() - start
//@hint loop 1 start
    let ghost k0 = w.rx@.len() - buf@.len() + start;
    proof { assert(buf@[start as int] == w.rx@[k0]); is_what(w.rx@, w.p@, k0); }
//@hint call recv_timeout 0 after
    proof { is_what(w.rx@, w.p@, k0); }
//@hint call send 1 before
    proof {
        let k2 = w.rx@.len() - buf@.len() + text_end;
        assert forall|i: int| k0 <= i < k2 implies plain(#[trigger] w.rx@[i]) by { assert(plain(buf@[i - k0 + start])); }
        assert(text@ =~= run_of(w.rx@, k0, k2));
        lemma_run(w.rx@, w.p@, k0, w.out@, k2);
    }
//@hint loop 2 before
    #[verifier::loop_isolation(false)]
//@loop 2
    invariant
        start < text_end <= buf@.len(), forall|i: int| start <= i < text_end ==> plain(#[trigger] buf@[i]), //# C15
    decreases buf@.len() - text_end
//@footer
}
fn main() {}
