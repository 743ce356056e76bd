//@header
//@include ../common/sx.rs
//@include ../common/worker_sx.rs
//@include ../common/dec_sx.rs
verus! {
use sx::*;
broadcast use {sx::ax_rb_range, sx::ax_rb_rangefrom, sx::ax_rb_rangeto, dx::group_dec, tk::group_tok};
#[verifier::external_body]
pub struct Line { _x: u8 }
pub struct VxCompletor { pub x: u8 }
pub mod tk {
#[allow(unused_imports)] use super::*;
pub open spec fn cont(b: u8) -> bool { 0x80 <= b < 0xc0 }
/// how many bytes a lead byte calls for
pub open spec fn calls(b: u8) -> int { if b >= 0xf0 { 4 } else if b >= 0xe0 { 3 } else if b >= 0xc0 { 2 } else { 1 } }
/// where a control sequence ends: the first byte from j on that is no parameter or intermediate byte
#[verifier::opaque] pub open spec fn csi_end(s: Seq<u8>, j: int) -> int decreases s.len() - j { if j >= s.len() { j } else if s[j] < 0x20 || s[j] >= 0x40 { j } else { csi_end(s, j + 1) } }
pub open spec fn key_of(q: Seq<u8>) -> Seq<Sym> {
    if q.len() == 2 && q[0] == 0x5bu8 && q[1] == 0x41u8 { seq![Sym::Key(KeyCode::Up)] }
    else if q.len() == 2 && q[0] == 0x5bu8 && q[1] == 0x42u8 { seq![Sym::Key(KeyCode::Down)] }
    else if q.len() == 2 && q[0] == 0x5bu8 && q[1] == 0x43u8 { seq![Sym::Key(KeyCode::Right)] }
    else if q.len() == 2 && q[0] == 0x5bu8 && q[1] == 0x44u8 { seq![Sym::Key(KeyCode::Left)] }
    else if q.len() == 3 && q[0] == 0x5bu8 && q[1] == 0x33u8 && q[2] == 0x7eu8 { seq![Sym::Key(KeyCode::Delete)] }
    else if q.len() == 2 && q[0] == 0x5bu8 && q[1] == 0x48u8 { seq![Sym::Key(KeyCode::Home)] }
    else if q.len() == 2 && q[0] == 0x5bu8 && q[1] == 0x46u8 { seq![Sym::Key(KeyCode::End)] }
    else { Seq::empty() }
}
/// the first of the bytes 1..n after a lead byte that is no continuation byte
#[verifier::opaque] pub open spec fn bad(s: Seq<u8>, i: int, j: int, n: int) -> int decreases n - j { if j >= n || i + j >= s.len() { j } else if !cont(s[i + j]) { j } else { bad(s, i, j + 1, n) } }
/// the value of the lead byte and j - 1 continuation bytes
#[verifier::opaque] pub open spec fn value(s: Seq<u8>, i: int, n: int, j: int) -> int decreases j { if j <= 1 { s[i] as int % (if n == 2 { 32int } else if n == 3 { 16int } else { 8int }) } else { value(s, i, n, j - 1) * 64 + s[i + j - 1] as int % 64 } }
pub open spec fn min_of(n: int) -> int { if n == 2 { 0x80 } else if n == 3 { 0x800 } else { 0x10000 } }
pub open spec fn ch_of(b: u8, n: int, v: int) -> char { if b >= 0xf8 || v < min_of(n) || v > 0x10ffff || 0xd800 <= v <= 0xdfff { '\u{fffd}' } else { (v as u32) as char } }
/// what starts at position i, if it is complete: how long it is, what it means
#[verifier::opaque] pub open spec fn tok(s: Seq<u8>, p: Set<int>, i: int) -> Option<(int, Seq<Sym>)> { what(s, p, i) }
pub proof fn is_what(s: Seq<u8>, p: Set<int>, i: int) ensures tok(s, p, i) == what(s, p, i) { reveal(tok); }
pub open spec fn what(s: Seq<u8>, p: Set<int>, i: int) -> Option<(int, Seq<Sym>)> {
    if !(0 <= i < s.len()) { None }
    else if plain(s[i]) { Some((1, seq![Sym::Ch(s[i] as char)])) }
    else if s[i] == 0x1b {
        if p.contains(i + 1) || (i + 1 < s.len() && !(0x20 <= s[i + 1] < 0x7f)) { Some((1, seq![Sym::Key(KeyCode::Esc)])) }
        else if i + 1 >= s.len() { None }
        else if s[i + 1] == 0x5b { let e = csi_end(s, i + 2); if e < s.len() { Some((e + 1 - i, key_of(s.subrange(i + 1, e + 1)))) } else { None } }
        else { Some((2, Seq::empty())) }
    } else {
        let n = calls(s[i]);
        let j = bad(s, i, 1, n);
        if n == 1 { Some((1, seq![Sym::Ch('\u{fffd}')])) }
        else if j >= n { Some((n, seq![Sym::Ch(ch_of(s[i], n, value(s, i, n, n)))])) }
        else if i + j < s.len() { Some((j, seq![Sym::Ch('\u{fffd}')])) }
        else { None }
    }
}
pub proof fn lemma_csi(s: Seq<u8>, j: int)
    requires 0 <= j <= s.len()
    ensures j <= csi_end(s, j) <= s.len(), forall|i: int| j <= i < csi_end(s, j) ==> 0x20 <= #[trigger] s[i] < 0x40, csi_end(s, j) < s.len() ==> s[csi_end(s, j)] < 0x20 || s[csi_end(s, j)] >= 0x40
    decreases s.len() - j
{ reveal_with_fuel(csi_end, 2); if j < s.len() && !(s[j] < 0x20 || s[j] >= 0x40) { lemma_csi(s, j + 1); } }
pub proof fn lemma_csi_later(s: Seq<u8>, t: Seq<u8>, j: int)
    requires 0 <= j <= s.len() <= t.len(), t.subrange(0, s.len() as int) == s, csi_end(s, j) < s.len()
    ensures csi_end(t, j) == csi_end(s, j)
    decreases s.len() - j
{ reveal_with_fuel(csi_end, 2); assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t.subrange(0, s.len() as int)[i]); if j < s.len() && !(s[j] < 0x20 || s[j] >= 0x40) { lemma_csi_later(s, t, j + 1); } }
pub proof fn lemma_bad(s: Seq<u8>, i: int, j: int, n: int)
    requires 0 <= i, 1 <= j <= n, i + j <= s.len()
    ensures j <= bad(s, i, j, n) <= n, i + bad(s, i, j, n) <= s.len(), forall|k: int| i + j <= k < i + bad(s, i, j, n) ==> cont(#[trigger] s[k]), bad(s, i, j, n) < n && i + bad(s, i, j, n) < s.len() ==> !cont(s[i + bad(s, i, j, n)])
    decreases n - j
{ reveal_with_fuel(bad, 2); if j < n && i + j < s.len() && cont(s[i + j]) { lemma_bad(s, i, j + 1, n); } }
pub proof fn lemma_bad_later(s: Seq<u8>, t: Seq<u8>, i: int, j: int, n: int)
    requires 0 <= i, 1 <= j <= n, i + j <= s.len() <= t.len(), t.subrange(0, s.len() as int) == s, bad(s, i, j, n) >= n || i + bad(s, i, j, n) < s.len()
    ensures bad(t, i, j, n) == bad(s, i, j, n)
    decreases n - j
{ reveal_with_fuel(bad, 2); assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t.subrange(0, s.len() as int)[i]); if j < n && i + j < s.len() && cont(s[i + j]) { lemma_bad_later(s, t, i, j + 1, n); } }
pub proof fn lemma_value_later(s: Seq<u8>, t: Seq<u8>, i: int, n: int, j: int)
    requires 0 <= i, 1 <= j, i + j <= s.len() <= t.len(), t.subrange(0, s.len() as int) == s
    ensures value(t, i, n, j) == value(s, i, n, j)
    decreases j
{ reveal_with_fuel(value, 2); assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t.subrange(0, s.len() as int)[i]); if j > 1 { lemma_value_later(s, t, i, n, j - 1); } }
pub proof fn tok_ok(s: Seq<u8>, p: Set<int>, i: int)
    ensures tok(s, p, i) matches Some((n, y)) ==> 0 < n && i + n <= s.len()
{ reveal(tok); if 0 <= i < s.len() { if i + 2 <= s.len() { lemma_csi(s, i + 2); } lemma_bad(s, i, 1, calls(s[i])); } }
pub proof fn tok_plain(s: Seq<u8>, p: Set<int>, i: int)
    requires 0 <= i < s.len(), plain(s[i])
    ensures tok(s, p, i) == Some((1int, seq![Sym::Ch(s[i] as char)]))
{ reveal(tok); }
pub proof fn tok_later(s: Seq<u8>, p: Set<int>, t: Seq<u8>, q: Set<int>, i: int)
    requires later(s, p, t, q), tok(s, p, i) is Some
    ensures tok(t, q, i) == tok(s, p, i)
{ reveal(tok);
    assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t.subrange(0, s.len() as int)[i]);
    if s[i] == 0x1b {
        if i + 1 < s.len() && s[i + 1] == 0x5b { lemma_csi(s, i + 2); if csi_end(s, i + 2) < s.len() { lemma_csi_later(s, t, i + 2); assert(t.subrange(i + 1, csi_end(s, i + 2) + 1) =~= s.subrange(i + 1, csi_end(s, i + 2) + 1)); } }
    } else if s[i] >= 0x80 {
        let n = calls(s[i]);
        lemma_bad(s, i, 1, n);
        lemma_bad_later(s, t, i, 1, n);
        if bad(s, i, 1, n) >= n { lemma_value_later(s, t, i, n, n); }
    }
}
/// the bytes of a character decode to it
pub proof fn lemma_char(s: Seq<u8>, p: Set<int>, k: int, c: char)
    requires 0 <= k, k + by(seq![c]).len() <= s.len(), s.subrange(k, k + by(seq![c]).len()) == by(seq![c]), c != '\u{1b}'
    ensures tok(s, p, k) == Some((by(seq![c]).len() as int, seq![Sym::Ch(c)])) //# C14
{
    is_what(s, p, k);
    reveal_with_fuel(vstd::utf8::encode_utf8, 3);
    let v = c as u32;
    let e = by(seq![c]);
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    assert(e =~= vstd::utf8::encode_scalar(v));
    assert forall|j: int| 0 <= j < e.len() implies #[trigger] e[j] == s[k + j] by { assert(s.subrange(k, k + e.len())[j] == e[j]); }
    assert(e[0] == s[k]);
    lemma_bits(v);
    reveal_with_fuel(bad, 5); reveal_with_fuel(value, 5);
    if v >= 0x80 {
        assert(e[1] == s[k + 1]);
        if v >= 0x800 { assert(e[2] == s[k + 2]); }
        if v >= 0x10000 { assert(e[3] == s[k + 3]); }
    }
}
proof fn lemma_bits(v: u32)
    requires v <= 0x10ffff
    ensures
        v < 0x80 ==> (v & 0x7f) as u8 == v,
        0x80 <= (0x80u8 | ((v & 0x3f) as u8)) < 0xc0, (0x80u8 | ((v & 0x3f) as u8)) % 64 == v % 64,
        0x80 <= (0x80u8 | (((v >> 6) & 0x3f) as u8)) < 0xc0, (0x80u8 | (((v >> 6) & 0x3f) as u8)) % 64 == (v / 64) % 64,
        0x80 <= (0x80u8 | (((v >> 12) & 0x3f) as u8)) < 0xc0, (0x80u8 | (((v >> 12) & 0x3f) as u8)) % 64 == (v / 4096) % 64,
        v < 0x800 ==> 0xc0 <= (0xc0u8 | (((v >> 6) & 0x1f) as u8)) < 0xe0 && (0xc0u8 | (((v >> 6) & 0x1f) as u8)) % 32 == v / 64,
        v < 0x10000 ==> 0xe0 <= (0xe0u8 | (((v >> 12) & 0x0f) as u8)) < 0xf0 && (0xe0u8 | (((v >> 12) & 0x0f) as u8)) % 16 == v / 4096,
        0xf0 <= (0xf0u8 | (((v >> 18) & 0x07) as u8)) < 0xf8 && (0xf0u8 | (((v >> 18) & 0x07) as u8)) % 8 == v / 262144,
{
    assert(v < 0x80 ==> (v & 0x7f) as u8 == v) by(bit_vector);
    assert(0x80 <= (0x80u8 | ((v & 0x3f) as u8)) < 0xc0 && (0x80u8 | ((v & 0x3f) as u8)) % 64 == v % 64) by(bit_vector);
    assert(0x80 <= (0x80u8 | (((v >> 6) & 0x3f) as u8)) < 0xc0 && (0x80u8 | (((v >> 6) & 0x3f) as u8)) % 64 == (v / 64) % 64) by(bit_vector);
    assert(0x80 <= (0x80u8 | (((v >> 12) & 0x3f) as u8)) < 0xc0 && (0x80u8 | (((v >> 12) & 0x3f) as u8)) % 64 == (v / 4096) % 64) by(bit_vector);
    assert(v < 0x800 ==> 0xc0 <= (0xc0u8 | (((v >> 6) & 0x1f) as u8)) < 0xe0 && (0xc0u8 | (((v >> 6) & 0x1f) as u8)) % 32 == v / 64) by(bit_vector);
    assert(v < 0x10000 ==> 0xe0 <= (0xe0u8 | (((v >> 12) & 0x0f) as u8)) < 0xf0 && (0xe0u8 | (((v >> 12) & 0x0f) as u8)) % 16 == v / 4096) by(bit_vector);
    assert(v <= 0x10ffff ==> 0xf0 <= (0xf0u8 | (((v >> 18) & 0x07) as u8)) < 0xf8 && (0xf0u8 | (((v >> 18) & 0x07) as u8)) % 8 == v / 262144) by(bit_vector);
}
/// the bytes of a text without escapes decode to it, whatever comes after
pub proof fn lemma_text(s: Seq<u8>, p: Set<int>, k: int, t: Seq<char>)
    requires 0 <= k, k + by(t).len() <= s.len(), s.subrange(k, k + by(t).len()) == by(t), forall|i: int| 0 <= i < t.len() ==> t[i] != '\u{1b}'
    ensures dec(s, p, k) == chs(t) + dec(s, p, k + by(t).len()) //# C14
    decreases t.len()
{
    reveal_with_fuel(dec, 2);
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    if t.len() == 0 { assert(chs(t) + dec(s, p, k + by(t).len()) =~= dec(s, p, k)); } else {
        let c = t[0]; let r = t.drop_first();
        assert(seq![c].drop_first() =~= Seq::<char>::empty());
        let n = by(seq![c]).len();
        assert(by(t) =~= by(seq![c]) + by(r));
        assert(s.subrange(k, k + n) =~= by(seq![c])) by { assert(forall|i: int| 0 <= i < n ==> s.subrange(k, k + by(t).len())[i] == by(t)[i]); }
        assert(s.subrange(k + n, k + n + by(r).len()) =~= by(r)) by { assert forall|i: int| 0 <= i < by(r).len() implies #[trigger] s.subrange(k + n, k + n + by(r).len())[i] == by(r)[i] by { assert(s.subrange(k, k + by(t).len())[n + i] == by(t)[n + i]); } }
        lemma_char(s, p, k, c);
        sx::lemma_char_bytes(c);
        lemma_text(s, p, k + n, r);
        assert(chs(t) =~= seq![Sym::Ch(c)] + chs(r));
        assert((seq![Sym::Ch(c)] + chs(r)) + dec(s, p, k + by(t).len()) =~= seq![Sym::Ch(c)] + (chs(r) + dec(s, p, k + by(t).len())));
    }
}
pub broadcast proof fn lemma_shift(c: u32, x: u8)
    requires c < 0x20000
    ensures #[trigger] ((c << 6) | ((x & 0x3f) as u32)) == c * 64 + x % 64
{ assert(((c << 6) | ((x & 0x3f) as u32)) == c * 64 + (x % 64) as u32) by(bit_vector) requires c < 0x20000; }
pub broadcast proof fn lemma_mask(b: u8, n: usize)
    requires 2 <= n <= 4
    ensures #[trigger] (b & (0x7fu8 >> n)) == (if n == 2 { b % 32 } else if n == 3 { b % 16 } else { b % 8 })
{ assert((b & (0x7fu8 >> 2usize)) == b % 32) by(bit_vector); assert((b & (0x7fu8 >> 3usize)) == b % 16) by(bit_vector); assert((b & (0x7fu8 >> 4usize)) == b % 8) by(bit_vector); }
pub broadcast group group_tok { lemma_shift, lemma_mask, lemma_tok_end }
pub broadcast proof fn lemma_tok_end(s: Seq<u8>, p: Set<int>, i: int)
    requires i == s.len()
    ensures #[trigger] tok(s, p, i) is None
{ reveal(tok); }
}
pub use tk::*;
//@method send => w.send
//@method recv => w.recv
//@method recv_timeout => w.recv_timeout
//@method iter => vx_it
//@method copy_within => vx_copy_within
//@method len => vx_len
//@path parse_csi_sequence => vx_csi(+w)
//@path String::from_utf8_lossy => vx_lossy
//@path char::from_u32 => vx_from_u32
//@typemap Box<dyn Any + Send> => VxAny
//@typemap Box<dyn FnMut() + Send> => VxFnMut
//@typemap Box<dyn Completor> => VxCompletor
//@typemap crossterm::event::Event => Event
//@typemap std_mpsc::Sender<Request> => VxNone
//@typemap std_mpsc::Receiver<Vec<u8>> => VxNone
//@provides parse_csi_sequence
//@features wrap history completion capture-stderr
//@file src/lib.rs
//@type Request
//@file src/term/cross.rs
//@fn parse_csi_sequence props=C14 as=vx_csi
//@sig (w: &mut VxDec, seq: &[u8], req_tx: &mut VxNone) -> (res: LifeOrDeath)
    requires !old(w).gone@,
    ensures final(w).rx == old(w).rx, final(w).p == old(w).p, final(w).over == old(w).over, final(w).left == old(w).left,
        res is Ok ==> !final(w).gone@ && final(w).out@ == old(w).out@ + key_of(seq@), //# C14
        res is Err ==> final(w).gone@,
//@fn input_thread props=C14 attr=#[verifier::rlimit(300)]
//@sig (w: &mut VxDec, input_rx: VxNone, mut req_tx: VxNone) -> (res: LifeOrDeath)
    requires old(w).rx@.len() == 0, nop(old(w).p@, 0), old(w).out@.len() == 0, !old(w).over@, !old(w).gone@,
    ensures final(w).fin(), //# C14
//@closure 0 (&u8) -> (r: bool)
    ensures r == cont(*$0)
//@loop 0
    invariant
        !w.over@, !w.gone@, tail_is(w.rx@, buf@), //# C14
        ok(w.rx@, w.p@, w.rx@.len() - buf@.len(), w.out@), //# C14
        tok(w.rx@, w.p@, w.rx@.len() - buf@.len()) is None, nop(w.p@, w.rx@.len() - buf@.len()), //# C14
        !(buf@.len() > 0 && esc_last(w.rx@, w.p@)), //# C14
    decreases w.left@
//@hint loop 0 start
    let ghost left0 = w.left@;
//@loop 1
    invariant_except_break
        start <= buf@.len(), //# C14
    invariant
        w.left@ < left0, //# C14
        !w.over@, !w.gone@, tail_is(w.rx@, buf@), //# C14
        start <= buf@.len() ==> ok(w.rx@, w.p@, w.rx@.len() - buf@.len() + start, w.out@), //# C14
        start <= buf@.len() ==> nop(w.p@, w.rx@.len() - buf@.len() + start), //# C14
    ensures
        tok(w.rx@, w.p@, w.rx@.len() - buf@.len() + start) is None, //# C14
        start <= buf@.len(),
        !(buf@.len() > 0 && esc_last(w.rx@, w.p@)), //# C14
    decreases w.left@, buf@.len() - start
//@hint loop 1 start
    let ghost k0 = w.rx@.len() - buf@.len() + start;
    proof { assert(buf@[start as int] == w.rx@[k0]); is_what(w.rx@, w.p@, k0); }
//@hint call recv_timeout 0 after
    proof { is_what(w.rx@, w.p@, k0); }
//@hint call break 3 before
    proof {
        lemma_bad(w.rx@, k0, 1, calls(b));
        let k = w.rx@.len() - buf@.len() + start;
        assert forall|x: int| k < x < w.rx@.len() implies cont(#[trigger] w.rx@[x]) by { let y = x - k - 1; assert(cont(buf@.subrange(start + 1, buf@.len() as int)[y])); assert(buf@[start + 1 + y] == w.rx@[x]); }
    }
//@hint call send 4 before
    proof {
        let k2 = w.rx@.len() - buf@.len() + text_end;
        assert forall|i: int| k0 <= i < k2 implies plain(#[trigger] w.rx@[i]) by { assert(plain(buf@[i - k0 + start])); }
        assert(text@ =~= run_of(w.rx@, k0, k2));
        lemma_run(w.rx@, w.p@, k0, w.out@, k2);
    }
//@hint loop 2 before
    proof { lemma_csi(w.rx@, w.rx@.len() - buf@.len() + start + 2); }
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
//@loop 2
    invariant_except_break
        seq_end is None, start + 2 <= vx_it2.start <= vx_it2.end == buf@.len(), //# C14
        csi_end(w.rx@, w.rx@.len() - buf@.len() + start + 2) == csi_end(w.rx@, w.rx@.len() - buf@.len() + vx_it2.start), //# C14
    ensures
        seq_end matches Some(e) ==> start + 2 < e <= buf@.len() && w.rx@.len() - buf@.len() + e == csi_end(w.rx@, w.rx@.len() - buf@.len() + start + 2) + 1, //# C14
        seq_end is None ==> csi_end(w.rx@, w.rx@.len() - buf@.len() + start + 2) == w.rx@.len(), //# C14
    decreases vx_it2.end - vx_it2.start
//@hint loop 2 start
    proof { reveal_with_fuel(csi_end, 2); }
//@hint loop 3 before
    let ghost w0 = *w; let ghost start0 = start;
    proof {
        reveal_with_fuel(value, 2); lemma_bad(w.rx@, k0, 1, calls(b));
        assert(num_bytes_needed == calls(b));
        assert(forall|i: int| 0 <= i < buf@.len() - start - 1 ==> #[trigger] buf@.subrange(start + 1, buf@.len() as int)[i] == w.rx@[k0 + 1 + i]);
    }
    #[verifier::loop_isolation(false)]
//@loop 3
    invariant
        *w == w0, start == start0,
        1 <= vx_it3.start <= vx_it3.end == num_bytes_needed,
        bad(w.rx@, w.rx@.len() - buf@.len() + start, 1, num_bytes_needed as int) == bad(w.rx@, w.rx@.len() - buf@.len() + start, vx_it3.start as int, num_bytes_needed as int), //# C14
        code == value(w.rx@, w.rx@.len() - buf@.len() + start, num_bytes_needed as int, vx_it3.start as int), //# C14
        vx_it3.start == 1 ==> code < 0x20, vx_it3.start == 2 ==> code < 0x800, vx_it3.start == 3 ==> code < 0x20000,
    decreases vx_it3.end - vx_it3.start
//@hint loop 3 start
    proof { reveal_with_fuel(bad, 2); reveal_with_fuel(value, 2); }
//@hint loop 4 before
    #[verifier::loop_isolation(false)]
//@loop 4
    invariant
        start < text_end <= buf@.len(), forall|i: int| start <= i < text_end ==> plain(#[trigger] buf@[i]), //# C14
    decreases buf@.len() - text_end
//@footer
}
fn main() {}
