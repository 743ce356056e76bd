//@header
//@include ../common/sx.rs
//@include ../common/line_sx.rs
verus! {
use std::ops::Range;
// ---- text replaced by a newline
/// where the place `p` is after the bytes from `a` to `b` have been replaced by one byte
pub open spec fn sh(p: int, a: int, b: int) -> int { if p >= b { p + 1 - (b - a) } else if p > a { a } else { p } }
pub open spec fn mapped(e: LineElement, a: int, b: int) -> LineElement { LineElement { start: sh(e.start as int, a, b) as usize, end: sh(e.end as int, a, b) as usize, ..e } }
/// the elements from `i` on, moved; without those nothing is left of
pub open spec fn squeeze(e: Seq<LineElement>, i: int, a: int, b: int) -> Seq<LineElement>
    decreases e.len() - i
{
    if i < 0 || i >= e.len() { Seq::empty() }
    else { let m = mapped(e[i], a, b); let r = squeeze(e, i + 1, a, b); if m.start >= m.end && i < e.len() - 1 { r } else { seq![m] + r } }
}
/// `s` with what is between `a` and `b` replaced by `x`
pub open spec fn put<T>(s: Seq<T>, a: int, b: int, x: T) -> Seq<T> { s.take(a).push(x) + s.skip(b) }
pub proof fn lemma_put_bnd(c: Seq<u8>, a: int, b: int, p: int)
    requires 0 <= a <= b <= c.len(), bnd(c, p), c.len() <= isize::MAX
    ensures bnd(put(c, a, b, 10u8), sh(p, a, b)), 0 <= sh(p, a, b) <= usize::MAX
{
    let d = put(c, a, b, 10u8); let q = sh(p, a, b);
    assert(d.len() == c.len() + 1 - (b - a));
    assert(!is_continuation_byte(10u8)) by(compute);
    if p >= b { if p < c.len() { assert(d[q] == c[p]); } } else if p >= a { assert(d[a] == 10u8); } else { assert(d[p] == c[p]); }
}
/// elements that adjoin are in order
pub proof fn lemma_adjoin(e: Seq<LineElement>, i: int, j: int)
    requires 0 <= i < j < e.len(), forall|m: int| 0 <= m < e.len() ==> (#[trigger] e[m]).start <= e[m].end,
        forall|m: int, k: int| 0 <= m && k == m + 1 && k < e.len() ==> (#[trigger] e[m]).start < e[m].end && e[m].end == (#[trigger] e[k]).start,
    ensures e[i].start < e[i].end <= e[j].start
    decreases j - i
{ if j > i + 1 { lemma_adjoin(e, i, j - 1); assert(e[j - 1].end == e[j].start); } else { assert(e[i].end == e[j].start); } }
/// the elements from `i` on, moved, adjoin too
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
pub proof fn lemma_squeeze(e: Seq<LineElement>, c: Seq<u8>, i: int, a: int, b: int)
    requires covers(e, c), 0 <= i < e.len(), 0 <= a <= b <= c.len(), c.len() <= isize::MAX
    ensures
        ({ let r = squeeze(e, i, a, b); let d = put(c, a, b, 10u8);
           &&& r.len() > 0 && r.last().at() == e.last().at() && r.last().end == d.len() && r[0].start == sh(e[i].start as int, a, b)
           &&& forall|m: int| 0 <= m < r.len() ==> (#[trigger] r[m]).start <= r[m].end <= d.len() && bnd(d, r[m].start as int) && bnd(d, r[m].end as int)
           &&& forall|m: int, k: int| 0 <= m && k == m + 1 && k < r.len() ==> (#[trigger] r[m]).start < r[m].end && r[m].end == (#[trigger] r[k]).start
           &&& forall|j: int| i <= j < e.len() && sh(e[j].start as int, a, b) < sh(e[j].end as int, a, b) ==> exists|k: int| 0 <= k < r.len() && r[k] == mapped(#[trigger] e[j], a, b) }),
    decreases e.len() - i
{
    reveal(covers);
    let r = squeeze(e, i, a, b); let d = put(c, a, b, 10u8); let m = mapped(e[i], a, b); let r1 = squeeze(e, i + 1, a, b);
    assert(e[i].start <= e[i].end <= c.len() && bnd(c, e[i].start as int) && bnd(c, e[i].end as int));
    lemma_put_bnd(c, a, b, e[i].start as int); lemma_put_bnd(c, a, b, e[i].end as int);
    if i < e.len() - 1 {
        lemma_squeeze(e, c, i + 1, a, b);
        assert(e[i].end == e[i + 1].start);
        if m.start < m.end {
            assert(r == seq![m] + r1);
            assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]).start <= r[j].end <= d.len() && bnd(d, r[j].start as int) && bnd(d, r[j].end as int) by { if j > 0 { assert(r[j] == r1[j - 1]); } }
            assert forall|j: int, k: int| 0 <= j && k == j + 1 && k < r.len() implies (#[trigger] r[j]).start < r[j].end && r[j].end == (#[trigger] r[k]).start by { assert(r[k] == r1[k - 1]); if j > 0 { assert(r[j] == r1[j - 1]); } }
        }
        assert forall|j: int| i <= j < e.len() && sh(e[j].start as int, a, b) < sh(e[j].end as int, a, b) implies exists|k: int| 0 <= k < r.len() && r[k] == mapped(#[trigger] e[j], a, b) by {
            if j > i { let k = choose|k: int| 0 <= k < r1.len() && r1[k] == mapped(e[j], a, b); if m.start < m.end { assert(r[k + 1] == r1[k]); } else { assert(r[k] == r1[k]); } }
            else { assert(r[0] == m); }
        }
        assert(r.last() == r1.last());
    } else { assert(r1.len() == 0); assert(r =~= seq![m]); }
}
/// what is before the place stays as it is
pub proof fn lemma_front(e: Seq<LineElement>, c: Seq<u8>, j: int, i: int, a: int, b: int)
    requires covers(e, c), 0 <= j <= i < e.len(), e[i].start < a <= b
    ensures squeeze(e, j, a, b) == e.subrange(j, i) + squeeze(e, i, a, b)
    decreases i - j
{
    reveal(covers);
    if j < i {
        lemma_front(e, c, j + 1, i, a, b);
        assert(e[j].start < e[j].end <= e[i].start);
        assert(mapped(e[j], a, b) == e[j]);
        assert(e.subrange(j, i) =~= seq![e[j]] + e.subrange(j + 1, i));
        assert(squeeze(e, j, a, b) =~= e.subrange(j, i) + squeeze(e, i, a, b));
    } else { assert(e.subrange(j, i) =~= Seq::empty()); assert(squeeze(e, j, a, b) =~= e.subrange(j, i) + squeeze(e, i, a, b)); }
}
/// the line `l` with what is between `a` and `b` replaced by a newline
pub open spec fn broken(l: Line, m: Line, a: int, b: int) -> bool {
    &&& m.inv() && m.active() == l.active()
    &&& by(m.text@) == put(by(l.text@), a, b, 10u8)
    &&& m.sb().len() == l.sb().len() + 1 - (b - a) && m.sb().take(a) == l.sb().take(a) && m.sb()[a].0 == 10u8 && m.sb().skip(a + 1) == l.sb().skip(b)
}
pub proof fn lemma_newline() ensures by(seq!['\n']) == seq![10u8], by("\n"@) == seq![10u8]
{ reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); reveal_with_fuel(encode_utf8, 3); assert(seq!['\n'].drop_first() =~= Seq::<char>::empty()); assert('\n' as u32 == 10); assert(encode_scalar(10u32) =~= seq![10u8]) by(compute); assert(by(seq!['\n']) =~= seq![10u8]); }
pub open spec fn edited(l: Line, m: Line, a: int, b: int) -> bool {
    l.inv() && 0 <= a <= b <= by(l.text@).len() && b > 0 && bnd(by(l.text@), a) && bnd(by(l.text@), b) && by(l.text@).len() <= isize::MAX
    && m.elements@ == squeeze(l.elements@, 0, a, b) && by(m.text@) == put(by(l.text@), a, b, 10u8)
}
pub proof fn lemma_edited_wf(l: Line, m: Line, a: int, b: int)
    requires edited(l, m, a, b)
    ensures m.wf(), m.active() == l.active()
{
    let e = l.elements@; let c = by(l.text@); let r = m.elements@;
    lemma_line_ends(l); lemma_squeeze(e, c, 0, a, b);
    assert(m.wf()) by { reveal(covers);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).start < r[i].end <= (#[trigger] r[j]).start by { lemma_adjoin(r, i, j); } }
}
#[verifier::spinoff_prover]
pub proof fn lemma_edited_clean(l: Line, m: Line, a: int, b: int)
    requires edited(l, m, a, b)
    ensures clean(m.text@)
{
    hide(Line::wf); hide(squeeze);
    let c = by(l.text@); let s = l.text@; let p = cidx(s, a); let q = cidx(s, b); let n = s.len() as int;
    lemma_bnd_idx(s, a); lemma_bnd_idx(s, b); if q < p { lemma_take_cut(s, q, p); } lemma_take_cut(s, 0, p); lemma_take_cut(s, q, n);
    let x = s.subrange(0, p); let y = s.subrange(q, n); let t = x + seq!['\n'] + y;
    lemma_newline(); encode_utf8_concat(x, seq!['\n']); encode_utf8_concat(x + seq!['\n'], y);
    assert(by(t) =~= put(c, a, b, 10u8)) by { assert(by(x) =~= c.take(a)); assert(by(y) =~= c.skip(b)); assert(c.take(a) + seq![10u8] =~= c.take(a).push(10u8)); }
    lemma_by_inj(t, m.text@);
    assert(!bad('\n'));
    assert forall|k: int| 0 <= k < t.len() implies !bad(#[trigger] t[k]) by { if k < p { assert(t[k] == s[k]); assert(!bad(s[k])); } else if k > p { assert(t[k] == s[q + k - p - 1]); assert(!bad(s[q + k - p - 1])); } }
}
pub proof fn lemma_edited_at(l: Line, m: Line, a: int, b: int, i: int)
    requires edited(l, m, a, b), m.wf(), 0 <= i < by(l.text@).len(), i < a || i >= b
    ensures m.sb()[sh(i, a, b)] == l.sb()[i]
{
    let e = l.elements@; let c = by(l.text@); let r = m.elements@;
    lemma_line_ends(l); lemma_squeeze(e, c, 0, a, b);
    let j = lemma_which(l, i);
    lemma_sb_at(l, j, i);
    let k = choose|k: int| 0 <= k < r.len() && r[k] == mapped(e[j], a, b);
    lemma_put_bnd(c, a, b, e[j].start as int); lemma_put_bnd(c, a, b, e[j].end as int);
    lemma_sb_at(m, k, sh(i, a, b));
    reveal(Line::sb);
}
#[verifier::spinoff_prover]
pub proof fn lemma_broken(l: Line, m: Line, a: int, b: int)
    requires edited(l, m, a, b)
    ensures broken(l, m, a, b)
{
    lemma_edited_wf(l, m, a, b); lemma_edited_clean(l, m, a, b);
    let c = by(l.text@); let d = by(m.text@);
    assert(m.sb().len() == d.len() && l.sb().len() == c.len() && m.sb()[a].0 == d[a]) by { reveal(Line::sb); }
    assert(d.len() == c.len() + 1 - (b - a) && d[a] == 10u8);
    assert(m.sb().take(a) =~= l.sb().take(a)) by { assert forall|i: int| 0 <= i < a implies m.sb()[i] == l.sb()[i] by { lemma_edited_at(l, m, a, b, i); } }
    assert(m.sb().skip(a + 1) =~= l.sb().skip(b)) by { assert forall|i: int| 0 <= i < c.len() - b implies m.sb().skip(a + 1)[i] == l.sb().skip(b)[i] by { lemma_edited_at(l, m, a, b, i + b); } }
}
/// the element that covers a byte
pub proof fn lemma_which(l: Line, i: int) -> (j: int)
    requires l.wf(), 0 <= i < by(l.text@).len()
    ensures 0 <= j < l.elements@.len(), l.elements@[j].start <= i < l.elements@[j].end, bnd(by(l.text@), l.elements@[j].start as int), bnd(by(l.text@), l.elements@[j].end as int)
{ reveal(covers); let j = lemma_which_from(l, 0, i); assert(l.elements@[j].start <= l.elements@[j].end); j }
pub proof fn lemma_which_from(l: Line, k: int, i: int) -> (j: int)
    requires l.wf(), 0 <= i < by(l.text@).len(), 0 <= k <= l.elements@.len(), k > 0 ==> l.elements@[k - 1].end <= i
    ensures 0 <= j < l.elements@.len(), l.elements@[j].start <= i < l.elements@[j].end
    decreases l.elements@.len() - k
{ lemma_cover_next(l, k, i); if i < l.elements@[k].end { k } else { lemma_which_from(l, k + 1, i) } }
// ---- runs of spaces that became newlines
/// `n` is `o` with runs of spaces replaced by one newline each, and newlines inserted
pub open spec fn spaces(o: Seq<(u8, Attr)>, k: int) -> bool { 0 <= k <= o.len() && forall|i: int| k <= i < o.len() ==> (#[trigger] o[i]).0 == 0x20u8 }
pub open spec fn wrapped(o: Seq<(u8, Attr)>, n: Seq<(u8, Attr)>) -> bool
    decreases n.len()
{
    if n.len() == 0 { o.len() == 0 }
    else {
        (o.len() > 0 && o.last() == n.last() && wrapped(o.drop_last(), n.drop_last()))
        || (n.last().0 == 10u8 && exists|k: int| #[trigger] spaces(o, k) && wrapped(o.take(k), n.drop_last()))
    }
}
pub proof fn lemma_wrapped_refl(o: Seq<(u8, Attr)>)
    ensures wrapped(o, o)
    decreases o.len()
{ if o.len() > 0 { lemma_wrapped_refl(o.drop_last()); } }
/// a run of spaces at the end was there before
pub proof fn lemma_strip(o: Seq<(u8, Attr)>, n: Seq<(u8, Attr)>, a: int) -> (k: int)
    requires wrapped(o, n), spaces(n, a)
    ensures spaces(o, k), wrapped(o.take(k), n.take(a))
    decreases n.len()
{
    if a == n.len() { assert(n.take(a) =~= n); assert(o.take(o.len() as int) =~= o); o.len() as int }
    else {
        assert(n[n.len() - 1].0 == 0x20u8); assert(n.drop_last().take(a) =~= n.take(a)); assert(spaces(n.drop_last(), a)) by { assert forall|i: int| a <= i < n.len() - 1 implies (#[trigger] n.drop_last()[i]).0 == 0x20u8 by { assert(n[i].0 == 0x20u8); } }
        let k = lemma_strip(o.drop_last(), n.drop_last(), a);
        assert(o.drop_last().take(k) =~= o.take(k));
        assert(spaces(o, k)) by { assert forall|i: int| k <= i < o.len() implies (#[trigger] o[i]).0 == 0x20u8 by { if i < o.len() - 1 { assert(o.drop_last()[i].0 == 0x20u8); } } }
        k
    }
}
/// one more run of spaces becomes a newline
pub proof fn lemma_wrapped_put(o: Seq<(u8, Attr)>, m: Seq<(u8, Attr)>, n: Seq<(u8, Attr)>, a: int, b: int)
    requires wrapped(o, m), 0 <= a <= b <= m.len(), n.len() == m.len() + 1 - (b - a), n.take(a) == m.take(a), n[a].0 == 10u8, n.skip(a + 1) == m.skip(b),
        forall|i: int| a <= i < b ==> (#[trigger] m[i]).0 == 0x20u8,
    ensures wrapped(o, n)
    decreases m.len()
{
    let n1 = n.drop_last();
    if b == m.len() {
        let k = lemma_strip(o, m, a);
        assert(n1 =~= m.take(a)); assert(spaces(o, k) && wrapped(o.take(k), n1));
    } else {
        let m1 = m.drop_last();
        assert(n.last() == n.skip(a + 1)[n.len() - 1 - (a + 1)]); assert(m.last() == m.skip(b)[m.len() - 1 - b]);
        assert(n.last() == m.last());
        assert(n1.take(a) =~= m1.take(a)) by { assert(n1.take(a) =~= n.take(a)); assert(m1.take(a) =~= m.take(a)); }
        assert(n1.skip(a + 1) =~= m1.skip(b)) by { assert(n1.skip(a + 1) =~= n.skip(a + 1).drop_last()); assert(m1.skip(b) =~= m.skip(b).drop_last()); }
        assert forall|i: int| a <= i < b implies (#[trigger] m1[i]).0 == 0x20u8 by { assert(m[i].0 == 0x20u8); }
        if o.len() > 0 && o.last() == m.last() && wrapped(o.drop_last(), m1) { lemma_wrapped_put(o.drop_last(), m1, n1, a, b); }
        else { let k = choose|k: int| #[trigger] spaces(o, k) && wrapped(o.take(k), m1); lemma_wrapped_put(o.take(k), m1, n1, a, b); assert(spaces(o, k) && wrapped(o.take(k), n1)); }
    }
}
pub proof fn lemma_wrapped_broken(o: Line, l: Line, m: Line, a: int, b: int)
    requires wrapped(o.sb(), l.sb()), broken(l, m, a, b), l.wf(), 0 <= a <= b <= by(l.text@).len(), forall|i: int| a <= i < b ==> (#[trigger] by(l.text@)[i]) == 0x20u8
    ensures wrapped(o.sb(), m.sb())
{
    lemma_line_ends(l);
    assert forall|i: int| a <= i < b implies (#[trigger] l.sb()[i]).0 == 0x20u8 by { reveal(Line::sb); assert(by(l.text@)[i] == 0x20u8); }
    lemma_wrapped_put(o.sb(), l.sb(), m.sb(), a, b);
}
// ---- where the newlines are
pub open spec fn somes<T>(o: Seq<Option<T>>) -> Seq<T>
    decreases o.len()
{ if o.len() == 0 { Seq::empty() } else { match o.last() { Some(x) => somes(o.drop_last()).push(x), None => somes(o.drop_last()) } } }
/// `p`: the places of the newlines within `c`, then its end
#[verifier::opaque]
pub open spec fn breaks(p: Seq<usize>, c: Seq<u8>) -> bool {
    &&& p.len() > 0 && p.last() == c.len() && c.len() <= isize::MAX
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]) < (#[trigger] p[j])
    &&& forall|i: int| 0 <= i < p.len() - 1 ==> c[(#[trigger] p[i]) as int] == 10u8 && bnd(c, p[i] as int) && bnd(c, p[i] + 1)
    &&& forall|q: int| 0 <= q < c.len() && #[trigger] c[q] == 10u8 ==> exists|i: int| 0 <= i < p.len() - 1 && p[i] == q
}
pub open spec fn nl_outs(s: Seq<char>, o: Seq<Option<usize>>) -> bool {
    &&& o.len() == s.len()
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] o[k] == (if s[k] == '\n' { Some(by(s.take(k)).len() as usize) } else { None::<usize> })
}
pub proof fn lemma_nls(s: Seq<char>, o: Seq<Option<usize>>, n: int)
    requires nl_outs(s, o), 0 <= n <= s.len(), by(s).len() <= isize::MAX
    ensures
        ({ let p = somes(o.take(n)); let c = by(s);
           &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]) < (#[trigger] p[j])
           &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < by(s.take(n)).len() && c[p[i] as int] == 10u8 && bnd(c, p[i] as int) && bnd(c, p[i] + 1)
           &&& forall|k: int| 0 <= k < n && #[trigger] s[k] == '\n' ==> exists|i: int| 0 <= i < p.len() && p[i] == by(s.take(k)).len() }),
    decreases n
{
    let c = by(s);
    if n > 0 {
        let p = somes(o.take(n)); let p1 = somes(o.take(n - 1)); let e = by(s.take(n - 1)).len();
        assert(o.take(n).drop_last() =~= o.take(n - 1)); assert(o.take(n).last() == o[n - 1]);
        lemma_nls(s, o, n - 1); lemma_take1(s, n - 1); lemma_take_cut(s, n - 1, n); lemma_newline();
        assert(s.subrange(n - 1, n) =~= seq![s[n - 1]]);
        if s[n - 1] == '\n' {
            assert(p == p1.push(e as usize));
            assert(c[e as int] == c.subrange(e as int, by(s.take(n)).len() as int)[0]);
            assert(by(s.take(n)).len() == e + 1);
            assert(p[p1.len() as int] == by(s.take(n - 1)).len());
        }
        assert forall|k: int| 0 <= k < n && #[trigger] s[k] == '\n' implies exists|i: int| 0 <= i < p.len() && p[i] == by(s.take(k)).len() by {
            if k < n - 1 { let i = choose|i: int| 0 <= i < p1.len() && p1[i] == by(s.take(k)).len(); assert(p[i] == p1[i]); }
        }
    }
}
/// a newline's byte is a newline's
pub proof fn lemma_ten(s: Seq<char>, q: int) -> (k: int)
    requires 0 <= q < by(s).len(), by(s)[q] == 10u8
    ensures 0 <= k < s.len(), s[k] == '\n', by(s.take(k)).len() == q
{
    let c = by(s);
    assert(!is_continuation_byte(10u8)) by(compute);
    assert(bnd(c, q)); lemma_bnd_idx(s, q);
    let k = cidx(s, q);
    if k == s.len() { assert(s.take(k) =~= s); }
    lemma_take1(s, k); lemma_take_cut(s, k, k + 1); assert(s.subrange(k, k + 1) =~= seq![s[k]]);
    lemma_char_bytes(s[k]); lemma_ascii_char(s[k]);
    assert(by(seq![s[k]])[0] == c.subrange(q, by(s.take(k + 1)).len() as int)[0]);
    assert(s[k] as u32 == 10); assert('\n' as u32 == 10);
    k
}
pub proof fn lemma_breaks(s: Seq<char>, o: Seq<Option<usize>>, p: Seq<usize>)
    requires nl_outs(s, o), by(s).len() <= isize::MAX, p == somes(o).push(by(s).len() as usize)
    ensures breaks(p, by(s))
{
    let n = s.len() as int; let c = by(s);
    lemma_nls(s, o, n); assert(o.take(n) =~= o); assert(s.take(n) =~= s);
    assert forall|q: int| 0 <= q < c.len() && #[trigger] c[q] == 10u8 implies exists|i: int| 0 <= i < p.len() - 1 && p[i] == q by {
        let k = lemma_ten(s, q); assert(s[k] == '\n'); let i = choose|i: int| 0 <= i < somes(o).len() && somes(o)[i] == by(s.take(k)).len(); assert(p[i] == q);
    }
    reveal(breaks);
}
pub open spec fn line_start(p: Seq<usize>, k: int) -> int { if k == p.len() - 1 { 0 } else { p[p.len() - 2 - k] + 1 } }
pub open spec fn line_end(p: Seq<usize>, k: int) -> int { p[p.len() - 1 - k] as int }
/// the `k`th line from the end
pub proof fn lemma_one_line(p: Seq<usize>, s: Seq<char>, c: Seq<u8>, k: int)
    requires breaks(p, c), c == by(s), 0 <= k < p.len()
    ensures
        0 <= line_start(p, k) <= line_end(p, k) <= c.len() <= isize::MAX, bnd(c, line_start(p, k)), bnd(c, line_end(p, k)),
        forall|q: int| line_start(p, k) <= q < line_end(p, k) ==> #[trigger] c[q] != 10u8,
        k + 1 < p.len() ==> 0 <= line_end(p, k + 1) < line_start(p, k),
        k == 0 ==> line_end(p, k) == c.len(),
{
    reveal(breaks);
    let n = p.len() - 1 - k;
    if n > 0 { assert(p[n - 1] < p[n]); assert(bnd(c, p[n - 1] + 1)); }
    if n < p.len() - 1 { assert(p[n] < p[p.len() - 1]); assert(bnd(c, p[n] as int)); } else { assert(p[n] == c.len()); }
    assert forall|q: int| line_start(p, k) <= q < line_end(p, k) implies #[trigger] c[q] != 10u8 by {
        if c[q] == 10u8 { let i = choose|i: int| 0 <= i < p.len() - 1 && p[i] == q; if i >= n { if i > n { assert(p[n] < p[i]); } } else if i < n - 1 { assert(p[i] < p[n - 1]); } }
    }
    lemma_bnd_ends(s);
}
/// the text up to `n` is as it was
#[verifier::opaque]
pub open spec fn keeps(d: Seq<u8>, c: Seq<u8>, n: int) -> bool { 0 <= n <= c.len() && n <= d.len() && d.take(n) == c.take(n) && bnd(c, n) && bnd(d, n) }
pub proof fn lemma_keeps(d: Seq<u8>, c: Seq<u8>, n: int, m: int)
    requires keeps(d, c, n), 0 <= m <= n, bnd(c, m)
    ensures keeps(d, c, m), bnd(d, m), n <= d.len(), forall|i: int| 0 <= i < n ==> #[trigger] d[i] == c[i],
{
    reveal(keeps);
    assert forall|i: int| 0 <= i < n implies #[trigger] d[i] == c[i] by { assert(d.take(n)[i] == c.take(n)[i]); }
    assert(d.take(m) =~= c.take(m));
}
pub proof fn lemma_keeps_both(x: Seq<u8>, d: Seq<u8>, c: Seq<u8>, n: int)
    requires keeps(x, d, n), keeps(d, c, n)
    ensures keeps(x, c, n)
{ reveal(keeps); }
pub proof fn lemma_keeps_put(d: Seq<u8>, c: Seq<u8>, n: int, a: int, b: int)
    requires keeps(d, c, n), 0 <= a <= b <= n, bnd(c, a)
    ensures keeps(put(d, a, b, 10u8), c, a)
{
    lemma_keeps(d, c, n, a); reveal(keeps); assert(!is_continuation_byte(10u8)) by(compute);
    let e = put(d, a, b, 10u8); assert(e.take(a) =~= d.take(a)); assert(e[a] == 10u8);
}
// ---- the pieces the text is cut into
/// where the pieces are within the text with the bytes `c`
#[verifier::opaque]
pub open spec fn cut_into(v: Seq<Cow<'_>>, at: int, c: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Borrowed && (plen(v[i]) > 0 ==> at <= plo(v[i]) && plo(v[i]) + plen(v[i]) <= at + c.len() && bnd(c, plo(v[i]) - at) && bnd(c, plo(v[i]) + plen(v[i]) - at) && by(v[i]@) == c.subrange(plo(v[i]) - at, plo(v[i]) + plen(v[i]) - at))
    &&& forall|i: int, j: int| 0 <= i < j < v.len() && plen(v[i]) > 0 && plen(v[j]) > 0 ==> plo(#[trigger] v[i]) + plen(v[i]) <= plo(#[trigger] v[j])
    &&& forall|q: int| 0 <= q < c.len() ==> #[trigger] c[q] == 0x20u8 || exists|i: int| 0 <= i < v.len() && plo(#[trigger] v[i]) <= at + q < plo(v[i]) + plen(v[i])
}
pub open spec fn plo(x: Cow<'_>) -> int { match x { Cow::Borrowed(s) => s.va(), Cow::Owned(s) => 0 } }
pub open spec fn plen(x: Cow<'_>) -> int { match x { Cow::Borrowed(s) => by(s@).len() as int, Cow::Owned(s) => 0 } }
/// the columns of a text
pub open spec fn wd(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { wd(s.drop_last()) + (match cw(s.last()) { Some(w) => w as int, None => 0int }) } }
pub open spec fn narrow(v: Seq<Cow<'_>>, w: int) -> bool { forall|i: int| 0 <= i < v.len() ==> wd((#[trigger] v[i])@) <= w }
/// the widest a line may be: even one character may need two columns
pub open spec fn cap(w: usize) -> int { if w < 2 { 2 } else { w as int } }
pub mod textwrap {
    use super::*;
    pub enum WrapAlgorithm { FirstFit, OptimalFit }
    pub struct Options { pub width: usize, pub wrap_algorithm: WrapAlgorithm }
    impl Options {
        pub fn new(width: usize) -> (r: Options) ensures r.width == width, r.wrap_algorithm == WrapAlgorithm::OptimalFit { Options { width, wrap_algorithm: WrapAlgorithm::OptimalFit } }
        pub fn wrap_algorithm(self, a: WrapAlgorithm) -> (r: Options) ensures r.width == self.width, r.wrap_algorithm == a { Options { width: self.width, wrap_algorithm: a } }
    }
    pub trait VxOptions { spec fn w(&self) -> usize; spec fn a(&self) -> WrapAlgorithm; }
    impl VxOptions for usize { open spec fn w(&self) -> usize { *self } open spec fn a(&self) -> WrapAlgorithm { WrapAlgorithm::OptimalFit } }
    impl VxOptions for Options { open spec fn w(&self) -> usize { self.width } open spec fn a(&self) -> WrapAlgorithm { self.wrap_algorithm } }
    #[verifier::external_body]
    pub fn wrap<'a, O: VxOptions>(t: &'a str, o: O) -> (r: Vec<Cow<'a>>)
        requires o.w() > 0, forall|q: int| 0 <= q < by(t@).len() ==> #[trigger] by(t@)[q] != 10u8
        ensures cut_into(r@, t.va(), by(t@)), o.a() == WrapAlgorithm::FirstFit ==> narrow(r@, cap(o.w()))
    { unimplemented!() }
    pub mod core {
        use super::super::*;
        #[verifier::external_body]
        pub fn display_width<T: VxText + ?Sized>(t: &T) -> (r: usize) ensures r == wd(t.vt()) { unimplemented!() }
    }
}
pub open spec fn blank(c: Seq<u8>, a: int, b: int) -> bool { forall|q: int| a <= q < b ==> #[trigger] c[q] == 0x20u8 }
/// what has been found about the first `k` pieces of the text between `s` and `e`: the runs of spaces `v`, up to `z`
#[verifier::opaque]
pub open spec fn runs(v: Seq<Range<usize>>, c: Seq<u8>, s: int, z: int) -> bool {
    &&& 0 <= s <= z <= c.len() && bnd(c, z)
    &&& forall|i: int| 0 <= i < v.len() ==> s <= (#[trigger] v[i]).start <= v[i].end <= z && v[i].end > 0 && bnd(c, v[i].start as int) && bnd(c, v[i].end as int) && blank(c, v[i].start as int, v[i].end as int)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).end <= (#[trigger] v[j]).start
}
/// what is known after the first `k` pieces
#[verifier::opaque]
pub open spec fn passed(v: Seq<Cow<'_>>, k: int, base: int, s: int, z: int) -> bool {
    &&& forall|i: int| 0 <= i < k && plen(#[trigger] v[i]) > 0 ==> plo(v[i]) + plen(v[i]) <= base + z
    &&& z == s || exists|i: int| 0 <= i < k && plen(#[trigger] v[i]) > 0 && plo(v[i]) + plen(v[i]) == base + z
}
pub proof fn lemma_piece(v: Seq<Cow<'_>>, k: int, base: int, d: Seq<u8>, s: int, e: int, r: Seq<Range<usize>>, z: usize, w: int)
    requires 0 <= s <= e <= d.len() <= isize::MAX, cut_into(v, base + s, d.subrange(s, e)), 0 <= k < v.len(), passed(v, k, base, s, z as int), runs(r, d, s, z as int), z <= e, bnd(d, e), bnd(d, s), areas(r, d, s, z as int, w), narrow(v, w)
    ensures
        v[k] is Borrowed,
        plen(v[k]) >= 0,
        plen(v[k]) == 0 ==> passed(v, k + 1, base, s, z as int),
        plen(v[k]) > 0 ==> ({ let lo = plo(v[k]) - base; let hi = lo + plen(v[k]);
            z <= lo < hi <= e && passed(v, k + 1, base, s, hi) && runs(r, d, s, hi) && (lo != 0 ==> runs(r.push(Range { start: z, end: lo as usize }), d, s, hi)) && (lo != 0 ==> areas(r.push(Range { start: z, end: lo as usize }), d, s, hi, w)) && (lo == 0 ==> areas(r, d, s, hi, w)) }),
{
    reveal(cut_into); reveal(passed); reveal(runs);
    let t = d.subrange(s, e);
    if plen(v[k]) > 0 {
        let lo = plo(v[k]) - base; let hi = lo + plen(v[k]);
        assert(bnd(d, lo)) by { if lo < e { assert(t[lo - s] == d[lo]); } }
        assert(bnd(d, hi)) by { if hi < e { assert(t[hi - s] == d[hi]); } }
        assert(z <= lo) by { if z != s { let i = choose|i: int| 0 <= i < k && plen(#[trigger] v[i]) > 0 && plo(v[i]) + plen(v[i]) == base + z; } }
        assert(blank(d, z as int, lo)) by {
            assert forall|q: int| z <= q < lo implies #[trigger] d[q] == 0x20u8 by {
                assert(t[q - s] == d[q]);
                if t[q - s] != 0x20u8 { let i = choose|i: int| 0 <= i < v.len() && plo(#[trigger] v[i]) <= base + s + (q - s) < plo(v[i]) + plen(v[i]); assert(i != k); assert(plen(v[i]) > 0); }
            }
        }
        assert(t.subrange(lo - s, hi - s) =~= d.subrange(lo, hi));
        lemma_area_piece(d, lo, hi, v[k]@, w);
        if lo == 0 && r.len() > 0 { assert(r[0].end <= z); }
        lemma_areas_push(r, d, s, z, lo, hi, w);
        let r2 = r.push(Range { start: z, end: lo as usize });
        assert forall|i: int, j: int| 0 <= i < j < r2.len() implies (#[trigger] r2[i]).end <= (#[trigger] r2[j]).start by { assert(r2[i] == r[i]); if j < r.len() { assert(r2[j] == r[j]); } }
        assert forall|i: int| 0 <= i < r2.len() && lo != 0 implies s <= (#[trigger] r2[i]).start <= r2[i].end <= hi && r2[i].end > 0 && bnd(d, r2[i].start as int) && bnd(d, r2[i].end as int) && blank(d, r2[i].start as int, r2[i].end as int) by { if i < r.len() { assert(r2[i] == r[i]); } }
    }
}
/// what is left after the last piece
pub proof fn lemma_rest(v: Seq<Cow<'_>>, base: int, d: Seq<u8>, s: int, e: int, z: int)
    requires 0 <= s <= z <= e <= d.len(), cut_into(v, base + s, d.subrange(s, e)), passed(v, v.len() as int, base, s, z)
    ensures blank(d, z, e)
{
    reveal(cut_into); reveal(passed);
    let t = d.subrange(s, e);
    assert forall|q: int| z <= q < e implies #[trigger] d[q] == 0x20u8 by {
        assert(t[q - s] == d[q]);
        if t[q - s] != 0x20u8 { let i = choose|i: int| 0 <= i < v.len() && plo(#[trigger] v[i]) <= base + s + (q - s) < plo(v[i]) + plen(v[i]); assert(plen(v[i]) > 0); }
    }
}
pub open spec fn lim(r: Seq<Range<usize>>, k: int, e: int) -> int { if k == 0 { e } else { r[r.len() - k].start as int } }
/// the `k`th run from the end is within what is as it was
pub proof fn lemma_run_at(r: Seq<Range<usize>>, x: Seq<u8>, d: Seq<u8>, s: int, z: int, e: int, k: int)
    requires runs(r, d, s, z), z <= e, keeps(x, d, lim(r, k, e)), 0 <= k < r.len()
    ensures
        ({ let a = r[r.len() - 1 - k].start as int; let b = r[r.len() - 1 - k].end as int;
           s <= a <= b && 0 < b <= lim(r, k, e) && b <= x.len() && bnd(x, a) && bnd(x, b) && blank(x, a, b) && keeps(x, d, a) && lim(r, k + 1, e) == a && keeps(put(x, a, b, 10u8), d, a) }),
{
    reveal(runs);
    let n = r.len() - 1 - k; let a = r[n].start as int; let b = r[n].end as int;
    if k > 0 { assert(r[n].end <= r[n + 1].start); }
    lemma_keeps(x, d, lim(r, k, e), a); lemma_keeps(x, d, lim(r, k, e), b);
    lemma_keeps_put(x, d, lim(r, k, e), a, b);
}
pub proof fn lemma_next_line(x: Seq<u8>, d: Seq<u8>, c: Seq<u8>, p: Seq<usize>, s: Seq<char>, k: int, n: int)
    requires breaks(p, c), c == by(s), 0 <= k < p.len(), keeps(d, c, line_end(p, k)), keeps(x, d, n), line_start(p, k) <= n
    ensures k + 1 < p.len() ==> keeps(x, c, line_end(p, k + 1))
{
    lemma_one_line(p, s, c, k);
    if k + 1 < p.len() {
        let m = line_end(p, k + 1);
        lemma_one_line(p, s, c, k + 1);
        lemma_keeps(d, c, line_end(p, k), m); lemma_keeps(x, d, n, m); reveal(keeps);
    }
}
// ---- how wide the lines are
pub open spec fn wb(b: Seq<u8>) -> int { wd(decode_utf8(b)) }
pub open spec fn no10(x: Seq<u8>, p: int, q: int) -> bool { forall|i: int| p <= i < q ==> #[trigger] x[i] != 10u8 }
/// what is between `p` and `q` is within one line, and not followed by nothing but blanks
pub open spec fn part(x: Seq<u8>, p: int, q: int) -> bool { 0 <= p < q <= x.len() && bnd(x, p) && bnd(x, q) && no10(x, p, q) && x[q - 1] != 0x20u8 }
/// no line is wider than `w`, of what is after `n`
#[verifier::opaque]
pub open spec fn fits(x: Seq<u8>, n: int, w: int) -> bool { forall|p: int, q: int| n <= p && part(x, p, q) ==> #[trigger] wb(x.subrange(p, q)) <= w }
/// nor of what is between `b` and `e`
#[verifier::opaque]
pub open spec fn area(x: Seq<u8>, b: int, e: int, w: int) -> bool { forall|p: int, q: int| b <= p && q <= e && part(x, p, q) ==> #[trigger] wb(x.subrange(p, q)) <= w }
pub open spec fn stop(x: Seq<u8>, n: int) -> bool { n == x.len() || (0 <= n < x.len() && x[n] == 10u8) }
pub open spec fn a_lo(r: Seq<Range<usize>>, s: int, i: int) -> int { if i == 0 { s } else { r[i - 1].end as int } }
pub open spec fn a_hi(r: Seq<Range<usize>>, z: int, i: int) -> int { if i == r.len() { z } else { r[i].start as int } }
/// what is between the runs is no wider than `w`
#[verifier::opaque]
pub open spec fn areas(r: Seq<Range<usize>>, x: Seq<u8>, s: int, z: int, w: int) -> bool {
    forall|i: int| 0 <= i <= r.len() ==> #[trigger] area(x, a_lo(r, s, i), a_hi(r, z, i), w) && (i > 0 ==> a_lo(r, s, i) < a_hi(r, z, i))
}
pub proof fn lemma_wd_cat(s: Seq<char>, t: Seq<char>)
    ensures wd(s + t) == wd(s) + wd(t), wd(s) >= 0, wd(t) >= 0
    decreases t.len(), s.len()
{
    if t.len() == 0 { assert(s + t =~= s); if s.len() > 0 { lemma_wd_cat(s.drop_last(), t); } }
    else { lemma_wd_cat(s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last()); }
}
/// a part of a text is no wider than the text
pub proof fn lemma_part(s: Seq<char>, p: int, q: int)
    requires 0 <= p <= q <= by(s).len(), bnd(by(s), p), bnd(by(s), q)
    ensures wb(by(s).subrange(p, q)) <= wd(s)
{
    lemma_bnd_idx(s, p); lemma_bnd_idx(s, q);
    let i = cidx(s, p); let j = cidx(s, q); let n = s.len() as int;
    if j < i { lemma_take_cut(s, j, i); }
    lemma_take_cut(s, i, j);
    let u = s.subrange(0, i); let v = s.subrange(i, j); let y = s.subrange(j, n);
    assert(s =~= u + v + y); lemma_wd_cat(u + v, y); lemma_wd_cat(u, v);
    encode_utf8_decode_utf8(v);
}
pub proof fn lemma_area_piece(d: Seq<u8>, b: int, e: int, t: Seq<char>, w: int)
    requires 0 <= b <= e <= d.len(), by(t) == d.subrange(b, e), wd(t) <= w
    ensures area(d, b, e, w)
{
    reveal(area);
    assert forall|p: int, q: int| b <= p && q <= e && part(d, p, q) implies #[trigger] wb(d.subrange(p, q)) <= w by {
        assert(by(t).subrange(p - b, q - b) =~= d.subrange(p, q));
        assert(bnd(by(t), p - b)) by { assert(by(t)[p - b] == d[p]); }
        assert(bnd(by(t), q - b)) by { if q < e { assert(by(t)[q - b] == d[q]); } }
        lemma_part(t, p - b, q - b);
    }
}
pub proof fn lemma_areas_push(r: Seq<Range<usize>>, d: Seq<u8>, s: int, z: usize, lo: int, hi: int, w: int)
    requires areas(r, d, s, z as int, w), area(d, lo, hi, w), 0 <= lo < hi, lo <= usize::MAX, lo == 0 ==> r.len() == 0 && s == 0
    ensures lo != 0 ==> areas(r.push(Range { start: z, end: lo as usize }), d, s, hi, w), lo == 0 ==> areas(r, d, s, hi, w)
{
    reveal(areas);
    let r2 = r.push(Range { start: z, end: lo as usize });
    if lo != 0 {
        assert forall|i: int| 0 <= i <= r2.len() implies #[trigger] area(d, a_lo(r2, s, i), a_hi(r2, hi, i), w) && (i > 0 ==> a_lo(r2, s, i) < a_hi(r2, hi, i)) by {
            if i <= r.len() { assert(area(d, a_lo(r, s, i), a_hi(r, z as int, i), w)); assert(a_lo(r2, s, i) == a_lo(r, s, i)); assert(a_hi(r2, hi, i) == a_hi(r, z as int, i)); }
        }
    }
}
/// blanks at the end do not count
pub proof fn lemma_areas_end(r: Seq<Range<usize>>, d: Seq<u8>, s: int, z: int, e: int, w: int)
    requires areas(r, d, s, z, w), z <= e, blank(d, z, e)
    ensures areas(r, d, s, e, w)
{
    reveal(areas); reveal(area);
    assert forall|i: int| 0 <= i <= r.len() implies #[trigger] area(d, a_lo(r, s, i), a_hi(r, e, i), w) && (i > 0 ==> a_lo(r, s, i) < a_hi(r, e, i)) by {
        assert(area(d, a_lo(r, s, i), a_hi(r, z, i), w));
        if i == r.len() {
            assert forall|p: int, q: int| a_lo(r, s, i) <= p && q <= e && part(d, p, q) implies #[trigger] wb(d.subrange(p, q)) <= w by { if q > z { assert(d[q - 1] == 0x20u8); } }
        }
    }
}
pub proof fn lemma_fits_ext(x: Seq<u8>, d: Seq<u8>, a: int, n: int, w: int)
    requires keeps(x, d, n), 0 <= a <= n, fits(x, n, w), stop(x, n), area(d, a, n, w)
    ensures fits(x, a, w)
{
    reveal(fits); reveal(area); reveal(keeps); lemma_keeps(x, d, n, n);
    assert forall|p: int, q: int| a <= p && part(x, p, q) implies #[trigger] wb(x.subrange(p, q)) <= w by {
        if p < n {
            if q > n { assert(x[n] == 10u8); }
            assert(x.subrange(p, q) =~= d.subrange(p, q)); assert(d[p] == x[p] && d[q - 1] == x[q - 1]); if q < n { assert(d[q] == x[q]); } assert(q <= n); assert forall|i: int| p <= i < q implies #[trigger] d[i] != 10u8 by { assert(d[i] == x[i]); } assert(part(d, p, q));
        }
    }
}
pub proof fn lemma_fits_put(x: Seq<u8>, d: Seq<u8>, a: int, b: int, n: int, w: int)
    requires keeps(x, d, n), 0 <= a <= b <= n, fits(x, n, w), stop(x, n), area(d, b, n, w)
    ensures fits(put(x, a, b, 10u8), a, w), stop(put(x, a, b, 10u8), a)
{
    lemma_fits_ext(x, d, b, n, w); reveal(keeps); reveal(fits);
    let y = put(x, a, b, 10u8); let m = b - a - 1;
    assert(y[a] == 10u8);
    assert forall|p: int, q: int| a <= p && part(y, p, q) implies #[trigger] wb(y.subrange(p, q)) <= w by {
        assert(p > a);
        assert(y.subrange(p, q) =~= x.subrange(p + m, q + m));
        assert(part(x, p + m, q + m)) by { assert(y[p] == x[p + m]); if q < y.len() { assert(y[q] == x[q + m]); } assert(y[q - 1] == x[q + m - 1]); assert forall|i: int| p + m <= i < q + m implies #[trigger] x[i] != 10u8 by { assert(y[i - m] == x[i]); } }
    }
}
/// one run from the end becomes a newline, or is one already
pub proof fn lemma_fits_run(r: Seq<Range<usize>>, x: Seq<u8>, d: Seq<u8>, s: int, z: int, e: int, k: int, w: int)
    requires runs(r, d, s, z), z <= e <= d.len(), areas(r, d, s, e, w), keeps(x, d, lim(r, k, e)), 0 <= k < r.len(), fits(x, lim(r, k, e), w), k == 0 ==> stop(x, e), k > 0 ==> stop(x, lim(r, k, e)) || lim(r, k, e) == s, no10(d, s, e)
    ensures
        ({ let a = r[r.len() - 1 - k].start as int; let b = r[r.len() - 1 - k].end as int; let y = put(x, a, b, 10u8);
           fits(y, a, w) && stop(y, a) && (a == b && a > 0 && x[a - 1] == 10u8 ==> fits(x, a, w) && a == s) }),
{
    lemma_run_at(r, x, d, s, z, e, k); reveal(areas); reveal(runs);
    let n = r.len() - 1 - k; let a = r[n].start as int; let b = r[n].end as int; let l = lim(r, k, e);
    assert(area(d, a_lo(r, s, n + 1), a_hi(r, e, n + 1), w));
    lemma_fits_put(x, d, a, b, l, w);
    if a == b && a > 0 && x[a - 1] == 10u8 { lemma_fits_ext(x, d, a, l, w); assert(bnd(d, l)) by { reveal(keeps); } lemma_keeps(x, d, l, l); if a > s { assert(d[a - 1] != 10u8); } }
}
/// after all of the runs of a line
pub proof fn lemma_fits_line(r: Seq<Range<usize>>, x: Seq<u8>, d: Seq<u8>, s: int, z: int, e: int, w: int)
    requires runs(r, d, s, z), z <= e <= d.len(), areas(r, d, s, e, w), keeps(x, d, lim(r, r.len() as int, e)), fits(x, lim(r, r.len() as int, e), w), r.len() == 0 ==> stop(x, e), r.len() > 0 ==> stop(x, lim(r, r.len() as int, e)) || lim(r, r.len() as int, e) == s
    ensures fits(x, s, w)
{
    reveal(areas); reveal(runs);
    assert(area(d, a_lo(r, s, 0), a_hi(r, e, 0), w));
    let n = lim(r, r.len() as int, e);
    if r.len() > 0 { assert(s <= r[0].start); }
    if n != s { lemma_fits_ext(x, d, s, n, w); }
}
pub proof fn lemma_fits_next(x: Seq<u8>, c: Seq<u8>, p: Seq<usize>, s: Seq<char>, k: int, w: int, n: int)
    requires breaks(p, c), c == by(s), 0 <= k < p.len(), keeps(x, c, n), n >= line_start(p, k), fits(x, line_start(p, k), w)
    ensures k + 1 < p.len() ==> fits(x, line_end(p, k + 1), w) && stop(x, line_end(p, k + 1)), k + 1 == p.len() ==> fits(x, 0, w)
{
    if k + 1 < p.len() {
        lemma_one_line(p, s, c, k); lemma_one_line(p, s, c, k + 1); lemma_keeps(x, c, n, line_start(p, k));
        let m = line_end(p, k + 1);
        assert(c[m] == 10u8) by { reveal(breaks); assert(c[p[p.len() - 2 - k] as int] == 10u8); }
        assert(x[m] == 10u8);
        reveal(fits);
    }
}
pub struct VxSq<T> { pub s: Ghost<Seq<T>>, pub k: Ghost<int> }
impl<T> VxSq<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).k@ <= old(self).s@.len()
        ensures final(self).s == old(self).s,
            old(self).k@ < old(self).s@.len() ==> r == Some(old(self).s@[old(self).k@]) && final(self).k@ == old(self).k@ + 1,
            old(self).k@ == old(self).s@.len() ==> r is None && final(self).k@ == old(self).k@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VxSq<T>) requires self.k@ == 0 ensures r.k@ == 0, r.s@ == Seq::new(self.s@.len(), |i: int| self.s@[self.s@.len() - 1 - i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxSq<T>) requires self.k@ == 0 ensures r.k@ == 0, r.s@ == self.s@.skip(if n <= self.s@.len() { n as int } else { self.s@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxSq<U>)
        requires self.k@ == 0, forall|i: int| 0 <= i < self.s@.len() ==> f.requires((#[trigger] self.s@[i],))
        ensures r.k@ == 0, r.s@.len() == self.s@.len(), forall|i: int| 0 <= i < r.s@.len() ==> f.ensures((self.s@[i],), #[trigger] r.s@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: Option<T>) -> (r: VxSq<T>) requires self.k@ == 0 ensures r.k@ == 0, r.s@ == (match o { Some(x) => self.s@.push(x), None => self.s@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: VxSq<U>) -> (r: VxSq<(T, U)>)
        requires self.k@ == 0, o.k@ == 0
        ensures r.k@ == 0, r.s@.len() == (if self.s@.len() <= o.s@.len() { self.s@.len() } else { o.s@.len() }), forall|i: int| 0 <= i < r.s@.len() ==> #[trigger] r.s@[i] == (self.s@[i], o.s@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires self.k@ == 0, forall|i: int| 0 <= i < self.s@.len() ==> f.requires((#[trigger] self.s@[i],))
        ensures !r ==> (forall|i: int| 0 <= i < self.s@.len() ==> f.ensures((#[trigger] self.s@[i],), false))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) requires self.k@ == 0 ensures r@ == self.s@ { unimplemented!() }
}
impl<'a> VxCharIndices<'a> {
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn((usize, char)) -> Option<U>>(self, f: F) -> (r: VxSq<U>)
        requires self.k@ == 0, forall|i: int| 0 <= i < self.s@.len() ==> f.requires((ci(self.s@, i),))
        ensures r.k@ == 0, exists|o: Seq<Option<U>>| r.s@ == somes(o) && o.len() == self.s@.len() && forall|i: int| 0 <= i < o.len() ==> f.ensures((ci(self.s@, i),), #[trigger] o[i])
    { unimplemented!() }
}
pub open spec fn ci(s: Seq<char>, i: int) -> (usize, char) { (by(s.take(i)).len() as usize, s[i]) }
pub trait VxSeqIt<T>: Sized { spec fn sq(&self) -> Seq<T>;
    fn vx_sq<'a>(&'a self) -> (r: VxSq<&'a T>) ensures r.k@ == 0, r.s@.len() == self.sq().len(), forall|i: int| #![trigger r.s@[i]] #![trigger self.sq()[i]] 0 <= i < r.s@.len() ==> *r.s@[i] == self.sq()[i];
    fn vx_into_sq(self) -> (r: VxSq<T>) ensures r.k@ == 0, r.s@ == self.sq();
}
impl<T> VxSeqIt<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sq<'a>(&'a self) -> (r: VxSq<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_into_sq(self) -> (r: VxSq<T>) { unimplemented!() }
}
pub trait VxPtr: VxText { fn vx_as_ptr(&self) -> (r: usize) ensures r == self.va(), r + by(self.vt()).len() <= usize::MAX; }
pub trait VxEmpty { spec fn em(&self) -> bool; fn vx_is_empty(&self) -> (r: bool) ensures r == self.em(); }
impl VxEmpty for Range<usize> { open spec fn em(&self) -> bool { self.start >= self.end } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl VxEmpty for str { open spec fn em(&self) -> bool { by(self@).len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl VxPtr for String { #[verifier::external_body] fn vx_as_ptr(&self) -> (r: usize) { unimplemented!() } }
impl VxPtr for str { #[verifier::external_body] fn vx_as_ptr(&self) -> (r: usize) { unimplemented!() } }
pub trait VxReplace: View<V = Seq<char>> {
    fn vx_replace_range(&mut self, r: Range<usize>, x: &str)
        requires r.start <= r.end, bnd(by(old(self)@), r.start as int), bnd(by(old(self)@), r.end as int)
        ensures by(final(self)@) == by(old(self)@).take(r.start as int) + by(x@) + by(old(self)@).skip(r.end as int);
}
impl VxReplace for String {
    #[verifier::external_body]
    fn vx_replace_range(&mut self, r: Range<usize>, x: &str) { unimplemented!() }
}
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VxClone for Range<usize> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
//@method len => vx_len
//@method iter => vx_sq
//@method into_iter => vx_into_sq
//@method char_indices => vx_char_indices
//@method as_ptr => vx_as_ptr
//@method is_empty => vx_is_empty
//@method as_bytes => vx_as_bytes
//@method replace_range => vx_replace_range
//@method clone => vx_clone
//@features wrap history completion
//@file src/lib.rs
//@fn convert_subset_slice_to_range props=C04,C27
//@sig <T: VxPtr + VxLen + ?Sized>(outer: &T, inner: &str) -> (res: (usize, usize))
    requires by(inner.vt()).len() == inner.vl(), by(outer.vt()).len() == outer.vl(), by(inner@).len() > 0 ==> outer.va() <= inner.va() && inner.va() + by(inner@).len() <= outer.va() + by(outer.vt()).len(), //# C04
    ensures by(inner@).len() > 0 ==> res.0 == inner.va() - outer.va() && res.1 == res.0 + by(inner@).len(), by(inner@).len() == 0 ==> res.0 == res.1, //# C04
//@type Style #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type Color #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@file src/line.rs
//@type LineElement
//@type Line
//@impl Line
//@fn wrap_to_width props=C04,C27
//@sig (&mut self, width: usize)
    requires old(self).inv(), width > 0, //# C04
    ensures final(self).inv(), final(self).active() == old(self).active(), wrapped(old(self).sb(), final(self).sb()), //# C04
        fits(by(final(self).text@), 0, cap(width)), //# C27
//@closure 0 ((usize, char)) -> (r: Option<usize>)
    ensures r == (if ($0).1 == '\n' { Some(($0).0) } else { None::<usize> })
//@closure 1 (&usize) -> (r: usize)
    requires *$0 < usize::MAX
    ensures r == *$0 + 1
//@closure 2 (&Cow<'_>) -> (r: bool)
    ensures r == (wd($0@) > width)
//@hint start
    let ghost l0 = *self; let ghost c0 = by(self.text@); let ghost w = cap(width);
    proof { lemma_wrapped_refl(l0.sb()); ax_string_len(self.text); }
//@hint let newline_positions 0 after
    let ghost p = newline_positions@;
    proof {
        assert(exists|o: Seq<Option<usize>>| #![trigger somes(o)] nl_outs(l0.text@, o) && p == somes(o).push(c0.len() as usize));
        let o = choose|o: Seq<Option<usize>>| #![trigger somes(o)] nl_outs(l0.text@, o) && p == somes(o).push(c0.len() as usize);
        lemma_breaks(l0.text@, o, p);
        assert(forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < usize::MAX && p.len() > 0) by { reveal(breaks); assert(forall|i: int| 0 <= i < p.len() - 1 ==> (#[trigger] p[i]) < p[p.len() - 1]); }
        assert(p.len() > 0) by { reveal(breaks); }
    }
//@hint let end_iter 0 after
    proof {
        assert(start_iter.s@.len() == p.len() && end_iter.s@.len() == p.len());
        assert forall|k: int| 0 <= k < p.len() implies #[trigger] start_iter.s@[k] == line_start(p, k) by {}
        assert forall|k: int| 0 <= k < p.len() implies *(#[trigger] end_iter.s@[k]) == line_end(p, k) by {}
        lemma_one_line(p, l0.text@, c0, 0);
        assert(keeps(c0, c0, line_end(p, 0))) by { reveal(keeps); }
        assert(fits(c0, line_end(p, 0), w)) by { reveal(fits); }
    }
//@loop 0
    invariant
        0 <= vx_it0.k@ <= vx_it0.s@.len() == p.len(), breaks(p, c0), c0 == by(l0.text@), width > 0,
        forall|k: int| 0 <= k < p.len() ==> (#[trigger] vx_it0.s@[k]).0 == line_start(p, k) && *vx_it0.s@[k].1 == line_end(p, k),
        self.inv(), self.active() == l0.active(), wrapped(l0.sb(), self.sb()),
        vx_it0.k@ < p.len() ==> keeps(by(self.text@), c0, line_end(p, vx_it0.k@)),
        w == cap(width),
        vx_it0.k@ < p.len() ==> fits(by(self.text@), line_end(p, vx_it0.k@), w) && stop(by(self.text@), line_end(p, vx_it0.k@)), //# C27
        vx_it0.k@ == p.len() ==> fits(by(self.text@), 0, w), //# C27
    ensures vx_it0.k@ == p.len()
    decreases vx_it0.s@.len() - vx_it0.k@
//@hint loop 0 start
    let ghost k0 = vx_it0.k@; let ghost d = by(self.text@); let ghost s0 = line_start(p, k0); let ghost e0 = line_end(p, k0); let ghost base = self.text.va(); let ghost m0 = *self;
    proof {
        if k0 < p.len() {
            lemma_one_line(p, l0.text@, c0, k0); lemma_keeps(d, c0, e0, s0); lemma_keeps(d, c0, e0, e0);
            assert(keeps(d, d, s0) && keeps(d, d, e0)) by { reveal(keeps); }
            lemma_next_line(d, d, c0, p, l0.text@, k0, s0);
            if s0 == e0 { lemma_fits_next(d, c0, p, l0.text@, k0, w, e0); }
            assert(no10(d, s0, e0));
            ax_string_len(self.text);
        }
    }
//@hint let edit_vec 0 before
    let ghost v = wrap_vec@;
    proof { assert(narrow(v, w)); }
//@hint let cur_end 0 after
    proof { assert(runs(edit_vec@, d, s0, s0)) by { reveal(runs); } assert(passed(v, 0, base, s0, s0)) by { reveal(passed); } assert(areas(edit_vec@, d, s0, s0, w)) by { reveal(areas); reveal(area); } }
//@loop 1
    invariant
        0 <= vx_it1.k@ <= vx_it1.s@.len(), vx_it1.s@ == v, *self == m0, base == self.text.va(), d == by(self.text@), 0 <= s0 <= e0 <= d.len() <= isize::MAX, bnd(d, s0), bnd(d, e0),
        cut_into(v, base + s0, d.subrange(s0, e0)), runs(edit_vec@, d, s0, cur_end as int), passed(v, vx_it1.k@, base, s0, cur_end as int), s0 <= cur_end <= e0, narrow(v, w),
        areas(edit_vec@, d, s0, cur_end as int, w), //# C27
    ensures vx_it1.k@ == v.len()
    decreases vx_it1.s@.len() - vx_it1.k@
//@hint loop 1 start
    proof { if vx_it1.k@ < v.len() { lemma_piece(v, vx_it1.k@, base, d, s0, e0, edit_vec@, cur_end, w); } }
//@hint loop 2 before
    let ghost r = edit_vec@; let ghost z = cur_end as int;
    proof { lemma_rest(v, base, d, s0, e0, z); lemma_areas_end(r, d, s0, z, e0, w); }
//@loop 2
    invariant
        0 <= vx_it2.k@ <= vx_it2.s@.len() == r.len(), forall|k: int| 0 <= k < r.len() ==> #[trigger] vx_it2.s@[k] == r[r.len() - 1 - k],
        runs(r, d, s0, z), z <= e0 <= d.len(), keeps(by(self.text@), d, lim(r, vx_it2.k@, e0)), no10(d, s0, e0),
        areas(r, d, s0, e0, w), //# C27
        fits(by(self.text@), lim(r, vx_it2.k@, e0), w), vx_it2.k@ == 0 ==> stop(by(self.text@), e0), vx_it2.k@ > 0 ==> stop(by(self.text@), lim(r, vx_it2.k@, e0)) || lim(r, vx_it2.k@, e0) == s0, //# C27
        self.inv(), self.active() == l0.active(), wrapped(l0.sb(), self.sb()),
    ensures vx_it2.k@ == r.len()
    decreases vx_it2.s@.len() - vx_it2.k@
//@hint loop 2 start
    let ghost m1 = *self; let ghost k2 = vx_it2.k@;
    proof { if k2 < r.len() { lemma_run_at(r, by(self.text@), d, s0, z, e0, k2); lemma_fits_run(r, by(self.text@), d, s0, z, e0, k2, w); } }
//@hint call erase_and_insert_newline 0 after
    proof { let a = r[r.len() - 1 - k2].start as int; let b = r[r.len() - 1 - k2].end as int; lemma_wrapped_broken(l0, m1, *self, a, b); }
//@hint loop 2 after
    proof { assert(s0 <= lim(r, r.len() as int, e0)) by { reveal(runs); if r.len() > 0 { assert(s0 <= r[0].start); } } lemma_next_line(by(self.text@), d, c0, p, l0.text@, k0, lim(r, r.len() as int, e0));
        lemma_fits_line(r, by(self.text@), d, s0, z, e0, w); lemma_keeps(by(self.text@), d, lim(r, r.len() as int, e0), s0); lemma_keeps_both(by(self.text@), d, c0, s0); lemma_fits_next(by(self.text@), c0, p, l0.text@, k0, w, s0); }
//@fn erase_and_insert_newline props=C04
//@sig (&mut self, range: Range<usize>)
    requires old(self).inv(), range.start <= range.end, range.end > 0, bnd(by(old(self).text@), range.start as int), bnd(by(old(self).text@), range.end as int), //# C04
    ensures broken(*old(self), *final(self), range.start as int, range.end as int), //# C04
//@loop 0
    invariant_except_break
        0 <= i <= n, self.elements@ == e0.take(i as int) + squeeze(e0, i as int, a, b),
        elements_len == self.elements@.len(), //? elements_len
        i == 0 ==> self.elements@ =~= squeeze(e0, 0, a, b),
        i < n ==> squeeze(e0, i as int, a, b).len() > 0,
    invariant
        by(self.text@) == put(c0, a, b, 10u8), covers(e0, c0), n == e0.len(), a == range.start, b == range.end, 0 <= a <= b <= c0.len(), c0.len() <= isize::MAX, delta_bytes == 1 - (b - a),
    ensures self.elements@ == squeeze(e0, 0, a, b)
    decreases i
//@hint start
    let ghost l0 = *self; let ghost e0 = self.elements@; let ghost n = e0.len(); let ghost a = range.start as int; let ghost b = range.end as int; let ghost c0 = by(self.text@);
    proof { lemma_newline(); assert(e0.take(n as int) + squeeze(e0, n as int, a, b) =~= e0); }
//@hint loop 0 start
    proof { reveal(covers); assert(forall|k: int| 0 <= k < n ==> (#[trigger] e0[k]).start <= e0[k].end <= c0.len()); assert(by(self.text@).len() <= isize::MAX && by(self.text@).len() == c0.len() + 1 - (b - a)); }
//@hint call break * before
    proof { if i < n && e0[i as int].start < a && a <= b { lemma_front(e0, c0, 0, i as int, a, b); } assert(e0.subrange(0, i as int) =~= e0.take(i as int)); }
//@hint end
    proof { lemma_broken(l0, *self, a, b); }
//@endimpl
//@footer
}
fn main() {}
