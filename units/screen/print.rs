verus! {
/// the characters of a line, each with its attributes
#[verifier::opaque]
pub open spec fn cells(l: Line) -> Seq<Cell> { Seq::new(l.text@.len(), |k: int| (l.text@[k], l.sb()[by(l.text@.take(k)).len() as int].1)) }
pub proof fn lemma_p_puts(p: Prt, t: Seq<char>)
    ensures p_puts(p, t).at == p.at, p_puts(p, t).row == p.row, p_puts(p, t).ok == p.ok
    decreases t.len()
{ if t.len() > 0 { lemma_p_puts(p, t.drop_last()); } }
pub proof fn lemma_puts_push(p: Prt, t: Seq<char>, ch: char)
    ensures p_puts(p, t.push(ch)) == p_put(p_puts(p, t), ch)
{ assert(t.push(ch).drop_last() =~= t); }
pub proof fn lemma_puts0(p: Prt)
    ensures p_puts(p, Seq::empty()) == p
{ }
pub proof fn lemma_s_puts(s: Scr, wd: int, t: Seq<char>)
    requires 0 <= s.x < wd
    ensures ({ let q = s_puts(s, wd, t); q.row == s.row && q.low == s.low && q.bot == s.bot && q.at == s.at && 0 <= q.x < wd
        && forall|r: int, c: int| r != s.row ==> #[trigger] (q.g)(r, c) == (s.g)(r, c) })
    decreases t.len()
{ if t.len() > 0 { lemma_s_puts(s, wd, t.drop_last()); } }
/// an element of a line, and its place in the text
pub open spec fn k_lo(l: Line, i: int) -> int { cidx(l.text@, l.elements@[i].start as int) }
pub open spec fn k_hi(l: Line, i: int) -> int { cidx(l.text@, l.elements@[i].end as int) }
pub proof fn lemma_elem(l: Line, i: int)
    requires l.wf(), 0 <= i < l.elements@.len()
    ensures ({ let e = l.elements@[i]; let s = l.text@; let p = k_lo(l, i); let q = k_hi(l, i); let b = by(s);
        &&& e.start <= e.end <= b.len() && bnd(b, e.start as int) && bnd(b, e.end as int)
        &&& 0 <= p <= q <= s.len() && by(s.take(p)).len() == e.start && by(s.take(q)).len() == e.end
        &&& p == (if i == 0 { 0 } else { k_hi(l, i - 1) })
        &&& i == l.elements@.len() - 1 ==> q == s.len()
        &&& by(s.subrange(p, q)) == b.subrange(e.start as int, e.end as int)
        &&& forall|k: int| p <= k < q ==> #[trigger] cells(l)[k] == (s[k], e.at()) }),
{
    reveal(covers); reveal(cells);
    let e = l.elements@[i]; let s = l.text@; let b = by(s);
    assert(e.start <= e.end <= b.len());
    if i > 0 { assert(l.elements@[i - 1].end == l.elements@[i].start); }
    lemma_bnd_idx(s, e.start as int); lemma_bnd_idx(s, e.end as int);
    let p = k_lo(l, i); let q = k_hi(l, i);
    if q < p { lemma_take_cut(s, q, p); }
    lemma_take_cut(s, p, q); lemma_take_cut(s, q, s.len() as int);
    lemma_cidx(s, 0); lemma_take_cut(s, 0, 0);
    assert forall|k: int| p <= k < q implies #[trigger] cells(l)[k] == (s[k], e.at()) by {
        lemma_take_cut(s, p, k); lemma_take_cut(s, k, q); lemma_sb_at(l, i, by(s.take(k)).len() as int);
    }
}
/// what has been printed is what should have been so far
#[verifier::opaque]
pub open spec fn at_lay(p: Prt, l: Line, p0: Prt, wd: int, j: int) -> bool {
    let q = lay(p0, wd, cells(l).take(j));
    p.log == q.log && p.row == q.row && p.col == q.col && p.end == p.col && p.ok == q.ok && p.ok == p0.ok
}
pub open spec fn row_full(p: Prt, wd: int, ch: char) -> bool { cwi(ch) > 0 && p.col > 0 && p.col + cwi(ch) > wd }
pub proof fn lemma_lay0(l: Line, p0: Prt, wd: int)
    requires p0.end == p0.col
    ensures at_lay(p0, l, p0, wd, 0)
{ reveal(at_lay); assert(cells(l).take(0) =~= Seq::empty()); }
pub proof fn lemma_lay1(p: Prt, l: Line, p0: Prt, wd: int, j: int)
    requires at_lay(p, l, p0, wd, j), 0 <= j < l.text@.len(), cells(l)[j] == (l.text@[j], p.at)
    ensures
        l.text@[j] == '\n' ==> at_lay(p_nl(p), l, p0, wd, j + 1),
        l.text@[j] != '\n' && row_full(p, wd, l.text@[j]) ==> at_lay(p_put(p_nl(p), l.text@[j]), l, p0, wd, j + 1),
        l.text@[j] != '\n' && !row_full(p, wd, l.text@[j]) ==> at_lay(p_put(p, l.text@[j]), l, p0, wd, j + 1),
{
    reveal(at_lay); reveal(cells);
    assert(cells(l).take(j + 1).drop_last() =~= cells(l).take(j)); assert(cells(l).take(j + 1).last() == cells(l)[j]);
}
pub proof fn lemma_lay_at(p: Prt, l: Line, p0: Prt, wd: int, j: int, q: Prt)
    requires at_lay(p, l, p0, wd, j), q == (Prt { at: q.at, ..p })
    ensures at_lay(q, l, p0, wd, j)
{ reveal(at_lay); }
pub proof fn lemma_lay_end(p: Prt, l: Line, p0: Prt, wd: int)
    requires at_lay(p, l, p0, wd, l.text@.len() as int)
    ensures ({ let q = lay(p0, wd, cells(l)); p.log == q.log && p.row == q.row && p.col == q.col && p.end == p.col && p.ok == p0.ok })
{ reveal(at_lay); reveal(cells); assert(cells(l).take(l.text@.len() as int) =~= cells(l)); }
/// every visible character starts inside the row
pub proof fn lemma_lay_inside(p0: Prt, wd: int, t: Seq<Cell>)
    requires wd >= 1, p0.col == 0
    ensures ({ let q = lay(p0, wd, t); &&& q.col >= 0 &&& q.log.len() >= p0.log.len()
        &&& forall|i: int| p0.log.len() <= i < q.log.len() && cwi((#[trigger] q.log[i]).0) > 0 ==> 0 <= q.log[i].3 < wd }),
    decreases t.len()
{
    if t.len() > 0 { lemma_lay_inside(p0, wd, t.drop_last()); }
}
/// a newline is one byte
pub proof fn lemma_one(c: char)
    ensures c == '\n' ==> by(seq![c]).len() == 1
{ reveal_with_fuel(encode_utf8, 3); assert(seq![c].drop_first() =~= Seq::<char>::empty()); assert(by(seq![c]) =~= encode_scalar(c as u32)); }
}
