verus! {
// ---- how drawing proceeds
/// a cell before the cursor
pub open spec fn bf(r: int, c: int, s: Scr) -> bool { r < s.row || (r == s.row && c < s.x) }
/// the cells a character goes into
pub open spec fn rgn(s: Scr, im: bool, wd: int, ch: char, r: int, c: int) -> bool {
    r == s.row && s.x <= c < wd && (if ch != '\n' { c < s.x + cwi(ch) } else { !im })
}
pub open spec fn val(s: Scr, ch: char, at: Attr, c: int) -> Cell {
    if ch != '\n' { (if c == s.x { ch } else { '\0' }, at) } else if vis(at) { (' ', at) } else { (' ', (plain().0, plain().1, at.2)) }
}
/// every character has a cell of its own
pub open spec fn nozw(t: Seq<Cell>) -> bool { forall|i: int| 0 <= i < t.len() ==> own(#[trigger] t[i]) }
pub open spec fn own(z: Cell) -> bool { z.0 == '\n' || cwi(z.0) > 0 }
pub proof fn lemma_adv(s: Scr, im: bool, wd: int, ch: char, at: Attr)
    requires 0 <= s.x < wd
    ensures ({ let p = drawc(s, im, wd, ch, at); let q = adv((s.x, s.row, im), wd, ch);
        p.0.x == q.0 && p.0.row == q.1 && p.1 == q.2 && 0 <= p.0.x < wd && s.row <= p.0.row <= s.row + 1 && (p.0.bot == s.bot || p.0.bot == p.0.row) && p.0.bot >= s.bot && (s.bot >= s.row ==> p.0.bot >= p.0.row) && p.0.low == s.low && p.0.at == at }),
{ }
pub proof fn lemma_drawc(s: Scr, im: bool, wd: int, ch: char, at: Attr)
    requires 0 <= s.x < wd, own((ch, at))
    ensures ({ let p = drawc(s, im, wd, ch, at);
        &&& forall|r: int, c: int| #[trigger] (p.0.g)(r, c) == (if rgn(s, im, wd, ch, r, c) { val(s, ch, at, c) } else { (s.g)(r, c) })
        &&& forall|r: int, c: int| rgn(s, im, wd, ch, r, c) ==> !bf(r, c, s) && #[trigger] bf(r, c, p.0)
        &&& forall|r: int, c: int| bf(r, c, s) ==> #[trigger] bf(r, c, p.0) }),
{ }
/// the cells above are left alone
pub proof fn lemma_drawc_above(s: Scr, im: bool, wd: int, ch: char, at: Attr, r: int, c: int)
    requires r < s.row
    ensures (drawc(s, im, wd, ch, at).0.g)(r, c) == (s.g)(r, c)
{ }
pub proof fn lemma_walk(s: Scr, wd: int, t: Seq<Cell>)
    requires s.x == 0, wd > 0
    ensures ({ let p = draw(s, wd, t); let q = walk(wd, t); p.0.x == q.0 && p.0.row == s.row + q.1 && p.1 == q.2 && 0 <= q.0 < wd && 0 <= q.1 <= t.len() && p.0.low == s.low && (s.bot >= s.row ==> p.0.bot >= p.0.row) }),
    decreases t.len()
{ if t.len() > 0 { lemma_walk(s, wd, t.drop_last()); let p = draw(s, wd, t.drop_last()); lemma_adv(p.0, p.1, wd, t.last().0, t.last().1); } }
pub proof fn lemma_above(s: Scr, wd: int, t: Seq<Cell>, r: int, c: int)
    requires s.x == 0, wd > 0, r < s.row
    ensures (draw(s, wd, t).0.g)(r, c) == (s.g)(r, c)
    decreases t.len()
{ if t.len() > 0 { lemma_above(s, wd, t.drop_last(), r, c); lemma_walk(s, wd, t.drop_last()); } }
pub proof fn lemma_take_push(t: Seq<Cell>, j: int)
    requires 0 <= j < t.len()
    ensures t.take(j + 1).drop_last() == t.take(j), t.take(j + 1).last() == t[j], t.take(j + 1).len() == j + 1
{ assert(t.take(j + 1).drop_last() =~= t.take(j)); }
/// the cells from the cursor on are as they were
pub proof fn lemma_after(s: Scr, wd: int, t: Seq<Cell>, r: int, c: int)
    requires s.x == 0, wd > 0, nozw(t), !bf(r, c, draw(s, wd, t).0)
    ensures (draw(s, wd, t).0.g)(r, c) == (s.g)(r, c)
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last(); let p = draw(s, wd, u);
        lemma_walk(s, wd, u); assert(own(t[t.len() - 1])); lemma_drawc(p.0, p.1, wd, t.last().0, t.last().1);
        assert(nozw(u)) by { assert forall|i: int| 0 <= i < u.len() implies own(#[trigger] u[i]) by { assert(own(t[i])); } }
        if bf(r, c, p.0) { assert(bf(r, c, draw(s, wd, t).0)); } else { lemma_after(s, wd, u, r, c); }
    }
}
/// what has been drawn is not drawn over
pub proof fn lemma_frame(s: Scr, wd: int, t: Seq<Cell>, k: int, r: int, c: int)
    requires s.x == 0, wd > 0, nozw(t), 0 <= k <= t.len(), bf(r, c, draw(s, wd, t.take(k)).0)
    ensures (draw(s, wd, t).0.g)(r, c) == (draw(s, wd, t.take(k)).0.g)(r, c), bf(r, c, draw(s, wd, t).0)
    decreases t.len()
{
    if k == t.len() { assert(t.take(k) =~= t); } else {
        let u = t.drop_last(); let p = draw(s, wd, u);
        assert(u.take(k) =~= t.take(k));
        lemma_walk(s, wd, u); assert(own(t[t.len() - 1]));
        assert(nozw(u)) by { assert forall|i: int| 0 <= i < u.len() implies own(#[trigger] u[i]) by { assert(own(t[i])); } }
        lemma_frame(s, wd, u, k, r, c); lemma_drawc(p.0, p.1, wd, t.last().0, t.last().1);
    }
}
pub open spec fn alike(a: char, b: char) -> bool { (a == '\n') == (b == '\n') && cwi(a) == cwi(b) }
/// one character is replaced by another that takes the same cells
pub proof fn lemma_replace(s: Scr, wd: int, t: Seq<Cell>, k: int, b: Cell)
    requires s.x == 0, wd > 0, nozw(t), 0 <= k < t.len(), alike(t[k].0, b.0)
    ensures ({ let p = draw(s, wd, t); let q = draw(s, wd, t.update(k, b)); let d = draw(s, wd, t.take(k));
        &&& q.0.row == p.0.row && q.0.x == p.0.x && q.1 == p.1 && q.0.bot == p.0.bot
        &&& forall|r: int, c: int| #[trigger] (q.0.g)(r, c) == (if rgn(d.0, d.1, wd, b.0, r, c) { val(d.0, b.0, b.1, c) } else { (p.0.g)(r, c) })
        &&& forall|r: int, c: int| rgn(d.0, d.1, wd, b.0, r, c) ==> #[trigger] bf(r, c, q.0) }),
    decreases t.len()
{
    let u = t.drop_last(); let d = draw(s, wd, t.take(k));
    assert(own(t[t.len() - 1])); assert(own(t[k]));
    assert(nozw(u)) by { assert forall|i: int| 0 <= i < u.len() implies own(#[trigger] u[i]) by { assert(own(t[i])); } }
    lemma_walk(s, wd, u); lemma_walk(s, wd, t.take(k));
    if k == t.len() - 1 {
        assert(t.update(k, b).drop_last() =~= u); assert(t.take(k) =~= u);
        lemma_drawc(d.0, d.1, wd, b.0, b.1); lemma_drawc(d.0, d.1, wd, t[k].0, t[k].1);
    } else {
        lemma_replace(s, wd, u, k, b);
        assert(t.update(k, b).drop_last() =~= u.update(k, b)); assert(u.take(k) =~= t.take(k));
        let p1 = draw(s, wd, u); let q1 = draw(s, wd, u.update(k, b)); let z = t.last();
        lemma_drawc(p1.0, p1.1, wd, z.0, z.1); lemma_drawc(q1.0, q1.1, wd, z.0, z.1);
        let p = draw(s, wd, t); let q = draw(s, wd, t.update(k, b));
        assert(q == drawc(q1.0, q1.1, wd, z.0, z.1)); assert(p == drawc(p1.0, p1.1, wd, z.0, z.1));
        assert forall|r: int, c: int| true implies #[trigger] (q.0.g)(r, c) == (if rgn(d.0, d.1, wd, b.0, r, c) { val(d.0, b.0, b.1, c) } else { (p.0.g)(r, c) }) by {
            assert((q.0.g)(r, c) == (if rgn(q1.0, q1.1, wd, z.0, r, c) { val(q1.0, z.0, z.1, c) } else { (q1.0.g)(r, c) }));
            assert((p.0.g)(r, c) == (if rgn(p1.0, p1.1, wd, z.0, r, c) { val(p1.0, z.0, z.1, c) } else { (p1.0.g)(r, c) }));
            assert((q1.0.g)(r, c) == (if rgn(d.0, d.1, wd, b.0, r, c) { val(d.0, b.0, b.1, c) } else { (p1.0.g)(r, c) }));
            if rgn(d.0, d.1, wd, b.0, r, c) { assert(bf(r, c, q1.0)); assert(!rgn(q1.0, q1.1, wd, z.0, r, c)); }
        }
    }
}
pub proof fn lemma_nozw(l: Line)
    ensures nozw(cells(l)) == (forall|i: int| 0 <= i < l.text@.len() ==> own((#[trigger] l.text@[i], plain())))
{
    reveal(cells);
    if nozw(cells(l)) { assert forall|i: int| 0 <= i < l.text@.len() implies own((#[trigger] l.text@[i], plain())) by { assert(own(cells(l)[i])); } }
    if forall|i: int| 0 <= i < l.text@.len() ==> own((#[trigger] l.text@[i], plain())) { assert forall|i: int| 0 <= i < cells(l).len() implies own(#[trigger] cells(l)[i]) by { assert(own((l.text@[i], plain()))); } }
}
}
