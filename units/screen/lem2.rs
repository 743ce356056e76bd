verus! {
// ---- what has been drawn while the block is being updated
/// the part of the new content that has been dealt with, followed by what is left of the old
pub open spec fn mix(n: Seq<Cell>, o: Seq<Cell>, j: int) -> Seq<Cell> { n.take(j) + o.skip(j) }
/// `old`: the previous content, if it is still there; `fd`: what the rest of the last row is filled with, if it is
#[verifier::opaque]
pub open spec fn phase(g: Grid, g0: Grid, top: int, wd: int, n: Seq<Cell>, j: int, old: Option<Seq<Cell>>, fd: Option<Attr>, f: Option<Attr>) -> bool {
    let st = start(g0, top);
    &&& 0 <= j <= n.len() && wd > 0 && blank_from(g0, wd, top)
    &&& (match old {
        Some(o) => j <= o.len() && (n == o || nozw(n) && nozw(o)) && g == fill(draw(st, wd, mix(n, o, j)).0, wd, f).g,
        None => g == fill(draw(st, wd, n.take(j)).0, wd, fd).g && (fd is None || fd == f && nozw(n)) })
}
pub proof fn lemma_mix_ends(n: Seq<Cell>, o: Seq<Cell>)
    ensures mix(n, o, 0) == o, n.len() <= o.len() ==> (mix(n, o, n.len() as int) == n + o.skip(n.len() as int)), o.len() <= n.len() ==> mix(n, o, o.len() as int) == n.take(o.len() as int)
{
    assert(mix(n, o, 0) =~= o);
    if o.len() <= n.len() { assert(mix(n, o, o.len() as int) =~= n.take(o.len() as int)); }
}
pub proof fn lemma_mix_step(n: Seq<Cell>, o: Seq<Cell>, j: int)
    requires 0 <= j < n.len(), j < o.len()
    ensures mix(n, o, j + 1) == mix(n, o, j).update(j, n[j]), mix(n, o, j).take(j) == n.take(j), mix(n, o, j).len() == o.len(), mix(n, o, j)[j] == o[j],
        n[j] == o[j] ==> mix(n, o, j + 1) == mix(n, o, j)
{
    let m = mix(n, o, j);
    assert(mix(n, o, j + 1) =~= m.update(j, n[j])); assert(m.take(j) =~= n.take(j));
    if n[j] == o[j] { assert(m.update(j, n[j]) =~= m); }
}
pub proof fn lemma_mix_nozw(n: Seq<Cell>, o: Seq<Cell>, j: int)
    requires nozw(n), nozw(o), 0 <= j <= n.len(), j <= o.len()
    ensures nozw(mix(n, o, j)), nozw(n.take(j))
{
    let m = mix(n, o, j);
    assert forall|i: int| 0 <= i < m.len() implies own(#[trigger] m[i]) by { if i < j { assert(own(n[i])); } else { assert(own(o[i])); } }
    assert forall|i: int| 0 <= i < j implies own(#[trigger] n.take(j)[i]) by { assert(own(n[i])); }
}
/// the rows go down
pub proof fn lemma_walk_mono(wd: int, t: Seq<Cell>, k: int)
    requires 0 <= k <= t.len()
    ensures walk(wd, t.take(k)).1 <= walk(wd, t).1
    decreases t.len()
{
    if k == t.len() { assert(t.take(k) =~= t); } else { lemma_walk_mono(wd, t.drop_last(), k); assert(t.drop_last().take(k) =~= t.take(k)); }
}
pub proof fn lemma_walk_step(wd: int, t: Seq<Cell>, j: int)
    requires 0 <= j < t.len()
    ensures walk(wd, t.take(j + 1)) == adv(walk(wd, t.take(j)), wd, t[j].0)
{ lemma_take_push(t, j); }
pub proof fn lemma_walk_bound(wd: int, t: Seq<Cell>, j: int)
    requires 0 <= j <= t.len(), wd > 0
    ensures ({ let q = walk(wd, t.take(j)); 0 <= q.0 < wd && 0 <= q.1 <= j })
{ lemma_walk(start(|r: int, c: int| blank(), 0), wd, t.take(j)); }
/// outside of the columns nothing is drawn
pub proof fn lemma_outside(s: Scr, wd: int, t: Seq<Cell>, r: int, c: int)
    requires s.x == 0, wd > 0, c < 0 || c >= wd
    ensures (draw(s, wd, t).0.g)(r, c) == (s.g)(r, c)
    decreases t.len()
{ if t.len() > 0 { lemma_outside(s, wd, t.drop_last(), r, c); lemma_walk(s, wd, t.drop_last()); } }
pub proof fn lemma_drawc_cong(s: Scr, t: Scr, im: bool, wd: int, ch: char, at: Attr)
    requires s.row == t.row, s.x == t.x, s.g == t.g
    ensures drawc(s, im, wd, ch, at).0.g == drawc(t, im, wd, ch, at).0.g
{ assert(drawc(s, im, wd, ch, at).0.g =~= drawc(t, im, wd, ch, at).0.g); }
/// where the real cursor is, the next character is to be drawn
pub open spec fn there(s: Scr, top: int, wd: int, n: Seq<Cell>, j: int) -> bool { let q = walk(wd, n.take(j)); s.x == q.0 && s.row == top + q.1 }
pub proof fn lemma_phase_same(g: Grid, g0: Grid, top: int, wd: int, n: Seq<Cell>, j: int, o: Seq<Cell>, fd: Option<Attr>, f: Option<Attr>)
    requires phase(g, g0, top, wd, n, j, Some(o), fd, f), j < n.len(), j < o.len(), n[j] == o[j]
    ensures phase(g, g0, top, wd, n, j + 1, Some(o), fd, f)
{ reveal(phase); lemma_mix_step(n, o, j); }
/// a character is drawn over another that takes the same cells
pub proof fn lemma_phase_over(s: Scr, im: bool, g0: Grid, top: int, wd: int, n: Seq<Cell>, j: int, o: Seq<Cell>, fd: Option<Attr>, f: Option<Attr>)
    requires phase(s.g, g0, top, wd, n, j, Some(o), fd, f), j < n.len(), j < o.len(), n[j] != o[j], alike(n[j].0, o[j].0), there(s, top, wd, n, j), im == walk(wd, n.take(j)).2
    ensures phase(drawc(s, im, wd, n[j].0, n[j].1).0.g, g0, top, wd, n, j + 1, Some(o), fd, f),
        walk(wd, mix(n, o, j + 1)).1 == walk(wd, mix(n, o, j)).1,
{
    reveal(phase);
    let st = start(g0, top); let b = n[j]; let m = mix(n, o, j); let m2 = mix(n, o, j + 1); let q = drawc(s, im, wd, b.0, b.1).0;
    lemma_mix_step(n, o, j); lemma_mix_nozw(n, o, j); lemma_replace(st, wd, m, j, b); lemma_walk(st, wd, n.take(j)); lemma_walk(st, wd, m); lemma_walk(st, wd, m2);
    assert(own(n[j]));
    let d = draw(st, wd, m.take(j)); let p = draw(st, wd, m); let p2 = draw(st, wd, m2);
    lemma_drawc(s, im, wd, b.0, b.1);
    let want = fill(p2.0, wd, f).g;
    assert forall|r: int, c: int| true implies #[trigger] (q.g)(r, c) == want(r, c) by {
        assert((p2.0.g)(r, c) == (if rgn(d.0, d.1, wd, b.0, r, c) { val(d.0, b.0, b.1, c) } else { (p.0.g)(r, c) }));
        assert((q.g)(r, c) == (if rgn(s, im, wd, b.0, r, c) { val(s, b.0, b.1, c) } else { (s.g)(r, c) }));
        assert(rgn(s, im, wd, b.0, r, c) == rgn(d.0, d.1, wd, b.0, r, c));
        if rgn(d.0, d.1, wd, b.0, r, c) { assert(bf(r, c, p2.0)); }
    }
    assert(q.g =~= want);
}
/// everything from where the next character goes is cleared
pub proof fn lemma_phase_clear(s: Scr, g0: Grid, top: int, wd: int, n: Seq<Cell>, j: int, o: Seq<Cell>, fd: Option<Attr>, f: Option<Attr>)
    requires phase(s.g, g0, top, wd, n, j, Some(o), fd, f), j < n.len() && j < o.len() && n[j] != o[j] || n.len() != o.len(), there(s, top, wd, n, j)
    ensures phase(s_clear(s, wd).g, g0, top, wd, n, j, None, None, f)
{
    reveal(phase);
    let st = start(g0, top); let m = mix(n, o, j); let d = draw(st, wd, n.take(j)).0; let g2 = s_clear(s, wd).g; let e = draw(st, wd, m).0;
    lemma_mix_nozw(n, o, j); lemma_walk(st, wd, n.take(j)); lemma_walk(st, wd, m); assert(m.take(j) =~= n.take(j));
    assert forall|r: int, c: int| true implies #[trigger] g2(r, c) == (d.g)(r, c) by {
        if c < 0 || c >= wd { lemma_outside(st, wd, m, r, c); lemma_outside(st, wd, n.take(j), r, c); }
        else if bf(r, c, d) {
            lemma_frame(st, wd, m, j, r, c);
            assert(bf(r, c, e));
        } else { lemma_after(st, wd, n.take(j), r, c); assert(g0(r, c) == blank()); }
    }
    assert(g2 =~= d.g);
}
/// the old content has ended
pub proof fn lemma_phase_ended(g: Grid, g0: Grid, top: int, wd: int, n: Seq<Cell>, j: int, o: Seq<Cell>, fd: Option<Attr>, f: Option<Attr>)
    requires phase(g, g0, top, wd, n, j, Some(o), fd, f), j == o.len()
    ensures phase(g, g0, top, wd, n, j, None, if n == o { None } else { f }, f) || n == o, n == o ==> g == fill(draw(start(g0, top), wd, n).0, wd, f).g,
        o.len() < n.len() ==> phase(g, g0, top, wd, n, j, None, f, f),
        o.len() == n.len() ==> g == fill(draw(start(g0, top), wd, n).0, wd, f).g,
{ reveal(phase); lemma_mix_ends(n, o); if n == o { assert(n.take(j) =~= n); } }
/// a character is drawn where nothing of the old content is left
pub proof fn lemma_phase_draw(s: Scr, im: bool, g0: Grid, top: int, wd: int, n: Seq<Cell>, j: int, fd: Option<Attr>, f: Option<Attr>)
    requires phase(s.g, g0, top, wd, n, j, None, fd, f), j < n.len(), there(s, top, wd, n, j), im == walk(wd, n.take(j)).2
    ensures ({ let q = drawc(s, im, wd, n[j].0, n[j].1).0; phase(q.g, g0, top, wd, n, j + 1, None, if q.row == s.row { fd } else { None }, f) })
{
    reveal(phase);
    let st = start(g0, top); let b = n[j]; let d = draw(st, wd, n.take(j)); let q = drawc(s, im, wd, b.0, b.1).0;
    lemma_take_push(n, j); lemma_walk(st, wd, n.take(j));
    let d2 = draw(st, wd, n.take(j + 1));
    assert(d2 == drawc(d.0, d.1, wd, b.0, b.1));
    lemma_adv(s, im, wd, b.0, b.1); lemma_adv(d.0, d.1, wd, b.0, b.1);
    match fd {
        None => { lemma_drawc_cong(s, d.0, im, wd, b.0, b.1); }
        Some(a) => {
            assert(own(n[j]));
            lemma_drawc(s, im, wd, b.0, b.1); lemma_drawc(d.0, d.1, wd, b.0, b.1);
            let want = fill(d2.0, wd, if q.row == s.row { fd } else { None }).g;
            assert forall|r: int, c: int| true implies #[trigger] (q.g)(r, c) == want(r, c) by {
                assert((q.g)(r, c) == (if rgn(s, im, wd, b.0, r, c) { val(s, b.0, b.1, c) } else { (s.g)(r, c) }));
                assert((d2.0.g)(r, c) == (if rgn(d.0, d.1, wd, b.0, r, c) { val(d.0, b.0, b.1, c) } else { (d.0.g)(r, c) }));
                assert(rgn(s, im, wd, b.0, r, c) == rgn(d.0, d.1, wd, b.0, r, c));
            }
            assert(q.g =~= want);
        }
    }
}
/// the rest of the last row is filled (again)
pub proof fn lemma_phase_fill(s: Scr, g0: Grid, top: int, wd: int, n: Seq<Cell>, fd: Option<Attr>, f: Option<Attr>)
    requires phase(s.g, g0, top, wd, n, n.len() as int, None, fd, f) || s.g == fill(draw(start(g0, top), wd, n).0, wd, f).g, there(s, top, wd, n, n.len() as int), wd > 0
    ensures f matches Some(a) ==> s_spaces(s_at(s, a), wd, wd - s.x).g == fill(draw(start(g0, top), wd, n).0, wd, f).g,
        f is None ==> s.g == fill(draw(start(g0, top), wd, n).0, wd, f).g,
{
    reveal(phase);
    let st = start(g0, top); assert(n.take(n.len() as int) =~= n); lemma_walk(st, wd, n);
    let d = draw(st, wd, n).0;
    if let Some(a) = f {
        let x = s_spaces(s_at(s, a), wd, wd - s.x).g; let y = fill(d, wd, f).g;
        assert forall|r: int, c: int| true implies #[trigger] x(r, c) == y(r, c) by { }
        assert(x =~= y);
    }
}
pub proof fn lemma_phase_nofill(g: Grid, g0: Grid, top: int, wd: int, n: Seq<Cell>, fd: Option<Attr>)
    requires phase(g, g0, top, wd, n, n.len() as int, None, fd, None)
    ensures g == fill(draw(start(g0, top), wd, n).0, wd, None).g
{ reveal(phase); assert(n.take(n.len() as int) =~= n); }
/// the block as it was
pub proof fn lemma_phase_old(g: Grid, g0: Grid, top: int, wd: int, n: Seq<Cell>, o: Seq<Cell>, f: Option<Attr>)
    requires blank_from(g0, wd, top), wd > 0, g == fill(draw(start(g0, top), wd, o).0, wd, f).g, n == o || nozw(n) && nozw(o)
    ensures phase(g, g0, top, wd, n, 0, Some(o), None, f)
{ reveal(phase); lemma_mix_ends(n, o); }
pub proof fn lemma_phase_new(g: Grid, top: int, wd: int, n: Seq<Cell>, f: Option<Attr>)
    requires blank_from(g, wd, top), wd > 0
    ensures phase(g, g, top, wd, n, 0, None, None, f)
{ reveal(phase); assert(n.take(0) =~= Seq::empty()); }
/// nothing above the block is touched
pub proof fn lemma_block_above(g0: Grid, top: int, wd: int, n: Seq<Cell>, f: Option<Attr>, r: int, c: int)
    requires wd > 0, r < top
    ensures (fill(draw(start(g0, top), wd, n).0, wd, f).g)(r, c) == g0(r, c)
{ lemma_above(start(g0, top), wd, n, r, c); lemma_walk(start(g0, top), wd, n); }
}
