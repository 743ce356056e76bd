// The block: what is on the screen while it is remembered.  The unit that includes this defines Line, RememberedOutput,
// and of a Line: `good_line`, `cells` (its characters with their attributes), `tf` (what the rest of its last row is
// filled with), `same_line`, `in_line` (whether a character starts at a byte, or the text ends there), and `kx` (which).
verus! {
/// the content `c` has been drawn from row `top` on, on rows that were blank
pub open spec fn drawn(g: Grid, g0: Grid, wd: int, top: int, c: Seq<Cell>, f: Option<Attr>) -> bool { blank_from(g0, wd, top) && g == fill(draw(start(g0, top), wd, c).0, wd, f).g }
/// what is remembered is what is on the screen, and the cursor is where it is remembered to be
pub open spec fn blk(rem: Option<RememberedOutput>, t: VxTerm) -> bool {
    let s = t.s@; let wd = t.wd@;
    &&& t.ok() && s.at == plain() && s.bot >= s.row
    &&& match rem {
        None => fresh_row(t),
        Some(rem) => {
            let top = s.row - rem.cursor_top;
            &&& good_line(rem.output_line) && rem.cursor_left <= wd && s.x == min(rem.cursor_left as int, wd - 1)
            &&& exists|g0: Grid| #[trigger] drawn(s.g, g0, wd, top, cells(rem.output_line), tf(rem.output_line))
            &&& rem.cursor_pos matches Some(p) ==> in_line(rem.output_line, p as int) ==> (rem.cursor_left as int, rem.cursor_top as int) == spot(rem.output_line, wd, p as int)
            &&& s.bot >= top + walk(wd, cells(rem.output_line)).1
        } }
}
/// the first row of the block
pub open spec fn top(rem: Option<RememberedOutput>, t: VxTerm) -> int { match rem { None => t.s@.row, Some(r) => t.s@.row - r.cursor_top } }
/// no row above `top` is changed or moved to
pub open spec fn keeps_above(o: VxTerm, n: VxTerm, top: int) -> bool {
    &&& n.wd == o.wd && n.s@.low >= min(o.s@.low, top)
    &&& forall|r: int, c: int| r < top ==> #[trigger] (n.s@.g)(r, c) == (o.s@.g)(r, c)
}
/// the block is gone, and the cursor is where it started
pub open spec fn rolled_in(o: VxTerm, n: VxTerm, top: int) -> bool {
    keeps_above(o, n, top) && n.s@.row == top && n.s@.x == 0 && fresh_row(n) && n.p@.log == o.p@.log && n.p@.ok == o.p@.ok
}
/// where the cursor is to be: in front of the character at byte `p`, or after the last one
pub open spec fn spot(l: Line, wd: int, p: int) -> (int, int) { let q = walk(wd, cells(l).take(kx(l, p))); (q.0, q.1) }
/// the block shows the line `l`, with the cursor in front of byte `p` of it
pub open spec fn shows(o: VxTerm, n: VxTerm, top: int, l: Line, p: Option<usize>) -> bool {
    &&& keeps_above(o, n, top) && exists|g0: Grid| #[trigger] drawn(n.s@.g, g0, n.wd@, top, cells(l), tf(l))
    &&& p matches Some(p) ==> in_line(l, p as int) ==> (n.s@.x, n.s@.row) == ({ let q = spot(l, n.wd@, p as int); (q.0, top + q.1) })
}
/// a line is printed: each of its characters once, in order, where `lay` says, with its attributes; then a fresh row
pub open spec fn line_printed(o: VxTerm, n: VxTerm, l: Line) -> bool {
    let q = lay(o.p@, o.wd@, cells(l));
    n.p@.log == q.log && n.p@.row == q.row + 1 && n.p@.col == 0 && n.p@.at == plain() && n.p@.ok == o.p@.ok
}
/// the block is brought to show `l`, and that is remembered
pub open spec fn redrawn(r0: Option<RememberedOutput>, o: VxTerm, r1: Option<RememberedOutput>, n: VxTerm, l: Line, p: Option<usize>) -> bool {
    &&& r1 is Some && same_line(r1->0.output_line, l) && r1->0.cursor_pos == p
    &&& shows(o, n, top(r0, o), l, p)
}
}
