//@header
//@include ../common/sx.rs
//@include ../common/line_sx.rs
//@include ../common/scr_sx.rs
//@include lem.rs
//@include lem2.rs
//@include print.rs
//@include ../common/blk_sx.rs
//@include blk.rs
verus! {
pub struct DummyError {}
pub type LifeOrDeath = std::result::Result<(), DummyError>;
pub open spec fn vis(a: Attr) -> bool { a.0.bits & Style::INVERSE.bits == Style::INVERSE.bits || a.0.bits & Style::UNDERLINE.bits == Style::UNDERLINE.bits || a.2 is Some }
//@footer
}
fn main() {}
//@typemap std::str::CharIndices<'a> => VxCharIndices<'a>
//@typemap RefCell<Box<dyn Term>> => VxTerm
//@typemap RefMut<'_, Box<dyn Term>> => VxTerm
//@refcell self.term
//@method iter => vx_it
//@method char_indices => vx_char_indices
//@method len => vx_len
//@method unwrap_or => vx_unwrap_or
//@method as_mut => vx_as_mut
//@method chars => vx_chars
//@method min => vx_min
//@optlit and_then map filter
//@features wrap history completion
//@file src/lib.rs
//@type Style #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type Color #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@file src/line.rs
//@type LineElement
//@type Line
//@type LineCharIterator
//@type LineChar #[derive(Clone, Copy)]
//@raw
//@include iter.rs
//@impl Line
//@fn chars props=C17,C18 ret=res as=vx_chars
    requires self.wf()
    ensures res.wf(), res.line == self, res.indices.k@ == 0, //# C17,C18
//@endimpl
//@impl LineCharIterator : impl<'a> LineCharIterator<'a>
//@fn new props=C17,C18 ret=res
    requires line.wf()
    ensures res.wf(), res.line == line, res.indices.k@ == 0, //# C17,C18
//@endimpl
//@impl LineCharIterator trait Iterator : impl<'a> LineCharIterator<'a>
//@fn next props=C17,C18 ret=res
//@sig (&mut self) -> (res: Option<LineChar>)
    requires old(self).wf()
    ensures final(self).wf(), final(self).line == old(self).line, //# C17,C18
        ({ let k = old(self).indices.k@; let l = *old(self).line; let s = l.text@;
           match res {
               None => k == s.len() && final(self).indices.k@ == k,
               Some(x) => k < s.len() && final(self).indices.k@ == k + 1 && x.ch == s[k] && x.index == by(s.take(k)).len() && (x.style, x.fg, x.bg) == l.sb()[x.index as int].1,
           } }), //# C17,C18
//@hint start
    let ghost l = *self.line; let ghost k = self.indices.k@; let ghost s = l.text@; let ghost i = by(s.take(k)).len() as int;
    proof {
        if k < s.len() { lemma_take1(s, k); lemma_take_cut(s, k, k + 1); 
            assert forall|c: int| 0 <= c <= l.elements@.len() && (c > 0 ==> (#[trigger] l.elements@[c - 1]).end <= i) implies c < l.elements@.len() && l.elements@[c].start <= i && (i < l.elements@[c].end ==> l.sb()[i].1 == l.elements@[c].at()) by {
                lemma_cover_next(l, c, i); if i < l.elements@[c].end { lemma_sb_at(l, c, i); } } }
        else { lemma_take_cut(s, k, k); }
    }
//@loop 0
    invariant self.line == old(self).line, self.indices.s == old(self).indices.s, self.indices.k@ == k + 1, k < s.len(), l == *self.line, s == l.text@, i == by(s.take(k)).len(), index == i, i < by(s.take(k + 1)).len(),
        self.cur_element <= l.elements@.len(), self.cur_element > 0 ==> l.elements@[self.cur_element - 1].end <= i,
    decreases l.elements@.len() - self.cur_element
//@endimpl
//@impl LineChar trait PartialEq : impl LineChar
//@fn eq props=C17,C18 ret=res as=vx_same
    ensures res == (self.ch == other.ch && self.style == other.style && self.fg == other.fg && self.bg == other.bg), //# C17,C18
//@endimpl
//@impl LineChar
//@fn endfills_same_as props=C17,C18 ret=res
//@endimpl
//@file src/worker.rs
//@type RememberedOutput
//@type TtyState
status: -
prompt: -
notice: -
input: -
clipboard: -
own_output: -
history: -
cur_history_index: -
orphaned_new_input: -
history_original_line: -
completor: -
consecutive_completion_presses: -
input_cursor: -
//@impl TtyState
//@fn output_line props=C16 ret=res attr=#[verifier::rlimit(100)]
//@sig (&mut self, line: &Line) -> (res: LifeOrDeath)
    requires line.wf(), old(self).term.s@.x == 0, old(self).term.p@.col == 0, old(self).term.p@.end == 0, old(self).term.ok(),
    ensures
        res is Ok ==> line_printed(old(self).term, final(self).term, *line), //# C16
        res is Ok ==> printed(old(self).term, final(self).term), final(self).remembered_output == old(self).remembered_output, //# C17
//@hint start
    let ghost l = *line; let ghost w0 = self.term; let ghost wd = w0.wd@; let ghost p0 = w0.p@; let ghost self0 = *self; let ghost t = l.text@;
    proof { lemma_lay0(l, p0, wd); lemma_line_ends(l); lemma_puts0(p0); if t.len() > 0 { lemma_by_nonempty(t); } }
//@loop 0
    invariant *line == l, l.wf(), t == l.text@, wd == w0.wd@, term.wd@ == wd, term_width == wd, 1 <= wd <= 0xffff, p0 == w0.p@,
        vx_it0.wf(), vx_it0.s@ == l.elements@, vx_it0.hi == l.elements@.len(), cur_column == term.p@.col, cur_column == term.p@.end, cur_column <= 0x1_0000,
        at_lay(term.p@, l, p0, wd, if vx_it0.lo == 0 { 0 } else { k_hi(l, vx_it0.lo - 1) }), //# C16
        through(w0, *term), //# C17
    ensures vx_it0.lo == l.elements@.len()
    decreases l.elements@.len() - vx_it0.lo
//@hint loop 0 start
    let ghost i = vx_it0.lo as int; let ghost k0 = k_lo(l, i); let ghost k1 = k_hi(l, i); let ghost e = l.elements@[i]; let ghost u = t.subrange(k0, k1); let ghost p1 = term.p@;
    proof { if i < l.elements@.len() { lemma_elem(l, i); lemma_texts(u); } }
//@hint loop 1 before
    proof { lemma_lay_at(p1, l, p0, wd, k0, term.p@); lemma_cidx(u, 0); lemma_take_cut(u, 0, 0); lemma_puts0(term.p@); assert(u.subrange(0, 0) =~= Seq::empty()); }
//@loop 1
    invariant *line == l, l.wf(), t == l.text@, wd == w0.wd@, term.wd@ == wd, term_width == wd, 1 <= wd <= 0xffff, p0 == w0.p@,
        text@ == u, vx_it1.s@ == u, 0 <= vx_it1.k@ <= u.len(), u == t.subrange(k0, k1), 0 <= k0 <= k1 <= t.len(), *element == e,
        forall|k: int| k0 <= k < k1 ==> #[trigger] cells(l)[k] == (t[k], e.at()),
        term.p@.at == e.at(), term.s@.at == e.at(), cur_column <= 0x1_0000,
        ({ let k = vx_it1.k@; let kc = cidx(u, cur as int); let q = p_puts(term.p@, u.subrange(kc, k));
            0 <= kc <= k && by(u.take(kc)).len() == cur && at_lay(q, l, p0, wd, k0 + k) && q.col == cur_column && q.end == cur_column }), //# C16
        through(w0, *term), //# C17
    ensures vx_it1.k@ == u.len()
    decreases u.len() - vx_it1.k@
//@hint loop 1 start
    let ghost k = vx_it1.k@; let ghost kc = cidx(u, cur as int); let ghost ch0 = u[k]; let ghost pq = term.p@;
    proof { if k < u.len() {
        lemma_take_cut(u, kc, k); lemma_take_cut(u, k, k + 1); lemma_cidx(u, k); lemma_cidx(u, k + 1); lemma_texts(u.subrange(kc, k));
        assert(u.subrange(k, k + 1) =~= seq![u[k]]);
        lemma_p_puts(pq, u.subrange(kc, k)); lemma_lay1(p_puts(pq, u.subrange(kc, k)), l, p0, wd, k0 + k); lemma_s_puts(term.s@, wd, u.subrange(kc, k)); lemma_puts_push(pq, u.subrange(kc, k), u[k]);
        assert(u.subrange(kc, k).push(u[k]) =~= u.subrange(kc, k + 1));
        assert(u.subrange(k, k) =~= Seq::empty());
         assert(u.subrange(k + 1, k + 1) =~= Seq::empty()); lemma_char_bytes(u[k]); lemma_one(u[k]);
        assert(ch0 == t[k0 + k]);
    } }
//@hint loop 1 after
    let ghost kc = cidx(u, cur as int); let ghost n = u.len() as int;
    proof { lemma_take_cut(u, kc, n); lemma_texts(u.subrange(kc, n)); lemma_p_puts(term.p@, u.subrange(kc, n)); lemma_s_puts(term.s@, wd, u.subrange(kc, n)); lemma_puts0(term.p@); if kc == n { assert(u.subrange(kc, n) =~= Seq::empty()); } else { assert(u.subrange(kc, n).len() > 0); } }
//@hint loop 1 end
    proof {
        let pr = p_puts(pq, u.subrange(kc, k));
        if ch0 == '\n' || row_full(pr, wd, ch0) {
            assert(term.p@ == p_nl(pr)); lemma_puts0(term.p@);
            if ch0 == '\n' { assert(cidx(u, cur as int) == k + 1); } else { assert(cidx(u, cur as int) == k); lemma_puts_push(term.p@, Seq::empty(), ch0); assert(Seq::empty().push(ch0) =~= u.subrange(k, k + 1)); }
        } else { assert(term.p@ == pq); assert(cidx(u, cur as int) == kc); }
    }
//@hint loop 0 after
    proof { if l.elements@.len() > 0 { lemma_elem(l, l.elements@.len() - 1); } lemma_lay_end(term.p@, l, p0, wd); }
//@fn maybe_report props=C17,C18 noself
    ensures *final(out_column) == (if cursor_pos == Some(index) { Some(if cur_column >= term_width { term_width } else { cur_column }) } else { *old(out_column) }), //# C17,C18
        *final(out_breaks) == (if cursor_pos == Some(index) { Some(cur_breaks) } else { *old(out_breaks) }), //# C17,C18
//@fn reconcile_cursors props=C17,C18 noself
    requires old(term).ok(), term_width == old(term).wd@, old(term).s@.x == min(*old(real_column) as int, term_width - 1),
        old(term).s@.row + cur_breaks - *old(real_breaks) <= old(term).s@.bot, old(term).s@.bot >= old(term).s@.row,
    ensures final(term).wd == old(term).wd,
        res is Ok ==> ({ let s = old(term).s@; let q = final(term).s@; let row = s.row + cur_breaks - *old(real_breaks);
            &&& q.row == row && q.x == min(cur_column as int, term_width - 1) && q.g == s.g && q.at == s.at && q.bot == s.bot && q.low >= min(s.low, row)
            &&& *final(real_breaks) == cur_breaks && q.x == min(*final(real_column) as int, term_width - 1) && *final(real_column) <= term_width }), //# C17,C18
//@fn output_char props=C17,C18 noself eqs
    requires old(term).ok(), term_width == old(term).wd@, *old(cur_attr) == old(term).s@.at, old(term).s@.x == *old(cur_column), *old(cur_column) < term_width, *old(cur_breaks) < u32::MAX,
    ensures final(term).wd == old(term).wd,
        res is Ok ==> ({ let p = drawc(old(term).s@, *old(implied_newline), term_width as int, lc.ch, (lc.style, lc.fg, lc.bg));
            &&& final(term).s@ == p.0 && *final(cur_attr) == final(term).s@.at
            &&& (*final(cur_column) as int, *final(cur_breaks) as int, *final(implied_newline)) == adv((*old(cur_column) as int, *old(cur_breaks) as int, *old(implied_newline)), term_width as int, lc.ch) }), //# C17,C18
//@fn sim_output_char props=C17,C18 noself
    requires *old(cur_column) < term_width, *old(cur_breaks) < u32::MAX, term_width <= 0xffff,
    ensures res is Ok, (*final(cur_column) as int, *final(cur_breaks) as int, *final(implied_newline)) == adv((*old(cur_column) as int, *old(cur_breaks) as int, *old(implied_newline)), term_width as int, lc.ch), //# C17,C18
//@fn rollin props=C17 ret=res
    requires blk(old(self).remembered_output, old(self).term),
    ensures res is Ok ==> final(self).remembered_output is None && rolled_in(old(self).term, final(self).term, top(old(self).remembered_output, old(self).term)), //# C17
//@fn output_line_changes props=C17,C18 ret=res eqs attr=#[verifier::rlimit(100)]
    requires good_line(*new_line), blk(old(self).remembered_output, old(self).term), !break_after, endfill,
    ensures res is Ok ==> blk(final(self).remembered_output, final(self).term), //# C17
        res is Ok ==> redrawn(old(self).remembered_output, old(self).term, final(self).remembered_output, final(self).term, *new_line, cursor_pos), //# C18
//@hint start
    let ghost nl = *new_line; let ghost n = cells(*new_line); let ghost f = tf(*new_line); let ghost w0 = self.term; let ghost wd = w0.wd@; let ghost tp = top(self.remembered_output, self.term); let ghost low0 = min(w0.s@.low, tp);
    let ghost mut fd: Option<Attr> = None; let ghost mut g0 = w0.s@.g; let ghost mut o: Seq<Cell> = Seq::empty(); let ghost mut ol = nl;
    proof {
        lemma_cells_len(nl); o = n;
        if let Some(ref rem) = self.remembered_output { let l = rem.output_line; if nl.text@ == l.text@ && nl.elements@ == l.elements@ { lemma_same_line(nl, l); let g = choose|g0: Grid| #[trigger] drawn(w0.s@.g, g0, wd, tp, cells(l), tf(l)); assert(drawn(w0.s@.g, g, wd, tp, n, f));
            if let Some(p) = cursor_pos { if in_line(nl, p as int) { lemma_bnd_idx(nl.text@, p as int); lemma_walk_bound(wd, n, kx(nl, p as int)); } } } }
    }
//@hint let term 0 before
    proof {
        match self.remembered_output {
            Some(ref rem) => {
                ol = rem.output_line; o = cells(ol); lemma_cells_len(ol); g0 = choose|g0: Grid| #[trigger] drawn(w0.s@.g, g0, wd, tp, o, tf(ol));
                if nl.text@ == ol.text@ && nl.elements@ == ol.elements@ { lemma_same_line(nl, ol); }
                assert forall|r: int, c: int| r < tp implies g0(r, c) == #[trigger] (w0.s@.g)(r, c) by { lemma_block_above(g0, tp, wd, o, f, r, c); }
                lemma_phase_old(self.term.s@.g, g0, tp, wd, n, o, f); lemma_mix_ends(n, o);
            }
            None => { g0 = self.term.s@.g;  lemma_phase_new(g0, tp, wd, n, f); }
        }
        lemma_rep0(nl, wd, cursor_pos);
        assert(n.take(0) =~= Seq::empty());
    }
//@loop 0
    invariant_except_break
        new_chars.wf(), new_chars.line == new_line, old_chars matches Some(oc) ==> oc.wf() && *oc.line == ol && oc.indices.k@ == new_chars.indices.k@,
        walk(wd, n.take(new_chars.indices.k@)) == (cur_column as int, cur_breaks as int, implied_newline), cur_column < wd, term.s@.row == tp + real_breaks, term.s@.x == min(real_column as int, wd - 1), real_column <= wd, term.s@.at == cur_attr,
        term.s@.bot >= term.s@.row, term.s@.bot >= tp + cur_breaks, term.s@.low >= low0,
        old_chars is Some ==> term.s@.bot >= tp + walk(wd, mix(n, o, new_chars.indices.k@)).1,
        phase(term.s@.g, g0, tp, wd, n, new_chars.indices.k@, if old_chars is Some { Some(o) } else { None }, fd, f),
        rep(nl, wd, new_chars.indices.k@, cursor_pos, output_cursor_left, output_cursor_top),
        endfill_redundant ==> old_chars is Some,
    invariant
        good_line(nl), nl == *new_line, n == cells(nl), n.len() == nl.text@.len() <= 0x7fff_ffff, f == tf(nl), wd == w0.wd@, term.wd@ == wd, term_width == wd, 1 <= wd <= 0xffff, low0 == min(w0.s@.low, tp),
        o == cells(ol), o.len() == ol.text@.len(),
    ensures vx_b0 is Some, new_chars.wf(), new_chars.line == new_line, 0 <= new_chars.indices.k@ <= n.len(),
        walk(wd, n.take(new_chars.indices.k@)) == (cur_column as int, cur_breaks as int, implied_newline), cur_column < wd, term.s@.row == tp + real_breaks, term.s@.x == min(real_column as int, wd - 1), real_column <= wd, term.s@.at == cur_attr || new_chars.indices.k@ == n.len(),
        term.s@.bot >= term.s@.row, term.s@.bot >= tp + cur_breaks, term.s@.low >= low0,
        rep(nl, wd, new_chars.indices.k@, cursor_pos, output_cursor_left, output_cursor_top),
        phase(term.s@.g, g0, tp, wd, n, new_chars.indices.k@, None, fd, f) || new_chars.indices.k@ == n.len() && term.s@.g == fill(draw(start(g0, tp), wd, n).0, wd, f).g,
        vx_b0->0 ==> new_chars.indices.k@ == n.len(),
        vx_b0->0 && endfill_redundant ==> term.s@.g == fill(draw(start(g0, tp), wd, n).0, wd, f).g,
    decreases n.len() - new_chars.indices.k@
//@hint loop 0 start
    let ghost j = new_chars.indices.k@; let ghost t0 = *term; let ghost had = old_chars is Some; let ghost im0 = implied_newline;
    proof {
        if j < n.len() { lemma_cell(nl, j); lemma_walk_step(wd, n, j); lemma_walk_bound(wd, n, j); }
        if had { if j < o.len() { lemma_cell(ol, j); } if j < n.len() && j < o.len() { lemma_mix_step(n, o, j); } if j <= n.len() && j == o.len() { lemma_phase_ended(t0.s@.g, g0, tp, wd, n, j, o, fd, f); } }
    }
//@hint call Self::maybe_report 0 after
    proof { lemma_rep(nl, wd, j, cursor_pos, rl0, rt0, b.index as int, cur_column, cur_breaks); }
//@hint call Self::maybe_report 0 before
    let ghost rl0 = output_cursor_left; let ghost rt0 = output_cursor_top;
//@hint call continue 0 before
    proof { lemma_phase_same(t0.s@.g, g0, tp, wd, n, j, o, fd, f); lemma_walk_mono(wd, mix(n, o, j + 1), j + 1); assert(mix(n, o, j + 1).take(j + 1) =~= n.take(j + 1)); }
//@hint let cleared 0 before
    let ghost t1 = *term;
    proof { assert(there(t1.s@, tp, wd, n, j)); }
//@hint call clear_forward_and_reset 0 after
    proof { lemma_phase_clear(t1.s@, g0, tp, wd, n, j, o, fd, f); fd = None; }
//@hint call Self::output_char 0 before
    let ghost t2 = *term;
    proof { assert(there(t2.s@, tp, wd, n, j)); if !cleared { lemma_phase_over(t2.s@, im0, g0, tp, wd, n, j, o, fd, f); } else { lemma_phase_draw(t2.s@, im0, g0, tp, wd, n, j, fd, f); } lemma_adv(t2.s@, im0, wd, n[j].0, n[j].1); }
//@hint call Self::output_char 0 after
    proof { if cleared && term.s@.row != t2.s@.row { fd = None; } }
//@hint call Self::maybe_report 1 before
    let ghost rl0 = output_cursor_left; let ghost rt0 = output_cursor_top;
//@hint call Self::maybe_report 1 after
    proof { lemma_rep(nl, wd, j, cursor_pos, rl0, rt0, b.index as int, cur_column, cur_breaks); if had { fd = f; } }
//@hint call Self::output_char 1 before
    let ghost t2 = *term;
    proof { assert(there(t2.s@, tp, wd, n, j)); lemma_phase_draw(t2.s@, im0, g0, tp, wd, n, j, fd, f); lemma_adv(t2.s@, im0, wd, n[j].0, n[j].1); }
//@hint call Self::output_char 1 after
    proof { if term.s@.row != t2.s@.row { fd = None; } }
//@hint call clear_forward_and_reset 2 before
    let ghost t2 = *term;
    proof { assert(there(t2.s@, tp, wd, n, j)); lemma_phase_clear(t2.s@, g0, tp, wd, n, j, o, fd, f); }
//@hint call clear_forward_and_reset 2 after
    proof { fd = None; }
//@loop 1
    invariant
        good_line(nl), nl == *new_line, n == cells(nl), n.len() == nl.text@.len() <= 0x7fff_ffff, f == tf(nl), wd == w0.wd@, term.wd@ == wd, term_width == wd, 1 <= wd <= 0xffff, low0 == min(w0.s@.low, tp),
        vx_it1.wf(), vx_it1.line == new_line, 0 <= vx_it1.indices.k@ <= n.len(),
        walk(wd, n.take(vx_it1.indices.k@)) == (cur_column as int, cur_breaks as int, implied_newline), cur_column < wd, term.s@.row == tp + real_breaks, term.s@.x == min(real_column as int, wd - 1), real_column <= wd, term.s@.at == cur_attr || vx_it1.indices.k@ == n.len(),
        term.s@.bot >= term.s@.row, term.s@.bot >= tp + cur_breaks, term.s@.low >= low0,
        rep(nl, wd, vx_it1.indices.k@, cursor_pos, output_cursor_left, output_cursor_top),
        phase(term.s@.g, g0, tp, wd, n, vx_it1.indices.k@, None, fd, f) || vx_it1.indices.k@ == n.len() && term.s@.g == fill(draw(start(g0, tp), wd, n).0, wd, f).g,
        ended_simultaneously ==> vx_it1.indices.k@ == n.len(),
        ended_simultaneously && endfill_redundant ==> term.s@.g == fill(draw(start(g0, tp), wd, n).0, wd, f).g,
    ensures vx_it1.indices.k@ == n.len(),
    decreases n.len() - vx_it1.indices.k@
//@hint loop 1 start
    let ghost j = vx_it1.indices.k@; let ghost im0 = implied_newline;
    proof { if j < n.len() { lemma_cell(nl, j); lemma_walk_step(wd, n, j); lemma_walk_bound(wd, n, j); } }
//@hint call Self::maybe_report 2 before
    let ghost rl0 = output_cursor_left; let ghost rt0 = output_cursor_top;
//@hint call Self::maybe_report 2 after
    proof { lemma_rep(nl, wd, j, cursor_pos, rl0, rt0, b.index as int, cur_column, cur_breaks); }
//@hint call Self::output_char 2 before
    let ghost t2 = *term;
    proof { assert(there(t2.s@, tp, wd, n, j)); lemma_phase_draw(t2.s@, im0, g0, tp, wd, n, j, fd, f); lemma_adv(t2.s@, im0, wd, n[j].0, n[j].1); }
//@hint call Self::output_char 2 after
    proof { if term.s@.row != t2.s@.row { fd = None; } }
//@hint call Self::maybe_report 3 before
    let ghost rl0 = output_cursor_left; let ghost rt0 = output_cursor_top; let ghost cc9 = cur_column;
    proof { assert(n.take(n.len() as int) =~= n); if f is None && !(term.s@.g == fill(draw(start(g0, tp), wd, n).0, wd, f).g) { lemma_phase_nofill(term.s@.g, g0, tp, wd, n, fd); } }
//@hint call Self::maybe_report 3 after
    proof { lemma_rep(nl, wd, n.len() as int, cursor_pos, rl0, rt0, nl.text.vl() as int, cur_column, cur_breaks); lemma_rep_end(nl, wd, cursor_pos, output_cursor_left, output_cursor_top); }
//@hint call set_attrs 0 before
    proof { assert(there(term.s@, tp, wd, n, n.len() as int)); lemma_phase_fill(term.s@, g0, tp, wd, n, fd, f); }
//@hint call set_attrs 1 before
    let ghost t8 = *term;
    proof { assert(t8.s@.g == fill(draw(start(g0, tp), wd, n).0, wd, f).g); }
//@hint end
    proof {
        lemma_same_line(nl, self.remembered_output->0.output_line);
        assert(drawn(self.term.s@.g, g0, wd, tp, n, f));
        let rr = self.remembered_output->0;
        assert(self.term.s@.row - rr.cursor_top == tp);
        assert(good_line(rr.output_line) && rr.cursor_left <= wd && self.term.s@.x == min(rr.cursor_left as int, wd - 1));
        assert(self.term.s@.bot >= tp + walk(wd, cells(rr.output_line)).1);
        assert(rr.cursor_pos matches Some(p) ==> in_line(rr.output_line, p as int) ==> (rr.cursor_left as int, rr.cursor_top as int) == spot(rr.output_line, wd, p as int));
        assert(self.term.ok() && self.term.s@.at == plain() && self.term.s@.bot >= self.term.s@.row);
        assert(blk(self.remembered_output, self.term));
        assert forall|r: int, c: int| r < tp implies #[trigger] (self.term.s@.g)(r, c) == (w0.s@.g)(r, c) by { lemma_block_above(g0, tp, wd, n, f, r, c); }
    }
//@endimpl
//@fn trailing_fill props=C17,C18 ret=res
    ensures res == tf(*line), //# C17,C18
//@fn has_zero_width props=C17,C18 ret=res
    ensures res == !nozw(cells(*line)), //# C17,C18
//@hint start
    proof { lemma_nozw(*line); }
//@closure 0 (char) -> (r: bool)
    ensures r == !own(($0, plain()))
