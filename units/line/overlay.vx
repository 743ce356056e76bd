//@header
//@include ../common/sx.rs
//@include ../common/line_sx.rs
verus! {
//@method match_indices => vx_match_indices
//@method char_indices => vx_char_indices
//@typemap std::str::CharIndices<'a> => VxCharIndices<'a>
//@method unwrap_or => vx_unwrap_or
//@method split => vx_split
//@method parse => vx_parse
//@method as_bytes => vx_as_bytes
//@method starts_with => vx_starts_with
//@path drop => vx_drop
//@method len => vx_len
//@method last_mut => vx_last_mut
//@method iter => vx_it
//@method into => vx_into
//@typemap Cow<str> => Cow<'_>
//@typemap Cow<'a, str> => Cow<'a>
//@macro format => vx_format1($0, $1)
//@features wrap history completion
//@file src/lib.rs
//@type Style #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type Color #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@file src/line.rs
//@type LineElement
//@type Line
//@impl Line
//@fn new props=C02,C01 ret=res
    ensures res.inv(), //# C01,C02
        res.text@ == Seq::<char>::empty(), //# C01,C02
        res.sb() == Seq::<(u8, Attr)>::empty(), res.active() == plain(), //# C02
//@hint start
    proof { reveal(covers); reveal(Line::sb); assert(forall|l: Line| l.text@.len() == 0 ==> #[trigger] l.sb() =~= Seq::<(u8, Attr)>::empty()); }
//@fn append_text props=C02,C01 ret=res
//@sig (&mut self, i: Cow<'_>)
    requires old(self).wf()
    ensures final(self).wf(), //# C02
        by(final(self).text@) == by(old(self).text@) + by(i@), //# C01,C02
        final(self).text@ == old(self).text@ + i@, //# C01
        final(self).sb() =~= old(self).sb() + paint(by(i@), old(self).active()), //# C02
        final(self).active() == old(self).active(), //# C02
//@hint start
    let ghost l0 = *self;
    proof { lemma_bnd_ends(i@); lemma_line_ends(l0); lemma_by_nonempty(i@); lemma_by_nonempty(l0.text@); assert(l0.text@ + Seq::<char>::empty() =~= l0.text@); assert(l0.text@.len() == 0 ==> l0.text@ + i@ =~= i@); assert(paint(by(i@), l0.active()).len() == by(i@).len()); }
//@hint end
    proof {
        assert(by(i@).subrange(0, by(i@).len() as int) =~= by(i@));
        assert forall|x: Seq<char>| (#[trigger] encode_utf8(x)) == by(i@) implies x == i@ by { lemma_by_inj(x, i@); }
        lemma_line_extend(l0, *self, i@);
    }
//@fn get_style props=C02 ret=res
    ensures res == self.active().0, //# C02
//@fn get_colors props=C02 ret=res
    ensures res == (self.active().1, self.active().2), //# C02
//@fn set_style props=C02 ret=res
    requires old(self).wf()
    ensures res.wf(), //# C02
        res.text@ == old(self).text@, //# C02
        res.sb() == old(self).sb(), //# C02
        res.active() == (nu, old(self).active().1, old(self).active().2), //# C02
        *final(self) == *final(res),
//@hint start
    broadcast use lemma_line_style, lemma_line_same; proof { lemma_line_ends(*self); }
//@fn toggle_style props=C02 ret=res
    requires old(self).wf()
    ensures res.wf(), //# C02
        res.text@ == old(self).text@, //# C02
        res.sb() == old(self).sb(), //# C02
        res.active() == (Style { bits: old(self).active().0.bits ^ nu.bits }, old(self).active().1, old(self).active().2), //# C02
        *final(self) == *final(res),
//@fn activate_style props=C02 ret=res
    requires old(self).wf()
    ensures res.wf(), //# C02
        res.text@ == old(self).text@, //# C02
        res.sb() == old(self).sb(), //# C02
        res.active() == (Style { bits: old(self).active().0.bits | nu.bits }, old(self).active().1, old(self).active().2), //# C02
        *final(self) == *final(res),
//@fn deactivate_style props=C02 ret=res
    requires old(self).wf()
    ensures res.wf(), //# C02
        res.text@ == old(self).text@, //# C02
        res.sb() == old(self).sb(), //# C02
        res.active() == (Style { bits: old(self).active().0.bits & !nu.bits }, old(self).active().1, old(self).active().2), //# C02
        *final(self) == *final(res),
//@fn clear_style props=C02 ret=res
    requires old(self).wf()
    ensures res.wf(), //# C02
        res.text@ == old(self).text@, //# C02
        res.sb() == old(self).sb(), //# C02
        res.active() == (Style::PLAIN, old(self).active().1, old(self).active().2), //# C02
        *final(self) == *final(res),
//@fn set_colors props=C02 ret=res
    requires old(self).wf()
    ensures res.wf(), //# C02
        res.text@ == old(self).text@, //# C02
        res.sb() == old(self).sb(), //# C02
        res.active() == (old(self).active().0, fg, bg), //# C02
        *final(self) == *final(res),
//@hint start
    broadcast use lemma_line_style, lemma_line_same; proof { lemma_line_ends(*self); }
//@fn set_fg_color props=C02 ret=res
    requires old(self).wf()
    ensures res.wf(), //# C02
        res.text@ == old(self).text@, //# C02
        res.sb() == old(self).sb(), //# C02
        res.active() == (old(self).active().0, nu, old(self).active().2), //# C02
        *final(self) == *final(res),
//@fn set_bg_color props=C02 ret=res
    requires old(self).wf()
    ensures res.wf(), //# C02
        res.text@ == old(self).text@, //# C02
        res.sb() == old(self).sb(), //# C02
        res.active() == (old(self).active().0, old(self).active().1, nu), //# C02
        *final(self) == *final(res),
//@fn reset_all props=C02 ret=res
    requires old(self).wf()
    ensures res.wf(), //# C02
        res.text@ == old(self).text@, //# C02
        res.sb() == old(self).sb(), //# C02
        res.active() == plain(), //# C02
        *final(self) == *final(res),
//@fn is_empty props=C02 ret=res
    ensures res == (self.text@.len() == 0), //# C02
//@fn len props=C02 ret=res
    ensures res as int == by(self.text@).len(), //# C02
//@fn as_str props=C01 ret=res
    ensures res@ == self.text@, //# C01
//@fn add_text props=C01,C02 ret=res
//@sig <'a, T: VxIntoCow<'a>>(&mut self, i: T) -> (res: &mut Line)
    requires old(self).wf()
    ensures res.wf(), //# C02
        res.text@ == old(self).text@ + shown(i.vv()), //# C01
        clean(old(self).text@) ==> clean(res.text@), //# C01
        res.sb() == old(self).sb() + spaint(i.vv(), old(self).active()), //# C01,C02
        res.active() == old(self).active(), //# C01,C02
        *final(self) == *final(res),
//@hint start
    hide(shown); hide(spaint); hide(cidx); hide(clean); hide(hex); hide(Line::wf); hide(subst); hide(Line::active);
    let ghost l0 = *self; let ghost s = i.vv(); let ghost a = self.active();
    proof { lemma_add_start(l0, s, a); lemma_flip2(a); lemma_take_cut(s, 0, 0); lemma_cidx(s, 0); }
//@closure 0 (char) -> (r: bool)
    ensures r == bad(x)
//@loop 0
    invariant_except_break
        self.wf(), i@ == s, by(s).len() <= isize::MAX, control_iterator.s@ == s, forall|c: char| (control_iterator.p@)(c) == bad(c), 1 <= control_iterator.k@ <= s.len(),
        ({ let k = cidx(s, plain_start as int); let j = control_iterator.k@ - 1;
           &&& 0 <= k <= j && by(s.take(k)).len() == plain_start && pos.0 == by(s.take(j)).len() && pos.1@ == seq![s[j]] && bad(s[j])
           &&& forall|m: int| k <= m < j ==> !bad(#[trigger] s[m])
           &&& self.text@ == l0.text@ + shown(s.take(k)) && self.sb() == l0.sb() + spaint(s.take(k), a) && self.active() == a }),
    ensures
        self.wf(), i@ == s,
        ({ let k = cidx(s, plain_start as int);
           &&& 0 <= k <= s.len() && by(s.take(k)).len() == plain_start
           &&& forall|m: int| k <= m < s.len() ==> !bad(#[trigger] s[m])
           &&& self.text@ == l0.text@ + shown(s.take(k)) && self.sb() == l0.sb() + spaint(s.take(k), a) && self.active() == a }),
    decreases s.len() - control_iterator.k@
//@hint loop 0 start
    let ghost k = cidx(s, plain_start as int); let ghost j = control_iterator.k@ - 1;
    proof {
        lemma_take_cut(s, k, j); lemma_take_cut(s, j, j + 1); lemma_take1(s, j); lemma_cidx(s, j + 1); lemma_cidx(s, j); lemma_take_cut(s, j + 1, j + 1); lemma_flip2(a);
        lemma_add_step(s, k, j, a, l0.text@, self.text@, l0.sb(), self.sb());
        assert forall|x: Seq<char>| (#[trigger] encode_utf8(x)) == by(s.subrange(k, j)) implies x == s.subrange(k, j) by { lemma_by_inj(x, s.subrange(k, j)); }
        assert(subst(s[j]) == (if (s[j] as u32) < 32 { seq!['^', (64 + s[j] as u32) as char] } else { "U+"@ + hex4(s[j] as nat) })) by { reveal(subst); }
    }
//@hint loop 0 after
    let ghost k = cidx(s, plain_start as int);
    proof { lemma_add_rest(s, k, a, l0.text@, self.text@, l0.sb(), self.sb());
        assert forall|x: Seq<char>| (#[trigger] encode_utf8(x)) == by(s.skip(k)) implies x == s.skip(k) by { lemma_by_inj(x, s.skip(k)); } }
//@fn from_cow props=C01,C02 ret=res
    ensures res.inv(), //# C01,C02
        res.text@ == shown(i@), //# C01
        res.sb() == spaint(i@, plain()), res.active() == plain(), //# C02
//@hint start
    proof { assert(Seq::<char>::empty() + shown(i@) =~= shown(i@)); assert(Seq::<(u8, Attr)>::empty() + spaint(i@, plain()) =~= spaint(i@, plain())); }
//@fn from_str props=C01,C02 ret=res
    ensures res.inv(), //# C01,C02
        res.text@ == shown(i@), //# C01
        res.sb() == spaint(i@, plain()), res.active() == plain(), //# C02
//@fn from_string props=C01,C02 ret=res
    ensures res.inv(), //# C01,C02
        res.text@ == shown(i@), //# C01
        res.sb() == spaint(i@, plain()), res.active() == plain(), //# C02
//@fn reset_and_break props=C02,C03
    requires old(self).wf()
    ensures final(self).wf(), final(self).text@ == old(self).text@.push('\n'), //# C02,C03
        final(self).sb() == old(self).sb() + paint(by(seq!['\n']), old(self).active()), final(self).active() == plain(), //# C02,C03
        clean(old(self).text@) ==> clean(final(self).text@), //# C01
//@hint start
    proof { let s = seq!['\n']; lemma_run(s, 0, 1, old(self).active()); lemma_take_cut(s, 0, 1); assert(s.subrange(0, 1) =~= s); assert(shown(s) =~= s); assert("\n"@ =~= s);
        assert(spaint(s, old(self).active()) =~= paint(by(s), old(self).active())); assert(old(self).text@ + s =~= old(self).text@.push('\n')); }
//@fn append_line props=C03
    requires old(self).wf(), other.inv()
    ensures final(self).wf(), //# C03
        by(final(self).text@) == by(old(self).text@) + by(other.text@), //# C03
        final(self).text@ == old(self).text@ + other.text@, //# C03
        clean(old(self).text@) ==> clean(final(self).text@), //# C03,C01
        final(self).sb() == old(self).sb() + other.sb(), //# C03
        final(self).active() == (if other.elements@.len() > 0 { other.active() } else { old(self).active() }), //# C03
//@hint start
    hide(shown); hide(spaint); hide(Line::wf); hide(clean); hide(paint); hide(piece); hide(attr);
    let ghost l0 = *self; let ghost o = *other;
    proof { lemma_line_ends(o); encode_utf8_concat(l0.text@, o.text@);
        assert(l0.sb() + o.sb().take(0) =~= l0.sb()); assert(by(l0.text@) + by(o.text@).take(0) =~= by(l0.text@)); assert(o.sb().take(by(o.text@).len() as int) =~= o.sb()); assert(by(o.text@).take(by(o.text@).len() as int) =~= by(o.text@));
        if clean(l0.text@) { reveal(clean); lemma_clean_cat(l0.text@, o.text@); }
        assert forall|x: Seq<char>| (#[trigger] encode_utf8(x)) == by(l0.text@) + by(o.text@) implies x == l0.text@ + o.text@ by { lemma_by_inj(x, l0.text@ + o.text@); } }
//@loop 0
    invariant self.wf(), o.inv(), *other == o, vx_it0.wf(), vx_it0.s@ == o.elements@, vx_it0.hi == o.elements@.len(),
        ({ let k = vx_it0.lo as int; let p = if k == 0 { 0int } else { o.elements@[k - 1].end as int };
           &&& by(self.text@) == by(l0.text@) + by(o.text@).take(p) && self.sb() == l0.sb() + o.sb().take(p)
           &&& self.active() == (if k > 0 { o.elements@[k - 1].at() } else { l0.active() })
           &&& k == o.elements@.len() ==> p == by(o.text@).len() }),
    ensures vx_it0.lo == o.elements@.len()
    decreases o.elements@.len() - vx_it0.lo
//@hint loop 0 start
    let ghost k = vx_it0.lo as int; let ghost b = by(o.text@); let ghost e = o.elements@[k]; let ghost r = piece(o, k);
    proof { if k < o.elements@.len() {
        lemma_element(o, k, e.at());
        encode_utf8_concat(self.text@, r);
        assert forall|x: Seq<char>| (#[trigger] encode_utf8(x)) == by(r) implies x == r by { lemma_by_inj(x, r); }
        assert(self.sb() + paint(by(r), e.at()) =~= l0.sb() + o.sb().take(e.end as int));
        assert(by(self.text@) + by(r) =~= by(l0.text@) + b.take(e.end as int));
    } }
//@fn chars props=C02 ret=res
    requires self.wf()
    ensures res.wf(), res.line == self, res.indices.k@ == 0, //# C02
//@endimpl
//@type LineCharIterator
//@type LineChar
//@raw
impl<'a> LineCharIterator<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.line.wf() && self.indices.s@ == self.line.text@ && 0 <= self.indices.k@ <= self.line.text@.len() && self.cur_element <= self.line.elements@.len()
        &&& self.cur_element > 0 ==> self.line.elements@[self.cur_element - 1].end <= by(self.line.text@.take(self.indices.k@)).len()
    }
}
//@impl LineCharIterator : impl<'a> LineCharIterator<'a>
//@fn new props=C02 ret=res
    requires line.wf()
    ensures res.wf(), res.line == line, res.indices.k@ == 0, //# C02
//@endimpl
//@impl LineCharIterator trait Iterator : impl<'a> LineCharIterator<'a>
//@fn next props=C02 ret=res
//@sig (&mut self) -> (res: Option<LineChar>)
    requires old(self).wf()
    ensures final(self).wf(), final(self).line == old(self).line, //# C02
        ({ let k = old(self).indices.k@; let l = *old(self).line; let s = l.text@;
           match res {
               None => k == s.len() && final(self).indices.k@ == k,
               Some(x) => k < s.len() && final(self).indices.k@ == k + 1 && x.ch == s[k] && x.index == by(s.take(k)).len() && (x.style, x.fg, x.bg) == l.sb()[x.index as int].1,
           } }), //# C02
//@hint start
    let ghost l = *self.line; let ghost k = self.indices.k@; let ghost s = l.text@; let ghost i = by(s.take(k)).len() as int;
    proof {
        if k < s.len() { lemma_take1(s, k); lemma_take_cut(s, k, k + 1); 
            assert forall|c: int| 0 <= c <= l.elements@.len() && (c > 0 ==> (#[trigger] l.elements@[c - 1]).end <= i) implies c < l.elements@.len() && l.elements@[c].start <= i && (i < l.elements@[c].end ==> l.sb()[i].1 == l.elements@[c].at()) by {
                lemma_cover_next(l, c, i); if i < l.elements@[c].end { lemma_sb_at(l, c, i); } } }
        else { lemma_take_cut(s, k, k); }
    }
//@loop 0
    invariant self.line == old(self).line, self.indices.s == old(self).indices.s, self.indices.k@ == k + 1, k < s.len(), l == *self.line, s == l.text@, i == by(s.take(k)).len(), index == i, i < by(s.take(k + 1)).len(),
        self.cur_element <= l.elements@.len(), self.cur_element > 0 ==> l.elements@[self.cur_element - 1].end <= i,
    decreases l.elements@.len() - self.cur_element
//@endimpl
//@file src/line/add_ansi.rs
//@impl Line
//@fn add_ansi_text props=C05 ret=res attr=#[verifier::rlimit(200)]
//@sig <'a, T: VxIntoCow<'a>>(&mut self, input_line: T) -> (res: &mut Line)
    requires old(self).wf()
    ensures res.wf(), //# C05
        clean(old(self).text@) ==> clean(res.text@), //# C05
        res.sb() == old(self).sb() + ansi(input_line.vv(), old(self).active()).0, //# C05
        res.active() == ansi(input_line.vv(), old(self).active()).1, //# C05
        *final(self) == *final(res),
//@hint start
    hide(shown); hide(spaint); hide(Line::wf); hide(clean); hide(paint); hide(cidx); hide(ansi); hide(sgr); hide(prun); hide(splits); hide(Line::active); hide(esc); hide(bnd); hide(codes_of);
    let ghost l0 = *self; let ghost s = input_line.vv(); let ghost a0 = self.active();
    proof { lemma_take_cut(s, 0, 0); lemma_cidx(s, 0); assert(s.skip(0) =~= s); lemma_ansi_end(s, 0, l0); }
//@loop 0
    invariant_except_break
        self.wf(), clean(l0.text@) ==> clean(self.text@), input_line@ == s,
        ({ let k = cidx(s, unescaped_start as int);
           &&& 0 <= k <= s.len() && by(s.take(k)).len() == unescaped_start
           &&& l0.sb() + ansi(s, a0).0 == self.sb() + ansi(s.skip(k), self.active()).0
           &&& ansi(s, a0).1 == ansi(s.skip(k), self.active()).1 }),
        unescaped_start <= by(s).len(), unescaped_start == by(s).len() ==> self.sb() == l0.sb() + ansi(s, a0).0 && self.active() == ansi(s, a0).1,
    ensures self.wf(), clean(l0.text@) ==> clean(self.text@), self.sb() == l0.sb() + ansi(s, a0).0, self.active() == ansi(s, a0).1,
    decreases by(s).len() - unescaped_start
//@hint loop 0 start
    let ghost u0 = unescaped_start as int; let ghost k0 = cidx(s, u0); let ghost t = s.skip(k0); let ghost l1 = *self; let ghost a1 = self.active();
    proof { lemma_from(s, k0); lemma_texts(t); }
//@loop 1
    invariant
        char_indices.s@ == t, 0 <= char_indices.k@ <= t.len(), forall|m: int| 0 <= m < char_indices.k@ ==> !#[trigger] esc(t, m),
        self.wf(), *self == l1, clean(l0.text@) ==> clean(self.text@), input_line@ == s, t == s.skip(k0),
        0 <= k0 <= s.len(), unescaped_start == u0, u0 == by(s.take(k0)).len(), k0 == cidx(s, u0), a1 == l1.active(),
        by(t) == by(s).subrange(u0, by(s).len() as int), bnd(by(s), u0), u0 < by(s).len(),
        l0.sb() + ansi(s, a0).0 == l1.sb() + ansi(t, a1).0, ansi(s, a0).1 == ansi(t, a1).1,
    decreases t.len() - char_indices.k@
//@hint loop 1 before
    #[verifier::loop_isolation(false)]
//@hint loop 1 after
    proof { assert(char_indices.k@ == t.len()); lemma_ansi_none(t, a1); lemma_texts(t); assert(l0.sb() + ansi(t, a1).0 == l0.sb() + spaint(t, a1)); }
//@hint call add_text 0 before
    let ghost j1 = char_indices.k@ - 1;
    proof { assert(esc(t, j1)) by { reveal(esc); } lemma_within(s, k0, j1); lemma_texts(t.take(j1)); }
//@hint let sequence_start 0 after
    proof { reveal(esc); let k = char_indices.k@; assert(t.skip(k).len() > 0 ==> t.skip(k)[0] == t[k]); }
//@hint call add_text 1 after
    proof { lemma_ansi_end(s, k2, *self); }
//@hint loop 4 after
    proof { lemma_within(s, k2, n + 1); lemma_from(s, k2 + n + 1); lemma_ansi_end(s, k2 + n + 1, *self); }
//@hint let csi_bytes 0 before
    let ghost j = char_indices.k@ - 1; let ghost u = t.skip(j + 2); let ghost k2 = k0 + j + 2; let ghost us = unescaped_start as int;
    proof {
        assert(esc(t, j)) by { reveal(esc); } lemma_esc_bytes(t, j); lemma_within(s, k0, j); lemma_within(s, k0, j + 2); lemma_from(s, k2);
        lemma_by_nonempty(t.take(j)); lemma_texts(u);
        if j == 0 { assert(t.take(0) =~= Seq::<char>::empty()); assert(spaint(t.take(0), a1) =~= Seq::empty()) by { reveal_with_fuel(spaint, 1); } assert(l1.sb() + spaint(t.take(0), a1) =~= l1.sb()); }
        assert(self.sb() == l1.sb() + spaint(t.take(j), a1));
        assert(unescaped_start == by(s.take(k2)).len());
    }
//@loop 2
    invariant 0 <= i <= csi_bytes@.len(), csi_bytes@ == by(u), param_start == 0, forall|m: int| 0 <= m < i ==> 0x30 <= #[trigger] by(u)[m] <= 0x3f,
    ensures i < csi_bytes@.len() ==> !(0x30 <= by(u)[i as int] <= 0x3f),
    decreases csi_bytes@.len() - i
//@loop 3
    invariant 0 <= i <= csi_bytes@.len(), csi_bytes@ == by(u), param_start == 0, intermediate_start == param_end, param_end <= i,
        forall|m: int| 0 <= m < param_end ==> 0x30 <= #[trigger] by(u)[m] <= 0x3f, param_end < csi_bytes@.len() ==> !(0x30 <= by(u)[param_end as int] <= 0x3f),
        param_end < i ==> by(u)[param_end as int] < 0x40,
    decreases csi_bytes@.len() - i
//@hint loop 3 after
    let ghost n = param_end as int; let ghost l2 = *self;
    proof { lemma_params(u, n); lemma_ansi_seq(t, j, n, a1); }
//@hint call add_text 1 before
    proof { reveal_strlit("\x1B["); assert("\x1B["@ =~= seq!['\u{1b}', '[']); assert(!(n < u.len() && u[n] == 'm')); 
        assert(l2.sb() + (spaint("\x1B["@, a1) + ansi(u, a1).0) =~= l2.sb() + spaint("\x1B["@, a1) + ansi(u, a1).0); }
//@hint let codes 0 before
    let ghost cs = codes_of(u.take(n));
    proof { lemma_within(s, k2, n); lemma_texts(u.take(n)); assert(cs.len() == splits(u.take(n), ';').len()) by { reveal(codes_of); } assert forall|a: Attr| #[trigger] sgr(a, cs.skip(cs.len() as int)) == a by { lemma_sgr_step(a, cs, cs.len() as int); } assert(cs.skip(0) =~= cs); }
//@closure 0 (&str) -> (r: u32)
    ensures r == num(code@)
//@loop 4
    invariant
        self.wf(), self.text@ == l2.text@, self.sb() == l2.sb(), codes.p@ == splits(u.take(n), ';'), 0 <= codes.k@ <= codes.p@.len(), cs == codes_of(u.take(n)),
        sgr(a1, cs) == sgr(self.active(), cs.skip(codes.k@)), forall|x: &str| #[trigger] codes.f.requires((x,)), forall|x: &str, r: u32| #[trigger] codes.f.ensures((x,), r) ==> r == num(x@),
        forall|a: Attr| #[trigger] sgr(a, cs.skip(cs.len() as int)) == a, cs.len() == codes.p@.len(),
    ensures self.active() == sgr(a1, cs),
    decreases codes.p@.len() - codes.k@
//@hint loop 4 start
    let ghost b1 = self.active();
    proof { lemma_sgr_step(self.active(), cs, codes.k@ - 1); reveal(codes_of); let x = choose|x: &str| x@ == codes.p@[codes.k@ - 1] && #[trigger] codes.f.ensures((x,), code); assert(code == num(codes.p@[codes.k@ - 1])); assert(code == cs[codes.k@ - 1]); }
//@footer
}
fn main() {}
