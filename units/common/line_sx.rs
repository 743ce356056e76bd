verus! {
use sx::*;
use vstd::std_specs::ops::*;
broadcast use {sx::lemma_is_bnd, sx::ax_string_len};
pub type Attr = (Style, Option<Color>, Option<Color>);
pub open spec fn plain() -> Attr { (Style::PLAIN, None, None) }
/// the characters a Line never contains
pub open spec fn bad(c: char) -> bool { (is_ctl(c) && c != '\n') || c == '\u{2028}' || c == '\u{2029}' }
pub open spec fn clean(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !bad(#[trigger] s[i]) }
impl LineElement { pub open spec fn at(&self) -> Attr { (self.style, self.fg, self.bg) } }
/// the attributes of the byte at `i`: those of the last element that starts there or before
pub open spec fn attr(e: Seq<LineElement>, i: int) -> Attr
    decreases e.len()
{
    if e.len() == 0 { plain() } else if e.last().start <= i { e.last().at() } else { attr(e.drop_last(), i) }
}
/// the bytes `b`, all with the attributes `a`
pub open spec fn paint(b: Seq<u8>, a: Attr) -> Seq<(u8, Attr)> { Seq::new(b.len(), |i: int| (b[i], a)) }
/// the elements cover the text with the bytes `b` exactly once, in order
#[verifier::opaque]
pub open spec fn covers(e: Seq<LineElement>, b: Seq<u8>) -> bool {
    &&& e.len() == 0 ==> b.len() == 0
    &&& e.len() > 0 ==> e[0].start == 0 && e.last().end == b.len()
    &&& forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).start <= e[i].end <= b.len() && bnd(b, e[i].start as int) && bnd(b, e[i].end as int)
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).start < e[i].end <= (#[trigger] e[j]).start
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < e.len() ==> (#[trigger] e[i]).end == (#[trigger] e[j]).start
}
impl Line {
    pub open spec fn wf(&self) -> bool { covers(self.elements@, by(self.text@)) }
    pub open spec fn inv(&self) -> bool { self.wf() && clean(self.text@) }
    /// the active attributes
    pub open spec fn active(&self) -> Attr { if self.elements@.len() == 0 { plain() } else { self.elements@.last().at() } }
    /// the bytes of the text, each with its attributes
    #[verifier::opaque]
    pub open spec fn sb(&self) -> Seq<(u8, Attr)> {
        Seq::new(by(self.text@).len(), |i: int| (by(self.text@)[i], attr(self.elements@, i)))
    }
}
pub proof fn lemma_attr_last(e: Seq<LineElement>, l: LineElement, i: int)
    ensures attr(e.push(l), i) == (if l.start <= i { l.at() } else { attr(e, i) })
{ assert(e.push(l).drop_last() =~= e); }
/// the last element replaced by one that starts at the same place
pub proof fn lemma_attr_update(e: Seq<LineElement>, l: LineElement, i: int)
    requires e.len() > 0, l.start == e.last().start
    ensures attr(e.update(e.len() - 1, l), i) == (if l.start <= i { l.at() } else { attr(e, i) })
{ assert(e.update(e.len() - 1, l).drop_last() =~= e.drop_last()); }
pub proof fn lemma_bnd_cat(s: Seq<char>, t: Seq<char>, i: int)
    ensures by(s + t) == by(s) + by(t), bnd(by(s), i) ==> bnd(by(s + t), i), bnd(by(t), i) ==> bnd(by(s + t), by(s).len() + i)
{
    encode_utf8_concat(s, t);
    let b = by(s + t);
    assert(b =~= by(s) + by(t));
    lemma_bnd_ends(t);
    if 0 <= i < by(s).len() { assert(b[i] == by(s)[i]); }
    if i == by(s).len() && by(t).len() > 0 { assert(b[i] == by(t)[0]); }
    if 0 <= i < by(t).len() { assert(b[by(s).len() + i] == by(t)[i]); }
}
pub broadcast proof fn lemma_by_nonempty(s: Seq<char>)
    ensures #[trigger] by(s).len() == 0 <==> s.len() == 0
{ if s.len() > 0 { reveal_with_fuel(encode_utf8, 2); lemma_char_bytes(s[0]); assert(seq![s[0]].drop_first() =~= Seq::<char>::empty()); } }
pub proof fn lemma_by_inj(s: Seq<char>, t: Seq<char>)
    requires by(s) == by(t)
    ensures s == t
{ encode_utf8_decode_utf8(s); encode_utf8_decode_utf8(t); }
/// text is added at the end of the last element
#[verifier::spinoff_prover]
pub proof fn lemma_extend(e: Seq<LineElement>, e2: Seq<LineElement>, s: Seq<char>, t: Seq<char>)
    requires covers(e, by(s)), e.len() > 0, e2 =~= e.update(e.len() - 1, e2.last()), e2.last().start == e.last().start, e2.last().at() == e.last().at(),
        e2.last().end == by(s).len() + by(t).len(),
    ensures covers(e2, by(s + t)),
        forall|i: int| 0 <= i < by(s).len() ==> attr(e2, i) == attr(e, i),
        forall|i: int| by(s).len() <= i ==> attr(e2, i) == e.last().at(),
{
    reveal(covers);
    let b = by(s); let c = by(s + t);
    assert forall|i: int| bnd(b, i) implies bnd(c, i) by { lemma_bnd_cat(s, t, i); }
    lemma_bnd_cat(s, t, 0);
    lemma_bnd_ends(s + t);
    assert forall|i: int| attr(e2, i) == (if e.last().start <= i { e.last().at() } else { attr(e, i) }) by { lemma_attr_update(e, e2.last(), i); }
    assert forall|i: int| 0 <= i < e2.len() implies (#[trigger] e2[i]).start <= e2[i].end <= c.len() && bnd(c, e2[i].start as int) && bnd(c, e2[i].end as int) by {
        assert(e[i].start <= e[i].end);
        if i < e.len() - 1 { assert(e2[i] == e[i]); } else { assert(bnd(b, e[i].start as int)); assert(e2[i] == e2.last()); }
    }
    assert forall|i: int, j: int| 0 <= i < j < e2.len() implies (#[trigger] e2[i]).start < e2[i].end <= (#[trigger] e2[j]).start by {
        assert(e[i].start < e[i].end <= e[j].start);
        assert(e2[i] == e[i]);
    }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < e2.len() implies (#[trigger] e2[i]).end == (#[trigger] e2[j]).start by {
        assert(e[i].end == e[i + 1].start);
        assert(e2[i] == e[i]);
    }
    assert(e[0].start == 0);
    assert(e.last().start <= e.last().end == b.len());
    assert forall|i: int| 0 <= i < b.len() implies attr(e2, i) == attr(e, i) by { }
}
/// an empty element is added at the end
pub proof fn lemma_push(e: Seq<LineElement>, l: LineElement, s: Seq<char>)
    requires covers(e, by(s)), e.len() > 0 ==> e.last().start < e.last().end, l.start == by(s).len(), l.end == l.start
    ensures covers(e.push(l), by(s)), forall|i: int| 0 <= i < by(s).len() ==> attr(e.push(l), i) == attr(e, i)
{
    reveal(covers);
    let b = by(s); let e2 = e.push(l);
    lemma_bnd_ends(s);
    assert forall|i: int| attr(e2, i) == (if l.start <= i { l.at() } else { attr(e, i) }) by { lemma_attr_last(e, l, i); }
    assert forall|i: int| 0 <= i < e2.len() implies (#[trigger] e2[i]).start <= e2[i].end <= b.len() && bnd(b, e2[i].start as int) && bnd(b, e2[i].end as int) by {
        if i < e.len() { assert(e2[i] == e[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < e2.len() implies (#[trigger] e2[i]).start < e2[i].end <= (#[trigger] e2[j]).start by {
        assert(e2[i] == e[i]);
        if j < e.len() { assert(e2[j] == e[j]); } else { if i < e.len() - 1 { assert(e[i].end <= e[e.len() - 1].start); } }
    }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < e2.len() implies (#[trigger] e2[i]).end == (#[trigger] e2[j]).start by {
        assert(e2[i] == e[i]);
        if i + 1 < e.len() { assert(e2[i + 1] == e[i + 1]); }
    }
    if e.len() > 0 { assert(e2[0] == e[0]); }
}
/// the attributes of an empty last element are changed
pub proof fn lemma_restyle(e: Seq<LineElement>, e2: Seq<LineElement>, s: Seq<char>)
    requires covers(e, by(s)), e.len() > 0, e2 =~= e.update(e.len() - 1, e2.last()), e2.last().start == e.last().start, e2.last().end == e.last().end, e.last().start == e.last().end
    ensures covers(e2, by(s)), forall|i: int| 0 <= i < by(s).len() ==> attr(e2, i) == attr(e, i)
{
    reveal(covers);
    let b = by(s);
    assert forall|i: int| attr(e2, i) == (if e2.last().start <= i { e2.last().at() } else { attr(e, i) }) by { lemma_attr_update(e, e2.last(), i); }
    assert forall|i: int| 0 <= i < e2.len() implies (#[trigger] e2[i]).start <= e2[i].end <= b.len() && bnd(b, e2[i].start as int) && bnd(b, e2[i].end as int) by { assert(e[i].start <= e[i].end); }
    assert forall|i: int, j: int| 0 <= i < j < e2.len() implies (#[trigger] e2[i]).start < e2[i].end <= (#[trigger] e2[j]).start by { assert(e[i].start < e[i].end <= e[j].start); assert(e2[i] == e[i]); }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < e2.len() implies (#[trigger] e2[i]).end == (#[trigger] e2[j]).start by { assert(e[i].end == e[i + 1].start); assert(e2[i] == e[i]); }
}
/// what `covers` means for the last element
pub proof fn lemma_line_ends(l: Line)
    requires l.wf()
    ensures l.elements@.len() == 0 ==> by(l.text@).len() == 0,
        l.elements@.len() > 0 ==> l.elements@[0].start == 0 && l.elements@.last().start <= l.elements@.last().end && l.elements@.last().end == by(l.text@).len(),
        l.elements@.len() > 1 ==> l.elements@.last().start > 0,
        l.text@.len() == 0 <==> by(l.text@).len() == 0,
        l.sb().len() == by(l.text@).len(),
{ reveal(covers); reveal(Line::sb); lemma_by_nonempty(l.text@); let e = l.elements@; if e.len() > 1 { assert(e[0].start < e[0].end <= e[e.len() - 1].start); } }
/// text is added
pub proof fn lemma_line_extend(l: Line, m: Line, t: Seq<char>)
    requires l.wf(), m.text@ == l.text@ + t, t.len() > 0,
        l.elements@.len() > 0 ==> m.elements@ =~= l.elements@.update(l.elements@.len() - 1, LineElement { end: m.elements@.last().end, ..l.elements@.last() }) && m.elements@.last().end == by(l.text@).len() + by(t).len(),
        l.elements@.len() == 0 ==> m.elements@ =~= seq![LineElement { style: Style::PLAIN, fg: None, bg: None, start: 0, end: m.elements@[0].end }] && m.elements@[0].end == by(t).len(),
    ensures m.wf(), m.sb() == l.sb() + paint(by(t), l.active()), m.active() == l.active(), by(m.text@) == by(l.text@) + by(t),
        l.active() == plain() ==> m.active() == plain(),
{
    lemma_line_ends(l); lemma_bnd_cat(l.text@, t, 0);
    if l.elements@.len() > 0 {
        lemma_extend(l.elements@, m.elements@, l.text@, t);
    } else {
        assert(l.text@ + t =~= t);
        lemma_bnd_ends(t); lemma_by_nonempty(t);
        reveal(covers);
        assert forall|k: int| 0 <= k implies attr(m.elements@, k) == plain() by { reveal_with_fuel(attr, 2); }
    }
    reveal(Line::sb); assert(m.sb() =~= l.sb() + paint(by(t), l.active()));
}
/// an element without text is added or restyled
pub open spec fn restyled(l: Line, m: Line) -> bool {
    let n = l.elements@.len() as int;
    &&& m.text@ == l.text@
    &&& m.elements@.len() > 0
    &&& {
        ||| n > 0 && l.elements@.last().start == l.elements@.last().end && m.elements@ =~= l.elements@.update(n - 1, m.elements@.last()) && m.elements@.last().start == l.elements@.last().start && m.elements@.last().end == l.elements@.last().end
        ||| (n > 0 ==> l.elements@.last().start != l.elements@.last().end) && m.elements@ =~= l.elements@.push(m.elements@.last()) && m.elements@.last().start == by(l.text@).len() && m.elements@.last().end == m.elements@.last().start
    }
}
pub broadcast proof fn lemma_line_style(l: Line, m: Line)
    requires l.wf(), restyled(l, m)
    ensures #![trigger l.wf(), m.wf()] #![trigger l.wf(), m.sb()] m.wf(), m.sb() == l.sb(),
{
    lemma_line_ends(l);
    if m.elements@.len() == l.elements@.len() { lemma_restyle(l.elements@, m.elements@, l.text@); }
    else { lemma_push(l.elements@, m.elements@.last(), l.text@); }
    reveal(Line::sb); assert(m.sb() =~= l.sb());
}
pub broadcast proof fn lemma_line_same(l: Line, m: Line)
    requires l.wf(), l.text@ == m.text@, l.elements@ =~= m.elements@
    ensures #![trigger l.wf(), m.wf()] #![trigger l.wf(), m.sb()] #![trigger l.wf(), m.active()] m.wf(), m.sb() == l.sb(), m.active() == l.active()
{ reveal(Line::sb); assert(m.sb() =~= l.sb()); }
impl BitXorSpecImpl for Style { open spec fn obeys_bitxor_spec() -> bool { true } open spec fn bitxor_req(self, o: Style) -> bool { true }
    open spec fn bitxor_spec(self, o: Style) -> Style { Style { bits: self.bits ^ o.bits } } }
impl std::ops::BitXor for Style { type Output = Style; #[verifier::external_body] fn bitxor(self, o: Style) -> Style { unimplemented!() } }
impl BitOrSpecImpl for Style { open spec fn obeys_bitor_spec() -> bool { true } open spec fn bitor_req(self, o: Style) -> bool { true }
    open spec fn bitor_spec(self, o: Style) -> Style { Style { bits: self.bits | o.bits } } }
impl std::ops::BitOr for Style { type Output = Style; #[verifier::external_body] fn bitor(self, o: Style) -> Style { unimplemented!() } }
impl BitAndSpecImpl for Style { open spec fn obeys_bitand_spec() -> bool { true } open spec fn bitand_req(self, o: Style) -> bool { true }
    open spec fn bitand_spec(self, o: Style) -> Style { Style { bits: self.bits & o.bits } } }
impl std::ops::BitAnd for Style { type Output = Style; #[verifier::external_body] fn bitand(self, o: Style) -> Style { unimplemented!() } }
impl SubSpecImpl for Style { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Style) -> bool { true }
    open spec fn sub_spec(self, o: Style) -> Style { Style { bits: self.bits & !o.bits } } }
impl std::ops::Sub for Style { type Output = Style; #[verifier::external_body] fn sub(self, o: Style) -> Style { unimplemented!() } }
impl Style {
    #[verifier::external_body]
    pub fn empty() -> (r: Style) ensures r.bits == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(self) -> (r: bool) ensures r == (self.bits == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(self, o: Style) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) { unimplemented!() }
    #[verifier::external_body]
    pub fn intersects(self, o: Style) -> (r: bool) ensures r == (self.bits & o.bits != 0) { unimplemented!() }
}
// ---- control characters
pub open spec fn hexdigit(n: int) -> char { if n < 10 { ('0' as u32 + n) as char } else { ('A' as u32 + n - 10) as char } }
pub open spec fn hex(n: nat) -> Seq<char>
    decreases n
{ if n < 16 { seq![hexdigit(n as int)] } else { hex(n / 16).push(hexdigit((n % 16) as int)) } }
/// at least four digits
pub open spec fn hex4(n: nat) -> Seq<char> { Seq::new((if hex(n).len() < 4 { (4 - hex(n).len()) as nat } else { 0 }), |i: int| '0') + hex(n) }
/// what is shown for a character that a Line does not contain
pub open spec fn subst(c: char) -> Seq<char> { if (c as u32) < 32 { seq!['^', (64 + c as u32) as char] } else { "U+"@ + hex4(c as nat) } }
pub open spec fn shown1(c: char) -> Seq<char> { if bad(c) { subst(c) } else { seq![c] } }
pub open spec fn shown(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { shown(s.drop_last()) + shown1(s.last()) } }
pub open spec fn flip(a: Attr) -> Attr { (Style { bits: a.0.bits ^ Style::INVERSE.bits }, a.1, a.2) }
pub open spec fn spaint1(c: char, a: Attr) -> Seq<(u8, Attr)> { if bad(c) { paint(by(subst(c)), flip(a)) } else { paint(by(seq![c]), a) } }
/// the text `s` as it is added while `a` is active
pub open spec fn spaint(s: Seq<char>, a: Attr) -> Seq<(u8, Attr)>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { spaint(s.drop_last(), a) + spaint1(s.last(), a) } }
pub proof fn lemma_hex_clean(n: nat)
    ensures clean(hex(n)), hex(n).len() > 0
    decreases n
{ if n >= 16 { lemma_hex_clean(n / 16); } }
pub proof fn lemma_subst_clean(c: char)
    requires bad(c)
    ensures clean(subst(c)), subst(c).len() > 0
{ reveal_strlit("U+"); lemma_hex_clean(c as nat); }
pub proof fn lemma_shown_clean(s: Seq<char>)
    ensures clean(shown(s))
    decreases s.len()
{ if s.len() > 0 { lemma_shown_clean(s.drop_last()); if bad(s.last()) { lemma_subst_clean(s.last()); } } }
pub proof fn lemma_take1(s: Seq<char>, j: int)
    requires 0 <= j < s.len()
    ensures s.take(j + 1).drop_last() == s.take(j), s.take(j + 1).last() == s[j], s.take(j + 1) == s.take(j) + seq![s[j]],
        by(s.take(j + 1)) == by(s.take(j)) + by(seq![s[j]]), by(s.take(j + 1)).len() > by(s.take(j)).len(),
        shown(s.take(j + 1)) == shown(s.take(j)) + shown1(s[j]),
        forall|a: Attr| #[trigger] spaint(s.take(j + 1), a) == spaint(s.take(j), a) + spaint1(s[j], a),
{
    assert(s.take(j + 1).drop_last() =~= s.take(j)); assert(s.take(j + 1) =~= s.take(j) + seq![s[j]]);
    encode_utf8_concat(s.take(j), seq![s[j]]); lemma_char_bytes(s[j]);
}
/// the texts up to two places, in bytes
pub proof fn lemma_take_cut(s: Seq<char>, k: int, j: int)
    requires 0 <= k <= j <= s.len()
    ensures by(s.take(j)) == by(s.take(k)) + by(s.subrange(k, j)),
        by(s.subrange(k, j)) == by(s).subrange(by(s.take(k)).len() as int, by(s.take(j)).len() as int),
        by(s.take(k)).len() <= by(s.take(j)).len() <= by(s).len(),
        by(s.take(k)).len() == by(s.take(j)).len() ==> k == j,
        bnd(by(s), by(s.take(k)).len() as int), bnd(by(s), by(s.take(j)).len() as int),
        s.take(s.len() as int) == s, s.take(0) == Seq::<char>::empty(), by(s.take(0)).len() == 0,
{
    assert(s.take(j) =~= s.take(k) + s.subrange(k, j)); encode_utf8_concat(s.take(k), s.subrange(k, j));
    assert(s =~= s.take(j) + s.skip(j)); encode_utf8_concat(s.take(j), s.skip(j)); lemma_bnd_ends(s.take(j));
    assert(s =~= s.take(k) + s.skip(k)); encode_utf8_concat(s.take(k), s.skip(k)); lemma_bnd_ends(s.take(k));
    lemma_bnd_cat(s.take(j), s.skip(j), by(s.take(j)).len() as int); lemma_bnd_cat(s.take(k), s.skip(k), by(s.take(k)).len() as int);
    assert(by(s.subrange(k, j)) =~= by(s).subrange(by(s.take(k)).len() as int, by(s.take(j)).len() as int));
    lemma_by_nonempty(s.subrange(k, j)); assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<char>::empty()); lemma_by_nonempty(s.take(0));
}
/// the character that starts at byte `b` (or the number of characters, at the end)
pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && by(#[trigger] s.take(k)).len() == b }
pub proof fn lemma_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures cidx(s, by(s.take(k)).len() as int) == k
{
    let b = by(s.take(k)).len() as int; let m = cidx(s, b);
    assert(0 <= m <= s.len() && by(s.take(m)).len() == b);
    if m < k { lemma_take_cut(s, m, k); } else { lemma_take_cut(s, k, m); }
}
/// characters that need no replacing
pub proof fn lemma_run(s: Seq<char>, k: int, j: int, a: Attr)
    requires 0 <= k <= j <= s.len(), forall|m: int| k <= m < j ==> !bad(#[trigger] s[m])
    ensures shown(s.take(j)) == shown(s.take(k)) + s.subrange(k, j), spaint(s.take(j), a) == spaint(s.take(k), a) + paint(by(s.subrange(k, j)), a)
    decreases j - k
{
    if k < j {
        lemma_run(s, k, j - 1, a); lemma_take1(s, j - 1);
        assert(s.subrange(k, j) =~= s.subrange(k, j - 1) + seq![s[j - 1]]); encode_utf8_concat(s.subrange(k, j - 1), seq![s[j - 1]]);
        assert(paint(by(s.subrange(k, j)), a) =~= paint(by(s.subrange(k, j - 1)), a) + paint(by(seq![s[j - 1]]), a));
        assert(shown(s.take(j)) =~= shown(s.take(k)) + s.subrange(k, j));
        assert(spaint(s.take(j), a) =~= spaint(s.take(k), a) + paint(by(s.subrange(k, j)), a));
    } else { assert(s.subrange(k, j) =~= Seq::<char>::empty()); lemma_by_nonempty(s.subrange(k, j)); assert(shown(s.take(j)) =~= shown(s.take(k)) + s.subrange(k, j));
        assert(spaint(s.take(j), a) =~= spaint(s.take(k), a) + paint(by(s.subrange(k, j)), a)); }
}
/// one step of adding a text: some characters as they are, then one that is replaced
pub proof fn lemma_add_step(s: Seq<char>, k: int, j: int, a: Attr, t0: Seq<char>, t: Seq<char>, b0: Seq<(u8, Attr)>, b: Seq<(u8, Attr)>)
    requires 0 <= k <= j < s.len(), forall|m: int| k <= m < j ==> !bad(#[trigger] s[m]), bad(s[j]), t == t0 + shown(s.take(k)), b == b0 + spaint(s.take(k), a)
    ensures
        t + s.subrange(k, j) + subst(s[j]) == t0 + shown(s.take(j + 1)),
        b + paint(by(s.subrange(k, j)), a) + paint(by(subst(s[j])), flip(a)) == b0 + spaint(s.take(j + 1), a),
        k == j ==> t + subst(s[j]) == t0 + shown(s.take(j + 1)) && b + paint(by(subst(s[j])), flip(a)) == b0 + spaint(s.take(j + 1), a),
{
    lemma_run(s, k, j, a); lemma_take1(s, j);
    assert(t + s.subrange(k, j) + subst(s[j]) =~= t0 + shown(s.take(j + 1)));
    assert(b + paint(by(s.subrange(k, j)), a) + paint(by(subst(s[j])), flip(a)) =~= b0 + spaint(s.take(j + 1), a));
    if k == j { assert(t + subst(s[j]) =~= t0 + shown(s.take(j + 1))); assert(b + paint(by(subst(s[j])), flip(a)) =~= b0 + spaint(s.take(j + 1), a)); }
}
pub proof fn lemma_add_rest(s: Seq<char>, k: int, a: Attr, t0: Seq<char>, t: Seq<char>, b0: Seq<(u8, Attr)>, b: Seq<(u8, Attr)>)
    requires 0 <= k <= s.len(), forall|m: int| k <= m < s.len() ==> !bad(#[trigger] s[m]), t == t0 + shown(s.take(k)), b == b0 + spaint(s.take(k), a)
    ensures t + s.skip(k) == t0 + shown(s), b + paint(by(s.skip(k)), a) == b0 + spaint(s, a),
        by(s.skip(k)) == by(s).subrange(by(s.take(k)).len() as int, by(s).len() as int), bnd(by(s), by(s.take(k)).len() as int),
        by(s.take(k)).len() == by(s).len() ==> t == t0 + shown(s) && b == b0 + spaint(s, a),
{
    lemma_run(s, k, s.len() as int, a); lemma_take_cut(s, k, s.len() as int); assert(s.subrange(k, s.len() as int) =~= s.skip(k));
    assert(t + s.skip(k) =~= t0 + shown(s)); assert(b + paint(by(s.skip(k)), a) =~= b0 + spaint(s, a));
}
pub proof fn lemma_clean_cat(s: Seq<char>, t: Seq<char>)
    requires clean(s), clean(t)
    ensures clean(s + t)
{ assert forall|i: int| 0 <= i < (s + t).len() implies !bad(#[trigger] (s + t)[i]) by { if i < s.len() { assert(!bad(s[i])); } else { assert(!bad(t[i - s.len()])); } } }
pub proof fn lemma_add_start(l0: Line, s: Seq<char>, a: Attr)
    ensures clean(l0.text@) ==> clean(l0.text@ + shown(s)),
        l0.text@ == l0.text@ + shown(s.take(0)), l0.sb() == l0.sb() + spaint(s.take(0), a),
        by(s).len() == 0 ==> l0.text@ == l0.text@ + shown(s) && l0.sb() == l0.sb() + spaint(s, a),
        (forall|m: int| 0 <= m < s.len() ==> !bad(#[trigger] s[m])) ==> l0.text@ + s == l0.text@ + shown(s) && l0.sb() + paint(by(s), a) == l0.sb() + spaint(s, a),
{
    lemma_shown_clean(s); if clean(l0.text@) { lemma_clean_cat(l0.text@, shown(s)); }
    lemma_by_nonempty(s); assert(s.take(0) =~= seq![]); assert(s.len() == 0 ==> s =~= seq![]); assert(s.skip(0) =~= s);
    assert(l0.text@ =~= l0.text@ + shown(s.take(0))); assert(l0.sb() =~= l0.sb() + spaint(s.take(0), a));
    if forall|m: int| 0 <= m < s.len() ==> !bad(#[trigger] s[m]) { lemma_add_rest(s, 0, a, l0.text@, l0.text@, l0.sb(), l0.sb()); }
}
pub proof fn lemma_flip2(a: Attr) ensures flip(flip(a)) == a
{ let x = a.0.bits; let y = Style::INVERSE.bits; assert((x ^ y) ^ y == x) by(bit_vector); }
// ---- pieces of lines
/// the place of a character boundary
pub proof fn lemma_bnd_idx(s: Seq<char>, b: int)
    requires bnd(by(s), b)
    ensures 0 <= cidx(s, b) <= s.len(), by(s.take(cidx(s, b))).len() == b,
    decreases s.len()
{
    let n = s.len() as int;
    lemma_take_cut(s, 0, n);
    if b == by(s).len() { assert(by(s.take(n)).len() == b); }
    else {
        lemma_by_nonempty(s);
        let t = s.drop_last(); let c = seq![s.last()];
        assert(t + c =~= s); encode_utf8_concat(t, c); lemma_char_bytes(s.last());
        if b < by(t).len() {
            assert(by(s)[b] == by(t)[b]);
            lemma_bnd_idx(t, b);
            let k = cidx(t, b);
            assert(s.take(k) =~= t.take(k));
            assert(by(s.take(k)).len() == b);
        } else {
            if b > by(t).len() { assert(by(s)[b] == by(c)[b - by(t).len()]); }
            assert(s.take(n - 1) =~= t);
            assert(by(s.take(n - 1)).len() == b);
        }
    }
}
pub proof fn lemma_attr_at(e: Seq<LineElement>, b: Seq<u8>, k: int, i: int, n: int)
    requires covers(e, b), 0 <= k < n <= e.len(), e[k].start <= i < e[k].end
    ensures attr(e.take(n), i) == e[k].at()
    decreases n
{
    reveal(covers);
    assert(e.take(n).last() == e[n - 1]);
    if k < n - 1 { assert(e[k].end <= e[n - 1].start); assert(e.take(n).drop_last() =~= e.take(n - 1)); lemma_attr_at(e, b, k, i, n - 1); }
}
/// the text of an element
pub open spec fn piece(l: Line, k: int) -> Seq<char> { let e = l.elements@[k]; l.text@.subrange(cidx(l.text@, e.start as int), cidx(l.text@, e.end as int)) }
/// what an element of a line covers
pub proof fn lemma_element(l: Line, k: int, a: Attr)
    requires l.inv(), 0 <= k < l.elements@.len()
    ensures
        ({ let e = l.elements@[k]; let b = by(l.text@); let r = piece(l, k);
           &&& e.start <= e.end <= b.len() && bnd(b, e.start as int) && bnd(b, e.end as int)
           &&& e.start == (if k == 0 { 0int } else { l.elements@[k - 1].end as int })
           &&& k == l.elements@.len() - 1 ==> e.end == b.len()
           &&& by(r) == b.subrange(e.start as int, e.end as int)
           &&& shown(r) == r && spaint(r, a) == paint(by(r), a)
           &&& l.sb().take(e.end as int) == l.sb().take(e.start as int) + paint(by(r), e.at())
           &&& b.take(e.end as int) == b.take(e.start as int) + by(r) }),
{
    reveal(covers); reveal(Line::sb);
    let e = l.elements@[k]; let b = by(l.text@); let s = l.text@; let r = piece(l, k);
    assert(e.start <= e.end <= b.len());
    if k > 0 { assert(l.elements@[k - 1].end == l.elements@[k].start); }
    lemma_bnd_idx(s, e.start as int); lemma_bnd_idx(s, e.end as int);
    let p = cidx(s, e.start as int); let q = cidx(s, e.end as int);
    if q < p { lemma_take_cut(s, q, p); }
    lemma_take_cut(s, p, q);
    assert forall|m: int| 0 <= m < r.len() implies !bad(#[trigger] r[m]) by { assert(r[m] == s[p + m]); assert(!bad(s[p + m])); }
    lemma_run(r, 0, r.len() as int, a); lemma_take_cut(r, 0, r.len() as int); assert(r.subrange(0, r.len() as int) =~= r);
    assert(shown(r) =~= r); assert(spaint(r, a) =~= paint(by(r), a));
    assert forall|i: int| e.start <= i < e.end implies l.sb()[i] == (b[i], e.at()) by { lemma_attr_at(l.elements@, b, k, i, l.elements@.len() as int); assert(l.elements@.take(l.elements@.len() as int) =~= l.elements@); }
    assert(l.sb().take(e.end as int) =~= l.sb().take(e.start as int) + paint(by(r), e.at()));
    assert(b.take(e.end as int) =~= b.take(e.start as int) + by(r));
}
/// the attributes of a byte, from the element that covers it
pub proof fn lemma_sb_at(l: Line, k: int, i: int)
    requires l.wf(), 0 <= k < l.elements@.len(), l.elements@[k].start <= i < l.elements@[k].end
    ensures 0 <= i < l.sb().len(), l.sb()[i].1 == l.elements@[k].at()
{ reveal(covers); reveal(Line::sb); let e = l.elements@; lemma_attr_at(e, by(l.text@), k, i, e.len() as int); assert(e.take(e.len() as int) =~= e); assert(e[k].end <= by(l.text@).len()); }
/// some element covers each byte, and it is the first one that ends after it
pub proof fn lemma_cover_next(l: Line, k: int, i: int)
    requires l.wf(), 0 <= i < by(l.text@).len(), 0 <= k <= l.elements@.len(), k > 0 ==> l.elements@[k - 1].end <= i
    ensures k < l.elements@.len(), l.elements@[k].start <= i
{ reveal(covers); let e = l.elements@; if k > 0 && k < e.len() { assert(e[k - 1].end == e[k].start); } if k == e.len() { assert(e.len() > 0); } }
// ---- ANSI
pub open spec fn esc(s: Seq<char>, i: int) -> bool { 0 <= i && i + 1 < s.len() && s[i] == '\u{1b}' && s[i + 1] == '[' }
pub open spec fn isparam(c: char) -> bool { 0x30 <= c as u32 <= 0x3f }
/// how many parameter characters there are at the start
pub open spec fn prun(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() > 0 && isparam(s[0]) { 1 + prun(s.skip(1)) } else { 0 } }
pub open spec fn splits(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else { let r = splits(s.skip(1), c); if s[0] == c { seq![Seq::<char>::empty()] + r } else { r.update(0, seq![s[0]] + r[0]) } }
}
pub open spec fn dec(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() as nat - '0' as nat) as nat } }
/// what str::parse::<u32> reads
pub open spec fn u32_of(s: Seq<char>) -> Option<u32> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> '0' <= #[trigger] d[i] <= '9') && dec(d) <= 0xffff_ffff { Some(dec(d) as u32) } else { None }
}
pub open spec fn num(s: Seq<char>) -> u32 { match u32_of(s) { Some(v) => v, None => 0 } }
pub open spec fn codes_of(s: Seq<char>) -> Seq<u32> { splits(s, ';').map_values(|p: Seq<char>| num(p)) }
pub open spec fn with(a: Attr, s: Style) -> Attr { (Style { bits: a.0.bits | s.bits }, a.1, a.2) }
pub open spec fn without(a: Attr, s: Style) -> Attr { (Style { bits: a.0.bits & !s.bits }, a.1, a.2) }
pub open spec fn color(n: int) -> Color {
    if n == 0 { Color::Black } else if n == 1 { Color::Red } else if n == 2 { Color::Green } else if n == 3 { Color::Yellow }
    else if n == 4 { Color::Blue } else if n == 5 { Color::Magenta } else if n == 6 { Color::Cyan } else { Color::White }
}
/// what a single graphic rendition does
pub open spec fn sgr1(a: Attr, c: u32) -> Attr {
    if c == 0 { plain() }
    else if c == 1 { with(a, Style::BOLD) } else if c == 2 { with(a, Style::DIM) } else if c == 3 { with(a, Style::ITALIC) }
    else if c == 4 { with(a, Style::UNDERLINE) } else if c == 7 { with(a, Style::REVERSE) }
    else if c == 21 { without(a, Style::BOLD) } else if c == 22 { without(a, Style { bits: Style::BOLD.bits | Style::DIM.bits }) } else if c == 23 { without(a, Style::ITALIC) }
    else if c == 24 { without(a, Style::UNDERLINE) } else if c == 27 { without(a, Style::REVERSE) }
    else if 30 <= c <= 37 { (a.0, Some(color(c - 30)), a.2) } else if c == 39 { (a.0, None, a.2) }
    else if 40 <= c <= 47 { (a.0, a.1, Some(color(c - 40))) } else if c == 49 { (a.0, a.1, None) }
    else { a }
}
pub open spec fn skipn(c: Seq<u32>, n: int) -> Seq<u32> { if n <= c.len() { c.skip(n) } else { Seq::empty() } }
/// what the parameters of an SGR sequence do
pub open spec fn sgr(a: Attr, c: Seq<u32>) -> Attr
    decreases c.len()
{
    if c.len() == 0 { a }
    else if c[0] == 38 || c[0] == 48 || c[0] == 58 {
        // extended colors are not supported: they are skipped
        if c.len() > 1 && c[1] == 5 { sgr(a, skipn(c, 3)) } else if c.len() > 1 && c[1] == 2 { sgr(a, skipn(c, 5)) } else { sgr(a, skipn(c, 2)) }
    } else { sgr(sgr1(a, c[0]), c.skip(1)) }
}
/// the bytes, with attributes, that the ANSI text `s` adds while `a` is active, and what is active afterwards
pub open spec fn ansi(s: Seq<char>, a: Attr) -> (Seq<(u8, Attr)>, Attr)
    decreases s.len()
{
    if s.len() == 0 { (Seq::empty(), a) }
    else if esc(s, 0) {
        let n = prun(s.skip(2));
        if 0 <= n && 2 + n < s.len() && s[2 + n] == 'm' { ansi(s.skip(3 + n), sgr(a, codes_of(s.subrange(2, 2 + n)))) }
        else { let r = ansi(s.skip(2), a); (spaint(s.take(2), a) + r.0, r.1) }
    } else { let r = ansi(s.skip(1), a); (spaint(s.take(1), a) + r.0, r.1) }
}
pub proof fn lemma_spaint_cat(s: Seq<char>, t: Seq<char>, a: Attr)
    ensures spaint(s + t, a) == spaint(s, a) + spaint(t, a), shown(s + t) == shown(s) + shown(t)
    decreases t.len()
{
    if t.len() > 0 {
        assert((s + t).drop_last() =~= s + t.drop_last()); lemma_spaint_cat(s, t.drop_last(), a);
        assert(spaint(s + t, a) =~= spaint(s, a) + spaint(t, a)); assert(shown(s + t) =~= shown(s) + shown(t));
    } else { assert(s + t =~= s); assert(spaint(s + t, a) =~= spaint(s, a) + spaint(t, a)); assert(shown(s + t) =~= shown(s) + shown(t)); }
}
/// text without any sequence in it
pub proof fn lemma_ansi_run(t: Seq<char>, k: int, a: Attr)
    requires 0 <= k <= t.len(), forall|m: int| 0 <= m < k ==> !#[trigger] esc(t, m)
    ensures ansi(t, a).0 == spaint(t.take(k), a) + ansi(t.skip(k), a).0, ansi(t, a).1 == ansi(t.skip(k), a).1
    decreases k
{
    if k > 0 {
        assert(!esc(t, 0));
        let u = t.skip(1);
        assert forall|m: int| 0 <= m < k - 1 implies !#[trigger] esc(u, m) by { assert(!esc(t, m + 1)); }
        lemma_ansi_run(u, k - 1, a);
        assert(u.skip(k - 1) =~= t.skip(k)); assert(t.take(k) =~= t.take(1) + u.take(k - 1)); lemma_spaint_cat(t.take(1), u.take(k - 1), a);
        assert(ansi(t, a).0 =~= spaint(t.take(k), a) + ansi(t.skip(k), a).0);
    } else { assert(t.skip(0) =~= t); assert(ansi(t, a).0 =~= spaint(t.take(0), a) + ansi(t, a).0); }
}
pub proof fn lemma_prun(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|m: int| 0 <= m < n ==> isparam(#[trigger] s[m]), n < s.len() ==> !isparam(s[n])
    ensures prun(s) == n
    decreases s.len()
{ if n > 0 { assert(isparam(s[0])); assert forall|m: int| 0 <= m < n - 1 implies isparam(#[trigger] s.skip(1)[m]) by { assert(isparam(s[m + 1])); } lemma_prun(s.skip(1), n - 1); } }
pub proof fn lemma_ascii_char(c: char)
    ensures by(seq![c])[0] < 0x80 <==> (c as u32) < 0x80, (c as u32) < 0x80 ==> by(seq![c]) == seq![c as u8]
{
    reveal_with_fuel(encode_utf8, 3);
    let v = c as u32;
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    assert(by(seq![c]) =~= encode_scalar(v));
    assert(v < 0x80 ==> ((v & 0x7f) as u8) == (v as u8) && (v as u8) < 0x80u8) by(bit_vector);
    assert((0xc0u8 | (((v >> 6) & 0x1f) as u8)) >= 0xc0u8) by(bit_vector);
    assert((0xe0u8 | (((v >> 12) & 0x0f) as u8)) >= 0xc0u8) by(bit_vector);
    assert((0xf0u8 | (((v >> 18) & 0x07) as u8)) >= 0xc0u8) by(bit_vector);
    assert((c as u32) < 0x80 ==> by(seq![c]) =~= seq![c as u8]);
}
/// ASCII bytes are ASCII characters
pub proof fn lemma_ascii(t: Seq<char>, n: int)
    requires 0 <= n <= by(t).len(), forall|m: int| 0 <= m < n ==> #[trigger] by(t)[m] < 0x80
    ensures n <= t.len(), by(t.take(n)).len() == n, forall|m: int| 0 <= m < n ==> #[trigger] t[m] as u32 == by(t)[m] as u32,
        n < by(t).len() ==> n < t.len() && (by(t)[n] < 0x80 ==> t[n] as u32 == by(t)[n] as u32) && ((t[n] as u32) < 0x80 ==> by(t)[n] < 0x80),
        n == by(t).len() ==> n == t.len(),
    decreases n
{
    if n == 0 { assert(t.take(0) =~= Seq::<char>::empty()); lemma_by_nonempty(t.take(0)); lemma_by_nonempty(t); }
    else { lemma_ascii(t, n - 1); lemma_take1(t, n - 1); lemma_take_cut(t, n - 1, n); lemma_ascii_char(t[n - 1]);
        assert(by(t)[n - 1] == by(t.take(n))[n - 1]); assert(by(t.take(n))[n - 1] == by(seq![t[n - 1]])[0]); }
    lemma_take_cut(t, n, t.len() as int);
    if n < by(t).len() {
        if n == t.len() { assert(t.take(n) =~= t); }
        lemma_take1(t, n); lemma_take_cut(t, n, n + 1); lemma_ascii_char(t[n]);
        lemma_take_cut(t, n + 1, n + 1);
        assert(t.subrange(n, n + 1) =~= seq![t[n]]);
        assert(by(t)[n] == by(seq![t[n]])[0]) by { assert(by(seq![t[n]]) == by(t).subrange(n, by(t.take(n + 1)).len() as int)); }
    } else { assert(by(t.skip(n)).len() == 0) by { assert(t.subrange(n, t.len() as int) =~= t.skip(n)); } lemma_by_nonempty(t.skip(n)); }
}
pub proof fn lemma_texts(x: Seq<char>)
    ensures forall|r: Seq<char>| (#[trigger] encode_utf8(r)) == by(x) ==> r == x
{ assert forall|r: Seq<char>| (#[trigger] encode_utf8(r)) == by(x) implies r == x by { lemma_by_inj(r, x); } }
pub proof fn lemma_from(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures by(s.skip(k)) == by(s).subrange(by(s.take(k)).len() as int, by(s).len() as int), bnd(by(s), by(s.take(k)).len() as int), cidx(s, by(s.take(k)).len() as int) == k,
        by(s.take(k)).len() <= by(s).len(), by(s.take(k)).len() == by(s).len() <==> k == s.len(),
{ lemma_take_cut(s, k, s.len() as int); lemma_cidx(s, k); assert(s.subrange(k, s.len() as int) =~= s.skip(k)); }
/// a place within the rest of a text
pub proof fn lemma_within(s: Seq<char>, k: int, j: int)
    requires 0 <= k, 0 <= j, k + j <= s.len()
    ensures by(s.take(k + j)).len() == by(s.take(k)).len() + by(s.skip(k).take(j)).len(), s.skip(k).skip(j) == s.skip(k + j),
        by(s.skip(k).take(j)) == by(s).subrange(by(s.take(k)).len() as int, by(s.take(k + j)).len() as int),
        bnd(by(s), by(s.take(k)).len() as int), bnd(by(s), by(s.take(k + j)).len() as int), by(s.take(k + j)).len() <= by(s).len(),
{ lemma_take_cut(s, k, k + j); assert(s.subrange(k, k + j) =~= s.skip(k).take(j)); assert(s.skip(k).skip(j) =~= s.skip(k + j)); }
pub proof fn lemma_ansi_none(t: Seq<char>, a: Attr)
    requires forall|m: int| 0 <= m < t.len() ==> !#[trigger] esc(t, m)
    ensures ansi(t, a).0 == spaint(t, a), ansi(t, a).1 == a
{ lemma_ansi_run(t, t.len() as int, a); assert(t.take(t.len() as int) =~= t); assert(t.skip(t.len() as int) =~= Seq::<char>::empty()); assert(ansi(t, a).0 =~= spaint(t, a)); }
/// text up to a sequence, then the sequence
pub proof fn lemma_ansi_seq(t: Seq<char>, j: int, n: int, a: Attr)
    requires 0 <= j, esc(t, j), forall|m: int| 0 <= m < j ==> !#[trigger] esc(t, m), 0 <= n <= t.skip(j + 2).len(), prun(t.skip(j + 2)) == n
    ensures ({ let u = t.skip(j + 2);
        if n < u.len() && u[n] == 'm' {
            let b = sgr(a, codes_of(u.take(n)));
            ansi(t, a).0 == spaint(t.take(j), a) + ansi(u.skip(n + 1), b).0 && ansi(t, a).1 == ansi(u.skip(n + 1), b).1
        } else { ansi(t, a).0 == spaint(t.take(j), a) + spaint(seq!['\u{1b}', '['], a) + ansi(u, a).0 && ansi(t, a).1 == ansi(u, a).1 } }),
{
    lemma_ansi_run(t, j, a);
    let v = t.skip(j); let u = t.skip(j + 2);
    assert(esc(v, 0)); assert(v.skip(2) =~= u); assert(v.take(2) =~= seq!['\u{1b}', '[']);
    if n < u.len() && u[n] == 'm' { assert(v[2 + n] == u[n]); assert(v.skip(3 + n) =~= u.skip(n + 1)); assert(v.subrange(2, 2 + n) =~= u.take(n)); }
    else { if 2 + n < v.len() { assert(v[2 + n] == u[n]); } assert(ansi(t, a).0 =~= spaint(t.take(j), a) + spaint(seq!['\u{1b}', '['], a) + ansi(u, a).0); }
}
pub proof fn lemma_ansi_end(s: Seq<char>, k: int, l: Line)
    requires 0 <= k <= s.len()
    ensures by(s.take(k)).len() == by(s).len() ==> l.sb() + ansi(s.skip(k), l.active()).0 == l.sb() && ansi(s.skip(k), l.active()).1 == l.active()
{ lemma_from(s, k); if k == s.len() { assert(s.skip(k) =~= Seq::<char>::empty()); assert(l.sb() + ansi(s.skip(k), l.active()).0 =~= l.sb()); } }
pub proof fn lemma_sgr_step(a: Attr, c: Seq<u32>, k: int)
    requires 0 <= k <= c.len()
    ensures
        k == c.len() ==> sgr(a, c.skip(k)) == a,
        k < c.len() && !(c[k] == 38 || c[k] == 48 || c[k] == 58) ==> sgr(a, c.skip(k)) == sgr(sgr1(a, c[k]), c.skip(k + 1)),
        k < c.len() && (c[k] == 38 || c[k] == 48 || c[k] == 58) ==> ({
            let w: int = if k + 1 < c.len() && c[k + 1] == 5 { 3 } else if k + 1 < c.len() && c[k + 1] == 2 { 5 } else { 2 };
            sgr(a, c.skip(k)) == sgr(a, c.skip(if k + w <= c.len() { k + w } else { c.len() as int })) }),
{
    let d = c.skip(k);
    if k < c.len() {
        assert(d.skip(1) =~= c.skip(k + 1));
        assert forall|n: int| 0 <= n implies #[trigger] skipn(d, n) =~= c.skip(if k + n <= c.len() { k + n } else { c.len() as int }) by { }
    }
}
/// the parameters, from the bytes
pub proof fn lemma_params(u: Seq<char>, n: int)
    requires 0 <= n <= by(u).len(), forall|m: int| 0 <= m < n ==> 0x30 <= #[trigger] by(u)[m] <= 0x3f, n < by(u).len() ==> !(0x30 <= by(u)[n] <= 0x3f)
    ensures n <= u.len(), prun(u) == n, by(u.take(n)).len() == n, n < by(u).len() <==> n < u.len(), n < u.len() ==> (by(u)[n] == 0x6d <==> u[n] == 'm'),
        n < u.len() && u[n] == 'm' ==> by(u.take(n + 1)).len() == n + 1,
{
    lemma_ascii(u, n);
    assert forall|m: int| 0 <= m < n implies isparam(#[trigger] u[m]) by { assert(0x30 <= by(u)[m] <= 0x3f); }
    lemma_prun(u, n);
    lemma_by_nonempty(u); if n < u.len() { lemma_take_cut(u, n, u.len() as int); if n == by(u).len() { assert(false); } }
    if n < u.len() && u[n] == 'm' { lemma_take1(u, n); lemma_ascii_char(u[n]); }
}
pub proof fn lemma_split_len(s: Seq<char>, c: char)
    ensures splits(s, c).len() > 0
    decreases s.len()
{ if s.len() > 0 { lemma_split_len(s.skip(1), c); } }
pub proof fn lemma_esc_bytes(t: Seq<char>, j: int)
    requires 0 <= j, esc(t, j)
    ensures by(t.take(j + 2)).len() == by(t.take(j)).len() + 2
{ lemma_take1(t, j); lemma_take1(t, j + 1); lemma_ascii_char(t[j]); lemma_ascii_char(t[j + 1]); }
// ---- standard library
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> View for Cow<'a> { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } } }
impl<'a> Cow<'a> {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl<'a> VxLen for Cow<'a> { open spec fn vl(&self) -> nat { by(self@).len() } fn vx_len(&self) -> (r: usize) { match self { Cow::Borrowed(s) => s.vx_len(), Cow::Owned(s) => s.vx_len() } } }
impl<'a> VxText for Cow<'a> {
    open spec fn vt(&self) -> Seq<char> { self@ }
    open spec fn va(&self) -> int { match self { Cow::Borrowed(s) => s.va(), Cow::Owned(s) => s.va() } }
    fn vx_from(&self, a: usize) -> (r: &str) { match self { Cow::Borrowed(s) => s.vx_from(a), Cow::Owned(s) => s.vx_from(a) } }
    fn vx_to(&self, a: usize) -> (r: &str) { match self { Cow::Borrowed(s) => s.vx_to(a), Cow::Owned(s) => s.vx_to(a) } }
    fn vx_range(&self, a: usize, b: usize) -> (r: &str) { match self { Cow::Borrowed(s) => s.vx_range(a, b), Cow::Owned(s) => s.vx_range(a, b) } }
}
pub trait VxIntoCow<'a>: Sized { spec fn vv(&self) -> Seq<char>;
    fn vx_into(self) -> (r: Cow<'a>) ensures r@ == self.vv();
}
impl<'a> VxIntoCow<'a> for &'a str { open spec fn vv(&self) -> Seq<char> { self@ }
    fn vx_into(self) -> (r: Cow<'a>) { Cow::Borrowed(self) } }
impl<'a> VxIntoCow<'a> for String { open spec fn vv(&self) -> Seq<char> { self@ }
    fn vx_into(self) -> (r: Cow<'a>) { Cow::Owned(self) } }
impl<'a> VxIntoCow<'a> for Cow<'a> { open spec fn vv(&self) -> Seq<char> { self@ }
    fn vx_into(self) -> (r: Cow<'a>) { self } }
pub trait VxVec<T> {
    fn vx_last_mut(&mut self) -> (r: Option<&mut T>);
}
impl<T> VxVec<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && *x == old(self)@.last() && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)),
        }
    { self.last_mut() }
}
#[verifier::external_body]
pub fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
/// str::match_indices with a predicate on characters
pub struct VxMatches<'a> { pub s: Ghost<Seq<char>>, pub k: Ghost<int>, pub p: Ghost<spec_fn(char) -> bool>, pub m: std::marker::PhantomData<&'a ()> }
pub trait VxMatchIndices: VxText {
    #[verifier::external_body]
    fn vx_match_indices<'b, F: Fn(char) -> bool>(&'b self, f: F) -> (r: VxMatches<'b>)
        requires forall|c: char| f.requires((c,))
        ensures r.s@ == self.vt(), r.k@ == 0, forall|c: char| f.ensures((c,), #[trigger] (r.p@)(c))
    { unimplemented!() }
}
impl<'a> VxMatchIndices for Cow<'a> {}
impl VxMatchIndices for str {}
impl VxMatchIndices for String {}
impl<'a> VxMatches<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a str)>)
        requires 0 <= old(self).k@ <= old(self).s@.len()
        ensures final(self).s == old(self).s, final(self).p == old(self).p, old(self).k@ <= final(self).k@ <= final(self).s@.len(),
            match r {
                None => forall|j: int| old(self).k@ <= j < old(self).s@.len() ==> !(old(self).p@)(#[trigger] old(self).s@[j]),
                Some((i, t)) => { let j = final(self).k@ - 1;
                    &&& old(self).k@ <= j && i as int == by(old(self).s@.take(j)).len() && t@ == seq![old(self).s@[j]] && (old(self).p@)(old(self).s@[j])
                    &&& forall|m: int| old(self).k@ <= m < j ==> !(old(self).p@)(#[trigger] old(self).s@[m]) },
            }
    { unimplemented!() }
}
pub trait VxFmt { spec fn fmt(&self, f: Seq<char>) -> Seq<char>; }
pub uninterp spec fn any_fmt(f: Seq<char>) -> Seq<char>;
impl VxFmt for char { open spec fn fmt(&self, f: Seq<char>) -> Seq<char> { if f == "^{}"@ { seq!['^', *self] } else { any_fmt(f) } } }
impl VxFmt for u32 { open spec fn fmt(&self, f: Seq<char>) -> Seq<char> { if f == "U+{:04X}"@ { "U+"@ + hex4(*self as nat) } else { any_fmt(f) } } }
#[verifier::external_body]
pub fn vx_format1<T: VxFmt>(f: &str, t: T) -> (r: String) ensures r@ == t.fmt(f@) { unimplemented!() }
/// str::char_indices
pub struct VxCharIndices<'a> { pub s: Ghost<Seq<char>>, pub k: Ghost<int>, pub m: std::marker::PhantomData<&'a ()> }
pub trait VxChars: VxText {
    #[verifier::external_body]
    fn vx_char_indices<'b>(&'b self) -> (r: VxCharIndices<'b>) ensures r.s@ == self.vt(), r.k@ == 0 { unimplemented!() }
}
impl VxChars for str {}
impl VxChars for String {}
impl<'a> VxChars for Cow<'a> {}
impl<'a> VxCharIndices<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).k@ <= old(self).s@.len()
        ensures final(self).s == old(self).s,
            old(self).k@ == old(self).s@.len() ==> r is None && final(self).k@ == old(self).k@,
            old(self).k@ < old(self).s@.len() ==> r == Some((by(old(self).s@.take(old(self).k@)).len() as usize, old(self).s@[old(self).k@])) && final(self).k@ == old(self).k@ + 1 && by(old(self).s@.take(old(self).k@)).len() <= isize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) requires 0 <= self.k@ <= self.s@.len() ensures r@ == self.s@.skip(self.k@) { unimplemented!() }
}
pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub trait VxUnwrapOr<T> { spec fn uo(self, d: T) -> T; fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == self.uo(d); }
impl<T> VxUnwrapOr<T> for Option<T> { open spec fn uo(self, d: T) -> T { match self { Some(x) => x, None => d } } #[verifier::external_body] fn vx_unwrap_or(self, d: T) -> (r: T) { self.unwrap_or(d) } }
impl<T, E> VxUnwrapOr<T> for Result<T, E> { open spec fn uo(self, d: T) -> T { match self { Ok(x) => x, Err(_) => d } } #[verifier::external_body] fn vx_unwrap_or(self, d: T) -> (r: T) { self.unwrap_or(d) } }
/// str::split
pub struct VxSplit<'a> { pub p: Ghost<Seq<Seq<char>>>, pub m: std::marker::PhantomData<&'a ()> }
pub struct VxSplitMap<'a, F> { pub p: Ghost<Seq<Seq<char>>>, pub k: Ghost<int>, pub f: F, pub m: std::marker::PhantomData<&'a ()> }
pub trait VxSplits: VxText {
    #[verifier::external_body]
    fn vx_split<'b>(&'b self, c: char) -> (r: VxSplit<'b>) ensures r.p@ == splits(self.vt(), c) { unimplemented!() }
}
impl VxSplits for str {}
impl<'a> VxSplit<'a> {
    #[verifier::external_body]
    pub fn map<T, F: Fn(&'a str) -> T>(self, f: F) -> (r: VxSplitMap<'a, F>) ensures r.p == self.p, r.k@ == 0, r.f == f { unimplemented!() }
}
impl<'a, F> VxSplitMap<'a, F> {
    #[verifier::external_body]
    pub fn next<T>(&mut self) -> (r: Option<T>) where F: Fn(&'a str) -> T
        requires 0 <= old(self).k@ <= old(self).p@.len(), forall|x: &'a str| old(self).f.requires((x,))
        ensures final(self).p == old(self).p, final(self).f == old(self).f,
            old(self).k@ == old(self).p@.len() ==> r is None && final(self).k@ == old(self).k@,
            old(self).k@ < old(self).p@.len() ==> final(self).k@ == old(self).k@ + 1 && r is Some && (exists|x: &'a str| x@ == old(self).p@[old(self).k@] && #[trigger] old(self).f.ensures((x,), r->Some_0)),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VxParseErr { _x: u8 }
pub trait VxParse: Sized { spec fn parses(s: Seq<char>) -> Option<Self>; }
impl VxParse for u32 { open spec fn parses(s: Seq<char>) -> Option<u32> { u32_of(s) } }
pub trait VxStr: VxText {
    #[verifier::external_body]
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxParseErr>) ensures match T::parses(self.vt()) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err } { unimplemented!() }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == by(self.vt()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self.vt().len() > 0 && self.vt()[0] == c) { unimplemented!() }
}
impl VxStr for str {}
impl VxStr for String {}
impl<'a> VxStr for Cow<'a> {}
}
