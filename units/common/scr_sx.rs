// The screen: what the operations of a terminal do to it.  The unit that
// includes this defines Attr, plain() and `vis` (whether blanks with these
// attributes can be seen).
verus! {
pub type Cell = (char, Attr);
pub type Grid = spec_fn(int, int) -> Cell;
/// A terminal without automatic line wrap, with as many rows as needed.
/// `x` is the column the cursor is shown at, `bot` the last row there is, `low`
/// the first row that was ever moved to.
pub struct Scr { pub row: int, pub x: int, pub at: Attr, pub g: Grid, pub bot: int, pub low: int }
pub open spec fn blank() -> Cell { (' ', plain()) }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
/// the columns of a character
pub open spec fn cwi(c: char) -> int { match cw(c) { Some(w) => w as int, None => 0 } }
/// where a character without a column of its own goes is left open, but for the row
pub uninterp spec fn zw(g: Grid, row: int, x: int, c: int, ch: char, at: Attr) -> Cell;
pub open spec fn s_put(s: Scr, wd: int, ch: char) -> Scr {
    if cwi(ch) == 0 { Scr { g: |r: int, c: int| if r == s.row && 0 <= c < wd { zw(s.g, s.row, s.x, c, ch, s.at) } else { (s.g)(r, c) }, ..s } }
    else { Scr { x: min(s.x + cwi(ch), wd - 1), g: |r: int, c: int| if r == s.row && s.x <= c < s.x + cwi(ch) && c < wd { (if c == s.x { ch } else { '\0' }, s.at) } else { (s.g)(r, c) }, ..s } }
}
pub open spec fn s_spaces(s: Scr, wd: int, n: int) -> Scr {
    Scr { x: min(s.x + n, wd - 1), g: |r: int, c: int| if r == s.row && s.x <= c < s.x + n && c < wd { (' ', s.at) } else { (s.g)(r, c) }, ..s }
}
pub open spec fn s_eol(s: Scr, wd: int) -> Scr { Scr { g: |r: int, c: int| if r == s.row && s.x <= c < wd { (' ', (plain().0, plain().1, s.at.2)) } else { (s.g)(r, c) }, ..s } }
pub open spec fn s_nl(s: Scr) -> Scr { Scr { row: s.row + 1, x: 0, bot: if s.bot < s.row + 1 { s.row + 1 } else { s.bot }, ..s } }
pub open spec fn s_clear(s: Scr, wd: int) -> Scr { Scr { at: plain(), g: |r: int, c: int| if (r == s.row && s.x <= c < wd) || (r > s.row && 0 <= c < wd) { blank() } else { (s.g)(r, c) }, ..s } }
pub open spec fn s_at(s: Scr, at: Attr) -> Scr { Scr { at: at, ..s } }
pub open spec fn s_up(s: Scr, n: int) -> Scr { Scr { row: s.row - n, low: min(s.low, s.row - n), ..s } }
/// the rows from `top` on are blank
pub open spec fn blank_from(g: Grid, wd: int, top: int) -> bool { forall|r: int, c: int| r >= top && 0 <= c < wd ==> #[trigger] g(r, c) == blank() }
// ---- drawing the block
/// one character of the block is drawn where the cursor is; `im`: the last row was full, and has been broken
pub open spec fn drawc(s: Scr, im: bool, wd: int, ch: char, at: Attr) -> (Scr, bool) {
    let s = s_at(s, at);
    if ch != '\n' {
        if cwi(ch) > 0 && s.x + cwi(ch) >= wd { (s_nl(s_put(s, wd, ch)), true) } else { (s_put(s, wd, ch), false) }
    } else if im { (s, false) }
    else { (s_nl(if vis(at) { s_spaces(s, wd, wd - s.x) } else { s_eol(s, wd) }), false) }
}
pub open spec fn draw(s: Scr, wd: int, t: Seq<Cell>) -> (Scr, bool)
    decreases t.len()
{ if t.len() == 0 { (s, false) } else { let p = draw(s, wd, t.drop_last()); drawc(p.0, p.1, wd, t.last().0, t.last().1) } }
/// where the cursor goes: column, row, whether a full row has been broken
pub open spec fn adv(p: (int, int, bool), wd: int, ch: char) -> (int, int, bool) {
    if ch != '\n' { if cwi(ch) > 0 && p.0 + cwi(ch) >= wd { (0, p.1 + 1, true) } else { (p.0 + cwi(ch), p.1, false) } }
    else if p.2 { (p.0, p.1, false) } else { (0, p.1 + 1, false) }
}
pub open spec fn walk(wd: int, t: Seq<Cell>) -> (int, int, bool)
    decreases t.len()
{ if t.len() == 0 { (0, 0, false) } else { adv(walk(wd, t.drop_last()), wd, t.last().0) } }
/// the rest of the last row is filled
pub open spec fn fill(s: Scr, wd: int, f: Option<Attr>) -> Scr { match f { Some(a) => s_spaces(s_at(s, a), wd, wd - s.x), None => s } }
/// where a block that starts at row `top` of a screen with the cells `g` is drawn from
pub open spec fn start(g: Grid, top: int) -> Scr { Scr { row: top, x: 0, at: plain(), g: g, bot: top, low: top } }
}
verus! {
// ---- printing: what is sent to the terminal, and where it goes
/// `col` is the column after what was printed last, `end` the one after the last text in the row; `log` every
/// character printed as text, with its attributes and where it starts; `ok`: blanks went into rows only as far as
/// these go, and no text was cleared
pub struct Prt { pub row: int, pub col: int, pub end: int, pub at: Attr, pub log: Seq<(char, Attr, int, int)>, pub ok: bool }
pub open spec fn p_put(p: Prt, ch: char) -> Prt { Prt { col: p.col + cwi(ch), end: p.col + cwi(ch), log: p.log.push((ch, p.at, p.row, p.col)), ..p } }
pub open spec fn p_puts(p: Prt, t: Seq<char>) -> Prt
    decreases t.len()
{ if t.len() == 0 { p } else { p_put(p_puts(p, t.drop_last()), t.last()) } }
pub open spec fn p_spaces(p: Prt, wd: int, n: int) -> Prt { Prt { col: p.col + n, ok: p.ok && p.col + n <= wd, ..p } }
pub open spec fn p_eol(p: Prt, wd: int) -> Prt { Prt { ok: p.ok && p.end < wd, ..p } }
pub open spec fn p_nl(p: Prt) -> Prt { Prt { row: p.row + 1, col: 0, end: 0, ..p } }
pub open spec fn s_puts(s: Scr, wd: int, t: Seq<char>) -> Scr
    decreases t.len()
{ if t.len() == 0 { s } else { s_put(s_puts(s, wd, t.drop_last()), wd, t.last()) } }
/// Where the characters of a line go: newlines start a new row; so do visible characters that do not fit
pub open spec fn place(p: Prt, wd: int, z: Cell) -> Prt {
    if z.0 == '\n' { p_nl(p) }
    else { p_put(Prt { at: z.1, ..if cwi(z.0) > 0 && p.col > 0 && p.col + cwi(z.0) > wd { p_nl(p) } else { p } }, z.0) }
}
pub open spec fn lay(p: Prt, wd: int, t: Seq<Cell>) -> Prt
    decreases t.len()
{ if t.len() == 0 { p } else { place(lay(p, wd, t.drop_last()), wd, t.last()) } }
/// nothing is shown from the row of the cursor on, and the cursor is in front of it
pub open spec fn fresh_row(t: VxTerm) -> bool { t.s@.x == 0 && t.p@.col == 0 && t.p@.end == 0 && t.s@.at == plain() && t.s@.bot >= t.s@.row && blank_from(t.s@.g, t.wd@, t.s@.row) }
/// the terminal: `wd` columns (negated while it has been given back for the moment)
pub struct VxTerm { pub wd: Ghost<int>, pub s: Ghost<Scr>, pub p: Ghost<Prt>, pub bells: Ghost<nat> }
impl VxTerm {
    pub open spec fn ok(&self) -> bool { 1 <= self.wd@ <= 0xffff }
    #[verifier::external_body]
    pub fn get_width(&mut self) -> (r: u32) ensures *final(self) == *old(self), r == old(self).wd@, 1 <= r <= 0xffff { unimplemented!() }
    #[verifier::external_body]
    pub fn set_attrs(&mut self, s: Style, fg: Option<Color>, bg: Option<Color>) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == s_at(old(self).s@, (s, fg, bg)) && final(self).p@ == (Prt { at: (s, fg, bg), ..old(self).p@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn reset_attrs(&mut self) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == s_at(old(self).s@, plain()) && final(self).p@ == (Prt { at: plain(), ..old(self).p@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn cur_style(&mut self) -> (r: Style) ensures *final(self) == *old(self), r == old(self).p@.at.0, r == old(self).s@.at.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn print(&mut self, t: &str) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == s_puts(old(self).s@, old(self).wd@, t@) && final(self).p@ == p_puts(old(self).p@, t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn print_char(&mut self, ch: char) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == s_put(old(self).s@, old(self).wd@, ch) && final(self).p@ == p_put(old(self).p@, ch) { unimplemented!() }
    #[verifier::external_body]
    pub fn print_spaces(&mut self, n: usize) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == s_spaces(old(self).s@, old(self).wd@, n as int) && final(self).p@ == p_spaces(old(self).p@, old(self).wd@, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear_to_end_of_line(&mut self) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == s_eol(old(self).s@, old(self).wd@) && final(self).p@ == p_eol(old(self).p@, old(self).wd@) { unimplemented!() }
    #[verifier::external_body]
    pub fn newline(&mut self) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == s_nl(old(self).s@) && final(self).p@ == p_nl(old(self).p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn carriage_return(&mut self) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == (Scr { x: 0, ..old(self).s@ }) && final(self).p@ == (Prt { col: 0, ..old(self).p@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear_forward_and_reset(&mut self) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == s_clear(old(self).s@, old(self).wd@) && final(self).p@ == (Prt { at: plain(), col: old(self).s@.x, end: old(self).s@.x, ..old(self).p@ }) { unimplemented!() }
    /// the whole screen, and the cursor in its corner
    #[verifier::external_body]
    pub fn clear_all_and_reset(&mut self) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, r is Ok ==> fresh_row(*final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn suspend(&mut self) -> (r: LifeOrDeath)
        requires old(self).wd@ > 0, //# C25
        ensures final(self).wd@ == (if r is Ok { -old(self).wd@ } else { old(self).wd@ }) { unimplemented!() }
    /// whatever has had the terminal in between leaves the cursor on a fresh row
    #[verifier::external_body]
    pub fn unsuspend(&mut self) -> (r: LifeOrDeath)
        requires old(self).wd@ < 0, //# C25
        ensures final(self).wd@ == (if r is Ok { -old(self).wd@ } else { old(self).wd@ }), r is Ok ==> fresh_row(*final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn bell(&mut self) -> (r: LifeOrDeath)
        ensures final(self).wd == old(self).wd, final(self).s == old(self).s, final(self).p == old(self).p, r is Ok ==> final(self).bells@ == old(self).bells@ + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn hide_cursor(&mut self) -> (r: LifeOrDeath) ensures final(self).wd == old(self).wd, r is Ok ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn show_cursor(&mut self) -> (r: LifeOrDeath) ensures final(self).wd == old(self).wd, r is Ok ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: LifeOrDeath) ensures final(self).wd == old(self).wd, r is Ok ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn move_cursor_up(&mut self, n: u32) -> (r: LifeOrDeath)
        requires n > 0
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == s_up(old(self).s@, n as int) && final(self).p@ == (Prt { row: old(self).p@.row - n, ..old(self).p@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn move_cursor_down(&mut self, n: u32) -> (r: LifeOrDeath)
        requires n > 0, old(self).s@.row + n <= old(self).s@.bot
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == (Scr { row: old(self).s@.row + n, ..old(self).s@ }) && final(self).p@ == (Prt { row: old(self).p@.row + n, ..old(self).p@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn move_cursor_left(&mut self, n: u32) -> (r: LifeOrDeath)
        requires 0 < n <= old(self).s@.x
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == (Scr { x: old(self).s@.x - n, ..old(self).s@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn move_cursor_right(&mut self, n: u32) -> (r: LifeOrDeath)
        requires n > 0, old(self).s@.x + n < old(self).wd@
        ensures final(self).wd == old(self).wd, r is Ok ==> final(self).s@ == (Scr { x: old(self).s@.x + n, ..old(self).s@ }) { unimplemented!() }
}
/// so far, printing has only gone down
pub open spec fn through(o: VxTerm, n: VxTerm) -> bool {
    &&& n.wd == o.wd && 0 <= n.s@.x < o.wd@ && n.s@.row >= o.s@.row && n.s@.low == o.s@.low && n.s@.bot >= o.s@.bot && (o.s@.bot >= o.s@.row ==> n.s@.bot >= n.s@.row)
    &&& forall|r: int, c: int| r < o.s@.row || r > n.s@.row ==> #[trigger] (n.s@.g)(r, c) == (o.s@.g)(r, c)
}
/// what printing a line does to the screen: nothing above is touched, and it ends on a fresh row
pub open spec fn printed(o: VxTerm, n: VxTerm) -> bool {
    &&& n.wd == o.wd && n.s@.x == 0 && n.p@.col == 0 && n.p@.end == 0 && n.s@.at == plain() && n.s@.row > o.s@.row && n.s@.low == o.s@.low && n.s@.bot >= o.s@.bot && (o.s@.bot >= o.s@.row ==> n.s@.bot >= n.s@.row)
    &&& forall|r: int, c: int| r < o.s@.row || r >= n.s@.row ==> #[trigger] (n.s@.g)(r, c) == (o.s@.g)(r, c)
}
}
