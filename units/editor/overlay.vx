//@header
//@include ../common/sx.rs
//@include ../common/worker_sx.rs
//@include ../common/scr_sx.rs
//@include ../common/blk_sx.rs
verus! {
use sx::*;
use vstd::std_specs::iter::IteratorSpec;
broadcast use {vstd::utf8::group_utf8_lib, sx::group_sx};

// ---- stand-ins for the parts of the crate this unit does not look into
// Lines: what the functions below do to them is decided in the unit line; here, names for it
#[verifier::external_body]
pub struct Line { _x: u8 }
/// the length of the text, in bytes
pub uninterp spec fn blen(l: Line) -> int;
/// no text / a line, a line break and plain attributes / two lines / a line and a text
pub uninterp spec fn ln_empty() -> Line;
pub uninterp spec fn ln_break(l: Line) -> Line;
pub uninterp spec fn ln_append(l: Line, m: Line) -> Line;
pub uninterp spec fn ln_text(l: Line, s: Seq<char>) -> Line;
pub uninterp spec fn ln_wrap(l: Line, w: int) -> Line;
impl Line {
    #[verifier::external_body]
    pub fn new() -> (r: Line) ensures r == ln_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset_and_break(&mut self) -> (r: &mut Line) ensures *r == ln_break(*old(self)), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_line(&mut self, l: &Line) -> (r: &mut Line) ensures *r == ln_append(*old(self), *l), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_text(&mut self, l: &String) -> (r: &mut Line) ensures *r == ln_text(*old(self), l@), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn wrap_to_width(&mut self, w: usize) requires w > 0 ensures *final(self) == ln_wrap(*old(self), w as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == blen(*self), r <= isize::MAX { unimplemented!() }
}
// what of a Line can be seen (defined in the unit screen)
pub type Attr = (Style, Option<Color>, Option<Color>);
pub open spec fn plain() -> Attr { (Style::PLAIN, None, None) }
pub uninterp spec fn vis(a: Attr) -> bool;
pub uninterp spec fn cells(l: Line) -> Seq<(char, Attr)>;
pub uninterp spec fn tf(l: Line) -> Option<Attr>;
pub uninterp spec fn in_line(l: Line, p: int) -> bool;
pub uninterp spec fn kx(l: Line, p: int) -> int;
/// the type invariant of Line (unit line), and a length of less than 2 GiB
pub open spec fn good_line(l: Line) -> bool { true }
pub open spec fn same_line(a: Line, b: Line) -> bool { a == b }
/// lines printed so far
pub open spec fn echoed(o: VxTerm, n: VxTerm, l: Line) -> bool {
    n.p@.col == 0 && n.p@.at == plain() && n.p@.ok == o.p@.ok && exists|p: Prt| p.col == 0 && p.end == 0 && p.log == o.p@.log && n.p@.log == (#[trigger] lay(p, o.wd@, cells(l))).log
}
impl Clone for Line {
    #[verifier::external_body]
    fn clone(&self) -> (r: Line) ensures r == *self { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Line {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Line) -> bool { *self == *o }
}
impl PartialEq for Line {
    #[verifier::external_body]
    fn eq(&self, o: &Line) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_liso() -> Line { unimplemented!() }
pub struct Style { pub _x: u8 }
#[verifier::external_body]
pub struct Color { _x: u8 }
impl Style {
    pub const PLAIN: Style = Style { _x: 0 };
}
pub struct VxReqTx { pub x: u8 }
impl Clone for VxReqTx { fn clone(&self) -> (r: VxReqTx) ensures r == *self { VxReqTx { x: self.x } } }
pub struct Output { pub tx: VxReqTx }
pub struct VxCompletor { pub x: u8 }
/// A completor in good order: what it returns is a cursor on a character
/// boundary of the line it returns (documented requirement).
pub open spec fn good_completion(c: Completion) -> bool {
    match c {
        Completion::InsertAtCursor { text } => true,
        Completion::ReplaceWholeLine { new_line, new_cursor } => bnd(by(new_line@), new_cursor as int),
    }
}
impl VxCompletor {
    #[verifier::external_body]
    pub fn complete(&mut self, output: &Output, input: &str, cursor: usize, n: NonZeroU32) -> (r: Option<Completion>)
        ensures r matches Some(c) ==> good_completion(c)
    { unimplemented!() }
}

// ---- what the keys do
/// a place the cursor may stop at: a character boundary, not in front of an
/// invisible character (unless that is the first one)
pub open spec fn stop(b: Seq<u8>, i: int) -> bool {
    bnd(b, i) && !(0 < i < b.len() && w0(char_at(b, i)))
}
pub open spec fn is_next(b: Seq<u8>, c: int, n: int) -> bool {
    c < n && stop(b, n) && forall|j: int| c < j < n ==> !stop(b, j)
}
pub open spec fn is_prev(b: Seq<u8>, c: int, p: int) -> bool {
    p < c && stop(b, p) && forall|j: int| p < j < c ==> !stop(b, j)
}
/// a visible character that is no whitespace, or the start
pub open spec fn wordy(b: Seq<u8>, j: int) -> bool { j == 0 || (j < b.len() && !is_ws(char_at(b, j)) && !w0(char_at(b, j))) }
/// visible whitespace, or the start
pub open spec fn blankc(b: Seq<u8>, j: int) -> bool { j == 0 || (j < b.len() && is_ws(char_at(b, j)) && !w0(char_at(b, j))) }
/// the last visible non-blank character before `c` (or the start)
pub open spec fn word_q1(b: Seq<u8>, c: int, q: int) -> bool {
    0 <= q < c && bnd(b, q) && wordy(b, q) && forall|j: int| q < j < c ==> !(bnd(b, j) && wordy(b, j))
}
/// the last blank at or before `q1` (or the start)
pub open spec fn word_q2(b: Seq<u8>, q1: int, q: int) -> bool {
    0 <= q <= q1 && bnd(b, q) && blankc(b, q) && forall|j: int| q < j <= q1 ==> !(bnd(b, j) && blankc(b, j))
}
/// where the word before `c` starts
pub open spec fn word_start(b: Seq<u8>, c: int, p: int) -> bool {
    exists|q1: int| #[trigger] word_q1(b, c, q1) && (if q1 == 0 { p == 0 } else {
        exists|q2: int| #[trigger] word_q2(b, q1, q2) && (if !is_ws(char_at(b, q2)) { p == q2 } else { is_next(b, q2, p) }) })
}
/// a bell, and nothing else
pub open spec fn hist_stay(o: &TtyState, n: &TtyState) -> bool {
    n.same_line(o) && n.cur_history_index == o.cur_history_index && n.orphaned_new_input == o.orphaned_new_input
    && n.term.bells@ == o.term.bells@ + 1
}
/// the line that was being typed is back
pub open spec fn hist_home(o: &TtyState, n: &TtyState) -> bool {
    o.orphaned_new_input is Some && n.input@ == o.orphaned_new_input->Some_0@ && n.c() == n.b().len()
    && n.cur_history_index is None && n.orphaned_new_input is None
}
/// entry `i` of the history `l` is shown, if there is one
pub open spec fn hist_moved(o: &TtyState, n: &TtyState, l: Seq<String>, i: int) -> bool {
    if i < 0 { hist_stay(o, n) } else {
        i < l.len() && n.input@ == l[i]@ && n.c() == n.b().len() && n.cur_history_index == Some(i as usize)
        && n.orphaned_new_input is Some
        && n.orphaned_new_input->Some_0@ == (match o.orphaned_new_input { Some(s) => s@, None => o.input@ })
        && n.history_original_line is Some && n.history_original_line->Some_0@ == l[i]@
    }
}
impl TtyState {
    pub open spec fn b(&self) -> Seq<u8> { by(self.input@) }
    pub open spec fn c(&self) -> int { self.input_cursor as int }
    /// the representation invariant of the editor (C06)
    pub open spec fn inv(&self) -> bool {
        bnd(self.b(), self.c())
        && (self.cur_history_index is Some ==> self.orphaned_new_input is Some && self.cur_history_index->Some_0 < usize::MAX)
    }
    /// nothing but the input line, its cursor, the notice, the terminal and the need to redraw differs
    pub open spec fn same_but_input(&self, o: &TtyState) -> bool {
        &&& self.status == o.status
        &&& self.prompt == o.prompt
        &&& self.clipboard == o.clipboard
        &&& self.input_allowed == o.input_allowed
        &&& self.cur_history_index == o.cur_history_index
        &&& self.orphaned_new_input == o.orphaned_new_input
        &&& self.history_original_line == o.history_original_line
        &&& self.history == o.history
        &&& self.consecutive_completion_presses == o.consecutive_completion_presses
    }
    pub open spec fn same_but_line(&self, o: &TtyState) -> bool {
        &&& self.status == o.status
        &&& self.prompt == o.prompt
        &&& self.clipboard == o.clipboard
        &&& self.input_allowed == o.input_allowed
        &&& self.history == o.history
        &&& self.consecutive_completion_presses == o.consecutive_completion_presses
    }
    pub open spec fn same_but_clip(&self, o: &TtyState) -> bool {
        &&& self.status == o.status
        &&& self.prompt == o.prompt
        &&& self.input_allowed == o.input_allowed
        &&& self.cur_history_index == o.cur_history_index
        &&& self.orphaned_new_input == o.orphaned_new_input
        &&& self.history_original_line == o.history_original_line
        &&& self.history == o.history
        &&& self.consecutive_completion_presses == o.consecutive_completion_presses
    }
    // ---- the block (C17, C18)
    pub open spec fn sblk(&self) -> bool { blk(self.remembered_output, self.term) }
    /// nothing has happened to the screen, nor to what is remembered of it
    pub open spec fn same_scr(&self, o: &TtyState) -> bool {
        self.remembered_output == o.remembered_output && self.term.wd == o.term.wd && self.term.s == o.term.s && self.term.p == o.term.p
    }
    /// what is in front of the notice or the input
    pub open spec fn front(&self) -> Line {
        let l = match self.status { None => ln_empty(), Some(s) => ln_break(s) };
        if self.notice is None && self.prompt is Some { ln_append(l, self.prompt->0) } else { l }
    }
    /// what the block is to show
    pub open spec fn block(&self) -> Line {
        match self.notice { Some(n) => ln_append(self.front(), n.0), None => ln_text(self.front(), self.input@) }
    }
    pub open spec fn block_cursor(&self) -> Option<usize> { if self.notice is Some { None } else { Some((self.input_cursor + blen(self.front())) as usize) } }
    pub open spec fn nothing_to_show(&self) -> bool { self.status is None && self.notice is None && self.prompt is None && self.input@.len() == 0 }
    /// the block shows what it is to show, unless it is going to be drawn
    pub open spec fn fresh(&self) -> bool {
        self.rollout_needed || (match self.remembered_output { None => self.nothing_to_show(), Some(r) => r.output_line == self.block() && r.cursor_pos == self.block_cursor() })
    }
    /// the input is empty, and is the new line again
    pub open spec fn empty_line(&self) -> bool {
        self.input@.len() == 0 && self.input_cursor == 0 && self.cur_history_index is None && self.orphaned_new_input is None
    }
    pub open spec fn same_line(&self, o: &TtyState) -> bool {
        self.input@ == o.input@ && self.input_cursor == o.input_cursor
    }
}
}
verus! {
//@method iter => vx_it
//@path std::println => vx_println
//@path drop => vx_drop
//@typemap Box<dyn Any + Send> => VxAny
//@typemap Box<dyn FnMut() + Send> => VxFnMut
//@typemap Box<dyn Completor> => VxCompletor
//@typemap RefCell<Box<dyn Term>> => VxTerm
//@typemap Arc<RwLock<History>> => SharedHistory
//@typemap crossterm::event::Event => Event
//@typemap RefMut<'_, Box<dyn Term>> => VxTerm
//@refcell self.term
//@method spawn => vx_spawn()
//@method recv => vx_recv(+Ghost(state))
//@method try_recv => vx_try_recv
//@method handle => vx_handle(+rx)
//@path std::thread::Builder::new => vx_builder
//@path crossterm::terminal::enable_raw_mode => vx_raw(+g)
//@path crossterm::terminal::disable_raw_mode => vx_unraw(+g)
//@path new_term => vx_new_term(+g)
//@method cleanup => cleanup(+g)
//@path RefCell::new => vx_id
//@path RefCell::into_inner => vx_id
//@footer
fn main() {}
} // verus!
//@file src/completion.rs
//@type Completion
//@file src/lib.rs
//@type Response
//@raw
/// (that Liso is gone is told by the end of the channel alone)
impl VxMsg for Response { open spec fn fine(&self) -> bool { !(self is Dead) } }
//@type Request
//@file src/worker.rs
//@type RememberedOutput
//@type TtyState

//@raw
verus! {
// ---- the loop that takes the requests
/// The request channel: the requests received so far, those of them that were dealt with, whether the request to end
/// has been received, and whether there is nobody left to send any.
pub struct VxRx { pub got: Ghost<Seq<Request>>, pub done: Ghost<Seq<Request>>, pub dying: Ghost<bool>, pub closed: Ghost<bool> }
pub open spec fn rcvd(a: VxRx, b: VxRx, q: Request) -> bool {
    b.done == a.done && b.closed == a.closed && !(q matches Request::CrosstermEvent(e) && e is Paste)
    && (if q is Die { b.got == a.got && b.dying@ } else { b.got@ == a.got@.push(q) && b.dying == a.dying })
}
impl VxRx {
    /// all that was received has been dealt with, in order
    pub open spec fn even(&self) -> bool { self.got@ == self.done@ && !self.closed@ }
    /// waiting for the next request
    #[verifier::external_body]
    pub fn vx_recv(&mut self, st: Ghost<TtyState>) -> (r: Result<Request, DummyError>)
        requires old(self).even(), //# C24,C08
            !old(self).dying@, //# C24
            st@.fresh() && !st@.rollout_needed, //# C18
            st@.sblk(), //# C17
        ensures match r { Ok(q) => rcvd(*old(self), *final(self), q), Err(_) => final(self).closed@ && final(self).got == old(self).got && final(self).done == old(self).done && final(self).dying == old(self).dying }
    { unimplemented!() }
    /// the next request, if there is one already
    #[verifier::external_body]
    pub fn vx_try_recv(&mut self) -> (r: Result<Request, std_mpsc::TryRecvError>)
        requires old(self).even(), //# C24,C08
        ensures match r { Ok(q) => rcvd(*old(self), *final(self), q),
            Err(std_mpsc::TryRecvError::Empty) => *final(self) == *old(self),
            Err(std_mpsc::TryRecvError::Disconnected) => final(self).closed@ && final(self).got == old(self).got && final(self).done == old(self).done && final(self).dying == old(self).dying }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mark(&mut self, q: &Request)
        requires old(self).got@ == old(self).done@.push(*q), !old(self).closed@, //# C24,C08
        ensures final(self).got == old(self).got, final(self).done == old(self).got, final(self).dying == old(self).dying, final(self).closed == old(self).closed
    { unimplemented!() }
}
pub struct VxBuilder { pub x: u8 }
pub struct VxJoin { pub x: u8 }
#[verifier::external_body]
pub fn vx_builder() -> VxBuilder { unimplemented!() }
impl VxBuilder {
    #[verifier::external_body]
    pub fn name(self, s: String) -> VxBuilder { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_spawn(self) -> (r: Result<VxJoin, DummyError>) ensures r is Ok { unimplemented!() }
}
pub fn vx_id<T>(t: T) -> (r: T) ensures r == t { t }
/// the program's function: it runs while the terminal is given back
#[verifier::external_body]
pub fn vx_run(f: VxFnMut, t: &VxTerm)
    requires t.wd@ < 0, //# C25
{ unimplemented!() }
/// the whole program stops here, until it is told to continue
#[verifier::external_body]
pub fn vx_sigstop(t: &VxTerm)
    requires t.wd@ < 0, //# C25
{ unimplemented!() }
/// Whether Liso has the terminal (unit end_ct, end_vt), and has made it raw
pub struct VxGive { pub has: Ghost<bool>, pub raw: Ghost<bool> }
/// (the panic hook that puts the terminal right is there as long as Liso has the terminal)
#[verifier::external_body]
pub fn vx_raw(g: &mut VxGive) -> (r: LifeOrDeath)
    requires old(g).has@, //# C25
    ensures final(g).has == old(g).has, r is Ok ==> final(g).raw@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_unraw(g: &mut VxGive) -> (r: LifeOrDeath) ensures final(g).has == old(g).has, r is Ok ==> !final(g).raw@ { unimplemented!() }
/// Liso starts on a fresh row
#[verifier::external_body]
pub fn vx_new_term(g: &mut VxGive, tx: &VxReqTx) -> (r: Result<VxTerm, DummyError>)
    requires !old(g).raw@, //# C25
    ensures r matches Ok(t) ==> t.ok() && fresh_row(t) && final(g).has@ && final(g).raw@ { unimplemented!() }
impl VxTerm {
    /// the terminal is given back: in its normal state, with nobody reading standard input any more
    #[verifier::external_body]
    pub fn cleanup(self, g: &mut VxGive) -> (r: LifeOrDeath)
        requires fresh_row(self) //# C17
        ensures r is Ok ==> !final(g).has@ && !final(g).raw@
    { unimplemented!() }
}
impl TtyState {
    /// a request is dealt with, which was received last
    pub fn vx_handle(&mut self, rx: &mut VxRx, tx: &mut tokio_mpsc::UnboundedSender<Response>, ded_tx: &mut std_mpsc::SyncSender<Instant>, request: Request) -> (res: LifeOrDeath)
        requires old(rx).got@ == old(rx).done@.push(request), !old(rx).closed@, !(request matches Request::CrosstermEvent(e) && e is Paste), //# C24,C08
            old(self).sblk(), //# C17
            old(self).inv(), //# C06
        ensures final(rx).even(), final(rx).got == old(rx).got, final(rx).dying == old(rx).dying, res is Ok ==> final(self).sblk() && final(self).inv() && (old(self).fresh() ==> final(self).fresh())
    { rx.vx_mark(&request); self.handle(tx, ded_tx, request) }
}
}
verus! {
impl TtyState {
    // (the contracts proved in the unit screen)
    #[verifier::external_body]
    pub fn output_line(&mut self, line: &Line) -> (res: LifeOrDeath)
        requires old(self).term.s@.x == 0, old(self).term.p@.col == 0, old(self).term.p@.end == 0, old(self).term.ok(), //# C16,C17
        ensures *final(self) == (TtyState { term: final(self).term, ..*old(self) }), final(self).term.wd == old(self).term.wd,
            res is Ok ==> line_printed(old(self).term, final(self).term, *line) && printed(old(self).term, final(self).term)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn output_line_changes(&mut self, new_line: &Line, cursor_pos: Option<usize>, break_after: bool, endfill: bool) -> (res: LifeOrDeath)
        requires good_line(*new_line), blk(old(self).remembered_output, old(self).term), !break_after, endfill, //# C17,C18
        ensures *final(self) == (TtyState { term: final(self).term, remembered_output: final(self).remembered_output, ..*old(self) }), final(self).term.wd == old(self).term.wd,
            res is Ok ==> blk(final(self).remembered_output, final(self).term) && redrawn(old(self).remembered_output, old(self).term, final(self).remembered_output, final(self).term, *new_line, cursor_pos)
    { unimplemented!() }
}
}
//@provides output_line output_line_changes
//@impl TtyState
//@fn cursor_on props=C06,C07
    requires bnd(self.b(), self.c()),
        self.c() < self.b().len() ==> f.requires((char_at(self.b(), self.c()),)),
    ensures
        res ==> self.c() < self.b().len() && f.ensures((char_at(self.b(), self.c()),), true),
        !res ==> self.c() == self.b().len() || f.ensures((char_at(self.b(), self.c()),), false),
//@fn cursor_on_invisible props=C06,C07
    requires bnd(self.b(), self.c()),
    ensures res == (0 < self.c() < self.b().len() && w0(char_at(self.b(), self.c()))),
//@closure 0 (char) -> (r: bool)
    ensures r == w0($0)
//@fn cursor_on_invisible_or_space props=C06,C07
    requires bnd(self.b(), self.c()),
    ensures res == (0 < self.c() < self.b().len() && (is_ws(char_at(self.b(), self.c())) || w0(char_at(self.b(), self.c())))),
//@closure 0 (char) -> (r: bool)
    ensures r == (is_ws($0) || w0($0))
//@fn cursor_on_invisible_or_nonspace props=C06,C07
    requires bnd(self.b(), self.c()),
    ensures res == (0 < self.c() < self.b().len() && (!is_ws(char_at(self.b(), self.c())) || w0(char_at(self.b(), self.c())))),
//@closure 0 (char) -> (r: bool)
    ensures r == (!is_ws($0) || w0($0))
//@fn cursor_on_nonspace props=C06,C07
    requires bnd(self.b(), self.c()),
    ensures res == (self.c() < self.b().len() && !is_ws(char_at(self.b(), self.c()))),
//@closure 0 (char) -> (r: bool)
    ensures r == !is_ws($0)
//@fn dismiss_notice props=C06,C07,C17,C18
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        res is Ok, final(self).notice is None, final(self).same_but_input(old(self)), final(self).same_line(old(self)),
//@fn handle_char_input props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_input(old(self)), //# C07
        final(self).b() == ins(old(self).b(), old(self).c(), by(seq![ch])), //# C07
        final(self).c() == old(self).c() + by(seq![ch]).len(), //# C07
//@loop 0
    invariant
        bnd(old(self).b(), old(self).c()),
        self.same_but_input(old(self)),
        old(self).inv(),
        self.b() == ins(old(self).b(), old(self).c(), by(seq![ch])),
        old(self).c() < self.c() <= old(self).c() + by(seq![ch]).len(),
    decreases old(self).c() + by(seq![ch]).len() - self.c(),
//@fn handle_right_arrow props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_input(old(self)), //# C07
        final(self).input@ == old(self).input@, //# C07
        old(self).c() < old(self).b().len() ==> is_next(old(self).b(), old(self).c(), final(self).c()), //# C07
        old(self).c() == old(self).b().len() ==> final(self).c() == old(self).c(), //# C07
//@hint loop 0 start
    assert(!stop(self.b(), self.c()));
//@loop 0
    invariant
        old(self).inv(),
        self.same_but_input(old(self)),
        self.input@ == old(self).input@,
        old(self).c() < self.c() <= self.b().len(),
        forall|j: int| old(self).c() < j < self.c() ==> !stop(self.b(), j),
    decreases self.b().len() - self.c(),
//@fn handle_left_arrow props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_input(old(self)), //# C07
        final(self).input@ == old(self).input@, //# C07
        old(self).c() > 0 ==> is_prev(old(self).b(), old(self).c(), final(self).c()), //# C07
        old(self).c() == 0 ==> final(self).c() == 0, //# C07
//@hint loop 0 start
    assert(!stop(self.b(), self.c()));
//@loop 0
    invariant
        old(self).inv(),
        self.same_but_input(old(self)),
        self.input@ == old(self).input@,
        0 <= self.c() < old(self).c(),
        forall|j: int| self.c() < j < old(self).c() ==> !stop(self.b(), j),
    decreases self.c(),
//@fn handle_home props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_input(old(self)), //# C07
        final(self).input@ == old(self).input@, //# C07
        final(self).c() == 0, //# C07
//@fn handle_end props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_input(old(self)), //# C07
        final(self).input@ == old(self).input@, //# C07
        final(self).c() == old(self).b().len(), //# C07
//@fn handle_discard props=C06,C08,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        res is Ok && old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        res is Ok ==> final(self).inv(), //# C06
        final(self).same_but_line(old(self)), //# C08
        res is Ok ==> final(self).empty_line(), //# C08
        res is Ok ==> final(tx).log().len() == old(tx).log().len() + 1 && final(tx).log().drop_last() =~= old(tx).log()
            && (final(tx).log().last() matches Response::Discarded(s) && s@ == old(self).input@), //# C08
//@hint end
    proof { assert(old(self).input@.len() == 0 ==> old(self).input@ =~= self.input@); }
//@fn handle_clear props=C06,C08,C17,C18
    requires
        old(self).sblk(), //# C17
        old(self).inv(), //# C06
    ensures
        res is Ok ==> final(self).sblk(), //# C17
        final(self).term.wd == old(self).term.wd,
        old(self).inv() && old(self).fresh() && res is Ok ==> final(self).fresh(), //# C18
        res is Ok ==> final(self).inv(), //# C06
        final(self).same_but_input(old(self)), //# C08
        final(self).same_line(old(self)), //# C08
//@fn handle_kill_to_end props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_clip(old(self)), //# C07
        final(self).c() == old(self).c(), //# C07
        final(self).b() == cut(old(self).b(), old(self).c(), old(self).b().len() as int), //# C07
        old(self).c() < old(self).b().len() ==> by(final(self).clipboard@) == old(self).b().subrange(old(self).c(), old(self).b().len() as int), //# C07
        old(self).c() == old(self).b().len() ==> final(self).clipboard@ == old(self).clipboard@, //# C07
//@fn handle_kill_to_start props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_clip(old(self)), //# C07
        final(self).c() == 0, //# C07
        final(self).b() == cut(old(self).b(), 0, old(self).c()), //# C07
        old(self).c() > 0 ==> by(final(self).clipboard@) == old(self).b().subrange(0, old(self).c()), //# C07
        old(self).c() == 0 ==> final(self).clipboard@ == old(self).clipboard@, //# C07
//@fn handle_yank props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_input(old(self)), //# C07
        final(self).b() == ins(old(self).b(), old(self).c(), by(old(self).clipboard@)), //# C07
        final(self).c() == old(self).c() + by(old(self).clipboard@).len(), //# C07
//@fn handle_delete_back props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_input(old(self)), //# C07
        old(self).c() > 0 ==> is_prev(old(self).b(), old(self).c(), final(self).c())
            && final(self).b() == cut(old(self).b(), final(self).c(), old(self).c()), //# C07
        old(self).c() == 0 ==> final(self).same_line(old(self)), //# C07
//@hint loop 0 start
    assert(!stop(self.b(), self.c()));
//@loop 0
    invariant
        old(self).inv(),
        self.same_but_input(old(self)),
        self.input@ == old(self).input@,
        0 <= self.c() < old(self).c(),
        forall|j: int| self.c() < j < old(self).c() ==> !stop(self.b(), j),
    decreases self.c(),
//@fn handle_delete_fore props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_input(old(self)), //# C07
        final(self).c() == old(self).c(), //# C07
        old(self).c() < old(self).b().len() ==> exists|n: int| is_next(old(self).b(), old(self).c(), n)
            && final(self).b() == #[trigger] cut(old(self).b(), old(self).c(), n), //# C07
        old(self).c() == old(self).b().len() ==> final(self).same_line(old(self)), //# C07
//@hint loop 0 start
    assert(!stop(self.b(), self.c()));
//@loop 0
    invariant
        old(self).inv(),
        self.same_but_input(old(self)),
        self.input@ == old(self).input@,
        old(self).c() < self.c() <= self.b().len(),
        forall|j: int| old(self).c() < j < self.c() ==> !stop(self.b(), j),
    decreases self.b().len() - self.c(),
//@fn handle_delete_word props=C06,C07,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        res is Ok,
        final(self).same_but_input(old(self)), //# C07
        old(self).c() > 0 ==> word_start(old(self).b(), old(self).c(), final(self).c())
            && final(self).b() == cut(old(self).b(), final(self).c(), old(self).c()), //# C07
        old(self).c() == 0 ==> final(self).same_line(old(self)), //# C07
//@hint loop 0 start
    assert(!(bnd(self.b(), self.c()) && wordy(self.b(), self.c())));
//@hint loop 1 start
    assert(!(bnd(self.b(), self.c()) && blankc(self.b(), self.c())));
//@hint loop 2 start
    assert(!stop(self.b(), self.c()));
//@hint loop 0 after
    let ghost q1 = self.c();
    assert(word_q1(self.b(), old(self).c(), q1));
//@hint loop 1 after
    let ghost q2 = self.c();
    assert(word_q2(self.b(), q1, q2));
//@loop 0
    invariant
        old(self).inv(),
        self.same_but_input(old(self)),
        self.input@ == old(self).input@,
        0 <= self.c() < old(self).c(),
        forall|j: int| self.c() < j < old(self).c() ==> !(bnd(self.b(), j) && wordy(self.b(), j)),
    decreases self.c(),
//@loop 1
    invariant
        old(self).inv(),
        self.same_but_input(old(self)),
        self.input@ == old(self).input@,
        0 <= self.c() <= q1 < old(self).c(), q1 > 0,
        word_q1(self.b(), old(self).c(), q1),
        forall|j: int| self.c() < j <= q1 ==> !(bnd(self.b(), j) && blankc(self.b(), j)),
    decreases self.c(),
//@loop 2
    invariant
        old(self).inv(),
        self.same_but_input(old(self)),
        self.input@ == old(self).input@,
        word_q1(self.b(), old(self).c(), q1),
        word_q2(self.b(), q1, q2), 0 <= q2 <= q1 < old(self).c(), q1 > 0,
        q2 < self.c() <= self.b().len(),
        q2 < q1,
        self.c() <= q1,
        is_ws(char_at(self.b(), q2)),
        forall|j: int| q2 < j < self.c() ==> !stop(self.b(), j),
    decreases self.b().len() - self.c(),
//@fn handle_return props=C06,C08,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        res is Ok ==> final(self).inv(), //# C06
        final(self).empty_line(), //# C08
        final(self).status == old(self).status, final(self).prompt == old(self).prompt, final(self).clipboard == old(self).clipboard,
        final(self).input_allowed == old(self).input_allowed,
        final(self).history.added() == old(self).history.added().push(old(self).input@), //# C08
        res is Ok ==> final(tx).log().len() == old(tx).log().len() + 1 && final(tx).log().drop_last() =~= old(tx).log()
            && (final(tx).log().last() matches Response::Input(s) && s@ == old(self).input@), //# C08
//@fn handle_finish props=C06,C08,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        res is Ok ==> final(self).inv(), //# C06
        final(self).same_but_line(old(self)), //# C08
        res is Ok && old(self).input@.len() == 0 ==> final(tx).log() == old(tx).log().push(Response::Finish) && final(self).input@.len() == 0, //# C08
        old(self).input@.len() > 0 ==> final(tx).log() == old(tx).log() && final(self).empty_line(), //# C08
//@fn handle_input props=C06,C08,C10,C17,C18
    requires
        old(self).sblk(), //# C17
        old(self).inv(), //# C06
    ensures
        res is Ok ==> final(self).sblk(), //# C17
        res is Ok ==> final(self).term.wd == old(self).term.wd,
        old(self).inv() && old(self).fresh() && res is Ok ==> final(self).fresh(), //# C18
        res is Ok ==> final(self).inv(), //# C06
        final(self).status == old(self).status, final(self).prompt == old(self).prompt, //# C08
        final(self).input_allowed == old(self).input_allowed, //# C08
        !old(self).input_allowed ==> res is Ok && *final(self) == *old(self) && final(tx).log() == old(tx).log(), //# C08
//@loop 0
    invariant
        self.inv(), old(self).input_allowed, self.term.wd == old(self).term.wd,
        self.sblk(), //# C17
        old(self).inv() && old(self).fresh() ==> self.fresh(), //# C18
        vx_it0.obeys_prophetic_iter_laws(), vx_it0.decrease() is Some,
        self.status == old(self).status, self.prompt == old(self).prompt, self.input_allowed == old(self).input_allowed,
    decreases vx_it0.decrease()->Some_0,
//@fn handle_event props=C06,C08,C10,C17,C18
    requires
        old(self).sblk(), //# C17
        old(self).inv(), //# C06
        !(event is Paste),
    ensures
        res is Ok ==> final(self).sblk(), //# C17
        res is Ok ==> final(self).term.wd == old(self).term.wd,
        old(self).inv() && old(self).fresh() && res is Ok ==> final(self).fresh(), //# C18
        res is Ok ==> final(self).inv(), //# C06
        final(self).status == old(self).status, final(self).prompt == old(self).prompt, //# C08
        final(self).input_allowed == old(self).input_allowed, //# C08
        !old(self).input_allowed ==> res is Ok && *final(self) == *old(self) && final(tx).log() == old(tx).log(), //# C08
//@fn show_notice props=C20,C17,C18
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).same_but_input(old(self)), final(self).same_line(old(self)),
        final(self).rollout_needed, //# C20
        final(self).notice matches Some((l, d)) && l == line && (exists|t: int| #[trigger] clock_reads(t) && d.t@ == t + duration.d@)
            && (res is Ok ==> final(ded_tx).log() == old(ded_tx).log().push(d)), //# C20
//@fn history_prev props=C06,C10,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        res is Ok ==> final(self).inv(), //# C06
        final(self).same_but_line(old(self)), //# C10
        res is Ok ==> exists|l: Seq<String>| #[trigger] hist_seen(old(self).history, l) && hist_moved(old(self), final(self), l,
            (match old(self).cur_history_index { None => l.len() as int, Some(x) => if x < l.len() { x as int } else { l.len() as int } }) - 1), //# C10
//@closure 0 (usize) -> (r: Option<String>)
    ensures $0 < history.lines@.len() ==> r is Some && r->Some_0@ == history.lines@[$0 as int]@
//@fn history_next props=C06,C10,C17,C18
    requires old(self).inv(),
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        res is Ok ==> final(self).inv(), //# C06
        final(self).same_but_line(old(self)), //# C10
        res is Ok ==> exists|l: Seq<String>| #[trigger] hist_seen(old(self).history, l) &&
            match old(self).cur_history_index {
                None => hist_stay(old(self), final(self)),
                Some(x) => if x + 1 >= l.len() { hist_home(old(self), final(self)) } else { hist_moved(old(self), final(self), l, x + 1) },
            }, //# C10
//@closure 0 (usize) -> (r: Option<String>)
    ensures $0 < history.lines@.len() ==> r is Some && r->Some_0@ == history.lines@[$0 as int]@
//@fn handle_suspend props=C06,C07,C17,C18,C25
    requires
        old(self).sblk(), //# C17
        old(self).inv(), //# C06
    ensures
        res is Ok ==> final(self).sblk(), //# C17
        res is Ok ==> final(self).term.wd == old(self).term.wd,
        old(self).inv() && old(self).fresh() && res is Ok ==> final(self).fresh(), //# C18
        res is Ok ==> final(self).inv(), //# C06
        final(self).same_but_input(old(self)), final(self).same_line(old(self)), //# C07
//@sub unix_util::sigstop_ourselves() => vx_sigstop(&*term)
//@fn handle_completion props=C06,C07,C17,C18
    requires old(self).inv(), old(self).consecutive_completion_presses > 0,
    ensures
        final(self).same_scr(old(self)), //# C17
        old(self).inv() && old(self).fresh() ==> final(self).fresh(), //# C18
        final(self).inv(), //# C06
        final(self).same_but_input(old(self)), //# C07
        res is Ok,
//@fn rollin props=C06,C07,C17,C18
    requires
        old(self).sblk(), //# C17
    ensures
        res is Ok ==> final(self).sblk(), //# C17
        final(self).term.wd == old(self).term.wd,
        old(self).inv() && old(self).fresh() && res is Ok ==> final(self).fresh(), //# C18
        final(self).same_but_input(old(self)), final(self).same_line(old(self)), //# C07
        final(self).notice == old(self).notice,
        res is Ok ==> final(self).remembered_output is None && rolled_in(old(self).term, final(self).term, top(old(self).remembered_output, old(self).term)), //# C17
//@fn rollout props=C06,C07,C17,C18
    requires
        old(self).sblk(), //# C17
        old(self).inv(), //# C06
    ensures
        res is Ok ==> final(self).sblk(), //# C17
        final(self).term.wd == old(self).term.wd,
        old(self).inv() && old(self).fresh() && res is Ok ==> final(self).fresh(), //# C18
        final(self).same_but_input(old(self)), final(self).same_line(old(self)), //# C07
        final(self).notice == old(self).notice,
        res is Ok ==> !final(self).rollout_needed, final(self).status == old(self).status, final(self).prompt == old(self).prompt,
        res is Ok && old(self).rollout_needed ==> redrawn(old(self).remembered_output, old(self).term, final(self).remembered_output, final(self).term, final(self).block(), final(self).block_cursor()), //# C18
        res is Ok && old(self).rollout_needed ==> final(self).remembered_output is Some && final(self).fresh(), //# C18
        res is Ok ==> keeps_above(old(self).term, final(self).term, top(old(self).remembered_output, old(self).term)), //# C17
//@fn handle props=C06,C08,C20,C17,C18,C24
    requires
        old(self).sblk(), //# C17
        old(self).inv(), //# C06
        !(request matches Request::CrosstermEvent(e) && e is Paste),
    ensures
        res is Ok ==> final(self).sblk(), //# C17
        res is Ok ==> final(self).term.wd == old(self).term.wd,
        old(self).inv() && old(self).fresh() && res is Ok ==> final(self).fresh(), //# C18
        res is Ok ==> final(self).inv(), //# C06
        request matches Request::Prompt { line, input_allowed, clear_input } ==> res is Ok
            && final(self).prompt == line && final(self).input_allowed == input_allowed
            && (clear_input ==> final(self).input@.len() == 0 && final(self).input_cursor == 0)
            && (!clear_input ==> final(self).same_line(old(self)) && final(self).cur_history_index == old(self).cur_history_index
                    && final(self).orphaned_new_input == old(self).orphaned_new_input)
            && final(self).clipboard == old(self).clipboard && final(self).status == old(self).status && final(self).notice == old(self).notice
            && ((final(self).prompt != old(self).prompt || final(self).input_allowed != old(self).input_allowed || final(self).input@ != old(self).input@) ==> final(self).rollout_needed), //# C08
        (request is RawInput || request is CrosstermEvent) && !old(self).input_allowed ==> *final(self) == *old(self) && final(tx).log() == old(tx).log(), //# C08
        !(request is RawInput || request is CrosstermEvent || request is Prompt) ==>
            final(self).same_line(old(self)) && final(self).prompt == old(self).prompt && final(self).input_allowed == old(self).input_allowed
            && final(self).clipboard == old(self).clipboard, //# C08
        !(request is RawInput || request is CrosstermEvent || request is Custom) ==> final(tx).log() == old(tx).log(), //# C08
        request matches Request::Custom(x) ==> res is Ok ==> final(tx).log() == old(tx).log().push(Response::Custom(x)), //# C08
        request matches Request::Status(line) ==> res is Ok && final(self).status == line && (old(self).status != line ==> final(self).rollout_needed), //# C08
        (request matches Request::Output(l) ==> res is Ok ==> echoed(old(self).term, final(self).term, l)), //# C16,C24
        (request matches Request::OutputEcho(l) ==> res is Ok ==> echoed(old(self).term, final(self).term, l)), //# C16,C24
        (request matches Request::OutputWrapped(l) ==> res is Ok ==> echoed(old(self).term, final(self).term, ln_wrap(l, old(self).term.wd@))), //# C16,C24
        !(request is SuspendAndRun || request is RawInput || request is CrosstermEvent) && res is Ok ==>
            keeps_above(old(self).term, final(self).term, top(old(self).remembered_output, old(self).term)), //# C17
        request matches Request::Notice(line, d) ==> res is Ok ==> final(self).notice is Some, //# C20
        request is Heartbeat && res is Ok ==> (old(self).notice matches Some((l, d)) ==>
            exists|t: int| #[trigger] clock_reads(t) && (if t >= d.t@ { final(self).notice is None && final(self).rollout_needed } else { final(self).notice == old(self).notice })), //# C20
        request is BumpHistory ==> res is Ok && (final(self).cur_history_index is None || old(self).cur_history_index is Some)
            && (final(self).cur_history_index is Some ==> final(self).orphaned_new_input == old(self).orphaned_new_input
                 && exists|l: Seq<String>| #[trigger] hist_seen(old(self).history, l) && final(self).cur_history_index->Some_0 < l.len()
                    && final(self).history_original_line is Some && old(self).history_original_line is Some
                    && l[final(self).cur_history_index->Some_0 as int]@ == old(self).history_original_line->Some_0@
                    && final(self).history_original_line->Some_0@ == old(self).history_original_line->Some_0@), //# C10
//@sub wat() => vx_run(wat, &self.term)
//@sub x == history_original_line => *x == *history_original_line
//@loop 0
    invariant_except_break
        *self == (TtyState { cur_history_index: None, ..*old(self) }),
    invariant
        vx_it0.wf(), vx_it0.base == 0, vx_it0.lo == 0, vx_it0.s@ == lines@,
        self.history_original_line == Some(*history_original_line),
        hist_seen(old(self).history, lines@),
    ensures
        self.cur_history_index matches Some(x) ==> x < lines@.len() && lines@[x as int]@ == history_original_line@,
        *self == (TtyState { cur_history_index: self.cur_history_index, ..*old(self) }),
    decreases vx_it0.hi,
//@fn cleanup props=C17,C25
//@sig (self, g: &mut VxGive) -> (res: LifeOrDeath)
    requires fresh_row(self.term), //# C17
    ensures res is Ok ==> !final(g).has@ && !final(g).raw@, //# C25
//@endimpl
//@fn tty_worker props=C06,C08,C17,C18,C24,C25 attr=#[verifier::exec_allows_no_decreases_clause]
//@sig (g: &mut VxGive, req_tx: VxReqTx, rx: &mut VxRx, tx0: tokio_mpsc::UnboundedSender<Response>, history: SharedHistory) -> (res: LifeOrDeath)
    requires old(rx).even(), !old(rx).dying@, old(rx).got@.len() == 0, !old(g).raw@,
    ensures res is Ok ==> final(rx).got == final(rx).done && (final(rx).dying@ || final(rx).closed@), //# C24
        res is Ok ==> !final(g).has@ && !final(g).raw@, //# C25
//@hint start
    let mut tx = tx0;
//@loop 0
    invariant_except_break
        rx.even(), //# C24,C08
        dying == rx.dying@, //# C24
        state.sblk(), //# C17
        state.inv(), //# C06
        state.fresh() && !state.rollout_needed, //# C18
    ensures
        rx.got == rx.done, //# C24,C08
        rx.dying@ || rx.closed@, //# C24
        state.sblk(), //# C17
//@loop 1
    invariant
        rx.even(), //# C24,C08
        dying == rx.dying@, //# C24
        state.sblk(), //# C17
        state.inv(), //# C06
        state.fresh(), //# C18

