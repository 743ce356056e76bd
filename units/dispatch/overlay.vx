//@header
//@include ../common/sx.rs
//@include ../common/worker_sx.rs
verus! {
use sx::*;
use vstd::std_specs::iter::IteratorSpec;
broadcast use {vstd::utf8::group_utf8_lib, sx::group_sx, vstd::seq_lib::group_seq_properties};

#[verifier::external_body]
pub struct Line { _x: u8 }
#[verifier::external_body]
pub struct Output { _x: u8 }
pub struct VxCompletor { pub x: u8 }
/// the terminal, here also the place where the commands run so far are noted
pub struct Term { pub tr: Ghost<Seq<Act>> }
impl Term {
    #[verifier::external_body]
    pub fn bell(&mut self) -> (r: LifeOrDeath) ensures final(self).tr@ == old(self).tr@.push(Act::Bell) { unimplemented!() }
}
pub enum Act { Home, Left, Right, End, Finish, Discard, KillEnd, KillStart, Clear, HistNext, HistPrev, DelWord, Yank, Suspend,
    Complete(u32), Return, DelBack, DelFore, Ins(char), Rollin, Bell, Send(int) }
/// the Responses that are a key's only effect
pub open spec fn code(r: Response) -> int {
    match r {
        Response::Quit => 1000, Response::Info => 1001, Response::Swap => 1002, Response::Escape => 1003, Response::Break => 1004,
        Response::Finish => 1005, Response::Dead => 1006, Response::Unknown(x) => x as int, _ => -1,
    }
}
/// the key table of README.md, as control codes
pub open spec fn key(u: int, presses: u32) -> Option<Act> {
    if u == 1 { Some(Act::Home) } else if u == 2 { Some(Act::Left) } else if u == 3 { Some(Act::Send(1000)) }
    else if u == 4 { Some(Act::Finish) } else if u == 5 { Some(Act::End) } else if u == 6 { Some(Act::Right) }
    else if u == 7 { Some(Act::Discard) } else if u == 9 { Some(Act::Complete(presses)) } else if u == 10 || u == 13 { Some(Act::Return) }
    else if u == 11 { Some(Act::KillEnd) } else if u == 12 { Some(Act::Clear) } else if u == 14 { Some(Act::HistNext) }
    else if u == 16 { Some(Act::HistPrev) } else if u == 20 { Some(Act::Send(1001)) } else if u == 21 { Some(Act::KillStart) }
    else if u == 23 { Some(Act::DelWord) } else if u == 24 { Some(Act::Send(1002)) } else if u == 25 { Some(Act::Yank) }
    else if u == 26 { Some(Act::Suspend) } else if u == 28 { Some(Act::Send(1004)) } else { None }
}
/// what a character of raw input does
pub open spec fn raw(ch: char, presses: u32) -> Act {
    let u = ch as int;
    match key(u, presses) {
        Some(a) => a,
        None => if u == 27 { Act::Send(1003) } else if u == 8 || u == 127 { Act::DelBack }
            else if u < 32 || 128 <= u < 160 { Act::Send(u) } else { Act::Ins(ch) },
    }
}
pub open spec fn tabs(n: u32, tab: bool) -> u32 { if !tab { 0 } else if n == u32::MAX { n } else { (n + 1) as u32 } }
/// what a text of raw input does, when the completion key was pressed `n` times before
pub open spec fn raws(s: Seq<char>, n: u32) -> Seq<Act>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let m = tabs(n, s[0] == '\t');
        seq![raw(s[0], m)] + raws(s.drop_first(), m)
    }
}
pub open spec fn raws_n(s: Seq<char>, n: u32) -> u32
    decreases s.len()
{
    if s.len() == 0 { n } else { raws_n(s.drop_first(), tabs(n, s[0] == '\t')) }
}
/// what a terminal event does
pub open spec fn ev_tab(k: crossterm::event::KeyEvent) -> bool {
    if k.modifiers.has(crossterm::event::KeyModifiers::CONTROL) { k.code == crossterm::event::KeyCode::Char('i') } else { k.code == crossterm::event::KeyCode::Tab }
}
pub open spec fn ev_key(k: crossterm::event::KeyEvent, n: u32) -> Seq<Act> {
    use crossterm::event::KeyCode;
    if k.modifiers.has(crossterm::event::KeyModifiers::CONTROL) {
        match k.code {
            KeyCode::Char(x) => {
                let u = x as int;
                if 97 <= u <= 122 && key(u - 96, n) is Some { seq![key(u - 96, n)->Some_0] }
                else if u == 92 { seq![Act::Send(1004)] }
                else if 64 <= u <= 126 { seq![Act::Send(u % 32)] }
                else { seq![] }
            },
            _ => seq![],
        }
    } else {
        match k.code {
            KeyCode::Char(x) => if is_ctl(x) || x as int == 0x2028 || x as int == 0x2029 { seq![] } else { seq![Act::Ins(x)] },
            KeyCode::Tab => seq![Act::Complete(n)],
            KeyCode::Esc => seq![Act::Send(1003)],
            KeyCode::Enter => seq![Act::Return],
            KeyCode::Backspace => seq![Act::DelBack],
            KeyCode::Delete => seq![Act::DelFore],
            KeyCode::Up => seq![Act::HistPrev],
            KeyCode::Down => seq![Act::HistNext],
            KeyCode::Left => seq![Act::Left],
            KeyCode::Right => seq![Act::Right],
            KeyCode::Home => seq![Act::Home],
            KeyCode::End => seq![Act::End],
            _ => seq![],
        }
    }
}
/// the acts that are Responses / the others, in order
pub open spec fn sends(s: Seq<Act>) -> Seq<int>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match s[0] { Act::Send(x) => seq![x] + sends(s.drop_first()), _ => sends(s.drop_first()) }
    }
}
pub open spec fn edits(s: Seq<Act>) -> Seq<Act>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match s[0] { Act::Send(x) => edits(s.drop_first()), a => seq![a] + edits(s.drop_first()) }
    }
}
pub open spec fn codes(s: Seq<Response>) -> Seq<int> { s.map_values(|r: Response| code(r)) }
pub broadcast proof fn lemma_codes_push(s: Seq<Response>, r: Response)
    ensures #[trigger] codes(s.push(r)) == codes(s).push(code(r))
{ assert(codes(s.push(r)) =~= codes(s).push(code(r))); }
pub proof fn lemma_one(a: Act, s: Seq<Act>)
    ensures
        sends(seq![a] + s) == (match a { Act::Send(x) => seq![x] + sends(s), _ => sends(s) }),
        edits(seq![a] + s) == (match a { Act::Send(x) => edits(s), _ => seq![a] + edits(s) }),
{
    assert((seq![a] + s).drop_first() =~= s);
    reveal_with_fuel(sends, 2);
    reveal_with_fuel(edits, 2);
}
pub proof fn lemma_step(s: Seq<char>, n: u32)
    ensures s.len() > 0 ==> ({
        let m = tabs(n, s[0] == '\t'); let a = raw(s[0], m); let t = raws(s.drop_first(), m);
        &&& raws(s, n) == seq![a] + t
        &&& sends(seq![a] + t) == (match a { Act::Send(x) => seq![x] + sends(t), _ => sends(t) })
        &&& edits(seq![a] + t) == (match a { Act::Send(x) => edits(t), _ => seq![a] + edits(t) })
        &&& raws_n(s, n) == raws_n(s.drop_first(), m)
    }),
    s.len() == 0 ==> sends(raws(s, n)).len() == 0 && edits(raws(s, n)).len() == 0,
{
    if s.len() > 0 { let m = tabs(n, s[0] == '\t'); lemma_one(raw(s[0], m), raws(s.drop_first(), m)); }
}
pub open spec fn ev_acts(e: Event, n: u32) -> Seq<Act> {
    match e { Event::Resize(_, _) => seq![Act::Rollin], Event::Key(k) => ev_key(k, tabs(n, ev_tab(k))), _ => seq![] }
}
pub proof fn lemma_single(a: Act)
    ensures
        sends(seq![a]) == (match a { Act::Send(x) => seq![x], _ => Seq::<int>::empty() }),
        edits(seq![a]) == (match a { Act::Send(x) => Seq::<Act>::empty(), _ => seq![a] }),
        sends(seq![]) == Seq::<int>::empty(), edits(seq![]) == Seq::<Act>::empty(),
{
    lemma_one(a, seq![]);
    assert(seq![a] + seq![] =~= seq![a]);
    assert(seq![a] + edits(seq![]) =~= seq![a]);
    match a { Act::Send(x) => { assert(seq![x] + sends(seq![]) =~= seq![x]); }, _ => {} }
}
impl TtyState {
    pub open spec fn tr(&self) -> Seq<Act> { self.term.tr@ }
    pub open spec fn did(&self, o: &TtyState, a: Act) -> bool {
        self.tr() == o.tr().push(a) && self.input_allowed == o.input_allowed
        && self.consecutive_completion_presses == o.consecutive_completion_presses
    }
}
}
verus! {
//@method iter => vx_it
//@path std::println => vx_println
//@path drop => vx_drop
//@typemap Box<dyn Any + Send> => VxAny
//@typemap Box<dyn FnMut() + Send> => VxFnMut
//@typemap Box<dyn Completor> => VxCompletor
//@typemap RefCell<Box<dyn Term>> => Term
//@typemap Arc<RwLock<History>> => SharedHistory
//@typemap crossterm::event::Event => Event
//@typemap RefMut<'_, Box<dyn Term>> => Term
//@refcell self.term
//@raw
verus! {
impl TtyState {
    #[verifier::external_body]
    pub fn handle_home(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Home) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_left_arrow(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Left) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_right_arrow(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Right) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_end(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::End) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_finish(&mut self, tx: &mut tokio_mpsc::UnboundedSender<Response>) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Finish), final(tx).log() == old(tx).log() { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_discard(&mut self, tx: &mut tokio_mpsc::UnboundedSender<Response>) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Discard), final(tx).log() == old(tx).log() { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_kill_to_end(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::KillEnd) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_kill_to_start(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::KillStart) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_clear(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Clear) { unimplemented!() }
    #[verifier::external_body]
    pub fn history_next(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::HistNext) { unimplemented!() }
    #[verifier::external_body]
    pub fn history_prev(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::HistPrev) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_delete_word(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::DelWord) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_yank(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Yank) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_suspend(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Suspend) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_return(&mut self, tx: &mut tokio_mpsc::UnboundedSender<Response>, _ded_tx: &mut std_mpsc::SyncSender<Instant>) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Return), final(tx).log() == old(tx).log() { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_delete_back(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::DelBack) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_delete_fore(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::DelFore) { unimplemented!() }
    #[verifier::external_body]
    pub fn rollin(&mut self) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Rollin) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_char_input(&mut self, ch: char) -> (r: LifeOrDeath) ensures r is Ok ==> final(self).did(old(self), Act::Ins(ch)) { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_completion(&mut self) -> (r: LifeOrDeath) requires old(self).consecutive_completion_presses > 0 ensures r is Ok ==> final(self).did(old(self), Act::Complete(old(self).consecutive_completion_presses)) { unimplemented!() }
}
}
//@footer
fn main() {}
} // verus!
//@provides handle_home handle_left_arrow handle_right_arrow handle_end handle_finish handle_discard handle_kill_to_end handle_kill_to_start handle_clear history_next history_prev handle_delete_word handle_yank handle_suspend handle_return handle_delete_back handle_delete_fore rollin handle_char_input handle_completion
//@file src/completion.rs
//@type Completion
//@file src/lib.rs
//@type Response
//@raw
impl VxMsg for Response { open spec fn fine(&self) -> bool { !(self is Dead) } }
//@file src/worker.rs
//@type RememberedOutput
//@type TtyState
//@impl TtyState
//@fn handle_input props=C09
    ensures
        old(self).input_allowed && res is Ok ==> ({
            let a = raws(input@, old(self).consecutive_completion_presses);
            &&& final(self).tr() =~= old(self).tr() + edits(a)
            &&& codes(final(tx).log()) =~= codes(old(tx).log()) + sends(a)
            &&& final(self).consecutive_completion_presses == raws_n(input@, old(self).consecutive_completion_presses)
        }), //# C09
        !old(self).input_allowed ==> res is Ok && *final(self) == *old(self) && final(tx).log() == old(tx).log(), //# C09
//@hint start
    broadcast use lemma_codes_push;
//@loop 0
    invariant
        vx_it0.obeys_prophetic_iter_laws(), vx_it0.decrease() is Some,
        old(self).input_allowed, self.input_allowed,
        old(self).tr() + edits(raws(input@, old(self).consecutive_completion_presses))
            =~= self.tr() + edits(raws(vx_it0.remaining(), self.consecutive_completion_presses)),
        codes(old(tx).log()) + sends(raws(input@, old(self).consecutive_completion_presses))
            =~= codes(tx.log()) + sends(raws(vx_it0.remaining(), self.consecutive_completion_presses)),
        raws_n(input@, old(self).consecutive_completion_presses) == raws_n(vx_it0.remaining(), self.consecutive_completion_presses),
    ensures
        vx_it0.remaining().len() == 0,
    decreases vx_it0.decrease()->Some_0,
//@hint loop 0 start
    broadcast use lemma_codes_push;
    proof { lemma_step(vx_it0.remaining(), self.consecutive_completion_presses); }
//@fn handle_event props=C09
    requires !(event is Paste),
    ensures
        old(self).input_allowed && res is Ok ==> final(self).tr() =~= old(self).tr() + edits(ev_acts(event, old(self).consecutive_completion_presses)), //# C09
        old(self).input_allowed && res is Ok ==> codes(final(tx).log()) =~= codes(old(tx).log()) + sends(ev_acts(event, old(self).consecutive_completion_presses)), //# C09
        old(self).input_allowed && res is Ok ==> final(self).consecutive_completion_presses == (match event {
                    Event::Key(k) => tabs(old(self).consecutive_completion_presses, ev_tab(k)),
                    _ => old(self).consecutive_completion_presses }), //# C09
        !old(self).input_allowed ==> res is Ok && *final(self) == *old(self) && final(tx).log() == old(tx).log(), //# C09
//@hint start
    broadcast use lemma_codes_push;
    proof {
        let a = ev_acts(event, old(self).consecutive_completion_presses);
        lemma_single(a[0]);
        if a.len() > 0 { assert(a =~= seq![a[0]]); } else { assert(a =~= seq![]); }
        if event is Key && event->Key_0.code is Char {
            let x = event->Key_0.code->Char_0;
            if (x as u32) < 128 {
                let y = x as u8;
                assert(forall|z: u8| #[trigger] (z & 0x1f) == z % 32) by(bit_vector);
                assert(y as int == x as int);
                assert(code(Response::Unknown(y & 0x1f)) == (x as int) % 32);
                assert(a.len() > 0 ==> sends(a) == (match a[0] { Act::Send(u) => seq![u], _ => seq![] }));
            }
        }
    }
//@endimpl
