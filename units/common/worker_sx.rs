// Trusted stand-ins for the dependencies of worker.rs.
verus! {
pub struct DummyError {}
impl std::fmt::Debug for DummyError {
    #[verifier::external_body]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { unimplemented!() }
}
pub type LifeOrDeath = std::result::Result<(), DummyError>;

#[verifier::external_body]
pub struct VxAny { _x: u8 }
#[verifier::external_body]
pub struct VxFnMut { _x: u8 }
#[verifier::external_body]
pub fn vx_call_fnmut(f: VxFnMut) { unimplemented!() }

/// what may be told to the program
pub trait VxMsg { spec fn fine(&self) -> bool; }
pub mod tokio_mpsc {
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct UnboundedSender<T> { _x: Vec<T> }
    impl<T: VxMsg> UnboundedSender<T> {
        /// everything delivered to the program so far
        pub uninterp spec fn log(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn send(&mut self, x: T) -> (r: LifeOrDeath)
            requires x.fine(), //# C22
            ensures r is Ok ==> final(self).log() == old(self).log().push(x),
                    r is Err ==> final(self).log() == old(self).log()
        { unimplemented!() }
    }
}
pub mod std_mpsc {
    pub enum RecvTimeoutError { Timeout, Disconnected }
    pub enum TryRecvError { Empty, Disconnected }
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { _x: Vec<T> }
    #[verifier::external_body]
    pub fn sync_channel<T>(n: usize) -> (r: (SyncSender<T>, Receiver<T>)) ensures r.0.log() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct SyncSender<T> { _x: Vec<T> }
    impl<T> SyncSender<T> {
        pub uninterp spec fn log(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn send(&mut self, x: T) -> (r: LifeOrDeath)
            ensures r is Ok ==> final(self).log() == old(self).log().push(x),
                    r is Err ==> final(self).log() == old(self).log()
        { unimplemented!() }
    }
}
/// time, in unspecified units
pub struct Duration { pub d: Ghost<nat> }
impl Duration {
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> Duration { unimplemented!() }
}
pub struct Instant { pub t: Ghost<int> }
impl Clone for Instant { fn clone(&self) -> (r: Instant) ensures r == *self { Instant { t: self.t } } }
impl Copy for Instant {}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> Instant { Instant { t: Ghost(self.t@ + d.d@) } }
}
impl core::ops::Add<Duration> for Instant { type Output = Instant;
    fn add(self, d: Duration) -> Instant { Instant { t: Ghost(self.t@ + d.d@) } }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Instant) -> bool { self.t@ == o.t@ }
}
impl PartialEq for Instant {
    #[verifier::external_body]
    fn eq(&self, o: &Instant) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<core::cmp::Ordering> {
        if self.t@ < o.t@ { Some(core::cmp::Ordering::Less) } else if self.t@ == o.t@ { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for Instant {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Instant) -> Option<core::cmp::Ordering> { unimplemented!() }
}
pub uninterp spec fn clock_reads(t: int) -> bool;
impl Instant {
    /// the clock: any instant
    #[verifier::external_body]
    pub fn now() -> (r: Instant) ensures clock_reads(r.t@) { unimplemented!() }
}
pub struct NonZeroU32 { pub v: u32 }
impl NonZeroU32 {
    pub fn new(v: u32) -> (r: Option<NonZeroU32>) ensures r == (if v == 0 { None } else { Some(NonZeroU32 { v }) }) {
        if v == 0 { None } else { Some(NonZeroU32 { v }) }
    }
}
pub mod unix_util {
    #[verifier::external_body]
    pub fn sigstop_ourselves() { unimplemented!() }
}
pub mod crossterm { pub mod event {
    #[allow(unused_imports)] use vstd::prelude::*;
    // crossterm 0.27's event types (mirrored)
    #[derive(Clone, Copy)]
    pub enum KeyCode {
        Backspace, Enter, Left, Right, Up, Down, Home, End, PageUp, PageDown, Tab, BackTab, Delete, Insert,
        F(u8), Char(char), Null, Esc, CapsLock, ScrollLock, NumLock, PrintScreen, Pause, Menu, KeypadBegin,
    }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for KeyCode {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &KeyCode) -> bool { *self == *o }
    }
    impl PartialEq for KeyCode {
        #[verifier::external_body]
        fn eq(&self, o: &KeyCode) -> bool { unimplemented!() }
    }
    #[derive(Clone, Copy)]
    pub struct KeyModifiers { pub bits: u8 }
    impl KeyModifiers {
        pub const SHIFT: KeyModifiers = KeyModifiers { bits: 1 };
        pub const CONTROL: KeyModifiers = KeyModifiers { bits: 2 };
        pub const ALT: KeyModifiers = KeyModifiers { bits: 4 };
        pub open spec fn has(self, o: KeyModifiers) -> bool { self.bits & o.bits == o.bits }
        pub fn contains(&self, o: KeyModifiers) -> (r: bool) ensures r == self.has(o) { self.bits & o.bits == o.bits }
        pub fn empty() -> (r: KeyModifiers) ensures r.bits == 0 { KeyModifiers { bits: 0 } }
    }
    #[derive(Clone, Copy)]
    pub enum KeyEventKind { Press, Repeat, Release }
    #[derive(Clone, Copy)]
    pub struct KeyEventState { pub bits: u8 }
    impl KeyEventState { pub fn empty() -> (r: KeyEventState) ensures r.bits == 0 { KeyEventState { bits: 0 } } }
    #[derive(Clone, Copy)]
    pub struct KeyEvent { pub code: KeyCode, pub modifiers: KeyModifiers, pub kind: KeyEventKind, pub state: KeyEventState }
    pub struct MouseEvent { pub _x: u8 }
    pub enum Event { FocusGained, FocusLost, Key(KeyEvent), Mouse(MouseEvent), Paste(String), Resize(u16, u16) }
} }
pub use crossterm::event::Event;

/// The history shared with other threads: every time it is locked it may hold
/// something else.
#[verifier::external_body]
pub struct SharedHistory { _x: u8 }
/// `l` is a content the shared history may be seen with
pub uninterp spec fn hist_seen(h: SharedHistory, l: Seq<String>) -> bool;
pub struct HistRead { pub lines: Vec<String> }
#[verifier::external_body]
pub struct IoError { _x: u8 }
impl SharedHistory {
    /// lines this worker added, in order
    pub uninterp spec fn added(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn read(&self) -> (r: Result<HistRead, DummyError>)
        ensures r is Ok, hist_seen(*self, r->Ok_0.lines@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write<'a>(&'a mut self) -> (r: Result<&'a mut SharedHistory, DummyError>)
        ensures r is Ok, *r->Ok_0 == *old(self), *final(r->Ok_0) == *final(self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_line(&mut self, line: String) -> (r: Result<(), IoError>)
        ensures final(self).added() == old(self).added().push(line@)
    { unimplemented!() }
}
impl HistRead {
    pub fn get_lines(&self) -> (r: &Vec<String>) ensures *r == self.lines { &self.lines }
}
} // verus!
