//@header
//@include ../common/sx.rs
//@include ../common/end_sx.rs
verus! {
/// the state of a terminal: cursor hidden, lines not wrapped, inverse, colors (those of its normal state: see wb), what an
/// escape sequence still waits for; bad: it was sent something that it does not understand
pub struct Tm { pub hid: bool, pub nowrap: bool, pub inv: bool, pub fg: int, pub bg: int, pub below: bool, pub e: int, pub bad: bool, pub wb: bool }
pub open spec fn plain(t: Tm) -> bool { !t.hid && !t.nowrap && !t.inv && !t.below && !t.bad && t.e == 0 && t.fg == (if t.wb { 0int } else { 15 }) && t.bg == (if t.wb { 15int } else { 0 }) }
/// what the next character does to it
pub open spec fn step(t: Tm, c: int) -> Tm {
    if t.e == 0 { if c == 0x1b { Tm { e: 1, ..t } } else { t } }
    else if t.e == 1 {
        if c == 'b' as int { Tm { e: 2, ..t } } else if c == 'c' as int { Tm { e: 3, ..t } } else if c == 'Y' as int { Tm { e: 4, ..t } }
        else if c == 'e' as int { Tm { e: 0, hid: false, ..t } } else if c == 'f' as int { Tm { e: 0, hid: true, ..t } }
        else if c == 'v' as int { Tm { e: 0, nowrap: false, ..t } } else if c == 'w' as int { Tm { e: 0, nowrap: true, ..t } }
        else if c == 'p' as int { Tm { e: 0, inv: true, ..t } } else if c == 'q' as int { Tm { e: 0, inv: false, ..t } }
        else if c == 'J' as int || c == 'E' as int { Tm { e: 0, below: false, ..t } }
        else if c == '[' as int { Tm { e: 0, bad: true, ..t } } else { Tm { e: 0, ..t } } }
    else if t.e == 2 { Tm { e: 0, fg: (c - 0x20) % 16, ..t } }
    else if t.e == 3 { Tm { e: 0, bg: (c - 0x20) % 16, ..t } }
    else if t.e == 4 { Tm { e: 5, ..t } }
    else { Tm { e: 0, ..t } }
}
pub open spec fn feed(t: Tm, s: Seq<char>, n: int) -> Tm decreases n { if n <= 0 { t } else { step(feed(t, s, n - 1), s[n - 1] as int) } }
#[verifier::external_body]
pub fn vx_write(w: &mut VxWorld, s: &mut Stdout, l: &str) -> (r: LifeOrDeath)
    ensures final(w).g@ == put(old(w).g@, if r is Ok { feed(old(w).g@.t, l@, l@.len() as int) } else { final(w).g@.t }, r is Ok)
{ unimplemented!() }
impl Vt52 {
    /// while Liso has the terminal, it is raw, and the program's panic hook is kept; otherwise the terminal is in its normal
    /// state, and
    /// the program's hook in force
    pub open spec fn inv(&self, w: VxE) -> bool {
        self.input_thread.reads && self.white_on_black == w.t.wb && self.num_colors > 0 && w.t.e == 0 && !w.t.inv && !w.t.bad && if self.suspended { self.old_hook is None && w.hook == w.prog && normal(w) } else { w.raw && w.hook == 1 && (self.old_hook matches Some(h) ==> h.id@ == w.prog) && self.old_hook is Some }
    }
}
//@path vx_write => vx_write(+w)
//@path panic::take_hook => vx_take_hook(+w)
//@path panic::set_hook => vx_set_hook(+w)
//@path Box::new => vx_liso_hook()
//@path default_hook => vx_default_hook(+w)
//@path terminal::enable_raw_mode => vx_raw(+w)
//@path terminal::disable_raw_mode => vx_unraw(+w)
//@path std::io::stdout => vx_stdout
//@path std::thread::Builder::new => vx_builder
//@path std_mpsc::sync_channel => vx_chan()
//@method flush => flush(+w)
//@method interrupt => interrupt(+w)
//@method unsuspend => unsuspend(+w)
//@method suspend => suspend(+w)
//@method spawn ~stdin.read( => vx_spawn_reader()
//@method spawn ~event::read( => vx_spawn_reader()
//@method spawn => vx_spawn_other()
//@method name => vx_name()
//@features wrap history completion
//@file src/lib.rs
//@type Style #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type Color #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@file src/term/vt52.rs
//@type Vt52
    old_hook: Option<VxHook>
//@impl Vt52 trait Term : impl Vt52
//@fn unsuspend props=C25 as=panic_hook ret=res
//@part closure ~default_hook
//@sig (w: &mut VxWorld, info: VxInfo, white_on_black: bool)
    requires !old(w).g@.failed, old(w).g@.t.wb == white_on_black, !old(w).g@.t.inv, !old(w).g@.t.bad, old(w).g@.t.e == 0
    ensures final(w).g@.said, //# C25
//@hint start
    proof { reveal_with_fuel(feed, 24); }
//@fn unsuspend props=C25 ret=res
//@sig (&mut self, w: &mut VxWorld) -> (res: LifeOrDeath)
    requires old(self).suspended, old(self).inv(old(w).g@)
    ensures res is Ok ==> !final(self).suspended && final(self).inv(final(w).g@) && final(w).g@.prog == old(w).g@.prog && final(w).g@.ended == old(w).g@.ended, //# C25
//@hint start
    proof { reveal_with_fuel(feed, 24); }
//@fn suspend props=C25 ret=res
//@sig (&mut self, w: &mut VxWorld) -> (res: LifeOrDeath)
    requires !old(self).suspended, old(self).inv(old(w).g@)
    ensures res is Ok ==> final(self).suspended && final(self).inv(final(w).g@) && final(w).g@.prog == old(w).g@.prog && final(w).g@.ended == old(w).g@.ended, //# C25
//@hint start
    proof { reveal_with_fuel(feed, 24); }
//@fn cleanup props=C25 ret=res
//@sig (&mut self, w: &mut VxWorld) -> (res: LifeOrDeath)
    requires old(self).inv(old(w).g@)
    ensures res is Ok ==> normal(final(w).g@) && final(w).g@.hook == old(w).g@.prog && final(w).g@.ended, //# C25
//@endimpl
//@impl Vt52
//@fn new props=C25 as=new_from ret=res
//@part from ~sync_channel
//@sig (w: &mut VxWorld, req_tx: VxA, num_colors: u8, white_on_black: bool) -> (res: Result<Vt52, DummyError>)
    requires num_colors > 0, old(w).g@.t.wb == white_on_black, normal(old(w).g@), old(w).g@.hook == old(w).g@.prog
    ensures res matches Ok(x) ==> !x.suspended && x.inv(final(w).g@) && final(w).g@.prog == old(w).g@.prog, //# C25
//@endimpl
//@footer
}
fn main() {}
