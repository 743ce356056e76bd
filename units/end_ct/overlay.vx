//@header
//@include ../common/sx.rs
//@include ../common/end_sx.rs
verus! {
/// the state of a terminal: cursor hidden, lines not wrapped, attributes (perhaps) not the normal ones, text below the cursor
pub struct Tm { pub hid: bool, pub nowrap: bool, pub attr: bool, pub below: bool }
pub open spec fn plain(t: Tm) -> bool { !t.hid && !t.nowrap && !t.attr && !t.below }
/// what a crossterm command makes of it
pub trait VxCmd { spec fn eff(self, t: Tm) -> Tm; }
#[derive(Clone, Copy)]
pub enum CtAttribute { Reset, Bold, Dim, Italic, Underlined, Reverse, NormalIntensity, NoBold, NoItalic, NoUnderline, NoReverse, SlowBlink, RapidBlink, Hidden, CrossedOut }
pub mod style { use super::*;
    pub struct SetAttribute(pub CtAttribute);
    pub struct ResetColor;
}
pub mod terminal { use super::*;
    pub enum ClearType { All, FromCursorDown, UntilNewLine, Purge, FromCursorUp, CurrentLine }
    pub struct Clear(pub ClearType);
    pub struct EnableLineWrap;
    pub struct DisableLineWrap;
}
pub mod cursor { use super::*;
    pub struct Hide;
    pub struct Show;
}
impl VxCmd for style::SetAttribute { open spec fn eff(self, t: Tm) -> Tm { Tm { attr: !(self.0 is Reset), ..t } } }
impl VxCmd for style::ResetColor { open spec fn eff(self, t: Tm) -> Tm { t } }
impl VxCmd for terminal::Clear { open spec fn eff(self, t: Tm) -> Tm { Tm { below: t.below && !(self.0 is FromCursorDown || self.0 is All), ..t } } }
impl VxCmd for terminal::EnableLineWrap { open spec fn eff(self, t: Tm) -> Tm { Tm { nowrap: false, ..t } } }
impl VxCmd for terminal::DisableLineWrap { open spec fn eff(self, t: Tm) -> Tm { Tm { nowrap: true, ..t } } }
impl VxCmd for cursor::Hide { open spec fn eff(self, t: Tm) -> Tm { Tm { hid: true, ..t } } }
impl VxCmd for cursor::Show { open spec fn eff(self, t: Tm) -> Tm { Tm { hid: false, ..t } } }
#[verifier::external_body]
pub fn vx_queue<C: VxCmd>(w: &mut VxWorld, s: &mut Stdout, c: C) -> (r: LifeOrDeath)
    ensures final(w).g@ == put(old(w).g@, if r is Ok { c.eff(old(w).g@.t) } else { final(w).g@.t }, r is Ok)
{ unimplemented!() }
impl Crossterminal {
    /// while Liso has the terminal, it is raw, and the program's panic hook is kept; otherwise the terminal is in its normal
    /// state, and
    /// the program's hook in force
    pub open spec fn inv(&self, w: VxE) -> bool {
        self.input_thread.reads && if self.suspended { self.old_hook is None && w.hook == w.prog && normal(w) } else { w.raw && w.hook == 1 && (self.old_hook matches Some(h) ==> h.id@ == w.prog) && self.old_hook is Some }
    }
}
//@path vx_queue => vx_queue(+w)
//@path panic::take_hook => vx_take_hook(+w)
//@path panic::set_hook => vx_set_hook(+w)
//@path Box::new => vx_liso_hook()
//@path default_hook => vx_default_hook(+w)
//@path terminal::enable_raw_mode => vx_raw(+w)
//@path terminal::disable_raw_mode => vx_unraw(+w)
//@path std::io::stdout => vx_stdout
//@path std::thread::Builder::new => vx_builder
//@path std_mpsc::sync_channel => vx_chan()
//@method flush => flush(+w)
//@method interrupt => interrupt(+w)
//@method unsuspend => unsuspend(+w)
//@method suspend => suspend(+w)
//@method spawn ~stdin.read( => vx_spawn_reader()
//@method spawn ~event::read( => vx_spawn_reader()
//@method spawn => vx_spawn_other()
//@method name => vx_name()
//@features wrap history completion
//@file src/lib.rs
//@type Style #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@type Color #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@file src/term/cross.rs
//@type Crossterminal
    old_hook: Option<VxHook>
//@impl Crossterminal trait Term : impl Crossterminal
//@fn unsuspend props=C25 as=panic_hook ret=res
//@part closure ~default_hook
//@sig (w: &mut VxWorld, info: VxInfo)
    requires !old(w).g@.failed
    ensures final(w).g@.said, //# C25
//@fn unsuspend props=C25 ret=res
//@sig (&mut self, w: &mut VxWorld) -> (res: LifeOrDeath)
    requires old(self).suspended, old(self).inv(old(w).g@)
    ensures res is Ok ==> !final(self).suspended && final(self).inv(final(w).g@) && final(w).g@.prog == old(w).g@.prog && final(w).g@.ended == old(w).g@.ended, //# C25
//@fn suspend props=C25 ret=res
//@sig (&mut self, w: &mut VxWorld) -> (res: LifeOrDeath)
    requires !old(self).suspended, old(self).inv(old(w).g@)
    ensures res is Ok ==> final(self).suspended && final(self).inv(final(w).g@) && final(w).g@.prog == old(w).g@.prog && final(w).g@.ended == old(w).g@.ended, //# C25
//@fn cleanup props=C25 ret=res
//@sig (&mut self, w: &mut VxWorld) -> (res: LifeOrDeath)
    requires old(self).inv(old(w).g@)
    ensures res is Ok ==> normal(final(w).g@) && final(w).g@.hook == old(w).g@.prog && final(w).g@.ended, //# C25
//@endimpl
//@impl Crossterminal
//@fn new props=C25 as=new_from ret=res
//@part from ~sync_channel
//@sig (w: &mut VxWorld, crossterm_input: bool, req_tx: VxA) -> (res: Result<Crossterminal, DummyError>)
    requires normal(old(w).g@), old(w).g@.hook == old(w).g@.prog
    ensures res matches Ok(x) ==> !x.suspended && x.inv(final(w).g@) && final(w).g@.prog == old(w).g@.prog, //# C25
//@endimpl
//@footer
}
fn main() {}
