use super::*;
pub use super::cross::verif as cross;
pub use super::vt52::verif as vt52;

/// What a decoder sends.
#[derive(Debug, Clone, PartialEq)]
pub enum Tok { Raw(String), Event(Event), Other(String) }
impl Tok {
    pub(crate) fn new(r: Request) -> Tok {
        match r {
            Request::RawInput(s) => Tok::Raw(s),
            Request::CrosstermEvent(e) => Tok::Event(e),
            r => Tok::Other(crate::verif::show_request(&r)),
        }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    SetAttrs(Style, Option<Color>, Option<Color>),
    ResetAttrs,
    Print(String),
    Up(u32), Down(u32), Left(u32), Right(u32),
    Newline, Cr, Bell,
    ClearAll, ClearForward, ClearEol,
    Hide, Show, Flush, Suspend, Unsuspend, Cleanup,
}
/// A terminal, as seen by the editor.
pub trait TermApi {
    fn op(&mut self, op: Op);
    fn width(&mut self) -> u32;
    fn style(&self) -> Style;
}
pub struct Adapter(pub Box<dyn TermApi>);
impl Term for Adapter {
    fn set_attrs(&mut self, style: Style, fg: Option<Color>, bg: Option<Color>) -> LifeOrDeath { self.0.op(Op::SetAttrs(style, fg, bg)); Ok(()) }
    fn reset_attrs(&mut self) -> LifeOrDeath { self.0.op(Op::ResetAttrs); Ok(()) }
    fn print(&mut self, text: &str) -> LifeOrDeath { self.0.op(Op::Print(text.to_owned())); Ok(()) }
    fn print_char(&mut self, ch: char) -> LifeOrDeath { self.0.op(Op::Print(ch.to_string())); Ok(()) }
    fn print_spaces(&mut self, n: usize) -> LifeOrDeath { self.0.op(Op::Print(" ".repeat(n))); Ok(()) }
    fn move_cursor_up(&mut self, n: u32) -> LifeOrDeath { self.0.op(Op::Up(n)); Ok(()) }
    fn move_cursor_down(&mut self, n: u32) -> LifeOrDeath { self.0.op(Op::Down(n)); Ok(()) }
    fn move_cursor_left(&mut self, n: u32) -> LifeOrDeath { self.0.op(Op::Left(n)); Ok(()) }
    fn move_cursor_right(&mut self, n: u32) -> LifeOrDeath { self.0.op(Op::Right(n)); Ok(()) }
    fn newline(&mut self) -> LifeOrDeath { self.0.op(Op::Newline); Ok(()) }
    fn carriage_return(&mut self) -> LifeOrDeath { self.0.op(Op::Cr); Ok(()) }
    fn bell(&mut self) -> LifeOrDeath { self.0.op(Op::Bell); Ok(()) }
    fn clear_all_and_reset(&mut self) -> LifeOrDeath { self.0.op(Op::ClearAll); Ok(()) }
    fn clear_forward_and_reset(&mut self) -> LifeOrDeath { self.0.op(Op::ClearForward); Ok(()) }
    fn clear_to_end_of_line(&mut self) -> LifeOrDeath { self.0.op(Op::ClearEol); Ok(()) }
    fn hide_cursor(&mut self) -> LifeOrDeath { self.0.op(Op::Hide); Ok(()) }
    fn show_cursor(&mut self) -> LifeOrDeath { self.0.op(Op::Show); Ok(()) }
    fn get_width(&mut self) -> u32 { self.0.width() }
    fn cur_style(&self) -> Style { self.0.style() }
    fn flush(&mut self) -> LifeOrDeath { self.0.op(Op::Flush); Ok(()) }
    fn suspend(&mut self) -> LifeOrDeath { self.0.op(Op::Suspend); Ok(()) }
    fn unsuspend(&mut self) -> LifeOrDeath { self.0.op(Op::Unsuspend); Ok(()) }
    fn cleanup(&mut self) -> LifeOrDeath { self.0.op(Op::Cleanup); Ok(()) }
}
/// A real backend behind the Term trait.
pub struct Backend(pub(crate) Box<dyn Term>);
impl Backend {
    pub fn op(&mut self, op: &Op) -> bool {
        let t = &mut self.0;
        match op {
            Op::SetAttrs(s, f, b) => t.set_attrs(*s, *f, *b),
            Op::ResetAttrs => t.reset_attrs(),
            Op::Print(s) => t.print(s),
            Op::Up(n) => t.move_cursor_up(*n),
            Op::Down(n) => t.move_cursor_down(*n),
            Op::Left(n) => t.move_cursor_left(*n),
            Op::Right(n) => t.move_cursor_right(*n),
            Op::Newline => t.newline(),
            Op::Cr => t.carriage_return(),
            Op::Bell => t.bell(),
            Op::ClearAll => t.clear_all_and_reset(),
            Op::ClearForward => t.clear_forward_and_reset(),
            Op::ClearEol => t.clear_to_end_of_line(),
            Op::Hide => t.hide_cursor(),
            Op::Show => t.show_cursor(),
            Op::Flush => t.flush(),
            Op::Suspend => t.suspend(),
            Op::Unsuspend => t.unsuspend(),
            Op::Cleanup => t.cleanup(),
        }.is_ok()
    }
    pub fn print_char(&mut self, c: char) -> bool { self.0.print_char(c).is_ok() }
    pub fn print_spaces(&mut self, n: usize) -> bool { self.0.print_spaces(n).is_ok() }
    pub fn cur_style(&self) -> Style { self.0.cur_style() }
}
