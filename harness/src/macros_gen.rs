// Written by tools/mkmacros.py: each use of liso_add! and liso!, next to the method calls it stands for.
use liso::{liso, liso_add, Color, Line, Style};
fn same(c: Option<Color>) -> Option<Color> { c }
fn whole(x: &str) -> String { x.to_string() }
fn use_reset(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, reset); let mut l = p.clone(); l.reset_all(); f("liso_add!(a, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, reset,); let mut l = p.clone(); l.reset_all(); f("liso_add!(a, reset,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, reset); let mut l = p.clone(); l.add_text(y); l.reset_all(); f("liso_add!(a, y, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, y, reset,, y,); let mut l = p.clone(); l.add_text(y); l.reset_all(); l.add_text(y); f("liso_add!(a, y, reset,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , reset, y); let mut l = p.clone(); l.reset_all(); l.add_text(y); f("liso_add!(a, , reset, y)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, reset); let mut l = p.clone(); l.reset_all(); l.reset_all(); f("liso_add!(a, reset, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, fg = red); let mut l = p.clone(); l.reset_all(); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, reset, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, bg = none); let mut l = p.clone(); l.reset_all(); l.set_bg_color(None); f("liso_add!(a, reset, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, fg = c); let mut l = p.clone(); l.reset_all(); l.set_fg_color(c); f("liso_add!(a, reset, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, plain); let mut l = p.clone(); l.reset_all(); l.set_style(Style::PLAIN); f("liso_add!(a, reset, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, bold); let mut l = p.clone(); l.reset_all(); l.set_style(Style::BOLD); f("liso_add!(a, reset, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, +dim); let mut l = p.clone(); l.reset_all(); l.activate_style(Style::DIM); f("liso_add!(a, reset, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, -italic); let mut l = p.clone(); l.reset_all(); l.deactivate_style(Style::ITALIC); f("liso_add!(a, reset, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, ^inverse); let mut l = p.clone(); l.reset_all(); l.toggle_style(Style::INVERSE); f("liso_add!(a, reset, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, ansi x); let mut l = p.clone(); l.reset_all(); l.add_ansi_text(x); f("liso_add!(a, reset, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, reset, x); let mut l = p.clone(); l.reset_all(); l.add_text(x); f("liso_add!(a, reset, x)", a, l);
    let a = liso!(reset); let mut l = Line::new(); l.reset_all(); f("liso!(reset)", a, l);
    let a = liso!(y, reset, y); let mut l = Line::new(); l.add_text(y); l.reset_all(); l.add_text(y); f("liso!(y, reset, y)", a, l);
}
fn use_fg_cap_black(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = Black); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); f("liso_add!(a, fg = Black)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black,); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); f("liso_add!(a, fg = Black,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Black); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Black)); f("liso_add!(a, y, fg = Black)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Black,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Black)); l.add_text(y); f("liso_add!(a, y, fg = Black,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = Black, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.add_text(y); f("liso_add!(a, , fg = Black, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.reset_all(); f("liso_add!(a, fg = Black, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = Black, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.set_bg_color(None); f("liso_add!(a, fg = Black, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.set_fg_color(c); f("liso_add!(a, fg = Black, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = Black, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.set_style(Style::BOLD); f("liso_add!(a, fg = Black, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.activate_style(Style::DIM); f("liso_add!(a, fg = Black, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = Black, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = Black, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.add_ansi_text(x); f("liso_add!(a, fg = Black, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Black, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.add_text(x); f("liso_add!(a, fg = Black, x)", a, l);
    let a = liso!(fg = Black); let mut l = Line::new(); l.set_fg_color(Some(Color::Black)); f("liso!(fg = Black)", a, l);
    let a = liso!(y, fg = Black, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Black)); l.add_text(y); f("liso!(y, fg = Black, y)", a, l);
}
fn use_fg_black(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = black); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); f("liso_add!(a, fg = black)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black,); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); f("liso_add!(a, fg = black,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = black); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Black)); f("liso_add!(a, y, fg = black)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = black,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Black)); l.add_text(y); f("liso_add!(a, y, fg = black,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = black, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.add_text(y); f("liso_add!(a, , fg = black, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.reset_all(); f("liso_add!(a, fg = black, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = black, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.set_bg_color(None); f("liso_add!(a, fg = black, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.set_fg_color(c); f("liso_add!(a, fg = black, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = black, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.set_style(Style::BOLD); f("liso_add!(a, fg = black, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.activate_style(Style::DIM); f("liso_add!(a, fg = black, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = black, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = black, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.add_ansi_text(x); f("liso_add!(a, fg = black, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = black, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Black)); l.add_text(x); f("liso_add!(a, fg = black, x)", a, l);
    let a = liso!(fg = black); let mut l = Line::new(); l.set_fg_color(Some(Color::Black)); f("liso!(fg = black)", a, l);
    let a = liso!(y, fg = black, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Black)); l.add_text(y); f("liso!(y, fg = black, y)", a, l);
}
fn use_fg_cap_red(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = Red); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = Red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red,); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = Red,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Red); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, y, fg = Red)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Red,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Red)); l.add_text(y); f("liso_add!(a, y, fg = Red,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = Red, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.add_text(y); f("liso_add!(a, , fg = Red, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.reset_all(); f("liso_add!(a, fg = Red, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = Red, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.set_bg_color(None); f("liso_add!(a, fg = Red, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.set_fg_color(c); f("liso_add!(a, fg = Red, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = Red, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.set_style(Style::BOLD); f("liso_add!(a, fg = Red, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.activate_style(Style::DIM); f("liso_add!(a, fg = Red, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = Red, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = Red, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.add_ansi_text(x); f("liso_add!(a, fg = Red, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Red, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.add_text(x); f("liso_add!(a, fg = Red, x)", a, l);
    let a = liso!(fg = Red); let mut l = Line::new(); l.set_fg_color(Some(Color::Red)); f("liso!(fg = Red)", a, l);
    let a = liso!(y, fg = Red, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Red)); l.add_text(y); f("liso!(y, fg = Red, y)", a, l);
}
fn use_fg_red(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red,); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = red,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = red); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, y, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = red,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Red)); l.add_text(y); f("liso_add!(a, y, fg = red,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = red, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.add_text(y); f("liso_add!(a, , fg = red, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.reset_all(); f("liso_add!(a, fg = red, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = red, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.set_bg_color(None); f("liso_add!(a, fg = red, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.set_fg_color(c); f("liso_add!(a, fg = red, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = red, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.set_style(Style::BOLD); f("liso_add!(a, fg = red, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.activate_style(Style::DIM); f("liso_add!(a, fg = red, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = red, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = red, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.add_ansi_text(x); f("liso_add!(a, fg = red, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = red, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Red)); l.add_text(x); f("liso_add!(a, fg = red, x)", a, l);
    let a = liso!(fg = red); let mut l = Line::new(); l.set_fg_color(Some(Color::Red)); f("liso!(fg = red)", a, l);
    let a = liso!(y, fg = red, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Red)); l.add_text(y); f("liso!(y, fg = red, y)", a, l);
}
fn use_fg_cap_green(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = Green); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); f("liso_add!(a, fg = Green)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green,); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); f("liso_add!(a, fg = Green,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Green); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Green)); f("liso_add!(a, y, fg = Green)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Green,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Green)); l.add_text(y); f("liso_add!(a, y, fg = Green,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = Green, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.add_text(y); f("liso_add!(a, , fg = Green, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.reset_all(); f("liso_add!(a, fg = Green, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = Green, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.set_bg_color(None); f("liso_add!(a, fg = Green, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.set_fg_color(c); f("liso_add!(a, fg = Green, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = Green, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.set_style(Style::BOLD); f("liso_add!(a, fg = Green, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.activate_style(Style::DIM); f("liso_add!(a, fg = Green, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = Green, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = Green, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.add_ansi_text(x); f("liso_add!(a, fg = Green, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Green, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.add_text(x); f("liso_add!(a, fg = Green, x)", a, l);
    let a = liso!(fg = Green); let mut l = Line::new(); l.set_fg_color(Some(Color::Green)); f("liso!(fg = Green)", a, l);
    let a = liso!(y, fg = Green, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Green)); l.add_text(y); f("liso!(y, fg = Green, y)", a, l);
}
fn use_fg_green(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = green); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); f("liso_add!(a, fg = green)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green,); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); f("liso_add!(a, fg = green,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = green); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Green)); f("liso_add!(a, y, fg = green)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = green,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Green)); l.add_text(y); f("liso_add!(a, y, fg = green,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = green, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.add_text(y); f("liso_add!(a, , fg = green, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.reset_all(); f("liso_add!(a, fg = green, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = green, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.set_bg_color(None); f("liso_add!(a, fg = green, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.set_fg_color(c); f("liso_add!(a, fg = green, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = green, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.set_style(Style::BOLD); f("liso_add!(a, fg = green, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.activate_style(Style::DIM); f("liso_add!(a, fg = green, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = green, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = green, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.add_ansi_text(x); f("liso_add!(a, fg = green, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = green, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Green)); l.add_text(x); f("liso_add!(a, fg = green, x)", a, l);
    let a = liso!(fg = green); let mut l = Line::new(); l.set_fg_color(Some(Color::Green)); f("liso!(fg = green)", a, l);
    let a = liso!(y, fg = green, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Green)); l.add_text(y); f("liso!(y, fg = green, y)", a, l);
}
fn use_fg_cap_yellow(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = Yellow); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); f("liso_add!(a, fg = Yellow)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow,); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); f("liso_add!(a, fg = Yellow,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Yellow); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Yellow)); f("liso_add!(a, y, fg = Yellow)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Yellow,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Yellow)); l.add_text(y); f("liso_add!(a, y, fg = Yellow,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = Yellow, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.add_text(y); f("liso_add!(a, , fg = Yellow, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.reset_all(); f("liso_add!(a, fg = Yellow, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = Yellow, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.set_bg_color(None); f("liso_add!(a, fg = Yellow, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.set_fg_color(c); f("liso_add!(a, fg = Yellow, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = Yellow, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.set_style(Style::BOLD); f("liso_add!(a, fg = Yellow, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.activate_style(Style::DIM); f("liso_add!(a, fg = Yellow, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = Yellow, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = Yellow, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.add_ansi_text(x); f("liso_add!(a, fg = Yellow, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Yellow, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.add_text(x); f("liso_add!(a, fg = Yellow, x)", a, l);
    let a = liso!(fg = Yellow); let mut l = Line::new(); l.set_fg_color(Some(Color::Yellow)); f("liso!(fg = Yellow)", a, l);
    let a = liso!(y, fg = Yellow, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Yellow)); l.add_text(y); f("liso!(y, fg = Yellow, y)", a, l);
}
fn use_fg_yellow(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = yellow); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); f("liso_add!(a, fg = yellow)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow,); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); f("liso_add!(a, fg = yellow,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = yellow); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Yellow)); f("liso_add!(a, y, fg = yellow)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = yellow,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Yellow)); l.add_text(y); f("liso_add!(a, y, fg = yellow,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = yellow, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.add_text(y); f("liso_add!(a, , fg = yellow, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.reset_all(); f("liso_add!(a, fg = yellow, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = yellow, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.set_bg_color(None); f("liso_add!(a, fg = yellow, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.set_fg_color(c); f("liso_add!(a, fg = yellow, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = yellow, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.set_style(Style::BOLD); f("liso_add!(a, fg = yellow, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.activate_style(Style::DIM); f("liso_add!(a, fg = yellow, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = yellow, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = yellow, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.add_ansi_text(x); f("liso_add!(a, fg = yellow, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = yellow, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Yellow)); l.add_text(x); f("liso_add!(a, fg = yellow, x)", a, l);
    let a = liso!(fg = yellow); let mut l = Line::new(); l.set_fg_color(Some(Color::Yellow)); f("liso!(fg = yellow)", a, l);
    let a = liso!(y, fg = yellow, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Yellow)); l.add_text(y); f("liso!(y, fg = yellow, y)", a, l);
}
fn use_fg_cap_blue(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = Blue); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); f("liso_add!(a, fg = Blue)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue,); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); f("liso_add!(a, fg = Blue,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Blue); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Blue)); f("liso_add!(a, y, fg = Blue)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Blue,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Blue)); l.add_text(y); f("liso_add!(a, y, fg = Blue,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = Blue, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.add_text(y); f("liso_add!(a, , fg = Blue, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.reset_all(); f("liso_add!(a, fg = Blue, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = Blue, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.set_bg_color(None); f("liso_add!(a, fg = Blue, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.set_fg_color(c); f("liso_add!(a, fg = Blue, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = Blue, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.set_style(Style::BOLD); f("liso_add!(a, fg = Blue, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.activate_style(Style::DIM); f("liso_add!(a, fg = Blue, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = Blue, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = Blue, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.add_ansi_text(x); f("liso_add!(a, fg = Blue, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Blue, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.add_text(x); f("liso_add!(a, fg = Blue, x)", a, l);
    let a = liso!(fg = Blue); let mut l = Line::new(); l.set_fg_color(Some(Color::Blue)); f("liso!(fg = Blue)", a, l);
    let a = liso!(y, fg = Blue, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Blue)); l.add_text(y); f("liso!(y, fg = Blue, y)", a, l);
}
fn use_fg_blue(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = blue); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); f("liso_add!(a, fg = blue)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue,); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); f("liso_add!(a, fg = blue,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = blue); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Blue)); f("liso_add!(a, y, fg = blue)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = blue,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Blue)); l.add_text(y); f("liso_add!(a, y, fg = blue,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = blue, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.add_text(y); f("liso_add!(a, , fg = blue, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.reset_all(); f("liso_add!(a, fg = blue, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = blue, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.set_bg_color(None); f("liso_add!(a, fg = blue, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.set_fg_color(c); f("liso_add!(a, fg = blue, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = blue, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.set_style(Style::BOLD); f("liso_add!(a, fg = blue, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.activate_style(Style::DIM); f("liso_add!(a, fg = blue, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = blue, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = blue, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.add_ansi_text(x); f("liso_add!(a, fg = blue, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = blue, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Blue)); l.add_text(x); f("liso_add!(a, fg = blue, x)", a, l);
    let a = liso!(fg = blue); let mut l = Line::new(); l.set_fg_color(Some(Color::Blue)); f("liso!(fg = blue)", a, l);
    let a = liso!(y, fg = blue, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Blue)); l.add_text(y); f("liso!(y, fg = blue, y)", a, l);
}
fn use_fg_cap_cyan(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = Cyan); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); f("liso_add!(a, fg = Cyan)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan,); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); f("liso_add!(a, fg = Cyan,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Cyan); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Cyan)); f("liso_add!(a, y, fg = Cyan)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Cyan,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, y, fg = Cyan,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = Cyan, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, , fg = Cyan, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.reset_all(); f("liso_add!(a, fg = Cyan, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = Cyan, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_bg_color(None); f("liso_add!(a, fg = Cyan, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_fg_color(c); f("liso_add!(a, fg = Cyan, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = Cyan, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_style(Style::BOLD); f("liso_add!(a, fg = Cyan, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.activate_style(Style::DIM); f("liso_add!(a, fg = Cyan, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = Cyan, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = Cyan, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.add_ansi_text(x); f("liso_add!(a, fg = Cyan, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Cyan, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.add_text(x); f("liso_add!(a, fg = Cyan, x)", a, l);
    let a = liso!(fg = Cyan); let mut l = Line::new(); l.set_fg_color(Some(Color::Cyan)); f("liso!(fg = Cyan)", a, l);
    let a = liso!(y, fg = Cyan, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Cyan)); l.add_text(y); f("liso!(y, fg = Cyan, y)", a, l);
}
fn use_fg_cyan(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = cyan); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); f("liso_add!(a, fg = cyan)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan,); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); f("liso_add!(a, fg = cyan,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = cyan); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Cyan)); f("liso_add!(a, y, fg = cyan)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = cyan,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, y, fg = cyan,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = cyan, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, , fg = cyan, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.reset_all(); f("liso_add!(a, fg = cyan, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = cyan, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_bg_color(None); f("liso_add!(a, fg = cyan, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_fg_color(c); f("liso_add!(a, fg = cyan, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = cyan, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_style(Style::BOLD); f("liso_add!(a, fg = cyan, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.activate_style(Style::DIM); f("liso_add!(a, fg = cyan, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = cyan, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = cyan, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.add_ansi_text(x); f("liso_add!(a, fg = cyan, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = cyan, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.add_text(x); f("liso_add!(a, fg = cyan, x)", a, l);
    let a = liso!(fg = cyan); let mut l = Line::new(); l.set_fg_color(Some(Color::Cyan)); f("liso!(fg = cyan)", a, l);
    let a = liso!(y, fg = cyan, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Cyan)); l.add_text(y); f("liso!(y, fg = cyan, y)", a, l);
}
fn use_fg_cap_magenta(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = Magenta); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); f("liso_add!(a, fg = Magenta)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta,); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); f("liso_add!(a, fg = Magenta,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Magenta); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Magenta)); f("liso_add!(a, y, fg = Magenta)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Magenta,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Magenta)); l.add_text(y); f("liso_add!(a, y, fg = Magenta,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = Magenta, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.add_text(y); f("liso_add!(a, , fg = Magenta, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.reset_all(); f("liso_add!(a, fg = Magenta, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = Magenta, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.set_bg_color(None); f("liso_add!(a, fg = Magenta, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.set_fg_color(c); f("liso_add!(a, fg = Magenta, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = Magenta, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.set_style(Style::BOLD); f("liso_add!(a, fg = Magenta, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.activate_style(Style::DIM); f("liso_add!(a, fg = Magenta, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = Magenta, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = Magenta, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.add_ansi_text(x); f("liso_add!(a, fg = Magenta, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Magenta, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.add_text(x); f("liso_add!(a, fg = Magenta, x)", a, l);
    let a = liso!(fg = Magenta); let mut l = Line::new(); l.set_fg_color(Some(Color::Magenta)); f("liso!(fg = Magenta)", a, l);
    let a = liso!(y, fg = Magenta, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Magenta)); l.add_text(y); f("liso!(y, fg = Magenta, y)", a, l);
}
fn use_fg_magenta(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = magenta); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); f("liso_add!(a, fg = magenta)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta,); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); f("liso_add!(a, fg = magenta,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = magenta); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Magenta)); f("liso_add!(a, y, fg = magenta)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = magenta,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Magenta)); l.add_text(y); f("liso_add!(a, y, fg = magenta,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = magenta, y); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.add_text(y); f("liso_add!(a, , fg = magenta, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.reset_all(); f("liso_add!(a, fg = magenta, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = magenta, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.set_bg_color(None); f("liso_add!(a, fg = magenta, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.set_fg_color(c); f("liso_add!(a, fg = magenta, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = magenta, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.set_style(Style::BOLD); f("liso_add!(a, fg = magenta, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.activate_style(Style::DIM); f("liso_add!(a, fg = magenta, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = magenta, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = magenta, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.add_ansi_text(x); f("liso_add!(a, fg = magenta, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = magenta, x); let mut l = p.clone(); l.set_fg_color(Some(Color::Magenta)); l.add_text(x); f("liso_add!(a, fg = magenta, x)", a, l);
    let a = liso!(fg = magenta); let mut l = Line::new(); l.set_fg_color(Some(Color::Magenta)); f("liso!(fg = magenta)", a, l);
    let a = liso!(y, fg = magenta, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Magenta)); l.add_text(y); f("liso!(y, fg = magenta, y)", a, l);
}
fn use_fg_cap_white(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = White); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); f("liso_add!(a, fg = White)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White,); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); f("liso_add!(a, fg = White,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = White); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::White)); f("liso_add!(a, y, fg = White)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = White,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::White)); l.add_text(y); f("liso_add!(a, y, fg = White,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = White, y); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.add_text(y); f("liso_add!(a, , fg = White, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.reset_all(); f("liso_add!(a, fg = White, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = White, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.set_bg_color(None); f("liso_add!(a, fg = White, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.set_fg_color(c); f("liso_add!(a, fg = White, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = White, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.set_style(Style::BOLD); f("liso_add!(a, fg = White, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.activate_style(Style::DIM); f("liso_add!(a, fg = White, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = White, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = White, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.add_ansi_text(x); f("liso_add!(a, fg = White, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = White, x); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.add_text(x); f("liso_add!(a, fg = White, x)", a, l);
    let a = liso!(fg = White); let mut l = Line::new(); l.set_fg_color(Some(Color::White)); f("liso!(fg = White)", a, l);
    let a = liso!(y, fg = White, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::White)); l.add_text(y); f("liso!(y, fg = White, y)", a, l);
}
fn use_fg_white(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = white); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); f("liso_add!(a, fg = white)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white,); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); f("liso_add!(a, fg = white,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = white); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::White)); f("liso_add!(a, y, fg = white)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = white,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::White)); l.add_text(y); f("liso_add!(a, y, fg = white,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = white, y); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.add_text(y); f("liso_add!(a, , fg = white, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, reset); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.reset_all(); f("liso_add!(a, fg = white, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = white, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.set_bg_color(None); f("liso_add!(a, fg = white, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.set_fg_color(c); f("liso_add!(a, fg = white, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, plain); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = white, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, bold); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.set_style(Style::BOLD); f("liso_add!(a, fg = white, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.activate_style(Style::DIM); f("liso_add!(a, fg = white, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = white, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = white, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.add_ansi_text(x); f("liso_add!(a, fg = white, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = white, x); let mut l = p.clone(); l.set_fg_color(Some(Color::White)); l.add_text(x); f("liso_add!(a, fg = white, x)", a, l);
    let a = liso!(fg = white); let mut l = Line::new(); l.set_fg_color(Some(Color::White)); f("liso!(fg = white)", a, l);
    let a = liso!(y, fg = white, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::White)); l.add_text(y); f("liso!(y, fg = white, y)", a, l);
}
fn use_fg_none(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = none); let mut l = p.clone(); l.set_fg_color(None); f("liso_add!(a, fg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none,); let mut l = p.clone(); l.set_fg_color(None); f("liso_add!(a, fg = none,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = none); let mut l = p.clone(); l.add_text(y); l.set_fg_color(None); f("liso_add!(a, y, fg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = none,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(None); l.add_text(y); f("liso_add!(a, y, fg = none,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = none, y); let mut l = p.clone(); l.set_fg_color(None); l.add_text(y); f("liso_add!(a, , fg = none, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, reset); let mut l = p.clone(); l.set_fg_color(None); l.reset_all(); f("liso_add!(a, fg = none, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, fg = red); let mut l = p.clone(); l.set_fg_color(None); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = none, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, bg = none); let mut l = p.clone(); l.set_fg_color(None); l.set_bg_color(None); f("liso_add!(a, fg = none, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, fg = c); let mut l = p.clone(); l.set_fg_color(None); l.set_fg_color(c); f("liso_add!(a, fg = none, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, plain); let mut l = p.clone(); l.set_fg_color(None); l.set_style(Style::PLAIN); f("liso_add!(a, fg = none, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, bold); let mut l = p.clone(); l.set_fg_color(None); l.set_style(Style::BOLD); f("liso_add!(a, fg = none, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, +dim); let mut l = p.clone(); l.set_fg_color(None); l.activate_style(Style::DIM); f("liso_add!(a, fg = none, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, -italic); let mut l = p.clone(); l.set_fg_color(None); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = none, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, ^inverse); let mut l = p.clone(); l.set_fg_color(None); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = none, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, ansi x); let mut l = p.clone(); l.set_fg_color(None); l.add_ansi_text(x); f("liso_add!(a, fg = none, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = none, x); let mut l = p.clone(); l.set_fg_color(None); l.add_text(x); f("liso_add!(a, fg = none, x)", a, l);
    let a = liso!(fg = none); let mut l = Line::new(); l.set_fg_color(None); f("liso!(fg = none)", a, l);
    let a = liso!(y, fg = none, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(None); l.add_text(y); f("liso!(y, fg = none, y)", a, l);
}
fn use_fg_cap_none(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = None); let mut l = p.clone(); l.set_fg_color(None); f("liso_add!(a, fg = None)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None,); let mut l = p.clone(); l.set_fg_color(None); f("liso_add!(a, fg = None,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = None); let mut l = p.clone(); l.add_text(y); l.set_fg_color(None); f("liso_add!(a, y, fg = None)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = None,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(None); l.add_text(y); f("liso_add!(a, y, fg = None,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = None, y); let mut l = p.clone(); l.set_fg_color(None); l.add_text(y); f("liso_add!(a, , fg = None, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, reset); let mut l = p.clone(); l.set_fg_color(None); l.reset_all(); f("liso_add!(a, fg = None, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, fg = red); let mut l = p.clone(); l.set_fg_color(None); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = None, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, bg = none); let mut l = p.clone(); l.set_fg_color(None); l.set_bg_color(None); f("liso_add!(a, fg = None, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, fg = c); let mut l = p.clone(); l.set_fg_color(None); l.set_fg_color(c); f("liso_add!(a, fg = None, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, plain); let mut l = p.clone(); l.set_fg_color(None); l.set_style(Style::PLAIN); f("liso_add!(a, fg = None, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, bold); let mut l = p.clone(); l.set_fg_color(None); l.set_style(Style::BOLD); f("liso_add!(a, fg = None, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, +dim); let mut l = p.clone(); l.set_fg_color(None); l.activate_style(Style::DIM); f("liso_add!(a, fg = None, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, -italic); let mut l = p.clone(); l.set_fg_color(None); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = None, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, ^inverse); let mut l = p.clone(); l.set_fg_color(None); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = None, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, ansi x); let mut l = p.clone(); l.set_fg_color(None); l.add_ansi_text(x); f("liso_add!(a, fg = None, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = None, x); let mut l = p.clone(); l.set_fg_color(None); l.add_text(x); f("liso_add!(a, fg = None, x)", a, l);
    let a = liso!(fg = None); let mut l = Line::new(); l.set_fg_color(None); f("liso!(fg = None)", a, l);
    let a = liso!(y, fg = None, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(None); l.add_text(y); f("liso!(y, fg = None, y)", a, l);
}
fn use_fg_var(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = c); let mut l = p.clone(); l.set_fg_color(c); f("liso_add!(a, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c,); let mut l = p.clone(); l.set_fg_color(c); f("liso_add!(a, fg = c,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = c); let mut l = p.clone(); l.add_text(y); l.set_fg_color(c); f("liso_add!(a, y, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = c,, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(c); l.add_text(y); f("liso_add!(a, y, fg = c,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = c, y); let mut l = p.clone(); l.set_fg_color(c); l.add_text(y); f("liso_add!(a, , fg = c, y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, reset); let mut l = p.clone(); l.set_fg_color(c); l.reset_all(); f("liso_add!(a, fg = c, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, fg = red); let mut l = p.clone(); l.set_fg_color(c); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = c, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, bg = none); let mut l = p.clone(); l.set_fg_color(c); l.set_bg_color(None); f("liso_add!(a, fg = c, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, fg = c); let mut l = p.clone(); l.set_fg_color(c); l.set_fg_color(c); f("liso_add!(a, fg = c, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, plain); let mut l = p.clone(); l.set_fg_color(c); l.set_style(Style::PLAIN); f("liso_add!(a, fg = c, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, bold); let mut l = p.clone(); l.set_fg_color(c); l.set_style(Style::BOLD); f("liso_add!(a, fg = c, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, +dim); let mut l = p.clone(); l.set_fg_color(c); l.activate_style(Style::DIM); f("liso_add!(a, fg = c, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, -italic); let mut l = p.clone(); l.set_fg_color(c); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = c, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, ^inverse); let mut l = p.clone(); l.set_fg_color(c); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = c, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, ansi x); let mut l = p.clone(); l.set_fg_color(c); l.add_ansi_text(x); f("liso_add!(a, fg = c, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = c, x); let mut l = p.clone(); l.set_fg_color(c); l.add_text(x); f("liso_add!(a, fg = c, x)", a, l);
    let a = liso!(fg = c); let mut l = Line::new(); l.set_fg_color(c); f("liso!(fg = c)", a, l);
    let a = liso!(y, fg = c, y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(c); l.add_text(y); f("liso!(y, fg = c, y)", a, l);
}
fn use_fg_some(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan)); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); f("liso_add!(a, fg = Some(Color::Cyan))", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan),); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); f("liso_add!(a, fg = Some(Color::Cyan),)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Some(Color::Cyan)); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Cyan)); f("liso_add!(a, y, fg = Some(Color::Cyan))", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = Some(Color::Cyan),, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, y, fg = Some(Color::Cyan),, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = Some(Color::Cyan), y); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, , fg = Some(Color::Cyan), y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), reset); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.reset_all(); f("liso_add!(a, fg = Some(Color::Cyan), reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), fg = red); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = Some(Color::Cyan), fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), bg = none); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_bg_color(None); f("liso_add!(a, fg = Some(Color::Cyan), bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), fg = c); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_fg_color(c); f("liso_add!(a, fg = Some(Color::Cyan), fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), plain); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_style(Style::PLAIN); f("liso_add!(a, fg = Some(Color::Cyan), plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), bold); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.set_style(Style::BOLD); f("liso_add!(a, fg = Some(Color::Cyan), bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), +dim); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.activate_style(Style::DIM); f("liso_add!(a, fg = Some(Color::Cyan), +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), -italic); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = Some(Color::Cyan), -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), ^inverse); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = Some(Color::Cyan), ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), ansi x); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.add_ansi_text(x); f("liso_add!(a, fg = Some(Color::Cyan), ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = Some(Color::Cyan), x); let mut l = p.clone(); l.set_fg_color(Some(Color::Cyan)); l.add_text(x); f("liso_add!(a, fg = Some(Color::Cyan), x)", a, l);
    let a = liso!(fg = Some(Color::Cyan)); let mut l = Line::new(); l.set_fg_color(Some(Color::Cyan)); f("liso!(fg = Some(Color::Cyan))", a, l);
    let a = liso!(y, fg = Some(Color::Cyan), y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(Some(Color::Cyan)); l.add_text(y); f("liso!(y, fg = Some(Color::Cyan), y)", a, l);
}
fn use_fg_paren(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = (c)); let mut l = p.clone(); l.set_fg_color(c); f("liso_add!(a, fg = (c))", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c),); let mut l = p.clone(); l.set_fg_color(c); f("liso_add!(a, fg = (c),)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = (c)); let mut l = p.clone(); l.add_text(y); l.set_fg_color(c); f("liso_add!(a, y, fg = (c))", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = (c),, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(c); l.add_text(y); f("liso_add!(a, y, fg = (c),, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = (c), y); let mut l = p.clone(); l.set_fg_color(c); l.add_text(y); f("liso_add!(a, , fg = (c), y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), reset); let mut l = p.clone(); l.set_fg_color(c); l.reset_all(); f("liso_add!(a, fg = (c), reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), fg = red); let mut l = p.clone(); l.set_fg_color(c); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = (c), fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), bg = none); let mut l = p.clone(); l.set_fg_color(c); l.set_bg_color(None); f("liso_add!(a, fg = (c), bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), fg = c); let mut l = p.clone(); l.set_fg_color(c); l.set_fg_color(c); f("liso_add!(a, fg = (c), fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), plain); let mut l = p.clone(); l.set_fg_color(c); l.set_style(Style::PLAIN); f("liso_add!(a, fg = (c), plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), bold); let mut l = p.clone(); l.set_fg_color(c); l.set_style(Style::BOLD); f("liso_add!(a, fg = (c), bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), +dim); let mut l = p.clone(); l.set_fg_color(c); l.activate_style(Style::DIM); f("liso_add!(a, fg = (c), +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), -italic); let mut l = p.clone(); l.set_fg_color(c); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = (c), -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), ^inverse); let mut l = p.clone(); l.set_fg_color(c); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = (c), ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), ansi x); let mut l = p.clone(); l.set_fg_color(c); l.add_ansi_text(x); f("liso_add!(a, fg = (c), ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = (c), x); let mut l = p.clone(); l.set_fg_color(c); l.add_text(x); f("liso_add!(a, fg = (c), x)", a, l);
    let a = liso!(fg = (c)); let mut l = Line::new(); l.set_fg_color(c); f("liso!(fg = (c))", a, l);
    let a = liso!(y, fg = (c), y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(c); l.add_text(y); f("liso!(y, fg = (c), y)", a, l);
}
fn use_fg_call(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, fg = same(c)); let mut l = p.clone(); l.set_fg_color(c); f("liso_add!(a, fg = same(c))", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c),); let mut l = p.clone(); l.set_fg_color(c); f("liso_add!(a, fg = same(c),)", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = same(c)); let mut l = p.clone(); l.add_text(y); l.set_fg_color(c); f("liso_add!(a, y, fg = same(c))", a, l);
    let mut a = p.clone(); liso_add!(a, y, fg = same(c),, y,); let mut l = p.clone(); l.add_text(y); l.set_fg_color(c); l.add_text(y); f("liso_add!(a, y, fg = same(c),, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , fg = same(c), y); let mut l = p.clone(); l.set_fg_color(c); l.add_text(y); f("liso_add!(a, , fg = same(c), y)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), reset); let mut l = p.clone(); l.set_fg_color(c); l.reset_all(); f("liso_add!(a, fg = same(c), reset)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), fg = red); let mut l = p.clone(); l.set_fg_color(c); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, fg = same(c), fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), bg = none); let mut l = p.clone(); l.set_fg_color(c); l.set_bg_color(None); f("liso_add!(a, fg = same(c), bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), fg = c); let mut l = p.clone(); l.set_fg_color(c); l.set_fg_color(c); f("liso_add!(a, fg = same(c), fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), plain); let mut l = p.clone(); l.set_fg_color(c); l.set_style(Style::PLAIN); f("liso_add!(a, fg = same(c), plain)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), bold); let mut l = p.clone(); l.set_fg_color(c); l.set_style(Style::BOLD); f("liso_add!(a, fg = same(c), bold)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), +dim); let mut l = p.clone(); l.set_fg_color(c); l.activate_style(Style::DIM); f("liso_add!(a, fg = same(c), +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), -italic); let mut l = p.clone(); l.set_fg_color(c); l.deactivate_style(Style::ITALIC); f("liso_add!(a, fg = same(c), -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), ^inverse); let mut l = p.clone(); l.set_fg_color(c); l.toggle_style(Style::INVERSE); f("liso_add!(a, fg = same(c), ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), ansi x); let mut l = p.clone(); l.set_fg_color(c); l.add_ansi_text(x); f("liso_add!(a, fg = same(c), ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, fg = same(c), x); let mut l = p.clone(); l.set_fg_color(c); l.add_text(x); f("liso_add!(a, fg = same(c), x)", a, l);
    let a = liso!(fg = same(c)); let mut l = Line::new(); l.set_fg_color(c); f("liso!(fg = same(c))", a, l);
    let a = liso!(y, fg = same(c), y); let mut l = Line::new(); l.add_text(y); l.set_fg_color(c); l.add_text(y); f("liso!(y, fg = same(c), y)", a, l);
}
fn use_bg_cap_black(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = Black); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); f("liso_add!(a, bg = Black)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black,); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); f("liso_add!(a, bg = Black,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Black); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Black)); f("liso_add!(a, y, bg = Black)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Black,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Black)); l.add_text(y); f("liso_add!(a, y, bg = Black,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = Black, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.add_text(y); f("liso_add!(a, , bg = Black, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.reset_all(); f("liso_add!(a, bg = Black, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = Black, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.set_bg_color(None); f("liso_add!(a, bg = Black, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.set_fg_color(c); f("liso_add!(a, bg = Black, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = Black, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.set_style(Style::BOLD); f("liso_add!(a, bg = Black, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.activate_style(Style::DIM); f("liso_add!(a, bg = Black, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = Black, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = Black, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.add_ansi_text(x); f("liso_add!(a, bg = Black, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Black, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.add_text(x); f("liso_add!(a, bg = Black, x)", a, l);
    let a = liso!(bg = Black); let mut l = Line::new(); l.set_bg_color(Some(Color::Black)); f("liso!(bg = Black)", a, l);
    let a = liso!(y, bg = Black, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Black)); l.add_text(y); f("liso!(y, bg = Black, y)", a, l);
}
fn use_bg_black(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = black); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); f("liso_add!(a, bg = black)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black,); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); f("liso_add!(a, bg = black,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = black); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Black)); f("liso_add!(a, y, bg = black)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = black,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Black)); l.add_text(y); f("liso_add!(a, y, bg = black,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = black, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.add_text(y); f("liso_add!(a, , bg = black, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.reset_all(); f("liso_add!(a, bg = black, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = black, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.set_bg_color(None); f("liso_add!(a, bg = black, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.set_fg_color(c); f("liso_add!(a, bg = black, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = black, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.set_style(Style::BOLD); f("liso_add!(a, bg = black, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.activate_style(Style::DIM); f("liso_add!(a, bg = black, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = black, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = black, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.add_ansi_text(x); f("liso_add!(a, bg = black, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = black, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Black)); l.add_text(x); f("liso_add!(a, bg = black, x)", a, l);
    let a = liso!(bg = black); let mut l = Line::new(); l.set_bg_color(Some(Color::Black)); f("liso!(bg = black)", a, l);
    let a = liso!(y, bg = black, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Black)); l.add_text(y); f("liso!(y, bg = black, y)", a, l);
}
fn use_bg_cap_red(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = Red); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); f("liso_add!(a, bg = Red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red,); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); f("liso_add!(a, bg = Red,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Red); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Red)); f("liso_add!(a, y, bg = Red)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Red,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Red)); l.add_text(y); f("liso_add!(a, y, bg = Red,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = Red, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.add_text(y); f("liso_add!(a, , bg = Red, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.reset_all(); f("liso_add!(a, bg = Red, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = Red, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.set_bg_color(None); f("liso_add!(a, bg = Red, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.set_fg_color(c); f("liso_add!(a, bg = Red, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = Red, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.set_style(Style::BOLD); f("liso_add!(a, bg = Red, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.activate_style(Style::DIM); f("liso_add!(a, bg = Red, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = Red, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = Red, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.add_ansi_text(x); f("liso_add!(a, bg = Red, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Red, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.add_text(x); f("liso_add!(a, bg = Red, x)", a, l);
    let a = liso!(bg = Red); let mut l = Line::new(); l.set_bg_color(Some(Color::Red)); f("liso!(bg = Red)", a, l);
    let a = liso!(y, bg = Red, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Red)); l.add_text(y); f("liso!(y, bg = Red, y)", a, l);
}
fn use_bg_red(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); f("liso_add!(a, bg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red,); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); f("liso_add!(a, bg = red,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = red); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Red)); f("liso_add!(a, y, bg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = red,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Red)); l.add_text(y); f("liso_add!(a, y, bg = red,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = red, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.add_text(y); f("liso_add!(a, , bg = red, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.reset_all(); f("liso_add!(a, bg = red, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = red, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.set_bg_color(None); f("liso_add!(a, bg = red, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.set_fg_color(c); f("liso_add!(a, bg = red, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = red, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.set_style(Style::BOLD); f("liso_add!(a, bg = red, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.activate_style(Style::DIM); f("liso_add!(a, bg = red, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = red, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = red, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.add_ansi_text(x); f("liso_add!(a, bg = red, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = red, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Red)); l.add_text(x); f("liso_add!(a, bg = red, x)", a, l);
    let a = liso!(bg = red); let mut l = Line::new(); l.set_bg_color(Some(Color::Red)); f("liso!(bg = red)", a, l);
    let a = liso!(y, bg = red, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Red)); l.add_text(y); f("liso!(y, bg = red, y)", a, l);
}
fn use_bg_cap_green(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = Green); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); f("liso_add!(a, bg = Green)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green,); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); f("liso_add!(a, bg = Green,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Green); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Green)); f("liso_add!(a, y, bg = Green)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Green,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Green)); l.add_text(y); f("liso_add!(a, y, bg = Green,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = Green, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.add_text(y); f("liso_add!(a, , bg = Green, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.reset_all(); f("liso_add!(a, bg = Green, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = Green, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.set_bg_color(None); f("liso_add!(a, bg = Green, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.set_fg_color(c); f("liso_add!(a, bg = Green, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = Green, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.set_style(Style::BOLD); f("liso_add!(a, bg = Green, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.activate_style(Style::DIM); f("liso_add!(a, bg = Green, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = Green, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = Green, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.add_ansi_text(x); f("liso_add!(a, bg = Green, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Green, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.add_text(x); f("liso_add!(a, bg = Green, x)", a, l);
    let a = liso!(bg = Green); let mut l = Line::new(); l.set_bg_color(Some(Color::Green)); f("liso!(bg = Green)", a, l);
    let a = liso!(y, bg = Green, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Green)); l.add_text(y); f("liso!(y, bg = Green, y)", a, l);
}
fn use_bg_green(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = green); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); f("liso_add!(a, bg = green)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green,); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); f("liso_add!(a, bg = green,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = green); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Green)); f("liso_add!(a, y, bg = green)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = green,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Green)); l.add_text(y); f("liso_add!(a, y, bg = green,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = green, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.add_text(y); f("liso_add!(a, , bg = green, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.reset_all(); f("liso_add!(a, bg = green, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = green, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.set_bg_color(None); f("liso_add!(a, bg = green, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.set_fg_color(c); f("liso_add!(a, bg = green, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = green, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.set_style(Style::BOLD); f("liso_add!(a, bg = green, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.activate_style(Style::DIM); f("liso_add!(a, bg = green, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = green, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = green, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.add_ansi_text(x); f("liso_add!(a, bg = green, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = green, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Green)); l.add_text(x); f("liso_add!(a, bg = green, x)", a, l);
    let a = liso!(bg = green); let mut l = Line::new(); l.set_bg_color(Some(Color::Green)); f("liso!(bg = green)", a, l);
    let a = liso!(y, bg = green, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Green)); l.add_text(y); f("liso!(y, bg = green, y)", a, l);
}
fn use_bg_cap_yellow(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = Yellow); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); f("liso_add!(a, bg = Yellow)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow,); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); f("liso_add!(a, bg = Yellow,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Yellow); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Yellow)); f("liso_add!(a, y, bg = Yellow)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Yellow,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Yellow)); l.add_text(y); f("liso_add!(a, y, bg = Yellow,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = Yellow, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.add_text(y); f("liso_add!(a, , bg = Yellow, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.reset_all(); f("liso_add!(a, bg = Yellow, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = Yellow, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.set_bg_color(None); f("liso_add!(a, bg = Yellow, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.set_fg_color(c); f("liso_add!(a, bg = Yellow, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = Yellow, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.set_style(Style::BOLD); f("liso_add!(a, bg = Yellow, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.activate_style(Style::DIM); f("liso_add!(a, bg = Yellow, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = Yellow, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = Yellow, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.add_ansi_text(x); f("liso_add!(a, bg = Yellow, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Yellow, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.add_text(x); f("liso_add!(a, bg = Yellow, x)", a, l);
    let a = liso!(bg = Yellow); let mut l = Line::new(); l.set_bg_color(Some(Color::Yellow)); f("liso!(bg = Yellow)", a, l);
    let a = liso!(y, bg = Yellow, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Yellow)); l.add_text(y); f("liso!(y, bg = Yellow, y)", a, l);
}
fn use_bg_yellow(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = yellow); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); f("liso_add!(a, bg = yellow)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow,); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); f("liso_add!(a, bg = yellow,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = yellow); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Yellow)); f("liso_add!(a, y, bg = yellow)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = yellow,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Yellow)); l.add_text(y); f("liso_add!(a, y, bg = yellow,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = yellow, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.add_text(y); f("liso_add!(a, , bg = yellow, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.reset_all(); f("liso_add!(a, bg = yellow, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = yellow, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.set_bg_color(None); f("liso_add!(a, bg = yellow, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.set_fg_color(c); f("liso_add!(a, bg = yellow, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = yellow, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.set_style(Style::BOLD); f("liso_add!(a, bg = yellow, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.activate_style(Style::DIM); f("liso_add!(a, bg = yellow, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = yellow, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = yellow, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.add_ansi_text(x); f("liso_add!(a, bg = yellow, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = yellow, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Yellow)); l.add_text(x); f("liso_add!(a, bg = yellow, x)", a, l);
    let a = liso!(bg = yellow); let mut l = Line::new(); l.set_bg_color(Some(Color::Yellow)); f("liso!(bg = yellow)", a, l);
    let a = liso!(y, bg = yellow, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Yellow)); l.add_text(y); f("liso!(y, bg = yellow, y)", a, l);
}
fn use_bg_cap_blue(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = Blue); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); f("liso_add!(a, bg = Blue)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue,); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); f("liso_add!(a, bg = Blue,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Blue); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Blue)); f("liso_add!(a, y, bg = Blue)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Blue,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Blue)); l.add_text(y); f("liso_add!(a, y, bg = Blue,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = Blue, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.add_text(y); f("liso_add!(a, , bg = Blue, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.reset_all(); f("liso_add!(a, bg = Blue, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = Blue, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.set_bg_color(None); f("liso_add!(a, bg = Blue, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.set_fg_color(c); f("liso_add!(a, bg = Blue, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = Blue, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.set_style(Style::BOLD); f("liso_add!(a, bg = Blue, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.activate_style(Style::DIM); f("liso_add!(a, bg = Blue, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = Blue, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = Blue, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.add_ansi_text(x); f("liso_add!(a, bg = Blue, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Blue, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.add_text(x); f("liso_add!(a, bg = Blue, x)", a, l);
    let a = liso!(bg = Blue); let mut l = Line::new(); l.set_bg_color(Some(Color::Blue)); f("liso!(bg = Blue)", a, l);
    let a = liso!(y, bg = Blue, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Blue)); l.add_text(y); f("liso!(y, bg = Blue, y)", a, l);
}
fn use_bg_blue(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = blue); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); f("liso_add!(a, bg = blue)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue,); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); f("liso_add!(a, bg = blue,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = blue); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Blue)); f("liso_add!(a, y, bg = blue)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = blue,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Blue)); l.add_text(y); f("liso_add!(a, y, bg = blue,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = blue, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.add_text(y); f("liso_add!(a, , bg = blue, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.reset_all(); f("liso_add!(a, bg = blue, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = blue, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.set_bg_color(None); f("liso_add!(a, bg = blue, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.set_fg_color(c); f("liso_add!(a, bg = blue, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = blue, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.set_style(Style::BOLD); f("liso_add!(a, bg = blue, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.activate_style(Style::DIM); f("liso_add!(a, bg = blue, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = blue, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = blue, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.add_ansi_text(x); f("liso_add!(a, bg = blue, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = blue, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Blue)); l.add_text(x); f("liso_add!(a, bg = blue, x)", a, l);
    let a = liso!(bg = blue); let mut l = Line::new(); l.set_bg_color(Some(Color::Blue)); f("liso!(bg = blue)", a, l);
    let a = liso!(y, bg = blue, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Blue)); l.add_text(y); f("liso!(y, bg = blue, y)", a, l);
}
fn use_bg_cap_cyan(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = Cyan); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); f("liso_add!(a, bg = Cyan)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan,); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); f("liso_add!(a, bg = Cyan,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Cyan); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Cyan)); f("liso_add!(a, y, bg = Cyan)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Cyan,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, y, bg = Cyan,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = Cyan, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, , bg = Cyan, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.reset_all(); f("liso_add!(a, bg = Cyan, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = Cyan, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_bg_color(None); f("liso_add!(a, bg = Cyan, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_fg_color(c); f("liso_add!(a, bg = Cyan, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = Cyan, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_style(Style::BOLD); f("liso_add!(a, bg = Cyan, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.activate_style(Style::DIM); f("liso_add!(a, bg = Cyan, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = Cyan, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = Cyan, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.add_ansi_text(x); f("liso_add!(a, bg = Cyan, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Cyan, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.add_text(x); f("liso_add!(a, bg = Cyan, x)", a, l);
    let a = liso!(bg = Cyan); let mut l = Line::new(); l.set_bg_color(Some(Color::Cyan)); f("liso!(bg = Cyan)", a, l);
    let a = liso!(y, bg = Cyan, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Cyan)); l.add_text(y); f("liso!(y, bg = Cyan, y)", a, l);
}
fn use_bg_cyan(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = cyan); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); f("liso_add!(a, bg = cyan)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan,); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); f("liso_add!(a, bg = cyan,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = cyan); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Cyan)); f("liso_add!(a, y, bg = cyan)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = cyan,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, y, bg = cyan,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = cyan, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, , bg = cyan, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.reset_all(); f("liso_add!(a, bg = cyan, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = cyan, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_bg_color(None); f("liso_add!(a, bg = cyan, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_fg_color(c); f("liso_add!(a, bg = cyan, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = cyan, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_style(Style::BOLD); f("liso_add!(a, bg = cyan, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.activate_style(Style::DIM); f("liso_add!(a, bg = cyan, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = cyan, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = cyan, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.add_ansi_text(x); f("liso_add!(a, bg = cyan, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = cyan, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.add_text(x); f("liso_add!(a, bg = cyan, x)", a, l);
    let a = liso!(bg = cyan); let mut l = Line::new(); l.set_bg_color(Some(Color::Cyan)); f("liso!(bg = cyan)", a, l);
    let a = liso!(y, bg = cyan, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Cyan)); l.add_text(y); f("liso!(y, bg = cyan, y)", a, l);
}
fn use_bg_cap_magenta(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = Magenta); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); f("liso_add!(a, bg = Magenta)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta,); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); f("liso_add!(a, bg = Magenta,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Magenta); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Magenta)); f("liso_add!(a, y, bg = Magenta)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Magenta,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Magenta)); l.add_text(y); f("liso_add!(a, y, bg = Magenta,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = Magenta, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.add_text(y); f("liso_add!(a, , bg = Magenta, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.reset_all(); f("liso_add!(a, bg = Magenta, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = Magenta, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.set_bg_color(None); f("liso_add!(a, bg = Magenta, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.set_fg_color(c); f("liso_add!(a, bg = Magenta, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = Magenta, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.set_style(Style::BOLD); f("liso_add!(a, bg = Magenta, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.activate_style(Style::DIM); f("liso_add!(a, bg = Magenta, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = Magenta, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = Magenta, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.add_ansi_text(x); f("liso_add!(a, bg = Magenta, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Magenta, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.add_text(x); f("liso_add!(a, bg = Magenta, x)", a, l);
    let a = liso!(bg = Magenta); let mut l = Line::new(); l.set_bg_color(Some(Color::Magenta)); f("liso!(bg = Magenta)", a, l);
    let a = liso!(y, bg = Magenta, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Magenta)); l.add_text(y); f("liso!(y, bg = Magenta, y)", a, l);
}
fn use_bg_magenta(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = magenta); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); f("liso_add!(a, bg = magenta)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta,); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); f("liso_add!(a, bg = magenta,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = magenta); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Magenta)); f("liso_add!(a, y, bg = magenta)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = magenta,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Magenta)); l.add_text(y); f("liso_add!(a, y, bg = magenta,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = magenta, y); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.add_text(y); f("liso_add!(a, , bg = magenta, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.reset_all(); f("liso_add!(a, bg = magenta, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = magenta, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.set_bg_color(None); f("liso_add!(a, bg = magenta, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.set_fg_color(c); f("liso_add!(a, bg = magenta, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = magenta, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.set_style(Style::BOLD); f("liso_add!(a, bg = magenta, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.activate_style(Style::DIM); f("liso_add!(a, bg = magenta, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = magenta, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = magenta, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.add_ansi_text(x); f("liso_add!(a, bg = magenta, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = magenta, x); let mut l = p.clone(); l.set_bg_color(Some(Color::Magenta)); l.add_text(x); f("liso_add!(a, bg = magenta, x)", a, l);
    let a = liso!(bg = magenta); let mut l = Line::new(); l.set_bg_color(Some(Color::Magenta)); f("liso!(bg = magenta)", a, l);
    let a = liso!(y, bg = magenta, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Magenta)); l.add_text(y); f("liso!(y, bg = magenta, y)", a, l);
}
fn use_bg_cap_white(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = White); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); f("liso_add!(a, bg = White)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White,); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); f("liso_add!(a, bg = White,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = White); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::White)); f("liso_add!(a, y, bg = White)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = White,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::White)); l.add_text(y); f("liso_add!(a, y, bg = White,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = White, y); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.add_text(y); f("liso_add!(a, , bg = White, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.reset_all(); f("liso_add!(a, bg = White, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = White, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.set_bg_color(None); f("liso_add!(a, bg = White, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.set_fg_color(c); f("liso_add!(a, bg = White, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = White, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.set_style(Style::BOLD); f("liso_add!(a, bg = White, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.activate_style(Style::DIM); f("liso_add!(a, bg = White, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = White, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = White, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.add_ansi_text(x); f("liso_add!(a, bg = White, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = White, x); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.add_text(x); f("liso_add!(a, bg = White, x)", a, l);
    let a = liso!(bg = White); let mut l = Line::new(); l.set_bg_color(Some(Color::White)); f("liso!(bg = White)", a, l);
    let a = liso!(y, bg = White, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::White)); l.add_text(y); f("liso!(y, bg = White, y)", a, l);
}
fn use_bg_white(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = white); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); f("liso_add!(a, bg = white)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white,); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); f("liso_add!(a, bg = white,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = white); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::White)); f("liso_add!(a, y, bg = white)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = white,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::White)); l.add_text(y); f("liso_add!(a, y, bg = white,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = white, y); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.add_text(y); f("liso_add!(a, , bg = white, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, reset); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.reset_all(); f("liso_add!(a, bg = white, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = white, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.set_bg_color(None); f("liso_add!(a, bg = white, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.set_fg_color(c); f("liso_add!(a, bg = white, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, plain); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = white, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, bold); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.set_style(Style::BOLD); f("liso_add!(a, bg = white, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.activate_style(Style::DIM); f("liso_add!(a, bg = white, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = white, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = white, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.add_ansi_text(x); f("liso_add!(a, bg = white, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = white, x); let mut l = p.clone(); l.set_bg_color(Some(Color::White)); l.add_text(x); f("liso_add!(a, bg = white, x)", a, l);
    let a = liso!(bg = white); let mut l = Line::new(); l.set_bg_color(Some(Color::White)); f("liso!(bg = white)", a, l);
    let a = liso!(y, bg = white, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::White)); l.add_text(y); f("liso!(y, bg = white, y)", a, l);
}
fn use_bg_none(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = none); let mut l = p.clone(); l.set_bg_color(None); f("liso_add!(a, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none,); let mut l = p.clone(); l.set_bg_color(None); f("liso_add!(a, bg = none,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = none); let mut l = p.clone(); l.add_text(y); l.set_bg_color(None); f("liso_add!(a, y, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = none,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(None); l.add_text(y); f("liso_add!(a, y, bg = none,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = none, y); let mut l = p.clone(); l.set_bg_color(None); l.add_text(y); f("liso_add!(a, , bg = none, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, reset); let mut l = p.clone(); l.set_bg_color(None); l.reset_all(); f("liso_add!(a, bg = none, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, fg = red); let mut l = p.clone(); l.set_bg_color(None); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = none, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, bg = none); let mut l = p.clone(); l.set_bg_color(None); l.set_bg_color(None); f("liso_add!(a, bg = none, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, fg = c); let mut l = p.clone(); l.set_bg_color(None); l.set_fg_color(c); f("liso_add!(a, bg = none, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, plain); let mut l = p.clone(); l.set_bg_color(None); l.set_style(Style::PLAIN); f("liso_add!(a, bg = none, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, bold); let mut l = p.clone(); l.set_bg_color(None); l.set_style(Style::BOLD); f("liso_add!(a, bg = none, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, +dim); let mut l = p.clone(); l.set_bg_color(None); l.activate_style(Style::DIM); f("liso_add!(a, bg = none, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, -italic); let mut l = p.clone(); l.set_bg_color(None); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = none, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, ^inverse); let mut l = p.clone(); l.set_bg_color(None); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = none, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, ansi x); let mut l = p.clone(); l.set_bg_color(None); l.add_ansi_text(x); f("liso_add!(a, bg = none, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = none, x); let mut l = p.clone(); l.set_bg_color(None); l.add_text(x); f("liso_add!(a, bg = none, x)", a, l);
    let a = liso!(bg = none); let mut l = Line::new(); l.set_bg_color(None); f("liso!(bg = none)", a, l);
    let a = liso!(y, bg = none, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(None); l.add_text(y); f("liso!(y, bg = none, y)", a, l);
}
fn use_bg_cap_none(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = None); let mut l = p.clone(); l.set_bg_color(None); f("liso_add!(a, bg = None)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None,); let mut l = p.clone(); l.set_bg_color(None); f("liso_add!(a, bg = None,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = None); let mut l = p.clone(); l.add_text(y); l.set_bg_color(None); f("liso_add!(a, y, bg = None)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = None,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(None); l.add_text(y); f("liso_add!(a, y, bg = None,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = None, y); let mut l = p.clone(); l.set_bg_color(None); l.add_text(y); f("liso_add!(a, , bg = None, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, reset); let mut l = p.clone(); l.set_bg_color(None); l.reset_all(); f("liso_add!(a, bg = None, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, fg = red); let mut l = p.clone(); l.set_bg_color(None); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = None, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, bg = none); let mut l = p.clone(); l.set_bg_color(None); l.set_bg_color(None); f("liso_add!(a, bg = None, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, fg = c); let mut l = p.clone(); l.set_bg_color(None); l.set_fg_color(c); f("liso_add!(a, bg = None, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, plain); let mut l = p.clone(); l.set_bg_color(None); l.set_style(Style::PLAIN); f("liso_add!(a, bg = None, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, bold); let mut l = p.clone(); l.set_bg_color(None); l.set_style(Style::BOLD); f("liso_add!(a, bg = None, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, +dim); let mut l = p.clone(); l.set_bg_color(None); l.activate_style(Style::DIM); f("liso_add!(a, bg = None, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, -italic); let mut l = p.clone(); l.set_bg_color(None); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = None, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, ^inverse); let mut l = p.clone(); l.set_bg_color(None); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = None, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, ansi x); let mut l = p.clone(); l.set_bg_color(None); l.add_ansi_text(x); f("liso_add!(a, bg = None, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = None, x); let mut l = p.clone(); l.set_bg_color(None); l.add_text(x); f("liso_add!(a, bg = None, x)", a, l);
    let a = liso!(bg = None); let mut l = Line::new(); l.set_bg_color(None); f("liso!(bg = None)", a, l);
    let a = liso!(y, bg = None, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(None); l.add_text(y); f("liso!(y, bg = None, y)", a, l);
}
fn use_bg_var(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = c); let mut l = p.clone(); l.set_bg_color(c); f("liso_add!(a, bg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c,); let mut l = p.clone(); l.set_bg_color(c); f("liso_add!(a, bg = c,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = c); let mut l = p.clone(); l.add_text(y); l.set_bg_color(c); f("liso_add!(a, y, bg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = c,, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(c); l.add_text(y); f("liso_add!(a, y, bg = c,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = c, y); let mut l = p.clone(); l.set_bg_color(c); l.add_text(y); f("liso_add!(a, , bg = c, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, reset); let mut l = p.clone(); l.set_bg_color(c); l.reset_all(); f("liso_add!(a, bg = c, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, fg = red); let mut l = p.clone(); l.set_bg_color(c); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = c, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, bg = none); let mut l = p.clone(); l.set_bg_color(c); l.set_bg_color(None); f("liso_add!(a, bg = c, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, fg = c); let mut l = p.clone(); l.set_bg_color(c); l.set_fg_color(c); f("liso_add!(a, bg = c, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, plain); let mut l = p.clone(); l.set_bg_color(c); l.set_style(Style::PLAIN); f("liso_add!(a, bg = c, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, bold); let mut l = p.clone(); l.set_bg_color(c); l.set_style(Style::BOLD); f("liso_add!(a, bg = c, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, +dim); let mut l = p.clone(); l.set_bg_color(c); l.activate_style(Style::DIM); f("liso_add!(a, bg = c, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, -italic); let mut l = p.clone(); l.set_bg_color(c); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = c, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, ^inverse); let mut l = p.clone(); l.set_bg_color(c); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = c, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, ansi x); let mut l = p.clone(); l.set_bg_color(c); l.add_ansi_text(x); f("liso_add!(a, bg = c, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = c, x); let mut l = p.clone(); l.set_bg_color(c); l.add_text(x); f("liso_add!(a, bg = c, x)", a, l);
    let a = liso!(bg = c); let mut l = Line::new(); l.set_bg_color(c); f("liso!(bg = c)", a, l);
    let a = liso!(y, bg = c, y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(c); l.add_text(y); f("liso!(y, bg = c, y)", a, l);
}
fn use_bg_some(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan)); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); f("liso_add!(a, bg = Some(Color::Cyan))", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan),); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); f("liso_add!(a, bg = Some(Color::Cyan),)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Some(Color::Cyan)); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Cyan)); f("liso_add!(a, y, bg = Some(Color::Cyan))", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = Some(Color::Cyan),, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, y, bg = Some(Color::Cyan),, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = Some(Color::Cyan), y); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.add_text(y); f("liso_add!(a, , bg = Some(Color::Cyan), y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), reset); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.reset_all(); f("liso_add!(a, bg = Some(Color::Cyan), reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), fg = red); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = Some(Color::Cyan), fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), bg = none); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_bg_color(None); f("liso_add!(a, bg = Some(Color::Cyan), bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), fg = c); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_fg_color(c); f("liso_add!(a, bg = Some(Color::Cyan), fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), plain); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_style(Style::PLAIN); f("liso_add!(a, bg = Some(Color::Cyan), plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), bold); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.set_style(Style::BOLD); f("liso_add!(a, bg = Some(Color::Cyan), bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), +dim); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.activate_style(Style::DIM); f("liso_add!(a, bg = Some(Color::Cyan), +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), -italic); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = Some(Color::Cyan), -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), ^inverse); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = Some(Color::Cyan), ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), ansi x); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.add_ansi_text(x); f("liso_add!(a, bg = Some(Color::Cyan), ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = Some(Color::Cyan), x); let mut l = p.clone(); l.set_bg_color(Some(Color::Cyan)); l.add_text(x); f("liso_add!(a, bg = Some(Color::Cyan), x)", a, l);
    let a = liso!(bg = Some(Color::Cyan)); let mut l = Line::new(); l.set_bg_color(Some(Color::Cyan)); f("liso!(bg = Some(Color::Cyan))", a, l);
    let a = liso!(y, bg = Some(Color::Cyan), y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(Some(Color::Cyan)); l.add_text(y); f("liso!(y, bg = Some(Color::Cyan), y)", a, l);
}
fn use_bg_paren(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = (c)); let mut l = p.clone(); l.set_bg_color(c); f("liso_add!(a, bg = (c))", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c),); let mut l = p.clone(); l.set_bg_color(c); f("liso_add!(a, bg = (c),)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = (c)); let mut l = p.clone(); l.add_text(y); l.set_bg_color(c); f("liso_add!(a, y, bg = (c))", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = (c),, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(c); l.add_text(y); f("liso_add!(a, y, bg = (c),, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = (c), y); let mut l = p.clone(); l.set_bg_color(c); l.add_text(y); f("liso_add!(a, , bg = (c), y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), reset); let mut l = p.clone(); l.set_bg_color(c); l.reset_all(); f("liso_add!(a, bg = (c), reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), fg = red); let mut l = p.clone(); l.set_bg_color(c); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = (c), fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), bg = none); let mut l = p.clone(); l.set_bg_color(c); l.set_bg_color(None); f("liso_add!(a, bg = (c), bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), fg = c); let mut l = p.clone(); l.set_bg_color(c); l.set_fg_color(c); f("liso_add!(a, bg = (c), fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), plain); let mut l = p.clone(); l.set_bg_color(c); l.set_style(Style::PLAIN); f("liso_add!(a, bg = (c), plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), bold); let mut l = p.clone(); l.set_bg_color(c); l.set_style(Style::BOLD); f("liso_add!(a, bg = (c), bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), +dim); let mut l = p.clone(); l.set_bg_color(c); l.activate_style(Style::DIM); f("liso_add!(a, bg = (c), +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), -italic); let mut l = p.clone(); l.set_bg_color(c); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = (c), -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), ^inverse); let mut l = p.clone(); l.set_bg_color(c); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = (c), ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), ansi x); let mut l = p.clone(); l.set_bg_color(c); l.add_ansi_text(x); f("liso_add!(a, bg = (c), ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = (c), x); let mut l = p.clone(); l.set_bg_color(c); l.add_text(x); f("liso_add!(a, bg = (c), x)", a, l);
    let a = liso!(bg = (c)); let mut l = Line::new(); l.set_bg_color(c); f("liso!(bg = (c))", a, l);
    let a = liso!(y, bg = (c), y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(c); l.add_text(y); f("liso!(y, bg = (c), y)", a, l);
}
fn use_bg_call(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bg = same(c)); let mut l = p.clone(); l.set_bg_color(c); f("liso_add!(a, bg = same(c))", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c),); let mut l = p.clone(); l.set_bg_color(c); f("liso_add!(a, bg = same(c),)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = same(c)); let mut l = p.clone(); l.add_text(y); l.set_bg_color(c); f("liso_add!(a, y, bg = same(c))", a, l);
    let mut a = p.clone(); liso_add!(a, y, bg = same(c),, y,); let mut l = p.clone(); l.add_text(y); l.set_bg_color(c); l.add_text(y); f("liso_add!(a, y, bg = same(c),, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bg = same(c), y); let mut l = p.clone(); l.set_bg_color(c); l.add_text(y); f("liso_add!(a, , bg = same(c), y)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), reset); let mut l = p.clone(); l.set_bg_color(c); l.reset_all(); f("liso_add!(a, bg = same(c), reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), fg = red); let mut l = p.clone(); l.set_bg_color(c); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bg = same(c), fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), bg = none); let mut l = p.clone(); l.set_bg_color(c); l.set_bg_color(None); f("liso_add!(a, bg = same(c), bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), fg = c); let mut l = p.clone(); l.set_bg_color(c); l.set_fg_color(c); f("liso_add!(a, bg = same(c), fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), plain); let mut l = p.clone(); l.set_bg_color(c); l.set_style(Style::PLAIN); f("liso_add!(a, bg = same(c), plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), bold); let mut l = p.clone(); l.set_bg_color(c); l.set_style(Style::BOLD); f("liso_add!(a, bg = same(c), bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), +dim); let mut l = p.clone(); l.set_bg_color(c); l.activate_style(Style::DIM); f("liso_add!(a, bg = same(c), +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), -italic); let mut l = p.clone(); l.set_bg_color(c); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bg = same(c), -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), ^inverse); let mut l = p.clone(); l.set_bg_color(c); l.toggle_style(Style::INVERSE); f("liso_add!(a, bg = same(c), ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), ansi x); let mut l = p.clone(); l.set_bg_color(c); l.add_ansi_text(x); f("liso_add!(a, bg = same(c), ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bg = same(c), x); let mut l = p.clone(); l.set_bg_color(c); l.add_text(x); f("liso_add!(a, bg = same(c), x)", a, l);
    let a = liso!(bg = same(c)); let mut l = Line::new(); l.set_bg_color(c); f("liso!(bg = same(c))", a, l);
    let a = liso!(y, bg = same(c), y); let mut l = Line::new(); l.add_text(y); l.set_bg_color(c); l.add_text(y); f("liso!(y, bg = same(c), y)", a, l);
}
fn use_plain(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, plain); let mut l = p.clone(); l.set_style(Style::PLAIN); f("liso_add!(a, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, plain,); let mut l = p.clone(); l.set_style(Style::PLAIN); f("liso_add!(a, plain,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, plain); let mut l = p.clone(); l.add_text(y); l.set_style(Style::PLAIN); f("liso_add!(a, y, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, y, plain,, y,); let mut l = p.clone(); l.add_text(y); l.set_style(Style::PLAIN); l.add_text(y); f("liso_add!(a, y, plain,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , plain, y); let mut l = p.clone(); l.set_style(Style::PLAIN); l.add_text(y); f("liso_add!(a, , plain, y)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, reset); let mut l = p.clone(); l.set_style(Style::PLAIN); l.reset_all(); f("liso_add!(a, plain, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, fg = red); let mut l = p.clone(); l.set_style(Style::PLAIN); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, plain, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, bg = none); let mut l = p.clone(); l.set_style(Style::PLAIN); l.set_bg_color(None); f("liso_add!(a, plain, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, fg = c); let mut l = p.clone(); l.set_style(Style::PLAIN); l.set_fg_color(c); f("liso_add!(a, plain, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, plain); let mut l = p.clone(); l.set_style(Style::PLAIN); l.set_style(Style::PLAIN); f("liso_add!(a, plain, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, bold); let mut l = p.clone(); l.set_style(Style::PLAIN); l.set_style(Style::BOLD); f("liso_add!(a, plain, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, +dim); let mut l = p.clone(); l.set_style(Style::PLAIN); l.activate_style(Style::DIM); f("liso_add!(a, plain, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, -italic); let mut l = p.clone(); l.set_style(Style::PLAIN); l.deactivate_style(Style::ITALIC); f("liso_add!(a, plain, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, ^inverse); let mut l = p.clone(); l.set_style(Style::PLAIN); l.toggle_style(Style::INVERSE); f("liso_add!(a, plain, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, ansi x); let mut l = p.clone(); l.set_style(Style::PLAIN); l.add_ansi_text(x); f("liso_add!(a, plain, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, plain, x); let mut l = p.clone(); l.set_style(Style::PLAIN); l.add_text(x); f("liso_add!(a, plain, x)", a, l);
    let mut a = p.clone(); liso_add!(a, plain reset); let mut l = p.clone(); l.set_style(Style::PLAIN); l.reset_all(); f("liso_add!(a, plain reset)", a, l);
    let mut a = p.clone(); liso_add!(a, plain fg = red); let mut l = p.clone(); l.set_style(Style::PLAIN); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, plain fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, plain bg = none); let mut l = p.clone(); l.set_style(Style::PLAIN); l.set_bg_color(None); f("liso_add!(a, plain bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, plain fg = c); let mut l = p.clone(); l.set_style(Style::PLAIN); l.set_fg_color(c); f("liso_add!(a, plain fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, plain plain); let mut l = p.clone(); l.set_style(Style::PLAIN); l.set_style(Style::PLAIN); f("liso_add!(a, plain plain)", a, l);
    let mut a = p.clone(); liso_add!(a, plain bold); let mut l = p.clone(); l.set_style(Style::PLAIN); l.set_style(Style::BOLD); f("liso_add!(a, plain bold)", a, l);
    let mut a = p.clone(); liso_add!(a, plain +dim); let mut l = p.clone(); l.set_style(Style::PLAIN); l.activate_style(Style::DIM); f("liso_add!(a, plain +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, plain -italic); let mut l = p.clone(); l.set_style(Style::PLAIN); l.deactivate_style(Style::ITALIC); f("liso_add!(a, plain -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, plain ^inverse); let mut l = p.clone(); l.set_style(Style::PLAIN); l.toggle_style(Style::INVERSE); f("liso_add!(a, plain ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, plain ansi x); let mut l = p.clone(); l.set_style(Style::PLAIN); l.add_ansi_text(x); f("liso_add!(a, plain ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, plain x); let mut l = p.clone(); l.set_style(Style::PLAIN); l.add_text(x); f("liso_add!(a, plain x)", a, l);
    let a = liso!(plain); let mut l = Line::new(); l.set_style(Style::PLAIN); f("liso!(plain)", a, l);
    let a = liso!(y, plain, y); let mut l = Line::new(); l.add_text(y); l.set_style(Style::PLAIN); l.add_text(y); f("liso!(y, plain, y)", a, l);
}
fn use_bold(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, bold); let mut l = p.clone(); l.set_style(Style::BOLD); f("liso_add!(a, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bold,); let mut l = p.clone(); l.set_style(Style::BOLD); f("liso_add!(a, bold,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bold); let mut l = p.clone(); l.add_text(y); l.set_style(Style::BOLD); f("liso_add!(a, y, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, y, bold,, y,); let mut l = p.clone(); l.add_text(y); l.set_style(Style::BOLD); l.add_text(y); f("liso_add!(a, y, bold,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , bold, y); let mut l = p.clone(); l.set_style(Style::BOLD); l.add_text(y); f("liso_add!(a, , bold, y)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, reset); let mut l = p.clone(); l.set_style(Style::BOLD); l.reset_all(); f("liso_add!(a, bold, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, fg = red); let mut l = p.clone(); l.set_style(Style::BOLD); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bold, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, bg = none); let mut l = p.clone(); l.set_style(Style::BOLD); l.set_bg_color(None); f("liso_add!(a, bold, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, fg = c); let mut l = p.clone(); l.set_style(Style::BOLD); l.set_fg_color(c); f("liso_add!(a, bold, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, plain); let mut l = p.clone(); l.set_style(Style::BOLD); l.set_style(Style::PLAIN); f("liso_add!(a, bold, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, bold); let mut l = p.clone(); l.set_style(Style::BOLD); l.set_style(Style::BOLD); f("liso_add!(a, bold, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, +dim); let mut l = p.clone(); l.set_style(Style::BOLD); l.activate_style(Style::DIM); f("liso_add!(a, bold, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, -italic); let mut l = p.clone(); l.set_style(Style::BOLD); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bold, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, ^inverse); let mut l = p.clone(); l.set_style(Style::BOLD); l.toggle_style(Style::INVERSE); f("liso_add!(a, bold, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, ansi x); let mut l = p.clone(); l.set_style(Style::BOLD); l.add_ansi_text(x); f("liso_add!(a, bold, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bold, x); let mut l = p.clone(); l.set_style(Style::BOLD); l.add_text(x); f("liso_add!(a, bold, x)", a, l);
    let mut a = p.clone(); liso_add!(a, bold reset); let mut l = p.clone(); l.set_style(Style::BOLD); l.reset_all(); f("liso_add!(a, bold reset)", a, l);
    let mut a = p.clone(); liso_add!(a, bold fg = red); let mut l = p.clone(); l.set_style(Style::BOLD); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, bold fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, bold bg = none); let mut l = p.clone(); l.set_style(Style::BOLD); l.set_bg_color(None); f("liso_add!(a, bold bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, bold fg = c); let mut l = p.clone(); l.set_style(Style::BOLD); l.set_fg_color(c); f("liso_add!(a, bold fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, bold plain); let mut l = p.clone(); l.set_style(Style::BOLD); l.set_style(Style::PLAIN); f("liso_add!(a, bold plain)", a, l);
    let mut a = p.clone(); liso_add!(a, bold bold); let mut l = p.clone(); l.set_style(Style::BOLD); l.set_style(Style::BOLD); f("liso_add!(a, bold bold)", a, l);
    let mut a = p.clone(); liso_add!(a, bold +dim); let mut l = p.clone(); l.set_style(Style::BOLD); l.activate_style(Style::DIM); f("liso_add!(a, bold +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, bold -italic); let mut l = p.clone(); l.set_style(Style::BOLD); l.deactivate_style(Style::ITALIC); f("liso_add!(a, bold -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, bold ^inverse); let mut l = p.clone(); l.set_style(Style::BOLD); l.toggle_style(Style::INVERSE); f("liso_add!(a, bold ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, bold ansi x); let mut l = p.clone(); l.set_style(Style::BOLD); l.add_ansi_text(x); f("liso_add!(a, bold ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, bold x); let mut l = p.clone(); l.set_style(Style::BOLD); l.add_text(x); f("liso_add!(a, bold x)", a, l);
    let a = liso!(bold); let mut l = Line::new(); l.set_style(Style::BOLD); f("liso!(bold)", a, l);
    let a = liso!(y, bold, y); let mut l = Line::new(); l.add_text(y); l.set_style(Style::BOLD); l.add_text(y); f("liso!(y, bold, y)", a, l);
}
fn use_dim(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, dim); let mut l = p.clone(); l.set_style(Style::DIM); f("liso_add!(a, dim)", a, l);
    let mut a = p.clone(); liso_add!(a, dim,); let mut l = p.clone(); l.set_style(Style::DIM); f("liso_add!(a, dim,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, dim); let mut l = p.clone(); l.add_text(y); l.set_style(Style::DIM); f("liso_add!(a, y, dim)", a, l);
    let mut a = p.clone(); liso_add!(a, y, dim,, y,); let mut l = p.clone(); l.add_text(y); l.set_style(Style::DIM); l.add_text(y); f("liso_add!(a, y, dim,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , dim, y); let mut l = p.clone(); l.set_style(Style::DIM); l.add_text(y); f("liso_add!(a, , dim, y)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, reset); let mut l = p.clone(); l.set_style(Style::DIM); l.reset_all(); f("liso_add!(a, dim, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, fg = red); let mut l = p.clone(); l.set_style(Style::DIM); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, dim, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, bg = none); let mut l = p.clone(); l.set_style(Style::DIM); l.set_bg_color(None); f("liso_add!(a, dim, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, fg = c); let mut l = p.clone(); l.set_style(Style::DIM); l.set_fg_color(c); f("liso_add!(a, dim, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, plain); let mut l = p.clone(); l.set_style(Style::DIM); l.set_style(Style::PLAIN); f("liso_add!(a, dim, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, bold); let mut l = p.clone(); l.set_style(Style::DIM); l.set_style(Style::BOLD); f("liso_add!(a, dim, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, +dim); let mut l = p.clone(); l.set_style(Style::DIM); l.activate_style(Style::DIM); f("liso_add!(a, dim, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, -italic); let mut l = p.clone(); l.set_style(Style::DIM); l.deactivate_style(Style::ITALIC); f("liso_add!(a, dim, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, ^inverse); let mut l = p.clone(); l.set_style(Style::DIM); l.toggle_style(Style::INVERSE); f("liso_add!(a, dim, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, ansi x); let mut l = p.clone(); l.set_style(Style::DIM); l.add_ansi_text(x); f("liso_add!(a, dim, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, dim, x); let mut l = p.clone(); l.set_style(Style::DIM); l.add_text(x); f("liso_add!(a, dim, x)", a, l);
    let mut a = p.clone(); liso_add!(a, dim reset); let mut l = p.clone(); l.set_style(Style::DIM); l.reset_all(); f("liso_add!(a, dim reset)", a, l);
    let mut a = p.clone(); liso_add!(a, dim fg = red); let mut l = p.clone(); l.set_style(Style::DIM); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, dim fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, dim bg = none); let mut l = p.clone(); l.set_style(Style::DIM); l.set_bg_color(None); f("liso_add!(a, dim bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, dim fg = c); let mut l = p.clone(); l.set_style(Style::DIM); l.set_fg_color(c); f("liso_add!(a, dim fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, dim plain); let mut l = p.clone(); l.set_style(Style::DIM); l.set_style(Style::PLAIN); f("liso_add!(a, dim plain)", a, l);
    let mut a = p.clone(); liso_add!(a, dim bold); let mut l = p.clone(); l.set_style(Style::DIM); l.set_style(Style::BOLD); f("liso_add!(a, dim bold)", a, l);
    let mut a = p.clone(); liso_add!(a, dim +dim); let mut l = p.clone(); l.set_style(Style::DIM); l.activate_style(Style::DIM); f("liso_add!(a, dim +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, dim -italic); let mut l = p.clone(); l.set_style(Style::DIM); l.deactivate_style(Style::ITALIC); f("liso_add!(a, dim -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, dim ^inverse); let mut l = p.clone(); l.set_style(Style::DIM); l.toggle_style(Style::INVERSE); f("liso_add!(a, dim ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, dim ansi x); let mut l = p.clone(); l.set_style(Style::DIM); l.add_ansi_text(x); f("liso_add!(a, dim ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, dim x); let mut l = p.clone(); l.set_style(Style::DIM); l.add_text(x); f("liso_add!(a, dim x)", a, l);
    let a = liso!(dim); let mut l = Line::new(); l.set_style(Style::DIM); f("liso!(dim)", a, l);
    let a = liso!(y, dim, y); let mut l = Line::new(); l.add_text(y); l.set_style(Style::DIM); l.add_text(y); f("liso!(y, dim, y)", a, l);
}
fn use_underline(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, underline); let mut l = p.clone(); l.set_style(Style::UNDERLINE); f("liso_add!(a, underline)", a, l);
    let mut a = p.clone(); liso_add!(a, underline,); let mut l = p.clone(); l.set_style(Style::UNDERLINE); f("liso_add!(a, underline,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, underline); let mut l = p.clone(); l.add_text(y); l.set_style(Style::UNDERLINE); f("liso_add!(a, y, underline)", a, l);
    let mut a = p.clone(); liso_add!(a, y, underline,, y,); let mut l = p.clone(); l.add_text(y); l.set_style(Style::UNDERLINE); l.add_text(y); f("liso_add!(a, y, underline,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , underline, y); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.add_text(y); f("liso_add!(a, , underline, y)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, reset); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.reset_all(); f("liso_add!(a, underline, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, fg = red); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, underline, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, bg = none); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.set_bg_color(None); f("liso_add!(a, underline, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, fg = c); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.set_fg_color(c); f("liso_add!(a, underline, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, plain); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.set_style(Style::PLAIN); f("liso_add!(a, underline, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, bold); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.set_style(Style::BOLD); f("liso_add!(a, underline, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, +dim); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.activate_style(Style::DIM); f("liso_add!(a, underline, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, -italic); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, underline, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, ^inverse); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.toggle_style(Style::INVERSE); f("liso_add!(a, underline, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, ansi x); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.add_ansi_text(x); f("liso_add!(a, underline, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, underline, x); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.add_text(x); f("liso_add!(a, underline, x)", a, l);
    let mut a = p.clone(); liso_add!(a, underline reset); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.reset_all(); f("liso_add!(a, underline reset)", a, l);
    let mut a = p.clone(); liso_add!(a, underline fg = red); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, underline fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, underline bg = none); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.set_bg_color(None); f("liso_add!(a, underline bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, underline fg = c); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.set_fg_color(c); f("liso_add!(a, underline fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, underline plain); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.set_style(Style::PLAIN); f("liso_add!(a, underline plain)", a, l);
    let mut a = p.clone(); liso_add!(a, underline bold); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.set_style(Style::BOLD); f("liso_add!(a, underline bold)", a, l);
    let mut a = p.clone(); liso_add!(a, underline +dim); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.activate_style(Style::DIM); f("liso_add!(a, underline +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, underline -italic); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, underline -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, underline ^inverse); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.toggle_style(Style::INVERSE); f("liso_add!(a, underline ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, underline ansi x); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.add_ansi_text(x); f("liso_add!(a, underline ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, underline x); let mut l = p.clone(); l.set_style(Style::UNDERLINE); l.add_text(x); f("liso_add!(a, underline x)", a, l);
    let a = liso!(underline); let mut l = Line::new(); l.set_style(Style::UNDERLINE); f("liso!(underline)", a, l);
    let a = liso!(y, underline, y); let mut l = Line::new(); l.add_text(y); l.set_style(Style::UNDERLINE); l.add_text(y); f("liso!(y, underline, y)", a, l);
}
fn use_inverse(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, inverse); let mut l = p.clone(); l.set_style(Style::INVERSE); f("liso_add!(a, inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse,); let mut l = p.clone(); l.set_style(Style::INVERSE); f("liso_add!(a, inverse,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, inverse); let mut l = p.clone(); l.add_text(y); l.set_style(Style::INVERSE); f("liso_add!(a, y, inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, y, inverse,, y,); let mut l = p.clone(); l.add_text(y); l.set_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, y, inverse,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , inverse, y); let mut l = p.clone(); l.set_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, , inverse, y)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, reset); let mut l = p.clone(); l.set_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, inverse, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, fg = red); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, inverse, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, bg = none); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, inverse, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, fg = c); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, inverse, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, plain); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, inverse, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, bold); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, inverse, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, +dim); let mut l = p.clone(); l.set_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, inverse, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, -italic); let mut l = p.clone(); l.set_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, inverse, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, ^inverse); let mut l = p.clone(); l.set_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, inverse, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, ansi x); let mut l = p.clone(); l.set_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, inverse, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse, x); let mut l = p.clone(); l.set_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, inverse, x)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse reset); let mut l = p.clone(); l.set_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, inverse reset)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse fg = red); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, inverse fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse bg = none); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, inverse bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse fg = c); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, inverse fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse plain); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, inverse plain)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse bold); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, inverse bold)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse +dim); let mut l = p.clone(); l.set_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, inverse +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse -italic); let mut l = p.clone(); l.set_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, inverse -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse ^inverse); let mut l = p.clone(); l.set_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, inverse ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse ansi x); let mut l = p.clone(); l.set_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, inverse ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, inverse x); let mut l = p.clone(); l.set_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, inverse x)", a, l);
    let a = liso!(inverse); let mut l = Line::new(); l.set_style(Style::INVERSE); f("liso!(inverse)", a, l);
    let a = liso!(y, inverse, y); let mut l = Line::new(); l.add_text(y); l.set_style(Style::INVERSE); l.add_text(y); f("liso!(y, inverse, y)", a, l);
}
fn use_reverse(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, reverse); let mut l = p.clone(); l.set_style(Style::INVERSE); f("liso_add!(a, reverse)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse,); let mut l = p.clone(); l.set_style(Style::INVERSE); f("liso_add!(a, reverse,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, reverse); let mut l = p.clone(); l.add_text(y); l.set_style(Style::INVERSE); f("liso_add!(a, y, reverse)", a, l);
    let mut a = p.clone(); liso_add!(a, y, reverse,, y,); let mut l = p.clone(); l.add_text(y); l.set_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, y, reverse,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , reverse, y); let mut l = p.clone(); l.set_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, , reverse, y)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, reset); let mut l = p.clone(); l.set_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, reverse, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, fg = red); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, reverse, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, bg = none); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, reverse, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, fg = c); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, reverse, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, plain); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, reverse, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, bold); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, reverse, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, +dim); let mut l = p.clone(); l.set_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, reverse, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, -italic); let mut l = p.clone(); l.set_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, reverse, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, ^inverse); let mut l = p.clone(); l.set_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, reverse, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, ansi x); let mut l = p.clone(); l.set_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, reverse, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse, x); let mut l = p.clone(); l.set_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, reverse, x)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse reset); let mut l = p.clone(); l.set_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, reverse reset)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse fg = red); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, reverse fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse bg = none); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, reverse bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse fg = c); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, reverse fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse plain); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, reverse plain)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse bold); let mut l = p.clone(); l.set_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, reverse bold)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse +dim); let mut l = p.clone(); l.set_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, reverse +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse -italic); let mut l = p.clone(); l.set_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, reverse -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse ^inverse); let mut l = p.clone(); l.set_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, reverse ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse ansi x); let mut l = p.clone(); l.set_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, reverse ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, reverse x); let mut l = p.clone(); l.set_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, reverse x)", a, l);
    let a = liso!(reverse); let mut l = Line::new(); l.set_style(Style::INVERSE); f("liso!(reverse)", a, l);
    let a = liso!(y, reverse, y); let mut l = Line::new(); l.add_text(y); l.set_style(Style::INVERSE); l.add_text(y); f("liso!(y, reverse, y)", a, l);
}
fn use_italic(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, italic); let mut l = p.clone(); l.set_style(Style::ITALIC); f("liso_add!(a, italic)", a, l);
    let mut a = p.clone(); liso_add!(a, italic,); let mut l = p.clone(); l.set_style(Style::ITALIC); f("liso_add!(a, italic,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, italic); let mut l = p.clone(); l.add_text(y); l.set_style(Style::ITALIC); f("liso_add!(a, y, italic)", a, l);
    let mut a = p.clone(); liso_add!(a, y, italic,, y,); let mut l = p.clone(); l.add_text(y); l.set_style(Style::ITALIC); l.add_text(y); f("liso_add!(a, y, italic,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , italic, y); let mut l = p.clone(); l.set_style(Style::ITALIC); l.add_text(y); f("liso_add!(a, , italic, y)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, reset); let mut l = p.clone(); l.set_style(Style::ITALIC); l.reset_all(); f("liso_add!(a, italic, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, fg = red); let mut l = p.clone(); l.set_style(Style::ITALIC); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, italic, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, bg = none); let mut l = p.clone(); l.set_style(Style::ITALIC); l.set_bg_color(None); f("liso_add!(a, italic, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, fg = c); let mut l = p.clone(); l.set_style(Style::ITALIC); l.set_fg_color(c); f("liso_add!(a, italic, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, plain); let mut l = p.clone(); l.set_style(Style::ITALIC); l.set_style(Style::PLAIN); f("liso_add!(a, italic, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, bold); let mut l = p.clone(); l.set_style(Style::ITALIC); l.set_style(Style::BOLD); f("liso_add!(a, italic, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, +dim); let mut l = p.clone(); l.set_style(Style::ITALIC); l.activate_style(Style::DIM); f("liso_add!(a, italic, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, -italic); let mut l = p.clone(); l.set_style(Style::ITALIC); l.deactivate_style(Style::ITALIC); f("liso_add!(a, italic, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, ^inverse); let mut l = p.clone(); l.set_style(Style::ITALIC); l.toggle_style(Style::INVERSE); f("liso_add!(a, italic, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, ansi x); let mut l = p.clone(); l.set_style(Style::ITALIC); l.add_ansi_text(x); f("liso_add!(a, italic, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, italic, x); let mut l = p.clone(); l.set_style(Style::ITALIC); l.add_text(x); f("liso_add!(a, italic, x)", a, l);
    let mut a = p.clone(); liso_add!(a, italic reset); let mut l = p.clone(); l.set_style(Style::ITALIC); l.reset_all(); f("liso_add!(a, italic reset)", a, l);
    let mut a = p.clone(); liso_add!(a, italic fg = red); let mut l = p.clone(); l.set_style(Style::ITALIC); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, italic fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, italic bg = none); let mut l = p.clone(); l.set_style(Style::ITALIC); l.set_bg_color(None); f("liso_add!(a, italic bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, italic fg = c); let mut l = p.clone(); l.set_style(Style::ITALIC); l.set_fg_color(c); f("liso_add!(a, italic fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, italic plain); let mut l = p.clone(); l.set_style(Style::ITALIC); l.set_style(Style::PLAIN); f("liso_add!(a, italic plain)", a, l);
    let mut a = p.clone(); liso_add!(a, italic bold); let mut l = p.clone(); l.set_style(Style::ITALIC); l.set_style(Style::BOLD); f("liso_add!(a, italic bold)", a, l);
    let mut a = p.clone(); liso_add!(a, italic +dim); let mut l = p.clone(); l.set_style(Style::ITALIC); l.activate_style(Style::DIM); f("liso_add!(a, italic +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, italic -italic); let mut l = p.clone(); l.set_style(Style::ITALIC); l.deactivate_style(Style::ITALIC); f("liso_add!(a, italic -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, italic ^inverse); let mut l = p.clone(); l.set_style(Style::ITALIC); l.toggle_style(Style::INVERSE); f("liso_add!(a, italic ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, italic ansi x); let mut l = p.clone(); l.set_style(Style::ITALIC); l.add_ansi_text(x); f("liso_add!(a, italic ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, italic x); let mut l = p.clone(); l.set_style(Style::ITALIC); l.add_text(x); f("liso_add!(a, italic x)", a, l);
    let a = liso!(italic); let mut l = Line::new(); l.set_style(Style::ITALIC); f("liso!(italic)", a, l);
    let a = liso!(y, italic, y); let mut l = Line::new(); l.add_text(y); l.set_style(Style::ITALIC); l.add_text(y); f("liso!(y, italic, y)", a, l);
}
fn use_on_bold(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, +bold); let mut l = p.clone(); l.activate_style(Style::BOLD); f("liso_add!(a, +bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold,); let mut l = p.clone(); l.activate_style(Style::BOLD); f("liso_add!(a, +bold,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +bold); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::BOLD); f("liso_add!(a, y, +bold)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +bold,, y,); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::BOLD); l.add_text(y); f("liso_add!(a, y, +bold,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , +bold, y); let mut l = p.clone(); l.activate_style(Style::BOLD); l.add_text(y); f("liso_add!(a, , +bold, y)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, reset); let mut l = p.clone(); l.activate_style(Style::BOLD); l.reset_all(); f("liso_add!(a, +bold, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, fg = red); let mut l = p.clone(); l.activate_style(Style::BOLD); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +bold, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, bg = none); let mut l = p.clone(); l.activate_style(Style::BOLD); l.set_bg_color(None); f("liso_add!(a, +bold, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, fg = c); let mut l = p.clone(); l.activate_style(Style::BOLD); l.set_fg_color(c); f("liso_add!(a, +bold, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, plain); let mut l = p.clone(); l.activate_style(Style::BOLD); l.set_style(Style::PLAIN); f("liso_add!(a, +bold, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, bold); let mut l = p.clone(); l.activate_style(Style::BOLD); l.set_style(Style::BOLD); f("liso_add!(a, +bold, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, +dim); let mut l = p.clone(); l.activate_style(Style::BOLD); l.activate_style(Style::DIM); f("liso_add!(a, +bold, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, -italic); let mut l = p.clone(); l.activate_style(Style::BOLD); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +bold, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, ^inverse); let mut l = p.clone(); l.activate_style(Style::BOLD); l.toggle_style(Style::INVERSE); f("liso_add!(a, +bold, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, ansi x); let mut l = p.clone(); l.activate_style(Style::BOLD); l.add_ansi_text(x); f("liso_add!(a, +bold, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold, x); let mut l = p.clone(); l.activate_style(Style::BOLD); l.add_text(x); f("liso_add!(a, +bold, x)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold reset); let mut l = p.clone(); l.activate_style(Style::BOLD); l.reset_all(); f("liso_add!(a, +bold reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold fg = red); let mut l = p.clone(); l.activate_style(Style::BOLD); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +bold fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold bg = none); let mut l = p.clone(); l.activate_style(Style::BOLD); l.set_bg_color(None); f("liso_add!(a, +bold bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold fg = c); let mut l = p.clone(); l.activate_style(Style::BOLD); l.set_fg_color(c); f("liso_add!(a, +bold fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold plain); let mut l = p.clone(); l.activate_style(Style::BOLD); l.set_style(Style::PLAIN); f("liso_add!(a, +bold plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold bold); let mut l = p.clone(); l.activate_style(Style::BOLD); l.set_style(Style::BOLD); f("liso_add!(a, +bold bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold +dim); let mut l = p.clone(); l.activate_style(Style::BOLD); l.activate_style(Style::DIM); f("liso_add!(a, +bold +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold -italic); let mut l = p.clone(); l.activate_style(Style::BOLD); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +bold -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold ^inverse); let mut l = p.clone(); l.activate_style(Style::BOLD); l.toggle_style(Style::INVERSE); f("liso_add!(a, +bold ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold ansi x); let mut l = p.clone(); l.activate_style(Style::BOLD); l.add_ansi_text(x); f("liso_add!(a, +bold ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +bold x); let mut l = p.clone(); l.activate_style(Style::BOLD); l.add_text(x); f("liso_add!(a, +bold x)", a, l);
    let a = liso!(+bold); let mut l = Line::new(); l.activate_style(Style::BOLD); f("liso!(+bold)", a, l);
    let a = liso!(y, +bold, y); let mut l = Line::new(); l.add_text(y); l.activate_style(Style::BOLD); l.add_text(y); f("liso!(y, +bold, y)", a, l);
}
fn use_on_dim(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, +dim); let mut l = p.clone(); l.activate_style(Style::DIM); f("liso_add!(a, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim,); let mut l = p.clone(); l.activate_style(Style::DIM); f("liso_add!(a, +dim,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +dim); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::DIM); f("liso_add!(a, y, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +dim,, y,); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::DIM); l.add_text(y); f("liso_add!(a, y, +dim,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , +dim, y); let mut l = p.clone(); l.activate_style(Style::DIM); l.add_text(y); f("liso_add!(a, , +dim, y)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, reset); let mut l = p.clone(); l.activate_style(Style::DIM); l.reset_all(); f("liso_add!(a, +dim, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, fg = red); let mut l = p.clone(); l.activate_style(Style::DIM); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +dim, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, bg = none); let mut l = p.clone(); l.activate_style(Style::DIM); l.set_bg_color(None); f("liso_add!(a, +dim, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, fg = c); let mut l = p.clone(); l.activate_style(Style::DIM); l.set_fg_color(c); f("liso_add!(a, +dim, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, plain); let mut l = p.clone(); l.activate_style(Style::DIM); l.set_style(Style::PLAIN); f("liso_add!(a, +dim, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, bold); let mut l = p.clone(); l.activate_style(Style::DIM); l.set_style(Style::BOLD); f("liso_add!(a, +dim, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, +dim); let mut l = p.clone(); l.activate_style(Style::DIM); l.activate_style(Style::DIM); f("liso_add!(a, +dim, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, -italic); let mut l = p.clone(); l.activate_style(Style::DIM); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +dim, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, ^inverse); let mut l = p.clone(); l.activate_style(Style::DIM); l.toggle_style(Style::INVERSE); f("liso_add!(a, +dim, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, ansi x); let mut l = p.clone(); l.activate_style(Style::DIM); l.add_ansi_text(x); f("liso_add!(a, +dim, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim, x); let mut l = p.clone(); l.activate_style(Style::DIM); l.add_text(x); f("liso_add!(a, +dim, x)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim reset); let mut l = p.clone(); l.activate_style(Style::DIM); l.reset_all(); f("liso_add!(a, +dim reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim fg = red); let mut l = p.clone(); l.activate_style(Style::DIM); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +dim fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim bg = none); let mut l = p.clone(); l.activate_style(Style::DIM); l.set_bg_color(None); f("liso_add!(a, +dim bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim fg = c); let mut l = p.clone(); l.activate_style(Style::DIM); l.set_fg_color(c); f("liso_add!(a, +dim fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim plain); let mut l = p.clone(); l.activate_style(Style::DIM); l.set_style(Style::PLAIN); f("liso_add!(a, +dim plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim bold); let mut l = p.clone(); l.activate_style(Style::DIM); l.set_style(Style::BOLD); f("liso_add!(a, +dim bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim +dim); let mut l = p.clone(); l.activate_style(Style::DIM); l.activate_style(Style::DIM); f("liso_add!(a, +dim +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim -italic); let mut l = p.clone(); l.activate_style(Style::DIM); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +dim -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim ^inverse); let mut l = p.clone(); l.activate_style(Style::DIM); l.toggle_style(Style::INVERSE); f("liso_add!(a, +dim ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim ansi x); let mut l = p.clone(); l.activate_style(Style::DIM); l.add_ansi_text(x); f("liso_add!(a, +dim ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +dim x); let mut l = p.clone(); l.activate_style(Style::DIM); l.add_text(x); f("liso_add!(a, +dim x)", a, l);
    let a = liso!(+dim); let mut l = Line::new(); l.activate_style(Style::DIM); f("liso!(+dim)", a, l);
    let a = liso!(y, +dim, y); let mut l = Line::new(); l.add_text(y); l.activate_style(Style::DIM); l.add_text(y); f("liso!(y, +dim, y)", a, l);
}
fn use_on_underline(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, +underline); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); f("liso_add!(a, +underline)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline,); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); f("liso_add!(a, +underline,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +underline); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::UNDERLINE); f("liso_add!(a, y, +underline)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +underline,, y,); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::UNDERLINE); l.add_text(y); f("liso_add!(a, y, +underline,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , +underline, y); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.add_text(y); f("liso_add!(a, , +underline, y)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, reset); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.reset_all(); f("liso_add!(a, +underline, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, fg = red); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +underline, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, bg = none); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.set_bg_color(None); f("liso_add!(a, +underline, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, fg = c); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.set_fg_color(c); f("liso_add!(a, +underline, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, plain); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.set_style(Style::PLAIN); f("liso_add!(a, +underline, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, bold); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.set_style(Style::BOLD); f("liso_add!(a, +underline, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, +dim); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.activate_style(Style::DIM); f("liso_add!(a, +underline, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, -italic); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +underline, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, ^inverse); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.toggle_style(Style::INVERSE); f("liso_add!(a, +underline, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, ansi x); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.add_ansi_text(x); f("liso_add!(a, +underline, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline, x); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.add_text(x); f("liso_add!(a, +underline, x)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline reset); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.reset_all(); f("liso_add!(a, +underline reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline fg = red); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +underline fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline bg = none); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.set_bg_color(None); f("liso_add!(a, +underline bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline fg = c); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.set_fg_color(c); f("liso_add!(a, +underline fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline plain); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.set_style(Style::PLAIN); f("liso_add!(a, +underline plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline bold); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.set_style(Style::BOLD); f("liso_add!(a, +underline bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline +dim); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.activate_style(Style::DIM); f("liso_add!(a, +underline +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline -italic); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +underline -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline ^inverse); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.toggle_style(Style::INVERSE); f("liso_add!(a, +underline ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline ansi x); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.add_ansi_text(x); f("liso_add!(a, +underline ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +underline x); let mut l = p.clone(); l.activate_style(Style::UNDERLINE); l.add_text(x); f("liso_add!(a, +underline x)", a, l);
    let a = liso!(+underline); let mut l = Line::new(); l.activate_style(Style::UNDERLINE); f("liso!(+underline)", a, l);
    let a = liso!(y, +underline, y); let mut l = Line::new(); l.add_text(y); l.activate_style(Style::UNDERLINE); l.add_text(y); f("liso!(y, +underline, y)", a, l);
}
fn use_on_inverse(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, +inverse); let mut l = p.clone(); l.activate_style(Style::INVERSE); f("liso_add!(a, +inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse,); let mut l = p.clone(); l.activate_style(Style::INVERSE); f("liso_add!(a, +inverse,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +inverse); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::INVERSE); f("liso_add!(a, y, +inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +inverse,, y,); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, y, +inverse,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , +inverse, y); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, , +inverse, y)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, reset); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, +inverse, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, fg = red); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +inverse, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, bg = none); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, +inverse, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, fg = c); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, +inverse, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, plain); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, +inverse, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, bold); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, +inverse, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, +dim); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, +inverse, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, -italic); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +inverse, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, ^inverse); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, +inverse, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, ansi x); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, +inverse, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse, x); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, +inverse, x)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse reset); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, +inverse reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse fg = red); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +inverse fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse bg = none); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, +inverse bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse fg = c); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, +inverse fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse plain); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, +inverse plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse bold); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, +inverse bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse +dim); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, +inverse +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse -italic); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +inverse -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse ^inverse); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, +inverse ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse ansi x); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, +inverse ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +inverse x); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, +inverse x)", a, l);
    let a = liso!(+inverse); let mut l = Line::new(); l.activate_style(Style::INVERSE); f("liso!(+inverse)", a, l);
    let a = liso!(y, +inverse, y); let mut l = Line::new(); l.add_text(y); l.activate_style(Style::INVERSE); l.add_text(y); f("liso!(y, +inverse, y)", a, l);
}
fn use_on_reverse(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, +reverse); let mut l = p.clone(); l.activate_style(Style::INVERSE); f("liso_add!(a, +reverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse,); let mut l = p.clone(); l.activate_style(Style::INVERSE); f("liso_add!(a, +reverse,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +reverse); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::INVERSE); f("liso_add!(a, y, +reverse)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +reverse,, y,); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, y, +reverse,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , +reverse, y); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, , +reverse, y)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, reset); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, +reverse, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, fg = red); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +reverse, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, bg = none); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, +reverse, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, fg = c); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, +reverse, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, plain); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, +reverse, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, bold); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, +reverse, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, +dim); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, +reverse, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, -italic); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +reverse, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, ^inverse); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, +reverse, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, ansi x); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, +reverse, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse, x); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, +reverse, x)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse reset); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, +reverse reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse fg = red); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +reverse fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse bg = none); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, +reverse bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse fg = c); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, +reverse fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse plain); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, +reverse plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse bold); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, +reverse bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse +dim); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, +reverse +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse -italic); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +reverse -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse ^inverse); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, +reverse ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse ansi x); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, +reverse ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +reverse x); let mut l = p.clone(); l.activate_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, +reverse x)", a, l);
    let a = liso!(+reverse); let mut l = Line::new(); l.activate_style(Style::INVERSE); f("liso!(+reverse)", a, l);
    let a = liso!(y, +reverse, y); let mut l = Line::new(); l.add_text(y); l.activate_style(Style::INVERSE); l.add_text(y); f("liso!(y, +reverse, y)", a, l);
}
fn use_on_italic(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, +italic); let mut l = p.clone(); l.activate_style(Style::ITALIC); f("liso_add!(a, +italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic,); let mut l = p.clone(); l.activate_style(Style::ITALIC); f("liso_add!(a, +italic,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +italic); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::ITALIC); f("liso_add!(a, y, +italic)", a, l);
    let mut a = p.clone(); liso_add!(a, y, +italic,, y,); let mut l = p.clone(); l.add_text(y); l.activate_style(Style::ITALIC); l.add_text(y); f("liso_add!(a, y, +italic,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , +italic, y); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.add_text(y); f("liso_add!(a, , +italic, y)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, reset); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.reset_all(); f("liso_add!(a, +italic, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, fg = red); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +italic, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, bg = none); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.set_bg_color(None); f("liso_add!(a, +italic, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, fg = c); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.set_fg_color(c); f("liso_add!(a, +italic, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, plain); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.set_style(Style::PLAIN); f("liso_add!(a, +italic, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, bold); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.set_style(Style::BOLD); f("liso_add!(a, +italic, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, +dim); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.activate_style(Style::DIM); f("liso_add!(a, +italic, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, -italic); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +italic, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, ^inverse); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.toggle_style(Style::INVERSE); f("liso_add!(a, +italic, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, ansi x); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.add_ansi_text(x); f("liso_add!(a, +italic, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic, x); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.add_text(x); f("liso_add!(a, +italic, x)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic reset); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.reset_all(); f("liso_add!(a, +italic reset)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic fg = red); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, +italic fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic bg = none); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.set_bg_color(None); f("liso_add!(a, +italic bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic fg = c); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.set_fg_color(c); f("liso_add!(a, +italic fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic plain); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.set_style(Style::PLAIN); f("liso_add!(a, +italic plain)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic bold); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.set_style(Style::BOLD); f("liso_add!(a, +italic bold)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic +dim); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.activate_style(Style::DIM); f("liso_add!(a, +italic +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic -italic); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.deactivate_style(Style::ITALIC); f("liso_add!(a, +italic -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic ^inverse); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.toggle_style(Style::INVERSE); f("liso_add!(a, +italic ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic ansi x); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.add_ansi_text(x); f("liso_add!(a, +italic ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, +italic x); let mut l = p.clone(); l.activate_style(Style::ITALIC); l.add_text(x); f("liso_add!(a, +italic x)", a, l);
    let a = liso!(+italic); let mut l = Line::new(); l.activate_style(Style::ITALIC); f("liso!(+italic)", a, l);
    let a = liso!(y, +italic, y); let mut l = Line::new(); l.add_text(y); l.activate_style(Style::ITALIC); l.add_text(y); f("liso!(y, +italic, y)", a, l);
}
fn use_off_bold(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, -bold); let mut l = p.clone(); l.deactivate_style(Style::BOLD); f("liso_add!(a, -bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold,); let mut l = p.clone(); l.deactivate_style(Style::BOLD); f("liso_add!(a, -bold,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -bold); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::BOLD); f("liso_add!(a, y, -bold)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -bold,, y,); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::BOLD); l.add_text(y); f("liso_add!(a, y, -bold,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , -bold, y); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.add_text(y); f("liso_add!(a, , -bold, y)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, reset); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.reset_all(); f("liso_add!(a, -bold, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, fg = red); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -bold, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, bg = none); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.set_bg_color(None); f("liso_add!(a, -bold, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, fg = c); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.set_fg_color(c); f("liso_add!(a, -bold, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, plain); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.set_style(Style::PLAIN); f("liso_add!(a, -bold, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, bold); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.set_style(Style::BOLD); f("liso_add!(a, -bold, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, +dim); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.activate_style(Style::DIM); f("liso_add!(a, -bold, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, -italic); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -bold, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, ^inverse); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.toggle_style(Style::INVERSE); f("liso_add!(a, -bold, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, ansi x); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.add_ansi_text(x); f("liso_add!(a, -bold, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold, x); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.add_text(x); f("liso_add!(a, -bold, x)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold reset); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.reset_all(); f("liso_add!(a, -bold reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold fg = red); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -bold fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold bg = none); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.set_bg_color(None); f("liso_add!(a, -bold bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold fg = c); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.set_fg_color(c); f("liso_add!(a, -bold fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold plain); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.set_style(Style::PLAIN); f("liso_add!(a, -bold plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold bold); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.set_style(Style::BOLD); f("liso_add!(a, -bold bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold +dim); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.activate_style(Style::DIM); f("liso_add!(a, -bold +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold -italic); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -bold -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold ^inverse); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.toggle_style(Style::INVERSE); f("liso_add!(a, -bold ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold ansi x); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.add_ansi_text(x); f("liso_add!(a, -bold ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -bold x); let mut l = p.clone(); l.deactivate_style(Style::BOLD); l.add_text(x); f("liso_add!(a, -bold x)", a, l);
    let a = liso!(-bold); let mut l = Line::new(); l.deactivate_style(Style::BOLD); f("liso!(-bold)", a, l);
    let a = liso!(y, -bold, y); let mut l = Line::new(); l.add_text(y); l.deactivate_style(Style::BOLD); l.add_text(y); f("liso!(y, -bold, y)", a, l);
}
fn use_off_dim(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, -dim); let mut l = p.clone(); l.deactivate_style(Style::DIM); f("liso_add!(a, -dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim,); let mut l = p.clone(); l.deactivate_style(Style::DIM); f("liso_add!(a, -dim,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -dim); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::DIM); f("liso_add!(a, y, -dim)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -dim,, y,); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::DIM); l.add_text(y); f("liso_add!(a, y, -dim,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , -dim, y); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.add_text(y); f("liso_add!(a, , -dim, y)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, reset); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.reset_all(); f("liso_add!(a, -dim, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, fg = red); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -dim, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, bg = none); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.set_bg_color(None); f("liso_add!(a, -dim, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, fg = c); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.set_fg_color(c); f("liso_add!(a, -dim, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, plain); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.set_style(Style::PLAIN); f("liso_add!(a, -dim, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, bold); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.set_style(Style::BOLD); f("liso_add!(a, -dim, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, +dim); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.activate_style(Style::DIM); f("liso_add!(a, -dim, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, -italic); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -dim, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, ^inverse); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.toggle_style(Style::INVERSE); f("liso_add!(a, -dim, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, ansi x); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.add_ansi_text(x); f("liso_add!(a, -dim, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim, x); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.add_text(x); f("liso_add!(a, -dim, x)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim reset); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.reset_all(); f("liso_add!(a, -dim reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim fg = red); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -dim fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim bg = none); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.set_bg_color(None); f("liso_add!(a, -dim bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim fg = c); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.set_fg_color(c); f("liso_add!(a, -dim fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim plain); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.set_style(Style::PLAIN); f("liso_add!(a, -dim plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim bold); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.set_style(Style::BOLD); f("liso_add!(a, -dim bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim +dim); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.activate_style(Style::DIM); f("liso_add!(a, -dim +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim -italic); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -dim -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim ^inverse); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.toggle_style(Style::INVERSE); f("liso_add!(a, -dim ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim ansi x); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.add_ansi_text(x); f("liso_add!(a, -dim ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -dim x); let mut l = p.clone(); l.deactivate_style(Style::DIM); l.add_text(x); f("liso_add!(a, -dim x)", a, l);
    let a = liso!(-dim); let mut l = Line::new(); l.deactivate_style(Style::DIM); f("liso!(-dim)", a, l);
    let a = liso!(y, -dim, y); let mut l = Line::new(); l.add_text(y); l.deactivate_style(Style::DIM); l.add_text(y); f("liso!(y, -dim, y)", a, l);
}
fn use_off_underline(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, -underline); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); f("liso_add!(a, -underline)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline,); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); f("liso_add!(a, -underline,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -underline); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::UNDERLINE); f("liso_add!(a, y, -underline)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -underline,, y,); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::UNDERLINE); l.add_text(y); f("liso_add!(a, y, -underline,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , -underline, y); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.add_text(y); f("liso_add!(a, , -underline, y)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, reset); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.reset_all(); f("liso_add!(a, -underline, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, fg = red); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -underline, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, bg = none); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.set_bg_color(None); f("liso_add!(a, -underline, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, fg = c); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.set_fg_color(c); f("liso_add!(a, -underline, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, plain); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.set_style(Style::PLAIN); f("liso_add!(a, -underline, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, bold); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.set_style(Style::BOLD); f("liso_add!(a, -underline, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, +dim); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.activate_style(Style::DIM); f("liso_add!(a, -underline, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, -italic); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -underline, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, ^inverse); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.toggle_style(Style::INVERSE); f("liso_add!(a, -underline, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, ansi x); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.add_ansi_text(x); f("liso_add!(a, -underline, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline, x); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.add_text(x); f("liso_add!(a, -underline, x)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline reset); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.reset_all(); f("liso_add!(a, -underline reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline fg = red); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -underline fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline bg = none); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.set_bg_color(None); f("liso_add!(a, -underline bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline fg = c); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.set_fg_color(c); f("liso_add!(a, -underline fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline plain); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.set_style(Style::PLAIN); f("liso_add!(a, -underline plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline bold); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.set_style(Style::BOLD); f("liso_add!(a, -underline bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline +dim); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.activate_style(Style::DIM); f("liso_add!(a, -underline +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline -italic); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -underline -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline ^inverse); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.toggle_style(Style::INVERSE); f("liso_add!(a, -underline ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline ansi x); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.add_ansi_text(x); f("liso_add!(a, -underline ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -underline x); let mut l = p.clone(); l.deactivate_style(Style::UNDERLINE); l.add_text(x); f("liso_add!(a, -underline x)", a, l);
    let a = liso!(-underline); let mut l = Line::new(); l.deactivate_style(Style::UNDERLINE); f("liso!(-underline)", a, l);
    let a = liso!(y, -underline, y); let mut l = Line::new(); l.add_text(y); l.deactivate_style(Style::UNDERLINE); l.add_text(y); f("liso!(y, -underline, y)", a, l);
}
fn use_off_inverse(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, -inverse); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); f("liso_add!(a, -inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse,); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); f("liso_add!(a, -inverse,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -inverse); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::INVERSE); f("liso_add!(a, y, -inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -inverse,, y,); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, y, -inverse,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , -inverse, y); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, , -inverse, y)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, reset); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, -inverse, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, fg = red); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -inverse, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, bg = none); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, -inverse, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, fg = c); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, -inverse, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, plain); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, -inverse, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, bold); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, -inverse, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, +dim); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, -inverse, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, -italic); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -inverse, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, ^inverse); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, -inverse, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, ansi x); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, -inverse, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse, x); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, -inverse, x)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse reset); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, -inverse reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse fg = red); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -inverse fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse bg = none); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, -inverse bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse fg = c); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, -inverse fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse plain); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, -inverse plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse bold); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, -inverse bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse +dim); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, -inverse +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse -italic); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -inverse -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse ^inverse); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, -inverse ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse ansi x); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, -inverse ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -inverse x); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, -inverse x)", a, l);
    let a = liso!(-inverse); let mut l = Line::new(); l.deactivate_style(Style::INVERSE); f("liso!(-inverse)", a, l);
    let a = liso!(y, -inverse, y); let mut l = Line::new(); l.add_text(y); l.deactivate_style(Style::INVERSE); l.add_text(y); f("liso!(y, -inverse, y)", a, l);
}
fn use_off_reverse(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, -reverse); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); f("liso_add!(a, -reverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse,); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); f("liso_add!(a, -reverse,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -reverse); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::INVERSE); f("liso_add!(a, y, -reverse)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -reverse,, y,); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, y, -reverse,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , -reverse, y); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, , -reverse, y)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, reset); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, -reverse, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, fg = red); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -reverse, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, bg = none); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, -reverse, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, fg = c); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, -reverse, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, plain); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, -reverse, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, bold); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, -reverse, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, +dim); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, -reverse, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, -italic); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -reverse, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, ^inverse); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, -reverse, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, ansi x); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, -reverse, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse, x); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, -reverse, x)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse reset); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, -reverse reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse fg = red); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -reverse fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse bg = none); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, -reverse bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse fg = c); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, -reverse fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse plain); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, -reverse plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse bold); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, -reverse bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse +dim); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, -reverse +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse -italic); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -reverse -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse ^inverse); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, -reverse ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse ansi x); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, -reverse ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -reverse x); let mut l = p.clone(); l.deactivate_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, -reverse x)", a, l);
    let a = liso!(-reverse); let mut l = Line::new(); l.deactivate_style(Style::INVERSE); f("liso!(-reverse)", a, l);
    let a = liso!(y, -reverse, y); let mut l = Line::new(); l.add_text(y); l.deactivate_style(Style::INVERSE); l.add_text(y); f("liso!(y, -reverse, y)", a, l);
}
fn use_off_italic(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, -italic); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic,); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -italic,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -italic); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::ITALIC); f("liso_add!(a, y, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, y, -italic,, y,); let mut l = p.clone(); l.add_text(y); l.deactivate_style(Style::ITALIC); l.add_text(y); f("liso_add!(a, y, -italic,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , -italic, y); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.add_text(y); f("liso_add!(a, , -italic, y)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, reset); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.reset_all(); f("liso_add!(a, -italic, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, fg = red); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -italic, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, bg = none); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.set_bg_color(None); f("liso_add!(a, -italic, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, fg = c); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.set_fg_color(c); f("liso_add!(a, -italic, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, plain); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.set_style(Style::PLAIN); f("liso_add!(a, -italic, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, bold); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.set_style(Style::BOLD); f("liso_add!(a, -italic, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, +dim); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.activate_style(Style::DIM); f("liso_add!(a, -italic, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, -italic); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -italic, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, ^inverse); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.toggle_style(Style::INVERSE); f("liso_add!(a, -italic, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, ansi x); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.add_ansi_text(x); f("liso_add!(a, -italic, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic, x); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.add_text(x); f("liso_add!(a, -italic, x)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic reset); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.reset_all(); f("liso_add!(a, -italic reset)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic fg = red); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, -italic fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic bg = none); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.set_bg_color(None); f("liso_add!(a, -italic bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic fg = c); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.set_fg_color(c); f("liso_add!(a, -italic fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic plain); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.set_style(Style::PLAIN); f("liso_add!(a, -italic plain)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic bold); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.set_style(Style::BOLD); f("liso_add!(a, -italic bold)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic +dim); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.activate_style(Style::DIM); f("liso_add!(a, -italic +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic -italic); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.deactivate_style(Style::ITALIC); f("liso_add!(a, -italic -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic ^inverse); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.toggle_style(Style::INVERSE); f("liso_add!(a, -italic ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic ansi x); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.add_ansi_text(x); f("liso_add!(a, -italic ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, -italic x); let mut l = p.clone(); l.deactivate_style(Style::ITALIC); l.add_text(x); f("liso_add!(a, -italic x)", a, l);
    let a = liso!(-italic); let mut l = Line::new(); l.deactivate_style(Style::ITALIC); f("liso!(-italic)", a, l);
    let a = liso!(y, -italic, y); let mut l = Line::new(); l.add_text(y); l.deactivate_style(Style::ITALIC); l.add_text(y); f("liso!(y, -italic, y)", a, l);
}
fn use_toggle_bold(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, ^bold); let mut l = p.clone(); l.toggle_style(Style::BOLD); f("liso_add!(a, ^bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold,); let mut l = p.clone(); l.toggle_style(Style::BOLD); f("liso_add!(a, ^bold,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^bold); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::BOLD); f("liso_add!(a, y, ^bold)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^bold,, y,); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::BOLD); l.add_text(y); f("liso_add!(a, y, ^bold,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , ^bold, y); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.add_text(y); f("liso_add!(a, , ^bold, y)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, reset); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.reset_all(); f("liso_add!(a, ^bold, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, fg = red); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^bold, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, bg = none); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.set_bg_color(None); f("liso_add!(a, ^bold, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, fg = c); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.set_fg_color(c); f("liso_add!(a, ^bold, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, plain); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.set_style(Style::PLAIN); f("liso_add!(a, ^bold, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, bold); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.set_style(Style::BOLD); f("liso_add!(a, ^bold, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, +dim); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.activate_style(Style::DIM); f("liso_add!(a, ^bold, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, -italic); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^bold, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, ^inverse); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^bold, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, ansi x); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.add_ansi_text(x); f("liso_add!(a, ^bold, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold, x); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.add_text(x); f("liso_add!(a, ^bold, x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold reset); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.reset_all(); f("liso_add!(a, ^bold reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold fg = red); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^bold fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold bg = none); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.set_bg_color(None); f("liso_add!(a, ^bold bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold fg = c); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.set_fg_color(c); f("liso_add!(a, ^bold fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold plain); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.set_style(Style::PLAIN); f("liso_add!(a, ^bold plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold bold); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.set_style(Style::BOLD); f("liso_add!(a, ^bold bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold +dim); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.activate_style(Style::DIM); f("liso_add!(a, ^bold +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold -italic); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^bold -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold ^inverse); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^bold ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold ansi x); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.add_ansi_text(x); f("liso_add!(a, ^bold ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^bold x); let mut l = p.clone(); l.toggle_style(Style::BOLD); l.add_text(x); f("liso_add!(a, ^bold x)", a, l);
    let a = liso!(^bold); let mut l = Line::new(); l.toggle_style(Style::BOLD); f("liso!(^bold)", a, l);
    let a = liso!(y, ^bold, y); let mut l = Line::new(); l.add_text(y); l.toggle_style(Style::BOLD); l.add_text(y); f("liso!(y, ^bold, y)", a, l);
}
fn use_toggle_dim(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, ^dim); let mut l = p.clone(); l.toggle_style(Style::DIM); f("liso_add!(a, ^dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim,); let mut l = p.clone(); l.toggle_style(Style::DIM); f("liso_add!(a, ^dim,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^dim); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::DIM); f("liso_add!(a, y, ^dim)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^dim,, y,); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::DIM); l.add_text(y); f("liso_add!(a, y, ^dim,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , ^dim, y); let mut l = p.clone(); l.toggle_style(Style::DIM); l.add_text(y); f("liso_add!(a, , ^dim, y)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, reset); let mut l = p.clone(); l.toggle_style(Style::DIM); l.reset_all(); f("liso_add!(a, ^dim, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, fg = red); let mut l = p.clone(); l.toggle_style(Style::DIM); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^dim, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, bg = none); let mut l = p.clone(); l.toggle_style(Style::DIM); l.set_bg_color(None); f("liso_add!(a, ^dim, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, fg = c); let mut l = p.clone(); l.toggle_style(Style::DIM); l.set_fg_color(c); f("liso_add!(a, ^dim, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, plain); let mut l = p.clone(); l.toggle_style(Style::DIM); l.set_style(Style::PLAIN); f("liso_add!(a, ^dim, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, bold); let mut l = p.clone(); l.toggle_style(Style::DIM); l.set_style(Style::BOLD); f("liso_add!(a, ^dim, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, +dim); let mut l = p.clone(); l.toggle_style(Style::DIM); l.activate_style(Style::DIM); f("liso_add!(a, ^dim, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, -italic); let mut l = p.clone(); l.toggle_style(Style::DIM); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^dim, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, ^inverse); let mut l = p.clone(); l.toggle_style(Style::DIM); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^dim, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, ansi x); let mut l = p.clone(); l.toggle_style(Style::DIM); l.add_ansi_text(x); f("liso_add!(a, ^dim, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim, x); let mut l = p.clone(); l.toggle_style(Style::DIM); l.add_text(x); f("liso_add!(a, ^dim, x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim reset); let mut l = p.clone(); l.toggle_style(Style::DIM); l.reset_all(); f("liso_add!(a, ^dim reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim fg = red); let mut l = p.clone(); l.toggle_style(Style::DIM); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^dim fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim bg = none); let mut l = p.clone(); l.toggle_style(Style::DIM); l.set_bg_color(None); f("liso_add!(a, ^dim bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim fg = c); let mut l = p.clone(); l.toggle_style(Style::DIM); l.set_fg_color(c); f("liso_add!(a, ^dim fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim plain); let mut l = p.clone(); l.toggle_style(Style::DIM); l.set_style(Style::PLAIN); f("liso_add!(a, ^dim plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim bold); let mut l = p.clone(); l.toggle_style(Style::DIM); l.set_style(Style::BOLD); f("liso_add!(a, ^dim bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim +dim); let mut l = p.clone(); l.toggle_style(Style::DIM); l.activate_style(Style::DIM); f("liso_add!(a, ^dim +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim -italic); let mut l = p.clone(); l.toggle_style(Style::DIM); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^dim -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim ^inverse); let mut l = p.clone(); l.toggle_style(Style::DIM); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^dim ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim ansi x); let mut l = p.clone(); l.toggle_style(Style::DIM); l.add_ansi_text(x); f("liso_add!(a, ^dim ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^dim x); let mut l = p.clone(); l.toggle_style(Style::DIM); l.add_text(x); f("liso_add!(a, ^dim x)", a, l);
    let a = liso!(^dim); let mut l = Line::new(); l.toggle_style(Style::DIM); f("liso!(^dim)", a, l);
    let a = liso!(y, ^dim, y); let mut l = Line::new(); l.add_text(y); l.toggle_style(Style::DIM); l.add_text(y); f("liso!(y, ^dim, y)", a, l);
}
fn use_toggle_underline(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, ^underline); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); f("liso_add!(a, ^underline)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline,); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); f("liso_add!(a, ^underline,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^underline); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::UNDERLINE); f("liso_add!(a, y, ^underline)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^underline,, y,); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::UNDERLINE); l.add_text(y); f("liso_add!(a, y, ^underline,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , ^underline, y); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.add_text(y); f("liso_add!(a, , ^underline, y)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, reset); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.reset_all(); f("liso_add!(a, ^underline, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, fg = red); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^underline, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, bg = none); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.set_bg_color(None); f("liso_add!(a, ^underline, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, fg = c); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.set_fg_color(c); f("liso_add!(a, ^underline, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, plain); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.set_style(Style::PLAIN); f("liso_add!(a, ^underline, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, bold); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.set_style(Style::BOLD); f("liso_add!(a, ^underline, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, +dim); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.activate_style(Style::DIM); f("liso_add!(a, ^underline, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, -italic); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^underline, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, ^inverse); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^underline, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, ansi x); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.add_ansi_text(x); f("liso_add!(a, ^underline, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline, x); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.add_text(x); f("liso_add!(a, ^underline, x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline reset); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.reset_all(); f("liso_add!(a, ^underline reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline fg = red); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^underline fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline bg = none); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.set_bg_color(None); f("liso_add!(a, ^underline bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline fg = c); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.set_fg_color(c); f("liso_add!(a, ^underline fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline plain); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.set_style(Style::PLAIN); f("liso_add!(a, ^underline plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline bold); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.set_style(Style::BOLD); f("liso_add!(a, ^underline bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline +dim); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.activate_style(Style::DIM); f("liso_add!(a, ^underline +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline -italic); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^underline -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline ^inverse); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^underline ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline ansi x); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.add_ansi_text(x); f("liso_add!(a, ^underline ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^underline x); let mut l = p.clone(); l.toggle_style(Style::UNDERLINE); l.add_text(x); f("liso_add!(a, ^underline x)", a, l);
    let a = liso!(^underline); let mut l = Line::new(); l.toggle_style(Style::UNDERLINE); f("liso!(^underline)", a, l);
    let a = liso!(y, ^underline, y); let mut l = Line::new(); l.add_text(y); l.toggle_style(Style::UNDERLINE); l.add_text(y); f("liso!(y, ^underline, y)", a, l);
}
fn use_toggle_inverse(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, ^inverse); let mut l = p.clone(); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse,); let mut l = p.clone(); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^inverse,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^inverse); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::INVERSE); f("liso_add!(a, y, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^inverse,, y,); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, y, ^inverse,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , ^inverse, y); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, , ^inverse, y)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, reset); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, ^inverse, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, fg = red); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^inverse, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, bg = none); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, ^inverse, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, fg = c); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, ^inverse, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, plain); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, ^inverse, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, bold); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, ^inverse, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, +dim); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, ^inverse, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, -italic); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^inverse, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, ^inverse); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^inverse, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, ansi x); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, ^inverse, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse, x); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, ^inverse, x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse reset); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, ^inverse reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse fg = red); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^inverse fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse bg = none); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, ^inverse bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse fg = c); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, ^inverse fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse plain); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, ^inverse plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse bold); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, ^inverse bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse +dim); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, ^inverse +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse -italic); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^inverse -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse ^inverse); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^inverse ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse ansi x); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, ^inverse ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^inverse x); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, ^inverse x)", a, l);
    let a = liso!(^inverse); let mut l = Line::new(); l.toggle_style(Style::INVERSE); f("liso!(^inverse)", a, l);
    let a = liso!(y, ^inverse, y); let mut l = Line::new(); l.add_text(y); l.toggle_style(Style::INVERSE); l.add_text(y); f("liso!(y, ^inverse, y)", a, l);
}
fn use_toggle_reverse(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, ^reverse); let mut l = p.clone(); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^reverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse,); let mut l = p.clone(); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^reverse,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^reverse); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::INVERSE); f("liso_add!(a, y, ^reverse)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^reverse,, y,); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, y, ^reverse,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , ^reverse, y); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.add_text(y); f("liso_add!(a, , ^reverse, y)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, reset); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, ^reverse, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, fg = red); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^reverse, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, bg = none); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, ^reverse, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, fg = c); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, ^reverse, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, plain); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, ^reverse, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, bold); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, ^reverse, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, +dim); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, ^reverse, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, -italic); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^reverse, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, ^inverse); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^reverse, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, ansi x); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, ^reverse, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse, x); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, ^reverse, x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse reset); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.reset_all(); f("liso_add!(a, ^reverse reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse fg = red); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^reverse fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse bg = none); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_bg_color(None); f("liso_add!(a, ^reverse bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse fg = c); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_fg_color(c); f("liso_add!(a, ^reverse fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse plain); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_style(Style::PLAIN); f("liso_add!(a, ^reverse plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse bold); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.set_style(Style::BOLD); f("liso_add!(a, ^reverse bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse +dim); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.activate_style(Style::DIM); f("liso_add!(a, ^reverse +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse -italic); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^reverse -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse ^inverse); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^reverse ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse ansi x); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.add_ansi_text(x); f("liso_add!(a, ^reverse ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^reverse x); let mut l = p.clone(); l.toggle_style(Style::INVERSE); l.add_text(x); f("liso_add!(a, ^reverse x)", a, l);
    let a = liso!(^reverse); let mut l = Line::new(); l.toggle_style(Style::INVERSE); f("liso!(^reverse)", a, l);
    let a = liso!(y, ^reverse, y); let mut l = Line::new(); l.add_text(y); l.toggle_style(Style::INVERSE); l.add_text(y); f("liso!(y, ^reverse, y)", a, l);
}
fn use_toggle_italic(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, ^italic); let mut l = p.clone(); l.toggle_style(Style::ITALIC); f("liso_add!(a, ^italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic,); let mut l = p.clone(); l.toggle_style(Style::ITALIC); f("liso_add!(a, ^italic,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^italic); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::ITALIC); f("liso_add!(a, y, ^italic)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ^italic,, y,); let mut l = p.clone(); l.add_text(y); l.toggle_style(Style::ITALIC); l.add_text(y); f("liso_add!(a, y, ^italic,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , ^italic, y); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.add_text(y); f("liso_add!(a, , ^italic, y)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, reset); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.reset_all(); f("liso_add!(a, ^italic, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, fg = red); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^italic, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, bg = none); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.set_bg_color(None); f("liso_add!(a, ^italic, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, fg = c); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.set_fg_color(c); f("liso_add!(a, ^italic, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, plain); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.set_style(Style::PLAIN); f("liso_add!(a, ^italic, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, bold); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.set_style(Style::BOLD); f("liso_add!(a, ^italic, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, +dim); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.activate_style(Style::DIM); f("liso_add!(a, ^italic, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, -italic); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^italic, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, ^inverse); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^italic, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, ansi x); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.add_ansi_text(x); f("liso_add!(a, ^italic, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic, x); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.add_text(x); f("liso_add!(a, ^italic, x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic reset); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.reset_all(); f("liso_add!(a, ^italic reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic fg = red); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ^italic fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic bg = none); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.set_bg_color(None); f("liso_add!(a, ^italic bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic fg = c); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.set_fg_color(c); f("liso_add!(a, ^italic fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic plain); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.set_style(Style::PLAIN); f("liso_add!(a, ^italic plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic bold); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.set_style(Style::BOLD); f("liso_add!(a, ^italic bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic +dim); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.activate_style(Style::DIM); f("liso_add!(a, ^italic +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic -italic); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ^italic -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic ^inverse); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.toggle_style(Style::INVERSE); f("liso_add!(a, ^italic ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic ansi x); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.add_ansi_text(x); f("liso_add!(a, ^italic ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ^italic x); let mut l = p.clone(); l.toggle_style(Style::ITALIC); l.add_text(x); f("liso_add!(a, ^italic x)", a, l);
    let a = liso!(^italic); let mut l = Line::new(); l.toggle_style(Style::ITALIC); f("liso!(^italic)", a, l);
    let a = liso!(y, ^italic, y); let mut l = Line::new(); l.add_text(y); l.toggle_style(Style::ITALIC); l.add_text(y); f("liso!(y, ^italic, y)", a, l);
}
fn use_ansi(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, ansi x); let mut l = p.clone(); l.add_ansi_text(x); f("liso_add!(a, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x,); let mut l = p.clone(); l.add_ansi_text(x); f("liso_add!(a, ansi x,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ansi x); let mut l = p.clone(); l.add_text(y); l.add_ansi_text(x); f("liso_add!(a, y, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ansi x,, y,); let mut l = p.clone(); l.add_text(y); l.add_ansi_text(x); l.add_text(y); f("liso_add!(a, y, ansi x,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , ansi x, y); let mut l = p.clone(); l.add_ansi_text(x); l.add_text(y); f("liso_add!(a, , ansi x, y)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, reset); let mut l = p.clone(); l.add_ansi_text(x); l.reset_all(); f("liso_add!(a, ansi x, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, fg = red); let mut l = p.clone(); l.add_ansi_text(x); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ansi x, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, bg = none); let mut l = p.clone(); l.add_ansi_text(x); l.set_bg_color(None); f("liso_add!(a, ansi x, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, fg = c); let mut l = p.clone(); l.add_ansi_text(x); l.set_fg_color(c); f("liso_add!(a, ansi x, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, plain); let mut l = p.clone(); l.add_ansi_text(x); l.set_style(Style::PLAIN); f("liso_add!(a, ansi x, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, bold); let mut l = p.clone(); l.add_ansi_text(x); l.set_style(Style::BOLD); f("liso_add!(a, ansi x, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, +dim); let mut l = p.clone(); l.add_ansi_text(x); l.activate_style(Style::DIM); f("liso_add!(a, ansi x, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, -italic); let mut l = p.clone(); l.add_ansi_text(x); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ansi x, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, ^inverse); let mut l = p.clone(); l.add_ansi_text(x); l.toggle_style(Style::INVERSE); f("liso_add!(a, ansi x, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, ansi x); let mut l = p.clone(); l.add_ansi_text(x); l.add_ansi_text(x); f("liso_add!(a, ansi x, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi x, x); let mut l = p.clone(); l.add_ansi_text(x); l.add_text(x); f("liso_add!(a, ansi x, x)", a, l);
    let a = liso!(ansi x); let mut l = Line::new(); l.add_ansi_text(x); f("liso!(ansi x)", a, l);
    let a = liso!(y, ansi x, y); let mut l = Line::new(); l.add_text(y); l.add_ansi_text(x); l.add_text(y); f("liso!(y, ansi x, y)", a, l);
}
fn use_ansi_lit(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, ansi "lit"); let mut l = p.clone(); l.add_ansi_text("lit"); f("liso_add!(a, ansi \"lit\")", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit",); let mut l = p.clone(); l.add_ansi_text("lit"); f("liso_add!(a, ansi \"lit\",)", a, l);
    let mut a = p.clone(); liso_add!(a, y, ansi "lit"); let mut l = p.clone(); l.add_text(y); l.add_ansi_text("lit"); f("liso_add!(a, y, ansi \"lit\")", a, l);
    let mut a = p.clone(); liso_add!(a, y, ansi "lit",, y,); let mut l = p.clone(); l.add_text(y); l.add_ansi_text("lit"); l.add_text(y); f("liso_add!(a, y, ansi \"lit\",, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , ansi "lit", y); let mut l = p.clone(); l.add_ansi_text("lit"); l.add_text(y); f("liso_add!(a, , ansi \"lit\", y)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", reset); let mut l = p.clone(); l.add_ansi_text("lit"); l.reset_all(); f("liso_add!(a, ansi \"lit\", reset)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", fg = red); let mut l = p.clone(); l.add_ansi_text("lit"); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, ansi \"lit\", fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", bg = none); let mut l = p.clone(); l.add_ansi_text("lit"); l.set_bg_color(None); f("liso_add!(a, ansi \"lit\", bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", fg = c); let mut l = p.clone(); l.add_ansi_text("lit"); l.set_fg_color(c); f("liso_add!(a, ansi \"lit\", fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", plain); let mut l = p.clone(); l.add_ansi_text("lit"); l.set_style(Style::PLAIN); f("liso_add!(a, ansi \"lit\", plain)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", bold); let mut l = p.clone(); l.add_ansi_text("lit"); l.set_style(Style::BOLD); f("liso_add!(a, ansi \"lit\", bold)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", +dim); let mut l = p.clone(); l.add_ansi_text("lit"); l.activate_style(Style::DIM); f("liso_add!(a, ansi \"lit\", +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", -italic); let mut l = p.clone(); l.add_ansi_text("lit"); l.deactivate_style(Style::ITALIC); f("liso_add!(a, ansi \"lit\", -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", ^inverse); let mut l = p.clone(); l.add_ansi_text("lit"); l.toggle_style(Style::INVERSE); f("liso_add!(a, ansi \"lit\", ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", ansi x); let mut l = p.clone(); l.add_ansi_text("lit"); l.add_ansi_text(x); f("liso_add!(a, ansi \"lit\", ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, ansi "lit", x); let mut l = p.clone(); l.add_ansi_text("lit"); l.add_text(x); f("liso_add!(a, ansi \"lit\", x)", a, l);
    let a = liso!(ansi "lit"); let mut l = Line::new(); l.add_ansi_text("lit"); f("liso!(ansi \"lit\")", a, l);
    let a = liso!(y, ansi "lit", y); let mut l = Line::new(); l.add_text(y); l.add_ansi_text("lit"); l.add_text(y); f("liso!(y, ansi \"lit\", y)", a, l);
}
fn use_text(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, x); let mut l = p.clone(); l.add_text(x); f("liso_add!(a, x)", a, l);
    let mut a = p.clone(); liso_add!(a, x,); let mut l = p.clone(); l.add_text(x); f("liso_add!(a, x,)", a, l);
    let mut a = p.clone(); liso_add!(a, y, x); let mut l = p.clone(); l.add_text(y); l.add_text(x); f("liso_add!(a, y, x)", a, l);
    let mut a = p.clone(); liso_add!(a, y, x,, y,); let mut l = p.clone(); l.add_text(y); l.add_text(x); l.add_text(y); f("liso_add!(a, y, x,, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , x, y); let mut l = p.clone(); l.add_text(x); l.add_text(y); f("liso_add!(a, , x, y)", a, l);
    let mut a = p.clone(); liso_add!(a, x, reset); let mut l = p.clone(); l.add_text(x); l.reset_all(); f("liso_add!(a, x, reset)", a, l);
    let mut a = p.clone(); liso_add!(a, x, fg = red); let mut l = p.clone(); l.add_text(x); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, x, fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, x, bg = none); let mut l = p.clone(); l.add_text(x); l.set_bg_color(None); f("liso_add!(a, x, bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, x, fg = c); let mut l = p.clone(); l.add_text(x); l.set_fg_color(c); f("liso_add!(a, x, fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, x, plain); let mut l = p.clone(); l.add_text(x); l.set_style(Style::PLAIN); f("liso_add!(a, x, plain)", a, l);
    let mut a = p.clone(); liso_add!(a, x, bold); let mut l = p.clone(); l.add_text(x); l.set_style(Style::BOLD); f("liso_add!(a, x, bold)", a, l);
    let mut a = p.clone(); liso_add!(a, x, +dim); let mut l = p.clone(); l.add_text(x); l.activate_style(Style::DIM); f("liso_add!(a, x, +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, x, -italic); let mut l = p.clone(); l.add_text(x); l.deactivate_style(Style::ITALIC); f("liso_add!(a, x, -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, x, ^inverse); let mut l = p.clone(); l.add_text(x); l.toggle_style(Style::INVERSE); f("liso_add!(a, x, ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, x, ansi x); let mut l = p.clone(); l.add_text(x); l.add_ansi_text(x); f("liso_add!(a, x, ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, x, x); let mut l = p.clone(); l.add_text(x); l.add_text(x); f("liso_add!(a, x, x)", a, l);
    let a = liso!(x); let mut l = Line::new(); l.add_text(x); f("liso!(x)", a, l);
    let a = liso!(y, x, y); let mut l = Line::new(); l.add_text(y); l.add_text(x); l.add_text(y); f("liso!(y, x, y)", a, l);
}
fn use_text_lit(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, "lit"); let mut l = p.clone(); l.add_text("lit"); f("liso_add!(a, \"lit\")", a, l);
    let mut a = p.clone(); liso_add!(a, "lit",); let mut l = p.clone(); l.add_text("lit"); f("liso_add!(a, \"lit\",)", a, l);
    let mut a = p.clone(); liso_add!(a, y, "lit"); let mut l = p.clone(); l.add_text(y); l.add_text("lit"); f("liso_add!(a, y, \"lit\")", a, l);
    let mut a = p.clone(); liso_add!(a, y, "lit",, y,); let mut l = p.clone(); l.add_text(y); l.add_text("lit"); l.add_text(y); f("liso_add!(a, y, \"lit\",, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , "lit", y); let mut l = p.clone(); l.add_text("lit"); l.add_text(y); f("liso_add!(a, , \"lit\", y)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", reset); let mut l = p.clone(); l.add_text("lit"); l.reset_all(); f("liso_add!(a, \"lit\", reset)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", fg = red); let mut l = p.clone(); l.add_text("lit"); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, \"lit\", fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", bg = none); let mut l = p.clone(); l.add_text("lit"); l.set_bg_color(None); f("liso_add!(a, \"lit\", bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", fg = c); let mut l = p.clone(); l.add_text("lit"); l.set_fg_color(c); f("liso_add!(a, \"lit\", fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", plain); let mut l = p.clone(); l.add_text("lit"); l.set_style(Style::PLAIN); f("liso_add!(a, \"lit\", plain)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", bold); let mut l = p.clone(); l.add_text("lit"); l.set_style(Style::BOLD); f("liso_add!(a, \"lit\", bold)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", +dim); let mut l = p.clone(); l.add_text("lit"); l.activate_style(Style::DIM); f("liso_add!(a, \"lit\", +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", -italic); let mut l = p.clone(); l.add_text("lit"); l.deactivate_style(Style::ITALIC); f("liso_add!(a, \"lit\", -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", ^inverse); let mut l = p.clone(); l.add_text("lit"); l.toggle_style(Style::INVERSE); f("liso_add!(a, \"lit\", ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", ansi x); let mut l = p.clone(); l.add_text("lit"); l.add_ansi_text(x); f("liso_add!(a, \"lit\", ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, "lit", x); let mut l = p.clone(); l.add_text("lit"); l.add_text(x); f("liso_add!(a, \"lit\", x)", a, l);
    let a = liso!("lit"); let mut l = Line::new(); l.add_text("lit"); f("liso!(\"lit\")", a, l);
    let a = liso!(y, "lit", y); let mut l = Line::new(); l.add_text(y); l.add_text("lit"); l.add_text(y); f("liso!(y, \"lit\", y)", a, l);
}
fn use_text_call(p: &Line, x: &str, y: &str, c: Option<Color>, f: &mut dyn FnMut(&str, Line, Line)) {
    let mut a = p.clone(); liso_add!(a, whole(x)); let mut l = p.clone(); l.add_text(whole(x)); f("liso_add!(a, whole(x))", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x),); let mut l = p.clone(); l.add_text(whole(x)); f("liso_add!(a, whole(x),)", a, l);
    let mut a = p.clone(); liso_add!(a, y, whole(x)); let mut l = p.clone(); l.add_text(y); l.add_text(whole(x)); f("liso_add!(a, y, whole(x))", a, l);
    let mut a = p.clone(); liso_add!(a, y, whole(x),, y,); let mut l = p.clone(); l.add_text(y); l.add_text(whole(x)); l.add_text(y); f("liso_add!(a, y, whole(x),, y,)", a, l);
    let mut a = p.clone(); liso_add!(a, , whole(x), y); let mut l = p.clone(); l.add_text(whole(x)); l.add_text(y); f("liso_add!(a, , whole(x), y)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), reset); let mut l = p.clone(); l.add_text(whole(x)); l.reset_all(); f("liso_add!(a, whole(x), reset)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), fg = red); let mut l = p.clone(); l.add_text(whole(x)); l.set_fg_color(Some(Color::Red)); f("liso_add!(a, whole(x), fg = red)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), bg = none); let mut l = p.clone(); l.add_text(whole(x)); l.set_bg_color(None); f("liso_add!(a, whole(x), bg = none)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), fg = c); let mut l = p.clone(); l.add_text(whole(x)); l.set_fg_color(c); f("liso_add!(a, whole(x), fg = c)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), plain); let mut l = p.clone(); l.add_text(whole(x)); l.set_style(Style::PLAIN); f("liso_add!(a, whole(x), plain)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), bold); let mut l = p.clone(); l.add_text(whole(x)); l.set_style(Style::BOLD); f("liso_add!(a, whole(x), bold)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), +dim); let mut l = p.clone(); l.add_text(whole(x)); l.activate_style(Style::DIM); f("liso_add!(a, whole(x), +dim)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), -italic); let mut l = p.clone(); l.add_text(whole(x)); l.deactivate_style(Style::ITALIC); f("liso_add!(a, whole(x), -italic)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), ^inverse); let mut l = p.clone(); l.add_text(whole(x)); l.toggle_style(Style::INVERSE); f("liso_add!(a, whole(x), ^inverse)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), ansi x); let mut l = p.clone(); l.add_text(whole(x)); l.add_ansi_text(x); f("liso_add!(a, whole(x), ansi x)", a, l);
    let mut a = p.clone(); liso_add!(a, whole(x), x); let mut l = p.clone(); l.add_text(whole(x)); l.add_text(x); f("liso_add!(a, whole(x), x)", a, l);
    let a = liso!(whole(x)); let mut l = Line::new(); l.add_text(whole(x)); f("liso!(whole(x))", a, l);
    let a = liso!(y, whole(x), y); let mut l = Line::new(); l.add_text(y); l.add_text(whole(x)); l.add_text(y); f("liso!(y, whole(x), y)", a, l);
}
pub const ALL: &[fn(&Line, &str, &str, Option<Color>, &mut dyn FnMut(&str, Line, Line))] = &[use_reset, use_fg_cap_black, use_fg_black, use_fg_cap_red, use_fg_red, use_fg_cap_green, use_fg_green, use_fg_cap_yellow, use_fg_yellow, use_fg_cap_blue, use_fg_blue, use_fg_cap_cyan, use_fg_cyan, use_fg_cap_magenta, use_fg_magenta, use_fg_cap_white, use_fg_white, use_fg_none, use_fg_cap_none, use_fg_var, use_fg_some, use_fg_paren, use_fg_call, use_bg_cap_black, use_bg_black, use_bg_cap_red, use_bg_red, use_bg_cap_green, use_bg_green, use_bg_cap_yellow, use_bg_yellow, use_bg_cap_blue, use_bg_blue, use_bg_cap_cyan, use_bg_cyan, use_bg_cap_magenta, use_bg_magenta, use_bg_cap_white, use_bg_white, use_bg_none, use_bg_cap_none, use_bg_var, use_bg_some, use_bg_paren, use_bg_call, use_plain, use_bold, use_dim, use_underline, use_inverse, use_reverse, use_italic, use_on_bold, use_on_dim, use_on_underline, use_on_inverse, use_on_reverse, use_on_italic, use_off_bold, use_off_dim, use_off_underline, use_off_inverse, use_off_reverse, use_off_italic, use_toggle_bold, use_toggle_dim, use_toggle_underline, use_toggle_inverse, use_toggle_reverse, use_toggle_italic, use_ansi, use_ansi_lit, use_text, use_text_lit, use_text_call];
