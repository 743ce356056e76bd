// Runs Liso on its terminal; appends every response to the file named first.
// Further arguments: lines of history.
use liso::*;
use std::io::Write;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut f = std::fs::File::create(&a[0]).unwrap();
    let mut io = InputOutput::new();
    if a.len() > 1 {
        let mut h = History::new();
        for l in &a[1..] { h.add_line(l.clone()).unwrap(); }
        io.swap_history(h);
    }
    io.prompt("READY> ", true, false);
    loop {
        let r = io.read_blocking();
        writeln!(f, "{:?}", r).unwrap(); f.flush().unwrap();
        match r { Response::Quit | Response::Dead => break, _ => () }
    }
}
