pub use crate::worker::verif as worker;
pub use crate::term::verif as term;
#[cfg(feature = "capture-stderr")]
pub use crate::stderr_capture::verif as stderr_capture;

use crate::*;

/// A request, in a form that can be compared and printed.
pub fn show_request(r: &Request) -> String {
    match r {
        Request::Output(l) => format!("Output {:?}", l),
        Request::OutputWrapped(l) => format!("OutputWrapped {:?}", l),
        Request::OutputEcho(l) => format!("OutputEcho {:?}", l),
        Request::Status(l) => format!("Status {:?}", l),
        Request::Notice(l, d) => format!("Notice {:?} {:?}", l, d),
        Request::Prompt { line, input_allowed, clear_input } => format!("Prompt {:?} {:?} {:?}", line, input_allowed, clear_input),
        Request::RawInput(s) => format!("RawInput {:?}", s),
        Request::CrosstermEvent(e) => format!("Event {:?}", e),
        Request::Heartbeat => "Heartbeat".to_owned(),
        Request::Bell => "Bell".to_owned(),
        Request::Die => "Die".to_owned(),
        Request::StderrLine(s) => format!("StderrLine {:?}", s),
        Request::SuspendAndRun(_) => "SuspendAndRun".to_owned(),
        Request::Custom(_) => "Custom".to_owned(),
        Request::BumpHistory => "BumpHistory".to_owned(),
        Request::SetCompletor(x) => format!("SetCompletor {}", x.is_some()),
    }
}
/// Elements of a line: (style bits, fg, bg, start, end)
pub fn elements(l: &Line) -> Vec<(u32, Option<Color>, Option<Color>, usize, usize)> {
    l.elements.iter().map(|e| (e.style.bits(), e.fg, e.bg, e.start, e.end)).collect()
}
/// An Output whose requests come out of the returned function.
pub fn recording_output() -> (Output, Box<dyn FnMut() -> Vec<String>>) {
    let (tx, rx) = std_mpsc::channel();
    (Output { tx }, Box::new(move || rx.try_iter().map(|r| show_request(&r)).collect()))
}
/// An InputOutput without a worker; responses are sent with the returned sender.
pub fn bare_io() -> (std::mem::ManuallyDrop<InputOutput>, tokio_mpsc::UnboundedSender<Response>, Box<dyn std::any::Any>) {
    let (request_tx, request_rx) = std_mpsc::channel();
    let (response_tx, response_rx) = tokio_mpsc::unbounded_channel();
    let request_tx_clone = request_tx.clone();
    let history = Arc::new(RwLock::new(History::new()));
    #[allow(unused_variables)]
    let history_clone = history.clone();
    let _ = request_tx_clone;
    let io = {
        let response_rx = response_rx;
        include!(concat!(env!("LISO_VERIF_GEN"), "/inputoutput_new.rs"))
    };
    (std::mem::ManuallyDrop::new(io), response_tx, Box::new(request_rx))
}
