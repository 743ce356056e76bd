use super::*;

/// Captures stderr; what was captured comes out of the returned receiver.
pub fn capture() -> Box<dyn FnMut() -> Vec<String> + Send> {
    let (tx, rx) = std::sync::mpsc::channel();
    attempt_stderr_capture(crate::Output { tx });
    Box::new(move || rx.try_iter().map(|r| match r { crate::Request::StderrLine(s) => s, r => crate::verif::show_request(&r) }).collect())
}
pub fn finish() { wait_until_not_captured() }
