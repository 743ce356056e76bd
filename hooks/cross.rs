use super::*;
use crate::term::verif::{Backend, Tok};

/// Feeds the decoder the given reads; a pause of that many milliseconds goes
/// before each of them.  Returns what it sent.
pub fn decode(reads: Vec<(u64, Vec<u8>)>, end_pause: u64) -> Vec<Tok> {
    let (input_tx, input_rx) = std_mpsc::channel::<Vec<u8>>();
    let (req_tx, req_rx) = std_mpsc::channel::<Request>();
    let pauses = end_pause > 0 || reads.iter().any(|x| x.0 > 0);
    let feed = move || {
        for (p, r) in reads {
            if p > 0 { std::thread::sleep(Duration::from_millis(p)); }
            if input_tx.send(r).is_err() { return; }
        }
        if end_pause > 0 { std::thread::sleep(Duration::from_millis(end_pause)); }
    };
    if pauses {
        let h = std::thread::spawn(feed);
        let _ = input_thread(input_rx, req_tx);
        let _ = h.join();
    } else {
        feed();
        let _ = input_thread(input_rx, req_tx);
    }
    req_rx.try_iter().map(|r| Tok::new(r)).collect()
}
/// A crossterm backend that writes to this process's standard output.
pub fn backend() -> Option<Backend> {
    let input_thread = std::thread::spawn(|| ());
    let stdout = std::io::stdout();
    let mut ret = include!(concat!(env!("LISO_VERIF_GEN"), "/crossterminal_new.rs"));
    let _ = ret.unsuspend();
    Some(Backend(Box::new(ret)))
}
