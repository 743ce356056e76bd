use super::*;
pub use crate::term::verif::TermApi;

/// What a recording terminal is: everything the editor does to its terminal.
pub fn new_editor(term: Box<dyn TermApi>) -> Editor {
    let (req_tx, req_rx) = std_mpsc::channel::<Request>();
    let (tx, rx) = tokio_mpsc::unbounded_channel();
    let (ded_tx, ded_rx) = std_mpsc::sync_channel(4000);
    let history = Arc::new(RwLock::new(History::new()));
    let shared = history.clone();
    let term: Box<dyn Term> = Box::new(crate::term::verif::Adapter(term));
    let st = include!(concat!(env!("LISO_VERIF_GEN"), "/ttystate_tty_worker.rs"));
    Editor { st, tx, rx, ded_tx, ded_rx, history: shared, _req_rx: req_rx }
}
pub struct Editor {
    st: TtyState,
    tx: tokio_mpsc::UnboundedSender<Response>,
    rx: tokio_mpsc::UnboundedReceiver<Response>,
    ded_tx: std_mpsc::SyncSender<Instant>,
    ded_rx: std_mpsc::Receiver<Instant>,
    pub history: Arc<RwLock<History>>,
    _req_rx: std_mpsc::Receiver<Request>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct View {
    pub input: String,
    pub cursor: usize,
    pub clipboard: String,
    pub input_allowed: bool,
    pub prompt: Option<Line>,
    pub status: Option<Line>,
    pub notice: Option<Line>,
}
impl Editor {
    pub fn view(&self) -> View {
        View {
            input: self.st.input.clone(),
            cursor: self.st.input_cursor,
            clipboard: self.st.clipboard.clone(),
            input_allowed: self.st.input_allowed,
            prompt: self.st.prompt.clone(),
            status: self.st.status.clone(),
            notice: self.st.notice.as_ref().map(|x| x.0.clone()),
        }
    }
    fn req(&mut self, r: Request) -> bool { self.st.handle(&mut self.tx, &mut self.ded_tx, r).is_ok() }
    pub fn raw(&mut self, s: &str) -> bool { self.req(Request::RawInput(s.to_owned())) }
    pub fn event(&mut self, e: crossterm::event::Event) -> bool { self.req(Request::CrosstermEvent(e)) }
    pub fn prompt(&mut self, line: Option<Line>, input_allowed: bool, clear_input: bool) -> bool { self.req(Request::Prompt { line, input_allowed, clear_input }) }
    pub fn status(&mut self, line: Option<Line>) -> bool { self.req(Request::Status(line)) }
    pub fn notice(&mut self, line: Line, d: Duration) -> bool { self.req(Request::Notice(line, d)) }
    pub fn output(&mut self, line: Line) -> bool { self.req(Request::Output(line)) }
    pub fn output_wrapped(&mut self, line: Line) -> bool { self.req(Request::OutputWrapped(line)) }
    pub fn heartbeat(&mut self) -> bool { self.req(Request::Heartbeat) }
    pub fn bell(&mut self) -> bool { self.req(Request::Bell) }
    pub fn bump(&mut self) -> bool { self.req(Request::BumpHistory) }
    pub fn suspend_and_run(&mut self) -> bool { self.req(Request::SuspendAndRun(Box::new(|| ()))) }
    pub fn set_completor(&mut self, c: Option<Box<dyn Completor>>) -> bool { self.req(Request::SetCompletor(c)) }
    pub fn stderr_line(&mut self, s: String) -> bool { self.req(Request::StderrLine(s)) }
    pub fn rollout(&mut self) -> bool { self.st.rollout().is_ok() }
    pub fn rollin(&mut self) -> bool { self.st.rollin().is_ok() }
    pub fn draw(&mut self, line: &Line, cursor_pos: Option<usize>) -> bool { self.st.output_line_changes(line, cursor_pos, false, true).is_ok() }
    pub fn responses(&mut self) -> Vec<Response> {
        let mut v = vec![];
        while let Ok(x) = self.rx.try_recv() { v.push(x) }
        v
    }
    pub fn deadlines(&mut self) -> Vec<Instant> { self.ded_rx.try_iter().collect() }
    pub fn swap_history(&mut self, mut h: History) -> History {
        std::mem::swap(&mut h, &mut *self.history.write().unwrap());
        h
    }
    pub fn add_history(&mut self, s: &str) { let _ = self.history.write().unwrap().add_line(s.to_owned()); }
    pub fn history_lines(&self) -> Vec<String> { self.history.read().unwrap().get_lines().to_vec() }
}
