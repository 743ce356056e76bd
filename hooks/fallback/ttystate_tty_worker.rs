TtyState {
        status: None,
        prompt: None,
        notice: None,
        remembered_output: None,
        input_allowed: true,
        input: String::new(),
        input_cursor: 0,
        term: RefCell::new(term),
        rollout_needed: false,
        clipboard: String::new(),
        #[cfg(feature = "history")]
        history,
        #[cfg(feature = "history")]
        cur_history_index: None,
        #[cfg(feature = "history")]
        orphaned_new_input: None,
        #[cfg(feature = "history")]
        history_original_line: None,
        #[cfg(feature = "completion")]
        completor: None,
        #[cfg(feature = "completion")]
        consecutive_completion_presses: 0,
        #[cfg(feature = "completion")]
        own_output: Output { tx: req_tx },
    }
