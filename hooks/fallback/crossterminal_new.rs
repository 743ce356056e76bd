Crossterminal {
            stdout,
            old_hook: None,
            suspended: true,
            cur_style: Style::PLAIN,
            cur_fg: None,
            cur_bg: None,
            input_thread: InterruptibleStdinThread::new(input_thread),
        }
