Vt52 {
            stdout,
            old_hook: None,
            suspended: true,
            cur_style: Style::PLAIN,
            cur_fg: num_colors - 1,
            cur_bg: 0,
            num_colors,
            white_on_black,
            input_thread: InterruptibleStdinThread::new(input_thread),
        }
