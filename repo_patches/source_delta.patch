From 34a646e2edc4d4f79b32fe6b0598c01e6f9603ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 01/34] fix: reset the input cursor when a prompt request
 clears the input

Request::Prompt with clear_input emptied `input` but left `input_cursor`
pointing past its end, so that the next key pressed panicked the worker.
---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index 0237cf9..9125a77 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -625,6 +625,7 @@ impl TtyState {
                     self.input_allowed = input_allowed;
                     if clear_input {
                         self.input.clear();
+                        self.input_cursor = 0;
                         #[cfg(feature = "history")]
                         {
                             self.cur_history_index = None;
-- 
2.43.0


From 9c591be34050f0d3cdf6a3bf2e4f832fc2d75830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 02/34] fix: honor input_allowed when the prompt text does not
 change

A prompt request that only changed `input_allowed` was ignored.
---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index 9125a77..eb823b2 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -618,6 +618,7 @@ impl TtyState {
                 clear_input,
             } => {
                 if self.prompt != line
+                    || self.input_allowed != input_allowed
                     || (clear_input && !self.input.is_empty())
                 {
                     self.rollout_needed = true;
-- 
2.43.0


From 75b37acdf947bf5f7ca145a3054dbddad74173a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 03/34] fix: keep the heartbeat thread alive after its first
 heartbeat

The thread ended after the first notice expired; the next notice then failed
to register its deadline and took the whole worker down.
---
 src/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index eb823b2..88ec8d0 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1373,7 +1373,7 @@ fn tty_worker(
                     if !deadlines.is_empty() && now >= deadlines[0] {
                         deadlines.remove(0);
                         match req_tx_clone.send(Request::Heartbeat) {
-                            Ok(_) => break,
+                            Ok(_) => continue,
                             Err(_) => return,
                         }
                     }
-- 
2.43.0


From 44c3b6d975875fd7cb3faf87f6dfb1b56fce9d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 04/34] fix: wake up for the earliest notice deadline first

A short notice that followed a long one was only taken down when the long
one's deadline came, because deadlines were kept in order of arrival.
---
 src/worker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 88ec8d0..ff46538 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1381,7 +1381,10 @@ fn tty_worker(
                         use std::sync::mpsc::RecvTimeoutError;
                         let interval = deadlines[0] - now;
                         match ded_rx.recv_timeout(interval) {
-                            Ok(x) => deadlines.push(x),
+                            Ok(x) => {
+                                deadlines.push(x);
+                                deadlines.sort();
+                            }
                             Err(RecvTimeoutError::Timeout) => (),
                             Err(RecvTimeoutError::Disconnected) => return,
                         }
-- 
2.43.0


From 65c3e7d52e33db54455f3c6bdce61ca8a0bf82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 05/34] fix: stop reading in pipe mode at end of input

read_line reports the end of input as Ok(0); the pipe mode input thread took
that for an empty line and delivered empty lines in an endless loop.
---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index ff46538..095d9ee 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -30,6 +30,8 @@ fn pipe_worker(
                 loop {
                     let mut buf = String::new();
                     match stdin.read_line(&mut buf) {
+                        // end of input
+                        Ok(0) => break,
                         Ok(_) => {
                             while buf.ends_with('\n') || buf.ends_with('\r') {
                                 buf.pop();
-- 
2.43.0


From 535aceefc8e7477721947c81ca66bd8912931fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 06/34] fix: do not index out of bounds if the history was
 shortened

Another thread can replace or shorten the shared history at any time, before
the worker learns about it through BumpHistory. history_prev and history_next
then indexed past its end and panicked.
---
 src/worker.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 095d9ee..8ac0c2c 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1177,8 +1177,8 @@ impl TtyState {
         let history = self.history.read().unwrap();
         let prev_history_index = match self.cur_history_index {
             None => history.get_lines().len().checked_sub(1),
-            Some(x) if x > 0 => Some(x - 1),
-            _ => None,
+            // (the history may have been replaced by a shorter one)
+            Some(x) => x.min(history.get_lines().len()).checked_sub(1),
         };
         match prev_history_index {
             None => {
@@ -1199,7 +1199,7 @@ impl TtyState {
         }
         self.history_original_line = self
             .cur_history_index
-            .map(|i| history.get_lines()[i].clone());
+            .and_then(|i| history.get_lines().get(i).cloned());
         Ok(())
     }
     #[cfg(feature = "history")]
@@ -1210,7 +1210,7 @@ impl TtyState {
                 let mut term = self.term.borrow_mut();
                 term.bell()?;
             }
-            Some(x) if x + 1 == history.get_lines().len() => {
+            Some(x) if x + 1 >= history.get_lines().len() => {
                 assert!(self.orphaned_new_input.is_some());
                 self.rollout_needed = true;
                 self.input = self.orphaned_new_input.take().unwrap();
@@ -1232,7 +1232,7 @@ impl TtyState {
         }
         self.history_original_line = self
             .cur_history_index
-            .map(|i| history.get_lines()[i].clone());
+            .and_then(|i| history.get_lines().get(i).cloned());
         Ok(())
     }
     #[cfg(unix)]
-- 
2.43.0


From 896d325614d0836fa51a5f2b0993c3d8cf22ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 07/34] fix: use byte positions of newlines when wrapping

---
 src/line.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 275ba0b..8da8508 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -389,8 +389,7 @@ impl Line {
         assert!(width > 0);
         let newline_positions: Vec<usize> = self
             .text
-            .chars()
-            .enumerate()
+            .char_indices()
             .filter_map(|(n, c)| if c == '\n' { Some(n) } else { None })
             .chain(Some(self.text.len()))
             .collect();
-- 
2.43.0


From a6eaf0a6df92ec2fde852d33bb1ffaa98e8cde4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 08/34] fix: adjust every element that touches a wrapping edit

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 8da8508..3f4986e 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -473,7 +473,7 @@ impl Line {
                     continue;
                 }
             }
-            if element.start >= range.start {
+            if element.start < range.start {
                 break; // all subsequent elements will be before the edit
             }
         }
-- 
2.43.0


From 30173416fa12d2093d61d57af51b0423397a4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 09/34] fix: recognize an escape sequence right after a stray
 escape

---
 src/line/add_ansi.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/line/add_ansi.rs b/src/line/add_ansi.rs
index 277630f..17e2452 100644
--- a/src/line/add_ansi.rs
+++ b/src/line/add_ansi.rs
@@ -22,10 +22,7 @@ impl Line {
                 if ch != '\x1B' {
                     continue;
                 }
-                let Some((_, ch)) = char_indices.next() else {
-                    break;
-                };
-                if ch != '[' {
+                if !char_indices.as_str().starts_with('[') {
                     continue;
                 }
                 if sequence_start != 0 {
-- 
2.43.0


From bc6370e96c75aad9cc545b0399012d19e58ec345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 10/34] fix: do not panic on, or let through, ill-formed UTF-8
 input

---
 src/term/cross.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index a94032c..fff1625 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -167,7 +167,19 @@ fn input_thread(
                 start += num_bytes_needed;
                 // send the decoded character
                 let code = if code > 0x10FFFF { 0xFFFD } else { code };
-                let ch = char::from_u32(code).unwrap();
+                // (also reject surrogates, overlong forms, and bytes that never
+                // occur in UTF-8)
+                let min_code = match num_bytes_needed {
+                    2 => 0x80,
+                    3 => 0x800,
+                    _ => 0x10000,
+                };
+                let code = if b >= 0xF8 || code < min_code {
+                    0xFFFD
+                } else {
+                    code
+                };
+                let ch = char::from_u32(code).unwrap_or('\u{fffd}');
                 let event = KeyEvent {
                     code: event::KeyCode::Char(ch),
                     modifiers: event::KeyModifiers::empty(),
-- 
2.43.0


From 62f3da22a3fe9ea99012af7d0c684e92328553e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 11/34] fix: VT52 input: actually discard bytes with the high
 bit set

---
 src/term/vt52.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b9fdfbf..9a1af3c 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -85,6 +85,7 @@ fn input_thread(
             } else if buf[start] >= 0x80 {
                 // We have to discard the meta bytes we receive
                 // TODO: are these sent sometimes?
+                start += 1;
             } else {
                 let mut text_end = start + 1;
                 while text_end < buf.len()
-- 
2.43.0


From 401efd07646e30305f2d82659886d91158847ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 12/34] fix: report an error writing the end of the history

---
 src/history.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index c2e460a..a3f1243 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -152,7 +152,7 @@ impl History {
             f.write_all(line.as_bytes())?;
             f.write_all(b"\n")?;
         }
-        drop(f);
+        f.flush()?;
         Ok(())
     }
     /// Sets the maximum number of lines that will be saved in the history. If
-- 
2.43.0


From e1081455720560eb1486c3cd4b04ec39436e20a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 13/34] fix: do not lose the history backup, and let the first
 autosave succeed

---
 src/history.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index a3f1243..87021f5 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs::{remove_file, rename, File},
+    fs::{metadata, remove_file, rename, File},
     io,
     io::{BufRead, BufReader, BufWriter, Write},
     num::NonZeroUsize,
@@ -110,8 +110,10 @@ impl History {
         }?;
         let handler = Box::new(move |history: &History| -> io::Result<()> {
             history.write_history_to(&build_path)?;
-            let _ = remove_file(&backup_path);
-            rename(&history_path, &backup_path)?;
+            // Only replace the backup if there is something to replace it with.
+            if metadata(&history_path).map(|x| x.len() > 0).unwrap_or(false) {
+                rename(&history_path, &backup_path)?;
+            }
             rename(&build_path, &history_path)?;
             let _ = remove_file(&backup_path);
             Ok(())
-- 
2.43.0


From 86ab3b46a59723cc841cad3e3f02d4b63341a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 14/34] fix: reset the attributes when the background color
 goes away

---
 src/term/cross.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index fff1625..59ba531 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -302,7 +302,7 @@ impl Term for Crossterminal {
     ) -> LifeOrDeath {
         if self.cur_style != style
             || (self.cur_fg != fg && fg.is_none())
-            || (self.cur_bg != bg && fg.is_none())
+            || (self.cur_bg != bg && bg.is_none())
         {
             queue!(self.stdout, style::SetAttribute(CtAttribute::Reset))?;
             // TODO: check if this is needed
-- 
2.43.0


From c9bd57d6f41fe58c8b43381e3d0e0872a8eeba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 15/34] fix: VT52: remember the colors set when starting or
 resuming

---
 src/term/vt52.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 9a1af3c..16a6970 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -378,10 +378,15 @@ impl Term for Vt52 {
         if self.white_on_black {
             self.stdout
                 .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x20\x1Bc\x2F")?;
+            self.cur_fg = 0;
+            self.cur_bg = 15;
         } else {
             self.stdout
                 .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x2F\x1Bc\x20")?;
+            self.cur_fg = 15;
+            self.cur_bg = 0;
         }
+        self.cur_style = Style::PLAIN;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         panic::set_hook(Box::new(move |info| {
-- 
2.43.0


From 5edc2427bb31976bd49b70bb0d1ed150ebb32b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 16/34] fix: only look for newlines in what was read from
 stderr

---
 src/stderr_capture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index fe8ad84..33692f9 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -217,7 +217,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
                 Ok(x) => {
                     let mut last_newline_pos = None;
                     let end_pos = buf_pos + x;
-                    while let Some(p) = buf[buf_pos..]
+                    while let Some(p) = buf[buf_pos..end_pos]
                         .iter()
                         .position(|x| *x == b'\n')
                         .map(|x| x + buf_pos)
-- 
2.43.0


From 25114abe1458b3090f16f77044ba6ec6985c1293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:03 +0000
Subject: [PATCH 17/34] Guarded verification hooks (cfg liso_verif)

---
 src/lib.rs            | 7 +++++++
 src/stderr_capture.rs | 5 +++++
 src/term.rs           | 5 +++++
 src/term/cross.rs     | 5 +++++
 src/term/vt52.rs      | 5 +++++
 src/worker.rs         | 5 +++++
 6 files changed, 32 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 74cac3a..1efbd09 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -111,6 +111,8 @@
 //! can activate "pipe mode" without running afoul of any of this by piping the
 //! output of the Liso-enabled program to `cat`, as in `my_liso_program | cat`.
 
+#![allow(unexpected_cfgs)] // liso_verif
+
 use std::{
     any::Any,
     borrow::Cow,
@@ -1496,3 +1498,8 @@ macro_rules! wrapln {
         $crate::output().wrapln(liso!($($rest)*))
     }
 }
+
+#[cfg(liso_verif)]
+pub mod verif {
+    include!(concat!(env!("LISO_VERIF_DIR"), "/liso.rs"));
+}
diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 33692f9..8d7e59d 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -302,3 +302,8 @@ pub(crate) fn wait_until_not_captured() {
     // think they can join before us!
     drop(lock);
 }
+
+#[cfg(liso_verif)]
+pub mod verif {
+    include!(concat!(env!("LISO_VERIF_DIR"), "/stderr_capture.rs"));
+}
diff --git a/src/term.rs b/src/term.rs
index 00345e3..e2034a6 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -88,3 +88,8 @@ pub(crate) fn new_term(
     }
     Ok(Box::new(Crossterminal::new(req_tx.clone())?))
 }
+
+#[cfg(liso_verif)]
+pub mod verif {
+    include!(concat!(env!("LISO_VERIF_DIR"), "/term.rs"));
+}
diff --git a/src/term/cross.rs b/src/term/cross.rs
index 59ba531..9139c6e 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -492,3 +492,8 @@ impl Term for Crossterminal {
         Ok(())
     }
 }
+
+#[cfg(liso_verif)]
+pub mod verif {
+    include!(concat!(env!("LISO_VERIF_DIR"), "/cross.rs"));
+}
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 16a6970..d02b4e5 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -431,3 +431,8 @@ impl Term for Vt52 {
         Ok(())
     }
 }
+
+#[cfg(liso_verif)]
+pub mod verif {
+    include!(concat!(env!("LISO_VERIF_DIR"), "/vt52.rs"));
+}
diff --git a/src/worker.rs b/src/worker.rs
index 8ac0c2c..88fbad9 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1483,3 +1483,8 @@ pub(crate) fn worker(
         return tty_worker(req_tx, rx, tx);
     }
 }
+
+#[cfg(liso_verif)]
+pub mod verif {
+    include!(concat!(env!("LISO_VERIF_DIR"), "/worker.rs"));
+}
-- 
2.43.0


From 5899ac692a60237adf307760f2b08857ae5b1aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:04 +0000
Subject: [PATCH 18/34] fix: do not hold back input that follows a truncated
 UTF-8 sequence

---
 src/term/cross.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 9139c6e..9f175bb 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -143,7 +143,9 @@ fn input_thread(
                     start += 1;
                     continue;
                 };
-                if (buf.len() - start) < num_bytes_needed {
+                if (buf.len() - start) < num_bytes_needed
+                    && buf[start + 1..].iter().all(|x| *x >= 0x80 && *x < 0xC0)
+                {
                     // Read more data before sending this along
                     break;
                 }
-- 
2.43.0


From 3eb6b6dd9cc289c72e6d8b31023821c8a1ce14eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:31 +0000
Subject: [PATCH 19/34] fix: break the row before a wide character that does
 not fit

---
 src/worker.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 88fbad9..8b793b2 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -127,7 +127,11 @@ impl TtyState {
             for (idx, ch) in text.char_indices() {
                 let char_width =
                     UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
-                if (char_width > 0 && cur_column >= term_width) || ch == '\n' {
+                if (char_width > 0
+                    && cur_column > 0
+                    && cur_column + char_width > term_width)
+                    || ch == '\n'
+                {
                     if cur != idx {
                         term.print(&text[cur..idx])?;
                     }
@@ -168,7 +172,7 @@ impl TtyState {
             term.print_spaces((term_width - cur_column) as usize)?;
         }
         term.set_attrs(Style::empty(), None, None)?;
-        if cur_column != term_width {
+        if cur_column < term_width {
             term.clear_to_end_of_line()?;
         }
         term.newline()?;
-- 
2.43.0


From 43df6958fa3d5f50340c5dce7d89c5eb581e29e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:10 +0000
Subject: [PATCH 20/34] fix: redraw what follows when a character is replaced
 by one of another width

---
 src/worker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 8b793b2..5b009c2 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -383,7 +383,10 @@ impl TtyState {
                         cur_column,
                         cur_breaks,
                     )?;
-                    if (a.ch == '\n') != (b.ch == '\n') {
+                    let cleared = (a.ch == '\n') != (b.ch == '\n')
+                        || UnicodeWidthChar::width(a.ch)
+                            != UnicodeWidthChar::width(b.ch);
+                    if cleared {
                         // Simpler at this point just to clear everything.
                         term.clear_forward_and_reset()?;
                         cur_attr = (Style::empty(), None, None);
@@ -400,7 +403,7 @@ impl TtyState {
                     )?;
                     real_column = cur_column;
                     real_breaks = cur_breaks;
-                    endfill_redundant = a.endfills_same_as(&b);
+                    endfill_redundant = !cleared && a.endfills_same_as(&b);
                 }
                 (None, Some(b)) => {
                     self.maybe_report(
-- 
2.43.0


From 24d4f19559cc2cbe41c24aa234ed0fb713c70e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:43 +0000
Subject: [PATCH 21/34] fix: redraw when the blanks after the end of the block
 change

---
 src/worker.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 5b009c2..bb15563 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -114,6 +114,21 @@ struct TtyState {
     consecutive_completion_presses: u32,
 }
 
+/// The attributes the rest of the row after the given line is filled with, if
+/// they make a visible difference.
+fn trailing_fill(
+    line: &Line,
+) -> Option<(Style, Option<Color>, Option<Color>)> {
+    line.elements
+        .last()
+        .filter(|el| {
+            el.style.contains(Style::INVERSE)
+                || el.style.contains(Style::UNDERLINE)
+                || el.bg.is_some()
+        })
+        .map(|el| (el.style, el.fg, el.bg))
+}
+
 impl TtyState {
     /// Output a Line, followed by a single linebreak.
     fn output_line(&self, line: &Line) -> LifeOrDeath {
@@ -326,6 +341,12 @@ impl TtyState {
         }
         let mut real_column;
         let mut real_breaks;
+        if let Some(rem) = self.remembered_output.as_ref() {
+            // The blanks after the old content can't be updated piecemeal.
+            if trailing_fill(&rem.output_line) != trailing_fill(new_line) {
+                self.rollin()?;
+            }
+        }
         if let Some(rem) = self.remembered_output.as_ref() {
             if new_line == &rem.output_line && cursor_pos == rem.cursor_pos {
                 // No change required
-- 
2.43.0


From 9d15389728e86abb07b01aa55efcc63c414d8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:51 +0000
Subject: [PATCH 22/34] fix: redraw when the block contains characters without
 a cell of their own

---
 src/worker.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index bb15563..c54197a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -129,6 +129,13 @@ fn trailing_fill(
         .map(|el| (el.style, el.fg, el.bg))
 }
 
+/// Whether some character of the line has no cell of its own.
+fn has_zero_width(line: &Line) -> bool {
+    line.text
+        .chars()
+        .any(|ch| ch != '\n' && UnicodeWidthChar::width(ch).unwrap_or(0) == 0)
+}
+
 impl TtyState {
     /// Output a Line, followed by a single linebreak.
     fn output_line(&self, line: &Line) -> LifeOrDeath {
@@ -343,7 +350,12 @@ impl TtyState {
         let mut real_breaks;
         if let Some(rem) = self.remembered_output.as_ref() {
             // The blanks after the old content can't be updated piecemeal.
-            if trailing_fill(&rem.output_line) != trailing_fill(new_line) {
+            // Neither can cells that more than one character goes into.
+            if trailing_fill(&rem.output_line) != trailing_fill(new_line)
+                || (new_line != &rem.output_line
+                    && (has_zero_width(&rem.output_line)
+                        || has_zero_width(new_line)))
+            {
                 self.rollin()?;
             }
         }
-- 
2.43.0


From 9ea39256c0567ceaabe0f0d8fd395b5564122b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 23/34] fix: clear the rows below when the block now ends
 before the last column

---
 src/worker.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index c54197a..e6d0a01 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -480,11 +480,7 @@ impl TtyState {
                             cur_column,
                             cur_breaks,
                         )?;
-                        if real_column == term_width
-                            && cur_column + 1 == term_width
-                        {
-                            term.print_spaces(1)?;
-                        } else if cur_column == term_width {
+                        if cur_column == term_width {
                             term.newline()?;
                             term.clear_forward_and_reset()?;
                             real_column = 0;
-- 
2.43.0


From 857a14cfb47e93bab337a5d5c777db4e991a3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:57 +0000
Subject: [PATCH 24/34] fix: VT52: print as many substitutes for a character as
 it has columns

---
 src/term/vt52.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index d02b4e5..d66c7f4 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -276,7 +276,9 @@ impl Term for Vt52 {
     }
     fn print_char(&mut self, ch: char) -> LifeOrDeath {
         if ch >= '\u{0080}' {
-            self.stdout.write_all(b"\x7F")?;
+            for _ in 0..UnicodeWidthChar::width(ch).unwrap_or(0) {
+                self.stdout.write_all(b"\x7F")?;
+            }
         } else {
             self.stdout.write_all(&[ch as u8])?;
         }
-- 
2.43.0


From ca40fa28675d9e6021002a3b527572169fb2bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:06 +0000
Subject: [PATCH 25/34] fix: wrapped lines could be wider than asked for

---
 src/line.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 3f4986e..037f308 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -404,7 +404,19 @@ impl Line {
             if start >= end {
                 continue;
             }
-            let wrap_vec = textwrap::wrap(&self.text[start..end], width);
+            let mut wrap_vec = textwrap::wrap(&self.text[start..end], width);
+            // The default algorithm would rather let a line be a little too
+            // wide than leave a very uneven right edge. We can't have that.
+            if wrap_vec
+                .iter()
+                .any(|x| textwrap::core::display_width(x) > width)
+            {
+                wrap_vec = textwrap::wrap(
+                    &self.text[start..end],
+                    textwrap::Options::new(width)
+                        .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit),
+                );
+            }
             let mut edit_vec = Vec::with_capacity(wrap_vec.len());
             let mut cur_end = start;
             for el in wrap_vec.into_iter() {
-- 
2.43.0


From 01993b4608295a9e08083baf983af468b251ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:07 +0000
Subject: [PATCH 26/34] fix: an indented word that doesn't fit was not wrapped
 after a newline

---
 src/line.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 037f308..a35922f 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -442,7 +442,8 @@ impl Line {
                 cur_end = end;
             }
             for range in edit_vec.into_iter().rev() {
-                if range.start > 0
+                if range.is_empty()
+                    && range.start > 0
                     && self.text.as_bytes()[range.start - 1] == b'\n'
                 {
                     continue;
-- 
2.43.0


From 598d6e5cba3d0245be60031c2f791742059cc1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:59 +0000
Subject: [PATCH 27/34] fix: a second InputOutput could be created while the
 first was still shutting down

---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1efbd09..a89c773 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -806,15 +806,16 @@ impl Output {
 
 impl Drop for InputOutput {
     fn drop(&mut self) {
+        self.actually_blocking_die();
+        #[cfg(feature = "capture-stderr")]
+        stderr_capture::wait_until_not_captured();
+        // Now that we're gone completely, allow another instance.
         #[cfg(feature = "global")]
         {
             *LISO_OUTPUT_TX.lock() = None;
         }
-        self.actually_blocking_die();
         #[cfg(not(feature = "global"))]
         LISO_IS_ACTIVE.store(false, Ordering::Release);
-        #[cfg(feature = "capture-stderr")]
-        stderr_capture::wait_until_not_captured();
     }
 }
 
-- 
2.43.0


From 6c0e2fcd4e410a714241fa286d042cdb8af020bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:52 +0000
Subject: [PATCH 28/34] fix: shutting down on a VT52 waited for a key press

---
 src/term/vt52.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index d66c7f4..ad6b485 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -136,6 +136,13 @@ impl Vt52 {
         };
         let (input_tx, input_rx) = std_mpsc::sync_channel(1);
         std::thread::Builder::new()
+            .name("Liso input processing thread".to_owned())
+            .spawn(move || {
+                let _ = input_thread(input_rx, req_tx);
+            })
+            .unwrap();
+        // this is the thread that has to be interrupted when we're done
+        let input_thread = std::thread::Builder::new()
             .name("Liso raw stdin thread".to_owned())
             .spawn(move || {
                 let stdin = std::io::stdin();
@@ -155,12 +162,6 @@ impl Vt52 {
                 }
             })
             .unwrap();
-        let input_thread = std::thread::Builder::new()
-            .name("Liso input processing thread".to_owned())
-            .spawn(move || {
-                let _ = input_thread(input_rx, req_tx);
-            })
-            .unwrap();
         let stdout = std::io::stdout();
         let mut ret = Vt52 {
             stdout,
-- 
2.43.0


From 3a719448ef739a61e8fbd007c8accaabcf728db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:01 +0000
Subject: [PATCH 29/34] fix: after a panic, a VT52 was sent ANSI sequences

---
 src/term/vt52.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index ad6b485..c9a755b 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -392,16 +392,15 @@ impl Term for Vt52 {
         self.cur_style = Style::PLAIN;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
+        let white_on_black = self.white_on_black;
         panic::set_hook(Box::new(move |info| {
             let mut stdout = std::io::stdout();
-            let _ = queue!(
-                stdout,
-                cursor::Show,
-                terminal::EnableLineWrap,
-                style::ResetColor,
-                style::SetAttribute(CtAttribute::Reset),
-                terminal::Clear(terminal::ClearType::FromCursorDown)
-            );
+            // the same thing that `suspend` does
+            let _ = if white_on_black {
+                write!(stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")
+            } else {
+                write!(stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")
+            };
             let _ = stdout.flush();
             let _ = terminal::disable_raw_mode();
             default_hook(info)
-- 
2.43.0


From 5be18ccde06dc03c3cc758bb9ab2753032b02faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:50 +0000
Subject: [PATCH 30/34] fix: VT52: the panic hook was put back before raw mode
 was switched off

---
 src/term/vt52.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index c9a755b..80f4087 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -418,10 +418,10 @@ impl Term for Vt52 {
             write!(self.stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")?;
         }
         self.stdout.flush()?;
+        terminal::disable_raw_mode()?;
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
-        terminal::disable_raw_mode()?;
         self.suspended = true;
         Ok(())
     }
-- 
2.43.0


From 8b7df894574e69f0eb5bfbed96d20c8ce1015a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:50 +0000
Subject: [PATCH 31/34] fix: a panic while Liso started was reported on a
 terminal in raw mode

---
 src/worker.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index e6d0a01..e9c4038 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1431,7 +1431,6 @@ fn tty_worker(
             }
         })
         .unwrap();
-    crossterm::terminal::enable_raw_mode()?;
     let term = new_term(&req_tx)?;
     let mut state = TtyState {
         status: None,
-- 
2.43.0


From 6703807b55de8ba34f26fd5dee15641ac3fb8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:17 +0000
Subject: [PATCH 32/34] fix: descriptors were left open when capturing stderr
 could not be set up

---
 src/stderr_capture.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 8d7e59d..7f2249c 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -174,6 +174,8 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
     let real_stderr = match dup(STDERR_FD) {
         Ok(x) => x,
         Err(x) => {
+            close(r);
+            close(w);
             let _ = output.tx.send(crate::Request::StderrLine(format!(
                 "dup(STDERR_FD) returned error {:?} when attempting to capture stderr.",
                 x
@@ -184,6 +186,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
     if let Err(x) = dup2(w, STDERR_FD) {
         close(r);
         close(w);
+        close(real_stderr);
         let _ = output.tx.send(crate::Request::StderrLine(format!(
             "dup2() returned error {:?} when attempting to capture stderr.",
             x
-- 
2.43.0


From 9b84a85b38ec611dd94406b06bac239e26f04b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:20 +0000
Subject: [PATCH 33/34] fix: println! and wrapln! only compiled where liso! was
 imported

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a89c773..a64cf46 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1481,7 +1481,7 @@ pub fn output() -> OutputOnly {
 #[macro_export]
 macro_rules! println {
     ($($rest:tt)*) => {
-        $crate::output().println(liso!($($rest)*))
+        $crate::output().println($crate::liso!($($rest)*))
     }
 }
 
@@ -1496,7 +1496,7 @@ macro_rules! println {
 #[macro_export]
 macro_rules! wrapln {
     ($($rest:tt)*) => {
-        $crate::output().wrapln(liso!($($rest)*))
+        $crate::output().wrapln($crate::liso!($($rest)*))
     }
 }
 
-- 
2.43.0


From 4d523bca9d993e703c1c2ab942eeea641f72b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:03 +0000
Subject: [PATCH 34/34] fix: stderr was closed when its capture had ended by
 itself before Liso did

---
 src/stderr_capture.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 7f2249c..4459624 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -11,7 +11,9 @@ use libc::c_int;
 use parking_lot::Mutex;
 
 const STDERR_FD: c_int = 2;
-static STDERR_CAPTURE_THREAD: Mutex<Option<JoinHandle<()>>> = Mutex::new(None);
+/// The capturing thread, and a descriptor for the real stderr.
+static STDERR_CAPTURE_THREAD: Mutex<Option<(JoinHandle<()>, c_int)>> =
+    Mutex::new(None);
 
 fn pipe() -> Result<(c_int, c_int), c_int> {
     #[cfg(any(target_family = "windows", target_family = "unix"))]
@@ -194,7 +196,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         return;
     }
     close(w); // it is now staying alive as STDERR_FD
-    *lock = Some(std::thread::spawn(move || {
+    let thread = std::thread::spawn(move || {
         let mut buf = vec![0u8; 128];
         let mut buf_pos = 0;
         'outer: loop {
@@ -283,7 +285,6 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         // sent "successfully" were lost. Oh well.
         dup2(real_stderr, STDERR_FD)
             .expect("Unable to reduplicate stderr back into place!");
-        close(real_stderr);
         // Any remaining output waiting in the pipe, process.
         while let Ok(amount) = read(r, &mut buf[..]) {
             if amount == 0 {
@@ -292,14 +293,19 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
             let _ = write_all(STDERR_FD, &buf[..amount]);
         }
         close(r);
-    }));
+    });
+    *lock = Some((thread, real_stderr));
 }
 
 pub(crate) fn wait_until_not_captured() {
     let mut lock = STDERR_CAPTURE_THREAD.lock();
-    if let Some(x) = lock.take() {
-        close(STDERR_FD); // :(
+    if let Some((x, real_stderr)) = lock.take() {
+        // This ends the pipe. (Don't just close STDERR_FD; the thread may have
+        // put the real stderr back into place already.)
+        dup2(real_stderr, STDERR_FD)
+            .expect("Unable to reduplicate stderr back into place!");
         let _ = x.join();
+        close(real_stderr);
     }
     // Do not drop the lock until here! Nobody else should be allowed to
     // think they can join before us!
-- 
2.43.0

