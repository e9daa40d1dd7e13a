From 1082fabe373c2b689efc0bec69f72cddadb1d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 01/47] fix: do not lose the pushed entry when the history file
 is compacted

---
 src/history.rs | 45 ++++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index d1dfad4..27ca3af 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -256,45 +256,28 @@ impl History {
         }
 
         if self.inc_append && self.file_name.is_some() {
+            let file_name = self.file_name.clone().unwrap();
+            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
+                let mut file = BufWriter::new(inner_file);
+                let _ = file.write_all(&item_str.as_bytes());
+                let _ = file.write_all(b"\n");
+                // Save the filesize after each append so we do not reload when we do not need to.
+                self.file_size += item_str.len() as u64 + 1;
+            }
             if !self.load_duplicates {
                 // Do not want duplicates so periodically compact the history file.
                 self.compaction_writes += 1;
-                // Every 30 writes "compact" the history file by writing just in memory history.  This
-                // is to keep the history file clean and at a reasonable size (not much over max
-                // history size at it's worst).
+                // Every 30 writes "compact" the history file.  This is to keep the history file
+                // clean and at a reasonable size (not much over max history size at it's worst).
+                // The new entry has already been appended, so the file has all there is to keep.
                 if self.compaction_writes > 29 {
+                    let _ = History::deduplicate_history_file(file_name, self.max_file_size);
                     if self.share {
-                        // Reload history, we may be out of sync.
-                        let _ = self.load_history(false);
-                        // Commit the duplicated history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ = self.overwrite_history(file_name);
-                        }
-                    } else {
-                        // Not using shared history so just de-dup the file without messing with
-                        // our history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ =
-                                History::deduplicate_history_file(file_name, self.max_file_size);
-                        }
+                        // Our history may be out of sync with the file, trigger a reload later.
+                        self.file_size = 0;
                     }
                     self.compaction_writes = 0;
                 }
-            } else {
-                // If allowing duplicates then no need for compaction.
-                self.compaction_writes = 1;
-            }
-            let file_name = self.file_name.clone().unwrap();
-            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
-                // Leave file size alone, if it is not right trigger a reload later.
-                if self.compaction_writes > 0 {
-                    // If 0 we "compacted" and nothing to write.
-                    let mut file = BufWriter::new(inner_file);
-                    let _ = file.write_all(&item_str.as_bytes());
-                    let _ = file.write_all(b"\n");
-                    // Save the filesize after each append so we do not reload when we do not need to.
-                    self.file_size += item_str.len() as u64 + 1;
-                }
             }
         }
         Ok(())
-- 
2.43.0


From 2da68c4cecfb1f7b55f382f789969d104713f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 02/47] fix: report failed writes when rewriting the history
 file

---
 src/history.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 27ca3af..1aa6f54 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -192,9 +192,10 @@ impl History {
             let mut file = BufWriter::new(File::create(&path)?);
             // Write the commands to the history file.
             for command in buf.into_iter() {
-                let _ = file.write_all(&command.as_bytes());
-                let _ = file.write_all(b"\n");
+                file.write_all(&command.as_bytes())?;
+                file.write_all(b"\n")?;
             }
+            file.flush()?;
         }
         Ok("De-duplicated history file.".to_string())
     }
@@ -366,9 +367,10 @@ impl History {
 
         // Write the commands to the history file.
         for command in self.buffers.iter().cloned() {
-            let _ = file.write_all(&String::from(command).as_bytes());
-            let _ = file.write_all(b"\n");
+            file.write_all(&String::from(command).as_bytes())?;
+            file.write_all(b"\n")?;
         }
+        file.flush()?;
         Ok("Wrote history to file.".to_string())
     }
 
-- 
2.43.0


From dc5e749579d6a4459df1d36641b00a998e41b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 03/47] fix: append a history entry with a single write

---
 src/history.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1aa6f54..c003fa9 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -258,12 +258,15 @@ impl History {
 
         if self.inc_append && self.file_name.is_some() {
             let file_name = self.file_name.clone().unwrap();
-            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
-                let mut file = BufWriter::new(inner_file);
-                let _ = file.write_all(&item_str.as_bytes());
-                let _ = file.write_all(b"\n");
-                // Save the filesize after each append so we do not reload when we do not need to.
-                self.file_size += item_str.len() as u64 + 1;
+            if let Ok(mut file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
+                // Write the whole line at once so that it can not be mixed with the lines other
+                // sessions append at the same time.
+                let line = item_str + "\n";
+                // Leave file size alone on failure, if it is not right trigger a reload later.
+                if file.write_all(line.as_bytes()).is_ok() {
+                    // Save the filesize after each append so we do not reload when we do not need to.
+                    self.file_size += line.len() as u64;
+                }
             }
             if !self.load_duplicates {
                 // Do not want duplicates so periodically compact the history file.
-- 
2.43.0


From 554a3f5040d9bcb06fa9c12e4150b85b5b08ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 04/47] fix: start a new line when appending to a history file
 with an unfinished last line

---
 src/history.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index c003fa9..4dedeeb 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -3,7 +3,7 @@ use super::*;
 use std::{
     collections::{vec_deque, VecDeque},
     fs::File,
-    io::{self, Write},
+    io::{self, Read, Seek, SeekFrom, Write},
     io::{BufRead, BufReader, BufWriter},
     iter::IntoIterator,
     ops::Index,
@@ -258,10 +258,22 @@ impl History {
 
         if self.inc_append && self.file_name.is_some() {
             let file_name = self.file_name.clone().unwrap();
-            if let Ok(mut file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
+            if let Ok(mut file) = std::fs::OpenOptions::new()
+                .read(true)
+                .append(true)
+                .open(&file_name)
+            {
                 // Write the whole line at once so that it can not be mixed with the lines other
                 // sessions append at the same time.
-                let line = item_str + "\n";
+                let mut line = item_str + "\n";
+                // If the last line was left unfinished (by a crash or a full disk) do not continue it.
+                let mut last = [b'\n'];
+                if file.seek(SeekFrom::End(-1)).is_ok() {
+                    let _ = file.read_exact(&mut last);
+                }
+                if last != [b'\n'] {
+                    line.insert(0, '\n');
+                }
                 // Leave file size alone on failure, if it is not right trigger a reload later.
                 if file.write_all(line.as_bytes()).is_ok() {
                     // Save the filesize after each append so we do not reload when we do not need to.
-- 
2.43.0


From 3b7eb2c05c58d4f99db5a56f95bc5bad2680ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 05/47] fix: do not drop the rest of a history file after
 invalid UTF-8 or a read error

---
 src/history.rs | 47 ++++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 4dedeeb..11825af 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -114,20 +114,11 @@ impl History {
             self.clear_history();
         }
         if new_length != length {
+            let lines = History::read_history_lines(file)?;
             if !append {
                 self.clear_history();
             }
-            let reader = BufReader::new(file);
-            for line in reader.lines() {
-                match line {
-                    Ok(line) => {
-                        if !line.starts_with('#') {
-                            self.buffers.push_back(Buffer::from(line));
-                        }
-                    }
-                    Err(_) => break,
-                }
-            }
+            self.buffers.extend(lines.into_iter().map(Buffer::from));
             self.truncate();
             if !self.load_duplicates {
                 let mut tmp_buffers: Vec<Buffer> = Vec::with_capacity(self.buffers.len());
@@ -144,6 +135,27 @@ impl History {
         Ok(new_length)
     }
 
+    /// Reads all entries of a history file (every line that is not a comment).  Bytes that are not
+    /// valid UTF-8 are replaced.
+    fn read_history_lines(file: File) -> io::Result<VecDeque<String>> {
+        let mut lines = VecDeque::new();
+        let mut reader = BufReader::new(file);
+        let mut bytes = Vec::new();
+        while reader.read_until(b'\n', &mut bytes)? > 0 {
+            if bytes.ends_with(b"\n") {
+                bytes.pop();
+                if bytes.ends_with(b"\r") {
+                    bytes.pop();
+                }
+            }
+            if !bytes.starts_with(b"#") {
+                lines.push_back(String::from_utf8_lossy(&bytes).into_owned());
+            }
+            bytes.clear();
+        }
+        Ok(lines)
+    }
+
     /// Removes duplicates and trims a history file to max_file_size.
     /// Primarily if inc_append is set without shared history.
     /// Static because it should have no side effects on a history object.
@@ -158,18 +170,7 @@ impl History {
             let status = format!("File not found {:?}", path);
             return Err(io::Error::new(io::ErrorKind::Other, status));
         };
-        let mut buf: VecDeque<String> = VecDeque::new();
-        let reader = BufReader::new(file);
-        for line in reader.lines() {
-            match line {
-                Ok(line) => {
-                    if !line.starts_with('#') {
-                        buf.push_back(line);
-                    }
-                }
-                Err(_) => break,
-            }
-        }
+        let mut buf = History::read_history_lines(file)?;
         let org_length = buf.len();
         if buf.len() >= max_file_size {
             let pop_out = buf.len() - max_file_size;
-- 
2.43.0


From 50056b9f01cae54382535ea2657b7ce65980772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 06/47] fix: do not truncate a history file another session has
 just created

---
 src/history.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index 11825af..de30b87 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -212,7 +212,11 @@ impl History {
                 l
             })
         } else {
-            File::create(path)?;
+            // Do not truncate, another session may have created it and written to it meanwhile.
+            std::fs::OpenOptions::new()
+                .append(true)
+                .create(true)
+                .open(path)?;
             Ok(0)
         }
     }
-- 
2.43.0


From 571f8b5926d2052c86734fd65c1c37ec32df3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 07/47] fix: compare whole entries when removing duplicates
 from the history

---
 src/history.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index de30b87..1d1d6fd 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -307,7 +307,7 @@ impl History {
     /// Removes duplicate entries in the history
     pub fn remove_duplicates(&mut self, input: &str) {
         self.buffers.retain(|buffer| {
-            let command = buffer.lines().concat();
+            let command = buffer.to_string();
             command != input
         });
     }
-- 
2.43.0


From f96a6bc97994543b2c73a72089ed9128bc26a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 08/47] fix: use the width of the context's terminal instead of
 the one of stdout

---
 src/editor.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index dbf752d..d3f7c24 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -490,17 +490,16 @@ impl<C: EditorContext> Editor<C> {
     fn print_completion_list(
         completions: &[String],
         highlighted: Option<usize>,
+        w: usize,
         output_buf: &mut String,
     ) -> io::Result<usize> {
         use std::cmp::max;
 
-        let (w, _) = termion::terminal_size()?;
-
         // XXX wide character support
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
-        let cols = max(1, w as usize / (max_word_size));
-        let col_width = 2 + w as usize / cols;
-        let cols = max(1, w as usize / col_width);
+        let cols = max(1, w / (max_word_size));
+        let col_width = 2 + w / cols;
+        let cols = max(1, w / col_width);
 
         let lines = completions.len() / cols;
 
@@ -1007,7 +1006,7 @@ impl<C: EditorContext> Editor<C> {
 
         let (prompt, rev_prompt_width) = self.search_prompt();
 
-        let terminal_width = util::terminal_width()?;
+        let terminal_width = self.context.terminal().width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
@@ -1062,7 +1061,8 @@ impl<C: EditorContext> Editor<C> {
         // If we're cycling through completions, show those
         let mut completion_lines = 0;
         if let Some((completions, i)) = self.show_completions_hint.as_ref() {
-            completion_lines = 1 + Self::print_completion_list(completions, *i, &mut out_buf)?;
+            completion_lines =
+                1 + Self::print_completion_list(completions, *i, terminal_width, &mut out_buf)?;
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From f4239c3860d5b8ac0e3e5eb20c05cdcc1edca10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 09/47] fix: count the lines the completion list takes up

---
 src/editor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index d3f7c24..e26121b 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -498,15 +498,18 @@ impl<C: EditorContext> Editor<C> {
         // XXX wide character support
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
         let cols = max(1, w / (max_word_size));
-        let col_width = 2 + w / cols;
+        // A single column is not padded past the end of the row
+        let col_width = cmp::min(2 + w / cols, w);
         let cols = max(1, w / col_width);
 
-        let lines = completions.len() / cols;
+        // Index of the last line
+        let mut lines = 0;
 
         let mut i = 0;
         for (index, com) in completions.iter().enumerate() {
             if i == cols {
                 output_buf.push_str("\r\n");
+                lines += 1;
                 i = 0;
             } else if i > cols {
                 unreachable!()
@@ -522,6 +525,8 @@ impl<C: EditorContext> Editor<C> {
                 .map_err(io::Error::other)?;
             }
             write!(output_buf, "{:<1$}", com, col_width).map_err(io::Error::other)?;
+            // A word longer than the row continues on the next ones
+            lines += com.chars().count().saturating_sub(1) / w;
             if Some(index) == highlighted {
                 write!(
                     output_buf,
-- 
2.43.0


From e463b16f1472c53db6f5c293ff1cca4cfead6aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 10/47] fix: clear the screen on the terminal

---
 src/editor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index e26121b..70b0b49 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -657,8 +657,12 @@ impl<C: EditorContext> Editor<C> {
 
     /// Clears the screen then prints the prompt and current buffer.
     pub fn clear(&mut self) -> io::Result<()> {
-        write!(&mut self.context, "{}{}", clear::All, cursor::Goto(1, 1))
-            .map_err(io::Error::other)?;
+        write!(
+            self.context.terminal_mut(),
+            "{}{}",
+            clear::All,
+            cursor::Goto(1, 1)
+        )?;
 
         self.term_cursor_line = 1;
         self.clear_search();
-- 
2.43.0


From ee4a481fb96aa4f5edacaad4147ac98c3bdfaa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 11/47] fix: do not draw the last line of the prompt twice

---
 src/editor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 70b0b49..ec417c6 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -270,9 +270,11 @@ impl<C: EditorContext> Editor<C> {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
-            out.write_all(prompt.split('\n').join("\r\n").as_bytes())?;
+            // The last line of the prompt is drawn together with the buffer
             if let Some(index) = prompt.rfind('\n') {
-                prompt = prompt.split_at(index + 1).1.into()
+                let (first_lines, last_line) = prompt.split_at(index + 1);
+                out.write_all(first_lines.split('\n').join("\r\n").as_bytes())?;
+                prompt = last_line.into()
             }
         }
 
-- 
2.43.0


From b8ec0cfd1e076051d6f9d3f36f2ba3a4e65a926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 12/47] fix: place the cursor where the terminal puts the text

---
 src/editor.rs | 119 ++++++++++++++++++++++----------------------------
 src/util.rs   |  19 ++++++++
 2 files changed, 72 insertions(+), 66 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index ec417c6..010a562 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1,7 +1,6 @@
 use std::fmt::{self, Write};
 use std::io::{self, Write as _};
 use std::{cmp, iter, mem};
-use strip_ansi_escapes::strip;
 use termion::{self, clear, color, cursor};
 
 use super::complete::Completer;
@@ -971,7 +970,8 @@ impl<C: EditorContext> Editor<C> {
     }
 
     /// Override the prompt for incremental search if needed.
-    fn search_prompt(&mut self) -> (String, usize) {
+    /// Also returns what is printed in front of the search text.
+    fn search_prompt(&mut self) -> (String, String) {
         if self.is_search() {
             // If we are searching override prompt to search prompt.
             let (hplace, color) = if self.history_subset_index.is_empty() {
@@ -993,35 +993,20 @@ impl<C: EditorContext> Editor<C> {
                     hplace,
                     self.history_subset_index.len()
                 ),
-                strip(&prefix).len() + 9,
+                format!("{}(search)'", util::remove_codes(prefix)),
             )
         } else {
-            (self.prompt.to_string(), 0)
+            (self.prompt.to_string(), String::new())
         }
     }
 
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
-        fn calc_width(prompt_width: usize, buf_widths: &[usize], terminal_width: usize) -> usize {
-            let mut total = 0;
-
-            for line in buf_widths {
-                if total % terminal_width != 0 {
-                    total = ((total / terminal_width) + 1) * terminal_width;
-                }
-
-                total += prompt_width + line;
-            }
-
-            total
-        }
-
-        let (prompt, rev_prompt_width) = self.search_prompt();
+        let (prompt, search_prefix) = self.search_prompt();
 
         let terminal_width = self.context.terminal().width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
-        let buf_width = buf.width();
 
         // Don't let the cursor go over the end!
         let buf_num_chars = buf.num_chars();
@@ -1034,28 +1019,35 @@ impl<C: EditorContext> Editor<C> {
             self.cursor -= 1;
         }
 
-        let buf_widths = match self.autosuggestion {
-            Some(ref suggestion) => suggestion.width(),
-            None => buf_width,
+        // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
+        let lines = match self.autosuggestion {
+            Some(ref suggestion) if show_autosuggest => suggestion.lines(),
+            _ => buf.lines(),
         };
-        // Width of the current buffer lines (including autosuggestion) from the start to the cursor
-        let buf_widths_to_cursor = match self.autosuggestion {
-            // Cursor might overrun autosuggestion with history search.
-            Some(ref suggestion) if self.cursor < suggestion.num_chars() => {
-                suggestion.range_width(0, self.cursor)
+
+        // Positions (row and column) on the screen, relative to the start of the prompt
+        let position_after = |start: (usize, usize), text: &str| {
+            let mut position = start;
+            for (i, line) in text.split('\n').enumerate() {
+                if i > 0 {
+                    position = (position.0 + 1, cmp::min(prompt_width, terminal_width - 1));
+                }
+                position = util::advance_position(position, line, terminal_width);
             }
-            _ => buf.range_width(0, self.cursor),
+            position
         };
-
-        // Total number of terminal spaces taken up by prompt and buffer
-        let new_total_width = calc_width(prompt_width, &buf_widths, terminal_width);
-        let new_total_width_to_cursor = if self.is_search() {
-            calc_width(rev_prompt_width, &buf_widths_to_cursor, terminal_width)
+        let prompt_end =
+            util::advance_position((0, 0), &util::remove_codes(&prompt), terminal_width);
+        let mut end_position = position_after(prompt_end, &lines.join("\n"));
+        let mut cursor_position = if self.is_search() {
+            // the cursor is in the search text
+            position_after((0, 0), &(search_prefix + &buf.range(0, self.cursor)))
         } else {
-            calc_width(prompt_width, &buf_widths_to_cursor, terminal_width)
+            position_after(prompt_end, &buf.range(0, self.cursor))
         };
-
-        let new_num_lines = (new_total_width + terminal_width) / terminal_width;
+        if cursor_position.1 == terminal_width {
+            cursor_position = (cursor_position.0 + 1, 0);
+        }
 
         let mut out_buf = String::new();
 
@@ -1080,27 +1072,27 @@ impl<C: EditorContext> Editor<C> {
         // Write the prompt
         write!(&mut out_buf, "{}", prompt).map_err(io::Error::other)?;
 
-        // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
-        // We get the number of bytes in the buffer (but NOT the autosuggestion).
+        // We get the number of chars in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
         // the autosuggestion from here on (in a different color).
-        let lines = match self.autosuggestion {
-            Some(ref suggestion) if show_autosuggest => suggestion.lines(),
-            _ => buf.lines(),
-        };
-        let mut buf_num_remaining_bytes = buf.num_bytes();
+        let mut buf_num_remaining_chars = buf.num_chars();
 
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
-            if i > 0 {
+            if i > 0 && prompt_width > 0 {
                 write!(out_buf, "{}", cursor::Right(prompt_width as u16))
                     .map_err(io::Error::other)?;
             }
 
-            if buf_num_remaining_bytes == 0 {
+            let line_num_chars = line.chars().count();
+            if buf_num_remaining_chars == 0 {
                 out_buf.push_str(&line);
-            } else if line.len() > buf_num_remaining_bytes {
-                let start = &line[..buf_num_remaining_bytes];
+            } else if line_num_chars > buf_num_remaining_chars {
+                let (start, rest) = line.split_at(
+                    line.char_indices()
+                        .nth(buf_num_remaining_chars)
+                        .map_or(line.len(), |(index, _)| index),
+                );
                 let start = match self.closure {
                     Some(ref f) => f(start),
                     None => start.to_owned(),
@@ -1112,10 +1104,11 @@ impl<C: EditorContext> Editor<C> {
                 if !self.is_search() {
                     write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
                 }
-                out_buf.push_str(&line[buf_num_remaining_bytes..]);
-                buf_num_remaining_bytes = 0;
+                out_buf.push_str(rest);
+                buf_num_remaining_chars = 0;
             } else {
-                buf_num_remaining_bytes -= line.len();
+                // the line and the line break after it
+                buf_num_remaining_chars = buf_num_remaining_chars.saturating_sub(line_num_chars + 1);
                 let written_line = match self.closure {
                     Some(ref f) => f(&line),
                     None => line,
@@ -1136,32 +1129,26 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // at the end of the line, move the cursor down a line
-        if new_total_width % terminal_width == 0 {
+        if end_position.1 == terminal_width {
             out_buf.push_str("\r\n");
+            end_position = (end_position.0 + 1, 0);
         }
 
-        self.term_cursor_line = (new_total_width_to_cursor + terminal_width) / terminal_width;
+        self.term_cursor_line = cursor_position.0 + 1;
 
         // The term cursor is now on the bottom line. We may need to move the term cursor up
         // to the line where the true cursor is.
-        let cursor_line_diff = new_num_lines as isize - self.term_cursor_line as isize;
+        let cursor_line_diff = end_position.0.saturating_sub(cursor_position.0);
         if cursor_line_diff > 0 {
             write!(&mut out_buf, "{}", cursor::Up(cursor_line_diff as u16))
                 .map_err(io::Error::other)?;
-        } else if cursor_line_diff < 0 {
-            unreachable!();
         }
 
-        // Now that we are on the right line, we must move the term cursor left or right
-        // to match the true cursor.
-        let cursor_col_diff = new_total_width as isize
-            - new_total_width_to_cursor as isize
-            - cursor_line_diff * terminal_width as isize;
-        if cursor_col_diff > 0 {
-            write!(&mut out_buf, "{}", cursor::Left(cursor_col_diff as u16))
-                .map_err(io::Error::other)?;
-        } else if cursor_col_diff < 0 {
-            write!(&mut out_buf, "{}", cursor::Right((-cursor_col_diff) as u16))
+        // Now that we are on the right line, we must move the term cursor right to match the true
+        // cursor.
+        out_buf.push('\r');
+        if cursor_position.1 > 0 {
+            write!(&mut out_buf, "{}", cursor::Right(cursor_position.1 as u16))
                 .map_err(io::Error::other)?;
         }
 
diff --git a/src/util.rs b/src/util.rs
index 29fd13d..e21aae4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -88,6 +88,25 @@ pub fn handle_prompt(full_prompt: &str) -> &str {
     }
 }
 
+/// Returns the position (row and column) of the cursor after printing one line of text from the
+/// given position, on a terminal that is `terminal_width` columns wide.  The column is
+/// `terminal_width` if the row is filled up.
+pub fn advance_position(
+    (mut row, mut col): (usize, usize),
+    text: &str,
+    terminal_width: usize,
+) -> (usize, usize) {
+    for c in text.chars() {
+        let width = c.width().unwrap_or(0);
+        if width > 0 && col + width > terminal_width {
+            row += 1;
+            col = 0;
+        }
+        col += width;
+    }
+    (row, col)
+}
+
 pub fn terminal_width() -> io::Result<usize> {
     let (mut size_col, _) = ::termion::terminal_size()?;
     if size_col == 0 {
-- 
2.43.0


From 90ea34b1cfbfb8c65d15ec74b484ba6a2c2fea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 13/47] fix: keep the position in the history valid when the
 history is reloaded

---
 src/editor.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 010a562..62dd54b 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -385,6 +385,12 @@ impl<C: EditorContext> Editor<C> {
         if self.context.history().share && !self.history_fresh {
             let _ = self.context.history_mut().load_history(false);
             self.history_fresh = true;
+            // Positions in the history as it was before are of no use any more
+            self.history_subset_index.clear();
+            self.history_subset_loc = None;
+            if self.cur_history_loc >= Some(self.context.history().len()) {
+                self.cur_history_loc = None;
+            }
         }
     }
 
@@ -715,11 +721,12 @@ impl<C: EditorContext> Editor<C> {
         } else {
             self.hist_buf_valid = false;
             if self.new_buf.num_chars() > 0 {
-                if let Some(i) = self.history_subset_loc {
-                    if i < self.history_subset_index.len() - 1 {
+                match self.history_subset_loc {
+                    Some(i) if i < self.history_subset_index.len() - 1 => {
                         self.history_subset_loc = Some(i + 1);
                         self.cur_history_loc = Some(self.history_subset_index[i + 1]);
-                    } else {
+                    }
+                    _ => {
                         self.cur_history_loc = None;
                         self.history_subset_loc = None;
                         self.history_subset_index.clear();
@@ -740,7 +747,9 @@ impl<C: EditorContext> Editor<C> {
 
     /// Moves to the start of history (ie. the earliest history entry).
     pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
+        self.clear_search();
         self.hist_buf_valid = false;
+        self.freshen_history();
         if self.context.history().is_empty() {
             self.cur_history_loc = None;
             self.display()
@@ -752,6 +761,7 @@ impl<C: EditorContext> Editor<C> {
 
     /// Moves to the end of history (ie. the new buffer).
     pub fn move_to_end_of_history(&mut self) -> io::Result<()> {
+        self.clear_search();
         self.hist_buf_valid = false;
         if self.cur_history_loc.is_some() {
             self.cur_history_loc = None;
-- 
2.43.0


From 8dafeff3dbc270ff202aab85e500b301f430ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 14/47] fix: do not underflow on an empty line in vi normal
 mode

---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 62dd54b..b35c46d 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -914,7 +914,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn cursor_is_at_end_of_line(&self) -> bool {
         let num_chars = cur_buf!(self).num_chars();
         if self.no_eol {
-            self.cursor == num_chars - 1
+            self.cursor + 1 >= num_chars
         } else {
             self.cursor == num_chars
         }
-- 
2.43.0


From 86bed6eeb8a65a79752b6cd81e37fa67f6410287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 15/47] fix: do not take the text out of a history entry when
 executing it

---
 src/editor.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index b35c46d..cbad23c 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1196,16 +1196,12 @@ impl<C: EditorContext> Editor<C> {
 
     /// Remove and return the current buffer of commands to execute
     pub fn take_exec_buffer(&mut self) -> String {
-        mem::take(match self.cur_history_loc {
-            Some(i) => {
-                if self.hist_buf_valid {
-                    &mut self.hist_buf
-                } else {
-                    &mut self.context.history_mut()[i]
-                }
-            }
-            _ => &mut self.new_buf,
-        })
+        match self.cur_history_loc {
+            Some(_) if self.hist_buf_valid => mem::take(&mut self.hist_buf),
+            // The history keeps its entry
+            Some(i) => self.context.history()[i].clone(),
+            _ => mem::take(&mut self.new_buf),
+        }
         .into()
     }
 }
-- 
2.43.0


From 10151cd45ad5e7466df7d6ca79b13ebd86b959bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 16/47] fix: undo of an edited history entry stops at the entry

---
 src/editor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index cbad23c..c42afdb 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -227,6 +227,8 @@ macro_rules! cur_buf_mut {
             Some(i) => {
                 if !$s.hist_buf_valid {
                     $s.hist_buf.copy_buffer(&$s.context.history()[i]);
+                    // Undo goes back to the entry, not to what was recalled before it
+                    $s.hist_buf.clear_actions();
                     $s.hist_buf_valid = true;
                 }
                 &mut $s.hist_buf
-- 
2.43.0


From f9d733d87e3f9d869fb83344ba804e40d4b05f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 17/47] fix: do not delete past the end of the line

---
 src/editor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index c42afdb..f57c336 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -841,6 +841,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let position = cmp::min(position, buf.num_chars());
             buf.remove(
                 cmp::min(self.cursor, position),
                 cmp::max(self.cursor, position),
@@ -854,9 +855,11 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until_inclusive(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let num_chars = buf.num_chars();
+            let position = cmp::min(position, num_chars);
             buf.remove(
                 cmp::min(self.cursor, position),
-                cmp::max(self.cursor + 1, position + 1),
+                cmp::min(cmp::max(self.cursor + 1, position + 1), num_chars),
             );
             self.cursor = cmp::min(self.cursor, position);
         }
-- 
2.43.0


From 7ba63baecd28e8169445f567d63bebec9199e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 18/47] fix: flush the terminal when a session ends with ctrl-c
 or ctrl-d

---
 src/keymap/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/mod.rs b/src/keymap/mod.rs
index cb88917..4716a55 100644
--- a/src/keymap/mod.rs
+++ b/src/keymap/mod.rs
@@ -36,11 +36,13 @@ pub trait KeyMap: Default {
         match key {
             Key::Ctrl('c') => {
                 editor.handle_newline()?;
+                editor.flush()?;
                 return Err(io::Error::new(ErrorKind::Interrupted, "ctrl-c"));
             }
             // if the current buffer is empty, treat ctrl-d as eof
             Key::Ctrl('d') if is_empty => {
                 editor.handle_newline()?;
+                editor.flush()?;
                 return Err(io::Error::new(ErrorKind::UnexpectedEof, "ctrl-d"));
             }
             Key::Char('\t') => editor.complete(handler)?,
-- 
2.43.0


From 77eec543115cc08c0113b8e167d122090e674dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 19/47] fix: close the completion list on every other key

---
 src/keymap/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keymap/mod.rs b/src/keymap/mod.rs
index 4716a55..edf1525 100644
--- a/src/keymap/mod.rs
+++ b/src/keymap/mod.rs
@@ -51,18 +51,22 @@ pub trait KeyMap: Default {
             }
             Key::Ctrl('f') if editor.is_currently_showing_autosuggestion() => {
                 editor.accept_autosuggestion()?;
+                editor.skip_completions_hint();
             }
             Key::Ctrl('r') => {
                 editor.search(false)?;
+                editor.skip_completions_hint();
             }
             Key::Ctrl('s') => {
                 editor.search(true)?;
+                editor.skip_completions_hint();
             }
             Key::Right
                 if editor.is_currently_showing_autosuggestion()
                     && editor.cursor_is_at_end_of_line() =>
             {
                 editor.accept_autosuggestion()?;
+                editor.skip_completions_hint();
             }
             _ => {
                 self.handle_key_core(key, editor)?;
-- 
2.43.0


From 0ca4142347aa1cc34dd5dc7224a8ed9a3ca8ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 20/47] fix: replace the whole completion inserted last by the
 next one

---
 src/editor.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index f57c336..75b6fbc 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -562,12 +562,12 @@ impl<C: EditorContext> Editor<C> {
         if let Some((completions, i_in)) = self.show_completions_hint.take() {
             let i = i_in.map_or(0, |i| (i + 1) % completions.len());
 
-            match i_in {
-                Some(x) if cur_buf!(self) == &Buffer::from(&completions[x][..]) => {
-                    cur_buf_mut!(self).truncate(0);
-                    self.cursor = 0;
+            match i_in.and_then(|x| self.find_inserted_completion(&completions[x])) {
+                Some((start, end)) => {
+                    cur_buf_mut!(self).remove(start, end);
+                    self.cursor = start;
                 }
-                _ => self.delete_word_before_cursor(false)?,
+                None => self.delete_word_before_cursor(false)?,
             }
             self.insert_str_after_cursor(&completions[i])?;
 
@@ -625,6 +625,18 @@ impl<C: EditorContext> Editor<C> {
         }
     }
 
+    /// Returns where the completion inserted last is, if it is (still) before the cursor.
+    fn find_inserted_completion(&self, completion: &str) -> Option<(usize, usize)> {
+        let buf = cur_buf!(self);
+        let len = completion.chars().count();
+        // In vi normal mode the cursor may have been put on the last character
+        iter::once(self.cursor)
+            .chain(iter::once(buf.num_chars()).filter(|_| self.no_eol))
+            .filter(|end| *end >= len && buf.range(end - len, *end) == completion)
+            .map(|end| (end - len, end))
+            .next()
+    }
+
     fn get_word_before_cursor(&self, ignore_space_before_cursor: bool) -> Option<(usize, usize)> {
         let (mut words, pos) = self.get_words_and_cursor_position();
         match pos {
-- 
2.43.0


From 683381d422975cad99e65753901571f2d09584d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 21/47] fix: replace exactly the last argument fetched before,
 wherever the cursor is

---
 src/keymap/emacs.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/keymap/emacs.rs b/src/keymap/emacs.rs
index 9ee5b3d..fd4453c 100644
--- a/src/keymap/emacs.rs
+++ b/src/keymap/emacs.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::{cmp, io};
 use termion::event::Key;
 
 use crate::CursorPosition;
@@ -16,6 +16,8 @@ use crate::KeyMap;
 #[derive(Default)]
 pub struct Emacs {
     last_arg_fetch_index: Option<usize>,
+    // What the last arg fetch inserted before the cursor
+    last_arg_fetched: Vec<char>,
 }
 
 impl Emacs {
@@ -66,27 +68,30 @@ impl Emacs {
             return Ok(());
         }
 
+        // If did a last arg fetch just before this, we need to delete it so it can be replaced by
+        // this last arg fetch.
+        let cursor = ed.cursor();
+        let fetched = cursor.saturating_sub(self.last_arg_fetched.len());
+        if ed.current_buffer().range_chars(fetched, cursor) != self.last_arg_fetched {
+            self.last_arg_fetch_index = None;
+        }
+
+        let newest_index = ed.context().history().len() - 1;
         let history_index = match self.last_arg_fetch_index {
             Some(0) => return Ok(()),
-            Some(x) => x - 1,
-            None => ed
-                .current_history_location()
-                .unwrap_or(ed.context().history().len() - 1),
+            Some(x) => cmp::min(x - 1, newest_index),
+            None => ed.current_history_location().unwrap_or(newest_index),
         };
 
-        // If did a last arg fetch just before this, we need to delete it so it can be replaced by
-        // this last arg fetch.
-        if self.last_arg_fetch_index.is_some() {
-            let buffer_len = ed.current_buffer().num_chars();
-            if let Some(last_arg_len) = ed.current_buffer().last_arg().map(|x| x.len()) {
-                ed.delete_until(buffer_len - last_arg_len)?;
-            }
+        if self.last_arg_fetch_index.is_some() && fetched < cursor {
+            ed.delete_until(fetched)?;
         }
 
         // Actually insert it
         let buf = ed.context().history()[history_index].clone();
-        if let Some(last_arg) = buf.last_arg() {
-            ed.insert_chars_after_cursor(last_arg)?;
+        self.last_arg_fetched = buf.last_arg().unwrap_or_default().to_vec();
+        if !self.last_arg_fetched.is_empty() {
+            ed.insert_chars_after_cursor(&self.last_arg_fetched)?;
         }
 
         // Edit the index in case the user does a last arg fetch again.
-- 
2.43.0


From 4752ba6a85b3c26a91438f0f162ff2527c820ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 22/47] fix: do not panic on a terminal error in the vi key map

---
 src/keymap/vi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 979e287..dac0b1b 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -456,7 +456,7 @@ impl Vi {
         }
 
         if last_mode == Tilde {
-            ed.display().unwrap();
+            ed.display()?;
         }
         self.set_editor_mode(&mut ed)
     }
-- 
2.43.0


From 924914d61871061e5540fe2c9a2250b0bd907231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 23/47] fix: end the undo group of an aborted vi change

---
 src/keymap/vi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index dac0b1b..f18964f 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -463,6 +463,10 @@ impl Vi {
 
     /// Return to normal mode.
     fn normal_mode_abort<C: EditorContext>(&mut self, mut ed: &mut Editor<C>) -> io::Result<()> {
+        if self.mode_stack.0.contains(&Mode::Insert) {
+            // a change was aborted
+            ed.current_buffer_mut().end_undo_group();
+        }
         self.mode_stack.clear();
         ed.no_eol = true;
         self.count = 0;
-- 
2.43.0


From 8407dc8a4ef327658ffa0fe13d8248e61f2be009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 24/47] fix: abort a vi delete or change if the character is
 not found

---
 src/keymap/vi.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index f18964f..f391e15 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -497,6 +497,7 @@ impl Vi {
     fn repeat<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
         self.last_count = self.count;
         let keys = mem::replace(&mut self.last_command, Vec::new());
+        let inserts = self.last_insert.is_some();
 
         if let Some(insert_key) = self.last_insert {
             // enter insert mode if necessary
@@ -505,9 +506,13 @@ impl Vi {
 
         for k in &keys {
             self.handle_key_core(*k, ed)?;
+            if inserts && self.mode() == Mode::Normal {
+                // the movement of a change failed, there is nothing to insert into
+                break;
+            }
         }
 
-        if self.last_insert.is_some() {
+        if inserts && self.mode() != Mode::Normal {
             // leave insert mode
             self.handle_key_core(Key::Esc, ed)?;
         }
@@ -1005,28 +1010,28 @@ impl Vi {
                         move_type = Inclusive;
                         match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
                             Some(i) => ed.move_cursor_to(i - 1),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     RightAt => {
                         move_type = Inclusive;
                         match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
                             Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     LeftUntil => {
                         move_type = Exclusive;
                         match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
                             Some(i) => ed.move_cursor_to(i + 1),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     LeftAt => {
                         move_type = Exclusive;
                         match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
                             Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     Repeat | ReverseRepeat => unreachable!(),
-- 
2.43.0


From 0f602e7531315ff8d69ad9d3fbc4c7c95a812636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 25/47] fix: vi delete or change to the end of the word
 includes its last character

---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index f391e15..27c6085 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -767,12 +767,12 @@ impl Vi {
             Key::Char('e') => {
                 let count = self.move_count();
                 move_to_end_of_word(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('E') => {
                 let count = self.move_count();
                 move_to_end_of_word_ws(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('b') => {
                 let count = self.move_count();
-- 
2.43.0


From de9f1493f8f313a5feaf54c48660c81a3d68eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 26/47] fix: repeating a vi change to the end of the line
 leaves insert mode

---
 src/keymap/vi.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 27c6085..580921a 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -696,14 +696,9 @@ impl Vi {
                 ed.delete_all_after_cursor()
             }
             Key::Char('C') => {
-                // update the last command state
-                self.last_insert = None;
-                self.last_command.clear();
-                self.last_command.push(key);
+                self.last_insert = Some(key);
                 self.count = 0;
-                self.last_count = 0;
-
-                self.set_mode_preserve_last(Insert, ed)?;
+                self.set_mode(Insert, ed)?;
                 ed.delete_all_after_cursor()
             }
             Key::Char('.') => {
-- 
2.43.0


From 321bb3ed047aa934807d62840fc3d58bc14926ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 27/47] fix: repeat the last vi command also if it was dd or cc

---
 src/keymap/vi.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 580921a..eff8c92 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -933,12 +933,11 @@ impl Vi {
             // handle numeric keys
             (Key::Char('0'..='9'), _) => self.handle_key_normal(key, ed),
             (Key::Char('c'), Some(Key::Char('c'))) | (Key::Char('d'), None) => {
-                // updating the last command buffer doesn't really make sense in this context.
-                // Repeating 'dd' will simply erase and already erased line. Any other commands
-                // will then become the new last command and the user will need to press 'dd' again
-                // to clear the line. The same largely applies to the 'cc' command. We update the
-                // last command here anyway ¯\_(ツ)_/¯
+                // update the last command state
                 self.current_command.push(key);
+                mem::swap(&mut self.last_command, &mut self.current_command);
+                self.last_insert = self.current_insert;
+                self.last_count = 0;
 
                 // delete the whole line
                 self.count = 0;
-- 
2.43.0


From 74e579652f794bdef229d143488ddd96c73f3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 28/47] fix: vi word motions with a huge count stop at the edge
 of the line

---
 src/keymap/vi.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index eff8c92..8145abd 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -171,6 +171,7 @@ fn vi_move_word<C: EditorContext>(
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
         let buf = ed.current_buffer();
+        let before = cursor;
         let mut state = match buf.char_after(cursor) {
             None => break,
             Some(c) => match c {
@@ -203,6 +204,11 @@ fn vi_move_word<C: EditorContext>(
                 },
             }
         }
+
+        if cursor == before {
+            // at the edge of the line
+            break;
+        }
     }
 
     ed.move_cursor_to(cursor)
@@ -240,6 +246,7 @@ fn vi_move_word_end<C: EditorContext>(
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
         let buf = ed.current_buffer();
+        let before = cursor;
         let mut state = State::Whitespace;
 
         while direction.advance(&mut cursor, buf.num_chars()) {
@@ -280,6 +287,11 @@ fn vi_move_word_end<C: EditorContext>(
                 _ => {}
             }
         }
+
+        if cursor == before {
+            // at the edge of the line
+            break;
+        }
     }
 
     ed.move_cursor_to(cursor)
-- 
2.43.0


From 3b4e8634a4ff499f8c75755382c5ca2a0b27f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 29/47] fix: do not take anything but the closing quote off a
 quoted file name

---
 src/complete.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 6d75730..8ff88a2 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -59,10 +59,9 @@ impl Completer for FilenameCompleter {
         // XXX: this function is really bad, TODO rewrite
 
         let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
-            start = &start[1..];
-            if !start.is_empty() {
-                start = &start[..start.len() - 1];
-            }
+            // The closing quote may not have been typed yet
+            let (quote, quoted) = start.split_at(1);
+            start = quoted.strip_suffix(quote).unwrap_or(quoted);
             start.into()
         } else {
             start.replace(r"\ ", " ")
-- 
2.43.0


From e9dfbb95dca0715e11accfa0d32d7652004f7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 30/47] fix: do not panic completing the file name "."

---
 src/complete.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 8ff88a2..ead0671 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -78,6 +78,11 @@ impl Completer for FilenameCompleter {
             None => PathBuf::from(start_owned.as_str()),
         };
 
+        // `.` and `..` name a directory, they do not begin the name of a file
+        let names_dir = full_path.ends_with("..")
+            || start_owned == "."
+            || start_owned.ends_with("/.");
+
         let p;
         let start_name;
         let completing_dir;
@@ -86,7 +91,7 @@ impl Completer for FilenameCompleter {
             Some(parent)
                 if !start.is_empty()
                     && !start_owned.ends_with('/')
-                    && !full_path.ends_with("..") =>
+                    && !names_dir =>
             {
                 p = parent;
                 start_name = if self.case_sensitive {
@@ -107,8 +112,7 @@ impl Completer for FilenameCompleter {
             _ => {
                 p = full_path.as_path();
                 start_name = "".into();
-                completing_dir =
-                    start.is_empty() || start.ends_with('/') || full_path.ends_with("..");
+                completing_dir = start.is_empty() || start.ends_with('/') || names_dir;
             }
         }
 
-- 
2.43.0


From a2b87f335477b8dfa011842a13cba0520c061838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 31/47] fix: complete file names in the current directory

---
 src/complete.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/complete.rs b/src/complete.rs
index ead0671..b0972e2 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -1,7 +1,7 @@
 use crate::EditorContext;
 
 use super::event::Event;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 pub trait Completer {
     fn completions(&mut self, start: &str) -> Vec<String>;
@@ -116,6 +116,13 @@ impl Completer for FilenameCompleter {
             }
         }
 
+        // Without a working directory names are relative to the current one
+        let p = if p.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            p
+        };
+
         let read_dir = match p.read_dir() {
             Ok(x) => x,
             Err(_) => return vec![],
-- 
2.43.0


From 90b8a453b6f78008bd0ffc60a47a019700080497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 32/47] fix: do not end an undo group that was not started

---
 src/buffer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 93cc7e4..936b25a 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -113,7 +113,15 @@ impl Buffer {
     }
 
     pub fn end_undo_group(&mut self) {
-        self.actions.push(Action::EndGroup);
+        let open_groups = self.actions.iter().fold(0, |open, act| match act {
+            Action::StartGroup => open + 1,
+            Action::EndGroup => open - 1,
+            _ => open,
+        });
+        // The group may have been started on another buffer
+        if open_groups > 0 {
+            self.actions.push(Action::EndGroup);
+        }
     }
 
     pub fn undo(&mut self) -> bool {
-- 
2.43.0


From 9a6edd9362be6b93d3ced93bc4584817b6f85e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 33/47] fix: do not underflow on a terminal that reports no
 width

---
 src/editor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 75b6fbc..ed7e297 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -267,7 +267,9 @@ impl<C: EditorContext> Editor<C> {
         {
             let out = context.terminal_mut();
             out.write_all("⏎".as_bytes())?;
-            for _ in 0..(out.width().unwrap_or(80) - 1) {
+            // A terminal that does not know its width reports 0
+            let width = out.width().ok().filter(|&width| width > 0).unwrap_or(80);
+            for _ in 0..(width - 1) {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
@@ -1030,7 +1032,11 @@ impl<C: EditorContext> Editor<C> {
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
         let (prompt, search_prefix) = self.search_prompt();
 
-        let terminal_width = self.context.terminal().width()?;
+        let terminal_width = match self.context.terminal().width()? {
+            // A terminal that does not know its width reports 0
+            0 => 80,
+            width => width,
+        };
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
-- 
2.43.0


From 0bb6c59232497905c117d0ba458c570f83c05ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 34/47] fix: vi delete and change with home and end

---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 8145abd..81691a2 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -806,11 +806,11 @@ impl Vi {
                 self.count = self.count.saturating_mul(10).saturating_add(i);
                 Ok(())
             }
-            Key::Char('^') => {
+            Key::Char('^') | Key::Home => {
                 ed.move_cursor_to_start_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-            Key::Char('$') => {
+            Key::Char('$') | Key::End => {
                 ed.move_cursor_to_end_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-- 
2.43.0


From 29e176a6ec1bc3c07b9d1becf3def86a818adad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 35/47] fix: a vi count applies to the next command only

---
 src/keymap/vi.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 81691a2..092d534 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -723,7 +723,10 @@ impl Vi {
                     // otherwise use count
                     (_, _) => self.count,
                 };
-                self.repeat(ed)
+                self.repeat(ed)?;
+                // there may have been nothing to repeat
+                self.count = 0;
+                Ok(())
             }
             Key::Char('h') | Key::Left | Key::Backspace => {
                 let count = self.move_count_left(ed);
@@ -850,6 +853,7 @@ impl Vi {
                         ed.move_cursor_right(1)?;
                     }
                 }
+                self.count = 0;
                 self.pop_mode(ed)?;
                 Ok(())
             }
@@ -874,7 +878,10 @@ impl Vi {
                 }
                 Ok(())
             }
-            _ => self.handle_key_common(key, ed),
+            _ => {
+                self.count = 0;
+                self.handle_key_common(key, ed)
+            }
         }
     }
 
-- 
2.43.0


From 02f9465410505da026a42ad8177b7bfd4cbd75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 36/47] fix: go on below all of a finished line in vi normal
 mode

---
 src/editor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index ed7e297..1c255c5 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1075,6 +1075,9 @@ impl<C: EditorContext> Editor<C> {
         let mut cursor_position = if self.is_search() {
             // the cursor is in the search text
             position_after((0, 0), &(search_prefix + &buf.range(0, self.cursor)))
+        } else if !show_autosuggest {
+            // the line is finished, go on below all of it
+            end_position
         } else {
             position_after(prompt_end, &buf.range(0, self.cursor))
         };
-- 
2.43.0


From 3f4597f8cda2907b11bb4711b2c5fdeeedfbe4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 37/47] fix: a vi insertion started by a cursor key is repeated
 without the count before it

---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 092d534..f357e5f 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -586,6 +586,7 @@ impl Vi {
                     self.movement_reset = false;
                     // vim behaves as if this was 'i'
                     self.last_insert = Some(Key::Char('i'));
+                    self.last_count = 0;
                 }
                 self.last_command.push(key);
                 ed.insert_after_cursor(c)
@@ -599,6 +600,7 @@ impl Vi {
                     self.movement_reset = false;
                     // vim behaves as if this was 'i'
                     self.last_insert = Some(Key::Char('i'));
+                    self.last_count = 0;
                 }
                 self.last_command.push(key);
                 self.handle_key_common(key, ed)
-- 
2.43.0


From a17b9097d06144e0a92203d53fbd83540272d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 38/47] fix: do not end the line when reading a key is
 interrupted by a signal

---
 src/context.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 1e87ba8..a5b5426 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -76,7 +76,13 @@ pub trait Tty: io::Write {
 
 impl Tty for DefaultTty {
     fn next_key(&mut self) -> Option<io::Result<Key>> {
-        self.stdin.next()
+        loop {
+            match self.stdin.next() {
+                // A signal is no key (and not ctrl-c either)
+                Some(Err(ref e)) if e.kind() == io::ErrorKind::Interrupted => continue,
+                key => return key,
+            }
+        }
     }
 
     fn width(&self) -> io::Result<usize> {
-- 
2.43.0


From 6b9f53e137da7ee8eadfa6c8ecc949c0882f0e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 39/47] fix: do not keep everything drawn in the context's
 buffer

---
 src/editor.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 1c255c5..16b9ada 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1191,7 +1191,6 @@ impl<C: EditorContext> Editor<C> {
         self.term_cursor_line += completion_lines;
 
         {
-            write!(&mut self.context, "{}", out_buf).map_err(io::Error::other)?;
             let out = self.context.terminal_mut();
             out.write_all(out_buf.as_bytes())?;
             out.flush()
-- 
2.43.0


From f27130dd20c53f97bcd41342b8e72c01cbe80897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 40/47] fix: draw a suggestion that begins with a line break in
 its colour

---
 src/editor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 16b9ada..0975380 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1122,6 +1122,10 @@ impl<C: EditorContext> Editor<C> {
 
             let line_num_chars = line.chars().count();
             if buf_num_remaining_chars == 0 {
+                // A suggestion may begin with a line break
+                if self.is_currently_showing_autosuggestion() && !self.is_search() {
+                    write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
+                }
                 out_buf.push_str(&line);
             } else if line_num_chars > buf_num_remaining_chars {
                 let (start, rest) = line.split_at(
-- 
2.43.0


From f8465b3fea5c38e0d596a409d2b7244c5d978764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 41/47] fix: an escape sequence that sets a title may end in
 ESC \

---
 src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index e21aae4..bc3cf66 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -68,6 +68,8 @@ pub fn remove_codes(input: &str) -> Cow<str> {
                 },
                 AnsiState::Csi if c.is_ascii_alphabetic() => s = AnsiState::Norm,
                 AnsiState::Osc if c == '\x07' => s = AnsiState::Norm,
+                // "ESC \" ends it as well
+                AnsiState::Osc if c == '\x1B' => s = AnsiState::Esc,
                 _ => (),
             }
         }
-- 
2.43.0


From fcd54754de1bfa91f5e8b3fe18c68628c61e122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 42/47] fix: the name of a character set in a prompt is not
 part of its text

---
 src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index bc3cf66..fdcb37b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -48,6 +48,7 @@ pub enum AnsiState {
     Esc,
     Csi,
     Osc,
+    Charset,
 }
 
 pub fn remove_codes(input: &str) -> Cow<str> {
@@ -64,9 +65,12 @@ pub fn remove_codes(input: &str) -> Cow<str> {
                 AnsiState::Esc => match c {
                     '[' => s = AnsiState::Csi,
                     ']' => s = AnsiState::Osc,
+                    // Followed by the name of a character set
+                    '(' | ')' | '*' | '+' => s = AnsiState::Charset,
                     _ => s = AnsiState::Norm,
                 },
                 AnsiState::Csi if c.is_ascii_alphabetic() => s = AnsiState::Norm,
+                AnsiState::Charset => s = AnsiState::Norm,
                 AnsiState::Osc if c == '\x07' => s = AnsiState::Norm,
                 // "ESC \" ends it as well
                 AnsiState::Osc if c == '\x1B' => s = AnsiState::Esc,
-- 
2.43.0


From b1f6a66e11d863fa2fae1f18ab856138d3ccfa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:10 +0000
Subject: [PATCH 43/47] fix: append to and share a history file whose path is
 not UTF-8

---
 src/history.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1d1d6fd..8651065 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -8,7 +8,7 @@ use std::{
     iter::IntoIterator,
     ops::Index,
     ops::IndexMut,
-    path::Path,
+    path::{Path, PathBuf},
     //time::Duration,
 };
 
@@ -21,7 +21,7 @@ pub struct History {
     /// Vector of buffers to store history in
     pub buffers: VecDeque<Buffer>,
     /// Store a filename to save history into; if None don't save history
-    file_name: Option<String>,
+    file_name: Option<PathBuf>,
     /// Maximal number of buffers stored in the memory
     /// TODO: just make this public?
     max_buffers_size: usize,
@@ -204,7 +204,7 @@ impl History {
     /// Set history file name and at the same time load the history.
     pub fn set_file_name_and_load_history<P: AsRef<Path>>(&mut self, path: P) -> io::Result<u64> {
         let path = path.as_ref();
-        self.file_name = path.to_str().map(|s| s.to_owned());
+        self.file_name = Some(path.to_owned());
         self.file_size = 0;
         if path.exists() {
             self.load_history_file(path, false).map(|l| {
@@ -367,7 +367,7 @@ impl History {
     /// Get the history file name.
     #[inline(always)]
     pub fn file_name(&self) -> Option<&str> {
-        self.file_name.as_ref().map(|s| s.as_str())
+        self.file_name.as_ref().and_then(|s| s.to_str())
     }
 
     fn truncate(&mut self) {
-- 
2.43.0


From f84e35cca6f62474608c5db8a4b708527630674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:40 +0000
Subject: [PATCH 44/47] fix: show a search text of several lines on one line

---
 src/editor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 0975380..63f1d62 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -998,6 +998,11 @@ impl<C: EditorContext> Editor<C> {
         self.autosuggestion.is_some()
     }
 
+    /// How a search text is shown in the prompt: on one line.
+    fn search_text(text: &str) -> String {
+        text.replace('\n', "⏎")
+    }
+
     /// Override the prompt for incremental search if needed.
     /// Also returns what is printed in front of the search text.
     fn search_prompt(&mut self) -> (String, String) {
@@ -1017,7 +1022,7 @@ impl<C: EditorContext> Editor<C> {
                     "{}(search)'{}{}{}` ({}/{}): ",
                     &prefix,
                     color,
-                    self.current_buffer(),
+                    Self::search_text(&self.current_buffer().to_string()),
                     color::Reset.fg_str(),
                     hplace,
                     self.history_subset_index.len()
@@ -1074,7 +1079,8 @@ impl<C: EditorContext> Editor<C> {
         let mut end_position = position_after(prompt_end, &lines.join("\n"));
         let mut cursor_position = if self.is_search() {
             // the cursor is in the search text
-            position_after((0, 0), &(search_prefix + &buf.range(0, self.cursor)))
+            let before_cursor = Self::search_text(&buf.range(0, self.cursor));
+            position_after((0, 0), &(search_prefix + &before_cursor))
         } else if !show_autosuggest {
             // the line is finished, go on below all of it
             end_position
-- 
2.43.0


From 704f06036454850161435f737a5845ea65fca5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:40 +0000
Subject: [PATCH 45/47] fix: lay out completion candidates by their display
 width

---
 src/editor.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 63f1d62..e42c79d 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -506,8 +506,8 @@ impl<C: EditorContext> Editor<C> {
     ) -> io::Result<usize> {
         use std::cmp::max;
 
-        // XXX wide character support
-        let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
+        let width_of = |word: &str| util::advance_position((0, 0), word, usize::MAX).1;
+        let max_word_size = completions.iter().fold(1, |m, x| max(m, width_of(x)));
         let cols = max(1, w / (max_word_size));
         // A single column is not padded past the end of the row
         let col_width = cmp::min(2 + w / cols, w);
@@ -535,9 +535,10 @@ impl<C: EditorContext> Editor<C> {
                 )
                 .map_err(io::Error::other)?;
             }
-            write!(output_buf, "{:<1$}", com, col_width).map_err(io::Error::other)?;
+            let padding = col_width.saturating_sub(width_of(com));
+            write!(output_buf, "{}{:2$}", com, "", padding).map_err(io::Error::other)?;
             // A word longer than the row continues on the next ones
-            lines += com.chars().count().saturating_sub(1) / w;
+            lines += util::advance_position((0, 0), com, w).0;
             if Some(index) == highlighted {
                 write!(
                     output_buf,
-- 
2.43.0


From dd2dd8f7c14da98f666f5055b09bb1d241570b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:44 +0000
Subject: [PATCH 46/47] fix: Ctrl-C and Ctrl-D leave the line below a
 completion list or a backslash, too

---
 src/editor.rs     | 21 +++++++++++++++++----
 src/keymap/mod.rs |  4 ++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index e42c79d..e795db9 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -372,14 +372,27 @@ impl<C: EditorContext> Editor<C> {
             self.insert_after_cursor('\n')?;
             Ok(false)
         } else {
-            self.cursor = cur_buf!(self).num_chars();
-            self.display_impl(false)?;
-            self.context.terminal_mut().write_all(b"\r\n")?;
-            self.show_completions_hint = None;
+            self.finish_line()?;
             Ok(true)
         }
     }
 
+    /// Leave the line as it is, whatever was going on, with the cursor below it.
+    pub(crate) fn give_up_line(&mut self) -> io::Result<()> {
+        if self.is_search() {
+            self.accept_autosuggestion()?;
+        }
+        self.clear_search();
+        self.finish_line()
+    }
+
+    fn finish_line(&mut self) -> io::Result<()> {
+        self.show_completions_hint = None;
+        self.cursor = cur_buf!(self).num_chars();
+        self.display_impl(false)?;
+        self.context.terminal_mut().write_all(b"\r\n")
+    }
+
     fn search_history_loc(&self) -> Option<usize> {
         self.history_subset_loc
             .and_then(|i| self.history_subset_index.get(i).cloned())
diff --git a/src/keymap/mod.rs b/src/keymap/mod.rs
index edf1525..f539c54 100644
--- a/src/keymap/mod.rs
+++ b/src/keymap/mod.rs
@@ -35,13 +35,13 @@ pub trait KeyMap: Default {
 
         match key {
             Key::Ctrl('c') => {
-                editor.handle_newline()?;
+                editor.give_up_line()?;
                 editor.flush()?;
                 return Err(io::Error::new(ErrorKind::Interrupted, "ctrl-c"));
             }
             // if the current buffer is empty, treat ctrl-d as eof
             Key::Ctrl('d') if is_empty => {
-                editor.handle_newline()?;
+                editor.give_up_line()?;
                 editor.flush()?;
                 return Err(io::Error::new(ErrorKind::UnexpectedEof, "ctrl-d"));
             }
-- 
2.43.0


From fb4b49aa6010927fbd20538f45ab4857074898a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 47/47] fix: draw prompts of several lines set during a session

set_prompt takes any prompt, but only the first prompt of a session was
split into lines: a line break in a later one (or in a vi mode indicator)
was printed without carriage return and not counted as a row, so that text
and cursor were misplaced by every redraw.
---
 src/editor.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index e795db9..00016df 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1088,13 +1088,22 @@ impl<C: EditorContext> Editor<C> {
             }
             position
         };
-        let prompt_end =
-            util::advance_position((0, 0), &util::remove_codes(&prompt), terminal_width);
+        let prompt_position = |prompt: &str| {
+            let mut position = (0, 0);
+            for (i, line) in prompt.split('\n').enumerate() {
+                if i > 0 {
+                    position = (position.0 + 1, 0);
+                }
+                position = util::advance_position(position, line, terminal_width);
+            }
+            position
+        };
+        let prompt_end = prompt_position(&util::remove_codes(&prompt));
         let mut end_position = position_after(prompt_end, &lines.join("\n"));
         let mut cursor_position = if self.is_search() {
             // the cursor is in the search text
             let before_cursor = Self::search_text(&buf.range(0, self.cursor));
-            position_after((0, 0), &(search_prefix + &before_cursor))
+            prompt_position(&(search_prefix + &before_cursor))
         } else if !show_autosuggest {
             // the line is finished, go on below all of it
             end_position
@@ -1126,7 +1135,7 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // Write the prompt
-        write!(&mut out_buf, "{}", prompt).map_err(io::Error::other)?;
+        out_buf.push_str(&prompt.replace('\n', "\r\n"));
 
         // We get the number of chars in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
-- 
2.43.0

