From 47418cbe8ad82b111ed475c99e630588ab962361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:36 +0000
Subject: [PATCH 01/28] fix: report write errors when saving PO and MO files

Saving ignored the result of writing the content, so a full disk or an
I/O error left a truncated file behind without telling the caller.
---
 rust/src/file/mod.rs    | 2 +-
 rust/src/file/mofile.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 53fce6e..24dee64 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -32,7 +32,7 @@ pub trait SaveAsPOFile {
         Self: fmt::Display,
     {
         let mut file = File::create(path).unwrap();
-        file.write_all(self.to_string().as_bytes()).ok();
+        file.write_all(self.to_string().as_bytes()).unwrap();
     }
 }
 
diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 4d8c240..72fd08f 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -359,7 +359,7 @@ impl Save for MOFile {
     /// Save the MOFile to a file at the given path
     fn save(&self, path: &str) {
         let mut file = File::create(path).unwrap();
-        file.write_all(&self.as_bytes()).ok();
+        file.write_all(&self.as_bytes()).unwrap();
     }
 }
 
-- 
2.43.0


From f0f5f47d831a240d20fc766c91ecce3ca11dbd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:41 +0000
Subject: [PATCH 02/28] fix: report read errors when parsing PO files

Read errors and invalid UTF-8 were taken for the end of the file, so a
shortened catalogue was returned as if it was complete.
---
 rust/src/poparser.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index abd1316..ca757d0 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 use std::fs::File;
 use std::hash::Hash;
-use std::io::{BufRead, BufReader, Lines, Read};
+use std::io::{self, BufRead, BufReader, Lines, Read};
 use std::iter::Iterator;
 use std::path::Path;
 
@@ -76,14 +76,10 @@ impl LinesHandler<'_> {
 }
 
 impl Iterator for LinesHandler<'_> {
-    type Item = String;
+    type Item = io::Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.lines.next() {
-            Some(Ok(line)) => Some(line),
-            Some(Err(_)) => None,
-            None => None,
-        }
+        self.lines.next()
     }
 }
 
@@ -124,6 +120,17 @@ impl POFileParser {
         }
     }
 
+    /// Error returned when the content can't be read until the end
+    fn read_error(&self, error: &io::Error) -> SyntaxError {
+        SyntaxError::BasicCustom {
+            maybe_filename: MaybeFilename::new(
+                &self.file.options.path_or_content,
+                self.content_is_path,
+            ),
+            message: error.to_string(),
+        }
+    }
+
     fn add_current_entry(&mut self) -> Result<(), SyntaxError> {
         let unescaped_entry = self.current_entry.unescaped();
         if unescaped_entry.is_err() {
@@ -195,10 +202,14 @@ impl POFileParser {
         &mut self,
         handler: &mut LinesHandler,
     ) -> Result<(), SyntaxError> {
-        let first_line = handler.next().unwrap_or("".to_string());
+        let first_line = match handler.next() {
+            Some(line) => line.map_err(|e| self.read_error(&e))?,
+            None => "".to_string(),
+        };
         self.parse_line(maybe_lstrip_utf8_bom(&first_line))?;
 
         for line in handler.by_ref() {
+            let line = line.map_err(|e| self.read_error(&e))?;
             self.parse_line(&line)?;
         }
 
-- 
2.43.0


From c9b92c8274bb5c42919f04089c66356ccb57378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:10 +0000
Subject: [PATCH 03/28] fix: return a syntax error when PO lines come in an
 unexpected order

The parser panicked, for example on a msgstr that follows no msgid.
---
 rust/src/poparser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index ca757d0..e5b4564 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -161,7 +161,19 @@ impl POFileParser {
     ) -> Result<(), SyntaxError> {
         let next_transition = (*symbol, self.current_state);
         let (action, next_state) =
-            *TRANSITIONS.get(&next_transition).unwrap();
+            match TRANSITIONS.get(&next_transition) {
+                Some(transition) => *transition,
+                None => {
+                    return Err(SyntaxError::Generic {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        line: self.current_line,
+                        index: 0,
+                    })
+                }
+            };
 
         (transition_fn_factory(action)?)(self)?;
         if action != St::MC {
-- 
2.43.0


From 2319727cc96b9a1bedf902a40abc8a8beb669d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:16 +0000
Subject: [PATCH 04/28] fix: require both quotes around PO strings

A string without its opening quote lost its first character or made the
parser panic, and a lone quote always made it panic.
---
 rust/src/poparser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index e5b4564..5a7cade 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -756,17 +756,19 @@ fn maybe_raise_unescaped_double_quote_found_error(
     path_or_content: &str,
     index_offset: usize,
 ) -> Result<(), SyntaxError> {
-    // Check if last character is not a double quote
+    // Check that the text is delimited by two double quotes
     // to prevent slicing out of bounds
-    let text_chars = text.chars();
-    if text_chars.last().unwrap_or('\0') != '"' {
+    if text.len() < 2
+        || !text.starts_with('"')
+        || !text.ends_with('"')
+    {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
                 path_or_content,
                 path_or_content_is_path,
             ),
             line: linenum,
-            index: text.chars().count() - 1,
+            index: text.chars().count().saturating_sub(1),
             message: format!("unterminated string '{}'", text),
         });
     }
-- 
2.43.0


From 013aea68a77b6686bfc02386ed321ee0351ace13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:44 +0000
Subject: [PATCH 05/28] fix: check the strings of plural translations

A plural translation without quotes made the parser panic and one with
an unescaped quote was accepted.
---
 rust/src/poparser.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 5a7cade..673db46 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -371,6 +371,21 @@ impl POFileParser {
                 }
             };
 
+            // Keep only the string that follows the index
+            let value = match self.current_token.split_once(']') {
+                Some((_, value)) => value.trim_start().to_string(),
+                None => "".to_string(),
+            };
+            maybe_raise_unescaped_double_quote_found_error(
+                &value,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                self.current_token.chars().count()
+                    - value.chars().count()
+                    + 1,
+            )?;
+            self.current_token = value;
             self.process(&St::MX)?;
         } else if tokens[0] == "#," {
             if nb_tokens < 2 {
@@ -627,9 +642,7 @@ fn handle_ms(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 
 fn handle_mx(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     let value =
-        &parser.current_token[parser.current_token.find('"').unwrap()
-            + 1
-            ..parser.current_token.len() - 1];
+        &parser.current_token[1..parser.current_token.len() - 1];
     let msgstr_plural_length =
         parser.current_entry.msgstr_plural.len();
     if parser.msgstr_index + 1 > msgstr_plural_length {
-- 
2.43.0


From a71b43b1c626b59faa5d3b563dd2e006d4a264e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:50 +0000
Subject: [PATCH 06/28] fix: reject plural indexes that are out of all
 proportion

The parser allocated one string per missing index, so a damaged index
could exhaust the memory of the process or overflow.
---
 rust/src/poparser.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 673db46..56d1d9c 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -53,6 +53,9 @@ lazy_static! {
     };
 }
 
+/// Largest accepted index of a plural translation
+const MAX_MSGSTR_INDEX: usize = 255;
+
 /// Function to transition from a state to another in the parser
 type TransitionFn =
     dyn Fn(&mut POFileParser) -> Result<(), SyntaxError>;
@@ -349,9 +352,23 @@ impl POFileParser {
                 .unwrap();
 
             match index.parse::<usize>() {
-                Ok(index) => {
+                Ok(index) if index <= MAX_MSGSTR_INDEX => {
                     self.msgstr_index = index;
                 }
+                Ok(index) => {
+                    return Err(SyntaxError::Custom {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        message: format!(
+                            "msgstr plural index {} is too large.",
+                            index,
+                        ),
+                        line: self.current_line,
+                        index: 7,
+                    });
+                }
                 Err(_) => {
                     return Err(SyntaxError::Custom {
                         maybe_filename: MaybeFilename::new(
-- 
2.43.0


From 39cb9b144ecfa4e894182887e7a7c1509eecb93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:55 +0000
Subject: [PATCH 07/28] fix: do not panic on a PO header entry without msgstr

---
 rust/src/poparser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 56d1d9c..5b7ed51 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -247,7 +247,7 @@ impl POFileParser {
             self.file.remove(&metadata_entry);
 
             for metadata_line in
-                metadata_entry.msgstr.unwrap().split('\n')
+                metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
                 let (key, value) =
                     match metadata_line.split_once(": ") {
-- 
2.43.0


From 5301511a741fc5761024da221ed0eed84bb9bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:19 +0000
Subject: [PATCH 08/28] fix: parse strings of previous messages like other
 strings

Continuation lines kept a part of their prefix, several spaces after
the prefix shifted the value, and missing quotes made the parser panic.
---
 rust/src/poparser.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 5b7ed51..58538c1 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -437,8 +437,19 @@ impl POFileParser {
             }
 
             // Remove the marker and any whitespace following it
+            let line = line[tokens[0].len()..].trim_start();
             if tokens[1].starts_with('"') {
                 // Continuation of previous metadata
+                maybe_raise_unescaped_double_quote_found_error(
+                    line,
+                    self.current_line,
+                    self.content_is_path,
+                    &self.file.options.path_or_content,
+                    self.current_token.chars().count()
+                        - line.chars().count()
+                        + 1,
+                )?;
+                self.current_token = line.to_string();
                 self.process(&St::MC)?;
                 return Ok(());
             }
@@ -471,10 +482,17 @@ impl POFileParser {
 
             // Remove the keyword and any whitespace
             // between it and the starting quote
-            self.current_token = line
-                [tokens[1].len() + tokens[0].len() + 1..]
-                .trim_start()
-                .to_string();
+            let line = line[tokens[1].len()..].trim_start();
+            maybe_raise_unescaped_double_quote_found_error(
+                line,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                self.current_token.chars().count()
+                    - line.chars().count()
+                    + 1,
+            )?;
+            self.current_token = line.to_string();
             self.process(PREV_KEYWORDS.get(&tokens[1]).unwrap())?;
         } else {
             return Err(SyntaxError::Generic {
-- 
2.43.0


From c67c600ba64a9ae578ef78be247b8711ea5d282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:24 +0000
Subject: [PATCH 09/28] fix: return an error when a PO file can't be opened

The parser panicked if the file existed but could not be opened.
---
 rust/src/poparser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 58538c1..99722d2 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -197,9 +197,9 @@ impl POFileParser {
     }
 
     fn parse_file(&mut self) -> Result<(), SyntaxError> {
-        let mut buf = BufReader::new(
-            File::open(&self.file.options.path_or_content).unwrap(),
-        );
+        let file = File::open(&self.file.options.path_or_content)
+            .map_err(|e| self.read_error(&e))?;
+        let mut buf = BufReader::new(file);
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
-- 
2.43.0


From c6fe7d4ba7bb664c1d5559c0bd304490476741df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:30 +0000
Subject: [PATCH 10/28] fix: return an error when a MO file can't be opened

The parser panicked if the file was missing or could not be opened.
---
 rust/src/moparser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 7e83809..c562cd8 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -70,17 +70,19 @@ pub(crate) struct MOFileParser<'a> {
 
 impl MOFileParser<'_> {
     pub fn new<'a>(file_options: FileOptions) -> MOFileParser<'a> {
-        let mut file = MOFile::new(file_options);
+        let file = MOFile::new(file_options);
         let fhandle: Box<dyn SeekRead> = match Path::new(
             &file.options.path_or_content,
         )
         .is_file()
         {
-            true => Box::new(
-                File::open(&file.options.path_or_content).unwrap(),
-            ),
+            true => match File::open(&file.options.path_or_content) {
+                Ok(fhandle) => Box::new(fhandle),
+                // An empty content is reported when parsing
+                Err(_e) => Box::new(Cursor::new(vec![])),
+            },
             false => Box::new(Cursor::new(
-                file.options.byte_content.as_mut().unwrap().clone(),
+                file.options.byte_content.clone().unwrap_or_default(),
             )),
         };
 
-- 
2.43.0


From e6a3c6844c902812fd37709a67254e8b86b4cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:13 +0000
Subject: [PATCH 11/28] fix: report unreadable strings when parsing MO files

Errors seeking and reading strings were ignored, so messages came back
filled with zeros. A damaged length also made the parser allocate up to
4 GB.
---
 rust/src/moparser.rs | 66 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index c562cd8..c836a02 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 use std::fs::File;
-use std::io::{Cursor, SeekFrom};
+use std::io::{Cursor, Read, SeekFrom};
 use std::path::Path;
 
 use crate::entry::MOEntry;
@@ -119,7 +119,7 @@ impl MOFileParser<'_> {
             number_of_strings,
             msgids_index,
             msgstrs_index,
-        );
+        )?;
         Ok(())
     }
 
@@ -210,7 +210,15 @@ impl MOFileParser<'_> {
         table_offset: u32,
         context: &str,
     ) -> Result<Vec<(u32, u32)>, IOError> {
-        self.fhandle.seek(SeekFrom::Start(table_offset as u64)).ok();
+        if self
+            .fhandle
+            .seek(SeekFrom::Start(table_offset as u64))
+            .is_err()
+        {
+            return Err(IOError::CorruptedMOData {
+                context: format!("seeking {} table", context),
+            });
+        }
         let mut indexes: Vec<(u32, u32)> = vec![];
         for i in 0..number_of_strings {
             let msgid_length = match self.parse_4_bytes() {
@@ -261,30 +269,59 @@ impl MOFileParser<'_> {
         Ok((msgids_index, msgstrs_index))
     }
 
+    fn parse_string(
+        &mut self,
+        length: u32,
+        offset: u32,
+        context: &str,
+        index: u32,
+    ) -> Result<Vec<u8>, IOError> {
+        // Read no more than there is, whatever the length says
+        let mut buffer = vec![];
+        let result = self
+            .fhandle
+            .seek(SeekFrom::Start(offset as u64))
+            .and_then(|_| {
+                Read::take(&mut self.fhandle, length as u64)
+                    .read_to_end(&mut buffer)
+            });
+        match result {
+            Ok(read) if read == length as usize => Ok(buffer),
+            _ => Err(IOError::CorruptedMOData {
+                context: format!(
+                    "parsing {} at index {}",
+                    context, index
+                ),
+            }),
+        }
+    }
+
     fn parse_msgs(
         &mut self,
         number_of_strings: u32,
         msgids_index: Vec<(u32, u32)>,
         msgstrs_index: Vec<(u32, u32)>,
-    ) {
+    ) -> Result<(), IOError> {
         for i in 0..number_of_strings {
             let (msgid_length, msgid_offset) =
                 msgids_index[i as usize];
             let (msgstr_length, msgstr_offset) =
                 msgstrs_index[i as usize];
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgid_offset as u64))
-                .ok();
-            let mut msgid_buffer = vec![0; msgid_length as usize];
-            self.fhandle.read_exact(&mut msgid_buffer).ok();
+            let msgid_buffer = self.parse_string(
+                msgid_length,
+                msgid_offset,
+                "msgid",
+                i,
+            )?;
             let msgid = String::from_utf8_lossy(&msgid_buffer);
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgstr_offset as u64))
-                .ok();
-            let mut msgstr_buffer = vec![0; msgstr_length as usize];
-            self.fhandle.read_exact(&mut msgstr_buffer).ok();
+            let msgstr_buffer = self.parse_string(
+                msgstr_length,
+                msgstr_offset,
+                "msgstr",
+                i,
+            )?;
             let msgstr = String::from_utf8_lossy(&msgstr_buffer);
 
             if i == 0 && msgid.is_empty() {
@@ -325,6 +362,7 @@ impl MOFileParser<'_> {
             );
             self.file.entries.push(entry);
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 2a0b362f191eb326cbc75549a6f3f9687f7f9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:19 +0000
Subject: [PATCH 12/28] fix: do not swap context and id when parsing MO files

Messages are stored as context, EOT and id, but the parser took the
first part as the id.
---
 rust/src/moparser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index c836a02..98a4ebb 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -49,12 +49,12 @@ fn maybe_extract_plurals_from_msgid_msgstr<'a>(
 fn maybe_extract_msgctxt_from_msgid(
     msgid: &str,
 ) -> (Cow<'_, str>, Option<String>) {
-    let msgid_tokens = msgid.split('\x04').collect::<Vec<&str>>();
-
-    if msgid_tokens.len() == 2 {
-        (msgid_tokens[0].into(), Some(msgid_tokens[1].to_string()))
-    } else {
-        (msgid.into(), None)
+    // The context comes first: `msgctxt` + `EOT` + `msgid`
+    match msgid.split_once('\x04') {
+        Some((msgctxt, msgid)) => {
+            (msgid.into(), Some(msgctxt.to_string()))
+        }
+        None => (msgid.into(), None),
     }
 }
 
-- 
2.43.0


From 558d2f54528789211b41c2d590e1675c11e85935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:26 +0000
Subject: [PATCH 13/28] fix: parse PO content passed as bytes

The bytes were ignored and an empty file was returned.
---
 rust/src/poparser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 99722d2..77fb87c 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -206,8 +206,13 @@ impl POFileParser {
     }
 
     fn parse_content(&mut self) -> Result<(), SyntaxError> {
-        let content = self.file.options.path_or_content.clone();
-        let mut buf = BufReader::new(content.as_bytes());
+        let content = match &self.file.options.byte_content {
+            Some(bytes) => bytes.clone(),
+            None => {
+                self.file.options.path_or_content.clone().into_bytes()
+            }
+        };
+        let mut buf = BufReader::new(content.as_slice());
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
-- 
2.43.0


From 2954d001ac2369dce82fb74da55c75f127c4ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:33 +0000
Subject: [PATCH 14/28] fix: prefix every line of a wrapped comment

Long comments were written without prefix, so the saved file could not
be parsed again. Wrap widths below 2 panicked.
---
 rust/src/entry/poentry.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index a8caeb2..9b3d451 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -96,12 +96,19 @@ impl POEntry {
     ) {
         for line in comment.lines() {
             if UnicodeWidthStr::width(line) + 2 > wrapwidth {
-                target.push_str(&wrap(line, wrapwidth - 2).join("\n"))
+                for part in wrap(line, wrapwidth.saturating_sub(2)) {
+                    let part = part.trim_end();
+                    if !part.is_empty() {
+                        target.push_str(prefix);
+                        target.push_str(part);
+                        target.push('\n');
+                    }
+                }
             } else {
                 target.push_str(prefix);
                 target.push_str(line);
+                target.push('\n');
             }
-            target.push('\n');
         }
     }
 
-- 
2.43.0


From c7c35dacaee2df089aa372584de57a00eabd2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:56 +0000
Subject: [PATCH 15/28] fix: keep all the occurrences when wrapping them

The occurrence that did not fit in a line was dropped and the previous
ones were written again.
---
 rust/src/entry/poentry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 9b3d451..f4b6023 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -158,11 +158,11 @@ impl POEntry {
                     let curr_line =
                         format!("#: {}", current_line_occs.join(" "));
                     files_repr.push(curr_line);
-                    current_width = occ_width + 2;
-                } else {
-                    current_line_occs.push(occ);
-                    current_width += occ_width + 1;
+                    current_line_occs.clear();
+                    current_width = 2;
                 }
+                current_line_occs.push(occ);
+                current_width += occ_width + 1;
             }
             if !current_line_occs.is_empty() {
                 let curr_line =
-- 
2.43.0


From c74e46679ec33387e2d324698acfc2baf8270cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:02 +0000
Subject: [PATCH 16/28] fix: keep trailing whitespace of msgstr when writing
 entries

---
 rust/src/entry/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/entry/mod.rs b/rust/src/entry/mod.rs
index 4ccbd11..9cda99c 100644
--- a/rust/src/entry/mod.rs
+++ b/rust/src/entry/mod.rs
@@ -76,7 +76,7 @@ fn default_mo_entry_msgstr_formatter(
     POStringField::new(
         "msgstr",
         delflag,
-        msgstr.trim_end(),
+        msgstr,
         "",
         wrapwidth,
     )
-- 
2.43.0


From 46c45eca77bfc0de6b3e64670abfd0c98cdf9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:08 +0000
Subject: [PATCH 17/28] fix: write the previous plural id with its own keyword

It was written as a second previous id, so reading the file again
replaced the previous id.
---
 rust/src/entry/poentry.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index f4b6023..259cd9f 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -216,7 +216,7 @@ impl POEntry {
         {
             ret.push_str(
                 &POStringField::new(
-                    "msgid",
+                    "msgid_plural",
                     &prefix,
                     previous_msgid_plural,
                     "",
@@ -224,7 +224,6 @@ impl POEntry {
                 )
                 .to_string(),
             );
-            ret.push('\n');
         }
 
         ret.push_str(&mo_entry_to_string(
-- 
2.43.0


From e92ad295c899296beeaea1ab1cb500c7ba217ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:25 +0000
Subject: [PATCH 18/28] fix: do not break lines inside escape sequences

A text with a backslash at the wrap width was split between the two
characters of an escape and could not be read back.
---
 rust/src/entry/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/mod.rs b/rust/src/entry/mod.rs
index 9cda99c..ae6f3d6 100644
--- a/rust/src/entry/mod.rs
+++ b/rust/src/entry/mod.rs
@@ -260,8 +260,19 @@ impl<'a> fmt::Display for POStringField<'a> {
                 + UnicodeWidthStr::width(self.fieldname)
                 + 1;
         if real_width > self.wrapwidth {
-            let new_lines = wrap(&escaped_value, self.wrapwidth);
-            lines.extend(new_lines);
+            let mut in_escape = false;
+            for line in wrap(&escaped_value, self.wrapwidth) {
+                let backslashes = line.len()
+                    - line.trim_end_matches('\\').len();
+                let all_backslashes = backslashes == line.len();
+                match lines.last_mut() {
+                    // never break a line inside an escape sequence
+                    Some(last) if in_escape => last.push_str(&line),
+                    _ => lines.push(line),
+                }
+                in_escape = (backslashes % 2 == 1)
+                    != (in_escape && all_backslashes);
+            }
         } else {
             lines = vec![escaped_value.into_owned()];
         }
-- 
2.43.0


From c627620bfd21dfe94b9546694677b6ddbaf1df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:59 +0000
Subject: [PATCH 19/28] fix: sort metadata keys that are equal in natural order

Keys that differ only in whitespace were written in the random order of
the hash map.
---
 rust/src/file/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 24dee64..99b67bf 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -193,7 +193,10 @@ fn metadata_hashmap_to_ordered(
     }
 
     let mut metadata_keys = metadata.keys().collect::<Vec<&String>>();
-    metadata_keys.sort_by(|&a, &b| compare_natural_order(a, b));
+    metadata_keys.sort_by(|&a, &b| {
+        // keys can be equal in natural order without being the same
+        compare_natural_order(a, b).then_with(|| a.cmp(b))
+    });
 
     for key in metadata_keys {
         if !METADATA_KEYS_ORDER.contains(&key.as_str()) {
-- 
2.43.0


From fd1ab92e3fcec888c51ae3da0f27cdcedca329f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:28 +0000
Subject: [PATCH 20/28] fix: compare contexts of entries without msgctxt when
 merging

An entry of the reference without msgctxt was not added if there was an
entry with the same msgid in any context.
---
 rust/src/file/pofile.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index ec8d9d5..b686255 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -448,13 +448,14 @@ impl Merge for POFile {
     /// with a PO file.
     fn merge(&mut self, other: POFile) {
         for other_entry in other.entries.as_slice() {
-            let entry: Option<POEntry> = match other_entry.msgctxt {
-                Some(ref msgctxt) => self.find_by_msgid_msgctxt(
-                    &other_entry.msgid,
-                    msgctxt,
-                ),
-                None => self.find_by_msgid(&other_entry.msgid),
-            };
+            let entry = self
+                .entries
+                .iter()
+                .find(|e| {
+                    e.msgid == other_entry.msgid
+                        && e.msgctxt == other_entry.msgctxt
+                })
+                .cloned();
 
             if let Some(e) = entry {
                 let mut entry = e;
-- 
2.43.0


From 9a7e5374fc285dea4b1566b74bbcd2829cee5163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:45 +0000
Subject: [PATCH 21/28] fix: keep the fuzzy mark of empty metadata

A header entry with empty msgstr and no entries after it was ignored.
---
 rust/src/poparser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 77fb87c..2fe0ffd 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -235,10 +235,8 @@ impl POFileParser {
 
         if self.current_entry.msgid.is_empty() {
             // Adding header entry
-            if let Some(msgstr) = &self.current_entry.msgstr {
-                if !msgstr.is_empty() {
-                    self.add_current_entry()?;
-                }
+            if self.current_entry.msgstr.is_some() {
+                self.add_current_entry()?;
             }
         } else {
             self.add_current_entry()?;
-- 
2.43.0


From c50e3a9790136338cc7e5b38c4884394740ffa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:05 +0000
Subject: [PATCH 22/28] fix: use the wrap width of the options when writing
 files

The width given when opening a file was ignored and entries were always
wrapped at 78 columns.
---
 rust/src/file/mofile.rs | 5 ++++-
 rust/src/file/pofile.rs | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 72fd08f..3cc52b5 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -344,7 +344,10 @@ impl fmt::Display for MOFile {
 
         ret.push('\n');
         for entry in &self.entries {
-            ret.push_str(&entry.to_string());
+            ret.push_str(
+                &entry
+                    .to_string_with_wrapwidth(self.options.wrapwidth),
+            );
             ret.push('\n');
         }
         ret.remove(ret.len() - 1);
diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index b686255..000c68d 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -399,11 +399,13 @@ impl fmt::Display for POFile {
         let mut entries_ret = String::new();
         let mut obsolete_entries_ret = String::new();
         for entry in &self.entries {
+            let entry_repr = entry
+                .to_string_with_wrapwidth(self.options.wrapwidth);
             if entry.obsolete {
-                obsolete_entries_ret.push_str(&entry.to_string());
+                obsolete_entries_ret.push_str(&entry_repr);
                 obsolete_entries_ret.push('\n');
             } else {
-                entries_ret.push_str(&entry.to_string());
+                entries_ret.push_str(&entry_repr);
                 entries_ret.push('\n');
             }
         }
-- 
2.43.0


From e8faaf73cd94b06df35a82899043a1b8f357421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:35 +0000
Subject: [PATCH 23/28] fix: read metadata fields without a blank after the
 colon

Such fields were dropped, although they are kept when read from MO files.
---
 rust/src/poparser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 2fe0ffd..524ac10 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -253,7 +253,7 @@ impl POFileParser {
                 metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
                 let (key, value) =
-                    match metadata_line.split_once(": ") {
+                    match metadata_line.split_once(':') {
                         Some((key, value)) => (key, value),
                         None => continue,
                     };
-- 
2.43.0


From de0fe61d2bef8d17e81caacc5c7e1de4fb3b3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:09 +0000
Subject: [PATCH 24/28] fix: report strings whose last double quote is escaped
 as unterminated

---
 rust/src/poparser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 524ac10..56e2550 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -824,6 +824,20 @@ fn maybe_raise_unescaped_double_quote_found_error(
         });
     }
 
+    // A final double quote which is escaped does not close the string
+    let inner = &text[1..text.len() - 1];
+    if (inner.len() - inner.trim_end_matches('\\').len()) % 2 == 1 {
+        return Err(SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                path_or_content,
+                path_or_content_is_path,
+            ),
+            line: linenum,
+            index: text.chars().count() - 1,
+            message: format!("unterminated string '{}'", text),
+        });
+    }
+
     let text_str = text.to_string();
     let unescaped_double_quote_i = find_unescaped_double_quote_index(
         &text_str[1..text_str.len() - 1],
-- 
2.43.0


From 6934016e05c379c8459e011344c742443784a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:15 +0000
Subject: [PATCH 25/28] fix: keep messages with context and empty msgid when
 reading PO files

---
 rust/src/poparser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 56e2550..4fd74b0 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -235,14 +235,22 @@ impl POFileParser {
 
         if self.current_entry.msgid.is_empty() {
             // Adding header entry
-            if self.current_entry.msgstr.is_some() {
+            if self.current_entry.msgstr.is_some()
+                || !self.current_entry.msgstr_plural.is_empty()
+            {
                 self.add_current_entry()?;
             }
         } else {
             self.add_current_entry()?;
         }
 
-        let metadata_entry = self.file.find_by_msgid("");
+        // An empty msgid with context is an ordinary message
+        let metadata_entry = self
+            .file
+            .entries
+            .iter()
+            .find(|e| e.msgid.is_empty() && e.msgctxt.is_none())
+            .cloned();
         if let Some(metadata_entry) = metadata_entry {
             // Remove header from entries and store it in metadata hashmap
             self.file.metadata_is_fuzzy =
-- 
2.43.0


From 4284d72a72a5386f2fd797f0b33c07f28b95d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:53 +0000
Subject: [PATCH 26/28] fix: create an empty MO catalogue when MOFile() is
 called without arguments

---
 python/src/pymofile.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/pymofile.rs b/python/src/pymofile.rs
index 723438a..7a5021e 100644
--- a/python/src/pymofile.rs
+++ b/python/src/pymofile.rs
@@ -54,6 +54,12 @@ impl PyMOFile {
         path_or_content: &str,
         wrapwidth: usize,
     ) -> PyResult<Self> {
+        if path_or_content.is_empty() {
+            return Ok(PyMOFile(MOFile::new(FileOptions::from((
+                path_or_content,
+                wrapwidth,
+            )))));
+        }
         let result =
             mofile(FileOptions::from((path_or_content, wrapwidth)));
         match result {
-- 
2.43.0


From 7154182ac45138d08da81ccf00b05983908526f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:05 +0000
Subject: [PATCH 27/28] fix: number the line of the first entry in PO files
 without header

---
 rust/src/poparser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 4fd74b0..42b4e28 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -315,6 +315,10 @@ impl POFileParser {
         } else {
             self.entry_obsolete = false;
         }
+        if self.current_state == St::ST {
+            // the first entry of the file starts here
+            self.current_entry.linenum = self.current_line;
+        }
 
         if nb_tokens > 1 && KEYWORDS.contains_key(&tokens[0]) {
             line = line[tokens[0].len()..].trim_start();
-- 
2.43.0


From fc4b9648ec7c391b7cf87bd8ba899b235a1f22fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:11:07 +0000
Subject: [PATCH 28/28] fix: judge plural MO entries translated by their plural
 translations

---
 rust/src/entry/moentry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/moentry.rs b/rust/src/entry/moentry.rs
index 8740897..4d72512 100644
--- a/rust/src/entry/moentry.rs
+++ b/rust/src/entry/moentry.rs
@@ -166,8 +166,12 @@ impl Translated for MOEntry {
     /// with the PO implementation and to be used
     /// when manipulating MOEntry directly.
     fn translated(&self) -> bool {
-        if let Some(msgstr) = &self.msgstr {
-            return !msgstr.is_empty();
+        // the `msgstr` of plural entries read from files
+        // are their plural translations joined
+        if self.msgid_plural.is_none() {
+            if let Some(msgstr) = &self.msgstr {
+                return !msgstr.is_empty();
+            }
         }
 
         if self.msgstr_plural.is_empty() {
-- 
2.43.0

