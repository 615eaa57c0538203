From e25480e0c283707bdfcecdfda93f594f1f7f4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 01/80] fix: parser keeps interrupted CAN prefixes and trailing
 prefix bytes, emits no empty unknown command

---
 thermal_parser/src/parser.rs | 89 ++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 35 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 066fa6b..7c254c5 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -33,6 +33,11 @@ impl Parser {
             self.parse(byte);
         }
 
+        //A command prefix that is still open when the stream ends is not a command
+        if !self.command_buffer.is_empty() {
+            self.flush_unmatched_bytes();
+        }
+
         //emit the last command and reset the parser
         let mut new_cmd = None;
         mem::swap(&mut self.current_command, &mut new_cmd); //new_cmd has become the previous command after the swap
@@ -135,46 +140,60 @@ impl Parser {
         //If the matched command set is empty we either make a new default command
         //or make a new unknown command or append to the last default command
         if self.command_matches.is_empty() {
-            let mut new_cmd = None;
-
-            if self.command_buffer.len() > 0
-                && self
-                    .cmd_set
-                    .unknown
-                    .commands
-                    .contains(self.command_buffer.first().unwrap())
-            {
-                let mut unknown_command = self.cmd_set.unknown.clone();
-                unknown_command.data = self.command_buffer.clone();
-                new_cmd = Some(unknown_command);
-            } else if self.current_command_is_default {
-                if let Some(cmd) = &mut self.current_command {
-                    cmd.push(*byte);
-                }
-            } else {
-                let mut default_command = self.cmd_set.default.clone();
-                default_command.push(*byte);
-                new_cmd = Some(default_command);
-            }
-
-            self.command_buffer.clear();
-            self.current_command_is_default = true;
-            self.match_depth = 0;
-
-            if new_cmd.is_some() {
-                mem::swap(&mut self.current_command, &mut new_cmd);
-                if new_cmd.is_some() {
-                    //new_command has become the previous command after the swap
-                    self.emit_command(new_cmd.unwrap());
-                } else {
-                    //Generally an unknown command at the start of the binary
-                    self.emit_command(self.cmd_set.unknown.clone());
-                }
+            //A prefix that is not an unknown command is text, so the byte that
+            //ended the prefix can still start a command
+            if self.match_depth > 0 && !self.starts_unknown_command() {
+                self.command_buffer.pop();
+                self.flush_unmatched_bytes();
+                self.parse(byte);
                 return;
             }
 
+            self.flush_unmatched_bytes();
             return;
         }
         self.match_depth += 1;
     }
+
+    fn starts_unknown_command(&self) -> bool {
+        self.command_buffer
+            .first()
+            .map_or(false, |byte| self.cmd_set.unknown.commands.contains(byte))
+    }
+
+    //The bytes collected in the command buffer don't make up any command, they become
+    //a new unknown command, a new default command or a part of the last default command
+    fn flush_unmatched_bytes(&mut self) {
+        let is_unknown = self.starts_unknown_command();
+        let bytes = mem::take(&mut self.command_buffer);
+        let mut new_cmd = None;
+
+        if is_unknown {
+            let mut unknown_command = self.cmd_set.unknown.clone();
+            unknown_command.data = bytes;
+            new_cmd = Some(unknown_command);
+        } else {
+            if !self.current_command_is_default || self.current_command.is_none() {
+                new_cmd = Some(self.cmd_set.default.clone());
+            }
+
+            if let Some(cmd) = new_cmd.as_mut().or(self.current_command.as_mut()) {
+                for byte in bytes {
+                    cmd.push(byte);
+                }
+            }
+        }
+
+        self.current_command_is_default = true;
+        self.match_depth = 0;
+
+        if new_cmd.is_some() {
+            mem::swap(&mut self.current_command, &mut new_cmd);
+
+            //new_command has become the previous command after the swap
+            if let Some(previous_cmd) = new_cmd {
+                self.emit_command(previous_cmd);
+            }
+        }
+    }
 }
-- 
2.43.0


From 5acbdf5c6c072860fa3095177c0039a9e8e392fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 02/80] fix: subcommands keep all their bytes and end exactly
 at the declared size

---
 thermal_parser/src/command.rs         |  4 +-
 thermal_parser/src/parser.rs          |  8 ++-
 thermal_parser/src/subcommands/mod.rs | 81 ++++++++++-----------------
 3 files changed, 40 insertions(+), 53 deletions(-)

diff --git a/thermal_parser/src/command.rs b/thermal_parser/src/command.rs
index a076d6f..93a1d53 100644
--- a/thermal_parser/src/command.rs
+++ b/thermal_parser/src/command.rs
@@ -209,8 +209,8 @@ pub trait CommandHandler: CloneCommandHandler {
         return false;
     }
 
-    //Returns the subcommand for a command, see subcommand module
-    fn get_subcommand(&mut self) -> Option<Command> {
+    //Returns the subcommand for a command and its collected data, see subcommand module
+    fn get_subcommand(&mut self, _data: &[u8]) -> Option<Command> {
         None
     }
 
diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 7c254c5..8020c8b 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -62,7 +62,7 @@ impl Parser {
         if cmd.kind == CommandType::Subcommand {
             let command = &mut cmd;
 
-            if let Some(mut subcommand) = command.handler.get_subcommand() {
+            if let Some(mut subcommand) = command.handler.get_subcommand(&command.data) {
                 let mut expanded_cmds = vec![];
 
                 for command in command.commands.iter() {
@@ -76,6 +76,12 @@ impl Parser {
                 subcommand.commands = Rc::new(expanded_cmds);
 
                 self.captured_commands.push(subcommand);
+            } else {
+                //Keep all the bytes of subcommands that are incomplete or not supported
+                let mut unknown_command = self.cmd_set.unknown.clone();
+                unknown_command.data.extend(command.commands.iter());
+                unknown_command.data.extend(command.data.iter());
+                self.captured_commands.push(unknown_command);
             }
         } else {
             self.captured_commands.push(cmd);
diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 1408238..74e559f 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -2,7 +2,7 @@ use std::mem;
 use std::rc::Rc;
 
 use crate::text::TextSpan;
-use crate::util::{parse_u16, parse_u32};
+use crate::util::parse_u32;
 use crate::{command::*, context::*, graphics::*};
 
 pub mod gs_code2d;
@@ -16,7 +16,6 @@ pub struct SubCommandHandler {
     m: u8,
     subcommand_id: u8,
     capacity: u32,
-    accept_data: bool,
     use_m: bool,
 }
 
@@ -48,24 +47,25 @@ impl SubCommandHandler {
         }
     }
 
-    //Parse out the capacity for the subcommand data
+    // Large subcommands use two extra bytes to determine data size
+    fn size_len(&self) -> usize {
+        if self.is_large {
+            4
+        } else {
+            2
+        }
+    }
+
+    //Parse out the subcommand from the collected bytes
     fn parse_meta(&mut self, data: &[u8]) {
-        let data_len = data.len();
+        let header_len = self.size_len() + 2;
 
-        if data_len == 4 {
-            self.capacity = parse_u16(&data.to_vec(), 0) as u32;
-            self.capacity -= 2;
-            self.m = *data.get(2).unwrap();
-            self.subcommand_id = *data.get(3).unwrap();
+        if data.len() < header_len {
+            return;
         }
 
-        if data_len == 6 {
-            //TODO why is this number too big
-            self.capacity = parse_u32(&data.to_vec(), 0);
-            self.capacity -= 2;
-            self.m = *data.get(4).unwrap();
-            self.subcommand_id = *data.get(5).unwrap();
-        }
+        self.m = data[header_len - 2];
+        self.subcommand_id = data[header_len - 1];
 
         if self.use_m {
             self.detect_kind_use_m()
@@ -76,10 +76,9 @@ impl SubCommandHandler {
         // Here we are adding the commands into the subcommand
         // so we don't lose any bytes
         if let Some(sub) = &mut self.subcommand {
-            sub.commands = Rc::new(data.to_vec());
+            sub.commands = Rc::new(data[..header_len].to_vec());
+            sub.data = data[header_len..].to_vec();
         }
-
-        self.accept_data = true;
     }
 }
 
@@ -113,49 +112,32 @@ impl CommandHandler for SubCommandHandler {
     }
 
     fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
-        let mut data_len = data.len();
-
-        if !self.accept_data {
-            // Large subcommands use two extra bytes to determine data size
-            if self.is_large {
-                if data_len < 6 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..6]);
-            } else {
-                if data_len < 4 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..4]);
+        let size_len = self.size_len();
+
+        //The size counts every byte that follows it, including m and the function
+        if data.len() < size_len {
+            data.push(byte);
+
+            if data.len() == size_len {
+                self.capacity = parse_u32(data, 0);
             }
-            data.clear();
-            data_len = 0;
+            return true;
         }
 
         //Accept data
-        if data_len < (self.capacity as usize) {
+        if data.len() - size_len < self.capacity as usize {
             data.push(byte);
             return true;
         }
 
-        //Move the data into the subcommand
-        if let Some(sub) = &mut self.subcommand {
-            mem::swap(&mut sub.data, data);
-        } else {
-            println!("Missing subcommand");
-        }
-
         //Stop accepting bytes
         false
     }
 
     //Returns a subcommand that can be owned and stubs
-    fn get_subcommand(&mut self) -> Option<Command> {
-        let mut subcommand = None;
-        mem::swap(&mut self.subcommand, &mut subcommand);
-        subcommand
+    fn get_subcommand(&mut self, data: &[u8]) -> Option<Command> {
+        self.parse_meta(data);
+        mem::take(&mut self.subcommand)
     }
 }
 
@@ -167,7 +149,6 @@ pub fn new(is_large: bool, use_m: bool, commands: Rc<Vec<Command>>) -> Box<SubCo
         m: 0,
         subcommand_id: 0,
         capacity: 0,
-        accept_data: false,
         use_m,
     })
 }
-- 
2.43.0


From 8615ee4779a143159fe872d7d9c449191590eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 03/80] fix: unknown commands report their own bytes only

---
 thermal_parser/src/commands/unknown.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/unknown.rs b/thermal_parser/src/commands/unknown.rs
index 075b3e2..2d73775 100644
--- a/thermal_parser/src/commands/unknown.rs
+++ b/thermal_parser/src/commands/unknown.rs
@@ -3,7 +3,13 @@ use crate::{command::*, constants::*};
 #[derive(Clone)]
 struct Handler;
 
-impl CommandHandler for Handler {}
+impl CommandHandler for Handler {
+    //The command bytes are only used to detect unknown commands,
+    //all the bytes of an unknown command are in its data
+    fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
+        (vec![], command.data.clone())
+    }
+}
 
 pub fn new() -> Command {
     Command::new(
-- 
2.43.0


From 11122cee79c1e44a05297b213f8e05f56b03a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 04/80] fix: NUL terminated barcodes end at their NUL, also at
 the end of a job

---
 thermal_parser/src/commands/barcode.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 27b5b70..08fc123 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -1,6 +1,5 @@
 extern crate barcoders;
 
-use std::cmp::PartialEq;
 use std::str::from_utf8;
 
 use barcoders::sym::codabar::Codabar;
@@ -36,7 +35,7 @@ enum BarcodeType {
     Unknown,
 }
 
-#[derive(Clone, PartialEq)]
+#[derive(Clone)]
 enum EncodingFunction {
     NulTerminated,
     ExplicitSize,
@@ -51,6 +50,7 @@ struct BarcodeHandler {
     capacity: u8,
     has_capacity: bool,
     accept_data: bool,
+    terminated: bool,
     raw_params: Vec<u8>,
 }
 
@@ -279,7 +279,7 @@ impl CommandHandler for BarcodeHandler {
         params.extend(self.raw_params.clone());
         let mut data = command.data.to_vec();
 
-        if self.encoding == EncodingFunction::NulTerminated {
+        if self.terminated {
             data.push(NUL);
         }
 
@@ -331,11 +331,14 @@ impl CommandHandler for BarcodeHandler {
 
         return match self.encoding {
             EncodingFunction::NulTerminated => {
-                if *data.last().unwrap_or(&0x01) == NUL {
-                    data.pop();
+                if self.terminated {
                     return false;
                 }
-                data.push(byte);
+                if byte == NUL {
+                    self.terminated = true;
+                } else {
+                    data.push(byte);
+                }
                 true
             }
             EncodingFunction::ExplicitSize => {
@@ -368,6 +371,7 @@ pub fn new() -> Command {
             capacity: 0,
             has_capacity: false,
             accept_data: false,
+            terminated: false,
             raw_params: vec![],
         }),
     )
-- 
2.43.0


From 6761419a58680325ed07e5ea53b981a848986bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 05/80] fix: set character effects takes no more bytes than its
 size says

---
 thermal_parser/src/commands/set_character_effects.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/commands/set_character_effects.rs b/thermal_parser/src/commands/set_character_effects.rs
index 35e3372..7cde876 100644
--- a/thermal_parser/src/commands/set_character_effects.rs
+++ b/thermal_parser/src/commands/set_character_effects.rs
@@ -10,14 +10,12 @@ impl CommandHandler for Handler {
     fn push(&mut self, command: &mut Vec<u8>, byte: u8) -> bool {
         if command.len() < 2 {
             command.push(byte);
-            return true;
-        }
 
-        if command.len() == 2 {
-            let pl = *command.get(0).unwrap();
-            let ph = *command.get(1).unwrap();
-            self.capacity = (pl as u32 + ph as u32 * 256) + 2;
-            command.push(byte);
+            if command.len() == 2 {
+                let pl = *command.get(0).unwrap();
+                let ph = *command.get(1).unwrap();
+                self.capacity = (pl as u32 + ph as u32 * 256) + 2;
+            }
             return true;
         }
 
-- 
2.43.0


From 1de32f1cef22ea49b20155a360fa9d85afe25697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 06/80] fix: ESC c 3, ESC c 4 and ESC c 5 are recognised by
 their ASCII digit

---
 thermal_parser/src/commands/paper_end_sensor.rs  | 2 +-
 thermal_parser/src/commands/print_stop_sensor.rs | 2 +-
 thermal_parser/src/commands/set_panel_buttons.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/commands/paper_end_sensor.rs b/thermal_parser/src/commands/paper_end_sensor.rs
index 2cab94a..5260d48 100644
--- a/thermal_parser/src/commands/paper_end_sensor.rs
+++ b/thermal_parser/src/commands/paper_end_sensor.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Select Paper End Sensors",
-        vec![ESC, 'c' as u8, 3u8],
+        vec![ESC, 'c' as u8, '3' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
diff --git a/thermal_parser/src/commands/print_stop_sensor.rs b/thermal_parser/src/commands/print_stop_sensor.rs
index 4a7e665..e66d6e9 100644
--- a/thermal_parser/src/commands/print_stop_sensor.rs
+++ b/thermal_parser/src/commands/print_stop_sensor.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Print Stop Sensors",
-        vec![ESC, 'c' as u8, 4u8],
+        vec![ESC, 'c' as u8, '4' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
diff --git a/thermal_parser/src/commands/set_panel_buttons.rs b/thermal_parser/src/commands/set_panel_buttons.rs
index 84f17cd..0b8c45d 100644
--- a/thermal_parser/src/commands/set_panel_buttons.rs
+++ b/thermal_parser/src/commands/set_panel_buttons.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Enable Panel Buttons",
-        vec![ESC, 'c' as u8, 5u8],
+        vec![ESC, 'c' as u8, '5' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
-- 
2.43.0


From 8947d6182eb5f3bb57e05d55d7633ac5c0607e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 07/80] fix: .thermal strings are unescaped in one pass

---
 thermal_parser/src/thermal_file.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index a60fbe5..ac2514d 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -78,10 +78,7 @@ pub fn parse_str(text: &str) -> Vec<u8> {
                     }
                     //raw strings start with quote
                     else if token.starts_with('"') {
-                        let unescaped = token.replace("\\\\", "\\").replace("\\\"", "\"");
-                        for byte in unescaped[1..].as_bytes() {
-                            parsed.push(*byte);
-                        }
+                        parsed.extend(unescape(&token[1..]).as_bytes());
                     }
                     //Decimal
                     else {
@@ -106,6 +103,24 @@ pub fn parse_str(text: &str) -> Vec<u8> {
     parsed
 }
 
+/// Replaces escaped backslashes and escaped quotes
+fn unescape(text: &str) -> String {
+    let mut unescaped = String::with_capacity(text.len());
+    let mut chars = text.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        if c == '\\' {
+            if let Some(escaped) = chars.next_if(|n| *n == '\\' || *n == '"') {
+                unescaped.push(escaped);
+                continue;
+            }
+        }
+        unescaped.push(c);
+    }
+
+    unescaped
+}
+
 pub fn parse_tokens(line: &str) -> Vec<&str> {
     let mut tokens = Vec::new();
     let mut span = (0, 0);
-- 
2.43.0


From 7fe5aa87b8084d1bf5f4dfa346ac6adfdd34c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 08/80] fix: .thermal keeps a bare word that is followed by a
 quoted string

---
 thermal_parser/src/thermal_file.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index ac2514d..a2a7672 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -173,6 +173,11 @@ pub fn parse_tokens(line: &str) -> Vec<&str> {
             gobble_quoted = true;
             esc_quoted = false;
 
+            //A bare word ends where a quoted string starts
+            if span.0 != span.1 {
+                tokens.push(&line[span.0..span.1])
+            }
+
             //Here we include the first quote
             span.0 = span.1;
             span.1 += 1;
-- 
2.43.0


From 4ee2807a0f2e08c276d14edf6836833741d40483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 09/80] fix: .thermal words that only look like hex values are
 kept

---
 thermal_parser/src/thermal_file.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index a2a7672..7409031 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -75,6 +75,10 @@ pub fn parse_str(text: &str) -> Vec<u8> {
                         if let Ok(byte) = maybe_byte {
                             parsed.push(byte);
                         }
+                        //Cannot parse hex, output raw
+                        else {
+                            parsed.extend(token.as_bytes());
+                        }
                     }
                     //raw strings start with quote
                     else if token.starts_with('"') {
-- 
2.43.0


From 71f711747f9eaa0e2350261710efacf91c37b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 10/80] fix: converting text to .thermal keeps quotes,
 backslashes, control and non UTF-8 bytes

---
 thermal_parser/src/thermal_file.rs | 33 ++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index 7409031..1019da4 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -238,8 +238,11 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
             return "LF \n".to_string();
         }
 
-        let text = String::from_utf8_lossy(data.as_slice());
-        return format!("\"{}\"\n", text);
+        if commands.len() > 0 {
+            return format!("{}\n", explain_command(&commands));
+        }
+
+        return format!("{}\n", explain_text(&data));
     } else if cmd.kind == CommandType::Unknown {
         return format!("'// Unknown command \n {}\n\n", explain_unknown(&data)).to_string();
     }
@@ -314,6 +317,32 @@ pub fn try_string(byte: &u8) -> String {
     }
 }
 
+/// Printable text becomes quoted strings, anything else becomes numbers
+fn explain_text(data: &[u8]) -> String {
+    let mut parts = vec![];
+
+    for chunk in data.utf8_chunks() {
+        for part in chunk.valid().split_inclusive(|c: char| c.is_control()) {
+            let text = part.trim_end_matches(|c: char| c.is_control());
+
+            if !text.is_empty() {
+                let escaped = text.replace('\\', "\\\\").replace('"', "\\\"");
+                parts.push(format!("\"{}\"", escaped));
+            }
+
+            for byte in part[text.len()..].as_bytes() {
+                parts.push(format!("0x{:02X}", byte));
+            }
+        }
+
+        for byte in chunk.invalid() {
+            parts.push(format!("0x{:02X}", byte));
+        }
+    }
+
+    parts.join(" ")
+}
+
 fn explain_unknown(data: &Vec<u8>) -> String {
     if data.len() > 1 {
         let first = &data[0];
-- 
2.43.0


From 9a871ede50e675d7616882d8ba716f2060d81b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 11/80] fix: RGBA::with_alpha keeps the blue channel

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 30150e9..c4c3cd7 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -34,7 +34,7 @@ impl RGBA {
         RGBA {
             r: self.r,
             g: self.g,
-            b: self.g,
+            b: self.b,
             a,
         }
     }
-- 
2.43.0


From 0635e2649d8c0948e7aa5e3aa81b7b6443a706f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 12/80] fix: images with missing or no pixels are errors
 instead of panics

---
 thermal_parser/src/graphics.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index c4c3cd7..9c9f7d5 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -166,6 +166,16 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
+        //Ensure there are enough bytes before changing the orientation
+        let expected = width as usize * ((height as usize + 7) / 8);
+        if data.len() != expected {
+            return GraphicsCommand::Error(format!(
+                "Not enough data to parse single color column image expected: {} got: {}",
+                expected,
+                data.len()
+            ));
+        }
+
         let raster = column_to_bytes(data, width, height);
         Self::image_from_raster_bytes_single_color(
             width, height, stretch, color, flow, &raster, false,
@@ -240,20 +250,25 @@ impl GraphicsCommand {
         process_as_bits: bool,
     ) -> GraphicsCommand {
         let unpacked = if process_as_bits {
-            unpack_bytes(data, width, height)
+            unpack_bytes(data, width)
         } else {
             data.to_vec()
         };
 
         //Ensure there are enough bytes to construct the final image
-        if unpacked.len() != (width * height) as usize {
+        let expected = width as usize * height as usize;
+        if unpacked.len() != expected {
             return GraphicsCommand::Error(format!(
                 "Not enough data to parse single color raster image expected: {} got: {}",
-                (width * height),
+                expected,
                 unpacked.len()
             ));
         }
 
+        if unpacked.is_empty() {
+            return GraphicsCommand::Error("Image has no pixels".into());
+        }
+
         let (w, h, raw_pixels) = if stretch.0 > 1 || stretch.1 > 1 {
             scale_pixels(&unpacked, width as u32, height as u32, stretch.0, stretch.1)
         } else {
@@ -375,8 +390,8 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
 
 /// Unpacks bits into bytes and makes sure that extra padding
 /// is added for widths that are not divisible by eight.
-fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
-    let mut bytes = Vec::with_capacity(width as usize * height as usize);
+fn unpack_bytes(pixels: &[u8], width: u32) -> Vec<u8> {
+    let mut bytes = Vec::with_capacity(pixels.len() * 8);
 
     //number of bytes we need to use for the last column of each row of data
     let mut padding = width % 8;
@@ -410,7 +425,7 @@ fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
 /// Column format is weird and needs to have some special operations
 /// done on the unpacked bytes to get the image in the correct orientation.
 fn column_to_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
-    let unpacked = unpack_bytes(pixels, height, width);
+    let unpacked = unpack_bytes(pixels, height);
     let rot = rotate_90_clockwise(unpacked, height, width);
     flip_right_to_left(rot, width, height)
 }
-- 
2.43.0


From e0979b84d4ed2a7457dfaafe01c81383201ddf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 13/80] fix: stored graphics in column format are decoded as
 columns, incomplete parameters don't panic

---
 thermal_parser/src/graphics.rs                | 26 ++++++++++---------
 .../define_download_graphics_column.rs        |  4 +--
 .../gs_graphics/define_nv_graphics_column.rs  |  4 +--
 .../store_buffer_graphics_column.rs           |  2 +-
 .../store_buffer_graphics_raster.rs           |  2 +-
 5 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 9c9f7d5..671c36d 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -201,23 +201,25 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
-        let bytes_per_layer = ((width as usize / 8) * height as usize) + 1;
+        //Each layer has one color byte followed by its columns
+        let bytes_per_layer = width as usize * ((height as usize + 7) / 8) + 1;
 
         //Ensure there are enough bytes to construct the final image
-        if data.len() != (bytes_per_layer + 1) * num_colors as usize {
-            return GraphicsCommand::Error("Not enough data to parse raster image".into());
+        if data.len() != bytes_per_layer * num_colors as usize {
+            return GraphicsCommand::Error("Not enough data to parse column image".into());
         }
 
         let mut image_layers = vec![];
 
-        for layer in 0..=num_colors as usize {
-            let layer_start = layer * bytes_per_layer;
-            let color_number = data[layer_start];
-            let color = render_colors.color_for_number(color_number);
-            let image_data = &data[layer_start..bytes_per_layer - 1];
-            let raster = column_to_bytes(image_data, width, height);
-            let layer = Self::image_from_raster_bytes_single_color(
-                width, height, stretch, color, flow, &raster, false,
+        for layer_data in data.chunks(bytes_per_layer) {
+            let color = render_colors.color_for_number(layer_data[0]);
+            let layer = Self::image_from_column_bytes_single_color(
+                width,
+                height,
+                stretch,
+                color,
+                flow,
+                &layer_data[1..],
             );
 
             match layer {
@@ -311,7 +313,7 @@ impl GraphicsCommand {
         process_as_bits: bool,
     ) -> GraphicsCommand {
         let bytes_per_layer = if process_as_bits {
-            ((width / 8) as usize * height as usize) + 1
+            ((width as usize + 7) / 8 * height as usize) + 1
         } else {
             (width as usize * height as usize) + 1
         };
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 7b62fb4..9155f8e 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
@@ -21,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Ram;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -29,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index 2e4fccf..e74b3e9 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
@@ -21,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Disc;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -29,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 4779ffb..0f2b39b 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 171e4b3..759d0ba 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
-- 
2.43.0


From 6ab31d1dd267b0a86911c5e4abfe044bf43656bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 14/80] fix: image layers of different sizes are merged dot by
 dot

---
 thermal_parser/src/graphics.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 671c36d..f969ef2 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -374,16 +374,24 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
         return Ok(layers[0].clone());
     }
 
-    let mut image = layers[0].clone();
-
-    //For the moment, we only merge if all images have the same width and height
-    for merge_img in layers.iter().skip(1) {
-        if merge_img.w > image.w || merge_img.h > image.h {
-            return Err("Can't merge image layers with different w and h".into());
-        }
-
-        for i in 0..merge_img.pixels.len() {
-            image.pixels[i].blend_foreground(&merge_img.pixels[i]);
+    let w = layers.iter().map(|layer| layer.w).max().unwrap_or(0);
+    let h = layers.iter().map(|layer| layer.h).max().unwrap_or(0);
+
+    let mut image = Image {
+        pixels: vec![RGBA::blank(); w as usize * h as usize],
+        w,
+        h,
+        ..layers[0].clone()
+    };
+
+    //Layers can have different sizes, they share the top left corner
+    for layer in layers {
+        for (y, row) in layer.pixels.chunks(layer.w.max(1) as usize).enumerate() {
+            let start = y * w as usize;
+
+            for (pixel, layer_pixel) in image.pixels[start..].iter_mut().zip(row) {
+                pixel.blend_foreground(layer_pixel);
+            }
         }
     }
 
-- 
2.43.0


From 004ea49da4ed08b844aef96a2431b9eedfe35531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 15/80] fix: raster bit image mode 51 is quadruple size

---
 thermal_parser/src/commands/raster_bit_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/raster_bit_image.rs b/thermal_parser/src/commands/raster_bit_image.rs
index caaa18b..cad3ca4 100644
--- a/thermal_parser/src/commands/raster_bit_image.rs
+++ b/thermal_parser/src/commands/raster_bit_image.rs
@@ -16,7 +16,7 @@ impl CommandHandler for Handler {
             0 | 48 => (1, 1),
             1 | 49 => (2, 1),
             2 | 50 => (1, 2),
-            3 | 52 => (2, 2),
+            3 | 51 => (2, 2),
             _ => (1, 1),
         };
 
-- 
2.43.0


From 51e5979448a596ade158904be37e84341b7a993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 16/80] fix: buffered graphics are scaled by the defined
 factors only and can't overflow

---
 thermal_parser/src/graphics.rs                              | 6 +++---
 .../subcommands/gs_graphics/store_buffer_graphics_column.rs | 3 ++-
 .../subcommands/gs_graphics/store_buffer_graphics_raster.rs | 3 ++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index f969ef2..70332ad 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -487,17 +487,17 @@ pub fn scale_pixels(
     let new_width = original_width * scale_x as u32;
     let new_height = original_height * scale_y as u32;
 
-    let mut scaled_bytes = vec![0u8; (new_width * new_height) as usize];
+    let mut scaled_bytes = vec![0u8; new_width as usize * new_height as usize];
 
     for y in 0..original_height {
         for x in 0..original_width {
-            let pixel = bytes[(y * original_width + x) as usize];
+            let pixel = bytes[y as usize * original_width as usize + x as usize];
 
             for dy in 0..scale_y {
                 for dx in 0..scale_x {
                     let new_x = x * scale_x as u32 + dx as u32;
                     let new_y = y * scale_y as u32 + dy as u32;
-                    scaled_bytes[(new_y * new_width + new_x) as usize] = pixel;
+                    scaled_bytes[new_y as usize * new_width as usize + new_x as usize] = pixel;
                 }
             }
         }
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 0f2b39b..0bd6e1c 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -18,7 +18,8 @@ impl CommandHandler for Handler {
         let width = parse_u16(&command.data, 4) as u32;
         let height = parse_u16(&command.data, 6) as u32;
 
-        let stretch = (*bx, *by);
+        //Only single and double size are defined
+        let stretch = ((*bx).clamp(1, 2), (*by).clamp(1, 2));
 
         let graphics = GraphicsCommand::image_from_column_bytes_single_color(
             width,
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 759d0ba..cf191f2 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -17,7 +17,8 @@ impl CommandHandler for Handler {
         let c = command.data.get(3).unwrap();
         let width = parse_u16(&command.data, 4) as u32;
         let height = parse_u16(&command.data, 6) as u32;
-        let stretch = (*bx, *by);
+        //Only single and double size are defined
+        let stretch = ((*bx).clamp(1, 2), (*by).clamp(1, 2));
 
         let graphics = GraphicsCommand::image_from_raster_bytes_single_color(
             width,
-- 
2.43.0


From 132323ab99b4683fd6a395a60ebaa12600281c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 17/80] fix: double strike can be turned off

---
 thermal_parser/src/commands/set_double_strike.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/thermal_parser/src/commands/set_double_strike.rs b/thermal_parser/src/commands/set_double_strike.rs
index 0ad0e4b..a9e6aeb 100644
--- a/thermal_parser/src/commands/set_double_strike.rs
+++ b/thermal_parser/src/commands/set_double_strike.rs
@@ -8,17 +8,11 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
         let enable = (n & 0x00000001) == 1;
-        let mut strike = context.text.strikethrough.clone();
-
-        if enable {
-            strike = TextStrikethrough::Double
-        } else if strike == TextStrikethrough::Double {
-            strike = TextStrikethrough::On
+        context.text.strikethrough = if enable {
+            TextStrikethrough::Double
         } else {
-            strike = TextStrikethrough::Off
-        }
-
-        context.text.strikethrough = strike;
+            TextStrikethrough::Off
+        };
     }
 }
 
-- 
2.43.0


From 80d787a63e9a2fd6598b162d31c73158039cedad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 18/80] fix: motion units smaller than a dot don't cause a
 division by zero

---
 thermal_parser/src/commands/set_motion_units.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 2abdc8e..1c0cacd 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -19,8 +19,9 @@ impl CommandHandler for Handler {
             return;
         }
 
-        let h_motion_unit = context.graphics.dots_per_inch / x as u16;
-        let v_motion_unit = context.graphics.dots_per_inch / y as u16;
+        //Motion units are never smaller than a dot and have to fit into a byte
+        let h_motion_unit = (context.graphics.dots_per_inch / x as u16).clamp(1, 255);
+        let v_motion_unit = (context.graphics.dots_per_inch / y as u16).clamp(1, 255);
 
         if x > 0 {
             context.graphics.h_motion_unit = h_motion_unit as u8;
-- 
2.43.0


From 1e9d2b02cf6bf8701a45d2b8cf9a68073d3f01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 19/80] fix: EAN13 data with other characters than digits is
 reported and doesn't panic

---
 thermal_parser/src/commands/barcode.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 08fc123..e07a8cc 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -111,6 +111,10 @@ impl BarcodeHandler {
     }
 }
 
+fn is_digits(data: &str) -> bool {
+    data.bytes().all(|b| b.is_ascii_digit())
+}
+
 impl CommandHandler for BarcodeHandler {
     fn get_graphics(&self, command: &Command, context: &Context) -> Option<GraphicsCommand> {
         let raw_data = &command.data.clone() as &[u8];
@@ -189,8 +193,9 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                let data_sp = &data[..12];
-                return match EAN13::new(data_sp.to_string()) {
+                //The check digit is always calculated
+                let digits = if is_digits(data) { &data[..12] } else { data };
+                return match EAN13::new(digits.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From e48ba0ea2df1812b5a4c7efd2d21fa6579eb6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 20/80] fix: UPC A barcodes are encoded as EAN13 with a leading
 zero

---
 thermal_parser/src/commands/barcode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index e07a8cc..de2a313 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -207,7 +207,9 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::UpcA => {
-                return match UPCA::new(data.to_string()) {
+                //UPC A is EAN 13 with a leading zero, the check digit is always calculated
+                let digits = if is_digits(data) { &data[..11] } else { data };
+                return match UPCA::new(format!("0{}", digits)) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From c549c94018beef4decc2fcde9e6c7360cbc1a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 21/80] fix: Code39 reports asterisks within the data instead
 of dropping them

---
 thermal_parser/src/commands/barcode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index de2a313..fb7a533 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -167,7 +167,8 @@ impl CommandHandler for BarcodeHandler {
                 //it was provided.
                 //Code39 doesn't want asterisks in the data
                 let text = data.to_string();
-                let data = text.replace("*", "");
+                let data = text.strip_prefix('*').unwrap_or(&text);
+                let data = data.strip_suffix('*').unwrap_or(data).to_string();
 
                 return match Code39::new(data) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
-- 
2.43.0


From f471de414c2c015541dc498a2ca83f66af39e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 22/80] fix: ITF check digits of long data don't overflow, two
 digits are valid

---
 thermal_parser/src/commands/barcode.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index fb7a533..cc6f8b7 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -98,7 +98,8 @@ impl BarcodeHandler {
             BarcodeType::Ean13 => length == 12 || length == 13,
             BarcodeType::Ean8 => length == 7 || length == 8,
             BarcodeType::Code39 => length > 0,
-            BarcodeType::Nw7Codabar | BarcodeType::Itf => length > 2,
+            BarcodeType::Nw7Codabar => length > 2,
+            BarcodeType::Itf => length >= 2,
             BarcodeType::Gs1DatabarLimited
             | BarcodeType::Gs1DatabarTruncated
             | BarcodeType::Gs1DatabarOmni => length == 13,
@@ -115,6 +116,18 @@ fn is_digits(data: &str) -> bool {
     data.bytes().all(|b| b.is_ascii_digit())
 }
 
+/// Modulo 10 check digit, the last digit of the data has the weight 3
+fn itf_check_digit(digits: &str) -> char {
+    let mut sum = 0;
+
+    for (i, digit) in digits.bytes().rev().enumerate() {
+        let weight = if i % 2 == 0 { 3 } else { 1 };
+        sum += (digit - b'0') as u32 * weight;
+    }
+
+    (b'0' + ((10 - sum % 10) % 10) as u8) as char
+}
+
 impl CommandHandler for BarcodeHandler {
     fn get_graphics(&self, command: &Command, context: &Context) -> Option<GraphicsCommand> {
         let raw_data = &command.data.clone() as &[u8];
@@ -246,7 +259,14 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Itf => {
-                return match TF::interleaved(data.to_string()) {
+                let mut digits = data.to_string();
+
+                //Digits are encoded in pairs, a check digit makes the count even
+                if digits.len() % 2 == 1 && is_digits(&digits) {
+                    digits.push(itf_check_digit(&digits));
+                }
+
+                return match TF::interleaved(digits) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From 2c401922933d31f955f3f4f1ff7464720351de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 23/80] fix: Codabar data without start and stop characters is
 reported

---
 thermal_parser/src/commands/barcode.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index cc6f8b7..faba67a 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -116,6 +116,10 @@ fn is_digits(data: &str) -> bool {
     data.bytes().all(|b| b.is_ascii_digit())
 }
 
+fn is_codabar_guard(c: char) -> bool {
+    matches!(c, 'A'..='D')
+}
+
 /// Modulo 10 check digit, the last digit of the data has the weight 3
 fn itf_check_digit(digits: &str) -> char {
     let mut sum = 0;
@@ -163,6 +167,15 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Nw7Codabar => {
+                //The symbol can only be read with a start and a stop character
+                let has_guards = data.starts_with(is_codabar_guard)
+                    && data.ends_with(is_codabar_guard)
+                    && data.matches(is_codabar_guard).count() == 2;
+
+                if !has_guards {
+                    return self.decorate_error("Invalid start or stop".to_string(), command);
+                }
+
                 return match Codabar::new(data.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
-- 
2.43.0


From a3f040e71c0e1844d9c5938fbacbab273f7b9712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 24/80] fix: Code128 escapes are decoded, non ASCII data is
 reported

---
 thermal_parser/src/commands/barcode.rs | 75 +++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 6 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index faba67a..dd685a8 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -116,6 +116,71 @@ fn is_digits(data: &str) -> bool {
     data.bytes().all(|b| b.is_ascii_digit())
 }
 
+/// Converts code128 data into the barcoders format and the human readable text
+///
+/// {A {B {C select a code set, {S selects the other one of A and B for one character,
+/// {1 to {4 are the function characters and {{ is the character {
+fn parse_code128(data: &str) -> Result<(String, String), String> {
+    if !data.is_ascii() {
+        return Err("Only ASCII data is valid".to_string());
+    }
+
+    let mut adjusted = String::new();
+    let mut hri = String::new();
+    let mut set = ' ';
+    let mut chars = data.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        let function = match (c, chars.peek()) {
+            ('{', Some('A')) => 'À',
+            ('{', Some('B')) => 'Ɓ',
+            ('{', Some('C')) => 'Ć',
+            ('{', Some('S')) => 'Š',
+            ('{', Some('1')) => 'Ź',
+            ('{', Some('2')) => 'ź',
+            ('{', Some('3')) => 'Ż',
+            ('{', Some('4')) => 'ż',
+            ('{', Some('{')) => '{',
+            _ => {
+                adjusted.push(c);
+                hri.push(c);
+                continue;
+            }
+        };
+
+        let selected = chars.next().unwrap_or_default();
+
+        match function {
+            'Š' => {
+                let (other, current) = match set {
+                    'A' => ('Ɓ', 'À'),
+                    'B' => ('À', 'Ɓ'),
+                    _ => return Err("Shift is only valid in code set A and B".to_string()),
+                };
+
+                let shifted = match chars.next() {
+                    Some('{') | None => return Err("Invalid shift".to_string()),
+                    Some(shifted) => shifted,
+                };
+
+                adjusted.extend([other, shifted, current]);
+                hri.push(shifted);
+            }
+            '{' => {
+                adjusted.push('{');
+                hri.push('{');
+            }
+            'À' | 'Ɓ' | 'Ć' => {
+                adjusted.push(function);
+                set = selected;
+            }
+            _ => adjusted.push(function),
+        }
+    }
+
+    Ok((adjusted, hri))
+}
+
 fn is_codabar_guard(c: char) -> bool {
     matches!(c, 'A'..='D')
 }
@@ -148,12 +213,10 @@ impl CommandHandler for BarcodeHandler {
         match self.kind {
             BarcodeType::Code128 => {
                 //all code128 data has two bytes that set the type, we are converting this to the barcoders format
-                let adjusted_data = data
-                    .replace("{A", "À")
-                    .replace("{B", "Ɓ")
-                    .replace("{C", "Ć");
-
-                let hri_data: String = data.replace("{A", "").replace("{B", "").replace("{C", "");
+                let (adjusted_data, hri_data) = match parse_code128(data) {
+                    Ok(parsed) => parsed,
+                    Err(error) => return self.decorate_error(error, command),
+                };
 
                 return match Code128::new(adjusted_data.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
-- 
2.43.0


From dc1e07d976db7d45377608e138e382c60994a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 25/80] fix: Code93 check characters are drawn with their own
 pattern, shift characters are not data

---
 thermal_parser/src/commands/barcode.rs      |  4 +-
 thermal_parser/src/utils/barcodes/code93.rs | 63 +++++++++++++++++++++
 thermal_parser/src/utils/barcodes/mod.rs    |  3 +-
 3 files changed, 67 insertions(+), 3 deletions(-)
 create mode 100644 thermal_parser/src/utils/barcodes/code93.rs

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index dd685a8..69bc6cb 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -5,13 +5,13 @@ use std::str::from_utf8;
 use barcoders::sym::codabar::Codabar;
 use barcoders::sym::code128::Code128;
 use barcoders::sym::code39::Code39;
-use barcoders::sym::code93::Code93;
 use barcoders::sym::ean13::EAN13;
 use barcoders::sym::ean13::UPCA;
 use barcoders::sym::ean8::EAN8;
 use barcoders::sym::tf::TF;
 
 use crate::text::TextSpan;
+use crate::utils::barcodes::code93::Code93;
 use crate::utils::barcodes::upce::UPCE;
 use crate::{command::*, constants::*, context::*, graphics::*};
 
@@ -271,7 +271,7 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Code93 => {
-                return match Code93::new(data.to_string()) {
+                return match Code93::new(data) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
diff --git a/thermal_parser/src/utils/barcodes/code93.rs b/thermal_parser/src/utils/barcodes/code93.rs
new file mode 100644
index 0000000..4897e7a
--- /dev/null
+++ b/thermal_parser/src/utils/barcodes/code93.rs
@@ -0,0 +1,63 @@
+//! The barcoders crate can't tell two of the four Code93 shift characters apart, which
+//! makes it draw wrong check characters.
+
+const CHARACTERS: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
+
+/// Bars of the values 0 to 46, the last four values are the shift characters
+const PATTERNS: [u16; 47] = [
+    0b100010100, 0b101001000, 0b101000100, 0b101000010, 0b100101000, 0b100100100,
+    0b100100010, 0b101010000, 0b100010010, 0b100001010, 0b110101000, 0b110100100,
+    0b110100010, 0b110010100, 0b110010010, 0b110001010, 0b101101000, 0b101100100,
+    0b101100010, 0b100110100, 0b100011010, 0b101011000, 0b101001100, 0b101000110,
+    0b100101100, 0b100010110, 0b110110100, 0b110110010, 0b110101100, 0b110100110,
+    0b110010110, 0b110011010, 0b101101100, 0b101100110, 0b100110110, 0b100111010,
+    0b100101110, 0b111010100, 0b111010010, 0b111001010, 0b101101110, 0b101110110,
+    0b110101110, 0b100100110, 0b111011010, 0b111010110, 0b100110010,
+];
+
+const GUARD: u16 = 0b101011110;
+
+pub struct Code93(Vec<usize>);
+
+impl Code93 {
+    /// Creates a new barcode from upper case letters, digits and the characters -. $/+%
+    pub fn new(data: &str) -> Result<Code93, String> {
+        let mut values = vec![];
+
+        for c in data.chars() {
+            match CHARACTERS.find(c) {
+                Some(value) => values.push(value),
+                None => return Err(format!("Invalid Code93 character {:?}", c)),
+            }
+        }
+
+        if values.is_empty() {
+            return Err("Invalid Code93: No data".to_string());
+        }
+
+        Ok(Code93(values))
+    }
+
+    //Weighted modulo 47, the weights start from the last value
+    fn check_value(values: &[usize], max_weight: usize) -> usize {
+        let weighted = values.iter().rev().enumerate();
+        weighted.map(|(i, v)| (i % max_weight + 1) * v).sum::<usize>() % 47
+    }
+
+    pub fn encode(&self) -> Vec<u8> {
+        let mut values = self.0.clone();
+        values.push(Self::check_value(&values, 20));
+        values.push(Self::check_value(&values, 15));
+
+        let mut points = vec![];
+        let symbols = values.iter().map(|v| PATTERNS[*v]);
+
+        for pattern in [GUARD].into_iter().chain(symbols).chain([GUARD]) {
+            points.extend((0..9).rev().map(|bit| (pattern >> bit & 1) as u8));
+        }
+
+        //Termination bar
+        points.push(1);
+        points
+    }
+}
diff --git a/thermal_parser/src/utils/barcodes/mod.rs b/thermal_parser/src/utils/barcodes/mod.rs
index 88a178b..8258d22 100644
--- a/thermal_parser/src/utils/barcodes/mod.rs
+++ b/thermal_parser/src/utils/barcodes/mod.rs
@@ -1 +1,2 @@
-pub mod upce;
\ No newline at end of file
+pub mod code93;
+pub mod upce;
-- 
2.43.0


From 93755f7d85afdd75ec5d9b4541843a08a03c24d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 26/80] fix: UPCA codes that have no UPCE form are reported

---
 thermal_parser/src/utils/barcodes/upce.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index eaafe46..6de5732 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -183,7 +183,7 @@ impl UPCE {
         // characters of the product code, followed by the third character of the
         // manufacturer code. The product code must be 00000 to 00999.
         if manu[2..] == [0, 0, 0] || manu[2..] == [1, 0, 0] || manu[2..] == [2, 0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00999.",
                 ));
@@ -199,9 +199,9 @@ impl UPCE {
         // the last two characters of the product code, followed by the digit "3".
         // The product code must be 00000 to 00099.
         if manu[3..] == [0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 {
                 return Err(String::from(
-                    "Invalid UPCA: Product code can not be greater than 00999.",
+                    "Invalid UPCA: Product code can not be greater than 00099.",
                 ));
             }
 
@@ -215,7 +215,7 @@ impl UPCE {
         // the last character of the product code, followed by the digit "4".
         // The product code must be 00000 to 00009.
         if manu[4..] == [0] {
-            if prod[0] != 0 && prod[1] != 0 && prod[2] != 0 && prod[3] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 || prod[3] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00009.",
                 ));
-- 
2.43.0


From e442ad2a4acec18a9caf6666f725f97e2f115775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 27/80] fix: UPCE check digits that don't match are reported

---
 thermal_parser/src/utils/barcodes/upce.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index 6de5732..e2c83f8 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -90,8 +90,8 @@ impl UPCE {
 
     // Takes 7 or 8 bytes
     // When 7 bytes, the checksum is calculated after decompression
-    // When 8 bytes, we assume the checksum is correct and still make
-    // the round trip to upc_a and back to upc_e
+    // When 8 bytes, the checksum is verified on the round trip to upc_a
+    // and back to upc_e
     fn from_upc_e(upc_e: &[u8]) -> Result<UPCE, String> {
         if upc_e.len() < 7 || upc_e.len() > 8 {
             return Err(String::from(
@@ -176,6 +176,10 @@ impl UPCE {
         //Check digit
         let chck = upc_a[11];
 
+        if chck != calculate_checkdigit(&upc_a[..11]) {
+            return Err(String::from("Invalid UPCA: The check digit is not correct."));
+        }
+
         // Condition 1: Manufacturer code ends in 000, 100, or 200
 
         // If the manufacturer code ends in 000, 100, or 200, the UPC-E code consists
-- 
2.43.0


From 8b67fa81a6ebdbe73ffd25a6c580e80286b6e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 28/80] fix: QR codes encode exactly the stored data in a
 version that fits, failed symbols leave none to print

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 41 ++++++++++++-------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index a6e34ae..5637cf1 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -1,7 +1,7 @@
 extern crate qr_code;
 
-use crate::context::QrModel::Micro;
 use crate::{command::*, context::*, graphics};
+use qr_code::types::QrError;
 use qr_code::{EcLevel, QrCode, Version};
 
 #[derive(Clone)]
@@ -20,11 +20,11 @@ const VERSION_CAPACITIES: [i16; 40] = [
 // Determine a minimum module version given the
 // length of bytes. This doesn't account for error
 // correction levels
-fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
+fn minimum_version_for_bytes(byte_len: usize, max_version: i16) -> i16 {
     if max_version > 40 { return 40 };
     
     for v in 0..max_version {
-        if VERSION_CAPACITIES[v as usize] >= byte_len {
+        if VERSION_CAPACITIES[v as usize] as usize >= byte_len {
             return v + 1;
         } 
     }
@@ -34,23 +34,18 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let data = command.data.to_owned();
-        
+        //The first byte is m, the rest is the data of the symbol
+        let data = command.data.get(1..).unwrap_or_default();
+
         //Max number of modules per version
         let max_modules: i16 = match &context.code2d.qr_model {
             QrModel::Model1 => 14,
             QrModel::Model2 => 40,
-            Micro => 4,
+            QrModel::Micro => 4,
         };
-        
+
         //Minimum number of modules required to encode the binary length
-        let min_modules = minimum_version_for_bytes(data.len() as i16, max_modules);
-        
-        let version = match &context.code2d.qr_model {
-            QrModel::Model1 => Version::Normal(min_modules),
-            QrModel::Model2 => Version::Normal(min_modules),
-            Micro => Version::Micro(min_modules),
-        };
+        let min_modules = minimum_version_for_bytes(data.len(), max_modules);
 
         let error_correction = match context.code2d.qr_error_correction {
             QrErrorCorrection::M => EcLevel::M,
@@ -59,7 +54,21 @@ impl CommandHandler for Handler {
             _ => EcLevel::L,
         };
 
-        let result = QrCode::with_version(data, version, error_correction);
+        //Higher error correction levels can need more modules
+        let mut result = Err(QrError::DataTooLong);
+
+        for modules in min_modules..=max_modules {
+            let version = match &context.code2d.qr_model {
+                QrModel::Model1 | QrModel::Model2 => Version::Normal(modules),
+                QrModel::Micro => Version::Micro(modules),
+            };
+
+            result = QrCode::with_version(data, version, error_correction);
+
+            if result.is_ok() {
+                break;
+            }
+        }
 
         match result {
             Ok(qr) => {
@@ -81,6 +90,8 @@ impl CommandHandler for Handler {
                 context.code2d.symbol_storage = Some(qrcode);
             }
             Err(e) => {
+                //A symbol that was stored earlier must not be printed instead
+                context.code2d.symbol_storage = None;
                 println!("QR ERROR {} data: {:?}", e, String::from_utf8(command.data.clone()).unwrap_or("".to_string()));
             }
         }
-- 
2.43.0


From d81565dc0476410228a6e3fbabe5bf86d595f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 29/80] fix: QR error correction levels are selected by 49 to
 51

---
 .../src/subcommands/gs_code2d/qr_set_correction_level.rs    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
index 07a1cc8..a1f3b5b 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
@@ -8,9 +8,9 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&48u8);
 
         context.code2d.qr_error_correction = match n {
-            1 => QrErrorCorrection::M,
-            2 => QrErrorCorrection::Q,
-            3 => QrErrorCorrection::H,
+            1 | 49 => QrErrorCorrection::M,
+            2 | 50 => QrErrorCorrection::Q,
+            3 | 51 => QrErrorCorrection::H,
             _ => QrErrorCorrection::L,
         }
     }
-- 
2.43.0


From 13ff5b2413a4ba75f762d71aee26b31ba98097ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 30/80] fix: printing an unsupported 2D symbol is an error and
 never prints a stored QR code

---
 .../src/subcommands/gs_code2d/aztec_print.rs           | 10 +++-------
 .../src/subcommands/gs_code2d/composite_print.rs       | 10 +++-------
 .../src/subcommands/gs_code2d/datamatrix_print.rs      | 10 +++-------
 thermal_parser/src/subcommands/gs_code2d/gs1_print.rs  | 10 +++-------
 thermal_parser/src/subcommands/gs_code2d/maxi_print.rs | 10 +++-------
 .../src/subcommands/gs_code2d/pdf417_print.rs          | 10 +++-------
 6 files changed, 18 insertions(+), 42 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/aztec_print.rs b/thermal_parser/src/subcommands/gs_code2d/aztec_print.rs
index 42ef808..0bd22fb 100644
--- a/thermal_parser/src/subcommands/gs_code2d/aztec_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/aztec_print.rs
@@ -4,13 +4,9 @@ use crate::{command::*, context::*, graphics::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
+    fn get_graphics(&self, _command: &Command, _context: &Context) -> Option<GraphicsCommand> {
+        //TODO No support for this yet, the symbol storage only ever has QR codes
+        Some(GraphicsCommand::Error("Aztec is not supported".to_string()))
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/composite_print.rs b/thermal_parser/src/subcommands/gs_code2d/composite_print.rs
index a3d6d84..9b568e5 100644
--- a/thermal_parser/src/subcommands/gs_code2d/composite_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/composite_print.rs
@@ -4,13 +4,9 @@ use crate::{command::*, context::*, graphics::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
+    fn get_graphics(&self, _command: &Command, _context: &Context) -> Option<GraphicsCommand> {
+        //TODO No support for this yet, the symbol storage only ever has QR codes
+        Some(GraphicsCommand::Error("Composite is not supported".to_string()))
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_print.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_print.rs
index 67951c4..f7ee17d 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_print.rs
@@ -4,13 +4,9 @@ use crate::{command::*, context::*, graphics::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
+    fn get_graphics(&self, _command: &Command, _context: &Context) -> Option<GraphicsCommand> {
+        //TODO No support for this yet, the symbol storage only ever has QR codes
+        Some(GraphicsCommand::Error("DataMatrix is not supported".to_string()))
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/gs1_print.rs b/thermal_parser/src/subcommands/gs_code2d/gs1_print.rs
index b0124bc..bc8bee1 100644
--- a/thermal_parser/src/subcommands/gs_code2d/gs1_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/gs1_print.rs
@@ -4,13 +4,9 @@ use crate::{command::*, context::*, graphics::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
+    fn get_graphics(&self, _command: &Command, _context: &Context) -> Option<GraphicsCommand> {
+        //TODO No support for this yet, the symbol storage only ever has QR codes
+        Some(GraphicsCommand::Error("GS1 DataBar is not supported".to_string()))
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_print.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_print.rs
index 002f63c..c627e52 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_print.rs
@@ -4,13 +4,9 @@ use crate::{command::*, context::*, graphics::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
+    fn get_graphics(&self, _command: &Command, _context: &Context) -> Option<GraphicsCommand> {
+        //TODO No support for this yet, the symbol storage only ever has QR codes
+        Some(GraphicsCommand::Error("MaxiCode is not supported".to_string()))
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_print.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_print.rs
index e6b4533..5fc30e1 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_print.rs
@@ -4,13 +4,9 @@ use crate::{command::*, context::*, graphics::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
+    fn get_graphics(&self, _command: &Command, _context: &Context) -> Option<GraphicsCommand> {
+        //TODO No support for this yet, the symbol storage only ever has QR codes
+        Some(GraphicsCommand::Error("PDF417 is not supported".to_string()))
     }
 }
 
-- 
2.43.0


From 534e542cf78b432b2348bc3550172740fa17c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 31/80] fix: 2D code settings with small or large parameters
 don't overflow

---
 .../src/subcommands/gs_code2d/datamatrix_set_options.rs       | 2 +-
 thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs     | 2 +-
 .../src/subcommands/gs_code2d/pdf417_set_correction_level.rs  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
index 5479a1b..e9fafc0 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
@@ -15,7 +15,7 @@ impl CommandHandler for Handler {
 
         match m {
             0 | 48 => {
-                if d1 + d2 > 0 {
+                if d1 > 0 || d2 > 0 {
                     columns = d1;
                     rows = d2;
                 }
diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
index ce2fe3c..803fb16 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&50u8);
 
         //mode 2 through 6
-        context.code2d.maxicode_mode = n - 48;
+        context.code2d.maxicode_mode = n.saturating_sub(48);
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
index 4692cf7..b6ec50c 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
@@ -8,8 +8,8 @@ impl CommandHandler for Handler {
         let m = *command.data.get(0).unwrap_or(&48u8);
         let n = *command.data.get(1).unwrap_or(&48u8);
 
-        let codeword_count = command.data.len() - 2; //Assuming it's one byte per codeword
-        let mut level = m - 48;
+        let codeword_count = command.data.len().saturating_sub(2); //Assuming it's one byte per codeword
+        let mut level = m.saturating_sub(48);
 
         //Ratio based error correction
         if m == 49 {
-- 
2.43.0


From 2948ce16db98719035bfb826a1f0749c9003eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 32/80] fix: composite max width doesn't change the GS1 DataBar
 width

---
 .../src/subcommands/gs_code2d/composite_set_max_width.rs        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs b/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
index 827cdc9..8f964c5 100644
--- a/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
@@ -7,7 +7,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let nl = *command.data.get(0).unwrap_or(&0u8);
         let nh = *command.data.get(1).unwrap_or(&0u8);
-        context.code2d.gs1_databar_max_width = nl as u32 + nh as u32 * 256;
+        context.code2d.composite_max_width = nl as u32 + nh as u32 * 256;
     }
 }
 
-- 
2.43.0


From 62c59e127d73aef23b47884cd8e48ca63beabf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 33/80] fix: barcode height and QR size can't be set to zero

---
 thermal_parser/src/commands/set_barcode_height.rs       | 3 +++
 thermal_parser/src/subcommands/gs_code2d/qr_set_size.rs | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/set_barcode_height.rs b/thermal_parser/src/commands/set_barcode_height.rs
index b23902b..348d703 100644
--- a/thermal_parser/src/commands/set_barcode_height.rs
+++ b/thermal_parser/src/commands/set_barcode_height.rs
@@ -6,6 +6,9 @@ struct Handler;
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
+        if n == 0 {
+            return;
+        }
         context.barcode.height = n;
     }
 }
diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_set_size.rs b/thermal_parser/src/subcommands/gs_code2d/qr_set_size.rs
index 27d9db9..527f023 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_set_size.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_set_size.rs
@@ -5,7 +5,11 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        context.code2d.qr_size = *command.data.get(0).unwrap_or(&1u8);
+        let n = *command.data.get(0).unwrap_or(&1u8);
+        if n == 0 {
+            return;
+        }
+        context.code2d.qr_size = n;
     }
 }
 
-- 
2.43.0


From dc2a691141553ad3a71570b3ac8265cc06d108eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 34/80] fix: a text line is justified and measured as a whole
 when commands without movement interrupt it

---
 thermal_renderer/src/renderer.rs | 58 +++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 4de2074..7b2d22b 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -70,6 +70,7 @@ pub struct Renderer<'a, Output> {
     output_buffer: Vec<Output>,
     error_buffer: Vec<RenderError>,
     span_buffer: Vec<TextSpan>,
+    open_line: Vec<TextSpan>,
     context: Context,
     debug_profile: DebugProfile,
 }
@@ -83,6 +84,7 @@ impl<'a, Output> Renderer<'a, Output> {
             renderer,
             context: Context::new(),
             span_buffer: vec![],
+            open_line: vec![],
             error_buffer: vec![],
             output_buffer: vec![],
             debug_profile,
@@ -146,7 +148,6 @@ impl<'a, Output> Renderer<'a, Output> {
     fn process_command(&mut self, command: &Command) {
         match command.kind {
             CommandType::Unknown => {
-                self.process_text();
                 self.log_error(
                     RenderErrorKind::UnknownCommand,
                     command.handler.debug(command, &self.context),
@@ -159,7 +160,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 }
             }
             CommandType::Graphics => {
-                self.process_text();
+                self.layout_text();
 
                 let maybe_gfx = command.handler.get_graphics(command, &mut self.context);
 
@@ -169,12 +170,15 @@ impl<'a, Output> Renderer<'a, Output> {
                             self.log_error(RenderErrorKind::GraphicsError, error);
                         }
                         GraphicsCommand::Code2D(code_2d) => {
+                            self.process_text();
                             self.process_code_2d(&code_2d);
                         }
                         GraphicsCommand::Barcode(barcode) => {
+                            self.process_text();
                             self.process_barcode(&barcode);
                         }
                         GraphicsCommand::Image(mut image) => {
+                            self.process_text();
                             self.process_image(&mut image);
                         }
                         GraphicsCommand::Rectangle(_) => {}
@@ -189,8 +193,13 @@ impl<'a, Output> Renderer<'a, Output> {
                 self.process_device_commands(device_commands);
             }
             CommandType::Context => {
-                self.process_text();
+                //The line stays open unless the command moves away from it
+                self.layout_text();
+                let y = self.context.get_y();
                 command.handler.apply_context(command, &mut self.context);
+                if self.context.get_y() != y {
+                    self.process_text();
+                }
             }
 
             CommandType::ContextControl => {
@@ -206,12 +215,13 @@ impl<'a, Output> Renderer<'a, Output> {
                 let device_commands = &command
                     .handler
                     .get_device_command(command, &mut self.context);
-                self.process_text();
+                self.layout_text();
                 self.process_device_commands(device_commands);
             }
             //This is a ContextControl but with the additional
             //fact that text is not collected
             CommandType::TextStyle => {
+                self.layout_text();
                 command.handler.apply_context(command, &mut self.context);
 
                 let device_commands = &command
@@ -226,6 +236,19 @@ impl<'a, Output> Renderer<'a, Output> {
     fn process_device_commands(&mut self, device_commands: &Option<Vec<DeviceCommand>>) {
         if let Some(device_commands) = device_commands {
             for device_command in device_commands {
+                match device_command {
+                    //These don't move, so more text can follow on the same line
+                    DeviceCommand::SetTextWidth(_)
+                    | DeviceCommand::SetTextHeight(_)
+                    | DeviceCommand::Justify(_)
+                    | DeviceCommand::ChangeTabs(_, _)
+                    | DeviceCommand::ClearBufferGraphics
+                    | DeviceCommand::Cancel
+                    | DeviceCommand::Pulse
+                    | DeviceCommand::Transmit(_) => {}
+                    _ => self.process_text(),
+                }
+
                 self.renderer
                     .device_command(&mut self.context, device_command);
 
@@ -431,7 +454,16 @@ impl<'a, Output> Renderer<'a, Output> {
         self.span_buffer.push(text);
     }
 
+    //Renders all text, including the line that hasn't ended yet
     fn process_text(&mut self) {
+        self.layout_text();
+
+        let line = mem::take(&mut self.open_line);
+        self.render_line(&line);
+    }
+
+    //Places all collected text, lines are rendered as soon as they end
+    fn layout_text(&mut self) {
         if self.span_buffer.is_empty() {
             return;
         }
@@ -446,7 +478,7 @@ impl<'a, Output> Renderer<'a, Output> {
         self.span_buffer.clear();
 
         let mut lines: Vec<Vec<TextSpan>> = vec![];
-        let mut current_line: Vec<TextSpan> = vec![];
+        let mut current_line: Vec<TextSpan> = mem::take(&mut self.open_line);
         let max_width = self.context.get_width();
         words.reverse();
 
@@ -535,15 +567,17 @@ impl<'a, Output> Renderer<'a, Output> {
             }
         }
 
-        if !current_line.is_empty() {
-            lines.push(current_line);
-        }
+        //More text can follow on the last line
+        self.open_line = current_line;
 
-        //Adjust lines for justification
         for line in &lines {
-            if line.is_empty() {
-                continue;
-            }
+            self.render_line(line);
+        }
+    }
+
+    fn render_line(&mut self, line: &Vec<TextSpan>) {
+        //Adjust line for justification
+        if !line.is_empty() {
             let justification = line.first().unwrap().justify.clone();
 
             let max_width = self.context.get_width();
-- 
2.43.0


From 6b292863665a6b94b018f5c25e6ecc0732c51766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 35/80] fix: carriage returns are not printed as characters

---
 thermal_renderer/src/renderer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 7b2d22b..43db277 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -502,6 +502,11 @@ impl<'a, Output> Renderer<'a, Output> {
                 continue;
             }
 
+            //Carriage returns have no effect, lines end with line feeds
+            if word.text.eq("\r") {
+                continue;
+            }
+
             //Tabs have a special behavior
             if word.text.eq("\t") {
                 let current_x = self.context.get_x();
-- 
2.43.0


From f191a4da129a1c7a5dfa597d34b6cdb8f2006ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 36/80] fix: wide words are split at the printable width

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 43db277..38cc490 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -531,7 +531,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 //Break the word into parts for super long words
                 let mut broken = word.break_apart(
                     (avail_width / word.character_width) as usize,
-                    (max_width / word.character_width).max(word.character_width) as usize,
+                    (max_width / word.character_width).max(1) as usize,
                 );
 
                 let broken_len = broken.len() - 1;
-- 
2.43.0


From c64908ed725e4c12678dbf05a5c52a8c9222d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 37/80] fix: justified lines with tabs or positions stay within
 the width

---
 thermal_renderer/src/renderer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 38cc490..822db1a 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -591,13 +591,18 @@ impl<'a, Output> Renderer<'a, Output> {
             let mut line_offset = 0;
 
             for span in line {
-                line_width += span.get_width();
+                //Tabs and positions leave gaps between spans
+                if let Some(dimensions) = &span.dimensions {
+                    let right =
+                        (dimensions.x + dimensions.w).saturating_sub(self.context.get_base_x());
+                    line_width = line_width.max(right);
+                }
                 max_height = max_height.max(span.character_height);
             }
 
             match justification {
                 TextJustify::Right => {
-                    line_offset = max_width - line_width;
+                    line_offset = max_width.saturating_sub(line_width);
                 }
                 TextJustify::Center => {
                     if line_width < max_width {
-- 
2.43.0


From 4ad2700530517f872d0c8c4a18a0cd0aee7d47b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 38/80] fix: tabs move to the next stop, in page mode within
 the print area

---
 thermal_renderer/src/renderer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 822db1a..d35d30e 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -509,14 +509,18 @@ impl<'a, Output> Renderer<'a, Output> {
 
             //Tabs have a special behavior
             if word.text.eq("\t") {
-                let current_x = self.context.get_x();
+                //Move to the first tab stop that is beyond the current column
+                let current_x = self
+                    .context
+                    .get_x()
+                    .saturating_sub(self.context.get_base_x());
                 let mut current_tab_pos = 0;
                 for tab_len in &self.context.text.tabs {
-                    if current_tab_pos >= current_x {
+                    current_tab_pos += *tab_len as u32 * word.character_width;
+                    if current_tab_pos > current_x {
                         self.context.set_x(current_tab_pos);
                         break;
                     }
-                    current_tab_pos += *tab_len as u32 * word.character_width;
                 }
                 continue;
             }
-- 
2.43.0


From 6fe4aa47633e42ab7614c8104391da2655ff4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 39/80] fix: reverse feed doesn't overflow and stops at the top

---
 thermal_parser/src/context.rs    | 9 +++++++++
 thermal_renderer/src/renderer.rs | 7 ++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 2985a51..0d62da2 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -713,6 +713,15 @@ impl Context {
         self.offset_y(line_height * count);
     }
 
+    //Moves up, but never above the base value
+    pub fn reverse_newline(&mut self, count: u32) {
+        let line_height = self.text.line_spacing as u32;
+        let base_y = self.get_base_y();
+        let y = self.get_y().saturating_sub(line_height * count).max(base_y);
+        self.reset_x();
+        self.set_y(y - base_y);
+    }
+
     pub fn newline_for_spans(&mut self, spans: &Vec<TextSpan>) {
         let mut line_height = self.text.line_spacing as u32;
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index d35d30e..3b74586 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -278,7 +278,12 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.output_buffer.push(output);
                     }
                     DeviceCommand::FeedLine(num_lines) => {
-                        self.context.newline(*num_lines as u32);
+                        if *num_lines < 0 {
+                            self.context
+                                .reverse_newline(num_lines.unsigned_abs() as u32);
+                        } else {
+                            self.context.newline(*num_lines as u32);
+                        }
                     }
                     DeviceCommand::Feed(num) => {
                         self.context.feed(*num as u32);
-- 
2.43.0


From 0e63b59fe7d1a5d875ceb35b369e0a8c43404335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 40/80] fix: human readable text taller than the line spacing
 isn't overprinted

---
 thermal_renderer/src/renderer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 3b74586..237dac2 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -373,8 +373,7 @@ impl<'a, Output> Renderer<'a, Output> {
         match self.context.barcode.human_readable {
             HumanReadableInterface::Above | HumanReadableInterface::Both => {
                 self.collect_text(barcode.text.clone());
-                self.process_text();
-                self.context.newline(1);
+                self.end_line();
             }
             _ => {}
         }
@@ -411,8 +410,7 @@ impl<'a, Output> Renderer<'a, Output> {
             HumanReadableInterface::Below | HumanReadableInterface::Both => {
                 self.context.offset_y(8);
                 self.collect_text(barcode.text.clone());
-                self.process_text();
-                self.context.newline(1);
+                self.end_line();
             }
             _ => {}
         }
@@ -467,6 +465,14 @@ impl<'a, Output> Renderer<'a, Output> {
         self.render_line(&line);
     }
 
+    //Renders all text and moves below it
+    fn end_line(&mut self) {
+        self.layout_text();
+        let line = mem::take(&mut self.open_line);
+        self.context.newline_for_spans(&line);
+        self.render_line(&line);
+    }
+
     //Places all collected text, lines are rendered as soon as they end
     fn layout_text(&mut self) {
         if self.span_buffer.is_empty() {
-- 
2.43.0


From 0b47edf10fed753732fa66146d57b4d6c5b8ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 41/80] fix: 2D codes advance by their whole height, modules
 beyond the width don't distort the rest

---
 thermal_renderer/src/renderer.rs | 40 ++++++++++++--------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 237dac2..3722d5b 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -335,31 +335,25 @@ impl<'a, Output> Renderer<'a, Output> {
         let context = &mut self.context;
         let mut graphics = vec![];
 
-        let mut i = 1;
         let origin_x = context.calculate_justification(code_2d.width as u32 * code_2d.point_width);
-        context.set_x(origin_x);
 
-        for p in &code_2d.points {
-            if i != 1 && i % code_2d.width == 1 {
-                context.set_x(origin_x);
-                context.offset_y(code_2d.point_height as u32);
-            }
+        for row in code_2d.points.chunks((code_2d.width as usize).max(1)) {
+            context.set_x(origin_x);
 
-            if *p > 0 {
+            for p in row {
                 //Prevent rendering outside of print area
-                if context.get_available_width() < code_2d.point_width as u32 {
-                    continue;
+                if *p > 0 && context.get_available_width() >= code_2d.point_width as u32 {
+                    graphics.push(VectorGraphic::Rectangle(Rectangle {
+                        x: context.get_x(),
+                        y: context.get_y(),
+                        w: code_2d.point_width as u32,
+                        h: code_2d.point_height as u32,
+                    }));
                 }
-
-                graphics.push(VectorGraphic::Rectangle(Rectangle {
-                    x: context.get_x(),
-                    y: context.get_y(),
-                    w: code_2d.point_width as u32,
-                    h: code_2d.point_height as u32,
-                }));
+                context.offset_x(code_2d.point_width as u32);
             }
-            context.offset_x(code_2d.point_width as u32);
-            i += 1;
+
+            context.offset_y(code_2d.point_height as u32);
         }
 
         context.reset_x();
@@ -384,12 +378,8 @@ impl<'a, Output> Renderer<'a, Output> {
         );
 
         for bp in &barcode.points {
-            if *bp > 0 {
-                //Prevent rendering when beyond page bounds
-                if self.context.get_available_width() < barcode.point_width as u32 {
-                    continue;
-                }
-
+            //Prevent rendering when beyond page bounds
+            if *bp > 0 && self.context.get_available_width() >= barcode.point_width as u32 {
                 graphics.push(VectorGraphic::Rectangle(Rectangle {
                     x: self.context.get_x(),
                     y: self.context.get_y(),
-- 
2.43.0


From 6c989c208382dff94bbc41fa6ba8d0d6d83c10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 42/80] fix: a form feed ends an output, what follows is
 printed on a new one and errors are reported once

---
 thermal_renderer/src/image_renderer/mod.rs | 14 ++------
 thermal_renderer/src/renderer.rs           | 41 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index fc8d565..5b46dc0 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -212,18 +212,8 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
     }
 
     fn get_render_errors(&mut self) -> Vec<String> {
-        let mut errors = vec![];
-        let paper_errors = &self.paper_image.errors;
-        let page_errors = &self.page_image.errors;
-
-        for paper_error in paper_errors {
-            errors.push(paper_error.to_owned());
-        }
-
-        for page_error in page_errors {
-            errors.push(page_error.to_owned());
-        }
-
+        let mut errors = std::mem::take(&mut self.paper_image.errors);
+        errors.append(&mut self.page_image.errors);
         errors
     }
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 3722d5b..081cebd 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -71,6 +71,8 @@ pub struct Renderer<'a, Output> {
     error_buffer: Vec<RenderError>,
     span_buffer: Vec<TextSpan>,
     open_line: Vec<TextSpan>,
+    output_begun: bool,
+    output_start: u32,
     context: Context,
     debug_profile: DebugProfile,
 }
@@ -85,6 +87,8 @@ impl<'a, Output> Renderer<'a, Output> {
             context: Context::new(),
             span_buffer: vec![],
             open_line: vec![],
+            output_begun: false,
+            output_start: 0,
             error_buffer: vec![],
             output_buffer: vec![],
             debug_profile,
@@ -233,6 +237,15 @@ impl<'a, Output> Renderer<'a, Output> {
         }
     }
 
+    //The first output begins with the print, others
+    //when something is printed after a form feed
+    fn begin_output(&mut self) {
+        if !self.output_begun {
+            self.output_begun = true;
+            self.renderer.begin_render(&mut self.context);
+        }
+    }
+
     fn process_device_commands(&mut self, device_commands: &Option<Vec<DeviceCommand>>) {
         if let Some(device_commands) = device_commands {
             for device_command in device_commands {
@@ -246,7 +259,18 @@ impl<'a, Output> Renderer<'a, Output> {
                     | DeviceCommand::Cancel
                     | DeviceCommand::Pulse
                     | DeviceCommand::Transmit(_) => {}
-                    _ => self.process_text(),
+                    DeviceCommand::BeginPrint | DeviceCommand::Initialize => self.process_text(),
+                    DeviceCommand::EndPrint => {
+                        self.process_text();
+                        //Nothing was printed since the last output
+                        if !self.output_begun {
+                            continue;
+                        }
+                    }
+                    _ => {
+                        self.process_text();
+                        self.begin_output();
+                    }
                 }
 
                 self.renderer
@@ -265,7 +289,8 @@ impl<'a, Output> Renderer<'a, Output> {
                     DeviceCommand::BeginPrint => {
                         //Start the render at two newlines worth of height
                         self.context.newline(2);
-                        self.renderer.begin_render(&mut self.context)
+                        self.output_start = self.context.get_y();
+                        self.begin_output();
                     }
                     DeviceCommand::EndPrint => {
                         let errors = self.renderer.get_render_errors();
@@ -276,6 +301,11 @@ impl<'a, Output> Renderer<'a, Output> {
 
                         let output = self.renderer.end_render(&mut self.context);
                         self.output_buffer.push(output);
+                        self.output_begun = false;
+
+                        //Anything that follows is printed on a new output
+                        self.context.graphics.render_area.x = 0;
+                        self.context.graphics.render_area.y = self.output_start;
                     }
                     DeviceCommand::FeedLine(num_lines) => {
                         if *num_lines < 0 {
@@ -332,6 +362,8 @@ impl<'a, Output> Renderer<'a, Output> {
     }
 
     fn process_code_2d(&mut self, code_2d: &Code2D) {
+        self.begin_output();
+
         let context = &mut self.context;
         let mut graphics = vec![];
 
@@ -362,6 +394,8 @@ impl<'a, Output> Renderer<'a, Output> {
     }
 
     fn process_barcode(&mut self, barcode: &Barcode) {
+        self.begin_output();
+
         let mut graphics = vec![];
 
         match self.context.barcode.human_readable {
@@ -407,7 +441,7 @@ impl<'a, Output> Renderer<'a, Output> {
     }
 
     fn process_image(&mut self, image: &mut Image) {
-        //let context = &mut self.context;
+        self.begin_output();
 
         match image.flow {
             ImageFlow::Inline => {
@@ -444,6 +478,7 @@ impl<'a, Output> Renderer<'a, Output> {
     }
 
     fn collect_text(&mut self, text: TextSpan) {
+        self.begin_output();
         self.span_buffer.push(text);
     }
 
-- 
2.43.0


From ccffd11e8844b0461aaab3cda3486b8bc4b7ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 43/80] fix: a renderer that is used again starts with the
 default settings

---
 thermal_renderer/src/renderer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 081cebd..8384598 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -124,6 +124,7 @@ impl<'a, Output> Renderer<'a, Output> {
     }
 
     pub fn render(&mut self, bytes: &Vec<u8>) -> RenderOutput<Output> {
+        self.context = Context::new();
         self.renderer.set_debug_profile(self.debug_profile);
         self.log_debug_start("Begin Render");
 
-- 
2.43.0


From 60dcd2324b897816c2719bbfd01f47b39cff1efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 44/80] fix: html receipts that end in page mode keep their
 length

---
 thermal_renderer/src/html_renderer/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 99bd006..12f086f 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -239,7 +239,11 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
     }
 
     fn end_render(&mut self, context: &mut Context) -> ReceiptHtml {
-        let padding_bottom = context.get_y().saturating_sub(self.last_y);
+        let padding_bottom = context
+            .graphics
+            .render_area
+            .y
+            .saturating_sub(self.last_y);
 
         let content = self
             .template
-- 
2.43.0


From 467a815fc4e3b180771b8260a7aae33fc3453462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 45/80] fix: leaving page mode with ESC S is announced to the
 renderer

---
 thermal_parser/src/commands/select_standard_mode.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/thermal_parser/src/commands/select_standard_mode.rs b/thermal_parser/src/commands/select_standard_mode.rs
index dd57a34..df21849 100644
--- a/thermal_parser/src/commands/select_standard_mode.rs
+++ b/thermal_parser/src/commands/select_standard_mode.rs
@@ -11,10 +11,6 @@ use crate::{command::*, constants::*};
 struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, context: &mut Context) {
-        context.page_mode.enabled = false;
-    }
-
     fn get_device_command(
         &self,
         _command: &Command,
@@ -31,7 +27,7 @@ pub fn new() -> Command {
     Command::new(
         "Select standard mode",
         vec![ESC, 'S' as u8],
-        CommandType::Context,
+        CommandType::Control,
         DataType::Empty,
         Box::new(Handler {}),
     )
-- 
2.43.0


From be6c391c3a28f501ada3e8a80d28c624b55d5efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 46/80] fix: initialize keeps what is printed and permanent
 graphics, and leaves page mode

---
 thermal_parser/src/context.rs    | 11 ++++++++++-
 thermal_renderer/src/renderer.rs | 29 +++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 0d62da2..95ac093 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -1,6 +1,6 @@
 use crate::decoder::{get_codepage, Codepage};
 use crate::graphics;
-use crate::graphics::{GraphicsCommand, ImageRef, RGBA};
+use crate::graphics::{GraphicsCommand, ImageRef, ImageRefStorage, RGBA};
 use crate::text::TextSpan;
 use std::collections::HashMap;
 use std::mem;
@@ -578,12 +578,21 @@ impl Context {
         new_context
     }
 
+    //Resets to the default settings. What was printed isn't undone, so y is kept.
+    //Graphics that are stored on disc are kept as well.
     pub fn reset(&mut self) {
         if let Some(default) = &self.default {
+            let y = self.graphics.render_area.y;
+            let mut stored_graphics = mem::take(&mut self.graphics.stored_graphics);
+            stored_graphics.retain(|image_ref, _| image_ref.storage == ImageRefStorage::Disc);
+
             self.text = default.text.clone();
             self.barcode = default.barcode.clone();
             self.code2d = default.code2d.clone();
             self.graphics = default.graphics.clone();
+            self.graphics.render_area.y = y;
+            self.graphics.stored_graphics = stored_graphics;
+            self.page_mode = default.page_mode.clone();
         }
     }
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 8384598..390ad99 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -73,6 +73,7 @@ pub struct Renderer<'a, Output> {
     open_line: Vec<TextSpan>,
     output_begun: bool,
     output_start: u32,
+    output_bottom: u32,
     context: Context,
     debug_profile: DebugProfile,
 }
@@ -89,6 +90,7 @@ impl<'a, Output> Renderer<'a, Output> {
             open_line: vec![],
             output_begun: false,
             output_start: 0,
+            output_bottom: 0,
             error_buffer: vec![],
             output_buffer: vec![],
             debug_profile,
@@ -209,7 +211,11 @@ impl<'a, Output> Renderer<'a, Output> {
 
             CommandType::ContextControl => {
                 self.process_text();
+                let in_page_mode = self.context.page_mode.enabled;
                 command.handler.apply_context(command, &mut self.context);
+                if in_page_mode && !self.context.page_mode.enabled {
+                    self.renderer.page_end(&mut self.context);
+                }
 
                 let device_commands = &command
                     .handler
@@ -243,10 +249,18 @@ impl<'a, Output> Renderer<'a, Output> {
     fn begin_output(&mut self) {
         if !self.output_begun {
             self.output_begun = true;
+            self.output_bottom = 0;
             self.renderer.begin_render(&mut self.context);
         }
     }
 
+    //Remember how far the printed content reaches
+    fn extend_output(&mut self, bottom: u32) {
+        if !self.context.page_mode.enabled {
+            self.output_bottom = self.output_bottom.max(bottom);
+        }
+    }
+
     fn process_device_commands(&mut self, device_commands: &Option<Vec<DeviceCommand>>) {
         if let Some(device_commands) = device_commands {
             for device_command in device_commands {
@@ -322,6 +336,11 @@ impl<'a, Output> Renderer<'a, Output> {
                     DeviceCommand::FullCut | DeviceCommand::PartialCut => {
                         self.context.newline(2);
                     }
+                    DeviceCommand::Initialize => {
+                        //Continue below everything that is already printed
+                        let area = &mut self.context.graphics.render_area;
+                        area.y = area.y.max(self.output_bottom);
+                    }
                     DeviceCommand::BeginPageMode => {
                         self.context.page_mode.enabled = true;
                         self.renderer.page_begin(&mut self.context);
@@ -392,6 +411,9 @@ impl<'a, Output> Renderer<'a, Output> {
         context.reset_x();
 
         self.renderer.render_graphics(context, &graphics);
+
+        let bottom = self.context.get_y();
+        self.extend_output(bottom);
     }
 
     fn process_barcode(&mut self, barcode: &Barcode) {
@@ -430,6 +452,8 @@ impl<'a, Output> Renderer<'a, Output> {
 
         self.context.reset_x();
         self.context.offset_y(barcode.point_height as u32);
+        let bottom = self.context.get_y();
+        self.extend_output(bottom);
 
         match self.context.barcode.human_readable {
             HumanReadableInterface::Below | HumanReadableInterface::Both => {
@@ -463,6 +487,7 @@ impl<'a, Output> Renderer<'a, Output> {
         image.y = self.context.get_y();
         self.log_debug_icon("[§]", "Render Image");
         self.renderer.render_image(&mut self.context, image);
+        self.extend_output(image.y + image.h);
 
         match image.flow {
             ImageFlow::Inline => {
@@ -653,6 +678,10 @@ impl<'a, Output> Renderer<'a, Output> {
                 _ => {}
             }
 
+            if let Some(dimensions) = line.first().and_then(|span| span.dimensions.as_ref()) {
+                self.extend_output(dimensions.y + max_height);
+            }
+
             self.log_debug_icon(
                 "🗚",
                 &format!("Render Text {:?} at x offset = {}", line, line_offset),
-- 
2.43.0


From 8d85097288715cf9ab6e7ebc05872b250f1263fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 47/80] fix: pages keep their content in place when areas and
 directions change

---
 thermal_parser/src/context.rs                 | 31 ++++++++++-------
 thermal_renderer/src/html_renderer/mod.rs     |  9 ++---
 thermal_renderer/src/image_renderer/mod.rs    |  9 ++---
 .../src/image_renderer/thermal_image.rs       | 34 ++++++++++++++++++-
 4 files changed, 56 insertions(+), 27 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 95ac093..c3e7adf 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -254,12 +254,25 @@ impl PageModeContext {
         let rotation =
             self.calculate_directional_rotation(&self.previous_direction, &self.direction);
 
-        //Swap page area w and h
         let previously_swapped = PageModeContext::should_dimension_swap(&self.previous_direction);
         let should_swap = PageModeContext::should_dimension_swap(&self.direction);
 
-        //Swap page dimension
-        if !previously_swapped && should_swap || !should_swap && previously_swapped {
+        //The page grows to the right and bottom of its standard direction
+        //no matter what the direction currently is
+        if previously_swapped {
+            mem::swap(&mut self.page_area.w, &mut self.page_area.h);
+        }
+
+        self.page_area.w = self
+            .page_area
+            .w
+            .max(self.logical_area.x + self.logical_area.w);
+        self.page_area.h = self
+            .page_area
+            .h
+            .max(self.logical_area.y + self.logical_area.h);
+
+        if should_swap {
             mem::swap(&mut self.page_area.w, &mut self.page_area.h);
         }
 
@@ -275,12 +288,6 @@ impl PageModeContext {
         self.page_area.x = self.render_area.x;
         self.page_area.y = self.render_area.y;
 
-        let render_max_width = self.render_area.x + self.render_area.w;
-        let render_max_height = self.render_area.y + self.render_area.h;
-
-        self.page_area.w = render_max_width.max(self.page_area.w);
-        self.page_area.h = render_max_height.max(self.page_area.h);
-
         (rotation, self.page_area.w, self.page_area.h)
     }
 
@@ -303,7 +310,7 @@ impl PageModeContext {
         match self.direction {
             PrintDirection::TopLeft2Right => r.x = p.x + x, //g
             PrintDirection::BottomRight2Left => r.x = (p.x + r.w).saturating_sub(x), //g
-            PrintDirection::TopRight2Bottom => r.y = r.h.saturating_sub(x), //?
+            PrintDirection::TopRight2Bottom => r.y = p.y + r.h.saturating_sub(x),
             PrintDirection::BottomLeft2Top => r.y = p.y + x, //g
         }
     }
@@ -368,7 +375,7 @@ impl PageModeContext {
 
         r.w = l.w;
         r.h = l.h;
-        r.y = l.y;
+        r.y = p.h.saturating_sub(l.y + l.h);
         r.x = p.w.saturating_sub(l.x + l.w);
     }
 
@@ -379,7 +386,7 @@ impl PageModeContext {
 
         r.w = l.h;
         r.h = l.w;
-        r.x = p.w.saturating_sub(l.y + l.h);
+        r.x = l.y;
         r.y = p.h.saturating_sub(l.x + l.w);
     }
 
diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 12f086f..004b208 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -127,7 +127,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
 
     fn page_area_changed(
         &mut self,
-        _context: &mut Context,
+        context: &mut Context,
         rotation: Rotation,
         width: u32,
         height: u32,
@@ -141,12 +141,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
             _ => {}
         }
 
-        if width > self.page_image.width {
-            self.page_image.expand_to_width(width)
-        }
-        if height > self.page_image.get_height() {
-            self.page_image.expand_to_height(height)
-        }
+        img.expand_page(&context.page_mode.direction, width, height);
     }
 
     fn render_page(&mut self, context: &mut Context) {
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index 5b46dc0..7cf347a 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -90,7 +90,7 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
 
     fn page_area_changed(
         &mut self,
-        _context: &mut Context,
+        context: &mut Context,
         rotation: Rotation,
         width: u32,
         height: u32,
@@ -104,12 +104,7 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
             _ => {}
         }
 
-        if width > self.page_image.width {
-            self.page_image.expand_to_width(width);
-        }
-        if height > self.page_image.get_height() {
-            self.page_image.expand_to_height(height);
-        }
+        img.expand_page(&context.page_mode.direction, width, height);
     }
 
     fn render_page(&mut self, context: &mut Context) {
diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 5f4c108..6698f56 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -4,7 +4,7 @@ extern crate png;
 use crate::renderer::DebugProfile;
 use fontdue::layout::CharacterData;
 use std::rc::Rc;
-use thermal_parser::context::Font;
+use thermal_parser::context::{Font, PrintDirection};
 use thermal_parser::graphics::{Image, Rectangle, RGBA};
 use thermal_parser::text::TextSpan;
 
@@ -637,6 +637,38 @@ impl ThermalImage {
             .splice(0..0, vec![self.paper_color; (self.width * height) as usize]);
     }
 
+    /// Pages grow to the right and to the bottom of their standard
+    /// direction. Content stays where it is. The width and height are
+    /// in the direction that the image currently has.
+    pub fn expand_page(&mut self, direction: &PrintDirection, width: u32, height: u32) {
+        if width <= self.width && height <= self.get_height() {
+            return;
+        }
+
+        let (old_w, old_h) = (self.width, self.get_height());
+        let (new_w, new_h) = (width.max(old_w), height.max(old_h));
+        let left = match direction {
+            PrintDirection::BottomRight2Left | PrintDirection::BottomLeft2Top => new_w - old_w,
+            _ => 0,
+        } as usize;
+        let top = match direction {
+            PrintDirection::BottomRight2Left | PrintDirection::TopRight2Bottom => new_h - old_h,
+            _ => 0,
+        } as usize;
+
+        let mut bytes = vec![self.paper_color; new_w as usize * new_h as usize];
+
+        for y in 0..old_h as usize {
+            let from = y * old_w as usize;
+            let to = (y + top) * new_w as usize + left;
+            bytes[to..to + old_w as usize]
+                .copy_from_slice(&self.bytes[from..from + old_w as usize]);
+        }
+
+        self.bytes = bytes;
+        self.width = new_w;
+    }
+
     pub fn expand_to_width(&mut self, new_width: u32) {
         let old_width = self.width;
         if new_width < old_width {
-- 
2.43.0


From 01538e6ec892c74acf42087aac2bb6514a32f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 48/80] fix: printed pages advance the paper by their height in
 every direction

---
 thermal_parser/src/context.rs    | 9 +++++++++
 thermal_renderer/src/renderer.rs | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index c3e7adf..b592b0a 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -351,6 +351,15 @@ impl PageModeContext {
         self.render_area.y = new_y as u32;
     }
 
+    //Height of the page in its standard direction
+    pub fn page_height(&self) -> u32 {
+        if PageModeContext::should_dimension_swap(&self.direction) {
+            self.page_area.w
+        } else {
+            self.page_area.h
+        }
+    }
+
     fn should_dimension_swap(direction: &PrintDirection) -> bool {
         match direction {
             PrintDirection::TopLeft2Right | PrintDirection::BottomRight2Left => false,
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 390ad99..37ec9af 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -353,8 +353,11 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.renderer.render_page(&mut self.context);
 
                         //Advance the y since a page is being rendered
-                        self.context.graphics.render_area.y += self.context.page_mode.page_area.h;
+                        let page_height = self.context.page_mode.page_height();
+                        self.context.graphics.render_area.y += page_height;
                         self.context.graphics.render_area.x = 0;
+                        self.output_bottom =
+                            self.output_bottom.max(self.context.graphics.render_area.y);
                     }
                     DeviceCommand::ChangePageArea => {
                         //This is important to make sure that we know the direction has already been altered
-- 
2.43.0


From ed9535a7df6ee13062fb779e92b10c07b159ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 49/80] fix: every page begins empty and as large as the
 current area

---
 thermal_renderer/src/renderer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 37ec9af..9f3802c 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -344,6 +344,15 @@ impl<'a, Output> Renderer<'a, Output> {
                     DeviceCommand::BeginPageMode => {
                         self.context.page_mode.enabled = true;
                         self.renderer.page_begin(&mut self.context);
+
+                        //A new page is as large as the current area
+                        let page_mode = &mut self.context.page_mode;
+                        page_mode.page_area.w = 0;
+                        page_mode.page_area.h = 0;
+                        page_mode.previous_direction = page_mode.direction.clone();
+                        let (rotation, width, height) = page_mode.apply_logical_area();
+                        self.renderer
+                            .page_area_changed(&mut self.context, rotation, width, height);
                     }
                     DeviceCommand::EndPageMode => {
                         self.renderer.page_end(&mut self.context);
@@ -359,6 +368,9 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.output_bottom =
                             self.output_bottom.max(self.context.graphics.render_area.y);
                     }
+                    //Areas and directions only have a meaning within page mode
+                    DeviceCommand::ChangePageArea | DeviceCommand::ChangePageModeDirection
+                        if !self.context.page_mode.enabled => {}
                     DeviceCommand::ChangePageArea => {
                         //This is important to make sure that we know the direction has already been altered
                         self.context.page_mode.previous_direction =
-- 
2.43.0


From f01aa27543b5084f885996afae0a8d89f6338790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 50/80] fix: page areas are clipped to the printable width

---
 thermal_parser/src/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index b592b0a..7925c4c 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -818,6 +818,11 @@ impl Context {
             .h
             .saturating_div(self.graphics.v_motion_unit as u32);
 
+        //Areas are clipped to the printable width
+        let max_width = self.graphics.render_area.w;
+        adj_area.x = adj_area.x.min(max_width);
+        adj_area.w = adj_area.w.min(max_width - adj_area.x);
+
         self.page_mode.logical_area = adj_area;
     }
 
-- 
2.43.0


From 92562fe99d19a887cfaba8e1b5d80073b92f18a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 51/80] fix: printing a page doesn't erase what is already
 printed

---
 thermal_renderer/src/image_renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index 7cf347a..335efdf 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -157,7 +157,7 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
             h,
             pixels,
             false,
-            false,
+            true,
         );
     }
 
-- 
2.43.0


From 499f7446c48cd8dc5f85badd8fdc02246d9e2996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 52/80] fix: html receipts with an empty page don't panic

---
 thermal_renderer/src/html_renderer/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 004b208..20dcac5 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -159,6 +159,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         }
 
         let (w, h, pixels) = self.page_image.copy();
+        let is_empty = pixels.is_empty();
 
         //Rotate back to how it was
         let rotation_to_previous = context.page_mode.calculate_directional_rotation(
@@ -173,6 +174,11 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
             _ => {}
         }
 
+        //There is nothing to print on a page without an area
+        if is_empty {
+            return;
+        }
+
         let image = thermal_parser::graphics::Image {
             pixels,
             x: context.graphics.render_area.x,
-- 
2.43.0


From dd0fc0f9b0bd4645e449115b93f65eadfc6c57ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 53/80] fix: page content is cropped at the bottom by its
 height

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 6698f56..2cee48a 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -526,7 +526,7 @@ impl ThermalImage {
 
         //Width can never grow, height can grow is auto_grow = true
         let needs_crop_w = x + width > self.width;
-        let needs_crop_h = !self.auto_grow && (y + width > self.get_height());
+        let needs_crop_h = !self.auto_grow && (y + height > self.get_height());
 
         let (final_width, final_height, final_pixels) = if needs_crop_w || needs_crop_h {
             let max_width = self.width - x;
-- 
2.43.0


From 964360943a14f5c41def944a340ef9fc9a4e65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 54/80] fix: margins are added in time linear to the paper

---
 .../src/image_renderer/thermal_image.rs       | 20 ++++++-------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 2cee48a..189afcd 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -678,25 +678,17 @@ impl ThermalImage {
         let left = ((new_width - old_width) as f32 / 2.0).floor() as u32;
         let right = new_width - (left + old_width);
 
-        self.bytes
-            .try_reserve((height as usize * new_width as usize - self.bytes.len()) as usize)
-            .unwrap();
-
-        let mut insert_idx = 0;
-
+        let mut bytes = Vec::with_capacity(height as usize * new_width as usize);
         let left_bytes = vec![self.paper_color; left as usize];
         let right_bytes = vec![self.paper_color; right as usize];
 
-        for _ in 0..height {
-            self.bytes
-                .splice(insert_idx..insert_idx, left_bytes.clone());
-            insert_idx += left as usize + old_width as usize;
-
-            self.bytes
-                .splice(insert_idx..insert_idx, right_bytes.clone());
-            insert_idx += right as usize;
+        for row in self.bytes.chunks((old_width as usize).max(1)) {
+            bytes.extend_from_slice(&left_bytes);
+            bytes.extend_from_slice(row);
+            bytes.extend_from_slice(&right_bytes);
         }
 
+        self.bytes = bytes;
         self.width = new_width;
     }
 
-- 
2.43.0


From 52c8da826d6e7cab109da1dbd02dbc83e3cd2e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 55/80] fix: debug borders of empty images don't panic

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 189afcd..0763fc4 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -187,6 +187,10 @@ impl ThermalImage {
     }
 
     pub fn draw_border(bytes: &mut Vec<RGBA>, width: u32, height: u32, color: &RGBA) {
+        if width == 0 || height == 0 {
+            return;
+        }
+
         let bot_left = ((height - 1) * width) as usize;
 
         // Top and bottom border
-- 
2.43.0


From bd0a5e60553d156bfdebc3b350b043a58d930312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 56/80] fix: upside down text and images flip themselves
 instead of what is already printed

---
 .../src/image_renderer/thermal_image.rs       | 76 ++++++++-----------
 1 file changed, 31 insertions(+), 45 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 0763fc4..58e5ec4 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -316,6 +316,10 @@ impl ThermalImage {
                     continue;
                 }
 
+                if span.upside_down {
+                    ThermalImage::flip_rows(&mut bitmap.0, bitmap.1);
+                }
+
                 if self.debug_profile.text {
                     //Use debug color 1
                     ThermalImage::draw_border(
@@ -353,11 +357,22 @@ impl ThermalImage {
             )
         }
 
+        //Lines of upside down text are mirrored within the text
+        let line_y = |y: u32, height: u32| {
+            if span.upside_down {
+                dimensions.y + y_offset + dimensions.h.saturating_sub(y + height)
+            } else {
+                dimensions.y + y_offset + y
+            }
+        };
+
         if span.underline > 0 {
             self.draw_rect(
                 dimensions.x + x_offset,
-                (dimensions.y + y_offset + 3)
-                    + (span.character_height as f32 * baseline_ratio) as u32,
+                line_y(
+                    3 + (span.character_height as f32 * baseline_ratio) as u32,
+                    1,
+                ),
                 dimensions.w,
                 1,
                 &span.text_color,
@@ -368,22 +383,16 @@ impl ThermalImage {
         if span.strikethrough > 0 {
             self.draw_rect(
                 dimensions.x + x_offset,
-                (dimensions.y + y_offset) + (span.character_height as f32 / 2.5) as u32,
+                line_y(
+                    (span.character_height as f32 / 2.5) as u32,
+                    span.strikethrough,
+                ),
                 dimensions.w,
                 span.strikethrough,
                 &span.text_color,
                 true,
             )
         }
-
-        if span.upside_down {
-            self.flip_pixels(
-                dimensions.x + x_offset,
-                dimensions.y + y_offset,
-                dimensions.w,
-                dimensions.h,
-            );
-        }
     }
 
     pub fn scale_bitmap(
@@ -423,39 +432,16 @@ impl ThermalImage {
         scaled_bitmap
     }
 
-    pub fn flip_pixels(&mut self, x: u32, y: u32, width: u32, height: u32) {
-        if x + width > self.width {
-            return;
-        };
-
-        self.expand_to_height(y + height);
-
-        // Vector to store rows
-        let mut sub_image = Vec::<RGBA>::with_capacity((width * height) as usize);
-
-        // Collect the sub-image row by row
-        for cur_y in y..y + height {
-            let start_idx = (cur_y * self.width + x) as usize;
-            let end_idx = start_idx + width as usize;
-
-            // Collect the current row and push it to the sub_image
-            sub_image.extend_from_slice(&self.bytes[start_idx..end_idx]);
-        }
+    /// Flips a bitmap top to bottom
+    pub fn flip_rows(pixels: &mut Vec<RGBA>, width: u32) {
+        let width = (width as usize).max(1);
+        let height = pixels.len() / width;
 
-        // Now reverse the rows to flip the image top-to-bottom
-        let row_size = width as usize;
-        for i in 0..(height as usize / 2) {
-            let top_row_start = i * row_size;
-            let bottom_row_start = (height as usize - i - 1) * row_size;
-
-            // Swap rows by using a temporary buffer
-            for j in 0..row_size {
-                sub_image.swap(top_row_start + j, bottom_row_start + j);
+        for y in 0..height / 2 {
+            for x in 0..width {
+                pixels.swap(y * width + x, (height - y - 1) * width + x);
             }
         }
-
-        // Put the flipped pixels back into the image
-        self.put_pixels(x, y, width, height, sub_image, false, false);
     }
 
     pub fn put_rect(&mut self, rectangle: &Rectangle, color: &RGBA) {
@@ -476,11 +462,11 @@ impl ThermalImage {
             ThermalImage::draw_border(&mut pixels, image.w, image.h, &self.image_debug_color);
         }
 
-        self.put_pixels(image.x, image.y, image.w, image.h, pixels, false, true);
-
         if image.upside_down {
-            self.flip_pixels(image.x, image.y, image.w, image.h);
+            ThermalImage::flip_rows(&mut pixels, image.w);
         }
+
+        self.put_pixels(image.x, image.y, image.w, image.h, pixels, false, true);
     }
 
     /// Add pixels to the current canvas.
-- 
2.43.0


From 331ddcfa487e81e21e366997e626e45723f358f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 57/80] fix: very long paper and feeds don't overflow

---
 thermal_parser/src/context.rs                       | 13 +++++++++----
 .../src/image_renderer/thermal_image.rs             | 12 ++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 7925c4c..e3d9df3 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -249,6 +249,9 @@ pub enum Rotation {
     R270,
 }
 
+//Positions stay far away from overflowing no matter how much is fed
+const MAX_POSITION: u32 = i32::MAX as u32 / 2;
+
 impl PageModeContext {
     pub fn apply_logical_area(&mut self) -> (Rotation, u32, u32) {
         let rotation =
@@ -328,11 +331,11 @@ impl PageModeContext {
     }
 
     pub fn offset_x(&mut self, x: u32) {
-        self.render_area.x += x;
+        self.render_area.x = self.render_area.x.saturating_add(x).min(MAX_POSITION);
     }
 
     pub fn offset_y(&mut self, y: u32) {
-        self.render_area.y += y;
+        self.render_area.y = self.render_area.y.saturating_add(y).min(MAX_POSITION);
     }
 
     pub fn offset_x_relative(&mut self, x: i16) {
@@ -685,7 +688,8 @@ impl Context {
         if self.page_mode.enabled {
             self.page_mode.offset_x(x);
         } else {
-            self.graphics.render_area.x += x;
+            let area = &mut self.graphics.render_area;
+            area.x = area.x.saturating_add(x).min(MAX_POSITION);
         }
     }
 
@@ -693,7 +697,8 @@ impl Context {
         if self.page_mode.enabled {
             self.page_mode.offset_y(y);
         } else {
-            self.graphics.render_area.y += y;
+            let area = &mut self.graphics.render_area;
+            area.y = area.y.saturating_add(y).min(MAX_POSITION);
         }
     }
 
diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 58e5ec4..c20112d 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -542,9 +542,9 @@ impl ThermalImage {
 
         if multiply {
             for pixel in &final_pixels {
-                let idx = cur_y * self.width + cur_x;
+                let idx = cur_y as usize * self.width as usize + cur_x as usize;
 
-                self.bytes[idx as usize].multiply_foreground(pixel);
+                self.bytes[idx].multiply_foreground(pixel);
 
                 if cur_x == x + final_width - 1 {
                     cur_x = x;
@@ -555,8 +555,8 @@ impl ThermalImage {
             }
         } else {
             for pixel in &final_pixels {
-                let idx = cur_y * self.width + cur_x;
-                self.bytes[idx as usize].blend_foreground(pixel);
+                let idx = cur_y as usize * self.width as usize + cur_x as usize;
+                self.bytes[idx].blend_foreground(pixel);
                 if cur_x == x + final_width - 1 {
                     cur_x = x;
                     cur_y += 1;
@@ -609,7 +609,7 @@ impl ThermalImage {
     }
 
     pub fn expand_to_height(&mut self, height: u32) {
-        let len = (self.width * height) as usize;
+        let len = self.width as usize * height as usize;
         let cur_len = self.bytes.len();
         if cur_len >= len {
             return;
@@ -686,7 +686,7 @@ impl ThermalImage {
         let w = self.width;
         let h = self.get_height();
 
-        let mut pixels = Vec::with_capacity((w * h) as usize * 3);
+        let mut pixels = Vec::with_capacity(w as usize * h as usize * 3);
 
         for byte in self.bytes.iter() {
             pixels.push(byte.r);
-- 
2.43.0


From 70221b5b2246ec6fe97e53396a7326b6a57f7608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 58/80] fix: text in html receipts is escaped

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 9bc6f3d..76169b0 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -220,11 +220,19 @@ fn span_to_html(
             x_offset + x,
             baseline_offset,
             class_list.join(" "),
-            text.text
+            escape_html(&text.text)
         ),
     )
 }
 
+fn escape_html(text: &str) -> String {
+    text.replace("&", "&amp;")
+        .replace("<", "&lt;")
+        .replace(">", "&gt;")
+        .replace("\"", "&quot;")
+        .replace("'", "&#39;")
+}
+
 fn color_to_class(color: RGBA, render_colors: &RenderColors, fg: bool) -> &str {
     //Most common color by far
     if color == render_colors.color_1 {
-- 
2.43.0


From dbbbb7c845158412e9b899332bc0595e1869d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 59/80] fix: text that looks like a template placeholder stays
 as it is

---
 thermal_renderer/src/html_renderer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 20dcac5..d2675d9 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -264,7 +264,6 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 "{{color-3}}",
                 &*context.graphics.render_colors.color_3.as_hex(),
             )
-            .replace("{{content}}", &self.content.join(""))
             .replace(
                 "{{receipt-style}}",
                 &*format!(
@@ -274,7 +273,9 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     context.graphics.paper_area.y,
                     padding_bottom
                 ),
-            );
+            )
+            //Content is last, it can contain text that looks like a placeholder
+            .replace("{{content}}", &self.content.join(""));
 
         ReceiptHtml { content }
     }
-- 
2.43.0


From cad1eab563127dc3cdc6eed1101be094a60976af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 60/80] fix: html rows on the same line or above others are at
 the right position

---
 thermal_renderer/src/html_renderer/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index d2675d9..0ec68d4 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -84,7 +84,7 @@ impl HtmlRenderer {
         self.content.push(format!(
             "<p style='height: {}px; margin-top: {}px'>{}</p>",
             row.height,
-            row.y.saturating_sub(self.last_y),
+            row.y as i64 - self.last_y as i64,
             row.content
         ));
         self.last_y = row.y + row.height;
@@ -111,12 +111,12 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         //We keep track of the last y so that we can render things
         //from top to bottom in the html flow instead of having
         //every element be position absolute
-        self.last_y = context.get_y();
+        self.last_y = 0;
 
         self.content.clear();
         self.push_row(HtmlRow {
             y: 0,
-            height: context.get_y(),
+            height: context.graphics.render_area.y,
             content: "".to_string(),
         })
     }
@@ -201,7 +201,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     }
                 }
             }
-        } else {
+        } else if !graphics.is_empty() {
             self.push_row(graphics_to_svg(graphics));
         }
     }
@@ -228,7 +228,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     self.page_image.render_span(x_offset, max_height, span);
                 }
             }
-        } else {
+        } else if !spans.is_empty() {
             self.push_row(spans_to_html(
                 spans,
                 x_offset,
-- 
2.43.0


From 7493c8a922e86c9c38f19fd2d3165b0b92edce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 61/80] fix: PC850 and PC865 tables show their own characters

---
 thermal_parser/src/decoder/codepage_2_pc850.rs | 2 +-
 thermal_parser/src/decoder/codepage_5_pc865.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/decoder/codepage_2_pc850.rs b/thermal_parser/src/decoder/codepage_2_pc850.rs
index a9d331e..f3ed403 100644
--- a/thermal_parser/src/decoder/codepage_2_pc850.rs
+++ b/thermal_parser/src/decoder/codepage_2_pc850.rs
@@ -7,7 +7,7 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å", 
         "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ", 
         "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "»", 
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "╜", "╛", "┐", 
+        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐", 
         "└", "┴", "┬", "├", "─", "┼", "ã", "Ã", "╚", "╔", "╩", "╦", "╠", "═", "╬", "¤", 
         "ð", "Ð", "Ê", "Ë", "È", "ı", "Í", "Î", "Ï", "┘", "┌", "█", "▄", "¦", "Ì", "▀", 
         "Ó", "ß", "Ô", "Ò", "õ", "Õ", "µ", "þ", "Þ", "Ú", "Û", "Ù", "ý", "Ý", "¯", "´", 
diff --git a/thermal_parser/src/decoder/codepage_5_pc865.rs b/thermal_parser/src/decoder/codepage_5_pc865.rs
index e6a29b3..65f12b9 100644
--- a/thermal_parser/src/decoder/codepage_5_pc865.rs
+++ b/thermal_parser/src/decoder/codepage_5_pc865.rs
@@ -5,9 +5,9 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
     "PC865: Nordic",
     &[
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å",
-        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ",
-        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "¤",
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐",
+        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "₧", "ƒ",
+        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "⌐", "¬", "½", "¼", "¡", "«", "¤",
+        "░", "▒", "▓", "│", "┤", "╡", "╢", "╖", "╕", "╣", "║", "╗", "╝", "╜", "╛", "┐",
         "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚","╔", "╩", "╦", "╠", "═", "╬", "╧",
         "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪","┘", "┌", "█", "▄", "▌", "▐", "▀",
         "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ","Θ", "Ω", "δ", "∞", "φ", "ε", "∩",
-- 
2.43.0


From 557e54e13f3d4fd4d822beecd541df82089b656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 62/80] fix: international character sets replace the
 characters of their ESC R table

---
 thermal_parser/src/decoder/international.rs | 92 ++++++++++-----------
 1 file changed, 44 insertions(+), 48 deletions(-)

diff --git a/thermal_parser/src/decoder/international.rs b/thermal_parser/src/decoder/international.rs
index 0fa3ac7..e225068 100644
--- a/thermal_parser/src/decoder/international.rs
+++ b/thermal_parser/src/decoder/international.rs
@@ -6,15 +6,13 @@ pub static FRANCE: Language = (
     "French",
     &[
         (0x40, "à"),
-        (0x5B, "ç"),
-        (0x5C, "§"),
-        (0x5D, "^"),
-        (0x5E, "é"),
-        (0x60, "ù"),
-        (0x7B, "è"),
-        (0x7C, "¨"),
-        (0x7D, "û"),
-        (0x7E, "ü"),
+        (0x5B, "°"),
+        (0x5C, "ç"),
+        (0x5D, "§"),
+        (0x7B, "é"),
+        (0x7C, "ù"),
+        (0x7D, "è"),
+        (0x7E, "¨"),
     ],
 );
 
@@ -25,10 +23,10 @@ pub static GERMANY: Language = (
         (0x5B, "Ä"),
         (0x5C, "Ö"),
         (0x5D, "Ü"),
-        (0x60, "ä"),
-        (0x7B, "ö"),
-        (0x7C, "ü"),
-        (0x7D, "ß"),
+        (0x7B, "ä"),
+        (0x7C, "ö"),
+        (0x7D, "ü"),
+        (0x7E, "ß"),
     ],
 );
 
@@ -37,22 +35,19 @@ pub static UK: Language = ("British English", &[(0x23, "£")]);
 pub static DENMARK_I: Language = (
     "Danish Variant I",
     &[
-        (0x40, "Ä"),
         (0x5B, "Æ"),
         (0x5C, "Ø"),
         (0x5D, "Å"),
-        (0x5E, "^"),
-        (0x60, "ä"),
         (0x7B, "æ"),
         (0x7C, "ø"),
         (0x7D, "å"),
-        (0x7E, "~"),
     ],
 );
 
 pub static SWEDEN: Language = (
     "Swedish",
     &[
+        (0x24, "¤"),
         (0x40, "É"),
         (0x5B, "Ä"),
         (0x5C, "Ö"),
@@ -69,12 +64,11 @@ pub static SWEDEN: Language = (
 pub static ITALY: Language = (
     "Italian",
     &[
-        (0x40, "§"),
-        (0x5C, "ù"),
-        (0x5E, "é"),
-        (0x60, "à"),
-        (0x7B, "ò"),
-        (0x7C, "ç"),
+        (0x5B, "°"),
+        (0x5D, "é"),
+        (0x60, "ù"),
+        (0x7B, "à"),
+        (0x7C, "ò"),
         (0x7D, "è"),
         (0x7E, "ì"),
     ],
@@ -83,28 +77,27 @@ pub static ITALY: Language = (
 pub static SPAIN_I: Language = (
     "Spanish Variant I",
     &[
-        (0x40, "Ñ"),
+        (0x23, "₧"),
         (0x5B, "¡"),
-        (0x5C, "¿"),
-        (0x5D, "ç"),
-        (0x7B, "ñ"),
-        (0x7C, "¬"),
-        (0x7D, "½"),
-        (0x7E, "¼"),
+        (0x5C, "Ñ"),
+        (0x5D, "¿"),
+        (0x7B, "¨"),
+        (0x7C, "ñ"),
     ],
 );
 
-pub static JAPAN: Language = ("Japanese", &[(0x5C, "¥"), (0x7C, "¦")]);
+pub static JAPAN: Language = ("Japanese", &[(0x5C, "¥")]);
 
 pub static NORWAY: Language = (
     "Norwegian",
     &[
-        (0x40, "Ä"),
+        (0x24, "¤"),
+        (0x40, "É"),
         (0x5B, "Æ"),
         (0x5C, "Ø"),
         (0x5D, "Å"),
         (0x5E, "Ü"),
-        (0x60, "ä"),
+        (0x60, "é"),
         (0x7B, "æ"),
         (0x7C, "ø"),
         (0x7D, "å"),
@@ -132,13 +125,12 @@ pub static SPAIN_II: Language = (
     "Spanish Variant II",
     &[
         (0x40, "á"),
-        (0x5B, "í"),
+        (0x5B, "¡"),
         (0x5C, "Ñ"),
-        (0x5D, "Ó"),
-        (0x5E, "Ú"),
-        (0x60, "ñ"),
-        (0x7B, "á"),
-        (0x7C, "í"),
+        (0x5D, "¿"),
+        (0x5E, "é"),
+        (0x7B, "í"),
+        (0x7C, "ñ"),
         (0x7D, "ó"),
         (0x7E, "ú"),
     ],
@@ -148,33 +140,37 @@ pub static LATIN_AMERICA: Language = (
     "Latin",
     &[
         (0x40, "á"),
-        (0x5B, "í"),
+        (0x5B, "¡"),
         (0x5C, "Ñ"),
-        (0x5D, "Ó"),
-        (0x5E, "Ú"),
-        (0x60, "ñ"),
-        (0x7B, "é"),
-        (0x7C, "í"),
+        (0x5D, "¿"),
+        (0x5E, "é"),
+        (0x60, "ü"),
+        (0x7B, "í"),
+        (0x7C, "ñ"),
         (0x7D, "ó"),
         (0x7E, "ú"),
     ],
 );
 
-pub static KOREA: Language = ("Korean", &[(0x5C, "₩"), (0x7C, "₩")]);
+pub static KOREA: Language = ("Korean", &[(0x5C, "₩")]);
 
 pub static SLOVENIA: Language = (
     "Slovenian",
     &[
+        (0x40, "Ž"),
         (0x5B, "Š"),
         (0x5C, "Đ"),
         (0x5D, "Č"),
-        (0x7B, "ž"),
+        (0x5E, "Ć"),
+        (0x60, "ž"),
+        (0x7B, "š"),
         (0x7C, "đ"),
         (0x7D, "č"),
+        (0x7E, "ć"),
     ],
 );
 
-pub static CHINA: Language = ("Chinese", &[(0x5C, "¥")]);
+pub static CHINA: Language = ("Chinese", &[(0x24, "¥")]);
 
 pub static VIETNAM: Language = ("Vietnamese", &[(0x23, "đ")]);
 
-- 
2.43.0


From 05ee23395e0d2d796aee0bff95080f825ab472c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 63/80] fix: a long word that starts on the next line doesn't
 make the line before it taller

---
 thermal_renderer/src/renderer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 9f3802c..46d8f58 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -619,7 +619,11 @@ impl<'a, Output> Renderer<'a, Output> {
                 for (i, broke) in broken.iter_mut().enumerate() {
                     let last = broken_len == i;
                     broke.get_dimensions(&self.context);
-                    current_line.push(broke.clone()); //ugg
+
+                    //Nothing fits next to what is already on the line
+                    if !broke.text.is_empty() {
+                        current_line.push(broke.clone()); //ugg
+                    }
 
                     if last {
                         //Last word doesn't geta a forced newline
-- 
2.43.0


From a06b679201cba1e242bf2a657efe43e647441826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 64/80] fix: GS ( G takes the number of bytes it declares

---
 thermal_parser/src/commands/unknown_gs_g.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/unknown_gs_g.rs b/thermal_parser/src/commands/unknown_gs_g.rs
index 5c26898..8bd3c86 100644
--- a/thermal_parser/src/commands/unknown_gs_g.rs
+++ b/thermal_parser/src/commands/unknown_gs_g.rs
@@ -1,9 +1,20 @@
+use crate::util::parse_u16;
 use crate::{command::*, constants::*, context::*};
 
 #[derive(Clone)]
 struct Handler;
 
 impl CommandHandler for Handler {
+    //The first two bytes are the number of bytes that follow them
+    fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
+        if data.len() >= 2 && data.len() - 2 >= parse_u16(data, 0) as usize {
+            return false;
+        }
+
+        data.push(byte);
+        true
+    }
+
     fn apply_context(&self, _command: &Command, context: &mut Context) {
         //context.reset_x();
 
@@ -18,7 +29,7 @@ pub fn new() -> Command {
         "Unknown GS ( G",
         vec![GS, '(' as u8, 'G' as u8],
         CommandType::Context,
-        DataType::Quad,
+        DataType::Custom,
         Box::new(Handler {}),
     )
 }
-- 
2.43.0


From 245d9d22ded44d9d89b991cf16f562a11d9c6dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 65/80] fix: ESC ! underlines with bit 7

---
 thermal_parser/src/commands/set_print_mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_print_mode.rs b/thermal_parser/src/commands/set_print_mode.rs
index 076aecc..95a1f02 100644
--- a/thermal_parser/src/commands/set_print_mode.rs
+++ b/thermal_parser/src/commands/set_print_mode.rs
@@ -5,7 +5,7 @@ struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         context.set_font(if font_b { Font::B } else { Font::A });
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
     fn debug(&self, command: &Command, _context: &Context) -> String {
         let mut changes = vec![];
 
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         changes.push(if font_b { "Font B" } else { "Font A" });
-- 
2.43.0


From ffa0cf97e803728d06f8ea429b38a4f47dabed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 66/80] fix: GS B inverts with the lowest bit of any value

---
 thermal_parser/src/commands/set_black_white_invert.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_black_white_invert.rs b/thermal_parser/src/commands/set_black_white_invert.rs
index af4b01d..e45f665 100644
--- a/thermal_parser/src/commands/set_black_white_invert.rs
+++ b/thermal_parser/src/commands/set_black_white_invert.rs
@@ -6,8 +6,9 @@ struct Handler;
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
+        let invert = (n & 0x00000001) == 1;
 
-        if n == 1 {
+        if invert {
             context.text.background_color = context.graphics.render_colors.color_1;
             context.text.color = context.graphics.render_colors.paper_color;
         } else {
@@ -15,7 +16,7 @@ impl CommandHandler for Handler {
             context.text.color = context.graphics.render_colors.color_1;
         }
 
-        context.text.invert = n == 1;
+        context.text.invert = invert;
     }
 }
 
-- 
2.43.0


From af1ec8b5e7f4c23b52a0a2444bee92d0516f320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 67/80] fix: bit image modes 1 and 32 have the dot size of
 their density

---
 thermal_parser/src/commands/bit_image.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/commands/bit_image.rs b/thermal_parser/src/commands/bit_image.rs
index 1668742..bff7cf7 100644
--- a/thermal_parser/src/commands/bit_image.rs
+++ b/thermal_parser/src/commands/bit_image.rs
@@ -76,11 +76,14 @@ impl CommandHandler for Handler {
             self.capacity = (self.width * self.height) / 8;
         }
 
-        //Image is single density, which oddly enough needs to
-        //have its pixels stretched by 2 on the w and 3 on the h
-        if m == 0 || m == 32 {
-            self.stretch = (2, 3);
-        }
+        //Single density stretches the dots by 2 on the w
+        //and 8 dot modes stretch them by 3 on the h
+        self.stretch = match m {
+            0 => (2, 3),
+            1 => (1, 3),
+            32 => (2, 1),
+            _ => (1, 1),
+        };
 
         //After this, we accept data until the capacity is met
         self.accept_data = true;
-- 
2.43.0


From bad56103a98665b1c84d3e65750cac0c0f3e2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 68/80] fix: the module size of Data Matrix is a command of its
 own symbol type

---
 .../src/subcommands/gs_code2d/datamatrix_set_width.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
index 5224068..39a3250 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
@@ -12,7 +12,7 @@ impl CommandHandler for Handler {
 pub fn new() -> Command {
     Command::new(
         "Datamatrix Sets the dot Width",
-        vec![52, 67],
+        vec![54, 67],
         CommandType::Context,
         DataType::Subcommand,
         Box::new(Handler),
-- 
2.43.0


From 433e18f2b7ea82ed806d4714ce831a91fcd8dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:20 +0000
Subject: [PATCH 69/80] fix: Codabar characters +, B and C are drawn with their
 own bars

---
 thermal_parser/src/commands/barcode.rs       |  4 +--
 thermal_parser/src/utils/barcodes/codabar.rs | 33 ++++++++++++++++++++
 thermal_parser/src/utils/barcodes/mod.rs     |  1 +
 3 files changed, 36 insertions(+), 2 deletions(-)
 create mode 100644 thermal_parser/src/utils/barcodes/codabar.rs

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 69bc6cb..a4e87fb 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -2,7 +2,6 @@ extern crate barcoders;
 
 use std::str::from_utf8;
 
-use barcoders::sym::codabar::Codabar;
 use barcoders::sym::code128::Code128;
 use barcoders::sym::code39::Code39;
 use barcoders::sym::ean13::EAN13;
@@ -11,6 +10,7 @@ use barcoders::sym::ean8::EAN8;
 use barcoders::sym::tf::TF;
 
 use crate::text::TextSpan;
+use crate::utils::barcodes::codabar::Codabar;
 use crate::utils::barcodes::code93::Code93;
 use crate::utils::barcodes::upce::UPCE;
 use crate::{command::*, constants::*, context::*, graphics::*};
@@ -239,7 +239,7 @@ impl CommandHandler for BarcodeHandler {
                     return self.decorate_error("Invalid start or stop".to_string(), command);
                 }
 
-                return match Codabar::new(data.to_string()) {
+                return match Codabar::new(data) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
diff --git a/thermal_parser/src/utils/barcodes/codabar.rs b/thermal_parser/src/utils/barcodes/codabar.rs
new file mode 100644
index 0000000..373e2dc
--- /dev/null
+++ b/thermal_parser/src/utils/barcodes/codabar.rs
@@ -0,0 +1,33 @@
+//! The barcoders crate draws the characters +, B and C with the wrong bars.
+
+const CHARACTERS: &str = "0123456789-$:/.+ABCD";
+
+/// Bars of the characters, from the first bar to the last bar
+const PATTERNS: [&str; 20] = [
+    "101010011", "101011001", "101001011", "110010101", "101101001", "110101001", "100101011",
+    "100101101", "100110101", "110100101", "101001101", "101100101", "1101011011", "1101101011",
+    "1101101101", "1011011011", "1011001001", "1001001011", "1010010011", "1010011001",
+];
+
+pub struct Codabar(Vec<usize>);
+
+impl Codabar {
+    /// Creates a new barcode from digits, the characters -$:/.+ and the guards A to D
+    pub fn new(data: &str) -> Result<Codabar, String> {
+        let mut values = vec![];
+
+        for c in data.chars() {
+            match CHARACTERS.find(c) {
+                Some(value) => values.push(value),
+                None => return Err(format!("Invalid Codabar character {:?}", c)),
+            }
+        }
+
+        Ok(Codabar(values))
+    }
+
+    pub fn encode(&self) -> Vec<u8> {
+        let patterns: Vec<&str> = self.0.iter().map(|v| PATTERNS[*v]).collect();
+        patterns.join("0").bytes().map(|b| b - b'0').collect()
+    }
+}
diff --git a/thermal_parser/src/utils/barcodes/mod.rs b/thermal_parser/src/utils/barcodes/mod.rs
index 8258d22..a3e859e 100644
--- a/thermal_parser/src/utils/barcodes/mod.rs
+++ b/thermal_parser/src/utils/barcodes/mod.rs
@@ -1,2 +1,3 @@
+pub mod codabar;
 pub mod code93;
 pub mod upce;
-- 
2.43.0


From 75d02a9094eb6fc4600346f62ebedfc693884f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 70/80] fix: DEL is a character of Code128 code set B

---
 thermal_parser/src/commands/barcode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index a4e87fb..19e2dc0 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -178,6 +178,9 @@ fn parse_code128(data: &str) -> Result<(String, String), String> {
         }
     }
 
+    //The barcoders format for DEL, which is only part of code set B
+    let adjusted = adjusted.replace('\u{7f}', "÷");
+
     Ok((adjusted, hri))
 }
 
-- 
2.43.0


From 0a3b08d11edb9bdbd5e33f2f9657d7b0fb2f3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 71/80] fix: Micro QR codes of version M3 can't be read or
 panic

---
 thermal_parser/src/subcommands/gs_code2d/qr_store.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 5637cf1..ce51cd2 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -58,6 +58,12 @@ impl CommandHandler for Handler {
         let mut result = Err(QrError::DataTooLong);
 
         for modules in min_modules..=max_modules {
+            //M3 symbols end with half a data codeword, which qr_code draws
+            //(level L) and fills up (level M) as if it were a whole one
+            if matches!(context.code2d.qr_model, QrModel::Micro) && modules == 3 {
+                continue;
+            }
+
             let version = match &context.code2d.qr_model {
                 QrModel::Model1 | QrModel::Model2 => Version::Normal(modules),
                 QrModel::Micro => Version::Micro(modules),
-- 
2.43.0


From 7fc99ad9a6ae5ac6fd5b04bffad287a0f9a4eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 72/80] fix: initialize after a form feed starts at the top of
 the new output

---
 thermal_renderer/src/renderer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 46d8f58..9c59b21 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -317,6 +317,7 @@ impl<'a, Output> Renderer<'a, Output> {
                         let output = self.renderer.end_render(&mut self.context);
                         self.output_buffer.push(output);
                         self.output_begun = false;
+                        self.output_bottom = 0;
 
                         //Anything that follows is printed on a new output
                         self.context.graphics.render_area.x = 0;
-- 
2.43.0


From ea41016f0b9da4f69705a4d8d88ca64381cba8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 73/80] fix: a form feed moves to the start of the line also
 when nothing was printed

---
 thermal_renderer/src/renderer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 9c59b21..45cec93 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -279,6 +279,7 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.process_text();
                         //Nothing was printed since the last output
                         if !self.output_begun {
+                            self.context.graphics.render_area.x = 0;
                             continue;
                         }
                     }
-- 
2.43.0


From 57a7619316ff436d7e97159d4d79677fc74b2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 74/80] fix: text of unequal width and height scales is only
 scaled in one direction in HTML

---
 .../resources/templates/thermal.html          | 37 ++++++++-----------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index d618b34..c07ecce 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -67,35 +67,28 @@
         /* Conflicts with scaling, need to figure out a solution */
         .upd { transform: scale(1, -1); }
 
-        .str { transform-origin: top left; }
+        .str { transform-origin: top left; transform: scale(var(--w, 1), var(--h, 1)); }
 
-        .w2{ transform: scaleX(2); }
-        .h2{ transform: scaleY(2); }
-        .w2.h2{ transform: scale(2); }
+        .w2{ --w: 2; }
+        .h2{ --h: 2; }
 
-        .w3{ transform: scaleX(3); }
-        .h3{ transform: scaleY(3); }
-        .w3.h3{ transform: scale(3); }
+        .w3{ --w: 3; }
+        .h3{ --h: 3; }
 
-        .w4{ transform: scaleX(4); }
-        .h4{ transform: scaleY(4); }
-        .w4.h4{ transform: scale(4); }
+        .w4{ --w: 4; }
+        .h4{ --h: 4; }
 
-        .w5{ transform: scaleX(5); }
-        .h5{ transform: scaleY(5); }
-        .w5.h5{ transform: scale(5); }
+        .w5{ --w: 5; }
+        .h5{ --h: 5; }
 
-        .w6{ transform: scaleX(6); }
-        .h6{ transform: scaleY(6); }
-        .w6.h6{ transform: scale(6); }
+        .w6{ --w: 6; }
+        .h6{ --h: 6; }
 
-        .w7{ transform: scaleX(7); }
-        .h7{ transform: scaleY(7); }
-        .w7.h7{ transform: scale(7); }
+        .w7{ --w: 7; }
+        .h7{ --h: 7; }
 
-        .w8{ transform: scaleX(8); }
-        .h8{ transform: scaleY(8); }
-        .w8.h8{ transform: scale(8); }
+        .w8{ --w: 8; }
+        .h8{ --h: 8; }
 
         img { display: block; }
     </style>
-- 
2.43.0


From 7931ee578c748ccf50af30892f47b227a43fde39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 75/80] fix: scaled text that is upside down is shown upright
 in HTML

---
 thermal_renderer/resources/templates/thermal.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index c07ecce..f8834a8 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -64,10 +64,10 @@
         .s{ text-decoration: line-through; }
         .s, .sd{ text-decoration: line-through; }
 
-        /* Conflicts with scaling, need to figure out a solution */
         .upd { transform: scale(1, -1); }
 
         .str { transform-origin: top left; transform: scale(var(--w, 1), var(--h, 1)); }
+        .str.upd { transform: scale(var(--w, 1), var(--h, 1)) translateY(100%) scaleY(-1); }
 
         .w2{ --w: 2; }
         .h2{ --h: 2; }
-- 
2.43.0


From deaf8148a0a18651a3a942388fce3f4ed5876ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 76/80] fix: underlined text with a strike-through loses its
 underline in HTML

---
 thermal_renderer/resources/templates/thermal.html | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index f8834a8..f817677 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -63,6 +63,7 @@
         .u{ text-decoration: underline; }
         .s{ text-decoration: line-through; }
         .s, .sd{ text-decoration: line-through; }
+        .u.s{ text-decoration: underline line-through; }
 
         .upd { transform: scale(1, -1); }
 
-- 
2.43.0


From 1b01dba529ac44a2dd2a1b13987d565cc174069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 77/80] fix: control characters in the text of a Code128
 barcode break or move it

---
 thermal_parser/src/commands/barcode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 19e2dc0..00412c5 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -181,6 +181,9 @@ fn parse_code128(data: &str) -> Result<(String, String), String> {
     //The barcoders format for DEL, which is only part of code set B
     let adjusted = adjusted.replace('\u{7f}', "÷");
 
+    //Control characters are shown as spaces, they don't move or break the text
+    let hri = hri.replace(|c: char| c.is_ascii_control(), " ");
+
     Ok((adjusted, hri))
 }
 
-- 
2.43.0


From a7a8dadf4745be21644b87adaa2821c39e92c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 78/80] fix: relative moves stop at the largest position like
 all other moves

---
 thermal_parser/src/context.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index e3d9df3..b3b271d 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -343,7 +343,7 @@ impl PageModeContext {
         if new_x < 0 {
             new_x = 0;
         }
-        self.render_area.x = new_x as u32;
+        self.render_area.x = (new_x as u32).min(MAX_POSITION);
     }
 
     pub fn offset_y_relative(&mut self, y: i16) {
@@ -351,7 +351,7 @@ impl PageModeContext {
         if new_y < 0 {
             new_y = 0;
         }
-        self.render_area.y = new_y as u32;
+        self.render_area.y = (new_y as u32).min(MAX_POSITION);
     }
 
     //Height of the page in its standard direction
@@ -713,7 +713,7 @@ impl Context {
             if new_x < 0 {
                 new_x = 0;
             }
-            self.graphics.render_area.x = new_x as u32;
+            self.graphics.render_area.x = (new_x as u32).min(MAX_POSITION);
         }
     }
 
@@ -728,7 +728,7 @@ impl Context {
             if new_y < 0 {
                 new_y = 0;
             }
-            self.graphics.render_area.y = new_y as u32;
+            self.graphics.render_area.y = (new_y as u32).min(MAX_POSITION);
         }
     }
 
-- 
2.43.0


From 38e46426952829e52330c7ef3427e95a51e3f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 79/80] fix: printed pages stop at the largest position like
 all other moves

---
 thermal_parser/src/context.rs    | 2 +-
 thermal_renderer/src/renderer.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index b3b271d..1520152 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -250,7 +250,7 @@ pub enum Rotation {
 }
 
 //Positions stay far away from overflowing no matter how much is fed
-const MAX_POSITION: u32 = i32::MAX as u32 / 2;
+pub const MAX_POSITION: u32 = i32::MAX as u32 / 2;
 
 impl PageModeContext {
     pub fn apply_logical_area(&mut self) -> (Rotation, u32, u32) {
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 45cec93..a2cb3e5 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -17,7 +17,9 @@
 use crate::renderer::RenderErrorKind::ChildRenderError;
 use std::{fmt, mem};
 use thermal_parser::command::{Command, CommandType, DeviceCommand};
-use thermal_parser::context::{Context, HumanReadableInterface, Rotation, TextJustify};
+use thermal_parser::context::{
+    Context, HumanReadableInterface, Rotation, TextJustify, MAX_POSITION,
+};
 use thermal_parser::graphics::{
     Barcode, Code2D, GraphicsCommand, Image, ImageFlow, Rectangle, VectorGraphic,
 };
@@ -365,8 +367,9 @@ impl<'a, Output> Renderer<'a, Output> {
 
                         //Advance the y since a page is being rendered
                         let page_height = self.context.page_mode.page_height();
-                        self.context.graphics.render_area.y += page_height;
-                        self.context.graphics.render_area.x = 0;
+                        let area = &mut self.context.graphics.render_area;
+                        area.y = area.y.saturating_add(page_height).min(MAX_POSITION);
+                        area.x = 0;
                         self.output_bottom =
                             self.output_bottom.max(self.context.graphics.render_area.y);
                     }
-- 
2.43.0


From ef4a46d41d878abe76c6f18a8e1fb31ecbf54dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:35 +0000
Subject: [PATCH 80/80] fix: motion units of 0 select the default unit

---
 thermal_parser/src/commands/set_motion_units.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 1c0cacd..16b900c 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -15,15 +15,11 @@ impl CommandHandler for Handler {
         let x = *command.data.get(0).unwrap_or(&0u8);
         let y = *command.data.get(1).unwrap_or(&0u8);
 
-        if x == 0 || y == 0 {
-            return;
-        }
+        let dots_per_inch = context.graphics.dots_per_inch;
 
         //Motion units are never smaller than a dot and have to fit into a byte
-        let h_motion_unit = (context.graphics.dots_per_inch / x as u16).clamp(1, 255);
-        let v_motion_unit = (context.graphics.dots_per_inch / y as u16).clamp(1, 255);
-
         if x > 0 {
+            let h_motion_unit = (dots_per_inch / x as u16).clamp(1, 255);
             context.graphics.h_motion_unit = h_motion_unit as u8;
         } else {
             if let Some(default_context) = &context.default {
@@ -32,6 +28,7 @@ impl CommandHandler for Handler {
         }
 
         if y > 0 {
+            let v_motion_unit = (dots_per_inch / y as u16).clamp(1, 255);
             context.graphics.v_motion_unit = v_motion_unit as u8;
         } else {
             if let Some(default_context) = &context.default {
-- 
2.43.0

