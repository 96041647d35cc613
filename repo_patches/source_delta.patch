From b96afde8bbcd752a0e8139d001bd08b8376652af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 01/24] fix: save atomically and check the output extension
 before touching an existing file

save_to deleted the existing file before writing the new one, so an unsupported
extension, a full disk, a closed terminal or a crash in between lost it, and a
failed write left a partial file. Write to a temporary file, sync it and rename
it over the path; refuse when the existence of the path can't be determined.
---
 src/calculator/program.rs | 69 +++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 755ce1e..3916880 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -4,7 +4,8 @@ use crate::calculator::file::from_8xp::create_from_8xp;
 use crate::calculator::file::from_txt::create_from_txt;
 use crate::calculator::{DisplayMode, EncodeMode};
 use serde::{Deserialize, Serialize};
-use std::io::Write;
+use std::fs::OpenOptions;
+use std::io::{ErrorKind, Write};
 use std::path::{Path, PathBuf};
 
 #[derive(Serialize, Deserialize)]
@@ -132,7 +133,18 @@ impl Program {
     }
 
     pub fn save_to(&self, path: &PathBuf) -> Result<(), TiToolsError> {
-        if path.exists() {
+        // checked first, so that nothing is touched when the program can't be saved to this path
+        let file_type = match get_file_type(path) {
+            Ok(file_type) => file_type,
+            Err(err) => return Err(err),
+        };
+
+        let path_exists = match path.try_exists() {
+            Ok(path_exists) => path_exists,
+            Err(err) => return Err(TiToolsError::FileWrite(err.to_string())),
+        };
+
+        if path_exists {
             println!("A file already exists at the output path, would you like to delete its content and proceed? [y/N]");
             let mut input = String::new();
             print!("> ");
@@ -141,16 +153,7 @@ impl Program {
             std::io::stdin().read_line(&mut input).unwrap();
             let input = input.trim();
             if input == "y" || input == "Y" {
-                println!("Deleting existing file");
-
-                match std::fs::remove_file(path) {
-                    Ok(_) => {
-                        println!("Deleted existing file");
-                    }
-                    Err(err) => {
-                        return Err(TiToolsError::FailedToDeleteFile(err.to_string()));
-                    }
-                }
+                println!("Replacing existing file");
             } else {
                 return Err(TiToolsError::Quit(
                     "User chose not to overwrite file".to_string(),
@@ -158,11 +161,6 @@ impl Program {
             }
         }
 
-        let file_type = match get_file_type(path) {
-            Ok(file_type) => file_type,
-            Err(err) => return Err(err),
-        };
-
         match file_type {
             ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
                 let mut output_bytes = Vec::new();
@@ -540,7 +538,7 @@ impl Destination {
 }
 
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
-    match std::fs::write(path, content) {
+    match replace_file(path, content.as_ref()) {
         Ok(_) => Ok(()),
         Err(err) => {
             return Err(TiToolsError::FailedToWriteFile(
@@ -550,3 +548,38 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         }
     }
 }
+
+/// Writes the content to a temporary file in the same directory and moves it to the path once it is
+/// complete, so the path never holds a partial file and what was there before survives a failure.
+fn replace_file(path: &Path, content: &[u8]) -> std::io::Result<()> {
+    let mut attempt = 0;
+    let (temp_path, mut temp_file) = loop {
+        let temp_path = path.with_file_name(format!(
+            ".ti-tools-{}-{}.tmp",
+            std::process::id(),
+            attempt
+        ));
+
+        match OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp_path)
+        {
+            Ok(temp_file) => break (temp_path, temp_file),
+            Err(err) if err.kind() == ErrorKind::AlreadyExists && attempt < 1000 => attempt += 1,
+            Err(err) => return Err(err),
+        }
+    };
+
+    let result = temp_file
+        .write_all(content)
+        .and_then(|_| temp_file.sync_all());
+    drop(temp_file);
+    let result = result.and_then(|_| std::fs::rename(&temp_path, path));
+
+    if result.is_err() {
+        let _ = std::fs::remove_file(&temp_path);
+    }
+
+    result
+}
-- 
2.43.0


From f71420a1b2dc8271538a545cdc73da63b57a34e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 02/24] fix: do not delete the saved program when --delete-old
 names the same file another way

---
 src/commands/edit/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index f6e17ca..3622fe3 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -43,6 +43,20 @@ fn save_edits(
         }
 
         if delete_old {
+            // the new path may be another spelling of the old one, or a link may lead from one to
+            // the other, deleting would then lose the program that was just saved
+            let same_file = match is_same_file(input_path, &new_file_path) {
+                Ok(same_file) => same_file,
+                Err(err) => TiToolsError::FailedToDeleteFile(err.to_string())
+                    .print()
+                    .exit(),
+            };
+
+            if same_file {
+                println!("The old file was replaced by the new file.");
+                return;
+            }
+
             let result = std::fs::remove_file(input_path);
 
             match result {
@@ -56,3 +70,7 @@ fn save_edits(
         }
     }
 }
+
+fn is_same_file(input_path: &Path, new_file_path: &Path) -> std::io::Result<bool> {
+    Ok(std::fs::canonicalize(input_path)? == std::fs::canonicalize(new_file_path)?)
+}
-- 
2.43.0


From c6f2daf1196a1e3a4bbdfdebe5355efc2742efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 03/24] fix: recalculate the checksum when a program is edited

---
 src/calculator/program.rs | 12 ++++++++++++
 src/commands/edit/mod.rs  |  4 +++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 3916880..d9fa6e6 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -200,6 +200,18 @@ impl Program {
         Ok(())
     }
 
+    /// The checksum covers the metadata and the body, it has to be updated after editing them
+    pub fn update_checksum(&mut self) {
+        let sum = self
+            .metadata
+            .bytes
+            .iter()
+            .chain(self.body.bytes.iter())
+            .fold(0u16, |sum, byte| sum.wrapping_add(*byte as u16));
+
+        self.checksum = Checksum::new(sum.to_le_bytes().to_vec(), sum);
+    }
+
     pub fn to_string(&self) -> String {
         format!(
             "{}\n{}\nTotal Size: {} bytes\nBody Size: {} bytes\n----- Status -----\nmodel: {}\nlanguage: {}\nDestination: {}\nFile Type: {}\n----- Program -----\n{}",
diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index 3622fe3..3eb1a06 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -20,11 +20,13 @@ fn load_program(input_path: &Path) -> Program {
 }
 
 fn save_edits(
-    program: Program,
+    mut program: Program,
     input_path: &PathBuf,
     new_file_path: Option<String>,
     delete_old: bool,
 ) {
+    program.update_checksum();
+
     if new_file_path.is_none() {
         let result = program.save_to(&input_path.to_path_buf());
 
-- 
2.43.0


From 9d1f82625996d1e1aec23ce993b551c7656d5cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 04/24] fix: refuse damaged files and unreadable directories
 instead of panicking

---
 src/calculator/file/from_8xp.rs | 12 ++++++++++++
 src/calculator/program.rs       | 11 ++++++++++-
 src/commands/convert.rs         | 14 +++++++++++---
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 766852d..9dc8b15 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -18,6 +18,18 @@ pub fn create_from_8xp(
         Err(err) => return Err(TiToolsError::FileRead(err)),
     };
 
+    let metadata_length = match file_type {
+        ProgramFileType::XPThree | ProgramFileType::XPTwo => 17,
+        _ => 19,
+    };
+
+    // header, metadata and checksum
+    if bytes.len() < 55 + metadata_length + 2 {
+        return Err(TiToolsError::FileRead(
+            "The file is too short to be a program".to_string(),
+        ));
+    }
+
     let (header_bytes, bytes) = bytes.split_at(55);
     let (metadata_bytes, bytes) = match file_type {
         ProgramFileType::XP => bytes.split_at(19),
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index d9fa6e6..24bd5ac 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -129,6 +129,15 @@ impl Program {
             Err(err) => return Err(TiToolsError::FailedToDeserializeJson(err.to_string())),
         };
 
+        if program.header.bytes.len() != 55
+            || !matches!(program.metadata.bytes.len(), 17 | 19)
+            || program.checksum.bytes.len() != 2
+        {
+            return Err(TiToolsError::FailedToDeserializeJson(
+                "A section of the program has the wrong length".to_string(),
+            ));
+        }
+
         Ok(program)
     }
 
@@ -444,7 +453,7 @@ pub fn get_file_type(path: &Path) -> Result<ProgramFileType, TiToolsError> {
             Some("txt") => Ok(ProgramFileType::TXT),
             Some("json") => Ok(ProgramFileType::JSON),
             _ => Err(TiToolsError::InvalidExtension(
-                ext.to_str().unwrap().to_string(),
+                ext.to_string_lossy().to_string(),
             )),
         },
         None => Err(TiToolsError::MissingExtension),
diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index d639c59..160a967 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -115,11 +115,19 @@ pub fn convert_command(
         }
 
         println!("Creating output directory");
-        fs::create_dir(Path::new(&output_path_string.as_ref().unwrap()))
-            .expect("Failed to create directory")
+        if let Err(err) = fs::create_dir(Path::new(&output_path_string.as_ref().unwrap())) {
+            TiToolsError::FileWrite(err.to_string()).print().exit()
+        }
     }
 
-    for entry in fs::read_dir(input_path).expect("Failed to read directory") {
+    let entries = match fs::read_dir(input_path) {
+        Ok(entries) => entries,
+        Err(err) => TiToolsError::FailedToReadDirectory(err.to_string())
+            .print()
+            .exit(),
+    };
+
+    for entry in entries {
         let entry = match entry {
             Ok(entry) => entry,
             Err(_) => {
-- 
2.43.0


From 631052069debc43b3f6127535239eaf12c799128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 05/24] fix: keep the 83p and 82p layout instead of writing an
 invalid 8xp layout

---
 src/calculator/file/from_8xp.rs | 30 ++++-------
 src/calculator/models.rs        |  1 +
 src/calculator/program.rs       | 95 ++++++++++++++++++++++++++-------
 3 files changed, 89 insertions(+), 37 deletions(-)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 9dc8b15..3ac1514 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -114,35 +114,27 @@ pub fn create_from_8xp(
             )
         }
         ProgramFileType::XPThree | ProgramFileType::XPTwo => {
-            let mut new_metadata_bytes = Vec::new();
-
-            new_metadata_bytes.push(0x0D);
-            new_metadata_bytes.push(0x00);
-            let body_and_checksum_length = (body_bytes.len() + 2) as u16;
-            new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            new_metadata_bytes.push(0x05);
+            // the older formats have no version and destination
+            let body_and_checksum_length = [metadata_bytes[2], metadata_bytes[3]];
             let name = metadata_bytes[5..13]
                 .iter()
                 .filter(|byte| **byte != 0x00)
                 .map(|byte| *byte as char)
                 .collect::<String>();
-            new_metadata_bytes.extend(name.as_bytes());
-            new_metadata_bytes.push(0x00);
-            new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            let body_length = (body_bytes.len() + 2) as u16;
-            new_metadata_bytes.extend(body_length.to_le_bytes());
+            let body_and_checksum_length_duplicate = [metadata_bytes[13], metadata_bytes[14]];
+            let body_length = [metadata_bytes[15], metadata_bytes[16]];
 
             Metadata::new(
-                new_metadata_bytes,
-                0x0D,
-                0x00,
-                body_and_checksum_length,
-                FileType::Program,
+                metadata_bytes.to_vec(),
+                metadata_bytes[0],
+                metadata_bytes[1],
+                u16::from_le_bytes(body_and_checksum_length),
+                FileType::from_byte(metadata_bytes[4])?,
                 name,
                 0x00,
                 Destination::RAM,
-                body_and_checksum_length,
-                body_length,
+                u16::from_le_bytes(body_and_checksum_length_duplicate),
+                u16::from_le_bytes(body_length),
             )
         }
         ProgramFileType::TXT => {
diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 49a21d4..0ab0765 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -24,6 +24,7 @@ impl ModelDetails {
         match byte {
             0x00 => match signature {
                 "**TI83F*" => Ok(ModelDetails::new(Model::Latest, "**TI83F*", 0x00, "en")),
+                "**TI83**" => Ok(ModelDetails::new(Model::TI83, "**TI83**", 0x00, "en")),
                 _ => Ok(ModelDetails::new(Model::TI82, "**TI82**", 0x00, "en")),
             },
             0x04 => Ok(ModelDetails::new(Model::TI83Plus, "**TI83F*", 0x04, "en")),
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 24bd5ac..9ebcba4 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -171,15 +171,11 @@ impl Program {
         }
 
         match file_type {
-            ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
-                let mut output_bytes = Vec::new();
-
-                output_bytes.extend(self.header.bytes.to_vec());
-                output_bytes.extend(self.metadata.bytes.to_vec());
-                output_bytes.extend(self.body.bytes.to_vec());
-                output_bytes.extend(self.checksum.bytes.to_vec());
-
-                write_to_file(path, output_bytes)?
+            ProgramFileType::XP => {
+                write_to_file(path, self.to_bytes(self.metadata.to_long_bytes())?)?
+            }
+            ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+                write_to_file(path, self.to_bytes(self.metadata.to_short_bytes())?)?
             }
             ProgramFileType::TXT => {
                 let output_string = format!(
@@ -209,14 +205,40 @@ impl Program {
         Ok(())
     }
 
+    /// The bytes of the program with the metadata layout of the file it is saved to
+    fn to_bytes(&self, metadata_bytes: Vec<u8>) -> Result<Vec<u8>, TiToolsError> {
+        let mut header_bytes = self.header.bytes.to_vec();
+        let mut checksum_bytes = self.checksum.bytes.to_vec();
+
+        // the length and checksum include the metadata
+        if metadata_bytes.len() != self.metadata.bytes.len() {
+            let length = match u16::try_from(metadata_bytes.len() + self.body.bytes.len()) {
+                Ok(length) => length,
+                Err(_) => {
+                    return Err(TiToolsError::FileWrite(
+                        "The program is too large".to_string(),
+                    ))
+                }
+            };
+
+            header_bytes.splice(53..55, length.to_le_bytes());
+            checksum_bytes = calculate_checksum(&metadata_bytes, &self.body.bytes)
+                .to_le_bytes()
+                .to_vec();
+        }
+
+        Ok([
+            header_bytes,
+            metadata_bytes,
+            self.body.bytes.to_vec(),
+            checksum_bytes,
+        ]
+        .concat())
+    }
+
     /// The checksum covers the metadata and the body, it has to be updated after editing them
     pub fn update_checksum(&mut self) {
-        let sum = self
-            .metadata
-            .bytes
-            .iter()
-            .chain(self.body.bytes.iter())
-            .fold(0u16, |sum, byte| sum.wrapping_add(*byte as u16));
+        let sum = calculate_checksum(&self.metadata.bytes, &self.body.bytes);
 
         self.checksum = Checksum::new(sum.to_le_bytes().to_vec(), sum);
     }
@@ -359,16 +381,46 @@ impl Metadata {
         self.file_type = FileType::Program;
     }
 
-    // byte 15 is the archived byte
+    // byte 15 is the archived byte, 83p and 82p files don't have it
     pub fn archive(&mut self) {
-        self.bytes[14] = Destination::Archive.to_byte();
+        if self.bytes.len() == 19 {
+            self.bytes[14] = Destination::Archive.to_byte();
+        }
         self.destination = Destination::Archive;
     }
 
     pub fn unarchive(&mut self) {
-        self.bytes[14] = Destination::RAM.to_byte();
+        if self.bytes.len() == 19 {
+            self.bytes[14] = Destination::RAM.to_byte();
+        }
         self.destination = Destination::RAM;
     }
+
+    /// The 19 bytes used by 8xp files
+    fn to_long_bytes(&self) -> Vec<u8> {
+        if self.bytes.len() == 19 {
+            return self.bytes.to_vec();
+        }
+
+        let mut bytes = vec![0x0D, 0x00];
+        bytes.extend(&self.bytes[2..13]);
+        bytes.push(self.version);
+        bytes.push(self.destination.to_byte());
+        bytes.extend(&self.bytes[13..17]);
+        bytes
+    }
+
+    /// The 17 bytes used by 83p and 82p files, which have no version and destination
+    fn to_short_bytes(&self) -> Vec<u8> {
+        if self.bytes.len() == 17 {
+            return self.bytes.to_vec();
+        }
+
+        let mut bytes = vec![0x0B, 0x00];
+        bytes.extend(&self.bytes[2..13]);
+        bytes.extend(&self.bytes[15..19]);
+        bytes
+    }
 }
 
 #[derive(Serialize, Deserialize)]
@@ -558,6 +610,13 @@ impl Destination {
     }
 }
 
+fn calculate_checksum(metadata_bytes: &[u8], body_bytes: &[u8]) -> u16 {
+    metadata_bytes
+        .iter()
+        .chain(body_bytes.iter())
+        .fold(0u16, |sum, byte| sum.wrapping_add(*byte as u16))
+}
+
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
     match replace_file(path, content.as_ref()) {
         Ok(_) => Ok(()),
-- 
2.43.0


From 2fda30f3a209f2831d1810f6082dc025dd0087d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 06/24] fix: print brackets and non-ASCII text in messages
 instead of panicking

---
 src/styles.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/styles.rs b/src/styles.rs
index 440ed4b..56fd98c 100644
--- a/src/styles.rs
+++ b/src/styles.rs
@@ -148,12 +148,17 @@ macro_rules! prints {
         let len = styled_string.len();
 
         while i < len {
-            if &styled_string[i..i + 1] == "[" {
-                let end = styled_string[i..].find("]").unwrap() + i;
-                let directive = &styled_string[i + 1..end];
-                let parts: Vec<&str> = directive.split(':').collect();
+            // only the directives are styles, any other bracket is part of the text
+            let rest = &styled_string[i..];
+            let is_directive = ["[color:", "[bg:", "[style:"]
+                .iter()
+                .any(|directive| rest.starts_with(directive));
+
+            match rest.find("]") {
+                Some(end) if is_directive => {
+                    let directive = &rest[1..end];
+                    let parts: Vec<&str> = directive.splitn(2, ':').collect();
 
-                if parts.len() == 2 {
                     match parts[0] {
                         "color" => {
                             let color = Color::from_string(parts[1].to_string());
@@ -163,18 +168,20 @@ macro_rules! prints {
                             let bg_color = Color::from_string(parts[1].to_string());
                             result.push_str(&bg_color.to_ansi_background_color_string());
                         }
-                        "style" => {
+                        _ => {
                             let style = TextStyle::from_string(parts[1].to_string());
                             result.push_str(&style.to_ansi_style_string());
                         }
-                        _ => {}
                     }
+
+                    i += end + 1;
+                }
+                _ => {
+                    let first = rest.chars().next().map_or(1, char::len_utf8);
+                    let end = rest[first..].find("[").map_or(rest.len(), |end| end + first);
+                    result.push_str(&rest[..end]);
+                    i += end;
                 }
-                i = end + 1;
-            } else {
-                let end = styled_string[i..].find("[").unwrap_or(len - i) + i;
-                result.push_str(&styled_string[i..end]);
-                i = end;
             }
         }
 
-- 
2.43.0


From 7f720abd7418f044c52834a87cfc99bd5f72a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 07/24] fix: choose between tokens with the same translation
 independently of the hash order

---
 src/calculator/tokens/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index c4b557a..1b04ed8 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -125,7 +125,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() > longest_length {
+            if value.starts_with(translation)
+                && (translation.len() > longest_length
+                    || (translation.len() == longest_length
+                        && is_preferred_key(token, longest_key)))
+            {
                 longest_key = token;
                 longest_value = translation.to_string();
                 longest_length = translation.len();
@@ -155,7 +159,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() < shortest_length {
+            if value.starts_with(translation)
+                && (translation.len() < shortest_length
+                    || (translation.len() == shortest_length
+                        && is_preferred_key(token, shortest_key)))
+            {
                 shortest_key = token;
                 shortest_value = translation.to_string();
                 shortest_length = translation.len();
@@ -170,6 +178,12 @@ impl Map {
     }
 }
 
+/// Some tokens have the same translation, the choice can't be left to the order of the map. The one
+/// with fewer bytes is preferred, then the one with the lower bytes.
+fn is_preferred_key(key: &str, other: &str) -> bool {
+    (key.len(), key) < (other.len(), other)
+}
+
 #[derive(Debug, Deserialize)]
 pub struct TokenDefinition {
     pub syntax: String,
-- 
2.43.0


From dca969408a96e3605998f70bd1b79f9b9381f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 08/24] fix: keep mass conversion outputs inside the output
 directory and named after the program

---
 src/commands/convert.rs | 44 +++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 160a967..1197440 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -181,17 +181,11 @@ pub fn convert_command(
                 | ProgramFileType::XPThree
                 | ProgramFileType::XPTwo
                 | ProgramFileType::TXT => {
-                    let output_path = if file_type.is_8xp() {
-                        Path::new(&output_path_string.as_ref().unwrap())
-                            .join(&name)
-                            .with_extension("txt")
-                    } else {
-                        Path::new(&output_path_string.as_ref().unwrap())
-                            .join(&name)
-                            .with_extension("8xp")
-                    };
+                    let output_directory = Path::new(output_path_string.as_ref().unwrap());
+                    let extension = if file_type.is_8xp() { "txt" } else { "8xp" };
+                    let output_path = output_directory.join(format!("{}.{}", name, extension));
 
-                    match program.save_to(&output_path) {
+                    match save_inside(&program, output_directory, &output_path) {
                         Ok(_) => {
                             if display_mode_string == DisplayMode::Pretty.to_string() {
                                 prints!(
@@ -229,15 +223,11 @@ pub fn convert_command(
                     }
                 }
                 ProgramFileType::JSON => {
-                    let txt_output_path = Path::new(&output_path_string.as_ref().unwrap())
-                        .join(&name)
-                        .with_extension("txt");
-
-                    let xp_output_path = Path::new(&output_path_string.as_ref().unwrap())
-                        .join(&name)
-                        .with_extension("8xp");
+                    let output_directory = Path::new(output_path_string.as_ref().unwrap());
+                    let txt_output_path = output_directory.join(format!("{}.txt", name));
+                    let xp_output_path = output_directory.join(format!("{}.8xp", name));
 
-                    match program.save_to(&txt_output_path) {
+                    match save_inside(&program, output_directory, &txt_output_path) {
                         Ok(_) => {
                             if display_mode_string == DisplayMode::Pretty.to_string() {
                                 prints!(
@@ -272,7 +262,7 @@ pub fn convert_command(
                         }
                     }
 
-                    match program.save_to(&xp_output_path) {
+                    match save_inside(&program, output_directory, &xp_output_path) {
                         Ok(_) => {
                             if display_mode_string == DisplayMode::Pretty.to_string() {
                                 prints!(
@@ -312,6 +302,22 @@ pub fn convert_command(
     }
 }
 
+/// Program names come from the input files, they must not lead out of the output directory
+fn save_inside(
+    program: &Program,
+    output_directory: &Path,
+    output_path: &Path,
+) -> Result<(), TiToolsError> {
+    if output_path.parent() != Some(output_directory) {
+        return Err(TiToolsError::FailedToWriteFile(
+            output_path.to_string_lossy().to_string(),
+            "The program name can't be used as a file name".to_string(),
+        ));
+    }
+
+    program.save_to(&output_path.to_path_buf())
+}
+
 fn convert_program(
     program_file_type: &ProgramFileType,
     input_path: &Path,
-- 
2.43.0


From 5c846e7874437fe168160a124080431f1ed0fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 09/24] fix: mass convert the files in a fixed order, without
 converting the outputs again

---
 src/commands/convert.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 1197440..cd755ae 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -127,17 +127,24 @@ pub fn convert_command(
             .exit(),
     };
 
+    // collected before converting, as the outputs may be saved to the input directory, and sorted, as
+    // the order of the entries is arbitrary
+    let mut paths = Vec::new();
+
     for entry in entries {
-        let entry = match entry {
-            Ok(entry) => entry,
+        match entry {
+            Ok(entry) => paths.push(entry.path()),
             Err(_) => {
                 prints!("[color:bright-red]Error:[color:reset] Failed to read an entry in the input directory.");
                 println!("Skipping entry...");
                 continue;
             }
         };
+    }
+
+    paths.sort();
 
-        let path = entry.path();
+    for path in paths {
         let file_type = match get_file_type(&path) {
             Ok(file_type) => file_type,
             Err(_) => continue,
-- 
2.43.0


From 35cfacda34d02e1dba85f10cc22ffaf741437939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 10/24] fix: name the saved file when mass converting json
 files

---
 src/commands/convert.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index cd755ae..c4340a4 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -243,9 +243,10 @@ pub fn convert_command(
                             }
 
                             prints!(
-                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}.txt",
+                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}/{}.txt",
                                 program.metadata.name,
-                                output_path_string.as_ref().unwrap()
+                                output_path_string.as_ref().unwrap(),
+                                program.metadata.name
                             );
                         }
                         Err(err) => {
@@ -278,9 +279,10 @@ pub fn convert_command(
                             }
 
                             prints!(
-                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}.8xp",
+                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}/{}.8xp",
                                 program.metadata.name,
-                                output_path_string.as_ref().unwrap()
+                                output_path_string.as_ref().unwrap(),
+                                program.metadata.name
                             );
                         }
                         Err(err) => {
-- 
2.43.0


From 2812e31bfa95c0347fbb8d48aef2689452f4d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 11/24] fix: keep the display mode of text files

---
 src/calculator/file/from_txt.rs | 19 ++++++++++++++++---
 src/calculator/program.rs       | 15 ++++++++-------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 7987ee1..9dbe911 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -9,7 +9,7 @@ use std::path::PathBuf;
 pub fn create_from_txt(
     path: PathBuf,
     encode_mode: &EncodeMode,
-) -> Result<(Header, Metadata, Body, Checksum, ModelDetails), TiToolsError> {
+) -> Result<(Header, Metadata, Body, Checksum, DisplayMode, ModelDetails), TiToolsError> {
     let file_string = match std::fs::read_to_string(&path) {
         Ok(file_string) => file_string,
         Err(err) => return Err(TiToolsError::FileRead(err.to_string())),
@@ -63,7 +63,13 @@ pub fn create_from_txt(
         .collect::<Vec<&str>>()
         .join("\n");
 
-    let body_bytes = encode(&body_string, &tokens, true, display_mode, encode_mode)?;
+    let body_bytes = encode(
+        &body_string,
+        &tokens,
+        true,
+        display_mode.clone(),
+        encode_mode,
+    )?;
 
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
@@ -126,7 +132,14 @@ pub fn create_from_txt(
 
     let body = Body::new(body_bytes, body_string);
 
-    Ok((header, metadata, body, checksum, model_details))
+    Ok((
+        header,
+        metadata,
+        body,
+        checksum,
+        display_mode,
+        model_details,
+    ))
 }
 
 fn create_comment() -> String {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 9ebcba4..482d76d 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -81,19 +81,20 @@ impl Program {
             Err(err) => return Err(err),
         };
 
-        let (header, metadata, body, checksum, model) = match create_from_txt(path, encode_mode) {
-            Ok((header, metadata, body, checksum, model)) => {
-                (header, metadata, body, checksum, model)
-            }
-            Err(err) => return Err(err),
-        };
+        let (header, metadata, body, checksum, display_mode, model) =
+            match create_from_txt(path, encode_mode) {
+                Ok((header, metadata, body, checksum, display_mode, model)) => {
+                    (header, metadata, body, checksum, display_mode, model)
+                }
+                Err(err) => return Err(err),
+            };
 
         let program = Program {
             header,
             metadata,
             body,
             checksum,
-            display_mode: DisplayMode::Accessible,
+            display_mode,
             model,
         };
 
-- 
2.43.0


From 6aea2a3bfa909b028d34a1ecd66fdf4d2a174962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 12/24] fix: refuse programs too large for the length fields

---
 src/calculator/file/from_txt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 9dbe911..94d29eb 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -71,6 +71,13 @@ pub fn create_from_txt(
         encode_mode,
     )?;
 
+    // the lengths are 2 bytes, the largest one includes the metadata
+    if body_bytes.len() + 19 > u16::MAX as usize {
+        return Err(TiToolsError::FileRead(
+            "The program is too large".to_string(),
+        ));
+    }
+
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
     header_bytes.extend(signature.as_bytes());
-- 
2.43.0


From 7e6e880ac764f1c18a8c08f04b6526d1d62634d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 13/24] fix: keep line breaks at the end of a program

---
 src/calculator/file/encode.rs | 3 ++-
 src/calculator/program.rs     | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 02f7c17..1a4072c 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -55,7 +55,8 @@ pub fn encode(
     };
 
     let mut state = EncodeState::new(encode_mode);
-    for line in decoded_program.lines() {
+    // split rather than lines, which would drop the last line when it is empty
+    for line in decoded_program.split('\n') {
         let mut temp_line = line.to_string();
 
         while !temp_line.is_empty() {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 482d76d..2e77192 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -179,7 +179,7 @@ impl Program {
                 write_to_file(path, self.to_bytes(self.metadata.to_short_bytes())?)?
             }
             ProgramFileType::TXT => {
-                let output_string = format!(
+                let mut output_string = format!(
                     "{}\n{}\n{}\n{}\n{}\n{}\n{}",
                     self.metadata.name,
                     self.header.comment,
@@ -189,6 +189,10 @@ impl Program {
                     self.model.model.to_string(),
                     &self.body.translation
                 );
+                // the line break at the end of a file doesn't start another line when it is read
+                if self.body.translation.ends_with('\n') {
+                    output_string.push('\n');
+                }
                 write_to_file(path, output_string)?
             }
             ProgramFileType::JSON => {
-- 
2.43.0


From a252982158f1d7db98204b7c909ce2440b8534b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 14/24] fix: keep the model in json files

---
 src/calculator/models.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 0ab0765..7769933 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -82,7 +82,7 @@ impl PartialEq for ModelDetails {
     }
 }
 
-#[derive(Debug, Eq, Clone, Serialize)]
+#[derive(Debug, Eq, Clone)]
 pub enum Model {
     TI82,
     TI83,
@@ -117,6 +117,16 @@ impl PartialEq for Model {
     }
 }
 
+// the counterpart of deserialize, which reads the name of the model
+impl Serialize for Model {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        serializer.serialize_str(&self.to_string())
+    }
+}
+
 impl Model {
     pub fn from_string(model: &str) -> Model {
         match model {
-- 
2.43.0


From 8761893d53e2e45f656464271b65efabeac08a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 15/24] fix: refuse program names with path separators in mass
 conversion

---
 src/commands/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index c4340a4..97d1ed4 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -317,7 +317,9 @@ fn save_inside(
     output_directory: &Path,
     output_path: &Path,
 ) -> Result<(), TiToolsError> {
-    if output_path.parent() != Some(output_directory) {
+    if program.metadata.name.contains(std::path::is_separator)
+        || output_path.parent() != Some(output_directory)
+    {
         return Err(TiToolsError::FailedToWriteFile(
             output_path.to_string_lossy().to_string(),
             "The program name can't be used as a file name".to_string(),
-- 
2.43.0


From 5e2b52830848e987b1fe4aededf06c7a37cf9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:18 +0000
Subject: [PATCH 16/24] fix: keep a comment with line breaks on its line in
 text files

---
 src/calculator/program.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 2e77192..0187e34 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -182,7 +182,8 @@ impl Program {
                 let mut output_string = format!(
                     "{}\n{}\n{}\n{}\n{}\n{}\n{}",
                     self.metadata.name,
-                    self.header.comment,
+                    // a line break in the comment would move the lines after it
+                    self.header.comment.replace('\n', " "),
                     self.metadata.file_type.to_string(),
                     self.metadata.destination.to_string(),
                     self.display_mode.to_string(),
-- 
2.43.0


From 2b0b49e97105c1a5c82166719f4046e1dff55b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:45 +0000
Subject: [PATCH 17/24] fix: make sure a saved file outlasts a power loss
 before the old one is deleted

---
 src/calculator/program.rs | 31 ++++++++++++++++++++++++++++---
 src/commands/edit/mod.rs  |  6 ++++--
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 0187e34..9cb5e04 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -4,7 +4,7 @@ use crate::calculator::file::from_8xp::create_from_8xp;
 use crate::calculator::file::from_txt::create_from_txt;
 use crate::calculator::{DisplayMode, EncodeMode};
 use serde::{Deserialize, Serialize};
-use std::fs::OpenOptions;
+use std::fs::{File, OpenOptions};
 use std::io::{ErrorKind, Write};
 use std::path::{Path, PathBuf};
 
@@ -663,9 +663,34 @@ fn replace_file(path: &Path, content: &[u8]) -> std::io::Result<()> {
     drop(temp_file);
     let result = result.and_then(|_| std::fs::rename(&temp_path, path));
 
-    if result.is_err() {
-        let _ = std::fs::remove_file(&temp_path);
+    match result {
+        // the save is complete either way, not every system can do this
+        Ok(_) => {
+            let _ = sync_parent_directory(path);
+        }
+        Err(_) => {
+            let _ = std::fs::remove_file(&temp_path);
+        }
     }
 
     result
 }
+
+/// The name of a new file is only safe from a power loss once its directory is on the disk as well
+pub fn sync_parent_directory(path: &Path) -> std::io::Result<()> {
+    // directories can't be opened everywhere
+    if !cfg!(unix) {
+        return Ok(());
+    }
+
+    let directory = match path.parent() {
+        Some(directory) if !directory.as_os_str().is_empty() => directory,
+        _ => Path::new("."),
+    };
+
+    match File::open(directory)?.sync_all() {
+        // the file system doesn't know how to
+        Err(err) if err.kind() == ErrorKind::InvalidInput => Ok(()),
+        result => result,
+    }
+}
diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index 3eb1a06..a08cc25 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -6,7 +6,7 @@ pub mod unarchive;
 pub mod unlock;
 
 use crate::calculator::errors::TiToolsError;
-use crate::calculator::program::Program;
+use crate::calculator::program::{sync_parent_directory, Program};
 use crate::calculator::DisplayMode;
 use std::path::{Path, PathBuf};
 
@@ -59,7 +59,9 @@ fn save_edits(
                 return;
             }
 
-            let result = std::fs::remove_file(input_path);
+            // the new file may be on another disk, it has to be safe before the old one goes
+            let result =
+                sync_parent_directory(&new_file_path).and_then(|_| std::fs::remove_file(input_path));
 
             match result {
                 Ok(_) => {
-- 
2.43.0


From 3aa175a634104d26f881e9fc37b8d40fd727d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:18 +0000
Subject: [PATCH 18/24] fix: accept an output directory another invocation
 created meanwhile

---
 src/commands/convert.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 97d1ed4..23b01b9 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -3,7 +3,7 @@ use crate::calculator::program::{get_file_type, Program, ProgramFileType};
 use crate::calculator::{DisplayMode, EncodeMode};
 use crate::prints;
 use std::fs;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 use std::path::Path;
 
 pub fn convert_command(
@@ -115,8 +115,13 @@ pub fn convert_command(
         }
 
         println!("Creating output directory");
-        if let Err(err) = fs::create_dir(Path::new(&output_path_string.as_ref().unwrap())) {
-            TiToolsError::FileWrite(err.to_string()).print().exit()
+        let output_directory = Path::new(output_path_string.as_ref().unwrap());
+
+        if let Err(err) = fs::create_dir(output_directory) {
+            // another invocation may have created it since
+            if err.kind() != ErrorKind::AlreadyExists || !output_directory.is_dir() {
+                TiToolsError::FileWrite(err.to_string()).print().exit()
+            }
         }
     }
 
-- 
2.43.0


From 547408dae6e0148dff58d3139a14e2aacf0ba1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:27 +0000
Subject: [PATCH 19/24] fix: exit with an error for unknown commands and
 missing prerequisites

---
 src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ddcdb95..3669f6a 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -103,7 +103,7 @@ impl Cli {
                 .find(|&command| command.name == *command_name)
                 .unwrap_or_else(|| {
                     println!("Command not found: {}", command_name);
-                    std::process::exit(0);
+                    std::process::exit(1);
                 });
 
             if args.contains(&"--help".to_string()) || args.contains(&"-h".to_string()) {
@@ -168,7 +168,7 @@ impl Command {
                         "The argument \"{}\" requires the argument \"{}\"",
                         arg.name, required
                     );
-                    std::process::exit(0);
+                    std::process::exit(1);
                 }
             }
         }
-- 
2.43.0


From ef365900c794c06c3e1af7692cc581a9756de281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:02 +0000
Subject: [PATCH 20/24] fix: refuse an option at the end of the command line
 without its value

---
 src/cli.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index 3669f6a..12946ed 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -240,6 +240,13 @@ impl Command {
                 });
 
                 let value = arg_index.and_then(|index| args.get(index + 1));
+
+                // falling back to the default would ignore what was asked for
+                if arg_index.is_some() && value.is_none() {
+                    println!("The argument \"{}\" requires a value", arg.name);
+                    std::process::exit(1);
+                }
+
                 value
                     .or_else(|| arg.default_value.as_ref())
                     .map(|s| s.to_string())
-- 
2.43.0


From 0609d92abcfa6ce675201ae38bae76ae3387114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:44 +0000
Subject: [PATCH 21/24] fix: report a missing input whose name is not UTF-8
 instead of crashing

---
 src/calculator/program.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 9cb5e04..b9579f0 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -25,7 +25,7 @@ impl Program {
     ) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -65,7 +65,7 @@ impl Program {
     pub fn load_from_txt(path: PathBuf, encode_mode: &EncodeMode) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -104,7 +104,7 @@ impl Program {
     pub fn load_from_json(path: PathBuf) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
-- 
2.43.0


From 54d9af3fc841ce18a4bc4541eaa3ef93de51feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:44 +0000
Subject: [PATCH 22/24] fix: refuse arguments that are not valid UTF-8 instead
 of crashing

---
 src/cli.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index 12946ed..d4f9c18 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -76,6 +76,11 @@ impl Cli {
 
     /// Match the command being passed in the arguments
     pub fn match_commands(&self) -> &Command {
+        if let Some(arg) = env::args_os().find(|arg| arg.to_str().is_none()) {
+            println!("The argument \"{}\" is not valid UTF-8", arg.to_string_lossy());
+            std::process::exit(1);
+        }
+
         let args: Vec<String> = env::args().collect();
         if args.contains(&"--help".to_string()) || args.contains(&"-h".to_string()) {}
 
-- 
2.43.0


From 1b84d92aee2dd66cbd290fd7c6b0c3c63fc03b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:44 +0000
Subject: [PATCH 23/24] fix: keep the permissions of a file that is replaced

---
 src/calculator/program.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index b9579f0..450b7fc 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -657,6 +657,11 @@ fn replace_file(path: &Path, content: &[u8]) -> std::io::Result<()> {
         }
     };
 
+    // a replaced file keeps its permissions, as far as the file system knows any
+    if let Ok(metadata) = std::fs::metadata(path) {
+        let _ = temp_file.set_permissions(metadata.permissions());
+    }
+
     let result = temp_file
         .write_all(content)
         .and_then(|_| temp_file.sync_all());
-- 
2.43.0


From cda2fd37f4b8d4fb55c165e9cc5c47110b88bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:35 +0000
Subject: [PATCH 24/24] fix: exit with the error of the failed save when the
 user quits a mass conversion

---
 src/commands/convert.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 23b01b9..cb923d6 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -215,7 +215,7 @@ pub fn convert_command(
                         }
                         Err(err) => {
                             println!("Failed to save file:");
-                            err.print();
+                            let err = err.print();
 
                             println!("Would you like to skip this file and continue? [y/N]");
                             let mut input = String::new();
@@ -225,9 +225,10 @@ pub fn convert_command(
                             std::io::stdin().read_line(&mut input).unwrap();
                             let input = input.trim();
                             if input != "y" && input != "Y" {
-                                TiToolsError::Quit("User chose to quit".to_string())
-                                    .print()
-                                    .exit()
+                                TiToolsError::Quit("User chose to quit".to_string()).print();
+
+                                // quitting does not make up for a save that failed
+                                err.exit()
                             }
 
                             continue;
@@ -256,7 +257,7 @@ pub fn convert_command(
                         }
                         Err(err) => {
                             println!("Failed to save file:");
-                            err.print();
+                            let err = err.print();
 
                             println!("Would you like to skip this file and continue? [y/N]");
                             let mut input = String::new();
@@ -266,9 +267,10 @@ pub fn convert_command(
                             std::io::stdin().read_line(&mut input).unwrap();
                             let input = input.trim();
                             if input != "y" && input != "Y" {
-                                TiToolsError::Quit("User chose to quit".to_string())
-                                    .print()
-                                    .exit()
+                                TiToolsError::Quit("User chose to quit".to_string()).print();
+
+                                // quitting does not make up for a save that failed
+                                err.exit()
                             }
 
                             continue;
@@ -292,7 +294,7 @@ pub fn convert_command(
                         }
                         Err(err) => {
                             println!("Failed to save file:");
-                            err.print();
+                            let err = err.print();
 
                             println!("Would you like to skip this file and continue? [y/N]");
                             let mut input = String::new();
@@ -302,9 +304,10 @@ pub fn convert_command(
                             std::io::stdin().read_line(&mut input).unwrap();
                             let input = input.trim();
                             if input != "y" && input != "Y" {
-                                TiToolsError::Quit("User chose to quit".to_string())
-                                    .print()
-                                    .exit()
+                                TiToolsError::Quit("User chose to quit".to_string()).print();
+
+                                // quitting does not make up for a save that failed
+                                err.exit()
                             }
 
                             continue;
-- 
2.43.0

