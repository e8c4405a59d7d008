From 96c560ec69ce9e2e6b65f14001b39f9de2e90ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 01/20] fix: encode displacements above 127 as disp32, disp8 is
 sign-extended

---
 at-x64/src/encoder/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/at-x64/src/encoder/mod.rs b/at-x64/src/encoder/mod.rs
index febf990..192cbaa 100644
--- a/at-x64/src/encoder/mod.rs
+++ b/at-x64/src/encoder/mod.rs
@@ -310,13 +310,13 @@ impl RegMemLike for Mem64 {
             // treat [RBP] and [R13] as [RBP + 0] and [R13 + 0] resprectively
             RegOffset(RBP | R13, 0) => 0b01,
             RegOffset(_, 0) => 0b00,
-            RegOffset(_, 1..=256) => 0b01,
+            RegOffset(_, 1..=127) => 0b01,
             RegOffset(_, _) => 0b10,
             RipOffset(_) => 0b00,
             Sib { base: None, .. } => 0b00,
             Sib {
                 base: Some(RBP | R13),
-                disp: 0..=256,
+                disp: 0..=127,
                 ..
             } => 0b01,
             Sib {
@@ -324,7 +324,7 @@ impl RegMemLike for Mem64 {
                 ..
             } => 0b10,
             Sib { disp: 0, .. } => 0b00,
-            Sib { disp: 1..=256, .. } => 0b01,
+            Sib { disp: 1..=127, .. } => 0b01,
             Sib { .. } => 0b10,
         }
     }
@@ -370,7 +370,7 @@ impl RegMemLike for Mem64 {
         match self {
             RegOffset(RBP | R13, 0) => BytesAtMost::from(0 as u8),
             RegOffset(_, 0) => BytesAtMost::with_len(0),
-            RegOffset(_, disp @ 1..=256) => BytesAtMost::from(*disp as u8),
+            RegOffset(_, disp @ 1..=127) => BytesAtMost::from(*disp as u8),
             RegOffset(_, disp) => BytesAtMost::from(*disp),
             RipOffset(disp) => BytesAtMost::from(*disp),
             Sib {
@@ -383,7 +383,7 @@ impl RegMemLike for Mem64 {
             } => BytesAtMost::from(0u8),
             Sib { disp: 0, .. } => BytesAtMost::with_len(0),
             Sib {
-                disp: disp @ 1..=256,
+                disp: disp @ 1..=127,
                 ..
             } => BytesAtMost::from(*disp as u8),
             Sib { disp, .. } => BytesAtMost::from(*disp),
-- 
2.43.0


From 37bb2dbaf81e0bed978cf515f91528511139485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 02/20] fix: push of 128..=255 must not use the sign-extended
 imm8 form

---
 at-asm/src/parsers/instruction/push.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 26cd032..7910c8e 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -27,7 +27,9 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     }
 
     // if operand is u8
-    if let Some(imm) = u8::try_parse_str(operand_str)? {
+    // NOTE: imm8 is sign-extended by CPU, so that values
+    // greater than 127 have to be encoded as imm32.
+    if let Some(imm @ 0..=127) = u8::try_parse_str(operand_str)? {
         let push = Push::new(imm);
         return Ok(Instruction::new(push));
     }
-- 
2.43.0


From 306432264f650f33d471dad2098ffd04c4291180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 03/20] fix: reject trailing operands of push, ret and syscall
 instead of ignoring them

---
 at-asm/src/parsers/instruction/mod.rs  | 5 ++++-
 at-asm/src/parsers/instruction/push.rs | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mod.rs b/at-asm/src/parsers/instruction/mod.rs
index 9eb96f8..7914f8f 100644
--- a/at-asm/src/parsers/instruction/mod.rs
+++ b/at-asm/src/parsers/instruction/mod.rs
@@ -40,9 +40,12 @@ impl Instruction {
 
 impl ParseStr for Instruction {
     fn try_parse_str(s: &str) -> Result<Option<Instruction>, ParseError> {
-        match s.split_whitespace().next() {
+        let mut tokens = s.split_whitespace();
+
+        match tokens.next() {
             Some("mov") => Ok(Some(mov::parse_str(s)?)),
             Some("push") => Ok(Some(push::parse_str(s)?)),
+            Some("ret" | "syscall") if tokens.next().is_some() => Err(ParseError::eol_expected()),
             Some("ret") => Ok(Some(Instruction::new(Ret::new()))),
             Some("syscall") => Ok(Some(Instruction::new(Syscall::new()))),
             _ => Ok(None),
diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 7910c8e..55fb0fe 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -20,6 +20,10 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
     };
 
+    if tokens.next().is_some() {
+        return Err(ParseError::eol_expected());
+    }
+
     // if operand is Reg64
     if let Some(reg) = Reg64::try_parse_str(operand_str)? {
         let push = Push::new(reg);
-- 
2.43.0


From ba0b6f6bada8b34f4efe31be84d3884609ff23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 04/20] fix: reject expressions with more than one operator
 instead of dropping the rest

---
 at-asm/src/parsers/expr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 053dd65..7fed058 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,6 +54,10 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
+        if tokens.next().is_some() {
+            return Err(ParseError::new("expected end of expression after rhs"));
+        }
+
         let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
 
         Ok(Some(Expr(res as u64)))
-- 
2.43.0


From b32c19e9e7b64199d21340edb79da23c2fa3bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 05/20] fix: do not overflow i64 on expressions whose operands
 do not fit in it

---
 at-asm/src/parsers/expr.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 7fed058..89dafe6 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -58,9 +58,14 @@ impl ParseStr for Expr {
             return Err(ParseError::new("expected end of expression after rhs"));
         }
 
-        let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
+        // two's complement 64bit arithmetic
+        let res = if sign {
+            lhs.wrapping_add(rhs)
+        } else {
+            lhs.wrapping_sub(rhs)
+        };
 
-        Ok(Some(Expr(res as u64)))
+        Ok(Some(Expr(res)))
     }
 
     fn parse_str(s: &str) -> Result<Self, ParseError> {
@@ -71,10 +76,6 @@ impl ParseStr for Expr {
     }
 }
 
-fn sign_to_u64(sign: bool) -> i64 {
-    sign as i64 * 2 - 1
-}
-
 enum Token {
     Num(u64),
     Plus,
-- 
2.43.0


From 71e45045bc9ba22d8a7173a6aff9f22607bdcfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 06/20] fix: a semicolon inside a string literal does not start
 a comment

---
 at-asm/src/parsers/line.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index 9fb9933..393d94f 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -15,10 +15,7 @@ pub enum Line {
 impl ParseStr for Line {
     fn parse_str(s: &str) -> Result<Self, ParseError> {
         // コメントを無視
-        let s = match s.split_once(";") {
-            Some((s, _)) => s,
-            None => s,
-        };
+        let s = strip_comment(s);
 
         let mut tokens = s.split_whitespace();
 
@@ -66,3 +63,19 @@ impl ParseStr for Line {
         Ok(Some(Self::parse_str(s)?))
     }
 }
+
+// 最初の ";" 以降をコメントとして取り除く.
+// ただし、文字列リテラル中の ";" はコメントではない.
+fn strip_comment(s: &str) -> &str {
+    let mut in_str = false;
+
+    for (idx, c) in s.char_indices() {
+        match c {
+            '"' => in_str = !in_str,
+            ';' if !in_str => return &s[..idx],
+            _ => {}
+        }
+    }
+
+    s
+}
-- 
2.43.0


From 5604a941ec831d1c620849f7c19ea7e78e492662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:05 +0000
Subject: [PATCH 07/20] fix: accept a tab between mov and its operands

---
 at-asm/src/parsers/instruction/mov.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index c65863c..b26c5ba 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -10,7 +10,7 @@ use at_x64::{
 pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     let (opcode, remain) = s
         .trim()
-        .split_once(" ")
+        .split_once(char::is_whitespace)
         .ok_or_else(|| ParseError::new("invalid mov instruction format"))?;
     if opcode != "mov" {
         return Err(ParseError::new("not mov opcode"));
-- 
2.43.0


From 13b8c943798a6ccc34d50ed4ea7476ada7b12b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 08/20] fix: accept whitespace before the comma separating data
 items

---
 at-asm/src/parsers/data.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/data.rs b/at-asm/src/parsers/data.rs
index 61f8b57..8761686 100644
--- a/at-asm/src/parsers/data.rs
+++ b/at-asm/src/parsers/data.rs
@@ -162,7 +162,12 @@ impl<'a> Iterator for DataDefIter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         fn split_delim_once(s: &str) -> (&str, &str) {
             match s.split_once(|c: char| c.is_whitespace() || c == ',') {
-                Some((s1, s2)) => (s1, s2.trim_start()),
+                // 空白の後に "," が続く場合はその "," までが区切り
+                Some((s1, s2)) if s[s1.len()..].starts_with(',') => (s1, s2.trim_start()),
+                Some((s1, s2)) => {
+                    let s2 = s2.trim_start();
+                    (s1, s2.strip_prefix(',').unwrap_or(s2).trim_start())
+                }
                 None => (s, ""),
             }
         }
-- 
2.43.0


From 9e8e602f9fca4dd3ea26c9306692b91e4a042827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 09/20] fix: reject malformed hexadecimal literals such as
 0x0x10 and 0x+1

---
 at-asm/src/parsers/num.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/at-asm/src/parsers/num.rs b/at-asm/src/parsers/num.rs
index 4a167ba..cc1eaa0 100644
--- a/at-asm/src/parsers/num.rs
+++ b/at-asm/src/parsers/num.rs
@@ -7,11 +7,11 @@ macro_rules! impl_parse_str {
             /// Never error.
             /// Because another number format possibly fit.
             fn try_parse_str(s: &str) -> Result<Option<Self>, ParseError> {
-                if s.starts_with("0x") {
-                    let s = s.trim_start_matches("0x");
-                    Ok(Self::from_str_radix(s, 16).ok())
-                } else {
-                    Ok(Self::from_str_radix(s, 10).ok())
+                match s.strip_prefix("0x") {
+                    // `from_str_radix` accepts sign, but "0x+1" is not a number
+                    Some(hex) if hex.starts_with('+') => Ok(None),
+                    Some(hex) => Ok(Self::from_str_radix(hex, 16).ok()),
+                    None => Ok(Self::from_str_radix(s, 10).ok()),
                 }
             }
 
-- 
2.43.0


From 9c6bbdb18f82ee35500e5b1755d5b80b2c6039ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 10/20] fix: do not drop symbols defined in a section without
 bytes

---
 at-obj/src/object.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index c0ced39..447800f 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -44,6 +44,7 @@ pub struct Sections {
 
 impl Sections {
     /// iterate of all sections except empty section.
+    /// A section which has no bytes but symbols is not empty.
     pub(crate) fn iter<'a>(&'a self) -> impl Iterator<Item = SectionRef<'a>> {
         let arr = [
             SectionRef::Text(&self.text),
@@ -76,7 +77,7 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.vm_size() == 0
+        self.vm_size() == 0 && self.symbols().is_empty()
     }
 
     pub(crate) fn file_data(&self) -> &[u8] {
-- 
2.43.0


From 21492c99412527e98d6517fc8c64dea63571e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 11/20] fix: absolute symbols belong to no section

---
 at-obj/src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 3455a0f..0ea59c2 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -328,7 +328,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                         n_type: NType::Abs,
                         n_ext: *ext,
                     },
-                    n_sect: idx as u8,
+                    n_sect: NList64::NO_SECT,
                     n_desc: 0,
                     n_value: *val,
                 },
-- 
2.43.0


From b061e8e6083eeb81c8e4ef8164af90fbae0e3f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 12/20] fix: do not count padding in segment filesize, it
 exceeded vmsize

---
 at-obj/src/macho.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 0ea59c2..1e0d2d3 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -105,9 +105,8 @@ fn gen_segment_command64(object: &Object) -> SegmentCommand64 {
         filesize: object
             .sections()
             .iter()
-            .map(|sect| sect.file_size())
-            .sum::<u32>()
-            .aligned(8) as u64,
+            .map(|sect| sect.file_size() as u64)
+            .sum(),
         // object fileのprotectionは常に7
         // つまりrwxの全てのbitが立っている状態
         maxprot: 7,
-- 
2.43.0


From aec04a77de317776294de2c7fd333e44bde87f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 13/20] fix: do not read every debug symbol kind 0x20..=0x3f as
 Gsym

---
 at-mac/src/nlist.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/at-mac/src/nlist.rs b/at-mac/src/nlist.rs
index 76b1135..3f9bcab 100644
--- a/at-mac/src/nlist.rs
+++ b/at-mac/src/nlist.rs
@@ -91,7 +91,9 @@ impl NTypeField {
                 n_ext,
             }
         } else {
-            NTypeField::Stab(DebugSymbol::from_u8(n_stab))
+            // The mask only tells that this is a debug symbol.
+            // Kind of the symbol is represented by whole byte.
+            NTypeField::Stab(DebugSymbol::from_u8(n))
         }
     }
 
-- 
2.43.0


From 85adc1a84cb4d8210056c597e055b40c09583b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:35 +0000
Subject: [PATCH 14/20] fix: do not destroy the output file when assembling
 fails

---
 at-asm/src/main.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 6c022fb..ec485bc 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -1,5 +1,5 @@
 use at_asm::Assembler;
-use std::{fs::OpenOptions, path::PathBuf, process::exit};
+use std::{fs::OpenOptions, io::Write as _, path::PathBuf, process::exit};
 
 pub fn main() {
     let config = Config::init();
@@ -9,6 +9,12 @@ pub fn main() {
         .open(&config.input_path)
         .unwrap();
 
+    // output fileを開く (既存の内容を消す) のは、アセンブルに成功してから
+    let mut object = Vec::new();
+    Assembler::new()
+        .read_from(&mut input_file)
+        .write_into(&mut object);
+
     let mut output_file = OpenOptions::new()
         .write(true)
         .truncate(true)
@@ -16,9 +22,7 @@ pub fn main() {
         .open(&config.output_path)
         .unwrap();
 
-    Assembler::new()
-        .read_from(&mut input_file)
-        .write_into(&mut output_file);
+    output_file.write_all(&object).unwrap();
 }
 
 struct Config {
-- 
2.43.0


From 0d1ea0391a55a953b71eb980c33bab67bb49502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:20 +0000
Subject: [PATCH 15/20] fix: diagnose mov operands that can not be a symbol
 instead of crashing on them later

---
 at-asm/src/parsers/instruction/mov.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index b26c5ba..2af656c 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -35,7 +35,7 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
-        let symbol = operand2_str.to_string();
+        let symbol = parse_symbol(operand2_str)?;
         let mov = Mov::new(dst_reg, 0_u64);
         let reloc = LocalReloc {
             offset: mov.offset_to_imm_bytes(),
@@ -66,7 +66,7 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
-        let symbol = operand2_str.to_string();
+        let symbol = parse_symbol(operand2_str)?;
         let mov = Mov::new(dst_reg, 0_u32);
         let reloc = LocalReloc {
             offset: mov.offset_to_imm_bytes(),
@@ -104,6 +104,24 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     Err(ParseError::new("invalid first operand"))
 }
 
+// 数値でもレジスタでもないオペランドはシンボル名とみなす.
+// シンボル名になり得ないものは、未定義シンボルとして扱わずエラーにする.
+fn parse_symbol(s: &str) -> Result<String, ParseError> {
+    let is_reg = Reg64::try_parse_str(s)?.is_some()
+        || Reg32::try_parse_str(s)?.is_some()
+        || Reg16::try_parse_str(s)?.is_some();
+    let is_symbol = !s.is_empty()
+        && !s.starts_with(|c: char| c.is_ascii_digit())
+        && s.chars()
+            .all(|c| c.is_alphanumeric() || "_$#@~.?".contains(c));
+
+    if is_reg || !is_symbol {
+        return Err(ParseError::new("invalid second operand"));
+    }
+
+    Ok(s.to_string())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 554361be4f598e28c56f094f73c5b1bcf3a1aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 16/20] fix: refuse NUL inside a string table entry

A label or symbol name with a NUL byte ended its string early, so the
emitted symbol table pointed outside the string table or at a wrong name.
---
 at-mac/src/string_table.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/at-mac/src/string_table.rs b/at-mac/src/string_table.rs
index 30358ff..3d886e0 100644
--- a/at-mac/src/string_table.rs
+++ b/at-mac/src/string_table.rs
@@ -19,6 +19,10 @@ impl StringTable {
             if !c.is_ascii() {
                 panic!("could not push non-ascii char");
             }
+            // NUL ends a string, the rest would become a string of its own
+            if c == '\0' {
+                panic!("could not push NUL char");
+            }
             self.data.push(c as u8);
         }
         self.data.push(0);
-- 
2.43.0


From 983788c00cc33e4f35ae8f8c68df12779f6b9266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:04 +0000
Subject: [PATCH 17/20] fix: refuse relocation fields that do not fit their
 bits

A symbol number of 25 or more bits, or a type of more than 4 bits, silently
changed the neighbouring flags of the relocation entry.
---
 at-mac/src/reloc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/at-mac/src/reloc.rs b/at-mac/src/reloc.rs
index 449d5cb..e861269 100644
--- a/at-mac/src/reloc.rs
+++ b/at-mac/src/reloc.rs
@@ -84,6 +84,10 @@ impl RelocationInfo {
     // (inverse order if little endian, and vice versa).
     #[cfg(target_endian = "little")]
     pub fn write_into(self, write: &mut impl Write) {
+        // r_symbolnum has 24 bits, r_type has 4 bits
+        assert!(self.r_symbolnum <= 0x00FF_FFFF);
+        assert!(self.r_type <= 0x0F);
+
         write.write_i32_native(self.r_address);
 
         let mut infos: u32 = 0;
@@ -101,6 +105,10 @@ impl RelocationInfo {
     // (inverse order if little endian, and vice versa).
     #[cfg(target_endian = "big")]
     pub fn write_into(self, write: &mut impl Write) {
+        // r_symbolnum has 24 bits, r_type has 4 bits
+        assert!(self.r_symbolnum <= 0x00FF_FFFF);
+        assert!(self.r_type <= 0x0F);
+
         write.write_i32_native(self.r_address);
 
         let mut infos: u32 = 0;
-- 
2.43.0


From 7d44923d6edd752b0a8003a85e41de0e28203a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:06 +0000
Subject: [PATCH 18/20] fix: refuse NUL inside a fixed size name

Such a name was written as is and read back cut at its NUL.
---
 at-mac/src/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/at-mac/src/io.rs b/at-mac/src/io.rs
index 20fb7ba..651341b 100644
--- a/at-mac/src/io.rs
+++ b/at-mac/src/io.rs
@@ -85,6 +85,8 @@ pub trait WriteExt: Write + WriteBytesExt {
     fn write_fixed_size_string(&mut self, s: &str, size: usize) {
         assert!(s.is_ascii());
         assert!(s.len() <= size);
+        // NUL ends the name when it is read back
+        assert!(!s.contains('\0'));
 
         let mut buf = vec![0u8; size];
 
-- 
2.43.0


From e922aadfa69b2d8f115283466040d6ffccac9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:42 +0000
Subject: [PATCH 19/20] fix: refuse sections whose size does not fit 32 bits

---
 at-obj/src/object.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index 447800f..c35aeda 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom as _;
+
 pub struct Object {
     pub sections: Sections,
 }
@@ -93,7 +95,8 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn file_size(&self) -> u32 {
-        self.file_data().len() as u32
+        // file offsets and sizes are 32 bits wide in Mach-O
+        u32::try_from(self.file_data().len()).expect("section does not fit in an object file")
     }
 
     pub(crate) fn symbols(&self) -> &[Symbol] {
-- 
2.43.0


From a978e8e9339180c95497daa7e4ad07aae8c4fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:42 +0000
Subject: [PATCH 20/20] fix: refuse symbolic operands beyond the reach of a
 relocation

---
 at-asm/src/assembler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index e78accf..80cab0b 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -80,6 +80,12 @@ impl Assembler {
                 }
                 Line::Instruction(inst) => {
                     if let Some(loc_reloc) = inst.reloc {
+                        // relocation entryのアドレスは31bitに収まる必要がある
+                        let addr = self.cur_sect_mut().size() + loc_reloc.offset as u64;
+                        if addr > i32::MAX as u64 {
+                            eprintln!("error at line {}: section is too large", self.cur_line);
+                            exit(1);
+                        }
                         let reloc = Reloc {
                             addr: self.cur_sect_mut().size() as i32 + loc_reloc.offset as i32,
                             symbol: loc_reloc.symbol,
-- 
2.43.0

