From 3662214c040d00f005cb41dadce131ab41aa25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:52 +0000
Subject: [PATCH 1/7] fix: reject binary literals whose set bits lie beyond the
 machine word

`checked_shl(1)` only checks the shift amount, so a binary literal of 65 or
more digits silently lost its leading ones and was accepted with a wrong
value (e.g. %1 followed by 64 zeroes assembled as 0).
---
 src/assembler/scanner.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/assembler/scanner.rs b/src/assembler/scanner.rs
index 90f09d6..07d7798 100644
--- a/src/assembler/scanner.rs
+++ b/src/assembler/scanner.rs
@@ -103,12 +103,10 @@ fn parse_12_bit_bin_str<'a>(bin_str: &'a str) -> Result<usize, Error<'a>> {
     if result.is_err() {
       return result;
     } else {
-      accumulator = match accumulator.checked_shl(1) {
-        Some(shifted) =>
-          shifted | result.unwrap(),
-        None =>
-          return Err(Error::BinaryLiteralOutOfRange(bin_str)),
-      };
+      // Once out of range, the accumulator stays out of range (no significant bit is ever shifted out).
+      if accumulator <= 0xFFF {
+        accumulator = (accumulator << 1) | result.unwrap();
+      }
     }
   }
 
-- 
2.43.0


From e1227b137cbc0aa6d693aae931cbbb85ac88434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:52 +0000
Subject: [PATCH 2/7] fix: reject hexadecimal literals of more than three
 digits

The scanner took the first three digits of a longer literal and left the
rest to be read as the next token, so `jp $100F:` assembled as `jp $100`
followed by the definition of a label `F`.
---
 src/assembler/scanner.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/assembler/scanner.rs b/src/assembler/scanner.rs
index 07d7798..d083b6e 100644
--- a/src/assembler/scanner.rs
+++ b/src/assembler/scanner.rs
@@ -174,7 +174,7 @@ impl<'a> Scanner<'a> {
    */
   fn consume_hex_literal(&mut self) -> Token<'a> {
     lazy_static! {
-       static ref HEX_LITERAL: Regex = Regex::new(r#"^[\$\#][0-9a-fA-F]{1,3}"#).unwrap();
+       static ref HEX_LITERAL: Regex = Regex::new(r#"^[\$\#][0-9a-fA-F]+"#).unwrap();
     }
     match HEX_LITERAL.find(&self.input[self.position .. ]) {
       Some((0, byte_index_end)) => {
@@ -183,6 +183,14 @@ impl<'a> Scanner<'a> {
         let slice_end = self.position + byte_index_end;
         let slice = &self.input[slice_start .. slice_end];
         let location = self.advance_by(byte_index_end);
+
+        // A literal of more than 3 digits is not a 12-bit value.
+        if slice.len() > 3 {
+          // Push to the end of the input to indicate parse failure.
+          self.position = self.input.len();
+          return Token::Error(Error::InvalidHexadecimalLiteral, location);
+        }
+
         Token::NumericLiteral(usize::from_str_radix(slice, 16).ok().unwrap(), location)
       }
       _ => {
-- 
2.43.0


From 1a3a7fa23fc791349cf857c3f8bb2496624dbddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 3/7] fix: parse literal and field lists iteratively

A list of tens of thousands of elements overflowed the stack and aborted
the assembler, because every comma recursed into the list rule.
---
 src/assembler/parser.rs | 73 ++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 7dd872b..72ed9e3 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -286,24 +286,25 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    @return A list of literals if successful, or an error.
    */
   fn parse_literal_list(&mut self, list: Vec<Literal<'a>>) -> Result<Vec<Literal<'a>>, Error<'a>> {
-    
-    // The literal list is complete.
-    if let Some(Token::Newline(_)) = self.current_token {
-      return Ok(list);
-    }
-
-    // Parse the literal and append it to the list.
-    let literal = try!(self.parse_literal());
     let mut result_list = list;
-    result_list.push(literal);
 
-    // A comma following the literal causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      return self.parse_literal_list(result_list);
-    }
+    loop {
+      // The literal list is complete.
+      if let Some(Token::Newline(_)) = self.current_token {
+        return Ok(result_list);
+      }
+
+      // Parse the literal and append it to the list.
+      let literal = try!(self.parse_literal());
+      result_list.push(literal);
 
-    return Ok(result_list);
+      // A comma following the literal causes the rule to repeat. Long lists must not exhaust the stack.
+      if let Some(Token::Comma(_)) = self.current_token {
+        let _ = self.consume_token();
+      } else {
+        return Ok(result_list);
+      }
+    }
   }
 
   /**
@@ -356,13 +357,34 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    @return A list of fields if successful, or an error.
    */
   fn parse_field_list(&mut self, list: Vec<InstructionField<'a>>) -> Result<Vec<InstructionField<'a>>, Error<'a>> {
+    let mut result_list = list;
 
-    // The field list is complete on Newline or Single-Line Comment.
-    match self.current_token {
-      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(list),
-      _ => {}
+    loop {
+      // The field list is complete on Newline or Single-Line Comment.
+      match self.current_token {
+        Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(result_list),
+        _ => {}
+      }
+
+      // Parse the field and append it to the list.
+      let field = try!(self.parse_field());
+      result_list.push(field);
+
+      // A comma following the field causes the rule to repeat. Long lists must not exhaust the stack.
+      if let Some(Token::Comma(_)) = self.current_token {
+        let _ = self.consume_token();
+      } else {
+        return Ok(result_list);
+      }
     }
+  }
 
+  /**
+   Parses and consumes a single instruction field.
+   field ::= NUMERIC | IDENTIFIER
+   @return The field if successful, or an error.
+   */
+  fn parse_field(&mut self) -> Result<InstructionField<'a>, Error<'a>> {
     let field = match self.current_token {
 
       // A numeric literal parameter was matched.
@@ -415,18 +437,7 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
 
     };
 
-    // Append the parsed field to the list.
-    let mut result_list = list;
-    result_list.push(field);
-
-    // A comma following the field causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      result_list = try!(self.parse_field_list(result_list));
-    }
-    
-    // Return the complete list.
-    Ok(result_list)
+    Ok(field)
   }
 
   /**
-- 
2.43.0


From 2a2c64f10a77d44f08f3108908bc2c5a569cead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 4/7] fix: accept a comment after a trailing comma in a literal
 list

A line break after the comma ended the list but a comment there was
reported as an unexpected token, unlike in an instruction's field list.
---
 src/assembler/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 72ed9e3..578b039 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -289,9 +289,10 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
     let mut result_list = list;
 
     loop {
-      // The literal list is complete.
-      if let Some(Token::Newline(_)) = self.current_token {
-        return Ok(result_list);
+      // The literal list is complete on Newline or Single-Line Comment.
+      match self.current_token {
+        Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(result_list),
+        _ => {}
       }
 
       // Parse the literal and append it to the list.
-- 
2.43.0


From 480b7dd957a84d7e363ee5356849cf7605f1a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 5/7] fix: recognise the timer registers in every letter case

Register names are not case-sensitive, but Dt, dT, St and sT were taken
for labels.
---
 src/assembler/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 578b039..61b2b66 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -400,8 +400,8 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
         let identifier_field = match id {
 
           // Match special-purpose registers.
-           "dt" | "DT"  => InstructionField::DelayTimer,
-           "st" | "ST"  => InstructionField::SoundTimer,
+           "dt" | "DT" | "Dt" | "dT" => InstructionField::DelayTimer,
+           "st" | "ST" | "St" | "sT" => InstructionField::SoundTimer,
             "i" | "I"   => InstructionField::IndexRegister,
           "[i]" | "[I]" => InstructionField::IndexRegisterIndirect,
             "k" | "K"   => InstructionField::KeypadRegister,
-- 
2.43.0


From 73ac65336e9f924e1f58d5cdeb25c9f00c567bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:58 +0000
Subject: [PATCH 6/7] fix: zero-pad hexadecimal operands in disassembled text

Space padding rendered small operands as '$  5', which is not a literal.
---
 src/assembler/opcode.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/assembler/opcode.rs b/src/assembler/opcode.rs
index bd696c8..0ffb94a 100644
--- a/src/assembler/opcode.rs
+++ b/src/assembler/opcode.rs
@@ -120,14 +120,14 @@ impl Opcode {
       Opcode::DEREF_I                                                 => { format!("ld i, [i]") }
       Opcode::TRAP                                                    => { format!("trap") }
       Opcode::TRAPRET                                                 => { format!("trapret") }
-      Opcode::JP              { target }                              => { format!("jp ${:3x}", u16::from(target)) }
-      Opcode::CALL            { target }                              => { format!("call ${:3x}", u16::from(target)) }
-      Opcode::SE_IMMEDIATE    { register_x: x, value }                => { format!("se v{:1x}, ${:2x}", x, value) }
-      Opcode::SNE_IMMEDIATE   { register_x: x, value }                => { format!("sne v{:1x}, ${:2x}", x, value) }
+      Opcode::JP              { target }                              => { format!("jp ${:03x}", u16::from(target)) }
+      Opcode::CALL            { target }                              => { format!("call ${:03x}", u16::from(target)) }
+      Opcode::SE_IMMEDIATE    { register_x: x, value }                => { format!("se v{:1x}, ${:02x}", x, value) }
+      Opcode::SNE_IMMEDIATE   { register_x: x, value }                => { format!("sne v{:1x}, ${:02x}", x, value) }
       Opcode::SE_REGISTER     { register_x: x, register_y: y }        => { format!("se v{:1x}, v{:1x}", x, y) }
       Opcode::SNE_REGISTER    { register_x: x, register_y: y }        => { format!("sne v{:1x}, v{:1x}", x, y) }
-      Opcode::LD_IMMEDIATE    { register_x: x, value }                => { format!("ld v{:1x}, ${:2x}", x, value) }
-      Opcode::ADD_IMMEDIATE   { register_x: x, value }                => { format!("add v{:1x}, ${:2x}", x, value) }
+      Opcode::LD_IMMEDIATE    { register_x: x, value }                => { format!("ld v{:1x}, ${:02x}", x, value) }
+      Opcode::ADD_IMMEDIATE   { register_x: x, value }                => { format!("add v{:1x}, ${:02x}", x, value) }
       Opcode::LD_REGISTER     { register_x: x, register_y: y }        => { format!("ld v{:1x}, v{:1x}", x, y) }
       Opcode::OR              { register_x: x, register_y: y }        => { format!("or v{:1x}, v{:1x}", x, y) }
       Opcode::AND             { register_x: x, register_y: y }        => { format!("and v{:1x}, v{:1x}", x, y) }
@@ -137,9 +137,9 @@ impl Opcode {
       Opcode::SHR             { register_x: x, register_y: _ }        => { format!("shr v{:1x}", x) }
       Opcode::SUBN            { register_x: x, register_y: y }        => { format!("subn v{:1x}, v{:1x}", x, y) }
       Opcode::SHL             { register_x: x, register_y: _ }        => { format!("shl v{:1x}", x) }
-      Opcode::LD_I            { value }                               => { format!("ld i, ${:3x}", u16::from(value)) }
-      Opcode::JP_V0           { value }                               => { format!("jp v0, ${:3x}", u16::from(value)) }
-      Opcode::RND             { register_x: x, mask }                 => { format!("rnd v{:1x}, ${:2x}", x, mask) }
+      Opcode::LD_I            { value }                               => { format!("ld i, ${:03x}", u16::from(value)) }
+      Opcode::JP_V0           { value }                               => { format!("jp v0, ${:03x}", u16::from(value)) }
+      Opcode::RND             { register_x: x, mask }                 => { format!("rnd v{:1x}, ${:02x}", x, mask) }
       Opcode::DRW             { register_x: x, register_y: y, bytes}  => { format!("drw v{:1x}, v{:1x}, ${:1x}", x, y, bytes) }
       Opcode::SE_K            { register_x: x }                       => { format!("skp v{:1x}", x) }
       Opcode::SNE_K           { register_x: x }                       => { format!("sknp v{:1x}", x) }
-- 
2.43.0


From 3fc13763bab6363c84304caf233be0f14a81ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:58 +0000
Subject: [PATCH 7/7] fix: report an argument that is not valid UTF-8 instead
 of panicking

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bd97d31..2f595fd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,6 +15,7 @@ extern crate ihex;
 extern crate regex;
 
 use std::env;
+use std::ffi::OsString;
 use std::fs::File;
 use std::io;
 use std::io::prelude::*;
@@ -124,8 +125,8 @@ fn print_version() {
 }
 
 fn main() {
-  let arguments: Vec<String> = env::args().collect();
-  let program = arguments[0].clone();
+  let arguments: Vec<OsString> = env::args_os().collect();
+  let program = arguments[0].to_string_lossy().into_owned();
 
   let mut options = Options::new();
   options.optopt ("o", "output",  "Write output to <file>", "<file>");
-- 
2.43.0

