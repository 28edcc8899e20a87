From 1c8d11fb745065c295fc5e5ffd3f287b7dc9cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 01/31] fix: retry interrupted reads in the lexer instead of
 failing

---
 koopa/src/front/lexer.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 19ec9e5..2f82173 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -4,7 +4,7 @@ use crate::front::span::{Error, Pos, Span};
 use crate::front::token::{Keyword, Token, TokenKind};
 use crate::ir::BinaryOp;
 use crate::{log_raw_fatal_error, return_error};
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 
 /// A lexer for lexing text form Koopa IR.
 ///
@@ -68,17 +68,19 @@ impl<T: Read> Lexer<T> {
   fn next_char(&mut self) -> std::result::Result<(), Error> {
     // NOTE: UTF-8 characters will not be handled here.
     let mut single_char = [0];
-    self.last_char = (self
-      .reader
-      .read(&mut single_char)
-      .map_err(|err| log_raw_fatal_error!("{}", err))?
-      != 0)
-      .then(|| {
-        let c = single_char[0] as char;
-        // update the current position
-        self.pos.update(c);
-        c
-      });
+    let len = loop {
+      match self.reader.read(&mut single_char) {
+        // interrupted reads are not failures, just try again
+        Err(err) if err.kind() == ErrorKind::Interrupted => continue,
+        result => break result.map_err(|err| log_raw_fatal_error!("{}", err))?,
+      }
+    };
+    self.last_char = (len != 0).then(|| {
+      let c = single_char[0] as char;
+      // update the current position
+      self.pos.update(c);
+      c
+    });
     Ok(())
   }
 
-- 
2.43.0


From 376b5146d23bc0617930a4b1920ec39098b04a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 02/31] fix: do not panic on branches to undefined basic blocks

---
 koopa/src/front/builder.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index c2ca9d4..98ecdfa 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -344,13 +344,11 @@ impl Builder {
     // fill predecessors
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
-      let mut add_pred = |bb_name| {
-        self
-          .local_bbs
-          .get_mut(bb_name)
-          .unwrap()
-          .preds
-          .push(block.name.clone());
+      let mut add_pred = |bb_name: &String| {
+        // undefined targets have already been reported
+        if let Some(info) = self.local_bbs.get_mut(bb_name) {
+          info.preds.push(block.name.clone());
+        }
       };
       match &last_inst.kind {
         AstKind::Branch(ast::Branch { tbb, fbb, .. }) => {
-- 
2.43.0


From 62f26696c7e04dd9ffbf70848fd09d99368a3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 03/31] fix: compare the argument number with the parameter
 number

---
 koopa/src/front/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 98ecdfa..d12f3fb 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -501,14 +501,14 @@ impl Builder {
     args_ty: &[Type],
   ) -> Result<Vec<Value>, Error> {
     // check length of argument list
-    if args.len() != args.len() {
+    if args.len() != args_ty.len() {
       return_error!(
         span,
         "expected {} {}, found {} {}",
+        args_ty.len(),
+        "argument".to_plural(args_ty.len()),
         args.len(),
-        "arguments".to_plural(args.len()),
-        args.len(),
-        "arguments".to_plural(args.len())
+        "argument".to_plural(args.len())
       );
     }
     // generate arguments
-- 
2.43.0


From 3d4d15c11f912e7257db95e66dcfd88a17f5053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 04/31] fix: reject array types with a non-positive length

---
 koopa/src/front/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index cee270d..e4b59ce 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -219,7 +219,12 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get length
-    let len = read!(self, TokenKind::Int, "length")? as usize;
+    let span_len = self.span();
+    let len = read!(self, TokenKind::Int, "length")?;
+    if len <= 0 {
+      return_error!(span_len, "array length must be positive, found {}", len);
+    }
+    let len = len as usize;
     // check & eat ']'
     span.update_span(self.expect(TokenKind::Other(']'))?);
     Ok(ast::ArrayType::new_boxed(span, base, len))
-- 
2.43.0


From 554917c869f98a7bfe47455fa432184b25995f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 05/31] fix: reject aggregates that do not match the expected
 type

---
 koopa/src/front/builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index d12f3fb..91ba58a 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -72,7 +72,7 @@ macro_rules! generate_init {
         let $elem_ty = match $ty.kind() {
           TypeKind::Array(base, len) => {
             if *len != agg.elems.len() {
-              log_error!(
+              return_error!(
                 $ast.span,
                 "expected array length {}, found length {}",
                 len,
@@ -81,7 +81,6 @@ macro_rules! generate_init {
             }
             base
           }
-          TypeKind::Pointer(base) => base,
           _ => return_error!($ast.span, "invalid aggregate type '{}'", $ty),
         };
         let elems = agg.elems.iter().map($agg_rec).collect::<Result<_, _>>()?;
-- 
2.43.0


From 81aeba5f9a4f3ecf97cda2260493ec2c4e196e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 06/31] fix: skip comments in a loop to avoid overflowing the
 stack

---
 koopa/src/front/lexer.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 2f82173..cc44331 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -32,16 +32,19 @@ impl<T: Read> Lexer<T> {
 
   /// Returns the next token from file, or a lexer error.
   pub fn next_token(&mut self) -> Result {
-    // skip spaces
-    while self.last_char.is_some_and(|c| c.is_whitespace()) {
-      self.next_char()?;
+    // skip spaces and comments
+    while let Some(c) = self.last_char {
+      if c.is_whitespace() {
+        self.next_char()?;
+      } else if c == '/' {
+        self.handle_comment()?;
+      } else {
+        break;
+      }
     }
     // check the last character
     if let Some(c) = self.last_char {
-      if c == '/' {
-        // skip comments
-        self.handle_comment()
-      } else if c == '@' || c == '%' {
+      if c == '@' || c == '%' {
         // symbols
         self.handle_symbol()
       } else if c.is_alphabetic() {
@@ -169,7 +172,7 @@ impl<T: Read> Lexer<T> {
   }
 
   /// Handles comments.
-  fn handle_comment(&mut self) -> Result {
+  fn handle_comment(&mut self) -> std::result::Result<(), Error> {
     let span = Span::new(self.pos);
     // eat '/'
     self.next_char()?;
@@ -181,15 +184,16 @@ impl<T: Read> Lexer<T> {
       while self.last_char.is_some_and(|c| c != '\r' && c != '\n') {
         self.next_char()?;
       }
-      // return the next token
-      self.next_token()
+      Ok(())
     } else {
-      self.log_err_and_skip(span.into_updated(self.pos), "invalid comment")
+      self
+        .log_err_and_skip(span.into_updated(self.pos), "invalid comment")
+        .map(|_| ())
     }
   }
 
   /// Handles block comments.
-  fn handle_block_comment(&mut self, span: Span) -> Result {
+  fn handle_block_comment(&mut self, span: Span) -> std::result::Result<(), Error> {
     // eat '*'
     self.next_char()?;
     // read until there is '*/' in stream
@@ -200,11 +204,12 @@ impl<T: Read> Lexer<T> {
     }
     // check unclosed block comment
     if self.last_char.is_none() {
-      self.log_err_and_skip(span.into_updated(self.pos), "comment unclosed at EOF")
+      self
+        .log_err_and_skip(span.into_updated(self.pos), "comment unclosed at EOF")
+        .map(|_| ())
     } else {
       // eat '/'
-      self.next_char()?;
-      self.next_token()
+      self.next_char()
     }
   }
 
-- 
2.43.0


From 94cd20a4dbbff359926d0eab6c8a7c3ac90dd7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 07/31] fix: do not panic when printing source lines of
 diagnostics

---
 koopa/src/front/span.rs | 67 ++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 58bb176..50965b3 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -74,33 +74,49 @@ pub struct Span {
   end: Pos,
 }
 
-/// Gets the string of the given line.
+/// Returns the content of the given line, without the carriage return.
+///
+/// Lines that can not be read are treated as empty lines, since the file
+/// may have been changed or removed after it was parsed.
+#[cfg(not(feature = "no-front-logger"))]
+fn get_line(line: Option<IoResult<Vec<u8>>>) -> Vec<u8> {
+  let mut line = line.and_then(IoResult::ok).unwrap_or_default();
+  if line.last() == Some(&b'\r') {
+    line.pop();
+  }
+  line
+}
+
+/// Converts the given bytes of a line to a displayable string.
+#[cfg(not(feature = "no-front-logger"))]
+fn to_display(bytes: &[u8]) -> String {
+  String::from_utf8_lossy(bytes).replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
+}
+
+/// Returns the displayed width of the first `col` bytes of the given line.
+#[cfg(not(feature = "no-front-logger"))]
+fn display_width(line: &[u8], col: u32) -> usize {
+  to_display(&line[..line.len().min(col as usize)])
+    .chars()
+    .count()
+}
+
+/// Gets the string of the given line, and the displayed columns.
 #[cfg(not(feature = "no-front-logger"))]
 macro_rules! get_line_str {
   ($line:expr) => {
-    $line
-      .map_or("".into(), |r| r.unwrap())
-      .replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
+    to_display(&get_line($line))
   };
   ($line:expr, $col:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
-    let col = $col as usize;
-    let tabs = (&line[..col]).matches('\t').count();
-    (
-      line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
-      col + tabs * (Span::TAB_WIDTH - 1),
-    )
+    let line = get_line($line);
+    (to_display(&line), display_width(&line, $col))
   }};
   ($line:expr, $col1:expr, $col2:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
-    let col1 = $col1 as usize;
-    let col2 = $col2 as usize;
-    let tabs1 = (&line[..col1]).matches('\t').count();
-    let tabs2 = tabs1 + (&line[col1..col2]).matches('\t').count();
+    let line = get_line($line);
     (
-      line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
-      col1 + tabs1 * (Span::TAB_WIDTH - 1),
-      col2 + tabs2 * (Span::TAB_WIDTH - 1),
+      to_display(&line),
+      display_width(&line, $col1),
+      display_width(&line, $col2),
     )
   }};
 }
@@ -327,9 +343,10 @@ impl Span {
     if self.start.col > 0
       && self.end.col > 0
       && let FileType::File(path) = file
+      && let Ok(file) = File::open(path)
     {
-      // open file and get lines
-      let mut lines = BufReader::new(File::open(path).unwrap()).lines();
+      // get lines
+      let mut lines = BufReader::new(file).split(b'\n');
       if self.start.line == self.end.line {
         self.print_single_line_info(&mut lines, color);
       } else {
@@ -345,14 +362,14 @@ impl Span {
   #[cfg(not(feature = "no-front-logger"))]
   fn print_single_line_info<T>(&self, lines: &mut T, color: Color)
   where
-    T: Iterator<Item = IoResult<String>>,
+    T: Iterator<Item = IoResult<Vec<u8>>>,
   {
     // get some parameters
     let line_num = self.start.line as usize;
     let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    let leading = c1.saturating_sub(1);
+    let len = c2.saturating_sub(c1) + 1;
     // print the current line to stderr
     eprintln!("{:w$} {}", "", "|".blue(), w = width);
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
@@ -367,7 +384,7 @@ impl Span {
   #[cfg(not(feature = "no-front-logger"))]
   fn print_multi_line_info<T>(&self, lines: &mut T, color: Color)
   where
-    T: Iterator<Item = IoResult<String>>,
+    T: Iterator<Item = IoResult<Vec<u8>>>,
   {
     // get some parameters
     let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
-- 
2.43.0


From 6c635c061462517982be1f8e5f79f600d672b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 08/31] fix: keep error state of drivers on the same thread
 separate

---
 koopa/src/front/driver.rs | 21 +++++++++++------
 koopa/src/front/span.rs   | 48 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/koopa/src/front/driver.rs b/koopa/src/front/driver.rs
index b24fbc0..0a26c3b 100644
--- a/koopa/src/front/driver.rs
+++ b/koopa/src/front/driver.rs
@@ -4,7 +4,7 @@ use crate::front::ast::AstKind;
 use crate::front::builder::Builder;
 use crate::front::lexer::Lexer;
 use crate::front::parser::Parser;
-use crate::front::span::{Error, FileType, Span};
+use crate::front::span::{Error, FileType, GlobalState, Span};
 use crate::ir::Program;
 use crate::log_raw_error;
 use std::fs::File;
@@ -16,6 +16,7 @@ use std::path::Path;
 /// See the [module-level documentation](crate::front) for more examples.
 pub struct Driver<T: Read> {
   parser: Result<Parser<T>, Error>,
+  state: GlobalState,
   builder: Builder,
 }
 
@@ -25,17 +26,23 @@ impl<T: Read> Driver<T> {
 
   /// Creates a new driver.
   pub fn new(ft: FileType, reader: T) -> Self {
-    Span::reset(ft);
+    let (parser, state) =
+      Span::with_state(GlobalState::new(ft), || Parser::new(Lexer::new(reader)));
     Self {
-      parser: Parser::new(Lexer::new(reader)),
+      parser,
+      state,
       builder: Builder::new(),
     }
   }
 
   /// Consumes the current driver and generates Koopa IR program
   /// from the reader.
-  pub fn generate_program(mut self) -> Result<Program, Error> {
-    let mut parser = self.parser?;
+  pub fn generate_program(self) -> Result<Program, Error> {
+    Span::with_state(self.state, || Self::generate(self.parser?, self.builder)).0
+  }
+
+  /// Generates Koopa IR program by using the given parser and builder.
+  fn generate(mut parser: Parser<T>, mut builder: Builder) -> Result<Program, Error> {
     loop {
       // parse & get the next AST
       let ast = parser.parse_next()?;
@@ -44,7 +51,7 @@ impl<T: Read> Driver<T> {
         break;
       }
       // build on the current AST
-      self.builder.build_on(&ast);
+      builder.build_on(&ast);
       // exit if too many errors are generated
       if Span::error_num() > Self::MAX_ERR_NUM {
         return log_raw_error!("too many errors are generated, aborted").into();
@@ -58,7 +65,7 @@ impl<T: Read> Driver<T> {
     if Span::error_num() != 0 {
       Error::default().into()
     } else {
-      Ok(self.builder.program())
+      Ok(builder.program())
     }
   }
 }
diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 50965b3..25bf500 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -1,6 +1,6 @@
 //! Span ([`Span`]) and error ([`Error`]) related implementations.
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 use std::fmt::{self, Arguments};
 use std::path::PathBuf;
 
@@ -134,6 +134,9 @@ impl Span {
         warn_num: 0,
       })
     };
+
+    /// Number of drivers that are running on the current thread.
+    static RUNNING: Cell<usize> = const { Cell::new(0) };
   }
 
   /// Creates a new span from [`Pos`].
@@ -152,6 +155,34 @@ impl Span {
     });
   }
 
+  /// Calls the given function with the given global state, returns the result
+  /// of the function and the global state after the call.
+  ///
+  /// The previous state will be restored if this method is called by another
+  /// call to it (for example, by a reader that uses a driver), so that drivers
+  /// on the same thread will not affect each other.
+  pub(in crate::front) fn with_state<F, R>(state: GlobalState, f: F) -> (R, GlobalState)
+  where
+    F: FnOnce() -> R,
+  {
+    struct Guard(Option<GlobalState>);
+
+    impl Drop for Guard {
+      fn drop(&mut self) {
+        let running = Span::RUNNING.get() - 1;
+        Span::RUNNING.set(running);
+        if running != 0 {
+          Span::STATE.set(self.0.take().unwrap());
+        }
+      }
+    }
+
+    let _guard = Guard(Some(Self::STATE.replace(state)));
+    Self::RUNNING.set(Self::RUNNING.get() + 1);
+    let result = f();
+    (result, Self::STATE.with_borrow(|gs| gs.clone()))
+  }
+
   /// Logs normal error with no span provided.
   #[cfg(feature = "no-front-logger")]
   pub fn log_raw_error(args: Arguments) -> Error {
@@ -477,13 +508,26 @@ impl fmt::Display for Pos {
 }
 
 /// Global state for `Span`.
-struct GlobalState {
+#[derive(Clone)]
+pub(in crate::front) struct GlobalState {
   file: FileType,
   err_num: usize,
   warn_num: usize,
 }
 
+impl GlobalState {
+  /// Creates a new global state with no errors and warnings.
+  pub(in crate::front) fn new(file: FileType) -> Self {
+    Self {
+      file,
+      err_num: 0,
+      warn_num: 0,
+    }
+  }
+}
+
 /// Type of input file.
+#[derive(Clone)]
 pub enum FileType {
   /// File with a path.
   File(PathBuf),
-- 
2.43.0


From a5395c629b391ca823758d625fa9212a4f13e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 09/31] fix: keep parents of instructions in sync with the
 layout

---
 koopa/src/ir/layout.rs | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/koopa/src/ir/layout.rs b/koopa/src/ir/layout.rs
index badf26c..f06f4a2 100644
--- a/koopa/src/ir/layout.rs
+++ b/koopa/src/ir/layout.rs
@@ -103,6 +103,9 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
   }
 
   fn clear(&mut self) {
+    for (bb, node) in &self.map {
+      remove_parents(&self.inst_bb, *bb, node.insts.keys());
+    }
     self.map.clear()
   }
 
@@ -140,7 +143,30 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
     BasicBlock: Borrow<Q>,
     Q: ?Sized + Hash + Eq,
   {
-    self.map.remove_entry(k)
+    let kv = self.map.remove_entry(k);
+    if let Some((bb, node)) = &kv {
+      remove_parents(&self.inst_bb, *bb, node.insts.keys());
+    }
+    kv
+  }
+}
+
+/// Removes the parent information of instructions that have been removed
+/// from the given basic block.
+///
+/// Instructions that have been inserted to other basic blocks are ignored.
+fn remove_parents<'a>(
+  inst_bb: &InstBBCell,
+  bb: BasicBlock,
+  insts: impl Iterator<Item = &'a Value>,
+) {
+  if let Some(inst_bb) = inst_bb.upgrade() {
+    let mut inst_bb = inst_bb.borrow_mut();
+    for inst in insts {
+      if inst_bb.get(inst) == Some(&bb) {
+        inst_bb.remove(inst);
+      }
+    }
   }
 }
 
@@ -222,6 +248,7 @@ impl Map<Value, InstNode> for InstMap {
   }
 
   fn clear(&mut self) {
+    remove_parents(&self.inst_bb, self.bb, self.map.keys());
     self.map.clear()
   }
 
@@ -266,14 +293,8 @@ impl Map<Value, InstNode> for InstMap {
     Q: ?Sized + Hash + Eq,
   {
     let kv = self.map.remove_entry(k);
-    if kv.is_some() {
-      self
-        .inst_bb
-        .upgrade()
-        .unwrap()
-        .as_ref()
-        .borrow_mut()
-        .remove(k);
+    if let Some((inst, _)) = &kv {
+      remove_parents(&self.inst_bb, self.bb, [inst].into_iter());
     }
     kv
   }
-- 
2.43.0


From 60b364bbb62e7e8fbc59c66fda3cbd19d4c79359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 10/31] fix: check before removing values and basic blocks

---
 koopa/src/ir/dfg.rs      | 15 +++++++++++----
 koopa/src/ir/entities.rs | 11 +++++------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/koopa/src/ir/dfg.rs b/koopa/src/ir/dfg.rs
index ef00906..614e0a8 100644
--- a/koopa/src/ir/dfg.rs
+++ b/koopa/src/ir/dfg.rs
@@ -148,8 +148,11 @@ impl DataFlowGraph {
   /// Panics if the given value does not exist, or the removed value is
   /// currently used by other values.
   pub fn remove_value(&mut self, value: Value) -> ValueData {
-    let data = self.values.remove(&value).expect("`value` does not exist");
-    assert!(data.used_by.is_empty(), "`value` is used by other values");
+    assert!(
+      self.value(value).used_by.is_empty(),
+      "`value` is used by other values"
+    );
+    let data = self.values.remove(&value).unwrap();
     for v in data.kind().value_uses() {
       data_mut!(self, v).used_by.remove(&value);
     }
@@ -266,18 +269,22 @@ impl DataFlowGraph {
   /// * the parameters of the removed basic block do not exist, or
   ///   are currently used by other values.
   pub fn remove_bb(&mut self, bb: BasicBlock) -> BasicBlockData {
-    let data = self.bbs.remove(&bb).expect("`bb` does not exist");
+    let data = self.bb(bb);
     assert!(data.used_by.is_empty(), "`bb` is used by other values");
     for p in data.params() {
       let param = self
         .values
-        .remove(p)
+        .get(p)
         .expect("basic block parameter does not exist");
       assert!(
         param.used_by.is_empty(),
         "basic block parameter is used by other values"
       );
     }
+    let data = self.bbs.remove(&bb).unwrap();
+    for p in data.params() {
+      self.values.remove(p);
+    }
     data
   }
 
diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index b879e47..8d116dd 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -72,17 +72,16 @@ impl Program {
   /// Panics if the given value does not exist, or the removed value is
   /// currently used by other values.
   pub fn remove_value(&mut self, value: Value) -> ValueData {
-    let data = self
-      .values
-      .borrow_mut()
-      .remove(&value)
-      .expect("`value` does not exist");
+    assert!(
+      self.borrow_value(value).used_by.is_empty(),
+      "`value` is used by other values"
+    );
+    let data = self.values.borrow_mut().remove(&value).unwrap();
     if data.kind().is_global_alloc() {
       self
         .inst_layout
         .remove(self.inst_layout.iter().position(|v| *v == value).unwrap());
     }
-    assert!(data.used_by.is_empty(), "`value` is used by other values");
     for v in data.kind().value_uses() {
       data_mut!(self, v).used_by.remove(&value);
     }
-- 
2.43.0


From 97f3f99941222786456520c2d9b95893e3931c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 11/31] fix: return `None` when removing a function that is not
 in the program

---
 koopa/src/ir/entities.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index 8d116dd..e265878 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -180,9 +180,7 @@ impl Program {
   /// Returns the function data if the function was previously in the program.
   pub fn remove_func(&mut self, func: Function) -> Option<FunctionData> {
     self.func_tys.borrow_mut().remove(&func);
-    self
-      .func_layout
-      .remove(self.func_layout.iter().position(|f| *f == func).unwrap());
+    self.func_layout.retain(|f| *f != func);
     self.funcs.remove(&func)
   }
 
-- 
2.43.0


From 3207fafa14a25a873fdbacfbee7c4384870c7e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 12/31] fix: do not reuse names of previously generated
 programs

---
 koopa/src/back/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index aa0060b..69afb40 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -316,6 +316,8 @@ impl<W: Write, V: Visitor<W>> Generator<W, V> {
 
   /// Generates on the given Koopa IR program.
   pub fn generate_on(&mut self, program: &Program) -> Result<V::Output> {
+    // names are only valid for the program that is being generated
+    self.name_man = NameManager::new();
     self
       .visitor
       .visit(&mut self.writer, &mut self.name_man, program)
-- 
2.43.0


From 0ab77d9264a4a1f2903442f826bd9505acea97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 13/31] fix: allow a raw program builder to build more than one
 program

---
 libkoopa/src/raw/builder.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index e93dfdf..fd05c4d 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -36,26 +36,19 @@ impl RawProgramBuilder {
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
-    // fill `used_by` fields of all values
-    let slices: Vec<_> = self
-      .values
-      .keys()
-      .map(|value| {
-        let v: Vec<_> = info.value_used_by[value]
-          .iter()
-          .map(|v| self.values[v].get() as *const ())
-          .collect();
-        let slice = RawSlice {
-          buffer: v.as_ptr() as *const c_void,
-          len: v.len() as u32,
-          kind: RawSliceItemKind::Value,
-        };
-        self.slices.push(v);
-        slice
-      })
-      .collect();
-    for (data, slice) in self.values.values_mut().zip(slices.into_iter()) {
-      data.get_mut().used_by = slice;
+    // fill `used_by` fields of all values built in this call
+    for (value, used_by) in &info.value_used_by {
+      let v: Vec<_> = used_by
+        .iter()
+        .map(|v| self.values[v].get() as *const ())
+        .collect();
+      let slice = RawSlice {
+        buffer: v.as_ptr() as *const c_void,
+        len: v.len() as u32,
+        kind: RawSliceItemKind::Value,
+      };
+      self.slices.push(v);
+      self.values.get_mut(value).unwrap().get_mut().used_by = slice;
     }
     raw
   }
-- 
2.43.0


From 05a8dc2375a603311cae948b42d3a4655a1fd539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 14/31] fix: generate phi operands of LLVM IR in a
 deterministic order

---
 koopa/src/back/llvm.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 2fec584..7e4ccd6 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -163,18 +163,28 @@ impl<W: Write> VisitorImpl<'_, W> {
     // basic block name
     let data = func!(self).dfg().bb(bb);
     writeln!(self.w, "{}:", &self.nm.bb_name(data)[1..])?;
+    // users of the current basic block, in layout order
+    let users: Vec<_> = if data.params().is_empty() {
+      Vec::new()
+    } else {
+      let nodes = func!(self).layout().bbs().nodes();
+      nodes
+        .flat_map(|node| node.insts().keys())
+        .filter(|inst| data.used_by().contains(inst))
+        .collect()
+    };
     // basic block parameters (phi functions)
     for (i, param) in data.params().iter().enumerate() {
       let param = value!(self, *param);
       write!(self.w, "  {} = phi ", self.nm.value_name(param))?;
       self.visit_type(param.ty())?;
       write!(self.w, " ")?;
-      for (k, user) in data.used_by().iter().enumerate() {
+      for (k, user) in users.iter().enumerate() {
         if k != 0 {
           write!(self.w, ", ")?;
         }
         write!(self.w, "[")?;
-        match value!(self, *user).kind() {
+        match value!(self, **user).kind() {
           ValueKind::Branch(br) => {
             if br.true_bb() == bb {
               self.visit_value(false, br.true_args()[i])?;
@@ -186,7 +196,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           _ => panic!("invalid branch/jump instruction"),
         }
         write!(self.w, ", ")?;
-        self.visit_bb_ref(func!(self).layout().parent_bb(*user).unwrap())?;
+        self.visit_bb_ref(func!(self).layout().parent_bb(**user).unwrap())?;
         write!(self.w, "]")?;
       }
       writeln!(self.w)?;
-- 
2.43.0


From cfe72680d36b860690ea480a63ad1f5b74021cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 15/31] fix: do not lose the value if the update function
 panics

---
 koopa/src/ir/dfg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/src/ir/dfg.rs b/koopa/src/ir/dfg.rs
index 614e0a8..a94b64f 100644
--- a/koopa/src/ir/dfg.rs
+++ b/koopa/src/ir/dfg.rs
@@ -5,6 +5,7 @@ use crate::ir::entities::{BasicBlock, BasicBlockData, Value, ValueData};
 use crate::ir::entities::{FuncTypeMapCell, GlobalValueMapCell};
 use crate::ir::idman::{next_bb_id, next_local_value_id};
 use std::collections::HashMap;
+use std::panic::{self, AssertUnwindSafe};
 
 /// Data flow graph of a function.
 ///
@@ -131,7 +132,7 @@ impl DataFlowGraph {
     for bb in data.kind().bb_uses() {
       self.bb_mut(bb).used_by.remove(&value);
     }
-    f(&mut data);
+    let result = panic::catch_unwind(AssertUnwindSafe(|| f(&mut data)));
     for v in data.kind().value_uses() {
       data_mut!(self, v).used_by.insert(value);
     }
@@ -139,6 +140,10 @@ impl DataFlowGraph {
       self.bb_mut(bb).used_by.insert(value);
     }
     self.values.insert(value, data);
+    // the value must not be lost even if the given function panics
+    if let Err(payload) = result {
+      panic::resume_unwind(payload);
+    }
   }
 
   /// Removes the given value. Returns the corresponding value data.
-- 
2.43.0


From b35fa562eebde97234bcc1a790acd8c780fe8971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 16/31] fix: keep the order of basic blocks when generating raw
 programs

---
 libkoopa/src/raw/generator.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 0e2b9ba..f3ab3aa 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -266,8 +266,17 @@ impl GenerateOnRaw for RawFunction {
       // generate basic blocks
       if raw.bbs.len != 0 {
         let last_func = replace(&mut info.cur_func, *self);
-        for bb in raw.bbs.bbs()? {
-          bb.generate(program, info)?;
+        // generate all basic blocks first to keep their order
+        let bbs: Vec<BasicBlock> = raw.bbs.bbs()?.generate(program, info)?;
+        // generate instructions
+        for (raw_bb, bb) in raw.bbs.bbs()?.zip(bbs) {
+          let raw_bb = unsafe { &*raw_bb };
+          for inst in raw_bb.insts.values()? {
+            let inst = inst.generate(program, info)?;
+            // insert to the current basic block
+            let layout = program.func_mut(func).layout_mut();
+            layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
+          }
         }
         info.cur_func = last_func;
       }
@@ -309,13 +318,6 @@ impl GenerateOnRaw for RawBasicBlock {
       raw.params.values()?.zip(params).for_each(|(rp, p)| {
         func_info.values.insert(rp, *p);
       });
-      // generate instructions
-      for inst in raw.insts.values()? {
-        let inst = inst.generate(program, info)?;
-        // insert to the current basic block
-        let layout = program.func_mut(info.cur_func_info().func).layout_mut();
-        layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
-      }
       Ok(bb)
     }
   }
-- 
2.43.0


From e328e5684c1aa899dded19c82d2df7d7a9a56fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 17/31] fix: keep numeric names valid and unique when
 generating names

---
 koopa/src/back/generator.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index 69afb40..d68ff48 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -136,18 +136,30 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name<F>(&mut self, name: &Option<String>, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
     // check if there is a name
     if let Some(name) = name {
       self.next_name_str(name, name_set)
     } else {
-      // generate a temporary name
+      self.next_temp_name(name_set)
+    }
+  }
+
+  /// Generates the next unused temporary name
+  /// and stores it to the given name set.
+  fn next_temp_name<F>(&mut self, name_set: F) -> Rc<String>
+  where
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
+  {
+    loop {
       let name = self.prefix.temp_name(self.next_id);
       self.next_id += 1;
       let names = name_set(self);
-      names.insert(name.clone().into());
-      names.get(&name).unwrap().to_rc()
+      if !names.contains(&name) {
+        names.insert(name.clone().into());
+        return names.get(&name).unwrap().to_rc();
+      }
     }
   }
 
@@ -155,14 +167,18 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name_str<F>(&mut self, name: &str, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
+    let is_temp = name.chars().skip(1).all(char::is_numeric);
     let name = self.prefix.name(name);
     let names = name_set(self);
     // check for duplicate names
     if !names.contains(&name) {
       names.insert(name.clone().into());
       names.get(&name).unwrap().to_rc()
+    } else if is_temp {
+      // names like `%0` can not have suffixes
+      self.next_temp_name(name_set)
     } else {
       // generate a new name
       for id in 0.. {
-- 
2.43.0


From ff570c3a31d09c5ab2ca3982f7b1803481e5bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 18/31] fix: remove uses of global values when removing
 functions

---
 koopa/src/ir/entities.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index e265878..383e8db 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -129,6 +129,9 @@ impl Program {
   pub fn new_func(&mut self, mut data: FunctionData) -> Function {
     let func = Function(next_func_id());
     data.dfg.globals = Rc::downgrade(&self.values);
+    self.update_global_uses(&data, |used_by, value| {
+      used_by.insert(value);
+    });
     data.dfg.func_tys = Rc::downgrade(&self.func_tys);
     self.func_tys.borrow_mut().insert(func, data.ty.clone());
     self.funcs.insert(func, data);
@@ -181,7 +184,27 @@ impl Program {
   pub fn remove_func(&mut self, func: Function) -> Option<FunctionData> {
     self.func_tys.borrow_mut().remove(&func);
     self.func_layout.retain(|f| *f != func);
-    self.funcs.remove(&func)
+    let data = self.funcs.remove(&func)?;
+    self.update_global_uses(&data, |used_by, value| {
+      used_by.remove(&value);
+    });
+    Some(data)
+  }
+
+  /// Updates the `used_by` set of all global values that are used by
+  /// the values in the given function data.
+  fn update_global_uses<F>(&self, data: &FunctionData, update: F)
+  where
+    F: Fn(&mut HashSet<Value>, Value),
+  {
+    let mut globals = self.values.borrow_mut();
+    for (value, data) in data.dfg.values() {
+      for v in data.kind().value_uses() {
+        if let Some(global) = globals.get_mut(&v) {
+          update(&mut global.used_by, *value);
+        }
+      }
+    }
   }
 
   /// Returns a reference to the function map.
-- 
2.43.0


From 55f64673796b2a81c52746ca33cf3a8ed7f32cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 19/31] fix: do not panic when printing markers of very long
 lines

---
 koopa/src/front/span.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 25bf500..f7600bc 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -405,8 +405,9 @@ impl Span {
     eprintln!("{:w$} {}", "", "|".blue(), w = width);
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:w$} {} {:l$}", "", "|".blue(), "", w = width, l = leading);
-    eprintln!("{}", format!("{:^>w$}", "", w = len).color(color));
+    eprint!("{:w$} {} ", "", "|".blue(), w = width);
+    eprint!("{}", " ".repeat(leading));
+    eprintln!("{}", "^".repeat(len).color(color));
   }
 
   /// Prints the multi-line information.
@@ -427,7 +428,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{}   {}", "|".blue(), line);
     eprint!("{:w$} {}  ", "", "|".blue(), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = start).color(color));
+    eprintln!("{}", format!("{}^", "_".repeat(start)).color(color));
     // print the middle lines to stderr
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -453,7 +454,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
     eprint!("{:w$} {} {}", "", "|".blue(), "|".color(color), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = end).color(color));
+    eprintln!("{}", format!("{}^", "_".repeat(end)).color(color));
   }
 }
 
-- 
2.43.0


From 6b6eb7d3fcabe04f6869431d177a2a29d8162d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 20/31] fix: skip users out of the layout when building raw
 programs

Building a raw program panicked if a value was used by an instruction
that is not in the layout of its function.
---
 libkoopa/src/raw/builder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index fd05c4d..9c449bb 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -40,7 +40,9 @@ impl RawProgramBuilder {
     for (value, used_by) in &info.value_used_by {
       let v: Vec<_> = used_by
         .iter()
-        .map(|v| self.values[v].get() as *const ())
+        // skip users that are not a part of the program, such as
+        // instructions that have been removed from the layout
+        .filter_map(|v| Some(self.values.get(v)?.get() as *const ()))
         .collect();
       let slice = RawSlice {
         buffer: v.as_ptr() as *const c_void,
@@ -244,7 +246,13 @@ impl BuildRaw for BasicBlockData {
     RawBasicBlockData {
       name: self.name().build(builder, info),
       params: iter_into_raw(self.params().iter(), builder, info),
-      used_by: iter_into_raw(self.used_by().iter(), builder, info),
+      used_by: {
+        let layout = info.cur_func.unwrap().layout();
+        // skip branches that are not in the layout
+        let users = self.used_by().iter();
+        let users = users.filter(|v| layout.parent_bb(**v).is_some());
+        iter_into_raw(users, builder, info)
+      },
       insts: {
         let node = &info.cur_func.unwrap().layout().bbs()[&info.cur_bb.unwrap()];
         iter_into_raw(node.insts().keys(), builder, info)
-- 
2.43.0


From 2a8819b691e9219d629e795e3446c6b3a3da5d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 21/31] fix: never reuse stale entities in raw program builders

Building a program again after it has been changed returned the functions,
blocks and values as they were when they were built for the first time.
---
 libkoopa/src/raw/builder.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index 9c449bb..f801f46 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -8,6 +8,7 @@ use std::cell::UnsafeCell;
 use std::collections::HashMap;
 use std::ffi::CString;
 use std::marker::PhantomData;
+use std::mem::take;
 use std::os::raw::{c_char, c_void};
 use std::ptr::null;
 
@@ -20,8 +21,17 @@ pub struct RawProgramBuilder {
   funcs: HashMap<Function, Box<RawFunctionData>>,
   bbs: HashMap<BasicBlock, Box<RawBasicBlockData>>,
   values: HashMap<Value, Box<UnsafeCell<RawValueData>>>,
+  retired: Vec<RetiredEntities>,
 }
 
+/// Raw entities built by a former call, which are kept alive
+/// for the raw program returned by that call.
+type RetiredEntities = (
+  HashMap<Function, Box<RawFunctionData>>,
+  HashMap<BasicBlock, Box<RawBasicBlockData>>,
+  HashMap<Value, Box<UnsafeCell<RawValueData>>>,
+);
+
 impl RawProgramBuilder {
   /// Creates a new raw builder.
   pub fn new() -> Self {
@@ -30,6 +40,13 @@ impl RawProgramBuilder {
 
   /// Builds on the given Koopa IR program.
   pub fn build_on(&mut self, program: &Program) -> RawProgram<'_> {
+    // the program may have been changed since a former call,
+    // so never reuse entities of former calls
+    self.retired.push((
+      take(&mut self.funcs),
+      take(&mut self.bbs),
+      take(&mut self.values),
+    ));
     let mut info = ProgramInfo::new(program);
     let raw = RawProgram {
       values: iter_into_raw(program.inst_layout().iter(), self, &mut info),
-- 
2.43.0


From fc5caa5942ca445111e04f1a24211ae6279933e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 22/31] fix: keep the instructions of moved basic blocks in
 layouts

---
 koopa/src/ir/layout.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/koopa/src/ir/layout.rs b/koopa/src/ir/layout.rs
index f06f4a2..23fbf17 100644
--- a/koopa/src/ir/layout.rs
+++ b/koopa/src/ir/layout.rs
@@ -104,7 +104,7 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
 
   fn clear(&mut self) {
     for (bb, node) in &self.map {
-      remove_parents(&self.inst_bb, *bb, node.insts.keys());
+      remove_parents(&self.inst_bb, Some(*bb), node.insts.keys());
     }
     self.map.clear()
   }
@@ -130,7 +130,11 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
     T: Into<BasicBlockNode>,
   {
     if let Entry::Vacant(e) = self.map.entry(k) {
-      let node = BasicBlockNode::new(k, self.inst_bb.clone());
+      // rebuild the given node, in order to update the parent information
+      // of its instructions
+      let mut node = BasicBlockNode::new(Some(k), self.inst_bb.clone());
+      let v: BasicBlockNode = v.into();
+      node.insts.extend(v.insts.keys().copied());
       e.insert(node);
       Ok(())
     } else {
@@ -145,7 +149,7 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
   {
     let kv = self.map.remove_entry(k);
     if let Some((bb, node)) = &kv {
-      remove_parents(&self.inst_bb, *bb, node.insts.keys());
+      remove_parents(&self.inst_bb, Some(*bb), node.insts.keys());
     }
     kv
   }
@@ -157,13 +161,13 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
 /// Instructions that have been inserted to other basic blocks are ignored.
 fn remove_parents<'a>(
   inst_bb: &InstBBCell,
-  bb: BasicBlock,
+  bb: Option<BasicBlock>,
   insts: impl Iterator<Item = &'a Value>,
 ) {
   if let Some(inst_bb) = inst_bb.upgrade() {
     let mut inst_bb = inst_bb.borrow_mut();
     for inst in insts {
-      if inst_bb.get(inst) == Some(&bb) {
+      if inst_bb.get(inst) == bb.as_ref() {
         inst_bb.remove(inst);
       }
     }
@@ -181,7 +185,7 @@ pub struct BasicBlockNode {
 impl_node!(BasicBlockNode { Key = BasicBlock, prev = prev, next = next });
 
 impl BasicBlockNode {
-  fn new(bb: BasicBlock, inst_bb: InstBBCell) -> Self {
+  fn new(bb: Option<BasicBlock>, inst_bb: InstBBCell) -> Self {
     Self {
       insts: InstList::with_map(InstMap::new(bb, inst_bb)),
       prev: None,
@@ -201,14 +205,14 @@ impl BasicBlockNode {
 }
 
 impl From<()> for BasicBlockNode {
-  /// This function will always panic, so do not call this.
+  /// Creates an empty node that does not belong to any layout.
   ///
   /// This function is declared to fit the type bounds of methods in
   /// [`KeyNodeList`] such as [`push_key_front`](KeyNodeList::push_key_front).
   /// The actual construction of `BasicBlockNode` is done in
   /// [`BasicBlockMap`].
   fn from(_: ()) -> Self {
-    panic!("shound not be called")
+    Self::new(None, Weak::new())
   }
 }
 
@@ -227,13 +231,13 @@ pub type InstList = KeyNodeList<Value, InstNode, InstMap>;
 
 /// The underlying hash map of the [`InstList`].
 pub struct InstMap {
-  bb: BasicBlock,
+  bb: Option<BasicBlock>,
   inst_bb: InstBBCell,
   map: HashMap<Value, InstNode>,
 }
 
 impl InstMap {
-  fn new(bb: BasicBlock, inst_bb: InstBBCell) -> Self {
+  fn new(bb: Option<BasicBlock>, inst_bb: InstBBCell) -> Self {
     Self {
       bb,
       inst_bb,
@@ -281,7 +285,7 @@ impl Map<Value, InstNode> for InstMap {
         .unwrap()
         .as_ref()
         .borrow_mut()
-        .insert(k, self.bb);
+        .insert(k, self.bb.unwrap());
       self.map.insert(k, v.into());
       Ok(())
     }
-- 
2.43.0


From fafaeb77ed54c61451db9c0457b74bf77cd795c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 23/31] fix: report unreachable basic blocks in source order

---
 koopa/src/front/builder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 91ba58a..2a3fe75 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -287,9 +287,10 @@ impl Builder {
       }
     }
     // check if there are any unvisited blocks
-    for (bb_name, (span, _)) in bb_map {
-      if !visited.contains(bb_name) {
-        log_warning!(span, "basic block '{}' is unreachable, skipped", bb_name);
+    for bb in bbs {
+      let bb_name = &unwrap_ast!(bb, Block).name;
+      if visited.insert(bb_name) {
+        log_warning!(bb.span, "basic block '{}' is unreachable, skipped", bb_name);
       }
     }
     bb_list
-- 
2.43.0


From 50d731dc4e2476d39e5c7eb9be629eb9aad7fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 24/31] fix: write the element types of aggregates in phi
 instructions

Values of phi instructions are written without their type, but the elements
of an aggregate always need one in LLVM IR, so aggregates that are passed to
basic block parameters produced invalid text.
---
 koopa/src/back/llvm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 7e4ccd6..a2cfbb9 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -452,7 +452,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           if i != 0 {
             write!(self.w, ", ")?;
           }
-          self.visit_local_const(with_ty, value!(self, *elem))?;
+          self.visit_local_const(true, value!(self, *elem))?;
         }
         write!(self.w, "]")
       }
-- 
2.43.0


From e7bc49850ed51cfaaffe0c05bfa746e012c1307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 25/31] fix: cut long names between characters

Names that are longer than the limit of a custom prefix were cut at a fixed
byte, which panicked inside of characters with more than one byte.
---
 koopa/src/back/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index d68ff48..8bfb24c 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -240,7 +240,12 @@ impl Prefix {
           format!("{}{}", temp, &name[1..])
         };
         if let Some(max_len) = max_len {
-          name.truncate(max_len.get());
+          // never cut in the middle of a character
+          let mut len = max_len.get().min(name.len());
+          while !name.is_char_boundary(len) {
+            len -= 1;
+          }
+          name.truncate(len);
         }
         name
       }
-- 
2.43.0


From 74f683b430eab12f221e2541f067d6a97b0436ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 26/31] fix: do not name functions like local values in LLVM IR

---
 koopa/src/back/llvm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index a2cfbb9..aad7acc 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -78,6 +78,10 @@ impl<W: Write> VisitorImpl<'_, W> {
     if !self.program.inst_layout().is_empty() {
       writeln!(self.w)?;
     }
+    // name all functions, since they may be called before their definitions
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     // functions
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
-- 
2.43.0


From 6ac1bbc6d0263a3efa29c5966fcfbd60181aead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 27/31] fix: keep the order of functions when generating raw
 programs

---
 libkoopa/src/raw/generator.rs | 50 +++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index f3ab3aa..8ea4a30 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -3,10 +3,9 @@ use super::entities::*;
 use crate::errors::ErrorCode;
 use koopa::ir::builder_traits::*;
 use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::ffi::CStr;
 use std::marker::PhantomData;
-use std::mem::replace;
 use std::os::raw::c_char;
 use std::ptr::null;
 
@@ -24,6 +23,7 @@ pub(crate) fn generate_program(raw: &RawProgram) -> Result<Program> {
 struct ProgramInfo {
   values: HashMap<RawValue, Value>,
   funcs: HashMap<RawFunction, FunctionInfo>,
+  pending_funcs: VecDeque<RawFunction>,
   cur_func: RawFunction,
 }
 
@@ -33,6 +33,7 @@ impl ProgramInfo {
     ProgramInfo {
       values: HashMap::new(),
       funcs: HashMap::new(),
+      pending_funcs: VecDeque::new(),
       cur_func: null(),
     }
   }
@@ -203,9 +204,15 @@ impl GenerateOnRaw for RawProgram<'_> {
     for value in self.values.values()? {
       value.generate(program, info)?;
     }
+    // generate all functions first to keep their order
     for func in self.funcs.funcs()? {
       func.generate(program, info)?;
     }
+    // generate function bodies
+    while let Some(func) = info.pending_funcs.pop_front() {
+      info.cur_func = func;
+      generate_body(unsafe { &*func }, program, info)?;
+    }
     Ok(())
   }
 }
@@ -263,28 +270,37 @@ impl GenerateOnRaw for RawFunction {
         .collect();
       // insert to function map
       info.funcs.insert(*self, FunctionInfo::new(func, values));
-      // generate basic blocks
+      // the function body will be generated later
       if raw.bbs.len != 0 {
-        let last_func = replace(&mut info.cur_func, *self);
-        // generate all basic blocks first to keep their order
-        let bbs: Vec<BasicBlock> = raw.bbs.bbs()?.generate(program, info)?;
-        // generate instructions
-        for (raw_bb, bb) in raw.bbs.bbs()?.zip(bbs) {
-          let raw_bb = unsafe { &*raw_bb };
-          for inst in raw_bb.insts.values()? {
-            let inst = inst.generate(program, info)?;
-            // insert to the current basic block
-            let layout = program.func_mut(func).layout_mut();
-            layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
-          }
-        }
-        info.cur_func = last_func;
+        info.pending_funcs.push_back(*self);
       }
       Ok(func)
     }
   }
 }
 
+/// Generates the body of the current function by the given raw function.
+fn generate_body(
+  raw: &RawFunctionData,
+  program: &mut Program,
+  info: &mut ProgramInfo,
+) -> Result<()> {
+  let func = info.cur_func_info().func;
+  // generate all basic blocks first to keep their order
+  let bbs: Vec<BasicBlock> = raw.bbs.bbs()?.generate(program, info)?;
+  // generate instructions
+  for (raw_bb, bb) in raw.bbs.bbs()?.zip(bbs) {
+    let raw_bb = unsafe { &*raw_bb };
+    for inst in raw_bb.insts.values()? {
+      let inst = inst.generate(program, info)?;
+      // insert to the current basic block
+      let layout = program.func_mut(func).layout_mut();
+      layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
+    }
+  }
+  Ok(())
+}
+
 impl GenerateOnRaw for RawBasicBlock {
   type Entity = BasicBlock;
 
-- 
2.43.0


From c7e6b0b51aad56a0b567ebbf19d8f52ce2934545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 28/31] fix: do not use global constants in functions of raw
 programs

---
 libkoopa/src/raw/generator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 8ea4a30..4a566fa 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -204,6 +204,10 @@ impl GenerateOnRaw for RawProgram<'_> {
     for value in self.values.values()? {
       value.generate(program, info)?;
     }
+    // constants of global values can not be used in functions
+    info
+      .values
+      .retain(|_, v| !program.borrow_value(*v).kind().is_const());
     // generate all functions first to keep their order
     for func in self.funcs.funcs()? {
       func.generate(program, info)?;
-- 
2.43.0


From 199db6ab3cba8936ae50cb39b79e099c778b65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 29/31] fix: end the spans of jumps and branches without
 arguments at their target

---
 koopa/src/front/parser.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index e4b59ce..71b93bd 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -428,11 +428,12 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get false target basic block
+    let span_fbb = self.span();
     let fbb = read!(self, TokenKind::Symbol, "basic block name")?;
     // get false target basic block arguments
     let (fargs, sp) = self.parse_opt_list(|s| s.parse_value())?;
     Ok(ast::Branch::new_boxed(
-      span.into_updated_span(sp),
+      span.into_updated_span(sp.unwrap_or(span_fbb)),
       cond,
       tbb,
       targs,
@@ -447,11 +448,12 @@ impl<T: Read> Parser<T> {
     // eat 'jump'
     self.next_token()?;
     // get target basic block
+    let span_target = self.span();
     let target = read!(self, TokenKind::Symbol, "basic block name")?;
     // get target basic block arguments
     let (args, sp) = self.parse_opt_list(|s| s.parse_value())?;
     Ok(ast::Jump::new_boxed(
-      span.into_updated_span(sp),
+      span.into_updated_span(sp.unwrap_or(span_target)),
       target,
       args,
     ))
@@ -579,15 +581,20 @@ impl<T: Read> Parser<T> {
   }
 
   /// Parses optional comma-separated lists.
-  fn parse_opt_list<F, U>(&mut self, parser: F) -> std::result::Result<(Vec<U>, Span), Error>
+  ///
+  /// The returned span is `None` if there is no list.
+  fn parse_opt_list<F, U>(
+    &mut self,
+    parser: F,
+  ) -> std::result::Result<(Vec<U>, Option<Span>), Error>
   where
     F: Fn(&mut Self) -> std::result::Result<U, Error>,
   {
     // check left bracket
     if self.is_token(TokenKind::Other('(')) {
-      self.parse_list(parser)
+      self.parse_list(parser).map(|(items, sp)| (items, Some(sp)))
     } else {
-      Ok((Vec::new(), self.span()))
+      Ok((Vec::new(), None))
     }
   }
 
-- 
2.43.0


From 43508500be7994fcbf7263bbee79d484213a97ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 30/31] fix: do not recurse through basic blocks when looking
 for symbols

---
 koopa/src/front/builder.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 2a3fe75..b3a841d 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -451,35 +451,30 @@ impl Builder {
   fn generate_symbol(&self, span: &Span, bb_name: &str, symbol: &str) -> ValueResult {
     // try to find symbol in global scope
     // if not found, find symbol in local definitions
-    let mut visited_bbs = HashSet::new();
     self
       .global_vars
       .get(symbol)
       .copied()
-      .or_else(|| self.generate_local_symbol(&mut visited_bbs, bb_name, symbol))
+      .or_else(|| self.generate_local_symbol(bb_name, symbol))
       .ok_or_else(|| return_error!(span, "symbol '{}' not found", symbol))
   }
 
   /// Generates the symbol locally by the symbol name.
-  fn generate_local_symbol<'a>(
-    &'a self,
-    visited_bbs: &mut HashSet<&'a str>,
-    bb_name: &'a str,
-    symbol: &str,
-  ) -> Option<Value> {
-    if visited_bbs.insert(bb_name) {
-      // find symbol in local scope of the current basic block
-      // if not found, try to find symbol in all predecessors
-      let bb_info = &self.local_bbs[bb_name];
-      bb_info.local_defs.get(symbol).copied().or_else(|| {
-        bb_info
-          .preds
-          .iter()
-          .find_map(|pred| self.generate_local_symbol(visited_bbs, pred, symbol))
-      })
-    } else {
-      None
+  fn generate_local_symbol(&self, bb_name: &str, symbol: &str) -> Option<Value> {
+    // find symbol in local scope of the current basic block
+    // if not found, try to find symbol in all predecessors
+    let mut visited_bbs = HashSet::new();
+    let mut stack = vec![bb_name];
+    while let Some(bb_name) = stack.pop() {
+      if visited_bbs.insert(bb_name) {
+        let bb_info = &self.local_bbs[bb_name];
+        if let Some(value) = bb_info.local_defs.get(symbol) {
+          return Some(*value);
+        }
+        stack.extend(bb_info.preds.iter().rev().map(String::as_str));
+      }
     }
+    None
   }
 
   /// Generates the basic block handle by the given basic block name.
-- 
2.43.0


From d8c9ae3413d58412e3cf66f0db3007c1d025b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 31/31] fix: do not recurse through functions and blocks when
 building raw programs

---
 libkoopa/src/raw/builder.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index f801f46..c0995f2 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -5,7 +5,7 @@ use koopa::ir::values::*;
 use koopa::ir::{BasicBlock, Function, FunctionData, Program, Type, TypeKind};
 use koopa::ir::{BinaryOp, Value, ValueKind};
 use std::cell::UnsafeCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::ffi::CString;
 use std::marker::PhantomData;
 use std::mem::take;
@@ -53,6 +53,18 @@ impl RawProgramBuilder {
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
+    // fill functions and basic blocks, which may refer to each other
+    while let Some(func) = info.pending_funcs.pop_front() {
+      let data = program.func(func);
+      info.cur_func = Some(data);
+      let f = data.build(self, &mut info);
+      **self.funcs.get_mut(&func).unwrap() = f;
+      while let Some(bb) = info.pending_bbs.pop_front() {
+        info.cur_bb = Some(bb);
+        let b = data.dfg().bb(bb).build(self, &mut info);
+        **self.bbs.get_mut(&bb).unwrap() = b;
+      }
+    }
     // fill `used_by` fields of all values built in this call
     for (value, used_by) in &info.value_used_by {
       let v: Vec<_> = used_by
@@ -78,6 +90,8 @@ struct ProgramInfo<'a> {
   program: &'a Program,
   cur_func: Option<&'a FunctionData>,
   cur_bb: Option<BasicBlock>,
+  pending_funcs: VecDeque<Function>,
+  pending_bbs: VecDeque<BasicBlock>,
   value_used_by: HashMap<Value, Vec<Value>>,
 }
 
@@ -87,6 +101,8 @@ impl<'a> ProgramInfo<'a> {
       program,
       cur_func: None,
       cur_bb: None,
+      pending_funcs: VecDeque::new(),
+      pending_bbs: VecDeque::new(),
       value_used_by: HashMap::new(),
     }
   }
@@ -211,14 +227,10 @@ impl BuildRaw for Function {
     if let Some(f) = builder.funcs.get(self) {
       f.as_ref()
     } else {
+      // the function will be filled later
+      info.pending_funcs.push_back(*self);
       builder.funcs.insert(*self, unsafe { new_uninit_box() });
-      let func = info.program.func(*self);
-      let last_func = info.cur_func.replace(func);
-      let f = func.build(builder, info);
-      info.cur_func = last_func;
-      let fb = builder.funcs.get_mut(self).unwrap();
-      **fb = f;
-      fb.as_ref()
+      builder.funcs[self].as_ref()
     }
   }
 }
@@ -245,13 +257,10 @@ impl BuildRaw for BasicBlock {
     if let Some(b) = builder.bbs.get(self) {
       b.as_ref()
     } else {
+      // the basic block will be filled later
+      info.pending_bbs.push_back(*self);
       builder.bbs.insert(*self, unsafe { new_uninit_box() });
-      let last_bb = info.cur_bb.replace(*self);
-      let b = info.cur_func.unwrap().dfg().bb(*self).build(builder, info);
-      info.cur_bb = last_bb;
-      let bb = builder.bbs.get_mut(self).unwrap();
-      **bb = b;
-      bb.as_ref()
+      builder.bbs[self].as_ref()
     }
   }
 }
-- 
2.43.0

