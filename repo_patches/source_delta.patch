From 79d5b72f0d3dd49de5d18b3766c50bf90691ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:23 +0000
Subject: [PATCH 01/26] fix: negating the smallest integer raises an integer
 overflow panic

---
 src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2b0cd8a..04ebafd 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -664,7 +664,10 @@ impl Runtime {
 
 		match (op, value) {
 			(Minus, Value::Float(ref f)) => Ok(Flow::Regular((-f).into())),
-			(Minus, Value::Int(i)) => Ok(Flow::Regular((-i).into())),
+			(Minus, Value::Int(i)) => i
+				.checked_neg()
+				.map(|i| Flow::Regular(i.into()))
+				.ok_or_else(|| Panic::integer_overflow(operand_pos)),
 			(Minus, value) => Err(Panic::type_error(value, "int or float", operand_pos)),
 
 			(Not, Value::Bool(b)) => Ok(Flow::Regular((!b).into())),
-- 
2.43.0


From 6eb85b06f4f56d693109b48157dee4f1beb4dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:23 +0000
Subject: [PATCH 02/26] fix: overflowing division raises integer overflow, not
 division by zero

---
 src/runtime/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 04ebafd..04fa2e1 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -797,6 +797,12 @@ impl Runtime {
 			}
 		}
 
+		// Checked division fails on overflow too, not only when the divisor is zero.
+		let division_error = match right {
+			Value::Int(0) => Panic::division_by_zero,
+			_ => Panic::integer_overflow,
+		};
+
 		match op {
 			Plus => arith_operator!(
 				Add::add,
@@ -819,13 +825,13 @@ impl Runtime {
 			Div => arith_operator!(
 				Div::div,
 				checked_div,
-				Panic::division_by_zero(pos.copy()) // TODO: this can be caused by overflow too.
+				division_error(pos.copy())
 			),
 
 			Mod => arith_operator!(
 				Rem::rem,
 				checked_rem,
-				Panic::division_by_zero(pos.copy()) // TODO: this can be caused by overflow too.
+				division_error(pos.copy())
 			),
 
 			_ => unreachable!("operator is not arithmetic"),
-- 
2.43.0


From 8cd49952f0056a19137af271c379247222ae4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:27 +0000
Subject: [PATCH 03/26] fix: drop a program's variables when it panics

---
 src/runtime/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 04fa2e1..ce9e85a 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -103,14 +103,16 @@ impl Runtime {
 		self.stack.store(mem::SlotIx(0), self.std.copy());
 
 		// Execute the program.
-		let value = match self.eval_block(&program.statements)? {
+		let flow = self.eval_block(&program.statements);
+
+		// Drop global variables, even if the program panicked.
+		self.stack.shrink(slots);
+
+		let value = match flow? {
 			Flow::Regular(value) => value,
 			flow => panic!("invalid flow in root state: {:#?}", flow)
 		};
 
-		// Drop global variables.
-		self.stack.shrink(slots);
-
 		debug_assert_eq!(self.stack.len(), initial_stack_len);
 		debug_assert_eq!(self.arguments.len(), initial_args_len);
 
-- 
2.43.0


From b5bdffa72a82b062bf716f4cfe50080be21b6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:19 +0000
Subject: [PATCH 04/26] fix: std.randint reports the argument that is not an
 int

---
 src/runtime/lib/rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/lib/rand.rs b/src/runtime/lib/rand.rs
index 226b806..6c0f937 100644
--- a/src/runtime/lib/rand.rs
+++ b/src/runtime/lib/rand.rs
@@ -54,7 +54,7 @@ impl NativeFun for RandInt {
 			[ Value::Int(m), Value::Int(n) ] => Ok(Value::Int(
 				RNG.with(|rng| rng.borrow_mut().gen_range(*m..=*n))
 			)),
-			[ other, _ ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
+			[ Value::Int(_), other ] | [ other, _ ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
 			args => Err(Panic::invalid_args(args.len() as u32, 2, context.pos))
 		}
 	}
-- 
2.43.0


From b56bab99109e0fc7761f16244c34ad9e983ba512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:19 +0000
Subject: [PATCH 05/26] fix: std.randint raises a panic for an empty range
 instead of crashing

---
 src/runtime/lib/rand.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/lib/rand.rs b/src/runtime/lib/rand.rs
index 6c0f937..78bdea3 100644
--- a/src/runtime/lib/rand.rs
+++ b/src/runtime/lib/rand.rs
@@ -51,6 +51,9 @@ impl NativeFun for RandInt {
 
 	fn call(&self, context: CallContext) -> Result<Value, Panic> {
 		match context.args() {
+			[ Value::Int(m), Value::Int(n) ] if m > n => Err(
+				Panic::value_error(Value::Int(*n), "upper bound not below the lower bound", context.pos)
+			),
 			[ Value::Int(m), Value::Int(n) ] => Ok(Value::Int(
 				RNG.with(|rng| rng.borrow_mut().gen_range(*m..=*n))
 			)),
-- 
2.43.0


From 90d5095206e2bba76d74147ca5bd09ef14a610b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:19 +0000
Subject: [PATCH 06/26] fix: std.substr raises a type error also when several
 arguments are of a wrong type

---
 src/runtime/lib/substr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/lib/substr.rs b/src/runtime/lib/substr.rs
index ea474d6..47b856a 100644
--- a/src/runtime/lib/substr.rs
+++ b/src/runtime/lib/substr.rs
@@ -34,9 +34,9 @@ impl NativeFun for Substr {
                 let result = Self::substr(string.as_ref(), *start, *len);
                 Ok(result.unwrap_or_else(Into::into))
             },
-            [ other, Value::Int(_), Value::Int(_) ] => Err(Panic::type_error(other.copy(), "string", context.pos)),
-            [ Value::String(_), other, Value::Int(_) ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
             [ Value::String(_), Value::Int(_), other ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
+            [ Value::String(_), other, _ ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
+            [ other, _, _ ] => Err(Panic::type_error(other.copy(), "string", context.pos)),
             args => Err(Panic::invalid_args(args.len() as u32, 3, context.pos))
         }
     }
-- 
2.43.0


From 5a24229dd9b208df0c937e97a04b90559868a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:19 +0000
Subject: [PATCH 07/26] fix: std.substr does not overflow on negative or huge
 bounds

---
 src/runtime/lib/substr.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/runtime/lib/substr.rs b/src/runtime/lib/substr.rs
index 47b856a..fa0b297 100644
--- a/src/runtime/lib/substr.rs
+++ b/src/runtime/lib/substr.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use gc::{Finalize, Trace};
 
 use super::{
@@ -17,9 +19,11 @@ struct Substr;
 
 impl Substr {
     fn substr(string: &[u8], start: i64, len: i64) -> Result<Value, Error> {
-        let start = start as usize;
-        let end = start + (len as usize);
-        let substr = string.get(start..end);
+        let bounds = usize::try_from(start)
+            .ok()
+            .zip(usize::try_from(len).ok())
+            .and_then(|(start, len)| Some(start..start.checked_add(len)?));
+        let substr = bounds.and_then(|bounds| string.get(bounds));
         Ok(substr.into())
     }
 }
-- 
2.43.0


From 0293008fbc80d59124a6a07ecef2049907fad874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:36 +0000
Subject: [PATCH 08/26] fix: std.range ends where the next number would
 overflow

---
 src/runtime/lib/range.rs | 51 ++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/runtime/lib/range.rs b/src/runtime/lib/range.rs
index ba229d2..05483c8 100644
--- a/src/runtime/lib/range.rs
+++ b/src/runtime/lib/range.rs
@@ -7,6 +7,7 @@ use super::{
 	keys,
 	CallContext,
 	Dict,
+	Float,
 	RustFun,
 	NativeFun,
 	Panic,
@@ -32,13 +33,13 @@ impl NativeFun for Range {
 				Ok(
 					match numbers {
 						util::Numbers::Ints([ from, to, step ]) => RangeImpl {
-							from: GcCell::new(from),
+							from: GcCell::new(Some(from)),
 							to,
 							step
 						}.into(),
 
 						util::Numbers::Floats([ from, to, step ]) => RangeImpl {
-							from: GcCell::new(from),
+							from: GcCell::new(Some(from)),
 							to,
 							step
 						}.into(),
@@ -52,9 +53,24 @@ impl NativeFun for Range {
 }
 
 
+/// Advance a number, unless that overflows.
+trait Advance: Sized {
+	fn advance(&self, step: &Self) -> Option<Self>;
+}
+
+impl Advance for i64 {
+	fn advance(&self, step: &Self) -> Option<Self> { self.checked_add(*step) }
+}
+
+impl Advance for Float {
+	fn advance(&self, step: &Self) -> Option<Self> { Some(self.copy() + step.copy()) }
+}
+
+
 #[derive(Trace, Finalize)]
 struct RangeImpl<T: 'static> {
-	from: GcCell<T>,
+	/// The next number, if it can be represented at all.
+	from: GcCell<Option<T>>,
 	to: T,
 	step: T,
 }
@@ -62,7 +78,7 @@ struct RangeImpl<T: 'static> {
 impl<T> NativeFun for RangeImpl<T>
 where
 	T: Trace + Finalize + 'static,
-	T: Clone + Default + Ord + std::ops::Add<Output = T>,
+	T: Clone + Default + Ord + Advance,
 	T: Into<Value>,
 {
 	fn name(&self) -> &'static str { "std.range<impl>" }
@@ -76,20 +92,19 @@ where
 		let mut from = self.from.borrow_mut();
 		let mut iteration = HashMap::new();
 
-		let finished =
-			if self.step > T::default() { // Step is positive.
-				*from >= self.to
-			} else { // Step is negative.
-				*from <= self.to
-			};
-
-		let next = if finished {
-			None
-		} else {
-			let value = from.clone();
-			*from = from.clone() + self.step.clone();
-			Some(value)
-		};
+		let next = from
+			.clone()
+			.filter(
+				|from| if self.step > T::default() { // Step is positive.
+					*from < self.to
+				} else { // Step is negative.
+					*from > self.to
+				}
+			);
+
+		if let Some(value) = &next {
+			*from = value.advance(&self.step);
+		}
 
 		keys::FINISHED.with(
 			|finished| iteration.insert(finished.copy(), next.is_none().into())
-- 
2.43.0


From 092a1ee89042f950986a0e8b0206423ddf73cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:53 +0000
Subject: [PATCH 09/26] fix: type errors call the char type by its name

---
 src/runtime/command/mod.rs | 2 +-
 src/runtime/mod.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index f630e89..c947e9c 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -470,6 +470,6 @@ impl Runtime {
 
 		literal
 			.map(Into::into)
-			.ok_or_else(|| Panic::type_error(value, "nil, bool, int, float, byte or string", pos))
+			.ok_or_else(|| Panic::type_error(value, "nil, bool, int, float, char or string", pos))
 	}
 }
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index ce9e85a..fc2ded9 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -872,7 +872,7 @@ impl Runtime {
 				(Value::String(_), right) => Err(Panic::type_error(right, "string", right_pos)),
 
 				// ? + ?
-				(left, _) => Err(Panic::type_error(left, "int, float, byte or string", left_pos)),
+				(left, _) => Err(Panic::type_error(left, "int, float, char or string", left_pos)),
 			}
 		};
 
-- 
2.43.0


From abdb0748d57c8072ba9f8fa9877dd57f47f766de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:16 +0000
Subject: [PATCH 10/26] fix: a circular import raises a panic instead of never
 ending

---
 src/runtime/lib/import.rs | 16 ++++++++++++----
 src/runtime/mod.rs        |  3 ++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 59712de..1dbac49 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -40,11 +40,19 @@ impl Import {
 			)?;
 
 		match context.runtime.modules.get(&path) {
-			Some(module) => Ok(module.copy()), // Don't reload module if cached.
+			Some(Some(module)) => Ok(module.copy()), // Don't reload module if cached.
+			Some(None) => Err(Panic::import_failed(path, context.pos)), // Circular import.
 			None => {
-				let module = Self::load(path, &mut context)?;
-				context.runtime.modules.insert(path, module.copy());
-				Ok(module)
+				context.runtime.modules.insert(path, None);
+
+				let result = Self::load(path, &mut context);
+
+				match &result {
+					Ok(module) => context.runtime.modules.insert(path, Some(module.copy())),
+					Err(_) => context.runtime.modules.remove(&path),
+				};
+
+				result
 			}
 		}
 	}
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index fc2ded9..0b17802 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -45,7 +45,8 @@ pub struct Runtime {
 	arguments: Vec<Value>,
 	std: Value,
 	interner: symbol::Interner,
-	modules: HashMap<Symbol, Value>,
+	/// Imported modules, none for the ones still being evaluated.
+	modules: HashMap<Symbol, Option<Value>>,
 	/// Command line arguments.
 	args: Value,
 }
-- 
2.43.0


From a4b2b0c30017c32340c48568b2ad7366a6575e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:39 +0000
Subject: [PATCH 11/26] fix: keep the statements before a top-level return

---
 src/syntax/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntax/parser/mod.rs b/src/syntax/parser/mod.rs
index 0ee6170..a2967d8 100644
--- a/src/syntax/parser/mod.rs
+++ b/src/syntax/parser/mod.rs
@@ -193,8 +193,13 @@ where
 {
 	/// Parse the input, producing a top-level block.
 	pub fn parse(mut self) -> ast::Block {
+		let mut statements = Vec::new();
+
 		loop {
-			let block = self.parse_block();
+			// A block ends after a return, but the input may not.
+			if let ast::Block::Block(block) = self.parse_block() {
+				statements.extend(block.into_vec());
+			}
 
 			match self.token.take() {
 				// If the token is a block terminator, the parse_block won't parse anything.
@@ -206,7 +211,7 @@ where
 				}
 
 				// Stop on EOF.
-				None => return block,
+				None => return statements.into_boxed_slice().into(),
 
 				token => {
 					self.token = token;
-- 
2.43.0


From fe734110a57e2b421685f816d777cef16476d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:55 +0000
Subject: [PATCH 12/26] fix: check duplicate keys of each dict literal on its
 own

---
 src/semantic/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index b702d78..cf8a83d 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -456,7 +456,8 @@ impl<'a> Analyzer<'a> {
 
 			// Dict.
 			ast::Literal::Dict(items) => {
-				self.dict_keys.clear();
+				// Nested dict literals must not interfere with the keys of this one.
+				let outer_keys = std::mem::take(self.dict_keys);
 
 				let items = self.analyze_items(
 					|analyzer, ((symbol, pos), expr)| {
@@ -477,9 +478,11 @@ impl<'a> Analyzer<'a> {
 						Some((symbol, expr))
 					},
 					items.into_vec(), // Use vec's owned iterator.
-				)?;
+				);
+
+				*self.dict_keys = outer_keys;
 
-				Some(Literal::Dict(items))
+				Some(Literal::Dict(items?))
 			}
 
 			// Function.
-- 
2.43.0


From 4ed3f8d58e6d4588fe9905c53f02472be20f5479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:51 +0000
Subject: [PATCH 13/26] fix: a command that cannot be started must not hide
 other failures

An IO error used to discard the errors collected so far in the block, to
ignore the ? operator, and to leave the remaining commands of the pipeline
unwaited.
---
 src/runtime/command/exec/error.rs |   8 ++
 src/runtime/command/exec/mod.rs   | 173 ++++++++++++++++++------------
 2 files changed, 113 insertions(+), 68 deletions(-)

diff --git a/src/runtime/command/exec/error.rs b/src/runtime/command/exec/error.rs
index 9ae3c34..0f708a5 100644
--- a/src/runtime/command/exec/error.rs
+++ b/src/runtime/command/exec/error.rs
@@ -140,6 +140,14 @@ impl Error {
 	pub fn io(error: io::Error, pos: SourcePos) -> Self {
 		Self::Io { error, pos }
 	}
+
+	/// Status of the command which failed, unless the error is a panic.
+	pub fn into_status(self) -> Result<ErrorStatus, Panic> {
+		match self {
+			Self::Io { error, pos } => Ok(ErrorStatus::io(error, pos)),
+			Self::Panic(panic) => Err(panic),
+		}
+	}
 }
 
 
diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index c31304d..8a0635f 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -32,17 +32,20 @@ pub struct ErrorStatus {
 
 
 impl ErrorStatus {
+	/// Status of a command which can't be executed due to an IO error.
+	fn io(error: io::Error, pos: SourcePos) -> Self {
+		Self {
+			description: error.to_string(),
+			status: IO_ERROR_STATUS,
+			pos,
+		}
+	}
+
 	/// Wait a child process, and return the status.
 	fn wait_child(mut child: Child) -> Option<Self> {
 		let status = match child.process.wait() {
 			Ok(status) => status,
-			Err(error) => return Some(
-				Self {
-					description: error.to_string(),
-					status: IO_ERROR_STATUS,
-					pos: child.pos,
-				}
-			)
+			Err(error) => return Some(Self::io(error, child.pos)),
 		};
 
 		let code = status
@@ -469,7 +472,10 @@ impl Command {
 	) -> Result<CommandExec, Error> {
 		match self {
 			Command::Builtin { program, arguments, abort_on_error, pos } => {
-				let error = program.exec(arguments, pos)?;
+				let error = match program.exec(arguments, pos) {
+					Ok(error) => error,
+					Err(error) => Some(error.into_status()?),
+				};
 				let abort = abort_on_error && error.is_some();
 				Ok(
 					CommandExec {
@@ -480,61 +486,33 @@ impl Command {
 			}
 
 			Command::External { head, tail } => {
-				let mut last_stdout = stdout;
-				let mut last_stderr = stderr;
-
-				let mut tail_children = Vec::new();
-				for cmd in tail.into_vec().into_iter().rev() {
-					let child_abort_on_error = cmd.abort_on_error;
-
-					let (pipe_reader, pipe_writer) = os_pipe::pipe()
-						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
+				let mut children = Vec::new();
 
-					let child = cmd.exec(
-						Stdio {
-							stdin: pipe_reader,
-							stdout: last_stdout,
-							stderr: last_stderr,
-						}
-					)?;
-
-					last_stdout = pipe_writer;
-					last_stderr = os_pipe::dup_stderr()
-						.map_err(|error| Error::io(error, child.pos.copy()))?;
-
-					tail_children.push((child, child_abort_on_error));
-				}
-
-				let head_abort_on_error = head.abort_on_error;
-
-				let stdin = os_pipe::dup_stdin()
-					.map_err(|error| Error::io(error, head.pos.copy()))?;
-
-				let head_child = head.exec(
-					Stdio {
-						stdin,
-						stdout: last_stdout,
-						stderr: last_stderr,
-					}
-				)?;
+				// Even if the pipeline can't be completely started, we must wait for the commands
+				// that have been.
+				let result = Self::spawn_pipeline(head, tail, stdout, stderr, &mut children);
 
 				let mut abort = false;
 				let mut errors = Vec::new();
 
-				// Wait on head command.
-				if let Some(error) = ErrorStatus::wait_child(head_child) {
-					abort |= head_abort_on_error;
-					errors.push(error);
-				}
+				// The commands have been started from last to first.
+				for (child, abort_on_error) in children.into_iter().rev() {
+					let error = match child {
+						Ok(child) => ErrorStatus::wait_child(child),
+						Err(error) => Some(error),
+					};
 
-				// Wait on tail commands.
-				for (child, abort_on_error) in tail_children.into_iter().rev() {
-					if let Some(error) = ErrorStatus::wait_child(child) {
+					if let Some(error) = error {
 						abort |= abort_on_error;
 						errors.push(error);
 					}
 				}
 
+				if let Err(error) = result {
+					abort = true;
+					errors.push(error.into_status()?);
+				}
+
 				Ok(
 					CommandExec {
 						errors: errors.into(),
@@ -545,6 +523,66 @@ impl Command {
 		}
 	}
 
+	/// Start the commands of a pipeline, from last to first. Commands which can't be started
+	/// are included as errors.
+	fn spawn_pipeline(
+		head: BasicCommand,
+		tail: Box<[BasicCommand]>,
+		stdout: os_pipe::PipeWriter,
+		stderr: os_pipe::PipeWriter,
+		children: &mut Vec<(Result<Child, ErrorStatus>, bool)>,
+	) -> Result<(), Error> {
+		let mut last_stdout = stdout;
+		let mut last_stderr = stderr;
+
+		for cmd in tail.into_vec().into_iter().rev() {
+			let child_abort_on_error = cmd.abort_on_error;
+			let pos = cmd.pos.copy();
+
+			let (pipe_reader, pipe_writer) = os_pipe::pipe()
+				.map_err(|error| Error::io(error, pos.copy()))?;
+
+			let child = cmd.exec(
+				Stdio {
+					stdin: pipe_reader,
+					stdout: last_stdout,
+					stderr: last_stderr,
+				}
+			);
+
+			children.push((Self::check_started(child)?, child_abort_on_error));
+
+			last_stdout = pipe_writer;
+			last_stderr = os_pipe::dup_stderr()
+				.map_err(|error| Error::io(error, pos))?;
+		}
+
+		let head_abort_on_error = head.abort_on_error;
+
+		let stdin = os_pipe::dup_stdin()
+			.map_err(|error| Error::io(error, head.pos.copy()))?;
+
+		let head_child = head.exec(
+			Stdio {
+				stdin,
+				stdout: last_stdout,
+				stderr: last_stderr,
+			}
+		);
+
+		children.push((Self::check_started(head_child)?, head_abort_on_error));
+
+		Ok(())
+	}
+
+	/// Turn the failure to start a command into its status.
+	fn check_started(child: Result<Child, Error>) -> Result<Result<Child, ErrorStatus>, Panic> {
+		match child {
+			Ok(child) => Ok(Ok(child)),
+			Err(error) => error.into_status().map(Err),
+		}
+	}
+
 	pub fn pos(&self) -> SourcePos {
 		match self {
 			Command::Builtin { pos, .. } => pos.copy(),
@@ -568,29 +606,28 @@ impl Block {
 		F: FnMut() -> io::Result<os_pipe::PipeWriter>,
 		G: FnMut() -> io::Result<os_pipe::PipeWriter>,
 	{
-		match self._exec(stdout, stderr) {
-			Ok(status) => Ok(status),
-			Err(Error::Panic(panic)) => Err(panic),
-			Err(Error::Io { error, pos }) => {
-				let error = ErrorStatus {
-					description: error.to_string(),
-					status: IO_ERROR_STATUS,
-					pos,
-				};
+		let mut errors = Vec::new();
 
-				Ok(Box::new([PipelineErrors::from(error)]))
-			},
+		if let Err(error) = self._exec(stdout, stderr, &mut errors) {
+			errors.push(PipelineErrors::from(error.into_status()?));
 		}
+
+		Ok(errors.into())
 	}
 
 
-	fn _exec<F, G>(self, mut stdout: F, mut stderr: G,) -> Result<Box<[PipelineErrors]>, Error>
+	/// Errors which have been found are kept in the given vector, even if the execution can't
+	/// proceed.
+	fn _exec<F, G>(
+		self,
+		mut stdout: F,
+		mut stderr: G,
+		errors: &mut Vec<PipelineErrors>,
+	) -> Result<(), Error>
 	where
 		F: FnMut() -> io::Result<os_pipe::PipeWriter>,
 		G: FnMut() -> io::Result<os_pipe::PipeWriter>,
 	{
-		let mut errors = Vec::new();
-
 		let pos = self.head.pos();
 		let head = self.head.exec(
 			stdout()
@@ -604,7 +641,7 @@ impl Block {
 		}
 
 		if head.abort {
-			return Ok(errors.into())
+			return Ok(())
 		}
 
 		for command in self.tail.into_vec() { // Use vec's owned iterator.
@@ -625,6 +662,6 @@ impl Block {
 			}
 		}
 
-		Ok(errors.into())
+		Ok(())
 	}
 }
-- 
2.43.0


From 4e5bacfd9834571ad5ca25d4edc09a0988e7c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:51 +0000
Subject: [PATCH 14/26] fix: the status of a command killed by a signal is 128
 plus the signal

---
 src/runtime/command/exec/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 8a0635f..eb593fd 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -19,7 +19,7 @@ pub use error::{Panic, Error, PipelineErrors, IntoValue};
 /// Status to be produced when an IO error occurs
 const IO_ERROR_STATUS: i32 = 0x7F;
 /// Offset of a signal status, according to Bash and Dash.
-const SIGNAL_STATUS_OFFSET: i32 = 0xFF;
+const SIGNAL_STATUS_OFFSET: i32 = 0x80;
 
 
 /// Execution status of a single command.
-- 
2.43.0


From 438aae8ecd1df9f8023168e7d15aff79fcdc50c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:12 +0000
Subject: [PATCH 15/26] fix: literal input larger than the pipe capacity must
 not deadlock

---
 src/runtime/command/exec/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index eb593fd..d25b43b 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -8,6 +8,7 @@ use std::{
 	io::{self, Write},
 	os::unix::{prelude::{FromRawFd, OsStrExt, ExitStatusExt, IntoRawFd}, process::CommandExt},
 	process,
+	thread,
 };
 
 use crate::io::FileDescriptor;
@@ -350,11 +351,12 @@ impl BasicCommand {
 							let (reader, mut writer) = os_pipe::pipe()
 								.map_err(|error| Error::io(error, pos.copy()))?;
 
-							writer.write_all(source.as_bytes())
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							let mut input = source.as_bytes().to_owned();
+							input.push(b'\n');
 
-							writer.write_all(b"\n")
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							// The input may exceed the capacity of the pipe, so it must be written while
+							// the command reads it. The command may as well exit without reading it all.
+							thread::spawn(move || writer.write_all(&input));
 
 							reader
 						} else {
-- 
2.43.0


From 792528ab7b21076c123d8ca50aaf4d5a84c3ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:18 +0000
Subject: [PATCH 16/26] fix: capture the standard error of every command of a
 pipeline

---
 src/runtime/command/exec/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index d25b43b..e93a526 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -535,7 +535,8 @@ impl Command {
 		children: &mut Vec<(Result<Child, ErrorStatus>, bool)>,
 	) -> Result<(), Error> {
 		let mut last_stdout = stdout;
-		let mut last_stderr = stderr;
+		let mut last_stderr = stderr.try_clone()
+			.map_err(|error| Error::io(error, head.pos.copy()))?;
 
 		for cmd in tail.into_vec().into_iter().rev() {
 			let child_abort_on_error = cmd.abort_on_error;
@@ -555,7 +556,7 @@ impl Command {
 			children.push((Self::check_started(child)?, child_abort_on_error));
 
 			last_stdout = pipe_writer;
-			last_stderr = os_pipe::dup_stderr()
+			last_stderr = stderr.try_clone()
 				.map_err(|error| Error::io(error, pos))?;
 		}
 
-- 
2.43.0


From 194ba18acce8c3768860a66e3844ff91bf9f15e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:18 +0000
Subject: [PATCH 17/26] fix: count all items of an expansion which should yield
 a single one

---
 src/runtime/command/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index c947e9c..39080dc 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -353,7 +353,7 @@ impl Runtime {
 		if args.is_empty() {
 			Ok(arg)
 		} else {
-			Err(panic(args.len() as u32))
+			Err(panic(args.len() as u32 + 1))
 		}
 	}
 
-- 
2.43.0


From c3eac4e3afefa642a6ed3177e0a25122660332f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:40 +0000
Subject: [PATCH 18/26] fix: equal floats must have equal hashes

---
 src/runtime/value/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/value/float.rs b/src/runtime/value/float.rs
index 604138e..d90d3e9 100644
--- a/src/runtime/value/float.rs
+++ b/src/runtime/value/float.rs
@@ -67,6 +67,8 @@ impl Hash for Float {
 		let float =
 			if self.is_nan() {
 				f64::NAN // Make sure that the hash equals for all NaN values.
+			} else if self.0 == 0.0 {
+				0.0 // Positive and negative zero are equal.
 			} else {
 				self.0
 			};
-- 
2.43.0


From 7da557a17e47915a9bd622c6d8cd6d72780bb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:54 +0000
Subject: [PATCH 19/26] fix: comparing a recursive function with itself must
 not overflow the stack

---
 src/runtime/value/function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/value/function.rs b/src/runtime/value/function.rs
index 166ffcf..93fc69e 100644
--- a/src/runtime/value/function.rs
+++ b/src/runtime/value/function.rs
@@ -111,7 +111,8 @@ impl PartialEq for HushFun {
 		// As the functions are defined in the source code, two functions can't share the same
 		// body.
 		std::ptr::eq(self.body, other.body)
-			&& self.context == other.context
+			// A recursive function is part of its own context.
+			&& (Gc::ptr_eq(&self.context, &other.context) || self.context == other.context)
 	}
 }
 
-- 
2.43.0


From 8b6b29c83063286f0e1ba95bc7d3d4afbe2007b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 20/26] fix: equal dictionaries must have equal hashes and
 order as equal

---
 src/runtime/value/dict.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/runtime/value/dict.rs b/src/runtime/value/dict.rs
index e957bd6..9b706f5 100644
--- a/src/runtime/value/dict.rs
+++ b/src/runtime/value/dict.rs
@@ -1,6 +1,6 @@
 use std::{
 	cmp::Ordering,
-	collections::{HashMap, BTreeMap},
+	collections::{hash_map::DefaultHasher, HashMap, BTreeMap},
 	hash::{Hash, Hasher},
 	ops::Deref,
 };
@@ -104,6 +104,12 @@ impl PartialOrd for Dict {
 /// We need Ord in order to be able to store dicts as keys in other dicts.
 impl Ord for Dict {
 	fn cmp(&self, other: &Self) -> Ordering {
+		// Functions may be different but order as equal, in which case the maps below would
+		// depend on the iteration order.
+		if self == other {
+			return Ordering::Equal;
+		}
+
 		// This is very expensive, but there is no better way to correctly compare.
 		let _self = self.borrow();
 		let _self: BTreeMap<&Value, &Value> = _self.iter().collect();
@@ -121,10 +127,18 @@ impl Ord for Dict {
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for Dict {
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		// This is very expensive, but there is no better way to correctly compare.
-		let _self = self.borrow();
-		let _self: BTreeMap<&Value, &Value> = _self.iter().collect();
-
-		_self.hash(state)
+		// The hash must not depend on the iteration order.
+		let hash = self.borrow()
+			.iter()
+			.map(
+				|entry| {
+					let mut hasher = DefaultHasher::new();
+					entry.hash(&mut hasher);
+					hasher.finish()
+				}
+			)
+			.fold(0, u64::wrapping_add);
+
+		hash.hash(state)
 	}
 }
-- 
2.43.0


From d81529c1ea3b1303794f55f23a8a20cb2973713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:22 +0000
Subject: [PATCH 21/26] fix: native functions with different state must not be
 equal

---
 src/runtime/value/function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/value/function.rs b/src/runtime/value/function.rs
index 93fc69e..a37b22d 100644
--- a/src/runtime/value/function.rs
+++ b/src/runtime/value/function.rs
@@ -242,7 +242,8 @@ impl<T: NativeFun> From<T> for RustFun {
 
 impl PartialEq for RustFun {
 	fn eq(&self, other: &Self) -> bool {
-		self.name() == other.name()
+		// Functions of the same name may hold different state, such as iterators.
+		Gc::ptr_eq(&self.0, &other.0)
 	}
 }
 
-- 
2.43.0


From a6f59beb3cbed31f5a6438fa77e3beaa6dd79ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 22/26] fix: an invalid escape sequence in a command argument
 ends at the escaped character

The state kept treating every following character as escaped, reporting
one invalid escape sequence per character and never leaving the word.
---
 src/syntax/lexer/automata/argument.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/syntax/lexer/automata/argument.rs b/src/syntax/lexer/automata/argument.rs
index 94df876..608d9c5 100644
--- a/src/syntax/lexer/automata/argument.rs
+++ b/src/syntax/lexer/automata/argument.rs
@@ -56,9 +56,10 @@ where
 		match (&self, cursor.peek()) {
 			// Escaped character.
 			(&Self { escaping: Some((offset, pos)), .. }, Some(value)) => {
+				self.escaping = None;
+
 				if let Some(c) = C::validate_escape(value) {
 					self.value.push(c);
-					self.escaping = None;
 					Transition::step(self)
 				} else {
 					// Invalid escape sequence.
-- 
2.43.0


From deb756fa541cbc279c5f1f1d1c4c5dca0eb7c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:40 +0000
Subject: [PATCH 23/26] fix: std.export of an empty name yields an error
 instead of aborting the interpreter

---
 src/runtime/lib/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/lib/env.rs b/src/runtime/lib/env.rs
index ba71061..5c89fd8 100644
--- a/src/runtime/lib/env.rs
+++ b/src/runtime/lib/env.rs
@@ -45,7 +45,7 @@ impl NativeFun for Export {
 		match context.args() {
 			[ k @ Value::String(ref key), v @ Value::String(ref value) ] => {
 				let ret = match () {
-					() if key.contains(b'=') || key.contains(b'\0') => {
+					() if key.is_empty() || key.contains(b'=') || key.contains(b'\0') => {
 						Error::new("invalid export key".into(), k.copy()).into()
 					}
 
-- 
2.43.0


From 924ffc73270878e8352bf1603c2bf84e646ecdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 24/26] fix: the built-in alias yields an error instead of
 aborting the interpreter

---
 src/runtime/command/exec/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index e93a526..59d3aad 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -172,7 +172,9 @@ impl Builtin {
 		let mut args = Self::resolve_args(arguments, pos.copy())?;
 
 		match self {
-			Self::Alias => todo!(),
+			Self::Alias => Err(
+				io_error(io::Error::new(io::ErrorKind::Unsupported, "alias is not supported yet"))
+			),
 
 			Self::Cd => {
 				let dir = args
-- 
2.43.0


From 5be724d31a670601bc4b1121943a1a936b1c4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:14 +0000
Subject: [PATCH 25/26] fix: sorting an array that contains itself aborted the
 interpreter

---
 src/runtime/value/array.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/value/array.rs b/src/runtime/value/array.rs
index 545cd35..0711ae7 100644
--- a/src/runtime/value/array.rs
+++ b/src/runtime/value/array.rs
@@ -108,7 +108,10 @@ impl Array {
 
 	/// Stable sort
 	pub fn sort(&mut self) {
-		self.borrow_mut().sort();
+		// The array must not be borrowed while sorting, as it may contain itself.
+		let mut items = std::mem::take(&mut *self.borrow_mut());
+		items.sort();
+		*self.borrow_mut() = items;
 	}
 }
 
-- 
2.43.0


From 4266ff685b24f11461c7acf9bc6cf4d695dce30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:14 +0000
Subject: [PATCH 26/26] fix: using a dictionary as its own key aborted the
 interpreter

---
 src/runtime/value/dict.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/value/dict.rs b/src/runtime/value/dict.rs
index 9b706f5..57ab13d 100644
--- a/src/runtime/value/dict.rs
+++ b/src/runtime/value/dict.rs
@@ -58,7 +58,10 @@ impl Dict {
 
 	/// Insert a value in the dict.
 	pub fn insert(&self, key: Value, value: Value) {
-		self.borrow_mut().insert(key, value);
+		// The dict must not be borrowed while hashing the key, which may contain the dict itself.
+		let mut dict = std::mem::take(&mut *self.borrow_mut());
+		dict.insert(key, value);
+		*self.borrow_mut() = dict;
 	}
 
 
-- 
2.43.0

