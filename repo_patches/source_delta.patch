From 505cd5ea74e3089146dfe03ccbc66d9203daf5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:24 +0000
Subject: [PATCH 01/15] fix: `try <expr>` copies the value into the result

`ok(x)` and `some(x)` deep clone their argument, but `try x` stored a
reference to the stack inside the result. Returning it from a function or
sending it to another thread left a reference to a variable that is gone.
---
 src/runtime/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index a79786c..87dd9ef 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -713,6 +713,8 @@ impl Runtime {
         let cu = self.current_stack.len();
         match self.expression(&try_expr.expr, Side::Right) {
             Ok((Some(x), Flow::Continue)) => {
+                // The value might be a reference to a variable on the stack.
+                let x = x.deep_clone(&self.stack);
                 Ok((Some(Variable::Result(Ok(Box::new(x)))), Flow::Continue))
             }
             Ok((None, Flow::Continue)) => self.err(try_expr.source_range, "Expected something"),
-- 
2.43.0


From c74d8104b7c56af6cc1aa1083c6bb90eedd4520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:50 +0000
Subject: [PATCH 02/15] fix: loops over an in-type with no messages yield the
 neutral value

`sum`, `prod`, `min`, `max`, `any`, `all` and `sift` over a receiver without
waiting messages returned no value at all, so the expression failed at
run-time depending on whether a message had arrived yet. Return what the
loops over an empty range return.
---
 src/runtime/for_in.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/runtime/for_in.rs b/src/runtime/for_in.rs
index 10e389e..eeb0094 100644
--- a/src/runtime/for_in.rs
+++ b/src/runtime/for_in.rs
@@ -18,11 +18,12 @@ macro_rules! iter(
 );
 
 macro_rules! iter_val(
-    ($iter:ident, $rt:ident, $for_in_expr:ident) => {
+    ($iter:ident, $rt:ident, $for_in_expr:ident, $empty:expr) => {
         match $iter.lock() {
             Ok(x) => match x.try_recv() {
                 Ok(x) => x,
-                Err(_) => return Ok((None, Flow::Continue)),
+                // There is nothing to iterate over.
+                Err(_) => return Ok(($empty, Flow::Continue)),
             },
             Err(err) => {
                 return Err($rt.module.error($for_in_expr.source_range,
@@ -86,7 +87,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, None);
 
         // Initialize counter.
         self.local_stack
@@ -123,7 +124,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(0.0)));
 
         let mut sum = 0.0;
 
@@ -174,7 +175,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(1.0)));
 
         let mut prod = 1.0;
 
@@ -225,7 +226,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(::std::f64::NAN)));
 
         let mut min = ::std::f64::NAN;
         let mut sec = None;
@@ -293,7 +294,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(::std::f64::NAN)));
 
         let mut max = ::std::f64::NAN;
         let mut sec = None;
@@ -361,7 +362,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::bool(false)));
 
         let mut any = false;
         let mut sec = None;
@@ -431,7 +432,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::bool(true)));
 
         let mut all = true;
         let mut sec = None;
@@ -508,7 +509,7 @@ impl Runtime {
             let prev_lc = rt.local_stack.len();
 
             let iter = iter!(rt, for_in_expr);
-            let iter_val = iter_val!(iter, rt, for_in_expr);
+            let iter_val = iter_val!(iter, rt, for_in_expr, None);
 
             // Initialize counter.
             rt.local_stack
@@ -636,7 +637,7 @@ impl Runtime {
         let mut res: Vec<Variable> = vec![];
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::Array(Arc::new(res))));
 
         // Initialize counter.
         self.local_stack
-- 
2.43.0


From ddd972e0d41574897aafbce31ba51191437dbdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:08 +0000
Subject: [PATCH 03/15] fix: report errors of the last write in `save`

`save(data:file:)` dropped the buffered writer without flushing it, so an
error when writing what was left in the buffer was ignored and `save`
returned `ok` for a file that is incomplete.
---
 src/dyon_std/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 6b78d42..5bda04e 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1944,7 +1944,7 @@ pub(crate) fn args_os(_rt: &mut Runtime) -> Result<Variable, String> {
 #[cfg(feature = "file")]
 pub(crate) fn save__data_file(rt: &mut Runtime) -> Result<Variable, String> {
     use std::fs::File;
-    use std::io::BufWriter;
+    use std::io::{BufWriter, Write};
     use write::{write_variable, EscapeString};
 
     let file = rt.stack.pop().expect(TINVOTS);
@@ -1963,7 +1963,8 @@ pub(crate) fn save__data_file(rt: &mut Runtime) -> Result<Variable, String> {
             })
         }
     };
-    let res = match write_variable(&mut f, rt, &data, EscapeString::Json, 0) {
+    // Flush explicitly, since an error is ignored when the buffer is dropped.
+    let res = match write_variable(&mut f, rt, &data, EscapeString::Json, 0).and_then(|()| f.flush()) {
         Ok(()) => Ok(Box::new(Variable::Str(file))),
         Err(err) => Err(Box::new(Error {
             message: Variable::Str(Arc::new(format!(
-- 
2.43.0


From f04933008b180fd86de865418b50a8717e38a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:28 +0000
Subject: [PATCH 04/15] fix: report read errors when loading a module source

A source file that can be opened but not read (an I/O error, a directory or
text that is not UTF-8) made `load` panic instead of returning an error.
---
 src/runtime/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 87dd9ef..ff44985 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -91,7 +91,9 @@ fn file_lookup_module(source: &str, target: &mut String) -> Result<(), String> {
 
         let mut data_file =
             File::open(source).map_err(|err| format!("Could not open `{}`, {}", source, err))?;
-        data_file.read_to_string(target).unwrap();
+        data_file
+            .read_to_string(target)
+            .map_err(|err| format!("Could not open `{}`, {}", source, err))?;
         Ok(())
     } else {
         Err(super::dyon_std::FILE_SUPPORT_DISABLED.into())
-- 
2.43.0


From 1bc25c74bc9f25ec63af64b771f5cc8dfda70e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:28 +0000
Subject: [PATCH 05/15] fix: `read_number` returns an error at end of input

It printed the error message over and over when standard input was closed.
---
 src/dyon_std/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 5bda04e..fb02cdf 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -947,6 +947,8 @@ pub(crate) fn read_number(rt: &mut Runtime) -> Result<Variable, String> {
         input.clear();
         stdout.flush().unwrap();
         match stdin.read_line(&mut input) {
+            // There is no more input, so asking again would never end.
+            Ok(0) => return Err("Expected number, found end of input".into()),
             Ok(_) => {}
             Err(error) => return Err(error.to_string()),
         };
-- 
2.43.0


From 8b30fdd22cb913b92540dddbc70b439b88246b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:49 +0000
Subject: [PATCH 06/15] fix: do not hold the module lock during `call` and
 `call_ret`

A function called through a module object could not call the same module
again (deadlock), two threads could not call the same module at the same
time, and a panic in the called function poisoned the module for good.
---
 src/dyon_std/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index fb02cdf..ee44393 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1431,8 +1431,10 @@ pub(crate) fn _call(rt: &mut Runtime) -> Result<(), String> {
         x => return Err(rt.expected_arg(0, x, "Module")),
     };
 
-    match obj.lock().unwrap().downcast_ref::<Arc<Module>>() {
-        Some(m) => {
+    // Do not hold the lock while calling, since the called function might call the same module.
+    let m = obj.lock().unwrap().downcast_ref::<Arc<Module>>().cloned();
+    match m {
+        Some(ref m) => {
             let f_index = m.find_function(&fn_name, 0);
             match f_index {
                 FnIndex::Loaded(f_index) => {
@@ -1504,8 +1506,10 @@ pub(crate) fn call_ret(rt: &mut Runtime) -> Result<Variable, String> {
         x => return Err(rt.expected_arg(0, x, "Module")),
     };
 
-    let v = match obj.lock().unwrap().downcast_ref::<Arc<Module>>() {
-        Some(m) => {
+    // Do not hold the lock while calling, since the called function might call the same module.
+    let m = obj.lock().unwrap().downcast_ref::<Arc<Module>>().cloned();
+    let v = match m {
+        Some(ref m) => {
             let f_index = m.find_function(&fn_name, 0);
             match f_index {
                 FnIndex::Loaded(f_index) => {
-- 
2.43.0


From 0b1ad9278ca626dd5ab0bc1c35778fb77514db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:58 +0000
Subject: [PATCH 07/15] fix: restore the runtime after a failed call or run

When a call from the host failed, the variables, locals and current objects
of the failed call stayed on the runtime's stacks: later calls could see
current objects that are gone, and `run` kept its call stack as well.
---
 src/runtime/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index ff44985..e62a991 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -910,6 +910,7 @@ impl Runtime {
                     ));
                 }
                 let loader = false;
+                let state = self.state();
                 match self.call_internal(&call, loader) {
                     Ok(_) => {
                         self.module = old_module;
@@ -917,6 +918,7 @@ impl Runtime {
                     }
                     Err(x) => {
                         self.module = old_module;
+                        self.restore(state);
                         Err(x)
                     }
                 }
@@ -1223,14 +1225,36 @@ impl Runtime {
         let old_module = replace(&mut self.module, module.clone());
         // Keep track of the call state,
         // since `call` might be called from an external function.
-        let call_stack_len = self.call_stack.len();
+        let state = self.state();
         let res = self.call_internal(call, true);
         // Restore call state.
-        self.call_stack.truncate(call_stack_len);
+        if res.is_err() {
+            self.restore(state);
+        } else {
+            self.call_stack.truncate(state.0);
+        }
         self.module = old_module;
         res
     }
 
+    // Gets the lengths of the call, value, local and current stack.
+    fn state(&self) -> (usize, usize, usize, usize) {
+        (
+            self.call_stack.len(),
+            self.stack.len(),
+            self.local_stack.len(),
+            self.current_stack.len(),
+        )
+    }
+
+    // Restores the state from before a call that failed.
+    fn restore(&mut self, (cs, st, lc, cu): (usize, usize, usize, usize)) {
+        self.call_stack.truncate(cs);
+        self.stack.truncate(st);
+        self.local_stack.truncate(lc);
+        self.current_stack.truncate(cu);
+    }
+
     fn call_void(
         &mut self,
         args: &[ast::Expression],
-- 
2.43.0


From 83f97dbc5fc71f4a91f573744d11c53230461478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:11 +0000
Subject: [PATCH 08/15] fix: failure to start a thread is an error

`go` panicked when the system could not start a thread, which took down the
thread that called it. It is now an error of the `go` expression that can be
handled with `try`. Loading a source returns an error in the same case.
---
 src/lib.rs         | 13 ++++++++-----
 src/runtime/mod.rs | 10 ++++++++--
 src/threading.rs   |  8 +++++---
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5d84a00..58e8f82 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -621,11 +621,14 @@ pub fn load_str(source: &str, d: Arc<String>, module: &mut Module) -> Result<(),
     where
         T: Send + 'static,
     {
-        fn spawn<F>(func: F) -> Self
+        fn spawn<F>(func: F) -> Result<Self, String>
         where
             F: FnOnce() -> T + Send + 'static,
         {
-            Self(std::thread::spawn(func))
+            std::thread::Builder::new()
+                .spawn(func)
+                .map(Self)
+                .map_err(|err| format!("Could not start thread:\n{}", err))
         }
         fn join(self) -> T {
             self.0.join().unwrap()
@@ -637,8 +640,8 @@ pub fn load_str(source: &str, d: Arc<String>, module: &mut Module) -> Result<(),
 
     #[cfg(any(target_family = "wasm", not(feature = "threading")))]
     impl<T> MaybeThread<T> {
-        fn spawn<F>(func: F) -> Self where F: FnOnce() -> T {
-            Self(func())
+        fn spawn<F>(func: F) -> Result<Self, String> where F: FnOnce() -> T {
+            Ok(Self(func()))
         }
         fn join(self) -> T {
             self.0
@@ -658,7 +661,7 @@ pub fn load_str(source: &str, d: Arc<String>, module: &mut Module) -> Result<(),
     let handle = MaybeThread::spawn(move || {
         let check_data = check_data;
         lifetime::check(&check_data, &prelude)
-    });
+    })?;
 
     // Convert to AST.
     let mut ignored = vec![];
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index e62a991..3eff937 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1019,7 +1019,7 @@ impl Runtime {
             #[cfg(feature = "async")]
             tokio_runtime: self.tokio_runtime.clone(),
         };
-        let handle: JoinHandle<Result<Variable, String>> = spawn!(self.tokio_runtime,
+        let handle: std::io::Result<JoinHandle<Result<Variable, String>>> = spawn!(self.tokio_runtime,
             let mut new_rt = new_rt;
             let fake_call = fake_call;
             let loader = false;
@@ -1030,7 +1030,13 @@ impl Runtime {
             }
             .deep_clone(&new_rt.stack))
         );
-        Ok((Some(Variable::Thread(Thread::new(handle))), Flow::Continue))
+        match handle {
+            Ok(handle) => Ok((Some(Variable::Thread(Thread::new(handle))), Flow::Continue)),
+            Err(err) => self.err(
+                go.source_range,
+                &format!("Could not start thread:\n{}", err),
+            ),
+        }
     }
 
     /// Call closure.
diff --git a/src/threading.rs b/src/threading.rs
index 0d26e05..c1118ae 100644
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -7,11 +7,13 @@ pub use std::thread::JoinHandle;
 pub use tokio::task::JoinHandle;
 
 /// Spawns new thread.
+///
+/// Returns an error if the system can not start a new thread.
 #[cfg(not(feature = "async"))]
 #[macro_export]
 macro_rules! spawn {
     ($rt:expr, $($e:tt)*) => {
-        std::thread::spawn(move || {
+        std::thread::Builder::new().spawn(move || {
             $($e)*
         })
     };
@@ -22,9 +24,9 @@ macro_rules! spawn {
 #[macro_export]
 macro_rules! spawn {
     ($rt:expr, $($e:tt)*) => {
-        $rt.spawn(async move {
+        std::io::Result::Ok($rt.spawn(async move {
             $($e)*
-        })
+        }))
     };
 }
 
-- 
2.43.0


From eabd19cb0c0108c07fc9edc0ad9baa4cb8fcec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:20 +0000
Subject: [PATCH 09/15] fix: lazy invariants leave the stack balanced

When an argument made a loaded function return early, the placeholder for
the return value and the arguments before it stayed on the stack, and the
variables declared after the call were looked up at the wrong place.
---
 src/runtime/mod.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 3eff937..16beed9 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1429,6 +1429,7 @@ impl Runtime {
         lazy_inv: crate::LazyInvariant,
         info: &ast::CallInfo,
     ) -> FlowResult {
+        let base = self.stack.len();
         for (i, arg) in args.iter().enumerate() {
             match self.expression(arg, Side::Right)? {
                 (Some(x), Flow::Continue) => {
@@ -1439,22 +1440,29 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        self.stack.truncate(base);
                                         return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapOk => {
                                     if let Variable::Result(Ok(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapErr => {
                                     if let Variable::Result(Err(x)) = self.get(&x) {
-                                        return Ok((Some(x.message.clone()), Flow::Continue));
+                                        let x = x.message.clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapSome => {
                                     if let Variable::Option(Some(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                             }
@@ -1509,6 +1517,7 @@ impl Runtime {
         let mod_copy = self.module.clone();
         let f = &mod_copy.functions[new_index];
         // Arguments must be computed.
+        let base = self.stack.len();
         if f.returns() {
             // Add return value before arguments on the stack.
             // The stack value should remain, but the local should not.
@@ -1528,22 +1537,29 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        self.stack.truncate(base);
                                         return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapOk => {
                                     if let Variable::Result(Ok(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapErr => {
                                     if let Variable::Result(Err(x)) = self.get(&x) {
-                                        return Ok((Some(x.message.clone()), Flow::Continue));
+                                        let x = x.message.clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapSome => {
                                     if let Variable::Option(Some(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                             }
-- 
2.43.0


From 6138cb8b660b78551f835b731a77710e017a3bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:04 +0000
Subject: [PATCH 10/15] fix: `load_data` reads numbers exactly

---
 src/dyon_std/data.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dyon_std/data.rs b/src/dyon_std/data.rs
index 11f5822..6db0274 100644
--- a/src/dyon_std/data.rs
+++ b/src/dyon_std/data.rs
@@ -45,6 +45,11 @@ static NUMBER_SETTINGS: NumberSettings = NumberSettings {
 
 const SEPS: &str = "(){}[],.:;\n\"\\";
 
+/// Parses a number exactly, such that saved numbers are equal to the original when loaded.
+fn parse_number(read: &ReadToken, range: Range) -> Result<f64, std::num::ParseFloatError> {
+    read.raw_string(range.length).replace('_', "").parse()
+}
+
 fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Variable, String> {
     if let Some(range) = read.tag("{") {
         // Object.
@@ -108,7 +113,7 @@ fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
     }
     // Number.
     if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match parse_number(read, range) {
             Ok(val) => {
                 *read = read.consume(range.length);
                 return Ok(Variable::f64(val));
@@ -266,7 +271,7 @@ fn link(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
 
 fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
     let x = if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match parse_number(read, range) {
             Ok(x) => {
                 *read = read.consume(range.length);
                 x
@@ -278,7 +283,7 @@ fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
     };
     comma(read);
     let y = if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match parse_number(read, range) {
             Ok(y) => {
                 *read = read.consume(range.length);
                 y
@@ -290,12 +295,12 @@ fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
     };
     let (z, w) = if comma(read) {
         if let Some(range) = read.number(&NUMBER_SETTINGS) {
-            match read.parse_number(&NUMBER_SETTINGS, range.length) {
+            match parse_number(read, range) {
                 Ok(z) => {
                     *read = read.consume(range.length);
                     comma(read);
                     if let Some(range) = read.number(&NUMBER_SETTINGS) {
-                        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+                        match parse_number(read, range) {
                             Ok(w) => {
                                 *read = read.consume(range.length);
                                 (z, w)
-- 
2.43.0


From 5bc513aa61412d82080a157a16684bc9916ffd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:04 +0000
Subject: [PATCH 11/15] fix: write empty object keys with quotes

---
 src/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.rs b/src/write.rs
index 16b3c97..d4562dd 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -99,7 +99,7 @@ where
             write!(w, "{{")?;
             let n = obj.len();
             for (i, (k, v)) in obj.iter().enumerate() {
-                if k.chars().all(|c| c.is_alphanumeric() || c == '_') {
+                if !k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_') {
                     write!(w, "{}: ", k)?;
                 } else {
                     json::write_string(w, k)?;
-- 
2.43.0


From 2ff1128fca89ed06dde52266078995e3bcd06602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:09 +0000
Subject: [PATCH 12/15] fix: report the first delayed type error

Which of several delayed errors was reported depended on the iteration
order of a hash map, so loading the same source gave different messages.
---
 src/lifetime/typecheck.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lifetime/typecheck.rs b/src/lifetime/typecheck.rs
index 25ccec8..cc723f4 100644
--- a/src/lifetime/typecheck.rs
+++ b/src/lifetime/typecheck.rs
@@ -651,8 +651,10 @@ pub(crate) fn run(
     }
 
     // Report one delayed error, if any.
-    if !delay_errs.is_empty() {
-        return Err(delay_errs.values().next().unwrap().clone());
+    // Report the error of the first node, such that the message does not depend on
+    // the iteration order of the map.
+    if let Some((_, err)) = delay_errs.into_iter().min_by_key(|&(i, _)| i) {
+        return Err(err);
     }
 
     // After type propagation.
-- 
2.43.0


From 18c88240efc8e445dfc878da809627f4f93bd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:53 +0000
Subject: [PATCH 13/15] fix: lazy invariants do not return references to local
 variables

---
 src/runtime/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 16beed9..e761de5 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1440,6 +1440,8 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        // Do not return a reference to a local variable.
+                                        let x = self.get(&x).clone();
                                         self.stack.truncate(base);
                                         return Ok((Some(x), Flow::Continue));
                                     }
@@ -1537,6 +1539,8 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        // Do not return a reference to a local variable.
+                                        let x = self.get(&x).clone();
                                         self.stack.truncate(base);
                                         return Ok((Some(x), Flow::Continue));
                                     }
-- 
2.43.0


From 69e5e25291d5e82448ca54cd80e5fc23f072bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:59 +0000
Subject: [PATCH 14/15] fix: dropping the overwritten string when pushing to a
 link after neck

---
 src/link.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/link.rs b/src/link.rs
index 9761962..918a07d 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -49,6 +49,10 @@ impl Block {
 
         let i = k / 32;
         let j = k - i * 32;
+        if self.tys[i] >> (j * 2) & 0x3 == STR {
+            // Drop the old `Arc<String>` that gets overwritten.
+            unsafe { drop(transmute::<usize, Arc<String>>(self.data[k] as usize)) }
+        }
         match *var {
             Variable::Bool(val, _) => {
                 // Reset bits.
-- 
2.43.0


From dc8447fe8e1a9b85c7858a12ea9b2da0607f835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:04 +0000
Subject: [PATCH 15/15] fix: `unwrap_or` does not return references to local
 variables

The default value was cloned shallowly, so an array or object that refers to
local variables kept references into the stack after the function returned.

A thread whose function returned such a value panicked and join gave an error.
---
 src/dyon_std/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index ee44393..2f45346 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1703,13 +1703,14 @@ pub(crate) fn unwrap(rt: &mut Runtime) -> Result<Variable, String> {
 
 pub(crate) fn unwrap_or(rt: &mut Runtime) -> Result<Variable, String> {
     // Return value does not depend on lifetime of argument since
-    // `ok(x)` and `some(x)` perform a deep clone.
+    // `ok(x)` and `some(x)` perform a deep clone,
+    // and the default value is deep cloned here.
     let def = rt.stack.pop().expect(TINVOTS);
     let v = rt.stack.pop().expect(TINVOTS);
     Ok(match rt.get(&v) {
         &Variable::Option(Some(ref v)) => (**v).clone(),
         &Variable::Result(Ok(ref ok)) => (**ok).clone(),
-        &Variable::Option(None) | &Variable::Result(Err(_)) => rt.get(&def).clone(),
+        &Variable::Option(None) | &Variable::Result(Err(_)) => def.deep_clone(&rt.stack),
         x => return Err(rt.expected_arg(0, x, "some(_) or ok(_)")),
     })
 }
-- 
2.43.0

