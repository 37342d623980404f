From 56c79b3fbd6b5cdf4ac1daed805ea5e74c9bf47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 01/22] fix: report errors inside values covered by an opaque
 type hint

The value was parsed and the result thrown away, so truncated or invalid
JSON and read errors below a use_type hint went unnoticed.
---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 7ec2375..cd55f79 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -68,7 +68,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 }
                 HintType::OpaqueType(ref t) => {
                     hint.used.set(true);
-                    let _ = self.infer_shape(options, &Hints::new()); // parse and discard the actual value
+                    self.infer_shape(options, &Hints::new())?; // parse and discard the actual value
                     return Ok(Shape::Opaque(t.clone()));
                 }
                 _ => {}
-- 
2.43.0


From 80edff3dd1a7e73819429fd145204e7c0256af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 02/22] fix: do not panic when a map hint meets
 infer_map_threshold

infer_object returns a map, not a struct, for objects above the threshold.
---
 json_typegen_shared/src/inference/jsoninfer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index cd55f79..c1ae798 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -106,9 +106,8 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     val_type: Box::new(inner),
                 })
             }
-            _ => {
-                panic!("Got non-object from infer_object")
-            }
+            // infer_map_threshold has already made it a map
+            shape => Ok(shape),
         }
     }
 
-- 
2.43.0


From 56bdc08d6b39692877b459a8a934d4e71390fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 03/22] fix: return an error for SQL input without a CREATE
 TABLE statement

codegen panicked on it.
---
 json_typegen_shared/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/lib.rs b/json_typegen_shared/src/lib.rs
index 87ee91b..52c6afc 100644
--- a/json_typegen_shared/src/lib.rs
+++ b/json_typegen_shared/src/lib.rs
@@ -112,8 +112,10 @@ pub fn codegen(name: &str, input: &str, mut options: Options) -> Result<String,
     let shape = match options.input_mode {
         options::InputMode::Sql => {
             let shapes = sql::sql_to_shape(input).map_err(JTError::SqlParsingError)?;
-            let (_name, shap) = shapes.get(0).unwrap();
-            shap.clone()
+            let (_name, shap) = shapes.into_iter().next().ok_or_else(|| {
+                JTError::SqlParsingError("No CREATE TABLE statement found".to_string())
+            })?;
+            shap
         }
         options::InputMode::Json => infer_from_sample(&source, &options, &hints)?,
     };
-- 
2.43.0


From 0d9c85e053f437b0f0253e73226506c6a1d27543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 04/22] fix: time out when the server of a remote sample stops
 responding

ureq has no read or write timeout by default, so a server that accepts the
connection and then goes quiet made code generation wait for ever.
---
 json_typegen_shared/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/lib.rs b/json_typegen_shared/src/lib.rs
index 52c6afc..94992cc 100644
--- a/json_typegen_shared/src/lib.rs
+++ b/json_typegen_shared/src/lib.rs
@@ -187,7 +187,11 @@ fn infer_from_sample(
     let parse_result = match *source {
         #[cfg(feature = "remote-samples")]
         SampleSource::Url(url) => {
-            shape_from_json(ureq::get(url).call()?.into_reader(), options, hints)
+            let agent = ureq::AgentBuilder::new()
+                .timeout_read(std::time::Duration::from_secs(60))
+                .timeout_write(std::time::Duration::from_secs(60))
+                .build();
+            shape_from_json(agent.get(url).call()?.into_reader(), options, hints)
         }
 
         #[cfg(all(feature = "local-samples", feature = "progress"))]
-- 
2.43.0


From d1ea8e9c3cac05fb7dd6da4f4f146c5be18c548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 05/22] fix: reject samples nested deeper than 128 levels

Inference recurses for every level, so a deeply nested sample overflowed the
stack and aborted the process (about 2700 arrays in a debug build). Use the
limit serde_json has.
---
 .../src/inference/jsoninfer.rs                | 29 +++++++++++++++----
 .../src/inference/jsoninputerr.rs             |  2 ++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index c1ae798..609da5a 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -26,14 +26,20 @@ pub fn shape_from_json<R: Read>(
         .ok_or(JsonInputErr::NoMatchForUnwrap)
 }
 
+/// The deepest nesting of objects and arrays accepted, to not overflow the stack.
+/// The same limit as in serde_json.
+const MAX_DEPTH: usize = 128;
+
 struct Inference<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> {
     tokens: Peekable<T>,
+    depth: usize,
 }
 
 impl<R: Read> Inference<JsonLexer<R>> {
     fn new(source: R) -> Self {
         Inference {
             tokens: JsonLexer::new(source).peekable(),
+            depth: 0,
         }
     }
 }
@@ -55,13 +61,26 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
         }
     }
 
+    fn nested<R>(
+        &mut self,
+        f: impl FnOnce(&mut Self) -> Result<R, JsonInputErr>,
+    ) -> Result<R, JsonInputErr> {
+        if self.depth >= MAX_DEPTH {
+            return Err(JsonInputErr::NestedTooDeeply);
+        }
+        self.depth += 1;
+        let result = f(self);
+        self.depth -= 1;
+        result
+    }
+
     fn infer_shape(&mut self, options: &Options, hints: &Hints) -> Result<Shape, JsonInputErr> {
         for hint in hints.applicable.iter() {
             match hint.hint_type {
                 HintType::MapType(_) => {
                     return if let JsonToken::ObjectStart = self.next_token()? {
                         hint.used.set(true);
-                        self.infer_map(options, hints)
+                        self.nested(|s| s.infer_map(options, hints))
                     } else {
                         Err(JsonInputErr::InvalidTargetForHint)
                     };
@@ -86,8 +105,8 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 }
             }
             JsonToken::String(_) => Ok(Shape::StringT),
-            JsonToken::ObjectStart => self.infer_object(options, hints),
-            JsonToken::ArrayStart => self.infer_array(options, hints),
+            JsonToken::ObjectStart => self.nested(|s| s.infer_object(options, hints)),
+            JsonToken::ArrayStart => self.nested(|s| s.infer_array(options, hints)),
             JsonToken::ObjectEnd | JsonToken::ArrayEnd | JsonToken::Comma | JsonToken::Colon => {
                 Err(JsonInputErr::InvalidJson)
             }
@@ -238,7 +257,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     self.expect_token(JsonToken::Colon)?;
 
                     if *first_token == "-" || *first_token == key {
-                        let result = self.unwrap(rest_of_pointer, options, hints)?;
+                        let result = self.nested(|s| s.unwrap(rest_of_pointer, options, hints))?;
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
@@ -268,7 +287,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     if *first_token == "-"
                         || (first_token_is_numeric && *first_token == index.to_string())
                     {
-                        let result = self.unwrap(rest_of_pointer, options, hints)?;
+                        let result = self.nested(|s| s.unwrap(rest_of_pointer, options, hints))?;
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
diff --git a/json_typegen_shared/src/inference/jsoninputerr.rs b/json_typegen_shared/src/inference/jsoninputerr.rs
index 2569f12..394648a 100644
--- a/json_typegen_shared/src/inference/jsoninputerr.rs
+++ b/json_typegen_shared/src/inference/jsoninputerr.rs
@@ -16,4 +16,6 @@ pub enum JsonInputErr {
     NoMatchForUnwrap,
     #[error("Hint is not valid for the matched value")]
     InvalidTargetForHint,
+    #[error("Sample is nested too deeply")]
+    NestedTooDeeply,
 }
-- 
2.43.0


From a7ab6b257e63f4c231478925136153c0ab91ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 06/22] fix: leave the output file alone when code generation
 fails

With -o the file was created or truncated before the result was looked at.
---
 json_typegen_cli/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index c6b2664..6321b8c 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -84,7 +84,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
             options.output_mode = OutputMode::parse(output_mode).ok_or("Invalid output mode")?;
         }
         codegen(name, &input, options)
-    };
+    }?;
 
     if let Some(filename) = matches.value_of("output") {
         let mut file = OpenOptions::new()
@@ -94,9 +94,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
             .truncate(true)
             .open(filename)?;
 
-        file.write_all(code?.as_bytes())?;
+        file.write_all(code.as_bytes())?;
     } else {
-        print!("{}", code?);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From 851fa89e4793f5addc879b9586a74f0ae9629eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 07/22] fix: report a failing standard output as an error
 instead of panicking

print! panics when it cannot write, and leaves buffered output unflushed.
---
 json_typegen_cli/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index 6321b8c..ac7f764 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -96,7 +96,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
 
         file.write_all(code.as_bytes())?;
     } else {
-        print!("{}", code);
+        let mut stdout = io::stdout();
+        stdout.write_all(code.as_bytes())?;
+        stdout.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From 0d2e765552a9c60e4a2e36cc89a650e917f3a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 08/22] fix: exit with status 1, not a panic, when standard
 error cannot be written

eprintln! panics in that case, which made the exit status 101.
---
 json_typegen_cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index ac7f764..ae948d9 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -108,7 +108,8 @@ fn main() {
     let result = main_with_result();
 
     if let Err(e) = result {
-        eprintln!("Error: {}", display_error_with_causes(&*e));
+        // nothing is left to be done if standard error fails too
+        let _ = writeln!(io::stderr(), "Error: {}", display_error_with_causes(&*e));
         std::process::exit(1);
     }
 }
-- 
2.43.0


From 1008f233ff029ac271841682178e6c710bf7ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 09/22] fix: keep the compile error of json_typegen! intact
 when it contains '"#'

Messages quote the remaining macro input, which can end the raw string.
---
 json_typegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen/src/lib.rs b/json_typegen/src/lib.rs
index 9f6306a..b62ff02 100644
--- a/json_typegen/src/lib.rs
+++ b/json_typegen/src/lib.rs
@@ -71,7 +71,7 @@ pub fn json_typegen(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
         Ok(code) => code,
         Err(e) => {
             let message = display_error_with_causes(&e);
-            format!(r##"compile_error!(r#"{}"#);"##, message)
+            format!("compile_error!({:?});", message)
         }
     }
     .parse()
-- 
2.43.0


From d2169b73cefa9b76fb25272843e08956ba931ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 10/22] fix: give the download of a Zod schema the extension
 .ts, not .undefined

---
 json_typegen_web/src/lib/download.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_web/src/lib/download.ts b/json_typegen_web/src/lib/download.ts
index 2f851d8..fdd13cb 100644
--- a/json_typegen_web/src/lib/download.ts
+++ b/json_typegen_web/src/lib/download.ts
@@ -7,6 +7,7 @@ function createFilename(typename: string, output_mode: string): string {
     "kotlin/kotlinx": "kt",
     python: "py",
     json_schema: "json",
+    zod: "ts",
     shape: "json",
   };
   return typename + "." + extensions[output_mode];
-- 
2.43.0


From 9451a57088ad6a134fccd354d9f608f0becc46b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 11/22] fix: keep the page working when browser storage fails
 or holds unexpected values

---
 json_typegen_web/src/lib/localstorage.ts | 28 +++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/json_typegen_web/src/lib/localstorage.ts b/json_typegen_web/src/lib/localstorage.ts
index 99fd342..c73e489 100644
--- a/json_typegen_web/src/lib/localstorage.ts
+++ b/json_typegen_web/src/lib/localstorage.ts
@@ -14,13 +14,35 @@ type StoredParams = {
 };
 
 export function storeParams(params: StoredParams) {
-  localStorage.setItem("json_typegen_params", JSON.stringify(params));
+  try {
+    localStorage.setItem("json_typegen_params", JSON.stringify(params));
+  } catch (e) {
+    console.error(e);
+  }
 }
 
+const stringOrUndefined = (value: unknown) =>
+  typeof value === "string" ? value : undefined;
+
 export function restoreParams(): StoredParams {
   try {
-    let params_json = localStorage.getItem("json_typegen_params");
-    return (params_json && JSON.parse(params_json)) || {};
+    const params_json = localStorage.getItem("json_typegen_params");
+    const params = (params_json && JSON.parse(params_json)) || {};
+    const options = params.options || {};
+    return {
+      typename: stringOrUndefined(params.typename),
+      input: stringOrUndefined(params.input),
+      options: {
+        input_mode: stringOrUndefined(options.input_mode),
+        output_mode: stringOrUndefined(options.output_mode),
+        property_name_format: stringOrUndefined(options.property_name_format),
+        unwrap: stringOrUndefined(options.unwrap),
+        import_style: stringOrUndefined(options.import_style),
+        collect_additional: options.collect_additional === true,
+        infer_map_threshold: stringOrUndefined(options.infer_map_threshold),
+      },
+      extraoptions: stringOrUndefined(params.extraoptions),
+    };
   } catch (e) {
     console.error(e);
   }
-- 
2.43.0


From 3e617655a4361b49df3f68116ddf228d872080ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 12/22] fix: restore an empty type name after a reload

---
 json_typegen_web/src/App.svelte | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index d19b1dd..f2bf05c 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -47,7 +47,7 @@
     let output = "";
     let inputMode = storedParams.options?.input_mode || "json";
     let outputMode = storedParams.options?.output_mode || "kotlin/jackson";
-    let typeName = storedParams.typename || "MyRoot";
+    let typeName = storedParams.typename ?? "MyRoot";
     let propertyNameFormat = storedParams.options?.property_name_format || "";
     let importStyle = storedParams.options?.import_style || "assume_existing";
     let unwrapPath = storedParams.options?.unwrap || "";
-- 
2.43.0


From 5af420e4a7cca942cd696bb1b9049420c1af9037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 13/22] fix: answer the page when code generation throws in the
 worker

---
 json_typegen_web/src/lib/worker.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index 38c20ff..034140c 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -17,11 +17,14 @@ onmessage = (messageEvent) => {
 
   if (message.type === WorkerMessage.CODEGEN) {
     const input = largeFileInput || message.input;
-    const result = run(
-      message.typename,
-      input,
-      JSON.stringify(message.options),
-    );
+    let result: string;
+    try {
+      result = run(message.typename, input, JSON.stringify(message.options));
+    } catch (e) {
+      // The page waits for a reply before it sends anything else
+      console.error(e);
+      result = `Error: ${e}`;
+    }
     postMsg({
       type: WorkerMessage.CODEGEN_COMPLETE,
       result,
-- 
2.43.0


From f93e2518640fda5704b49dd548a636f0f11384b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:30 +0000
Subject: [PATCH 14/22] fix: do not take a loaded file for a sign that the
 worker is free

---
 json_typegen_web/src/App.svelte | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index f2bf05c..d1ad62a 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -33,12 +33,17 @@
     let isLoading = false;
 
     function requestCodegen(message: WorkerMessageType) {
-        if (workerReady) {
-            worker.postMessage(message);
+        queued = message;
+        sendQueued();
+    }
+
+    function sendQueued() {
+        // While a large file is being read, the worker has no input to use yet
+        if (queued && workerReady && !isLoadingLargeFile) {
+            worker.postMessage(queued);
+            queued = undefined;
             workerReady = false;
             isLoading = true;
-        } else {
-            queued = message;
         }
     }
 
@@ -81,23 +86,18 @@
                 message.options["output_mode"] as string,
             );
             isLoading = false;
+            workerReady = true;
         } else if (message.type === WorkerMessage.LOAD_FILE_COMPLETE) {
             isLoadingLargeFile = false;
             render();
         } else if (message.type === WorkerMessage.WASM_READY) {
-            // no action needed
             console.log("Worker ready");
+            workerReady = true;
         } else {
             console.warn("Unknown worker message ", messageEvent);
         }
 
-        // If we got a message (any message) from the worker, it is ready
-        // (we don't have any kind of queue at the worker side)
-        workerReady = true;
-        if (queued) {
-            requestCodegen(queued);
-            queued = undefined;
-        }
+        sendQueued();
     };
 
     const render = () => {
@@ -172,7 +172,6 @@
                 type: WorkerMessage.LOAD_FILE,
                 file,
             });
-            workerReady = false;
         } else {
             readFileAsString(file).then((contents: string) => {
                 input = contents;
-- 
2.43.0


From 688819e9be05ec1975c55b0611ab14799db6a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:30 +0000
Subject: [PATCH 15/22] fix: never use the contents of a cleared, superseded or
 unreadable file

---
 json_typegen_web/src/App.svelte           | 51 ++++++++++++++++++-----
 json_typegen_web/src/lib/WorkerMessage.ts |  6 ++-
 json_typegen_web/src/lib/worker.ts        | 32 ++++++++++----
 3 files changed, 70 insertions(+), 19 deletions(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index d1ad62a..f89bc04 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -88,8 +88,15 @@
             isLoading = false;
             workerReady = true;
         } else if (message.type === WorkerMessage.LOAD_FILE_COMPLETE) {
-            isLoadingLargeFile = false;
-            render();
+            if (message.id === fileId) {
+                isLoadingLargeFile = false;
+                render();
+            }
+        } else if (message.type === WorkerMessage.LOAD_FILE_FAILED) {
+            if (message.id === fileId) {
+                filename = "";
+                clearLargeFile();
+            }
         } else if (message.type === WorkerMessage.WASM_READY) {
             console.log("Worker ready");
             workerReady = true;
@@ -157,11 +164,14 @@
     };
 
     let filename = "";
+    // Identifies the latest file, so that the outcome of reading an earlier one can be ignored
+    let fileId = 0;
     const loadFile = (event: Event) => {
         const file = (event.target as HTMLInputElement).files?.[0];
         if (!file) {
             return;
         }
+        const id = ++fileId;
         filename = file.name;
         if (file.size > 500_000) {
             input = "";
@@ -171,21 +181,42 @@
             worker.postMessage({
                 type: WorkerMessage.LOAD_FILE,
                 file,
+                id,
             });
         } else {
-            readFileAsString(file).then((contents: string) => {
-                input = contents;
-            });
+            clearLargeFile();
+            readFileAsString(file).then(
+                (contents: string) => {
+                    if (id === fileId) {
+                        input = contents;
+                    }
+                },
+                (error) => {
+                    console.error(error);
+                    if (id === fileId) {
+                        filename = "";
+                    }
+                },
+            );
         }
     };
 
     const clearFile = () => {
+        fileId++;
+        filename = "";
         input = "";
-        largeFileMessage = null;
-        isLoadingLargeFile = false;
-        worker.postMessage({
-            type: WorkerMessage.CLEAR_FILE,
-        });
+        clearLargeFile();
+    };
+
+    const clearLargeFile = () => {
+        if (largeFileMessage !== null) {
+            largeFileMessage = null;
+            isLoadingLargeFile = false;
+            worker.postMessage({
+                type: WorkerMessage.CLEAR_FILE,
+            });
+            render();
+        }
     };
 
     const formatInput = () => {
diff --git a/json_typegen_web/src/lib/WorkerMessage.ts b/json_typegen_web/src/lib/WorkerMessage.ts
index 3222ad0..e74e9bc 100644
--- a/json_typegen_web/src/lib/WorkerMessage.ts
+++ b/json_typegen_web/src/lib/WorkerMessage.ts
@@ -4,6 +4,7 @@ export enum WorkerMessage {
   CODEGEN_COMPLETE = "CODEGEN_COMPLETE",
   LOAD_FILE = "LOAD_FILE",
   LOAD_FILE_COMPLETE = "LOAD_FILE_COMPLETE",
+  LOAD_FILE_FAILED = "LOAD_FILE_FAILED",
   CLEAR_FILE = "CLEAR_FILE",
 }
 
@@ -21,6 +22,7 @@ export type WorkerMessageType =
       typename: string;
       options: Record<string, unknown>;
     }
-  | { type: WorkerMessage.LOAD_FILE; file: File }
-  | { type: WorkerMessage.LOAD_FILE_COMPLETE }
+  | { type: WorkerMessage.LOAD_FILE; file: File; id: number }
+  | { type: WorkerMessage.LOAD_FILE_COMPLETE; id: number }
+  | { type: WorkerMessage.LOAD_FILE_FAILED; id: number }
   | { type: WorkerMessage.CLEAR_FILE };
diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index 034140c..a0efe27 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -4,6 +4,8 @@ import init, { run } from "json_typegen_wasm";
 import { readFileAsString } from "./file";
 
 let largeFileInput: string | undefined;
+// The file to use as input. Reads of any other file are outdated
+let currentFileId: number | undefined;
 const postMsg: (data: WorkerMessageType) => void = postMessage;
 
 init().then(() => {
@@ -16,7 +18,7 @@ onmessage = (messageEvent) => {
   const message: WorkerMessageType = messageEvent.data;
 
   if (message.type === WorkerMessage.CODEGEN) {
-    const input = largeFileInput || message.input;
+    const input = largeFileInput ?? message.input;
     let result: string;
     try {
       result = run(message.typename, input, JSON.stringify(message.options));
@@ -32,13 +34,29 @@ onmessage = (messageEvent) => {
       options: message.options,
     });
   } else if (message.type === WorkerMessage.LOAD_FILE) {
-    readFileAsString(message.file).then((fileContent) => {
-      largeFileInput = fileContent;
-      postMsg({
-        type: WorkerMessage.LOAD_FILE_COMPLETE,
-      });
-    });
+    const id = message.id;
+    currentFileId = id;
+    largeFileInput = undefined;
+    readFileAsString(message.file).then(
+      (fileContent) => {
+        if (id === currentFileId) {
+          largeFileInput = fileContent;
+          postMsg({
+            type: WorkerMessage.LOAD_FILE_COMPLETE,
+            id,
+          });
+        }
+      },
+      (error) => {
+        console.error(error);
+        postMsg({
+          type: WorkerMessage.LOAD_FILE_FAILED,
+          id,
+        });
+      },
+    );
   } else if (message.type === WorkerMessage.CLEAR_FILE) {
+    currentFileId = undefined;
     largeFileInput = undefined;
   } else {
     console.warn("Unknown message to worker", messageEvent);
-- 
2.43.0


From 2e92def3d1fca4c2fb0f95bce47eb8a37bc28e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 16/22] fix: accept the escapes of JSON strings in options
 given as JSON

---
 json_typegen_shared/src/inference.rs |  2 ++
 json_typegen_shared/src/parse.rs     | 34 +++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference.rs b/json_typegen_shared/src/inference.rs
index aec8282..911dbf0 100644
--- a/json_typegen_shared/src/inference.rs
+++ b/json_typegen_shared/src/inference.rs
@@ -4,3 +4,5 @@ mod jsonlex;
 
 pub use jsoninfer::shape_from_json;
 pub use jsoninputerr::JsonInputErr;
+#[cfg(feature = "option-parsing")]
+pub(crate) use jsonlex::{JsonLexer, JsonToken};
diff --git a/json_typegen_shared/src/parse.rs b/json_typegen_shared/src/parse.rs
index c7ac428..da99a7e 100644
--- a/json_typegen_shared/src/parse.rs
+++ b/json_typegen_shared/src/parse.rs
@@ -7,6 +7,7 @@ use syn::parse::{boolean, ident, string};
 use synom::{IResult, alt, call, named, punct};
 
 use crate::hints::Hint;
+use crate::inference::{JsonLexer, JsonToken};
 use crate::options::{ImportStyle, InputMode, Options, OutputMode, StringTransform};
 
 #[derive(PartialEq, Debug)]
@@ -30,10 +31,37 @@ named!(string_or_ident -> String,
     alt!(
         ident => { |ident: syn::Ident| ident.to_string() }
         |
+        string_literal
+    )
+);
+
+named!(string_literal -> String,
+    alt!(
         string => { |lit: syn::StrLit| lit.value }
+        |
+        json_string
     )
 );
 
+/// JSON has escapes that string literals in Rust don't have. E.g. `"\u001f"`
+fn json_string(input: &str) -> IResult<&str, String> {
+    let input = input.trim_start();
+    let mut escaped = false;
+    let closing_quote = input.char_indices().skip(1).find(|&(_, c)| {
+        let is_closing_quote = c == '"' && !escaped;
+        escaped = c == '\\' && !escaped;
+        is_closing_quote
+    });
+
+    if let Some((index, _)) = closing_quote {
+        let (literal, rem) = input.split_at(index + 1);
+        if let Some(Ok(JsonToken::String(value))) = JsonLexer::new(literal.as_bytes()).next() {
+            return IResult::Done(rem, value);
+        }
+    }
+    IResult::Error
+}
+
 named!(comma_or_closing_brace -> &str,
     alt!(punct!(",") | punct!("}"))
 );
@@ -195,9 +223,9 @@ fn string_option<'a, F: FnMut(String)>(
 ) -> Result<&'a str, String> {
     let input = skip_colon(input)?;
 
-    match string(input) {
-        IResult::Done(rem, lit) => {
-            consumer(lit.value);
+    match string_literal(input) {
+        IResult::Done(rem, value) => {
+            consumer(value);
             Ok(rem)
         }
         IResult::Error => fail!(
-- 
2.43.0


From 8e4acd18b26446c41ceb4d9daceb50a0bbc13bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 17/22] fix: say so when the code generator cannot be loaded

---
 json_typegen_web/src/App.svelte           |  3 +++
 json_typegen_web/src/lib/WorkerMessage.ts |  2 ++
 json_typegen_web/src/lib/worker.ts        | 19 ++++++++++++++-----
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index f89bc04..88def4f 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -100,6 +100,9 @@
         } else if (message.type === WorkerMessage.WASM_READY) {
             console.log("Worker ready");
             workerReady = true;
+        } else if (message.type === WorkerMessage.WASM_FAILED) {
+            output = `Error: The code generator could not be loaded\n  Caused by: ${message.error}`;
+            downloadLink = getDownloadLinkProps(output, typeName, outputMode);
         } else {
             console.warn("Unknown worker message ", messageEvent);
         }
diff --git a/json_typegen_web/src/lib/WorkerMessage.ts b/json_typegen_web/src/lib/WorkerMessage.ts
index e74e9bc..40b844f 100644
--- a/json_typegen_web/src/lib/WorkerMessage.ts
+++ b/json_typegen_web/src/lib/WorkerMessage.ts
@@ -1,5 +1,6 @@
 export enum WorkerMessage {
   WASM_READY = "WASM_READY",
+  WASM_FAILED = "WASM_FAILED",
   CODEGEN = "CODEGEN",
   CODEGEN_COMPLETE = "CODEGEN_COMPLETE",
   LOAD_FILE = "LOAD_FILE",
@@ -10,6 +11,7 @@ export enum WorkerMessage {
 
 export type WorkerMessageType =
   | { type: WorkerMessage.WASM_READY }
+  | { type: WorkerMessage.WASM_FAILED; error: string }
   | {
       type: WorkerMessage.CODEGEN;
       input: string;
diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index a0efe27..6e8d5e0 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -8,11 +8,20 @@ let largeFileInput: string | undefined;
 let currentFileId: number | undefined;
 const postMsg: (data: WorkerMessageType) => void = postMessage;
 
-init().then(() => {
-  postMsg({
-    type: WorkerMessage.WASM_READY,
-  });
-});
+init().then(
+  () => {
+    postMsg({
+      type: WorkerMessage.WASM_READY,
+    });
+  },
+  (error) => {
+    console.error(error);
+    postMsg({
+      type: WorkerMessage.WASM_FAILED,
+      error: `${error}`,
+    });
+  },
+);
 
 onmessage = (messageEvent) => {
   const message: WorkerMessageType = messageEvent.data;
-- 
2.43.0


From 74f9de6098d2838ee53efec0f7492ec6677f08f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:00 +0000
Subject: [PATCH 18/22] fix: let the absence of a value add at most one layer
 to a shape

A field that is missing in one element of a sample and null in others had
another Nullable wrapped around its shape for every further null, so that
the generated type grew with the number of elements (Option<Option<...>>,
number | null | null | null) and a long array overflowed the stack.
---
 json_typegen_shared/src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index e496c11..47c9698 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -125,7 +125,7 @@ impl Shape {
         match self {
             Null => Nullable(Box::new(self)),
             Any | Bottom | Nullable(_) => self,
-            Optional(non_nullable) => Optional(Box::new(Nullable(non_nullable))),
+            Optional(inner) => Optional(Box::new(inner.into_nullable())),
             non_nullable => Nullable(Box::new(non_nullable)),
         }
     }
-- 
2.43.0


From 8e18249efb4a107877e5bc97add0425dd379531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 19/22] fix: show the code if it cannot be highlighted

---
 .../src/components/HighlightedCode.svelte     | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/json_typegen_web/src/components/HighlightedCode.svelte b/json_typegen_web/src/components/HighlightedCode.svelte
index 7bcbea2..f2f7a87 100644
--- a/json_typegen_web/src/components/HighlightedCode.svelte
+++ b/json_typegen_web/src/components/HighlightedCode.svelte
@@ -9,22 +9,35 @@
         langs: ["rust", "typescript", "kotlin", "python", "json"],
     });
 
-    let highlighted = "";
+    // undefined if the highlighter could not be loaded or failed
+    let highlighted: string | undefined = "";
 
     $: {
-        highlighter.then((highlighter) => {
-            highlighted = highlighter.codeToHtml(code, {
-                lang: language,
-                theme: "github-light",
-                colorReplacements: {
-                    "#fff": "rgba(255, 255, 255, 0.8)",
-                },
+        highlighter
+            .then((highlighter) =>
+                highlighter.codeToHtml(code, {
+                    lang: language,
+                    theme: "github-light",
+                    colorReplacements: {
+                        "#fff": "rgba(255, 255, 255, 0.8)",
+                    },
+                }),
+            )
+            .catch((error) => {
+                console.error(error);
+                return undefined;
+            })
+            .then((html) => {
+                highlighted = html;
             });
-        });
     }
 </script>
 
-{@html highlighted}
+{#if highlighted === undefined}
+    <pre><code>{code}</code></pre>
+{:else}
+    {@html highlighted}
+{/if}
 
 <style>
     :global(pre) {
-- 
2.43.0


From 38b84b3b633a856f4387087f0e0dd01ebe3ca838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 20/22] fix: say so when the worker cannot be started

---
 json_typegen_web/src/App.svelte | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index 88def4f..fd147c2 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -29,6 +29,9 @@
         type: "module",
     });
     let workerReady = false;
+    let wasmLoaded = false;
+    // Without a worker, nothing is ever answered
+    let workerFailed = false;
     let queued: WorkerMessageType | undefined = undefined;
     let isLoading = false;
 
@@ -100,9 +103,9 @@
         } else if (message.type === WorkerMessage.WASM_READY) {
             console.log("Worker ready");
             workerReady = true;
+            wasmLoaded = true;
         } else if (message.type === WorkerMessage.WASM_FAILED) {
-            output = `Error: The code generator could not be loaded\n  Caused by: ${message.error}`;
-            downloadLink = getDownloadLinkProps(output, typeName, outputMode);
+            showLoadError(message.error);
         } else {
             console.warn("Unknown worker message ", messageEvent);
         }
@@ -110,6 +113,19 @@
         sendQueued();
     };
 
+    worker.onerror = (event) => {
+        if (!wasmLoaded) {
+            workerFailed = true;
+            isLoadingLargeFile = false;
+            showLoadError(event.message || "The worker could not be started");
+        }
+    };
+
+    const showLoadError = (error?: string) => {
+        output = `Error: The code generator could not be loaded\n  Caused by: ${error}`;
+        downloadLink = getDownloadLinkProps(output, typeName, outputMode);
+    };
+
     const render = () => {
         const options = {
             output_mode: outputMode,
@@ -178,7 +194,7 @@
         filename = file.name;
         if (file.size > 500_000) {
             input = "";
-            isLoadingLargeFile = true;
+            isLoadingLargeFile = !workerFailed;
             const fileSizeMb = (file.size / 1_000_000).toFixed(2);
             largeFileMessage = `"${file.name}" (${fileSizeMb} MB)`;
             worker.postMessage({
-- 
2.43.0


From 409526016126db60ade4e2474e1734d1effe6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 21/22] fix: do not take a file named json_typegen* for a macro

---
 json_typegen_cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index ae948d9..18b9e95 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -72,7 +72,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
         source.to_string()
     };
 
-    let code = if input.trim().starts_with("json_typegen") {
+    let code = if input.trim().starts_with("json_typegen!") {
         codegen_from_macro(&input)
     } else {
         let name = matches.value_of("name").unwrap_or("Root");
-- 
2.43.0


From 56c582ef8471ddb1a8c9a4a78a409fe69d9e7466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 22/22] fix: report arguments that are not UTF-8 instead of
 panicking

---
 json_typegen_cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index 18b9e95..5b32e2e 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -1,4 +1,4 @@
-use clap::{App, Arg};
+use clap::{App, AppSettings, Arg};
 use json_typegen_shared::internal_util::display_error_with_causes;
 use json_typegen_shared::{Options, OutputMode, codegen, codegen_from_macro, parse};
 use std::fs::OpenOptions;
@@ -6,6 +6,7 @@ use std::io::{self, Read, Write};
 
 fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
     let matches = App::new("json_typegen CLI")
+        .setting(AppSettings::StrictUtf8)
         .version(env!("CARGO_PKG_VERSION"))
         .about("Generate Rust types from JSON samples")
         .arg(
-- 
2.43.0

