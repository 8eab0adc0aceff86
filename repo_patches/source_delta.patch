From 9353f47edc6dbc752364200384cbe5f33f8d254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 01/40] fix: apply the service failure mode to work that is
 requeued

An action that had to wait (or an action run in reaction to a reply) lost
its failure mode when it was requeued, so a later failure was neither
counted nor denied under failureMode: deny.
---
 .../src/kuadrant/pipeline/tasks/failure_mode.rs       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 4ea6472..661c0ee 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -35,6 +35,17 @@ impl Task for FailureModeTask {
                     abort: self.abort,
                 }),
             },
+            TaskOutcome::Requeued(tasks) => TaskOutcome::Requeued(
+                tasks
+                    .into_iter()
+                    .map(|task| {
+                        Box::new(FailureModeTask {
+                            task,
+                            abort: self.abort,
+                        }) as Box<dyn Task>
+                    })
+                    .collect(),
+            ),
             outcome => outcome,
         }
     }
-- 
2.43.0


From b3574b2bb70e79195c6642c5fb96fa36e696061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 02/40] fix: make stand-alone actions wait for the actions they
 depend on

Only gRPC actions honoured the ordering computed from 'execution'; deny,
headers, store and fail actions ran at once even when they were declared
sequential or followed a sequential action.
---
 .../src/kuadrant/pipeline/blueprint.rs        |  9 ++++--
 .../src/kuadrant/pipeline/tasks/mod.rs        |  2 ++
 .../src/kuadrant/pipeline/tasks/ordered.rs    | 32 +++++++++++++++++++
 3 files changed, 40 insertions(+), 3 deletions(-)
 create mode 100644 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 5347717..0cbad12 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -5,8 +5,8 @@ use crate::configuration::{
 };
 use crate::data::{cel::Predicate, Expression};
 use crate::kuadrant::pipeline::tasks::{
-    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, Task,
-    TeardownAction, TokenUsageTask, TracingDecoratorTask,
+    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, OrderedTask,
+    Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
 };
 use crate::kuadrant::ReqRespCtx;
 use crate::services::ServiceInstance;
@@ -427,7 +427,10 @@ impl Blueprint {
                     }
                 },
                 _ => {
-                    if let Some(task) = action.to_core_task(ctx) {
+                    if let Some(mut task) = action.to_core_task(ctx) {
+                        if !action.dependencies.is_empty() {
+                            task = Box::new(OrderedTask::new(task, action.dependencies.clone()));
+                        }
                         tasks.push(task);
                     }
                 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index 4a73471..c8c5a25 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -3,6 +3,7 @@ mod export_traces;
 mod fail;
 mod failure_mode;
 mod headers;
+mod ordered;
 mod send_reply;
 mod store;
 mod token_usage;
@@ -13,6 +14,7 @@ pub use export_traces::ExportTracesTask;
 pub use fail::FailTask;
 pub use failure_mode::FailureModeTask;
 pub use headers::{HeadersType, ModifyHeadersTask};
+pub use ordered::OrderedTask;
 pub use send_reply::SendReplyTask;
 pub use store::StoreTask;
 pub use token_usage::TokenUsageTask;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs
new file mode 100644
index 0000000..867c1c4
--- /dev/null
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs
@@ -0,0 +1,32 @@
+use crate::kuadrant::pipeline::tasks::{Task, TaskOutcome};
+use crate::kuadrant::ReqRespCtx;
+
+/// Holds back a task until the tasks it depends on have completed.
+pub struct OrderedTask {
+    task: Box<dyn Task>,
+    dependencies: Vec<String>,
+}
+
+impl OrderedTask {
+    pub fn new(task: Box<dyn Task>, dependencies: Vec<String>) -> Self {
+        Self { task, dependencies }
+    }
+}
+
+impl Task for OrderedTask {
+    fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        self.task.apply(ctx)
+    }
+
+    fn id(&self) -> &str {
+        self.task.id()
+    }
+
+    fn dependencies(&self) -> &[String] {
+        &self.dependencies
+    }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
+}
-- 
2.43.0


From fec4b24b3d6301997866b57614604e759f373d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 03/40] fix: release the guard barrier for wrapped actions
 after a termination

FailureModeTask and TracingDecoratorTask hid is_guard() of the task they
wrap, so the no-op left behind by a termination never lowered the barrier
and the local reply stayed held until every other call was answered.
---
 .../src/kuadrant/pipeline/tasks/failure_mode.rs               | 4 ++++
 .../src/kuadrant/pipeline/tasks/tracing_decorator.rs          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 661c0ee..5c2e290 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -57,4 +57,8 @@ impl Task for FailureModeTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
index 1eb6d18..c8273c1 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
@@ -85,4 +85,8 @@ impl Task for TracingDecoratorTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
-- 
2.43.0


From 860568729874c362ef956eff3b3c5effe4f07b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 04/40] fix: do not hold the end of a response when no call is
 outstanding

A pipeline left with tasks that can never run (for instance waiting on a
value nobody stores) paused the last response chunk, and nothing was left
to resume it.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs | 4 ++++
 crates/wasm-shim/src/filter/kuadrant_filter.rs           | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 2a93e63..b376604 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -213,6 +213,10 @@ impl Pipeline {
     pub fn requires_pause(&self) -> bool {
         self.ctx.barrier.is_tripped()
     }
+
+    pub fn has_outstanding_calls(&self) -> bool {
+        !self.deferred_tasks.is_empty()
+    }
 }
 
 #[cfg(test)]
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 0c7d284..b1a5651 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -206,8 +206,12 @@ impl HttpContext for KuadrantFilter {
             trace!("on_http_response_body: pause");
             Action::Pause
         } else {
-            if self.pipeline.is_some() && end_of_stream {
-                trace!("on_http_response_body: pipeline is some, pause");
+            let outstanding_calls = self
+                .pipeline
+                .as_ref()
+                .is_some_and(|p| p.has_outstanding_calls());
+            if outstanding_calls && end_of_stream {
+                trace!("on_http_response_body: calls outstanding, pause");
                 self.force_resume = true;
                 Action::Pause
             } else {
-- 
2.43.0


From e13627c8b7a572e0f30706afc1c0839c8bfc5aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 05/40] fix: let actions run that are ordered after a failed
 stand-alone action

A failed action was never recorded as finished, so every action ordered
after it - a deny-mode guard included - was silently skipped.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index b376604..adaaf44 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -132,6 +132,8 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Task failed: {:?}", task_id);
+                    // it will not run again: whatever waits for it must not be skipped
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
@@ -193,6 +195,7 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Failed to process response for token_id: {}", token_id);
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
-- 
2.43.0


From f7ebdc3bb6ddca7e9cd952eb0558116123bc56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 06/40] fix: do not count a denied request as allowed

The local reply of a denial passes through the response path, where every
request was counted by kuadrant.allowed.
---
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index b1a5651..9a35475 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -13,6 +13,7 @@ pub struct KuadrantFilter {
     pipeline: Option<Pipeline>,
     in_response_phase: bool,
     force_resume: bool,
+    denied: bool,
 }
 
 impl KuadrantFilter {
@@ -23,6 +24,7 @@ impl KuadrantFilter {
             pipeline: None,
             in_response_phase: false,
             force_resume: false,
+            denied: false,
         }
     }
 
@@ -56,6 +58,7 @@ impl Context for KuadrantFilter {
                 }
                 PipelineState::Completed { should_resume } => {
                     self.pipeline = None;
+                    self.denied |= should_resume.not();
                     trace!(
                         "#{} PipelineState::Completed: should_resume={}",
                         self.context_id,
@@ -104,8 +107,9 @@ impl HttpContext for KuadrantFilter {
                     PipelineState::InProgress(p) => {
                         self.pipeline = Some(*p);
                     }
-                    PipelineState::Completed { .. } => {
+                    PipelineState::Completed { should_resume } => {
                         self.pipeline = None;
+                        self.denied |= should_resume.not();
                     }
                 }
                 if self.should_pause() {
@@ -123,6 +127,7 @@ impl HttpContext for KuadrantFilter {
             }
             Err(e) => {
                 error!("#{} failed to build pipeline: {:?}", self.context_id, e);
+                self.denied = true;
                 METRICS.errors().increment();
                 #[allow(clippy::panic)]
                 hostcalls::send_http_response(500, Default::default(), Some(b"Internal Server Error.\n"))
@@ -149,8 +154,9 @@ impl HttpContext for KuadrantFilter {
                 PipelineState::InProgress(p) => {
                     self.pipeline = Some(*p);
                 }
-                PipelineState::Completed { .. } => {
+                PipelineState::Completed { should_resume } => {
                     self.pipeline = None;
+                    self.denied |= should_resume.not();
                 }
             }
         }
@@ -165,15 +171,19 @@ impl HttpContext for KuadrantFilter {
 
     fn on_http_response_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_headers", self.context_id);
-        METRICS.allowed().increment();
+        // a local reply comes through here as well
+        if !self.denied && !self.pipeline.as_ref().is_some_and(|p| p.is_terminated()) {
+            METRICS.allowed().increment();
+        }
         self.in_response_phase = true;
         if let Some(pipeline) = self.pipeline.take() {
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
                     self.pipeline = Some(*p);
                 }
-                PipelineState::Completed { .. } => {
+                PipelineState::Completed { should_resume } => {
                     self.pipeline = None;
+                    self.denied |= should_resume.not();
                 }
             }
         }
@@ -197,8 +207,9 @@ impl HttpContext for KuadrantFilter {
                 PipelineState::InProgress(p) => {
                     self.pipeline = Some(*p);
                 }
-                PipelineState::Completed { .. } => {
+                PipelineState::Completed { should_resume } => {
                     self.pipeline = None;
+                    self.denied |= should_resume.not();
                 }
             }
         }
-- 
2.43.0


From 54d3192dd7c2b9cbebd7cf11fd59d4db69f80312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 07/40] fix: read each byte of a body once, whether or not the
 host buffers it

---
 .../kuadrant-filter/src/kuadrant/context.rs   | 15 +++++++++++++++
 .../src/kuadrant/pipeline/tasks/store.rs      | 15 +++++++--------
 .../pipeline/tasks/store/body_parser.rs       |  1 +
 .../kuadrant/pipeline/tasks/token_usage.rs    |  9 +++++++--
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 19 +++++++++++++++++--
 5 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 2906266..e43652e 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -460,6 +460,8 @@ impl Barrier {
 
 #[derive(Default)]
 pub struct BodyContext {
+    // bytes the host has let through already, which its buffer no longer holds
+    released: usize,
     buffer_size: usize,
     end_of_stream: bool,
     values: HashMap<String, Value>,
@@ -474,6 +476,19 @@ impl BodyContext {
         self.end_of_stream
     }
 
+    /// The bytes buffered so far are no longer held by the host: its next buffer starts after them.
+    pub fn release(&mut self) {
+        self.released += self.buffer_size;
+        self.buffer_size = 0;
+    }
+
+    /// The part of the host's buffer, as (start, size), that follows the first `consumed` bytes of
+    /// the body.
+    pub(crate) fn unread(&self, consumed: usize) -> (usize, usize) {
+        let start = consumed.saturating_sub(self.released);
+        (start, self.buffer_size.saturating_sub(start))
+    }
+
     pub fn set_buffer_size(&mut self, size: usize, end_of_stream: bool) {
         self.buffer_size = size;
         self.end_of_stream = end_of_stream;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 124d50d..e13b8de 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -35,6 +35,7 @@ pub struct StoreTask {
     export_to_host: bool,
     terminal: bool,
     body_parse_state: BodyParseState,
+    body_bytes_read: usize,
     _reservation: PathReservation,
 }
 
@@ -58,6 +59,7 @@ impl StoreTask {
             export_to_host,
             terminal,
             body_parse_state,
+            body_bytes_read: 0,
             _reservation: reservation,
         })
     }
@@ -155,15 +157,11 @@ impl Task for StoreTask {
                 return TaskOutcome::Requeued(vec![self]);
             }
 
-            if body_ctx.buffer_size() > parser.bytes_consumed() {
-                let bytes_to_read = body_ctx.buffer_size() - parser.bytes_consumed();
+            let (start, bytes_to_read) = body_ctx.unread(self.body_bytes_read);
+            if bytes_to_read > 0 {
                 let chunk = match source {
-                    BodySource::Request => {
-                        ctx.get_http_request_body(parser.bytes_consumed(), bytes_to_read)
-                    }
-                    BodySource::Response => {
-                        ctx.get_http_response_body(parser.bytes_consumed(), bytes_to_read)
-                    }
+                    BodySource::Request => ctx.get_http_request_body(start, bytes_to_read),
+                    BodySource::Response => ctx.get_http_response_body(start, bytes_to_read),
                 };
 
                 let chunk_bytes = match chunk {
@@ -181,6 +179,7 @@ impl Task for StoreTask {
                     }
                 };
 
+                self.body_bytes_read += chunk_bytes.len();
                 if let Err(e) = parser.feed(&chunk_bytes) {
                     error!("Failed to parse body for '{}': {e}", self.path);
                     return TaskOutcome::Failed;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
index bf07e54..cb48259 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
@@ -8,6 +8,7 @@ pub(super) trait BodyParser {
     fn finalize(&mut self) -> Result<(), AttributeError>;
     fn remaining_fields(&self) -> Vec<&String>;
     fn populate(&self, body_ctx: &mut BodyContext);
+    #[cfg_attr(not(test), allow(dead_code))]
     fn bytes_consumed(&self) -> usize;
 }
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 35ff962..7f2d294 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -9,6 +9,7 @@ use tracing::{debug, error, warn};
 
 pub struct TokenUsageTask {
     strategy: Option<Box<dyn ExtractionStrategy>>,
+    bytes_consumed: usize,
     expected_response_fields: Vec<String>,
 }
 
@@ -21,6 +22,7 @@ impl TokenUsageTask {
     pub fn with_expected_response_fields(expected_response_fields: Vec<String>) -> Self {
         Self {
             strategy: None,
+            bytes_consumed: 0,
             expected_response_fields,
         }
     }
@@ -30,6 +32,7 @@ impl From<Box<Self>> for TokenUsageTask {
     fn from(value: Box<Self>) -> Self {
         Self {
             strategy: value.strategy,
+            bytes_consumed: value.bytes_consumed,
             expected_response_fields: value.expected_response_fields,
         }
     }
@@ -64,9 +67,11 @@ impl Task for TokenUsageTask {
             }
         };
 
-        if ctx.response_body.buffer_size() > 0 {
-            match ctx.get_http_response_body(0, ctx.response_body.buffer_size()) {
+        let (start, bytes_to_read) = ctx.response_body.unread(task.bytes_consumed);
+        if bytes_to_read > 0 {
+            match ctx.get_http_response_body(start, bytes_to_read) {
                 Ok(AttributeState::Available(Some(bytes))) => {
+                    task.bytes_consumed += bytes.len();
                     strategy.feed_buffer(bytes);
                 }
                 Ok(AttributeState::Available(None)) => {
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 9a35475..a84ff4b 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -14,6 +14,8 @@ pub struct KuadrantFilter {
     in_response_phase: bool,
     force_resume: bool,
     denied: bool,
+    request_body_held: bool,
+    response_body_held: bool,
 }
 
 impl KuadrantFilter {
@@ -25,6 +27,8 @@ impl KuadrantFilter {
             in_response_phase: false,
             force_resume: false,
             denied: false,
+            request_body_held: false,
+            response_body_held: false,
         }
     }
 
@@ -71,9 +75,11 @@ impl Context for KuadrantFilter {
             if should_resume {
                 let result = if self.in_response_phase {
                     trace!("on_grpc_call_response: resume_http_response");
+                    self.response_body_held = false;
                     self.resume_http_response()
                 } else {
                     trace!("on_grpc_call_response: resume_http_request");
+                    self.request_body_held = false;
                     self.resume_http_request()
                 };
 
@@ -146,6 +152,9 @@ impl HttpContext for KuadrantFilter {
     fn on_http_request_body(&mut self, buffer_size: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_request_body", self.context_id);
         if let Some(mut pipeline) = self.pipeline.take() {
+            if !self.request_body_held {
+                pipeline.ctx.request_body.release();
+            }
             pipeline
                 .ctx
                 .request_body
@@ -160,7 +169,8 @@ impl HttpContext for KuadrantFilter {
                 }
             }
         }
-        if self.should_pause() {
+        self.request_body_held = self.should_pause();
+        if self.request_body_held {
             trace!("on_http_request_body: pause");
             Action::Pause
         } else {
@@ -199,6 +209,9 @@ impl HttpContext for KuadrantFilter {
     fn on_http_response_body(&mut self, buffer_size: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_body", self.context_id);
         if let Some(mut pipeline) = self.pipeline.take() {
+            if !self.response_body_held {
+                pipeline.ctx.response_body.release();
+            }
             pipeline
                 .ctx
                 .response_body
@@ -215,13 +228,15 @@ impl HttpContext for KuadrantFilter {
         }
         if self.should_pause() {
             trace!("on_http_response_body: pause");
+            self.response_body_held = true;
             Action::Pause
         } else {
             let outstanding_calls = self
                 .pipeline
                 .as_ref()
                 .is_some_and(|p| p.has_outstanding_calls());
-            if outstanding_calls && end_of_stream {
+            self.response_body_held = outstanding_calls && end_of_stream;
+            if self.response_body_held {
                 trace!("on_http_response_body: calls outstanding, pause");
                 self.force_resume = true;
                 Action::Pause
-- 
2.43.0


From cd0c1e7b823d9773551921e5412d073d71fbbab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 08/40] fix: keep strings of a JSON body strings and decode
 their escapes

---
 .../pipeline/tasks/store/json_body_parser.rs  | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 748a78b..c622695 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -14,6 +14,7 @@ pub(crate) struct JsonBodyParser {
     parser: Option<acutejson::Parser>,
     buffers: Arc<Mutex<HashMap<String, Vec<u8>>>>,
     matched: Arc<Mutex<HashSet<String>>>,
+    strings: Arc<Mutex<HashSet<String>>>,
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
     complete: bool,
@@ -23,6 +24,7 @@ impl JsonBodyParser {
     pub fn new(fields: Vec<String>) -> Result<Self, AttributeError> {
         let buffers: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::new(Mutex::new(HashMap::new()));
         let matched: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
+        let strings: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
         let results: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::clone(&buffers);
 
         let mut builder = acutejson::Builder::new();
@@ -30,16 +32,24 @@ impl JsonBodyParser {
             let field_name = field.clone();
             let field_buffers = Arc::clone(&results);
             let field_matched = Arc::clone(&matched);
+            let field_strings = Arc::clone(&strings);
             field_buffers
                 .lock()
                 .unwrap_or_else(|e| e.into_inner())
                 .insert(field_name.clone(), Vec::new());
 
-            builder = match builder.register(field, move |bytes, _is_complete| {
+            builder = match builder.register(field, move |bytes, is_complete| {
                 field_matched
                     .lock()
                     .unwrap_or_else(|e| e.into_inner())
                     .insert(field_name.clone());
+                // only a string ends without delivering any bytes
+                if is_complete && bytes.is_empty() {
+                    field_strings
+                        .lock()
+                        .unwrap_or_else(|e| e.into_inner())
+                        .insert(field_name.clone());
+                }
                 let mut bufs = field_buffers.lock().unwrap_or_else(|e| e.into_inner());
                 if let Some(buf) = bufs.get_mut(&field_name) {
                     buf.extend_from_slice(bytes);
@@ -62,6 +72,7 @@ impl JsonBodyParser {
             parser: Some(builder.build()),
             buffers,
             matched,
+            strings,
             extracted: HashMap::new(),
             bytes_consumed: 0,
             complete: false,
@@ -71,12 +82,23 @@ impl JsonBodyParser {
     fn finalize_extracted(&mut self) -> Result<(), AttributeError> {
         let buffers = self.buffers.lock().unwrap_or_else(|e| e.into_inner());
         let matched = self.matched.lock().unwrap_or_else(|e| e.into_inner());
+        let strings = self.strings.lock().unwrap_or_else(|e| e.into_inner());
         for (field, raw_bytes) in buffers.iter() {
             if matched.contains(field) {
                 let raw_value = std::str::from_utf8(raw_bytes).map_err(|e| {
                     AttributeError::Parse(format!("Body field '{field}' is not valid UTF-8: {e}"))
                 })?;
-                let value = parse_json_scalar(raw_value);
+                let value = if strings.contains(field) {
+                    let unescaped = serde_json::from_str::<String>(&format!("\"{raw_value}\""))
+                        .map_err(|e| {
+                            AttributeError::Parse(format!(
+                                "Body field '{field}' is not a valid string: {e}"
+                            ))
+                        })?;
+                    Value::String(Arc::new(unescaped))
+                } else {
+                    parse_json_scalar(raw_value)
+                };
                 self.extracted.insert(field.clone(), value);
             }
         }
-- 
2.43.0


From bf2c12cd7f31c0083bc27ccce7e2403722db1715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 09/40] fix: accept characters split across the chunks of an
 event stream

---
 .../pipeline/tasks/store/sse_body_parser.rs   | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 3353b67..e20fca3 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -24,16 +24,25 @@ pub struct Event {
 #[derive(Default)]
 pub struct EventParser {
     buffer: String,
+    // the start of a character whose remaining bytes are yet to come
+    incomplete: Vec<u8>,
     event_builder: EventBuilder,
 }
 
 impl EventParser {
     pub(crate) fn parse(&mut self, chunk_bytes: Vec<u8>) -> Result<Vec<Event>, String> {
-        // taking advantage by the automatic deref coercion.
-        // Because String implements Deref<Target=str>,
-        // the compiler will automatically convert the string reference (i.e. &String) to a string slice - &str
-        self.buffer
-            .push_str(&String::from_utf8(chunk_bytes).map_err(|e| e.to_string())?);
+        let mut bytes = core::mem::take(&mut self.incomplete);
+        bytes.extend_from_slice(&chunk_bytes);
+        let text = match core::str::from_utf8(&bytes) {
+            Ok(text) => text,
+            Err(e) if e.error_len().is_none() => {
+                let (complete, rest) = bytes.split_at(e.valid_up_to());
+                self.incomplete = rest.to_vec();
+                core::str::from_utf8(complete).map_err(|e| e.to_string())?
+            }
+            Err(e) => return Err(e.to_string()),
+        };
+        self.buffer.push_str(text);
 
         let mut events = Vec::default();
 
-- 
2.43.0


From 54104173cd0237880bf0f5a6fbcee96bef256029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 10/40] fix: failureMode of a service defaults to deny as
 documented

---
 crates/kuadrant-filter/src/configuration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/kuadrant-filter/src/configuration.rs b/crates/kuadrant-filter/src/configuration.rs
index 90cff37..78d7c5d 100644
--- a/crates/kuadrant-filter/src/configuration.rs
+++ b/crates/kuadrant-filter/src/configuration.rs
@@ -242,6 +242,7 @@ pub struct Service {
     pub service_type: ServiceType,
     pub endpoint: String,
     // Deny/Allow request when faced with an irrecoverable failure.
+    #[serde(default)]
     pub failure_mode: FailureMode,
     #[serde(default)]
     pub timeout: Timeout,
-- 
2.43.0


From 7e4907521c3acb65b2245be19c7bfb51643be0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 11/40] fix: group a conditional expression that is a predicate
 of conditionalData

---
 crates/kuadrant-filter/src/configuration/legacy_translation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/configuration/legacy_translation.rs b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
index c7e5dbe..6e95e9c 100644
--- a/crates/kuadrant-filter/src/configuration/legacy_translation.rs
+++ b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
@@ -191,7 +191,8 @@ pub(super) mod ratelimit {
         let block_predicates: Vec<String> = conditional_data
             .iter()
             .map(|cd| {
-                if cd.predicates.len() == 1 {
+                // a conditional expression would swallow the blocks that follow it
+                if cd.predicates.len() == 1 && !cd.predicates[0].contains('?') {
                     cd.predicates[0].clone()
                 } else {
                     format!("({})", join_predicates(&cd.predicates, "&&"))
-- 
2.43.0


From a93b2b4d5dba5d2906d2d4282adb446649f21e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 12/40] fix: refuse integers that do not fit a 32-bit protobuf
 field instead of truncating them

---
 .../src/services/dynamic/converters.rs        | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 344bf8f..622237e 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -486,7 +486,13 @@ impl MessageConverter {
                 let value = *i.inner();
                 match key_field.kind() {
                     ProtoKind::Int32 | ProtoKind::Sint32 | ProtoKind::Sfixed32 => {
-                        Ok(MapKey::I32(value as i32))
+                        let value =
+                            i32::try_from(value).map_err(|_| ConversionError::TypeMismatch {
+                                field: key_field.name().to_string(),
+                                expected: "int key within int32 range".to_string(),
+                                got: format!("{}", value),
+                            })?;
+                        Ok(MapKey::I32(value))
                     }
                     ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                         Ok(MapKey::I64(value))
@@ -501,7 +507,15 @@ impl MessageConverter {
             CelMapKey::UInt(u) => {
                 let value = *u.inner();
                 match key_field.kind() {
-                    ProtoKind::Uint32 | ProtoKind::Fixed32 => Ok(MapKey::U32(value as u32)),
+                    ProtoKind::Uint32 | ProtoKind::Fixed32 => {
+                        let value =
+                            u32::try_from(value).map_err(|_| ConversionError::TypeMismatch {
+                                field: key_field.name().to_string(),
+                                expected: "uint key within uint32 range".to_string(),
+                                got: format!("{}", value),
+                            })?;
+                        Ok(MapKey::U32(value))
+                    }
                     ProtoKind::Uint64 | ProtoKind::Fixed64 => Ok(MapKey::U64(value)),
                     _ => Err(ConversionError::TypeMismatch {
                         field: key_field.name().to_string(),
@@ -539,7 +553,13 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::I32(*i.inner() as i32))
+                let value =
+                    i32::try_from(*i.inner()).map_err(|_| ConversionError::TypeMismatch {
+                        field: field_name.to_string(),
+                        expected: "int value within int32 range".to_string(),
+                        got: format!("{}", i.inner()),
+                    })?;
+                Ok(ProtoValue::I32(value))
             }
             ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                 let i = cel_val.downcast_ref::<CelInt>().ok_or_else(|| {
@@ -559,7 +579,13 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::U32(*u.inner() as u32))
+                let value =
+                    u32::try_from(*u.inner()).map_err(|_| ConversionError::TypeMismatch {
+                        field: field_name.to_string(),
+                        expected: "uint value within uint32 range".to_string(),
+                        got: format!("{}", u.inner()),
+                    })?;
+                Ok(ProtoValue::U32(value))
             }
             ProtoKind::Uint64 | ProtoKind::Fixed64 => {
                 let u = cel_val.downcast_ref::<CelUInt>().ok_or_else(|| {
-- 
2.43.0


From 350b107693f601c3e40b6759c8ba6970cfc1b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 13/40] fix: refuse map keys whose type is not the key type of
 the protobuf map

---
 .../src/services/dynamic/converters.rs         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 622237e..be7164c 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -481,7 +481,14 @@ impl MessageConverter {
         use cel::common::types::CelMapKey;
 
         match cel_key {
-            CelMapKey::Bool(b) => Ok(MapKey::Bool(*b.inner())),
+            CelMapKey::Bool(b) => match key_field.kind() {
+                ProtoKind::Bool => Ok(MapKey::Bool(*b.inner())),
+                _ => Err(ConversionError::TypeMismatch {
+                    field: key_field.name().to_string(),
+                    expected: format!("{:?}", key_field.kind()),
+                    got: "bool".to_string(),
+                }),
+            },
             CelMapKey::Int(i) => {
                 let value = *i.inner();
                 match key_field.kind() {
@@ -524,7 +531,14 @@ impl MessageConverter {
                     }),
                 }
             }
-            CelMapKey::String(s) => Ok(MapKey::String(s.inner().to_string())),
+            CelMapKey::String(s) => match key_field.kind() {
+                ProtoKind::String => Ok(MapKey::String(s.inner().to_string())),
+                _ => Err(ConversionError::TypeMismatch {
+                    field: key_field.name().to_string(),
+                    expected: format!("{:?}", key_field.kind()),
+                    got: "string".to_string(),
+                }),
+            },
         }
     }
 
-- 
2.43.0


From f5bee553bf3cd8e874498b8769f7977775867d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 14/40] fix: string functions give positions as integers
 counted in characters

---
 .../kuadrant-filter/src/data/cel/strings.rs   | 45 ++++++++++---------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel/strings.rs b/crates/kuadrant-filter/src/data/cel/strings.rs
index e86416b..af76f36 100644
--- a/crates/kuadrant-filter/src/data/cel/strings.rs
+++ b/crates/kuadrant-filter/src/data/cel/strings.rs
@@ -12,16 +12,21 @@ pub fn char_at(This(this): This<Arc<String>>, arg: i64) -> ResolveResult {
     }
 }
 
+/// The position, counted in characters, of the byte offset `found` in `this`; -1 if there is none.
+fn position(this: &str, found: Option<usize>) -> Value {
+    match found {
+        None => Value::Int(-1),
+        Some(idx) => Value::Int(this[..idx].chars().count() as i64),
+    }
+}
+
 pub fn index_of(
     This(this): This<Arc<String>>,
     arg: Arc<String>,
     Arguments(args): Arguments,
 ) -> ResolveResult {
     match args.len() {
-        1 => match this.find(&*arg) {
-            None => Ok((-1).into()),
-            Some(idx) => Ok((idx as u64).into()),
-        },
+        1 => Ok(position(&this, this.find(&*arg))),
         2 => {
             let base = match args[1] {
                 Value::Int(i) => i as usize,
@@ -36,13 +41,11 @@ pub fn index_of(
                     })
                 }
             };
-            if base >= this.len() {
-                return Ok((-1).into());
-            }
-            match this[base..].find(&*arg) {
-                None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt((base + idx) as u64)),
-            }
+            let found = match this.char_indices().nth(base) {
+                None => None,
+                Some((start, _)) => this[start..].find(&*arg).map(|idx| start + idx),
+            };
+            Ok(position(&this, found))
         }
         _ => Err(ExecutionError::FunctionError {
             function: "String.indexOf".to_owned(),
@@ -57,10 +60,7 @@ pub fn last_index_of(
     Arguments(args): Arguments,
 ) -> ResolveResult {
     match args.len() {
-        1 => match this.rfind(&*arg) {
-            None => Ok((-1).into()),
-            Some(idx) => Ok((idx as u64).into()),
-        },
+        1 => Ok(position(&this, this.rfind(&*arg))),
         2 => {
             let base = match args[1] {
                 Value::Int(i) => i as usize,
@@ -75,13 +75,14 @@ pub fn last_index_of(
                     })
                 }
             };
-            if base >= this.len() {
-                return Ok((-1).into());
-            }
-            match this[base..].rfind(&*arg) {
-                None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt(idx as u64)),
-            }
+            // the last occurrence that starts at `base` or before
+            let found = match this.char_indices().nth(base) {
+                None => None,
+                Some((last, _)) => (0..=last)
+                    .rev()
+                    .find(|idx| this.is_char_boundary(*idx) && this[*idx..].starts_with(&*arg)),
+            };
+            Ok(position(&this, found))
         }
         _ => Err(ExecutionError::FunctionError {
             function: "String.lastIndexOf".to_owned(),
-- 
2.43.0


From 9a5cb46b4cb1d18bd34bedcd1aa7ec87869f89d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 15/40] fix: source.remote_address of an IPv6 client is its
 address

---
 crates/kuadrant-filter/src/kuadrant/context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index e43652e..063c93a 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -237,8 +237,12 @@ impl ReqRespCtx {
         match self.backend.get_attribute(&"source.address".into()) {
             Ok(Some(host_vec)) => match String::from_utf8(host_vec) {
                 Ok(source_address) => {
-                    let split_address = source_address.split(':').collect::<Vec<_>>();
-                    Ok(Some(split_address[0].as_bytes().to_vec()))
+                    // the colons of an IPv6 address are within brackets: `[::1]:80`
+                    let address = match source_address.strip_prefix('[') {
+                        Some(v6) => v6.split(']').next(),
+                        None => source_address.split(':').next(),
+                    };
+                    Ok(Some(address.unwrap_or_default().as_bytes().to_vec()))
                 }
                 Err(_) => Err(AttributeError::Parse(
                     "source.address not valid UTF-8".to_string(),
-- 
2.43.0


From 8b6021ae290ed41c557790acc81c2274ca101d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 16/40] fix: bind the connection attributes in expressions

---
 crates/kuadrant-filter/src/data/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index e5822cc..9c66ec8 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -253,7 +253,7 @@ impl Expression {
 
         for (key, value) in map.iter() {
             if let Key::String(name) = key {
-                if *key != request_key && !is_host_property_root(name) {
+                if *key != request_key {
                     cel_ctx.add_variable_from_value(name.as_str(), value.clone());
                 }
             }
-- 
2.43.0


From 5d1d6b6f2634120815d78723ae0602cb1766646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 17/40] fix: fields selected from other operands are no part of
 an attribute's path

---
 crates/kuadrant-filter/src/data/cel.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 9c66ec8..1e56680 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -838,6 +838,10 @@ fn properties<'e>(
     response_props: &mut Vec<String>,
     path: &mut Vec<&'e str>,
 ) {
+    // fields selected from anything but an attribute do not belong to the attributes within it
+    if !matches!(ided_exp.expr, Expr::Select(_) | Expr::Ident(_)) {
+        path.clear();
+    }
     match &ided_exp.expr {
         Expr::Call(call) => {
             if call.target.is_none()
@@ -857,8 +861,6 @@ fn properties<'e>(
             }
             if let Some(target) = &call.target {
                 properties(target, all, request_props, response_props, path);
-            } else {
-                path.clear();
             }
             for arg in &call.args {
                 properties(arg, all, request_props, response_props, path);
-- 
2.43.0


From d597bf30b40a586e0847b4bf8529cfca77c70854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 18/40] fix: extract body fields from JSON with line breaks in
 skipped containers

---
 .../pipeline/tasks/store/json_body_parser.rs  | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index c622695..75573bf 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -18,6 +18,8 @@ pub(crate) struct JsonBodyParser {
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
     complete: bool,
+    in_string: bool,
+    after_backslash: bool,
 }
 
 impl JsonBodyParser {
@@ -76,9 +78,36 @@ impl JsonBodyParser {
             extracted: HashMap::new(),
             bytes_consumed: 0,
             complete: false,
+            in_string: false,
+            after_backslash: false,
         })
     }
 
+    /// The parser refuses line breaks and tabs within the containers it skips: hand them over as
+    /// spaces.
+    fn flatten_whitespace(&mut self, chunk: &[u8]) -> Vec<u8> {
+        chunk
+            .iter()
+            .map(|&byte| {
+                if self.in_string {
+                    match byte {
+                        _ if self.after_backslash => self.after_backslash = false,
+                        b'\\' => self.after_backslash = true,
+                        b'"' => self.in_string = false,
+                        _ => {}
+                    }
+                    return byte;
+                }
+                match byte {
+                    b'"' => self.in_string = true,
+                    b'\n' | b'\r' | b'\t' => return b' ',
+                    _ => {}
+                }
+                byte
+            })
+            .collect()
+    }
+
     fn finalize_extracted(&mut self) -> Result<(), AttributeError> {
         let buffers = self.buffers.lock().unwrap_or_else(|e| e.into_inner());
         let matched = self.matched.lock().unwrap_or_else(|e| e.into_inner());
@@ -135,12 +164,13 @@ impl BodyParser for JsonBodyParser {
             return Ok(());
         }
 
+        let chunk = self.flatten_whitespace(chunk);
         let parser = match self.parser.as_mut() {
             Some(p) => p,
             None => return Err(AttributeError::Parse("Parser not initialized".to_string())),
         };
 
-        match parser.feed(chunk) {
+        match parser.feed(&chunk) {
             Ok(acutejson::Status::Done) => {
                 self.complete = true;
                 self.finalize_extracted()?;
-- 
2.43.0


From f16aea6c642f1cb9f858a2d6ca94f24dc86a9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 19/40] fix: read both bodies for a store action that uses both

---
 .../src/kuadrant/pipeline/tasks/store.rs      | 195 ++++++++++--------
 1 file changed, 107 insertions(+), 88 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index e13b8de..dd555c3 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -2,6 +2,8 @@ mod body_parser;
 mod json_body_parser;
 pub(super) mod sse_body_parser;
 
+use std::ops::Not;
+
 use body_parser::BodyParser;
 use json_body_parser::JsonBodyParser;
 use sse_body_parser::SseBodyParser;
@@ -22,71 +24,28 @@ enum BodySource {
 }
 
 enum BodyParseState {
-    NotNeeded,
-    Pending(BodySource, Vec<String>),
-    Active(BodySource, Box<dyn BodyParser>),
+    Pending(Vec<String>),
+    Active(Box<dyn BodyParser>),
 }
 
-pub struct StoreTask {
-    task_id: String,
-    predicate: Option<Predicate>,
-    expression: Expression,
-    path: String,
-    export_to_host: bool,
-    terminal: bool,
-    body_parse_state: BodyParseState,
-    body_bytes_read: usize,
-    _reservation: PathReservation,
+struct BodyReader {
+    source: BodySource,
+    state: BodyParseState,
+    bytes_read: usize,
 }
 
-impl StoreTask {
-    pub fn new(
-        ctx: &ReqRespCtx,
-        task_id: String,
-        predicate: Predicate,
-        expression: Expression,
-        path: String,
-        export_to_host: bool,
-        terminal: bool,
-    ) -> Result<Self, AttributeError> {
-        let body_parse_state = Self::initial_body_state(&predicate, &expression);
-        let reservation = ctx.values.reserve(path.clone());
-        Ok(Self {
-            task_id,
-            predicate: Some(predicate),
-            expression,
-            path,
-            export_to_host,
-            terminal,
-            body_parse_state,
-            body_bytes_read: 0,
-            _reservation: reservation,
+impl BodyReader {
+    fn new(source: BodySource, fields: [&[String]; 2]) -> Option<Self> {
+        let mut fields = fields.concat();
+        fields.sort();
+        fields.dedup();
+        fields.is_empty().not().then_some(Self {
+            source,
+            state: BodyParseState::Pending(fields),
+            bytes_read: 0,
         })
     }
 
-    fn initial_body_state(predicate: &Predicate, expression: &Expression) -> BodyParseState {
-        let mut request_fields: Vec<String> = Vec::new();
-        let mut response_fields: Vec<String> = Vec::new();
-
-        request_fields.extend_from_slice(predicate.request_body_values());
-        request_fields.extend_from_slice(expression.request_body_values());
-
-        response_fields.extend_from_slice(predicate.response_body_values());
-        response_fields.extend_from_slice(expression.response_body_values());
-
-        if !request_fields.is_empty() {
-            request_fields.sort();
-            request_fields.dedup();
-            BodyParseState::Pending(BodySource::Request, request_fields)
-        } else if !response_fields.is_empty() {
-            response_fields.sort();
-            response_fields.dedup();
-            BodyParseState::Pending(BodySource::Response, response_fields)
-        } else {
-            BodyParseState::NotNeeded
-        }
-    }
-
     fn create_parser(
         ctx: &ReqRespCtx,
         source: BodySource,
@@ -123,41 +82,32 @@ impl StoreTask {
             }
         }
     }
-}
 
-impl Task for StoreTask {
-    fn id(&self) -> &str {
-        &self.task_id
-    }
-
-    fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
-        if let BodyParseState::Pending(source, ref fields) = self.body_parse_state {
-            let result = Self::create_parser(ctx, source, fields);
-            match result {
-                Ok(Some(parser)) => {
-                    self.body_parse_state = BodyParseState::Active(source, parser);
-                }
-                Ok(None) => {
-                    return TaskOutcome::Requeued(vec![self]);
-                }
+    /// Takes in what has arrived of the body, false on failure.
+    fn read(&mut self, ctx: &mut ReqRespCtx, path: &str) -> bool {
+        let source = self.source;
+        if let BodyParseState::Pending(ref fields) = self.state {
+            match Self::create_parser(ctx, source, fields) {
+                Ok(Some(parser)) => self.state = BodyParseState::Active(parser),
+                Ok(None) => return true,
                 Err(e) => {
                     error!("Failed to create body parser: {e}");
-                    return TaskOutcome::Failed;
+                    return false;
                 }
             }
         }
 
-        if let BodyParseState::Active(source, ref mut parser) = self.body_parse_state {
+        if let BodyParseState::Active(ref mut parser) = self.state {
             let body_ctx = match source {
                 BodySource::Request => &ctx.request_body,
                 BodySource::Response => &ctx.response_body,
             };
 
             if body_ctx.buffer_size() == 0 && !body_ctx.is_end_of_stream() {
-                return TaskOutcome::Requeued(vec![self]);
+                return true;
             }
 
-            let (start, bytes_to_read) = body_ctx.unread(self.body_bytes_read);
+            let (start, bytes_to_read) = body_ctx.unread(self.bytes_read);
             if bytes_to_read > 0 {
                 let chunk = match source {
                     BodySource::Request => ctx.get_http_request_body(start, bytes_to_read),
@@ -168,36 +118,36 @@ impl Task for StoreTask {
                     Ok(AttributeState::Available(Some(data))) => data,
                     Ok(AttributeState::Available(None)) => {
                         error!("Expected body bytes but got None");
-                        return TaskOutcome::Failed;
+                        return false;
                     }
                     Ok(AttributeState::Pending) => {
-                        return TaskOutcome::Requeued(vec![self]);
+                        return true;
                     }
                     Err(e) => {
                         error!("Failed to read body bytes: {e}");
-                        return TaskOutcome::Failed;
+                        return false;
                     }
                 };
 
-                self.body_bytes_read += chunk_bytes.len();
+                self.bytes_read += chunk_bytes.len();
                 if let Err(e) = parser.feed(&chunk_bytes) {
-                    error!("Failed to parse body for '{}': {e}", self.path);
-                    return TaskOutcome::Failed;
+                    error!("Failed to parse body for '{}': {e}", path);
+                    return false;
                 }
             }
 
             if body_ctx.is_end_of_stream() {
                 if let Err(e) = parser.finalize() {
-                    error!("Failed to finalize body parser for '{}': {e}", self.path);
-                    return TaskOutcome::Failed;
+                    error!("Failed to finalize body parser for '{}': {e}", path);
+                    return false;
                 }
                 if !parser.remaining_fields().is_empty() {
                     let remaining: Vec<&String> = parser.remaining_fields();
                     error!(
                         "Body stream ended without finding fields {:?} for '{}'",
-                        remaining, self.path
+                        remaining, path
                     );
-                    return TaskOutcome::Failed;
+                    return false;
                 }
             }
 
@@ -207,6 +157,75 @@ impl Task for StoreTask {
             };
             parser.populate(body_ctx_mut);
         }
+        true
+    }
+}
+
+pub struct StoreTask {
+    task_id: String,
+    predicate: Option<Predicate>,
+    expression: Expression,
+    path: String,
+    export_to_host: bool,
+    terminal: bool,
+    body_readers: Vec<BodyReader>,
+    _reservation: PathReservation,
+}
+
+impl StoreTask {
+    pub fn new(
+        ctx: &ReqRespCtx,
+        task_id: String,
+        predicate: Predicate,
+        expression: Expression,
+        path: String,
+        export_to_host: bool,
+        terminal: bool,
+    ) -> Result<Self, AttributeError> {
+        let body_readers = Self::body_readers(&predicate, &expression);
+        let reservation = ctx.values.reserve(path.clone());
+        Ok(Self {
+            task_id,
+            predicate: Some(predicate),
+            expression,
+            path,
+            export_to_host,
+            terminal,
+            body_readers,
+            _reservation: reservation,
+        })
+    }
+
+    fn body_readers(predicate: &Predicate, expression: &Expression) -> Vec<BodyReader> {
+        let request_fields = [
+            predicate.request_body_values(),
+            expression.request_body_values(),
+        ];
+        let response_fields = [
+            predicate.response_body_values(),
+            expression.response_body_values(),
+        ];
+        [
+            BodyReader::new(BodySource::Request, request_fields),
+            BodyReader::new(BodySource::Response, response_fields),
+        ]
+        .into_iter()
+        .flatten()
+        .collect()
+    }
+}
+
+impl Task for StoreTask {
+    fn id(&self) -> &str {
+        &self.task_id
+    }
+
+    fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        for reader in &mut self.body_readers {
+            if !reader.read(ctx, &self.path) {
+                return TaskOutcome::Failed;
+            }
+        }
 
         let mut cel_ctx = ctx.cel.new_ctx(&*self);
 
-- 
2.43.0


From 600bea4498c2283a32b6ace8e272591597a0616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 20/40] fix: read the request body for gRPC actions that use
 requestBodyJSON

---
 crates/kuadrant-filter/src/data/cel.rs        | 12 +++++
 .../kuadrant-filter/src/kuadrant/context.rs   |  6 +++
 crates/kuadrant-filter/src/kuadrant/mod.rs    |  2 +-
 .../src/kuadrant/pipeline/blueprint.rs        | 44 ++++++++++-------
 .../src/kuadrant/pipeline/tasks/store.rs      |  7 +--
 .../kuadrant/pipeline/tasks/token_usage.rs    | 47 +++++++++++++------
 6 files changed, 78 insertions(+), 40 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 1e56680..75ef8e1 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -2,6 +2,7 @@ use crate::data::attribute::{AttributeError, AttributeState, Path};
 use crate::data::cel::errors::{CelError, EvaluationError};
 use crate::data::grpc::{is_grpc_content_type, parse_grpc_path};
 use crate::data::Headers;
+use crate::kuadrant::context::BodySource;
 #[cfg(feature = "debug-host-behaviour")]
 use crate::kuadrant::resolver::AttributeResolver;
 use crate::kuadrant::ReqRespCtx;
@@ -326,6 +327,13 @@ impl Expression {
         &self.response_body_values
     }
 
+    pub fn body_values(&self, source: BodySource) -> &[String] {
+        match source {
+            BodySource::Request => &self.request_body_values,
+            BodySource::Response => &self.response_body_values,
+        }
+    }
+
     pub fn has_request_body_deps(&self) -> bool {
         !self.request_body_values.is_empty()
     }
@@ -569,6 +577,10 @@ impl Predicate {
         self.expression.response_body_values()
     }
 
+    pub fn body_values(&self, source: BodySource) -> &[String] {
+        self.expression.body_values(source)
+    }
+
     pub fn has_request_body_deps(&self) -> bool {
         self.expression.has_request_body_deps()
     }
diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 063c93a..20cf972 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -462,6 +462,12 @@ impl Barrier {
     }
 }
 
+#[derive(Clone, Copy)]
+pub enum BodySource {
+    Request,
+    Response,
+}
+
 #[derive(Default)]
 pub struct BodyContext {
     // bytes the host has let through already, which its buffer no longer holds
diff --git a/crates/kuadrant-filter/src/kuadrant/mod.rs b/crates/kuadrant-filter/src/kuadrant/mod.rs
index cf2d3ae..99ee5fc 100644
--- a/crates/kuadrant-filter/src/kuadrant/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/mod.rs
@@ -1,5 +1,5 @@
 mod cache;
-mod context;
+pub(crate) mod context;
 mod pipeline;
 pub mod resolver;
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 0cbad12..3d78f4b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -4,6 +4,7 @@ use crate::configuration::{
     translate_legacy_report_to_typed,
 };
 use crate::data::{cel::Predicate, Expression};
+use crate::kuadrant::context::BodySource;
 use crate::kuadrant::pipeline::tasks::{
     DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, OrderedTask,
     Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
@@ -169,17 +170,21 @@ impl Action {
         }
     }
 
-    pub fn collect_body_values(&self, request_data: &[RequestData]) -> Vec<String> {
+    pub fn collect_body_values(
+        &self,
+        source: BodySource,
+        request_data: &[RequestData],
+    ) -> Vec<String> {
         use std::collections::HashSet;
 
         let mut fields = HashSet::new();
 
-        fields.extend(self.predicate.response_body_values().iter().cloned());
+        fields.extend(self.predicate.body_values(source).iter().cloned());
 
         fields.extend(
             request_data
                 .iter()
-                .flat_map(|(_, expr)| expr.response_body_values().iter().cloned()),
+                .flat_map(|(_, expr)| expr.body_values(source).iter().cloned()),
         );
 
         match &self.operation {
@@ -188,10 +193,10 @@ impl Action {
                 on_reply,
                 ..
             } => {
-                fields.extend(message_builder.response_body_values().iter().cloned());
+                fields.extend(message_builder.body_values(source).iter().cloned());
                 fields.extend(on_reply.iter().flat_map(|action| {
                     let mut reply_fields = Vec::new();
-                    reply_fields.extend(action.predicate.response_body_values().iter().cloned());
+                    reply_fields.extend(action.predicate.body_values(source).iter().cloned());
                     match &action.operation {
                         Operation::Grpc {
                             message_builder,
@@ -199,21 +204,21 @@ impl Action {
                             ..
                         } => {
                             reply_fields
-                                .extend(message_builder.response_body_values().iter().cloned());
+                                .extend(message_builder.body_values(source).iter().cloned());
                             reply_fields.extend(
                                 nested_reply
                                     .iter()
-                                    .flat_map(|nested| nested.collect_body_values(&[])),
+                                    .flat_map(|nested| nested.collect_body_values(source, &[])),
                             );
                         }
                         Operation::Deny { deny_with } => {
-                            reply_fields.extend(deny_with.response_body_values().iter().cloned());
+                            reply_fields.extend(deny_with.body_values(source).iter().cloned());
                         }
                         Operation::Headers { headers, .. } => {
-                            reply_fields.extend(headers.response_body_values().iter().cloned());
+                            reply_fields.extend(headers.body_values(source).iter().cloned());
                         }
                         Operation::Store { expression, .. } => {
-                            reply_fields.extend(expression.response_body_values().iter().cloned());
+                            reply_fields.extend(expression.body_values(source).iter().cloned());
                         }
                         Operation::Fail { .. } => {}
                     }
@@ -221,13 +226,13 @@ impl Action {
                 }));
             }
             Operation::Deny { deny_with } => {
-                fields.extend(deny_with.response_body_values().iter().cloned());
+                fields.extend(deny_with.body_values(source).iter().cloned());
             }
             Operation::Headers { headers, .. } => {
-                fields.extend(headers.response_body_values().iter().cloned());
+                fields.extend(headers.body_values(source).iter().cloned());
             }
             Operation::Store { expression, .. } => {
-                fields.extend(expression.response_body_values().iter().cloned());
+                fields.extend(expression.body_values(source).iter().cloned());
             }
             Operation::Fail { .. } => {}
         }
@@ -402,11 +407,14 @@ impl Blueprint {
                     | ServiceInstance::RateLimit(_)
                     | ServiceInstance::RateLimitCheck(_)
                     | ServiceInstance::RateLimitReport(_) => {
-                        let body_values = action.collect_body_values(request_data);
-                        if !body_values.is_empty() {
-                            tasks.push(Box::new(TokenUsageTask::with_expected_response_fields(
-                                body_values,
-                            )));
+                        for source in [BodySource::Request, BodySource::Response] {
+                            let body_values = action.collect_body_values(source, request_data);
+                            if !body_values.is_empty() {
+                                tasks.push(Box::new(TokenUsageTask::with_expected_fields(
+                                    source,
+                                    body_values,
+                                )));
+                            }
                         }
 
                         if let Some(mut task) = action.to_core_task(ctx) {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index dd555c3..9f1b7d4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -13,16 +13,11 @@ use crate::data::attribute::{AttributeError, AttributeState};
 use crate::data::cel::Predicate;
 use crate::data::Expression;
 use crate::data::Headers;
+use crate::kuadrant::context::BodySource;
 use crate::kuadrant::pipeline::tasks::{SendReplyTask, Task, TaskOutcome};
 use crate::kuadrant::{PathReservation, ReqRespCtx};
 use crate::services::MessageConverter;
 
-#[derive(Clone, Copy)]
-enum BodySource {
-    Request,
-    Response,
-}
-
 enum BodyParseState {
     Pending(Vec<String>),
     Active(Box<dyn BodyParser>),
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 7f2d294..6a1bb41 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -1,6 +1,7 @@
 use super::store::sse_body_parser;
 use crate::data::attribute::AttributeState;
 use crate::data::Headers;
+use crate::kuadrant::context::BodySource;
 use crate::kuadrant::pipeline::tasks::{Task, TaskOutcome};
 use crate::kuadrant::ReqRespCtx;
 use serde_json::Value;
@@ -10,20 +11,22 @@ use tracing::{debug, error, warn};
 pub struct TokenUsageTask {
     strategy: Option<Box<dyn ExtractionStrategy>>,
     bytes_consumed: usize,
-    expected_response_fields: Vec<String>,
+    source: BodySource,
+    expected_fields: Vec<String>,
 }
 
 impl TokenUsageTask {
     #[cfg(test)]
     pub fn new() -> Self {
-        Self::with_expected_response_fields(Vec::new())
+        Self::with_expected_fields(BodySource::Response, Vec::new())
     }
 
-    pub fn with_expected_response_fields(expected_response_fields: Vec<String>) -> Self {
+    pub fn with_expected_fields(source: BodySource, expected_fields: Vec<String>) -> Self {
         Self {
             strategy: None,
             bytes_consumed: 0,
-            expected_response_fields,
+            source,
+            expected_fields,
         }
     }
 }
@@ -33,7 +36,8 @@ impl From<Box<Self>> for TokenUsageTask {
         Self {
             strategy: value.strategy,
             bytes_consumed: value.bytes_consumed,
-            expected_response_fields: value.expected_response_fields,
+            source: value.source,
+            expected_fields: value.expected_fields,
         }
     }
 }
@@ -49,6 +53,7 @@ impl Task for TokenUsageTask {
 
         let mut strategy = match task.strategy.take() {
             Some(s) => s,
+            None if matches!(task.source, BodySource::Request) => Box::new(JsonStrategy::new()),
             None => {
                 match ctx.get_attribute_ref::<Headers>(&"response.headers".into()) {
                     Ok(AttributeState::Available(Some(headers))) => select_strategy(&headers),
@@ -67,9 +72,17 @@ impl Task for TokenUsageTask {
             }
         };
 
-        let (start, bytes_to_read) = ctx.response_body.unread(task.bytes_consumed);
+        let body_ctx = match task.source {
+            BodySource::Request => &ctx.request_body,
+            BodySource::Response => &ctx.response_body,
+        };
+        let (start, bytes_to_read) = body_ctx.unread(task.bytes_consumed);
         if bytes_to_read > 0 {
-            match ctx.get_http_response_body(start, bytes_to_read) {
+            let chunk = match task.source {
+                BodySource::Request => ctx.get_http_request_body(start, bytes_to_read),
+                BodySource::Response => ctx.get_http_response_body(start, bytes_to_read),
+            };
+            match chunk {
                 Ok(AttributeState::Available(Some(bytes))) => {
                     task.bytes_consumed += bytes.len();
                     strategy.feed_buffer(bytes);
@@ -82,27 +95,31 @@ impl Task for TokenUsageTask {
                     return TaskOutcome::Requeued(vec![Box::new(task)]);
                 }
                 Err(e) => {
-                    error!("Failed to get response body: {e:?}");
+                    error!("Failed to get body: {e:?}");
                     return TaskOutcome::Failed;
                 }
             }
         }
 
-        if ctx.response_body.is_end_of_stream() {
-            for field in &task.expected_response_fields {
+        let body_ctx = match task.source {
+            BodySource::Request => &mut ctx.request_body,
+            BodySource::Response => &mut ctx.response_body,
+        };
+        if body_ctx.is_end_of_stream() {
+            for field in &task.expected_fields {
                 if let Some(json_value) = strategy.extract_property(field) {
                     match json_value {
-                        Value::Bool(b) => ctx.response_body.set_value(field, b),
+                        Value::Bool(b) => body_ctx.set_value(field, b),
                         Value::Number(n) => {
                             if let Some(u) = n.as_u64() {
-                                ctx.response_body.set_value(field, u);
+                                body_ctx.set_value(field, u);
                             } else if let Some(i) = n.as_i64() {
-                                ctx.response_body.set_value(field, i);
+                                body_ctx.set_value(field, i);
                             } else if let Some(f) = n.as_f64() {
-                                ctx.response_body.set_value(field, f);
+                                body_ctx.set_value(field, f);
                             }
                         }
-                        Value::String(s) => ctx.response_body.set_value(field, s),
+                        Value::String(s) => body_ctx.set_value(field, s),
                         Value::Null | Value::Array(_) | Value::Object(_) => {
                             warn!("Unsupported json value type: {:?}", json_value);
                         }
-- 
2.43.0


From 494c872f95db756f2c20e7c391c56a1d10435782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 21/40] fix: keep waiting for other values after the body
 fields were found

---
 crates/kuadrant-filter/src/data/cel.rs           | 16 ++++++++++++++++
 .../src/kuadrant/pipeline/tasks/dynamic.rs       | 12 ++----------
 .../src/kuadrant/pipeline/tasks/fail.rs          |  5 +----
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 75ef8e1..381b7e6 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -342,6 +342,18 @@ impl Expression {
         !self.response_body_values.is_empty()
     }
 
+    /// Whether a body ended without one of the values this expression reads from it.
+    pub fn is_missing_body_values(&self, req_ctx: &ReqRespCtx) -> bool {
+        [
+            (&req_ctx.request_body, &self.request_body_values),
+            (&req_ctx.response_body, &self.response_body_values),
+        ]
+        .into_iter()
+        .any(|(body, fields)| {
+            body.is_end_of_stream() && fields.iter().any(|field| body.get_value(field).is_none())
+        })
+    }
+
     // todo(@adam-cattermole): Temporary method for legacy config translation, remove when legacy support is dropped
     pub fn source(&self) -> &str {
         &self.source
@@ -588,6 +600,10 @@ impl Predicate {
     pub fn has_response_body_deps(&self) -> bool {
         self.expression.has_response_body_deps()
     }
+
+    pub fn is_missing_body_values(&self, req_ctx: &ReqRespCtx) -> bool {
+        self.expression.is_missing_body_values(req_ctx)
+    }
 }
 
 pub trait PredicateVec {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
index 13555e1..c660cca 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
@@ -87,11 +87,7 @@ impl Task for DynamicTask {
         let mut cel_ctx = ctx.cel.new_ctx(&*self);
         match self.predicate.test(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return if (self.predicate.has_request_body_deps()
-                    && ctx.request_body.is_end_of_stream())
-                    || (self.predicate.has_response_body_deps()
-                        && ctx.response_body.is_end_of_stream())
-                {
+                return if self.predicate.is_missing_body_values(ctx) {
                     TaskOutcome::Failed
                 } else {
                     TaskOutcome::Requeued(vec![self])
@@ -118,11 +114,7 @@ impl Task for DynamicTask {
             let mut cel_ctx = ctx.cel.new_ctx(&*self);
             let cel_value = match self.message_builder.eval(ctx, &mut cel_ctx) {
                 Ok(AttributeState::Pending) => {
-                    return if (self.message_builder.has_request_body_deps()
-                        && ctx.request_body.is_end_of_stream())
-                        || (self.message_builder.has_response_body_deps()
-                            && ctx.response_body.is_end_of_stream())
-                    {
+                    return if self.message_builder.is_missing_body_values(ctx) {
                         TaskOutcome::Failed
                     } else {
                         TaskOutcome::Requeued(vec![self])
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
index 8d04c28..a512b9c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
@@ -43,10 +43,7 @@ impl Task for FailTask {
             }
             Ok(AttributeState::Available(false)) => TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                if (self.predicate.has_request_body_deps() && ctx.request_body.is_end_of_stream())
-                    || (self.predicate.has_response_body_deps()
-                        && ctx.response_body.is_end_of_stream())
-                {
+                if self.predicate.is_missing_body_values(ctx) {
                     TaskOutcome::Failed
                 } else {
                     TaskOutcome::Requeued(vec![self])
-- 
2.43.0


From 26484e204cf1a8dcec5784cbb5d3b233840d5b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 22/40] fix: end the request body with the headers of a request
 without one

---
 crates/wasm-shim/src/filter/kuadrant_filter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index a84ff4b..03991f9 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -97,13 +97,15 @@ impl Context for KuadrantFilter {
 }
 
 impl HttpContext for KuadrantFilter {
-    fn on_http_request_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
+    fn on_http_request_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_request_headers", self.context_id);
 
         #[cfg(feature = "debug-host-behaviour")]
         kuadrant_filter::data::debug_all_well_known_attributes(&crate::wasm_host::ProxyWasmHost);
 
-        let ctx = ReqRespCtx::new(Arc::new(crate::wasm_host::ProxyWasmHost));
+        let mut ctx = ReqRespCtx::new(Arc::new(crate::wasm_host::ProxyWasmHost));
+        // there will be no body to wait for
+        ctx.request_body.set_buffer_size(0, end_of_stream);
 
         match self.factory.build(ctx) {
             Ok(Some(pipeline)) => {
-- 
2.43.0


From 3428bdb7a4a2cd065133febceb4772b956590009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 23/40] fix: end a body with its trailers

---
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 03991f9..078d52d 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -181,6 +181,16 @@ impl HttpContext for KuadrantFilter {
         }
     }
 
+    fn on_http_request_trailers(&mut self, _num_trailers: usize) -> Action {
+        debug!("#{} on_http_request_trailers", self.context_id);
+        // they end the body, of which the host has no more than it still holds
+        let buffer_size = match &self.pipeline {
+            Some(pipeline) if self.request_body_held => pipeline.ctx.request_body.buffer_size(),
+            _ => 0,
+        };
+        self.on_http_request_body(buffer_size, true)
+    }
+
     fn on_http_response_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_headers", self.context_id);
         // a local reply comes through here as well
@@ -248,4 +258,14 @@ impl HttpContext for KuadrantFilter {
             }
         }
     }
+
+    fn on_http_response_trailers(&mut self, _num_trailers: usize) -> Action {
+        debug!("#{} on_http_response_trailers", self.context_id);
+        // they end the body, of which the host has no more than it still holds
+        let buffer_size = match &self.pipeline {
+            Some(pipeline) if self.response_body_held => pipeline.ctx.response_body.buffer_size(),
+            _ => 0,
+        };
+        self.on_http_response_body(buffer_size, true)
+    }
 }
-- 
2.43.0


From e7c715764d6f01796bf3256b238b033311a10065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 24/40] fix: let a store action read the body while it waits
 for other actions

---
 .../src/kuadrant/pipeline/executor.rs            |  3 ++-
 .../src/kuadrant/pipeline/tasks/mod.rs           |  3 +++
 .../src/kuadrant/pipeline/tasks/ordered.rs       |  4 ++++
 .../src/kuadrant/pipeline/tasks/store.rs         | 16 ++++++++++++----
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index adaaf44..56d89c7 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -106,12 +106,13 @@ impl Pipeline {
     }
 
     fn process_tasks(&mut self, tasks: Vec<Box<dyn Task>>) -> ProcessOutcome {
-        for task in tasks {
+        for mut task in tasks {
             if task
                 .dependencies()
                 .iter()
                 .any(|dep| !self.completed_tasks.contains(dep))
             {
+                task.observe(&mut self.ctx);
                 self.task_queue.push(task);
                 continue;
             }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index c8c5a25..05fa22e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -29,6 +29,9 @@ pub type ResponseProcessor = dyn FnOnce(&mut ReqRespCtx) -> TaskOutcome;
 pub trait Task {
     fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome;
 
+    /// Called in place of `apply` while the task waits for its dependencies.
+    fn observe(&mut self, _ctx: &mut ReqRespCtx) {}
+
     fn id(&self) -> &str;
 
     fn dependencies(&self) -> &[String] {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs
index 867c1c4..6864b23 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/ordered.rs
@@ -18,6 +18,10 @@ impl Task for OrderedTask {
         self.task.apply(ctx)
     }
 
+    fn observe(&mut self, ctx: &mut ReqRespCtx) {
+        self.task.observe(ctx)
+    }
+
     fn id(&self) -> &str {
         self.task.id()
     }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 9f1b7d4..4fe9836 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -164,6 +164,7 @@ pub struct StoreTask {
     export_to_host: bool,
     terminal: bool,
     body_readers: Vec<BodyReader>,
+    body_failed: bool,
     _reservation: PathReservation,
 }
 
@@ -187,6 +188,7 @@ impl StoreTask {
             export_to_host,
             terminal,
             body_readers,
+            body_failed: false,
             _reservation: reservation,
         })
     }
@@ -215,11 +217,17 @@ impl Task for StoreTask {
         &self.task_id
     }
 
-    fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+    // the host lets go of the parts of a body as they pass
+    fn observe(&mut self, ctx: &mut ReqRespCtx) {
         for reader in &mut self.body_readers {
-            if !reader.read(ctx, &self.path) {
-                return TaskOutcome::Failed;
-            }
+            self.body_failed = self.body_failed || !reader.read(ctx, &self.path);
+        }
+    }
+
+    fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        self.observe(ctx);
+        if self.body_failed {
+            return TaskOutcome::Failed;
         }
 
         let mut cel_ctx = ctx.cel.new_ctx(&*self);
-- 
2.43.0


From b020bc4c015079fa67b63db9881f10691c3d6319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 25/40] fix: read the bodies for stand-alone actions that use
 their fields

---
 .../src/kuadrant/pipeline/blueprint.rs        | 31 +++++++++++++------
 .../src/kuadrant/pipeline/tasks/headers.rs    | 12 +++++--
 .../src/kuadrant/pipeline/tasks/send_reply.rs |  6 +++-
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 3d78f4b..501d577 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -170,6 +170,21 @@ impl Action {
         }
     }
 
+    /// The tasks that read the body values this action uses.
+    fn body_tasks(&self, request_data: &[RequestData]) -> TaskList {
+        let mut tasks: TaskList = Vec::new();
+        for source in [BodySource::Request, BodySource::Response] {
+            let body_values = self.collect_body_values(source, request_data);
+            if !body_values.is_empty() {
+                tasks.push(Box::new(TokenUsageTask::with_expected_fields(
+                    source,
+                    body_values,
+                )));
+            }
+        }
+        tasks
+    }
+
     pub fn collect_body_values(
         &self,
         source: BodySource,
@@ -407,15 +422,7 @@ impl Blueprint {
                     | ServiceInstance::RateLimit(_)
                     | ServiceInstance::RateLimitCheck(_)
                     | ServiceInstance::RateLimitReport(_) => {
-                        for source in [BodySource::Request, BodySource::Response] {
-                            let body_values = action.collect_body_values(source, request_data);
-                            if !body_values.is_empty() {
-                                tasks.push(Box::new(TokenUsageTask::with_expected_fields(
-                                    source,
-                                    body_values,
-                                )));
-                            }
-                        }
+                        tasks.extend(action.body_tasks(request_data));
 
                         if let Some(mut task) = action.to_core_task(ctx) {
                             let abort_on_failure =
@@ -434,7 +441,11 @@ impl Blueprint {
                         }
                     }
                 },
-                _ => {
+                operation => {
+                    // a store action reads the bodies itself
+                    if !matches!(operation, Operation::Store { .. }) {
+                        tasks.extend(action.body_tasks(&[]));
+                    }
                     if let Some(mut task) = action.to_core_task(ctx) {
                         if !action.dependencies.is_empty() {
                             task = Box::new(OrderedTask::new(task, action.dependencies.clone()));
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
index 2208fbc..48c510b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
@@ -67,7 +67,11 @@ impl Task for ModifyHeadersTask {
             Ok(AttributeState::Available(true)) => {}
             Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.predicate.is_missing_body_values(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Err(e) => {
                 error!("Failed to evaluate predicate: {e:?}");
@@ -77,7 +81,11 @@ impl Task for ModifyHeadersTask {
 
         let operation = match self.headers_expr.eval(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.headers_expr.is_missing_body_values(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Ok(AttributeState::Available(ref val)) => {
                 let pairs = cel_value_to_header_pairs(val);
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 86453fe..b6e2791 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -64,7 +64,11 @@ impl Task for SendReplyTask {
             Ok(AttributeState::Available(true)) => {}
             Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.predicate.is_missing_body_values(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Err(e) => {
                 error!("Failed to evaluate predicate: {e:?}");
-- 
2.43.0


From 391cfce8c994be32a1a9bd898a07fd83fcdffb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 26/40] fix: let actions of a reply use body fields whenever
 the reply comes

---
 .../kuadrant-filter/src/kuadrant/context.rs   |  5 ++
 .../src/kuadrant/pipeline/executor.rs         |  7 +-
 .../kuadrant/pipeline/tasks/failure_mode.rs   |  4 +
 .../src/kuadrant/pipeline/tasks/store.rs      | 40 ++++++---
 .../kuadrant/pipeline/tasks/token_usage.rs    | 86 +++++++++++--------
 .../pipeline/tasks/tracing_decorator.rs       |  4 +
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 47 +++++-----
 7 files changed, 115 insertions(+), 78 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 20cf972..8d2d93c 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -492,6 +492,11 @@ impl BodyContext {
         self.buffer_size = 0;
     }
 
+    /// Whether bytes that follow the first `consumed` ones are gone already.
+    pub(crate) fn has_missed(&self, consumed: usize) -> bool {
+        consumed < self.released
+    }
+
     /// The part of the host's buffer, as (start, size), that follows the first `consumed` bytes of
     /// the body.
     pub(crate) fn unread(&self, consumed: usize) -> (usize, usize) {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 56d89c7..e92261a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -106,13 +106,12 @@ impl Pipeline {
     }
 
     fn process_tasks(&mut self, tasks: Vec<Box<dyn Task>>) -> ProcessOutcome {
-        for mut task in tasks {
+        for task in tasks {
             if task
                 .dependencies()
                 .iter()
                 .any(|dep| !self.completed_tasks.contains(dep))
             {
-                task.observe(&mut self.ctx);
                 self.task_queue.push(task);
                 continue;
             }
@@ -148,6 +147,10 @@ impl Pipeline {
     }
 
     pub fn eval(mut self) -> PipelineState {
+        // what some read of a body, others may use
+        for task in &mut self.task_queue {
+            task.observe(&mut self.ctx);
+        }
         let tasks = self.task_queue.drain(..).collect();
         match self.process_tasks(tasks) {
             ProcessOutcome::Terminated => {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 5c2e290..7724d68 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -50,6 +50,10 @@ impl Task for FailureModeTask {
         }
     }
 
+    fn observe(&mut self, ctx: &mut ReqRespCtx) {
+        self.task.observe(ctx)
+    }
+
     fn id(&self) -> &str {
         self.task.id()
     }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 4fe9836..3f2ede0 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -18,14 +18,10 @@ use crate::kuadrant::pipeline::tasks::{SendReplyTask, Task, TaskOutcome};
 use crate::kuadrant::{PathReservation, ReqRespCtx};
 use crate::services::MessageConverter;
 
-enum BodyParseState {
-    Pending(Vec<String>),
-    Active(Box<dyn BodyParser>),
-}
-
 struct BodyReader {
     source: BodySource,
-    state: BodyParseState,
+    fields: Vec<String>,
+    parser: Option<Box<dyn BodyParser>>,
     bytes_read: usize,
 }
 
@@ -36,7 +32,8 @@ impl BodyReader {
         fields.dedup();
         fields.is_empty().not().then_some(Self {
             source,
-            state: BodyParseState::Pending(fields),
+            fields,
+            parser: None,
             bytes_read: 0,
         })
     }
@@ -81,9 +78,18 @@ impl BodyReader {
     /// Takes in what has arrived of the body, false on failure.
     fn read(&mut self, ctx: &mut ReqRespCtx, path: &str) -> bool {
         let source = self.source;
-        if let BodyParseState::Pending(ref fields) = self.state {
-            match Self::create_parser(ctx, source, fields) {
-                Ok(Some(parser)) => self.state = BodyParseState::Active(parser),
+        let body_ctx = match source {
+            BodySource::Request => &ctx.request_body,
+            BodySource::Response => &ctx.response_body,
+        };
+        if body_ctx.has_missed(self.bytes_read) {
+            // a reply came while the body went by: the fields are read ahead of the call
+            return true;
+        }
+
+        if self.parser.is_none() {
+            match Self::create_parser(ctx, source, &self.fields) {
+                Ok(Some(parser)) => self.parser = Some(parser),
                 Ok(None) => return true,
                 Err(e) => {
                     error!("Failed to create body parser: {e}");
@@ -92,7 +98,7 @@ impl BodyReader {
             }
         }
 
-        if let BodyParseState::Active(ref mut parser) = self.state {
+        if let Some(ref mut parser) = self.parser {
             let body_ctx = match source {
                 BodySource::Request => &ctx.request_body,
                 BodySource::Response => &ctx.response_body,
@@ -237,7 +243,11 @@ impl Task for StoreTask {
                 Ok(AttributeState::Available(true)) => {}
                 Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
                 Ok(AttributeState::Pending) => {
-                    return TaskOutcome::Requeued(vec![self]);
+                    return if predicate.is_missing_body_values(ctx) {
+                        TaskOutcome::Failed
+                    } else {
+                        TaskOutcome::Requeued(vec![self])
+                    };
                 }
                 Err(e) => {
                     error!("Failed to evaluate predicate: {e:?}");
@@ -250,7 +260,11 @@ impl Task for StoreTask {
 
         let value = match self.expression.eval(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.expression.is_missing_body_values(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Ok(AttributeState::Available(val)) => val,
             Err(e) => {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 6a1bb41..0fab453 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -8,11 +8,18 @@ use serde_json::Value;
 use sse_body_parser::Event;
 use tracing::{debug, error, warn};
 
+enum Progress {
+    Reading,
+    Done,
+    Failed,
+}
+
 pub struct TokenUsageTask {
     strategy: Option<Box<dyn ExtractionStrategy>>,
     bytes_consumed: usize,
     source: BodySource,
     expected_fields: Vec<String>,
+    progress: Progress,
 }
 
 impl TokenUsageTask {
@@ -27,33 +34,14 @@ impl TokenUsageTask {
             bytes_consumed: 0,
             source,
             expected_fields,
+            progress: Progress::Reading,
         }
     }
-}
-
-impl From<Box<Self>> for TokenUsageTask {
-    fn from(value: Box<Self>) -> Self {
-        Self {
-            strategy: value.strategy,
-            bytes_consumed: value.bytes_consumed,
-            source: value.source,
-            expected_fields: value.expected_fields,
-        }
-    }
-}
-
-impl Task for TokenUsageTask {
-    fn id(&self) -> &str {
-        "token_usage"
-    }
-
-    #[tracing::instrument(name = "token_usage", skip(self, ctx))]
-    fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
-        let mut task: TokenUsageTask = self.into();
 
-        let mut strategy = match task.strategy.take() {
+    fn read(&mut self, ctx: &mut ReqRespCtx) -> Progress {
+        let mut strategy = match self.strategy.take() {
             Some(s) => s,
-            None if matches!(task.source, BodySource::Request) => Box::new(JsonStrategy::new()),
+            None if matches!(self.source, BodySource::Request) => Box::new(JsonStrategy::new()),
             None => {
                 match ctx.get_attribute_ref::<Headers>(&"response.headers".into()) {
                     Ok(AttributeState::Available(Some(headers))) => select_strategy(&headers),
@@ -61,52 +49,52 @@ impl Task for TokenUsageTask {
                         unreachable!("Headers map should never be Available(None)")
                     }
                     Ok(AttributeState::Pending) => {
-                        // Headers not available yet, requeue
-                        return TaskOutcome::Requeued(vec![Box::new(task)]);
+                        // Headers not available yet
+                        return Progress::Reading;
                     }
                     Err(e) => {
                         error!("Failed to get response headers: {e:?}");
-                        return TaskOutcome::Failed;
+                        return Progress::Failed;
                     }
                 }
             }
         };
 
-        let body_ctx = match task.source {
+        let body_ctx = match self.source {
             BodySource::Request => &ctx.request_body,
             BodySource::Response => &ctx.response_body,
         };
-        let (start, bytes_to_read) = body_ctx.unread(task.bytes_consumed);
+        let (start, bytes_to_read) = body_ctx.unread(self.bytes_consumed);
         if bytes_to_read > 0 {
-            let chunk = match task.source {
+            let chunk = match self.source {
                 BodySource::Request => ctx.get_http_request_body(start, bytes_to_read),
                 BodySource::Response => ctx.get_http_response_body(start, bytes_to_read),
             };
             match chunk {
                 Ok(AttributeState::Available(Some(bytes))) => {
-                    task.bytes_consumed += bytes.len();
+                    self.bytes_consumed += bytes.len();
                     strategy.feed_buffer(bytes);
                 }
                 Ok(AttributeState::Available(None)) => {
                     debug!("No buffer available");
                 }
                 Ok(AttributeState::Pending) => {
-                    task.strategy = Some(strategy);
-                    return TaskOutcome::Requeued(vec![Box::new(task)]);
+                    self.strategy = Some(strategy);
+                    return Progress::Reading;
                 }
                 Err(e) => {
                     error!("Failed to get body: {e:?}");
-                    return TaskOutcome::Failed;
+                    return Progress::Failed;
                 }
             }
         }
 
-        let body_ctx = match task.source {
+        let body_ctx = match self.source {
             BodySource::Request => &mut ctx.request_body,
             BodySource::Response => &mut ctx.response_body,
         };
         if body_ctx.is_end_of_stream() {
-            for field in &task.expected_fields {
+            for field in &self.expected_fields {
                 if let Some(json_value) = strategy.extract_property(field) {
                     match json_value {
                         Value::Bool(b) => body_ctx.set_value(field, b),
@@ -128,11 +116,33 @@ impl Task for TokenUsageTask {
                     warn!("Missing json property: {}", field);
                 }
             }
-            return TaskOutcome::Done;
+            return Progress::Done;
+        }
+
+        self.strategy = Some(strategy);
+        Progress::Reading
+    }
+}
+
+impl Task for TokenUsageTask {
+    fn id(&self) -> &str {
+        "token_usage"
+    }
+
+    fn observe(&mut self, ctx: &mut ReqRespCtx) {
+        if matches!(self.progress, Progress::Reading) {
+            self.progress = self.read(ctx);
         }
+    }
 
-        task.strategy = Some(strategy);
-        TaskOutcome::Requeued(vec![Box::new(task)])
+    #[tracing::instrument(name = "token_usage", skip(self, ctx))]
+    fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        self.observe(ctx);
+        match self.progress {
+            Progress::Reading => TaskOutcome::Requeued(vec![self]),
+            Progress::Done => TaskOutcome::Done,
+            Progress::Failed => TaskOutcome::Failed,
+        }
     }
 }
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
index c8273c1..7198d3b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
@@ -78,6 +78,10 @@ impl Task for TracingDecoratorTask {
         }
     }
 
+    fn observe(&mut self, ctx: &mut ReqRespCtx) {
+        self.task.observe(ctx)
+    }
+
     fn id(&self) -> &str {
         self.task.id()
     }
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 078d52d..1493858 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -14,8 +14,6 @@ pub struct KuadrantFilter {
     in_response_phase: bool,
     force_resume: bool,
     denied: bool,
-    request_body_held: bool,
-    response_body_held: bool,
 }
 
 impl KuadrantFilter {
@@ -27,8 +25,6 @@ impl KuadrantFilter {
             in_response_phase: false,
             force_resume: false,
             denied: false,
-            request_body_held: false,
-            response_body_held: false,
         }
     }
 
@@ -75,11 +71,15 @@ impl Context for KuadrantFilter {
             if should_resume {
                 let result = if self.in_response_phase {
                     trace!("on_grpc_call_response: resume_http_response");
-                    self.response_body_held = false;
+                    if let Some(pipeline) = &mut self.pipeline {
+                        pipeline.ctx.response_body.release();
+                    }
                     self.resume_http_response()
                 } else {
                     trace!("on_grpc_call_response: resume_http_request");
-                    self.request_body_held = false;
+                    if let Some(pipeline) = &mut self.pipeline {
+                        pipeline.ctx.request_body.release();
+                    }
                     self.resume_http_request()
                 };
 
@@ -154,9 +154,6 @@ impl HttpContext for KuadrantFilter {
     fn on_http_request_body(&mut self, buffer_size: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_request_body", self.context_id);
         if let Some(mut pipeline) = self.pipeline.take() {
-            if !self.request_body_held {
-                pipeline.ctx.request_body.release();
-            }
             pipeline
                 .ctx
                 .request_body
@@ -171,12 +168,14 @@ impl HttpContext for KuadrantFilter {
                 }
             }
         }
-        self.request_body_held = self.should_pause();
-        if self.request_body_held {
+        if self.should_pause() {
             trace!("on_http_request_body: pause");
             Action::Pause
         } else {
             trace!("on_http_request_body: continue");
+            if let Some(pipeline) = &mut self.pipeline {
+                pipeline.ctx.request_body.release();
+            }
             Action::Continue
         }
     }
@@ -184,10 +183,10 @@ impl HttpContext for KuadrantFilter {
     fn on_http_request_trailers(&mut self, _num_trailers: usize) -> Action {
         debug!("#{} on_http_request_trailers", self.context_id);
         // they end the body, of which the host has no more than it still holds
-        let buffer_size = match &self.pipeline {
-            Some(pipeline) if self.request_body_held => pipeline.ctx.request_body.buffer_size(),
-            _ => 0,
-        };
+        let buffer_size = self
+            .pipeline
+            .as_ref()
+            .map_or(0, |pipeline| pipeline.ctx.request_body.buffer_size());
         self.on_http_request_body(buffer_size, true)
     }
 
@@ -221,9 +220,6 @@ impl HttpContext for KuadrantFilter {
     fn on_http_response_body(&mut self, buffer_size: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_body", self.context_id);
         if let Some(mut pipeline) = self.pipeline.take() {
-            if !self.response_body_held {
-                pipeline.ctx.response_body.release();
-            }
             pipeline
                 .ctx
                 .response_body
@@ -240,20 +236,21 @@ impl HttpContext for KuadrantFilter {
         }
         if self.should_pause() {
             trace!("on_http_response_body: pause");
-            self.response_body_held = true;
             Action::Pause
         } else {
             let outstanding_calls = self
                 .pipeline
                 .as_ref()
                 .is_some_and(|p| p.has_outstanding_calls());
-            self.response_body_held = outstanding_calls && end_of_stream;
-            if self.response_body_held {
+            if outstanding_calls && end_of_stream {
                 trace!("on_http_response_body: calls outstanding, pause");
                 self.force_resume = true;
                 Action::Pause
             } else {
                 trace!("on_http_response_body: continue");
+                if let Some(pipeline) = &mut self.pipeline {
+                    pipeline.ctx.response_body.release();
+                }
                 Action::Continue
             }
         }
@@ -262,10 +259,10 @@ impl HttpContext for KuadrantFilter {
     fn on_http_response_trailers(&mut self, _num_trailers: usize) -> Action {
         debug!("#{} on_http_response_trailers", self.context_id);
         // they end the body, of which the host has no more than it still holds
-        let buffer_size = match &self.pipeline {
-            Some(pipeline) if self.response_body_held => pipeline.ctx.response_body.buffer_size(),
-            _ => 0,
-        };
+        let buffer_size = self
+            .pipeline
+            .as_ref()
+            .map_or(0, |pipeline| pipeline.ctx.response_body.buffer_size());
         self.on_http_response_body(buffer_size, true)
     }
 }
-- 
2.43.0


From 4b8ca16bd29b43af6458f7db45d3c2d58b16dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 27/40] fix: let each task use the message types of its own
 service

The types of a task's messages were added once, when the task was warmed:
a task warmed before its descriptors were known never got any, and tasks
whose services share type names got those of the last one.
---
 .../kuadrant-filter/src/kuadrant/context.rs   | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 8d2d93c..50d5df1 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -1,7 +1,7 @@
 use cel::{Context, Env, Value};
 use std::cell::OnceCell;
 use std::collections::hash_map::Entry;
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap};
 use std::sync::{Arc, Mutex};
 use tracing::{debug, error, warn};
 
@@ -520,7 +520,8 @@ impl BodyContext {
 
 pub struct CelScope {
     env: Arc<Env>,
-    registered: HashSet<String>,
+    /// The task whose message types are the ones in `env`.
+    types_of: Option<String>,
     bindings: BTreeMap<String, Vec<(String, Value)>>,
 }
 
@@ -528,7 +529,7 @@ impl Default for CelScope {
     fn default() -> Self {
         Self {
             env: Arc::new(Env::stdlib()),
-            registered: HashSet::new(),
+            types_of: None,
             bindings: BTreeMap::new(),
         }
     }
@@ -538,17 +539,19 @@ impl CelScope {
     pub fn new_ctx(&mut self, task: &dyn Task) -> Context<'static> {
         let task_id = task.id();
 
-        if !self.registered.contains(task_id) {
+        // Types of one name differ between services, and those of a service may only be known by the
+        // time its task is applied again.
+        if self.types_of.as_deref() != Some(task_id) {
             let types = task.cel_types();
-            if types.is_empty() {
-                self.registered.insert(task_id.to_string());
-            } else if let Some(env) = Arc::get_mut(&mut self.env) {
-                for type_def in types {
-                    env.add_struct(type_def);
+            if !types.is_empty() {
+                if let Some(env) = Arc::get_mut(&mut self.env) {
+                    for type_def in types {
+                        env.add_struct(type_def);
+                    }
+                    self.types_of = Some(task_id.to_string());
+                } else {
+                    error!("Failed to add CEL types: Arc refcount > 1");
                 }
-                self.registered.insert(task_id.to_string());
-            } else {
-                error!("Failed to add CEL types: Arc refcount > 1");
             }
         }
 
-- 
2.43.0


From 8765bd35ae316073b4b311d30420b02033d78a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 28/40] fix: compare the names of headers whatever their case

A header set under a name that is not in lower case was added beside the
client's header of that name instead of replacing it.
---
 crates/kuadrant-filter/src/data/headers.rs             | 10 +++++-----
 .../src/kuadrant/pipeline/tasks/headers.rs             |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/headers.rs b/crates/kuadrant-filter/src/data/headers.rs
index 53554ca..a6dd21e 100644
--- a/crates/kuadrant-filter/src/data/headers.rs
+++ b/crates/kuadrant-filter/src/data/headers.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
+/// Headers, looked up by name whatever its case.
 #[derive(Clone, Debug, PartialEq)]
-
 pub struct Headers(Vec<(String, String)>);
 
 impl Headers {
@@ -14,18 +14,18 @@ impl Headers {
     }
 
     pub fn set(&mut self, key: String, value: String) {
-        self.0.retain(|(k, _)| k != &key);
+        self.0.retain(|(k, _)| !k.eq_ignore_ascii_case(&key));
         self.0.push((key, value));
     }
 
     pub fn remove(&mut self, key: &str) {
-        self.0.retain(|(k, _)| k != key);
+        self.0.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
     }
 
     pub fn get_all(&self, key: &str) -> Vec<&str> {
         self.0
             .iter()
-            .filter(|(k, _)| k == key)
+            .filter(|(k, _)| k.eq_ignore_ascii_case(key))
             .map(|(_, v)| v.as_str())
             .collect()
     }
@@ -33,7 +33,7 @@ impl Headers {
     pub fn get(&self, key: &str) -> Option<&str> {
         self.0
             .iter()
-            .find(|(k, _)| k == key)
+            .find(|(k, _)| k.eq_ignore_ascii_case(key))
             .map(|(_, v)| v.as_str())
     }
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
index 48c510b..77f518e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
@@ -114,7 +114,8 @@ impl Task for ModifyHeadersTask {
                     HeaderOperation::Set(headers) => {
                         debug!("Setting {} headers", headers.len());
                         for (key, value) in headers.clone().into_inner() {
-                            existing_headers.set(key, value);
+                            // The host has the names of headers in lower case.
+                            existing_headers.set(key.to_ascii_lowercase(), value);
                         }
                     }
                     HeaderOperation::Remove(keys) => {
-- 
2.43.0


From bc0ace8dc687e93a0a37be14acdddee7fcf7048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 29/40] fix: quote the request id and the name of its header

A quote or backslash in either broke the expression that sets the header on
responses: the filter panicked, or set what a client chose.
---
 crates/kuadrant-filter/src/configuration.rs            |  2 +-
 .../src/configuration/legacy_translation.rs            |  2 +-
 .../kuadrant-filter/src/kuadrant/pipeline/blueprint.rs | 10 +++++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/configuration.rs b/crates/kuadrant-filter/src/configuration.rs
index 78d7c5d..44062f5 100644
--- a/crates/kuadrant-filter/src/configuration.rs
+++ b/crates/kuadrant-filter/src/configuration.rs
@@ -8,7 +8,7 @@ use serde::de::{Error, Visitor};
 use serde::{Deserialize, Deserializer};
 use std::time::Duration;
 
-mod legacy_translation;
+pub(crate) mod legacy_translation;
 #[allow(deprecated)]
 pub(crate) use legacy_translation::auth::translate_legacy_auth_to_typed;
 #[allow(deprecated)]
diff --git a/crates/kuadrant-filter/src/configuration/legacy_translation.rs b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
index 6e95e9c..20e3980 100644
--- a/crates/kuadrant-filter/src/configuration/legacy_translation.rs
+++ b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
@@ -3,7 +3,7 @@ use super::{
     GrpcOperation, HeadersOperation, HeadersTarget, Operation, StoreOperation, TypedAction,
 };
 
-fn escape_cel_string(s: &str) -> String {
+pub(crate) fn escape_cel_string(s: &str) -> String {
     s.replace('\\', "\\\\")
         .replace('"', "\\\"")
         .replace('\n', "\\n")
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 501d577..c30d764 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -1,3 +1,4 @@
+use crate::configuration::legacy_translation::escape_cel_string;
 #[allow(deprecated)]
 use crate::configuration::{
     self, translate_legacy_auth_to_typed, translate_legacy_ratelimit_to_typed,
@@ -99,9 +100,12 @@ impl Action {
                         #[allow(clippy::expect_used)]
                         let predicate = Predicate::new("true").expect("Needs to be valid!");
                         #[allow(clippy::expect_used)]
-                        let headers_expr =
-                            Expression::new(&format!("[['{var}', '{}']]", ctx.request_id()))
-                                .expect("Needs to be valid CEL!");
+                        let headers_expr = Expression::new(&format!(
+                            "[[\"{}\", \"{}\"]]",
+                            escape_cel_string(var),
+                            escape_cel_string(ctx.request_id())
+                        ))
+                        .expect("Needs to be valid CEL!");
                         Some(Box::new(ModifyHeadersTask::new(
                             self.id.clone(),
                             predicate,
-- 
2.43.0


From 015d414fc2c0392f0419814005870101c5f7b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 30/40] fix: leave the span of a request when it waits

The span stayed entered until the request ended, so that calls made for
other requests meanwhile were traced as part of it.
---
 .../kuadrant-filter/src/kuadrant/context.rs   | 40 ++++++++++++++-----
 .../src/kuadrant/pipeline/executor.rs         |  6 ++-
 .../kuadrant/pipeline/tasks/export_traces.rs  |  2 +-
 3 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 50d5df1..52e5210 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -68,7 +68,7 @@ impl ReqRespCtx {
         }
     }
 
-    pub fn enter_request_span(&mut self) {
+    pub fn start_request_span(&mut self) {
         let span = tracing::info_span!(
             "kuadrant_filter",
             action_set = tracing::field::Empty,
@@ -86,12 +86,27 @@ impl ReqRespCtx {
             if let Some(hostname) = &self.tracing.hostname {
                 span.record("hostname", hostname.as_str());
             }
-            self.tracing.request_span_guard = Some(span.entered());
+            self.tracing.request_span = RequestSpan::Exited(span);
         }
     }
 
+    /// What follows belongs to the span of this request, until it is exited or ended.
+    pub fn enter_request_span(&mut self) {
+        self.tracing.request_span = match std::mem::take(&mut self.tracing.request_span) {
+            RequestSpan::Exited(span) => RequestSpan::Entered(span.entered()),
+            other => other,
+        };
+    }
+
+    pub fn exit_request_span(&mut self) {
+        self.tracing.request_span = match std::mem::take(&mut self.tracing.request_span) {
+            RequestSpan::Entered(guard) => RequestSpan::Exited(guard.exit()),
+            other => other,
+        };
+    }
+
     pub fn end_request_span(&mut self) {
-        std::mem::drop(self.tracing.request_span_guard.take());
+        self.tracing.request_span = RequestSpan::None;
     }
 
     pub fn set_action_set_name(&mut self, name: String) {
@@ -347,10 +362,9 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
-        let context = if self.tracing.request_span_guard.is_some() {
-            &tracing::Span::current().context()
-        } else {
-            &self.tracing.otel_context
+        let context = match self.tracing.request_span {
+            RequestSpan::Entered(_) => &tracing::Span::current().context(),
+            _ => &self.tracing.otel_context,
         };
 
         opentelemetry::global::get_text_map_propagator(|propagator| {
@@ -413,9 +427,17 @@ impl Tracker {
     }
 }
 
+#[derive(Default)]
+enum RequestSpan {
+    #[default]
+    None,
+    Exited(tracing::Span),
+    Entered(tracing::span::EnteredSpan),
+}
+
 struct TracingContext {
     otel_context: opentelemetry::Context,
-    request_span_guard: Option<tracing::span::EnteredSpan>,
+    request_span: RequestSpan,
     action_set_name: Option<String>,
     hostname: Option<String>,
 }
@@ -424,7 +446,7 @@ impl Default for TracingContext {
     fn default() -> Self {
         Self {
             otel_context: opentelemetry::Context::new(),
-            request_span_guard: None,
+            request_span: RequestSpan::None,
             action_set_name: None,
             hostname: None,
         }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index e92261a..d649490 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -29,7 +29,9 @@ pub struct Pipeline {
 }
 
 impl From<Pipeline> for PipelineState {
-    fn from(pipeline: Pipeline) -> Self {
+    fn from(mut pipeline: Pipeline) -> Self {
+        // other requests run before this one does again
+        pipeline.ctx.exit_request_span();
         if pipeline.task_queue.is_empty() && pipeline.deferred_tasks.is_empty() {
             PipelineState::Completed {
                 should_resume: pipeline.terminated.not(),
@@ -147,6 +149,7 @@ impl Pipeline {
     }
 
     pub fn eval(mut self) -> PipelineState {
+        self.ctx.enter_request_span();
         // what some read of a body, others may use
         for task in &mut self.task_queue {
             task.observe(&mut self.ctx);
@@ -175,6 +178,7 @@ impl Pipeline {
         status_code: u32,
         response_size: usize,
     ) -> PipelineState {
+        self.ctx.enter_request_span();
         if let Some(pending) = self.deferred_tasks.remove(&token_id) {
             match self.ctx.set_grpc_response_data(status_code, response_size) {
                 Ok(_) => {}
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
index e88cc88..5dd10a4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
@@ -10,7 +10,7 @@ pub struct ExportTracesTask {
 
 impl ExportTracesTask {
     pub fn new(ctx: &mut ReqRespCtx, service: Arc<TracingService>) -> Self {
-        ctx.enter_request_span();
+        ctx.start_request_span();
         Self { service }
     }
 }
-- 
2.43.0


From 4d38007bfa1061a7061cd2f7ea07a29fa181e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 31/40] fix: pass the request's trace context on when its span
 is not exported

With a level that leaves the span out of the export, calls lost the
request's traceparent, tracestate and baggage.
---
 crates/kuadrant-filter/src/kuadrant/context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 52e5210..648560c 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -1,4 +1,5 @@
 use cel::{Context, Env, Value};
+use opentelemetry::trace::TraceContextExt;
 use std::cell::OnceCell;
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
@@ -362,8 +363,10 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
+        let current = tracing::Span::current().context();
         let context = match self.tracing.request_span {
-            RequestSpan::Entered(_) => &tracing::Span::current().context(),
+            // a span that is not exported has no context of its own
+            RequestSpan::Entered(_) if current.has_active_span() => &current,
             _ => &self.tracing.otel_context,
         };
 
-- 
2.43.0


From e5d12f453ce5b86914b0fe32fcf8090b741a442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 32/40] fix: record no spans when tracing is not configured

---
 crates/kuadrant-filter/src/tracing/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/tracing/mod.rs b/crates/kuadrant-filter/src/tracing/mod.rs
index 1f23bdc..bd3565b 100644
--- a/crates/kuadrant-filter/src/tracing/mod.rs
+++ b/crates/kuadrant-filter/src/tracing/mod.rs
@@ -14,7 +14,7 @@ use tracing_subscriber::layer::SubscriberExt;
 use tracing_subscriber::util::SubscriberInitExt;
 use tracing_subscriber::{reload, Layer};
 
-type OtelFilterHandle = reload::Handle<Option<LevelFilter>, tracing_subscriber::Registry>;
+type OtelFilterHandle = reload::Handle<LevelFilter, tracing_subscriber::Registry>;
 
 type LogFilterHandle = reload::Handle<
     LevelFilter,
@@ -24,7 +24,7 @@ type LogFilterHandle = reload::Handle<
                 tracing_subscriber::Registry,
                 opentelemetry_sdk::trace::Tracer,
             >,
-            reload::Layer<Option<LevelFilter>, tracing_subscriber::Registry>,
+            reload::Layer<LevelFilter, tracing_subscriber::Registry>,
             tracing_subscriber::Registry,
         >,
         tracing_subscriber::Registry,
@@ -36,7 +36,7 @@ static LOG_FILTER_HANDLE: OnceLock<LogFilterHandle> = OnceLock::new();
 
 pub fn init_observability(use_tracing: bool, log_level: Option<&str>, initial_filter: LevelFilter) {
     let otel_filter = if use_tracing {
-        Some(match log_level {
+        match log_level {
             Some("TRACE") => LevelFilter::TRACE,
             Some("DEBUG") => LevelFilter::DEBUG,
             Some("INFO") => LevelFilter::INFO,
@@ -44,9 +44,9 @@ pub fn init_observability(use_tracing: bool, log_level: Option<&str>, initial_fi
             Some("ERROR") => LevelFilter::ERROR,
             Some("OFF") => LevelFilter::OFF,
             _ => LevelFilter::WARN,
-        })
+        }
     } else {
-        None
+        LevelFilter::OFF
     };
 
     if let Some(otel_handle) = OTEL_FILTER_HANDLE.get() {
-- 
2.43.0


From 40a8451d1f7576ce5238ec16bad8bc8ac3d7e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 33/40] fix: a refused configuration does not change what is
 traced

---
 crates/wasm-shim/src/filter/root_context.rs | 27 ++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/wasm-shim/src/filter/root_context.rs b/crates/wasm-shim/src/filter/root_context.rs
index b2ae6e7..ec4d4b6 100644
--- a/crates/wasm-shim/src/filter/root_context.rs
+++ b/crates/wasm-shim/src/filter/root_context.rs
@@ -18,6 +18,7 @@ pub struct FilterRoot {
     pub pipeline_factory: Arc<PipelineFactory>,
     pub descriptor_manager: Arc<DescriptorManager>,
     tick_enabled: bool,
+    observability_initialised: bool,
 }
 
 impl FilterRoot {
@@ -27,6 +28,7 @@ impl FilterRoot {
             pipeline_factory: Arc::new(PipelineFactory::default()),
             descriptor_manager: Arc::new(DescriptorManager::default()),
             tick_enabled: false,
+            observability_initialised: false,
         }
     }
 
@@ -143,14 +145,27 @@ impl RootContext for FilterRoot {
         match serde_json::from_slice::<PluginConfiguration>(&configuration) {
             Ok(config) => {
                 let use_tracing_exporter = config.observability.tracing.is_some();
-                kuadrant_filter::tracing::init_observability(
-                    use_tracing_exporter,
-                    config.observability.default_level.as_deref(),
-                    crate::wasm_host::current_log_filter(),
-                );
+                let default_level = config.observability.default_level.clone();
+                let init_observability = || {
+                    kuadrant_filter::tracing::init_observability(
+                        use_tracing_exporter,
+                        default_level.as_deref(),
+                        crate::wasm_host::current_log_filter(),
+                    )
+                };
+                // The very first configuration needs its errors logged, any later one only
+                // gets to change what is traced once it is in force
+                let first = !std::mem::replace(&mut self.observability_initialised, true);
+                if first {
+                    init_observability();
+                }
 
                 info!("plugin config parsed: {:?}", config);
-                self.process_config(config)
+                let accepted = self.process_config(config);
+                if accepted && !first {
+                    init_observability();
+                }
+                accepted
             }
             Err(e) => {
                 log::error!("failed to parse plugin config: {}", e);
-- 
2.43.0


From 4b860372e45da2407aa27a9b9315cd1aa62786ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 34/40] fix: calls continue the request's trace when only the
 log sees the current span

---
 crates/kuadrant-filter/src/kuadrant/context.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 648560c..0c89567 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -363,12 +363,16 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
-        let current = tracing::Span::current().context();
-        let context = match self.tracing.request_span {
-            // a span that is not exported has no context of its own
-            RequestSpan::Entered(_) if current.has_active_span() => &current,
-            _ => &self.tracing.otel_context,
+        // a span that is not exported has no context of its own
+        let of_span = match &self.tracing.request_span {
+            RequestSpan::Entered(request_span) => {
+                [tracing::Span::current().context(), request_span.context()]
+                    .into_iter()
+                    .find(|context| context.has_active_span())
+            }
+            _ => None,
         };
+        let context = of_span.as_ref().unwrap_or(&self.tracing.otel_context);
 
         opentelemetry::global::get_text_map_propagator(|propagator| {
             let mut injector = crate::tracing::HeadersInjector::new(&mut headers);
-- 
2.43.0


From 7efd39566368a2605bd34452c60b4a1b95f3224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 35/40] fix: descriptors of a refused configuration's services
 are not fetched

---
 .../kuadrant-filter/src/kuadrant/pipeline/factory.rs |  5 +++++
 crates/kuadrant-filter/src/services/dynamic.rs       | 10 ++++++++--
 crates/kuadrant-filter/src/services/mod.rs           | 12 ++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index ee5aa79..de5bee6 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -127,6 +127,11 @@ impl PipelineFactory {
             }
         }
 
+        // Nothing of a refused configuration gets fetched
+        services
+            .values()
+            .for_each(ServiceInstance::expect_descriptors);
+
         Ok(Self {
             index,
             request_data: Arc::new(request_data),
diff --git a/crates/kuadrant-filter/src/services/dynamic.rs b/crates/kuadrant-filter/src/services/dynamic.rs
index 27d4ebc..8270fce 100644
--- a/crates/kuadrant-filter/src/services/dynamic.rs
+++ b/crates/kuadrant-filter/src/services/dynamic.rs
@@ -33,8 +33,6 @@ impl DynamicService {
         failure_mode: FailureMode,
         descriptor_manager: Arc<DescriptorManager>,
     ) -> Self {
-        descriptor_manager.add_expected(DescriptorKey::new(endpoint.clone(), grpc_service.clone()));
-
         Self {
             upstream_name: endpoint,
             service_name: grpc_service,
@@ -45,6 +43,14 @@ impl DynamicService {
         }
     }
 
+    /// Has the descriptors of the service looked after, from here on
+    pub fn expect_descriptors(&self) {
+        self.descriptor_manager.add_expected(DescriptorKey::new(
+            self.upstream_name.clone(),
+            self.service_name.clone(),
+        ));
+    }
+
     pub fn failure_mode(&self) -> FailureMode {
         self.failure_mode
     }
diff --git a/crates/kuadrant-filter/src/services/mod.rs b/crates/kuadrant-filter/src/services/mod.rs
index b0e351b..fd18d90 100644
--- a/crates/kuadrant-filter/src/services/mod.rs
+++ b/crates/kuadrant-filter/src/services/mod.rs
@@ -34,6 +34,18 @@ impl ServiceInstance {
         }
     }
 
+    /// To be called once the configuration with the service is known to be good
+    pub fn expect_descriptors(&self) {
+        match self {
+            ServiceInstance::Tracing(_) => {}
+            ServiceInstance::Auth(service)
+            | ServiceInstance::RateLimit(service)
+            | ServiceInstance::RateLimitCheck(service)
+            | ServiceInstance::RateLimitReport(service)
+            | ServiceInstance::Dynamic(service) => service.expect_descriptors(),
+        }
+    }
+
     pub fn from_config(
         service: ServiceConfig,
         descriptor_manager: &Arc<DescriptorManager>,
-- 
2.43.0


From 41088c5c882684cbab607ad7997dd027bff318ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 36/40] fix: hold the end of a response until every call is
 answered

The first answer to arrive released it, even with other calls outstanding,
which the host then drops.
---
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 1493858..f9950bd 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -12,6 +12,7 @@ pub struct KuadrantFilter {
     factory: Arc<PipelineFactory>,
     pipeline: Option<Pipeline>,
     in_response_phase: bool,
+    response_ended: bool,
     force_resume: bool,
     denied: bool,
 }
@@ -23,6 +24,7 @@ impl KuadrantFilter {
             factory,
             pipeline: None,
             in_response_phase: false,
+            response_ended: false,
             force_resume: false,
             denied: false,
         }
@@ -32,6 +34,15 @@ impl KuadrantFilter {
         self.pipeline.as_ref().is_some_and(|p| p.requires_pause())
     }
 
+    /// The end of a response waits for every call, not just for those that hold it up
+    fn holds_response_end(&self) -> bool {
+        self.response_ended
+            && self
+                .pipeline
+                .as_ref()
+                .is_some_and(|p| p.has_outstanding_calls())
+    }
+
     #[allow(clippy::expect_used)]
     fn should_resume(&self) -> bool {
         let pipeline = self.pipeline.as_ref().expect("pipeline must be present");
@@ -54,7 +65,7 @@ impl Context for KuadrantFilter {
             let should_resume = match pipeline.digest(token_id, status_code, response_size) {
                 PipelineState::InProgress(p) => {
                     self.pipeline = Some(*p);
-                    self.should_resume()
+                    self.should_resume() && self.holds_response_end().not()
                 }
                 PipelineState::Completed { should_resume } => {
                     self.pipeline = None;
@@ -219,6 +230,7 @@ impl HttpContext for KuadrantFilter {
 
     fn on_http_response_body(&mut self, buffer_size: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_body", self.context_id);
+        self.response_ended |= end_of_stream;
         if let Some(mut pipeline) = self.pipeline.take() {
             pipeline
                 .ctx
@@ -237,22 +249,16 @@ impl HttpContext for KuadrantFilter {
         if self.should_pause() {
             trace!("on_http_response_body: pause");
             Action::Pause
+        } else if self.holds_response_end() {
+            trace!("on_http_response_body: calls outstanding, pause");
+            self.force_resume = true;
+            Action::Pause
         } else {
-            let outstanding_calls = self
-                .pipeline
-                .as_ref()
-                .is_some_and(|p| p.has_outstanding_calls());
-            if outstanding_calls && end_of_stream {
-                trace!("on_http_response_body: calls outstanding, pause");
-                self.force_resume = true;
-                Action::Pause
-            } else {
-                trace!("on_http_response_body: continue");
-                if let Some(pipeline) = &mut self.pipeline {
-                    pipeline.ctx.response_body.release();
-                }
-                Action::Continue
+            trace!("on_http_response_body: continue");
+            if let Some(pipeline) = &mut self.pipeline {
+                pipeline.ctx.response_body.release();
             }
+            Action::Continue
         }
     }
 
-- 
2.43.0


From 500e7ffbcf517db61341dbc95db4975e9492e706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:38 +0000
Subject: [PATCH 37/40] fix: wait for the values of a denial

---
 .../src/kuadrant/pipeline/tasks/send_reply.rs              | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index b6e2791..4245fe9 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -82,8 +82,11 @@ impl Task for SendReplyTask {
         let (status_code, headers, body) = {
             match self.deny_with.eval(ctx, &mut cel_ctx) {
                 Ok(AttributeState::Pending) => {
-                    error!("Unexpected pending state in deny expression");
-                    return TaskOutcome::Failed;
+                    return if self.deny_with.is_missing_body_values(ctx) {
+                        TaskOutcome::Failed
+                    } else {
+                        TaskOutcome::Requeued(vec![self])
+                    };
                 }
                 Ok(AttributeState::Available(val @ Value::Struct(_))) => {
                     let Value::Struct(deny_response) = val else {
-- 
2.43.0


From cb1e3664e8394690f23ce91f7afef3d02a0ee541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 38/40] fix: tell requestData over auth and the body by what it
 reads

---
 .../src/configuration/legacy_translation.rs       | 15 ++++++++++++---
 crates/kuadrant-filter/src/data/cel.rs            | 10 ++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/configuration/legacy_translation.rs b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
index 20e3980..7cbc539 100644
--- a/crates/kuadrant-filter/src/configuration/legacy_translation.rs
+++ b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
@@ -2,6 +2,7 @@ use super::{
     Action, ConditionalData, DataItem, DataType, DenyOperation, Execution, FailOperation,
     GrpcOperation, HeadersOperation, HeadersTarget, Operation, StoreOperation, TypedAction,
 };
+use crate::data::Expression;
 
 pub(crate) fn escape_cel_string(s: &str) -> String {
     s.replace('\\', "\\\\")
@@ -11,6 +12,14 @@ pub(crate) fn escape_cel_string(s: &str) -> String {
         .replace('\t', "\\t")
 }
 
+fn reads_response_body(expr: &str) -> bool {
+    Expression::new(expr).is_ok_and(|e| e.calls("responseBodyJSON"))
+}
+
+fn reads_auth(expr: &str) -> bool {
+    Expression::new(expr).is_ok_and(|e| e.uses("auth"))
+}
+
 fn join_predicates(predicates: &[String], op: &str) -> String {
     match predicates.len() {
         0 => "true".to_string(),
@@ -273,7 +282,7 @@ pub(super) mod ratelimit {
 
         let request_only_data: Vec<_> = request_data
             .iter()
-            .filter(|((_domain, _field), expr)| !expr.contains("responseBodyJSON("))
+            .filter(|((_domain, _field), expr)| !reads_response_body(expr))
             .cloned()
             .collect();
 
@@ -797,7 +806,7 @@ pub(super) mod auth {
     use std::collections::HashMap;
 
     fn build_request_data_value_cel(field_expr: &str) -> String {
-        if field_expr.contains("auth.") {
+        if reads_auth(field_expr) {
             format!(
                 r#"google.protobuf.Value{{struct_value: google.protobuf.Struct{{fields: {{"cel_expr": google.protobuf.Value{{string_value: "{escaped_expr}"}}}}}}}}"#,
                 escaped_expr = escape_cel_string(field_expr)
@@ -866,7 +875,7 @@ pub(super) mod auth {
     ) -> String {
         let request_only_data: Vec<_> = request_data
             .iter()
-            .filter(|((_domain, _field), expr)| !expr.contains("responseBodyJSON("))
+            .filter(|((_domain, _field), expr)| !reads_response_body(expr))
             .cloned()
             .collect();
 
diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 381b7e6..a398ab8 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -334,6 +334,16 @@ impl Expression {
         }
     }
 
+    /// Whether the expression calls a function of this name, however it is written.
+    pub fn calls(&self, function: &str) -> bool {
+        self.expression.references().has_function(function)
+    }
+
+    /// Whether the expression uses a variable of this name, however it is written.
+    pub fn uses(&self, variable: &str) -> bool {
+        self.expression.references().has_variable(variable)
+    }
+
     pub fn has_request_body_deps(&self) -> bool {
         !self.request_body_values.is_empty()
     }
-- 
2.43.0


From 3a048805b6c5c04cd43bba3f578d5112aeca689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 39/40] fix: a refused configuration of a new root context
 changes no traces

---
 crates/kuadrant-filter/src/tracing/mod.rs   | 4 ++++
 crates/wasm-shim/src/filter/root_context.rs | 8 +++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/tracing/mod.rs b/crates/kuadrant-filter/src/tracing/mod.rs
index bd3565b..d950b97 100644
--- a/crates/kuadrant-filter/src/tracing/mod.rs
+++ b/crates/kuadrant-filter/src/tracing/mod.rs
@@ -80,6 +80,10 @@ pub fn init_observability(use_tracing: bool, log_level: Option<&str>, initial_fi
     }
 }
 
+pub fn is_initialised() -> bool {
+    OTEL_FILTER_HANDLE.get().is_some()
+}
+
 pub fn set_log_level(filter: LevelFilter) {
     if let Some(log_handle) = LOG_FILTER_HANDLE.get() {
         if let Err(e) = log_handle.reload(filter) {
diff --git a/crates/wasm-shim/src/filter/root_context.rs b/crates/wasm-shim/src/filter/root_context.rs
index ec4d4b6..9e6fa42 100644
--- a/crates/wasm-shim/src/filter/root_context.rs
+++ b/crates/wasm-shim/src/filter/root_context.rs
@@ -18,7 +18,6 @@ pub struct FilterRoot {
     pub pipeline_factory: Arc<PipelineFactory>,
     pub descriptor_manager: Arc<DescriptorManager>,
     tick_enabled: bool,
-    observability_initialised: bool,
 }
 
 impl FilterRoot {
@@ -28,7 +27,6 @@ impl FilterRoot {
             pipeline_factory: Arc::new(PipelineFactory::default()),
             descriptor_manager: Arc::new(DescriptorManager::default()),
             tick_enabled: false,
-            observability_initialised: false,
         }
     }
 
@@ -153,9 +151,9 @@ impl RootContext for FilterRoot {
                         crate::wasm_host::current_log_filter(),
                     )
                 };
-                // The very first configuration needs its errors logged, any later one only
-                // gets to change what is traced once it is in force
-                let first = !std::mem::replace(&mut self.observability_initialised, true);
+                // The very first configuration of the VM needs its errors logged, any later one
+                // only gets to change what is traced once it is in force
+                let first = !kuadrant_filter::tracing::is_initialised();
                 if first {
                     init_observability();
                 }
-- 
2.43.0


From 50b23805b9e823ddea9aa1c964932d6bbaed8a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:36 +0000
Subject: [PATCH 40/40] fix: a denial whose status does not fit 32 bits is
 answered 500 instead of with its lower bits

---
 .../kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 4245fe9..21bdd8c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -97,7 +97,7 @@ impl Task for SendReplyTask {
                     let status = deny_response
                         .field_value("status")
                         .and_then(|v| v.downcast_ref::<CelUInt>())
-                        .map(|v| *v.inner() as u32);
+                        .and_then(|v| u32::try_from(*v.inner()).ok());
 
                     let body = deny_response
                         .field_value("body")
-- 
2.43.0

