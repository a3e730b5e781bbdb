From 49adb927491df5a36798666d3552c30565b0f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 01/37] fix: escape the path and error text of a failed divert
 in JSON issues

---
 rinklecate/src/player.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rinklecate/src/player.rs b/rinklecate/src/player.rs
index 679b1d8..22390a1 100644
--- a/rinklecate/src/player.rs
+++ b/rinklecate/src/player.rs
@@ -140,8 +140,8 @@ pub fn play(mut story: Story, opts: &Options) -> anyhow::Result<()> {
                         if opts.json_output {
                             println!(
                                 "{{\"issues\": [\"Error diverting to '{}': {}\"]}}",
-                                path,
-                                e.to_string().replace('"', "\\\"")
+                                escape_json_string(&path),
+                                escape_json_string(&e.to_string())
                             );
                         } else {
                             eprintln!("<error diverting to '{path}': {e}>");
-- 
2.43.0


From 48b99f46272ed28e73f1b5bfb8c9f7e5725a3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 02/37] fix: escape control characters in the tool's JSON
 output

---
 rinklecate/src/player.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rinklecate/src/player.rs b/rinklecate/src/player.rs
index 22390a1..a26c8bd 100644
--- a/rinklecate/src/player.rs
+++ b/rinklecate/src/player.rs
@@ -271,6 +271,7 @@ fn escape_json_string(s: &str) -> String {
             '\n' => out.push_str("\\n"),
             '\r' => out.push_str("\\r"),
             '\t' => out.push_str("\\t"),
+            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
             c => out.push(c),
         }
     }
-- 
2.43.0


From 830a167ff38eada51f2a89403e52ce9a9de4d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 03/37] fix: do not report warnings again on later continues

---
 runtime/src/story/mod.rs      |  2 ++
 runtime/src/story/progress.rs | 14 +++++++++++---
 runtime/src/story_state.rs    |  5 +++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index e9c369f..f515b54 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -32,6 +32,7 @@ pub struct Story {
     recursive_continue_count: usize,
     async_continue_active: bool,
     async_saving: bool,
+    warnings_reported: bool,
     prev_containers: Vec<Rc<Container>>,
     list_definitions: Rc<ListDefinitionsOrigin>,
     pub(crate) on_error: Option<Rc<RefCell<dyn ErrorHandler>>>,
@@ -73,6 +74,7 @@ mod misc {
                 recursive_continue_count: 0,
                 async_continue_active: false,
                 async_saving: false,
+                warnings_reported: false,
                 saw_lookahead_unsafe_function_after_new_line: false,
                 state_snapshot_at_last_new_line: None,
                 on_error: None,
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 5c5ca7d..bcbed98 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -85,6 +85,12 @@ impl Story {
 
             self.get_state_mut().set_did_safe_exit(false);
 
+            // The host had the chance to read these after the last continue
+            if self.warnings_reported {
+                self.get_state_mut().reset_warnings();
+                self.warnings_reported = false;
+            }
+
             self.get_state_mut().reset_output(None);
 
             // It's possible for ink to call game to call ink to call game etc
@@ -217,8 +223,11 @@ impl Story {
 
                     self.reset_errors();
                 }
-                // No error handler: throw for errors, silently discard warnings
+                // No error handler: throw for errors, leave warnings readable
+                // until the next continue
                 None => {
+                    self.warnings_reported = true;
+
                     if self.get_state().has_error() {
                         let mut sb = String::new();
                         sb.push_str("Ink had ");
@@ -247,10 +256,9 @@ impl Story {
                         sb.push_str(self.get_state().get_current_errors()[0].as_str());
                         return Err(StoryError::InvalidStoryState(sb));
                     }
-                    // Only warnings and no handler: discard silently (consistent
+                    // Only warnings and no handler: don't throw (consistent
                     // with the C# reference implementation which does not throw
                     // for warnings without a handler).
-                    self.reset_errors();
                 }
             }
         }
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index b9886d1..dddbe40 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1474,5 +1474,10 @@ impl StoryState {
 
     pub(crate) fn reset_errors(&mut self) {
         self.current_errors.clear();
+        self.current_warnings.clear();
+    }
+
+    pub(crate) fn reset_warnings(&mut self) {
+        self.current_warnings.clear();
     }
 }
-- 
2.43.0


From 9afd397007e00aade7b49c3d9c10c9e13e70d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 04/37] fix: report errors and warnings only once a sliced
 continue has completed

---
 runtime/src/story/progress.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index bcbed98..ac6b95c 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -206,7 +206,11 @@ impl Story {
         // Report any errors that occured during evaluation.
         // This may either have been StoryExceptions that were thrown
         // and caught during evaluation, or directly added with AddError.
-        if self.get_state().has_error() || self.get_state().has_warning() {
+        // While a time-limited continue is paused the current state may still be
+        // rewound, so wait until the line is complete.
+        if !self.async_continue_active
+            && (self.get_state().has_error() || self.get_state().has_warning())
+        {
             match &self.on_error {
                 Some(on_err) => {
                     if self.get_state().has_error() {
-- 
2.43.0


From dceccc760c2dda2c425f1d40677a2a8b01dd4382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 05/37] fix: refuse only look-ahead-unsafe externals inside
 string evaluation

The guard tested lookahead_safe where its message (and the snapshot
rewinding it protects) is about functions that are not look-ahead safe, so
safe functions were refused inside strings and choice text while unsafe ones
were run there.
---
 runtime/src/story/external_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 177dc8a..1829228 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -94,7 +94,7 @@ impl Story {
         // Should this function break glue? Abort run if we've already seen a newline.
         // Set a bool to tell it to restore the snapshot at the end of this instruction.
         if let Some(func_def) = self.externals.get(func_name) {
-            if func_def.lookahead_safe && self.get_state().in_string_evaluation() {
+            if !func_def.lookahead_safe && self.get_state().in_string_evaluation() {
                 // 16th Jan 2023: Example ink that was failing:
                 //
                 //      A line above
-- 
2.43.0


From 0eb48d9847d066babdc7f5a137ca8a2af6399719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 06/37] fix: reject a continue that is not possible before
 changing the story's state

---
 runtime/src/story/progress.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index ac6b95c..e294459 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -70,6 +70,13 @@ impl Story {
     ) -> Result<(), StoryError> {
         let is_async_time_limited = millisecs_limit_async > 0.0;
 
+        // Refuse before touching anything, so that a rejected call leaves no trace
+        if !self.async_continue_active && !self.can_continue() {
+            return Err(StoryError::InvalidStoryState(
+                "Can't continue - should check can_continue before calling Continue".to_owned(),
+            ));
+        }
+
         self.recursive_continue_count += 1;
 
         // Doing either:
@@ -77,12 +84,6 @@ impl Story {
         // - Starting async run-through
         if !self.async_continue_active {
             self.async_continue_active = is_async_time_limited;
-            if !self.can_continue() {
-                return Err(StoryError::InvalidStoryState(
-                    "Can't continue - should check can_continue before calling Continue".to_owned(),
-                ));
-            }
-
             self.get_state_mut().set_did_safe_exit(false);
 
             // The host had the chance to read these after the last continue
-- 
2.43.0


From 32158d0eebc0411a27814a27df3222cb27e453d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 07/37] fix: notify variable observers of a continue that ends
 in an error

---
 runtime/src/story/progress.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index e294459..2c524b4 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -204,6 +204,8 @@ impl Story {
 
         self.recursive_continue_count -= 1;
 
+        let mut outcome = Ok(());
+
         // Report any errors that occured during evaluation.
         // This may either have been StoryExceptions that were thrown
         // and caught during evaluation, or directly added with AddError.
@@ -259,7 +261,7 @@ impl Story {
                         }
                         sb.push_str(". It is strongly suggested that you assign an error handler to story.onError. The first issue was: ");
                         sb.push_str(self.get_state().get_current_errors()[0].as_str());
-                        return Err(StoryError::InvalidStoryState(sb));
+                        outcome = Err(StoryError::InvalidStoryState(sb));
                     }
                     // Only warnings and no handler: don't throw (consistent
                     // with the C# reference implementation which does not throw
@@ -275,7 +277,7 @@ impl Story {
             }
         }
 
-        Ok(())
+        outcome
     }
 
     pub(crate) fn continue_single_step(&mut self) -> Result<bool, StoryError> {
-- 
2.43.0


From b6083c63847b92ea6819aa397173be13a2386ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 08/37] fix: removing an unregistered variable observer is an
 error, not a panic

---
 runtime/src/story/variable_observer.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/runtime/src/story/variable_observer.rs b/runtime/src/story/variable_observer.rs
index e53e7cc..ede54e7 100644
--- a/runtime/src/story/variable_observer.rs
+++ b/runtime/src/story/variable_observer.rs
@@ -62,12 +62,25 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("remove a variable observer")?;
 
+        let is_observing =
+            |v: &Vec<Rc<RefCell<dyn VariableObserver>>>| v.iter().any(|x| Rc::ptr_eq(x, observer));
+
+        let observes_any = match specific_variable_name {
+            Some(name) => self.variable_observers.get(name).is_some_and(is_observing),
+            None => self.variable_observers.values().any(is_observing),
+        };
+
+        if !observes_any {
+            return Err(StoryError::BadArgument(
+                "Cannot remove a variable observer that isn't registered.".to_owned(),
+            ));
+        }
+
         // Remove observer for this specific variable
         match specific_variable_name {
             Some(specific_variable_name) => {
                 if let Some(v) = self.variable_observers.get_mut(specific_variable_name) {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
+                    v.retain(|x| !Rc::ptr_eq(x, observer));
 
                     if v.is_empty() {
                         self.variable_observers.remove(specific_variable_name);
@@ -79,8 +92,7 @@ impl Story {
                 let mut keys_to_remove = Vec::new();
 
                 for (k, v) in self.variable_observers.iter_mut() {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
+                    v.retain(|x| !Rc::ptr_eq(x, observer));
 
                     if v.is_empty() {
                         keys_to_remove.push(k.to_string());
-- 
2.43.0


From a89faff5b80ae05a4fc3b6200756a60694cfc21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 09/37] fix: removing a flow that doesn't exist is an error,
 not a panic

---
 runtime/src/story_state.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index dddbe40..78ab667 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1447,12 +1447,25 @@ impl StoryState {
             ));
         }
 
+        let is_parked = self
+            .named_flows
+            .as_ref()
+            .is_some_and(|named_flows| named_flows.contains_key(flow_name));
+
+        if !is_parked && !self.current_flow.name.eq(flow_name) {
+            return Err(StoryError::BadArgument(format!(
+                "Cannot remove flow '{flow_name}' because it doesn't exist"
+            )));
+        }
+
         // If we're currently in the flow that's being removed, switch back to default
         if self.current_flow.name.eq(flow_name) {
             self.switch_to_default_flow_internal();
         }
 
-        self.named_flows.as_mut().unwrap().remove(flow_name);
+        if let Some(named_flows) = self.named_flows.as_mut() {
+            named_flows.remove(flow_name);
+        }
         self.alive_flow_names_dirty = true;
 
         Ok(())
-- 
2.43.0


From ff0fe645507ae02599fe868e2421d56b624a5513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 10/37] fix: refuse state-changing calls while a time-limited
 continue is unfinished

---
 runtime/src/story/choices.rs | 2 ++
 runtime/src/story/flow.rs    | 8 +++++++-
 runtime/src/story/state.rs   | 4 ++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index c9ed16e..a98733b 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -12,6 +12,8 @@ impl Story {
     /// [`Choice`](crate::choice::Choice) points to, ready
     /// to continue story evaluation.
     pub fn choose_choice_index(&mut self, choice_index: usize) -> Result<(), StoryError> {
+        self.if_async_we_cant("choose a choice")?;
+
         let choices = self.get_current_choices();
         if choice_index >= choices.len() {
             return Err(StoryError::BadArgument("choice out of range".to_owned()));
diff --git a/runtime/src/story/flow.rs b/runtime/src/story/flow.rs
index 230ecc8..6181983 100644
--- a/runtime/src/story/flow.rs
+++ b/runtime/src/story/flow.rs
@@ -29,12 +29,18 @@ impl Story {
 
     /// Removes the specified flow from the story.
     pub fn remove_flow(&mut self, flow_name: &str) -> Result<(), StoryError> {
+        self.if_async_we_cant("remove a flow")?;
+
         self.get_state_mut().remove_flow_internal(flow_name)
     }
 
     /// Switches to the default flow, keeping the current flow around for
     /// later.
-    pub fn switch_to_default_flow(&mut self) {
+    pub fn switch_to_default_flow(&mut self) -> Result<(), StoryError> {
+        self.if_async_we_cant("switch to the default flow")?;
+
         self.get_state_mut().switch_to_default_flow_internal();
+
+        Ok(())
     }
 }
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 43cb81f..f6c09ff 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -50,6 +50,8 @@ impl Story {
         variable_name: &str,
         value_type: &ValueType,
     ) -> Result<(), StoryError> {
+        self.if_async_we_cant("set a variable")?;
+
         let notify_observers = self
             .get_state_mut()
             .variables_state
@@ -118,6 +120,8 @@ impl Story {
 
     /// Loads a previously saved state in JSON format.
     pub fn load_state(&mut self, json_state: &str) -> Result<(), StoryError> {
+        self.if_async_we_cant("load a saved state")?;
+
         self.get_state_mut().load_json(json_state)
     }
 
-- 
2.43.0


From 12ab7339c50a0d121a549f36ea13241c3c9d890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 11/37] fix: check the path and arguments of choose_path_string
 before changing the story

---
 runtime/src/story/navigation.rs | 12 +++++++++++-
 runtime/src/story_state.rs      | 19 ++++++++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index eee8c6e..25ffb0d 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -7,6 +7,7 @@ use crate::{
     search_result::SearchResult,
     story::Story,
     story_error::StoryError,
+    story_state::StoryState,
     value_type::ValueType,
 };
 use std::rc::Rc;
@@ -68,6 +69,15 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("call ChoosePathString right now")?;
 
+        // Refuse a bad target or bad arguments before changing anything
+        let target_path = Path::new_with_components_string(Some(path));
+        if target_path.is_empty() || self.content_at_path(&target_path).approximate {
+            return Err(StoryError::BadArgument(format!(
+                "Cannot choose path '{path}' because it doesn't exist in the story"
+            )));
+        }
+        StoryState::check_arguments(args)?;
+
         if reset_call_stack {
             self.reset_callstack()?;
         } else {
@@ -108,7 +118,7 @@ impl Story {
 
         self.get_state_mut()
             .pass_arguments_to_evaluation_stack(args)?;
-        self.choose_path(&Path::new_with_components_string(Some(path)), true)?;
+        self.choose_path(&target_path, true)?;
 
         Ok(())
     }
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 78ab667..bea271d 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -919,10 +919,11 @@ impl StoryState {
         path: &Path,
         incrementing_turn_index: bool,
     ) -> Result<(), StoryError> {
+        let mut new_pointer = Story::pointer_at_path(&self.main_content_container, path)?;
+
         // Changing direction, assume we need to clear current set of choices
         self.current_flow.current_choices.clear();
 
-        let mut new_pointer = Story::pointer_at_path(&self.main_content_container, path)?;
         if !new_pointer.is_null() && new_pointer.index == -1 {
             new_pointer.index = 0;
         }
@@ -1015,6 +1016,22 @@ impl StoryState {
         Ok(())
     }
 
+    // Hosts can't pass every kind of value to ink. Checking this up front allows
+    // to refuse a call before it has changed anything.
+    pub fn check_arguments(arguments: Option<&Vec<ValueType>>) -> Result<(), StoryError> {
+        for arg in arguments.into_iter().flatten() {
+            if matches!(
+                arg,
+                ValueType::DivertTarget(_) | ValueType::VariablePointer(_)
+            ) {
+                return Err(StoryError::InvalidStoryState("ink arguments when calling EvaluateFunction / ChoosePathStringWithParameters must be \
+                int, float, string, bool or InkList.".to_owned()));
+            }
+        }
+
+        Ok(())
+    }
+
     pub fn pass_arguments_to_evaluation_stack(
         &mut self,
         arguments: Option<&Vec<ValueType>>,
-- 
2.43.0


From dc0b9ef717e22b0c39fa5b58e8b6f07bcf2ab3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 12/37] fix: evaluating a function from the host restores the
 story on every exit

---
 runtime/src/story/navigation.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index 25ffb0d..e1e4228 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -152,6 +152,12 @@ impl Story {
             return Err(StoryError::BadArgument(e));
         }
 
+        // Refuse bad arguments before changing anything
+        StoryState::check_arguments(args)?;
+
+        // The function runs on the main story's thread, so leave its history as it was
+        let previous_pointer_before = self.get_state().get_previous_pointer();
+
         // Snapshot the output stream
         let output_stream_before = self.get_state().get_output_stream().clone();
         self.get_state_mut().reset_output(None);
@@ -162,9 +168,15 @@ impl Story {
 
         // Evaluate the function, and collect the string output
         while self.can_continue() {
-            let text = self.cont()?;
+            match self.cont() {
+                Ok(text) => text_output.push_str(&text),
+                Err(e) => {
+                    self.get_state_mut()
+                        .reset_output(Some(output_stream_before));
 
-            text_output.push_str(&text);
+                    return Err(e);
+                }
+            }
         }
 
         // Restore the output stream in case this was called
@@ -173,8 +185,14 @@ impl Story {
             .reset_output(Some(output_stream_before));
 
         // Finish evaluation, and see whether anything was produced
-        self.get_state_mut()
-            .complete_function_evaluation_from_game()
+        let result = self
+            .get_state_mut()
+            .complete_function_evaluation_from_game()?;
+
+        self.get_state()
+            .set_previous_pointer(previous_pointer_before);
+
+        Ok(result)
     }
 
     pub(crate) fn visit_changed_containers_due_to_divert(&mut self) {
-- 
2.43.0


From 702dc1cf009b4863545f8019a56bff1feaa8e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 13/37] fix: keep the current flow out of the parked flows of a
 snapshot

---
 runtime/src/story_state.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index bea271d..bf20d9e 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -793,19 +793,14 @@ impl StoryState {
             copy.current_flow.current_choices = self.current_flow.current_choices.clone();
         }
 
-        // The copy of the state has its own copy of the named flows dictionary,
-        // except with the current flow replaced with the copy above
+        // The copy of the state has its own copy of the named flows dictionary.
+        // It holds the parked flows only: the current flow is the copy above
         // (Assuming we're in multi-flow mode at all. If we're not then
         // the above copy is simply the default flow copy and we're done)
         if self.named_flows.is_some() {
-            let mut nf = self.named_flows.clone();
-            nf.as_mut().unwrap().insert(
-                copy.current_flow.name.to_string(),
-                copy.current_flow.clone(),
-            );
             copy.alive_flow_names_dirty = true;
 
-            copy.named_flows = nf;
+            copy.named_flows = self.named_flows.clone();
         }
 
         if self.has_error() {
-- 
2.43.0


From 2a3e121fe38e3000bd68df34731cec148ab7adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 14/37] fix: keep invisible default choices invisible across
 save and load

---
 runtime/src/choice.rs          | 3 ++-
 runtime/src/json/json_read.rs  | 5 +++++
 runtime/src/json/json_write.rs | 5 +++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/runtime/src/choice.rs b/runtime/src/choice.rs
index fb55f9d..251b6f3 100644
--- a/runtime/src/choice.rs
+++ b/runtime/src/choice.rs
@@ -55,12 +55,13 @@ impl Choice {
         text: &str,
         index: usize,
         original_thread_index: usize,
+        is_invisible_default: bool,
         choice_tags: Vec<String>,
     ) -> Choice {
         Choice {
             obj: Object::new(),
             target_path: Path::new_with_components_string(Some(path_string_on_choice)),
-            is_invisible_default: false,
+            is_invisible_default,
             tags: choice_tags,
             index: RefCell::new(index),
             original_thread_index: RefCell::new(original_thread_index),
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 900a6ed..1c538e8 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -421,6 +421,10 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
     let source_path = obj.get("originalChoicePath").unwrap().as_str().unwrap();
     let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
     let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
+    let is_invisible_default = obj
+        .get("invisibleDefault")
+        .and_then(|v| v.as_bool())
+        .unwrap_or(false);
     let choice_tags = jarray_to_tags(obj);
 
     Ok(Rc::new(Choice::new_from_json(
@@ -429,6 +433,7 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
         text,
         index,
         original_thread_index,
+        is_invisible_default,
         choice_tags,
     )))
 }
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 6a89456..295540b 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -284,6 +284,11 @@ pub fn write_choice(choice: &Choice) -> serde_json::Value {
         json!(choice.target_path.to_string()),
     );
 
+    // Rarely needed, so only written when set
+    if choice.is_invisible_default {
+        jobj.insert("invisibleDefault".to_owned(), json!(true));
+    }
+
     jobj.insert("tags".to_owned(), write_choice_tags(choice));
 
     serde_json::Value::Object(jobj)
-- 
2.43.0


From 8e2486274fc39b78343f2af0e4ab93582df26b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 15/37] fix: keep the origins of empty lists across save and
 load

---
 runtime/src/ink_list.rs        | 4 ++++
 runtime/src/json/json_write.rs | 6 ++++++
 runtime/src/variables_state.rs | 5 ++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index e171a48..fb1b45e 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -120,6 +120,10 @@ impl InkList {
         self.initial_origin_names.borrow().clone()
     }
 
+    pub(crate) fn get_initial_origin_names(&self) -> Vec<String> {
+        self.initial_origin_names.borrow().clone()
+    }
+
     pub fn union(&self, other_list: &InkList) -> InkList {
         let mut union = InkList::from_other_list(self);
 
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 295540b..f29a70b 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -266,6 +266,12 @@ pub fn write_ink_list(list: &InkList) -> serde_json::Value {
 
     jobj.insert("list".to_owned(), serde_json::Value::Object(jlist));
 
+    // Without items, the origins are all that's left to know the list's type
+    let origin_names = list.get_initial_origin_names();
+    if !origin_names.is_empty() {
+        jobj.insert("origins".to_owned(), json!(origin_names));
+    }
+
     serde_json::Value::Object(jobj)
 }
 
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 1730c4c..1020e41 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -368,7 +368,10 @@ impl VariablesState {
                 _ => false,
             },
             ValueType::List(val) => match &default_val.value {
-                ValueType::List(default_val) => *val == *default_val,
+                ValueType::List(default_val) => {
+                    *val == *default_val
+                        && val.get_initial_origin_names() == default_val.get_initial_origin_names()
+                }
                 _ => false,
             },
             ValueType::String(val) => match &default_val.value {
-- 
2.43.0


From 27885140d12e856627be2628adffcb11778c467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 16/37] fix: saves with infinite or NaN values can be loaded
 again

---
 runtime/src/json/json_write.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index f29a70b..bb49c8e 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -97,6 +97,16 @@ pub fn write_rtobject(o: Rc<dyn RTObject>) -> Result<serde_json::Value, StoryErr
     }
 
     if let Some(v) = Value::get_value::<f32>(o.as_ref()) {
+        // JSON has no infinities: write a number that overflows to one when read
+        if v.is_infinite() {
+            return Ok(json!(f64::MAX.copysign(v.into())));
+        }
+
+        // JSON has no NaN either. Like the reference implementation, write zero
+        if v.is_nan() {
+            return Ok(json!(0.0));
+        }
+
         return Ok(json!(v));
     }
 
-- 
2.43.0


From 9e0e6ecc4aee034025a287edb7bf39938c238d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 17/37] fix: report a tag query for a path that is no container
 instead of panicking

---
 runtime/src/story/tags.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/tags.rs b/runtime/src/story/tags.rs
index 5e168fe..d6d9a61 100644
--- a/runtime/src/story/tags.rs
+++ b/runtime/src/story/tags.rs
@@ -31,7 +31,9 @@ impl Story {
         let path = Path::new_with_components_string(Some(path_string));
 
         // Expected to be global story, knot, or stitch
-        let mut flow_container = self.content_at_path(&path).container().unwrap();
+        let mut flow_container = self.content_at_path(&path).container().ok_or_else(|| {
+            StoryError::BadArgument(format!("no knot or stitch at path '{path_string}'"))
+        })?;
 
         while let Some(first_content) = flow_container.content.first() {
             if let Ok(container) = first_content.clone().into_any().downcast::<Container>() {
-- 
2.43.0


From 43ebc46dcec8d327f06b3e4c1d6e25404216b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 18/37] fix: integer arithmetic wraps to 32 bits and division
 by zero is a story error, not a panic

---
 runtime/src/native_function_call.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/runtime/src/native_function_call.rs b/runtime/src/native_function_call.rs
index f048af4..23e82d0 100644
--- a/runtime/src/native_function_call.rs
+++ b/runtime/src/native_function_call.rs
@@ -297,9 +297,9 @@ impl NativeFunctionCall {
         for (list_item, list_item_value) in list_val.items.iter() {
             let target_int = {
                 if self.op == Op::Add {
-                    list_item_value + int_val
+                    list_item_value.wrapping_add(int_val)
                 } else {
-                    list_item_value - int_val
+                    list_item_value.wrapping_sub(int_val)
                 }
             };
 
@@ -545,7 +545,7 @@ impl NativeFunctionCall {
     fn subtract_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(*op1 - op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_sub(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -571,7 +571,7 @@ impl NativeFunctionCall {
     fn add_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 + op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_add(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -608,7 +608,10 @@ impl NativeFunctionCall {
     fn divide_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 / op2))),
+                ValueType::Int(0) => Err(StoryError::InvalidStoryState(
+                    "Division by zero.".to_owned(),
+                )),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_div(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -650,7 +653,7 @@ impl NativeFunctionCall {
     fn multiply_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 * op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_mul(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -850,7 +853,10 @@ impl NativeFunctionCall {
     fn mod_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 % op2))),
+                ValueType::Int(0) => {
+                    Err(StoryError::InvalidStoryState("Modulo by zero.".to_owned()))
+                }
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_rem(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -984,7 +990,7 @@ impl NativeFunctionCall {
 
     fn negate_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
-            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(-op1))),
+            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_neg()))),
             ValueType::Float(op1) => Ok(Rc::new(Value::new::<f32>(-op1))),
             _ => Err(StoryError::InvalidStoryState(
                 "Operation not available for type.".to_owned(),
-- 
2.43.0


From 1b2bc4ed3b78c21f8655419e4d1a57c40aa8a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 19/37] fix: too few values on the evaluation stack are a story
 error, not a panic

---
 runtime/src/story/choices.rs            | 19 ++++++-----
 runtime/src/story/control_logic.rs      | 42 +++++++++++++++----------
 runtime/src/story/external_functions.rs |  2 +-
 runtime/src/story/mod.rs                |  4 +--
 runtime/src/story_state.rs              | 22 +++++++++----
 5 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index a98733b..fe82ddf 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -57,7 +57,7 @@ impl Story {
 
         // Don't create choice if choice point doesn't pass conditional
         if choice_point.has_condition() {
-            let condition_value = self.get_state_mut().pop_evaluation_stack();
+            let condition_value = self.get_state_mut().pop_evaluation_stack()?;
             if !self.is_truthy(condition_value)? {
                 show_choice = false;
             }
@@ -68,11 +68,11 @@ impl Story {
         let mut tags: Vec<String> = Vec::with_capacity(0);
 
         if choice_point.has_choice_only_content() {
-            choice_only_text = self.pop_choice_string_and_tags(&mut tags);
+            choice_only_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         if choice_point.has_start_content() {
-            start_text = self.pop_choice_string_and_tags(&mut tags);
+            start_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         // Don't create choice if player has already read this content
@@ -156,9 +156,12 @@ impl Story {
         self.choose_path(&choice.target_path, false)
     }
 
-    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> String {
-        let obj = self.get_state_mut().pop_evaluation_stack();
-        let choice_only_str_val = Value::get_value::<&StringValue>(obj.as_ref()).unwrap();
+    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> Result<String, StoryError> {
+        let obj = self.get_state_mut().pop_evaluation_stack()?;
+        let choice_only_str_val =
+            Value::get_value::<&StringValue>(obj.as_ref()).ok_or_else(|| {
+                StoryError::InvalidStoryState("Expected the text of a choice".to_owned())
+            })?;
 
         while !self.get_state().evaluation_stack.is_empty()
             && self
@@ -170,7 +173,7 @@ impl Story {
         {
             let tag = self
                 .get_state_mut()
-                .pop_evaluation_stack()
+                .pop_evaluation_stack()?
                 .into_any()
                 .downcast::<Tag>()
                 .unwrap();
@@ -178,6 +181,6 @@ impl Story {
             // order
         }
 
-        choice_only_str_val.string.to_string()
+        Ok(choice_only_str_val.string.to_string())
     }
 }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 779e6ae..980d8ab 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -38,7 +38,7 @@ impl Story {
         }; // Divert
         if let Ok(current_divert) = content_obj.clone().into_any().downcast::<Divert>() {
             if current_divert.is_conditional {
-                let o = self.get_state_mut().pop_evaluation_stack();
+                let o = self.get_state_mut().pop_evaluation_stack()?;
                 if !self.is_truthy(o)? {
                     return Ok(true);
                 }
@@ -123,7 +123,7 @@ impl Story {
                     // If the expression turned out to be empty, there may not be
                     // anything on the stack
                     if !self.get_state().evaluation_stack.is_empty() {
-                        let output = self.get_state_mut().pop_evaluation_stack(); // Functions may evaluate to Void, in which case we skip
+                        let output = self.get_state_mut().pop_evaluation_stack()?; // Functions may evaluate to Void, in which case we skip
                         // output
                         if !output.as_ref().as_any().is::<Void>() {
                             // TODO: Should we really always blanket convert to
@@ -147,11 +147,19 @@ impl Story {
                     self.get_state().set_in_expression_evaluation(false);
                 }
                 CommandType::Duplicate => {
-                    let obj = self.get_state().peek_evaluation_stack().unwrap().clone();
+                    let obj = self
+                        .get_state()
+                        .peek_evaluation_stack()
+                        .cloned()
+                        .ok_or_else(|| {
+                            StoryError::InvalidStoryState(
+                                "Not enough values on the evaluation stack".to_owned(),
+                            )
+                        })?;
                     self.get_state_mut().push_evaluation_stack(obj);
                 }
                 CommandType::PopEvaluatedValue => {
-                    self.get_state_mut().pop_evaluation_stack();
+                    self.get_state_mut().pop_evaluation_stack()?;
                 }
                 CommandType::PopFunction | CommandType::PopTunnel => {
                     let pop_type = if CommandType::PopFunction == eval_command.command_type {
@@ -162,7 +170,7 @@ impl Story {
                     // divert to go to immediately after returning: ->-> target
                     let mut override_tunnel_return_target = None;
                     if pop_type == PushPopType::Tunnel {
-                        let popped = self.get_state_mut().pop_evaluation_stack();
+                        let popped = self.get_state_mut().pop_evaluation_stack()?;
                         if let Some(v) = Value::get_value::<&Path>(popped.as_ref()) {
                             override_tunnel_return_target = Some(v.clone());
                         }
@@ -301,7 +309,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn + 1)));
                 }
                 CommandType::TurnsSince | CommandType::ReadCount => {
-                    let target = self.get_state_mut().pop_evaluation_stack();
+                    let target = self.get_state_mut().pop_evaluation_stack()?;
                     if Value::get_value::<&Path>(target.as_ref()).is_none() {
                         let mut extra_note = "".to_owned();
                         if Value::get_value::<i32>(target.as_ref()).is_some() {
@@ -356,12 +364,12 @@ impl Story {
                 }
                 CommandType::Random => {
                     let mut max_int = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         max_int = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let mut min_int = None;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         min_int = Some(v);
@@ -402,7 +410,7 @@ impl Story {
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         seed = Some(v);
                     }
@@ -455,12 +463,12 @@ impl Story {
                 CommandType::ListFromInt => {
                     let mut int_val: Option<i32> = None;
                     let mut list_name_val: Option<&String> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         int_val = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(s) = Value::get_value::<&StringValue>(o.as_ref()) {
                         list_name_val = Some(&s.string);
                     }
@@ -499,11 +507,11 @@ impl Story {
                         .push_evaluation_stack(Rc::new(generated_list_value.unwrap()));
                 }
                 CommandType::ListRange => {
-                    let mut p = self.get_state_mut().pop_evaluation_stack();
+                    let mut p = self.get_state_mut().pop_evaluation_stack()?;
                     let max = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let min = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let target_list = Value::get_value::<&InkList>(p.as_ref());
                     if target_list.is_none() || min.is_err() || max.is_err() {
                         return Err(StoryError::InvalidStoryState(
@@ -518,7 +526,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<InkList>(result)));
                 }
                 CommandType::ListRandom => {
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let list = Value::get_value::<&InkList>(o.as_ref());
                     if list.is_none() {
                         return Err(StoryError::InvalidStoryState(
@@ -639,7 +647,7 @@ impl Story {
             .as_any()
             .downcast_ref::<VariableAssignment>()
         {
-            let assigned_val = self.get_state_mut().pop_evaluation_stack(); // When in temporary evaluation, don't create new variables purely
+            let assigned_val = self.get_state_mut().pop_evaluation_stack()?; // When in temporary evaluation, don't create new variables purely
             // within
             // the temporary context, but attempt to create them globally
             // var prioritiseHigherInCallStack = _temporaryEvaluationContainer
@@ -692,7 +700,7 @@ impl Story {
         {
             let func_params = self
                 .get_state_mut()
-                .pop_evaluation_stack_multiple(func.get_number_of_parameters());
+                .pop_evaluation_stack_multiple(func.get_number_of_parameters())?;
             let result = func.call(func_params)?;
             self.get_state_mut().push_evaluation_stack(result);
             return Ok(true);
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 1829228..7a906a2 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -158,7 +158,7 @@ impl Story {
         // Pop arguments
         let mut arguments: Vec<ValueType> = Vec::new();
         for _ in 0..number_of_arguments {
-            let popped_obj = self.get_state_mut().pop_evaluation_stack();
+            let popped_obj = self.get_state_mut().pop_evaluation_stack()?;
             let value_obj = popped_obj.into_any().downcast::<Value>();
 
             if let Ok(value_obj) = value_obj {
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index f515b54..191a16e 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -128,7 +128,7 @@ mod misc {
         }
 
         pub(crate) fn next_sequence_shuffle_index(&mut self) -> Result<i32, StoryError> {
-            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack();
+            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack()?;
             let num_elements =
                 if let Some(v) = Value::get_value::<i32>(pop_evaluation_stack.as_ref()) {
                     v
@@ -141,7 +141,7 @@ mod misc {
             let seq_container = self.get_state().get_current_pointer().container.unwrap();
 
             let seq_count = if let Some(v) =
-                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack().as_ref())
+                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack()?.as_ref())
             {
                 v
             } else {
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index bf20d9e..7c54ede 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -891,18 +891,28 @@ impl StoryState {
         self.output_stream_dirty();
     }
 
-    pub fn pop_evaluation_stack(&mut self) -> Rc<dyn RTObject> {
-        self.evaluation_stack.pop().unwrap()
+    pub fn pop_evaluation_stack(&mut self) -> Result<Rc<dyn RTObject>, StoryError> {
+        self.evaluation_stack.pop().ok_or_else(|| {
+            StoryError::InvalidStoryState("Not enough values on the evaluation stack".to_owned())
+        })
     }
 
     pub fn pop_evaluation_stack_multiple(
         &mut self,
         number_of_objects: usize,
-    ) -> Vec<Rc<dyn RTObject>> {
-        let start = self.evaluation_stack.len() - number_of_objects;
+    ) -> Result<Vec<Rc<dyn RTObject>>, StoryError> {
+        let start = self
+            .evaluation_stack
+            .len()
+            .checked_sub(number_of_objects)
+            .ok_or_else(|| {
+                StoryError::InvalidStoryState(
+                    "Not enough values on the evaluation stack".to_owned(),
+                )
+            })?;
         let obj: Vec<Rc<dyn RTObject>> = self.evaluation_stack.drain(start..).collect();
 
-        obj
+        Ok(obj)
     }
 
     pub fn set_diverted_pointer(&mut self, p: Pointer) {
@@ -1082,7 +1092,7 @@ impl StoryState {
         // for that)
         let mut returned_obj = None;
         while self.evaluation_stack.len() > original_evaluation_stack_height {
-            let popped_obj = self.pop_evaluation_stack();
+            let popped_obj = self.pop_evaluation_stack()?;
             if returned_obj.is_none() {
                 returned_obj = Some(popped_obj);
             }
-- 
2.43.0


From f3b61623e68f98ab0d77b95e1f3b0eeee26f5fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 20/37] fix: RANDOM, LIST_RANDOM and shuffles no longer
 overflow or divide by zero

---
 runtime/src/story/control_logic.rs | 25 +++++++++++++++++++------
 runtime/src/story/mod.rs           | 15 +++++++++++++--
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 980d8ab..6cecbf5 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -391,7 +391,15 @@ impl Story {
 
                     let min_value = min_int.unwrap();
                     let max_value = max_int.unwrap();
-                    let random_range = max_value - min_value + 1;
+                    let random_range = max_value
+                        .checked_sub(min_value)
+                        .and_then(|range| range.checked_add(1))
+                        .ok_or_else(|| {
+                            StoryError::InvalidStoryState(
+                                "RANDOM was called with a range that exceeds the size that ink numbers can use."
+                                    .to_owned(),
+                            )
+                        })?;
                     if random_range <= 0 {
                         return Err(StoryError::InvalidStoryState(format!(
                             "RANDOM was called with minimum as {} and maximum as {}. The maximum must be larger",
@@ -399,14 +407,17 @@ impl Story {
                         )));
                     }
 
-                    let result_seed =
-                        self.get_state().story_seed + self.get_state().previous_random;
+                    let result_seed = self
+                        .get_state()
+                        .story_seed
+                        .wrapping_add(self.get_state().previous_random);
                     let mut rng = StdRng::seed_from_u64(result_seed as u64);
                     let next_random = rng.random::<u32>();
                     let chosen_value = (next_random % random_range as u32) as i32 + min_value;
                     self.get_state_mut()
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(chosen_value)));
-                    self.get_state_mut().previous_random = self.get_state().previous_random + 1;
+                    self.get_state_mut().previous_random =
+                        self.get_state().previous_random.wrapping_add(1);
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
@@ -543,8 +554,10 @@ impl Story {
                         // Non-empty source list
                         else {
                             // Generate a random index for the element to take
-                            let result_seed =
-                                self.get_state().story_seed + self.get_state().previous_random;
+                            let result_seed = self
+                                .get_state()
+                                .story_seed
+                                .wrapping_add(self.get_state().previous_random);
                             let mut rng = StdRng::seed_from_u64(result_seed as u64);
                             let next_random = rng.random::<u32>();
                             let list_item_index = (next_random as usize) % list.items.len(); // Iterate through to get the random element, sorted for
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index 191a16e..0119f07 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -138,6 +138,13 @@ mod misc {
                     ));
                 };
 
+            if num_elements <= 0 {
+                return Err(StoryError::InvalidStoryState(
+                    "Expected a positive number of elements in sequence for shuffle index"
+                        .to_owned(),
+                ));
+            }
+
             let seq_container = self.get_state().get_current_pointer().container.unwrap();
 
             let seq_count = if let Some(v) =
@@ -158,8 +165,12 @@ mod misc {
             //   runtime returns to the sequence
             // - How many times the runtime has looped around this full shuffle
             let seq_path_str = Object::get_path(seq_container.as_ref()).to_string();
-            let sequence_hash: i32 = seq_path_str.chars().map(|c| c as i32).sum();
-            let random_seed = sequence_hash + loop_index + self.get_state().story_seed;
+            let sequence_hash: i32 = seq_path_str
+                .chars()
+                .fold(0i32, |hash, c| hash.wrapping_add(c as i32));
+            let random_seed = sequence_hash
+                .wrapping_add(loop_index)
+                .wrapping_add(self.get_state().story_seed);
 
             let mut rng = StdRng::seed_from_u64(random_seed as u64);
 
-- 
2.43.0


From 0526872e55673b9a4879be4fddf5dbdedac98ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 21/37] fix: a divert's cached target no longer keeps the
 story's content alive after the story is dropped

---
 runtime/src/divert.rs | 68 +++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index e1678a6..9cfc4d0 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -1,4 +1,8 @@
-use std::{cell::RefCell, fmt, rc::Rc};
+use std::{
+    cell::RefCell,
+    fmt,
+    rc::{Rc, Weak},
+};
 
 use crate::{
     container::Container,
@@ -10,7 +14,7 @@ use crate::{
 
 pub struct Divert {
     obj: Object,
-    target_pointer: RefCell<Pointer>,
+    target_pointer: RefCell<Option<(Weak<Container>, i32)>>,
     target_path: RefCell<Option<Path>>,
     pub external_args: usize,
     pub is_conditional: bool,
@@ -37,7 +41,7 @@ impl Divert {
             stack_push_type,
             is_external,
             external_args,
-            target_pointer: RefCell::new(pointer::NULL.clone()),
+            target_pointer: RefCell::new(None),
             target_path: RefCell::new(Self::target_path_string(target_path)),
             variable_divert_name: var_divert_name,
         }
@@ -79,40 +83,36 @@ impl Divert {
         }
     }
 
+    /// The position this divert leads to; null when there is no such content.
     pub fn get_target_pointer(self: &Rc<Self>) -> Pointer {
-        let target_pointer_null = self.target_pointer.borrow().is_null();
-        if target_pointer_null {
-            let target_obj =
-                Object::resolve_path(self.clone(), self.target_path.borrow().as_ref().unwrap())
-                    .obj
-                    .clone();
-
-            if self
-                .target_path
-                .borrow()
-                .as_ref()
-                .unwrap()
-                .get_last_component()
-                .unwrap()
-                .is_index()
-            {
-                self.target_pointer.borrow_mut().container = target_obj.get_object().get_parent();
-                self.target_pointer.borrow_mut().index = self
-                    .target_path
-                    .borrow()
-                    .as_ref()
-                    .unwrap()
-                    .get_last_component()
-                    .unwrap()
-                    .index
-                    .unwrap() as i32;
-            } else {
-                let c = target_obj.into_any().downcast::<Container>();
-                self.target_pointer.replace(Pointer::start_of(c.unwrap()));
-            }
+        if let Some((container, index)) = self.target_pointer.borrow().as_ref()
+            && let Some(container) = container.upgrade()
+        {
+            return Pointer::new(Some(container), *index);
         }
 
-        self.target_pointer.borrow().clone()
+        let pointer = match self.target_path.borrow().as_ref() {
+            Some(path) => {
+                let target_obj = Object::resolve_path(self.clone(), path).obj.clone();
+
+                match path.get_last_component().and_then(|c| c.index) {
+                    Some(index) => Pointer::new(target_obj.get_object().get_parent(), index as i32),
+                    None => match target_obj.into_any().downcast::<Container>() {
+                        Ok(container) => Pointer::start_of(container),
+                        Err(_) => pointer::NULL.clone(),
+                    },
+                }
+            }
+            None => pointer::NULL.clone(),
+        };
+
+        // Content owns its diverts, so the cached target must not own content
+        *self.target_pointer.borrow_mut() = pointer
+            .container
+            .as_ref()
+            .map(|container| (Rc::downgrade(container), pointer.index));
+
+        pointer
     }
 
     pub fn get_target_path(self: &Rc<Self>) -> Option<Path> {
-- 
2.43.0


From a5d0c4c7346d368876e5a20597774b3eefc812b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 22/37] fix: unresolved targets, void assignments and
 non-numeric strings are story errors, not panics

---
 runtime/src/story/choices.rs       |  8 +++++-
 runtime/src/story/control_logic.rs | 41 ++++++++++++++++++++----------
 runtime/src/value.rs               |  8 ++++--
 runtime/src/variable_reference.rs  |  4 +--
 4 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index fe82ddf..47488b2 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -77,9 +77,15 @@ impl Story {
 
         // Don't create choice if player has already read this content
         if choice_point.once_only() {
+            let choice_target = choice_point.get_choice_target().ok_or_else(|| {
+                StoryError::InvalidStoryState(format!(
+                    "Failed to find the target of a choice at {}",
+                    Object::get_path(choice_point.as_ref())
+                ))
+            })?;
             let visit_count = self
                 .get_state_mut()
-                .visit_count_for_container(choice_point.get_choice_target().as_ref().unwrap());
+                .visit_count_for_container(&choice_target);
             if visit_count > 0 {
                 show_choice = false;
             }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 6cecbf5..dcc2a8e 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -84,8 +84,14 @@ impl Story {
                 )?;
                 return Ok(true);
             } else {
-                self.get_state_mut()
-                    .set_diverted_pointer(current_divert.get_target_pointer());
+                let target_pointer = current_divert.get_target_pointer();
+                if target_pointer.is_null() {
+                    return Err(StoryError::InvalidStoryState(format!(
+                        "Divert resolution failed: {}",
+                        current_divert
+                    )));
+                }
+                self.get_state_mut().set_diverted_pointer(target_pointer);
             }
 
             if current_divert.pushes_to_stack {
@@ -96,11 +102,6 @@ impl Story {
                 );
             }
 
-            if self.get_state().diverted_pointer.is_null() && !current_divert.is_external {
-                //     error(format!("Divert resolution failed: {:?}",
-                // current_divert));
-            }
-
             return Ok(true);
         }
 
@@ -484,6 +485,13 @@ impl Story {
                         list_name_val = Some(&s.string);
                     }
 
+                    let Some(list_name_val) = list_name_val else {
+                        return Err(StoryError::InvalidStoryState(
+                            "Expected the name of a list when creating a list element from a numerical value."
+                                .to_owned(),
+                        ));
+                    };
+
                     if int_val.is_none() {
                         return Err(StoryError::InvalidStoryState("Passed non-integer when creating a list element from a numerical value.".to_owned()));
                     }
@@ -492,7 +500,7 @@ impl Story {
                     if let Some(found_list_def) = self
                         .list_definitions
                         .as_ref()
-                        .get_list_definition(list_name_val.as_ref().unwrap())
+                        .get_list_definition(list_name_val)
                     {
                         if let Some(found_item) =
                             found_list_def.get_item_with_value(int_val.unwrap())
@@ -506,7 +514,7 @@ impl Story {
                     } else {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Failed to find List called {}",
-                            list_name_val.as_ref().unwrap()
+                            list_name_val
                         )));
                     }
 
@@ -665,7 +673,12 @@ impl Story {
             // the temporary context, but attempt to create them globally
             // var prioritiseHigherInCallStack = _temporaryEvaluationContainer
             // != null;
-            let assigned_val = assigned_val.into_any().downcast::<Value>().unwrap();
+            let assigned_val = assigned_val.into_any().downcast::<Value>().map_err(|_| {
+                StoryError::InvalidStoryState(format!(
+                    "Tried to assign something that is not a value to the variable '{}'. Did you forget to 'return' a value from a function?",
+                    var_ass.variable_name
+                ))
+            })?;
             self.get_state_mut()
                 .variables_state
                 .assign(var_ass, assigned_val)?;
@@ -680,10 +693,10 @@ impl Story {
         {
             let found_value: Rc<Value>; // Explicit read count value
             if var_ref.path_for_count.is_some() {
-                let container = var_ref.get_container_for_count();
-                let count = self
-                    .get_state_mut()
-                    .visit_count_for_container(container.as_ref().unwrap());
+                let container = var_ref
+                    .get_container_for_count()
+                    .map_err(StoryError::InvalidStoryState)?;
+                let count = self.get_state_mut().visit_count_for_container(&container);
                 found_value = Rc::new(Value::new::<i32>(count));
             }
             // Normal variable reference
diff --git a/runtime/src/value.rs b/runtime/src/value.rs
index 73fea70..51038b3 100644
--- a/runtime/src/value.rs
+++ b/runtime/src/value.rs
@@ -268,8 +268,12 @@ impl Value {
                 )),
             },
             ValueType::String(v) => match cast_dest_type {
-                CAST_INT => Ok(Some(Self::new::<i32>(v.string.parse::<i32>().unwrap()))),
-                CAST_FLOAT => Ok(Some(Self::new::<f32>(v.string.parse::<f32>().unwrap()))),
+                CAST_INT => Ok(Some(Self::new::<i32>(v.string.parse::<i32>().map_err(
+                    |_| StoryError::InvalidStoryState(format!("'{}' is not a number", v.string)),
+                )?))),
+                CAST_FLOAT => Ok(Some(Self::new::<f32>(v.string.parse::<f32>().map_err(
+                    |_| StoryError::InvalidStoryState(format!("'{}' is not a number", v.string)),
+                )?))),
                 CAST_STRING => Ok(None),
                 _ => Err(StoryError::InvalidStoryState(
                     "Cast not allowed for string".to_owned(),
diff --git a/runtime/src/variable_reference.rs b/runtime/src/variable_reference.rs
index bee9c0d..6815783 100644
--- a/runtime/src/variable_reference.rs
+++ b/runtime/src/variable_reference.rs
@@ -31,9 +31,9 @@ impl VariableReference {
 
     pub fn get_container_for_count(self: &Rc<Self>) -> Result<Rc<Container>, String> {
         if let Some(path) = &self.path_for_count {
-            Ok(Object::resolve_path(self.clone(), path)
+            Object::resolve_path(self.clone(), path)
                 .container()
-                .unwrap())
+                .ok_or_else(|| format!("Failed to find container for read count at {}", path))
         } else {
             Err("Path for count is not set.".to_owned())
         }
-- 
2.43.0


From 796a7b21bf2d1617a3b77fa12bdbfdf66e2d17dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 23/37] fix: malformed stories and saves are rejected with an
 error instead of a panic

---
 runtime/src/callstack.rs       |  29 ++++++--
 runtime/src/flow.rs            |  49 +++++++------
 runtime/src/ink_list.rs        |   2 +-
 runtime/src/json/json_read.rs  | 126 ++++++++++++++++++++++-----------
 runtime/src/story_state.rs     |  31 +++++---
 runtime/src/variables_state.rs |   2 +-
 6 files changed, 160 insertions(+), 79 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 5c162c7..36c1552 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -134,6 +134,11 @@ impl Thread {
             thread.previous_pointer = Story::pointer_at_path(main_content_container, &prev_path)?;
         }
 
+        // A thread always has an element to be in.
+        if thread.callstack.is_empty() {
+            return Err(json_read::bad_value());
+        }
+
         Ok(thread)
     }
 
@@ -425,17 +430,29 @@ impl CallStack {
         main_content_container: &Rc<Container>,
         j_obj: &Map<String, serde_json::Value>,
     ) -> Result<(), StoryError> {
-        self.threads.clear();
+        let mut threads = Vec::new();
 
-        let j_threads = j_obj.get("threads").unwrap();
+        let j_threads = j_obj
+            .get("threads")
+            .and_then(|t| t.as_array())
+            .ok_or_else(json_read::bad_value)?;
 
-        for j_thread_tok in j_threads.as_array().unwrap().iter() {
-            let j_thread_obj = j_thread_tok.as_object().unwrap();
+        for j_thread_tok in j_threads.iter() {
+            let j_thread_obj = j_thread_tok.as_object().ok_or_else(json_read::bad_value)?;
             let thread = Thread::from_json(main_content_container, j_thread_obj)?;
-            self.threads.push(thread);
+            threads.push(thread);
+        }
+
+        // There is always at least one thread to play.
+        if threads.is_empty() {
+            return Err(json_read::bad_value());
         }
 
-        self.thread_counter = j_obj.get("threadCounter").unwrap().as_i64().unwrap() as usize;
+        self.threads = threads;
+        self.thread_counter = j_obj
+            .get("threadCounter")
+            .and_then(|c| c.as_u64())
+            .ok_or_else(json_read::bad_value)? as usize;
         self.start_of_root = Pointer::start_of(main_content_container.clone()).clone();
 
         Ok(())
diff --git a/runtime/src/flow.rs b/runtime/src/flow.rs
index db07aa1..edfcf43 100644
--- a/runtime/src/flow.rs
+++ b/runtime/src/flow.rs
@@ -42,7 +42,7 @@ impl Flow {
                     .get("outputStream")
                     .ok_or(StoryError::BadJson("outputStream not found.".to_owned()))?
                     .as_array()
-                    .unwrap(),
+                    .ok_or_else(json_read::bad_value)?,
                 false,
             )?,
             current_choices: json_read::jarray_to_runtime_obj_list(
@@ -50,12 +50,17 @@ impl Flow {
                     .get("currentChoices")
                     .ok_or(StoryError::BadJson("currentChoices not found.".to_owned()))?
                     .as_array()
-                    .unwrap(),
+                    .ok_or_else(json_read::bad_value)?,
                 false,
             )?
             .iter()
-            .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-            .collect::<Vec<Rc<Choice>>>(),
+            .map(|o| {
+                o.clone()
+                    .into_any()
+                    .downcast::<Choice>()
+                    .map_err(|_| json_read::bad_value())
+            })
+            .collect::<Result<Vec<Rc<Choice>>, StoryError>>()?,
         };
 
         flow.callstack.borrow_mut().load_json(
@@ -64,7 +69,7 @@ impl Flow {
                 .get("callstack")
                 .ok_or(StoryError::BadJson("loading callstack".to_owned()))?
                 .as_object()
-                .unwrap(),
+                .ok_or_else(json_read::bad_value)?,
         )?;
         let j_choice_threads = j_obj.get("choiceThreads");
 
@@ -134,24 +139,26 @@ impl Flow {
         main_content_container: Rc<Container>,
     ) -> Result<(), StoryError> {
         for choice in self.current_choices.iter_mut() {
-            self.callstack
+            let thread_index = *choice.original_thread_index.borrow();
+            let found = self
+                .callstack
                 .borrow()
-                .get_thread_with_index(*choice.original_thread_index.borrow())
-                .map(|o| choice.set_thread_at_generation(o.clone()))
-                .or_else(|| {
+                .get_thread_with_index(thread_index)
+                .cloned();
+
+            let thread = match found {
+                Some(thread) => thread,
+                None => {
                     let j_saved_choice_thread = j_choice_threads
-                        .and_then(|c| c.get(choice.original_thread_index.borrow().to_string()))
-                        .ok_or("loading choice threads")
-                        .unwrap();
-                    choice.set_thread_at_generation(
-                        Thread::from_json(
-                            &main_content_container,
-                            j_saved_choice_thread.as_object().unwrap(),
-                        )
-                        .unwrap(),
-                    );
-                    Some(())
-                });
+                        .and_then(|c| c.get(thread_index.to_string()))
+                        .and_then(|c| c.as_object())
+                        .ok_or_else(json_read::bad_value)?;
+
+                    Thread::from_json(&main_content_container, j_saved_choice_thread)?
+                }
+            };
+
+            choice.set_thread_at_generation(thread);
         }
 
         Ok(())
diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index fb1b45e..10a3ef5 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -111,7 +111,7 @@ impl InkList {
             let mut names = Vec::new();
 
             for k in self.items.keys() {
-                names.push(k.get_origin_name().unwrap().clone());
+                names.extend(k.get_origin_name().cloned());
             }
 
             return names;
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 1c538e8..6d5e508 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -42,7 +42,10 @@ pub fn load_from_string(
         ));
     }
 
-    let version: i32 = version_opt.unwrap().as_i64().unwrap().try_into().unwrap();
+    let version: i32 = version_opt
+        .and_then(|v| v.as_i64())
+        .and_then(|v| v.try_into().ok())
+        .ok_or_else(bad_value)?;
 
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
@@ -85,6 +88,11 @@ pub fn load_from_string(
     Ok((version, main_content_container, list_definitions))
 }
 
+/// A value that is missing or not of the type its place in the JSON calls for.
+pub(crate) fn bad_value() -> StoryError {
+    StoryError::BadJson("Missing value, or value of the wrong type or range.".to_owned())
+}
+
 pub fn jtoken_to_runtime_object(
     token: &serde_json::Value,
     name: Option<String>,
@@ -97,10 +105,13 @@ pub fn jtoken_to_runtime_object(
         serde_json::Value::Bool(value) => Ok(Rc::new(Value::new::<bool>(value.to_owned()))),
         serde_json::Value::Number(_) => {
             if token.is_i64() {
-                let val: i32 = token.as_i64().unwrap().try_into().unwrap();
+                let val: i32 = token
+                    .as_i64()
+                    .and_then(|v| v.try_into().ok())
+                    .ok_or_else(bad_value)?;
                 Ok(Rc::new(Value::new::<i32>(val)))
             } else {
-                let val: f32 = token.as_f64().unwrap() as f32;
+                let val: f32 = token.as_f64().ok_or_else(bad_value)? as f32;
                 Ok(Rc::new(Value::new::<f32>(val)))
             }
         }
@@ -109,7 +120,7 @@ pub fn jtoken_to_runtime_object(
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
+            let first_char = str.chars().next().ok_or_else(bad_value)?;
             if first_char == '^' {
                 return Ok(Rc::new(Value::new::<&str>(&str[1..])));
             } else if first_char == '\n' && str.len() == 1 {
@@ -162,12 +173,12 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("^var");
 
             if let Some(v) = prop_value {
-                let variable_name = v.as_str().unwrap();
+                let variable_name = v.as_str().ok_or_else(bad_value)?;
                 let mut contex_index = -1;
                 let prop_value = obj.get("ci");
 
                 if let Some(v) = prop_value {
-                    contex_index = v.as_i64().unwrap() as i32;
+                    contex_index = v.as_i64().ok_or_else(bad_value)? as i32;
                 }
 
                 let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
@@ -209,7 +220,10 @@ pub fn jtoken_to_runtime_object(
             }
 
             if is_divert {
-                let target = prop_value.unwrap().as_str().unwrap().to_string();
+                let target = prop_value
+                    .and_then(|v| v.as_str())
+                    .ok_or_else(bad_value)?
+                    .to_string();
 
                 let mut var_divert_name: Option<String> = None;
                 let mut target_path: Option<String> = None;
@@ -229,7 +243,7 @@ pub fn jtoken_to_runtime_object(
                 if external {
                     prop_value = obj.get("exArgs");
                     if let Some(prop_value) = prop_value {
-                        external_args = prop_value.as_i64().unwrap() as usize;
+                        external_args = prop_value.as_u64().ok_or_else(bad_value)? as usize;
                     }
                 }
 
@@ -248,10 +262,10 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("*");
             if let Some(cp) = prop_value {
                 let mut flags = 0;
-                let path_string_on_choice = cp.as_str().unwrap();
+                let path_string_on_choice = cp.as_str().ok_or_else(bad_value)?;
                 let prop_value = obj.get("flg");
                 if let Some(f) = prop_value {
-                    flags = f.as_u64().unwrap();
+                    flags = f.as_u64().ok_or_else(bad_value)?;
                 }
 
                 return Ok(Rc::new(ChoicePoint::new(
@@ -263,13 +277,15 @@ pub fn jtoken_to_runtime_object(
             // // Variable reference
             let prop_value = obj.get("VAR?");
             if let Some(name) = prop_value {
-                return Ok(Rc::new(VariableReference::new(name.as_str().unwrap())));
+                return Ok(Rc::new(VariableReference::new(
+                    name.as_str().ok_or_else(bad_value)?,
+                )));
             }
 
             let prop_value = obj.get("CNT?");
             if let Some(v) = prop_value {
                 return Ok(Rc::new(VariableReference::from_path_for_count(
-                    v.as_str().unwrap(),
+                    v.as_str().ok_or_else(bad_value)?,
                 )));
             }
 
@@ -293,7 +309,7 @@ pub fn jtoken_to_runtime_object(
             }
 
             if is_var_ass {
-                let var_name = prop_value.unwrap().as_str().unwrap();
+                let var_name = prop_value.and_then(|v| v.as_str()).ok_or_else(bad_value)?;
                 let prop_value = obj.get("re");
                 let is_new_decl = prop_value.is_none();
 
@@ -308,32 +324,36 @@ pub fn jtoken_to_runtime_object(
             // Legacy Tag
             prop_value = obj.get("#");
             if let Some(prop_value) = prop_value {
-                return Ok(Rc::new(Tag::new(prop_value.as_str().unwrap())));
+                return Ok(Rc::new(Tag::new(
+                    prop_value.as_str().ok_or_else(bad_value)?,
+                )));
             }
 
             // List value
             prop_value = obj.get("list");
 
             if let Some(pv) = prop_value {
-                let list_content = pv.as_object().unwrap();
+                let list_content = pv.as_object().ok_or_else(bad_value)?;
                 let mut raw_list = InkList::new();
 
                 prop_value = obj.get("origins");
 
                 if let Some(o) = prop_value {
-                    let names_as_objs = o.as_array().unwrap();
+                    let names_as_objs = o.as_array().ok_or_else(bad_value)?;
 
                     let names = names_as_objs
                         .iter()
-                        .map(|e| e.as_str().unwrap().to_string())
-                        .collect();
+                        .map(|e| e.as_str().map(str::to_string).ok_or_else(bad_value))
+                        .collect::<Result<Vec<String>, StoryError>>()?;
 
                     raw_list.set_initial_origin_names(names);
                 }
 
                 for (k, v) in list_content {
                     let item = InkListItem::from_full_name(k);
-                    raw_list.items.insert(item, v.as_i64().unwrap() as i32);
+                    raw_list
+                        .items
+                        .insert(item, v.as_i64().ok_or_else(bad_value)? as i32);
                 }
 
                 return Ok(Rc::new(Value::new::<InkList>(raw_list)));
@@ -360,7 +380,7 @@ fn jarray_to_container(
     //  - named content
     //  - a "#f" key with the countFlags
     // (if either exists at all, otherwise null)
-    let terminating_obj = jarray[jarray.len() - 1].as_object();
+    let terminating_obj = jarray.last().ok_or_else(bad_value)?.as_object();
     let mut name: Option<String> = name;
     let mut flags = 0;
 
@@ -369,16 +389,20 @@ fn jarray_to_container(
     if let Some(terminating_obj) = terminating_obj {
         for (k, v) in terminating_obj {
             match k.as_str() {
-                "#f" => flags = v.as_i64().unwrap().try_into().unwrap(),
-                "#n" => name = Some(v.as_str().unwrap().to_string()),
+                "#f" => {
+                    flags = v
+                        .as_i64()
+                        .and_then(|f| f.try_into().ok())
+                        .ok_or_else(bad_value)?
+                }
+                "#n" => name = Some(v.as_str().ok_or_else(bad_value)?.to_string()),
                 k => {
-                    let named_content_item =
-                        jtoken_to_runtime_object(v, Some(k.to_string())).unwrap();
+                    let named_content_item = jtoken_to_runtime_object(v, Some(k.to_string()))?;
 
                     let named_sub_container = named_content_item
                         .into_any()
                         .downcast::<Container>()
-                        .unwrap();
+                        .map_err(|_| bad_value())?;
 
                     named_only_content.insert(k.to_string(), named_sub_container);
                 }
@@ -402,7 +426,7 @@ pub fn jarray_to_runtime_obj_list(
     let mut count = jarray.len();
 
     if skip_last {
-        count -= 1;
+        count = count.saturating_sub(1);
     }
 
     let mut list: Vec<Rc<dyn RTObject>> = Vec::with_capacity(jarray.len());
@@ -416,16 +440,36 @@ pub fn jarray_to_runtime_obj_list(
 }
 
 fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTObject>, StoryError> {
-    let text = obj.get("text").unwrap().as_str().unwrap();
-    let index = obj.get("index").unwrap().as_u64().unwrap() as usize;
-    let source_path = obj.get("originalChoicePath").unwrap().as_str().unwrap();
-    let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
-    let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
+    let text = obj
+        .get("text")
+        .ok_or_else(bad_value)?
+        .as_str()
+        .ok_or_else(bad_value)?;
+    let index = obj
+        .get("index")
+        .ok_or_else(bad_value)?
+        .as_u64()
+        .ok_or_else(bad_value)? as usize;
+    let source_path = obj
+        .get("originalChoicePath")
+        .ok_or_else(bad_value)?
+        .as_str()
+        .ok_or_else(bad_value)?;
+    let original_thread_index = obj
+        .get("originalThreadIndex")
+        .ok_or_else(bad_value)?
+        .as_u64()
+        .ok_or_else(bad_value)? as usize;
+    let path_string_on_choice = obj
+        .get("targetPath")
+        .ok_or_else(bad_value)?
+        .as_str()
+        .ok_or_else(bad_value)?;
     let is_invisible_default = obj
         .get("invisibleDefault")
         .and_then(|v| v.as_bool())
         .unwrap_or(false);
-    let choice_tags = jarray_to_tags(obj);
+    let choice_tags = jarray_to_tags(obj)?;
 
     Ok(Rc::new(Choice::new_from_json(
         path_string_on_choice,
@@ -438,18 +482,18 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
     )))
 }
 
-fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Vec<String> {
+fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Result<Vec<String>, StoryError> {
     let mut tags: Vec<String> = Vec::new();
 
     let prop_value = obj.get("tags");
     if let Some(pv) = prop_value {
-        let tags_array = pv.as_array().unwrap();
+        let tags_array = pv.as_array().ok_or_else(bad_value)?;
         for tag in tags_array {
-            tags.push(tag.as_str().unwrap().to_string());
+            tags.push(tag.as_str().ok_or_else(bad_value)?.to_string());
         }
     }
 
-    tags
+    Ok(tags)
 }
 
 pub fn jtoken_to_list_definitions(
@@ -457,11 +501,11 @@ pub fn jtoken_to_list_definitions(
 ) -> Result<ListDefinitionsOrigin, StoryError> {
     let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
 
-    for (name, list_def_json) in def.as_object().unwrap() {
+    for (name, list_def_json) in def.as_object().ok_or_else(bad_value)? {
         // Cast (string, object) to (string, int) for items
         let mut items: HashMap<String, i32> = HashMap::new();
-        for (k, v) in list_def_json.as_object().unwrap() {
-            items.insert(k.clone(), v.as_u64().unwrap() as i32);
+        for (k, v) in list_def_json.as_object().ok_or_else(bad_value)? {
+            items.insert(k.clone(), v.as_u64().ok_or_else(bad_value)? as i32);
         }
 
         let def = ListDefinition::new(name.clone(), items);
@@ -482,7 +526,7 @@ pub(crate) fn jobject_to_hashmap_values(
             jtoken_to_runtime_object(v, None)?
                 .into_any()
                 .downcast::<Value>()
-                .unwrap(),
+                .map_err(|_| bad_value())?,
         );
     }
 
@@ -495,7 +539,7 @@ pub(crate) fn jobject_to_int_hashmap(
     let mut dict: HashMap<String, i32> = HashMap::new();
 
     for (k, v) in jobj.iter() {
-        dict.insert(k.clone(), v.as_i64().unwrap() as i32);
+        dict.insert(k.clone(), v.as_i64().ok_or_else(bad_value)? as i32);
     }
 
     Ok(dict)
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 7c54ede..2958acf 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -369,8 +369,10 @@ impl StoryState {
             list.origins.borrow_mut().clear();
 
             for name in &origin_names {
-                let def = self.list_definitions.get_list_definition(name).unwrap();
-                if !list.origins.borrow().iter().any(|e| std::ptr::eq(e, def)) {
+                // A list without a definition can only come from a malformed story.
+                if let Some(def) = self.list_definitions.get_list_definition(name)
+                    && !list.origins.borrow().iter().any(|e| std::ptr::eq(e, def))
+                {
                     list.origins.borrow_mut().push(def.clone());
                 }
             }
@@ -1133,7 +1135,7 @@ impl StoryState {
         if !container.turn_index_should_be_counted {
             return Err(StoryError::InvalidStoryState(format!(
                 "TURNS_SINCE() for target ({}) unknown.",
-                container.name.as_ref().unwrap()
+                container.name.as_deref().unwrap_or_default()
             )));
         }
 
@@ -1376,19 +1378,28 @@ impl StoryState {
 
             if let Some(output_stream_obj) = j_object.get("outputStream") {
                 self.current_flow.output_stream = json_read::jarray_to_runtime_obj_list(
-                    output_stream_obj.as_array().unwrap(),
+                    output_stream_obj
+                        .as_array()
+                        .ok_or_else(json_read::bad_value)?,
                     false,
                 )?;
             }
 
             if let Some(current_choices_obj) = j_object.get("currentChoices") {
                 self.current_flow.current_choices = json_read::jarray_to_runtime_obj_list(
-                    current_choices_obj.as_array().unwrap(),
+                    current_choices_obj
+                        .as_array()
+                        .ok_or_else(json_read::bad_value)?,
                     false,
                 )?
                 .iter()
-                .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-                .collect();
+                .map(|o| {
+                    o.clone()
+                        .into_any()
+                        .downcast::<Choice>()
+                        .map_err(|_| json_read::bad_value())
+                })
+                .collect::<Result<Vec<Rc<Choice>>, StoryError>>()?;
             }
 
             let j_choice_threads_obj = j_object.get("choiceThreads");
@@ -1411,8 +1422,10 @@ impl StoryState {
         }
 
         if let Some(eval_stack_obj) = j_object.get("evalStack") {
-            self.evaluation_stack =
-                json_read::jarray_to_runtime_obj_list(eval_stack_obj.as_array().unwrap(), false)?;
+            self.evaluation_stack = json_read::jarray_to_runtime_obj_list(
+                eval_stack_obj.as_array().ok_or_else(json_read::bad_value)?,
+                false,
+            )?;
         }
 
         if let Some(current_divert_target_path) = j_object.get("currentDivertTarget") {
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 1020e41..4611459 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -404,7 +404,7 @@ impl VariablesState {
                     json_read::jtoken_to_runtime_object(loaded_token, None)?
                         .into_any()
                         .downcast::<Value>()
-                        .unwrap(),
+                        .map_err(|_| json_read::bad_value())?,
                 );
             } else {
                 self.global_variables.insert(k.clone(), v.clone());
-- 
2.43.0


From 7baf99f12676f20d8fa6357a456bc5ef5897351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 24/37] fix: the streaming loader reads all escapes and number
 forms, and rejects malformed input with an error

---
 runtime/src/json/json_read.rs        |   6 +-
 runtime/src/json/json_read_stream.rs |  70 ++++++++------
 runtime/src/json/json_tokenizer.rs   | 134 +++++++++++++++++++--------
 3 files changed, 145 insertions(+), 65 deletions(-)

diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 6d5e508..8e6c18a 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -505,7 +505,11 @@ pub fn jtoken_to_list_definitions(
         // Cast (string, object) to (string, int) for items
         let mut items: HashMap<String, i32> = HashMap::new();
         for (k, v) in list_def_json.as_object().ok_or_else(bad_value)? {
-            items.insert(k.clone(), v.as_u64().ok_or_else(bad_value)? as i32);
+            let value = v
+                .as_i64()
+                .and_then(|v| v.try_into().ok())
+                .ok_or_else(bad_value)?;
+            items.insert(k.clone(), value);
         }
 
         let def = ListDefinition::new(name.clone(), items);
diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index f647837..e578010 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -27,7 +27,10 @@ use crate::{
     void::Void,
 };
 
-use super::json_tokenizer::{JsonTokenizer, JsonValue};
+use super::{
+    json_read::bad_value,
+    json_tokenizer::{JsonTokenizer, JsonValue},
+};
 
 pub fn load_from_string(
     s: &str,
@@ -50,7 +53,7 @@ fn parse(
         ));
     }
 
-    let version: i32 = tok.read_number().unwrap().as_integer().unwrap();
+    let version: i32 = tok.read_number()?.as_integer().ok_or_else(bad_value)?;
 
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
@@ -123,16 +126,31 @@ fn jtoken_to_runtime_object(
     tok: &mut JsonTokenizer,
     value: JsonValue,
     name: Option<String>,
+) -> Result<ArrayElement, StoryError> {
+    if !matches!(value, JsonValue::Array | JsonValue::Object) {
+        return token_at_depth_to_runtime_object(tok, value, name);
+    }
+
+    tok.enter()?;
+    let object = token_at_depth_to_runtime_object(tok, value, name);
+    tok.leave();
+    object
+}
+
+fn token_at_depth_to_runtime_object(
+    tok: &mut JsonTokenizer,
+    value: JsonValue,
+    name: Option<String>,
 ) -> Result<ArrayElement, StoryError> {
     match value {
         JsonValue::Null => Ok(ArrayElement::NullElement),
         JsonValue::Boolean(value) => Ok(ArrayElement::RTObject(Rc::new(Value::new::<bool>(value)))),
         JsonValue::Number(value) => {
             if value.is_integer() {
-                let val: i32 = value.as_integer().unwrap();
+                let val: i32 = value.as_integer().ok_or_else(bad_value)?;
                 Ok(ArrayElement::RTObject(Rc::new(Value::new::<i32>(val))))
             } else {
-                let val: f32 = value.as_float().unwrap();
+                let val: f32 = value.as_float().ok_or_else(bad_value)?;
                 Ok(ArrayElement::RTObject(Rc::new(Value::new::<f32>(val))))
             }
         }
@@ -140,7 +158,7 @@ fn jtoken_to_runtime_object(
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
+            let first_char = str.chars().next().ok_or_else(bad_value)?;
             if first_char == '^' {
                 return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>(
                     &str[1..],
@@ -195,13 +213,13 @@ fn jtoken_to_runtime_object(
 
             // // VariablePointerValue
             if prop == "^var" {
-                let variable_name = prop_value.as_str().unwrap();
+                let variable_name = prop_value.as_str().ok_or_else(bad_value)?;
                 let mut contex_index = -1;
 
                 if tok.peek()? == ',' {
                     tok.expect(',')?;
                     tok.expect_obj_key("ci")?;
-                    contex_index = tok.read_number().unwrap().as_integer().unwrap();
+                    contex_index = tok.read_number()?.as_integer().ok_or_else(bad_value)?;
                 }
 
                 let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
@@ -233,7 +251,7 @@ fn jtoken_to_runtime_object(
             }
 
             if is_divert {
-                let target = prop_value.as_str().unwrap().to_string();
+                let target = prop_value.as_str().ok_or_else(bad_value)?.to_string();
 
                 let mut var_divert_name: Option<String> = None;
                 let mut target_path: Option<String> = None;
@@ -252,7 +270,10 @@ fn jtoken_to_runtime_object(
                     } else if prop == "c" {
                         conditional = true;
                     } else if prop == "exArgs" {
-                        external_args = prop_value.as_integer().unwrap() as usize;
+                        external_args = prop_value
+                            .as_integer()
+                            .and_then(|n| n.try_into().ok())
+                            .ok_or_else(bad_value)?;
                     }
                 }
 
@@ -275,12 +296,12 @@ fn jtoken_to_runtime_object(
             // Choice
             if prop == "*" {
                 let mut flags = 0;
-                let path_string_on_choice = prop_value.as_str().unwrap();
+                let path_string_on_choice = prop_value.as_str().ok_or_else(bad_value)?;
 
                 if tok.peek()? == ',' {
                     tok.expect(',')?;
                     tok.expect_obj_key("flg")?;
-                    flags = tok.read_number().unwrap().as_integer().unwrap();
+                    flags = tok.read_number()?.as_integer().ok_or_else(bad_value)?;
                 }
 
                 tok.expect('}')?;
@@ -294,14 +315,16 @@ fn jtoken_to_runtime_object(
             if prop == "VAR?" {
                 tok.expect('}')?;
                 return Ok(ArrayElement::RTObject(Rc::new(VariableReference::new(
-                    prop_value.as_str().unwrap(),
+                    prop_value.as_str().ok_or_else(bad_value)?,
                 ))));
             }
 
             if prop == "CNT?" {
                 tok.expect('}')?;
                 return Ok(ArrayElement::RTObject(Rc::new(
-                    VariableReference::from_path_for_count(prop_value.as_str().unwrap()),
+                    VariableReference::from_path_for_count(
+                        prop_value.as_str().ok_or_else(bad_value)?,
+                    ),
                 )));
             }
 
@@ -318,7 +341,7 @@ fn jtoken_to_runtime_object(
             }
 
             if is_var_ass {
-                let var_name = prop_value.as_str().unwrap();
+                let var_name = prop_value.as_str().ok_or_else(bad_value)?;
                 let mut is_new_decl = true;
 
                 if tok.peek()? == ',' {
@@ -341,12 +364,13 @@ fn jtoken_to_runtime_object(
             if prop == "#" {
                 tok.expect('}')?;
                 return Ok(ArrayElement::RTObject(Rc::new(Tag::new(
-                    prop_value.as_str().unwrap(),
+                    prop_value.as_str().ok_or_else(bad_value)?,
                 ))));
             }
 
             // List value
-            if prop == "list" {
+            // (named content may be called "list" too, but is an array)
+            if prop == "list" && matches!(prop_value, JsonValue::Object) {
                 let list_content = parse_list(tok)?;
                 let mut raw_list = InkList::new();
 
@@ -383,12 +407,6 @@ fn jtoken_to_runtime_object(
                 ))));
             }
 
-            // Used when serialising save state only
-            if prop == "originalChoicePath" {
-                todo!("originalChoicePath");
-                // return jobject_to_choice(obj); // TODO
-            }
-
             // Last Element
             let mut flags = 0;
             let mut name: Option<String> = None;
@@ -399,9 +417,9 @@ fn jtoken_to_runtime_object(
 
             loop {
                 if p == "#f" {
-                    flags = pv.as_integer().unwrap();
+                    flags = pv.as_integer().ok_or_else(bad_value)?;
                 } else if p == "#n" {
-                    name = Some(pv.as_str().unwrap().to_string());
+                    name = Some(pv.as_str().ok_or_else(bad_value)?.to_string());
                 } else {
                     let named_content_item = jtoken_to_runtime_object(tok, pv, Some(p.clone()))?;
 
@@ -417,7 +435,7 @@ fn jtoken_to_runtime_object(
                     let named_sub_container = named_content_item
                         .into_any()
                         .downcast::<Container>()
-                        .unwrap();
+                        .map_err(|_| bad_value())?;
 
                     named_only_content.insert(p, named_sub_container);
                 }
@@ -447,7 +465,7 @@ fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryErro
 
     while tok.peek()? != '}' {
         let key = tok.read_obj_key()?;
-        let value = tok.read_number().unwrap().as_integer().unwrap();
+        let value = tok.read_number()?.as_integer().ok_or_else(bad_value)?;
         list_content.insert(key, value);
 
         if tok.peek()? != '}' {
diff --git a/runtime/src/json/json_tokenizer.rs b/runtime/src/json/json_tokenizer.rs
index 2321a4b..20586cb 100644
--- a/runtime/src/json/json_tokenizer.rs
+++ b/runtime/src/json/json_tokenizer.rs
@@ -60,15 +60,39 @@ pub(super) struct JsonTokenizer<'a> {
     json: &'a [u8],
     lookahead: Option<char>,
     skip_whitespaces: bool,
+    depth: usize,
 }
 
+/// How deep arrays and objects may nest inside the outermost object, as in the default parser.
+const MAX_DEPTH: usize = 126;
+
 impl<'a> JsonTokenizer<'a> {
     pub(super) fn new_from_str(s: &'a str) -> JsonTokenizer<'a> {
         JsonTokenizer {
             json: s.as_bytes(),
             lookahead: None,
             skip_whitespaces: true,
+            depth: 0,
+        }
+    }
+
+    /// Goes into an array or object.
+    pub(super) fn enter(&mut self) -> io::Result<()> {
+        self.depth += 1;
+
+        if self.depth > MAX_DEPTH {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "Recursion limit exceeded",
+            ));
         }
+
+        Ok(())
+    }
+
+    /// Leaves an array or object.
+    pub(super) fn leave(&mut self) {
+        self.depth = self.depth.saturating_sub(1);
     }
 
     pub(super) fn read(&mut self) -> io::Result<char> {
@@ -161,60 +185,94 @@ impl<'a> JsonTokenizer<'a> {
         let number_str = self.read_until_separator()?;
         let number_str = number_str.trim();
 
-        // Check if the number is an integer
-        if let Ok(num) = number_str.parse::<i32>() {
-            return Ok(Number::Int(num));
-        }
-
-        // Convert the accumulated string to a f32
-        match number_str.parse::<f32>() {
-            Ok(num) => Ok(Number::Float(num)),
-            Err(_) => Err(io::Error::new(
+        let invalid = || {
+            io::Error::new(
                 io::ErrorKind::InvalidData,
                 format!("Invalid number format: '{}'", number_str),
-            )),
+            )
+        };
+
+        // Check if the number is an integer. As in the default parser a negative zero is
+        // a float.
+        if number_str != "-0"
+            && let Ok(num) = number_str.parse::<i64>()
+        {
+            return i32::try_from(num).map(Number::Int).map_err(|_| invalid());
+        }
+
+        // Convert the accumulated string to a f32, rounding as the default parser does
+        match number_str.parse::<f64>() {
+            Ok(num) if num.is_finite() => Ok(Number::Float(num as f32)),
+            _ => Err(invalid()),
         }
     }
 
     pub(super) fn read_string(&mut self) -> io::Result<String> {
         let mut result = String::new();
-        let mut escape = false;
 
         self.expect('"')?;
         self.skip_whitespaces = false;
 
-        while let Ok(c) = self.read() {
-            if escape {
-                // Handle escape sequences
-                match c {
-                    '\\' => result.push('\\'),
-                    '"' => result.push('"'),
-                    'n' => result.push('\n'),
-                    // 't' => result.push('\t'),
-                    // 'r' => result.push('\r'),
-                    // Add other escape sequences as needed
-                    // _ => result.push(c), // Push the character as is if unknown escape
-                    _ => {}
+        loop {
+            match self.read()? {
+                '\\' => {
+                    let c = self.read_escape()?;
+                    result.push(c);
+                }
+                '"' => break, // End of the quoted string
+                c => result.push(c),
+            }
+        }
+
+        self.skip_whitespaces = true;
+
+        Ok(result)
+    }
+
+    fn read_escape(&mut self) -> io::Result<char> {
+        match self.read()? {
+            '"' => Ok('"'),
+            '\\' => Ok('\\'),
+            '/' => Ok('/'),
+            'b' => Ok('\u{8}'),
+            'f' => Ok('\u{c}'),
+            'n' => Ok('\n'),
+            'r' => Ok('\r'),
+            't' => Ok('\t'),
+            'u' => {
+                let mut units = vec![self.read_code_unit()?];
+
+                // Characters outside the basic plane come as a pair
+                if (0xd800..0xdc00).contains(&units[0]) && self.read()? == '\\' {
+                    if self.read()? != 'u' {
+                        return Err(Self::invalid_escape());
+                    }
+
+                    units.push(self.read_code_unit()?);
+                }
+
+                match char::decode_utf16(units).next() {
+                    Some(Ok(c)) => Ok(c),
+                    _ => Err(Self::invalid_escape()),
                 }
-                escape = false;
-            } else if c == '\\' {
-                escape = true;
-            } else if c == '"' {
-                self.skip_whitespaces = true;
-                break; // End of the quoted string
-            } else {
-                result.push(c);
             }
+            _ => Err(Self::invalid_escape()),
         }
+    }
 
-        if !escape {
-            Ok(result)
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Unterminated string",
-            ))
+    fn read_code_unit(&mut self) -> io::Result<u16> {
+        let mut unit = 0;
+
+        for _ in 0..4 {
+            let digit = self.read()?.to_digit(16).ok_or_else(Self::invalid_escape)?;
+            unit = (unit << 4) | digit as u16;
         }
+
+        Ok(unit)
+    }
+
+    fn invalid_escape() -> io::Error {
+        io::Error::new(io::ErrorKind::InvalidData, "Invalid escape sequence")
     }
 
     fn read_until_separator(&mut self) -> io::Result<String> {
-- 
2.43.0


From 5a4756b142dc3a2bd5e87bde3f634865d3f084ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 25/37] fix: a relative path that leads above the root no
 longer panics

---
 runtime/src/path.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index b9f86b8..998d2fc 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -133,7 +133,8 @@ impl Path {
 
         let mut components = Vec::new();
 
-        for i in 0..self.components.len() - upward_moves {
+        // A path that leads above the root stops there.
+        for i in 0..self.components.len().saturating_sub(upward_moves) {
             components.push(self.components.get(i).unwrap().clone());
         }
 
-- 
2.43.0


From 81a54e354aabf9b998e48ea615af191c3bbd018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 26/37] fix: the compiler no longer panics on non-ASCII
 expressions, stray parentheses and out-of-range numbers

---
 compiler/src/ast.rs                 |  2 +-
 compiler/src/emitter/context.rs     |  6 +++---
 compiler/src/emitter/expression.rs  |  2 +-
 compiler/src/inline.rs              | 12 ++++++++++--
 compiler/src/parser/declarations.rs | 13 ++++++++-----
 compiler/src/parser/expression.rs   | 26 +++++++++++++++-----------
 6 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 78b0f0e..f22b778 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -85,7 +85,7 @@ pub struct GlobalVariable {
 pub struct ListDeclaration {
     pub name: String,
     /// All items in order: (item_name, value_number, initially_selected)
-    pub items: Vec<(String, u32, bool)>,
+    pub items: Vec<(String, i32, bool)>,
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f0d2f10..2a04bae 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -106,7 +106,7 @@ struct EmitContext {
     /// Set of LIST declaration names (to detect list-typed function calls)
     list_names: BTreeSet<String>,
     /// For each list name, a map from bare item name → (qualified name, value)
-    list_items: std::collections::BTreeMap<String, Vec<(String, u32)>>,
+    list_items: std::collections::BTreeMap<String, Vec<(String, i32)>>,
     /// Set of EXTERNAL function declaration names
     external_functions: BTreeSet<String>,
     /// Count flags required by explicit references to flow containers.
@@ -312,7 +312,7 @@ impl EmitContext {
     fn new(story: &ParsedStory, count_all_visits: bool) -> Self {
         let mut list_items = std::collections::BTreeMap::new();
         for list_decl in story.list_declarations() {
-            let items: Vec<(String, u32)> = list_decl
+            let items: Vec<(String, i32)> = list_decl
                 .items
                 .iter()
                 .map(|(name, value, _)| (format!("{}.{}", list_decl.name, name), *value))
@@ -384,7 +384,7 @@ impl EmitContext {
 
     /// Look up a bare item name (e.g. "b") across all lists.
     /// Returns the qualified name and value if found.
-    fn resolve_list_item(&self, bare_name: &str) -> Option<(String, u32)> {
+    fn resolve_list_item(&self, bare_name: &str) -> Option<(String, i32)> {
         // If already qualified (contains '.'), use as-is
         if bare_name.contains('.') {
             for items in self.list_items.values() {
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 6a4020a..0b67adf 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -317,7 +317,7 @@ fn emit_expression_ctx(
             // Constant-fold negation of integer/float literals to match inklecate's
             // output: emit `-3` directly instead of `3, "_"`.
             match expr.as_ref() {
-                Expression::Int(n) => out.push(json!(-n)),
+                Expression::Int(n) => out.push(json!(n.wrapping_neg())),
                 Expression::Float(f) => out.push(float_to_json(-f)),
                 other => {
                     emit_expression_ctx(other, out, context, scope);
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 218089f..f1c533e 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -217,7 +217,7 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
         if !rest.is_empty() && !rest.starts_with("->") && rest.contains('(') {
             // Parse `target` or `target(args)` from `rest`
             let (target_name, args) = if let Some(open) = rest.find('(') {
-                let close = rest.rfind(')').unwrap_or(rest.len() - 1);
+                let close = closing_paren(rest, open)?;
                 let tname = rest[..open].trim().to_owned();
                 let args_str = &rest[open + 1..close];
                 let mut args = Vec::new();
@@ -248,7 +248,7 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
     // Helper to parse "target" or "target(arg1, arg2)" from a segment
     fn parse_segment(segment: &str) -> Result<(String, Vec<Expression>), CompilerError> {
         if let Some(open) = segment.find('(') {
-            let close = segment.rfind(')').unwrap_or(segment.len() - 1);
+            let close = closing_paren(segment, open)?;
             let target = segment[..open].trim().to_owned();
             let args_str = &segment[open + 1..close];
             let mut args = Vec::new();
@@ -320,6 +320,14 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
     Ok(vec![Node::Divert(parse_divert(segments[0])?)])
 }
 
+/// The `)` that ends the arguments opened at `open`.
+fn closing_paren(input: &str, open: usize) -> Result<usize, CompilerError> {
+    input
+        .rfind(')')
+        .filter(|close| *close > open)
+        .ok_or_else(|| CompilerError::invalid_source("missing ')' in divert target".to_owned()))
+}
+
 fn split_top_level_divert_segments(input: &str) -> Vec<&str> {
     let bytes = input.as_bytes();
     let len = input.len();
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 92d4c2e..e10b86d 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -49,7 +49,7 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
     let rhs = input[eq_pos + 1..].trim();
 
     let mut items = Vec::new();
-    let mut value: u32 = 1;
+    let mut next_value: Option<i32> = Some(1);
     for raw in rhs.split(',') {
         let item = raw.trim();
         if item.is_empty() {
@@ -65,18 +65,21 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
         // Check for explicit value assignment: `name = number`
         if let Some((item_name, item_value)) = inner.split_once('=') {
             let item_name = item_name.trim().to_owned();
-            let explicit_value: u32 = item_value.trim().parse().map_err(|_| {
+            let explicit_value: i32 = item_value.trim().parse().map_err(|_| {
                 CompilerError::invalid_source(format!(
                     "invalid LIST item value: '{}'",
                     item_value.trim()
                 ))
             })?;
-            value = explicit_value;
-            items.push((item_name, value, selected));
+            items.push((item_name, explicit_value, selected));
+            next_value = explicit_value.checked_add(1);
         } else {
+            let value = next_value.ok_or_else(|| {
+                CompilerError::invalid_source(format!("LIST item value too large: '{inner}'"))
+            })?;
             items.push((inner.to_owned(), value, selected));
+            next_value = value.checked_add(1);
         }
-        value += 1;
     }
 
     Ok(ListDeclaration { name, items })
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 1280cbf..e85372a 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -49,8 +49,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
         }
 
         if ch == '-' && chars.get(index + 1) == Some(&'>') {
-            let rest = input[index + 2..].trim_start();
-            let parsed = parse_path_identifier(rest).ok_or_else(|| {
+            let rest: String = chars[index + 2..].iter().collect();
+            let parsed = parse_path_identifier(rest.trim_start()).ok_or_else(|| {
                 CompilerError::invalid_source("expected divert target after '->'".to_owned())
             })?;
             tokens.push(Token::DivertTarget(parsed.to_owned()));
@@ -179,16 +179,21 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     }
                     index += 1;
                 }
-                let token_text = &input[start..index];
+                let token_text: String = chars[start..index].iter().collect();
                 if saw_identifier_tail {
-                    tokens.push(Token::Ident(token_text.to_owned()));
+                    tokens.push(Token::Ident(token_text));
                 } else if saw_dot {
-                    let value = input[start..index].parse::<f32>().map_err(|error| {
+                    let value = token_text.parse::<f32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid float literal: {error}"))
                     })?;
+                    if !value.is_finite() {
+                        return Err(CompilerError::invalid_source(
+                            "invalid float literal: number too large".to_owned(),
+                        ));
+                    }
                     tokens.push(Token::Float(value));
                 } else {
-                    let value = input[start..index].parse::<i32>().map_err(|error| {
+                    let value = token_text.parse::<i32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid integer literal: {error}"))
                     })?;
                     tokens.push(Token::Int(value));
@@ -202,8 +207,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 {
                     index += 1;
                 }
-                let ident = &input[start..index];
-                match ident {
+                let ident: String = chars[start..index].iter().collect();
+                match ident.as_str() {
                     "true" => tokens.push(Token::Bool(true)),
                     "false" => tokens.push(Token::Bool(false)),
                     "and" => tokens.push(Token::AndAnd),
@@ -211,7 +216,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     "not" => tokens.push(Token::Bang),
                     "has" => tokens.push(Token::Has),
                     "hasnt" => tokens.push(Token::Hasnt),
-                    _ => tokens.push(Token::Ident(ident.to_owned())),
+                    _ => tokens.push(Token::Ident(ident)),
                 }
             }
             _ => {
@@ -294,9 +299,8 @@ pub fn split_top_level_commas(input: &str) -> Vec<&str> {
     let mut start = 0;
     let mut depth = 0;
     let mut in_string = false;
-    let chars: Vec<char> = input.chars().collect();
 
-    for (index, ch) in chars.iter().enumerate() {
+    for (index, ch) in input.char_indices() {
         match ch {
             '"' => in_string = !in_string,
             '(' if !in_string => depth += 1,
-- 
2.43.0


From 2c65523b6fd3da8ea07adbfdacdfe3190b0f8def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 27/37] fix: the compiler rejects unknown functions, unknown
 divert targets in values and arguments, and names no path can reach

---
 compiler/src/parser/choice.rs       |  8 ++-
 compiler/src/parser/expression.rs   |  6 +++
 compiler/src/parser/statement.rs    |  5 +-
 compiler/src/validator/context.rs   | 16 ++++++
 compiler/src/validator/diverts.rs   | 80 ++++++++++++++++++++++++++---
 compiler/src/validator/structure.rs | 14 +++++
 6 files changed, 120 insertions(+), 9 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index b3bfad4..0b03431 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -279,8 +279,12 @@ pub fn parse_choice_prefixes(
         let end = after_open.find(')').ok_or_else(|| {
             CompilerError::invalid_source("choice label is missing ')'".to_owned())
         })?;
-        label = Some(after_open[..end].trim().to_owned());
-        remainder = after_open[end + 1..].trim_start();
+        // Brackets around anything but a name are part of the text.
+        let name = after_open[..end].trim();
+        if super::expression::is_identifier(name) {
+            label = Some(name.to_owned());
+            remainder = after_open[end + 1..].trim_start();
+        }
     }
 
     while let Some(after_open) = remainder.strip_prefix('{') {
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index e85372a..c05f77b 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -256,6 +256,12 @@ pub fn parse_bool(value: &str) -> Result<bool, CompilerError> {
     }
 }
 
+/// Whether the text can name a knot, a stitch or a label.
+pub fn is_identifier(text: &str) -> bool {
+    text.chars().all(|ch| ch.is_alphanumeric() || ch == '_')
+        && text.chars().any(|ch| !ch.is_ascii_digit())
+}
+
 pub fn parse_path_identifier(text: &str) -> Option<&str> {
     let end = text
         .char_indices()
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 6048e82..5616c51 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -163,7 +163,10 @@ pub fn parse_statement(
 
         // Check for gather label: (label_name) at the start
         let (gather_label, gather_content) = if gather_content.starts_with('(') {
-            if let Some(end) = gather_content.find(')') {
+            // Brackets around anything but a name are part of the text.
+            if let Some(end) = gather_content.find(')')
+                && expression::is_identifier(gather_content[1..end].trim())
+            {
                 let label = gather_content[1..end].trim().to_owned();
                 let rest = gather_content[end + 1..].trim_start();
                 (Some(label), rest)
diff --git a/compiler/src/validator/context.rs b/compiler/src/validator/context.rs
index 25289e5..0a73342 100644
--- a/compiler/src/validator/context.rs
+++ b/compiler/src/validator/context.rs
@@ -17,6 +17,8 @@ struct ValidationContext {
     function_names: BTreeSet<String>,
     /// Declared EXTERNAL function names.
     external_functions: BTreeSet<String>,
+    /// Declared LIST names, callable as `listName(value)`.
+    list_names: BTreeSet<String>,
     /// Global VAR names.
     global_var_names: BTreeSet<String>,
     /// CONST names.
@@ -79,12 +81,23 @@ impl ValidationContext {
             flow_names,
             function_names,
             external_functions: story.external_functions.iter().cloned().collect(),
+            list_names: story
+                .list_declarations()
+                .iter()
+                .map(|list| list.name.clone())
+                .collect(),
             global_var_names,
             const_names,
         }
     }
 
     fn validate_story(&self, story: &ParsedStory) -> Result<(), CompilerError> {
+        // Validate the initial values of the globals
+        for global in story.globals() {
+            self.check_divert_targets_of(&global.initial_value)?;
+            self.validate_expr_function_calls(&global.initial_value)?;
+        }
+
         // Validate root nodes
         let empty_params = BTreeSet::new();
         self.validate_temp_names(story.root(), &empty_params)?;
@@ -94,6 +107,8 @@ impl ValidationContext {
 
         // Validate each flow
         for flow in story.flows() {
+            self.validate_flow_name(flow)?;
+
             // Validate that function purity rules are respected
             self.validate_function_purity(flow)?;
 
@@ -125,6 +140,7 @@ impl ValidationContext {
             // Validate stitch names don't collide with VAR names
             for stitch in &flow.children {
                 self.validate_stitch_name(stitch)?;
+                self.validate_flow_name(stitch)?;
 
                 let stitch_params: BTreeSet<String> = stitch.parameters.iter().cloned().collect();
                 let stitch_divert_params: BTreeSet<String> =
diff --git a/compiler/src/validator/diverts.rs b/compiler/src/validator/diverts.rs
index d0931ac..7d5b116 100644
--- a/compiler/src/validator/diverts.rs
+++ b/compiler/src/validator/diverts.rs
@@ -9,25 +9,45 @@ impl ValidationContext {
     fn validate_node_divert(&self, node: &Node) -> Result<(), CompilerError> {
         match node {
             Node::Divert(d) => self.check_divert(d)?,
-            Node::TunnelDivert { target, .. } => self.check_target(target)?,
+            Node::TunnelDivert { target, args, .. } => {
+                self.check_target(target)?;
+                self.check_divert_targets_in(args)?;
+            }
+            Node::TunnelOnwardsWithTarget { target, args } => {
+                self.check_target(target)?;
+                self.check_divert_targets_in(args)?;
+            }
             Node::ThreadDivert(d) => self.check_divert(d)?,
+            Node::OutputExpression(expr) | Node::ReturnExpr(expr) => {
+                self.check_divert_targets_of(expr)?
+            }
+            Node::Assignment { expression, .. } => self.check_divert_targets_of(expression)?,
+            Node::VoidCall { args, .. } => self.check_divert_targets_in(args)?,
             Node::Choice(c) => {
+                for condition in &c.conditions {
+                    self.check_condition_divert_targets(condition)?;
+                }
                 for n in &c.body {
                     self.validate_node_divert(n)?;
                 }
             }
             Node::Conditional {
+                condition,
                 when_true,
                 when_false,
-                ..
             } => {
+                self.check_condition_divert_targets(condition)?;
                 self.validate_nodes_diverts(when_true, "")?;
                 if let Some(wf) = when_false {
                     self.validate_nodes_diverts(wf, "")?;
                 }
             }
-            Node::SwitchConditional { branches, .. } => {
-                for (_, body) in branches {
+            Node::SwitchConditional { value, branches } => {
+                self.check_divert_targets_of(value)?;
+                for (case, body) in branches {
+                    if let Some(case) = case {
+                        self.check_divert_targets_of(case)?;
+                    }
                     self.validate_nodes_diverts(body, "")?;
                 }
             }
@@ -42,7 +62,39 @@ impl ValidationContext {
     }
 
     fn check_divert(&self, d: &Divert) -> Result<(), CompilerError> {
-        self.check_target(&d.target)
+        self.check_target(&d.target)?;
+        self.check_divert_targets_in(&d.arguments)
+    }
+
+    fn check_condition_divert_targets(&self, condition: &Condition) -> Result<(), CompilerError> {
+        match condition {
+            Condition::Expression(expr) => self.check_divert_targets_of(expr),
+            Condition::FunctionCall(_) | Condition::Bool(_) => Ok(()),
+        }
+    }
+
+    fn check_divert_targets_in(&self, args: &[Expression]) -> Result<(), CompilerError> {
+        args.iter()
+            .try_for_each(|arg| self.check_divert_targets_of(arg))
+    }
+
+    /// Every `-> target` used as a value must name existing content (functions included:
+    /// their read counts may be asked for).
+    fn check_divert_targets_of(&self, expr: &Expression) -> Result<(), CompilerError> {
+        match expr {
+            Expression::DivertTarget(target) if !self.function_names.contains(target) => {
+                self.check_target(target)
+            }
+            Expression::FunctionCall { args, .. } => self.check_divert_targets_in(args),
+            Expression::Negate(inner) | Expression::Not(inner) => {
+                self.check_divert_targets_of(inner)
+            }
+            Expression::Binary { left, right, .. } => {
+                self.check_divert_targets_of(left)?;
+                self.check_divert_targets_of(right)
+            }
+            _ => Ok(()),
+        }
     }
 
     fn check_target(&self, target: &str) -> Result<(), CompilerError> {
@@ -122,6 +174,18 @@ impl ValidationContext {
                     self.validate_expr_function_calls(arg)?;
                 }
             }
+            Node::Divert(Divert {
+                arguments: args, ..
+            })
+            | Node::ThreadDivert(Divert {
+                arguments: args, ..
+            })
+            | Node::TunnelDivert { args, .. }
+            | Node::TunnelOnwardsWithTarget { args, .. } => {
+                for arg in args {
+                    self.validate_expr_function_calls(arg)?;
+                }
+            }
             _ => {}
         }
         Ok(())
@@ -161,6 +225,8 @@ impl ValidationContext {
     fn check_function_call_target(&self, name: &str) -> Result<(), CompilerError> {
         if self.function_names.contains(name)
             || self.external_functions.contains(name)
+            || self.list_names.contains(name)
+            || self.global_var_names.contains(name)
             || is_builtin_function(name)
         {
             return Ok(());
@@ -172,7 +238,9 @@ impl ValidationContext {
             )));
         }
 
-        Ok(())
+        Err(CompilerError::invalid_source(format!(
+            "Function not found: '{name}'"
+        )))
     }
 
     fn validate_nodes_variable_divert_targets(
diff --git a/compiler/src/validator/structure.rs b/compiler/src/validator/structure.rs
index 3aa7660..59b117c 100644
--- a/compiler/src/validator/structure.rs
+++ b/compiler/src/validator/structure.rs
@@ -13,6 +13,20 @@ impl ValidationContext {
         Ok(())
     }
 
+    // -----------------------------------------------------------------------
+    // A name made of digits only, or with dots, would not be found by its path
+    // -----------------------------------------------------------------------
+
+    fn validate_flow_name(&self, flow: &Flow) -> Result<(), CompilerError> {
+        if crate::parser::expression::is_identifier(&flow.name) {
+            return Ok(());
+        }
+        Err(CompilerError::invalid_source(format!(
+            "'{}' is not a valid name.",
+            flow.name
+        )))
+    }
+
     // -----------------------------------------------------------------------
     // Duplicate gather labels
     // -----------------------------------------------------------------------
-- 
2.43.0


From 723f60eb00036bd0c7c2f7d35d5bbe6d5480c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 28/37] fix: content without an index, or a position past the
 end of its container, no longer panics

---
 runtime/src/object.rs         | 17 +++++++----------
 runtime/src/story/progress.rs |  3 ++-
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/runtime/src/object.rs b/runtime/src/object.rs
index d175b05..8f9f407 100644
--- a/runtime/src/object.rs
+++ b/runtime/src/object.rs
@@ -64,16 +64,13 @@ impl Object {
                     }
 
                     if !child_valid_name {
-                        comps.push(Component::new_i(
-                            c.content
-                                .iter()
-                                .position(|r| {
-                                    let a = r.as_ref() as *const _ as *const ();
-                                    let b = child as *const _ as *const ();
-                                    std::ptr::eq(a, b)
-                                })
-                                .unwrap(),
-                        ));
+                        let index = c.content.iter().position(|r| {
+                            let a = r.as_ref() as *const _ as *const ();
+                            let b = child as *const _ as *const ();
+                            std::ptr::eq(a, b)
+                        });
+                        // Named-only content with an empty name has no index
+                        comps.push(index.map_or_else(|| Component::new(""), Component::new_i));
                     }
 
                     container = c.get_object().get_parent();
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 2c524b4..788a8fd 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -437,7 +437,8 @@ impl Story {
         }
 
         // Content to add to evaluation stack or the output stream
-        if should_add_to_stream {
+        // (none when a position lies past the end of its container)
+        if should_add_to_stream && current_content_obj.is_some() {
             // If we're pushing a variable pointer onto the evaluation stack,
             // ensure that it's specific
             // to our current (possibly temporary) context index. And make a
-- 
2.43.0


From 61be529d30537c9cb96a48e213ab13d67a6362d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 29/37] fix: deeply nested source is a compiler error instead
 of exhausting the stack

---
 compiler/src/emitter/context.rs    |  1 +
 compiler/src/inline.rs             |  3 ++
 compiler/src/lib.rs                |  1 +
 compiler/src/nesting.rs            | 57 ++++++++++++++++++++++++++++++
 compiler/src/parser/choice.rs      |  4 +++
 compiler/src/parser/conditional.rs |  2 ++
 compiler/src/parser/expression.rs  | 23 +++++++++++-
 compiler/src/parser/mod.rs         |  1 +
 compiler/src/parser/statement.rs   |  1 +
 9 files changed, 92 insertions(+), 1 deletion(-)
 create mode 100644 compiler/src/nesting.rs

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 2a04bae..f6a2aa7 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -12,6 +12,7 @@ pub fn story_to_json_string(
     count_all_visits: bool,
 ) -> Result<String, CompilerError> {
     let json = story_to_json_value(story, count_all_visits)?;
+    crate::nesting::check_json_depth(&json)?;
     serde_json::to_string(&json).map_err(|error| {
         CompilerError::invalid_source(format!("failed to serialize compiled ink: {error}"))
     })
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index f1c533e..68ec23e 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -1,11 +1,13 @@
 use crate::{
     ast::{Divert, DynamicString, DynamicStringPart, Expression, Node, Sequence, SequenceMode},
     error::CompilerError,
+    nesting::Nesting,
 };
 
 use crate::parser::expression::{parse_call_like, parse_expression};
 
 pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError> {
+    let _nesting = Nesting::enter()?;
     let mut nodes = Vec::new();
     let mut text = String::new();
     let mut chars = content.char_indices().peekable();
@@ -146,6 +148,7 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
 }
 
 pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError> {
+    let _nesting = Nesting::enter()?;
     let mut parts = Vec::new();
     let mut text = String::new();
     let mut chars = input.char_indices().peekable();
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 3214bb2..996ede5 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -4,6 +4,7 @@ mod emitter;
 pub mod error;
 mod includes;
 mod inline;
+mod nesting;
 mod parser;
 pub mod stats;
 mod validator;
diff --git a/compiler/src/nesting.rs b/compiler/src/nesting.rs
new file mode 100644
index 0000000..c5f68f3
--- /dev/null
+++ b/compiler/src/nesting.rs
@@ -0,0 +1,57 @@
+//! Bounds how deeply the source may nest, so that no input exhausts the stack.
+
+use std::cell::Cell;
+
+use serde_json::Value;
+
+use crate::error::CompilerError;
+
+/// Braces, brackets, blocks and choices inside one another.
+pub(crate) const MAX_NESTING: usize = 64;
+/// Operators and brackets of one expression: a chain of operators nests as deep as it is long.
+pub(crate) const MAX_OPERATORS: usize = 128;
+/// Levels of JSON the runtime reads.
+const MAX_JSON_DEPTH: usize = 126;
+
+thread_local! {
+    static DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// One level of nesting, left when dropped.
+pub(crate) struct Nesting;
+
+impl Nesting {
+    pub(crate) fn enter() -> Result<Self, CompilerError> {
+        if DEPTH.get() >= MAX_NESTING {
+            return Err(too_deep());
+        }
+        DEPTH.set(DEPTH.get() + 1);
+        Ok(Self)
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        DEPTH.set(DEPTH.get() - 1);
+    }
+}
+
+/// Error if the compiled story nests deeper than the runtime reads.
+pub(crate) fn check_json_depth(value: &Value) -> Result<(), CompilerError> {
+    if json_depth(value) > MAX_JSON_DEPTH {
+        return Err(too_deep());
+    }
+    Ok(())
+}
+
+fn json_depth(value: &Value) -> usize {
+    match value {
+        Value::Array(items) => 1 + items.iter().map(json_depth).max().unwrap_or(0),
+        Value::Object(entries) => 1 + entries.values().map(json_depth).max().unwrap_or(0),
+        _ => 0,
+    }
+}
+
+pub(crate) fn too_deep() -> CompilerError {
+    CompilerError::unsupported_feature("the source is nested too deeply")
+}
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 0b03431..af190d8 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -1,6 +1,7 @@
 use crate::{
     ast::{Choice, Condition, Divert, DynamicString, Node},
     error::CompilerError,
+    nesting::{MAX_NESTING, too_deep},
 };
 
 use super::inline::parse_divert_line;
@@ -49,6 +50,9 @@ pub fn parse_choice(
         remainder = rest.trim_start();
         nesting_level += 1;
     }
+    if nesting_level > MAX_NESTING {
+        return Err(too_deep());
+    }
     let (label, mut conditions, remainder) = parse_choice_prefixes(remainder)?;
     let mut choice_text = parse_choice_text(remainder)?;
     let mut is_invisible_default =
diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 830c9e7..273e863 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -1,6 +1,7 @@
 use crate::{
     ast::{Expression, Node},
     error::CompilerError,
+    nesting::Nesting,
 };
 
 use super::{
@@ -19,6 +20,7 @@ pub fn parse_conditional(
     strip_leading_whitespace: bool,
     parse_stmt: &impl Fn(&[Line<'_>], &mut usize, bool) -> Result<ParsedStatement, CompilerError>,
 ) -> Result<Vec<Node>, CompilerError> {
+    let _nesting = Nesting::enter()?;
     let line = &lines[*line_index];
     let content = if strip_leading_whitespace {
         line.content.trim_start()
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index c05f77b..44e978d 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -1,6 +1,7 @@
 use crate::{
     ast::{BinaryOperator, Expression},
     error::CompilerError,
+    nesting::{MAX_NESTING, MAX_OPERATORS, Nesting, too_deep},
 };
 
 #[derive(Debug, Clone, PartialEq)]
@@ -161,7 +162,12 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                         "unterminated string literal".to_owned(),
                     ));
                 }
-                tokens.push(Token::Str(chars[index + 1..end].iter().collect()));
+                let text = &chars[index + 1..end];
+                // The expressions in a string are parsed when it is emitted
+                if text.iter().filter(|ch| **ch == '{').count() > MAX_NESTING {
+                    return Err(too_deep());
+                }
+                tokens.push(Token::Str(text.iter().collect()));
                 index = end + 1;
             }
             '0'..='9' => {
@@ -233,6 +239,20 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
 
 pub fn parse_expression(input: &str) -> Result<Expression, CompilerError> {
     let tokens = tokenize_expression(input)?;
+    let operators = tokens.iter().filter(|token| {
+        !matches!(
+            token,
+            Token::Bool(_)
+                | Token::Int(_)
+                | Token::Float(_)
+                | Token::Str(_)
+                | Token::Ident(_)
+                | Token::Comma
+        )
+    });
+    if operators.count() > MAX_OPERATORS {
+        return Err(too_deep());
+    }
     let mut parser = ExpressionParser::new(tokens);
     let expression = parser.parse_expression()?;
 
@@ -507,6 +527,7 @@ impl ExpressionParser {
     }
 
     fn parse_unary(&mut self) -> Result<Expression, CompilerError> {
+        let _nesting = Nesting::enter()?;
         if self.match_token(&Token::Bang) {
             let expr = self.parse_unary()?;
             return Ok(Expression::Not(Box::new(expr)));
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index aeb1ecc..09d275c 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -7,6 +7,7 @@ pub mod sequence;
 use crate::{
     ast::{AssignMode, Expression, Flow, GlobalVariable, ListDeclaration, Node, ParsedStory},
     error::CompilerError,
+    nesting::Nesting,
 };
 
 use self::{
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 5616c51..8c82b2d 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -3,6 +3,7 @@ pub fn parse_statement(
     line_index: &mut usize,
     strip_leading_whitespace: bool,
 ) -> Result<ParsedStatement, CompilerError> {
+    let _nesting = Nesting::enter()?;
     let line = &lines[*line_index];
     let trimmed = line.content.trim();
     // 1-based line number for error messages; captured before any sub-parser advances the index.
-- 
2.43.0


From c98c3eb82c854bdcd7c43ed15e017a100f98afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 30/37] fix: a story that calls itself without end is a story
 error instead of exhausting memory

---
 runtime/src/callstack.rs                | 16 +++++++++++++++-
 runtime/src/story/control_logic.rs      |  1 +
 runtime/src/story/external_functions.rs |  1 +
 runtime/src/story/progress.rs           |  1 +
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 36c1552..3cddf82 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -14,6 +14,9 @@ use crate::{
     value::Value,
 };
 
+/// Most elements of a call stack, and most threads.
+const MAX_DEPTH: usize = 5000;
+
 #[derive(Clone)]
 pub struct Element {
     pub current_pointer: Pointer,
@@ -248,9 +251,20 @@ impl CallStack {
         }
     }
 
+    /// A story that calls itself without end runs out of call stack, not of memory.
+    pub fn check_depth(&self) -> Result<(), StoryError> {
+        if self.threads.len() >= MAX_DEPTH || self.get_callstack().len() >= MAX_DEPTH {
+            return Err(StoryError::InvalidStoryState(
+                "Call stack overflow: the story calls itself, or starts threads, without end"
+                    .to_owned(),
+            ));
+        }
+        Ok(())
+    }
+
     pub fn push_thread(&mut self) {
         let mut new_thread = self.get_current_thread().clone();
-        self.thread_counter += 1;
+        self.thread_counter = self.thread_counter.wrapping_add(1);
         new_thread.thread_index = self.thread_counter;
         self.threads.push(new_thread);
     }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index dcc2a8e..844f7e0 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -95,6 +95,7 @@ impl Story {
             }
 
             if current_divert.pushes_to_stack {
+                self.get_state().get_callstack().borrow().check_depth()?;
                 self.get_state().get_callstack().borrow_mut().push(
                     current_divert.stack_push_type,
                     0,
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 7a906a2..3ba718e 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -132,6 +132,7 @@ impl Story {
             if self.allow_external_function_fallbacks {
                 if let Some(fallback_function_container) = self.knot_container_with_name(func_name)
                 {
+                    self.get_state().get_callstack().borrow().check_depth()?;
                     // Divert direct into fallback function and we're done
                     self.get_state().get_callstack().borrow_mut().push(
                         PushPopType::Function,
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 788a8fd..be83a84 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -489,6 +489,7 @@ impl Story {
                 .downcast_ref::<ControlCommand>()
             && control_cmd.command_type == CommandType::StartThread
         {
+            self.get_state().get_callstack().borrow().check_depth()?;
             self.get_state().get_callstack().borrow_mut().push_thread();
         }
 
-- 
2.43.0


From 620ccc0272a7c00a27e6e30edf8c383a36fab5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 31/37] fix: list items of equal value, missing externals and
 changed variables come in a fixed order

---
 runtime/src/container.rs                |  8 ++++++--
 runtime/src/ink_list.rs                 |  7 ++++---
 runtime/src/ink_list_item.rs            |  2 +-
 runtime/src/json/json_read.rs           |  7 +++++--
 runtime/src/json/json_read_stream.rs    |  9 ++++++---
 runtime/src/list_definition.rs          | 12 ++++++------
 runtime/src/list_definitions_origin.rs  | 12 +++++++++---
 runtime/src/story/external_functions.rs |  8 ++++----
 runtime/src/variables_state.rs          |  6 +++---
 9 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/runtime/src/container.rs b/runtime/src/container.rs
index 00b68f4..586759a 100644
--- a/runtime/src/container.rs
+++ b/runtime/src/container.rs
@@ -1,4 +1,8 @@
-use std::{collections::HashMap, fmt, rc::Rc};
+use std::{
+    collections::{BTreeMap, HashMap},
+    fmt,
+    rc::Rc,
+};
 
 use as_any::Downcast;
 
@@ -130,7 +134,7 @@ impl Container {
             sb.push('\n');
         }
 
-        let mut only_named: HashMap<String, Rc<Container>> = HashMap::new();
+        let mut only_named: BTreeMap<String, Rc<Container>> = BTreeMap::new();
 
         for (k, v) in self.named_content.iter() {
             let o: Rc<dyn RTObject> = v.clone();
diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index 10a3ef5..ee95a6b 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -1,5 +1,5 @@
 use core::fmt;
-use std::{cell::RefCell, collections::HashMap};
+use std::{cell::RefCell, collections::BTreeMap};
 
 use crate::{
     ink_list_item::InkListItem, list_definition::ListDefinition,
@@ -8,7 +8,8 @@ use crate::{
 
 #[derive(Clone)]
 pub struct InkList {
-    pub items: HashMap<InkListItem, i32>,
+    // Ordered, so that items of equal value always come in the same order
+    pub items: BTreeMap<InkListItem, i32>,
     pub origins: RefCell<Vec<ListDefinition>>,
     // we need an origin when we only have the definition (the list has not elemetns)
     initial_origin_names: RefCell<Vec<String>>,
@@ -17,7 +18,7 @@ pub struct InkList {
 impl InkList {
     pub fn new() -> Self {
         Self {
-            items: HashMap::new(),
+            items: BTreeMap::new(),
             origins: RefCell::new(Vec::with_capacity(0)),
             initial_origin_names: RefCell::new(Vec::with_capacity(0)),
         }
diff --git a/runtime/src/ink_list_item.rs b/runtime/src/ink_list_item.rs
index 6cc390b..a4b98e3 100644
--- a/runtime/src/ink_list_item.rs
+++ b/runtime/src/ink_list_item.rs
@@ -1,4 +1,4 @@
-#[derive(Debug, PartialEq, Eq, Hash, Clone)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
 pub struct InkListItem {
     origin_name: Option<String>,
     item_name: String,
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 8e6c18a..1e2b03d 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashMap, rc::Rc};
+use std::{
+    collections::{BTreeMap, HashMap},
+    rc::Rc,
+};
 
 use serde_json::Map;
 
@@ -503,7 +506,7 @@ pub fn jtoken_to_list_definitions(
 
     for (name, list_def_json) in def.as_object().ok_or_else(bad_value)? {
         // Cast (string, object) to (string, int) for items
-        let mut items: HashMap<String, i32> = HashMap::new();
+        let mut items: BTreeMap<String, i32> = BTreeMap::new();
         for (k, v) in list_def_json.as_object().ok_or_else(bad_value)? {
             let value = v
                 .as_i64()
diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index e578010..ce1b44e 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -2,7 +2,10 @@
 //! This is useful for large JSON files that don't fit in memory hence the JSON is not loaded all at once as Serde does.
 //! This parser has been used to load 'The Intercept' example story in an ESP32-s2 microcontroller with an external RAM of 2MB. With the Serde based parser, it is impossible, it does not have enogh memory to load the story.
 
-use std::{collections::HashMap, rc::Rc};
+use std::{
+    collections::{BTreeMap, HashMap},
+    rc::Rc,
+};
 
 use crate::{
     choice_point::ChoicePoint,
@@ -460,8 +463,8 @@ fn token_at_depth_to_runtime_object(
     }
 }
 
-fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryError> {
-    let mut list_content: HashMap<String, i32> = HashMap::new();
+fn parse_list(tok: &mut JsonTokenizer) -> Result<BTreeMap<String, i32>, StoryError> {
+    let mut list_content: BTreeMap<String, i32> = BTreeMap::new();
 
     while tok.peek()? != '}' {
         let key = tok.read_obj_key()?;
diff --git a/runtime/src/list_definition.rs b/runtime/src/list_definition.rs
index e057912..e9a2806 100644
--- a/runtime/src/list_definition.rs
+++ b/runtime/src/list_definition.rs
@@ -1,16 +1,16 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::ink_list_item::InkListItem;
 
 #[derive(Clone)]
 pub struct ListDefinition {
     name: String,
-    items: Option<HashMap<InkListItem, i32>>,
-    item_name_to_values: HashMap<String, i32>,
+    items: Option<BTreeMap<InkListItem, i32>>,
+    item_name_to_values: BTreeMap<String, i32>,
 }
 
 impl ListDefinition {
-    pub fn new(name: String, items: HashMap<String, i32>) -> Self {
+    pub fn new(name: String, items: BTreeMap<String, i32>) -> Self {
         Self {
             name,
             items: None,
@@ -18,9 +18,9 @@ impl ListDefinition {
         }
     }
 
-    pub fn get_items(&mut self) -> &HashMap<InkListItem, i32> {
+    pub fn get_items(&mut self) -> &BTreeMap<InkListItem, i32> {
         if self.items.is_none() {
-            let mut new_items = HashMap::new();
+            let mut new_items = BTreeMap::new();
             for (item_name, value) in &self.item_name_to_values {
                 let item = InkListItem::new(Some(self.name.clone()), item_name.clone());
                 new_items.insert(item, *value);
diff --git a/runtime/src/list_definitions_origin.rs b/runtime/src/list_definitions_origin.rs
index 53e4c0d..25e93b6 100644
--- a/runtime/src/list_definitions_origin.rs
+++ b/runtime/src/list_definitions_origin.rs
@@ -1,17 +1,20 @@
-use std::{collections::HashMap, rc::Rc};
+use std::{
+    collections::{BTreeMap, HashMap},
+    rc::Rc,
+};
 
 use crate::{ink_list::InkList, list_definition::ListDefinition, value::Value};
 
 #[derive(Clone)]
 pub struct ListDefinitionsOrigin {
-    lists: HashMap<String, ListDefinition>,
+    lists: BTreeMap<String, ListDefinition>,
     all_unambiguous_list_value_cache: HashMap<String, Rc<Value>>,
 }
 
 impl ListDefinitionsOrigin {
     pub fn new(lists: &mut Vec<ListDefinition>) -> Self {
         let mut list_definitions_origin = ListDefinitionsOrigin {
-            lists: HashMap::new(),
+            lists: BTreeMap::new(),
             all_unambiguous_list_value_cache: HashMap::new(),
         };
 
@@ -19,7 +22,10 @@ impl ListDefinitionsOrigin {
             list_definitions_origin
                 .lists
                 .insert(list.get_name().to_string(), list.clone());
+        }
 
+        // In the order of the names: the order in the story file is not kept by every loader
+        for list in list_definitions_origin.lists.values_mut() {
             for (key, val) in list.get_items() {
                 let mut l = InkList::new();
                 l.items.insert(key.clone(), *val);
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 3ba718e..4dfd607 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -1,4 +1,4 @@
-use std::{cell::RefCell, collections::HashSet, rc::Rc};
+use std::{cell::RefCell, collections::BTreeSet, rc::Rc};
 
 use crate::{
     container::Container, divert::Divert, object::RTObject, pointer::Pointer,
@@ -196,7 +196,7 @@ impl Story {
     }
 
     pub(crate) fn validate_external_bindings(&mut self) -> Result<(), StoryError> {
-        let mut missing_externals: HashSet<String> = HashSet::new();
+        let mut missing_externals: BTreeSet<String> = BTreeSet::new();
 
         self.validate_external_bindings_container(
             &self.get_main_content_container(),
@@ -231,7 +231,7 @@ impl Story {
     fn validate_external_bindings_container(
         &self,
         c: &Rc<Container>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut BTreeSet<String>,
     ) -> Result<(), StoryError> {
         for inner_content in c.content.iter() {
             let container = inner_content
@@ -266,7 +266,7 @@ impl Story {
     fn validate_external_bindings_rtobject(
         &self,
         o: &Rc<dyn RTObject>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut BTreeSet<String>,
     ) -> Result<(), StoryError> {
         let divert = o.clone().into_any().downcast::<Divert>().ok();
 
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 4611459..83c0770 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     rc::Rc,
 };
 
@@ -49,10 +49,10 @@ impl VariablesState {
         self.changed_variables_for_batch_obs = Some(HashSet::new());
     }
 
-    pub fn complete_variable_observation(&mut self) -> HashMap<String, ValueType> {
+    pub fn complete_variable_observation(&mut self) -> BTreeMap<String, ValueType> {
         self.batch_observing_variable_changes = false;
 
-        let mut changed_vars = HashMap::with_capacity(0);
+        let mut changed_vars = BTreeMap::new();
 
         // Finished observing variables in a batch - now send
         // notifications for changed variables all in one go.
-- 
2.43.0


From 3b7be5b8e1af9c58b0623cc01a5565f5c4be3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 32/37] fix: paths keep their leading dot as text, and equal
 paths hash equally; a variable pointer past the call stack is an error

---
 runtime/src/callstack.rs | 13 +++++++++----
 runtime/src/path.rs      | 22 +++++++++++-----------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 3cddf82..9eb5c45 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -331,7 +331,7 @@ impl CallStack {
 
     pub fn fork_thread(&mut self) -> Thread {
         let mut forked_thread = self.get_current_thread().clone();
-        self.thread_counter += 1;
+        self.thread_counter = self.thread_counter.wrapping_add(1);
         forked_thread.thread_index = self.thread_counter;
         forked_thread
     }
@@ -350,7 +350,12 @@ impl CallStack {
         let context_element = self
             .get_callstack_mut()
             .get_mut((context_index - 1) as usize)
-            .unwrap();
+            .ok_or_else(|| {
+                StoryError::InvalidStoryState(format!(
+                    "No call stack element to set the temporary variable in: {}",
+                    name
+                ))
+            })?;
 
         if !declare_new && !context_element.temporary_variables.contains_key(&name) {
             return Err(StoryError::InvalidStoryState(format!(
@@ -396,8 +401,8 @@ impl CallStack {
             context_index = self.get_current_element_index() + 1;
         }
 
-        let context_element = self.get_callstack().get((context_index - 1) as usize);
-        let var_value = context_element.unwrap().temporary_variables.get(name);
+        let context_element = self.get_callstack().get((context_index - 1) as usize)?;
+        let var_value = context_element.temporary_variables.get(name);
 
         var_value.cloned()
     }
diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index 998d2fc..f2d5262 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -57,25 +57,24 @@ impl Path {
             is_relative = false;
         }
 
-        let component_string = cs.split('.');
         let mut components = Vec::new();
 
-        for str in component_string {
-            let index = str.parse::<usize>();
+        // A relative path may lead nowhere else
+        if !cs.is_empty() {
+            for str in cs.split('.') {
+                let index = str.parse::<usize>();
 
-            match index {
-                Ok(index) => components.push(Component::new_i(index)),
-                Err(_) => components.push(Component::new(str)),
+                match index {
+                    Ok(index) => components.push(Component::new_i(index)),
+                    Err(_) => components.push(Component::new(str)),
+                }
             }
         }
 
-        let cs_cell = OnceCell::new();
-        let _ = cs_cell.set(cs);
-
         Path {
             components,
             is_relative,
-            components_string: cs_cell,
+            ..Default::default()
         }
     }
 
@@ -187,7 +186,8 @@ impl fmt::Display for Path {
 
 impl Hash for Path {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.to_string().hash(state)
+        self.is_relative.hash(state);
+        self.components.hash(state);
     }
 }
 
-- 
2.43.0


From 319a1050ec289f83d99a21796368b41cfc7a3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 33/37] fix: a sequence or conditional inside a sequence branch
 leads to its own branches

---
 compiler/src/emitter/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 0b67adf..77ce742 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -79,8 +79,10 @@ fn emit_sequence(
 
     let mut named = Map::new();
     for (index, branch) in sequence.branches.iter().enumerate() {
-        let branch_scope =
+        let mut branch_scope =
             scope.at_path(joined_path(&sequence_path, format!("s{index}")));
+        // The content of the branch comes after the "pop" put before it below
+        branch_scope.param_offset = 1;
         let mut branch_container = emit_nodes(branch, &branch_scope, context)?;
         branch_container.content.insert(0, json!("pop"));
         branch_container.push(json!({"->": joined_path(&sequence_path, rejoin_index)}));
-- 
2.43.0


From 396a00f55a47636fdd761bc4d42434ce104f4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 34/37] fix: labels of another stitch of the same knot are
 resolved

---
 compiler/src/emitter/context.rs    | 21 ++++++++++++++++++++-
 compiler/src/emitter/expression.rs |  5 +++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f6a2aa7..7896339 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -539,7 +539,9 @@ impl EmitScope {
             return abs.clone();
         }
 
-        target.to_owned()
+        self.resolve_label_of_flow(target, context)
+            .unwrap_or(target)
+            .to_owned()
     }
 
     fn is_variable_divert(&self, target: &str, context: &EmitContext) -> bool {
@@ -552,6 +554,23 @@ impl EmitScope {
         self.choice_label_targets.get(label).map(String::as_str)
     }
 
+    /// A label of another part of the same knot; the names of variables come first.
+    fn resolve_label_of_flow<'c>(&self, label: &str, context: &'c EmitContext) -> Option<&'c str> {
+        if self.temp_param_names.contains(label) || context.global_variables.contains(label) {
+            return None;
+        }
+        let prefix = format!("{}.", self.top_flow_name.as_deref()?);
+        let suffix = format!(".{label}");
+        let mut found = context
+            .qualified_choice_labels
+            .iter()
+            .filter(|(name, _)| name.starts_with(&prefix) && name.ends_with(&suffix));
+        match (found.next(), found.next()) {
+            (Some((_, path)), None) => Some(path),
+            _ => None,
+        }
+    }
+
     fn resolve_qualified_choice_label(
         &self,
         target: &str,
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 77ce742..1b1376a 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -303,6 +303,11 @@ fn emit_expression_ctx(
                 out.push(json!({"CNT?": s.resolve_divert_target(name, ctx)}))
             } else if context.is_some_and(|ctx| ctx.top_flow_names.contains(name)) {
                 out.push(json!({"CNT?": name}))
+            } else if let Some(path) = scope
+                .zip(context)
+                .and_then(|(s, ctx)| s.resolve_label_of_flow(name, ctx))
+            {
+                out.push(json!({"CNT?": path}))
             } else {
                 out.push(json!({"VAR?": name}))
             }
-- 
2.43.0


From e68d0e4678bc58b51c5239ed260a67b7c6994702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 35/37] fix: a reference to content or a variable that does not
 exist is a compiler error

---
 compiler/src/emitter/context.rs |   1 +
 compiler/src/lib.rs             |   1 +
 compiler/src/resolve.rs         | 170 ++++++++++++++++++++++++++++++++
 3 files changed, 172 insertions(+)
 create mode 100644 compiler/src/resolve.rs

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 7896339..724ccaa 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -13,6 +13,7 @@ pub fn story_to_json_string(
 ) -> Result<String, CompilerError> {
     let json = story_to_json_value(story, count_all_visits)?;
     crate::nesting::check_json_depth(&json)?;
+    crate::resolve::check_references(&json)?;
     serde_json::to_string(&json).map_err(|error| {
         CompilerError::invalid_source(format!("failed to serialize compiled ink: {error}"))
     })
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 996ede5..f470da0 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -6,6 +6,7 @@ mod includes;
 mod inline;
 mod nesting;
 mod parser;
+mod resolve;
 pub mod stats;
 mod validator;
 
diff --git a/compiler/src/resolve.rs b/compiler/src/resolve.rs
new file mode 100644
index 0000000..df9f1f4
--- /dev/null
+++ b/compiler/src/resolve.rs
@@ -0,0 +1,170 @@
+//! Checks that every path and name in the compiled story refers to something that exists.
+
+use std::collections::BTreeSet;
+
+use serde_json::{Map, Value};
+
+use crate::error::CompilerError;
+
+/// Error if a divert, tunnel, thread, function call, choice, divert target value or read count
+/// of the compiled story refers to content that is not there.
+pub(crate) fn check_references(story: &Value) -> Result<(), CompilerError> {
+    let mut names = BTreeSet::new();
+    collect_variables(&story["root"], &mut names);
+    collect_lists(&story["listDefs"], &mut names);
+
+    match story.get("root") {
+        Some(Value::Array(root)) => check_container(root, &names, &mut Vec::new()),
+        _ => Ok(()),
+    }
+}
+
+/// The variables the story declares, temporary ones and parameters included.
+fn collect_variables<'a>(content: &'a Value, names: &mut BTreeSet<&'a str>) {
+    match content {
+        Value::Array(items) => items.iter().for_each(|item| collect_variables(item, names)),
+        Value::Object(object) => {
+            if !object.contains_key("re") {
+                names.extend(
+                    ["VAR=", "temp="]
+                        .into_iter()
+                        .filter_map(|key| object.get(key)?.as_str()),
+                );
+            }
+            object
+                .values()
+                .for_each(|value| collect_variables(value, names));
+        }
+        _ => {}
+    }
+}
+
+fn collect_lists<'a>(definitions: &'a Value, names: &mut BTreeSet<&'a str>) {
+    for (name, items) in definitions.as_object().into_iter().flatten() {
+        names.insert(name);
+        names.extend(
+            items
+                .as_object()
+                .into_iter()
+                .flatten()
+                .map(|(item, _)| item.as_str()),
+        );
+    }
+}
+
+/// `ancestors` lead from the root to the container that holds this one.
+fn check_container<'a>(
+    container: &'a [Value],
+    names: &BTreeSet<&str>,
+    ancestors: &mut Vec<&'a [Value]>,
+) -> Result<(), CompilerError> {
+    ancestors.push(container);
+    for item in content(container) {
+        match item {
+            Value::Array(inner) => check_container(inner, names, ancestors)?,
+            Value::Object(object) => check_object(object, names, ancestors)?,
+            _ => {}
+        }
+    }
+    for inner in named(container).flat_map(Map::values) {
+        if let Value::Array(inner) = inner {
+            check_container(inner, names, ancestors)?;
+        }
+    }
+    ancestors.pop();
+    Ok(())
+}
+
+fn check_object(
+    object: &Map<String, Value>,
+    names: &BTreeSet<&str>,
+    ancestors: &[&[Value]],
+) -> Result<(), CompilerError> {
+    for key in ["VAR?", "^var", "VAR=", "temp="] {
+        if let Some(Value::String(name)) = object.get(key)
+            && !is_known(name, names)
+        {
+            return Err(CompilerError::invalid_source(format!(
+                "Unresolved variable: {name}"
+            )));
+        }
+    }
+
+    for key in ["->", "f()", "->t->", "*", "CNT?", "^->"] {
+        let Some(Value::String(path)) = object.get(key) else {
+            continue;
+        };
+        // The target of a variable divert is known when the story is played
+        if object.contains_key("var") {
+            continue;
+        }
+        let found = match path.strip_prefix('.') {
+            // Starting from the object itself: the first step is to its container
+            Some(relative) => leads_somewhere(ancestors, relative.split('.').skip(1)),
+            None => leads_somewhere(&ancestors[..1], path.split('.')),
+        };
+        if !found {
+            return Err(CompilerError::invalid_source(format!(
+                "Target not found: '{path}'"
+            )));
+        }
+    }
+    Ok(())
+}
+
+/// A list item may be given with the name of its list.
+fn is_known(name: &str, names: &BTreeSet<&str>) -> bool {
+    match name.split_once('.') {
+        Some((list, item)) => names.contains(list) && names.contains(item),
+        None => names.contains(name),
+    }
+}
+
+fn leads_somewhere<'p>(from: &[&[Value]], steps: impl Iterator<Item = &'p str>) -> bool {
+    let mut chain = from.to_vec();
+    let mut at_leaf = false;
+    for step in steps {
+        let Some(container) = chain.last().filter(|_| !at_leaf) else {
+            return false;
+        };
+        if step == "^" {
+            chain.pop();
+            if chain.is_empty() {
+                return false;
+            }
+            continue;
+        }
+        let found = match step.parse::<usize>() {
+            Ok(index) => content(container).get(index),
+            Err(_) => with_name(container, step),
+        };
+        match found {
+            Some(Value::Array(inner)) => chain.push(inner),
+            Some(_) => at_leaf = true,
+            None => return false,
+        }
+    }
+    true
+}
+
+fn content(container: &[Value]) -> &[Value] {
+    container.split_last().map_or(&[], |(_, content)| content)
+}
+
+/// The named-only content of a container, with the container's own name and flags.
+fn named(container: &[Value]) -> impl Iterator<Item = &Map<String, Value>> {
+    container.last().and_then(Value::as_object).into_iter()
+}
+
+fn with_name<'a>(container: &'a [Value], name: &str) -> Option<&'a Value> {
+    let only_named = named(container).find_map(|named| named.get(name));
+    only_named
+        .filter(|found| found.is_array())
+        .or_else(|| content(container).iter().find(|item| has_name(item, name)))
+}
+
+fn has_name(item: &Value, name: &str) -> bool {
+    item.as_array().is_some_and(|container| {
+        named(container).any(|named| named.get("#n").and_then(Value::as_str) == Some(name))
+    })
+}
-- 
2.43.0


From 06bbd401ddce4646f6e8b619335c3363b484163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 36/37] fix: a global variable's list value names its items in
 full; an item given with its list is a list value

---
 compiler/src/emitter/context.rs    | 2 +-
 compiler/src/emitter/expression.rs | 8 ++++----
 compiler/src/emitter/flow.rs       | 8 +++++++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 724ccaa..1604c29 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -42,7 +42,7 @@ pub fn story_to_json_value(
     if !story.globals().is_empty() || !story.list_declarations().is_empty() {
         named_content.insert(
             "global decl".to_owned(),
-            emit_global_declarations(story.globals(), story.list_declarations())?
+            emit_global_declarations(story.globals(), story.list_declarations(), &context)?
                 .into_json_array(None, None)?,
         );
     }
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 1b1376a..4269dab 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -223,10 +223,6 @@ fn emit_assignment(
     }
 }
 
-fn emit_expression(expression: &Expression, out: &mut Vec<Value>) {
-    emit_expression_ctx(expression, out, None, None);
-}
-
 fn emit_expression_ctx(
     expression: &Expression,
     out: &mut Vec<Value>,
@@ -293,6 +289,10 @@ fn emit_expression_ctx(
             } else if let Some(path) = context.and_then(|ctx| ctx.qualified_choice_labels.get(name))
             {
                 out.push(json!({"CNT?": path}))
+            } else if name.contains('.')
+                && context.is_some_and(|ctx| ctx.resolve_list_item(name).is_some())
+            {
+                out.push(json!({"VAR?": name}))
             } else if name.contains('.') {
                 out.push(json!({"CNT?": name}))
             } else if let (Some(s), Some(ctx)) = (scope, context)
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 801e490..b58ffff 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -1,6 +1,7 @@
 fn emit_global_declarations(
     globals: &[GlobalVariable],
     list_decls: &[ListDeclaration],
+    context: &EmitContext,
 ) -> Result<EmittedContainer, CompilerError> {
     let mut container = EmittedContainer::default();
     container.push(json!("ev"));
@@ -26,7 +27,12 @@ fn emit_global_declarations(
     }
 
     for global in globals {
-        emit_expression(&global.initial_value, &mut container.content);
+        emit_expression_ctx(
+            &global.initial_value,
+            &mut container.content,
+            Some(context),
+            None,
+        );
         container.push(json!({ "VAR=": global.name }));
     }
 
-- 
2.43.0


From 5b7c19867d064a88b8f4cb824eedbf972f47438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 37/37] fix: a list item that does not exist is a compiler
 error

---
 compiler/src/resolve.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compiler/src/resolve.rs b/compiler/src/resolve.rs
index df9f1f4..0e5f334 100644
--- a/compiler/src/resolve.rs
+++ b/compiler/src/resolve.rs
@@ -90,6 +90,14 @@ fn check_object(
         }
     }
 
+    if let Some(Value::Object(items)) = object.get("list")
+        && let Some((item, _)) = items.iter().find(|(item, _)| !is_known(item, names))
+    {
+        return Err(CompilerError::invalid_source(format!(
+            "Unresolved list item: {item}"
+        )));
+    }
+
     for key in ["->", "f()", "->t->", "*", "CNT?", "^->"] {
         let Some(Value::String(path)) = object.get(key) else {
             continue;
-- 
2.43.0

