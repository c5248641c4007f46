From db4776400c504ff374a000fbd8210aeadbbb9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 01/31] fix: caret search skips character classes and follows
 nested groups

---
 packages/compiler/src/regex.rs | 50 ++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index d3571b4..9b48264 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -29,7 +29,9 @@ fn create_dfa_config() -> Config {
         .accelerate(true)
 }
 
-/// Finds the index of the first caret (^) in a regex string that is not inside parentheses.
+/// Finds the index just after the part of a regex string that holds its caret (^).
+///
+/// Escaped characters and character classes are skipped: a caret there is not an anchor.
 ///
 /// # Arguments
 ///
@@ -37,48 +39,56 @@ fn create_dfa_config() -> Config {
 ///
 /// # Returns
 ///
-/// An `Option<usize>` containing the index of the caret if found, or `None` if not found.
+/// An `Option<usize>` containing the index just after the caret, or after the outermost group
+/// that contains it, or `None` if there is no caret.
 fn find_caret_index(regex: &str) -> Option<usize> {
     let regex_bytes = regex.as_bytes();
-    let mut is_in_parenthesis = false;
+    let mut group_depth = 0usize;
+    let mut class_depth = 0usize;
     let mut caret_found = false;
     let mut idx = 0;
 
     while idx < regex_bytes.len() {
         match regex_bytes[idx] {
             b'\\' => {
-                idx += 2;
-            }
-            b'(' => {
-                is_in_parenthesis = true;
                 idx += 1;
             }
             b'[' => {
-                idx += 2;
+                class_depth += 1;
+                // A leading `^` negates the class, a leading `]` is a literal.
+                if regex_bytes.get(idx + 1) == Some(&b'^') {
+                    idx += 1;
+                }
+                if regex_bytes.get(idx + 1) == Some(&b']') {
+                    idx += 1;
+                }
+            }
+            b']' => {
+                class_depth = class_depth.saturating_sub(1);
+            }
+            _ if class_depth > 0 => {}
+            b'(' => {
+                group_depth += 1;
             }
             b')' => {
-                debug_assert!(is_in_parenthesis, "Unmatched parenthesis");
-                is_in_parenthesis = false;
-                idx += 1;
-                if caret_found {
-                    break;
+                group_depth = group_depth.saturating_sub(1);
+                if caret_found && group_depth == 0 {
+                    return Some(idx + 1);
                 }
             }
             b'^' => {
                 caret_found = true;
-                idx += 1;
-                if !is_in_parenthesis {
-                    break;
+                if group_depth == 0 {
+                    return Some(idx + 1);
                 }
             }
-            _ => {
-                idx += 1;
-            }
+            _ => {}
         }
+        idx += 1;
     }
 
     if caret_found {
-        Some(idx)
+        Some(regex_bytes.len())
     } else {
         None
     }
-- 
2.43.0


From d746193b339884ffb4f28cfa793e554f21f66405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 02/31] fix: caret transition leads to an accept state that
 cannot continue

---
 packages/compiler/src/regex.rs | 37 +++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 9b48264..091ee90 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -566,8 +566,8 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 /// # Function Behavior
 ///
 /// 1. Clears the state type of the start state.
-/// 2. Finds the accept state in the graph.
-/// 3. Adds a transition from the start state to the accept state with byte value 255.
+/// 2. Finds an accept state without outgoing transitions in the graph, adding one if needed.
+/// 3. Adds a transition from the start state to that accept state with byte value 255.
 fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
     if let Some(start_state) = graph.states.get_mut(0) {
         start_state.state_type.clear();
@@ -577,17 +577,40 @@ fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
         ));
     }
 
-    let accepted_state = graph
+    if !graph
         .states
         .iter()
-        .find(|state| state.state_type == "accept")
-        .ok_or_else(|| CompilerError::GraphError("Accept state not found".to_string()))?
-        .clone();
+        .any(|state| state.state_type == "accept")
+    {
+        return Err(CompilerError::GraphError(
+            "Accept state not found".to_string(),
+        ));
+    }
+
+    // The caret must lead to a state that only accepts: one that can also continue the
+    // alternatives of the caret would let their remainder match at the start of the input.
+    let caret_state_id = graph
+        .states
+        .iter()
+        .find(|state| state.state_type == "accept" && state.transitions.is_empty())
+        .map(|state| state.state_id);
+    let caret_state_id = match caret_state_id {
+        Some(state_id) => state_id,
+        None => {
+            let state_id = get_max_state(graph) + 1;
+            graph.states.push(DFAStateNode {
+                state_type: "accept".to_string(),
+                state_id,
+                transitions: BTreeMap::new(),
+            });
+            state_id
+        }
+    };
 
     if let Some(start_state) = graph.states.get_mut(0) {
         start_state
             .transitions
-            .entry(accepted_state.state_id)
+            .entry(caret_state_id)
             .or_insert_with(BTreeSet::new)
             .insert(255u8);
     }
-- 
2.43.0


From 70954e87a24e7461fe474952e3a0d60526c31d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 03/31] fix: a part that loops to its start is not attached to
 an unrelated state

---
 packages/compiler/src/regex.rs | 49 ++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 091ee90..7370ae7 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -913,6 +913,52 @@ fn process_accept_state(accept_state: &mut DFAStateNode, start_state: &DFAStateN
     update_state_type(accept_state, start_state);
 }
 
+/// Checks whether transitions of the next graph back to its start state may be redirected to
+/// the state `max_state_index` of the net DFA, which is where renaming sends them.
+///
+/// That holds if that state is the only accepting one and has no transitions of its own.
+///
+/// # Arguments
+///
+/// * `net_dfa` - A reference to the existing DFAGraph.
+/// * `max_state_index` - The maximum state ID of the existing DFAGraph.
+fn start_state_can_be_shared(net_dfa: &DFAGraph, max_state_index: usize) -> bool {
+    net_dfa.states.iter().all(|state| {
+        (state.state_type == "accept") == (state.state_id == max_state_index)
+            && (state.state_id != max_state_index || state.transitions.is_empty())
+    })
+}
+
+/// Redirects the transitions of a graph back to its start state to a copy of that state.
+///
+/// # Arguments
+///
+/// * `graph` - A mutable reference to the DFAGraph to be modified.
+fn split_looping_start_state(graph: &mut DFAGraph) {
+    let start_id = match graph.states.first() {
+        Some(start_state) => start_state.state_id,
+        None => return,
+    };
+    if !graph
+        .states
+        .iter()
+        .any(|state| state.transitions.contains_key(&start_id))
+    {
+        return;
+    }
+
+    let copy_id = get_max_state(graph) + 1;
+    let mut copy = graph.states[0].clone();
+    copy.state_id = copy_id;
+    graph.states.push(copy);
+
+    for state in &mut graph.states {
+        if let Some(chars) = state.transitions.remove(&start_id) {
+            state.transitions.insert(copy_id, chars);
+        }
+    }
+}
+
 /// Adds a new DFA graph to an existing net DFA graph.
 ///
 /// # Arguments
@@ -1000,6 +1046,9 @@ pub(crate) fn get_regex_and_dfa(
             .max()
             .unwrap_or(0);
 
+        if !start_state_can_be_shared(&net_dfa_graph, max_state_index) {
+            split_looping_start_state(&mut dfa_graph);
+        }
         dfa_graph = rename_states(&dfa_graph, max_state_index);
 
         if regex.is_public {
-- 
2.43.0


From 1b7696a55901d36ea9dd0942baf9fc20da3ea09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 04/31] fix: an escaped dollar is not an end anchor

---
 packages/compiler/src/regex.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 7370ae7..bc63e03 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -121,6 +121,22 @@ fn process_caret_in_regex(
     Ok(caret_position)
 }
 
+/// Checks whether a regex string ends with an end anchor ($), as opposed to an escaped dollar.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// A boolean indicating whether the regex ends with an end anchor.
+fn ends_with_end_anchor(regex: &str) -> bool {
+    regex.strip_suffix('$').map_or(false, |rest| {
+        let backslashes = rest.len() - rest.trim_end_matches('\\').len();
+        backslashes % 2 == 0
+    })
+}
+
 /// Validates the end anchor ($) in a regex part.
 ///
 /// # Arguments
@@ -138,7 +154,7 @@ fn validate_end_anchor(
     regex: &RegexPartConfig,
 ) -> Result<bool, CompilerError> {
     let is_last_part = idx == decomposed_regex.parts.len() - 1;
-    let ends_with_dollar = regex.regex_def.ends_with('$');
+    let ends_with_dollar = ends_with_end_anchor(&regex.regex_def);
 
     if ends_with_dollar && !is_last_part {
         return Err(CompilerError::GenericError(
@@ -1177,7 +1193,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     Ok(RegexAndDFA {
         regex_pattern: regex_str.to_string(),
         dfa,
-        has_end_anchor: regex_str.ends_with('$'),
+        has_end_anchor: ends_with_end_anchor(regex_str),
         substrings,
     })
 }
-- 
2.43.0


From e12d8b4e99e68b503117d852bedbf199f505bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 05/31] fix: anchor every alternative of a raw regex

---
 packages/compiler/src/regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index bc63e03..455f2c2 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1112,7 +1112,7 @@ fn create_dfa_graph_from_regex(regex: &str) -> Result<DFAGraph, CompilerError> {
 
     let dfa = DFA::builder()
         .configure(config)
-        .build(&format!(r"^{}$", regex))
+        .build(&format!(r"^(?:{})$", regex))
         .map_err(|e| CompilerError::BuildError {
             regex: regex.to_string(),
             source: e,
-- 
2.43.0


From 9eef88dff2b0f6c172fc333e1e7bb1ddb92ce164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 06/31] fix: report a decomposed regex without parts as an
 error

---
 packages/compiler/src/regex.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 455f2c2..a20f610 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -106,7 +106,10 @@ fn find_caret_index(regex: &str) -> Option<usize> {
 fn process_caret_in_regex(
     decomposed_regex: &mut DecomposedRegexConfig,
 ) -> Result<Option<usize>, CompilerError> {
-    let caret_position = find_caret_index(&decomposed_regex.parts[0].regex_def);
+    let first_part = decomposed_regex.parts.front().ok_or_else(|| {
+        CompilerError::GenericError("The decomposed regex has no parts".to_string())
+    })?;
+    let caret_position = find_caret_index(&first_part.regex_def);
 
     if let Some(index) = caret_position {
         let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
-- 
2.43.0


From 15b30ece36696bd85289386c0fb65d179c10dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 07/31] fix: raw regexes honour the start anchor

---
 packages/compiler/src/regex.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index a20f610..7d64189 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1176,7 +1176,18 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     regex_str: &str,
     substrs_defs_json: SubstringDefinitionsJson,
 ) -> Result<RegexAndDFA, CompilerError> {
-    let dfa = create_dfa_graph_from_regex(regex_str)?;
+    let dfa = if find_caret_index(regex_str).is_some() {
+        // The start anchor needs the transition on the byte in front of the message.
+        let mut single_part = DecomposedRegexConfig {
+            parts: VecDeque::from([RegexPartConfig {
+                is_public: false,
+                regex_def: regex_str.to_string(),
+            }]),
+        };
+        get_regex_and_dfa(&mut single_part)?.dfa
+    } else {
+        create_dfa_graph_from_regex(regex_str)?
+    };
 
     let substring_ranges = substrs_defs_json
         .transitions
-- 
2.43.0


From 5573cd4dc51999a1c91d5a66fc7c7a1bfba9e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 08/31] fix: close the circom template when substrings are not
 generated

---
 packages/compiler/src/circom.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index f7d319f..b30ed6e 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -980,6 +980,8 @@ pub(crate) fn gen_circom_template(
     if gen_substrs {
         let substrs = add_substrs_constraints(regex_and_dfa)?;
         file.write_all(substrs.as_bytes())?;
+    } else {
+        file.write_all(b"\n}")?;
     }
 
     file.flush()?;
-- 
2.43.0


From a66c5803798bb1aba7342df717d37e507435ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 09/31] fix: a substring without transitions reveals nothing
 instead of breaking the circuit

---
 packages/compiler/src/circom.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index b30ed6e..2360582 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -832,6 +832,10 @@ fn write_prev_states(idx: usize, ranges: &[&(usize, usize)]) -> String {
 ///
 /// A String containing the generated Circom code for substring logic.
 fn write_is_substr(idx: usize, ranges: &[&(usize, usize)]) -> String {
+    if ranges.is_empty() {
+        return format!("\t\tis_substr{idx}[i] <== 0;\n");
+    }
+
     let multi_or_inputs = ranges
         .iter()
         .enumerate()
@@ -881,7 +885,9 @@ fn write_is_reveal_and_reveal(idx: usize) -> String {
 /// A String containing the generated Circom code for the complete substring logic.
 fn write_substr_logic(idx: usize, ranges: &[(usize, usize)]) -> String {
     let mut logic = String::new();
-    logic += &format!("\tsignal prev_states{idx}[{}][msg_bytes];\n", ranges.len());
+    if !ranges.is_empty() {
+        logic += &format!("\tsignal prev_states{idx}[{}][msg_bytes];\n", ranges.len());
+    }
     logic += &format!("\tsignal is_substr{idx}[msg_bytes];\n");
     logic += &format!("\tsignal is_reveal{idx}[msg_bytes];\n");
     logic += &format!("\tsignal output reveal{idx}[msg_bytes];\n");
-- 
2.43.0


From 70e072ce88b10553bb92d025e4f76e82656a2c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 10/31] fix: a raw regex without substring definitions has no
 substrings

---
 packages/compiler/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 2767c52..5b6b522 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -33,7 +33,7 @@ fn load_substring_definitions_json(
             serde_json::from_reader(file).map_err(CompilerError::JsonParseError)
         }
         None => Ok(SubstringDefinitionsJson {
-            transitions: vec![vec![]],
+            transitions: vec![],
         }),
     }
 }
-- 
2.43.0


From 94efc078ee1ed24c8e322a46f0201920a4b3a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 11/31] fix: report a missing circom template name as an error

---
 packages/compiler/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 5b6b522..fcebb00 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -77,8 +77,12 @@ fn generate_outputs(
 
     if let Some(circom_file_path) = circom_file_path {
         let circom_file_path = PathBuf::from(circom_file_path);
-        let circom_template_name = circom_template_name
-            .expect("circom template name must be specified if circom file path is specified");
+        let circom_template_name = circom_template_name.ok_or_else(|| {
+            CompilerError::GenericError(
+                "circom template name must be specified if circom file path is specified"
+                    .to_string(),
+            )
+        })?;
 
         gen_circom_template(
             regex_and_dfa,
-- 
2.43.0


From d8691616cbcf15aae460c46b9140b317a2c2a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 12/31] fix: an end-anchored match may end with the last byte
 of an unpadded message

---
 packages/compiler/src/circom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 2360582..485256b 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -694,9 +694,9 @@ fn generate_accept_logic(
     accept_lines.push("\t}".to_string());
 
     if end_anchor {
-        accept_lines.push("\tsignal end_anchor_check[num_bytes+1][2];".to_string());
+        accept_lines.push("\tsignal end_anchor_check[num_bytes+2][2];".to_string());
         accept_lines.push("\tend_anchor_check[0][1] <== 0;".to_string());
-        accept_lines.push("\tfor (var i = 0; i < num_bytes; i++) {".to_string());
+        accept_lines.push("\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
         accept_lines.push(
             "\t\tend_anchor_check[i+1][0] <== IsEqual()([i, padding_start[num_bytes]]);"
                 .to_string(),
@@ -706,7 +706,7 @@ fn generate_accept_logic(
         );
         accept_lines.push("\t}".to_string());
         accept_lines
-            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes][1];".to_string());
+            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes+1][1];".to_string());
     } else {
         accept_lines.push("\tout <== is_accepted.out;".to_string());
     }
-- 
2.43.0


From 39e8ddd9ca55f91ee6bb4ad6062976d28421cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 13/31] fix: an end-anchored circuit reveals only the match at
 the end

---
 packages/compiler/src/circom.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 485256b..af50ca7 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -769,23 +769,35 @@ fn gen_circom_allstr(
 /// # Arguments
 ///
 /// * `accepted_state` - The index of the accepted state.
+/// * `end_anchor` - Indicates whether the regex is end-anchored.
 ///
 /// # Returns
 ///
 /// A String containing the generated Circom code for consecutive logic.
-fn write_consecutive_logic(accepted_state: usize) -> String {
+fn write_consecutive_logic(accepted_state: usize, end_anchor: bool) -> String {
     let mut logic = String::new();
     logic += "\n";
+    let mut accepted = format!("states[num_bytes-i][{accepted_state}]");
+    if end_anchor {
+        // Only the match that ends at the end of the message may be revealed.
+        logic += "\tsignal end_accepted[num_bytes+1];\n";
+        logic += "\tfor (var i = 0; i <= num_bytes; i++) {\n";
+        logic += &format!(
+            "\t\tend_accepted[i] <== states[i][{accepted_state}] * end_anchor_check[i+1][0];\n"
+        );
+        logic += "\t}\n";
+        accepted = "end_accepted[num_bytes-i]".to_string();
+    }
     logic += "\tsignal is_consecutive[msg_bytes+1][3];\n";
     logic += "\tis_consecutive[msg_bytes][2] <== 0;\n";
     logic += "\tfor (var i = 0; i < msg_bytes; i++) {\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][0] <== states[num_bytes-i][{accepted_state}] * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
+        "\t\tis_consecutive[msg_bytes-1-i][0] <== {accepted} * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
     );
     logic +=
         "\t\tis_consecutive[msg_bytes-1-i][1] <== state_changed[msg_bytes-i].out * is_consecutive[msg_bytes-1-i][0];\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), states[num_bytes-i][{accepted_state}], is_consecutive[msg_bytes-1-i][1]]);\n"
+        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), {accepted}, is_consecutive[msg_bytes-1-i][1]]);\n"
     );
     logic += "\t}\n";
     logic
@@ -938,7 +950,7 @@ fn add_substrs_constraints(regex_dfa: &RegexAndDFA) -> Result<String, CompilerEr
         get_accepted_state(&regex_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
     let mut circom = String::new();
 
-    circom += &write_consecutive_logic(accepted_state);
+    circom += &write_consecutive_logic(accepted_state, regex_dfa.has_end_anchor);
 
     circom += &format!(
         "\t// substrings calculated: {:?}\n",
-- 
2.43.0


From 99c86c3c99a69ea672cdfcb6b4fa35e82b4d43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 14/31] fix: extraction keeps the groups and escaped
 parentheses of regex parts

---
 packages/apis/src/extract_substrs.rs | 34 +++++++++++++++-------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index f975e5e..df9ca6a 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -43,25 +43,28 @@ pub fn extract_substr_idxes(
     regex_config: &DecomposedRegexConfig,
     reveal_private: bool,
 ) -> Result<Vec<(usize, usize)>, ExtractSubstrssError> {
-    // Validate each regex part individually, to throw better errors
+    // Construct the full regex pattern with a capture group for each part. The groups inside the
+    // parts are counted to know the capture group index of each part.
+    let mut entire_regex_str = String::new();
+    let mut part_group_idxes = vec![];
+    let mut next_group_idx = 1;
     for (i, part) in regex_config.parts.iter().enumerate() {
-        Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
-            part_index: i,
-            regex_def: part.regex_def.clone(),
-            error: e,
+        // Validate each regex part individually, to throw better errors
+        let part_regex = Regex::new(&part.regex_def).map_err(|e| {
+            ExtractSubstrssError::InvalidRegexPart {
+                part_index: i,
+                regex_def: part.regex_def.clone(),
+                error: e,
+            }
         })?;
-    }
-
-    // Construct the full regex pattern with groups for each part
-    let mut entire_regex_str = String::new();
-    for (_, part) in regex_config.parts.iter().enumerate() {
-        let adjusted_regex_def = part.regex_def.replace("(", "(?:");
-        entire_regex_str += &format!("({})", adjusted_regex_def);
+        entire_regex_str += &format!("({})", part.regex_def);
+        part_group_idxes.push(next_group_idx);
+        // captures_len() includes the group of the whole part
+        next_group_idx += part_regex.captures_len();
     }
 
     // Compile the entire regex
-    // This should be impossible to fail, since we tested the seperate regex parts before.
-    let entire_regex = Regex::new(&entire_regex_str).unwrap();
+    let entire_regex = Regex::new(&entire_regex_str)?;
 
     // Find the match for the entire regex
     let entire_captures = entire_regex
@@ -74,8 +77,7 @@ pub fn extract_substr_idxes(
     // Iterate over each part to extract the relevant indices
     for (i, part) in regex_config.parts.iter().enumerate() {
         if part.is_public || reveal_private {
-            if let Some(matched) = entire_captures.get(i + 1) {
-                // Capture group indices are 1-based
+            if let Some(matched) = entire_captures.get(part_group_idxes[i]) {
                 public_idxes.push((matched.start(), matched.end()));
             }
         }
-- 
2.43.0


From 01a3d91f2511359663002c84d594e317e7f20064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 15/31] fix: raw regexes with substring definitions get halo2
 substring tables

---
 packages/compiler/src/regex.rs | 45 ++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 7d64189..ad9ae49 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1162,6 +1162,43 @@ fn match_string_with_dfa_graph(graph: &DFAGraph, input: &str) -> bool {
     graph.states[current_state].state_type == "accept"
 }
 
+/// Finds the states where a substring defined by its transitions can start and end.
+///
+/// # Arguments
+///
+/// * `dfa` - A reference to the `DFAGraph`.
+/// * `edges` - The transitions (as pairs of state IDs) that consume the substring.
+///
+/// # Returns
+///
+/// A tuple of BTreeSets: the states from which the substring can be entered and those from which
+/// it can be left.
+fn find_substring_boundaries(
+    dfa: &DFAGraph,
+    edges: &BTreeSet<(usize, usize)>,
+) -> (BTreeSet<usize>, BTreeSet<usize>) {
+    let mut entered = BTreeSet::from([0]);
+    let mut left = BTreeSet::new();
+    for state in &dfa.states {
+        if state.state_type == "accept" {
+            left.insert(state.state_id);
+        }
+        for &next in state.transitions.keys() {
+            if !edges.contains(&(state.state_id, next)) {
+                entered.insert(next);
+                left.insert(state.state_id);
+            }
+        }
+    }
+
+    let starts = edges.iter().map(|edge| edge.0).collect::<BTreeSet<_>>();
+    let ends = edges.iter().map(|edge| edge.1).collect::<BTreeSet<_>>();
+    (
+        starts.intersection(&entered).copied().collect(),
+        ends.intersection(&left).copied().collect(),
+    )
+}
+
 /// Creates a `RegexAndDFA` from a regex string and substring definitions.
 ///
 /// # Arguments
@@ -1189,7 +1226,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
         create_dfa_graph_from_regex(regex_str)?
     };
 
-    let substring_ranges = substrs_defs_json
+    let substring_ranges: Vec<_> = substrs_defs_json
         .transitions
         .into_iter()
         .map(|transitions| {
@@ -1198,10 +1235,14 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
                 .collect::<BTreeSet<(usize, usize)>>()
         })
         .collect();
+    let substring_boundaries = substring_ranges
+        .iter()
+        .map(|edges| find_substring_boundaries(&dfa, edges))
+        .collect();
 
     let substrings = SubstringDefinitions {
         substring_ranges,
-        substring_boundaries: None,
+        substring_boundaries: Some(substring_boundaries),
     };
 
     Ok(RegexAndDFA {
-- 
2.43.0


From 7f1030504b0721ffc1e9059f52132c593a61126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 16/31] fix: -h of the CLI subcommands is the halo2 directory,
 not the help

---
 packages/compiler/src/bin/compiler.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/bin/compiler.rs b/packages/compiler/src/bin/compiler.rs
index ba53749..beb9260 100644
--- a/packages/compiler/src/bin/compiler.rs
+++ b/packages/compiler/src/bin/compiler.rs
@@ -45,7 +45,7 @@
 //! zk-regex raw -r "a*b+c?" -s substrings.json -h ./halo2_output -c ./circom_output.circom -t MyTemplate -g true
 //! ```
 
-use clap::{Parser, Subcommand};
+use clap::{ArgAction, Parser, Subcommand};
 use zk_regex_compiler::{gen_from_decomposed, gen_from_raw};
 
 #[derive(Parser, Debug, Clone)]
@@ -57,6 +57,8 @@ struct Cli {
 
 #[derive(Debug, Subcommand, Clone)]
 enum Commands {
+    // `-h` is the short flag of the halo2 directory here, not of the help.
+    #[command(disable_help_flag = true)]
     Decomposed {
         #[arg(short, long)]
         decomposed_regex_path: String,
@@ -68,7 +70,11 @@ enum Commands {
         template_name: Option<String>,
         #[arg(short, long)]
         gen_substrs: Option<bool>,
+        /// Print help
+        #[arg(long, action = ArgAction::Help)]
+        help: Option<bool>,
     },
+    #[command(disable_help_flag = true)]
     Raw {
         #[arg(short, long)]
         raw_regex: String,
@@ -82,6 +88,9 @@ enum Commands {
         template_name: Option<String>,
         #[arg(short, long)]
         gen_substrs: Option<bool>,
+        /// Print help
+        #[arg(long, action = ArgAction::Help)]
+        help: Option<bool>,
     },
 }
 
@@ -100,6 +109,7 @@ fn process_decomposed(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_decomposed(
@@ -123,6 +133,7 @@ fn process_raw(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_raw(
-- 
2.43.0


From c3c0bbbab28cfc7b9d078f6626db2728e030c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 17/31] fix: reject regexes that are valid only once wrapped in
 a group

---
 packages/compiler/src/regex.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index ad9ae49..1f470cd 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -7,9 +7,12 @@ use crate::{
     DecomposedRegexConfig,
 };
 use regex::Regex;
-use regex_automata::dfa::{
-    dense::{Config, DFA},
-    StartKind,
+use regex_automata::{
+    dfa::{
+        dense::{Config, DFA},
+        StartKind,
+    },
+    util::syntax,
 };
 use std::{
     collections::{BTreeMap, BTreeSet, VecDeque},
@@ -29,6 +32,21 @@ fn create_dfa_config() -> Config {
         .accelerate(true)
 }
 
+/// Checks that a regex is valid on its own, i.e. before it is wrapped in a group.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// A `Result` containing `()` if the regex is valid, or a `CompilerError`.
+fn check_regex_syntax(regex: &str) -> Result<(), CompilerError> {
+    syntax::parse(regex)
+        .map(|_| ())
+        .map_err(|err| CompilerError::RegexError(::regex::Error::Syntax(err.to_string())))
+}
+
 /// Finds the index just after the part of a regex string that holds its caret (^).
 ///
 /// Escaped characters and character classes are skipped: a caret there is not an anchor.
@@ -1045,6 +1063,7 @@ pub(crate) fn get_regex_and_dfa(
 
     for (i, regex) in decomposed_regex.parts.iter().enumerate() {
         end_anchor = validate_end_anchor(decomposed_regex, i, regex)?;
+        check_regex_syntax(&regex.regex_def)?;
 
         let dfa = DFA::builder()
             .configure(config.clone())
@@ -1113,6 +1132,8 @@ fn create_dfa_graph_from_regex(regex: &str) -> Result<DFAGraph, CompilerError> {
         .byte_classes(false)
         .accelerate(true);
 
+    check_regex_syntax(regex)?;
+
     let dfa = DFA::builder()
         .configure(config)
         .build(&format!(r"^(?:{})$", regex))
-- 
2.43.0


From b976dd1e859624dcedb31fb39084e2ab810792bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 18/31] fix: constrain a transition that only the padding byte
 would take

---
 packages/compiler/src/circom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index af50ca7..9c822c8 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -268,6 +268,9 @@ fn add_state_transition(
         if prev_i == 0 {
             zero_starting_and_idxes.get_mut(&i).unwrap().push(*and_i);
         }
+    } else {
+        // The padding byte is the only one of this transition, which is thus never taken.
+        lines.push(format!("\t\tand[{}][i].b <== 0;", and_i));
     }
 
     *and_i += 1;
-- 
2.43.0


From 086986d2441b6363ee1511010014095c23782ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 19/31] fix: report a regex that matches nothing as an error in
 the halo2 output

---
 packages/compiler/src/halo2.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index d8e2048..7331873 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -17,9 +17,10 @@ use std::{
 ///
 /// # Returns
 ///
-/// A String containing the text representation of the DFA.
-fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
-    let accepted_state = get_accepted_state(&regex_and_dfa.dfa).unwrap();
+/// A Result containing the text representation of the DFA, or a CompilerError if no state accepts.
+fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> Result<String, CompilerError> {
+    let accepted_state =
+        get_accepted_state(&regex_and_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
     let max_state = get_max_state(&regex_and_dfa.dfa);
     let mut text = format!("0\n{}\n{}\n", accepted_state, max_state);
 
@@ -30,7 +31,7 @@ fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
             }
         }
     }
-    text
+    Ok(text)
 }
 
 /// Generates Halo2 tables from a RegexAndDFA structure.
@@ -51,7 +52,7 @@ pub(crate) fn gen_halo2_tables(
     substr_file_paths: &[PathBuf],
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
-    let regex_text = dfa_to_regex_def_text(regex_and_dfa);
+    let regex_text = dfa_to_regex_def_text(regex_and_dfa)?;
     std::fs::write(allstr_file_path, regex_text)?;
 
     if !gen_substrs {
-- 
2.43.0


From 74e8e9645b020ebc8610756dedf5aa87c9e133ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 20/31] fix: reject a regex with several accepted states in the
 halo2 output

---
 packages/compiler/src/halo2.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index 7331873..f543992 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -17,10 +17,22 @@ use std::{
 ///
 /// # Returns
 ///
-/// A Result containing the text representation of the DFA, or a CompilerError if no state accepts.
+/// A Result containing the text representation of the DFA, or a CompilerError if the number of
+/// accepted states is not one: the text holds exactly one.
 fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> Result<String, CompilerError> {
     let accepted_state =
         get_accepted_state(&regex_and_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
+    let accepted_states_len = regex_and_dfa
+        .dfa
+        .states
+        .iter()
+        .filter(|state| state.state_type == "accept")
+        .count();
+    if accepted_states_len != 1 {
+        return Err(CompilerError::AcceptNodesError(
+            "The size of accept nodes must be one".to_string(),
+        ));
+    }
     let max_state = get_max_state(&regex_and_dfa.dfa);
     let mut text = format!("0\n{}\n{}\n", accepted_state, max_state);
 
-- 
2.43.0


From daf4f1d9d29382fc34c4fef73bf252f49ebbbaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 21/31] fix: the substring of a public first part starts at the
 initial state

---
 packages/compiler/src/regex.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 1f470cd..dc5ba36 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -900,7 +900,11 @@ fn process_public_regex(
         return (BTreeSet::new(), (BTreeSet::new(), BTreeSet::new()));
     }
 
-    let (accepting_states, substring_starts) = collect_accepting_states(net_dfa);
+    let (accepting_states, mut substring_starts) = collect_accepting_states(net_dfa);
+    if net_dfa.states.is_empty() {
+        // The first part starts at the initial state.
+        substring_starts.insert(0);
+    }
     let mut public_edges = collect_public_edges(graph);
     let substring_ends = collect_substr_ends(graph);
 
-- 
2.43.0


From a02f1db0992cb9df02d6f675ca46905a8ae7c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 22/31] fix: constrain the state reached from the initial one
 by the padding byte only

---
 packages/compiler/src/circom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 9c822c8..b2da72d 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -271,6 +271,9 @@ fn add_state_transition(
     } else {
         // The padding byte is the only one of this transition, which is thus never taken.
         lines.push(format!("\t\tand[{}][i].b <== 0;", and_i));
+        if prev_i == 0 {
+            zero_starting_and_idxes.get_mut(&i).unwrap().push(*and_i);
+        }
     }
 
     *and_i += 1;
-- 
2.43.0


From c0d024012ee9073e8b9ae23f47da26593ee95b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:30 +0000
Subject: [PATCH 23/31] fix: the from and to address extractors stay within
 their header line

---
 packages/apis/src/decomposed_defs/from_addr.json | 2 +-
 packages/apis/src/decomposed_defs/to_addr.json   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apis/src/decomposed_defs/from_addr.json b/packages/apis/src/decomposed_defs/from_addr.json
index 6753257..385bc50 100644
--- a/packages/apis/src/decomposed_defs/from_addr.json
+++ b/packages/apis/src/decomposed_defs/from_addr.json
@@ -10,7 +10,7 @@
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
diff --git a/packages/apis/src/decomposed_defs/to_addr.json b/packages/apis/src/decomposed_defs/to_addr.json
index 394a26b..f252d6c 100644
--- a/packages/apis/src/decomposed_defs/to_addr.json
+++ b/packages/apis/src/decomposed_defs/to_addr.json
@@ -10,7 +10,7 @@
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
-- 
2.43.0


From d0e5682b3819e6a56fa680793781de87b720df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:21 +0000
Subject: [PATCH 24/31] fix: the reversed email address circuit checks the
 range of its input

---
 .../circuits/common/reversed_email_addr_with_name_regex.circom | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/circom/circuits/common/reversed_email_addr_with_name_regex.circom b/packages/circom/circuits/common/reversed_email_addr_with_name_regex.circom
index 809ef2c..c2d4636 100644
--- a/packages/circom/circuits/common/reversed_email_addr_with_name_regex.circom
+++ b/packages/circom/circuits/common/reversed_email_addr_with_name_regex.circom
@@ -9,8 +9,11 @@ template ReversedEmailAddrWithNameRegex(msg_bytes) {
 
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
+	signal in_range_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
+		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
+		in_range_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
-- 
2.43.0


From 24edd613c596e4632097339cd813ae5f6358f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:59 +0000
Subject: [PATCH 25/31] fix: refuse a part that matches nothing instead of
 dropping it or panicking

---
 packages/compiler/src/regex.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index dc5ba36..2eba00e 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1081,6 +1081,11 @@ pub(crate) fn get_regex_and_dfa(
 
         handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
 
+        // A part that matches nothing cannot be chained with the others.
+        if get_accepted_state(&dfa_graph).is_none() {
+            return Err(CompilerError::NoAcceptedState);
+        }
+
         let max_state_index = net_dfa_graph
             .states
             .iter()
-- 
2.43.0


From 5f0e5787e2f1c3969e0ebf12c798552dbb7c41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 26/31] fix: the range check of message bytes refuses -1

---
 packages/circom/circuits/common/body_hash_regex.circom        | 3 +++
 packages/circom/circuits/common/email_addr_regex.circom       | 3 +++
 packages/circom/circuits/common/email_domain_regex.circom     | 3 +++
 packages/circom/circuits/common/from_all_regex.circom         | 3 +++
 packages/circom/circuits/common/message_id_regex.circom       | 3 +++
 packages/circom/circuits/common/reversed_bracket_regex.circom | 3 +++
 .../common/reversed_email_addr_with_name_regex.circom         | 3 +++
 packages/circom/circuits/common/subject_all_regex.circom      | 3 +++
 packages/circom/circuits/common/timestamp_regex.circom        | 3 +++
 packages/circom/circuits/common/to_all_regex.circom           | 3 +++
 packages/compiler/src/circom.rs                               | 4 ++++
 11 files changed, 34 insertions(+)

diff --git a/packages/circom/circuits/common/body_hash_regex.circom b/packages/circom/circuits/common/body_hash_regex.circom
index abe3b27..617e078 100644
--- a/packages/circom/circuits/common/body_hash_regex.circom
+++ b/packages/circom/circuits/common/body_hash_regex.circom
@@ -10,10 +10,13 @@ template BodyHashRegex(msg_bytes) {
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
 	signal in_range_checks[msg_bytes];
+	signal in_non_negative_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
 		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
 		in_range_checks[i] === 1;
+		in_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);
+		in_non_negative_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
diff --git a/packages/circom/circuits/common/email_addr_regex.circom b/packages/circom/circuits/common/email_addr_regex.circom
index 4f4f0ba..3bfdd1c 100644
--- a/packages/circom/circuits/common/email_addr_regex.circom
+++ b/packages/circom/circuits/common/email_addr_regex.circom
@@ -10,10 +10,13 @@ template EmailAddrRegex(msg_bytes) {
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
 	signal in_range_checks[msg_bytes];
+	signal in_non_negative_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
 		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
 		in_range_checks[i] === 1;
+		in_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);
+		in_non_negative_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
diff --git a/packages/circom/circuits/common/email_domain_regex.circom b/packages/circom/circuits/common/email_domain_regex.circom
index 064b040..c6b80c6 100644
--- a/packages/circom/circuits/common/email_domain_regex.circom
+++ b/packages/circom/circuits/common/email_domain_regex.circom
@@ -10,10 +10,13 @@ template EmailDomainRegex(msg_bytes) {
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
 	signal in_range_checks[msg_bytes];
+	signal in_non_negative_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
 		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
 		in_range_checks[i] === 1;
+		in_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);
+		in_non_negative_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
diff --git a/packages/circom/circuits/common/from_all_regex.circom b/packages/circom/circuits/common/from_all_regex.circom
index 14c3539..b4885fe 100644
--- a/packages/circom/circuits/common/from_all_regex.circom
+++ b/packages/circom/circuits/common/from_all_regex.circom
@@ -10,10 +10,13 @@ template FromAllRegex(msg_bytes) {
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
 	signal in_range_checks[msg_bytes];
+	signal in_non_negative_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
 		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
 		in_range_checks[i] === 1;
+		in_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);
+		in_non_negative_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
diff --git a/packages/circom/circuits/common/message_id_regex.circom b/packages/circom/circuits/common/message_id_regex.circom
index 705d777..c79fb00 100644
--- a/packages/circom/circuits/common/message_id_regex.circom
+++ b/packages/circom/circuits/common/message_id_regex.circom
@@ -10,10 +10,13 @@ template MessageIdRegex(msg_bytes) {
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
 	signal in_range_checks[msg_bytes];
+	signal in_non_negative_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
 		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
 		in_range_checks[i] === 1;
+		in_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);
+		in_non_negative_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
diff --git a/packages/circom/circuits/common/reversed_bracket_regex.circom b/packages/circom/circuits/common/reversed_bracket_regex.circom
index 648a6e1..0b02d9d 100644
--- a/packages/circom/circuits/common/reversed_bracket_regex.circom
+++ b/packages/circom/circuits/common/reversed_bracket_regex.circom
@@ -10,10 +10,13 @@ template ReversedBracketRegex(msg_bytes) {
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
 	signal in_range_checks[msg_bytes];
+	signal in_non_negative_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
 		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
 		in_range_checks[i] === 1;
+		in_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);
+		in_non_negative_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
diff --git a/packages/circom/circuits/common/reversed_email_addr_with_name_regex.circom b/packages/circom/circuits/common/reversed_email_addr_with_name_regex.circom
index c2d4636..8751e1e 100644
--- a/packages/circom/circuits/common/reversed_email_addr_with_name_regex.circom
+++ b/packages/circom/circuits/common/reversed_email_addr_with_name_regex.circom
@@ -10,10 +10,13 @@ template ReversedEmailAddrWithNameRegex(msg_bytes) {
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
 	signal in_range_checks[msg_bytes];
+	signal in_non_negative_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
 		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
 		in_range_checks[i] === 1;
+		in_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);
+		in_non_negative_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
diff --git a/packages/circom/circuits/common/subject_all_regex.circom b/packages/circom/circuits/common/subject_all_regex.circom
index a98c8dd..15afdab 100644
--- a/packages/circom/circuits/common/subject_all_regex.circom
+++ b/packages/circom/circuits/common/subject_all_regex.circom
@@ -10,10 +10,13 @@ template SubjectAllRegex(msg_bytes) {
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
 	signal in_range_checks[msg_bytes];
+	signal in_non_negative_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
 		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
 		in_range_checks[i] === 1;
+		in_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);
+		in_non_negative_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
diff --git a/packages/circom/circuits/common/timestamp_regex.circom b/packages/circom/circuits/common/timestamp_regex.circom
index c8817fa..545299e 100644
--- a/packages/circom/circuits/common/timestamp_regex.circom
+++ b/packages/circom/circuits/common/timestamp_regex.circom
@@ -10,10 +10,13 @@ template TimestampRegex(msg_bytes) {
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
 	signal in_range_checks[msg_bytes];
+	signal in_non_negative_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
 		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
 		in_range_checks[i] === 1;
+		in_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);
+		in_non_negative_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
diff --git a/packages/circom/circuits/common/to_all_regex.circom b/packages/circom/circuits/common/to_all_regex.circom
index adf881a..cdec9e7 100644
--- a/packages/circom/circuits/common/to_all_regex.circom
+++ b/packages/circom/circuits/common/to_all_regex.circom
@@ -10,10 +10,13 @@ template ToAllRegex(msg_bytes) {
 	var num_bytes = msg_bytes+1;
 	signal in[num_bytes];
 	signal in_range_checks[msg_bytes];
+	signal in_non_negative_checks[msg_bytes];
 	in[0]<==255;
 	for (var i = 0; i < msg_bytes; i++) {
 		in_range_checks[i] <== LessThan(8)([msg[i], 255]);
 		in_range_checks[i] === 1;
+		in_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);
+		in_non_negative_checks[i] === 1;
 		in[i+1] <== msg[i];
 	}
 
diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index b2da72d..19a47bf 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -591,10 +591,14 @@ fn generate_declarations(
         "\tvar num_bytes = msg_bytes+1;".to_string(),
         "\tsignal in[num_bytes];".to_string(),
         "\tsignal in_range_checks[msg_bytes];".to_string(),
+        "\tsignal in_non_negative_checks[msg_bytes];".to_string(),
         "\tin[0]<==255;".to_string(),
         "\tfor (var i = 0; i < msg_bytes; i++) {".to_string(),
         "\t\tin_range_checks[i] <== LessThan(8)([msg[i], 255]);".to_string(),
         "\t\tin_range_checks[i] === 1;".to_string(),
+        // LessThan(8) also holds for -1.
+        "\t\tin_non_negative_checks[i] <== LessEqThan(8)([0, msg[i]]);".to_string(),
+        "\t\tin_non_negative_checks[i] === 1;".to_string(),
         "\t\tin[i+1] <== msg[i];".to_string(),
         "\t}".to_string(),
         "".to_string(),
-- 
2.43.0


From 58a5e2c61aa6fd82ba8df6cb9611c7c7c606eda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 27/31] fix: refuse a start anchor inside a longer alternative
 instead of accepting everything

---
 packages/compiler/src/regex.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 2eba00e..c390d97 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -602,11 +602,17 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 ///
 /// # Function Behavior
 ///
-/// 1. Clears the state type of the start state.
+/// 1. Clears the state type of the start state, which must accept: the caret stands for itself.
 /// 2. Finds an accept state without outgoing transitions in the graph, adding one if needed.
 /// 3. Adds a transition from the start state to that accept state with byte value 255.
 fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
     if let Some(start_state) = graph.states.get_mut(0) {
+        // The part is the caret alone or with alternatives: the caret itself matches nothing.
+        if start_state.state_type != "accept" {
+            return Err(CompilerError::GraphError(
+                "^ must be at the beginning of the regex or be in the format (..|^)".to_string(),
+            ));
+        }
         start_state.state_type.clear();
     } else {
         return Err(CompilerError::GraphError(
-- 
2.43.0


From 08612753da27130f8608fb88d382eb36e4eb2976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 28/31] fix: refuse assertions about the surroundings of a part
 instead of taking them for granted

---
 packages/compiler/src/regex.rs | 123 +++++++++++++++++++++++++++------
 1 file changed, 100 insertions(+), 23 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index c390d97..e9c049e 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -47,7 +47,48 @@ fn check_regex_syntax(regex: &str) -> Result<(), CompilerError> {
         .map_err(|err| CompilerError::RegexError(::regex::Error::Syntax(err.to_string())))
 }
 
-/// Finds the index just after the part of a regex string that holds its caret (^).
+/// Checks that a regex holds no assertion about the text around it.
+///
+/// The parts of a regex are compiled one by one and a match can be anywhere in the message, so
+/// such an assertion would be taken for granted.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern, without its start and end anchors.
+///
+/// # Returns
+///
+/// A `Result` containing `()` if there is no such assertion, or a `CompilerError`.
+fn check_no_assertions(regex: &str) -> Result<(), CompilerError> {
+    let look_set = syntax::parse(regex)
+        .map_err(|err| CompilerError::RegexError(::regex::Error::Syntax(err.to_string())))?
+        .properties()
+        .look_set();
+
+    if look_set.contains_anchor() {
+        return Err(CompilerError::GenericError(
+            "Invalid regex, ^ can only be at the beginning of the regex or in the format (..|^), $ can only be at the end of the regex".to_string(),
+        ));
+    }
+    if look_set.contains_word() {
+        return Err(CompilerError::GenericError(
+            "Invalid regex, word boundaries are not supported".to_string(),
+        ));
+    }
+    Ok(())
+}
+
+/// The position of the caret (^) of a regex.
+struct CaretPosition {
+    /// The index of the caret.
+    index: usize,
+    /// The index just after the caret, or after the outermost group that contains it.
+    end: usize,
+    /// Whether the regex begins with the caret, or with a group of which it is an alternative.
+    is_valid: bool,
+}
+
+/// Finds the caret (^) of a regex string.
 ///
 /// Escaped characters and character classes are skipped: a caret there is not an anchor.
 ///
@@ -57,13 +98,13 @@ fn check_regex_syntax(regex: &str) -> Result<(), CompilerError> {
 ///
 /// # Returns
 ///
-/// An `Option<usize>` containing the index just after the caret, or after the outermost group
-/// that contains it, or `None` if there is no caret.
-fn find_caret_index(regex: &str) -> Option<usize> {
+/// An `Option<CaretPosition>` with the position of the first caret, or `None` if there is none.
+fn find_caret(regex: &str) -> Option<CaretPosition> {
     let regex_bytes = regex.as_bytes();
     let mut group_depth = 0usize;
+    let mut group_start = 0usize;
     let mut class_depth = 0usize;
-    let mut caret_found = false;
+    let mut caret: Option<CaretPosition> = None;
     let mut idx = 0;
 
     while idx < regex_bytes.len() {
@@ -86,30 +127,45 @@ fn find_caret_index(regex: &str) -> Option<usize> {
             }
             _ if class_depth > 0 => {}
             b'(' => {
+                if group_depth == 0 {
+                    group_start = idx;
+                }
                 group_depth += 1;
             }
             b')' => {
                 group_depth = group_depth.saturating_sub(1);
-                if caret_found && group_depth == 0 {
-                    return Some(idx + 1);
+                if group_depth == 0 {
+                    if let Some(caret) = caret {
+                        return Some(CaretPosition {
+                            end: idx + 1,
+                            ..caret
+                        });
+                    }
                 }
             }
-            b'^' => {
-                caret_found = true;
+            b'^' if caret.is_none() => {
+                let is_alternative = group_depth == 1
+                    && group_start == 0
+                    && matches!(regex_bytes.get(idx + 1), Some(b'|') | Some(b')'));
+                let position = CaretPosition {
+                    index: idx,
+                    end: idx + 1,
+                    is_valid: idx == 0 || is_alternative,
+                };
                 if group_depth == 0 {
-                    return Some(idx + 1);
+                    return Some(position);
                 }
+                caret = Some(position);
             }
             _ => {}
         }
         idx += 1;
     }
 
-    if caret_found {
-        Some(regex_bytes.len())
-    } else {
-        None
-    }
+    caret.map(|caret| CaretPosition {
+        end: regex_bytes.len(),
+        ..caret
+    })
 }
 
 /// Processes the caret (^) in a regex, splitting it into two parts if necessary.
@@ -120,26 +176,32 @@ fn find_caret_index(regex: &str) -> Option<usize> {
 ///
 /// # Returns
 ///
-/// A `Result` containing an `Option<usize>` with the caret position, or a `CompilerError`.
+/// A `Result` containing an `Option<usize>` with the index of the caret, or a `CompilerError`.
 fn process_caret_in_regex(
     decomposed_regex: &mut DecomposedRegexConfig,
 ) -> Result<Option<usize>, CompilerError> {
     let first_part = decomposed_regex.parts.front().ok_or_else(|| {
         CompilerError::GenericError("The decomposed regex has no parts".to_string())
     })?;
-    let caret_position = find_caret_index(&first_part.regex_def);
+    let caret_position = find_caret(&first_part.regex_def);
 
-    if let Some(index) = caret_position {
-        let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
+    if let Some(caret) = &caret_position {
+        if !caret.is_valid {
+            return Err(CompilerError::GenericError(
+                "Invalid regex, ^ can only be at the beginning of the regex or in the format (..|^)"
+                    .to_string(),
+            ));
+        }
+        let caret_regex = decomposed_regex.parts[0].regex_def[0..caret.end].to_string();
         decomposed_regex.parts.push_front(RegexPartConfig {
             is_public: false,
             regex_def: caret_regex,
         });
         decomposed_regex.parts[1].regex_def =
-            decomposed_regex.parts[1].regex_def[index..].to_string();
+            decomposed_regex.parts[1].regex_def[caret.end..].to_string();
     }
 
-    Ok(caret_position)
+    Ok(caret_position.map(|caret| caret.index))
 }
 
 /// Checks whether a regex string ends with an end anchor ($), as opposed to an escaped dollar.
@@ -1074,6 +1136,16 @@ pub(crate) fn get_regex_and_dfa(
     for (i, regex) in decomposed_regex.parts.iter().enumerate() {
         end_anchor = validate_end_anchor(decomposed_regex, i, regex)?;
         check_regex_syntax(&regex.regex_def)?;
+        match caret_position {
+            Some(index) if i == 0 => {
+                let (before, after) = regex.regex_def.split_at(index);
+                check_no_assertions(&format!("{}{}", before, &after[1..]))?;
+            }
+            _ if end_anchor => {
+                check_no_assertions(&regex.regex_def[..regex.regex_def.len() - 1])?
+            }
+            _ => check_no_assertions(&regex.regex_def)?,
+        }
 
         let dfa = DFA::builder()
             .configure(config.clone())
@@ -1249,7 +1321,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     regex_str: &str,
     substrs_defs_json: SubstringDefinitionsJson,
 ) -> Result<RegexAndDFA, CompilerError> {
-    let dfa = if find_caret_index(regex_str).is_some() {
+    let dfa = if find_caret(regex_str).is_some() {
         // The start anchor needs the transition on the byte in front of the message.
         let mut single_part = DecomposedRegexConfig {
             parts: VecDeque::from([RegexPartConfig {
@@ -1259,7 +1331,12 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
         };
         get_regex_and_dfa(&mut single_part)?.dfa
     } else {
-        create_dfa_graph_from_regex(regex_str)?
+        let graph = create_dfa_graph_from_regex(regex_str)?;
+        match regex_str.strip_suffix('$') {
+            Some(body) if ends_with_end_anchor(regex_str) => check_no_assertions(body)?,
+            _ => check_no_assertions(regex_str)?,
+        }
+        graph
     };
 
     let substring_ranges: Vec<_> = substrs_defs_json
-- 
2.43.0


From dbf241d2f497a67fc502000d6f0f58487377da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 29/31] fix: refuse a regex without states besides the initial
 one instead of writing an invalid circuit

---
 packages/compiler/src/circom.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 19a47bf..dfe1a48 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -747,6 +747,12 @@ fn gen_circom_allstr(
 ) -> Result<String, CompilerError> {
     let state_len = dfa_graph.states.len();
 
+    if state_len == 1 {
+        return Err(CompilerError::GenericError(
+            "Invalid regex, it cannot be turned into a circuit if it leads to no other state than the initial one".to_string(),
+        ));
+    }
+
     let (rev_graph, accept_nodes) = build_reverse_graph(state_len, dfa_graph)?;
 
     let (eq_i, lt_i, and_i, multi_or_i, lines) =
-- 
2.43.0


From fd2ecdc2aad6f7a989448fe69b954c89b3b93735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 30/31] fix: inline flags of a part do not apply to the parts
 after it in extraction

---
 packages/apis/src/extract_substrs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index df9ca6a..3f2b2b1 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -57,7 +57,12 @@ pub fn extract_substr_idxes(
                 error: e,
             }
         })?;
-        entire_regex_str += &format!("({})", part.regex_def);
+        if part.regex_def.contains("(?") {
+            // The non-capturing group keeps inline flags of the part from applying to the next ones
+            entire_regex_str += &format!("((?:{}))", part.regex_def);
+        } else {
+            entire_regex_str += &format!("({})", part.regex_def);
+        }
         part_group_idxes.push(next_group_idx);
         // captures_len() includes the group of the whole part
         next_group_idx += part_regex.captures_len();
-- 
2.43.0


From 870d94099132d560586c5889f37d4f8c923b3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 31/31] fix: list only existing transitions as public

Joining a part whose first bytes overlap with those that continue the part
before it replaces transitions. They were left behind with no characters, and
stayed in the substring definitions, so that substr files named transitions
that allstr.txt does not have and a circuit could use signals that are never
assigned (`a*`, `[^a]|a`).
---
 packages/compiler/src/regex.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index e9c049e..9fb9339 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1186,6 +1186,15 @@ pub(crate) fn get_regex_and_dfa(
         net_dfa_graph = add_dfa(&net_dfa_graph, &dfa_graph);
     }
 
+    // Joining a part can replace transitions of the parts before it.
+    for state in net_dfa_graph.states.iter_mut() {
+        state.transitions.retain(|_, chars| !chars.is_empty());
+    }
+    let edges = collect_public_edges(&net_dfa_graph);
+    for public_edges in substring_ranges_array.iter_mut() {
+        public_edges.retain(|edge| edges.contains(edge));
+    }
+
     let regex_str = decomposed_regex
         .parts
         .iter()
-- 
2.43.0

