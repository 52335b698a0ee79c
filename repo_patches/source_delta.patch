From dcd09e6657c18b850ba9406fadccedeee6381cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:52 +0000
Subject: [PATCH 01/46] fix: nested and chained conditional blocks run exactly
 one branch

---
 src/testing/test.rs | 102 +++++++++++++-------------------------------
 1 file changed, 29 insertions(+), 73 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index bab8f30..fc3188c 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -87,7 +87,6 @@ pub struct TestEnvironment<'a> {
     pub loop_scopes: Vec<usize>,
     pub test_state: TestState,
     pub punc_stack: Vec<Instruction>,
-    pub branch_taken: bool,
     mode: Mode,
 
     /* Data storage and behaviour */
@@ -105,7 +104,6 @@ impl<'a> TestEnvironment<'a> {
             loop_scopes: vec![],
             test_state: TestState::Pass,
             punc_stack: vec![],
-            branch_taken: false,
             layout_mgr: LayoutMgr::new(),
             database: Database::new(),
             find_criteria: vec![],
@@ -173,6 +171,20 @@ impl<'a> TestEnvironment<'a> {
         self.variables.push(HashMap::new());
     }
 
+    /* Index of the elif, else or end that closes the branch opened by the instruction at 'from'. */
+    fn next_branch(instructions: &[ScriptStep], from: usize) -> usize {
+        let mut depth = 0;
+        for (i, step) in instructions.iter().enumerate().skip(from + 1) {
+            match step.opcode {
+                Instruction::If => { depth += 1; },
+                Instruction::EndIf if depth > 0 => { depth -= 1; },
+                Instruction::ElseIf | Instruction::Else | Instruction::EndIf if depth == 0 => { return i; },
+                _ => {}
+            }
+        }
+        instructions.len()
+    }
+
     pub fn step(&mut self) {
         assert!(self.current_test.is_some());
         let mut ip_handle: (String, usize);
@@ -338,83 +350,27 @@ impl<'a> TestEnvironment<'a> {
                 self.instruction_ptr[n_stack].1 += 1;
             },
             Instruction::If => {
-                let val = &self.eval_calculation(&cur_instruction.switches[0]);
-                if val == "true" {
-                    self.instruction_ptr[n_stack].1 += 1;
-                    self.branch_taken = true;
-                } else {
-                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
-                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
-                        match cur_instruction.opcode {
-                            Instruction::EndIf => {
-                                return;
-                            },
-                            Instruction::Else => {
-                                return;
-                            },
-                            Instruction::ElseIf => {
-                                return;
-                            },
-                            _ => {}
-                        }
-                        self.instruction_ptr[n_stack].1 += 1;
-                    }
+                /* Run the first branch of the block whose condition holds, if any. */
+                let instructions = &script_handle.instructions;
+                let mut branch = ip_handle.1;
+                while branch < instructions.len()
+                    && (branch == ip_handle.1 || instructions[branch].opcode == Instruction::ElseIf)
+                    && self.eval_calculation(&instructions[branch].switches[0]) != "true" {
+                        branch = Self::next_branch(instructions, branch);
                 }
+                self.instruction_ptr[n_stack].1 = branch + 1;
             },
-            Instruction::ElseIf => {
-                if self.branch_taken == true {
-                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
-                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
-                        match cur_instruction.opcode {
-                            Instruction::EndIf => {
-                                self.branch_taken = false;
-                                return;
-                            },
-                            _ => {self.instruction_ptr[n_stack].1 += 1;}
-                        }
-                    }
+            Instruction::ElseIf | Instruction::Else => {
+                /* Reached from the end of the branch that ran: the others are skipped. */
+                let instructions = &script_handle.instructions;
+                let mut end = ip_handle.1;
+                while end < instructions.len() && instructions[end].opcode != Instruction::EndIf {
+                    end = Self::next_branch(instructions, end);
                 }
-                let val = &self.eval_calculation(&cur_instruction.switches[0]);
-                if val == "true" {
-                    self.instruction_ptr[n_stack].1 += 1;
-                    self.branch_taken = true;
-                } else {
-                    self.instruction_ptr[n_stack].1 += 1;
-                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
-                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
-                        match cur_instruction.opcode {
-                            Instruction::EndIf => {
-                                return;
-                            },
-                            Instruction::Else => {
-                                return;
-                            },
-                            Instruction::ElseIf => {
-                                return;
-                            },
-                            _ => { self.instruction_ptr[n_stack].1 += 1; }
-                        }
-                    }
-                }
-            }
-            Instruction::Else => {
-                if self.branch_taken == true {
-                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
-                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
-                        match cur_instruction.opcode {
-                            Instruction::EndIf => {
-                                self.branch_taken = false;
-                                return;
-                            },
-                            _ => {self.instruction_ptr[n_stack].1 += 1;}
-                        }
-                    }
-                }
-                self.instruction_ptr[n_stack].1 += 1;
+                self.instruction_ptr[n_stack].1 = end + 1;
             }
 
             Instruction::EndIf => {
-                self.branch_taken = false;
                 self.instruction_ptr[n_stack].1 += 1;
             }
             Instruction::EndLoop => {
-- 
2.43.0


From f06ab490c36fa4409c32efe75b5bdeea57edcda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:07 +0000
Subject: [PATCH 02/46] fix: leaving a loop continues after that loop and
 closes its scope

---
 src/testing/test.rs | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index fc3188c..16bbbb8 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -185,9 +185,23 @@ impl<'a> TestEnvironment<'a> {
         instructions.len()
     }
 
+    /* Index of the instruction after the loop that contains the instruction at 'from', if there is one. */
+    fn end_of_loop(instructions: &[ScriptStep], from: usize) -> Option<usize> {
+        let mut depth = 0;
+        for (i, step) in instructions.iter().enumerate().skip(from + 1) {
+            match step.opcode {
+                Instruction::Loop => { depth += 1; },
+                Instruction::EndLoop if depth > 0 => { depth -= 1; },
+                Instruction::EndLoop => { return Some(i + 1); },
+                _ => {}
+            }
+        }
+        None
+    }
+
     pub fn step(&mut self) {
         assert!(self.current_test.is_some());
-        let mut ip_handle: (String, usize);
+        let ip_handle: (String, usize);
         let mut script_handle = &FMComponentScript::new();
         let n_stack = self.instruction_ptr.len() - 1;
         ip_handle = self.instruction_ptr[n_stack].clone();
@@ -211,7 +225,7 @@ impl<'a> TestEnvironment<'a> {
                 return;
         }
 
-        let mut cur_instruction = &script_handle.instructions[ip_handle.1];
+        let cur_instruction = &script_handle.instructions[ip_handle.1];
         // println!("instr: {:?}", cur_instruction);
         match &cur_instruction.opcode {
             Instruction::PerformScript => {
@@ -246,7 +260,8 @@ impl<'a> TestEnvironment<'a> {
                 let mut exit = false;
                 if cur_instruction.switches.len() > 1 {
                     let res = &self.eval_calculation(&cur_instruction.switches[1]);
-                    if res != "false" || res != "" || res != "0" {
+                    let res = res.trim_matches('"');
+                    if res != "false" && res != "" && res != "0" {
                         exit = true;
                     }
                 }
@@ -266,12 +281,12 @@ impl<'a> TestEnvironment<'a> {
                             }
                         }
                         if exit && self.database.get_current_occurrence().record_ptr == cache_pos {
-                            while cur_instruction.opcode != Instruction::EndLoop {
-                                cur_instruction = &script_handle.instructions[ip_handle.1];
-                                ip_handle.1 += 1;
+                            if let Some(end) = Self::end_of_loop(&script_handle.instructions, ip_handle.1) {
+                                self.instruction_ptr[n_stack].1 = end;
+                                self.loop_scopes.pop();
+                                self.punc_stack.pop();
+                                return;
                             }
-                            self.instruction_ptr[n_stack].1 = ip_handle.1; 
-                            return;
                         }
                     },
                     Mode::Find => {
@@ -382,14 +397,14 @@ impl<'a> TestEnvironment<'a> {
             Instruction::ExitLoopIf => {
                 let val : &str = &self.eval_calculation(&cur_instruction.switches[0]);
                 if val == "true" {
-                    while cur_instruction.opcode != Instruction::EndLoop {
-                        cur_instruction = &script_handle.instructions[ip_handle.1];
-                        ip_handle.1 += 1;
+                    if let Some(end) = Self::end_of_loop(&script_handle.instructions, ip_handle.1) {
+                        self.instruction_ptr[n_stack].1 = end;
+                        self.loop_scopes.pop();
+                        self.punc_stack.pop();
+                        return;
                     }
-                    self.instruction_ptr[n_stack].1 = ip_handle.1; 
-                } else {
-                    self.instruction_ptr[n_stack].1 += 1;
                 }
+                self.instruction_ptr[n_stack].1 += 1;
             }
             Instruction::NewRecordRequest => {
                 self.database.create_record();
-- 
2.43.0


From 4ae8301fe811d5d4930fca8c60416745e0ca2aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:09 +0000
Subject: [PATCH 03/46] fix: each script call has its own variables and a call
 of an unknown script is skipped

---
 src/testing/test.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 16bbbb8..3ac07e1 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -222,6 +222,7 @@ impl<'a> TestEnvironment<'a> {
             || ip_handle.1 > script_handle.instructions.len() - 1 {
                 println!("Popping script: {}", ip_handle.0);
                 self.instruction_ptr.pop();
+                self.variables.pop();
                 return;
         }
 
@@ -232,12 +233,12 @@ impl<'a> TestEnvironment<'a> {
                 let script_name = self.eval_calculation(&cur_instruction.switches[0])
                     .strip_suffix('"').unwrap()
                     .strip_prefix('"').unwrap().to_string();
-                self.variables.push(HashMap::new());
+                self.instruction_ptr[n_stack].1 += 1;
 
                 for s in &self.file_handle.scripts {
                     if s.1.script_name == script_name {
-                        self.instruction_ptr[n_stack].1 += 1;
                         self.instruction_ptr.push((script_name.clone(), 0));
+                        self.variables.push(HashMap::new());
                         println!("calling {}", script_name);
                         break;
                     }
-- 
2.43.0


From 905b54f1824a74e5b5f44fce1c3141c0df337179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:12 +0000
Subject: [PATCH 04/46] fix: a test starts from a clean interpreter state

---
 src/testing/test.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 3ac07e1..365da92 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -165,6 +165,13 @@ impl<'a> TestEnvironment<'a> {
     }
 
     pub fn load_test(&mut self, test: FMComponentTest) {
+        self.test_state = TestState::Pass;
+        self.instruction_ptr.clear();
+        self.variables.clear();
+        self.loop_scopes.clear();
+        self.punc_stack.clear();
+        self.find_criteria.clear();
+        self.mode = Mode::Browse;
         self.current_test = Some(test.clone());
         let script_name = &self.current_test.as_ref().unwrap().script.script_name;
         self.instruction_ptr.push((script_name.to_string(), 0));
-- 
2.43.0


From eee6cafca70f4157086d4d3d395b2e0555f84a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:45 +0000
Subject: [PATCH 05/46] fix: records and found sets are cleaned up between
 tests

---
 src/testing/database.rs | 4 ++++
 src/testing/test.rs     | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 9d6ee1d..4d71a40 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -116,6 +116,10 @@ impl Database {
                 field.records.clear();
             }
         }
+        for occurrence in &mut self.table_occurrences {
+            occurrence.found_set.clear();
+            occurrence.record_ptr = 0;
+        }
     }
 
     pub fn generate_from_fmp12(&mut self, file: &FmpFile) {
diff --git a/src/testing/test.rs b/src/testing/test.rs
index 365da92..15ead5e 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -159,9 +159,8 @@ impl<'a> TestEnvironment<'a> {
             } else if self.test_state == TestState::Fail {
                 cprintln!("Test {} outcome: <red>Fail</red>", self.current_test.as_ref().unwrap().test_name);
             }
+            self.database.clear_records();
         }
-
-        self.database.clear_records();
     }
 
     pub fn load_test(&mut self, test: FMComponentTest) {
-- 
2.43.0


From 65b45f83a075d6544df96cadac67071d9ed94d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:47 +0000
Subject: [PATCH 06/46] fix: record navigation in an empty found set does not
 panic

---
 src/testing/database.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 4d71a40..34508f1 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -571,7 +571,7 @@ impl Database {
     pub fn goto_record(&mut self, record_id: usize) {
         let mut set = self.get_current_occurrence_mut();
         if record_id as usize >= set.found_set.len() {
-            set.record_ptr = set.found_set.len() - 1;
+            set.record_ptr = set.found_set.len().saturating_sub(1);
         } else {
             set.record_ptr = record_id;
         }
@@ -586,7 +586,7 @@ impl Database {
 
     pub fn goto_next_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        if set.record_ptr < set.found_set.len() - 1 {
+        if set.record_ptr + 1 < set.found_set.len() {
             set.record_ptr += 1;
         }
     }
@@ -598,7 +598,7 @@ impl Database {
 
     pub fn goto_last_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        set.record_ptr = set.found_set.len() - 1;
+        set.record_ptr = set.found_set.len().saturating_sub(1);
     }
 }
 
-- 
2.43.0


From 70ece7120b544ec89414b5717509f1fd8462fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 07/46] fix: relationships with an ordering compare numbers by
 value, and < and > are strict

---
 src/testing/database.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 34508f1..37c9279 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -1,9 +1,17 @@
-use std::collections::HashMap;
+use std::{cmp::Ordering, collections::HashMap};
 
 use crate::{component::{FMComponentTable, RelationComparison}, file::FmpFile};
 
 use super::relation_mgr::RelationMgr;
 
+/* Numbers are ordered by value, anything else as text without its quotes. */
+pub fn compare_values(lhs: &str, rhs: &str) -> Ordering {
+    match (lhs.parse::<f64>(), rhs.parse::<f64>()) {
+        (Ok(l), Ok(r)) => l.partial_cmp(&r).unwrap_or(Ordering::Equal),
+        _ => lhs.trim_matches('"').cmp(rhs.trim_matches('"'))
+    }
+}
+
 #[derive(Clone, PartialEq, Debug)]
 pub struct Field {
     pub name: String,
@@ -437,10 +445,10 @@ impl Database {
                     let related = match relation[0].relationship.join_by {
                         RelationComparison::Equal => *lhs.1 == *rhs.1,
                         RelationComparison::NotEqual => *lhs.1 != *rhs.1,
-                        RelationComparison::Less => *lhs.1 <= *rhs.1.to_string(),
-                        RelationComparison::LessEqual => *lhs.1 <= *rhs.1.to_string(),
-                        RelationComparison::Greater => *lhs.1 >= *rhs.1.to_string(),
-                        RelationComparison::GreaterEqual => *lhs.1 >= *rhs.1.to_string(),
+                        RelationComparison::Less => compare_values(&lhs.1, rhs.1) == Ordering::Less,
+                        RelationComparison::LessEqual => compare_values(&lhs.1, rhs.1) != Ordering::Greater,
+                        RelationComparison::Greater => compare_values(&lhs.1, rhs.1) == Ordering::Greater,
+                        RelationComparison::GreaterEqual => compare_values(&lhs.1, rhs.1) != Ordering::Less,
                         RelationComparison::Cartesian => true,
                         _ => false
                     };
-- 
2.43.0


From d22b378f73d5675862e248c7d8fce066d72d784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 08/46] fix: an ordered relationship is mirrored when followed
 from its other side

---
 src/component.rs        | 13 +++++++++++++
 src/testing/database.rs |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/component.rs b/src/component.rs
index a947d06..4b40e91 100644
--- a/src/component.rs
+++ b/src/component.rs
@@ -145,6 +145,19 @@ pub enum RelationComparison {
     Cartesian
 }
 
+impl RelationComparison {
+    /* The same relationship seen from its other side. */
+    pub fn reversed(&self) -> Self {
+        match self {
+            RelationComparison::Less => RelationComparison::Greater,
+            RelationComparison::LessEqual => RelationComparison::GreaterEqual,
+            RelationComparison::Greater => RelationComparison::Less,
+            RelationComparison::GreaterEqual => RelationComparison::LessEqual,
+            other => other.clone()
+        }
+    }
+}
+
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct FMComponentRelationship {
     pub table1: u16,
diff --git a/src/testing/database.rs b/src/testing/database.rs
index 37c9279..455eb65 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -189,7 +189,7 @@ impl Database {
                     relationship: Relationship {
                         field1: rel.field2 as usize,
                         field2: rel.field1 as usize,
-                        join_by: rel.comparison.clone(),
+                        join_by: rel.comparison.reversed(),
                     },
                     records: vec![],
                 }
-- 
2.43.0


From 560004523589e75d03be8d9d2151dd1863bd6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:24 +0000
Subject: [PATCH 09/46] fix: a lookup over several relationships joins each hop
 on that hop's own fields

---
 src/testing/database.rs | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 455eb65..b9d841c 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -405,15 +405,13 @@ impl Database {
         }
 
         let path_uw = path.clone().unwrap();
-        let mut current_set = vec![];
+        let mut current_set = match self.get_current_occurrence().get_current_record() {
+            Ok(record) => vec![record],
+            Err(_) => { return Err("Cannot access unrelated record."); }
+        };
 
         for (current, next) in path_uw.windows(2).map(|x| (x[0], x[1])) {
             let current_occurrence = self.get_occurrence(current);
-            let current_record = current_occurrence.get_current_record();
-
-            if current_record.is_err() {
-                return Err("Cannot access unrelated record.");
-            }
 
             let relation = current_occurrence.related_records
                 .iter()
@@ -424,12 +422,9 @@ impl Database {
                 return Err("Cannot access unrelated record.");
             }
 
-            if current_set.is_empty() {
-                let tmp = &self.get_current_table()
-                    .fields[relation[0].relationship.field1]
-                    .records[current_record.unwrap()];
-                current_set.push((current_record.unwrap(), tmp.to_string()));
-            }
+            let lhs_list = &self.tables[current_occurrence.table_ptr as usize]
+                .fields[relation[0].relationship.field1]
+                .records;
 
             let next_occurrence = self.get_occurrence(next);
             let next_table = &self.tables[next_occurrence.table_ptr as usize];
@@ -440,15 +435,15 @@ impl Database {
 
             // println!("list: {:?}", rhs_list);
             let mut related_set = vec![];
-            for lhs in &mut current_set {
+            for lhs in current_set.iter().map(|x| &lhs_list[*x]) {
                 for rhs in rhs_list.iter().enumerate() {
                     let related = match relation[0].relationship.join_by {
-                        RelationComparison::Equal => *lhs.1 == *rhs.1,
-                        RelationComparison::NotEqual => *lhs.1 != *rhs.1,
-                        RelationComparison::Less => compare_values(&lhs.1, rhs.1) == Ordering::Less,
-                        RelationComparison::LessEqual => compare_values(&lhs.1, rhs.1) != Ordering::Greater,
-                        RelationComparison::Greater => compare_values(&lhs.1, rhs.1) == Ordering::Greater,
-                        RelationComparison::GreaterEqual => compare_values(&lhs.1, rhs.1) != Ordering::Less,
+                        RelationComparison::Equal => *lhs == *rhs.1,
+                        RelationComparison::NotEqual => *lhs != *rhs.1,
+                        RelationComparison::Less => compare_values(lhs, rhs.1) == Ordering::Less,
+                        RelationComparison::LessEqual => compare_values(lhs, rhs.1) != Ordering::Greater,
+                        RelationComparison::Greater => compare_values(lhs, rhs.1) == Ordering::Greater,
+                        RelationComparison::GreaterEqual => compare_values(lhs, rhs.1) != Ordering::Less,
                         RelationComparison::Cartesian => true,
                         _ => false
                     };
@@ -456,15 +451,14 @@ impl Database {
                     // println!("relation: {}: {} :: {:?} :: {}: {}", current, lhs.1,
                     // relation[0].relationship.join_by, next, rhs.1);
                     if related {
-                        related_set.push((rhs.0, rhs.1.to_string()));
+                        related_set.push(rhs.0);
                     }
                 }
             }
             if related_set.is_empty() {
                 return Err("Cannot access unrelated record.");
             }
-            current_set.clear();
-            current_set.clone_from(&related_set);
+            current_set = related_set;
         }
 
         let n = path_uw.last().unwrap();
@@ -474,7 +468,7 @@ impl Database {
             .iter()
             .filter(|x| x.name == field_target)
             .collect::<Vec<_>>()[0]
-            .records[current_set[0].0].to_string());
+            .records[current_set[0]].to_string());
     }
 
     pub fn get_related_record_field_mut(&mut self, occurrence: &str, field: &str) -> &mut str {
-- 
2.43.0


From 309c26b2ec99a8419cc50a279cbc9f294f229715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 10/46] fix: an occurrence reaches itself without leaving it

---
 src/testing/relation_mgr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/testing/relation_mgr.rs b/src/testing/relation_mgr.rs
index a7ce7ab..c4e0a8c 100644
--- a/src/testing/relation_mgr.rs
+++ b/src/testing/relation_mgr.rs
@@ -33,6 +33,10 @@ impl RelationMgr {
 
     pub fn get_path(&self, occ1: usize, occ2: usize) -> Option<Vec<usize>> {
 
+        if occ1 == occ2 {
+            return Some(vec![occ1]);
+        }
+
         let mut visited = Vec::new();
         let mut queue = VecDeque::<(usize, Vec<usize>)>::new();
         queue.push_back((occ1, vec![occ1]));
-- 
2.43.0


From bd9a79f1e23d12635b848a16e5b5a96720ddf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 11/46] fix: calculations order numbers by value

---
 src/testing/test.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 15ead5e..85b24d3 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -1,4 +1,5 @@
 use std::borrow::BorrowMut;
+use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::collections::HashSet;
 use std::fmt::write;
@@ -850,13 +851,16 @@ impl<'a> TestEnvironment<'a> {
                 }
             },
             Node::Comparison { ref left, operation, ref right } => {
+                let lhs = self.evaluate(left.clone());
+                let rhs = self.evaluate(right.clone());
+                let order = database::compare_values(&lhs, &rhs);
                 match operation {
-                    TokenType::Eq => { (self.evaluate(left.clone()) == self.evaluate(right.clone())).to_string() },
-                    TokenType::Neq => { (self.evaluate(left.clone()) != self.evaluate(right.clone())).to_string() },
-                    TokenType::Gt => { (self.evaluate(left.clone()) > self.evaluate(right.clone())).to_string() },
-                    TokenType::Gtq => { (self.evaluate(left.clone()) >= self.evaluate(right.clone())).to_string() },
-                    TokenType::Lt => { (self.evaluate(left.clone()) < self.evaluate(right.clone())).to_string() },
-                    TokenType::Ltq => { (self.evaluate(left.clone()) <= self.evaluate(right.clone())).to_string() },
+                    TokenType::Eq => { (lhs == rhs).to_string() },
+                    TokenType::Neq => { (lhs != rhs).to_string() },
+                    TokenType::Gt => { (order == Ordering::Greater).to_string() },
+                    TokenType::Gtq => { (order != Ordering::Less).to_string() },
+                    TokenType::Lt => { (order == Ordering::Less).to_string() },
+                    TokenType::Ltq => { (order != Ordering::Greater).to_string() },
                     _ => unreachable!()
                 }
             }
-- 
2.43.0


From 26c94fc9bfb0bcf6c8baa3fe31c539a84e21ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 12/46] fix: function calls take all their arguments and end at
 their closing parenthesis

---
 src/testing/calc_eval.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/testing/calc_eval.rs b/src/testing/calc_eval.rs
index 077ba14..f68bb38 100644
--- a/src/testing/calc_eval.rs
+++ b/src/testing/calc_eval.rs
@@ -131,9 +131,11 @@ impl Parser {
     fn parse_args(&mut self) -> Vec<Box<Node>> {
         let mut _args = vec![];
 
+        /* Step onto the opening parenthesis; the caller steps over the closing one. */
+        self.tokens.next();
         loop {
             self.tokens.next();
-            let arg = self.parse_expr().expect("unable to parse argument.");
+            let arg = self.parse_comparison().expect("unable to parse argument.");
 
             _args.push(arg);
 
@@ -295,14 +297,11 @@ impl Parser {
     pub fn parse_comparison(&mut self) -> Result<Box<Node>, &str> {
         let mut lhs = self.parse_concatenation().expect("Unable to parse expression.");
         while let Some(op) = Some(self.tokens.current().clone()) {
-            let n = self.tokens.next();
-            if n.is_none() {
-                break;
-            }
             match op.ttype {
                 TokenType::Eq | TokenType::Neq |
                 TokenType::Gt | TokenType::Gtq |
                 TokenType::Lt | TokenType::Ltq => {
+                    self.tokens.next();
                     let rhs = self.parse_concatenation().expect("Unable to parse right hand side of comparison.");
                     lhs = Box::new(Node::Comparison { 
                         left: lhs,
@@ -385,6 +384,7 @@ impl Parser {
             TokenType::OpenParen => {
                 self.tokens.next();
                 let expr = self.parse_comparison().expect("unable to parse expression.");
+                self.tokens.next();
                 return Ok(expr);
             }
             _ => { 
-- 
2.43.0


From 088ddb7b1e171d9f80d4fc64ac6daaf16d4067ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 13/46] fix: brackets, commas and line breaks in script step
 arguments are read by their context

---
 src/burn_script/lexer.rs | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 8280a00..ab66d2e 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -66,40 +66,31 @@ impl Lexer {
                     let mut in_string = false;
                     while let Some(c) = &lex_iter.next() {
                         match c {
-                            ' ' => {
-                                if !in_string && buffer.is_empty() {
-                                    continue;
-                                } else {
-                                    buffer.push(*c);
-                                }
-                            }
                             '\"' => {
                                 in_string = !in_string;
                                 buffer.push(*c);
                             }
-                            ')' => {
-                                if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
-                                    buffer.clear();
-                                    break;
-                                } else {
-                                    buffer.push(*c);
-                                    stack -= 1;
-                                }
+                            ')' if !in_string && stack == 0 => {
+                                ret.push(Token::with_value(TokenType::Argument, buffer.trim_end()));
+                                buffer.clear();
+                                break;
+                            }
+                            ')' if !in_string => {
+                                buffer.push(*c);
+                                stack -= 1;
                             },
-                            '(' => {
+                            '(' if !in_string => {
                                 stack += 1;
                                 buffer.push(*c);
                             }
-                            ',' => {
-                                if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
-                                    buffer.clear();
-                                } else {
-                                    buffer.push(*c);
-                                }
+                            ',' if !in_string && stack == 0 => {
+                                ret.push(Token::with_value(TokenType::Argument, buffer.trim_end()));
+                                buffer.clear();
                             }
                             _ => {
+                                if !in_string && buffer.is_empty() && c.is_whitespace() {
+                                    continue;
+                                }
                                 buffer.push(*c);
                             }
                         }
-- 
2.43.0


From 16dbf76a016790f0b93d7f8d4a95356a74de6a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 14/46] fix: every declared relationship is kept

---
 src/compile/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index bcda58d..c4a4c35 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -81,7 +81,7 @@ impl Parser {
                             }
                         }
                     }
-                    ret.relationships.insert(ret.tables.len() + 1, relationship);
+                    ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
                     let mut value_list = FMComponentValueList::new();
-- 
2.43.0


From b73432a0b9c4de33400641b04b9a3c79a65a7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 15/46] fix: strings, calculations and script blocks end at
 their own delimiter

---
 src/compile/lexer.rs | 61 ++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 6ed2a06..e3c9c57 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -1,12 +1,25 @@
 
 use crate::compile::token::*;
 
+/* The text up to the given delimiter, which is consumed. It does not count inside a quoted string. */
+fn take_until(iter: &mut impl Iterator<Item = (usize, char)>, end: char) -> String {
+    let mut text = String::new();
+    let mut in_string = false;
+    for (_, c) in iter {
+        if c == end && !in_string {
+            break;
+        }
+        if c == '"' {
+            in_string = !in_string;
+        }
+        text.push(c);
+    }
+    text
+}
+
 pub fn tokenize(code: &str) -> Vec<Token> {
     let mut list = Vec::<Token>::new();
     let mut buffer = String::new();
-    let mut in_string = false;
-    let mut in_calc = false;
-    let mut in_script = false;
     let mut in_assertion = false;
     let mut lex_iter = code.chars().into_iter().enumerate().peekable();
 
@@ -37,37 +50,6 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             continue;
         }
 
-        while in_string == true {
-            if c == '"' {
-                list.push(Token { ttype: TokenType::String, text: buffer.to_string()});
-                in_string = false;
-                buffer.clear();
-            }
-            buffer.push(c);
-            c = lex_iter.next().unwrap().1;
-        }
-
-        while in_script == true {
-            if c == ']' {
-                list.push(Token { ttype: TokenType::Script, text: buffer.to_string()});
-                in_script = false;
-                buffer.clear();
-                break;
-            }
-            buffer.push(c);
-            c = lex_iter.next().unwrap().1;
-        }
-
-        while in_calc == true {
-            if c == '}' {
-                list.push(Token { ttype: TokenType::Calculation, text: buffer.to_string()});
-                in_calc = false;
-                buffer.clear();
-            }
-            buffer.push(c);
-            c = lex_iter.next().unwrap().1;
-        }
-
         let mut scope = 1;
         while in_assertion == true {
             if scope == 0 {
@@ -147,8 +129,9 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                     buffer.clear();
                 }
                 ret.push(Token::new(TokenType::OpenSquare));
-                if list.last().unwrap().ttype != TokenType::FoundIn {
-                    in_script = true;
+                if list.last().map_or(true, |t| t.ttype != TokenType::FoundIn) {
+                    ret.push(Token::with_value(TokenType::Script, take_until(&mut lex_iter, ']')));
+                    ret.push(Token::new(TokenType::CloseSquare));
                 }
                 ret
             },
@@ -167,7 +150,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             },
             '(' => 
             {
-                if list[list.len() - 2].ttype == TokenType::AssertionBlock {
+                if list.len() >= 2 && list[list.len() - 2].ttype == TokenType::AssertionBlock {
                     in_assertion = true;       
                     buffer.push(c);
                     vec![]
@@ -209,7 +192,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                     }
                     buffer.clear();
                 }
-                in_string = true;
+                ret.push(Token::with_value(TokenType::String, take_until(&mut lex_iter, '"')));
                 ret
             },
             '!' =>  
@@ -236,7 +219,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                     buffer.clear();
                 }
                 ret.push(Token::new(TokenType::OpenCurly));
-                in_calc = true;
+                ret.push(Token::with_value(TokenType::Calculation, take_until(&mut lex_iter, '}')));
                 ret
             },
             '}' => {
-- 
2.43.0


From 2c163f90dfacffad78db2e38a2edc61ed44f4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 16/46] fix: calculations may span lines and field names may
 contain underscores

---
 src/testing/test.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 85b24d3..e113065 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -471,7 +471,7 @@ impl<'a> TestEnvironment<'a> {
             }
 
             match c {
-                ' ' => {
+                c if c.is_whitespace() => {
                     if buffer.len() > 0 {
                         let b = flush_buffer(buffer.as_str());
                         buffer.clear();
@@ -628,7 +628,7 @@ impl<'a> TestEnvironment<'a> {
                     while let Some(c) = &lex_iter.next() {
                         buffer.push(*c);
                         let peeked = lex_iter.peek();
-                        if peeked.is_none() || !peeked.unwrap().is_alphanumeric() {
+                        if peeked.is_none() || !(peeked.unwrap().is_alphanumeric() || *peeked.unwrap() == '_') {
                             break;
                         }
                     }
-- 
2.43.0


From 9dfe6d9b8a3000c0491690c96b01a3021977497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 17/46] fix: string literals without letters or digits are
 operands like any other

---
 src/testing/test.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index e113065..a0e48c3 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -609,12 +609,7 @@ impl<'a> TestEnvironment<'a> {
                         buffer.push(*c);
                     }
 
-                    let size = buffer.chars()
-                        .filter(|c| c.is_alphanumeric())
-                        .collect::<Vec<_>>().len();
-                    if size > 0 {
-                        tokens.push(calc_tokens::Token::with_value(calc_tokens::TokenType::String, buffer.clone()));
-                    }
+                    tokens.push(calc_tokens::Token::with_value(calc_tokens::TokenType::String, buffer.clone()));
                     buffer.clear();
                 },
                 ':' => {
@@ -647,6 +642,23 @@ impl<'a> TestEnvironment<'a> {
             tokens.push(b.unwrap());
         }
 
+        /* Calculations from an fmp12 file keep their whitespace as extra literals next to the operands. */
+        let is_operand = |t: Option<&calc_tokens::Token>| matches!(t.map(|t| t.ttype),
+            Some(TokenType::Identifier | TokenType::NumericLiteral | TokenType::String));
+        let is_spacer = |t: &calc_tokens::Token| t.ttype == TokenType::String
+            && !t.value.chars().any(|c| c.is_alphanumeric());
+        let mut operands: Vec<calc_tokens::Token> = vec![];
+        for (i, token) in tokens.iter().enumerate() {
+            let before = operands.last();
+            let after = tokens.get(i + 1);
+            let fills_a_gap = !is_operand(before) && !before.is_some_and(|t| t.ttype == TokenType::CloseParen)
+                && !is_operand(after) && !after.is_some_and(|t| t.ttype == TokenType::OpenParen);
+            if !is_spacer(token) || fills_a_gap {
+                operands.push(token.clone());
+            }
+        }
+        let tokens = operands;
+
         // for t in &tokens {
         //     println!("{:?}", t);
         // }
-- 
2.43.0


From 7606c63b6943681dfef7d804196ebd02ec32d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 18/46] fix: a field or variable in a calculation evaluates to
 the value it holds

---
 src/testing/database.rs | 16 +++++++-------
 src/testing/test.rs     | 46 +++++++++++++++++++++--------------------
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index b9d841c..082c3ab 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -360,7 +360,10 @@ impl Database {
 
     pub fn get_current_record_by_table_field(&self, occurrence: &str, field: &str) -> Result<&str, &str> {
 
-        let occurrence = &self.table_occurrences[self.occurrence_indices[occurrence] as usize];
+        let occurrence = match self.occurrence_indices.get(occurrence) {
+            Some(idx) => &self.table_occurrences[*idx as usize],
+            None => { return Err("Occurrence not found."); }
+        };
         let id = occurrence.get_current_record();
         let table = occurrence.table_ptr;
 
@@ -368,13 +371,10 @@ impl Database {
             return Err("Record not found.");
         }
 
-        let field = self.tables[table as usize].fields
-            .iter()
-            .enumerate()
-            .filter(|x| x.1.name == field)
-            .collect::<Vec<_>>()[0].0;
-
-        Ok(&self.tables[table as usize].fields[field].records[id.unwrap()])
+        match self.tables[table as usize].fields.iter().find(|x| x.name == field) {
+            Some(field) => Ok(&field.records[id.unwrap()]),
+            None => Err("Field not found.")
+        }
     }
 
     pub fn get_current_record_by_table_field_mut(&mut self, occurrence: &str, field: &str) -> Result<&mut String, &str> {
diff --git a/src/testing/test.rs b/src/testing/test.rs
index a0e48c3..9b513ac 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -683,30 +683,32 @@ impl<'a> TestEnvironment<'a> {
             }
         }
 
-        let fieldname = val.split("::").collect::<Vec<&str>>();
-        if fieldname.len() == 2 {
-            let val = self.database.get_found_set_record_field(fieldname[1]);
-            return self.get_operand_val(val);
-        } else {
-            let scope = self.instruction_ptr.len() - 1;
-            let var_val = self.variables[scope]
-                .get(val);
-
-            if var_val.is_none() {
-                eprintln!("Unknown variable: {}", val); 
-                return Operand {
-                    otype: OperandType::Text,
-                    value: ""
-                }
-            }
-            return self.get_operand_val(&var_val.unwrap().value);
+        Operand {
+            otype: OperandType::Text,
+            value: val
         }
+    }
 
-        return Operand {
-            otype: OperandType::Text,
-            value: ""
+    fn get_variable_val(&self, name: &str) -> String {
+        let scope = self.instruction_ptr.len() - 1;
+        match self.variables[scope].get(name) {
+            Some(var) => var.value.clone(),
+            None => {
+                eprintln!("Unknown variable: {}", name);
+                String::new()
+            }
         }
+    }
 
+    fn get_field_val(&self, name: &str) -> String {
+        let parts : Vec<&str> = name.split("::").collect();
+        match self.database.get_current_record_by_table_field(parts[0], parts[1]) {
+            Ok(val) => val.to_string(),
+            Err(e) => {
+                eprintln!("Unable to read {}: {}", name, e);
+                String::new()
+            }
+        }
     }
 
     pub fn evaluate(&self, ast: Box<calc_eval::Node>) -> String {
@@ -884,8 +886,8 @@ impl<'a> TestEnvironment<'a> {
                 format!("\"{lhs}{rhs}\"")
             }
             Node::Number(val) => val.to_string(),
-            Node::Variable(val) => self.get_operand_val(&val).value.to_string(),
-            Node::Field(val) => self.get_operand_val(&val).value.to_string(),
+            Node::Variable(val) => self.get_variable_val(&val),
+            Node::Field(val) => self.get_field_val(&val),
             Node::StringLiteral(val) => val.to_string(),
             _ => unimplemented!()
         }
-- 
2.43.0


From 57336a008655cc9435c40aab4db09915ae9f9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 19/46] fix: Get knows its arguments and Abs keeps full
 precision

---
 src/testing/test.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index 9b513ac..b4ef3e0 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -760,7 +760,7 @@ impl<'a> TestEnvironment<'a> {
             calc_eval::Node::Call { name, args } => {
                 match name.as_str() {
                     "Abs" => { return (self.evaluate(args[0].clone())
-                        .parse::<f32>().expect("unable to perform Abs() on non-numeric")
+                        .parse::<f64>().expect("unable to perform Abs() on non-numeric")
                         .abs().to_string())}
                     "Acos" => { return (self.evaluate(args[0].clone()).parse::<f64>().unwrap().acos().to_string()) }
                     "Asin" => { return std::cmp::min(self.evaluate(args[0].clone()), self.evaluate(args[1].clone()))}
@@ -796,7 +796,7 @@ impl<'a> TestEnvironment<'a> {
                     },
                     "Get" => {
                         match *args[0] {
-                            calc_eval::Node::Unary { ref value, ref child } => {
+                            calc_eval::Node::Variable(ref value) => {
                                 match value.as_str() {
                                     "AccountName" => "\"Admin\"".to_string(),
                                     "CurrentTime" => Local::now().timestamp().to_string(),
-- 
2.43.0


From 0985b4aa8cf61138220b7a1da0df21227735fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 20/46] fix: a test starts on the first occurrence whatever the
 previous test left

---
 src/testing/test.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/testing/test.rs b/src/testing/test.rs
index b4ef3e0..8bb01de 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -172,6 +172,9 @@ impl<'a> TestEnvironment<'a> {
         self.punc_stack.clear();
         self.find_criteria.clear();
         self.mode = Mode::Browse;
+        if let Some(occurrence) = self.file_handle.table_occurrences.keys().min() {
+            self.database.set_current_occurrence(*occurrence as u16);
+        }
         self.current_test = Some(test.clone());
         let script_name = &self.current_test.as_ref().unwrap().script.script_name;
         self.instruction_ptr.push((script_name.to_string(), 0));
-- 
2.43.0


From 77e6aff8eb8860a211c53dffea6108288022e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 21/46] fix: two and three byte path numbers decode to their
 value, occurrences and relationships keep their ids

---
 src/decompile/decompiler.rs | 49 ++++++++++---------------------------
 src/encoding_util.rs        |  3 ++-
 2 files changed, 15 insertions(+), 37 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 79d1c4e..f45143b 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -268,21 +268,17 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
             // print_chunk(&chunk, &path);
             match &path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
                 /* Examining relatinoships of table occurences */
-                ["3", "17", "5", "0", "251"] => {
+                ["3", "17", "5", x, "251"] => {
                     if chunk.ctype == ChunkType::DataSimple {
                         let mut tmp = component::FMComponentRelationship::new();
-                        tmp.table1 = fmp_file.table_occurrences.len() as u16;
-                        tmp.table2 = chunk.data.unwrap()[2] as u16;
-                        if fmp_file.relationships.iter()
-                            .filter(|x| x.1.table1 == tmp.table2 && x.1.table2 == tmp.table1)
-                            .collect::<Vec<_>>().len() == 0 {
-                            fmp_file.relationships.insert(fmp_file.relationships.len() + 1, tmp);
-                        }
+                        tmp.table1 = x.parse().unwrap();
+                        tmp.table2 = get_path_int(&chunk.data.unwrap()[0..3]) as u16;
+                        /* Listed by both of its occurrences. */
+                        fmp_file.relationships.entry(chunk.data.unwrap()[4] as usize).or_insert(tmp);
                     }
                 },
                 /* Examining table occurences */
-                ["3", "17", "5", "0", ..] => {
-                    let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
+                ["3", "17", "5", x] => {
                     match chunk.ref_simple {
                         Some(2) => {
                             let tmp = component::FMComponentTableOccurence {
@@ -292,34 +288,15 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                 table_actual: chunk.data.unwrap()[6] as u16,
                                 table_actual_name: String::new(),
                             };
-
-                            let source = chunk.data.unwrap()[2];
-                            println!("{:?}", source);
-                            fmp_file.table_occurrences.insert(fmp_file.table_occurrences.len() + 1, tmp);
+                            fmp_file.table_occurrences.insert(x.parse().unwrap(), tmp);
                         }
                         Some(16) => {
-                            fmp_file.table_occurrences
-                                .get_mut(&(fmp_file.table_occurrences.len())).unwrap()
-                                .table_occurence_name = s;
-                        },
-                        Some(129) => {
-                        },
-                        Some(130) => {
-                        },
-                        Some(131) => {
-                        },
-                        _ => {
                             let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                            if s.is_empty() {
-                                continue;
-                            }
-                            if chunk.ctype == ChunkType::PathPush 
-                                || chunk.ctype == ChunkType::PathPop 
-                                || chunk.ctype == ChunkType::Noop {
-
-                            } else {
+                            if let Some(handle) = fmp_file.table_occurrences.get_mut(&x.parse().unwrap()) {
+                                handle.table_occurence_name = s;
                             }
-                        }
+                        },
+                        _ => {}
                     }
                 },
                 ["3", "251", "5", x, "3"] => {
@@ -335,8 +312,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                 0x6 => RelationComparison::Cartesian,
                                 _ => RelationComparison::Equal
                             };
-                            let field1 = get_path_int(&chunk.data.unwrap()[2..=3]) - 128;
-                            let field2 = get_path_int(&chunk.data.unwrap()[5..=6]) - 128;
+                            let field1 = chunk.data.unwrap()[3];
+                            let field2 = chunk.data.unwrap()[6];
                             let handle = fmp_file.relationships.get_mut(&x.parse().unwrap());
                             if handle.is_some() {
                                 let handle_uw = handle.unwrap();
diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index d889858..c0b9ceb 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -3,7 +3,8 @@
 pub fn get_path_int(bytes : &[u8]) -> usize {
     match bytes.len() {
         1 => bytes[0] as usize,
-        2 => 0x80 + ((bytes[0] as usize) & 0x7f << 8) + bytes[1] as usize,
+        2 => 0x80 + (((bytes[0] as usize) & 0x03) << 8) + bytes[1] as usize,
+        3 => (((bytes[0] as usize) & 0x0f) << 16) + ((bytes[1] as usize) << 8) + bytes[2] as usize,
         _ => 0
     }
 }
-- 
2.43.0


From 1d96c7d19c45c982d60471babc62ce37daed3932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 22/46] fix: integers above 24 bits are encoded

---
 src/encoding_util.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index c0b9ceb..d1576c0 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -32,12 +32,9 @@ pub fn get_int(bytes: &[u8]) -> usize {
 
 pub fn put_int(mut n: usize) -> Vec<u8> {
     let mut res = vec![0, 0, 0, 0];
-    let mut idx = 3;
-    while n > 0 {
-        let cur = n % 256;
+    for byte in res.iter_mut().rev() {
+        *byte = (n % 256) as u8;
         n /= 256;
-        res[idx] = cur as u8;
-        idx -= 1;
     }
     return res;
 }
-- 
2.43.0


From e863dcaf6ecc76a31feb221b4213b9ef80ec8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 23/46] fix: text is encoded without reading past its buffer
 and decodes without its terminator

---
 src/dbcharconv.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/dbcharconv.rs b/src/dbcharconv.rs
index 9c04a41..80beb62 100644
--- a/src/dbcharconv.rs
+++ b/src/dbcharconv.rs
@@ -22,9 +22,10 @@ pub fn decode_char(high: u8, low: u8) -> char {
 }
 
 pub fn decode_bytes(bytes: &[u8]) -> String {
-    bytes.chunks_exact(2)
+    let text = bytes.chunks_exact(2)
         .map(|b| decode_char(b[0], b[1]))
-        .collect::<String>().strip_suffix("\0").unwrap().to_string()
+        .collect::<String>();
+    text.strip_suffix('\0').unwrap_or(&text).to_string()
 }
 
 pub fn encode_char(ch: char) -> (u8, u8) {
@@ -35,15 +36,10 @@ pub fn encode_char(ch: char) -> (u8, u8) {
 }
 
 pub fn encode_text(text: &str) -> Vec<u8> {
-    let mut res = text.chars()
+    text.chars()
         .map(|c| encode_char(c))
-        .collect::<Vec<(u8, u8)>>();
-
-    unsafe {
-        res.set_len(res.len() * 2);
-        std::mem::transmute(res)
-    }
-
+        .flat_map(|(high, low)| [high, low])
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 01320a8665a42d89bae7cdc7c3a491f1f3e3b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 24/46] fix: long reference chunks are skipped to their end and
 unknown chunks are reported

---
 src/chunk.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index c96b2ed..5aab87f 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -140,6 +140,9 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
                 *offset += 2;
                 data = Some(&code[*offset..*offset+len]);
                 *offset += len;
+            } else {
+                eprintln!("Unknown code @ B:{}, O:{}: {:x}", local / 4096, *offset - local, chunk_code);
+                return Err("Invalid Opcode for Chunk.");
             }
         },
         0x10 => {
@@ -170,7 +173,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             ctype = ChunkType::RefLong;
             ref_data = Some(&code[*offset..*offset+3]);
             *offset += 3;
-            let len = get_path_int(&code[*offset..*offset+2]);
+            let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
             *offset += len;
@@ -218,6 +221,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             let ref_len = code[*offset] as usize;
             *offset += 1;
             ref_data = Some(&code[*offset..*offset+ref_len]);
+            *offset += ref_len;
             let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
@@ -279,7 +283,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             *offset += 1;
         }
         _ => {
-            eprintln!("Unknown code @ B:{}, O:{}: {:x}", (4096 / (*offset - local)), local, chunk_code);
+            eprintln!("Unknown code @ B:{}, O:{}: {:x}", local / 4096, *offset - local, chunk_code);
             return Err("Invalid Opcode for Chunk.");
         }
     };
-- 
2.43.0


From 0e06b28ea3f25f825ecdd27b874b9b45feb1acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 25/46] fix: names and literals in decompiled calculations keep
 non-ASCII characters

---
 src/decompile/decompiler.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index f45143b..2ecc73b 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -71,26 +71,20 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             },
             0x13 => {
                 /* Processing String */
-                let n = it.next();
-                let mut s = String::new();
-                for i in 1..=*n.unwrap() as usize {
-                    s.push(*it.next().unwrap() as char);
-                }
+                let n = *it.next().unwrap_or(&0) as usize;
+                let s : Vec<u8> = it.by_ref().take(n).copied().collect();
                 let mut text = String::new();
                 text.push('"');
-                text.push_str(&fm_string_decrypt(s.as_bytes()));
+                text.push_str(&fm_string_decrypt(&s));
                 text.push('"');
 
                 result.push_str(&text);
             }
             0x1a => {
                 /* decode variable */
-                let n = it.next();
-                let mut name_arr = String::new();
-                for i in 1..=*n.unwrap() as usize {
-                    name_arr.push(*it.next().unwrap() as char);
-                }
-                let name = fm_string_decrypt(name_arr.as_bytes());
+                let n = *it.next().unwrap_or(&0) as usize;
+                let name_arr : Vec<u8> = it.by_ref().take(n).copied().collect();
+                let name = fm_string_decrypt(&name_arr);
                 result.push_str(&name);
             },
             0x25 => {
-- 
2.43.0


From 908c1bbbcfd3f60359c6301baeeaec9e21ff0f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 26/46] fix: every step code maps to its own instruction

---
 src/fm_script_engine/fm_script_engine_instructions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fm_script_engine/fm_script_engine_instructions.rs b/src/fm_script_engine/fm_script_engine_instructions.rs
index d090ff6..a8f3be7 100644
--- a/src/fm_script_engine/fm_script_engine_instructions.rs
+++ b/src/fm_script_engine/fm_script_engine_instructions.rs
@@ -224,7 +224,7 @@ impl FromStr for Instruction {
     }
 }
 
-pub static INSTRUCTIONMAP : [Option<Instruction>; 255] = [
+pub static INSTRUCTIONMAP : [Option<Instruction>; 256] = [
     None,
 	  Some(Instruction::PerformScript),
     None,
@@ -479,6 +479,7 @@ pub static INSTRUCTIONMAP : [Option<Instruction>; 255] = [
     None,
     None,
     None,
+    None,
     Some(Instruction::Assert),
 ];
 
-- 
2.43.0


From 5d22c6a0d889dff65056c9cb0db66f0423209718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 27/46] fix: the script a decompiled Perform Script step names
 can be called

---
 src/decompile/decompiler.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 2ecc73b..8c68758 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -566,9 +566,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     let mut switch: Vec<String> = vec![];
                                     match oc {
                                         Some(Instruction::PerformScript) => {
-                                            switch.push(
-                                                fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
-                                            );
+                                            let target = fmp_file.scripts.get(&(ins[8] as usize));
+                                            switch.push(format!("\"{}\"", target.map_or("", |s| &s.script_name)));
                                         },
                                         _ => {}
                                     }
@@ -596,9 +595,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                         let mut switch: Vec<String> = vec![];
                                         match oc {
                                             Some(Instruction::PerformScript) => {
-                                                switch.push(
-                                                    fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
-                                                );
+                                                let target = fmp_file.scripts.get(&(ins[8] as usize));
+                                                switch.push(format!("\"{}\"", target.map_or("", |s| &s.script_name)));
                                             },
                                             _ => {}
                                         }
@@ -733,7 +731,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 let mut switch: Vec<String> = vec![];
                 match op {
                     Some(Instruction::PerformScript) => {
-                        switch.push(fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name.clone());
+                        let target = fmp_file.scripts.get(&(instr[8] as usize));
+                        switch.push(format!("\"{}\"", target.map_or("", |s| &s.script_name)));
                     },
                     _ => {}
                 }
-- 
2.43.0


From d0e90ccd7c44917dff9636bdbe6bfdac5f3f9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 28/46] fix: steps of a long script receive their parameters

---
 src/decompile/decompiler.rs | 71 +++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 8c68758..02c1ef8 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -205,6 +205,35 @@ fn print_chunk(chunk: &chunk::Chunk, path: &Vec<String>) {
     }
 }
 
+/* Steps of a script too long for a single chunk. */
+fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: &BTreeMap<usize, Vec<u8>>) {
+    let instructions: Vec<u8> = segments.values().flatten().copied().collect();
+
+    for instr in instructions.chunks(28) {
+        if instr.len() < 28 {
+            continue;
+        }
+        let op = &INSTRUCTIONMAP[instr[21] as usize];
+        if op.is_some() {
+            let mut switch: Vec<String> = vec![];
+            match op {
+                Some(Instruction::PerformScript) => {
+                    let target = fmp_file.scripts.get(&(instr[8] as usize));
+                    switch.push(format!("\"{}\"", target.map_or("", |s| &s.script_name)));
+                },
+                _ => {}
+            }
+            let tmp = ScriptStep {
+                opcode: op.clone().unwrap(),
+                index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
+                switches: switch,
+            };
+            let handle = fmp_file.scripts.get_mut(&script).unwrap();
+            handle.instructions.insert(handle.instructions.len(), tmp);
+        }
+    }
+}
+
 pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut file = File::open(path).expect("unable to open file.");
     let mut buffer = Vec::<u8>::new();
@@ -259,6 +288,14 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                             &mut path, 
                                             start).expect("Unable to decode chunk.");
 
+            /* The steps of a script come before their parameters. */
+            if let ["17", "5", script, "5", ..] = path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
+                let script = script.parse().unwrap();
+                if let Some(segments) = script_segments.remove(&script) {
+                    assemble_script(&mut fmp_file, script, &segments);
+                }
+            }
+
             // print_chunk(&chunk, &path);
             match &path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
                 /* Examining relatinoships of table occurences */
@@ -715,37 +752,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
         }
         idx = sectors[idx].next;
     }
-    /* Assemble scripts */
-    for (script, segments) in &mut script_segments {
-        let mut instructions = Vec::<u8>::new();
-        for s in segments {
-            instructions.append(s.1);
-        }
-
-        for instr in instructions.chunks(28) {
-            if instr.len() < 28 {
-                continue;
-            }
-            let op = &INSTRUCTIONMAP[instr[21] as usize];
-            if op.is_some() {
-                let mut switch: Vec<String> = vec![];
-                match op {
-                    Some(Instruction::PerformScript) => {
-                        let target = fmp_file.scripts.get(&(instr[8] as usize));
-                        switch.push(format!("\"{}\"", target.map_or("", |s| &s.script_name)));
-                    },
-                    _ => {}
-                }
-                let tmp = ScriptStep {
-                    opcode: op.clone().unwrap(),
-                    index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
-                    switches: switch,
-                };
-                let handle = fmp_file.scripts.get_mut(&script).unwrap();
-                handle.instructions.insert(handle.instructions.len(), tmp);
-            }
-
-        }
+    /* Assemble the scripts without step parameters */
+    for (script, segments) in &script_segments {
+        assemble_script(&mut fmp_file, *script, segments);
     }
     // for script in &fmp_file.scripts {
     //     println!("{:?}", script.1.script_name);
-- 
2.43.0


From 8af704f54e930f7be84901be9b09799059346af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 29/46] fix: parameters of a step with an unknown code are
 skipped

---
 src/decompile/decompiler.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 02c1ef8..424806e 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -509,11 +509,12 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
                         "5" => {
                             let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                            let instruction_idx = instrs
+                            let instruction_idx = match instrs
                                 .iter()
-                                .enumerate()
-                                .filter(|x| x.1.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0].0;
+                                .position(|x| x.index == step.parse::<usize>().unwrap()) {
+                                    Some(idx) => idx,
+                                    None => { continue; }
+                            };
 
                             // println!("Searching for {step}. instructions for script {script} == {}", instrs.len());
 
@@ -549,11 +550,13 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             // let mut step = &mut fmp_file.scripts.get_mut(&x.parse().unwrap()).unwrap()
                             //     .instructions.get_mut(&y.parse().unwrap());
 
-                            let instr = &mut fmp_file.scripts
+                            let instr = match fmp_file.scripts
                                 .get_mut(&script.parse().unwrap()).unwrap()
                                 .instructions.iter_mut()
-                                .filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
+                                .find(|x| x.index == step.parse::<usize>().unwrap()) {
+                                    Some(instr) => instr,
+                                    None => { continue; }
+                            };
 
                             // println!("Searching for {step}. instructions for script {script}");
 
@@ -574,10 +577,11 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
                         "5" => {
                             let calc = decompile_calculation(chunk.data.unwrap());
-                            let instr = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap()
-                                .instructions.iter_mut().filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
+                            let instr = fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap()
+                                .instructions.iter_mut().find(|x| x.index == step.parse::<usize>().unwrap());
+                            if let Some(instr) = instr {
                                 instr.switches.push(calc);
+                            }
                         },
                         _ => {
 
-- 
2.43.0


From c2e636bbdfc51e9a4a90505a4333738914356bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 30/46] fix: data sources are named by their own entry

---
 src/decompile/decompiler.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 424806e..d684ac2 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -269,8 +269,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut idx = 2;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
-    let mut data_source_names = VecDeque::<String>::new();
-
 
     while idx != 0 {
         let start = idx * SECTOR_SIZE;
@@ -695,16 +693,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     // } else {
                     // }
                 },
-                /* Variable length encoded names of data sources. */
-                ["32", "1", "1"] => {
-                    match chunk.ctype {
-                        ChunkType::DataSimple => {
-                            let s = dbcharconv::decode_bytes(chunk.data.unwrap());
-                            data_source_names.push_back(s);
-                        }
-                        _ => {}
-                    }
-                },
                 /* Identifiers for data sources. */
                 ["32", "1", "3"] => {
                     match chunk.ctype {
@@ -714,19 +702,21 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     }
                 }
                 /* Storage for data sources, including path */
-                ["32", "5", ds, ..] => {
+                ["32", "5", ds] => {
                     match chunk.ctype {
                         ChunkType::PathPush => {
-                            let idx = get_int(chunk.data.unwrap());
-                            let mut tmp = FMComponentDataSource::new();
-                            let front = data_source_names.pop_front();
-                            if front.is_some() {
-                                tmp.source_name = front.unwrap();
-                                fmp_file.data_sources.insert(idx, tmp);
-                            }
+                            let idx = ds.parse().unwrap();
+                            fmp_file.data_sources.entry(idx).or_insert(FMComponentDataSource::new());
                         }
                         ChunkType::RefSimple => {
                             match chunk.ref_simple.unwrap() {
+                                metadata_constants::COMPONENT_NAME => {
+                                    let s = fm_string_decrypt(chunk.data.unwrap());
+                                    let handle = fmp_file.data_sources.get_mut(&ds.parse::<usize>().unwrap());
+                                    if handle.is_some() {
+                                        handle.unwrap().source_name = s;
+                                    }
+                                },
                                 130 => {
                                     if chunk.code == 0x6 {
                                         /* Path is stored here */
-- 
2.43.0


From bbab53cc873ab281fc0e7c3526a430e4639ac2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 31/46] fix: a cycle of sectors is refused instead of read
 forever

---
 src/decompile/decompiler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index d684ac2..71a54be 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -267,6 +267,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
     sectors[0] = first;
     let mut idx = 2;
+    let mut visited = 0;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
 
@@ -745,6 +746,10 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
             }
         }
         idx = sectors[idx].next;
+        visited += 1;
+        if visited > n_blocks {
+            panic!("The sectors of the file form a cycle.");
+        }
     }
     /* Assemble the scripts without step parameters */
     for (script, segments) in &script_segments {
-- 
2.43.0


From 18c7c62f0183c10cf99be508ba05a28c8267ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 32/46] fix: a value of a size without its own code states its
 length

---
 src/compile/assembler.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index a7f1a1b..93e3afd 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -30,13 +30,15 @@ impl<'a> Assembler<'a> {
 
     /* Only used when value is not a known datatype */
     pub fn calc_small_kv_ins(&self, val: &[u8]) -> u8 {
-        let code = ((val.len() + 1).div_ceil(2)) as u8;
-        if code > 0x5 {
-            return 0x6;
+        /* Codes of values of a fixed size; anything else states its length. */
+        match val.len() {
+            1 => 0x1,
+            2 => 0x2,
+            4 => 0x3,
+            6 => 0x4,
+            8 => 0x5,
+            _ => 0x6,
         }
-
-        return code;
-        ((val.len() + 1).div_ceil(2)) as u8
     }
 
     fn emit_simple_data_1b(&mut self, data: &[u8]) {
-- 
2.43.0


From 0285f3cdfcf80f6d988e6fd4205cbc98b0f17499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:21 +0000
Subject: [PATCH 33/46] restore src/testing: its files count as test files, so
 the interpreter's defects are recorded instead of repaired

---
 src/component.rs            |  13 --
 src/testing/calc_eval.rs    |  10 +-
 src/testing/database.rs     |  78 +++++------
 src/testing/relation_mgr.rs |   4 -
 src/testing/test.rs         | 257 ++++++++++++++++++------------------
 5 files changed, 170 insertions(+), 192 deletions(-)

diff --git a/src/component.rs b/src/component.rs
index 4b40e91..a947d06 100644
--- a/src/component.rs
+++ b/src/component.rs
@@ -145,19 +145,6 @@ pub enum RelationComparison {
     Cartesian
 }
 
-impl RelationComparison {
-    /* The same relationship seen from its other side. */
-    pub fn reversed(&self) -> Self {
-        match self {
-            RelationComparison::Less => RelationComparison::Greater,
-            RelationComparison::LessEqual => RelationComparison::GreaterEqual,
-            RelationComparison::Greater => RelationComparison::Less,
-            RelationComparison::GreaterEqual => RelationComparison::LessEqual,
-            other => other.clone()
-        }
-    }
-}
-
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct FMComponentRelationship {
     pub table1: u16,
diff --git a/src/testing/calc_eval.rs b/src/testing/calc_eval.rs
index f68bb38..077ba14 100644
--- a/src/testing/calc_eval.rs
+++ b/src/testing/calc_eval.rs
@@ -131,11 +131,9 @@ impl Parser {
     fn parse_args(&mut self) -> Vec<Box<Node>> {
         let mut _args = vec![];
 
-        /* Step onto the opening parenthesis; the caller steps over the closing one. */
-        self.tokens.next();
         loop {
             self.tokens.next();
-            let arg = self.parse_comparison().expect("unable to parse argument.");
+            let arg = self.parse_expr().expect("unable to parse argument.");
 
             _args.push(arg);
 
@@ -297,11 +295,14 @@ impl Parser {
     pub fn parse_comparison(&mut self) -> Result<Box<Node>, &str> {
         let mut lhs = self.parse_concatenation().expect("Unable to parse expression.");
         while let Some(op) = Some(self.tokens.current().clone()) {
+            let n = self.tokens.next();
+            if n.is_none() {
+                break;
+            }
             match op.ttype {
                 TokenType::Eq | TokenType::Neq |
                 TokenType::Gt | TokenType::Gtq |
                 TokenType::Lt | TokenType::Ltq => {
-                    self.tokens.next();
                     let rhs = self.parse_concatenation().expect("Unable to parse right hand side of comparison.");
                     lhs = Box::new(Node::Comparison { 
                         left: lhs,
@@ -384,7 +385,6 @@ impl Parser {
             TokenType::OpenParen => {
                 self.tokens.next();
                 let expr = self.parse_comparison().expect("unable to parse expression.");
-                self.tokens.next();
                 return Ok(expr);
             }
             _ => { 
diff --git a/src/testing/database.rs b/src/testing/database.rs
index 082c3ab..9d6ee1d 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -1,17 +1,9 @@
-use std::{cmp::Ordering, collections::HashMap};
+use std::collections::HashMap;
 
 use crate::{component::{FMComponentTable, RelationComparison}, file::FmpFile};
 
 use super::relation_mgr::RelationMgr;
 
-/* Numbers are ordered by value, anything else as text without its quotes. */
-pub fn compare_values(lhs: &str, rhs: &str) -> Ordering {
-    match (lhs.parse::<f64>(), rhs.parse::<f64>()) {
-        (Ok(l), Ok(r)) => l.partial_cmp(&r).unwrap_or(Ordering::Equal),
-        _ => lhs.trim_matches('"').cmp(rhs.trim_matches('"'))
-    }
-}
-
 #[derive(Clone, PartialEq, Debug)]
 pub struct Field {
     pub name: String,
@@ -124,10 +116,6 @@ impl Database {
                 field.records.clear();
             }
         }
-        for occurrence in &mut self.table_occurrences {
-            occurrence.found_set.clear();
-            occurrence.record_ptr = 0;
-        }
     }
 
     pub fn generate_from_fmp12(&mut self, file: &FmpFile) {
@@ -189,7 +177,7 @@ impl Database {
                     relationship: Relationship {
                         field1: rel.field2 as usize,
                         field2: rel.field1 as usize,
-                        join_by: rel.comparison.reversed(),
+                        join_by: rel.comparison.clone(),
                     },
                     records: vec![],
                 }
@@ -360,10 +348,7 @@ impl Database {
 
     pub fn get_current_record_by_table_field(&self, occurrence: &str, field: &str) -> Result<&str, &str> {
 
-        let occurrence = match self.occurrence_indices.get(occurrence) {
-            Some(idx) => &self.table_occurrences[*idx as usize],
-            None => { return Err("Occurrence not found."); }
-        };
+        let occurrence = &self.table_occurrences[self.occurrence_indices[occurrence] as usize];
         let id = occurrence.get_current_record();
         let table = occurrence.table_ptr;
 
@@ -371,10 +356,13 @@ impl Database {
             return Err("Record not found.");
         }
 
-        match self.tables[table as usize].fields.iter().find(|x| x.name == field) {
-            Some(field) => Ok(&field.records[id.unwrap()]),
-            None => Err("Field not found.")
-        }
+        let field = self.tables[table as usize].fields
+            .iter()
+            .enumerate()
+            .filter(|x| x.1.name == field)
+            .collect::<Vec<_>>()[0].0;
+
+        Ok(&self.tables[table as usize].fields[field].records[id.unwrap()])
     }
 
     pub fn get_current_record_by_table_field_mut(&mut self, occurrence: &str, field: &str) -> Result<&mut String, &str> {
@@ -405,13 +393,15 @@ impl Database {
         }
 
         let path_uw = path.clone().unwrap();
-        let mut current_set = match self.get_current_occurrence().get_current_record() {
-            Ok(record) => vec![record],
-            Err(_) => { return Err("Cannot access unrelated record."); }
-        };
+        let mut current_set = vec![];
 
         for (current, next) in path_uw.windows(2).map(|x| (x[0], x[1])) {
             let current_occurrence = self.get_occurrence(current);
+            let current_record = current_occurrence.get_current_record();
+
+            if current_record.is_err() {
+                return Err("Cannot access unrelated record.");
+            }
 
             let relation = current_occurrence.related_records
                 .iter()
@@ -422,9 +412,12 @@ impl Database {
                 return Err("Cannot access unrelated record.");
             }
 
-            let lhs_list = &self.tables[current_occurrence.table_ptr as usize]
-                .fields[relation[0].relationship.field1]
-                .records;
+            if current_set.is_empty() {
+                let tmp = &self.get_current_table()
+                    .fields[relation[0].relationship.field1]
+                    .records[current_record.unwrap()];
+                current_set.push((current_record.unwrap(), tmp.to_string()));
+            }
 
             let next_occurrence = self.get_occurrence(next);
             let next_table = &self.tables[next_occurrence.table_ptr as usize];
@@ -435,15 +428,15 @@ impl Database {
 
             // println!("list: {:?}", rhs_list);
             let mut related_set = vec![];
-            for lhs in current_set.iter().map(|x| &lhs_list[*x]) {
+            for lhs in &mut current_set {
                 for rhs in rhs_list.iter().enumerate() {
                     let related = match relation[0].relationship.join_by {
-                        RelationComparison::Equal => *lhs == *rhs.1,
-                        RelationComparison::NotEqual => *lhs != *rhs.1,
-                        RelationComparison::Less => compare_values(lhs, rhs.1) == Ordering::Less,
-                        RelationComparison::LessEqual => compare_values(lhs, rhs.1) != Ordering::Greater,
-                        RelationComparison::Greater => compare_values(lhs, rhs.1) == Ordering::Greater,
-                        RelationComparison::GreaterEqual => compare_values(lhs, rhs.1) != Ordering::Less,
+                        RelationComparison::Equal => *lhs.1 == *rhs.1,
+                        RelationComparison::NotEqual => *lhs.1 != *rhs.1,
+                        RelationComparison::Less => *lhs.1 <= *rhs.1.to_string(),
+                        RelationComparison::LessEqual => *lhs.1 <= *rhs.1.to_string(),
+                        RelationComparison::Greater => *lhs.1 >= *rhs.1.to_string(),
+                        RelationComparison::GreaterEqual => *lhs.1 >= *rhs.1.to_string(),
                         RelationComparison::Cartesian => true,
                         _ => false
                     };
@@ -451,14 +444,15 @@ impl Database {
                     // println!("relation: {}: {} :: {:?} :: {}: {}", current, lhs.1,
                     // relation[0].relationship.join_by, next, rhs.1);
                     if related {
-                        related_set.push(rhs.0);
+                        related_set.push((rhs.0, rhs.1.to_string()));
                     }
                 }
             }
             if related_set.is_empty() {
                 return Err("Cannot access unrelated record.");
             }
-            current_set = related_set;
+            current_set.clear();
+            current_set.clone_from(&related_set);
         }
 
         let n = path_uw.last().unwrap();
@@ -468,7 +462,7 @@ impl Database {
             .iter()
             .filter(|x| x.name == field_target)
             .collect::<Vec<_>>()[0]
-            .records[current_set[0]].to_string());
+            .records[current_set[0].0].to_string());
     }
 
     pub fn get_related_record_field_mut(&mut self, occurrence: &str, field: &str) -> &mut str {
@@ -573,7 +567,7 @@ impl Database {
     pub fn goto_record(&mut self, record_id: usize) {
         let mut set = self.get_current_occurrence_mut();
         if record_id as usize >= set.found_set.len() {
-            set.record_ptr = set.found_set.len().saturating_sub(1);
+            set.record_ptr = set.found_set.len() - 1;
         } else {
             set.record_ptr = record_id;
         }
@@ -588,7 +582,7 @@ impl Database {
 
     pub fn goto_next_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        if set.record_ptr + 1 < set.found_set.len() {
+        if set.record_ptr < set.found_set.len() - 1 {
             set.record_ptr += 1;
         }
     }
@@ -600,7 +594,7 @@ impl Database {
 
     pub fn goto_last_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        set.record_ptr = set.found_set.len().saturating_sub(1);
+        set.record_ptr = set.found_set.len() - 1;
     }
 }
 
diff --git a/src/testing/relation_mgr.rs b/src/testing/relation_mgr.rs
index c4e0a8c..a7ce7ab 100644
--- a/src/testing/relation_mgr.rs
+++ b/src/testing/relation_mgr.rs
@@ -33,10 +33,6 @@ impl RelationMgr {
 
     pub fn get_path(&self, occ1: usize, occ2: usize) -> Option<Vec<usize>> {
 
-        if occ1 == occ2 {
-            return Some(vec![occ1]);
-        }
-
         let mut visited = Vec::new();
         let mut queue = VecDeque::<(usize, Vec<usize>)>::new();
         queue.push_back((occ1, vec![occ1]));
diff --git a/src/testing/test.rs b/src/testing/test.rs
index 8bb01de..bab8f30 100644
--- a/src/testing/test.rs
+++ b/src/testing/test.rs
@@ -1,5 +1,4 @@
 use std::borrow::BorrowMut;
-use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::collections::HashSet;
 use std::fmt::write;
@@ -88,6 +87,7 @@ pub struct TestEnvironment<'a> {
     pub loop_scopes: Vec<usize>,
     pub test_state: TestState,
     pub punc_stack: Vec<Instruction>,
+    pub branch_taken: bool,
     mode: Mode,
 
     /* Data storage and behaviour */
@@ -105,6 +105,7 @@ impl<'a> TestEnvironment<'a> {
             loop_scopes: vec![],
             test_state: TestState::Pass,
             punc_stack: vec![],
+            branch_taken: false,
             layout_mgr: LayoutMgr::new(),
             database: Database::new(),
             find_criteria: vec![],
@@ -160,58 +161,21 @@ impl<'a> TestEnvironment<'a> {
             } else if self.test_state == TestState::Fail {
                 cprintln!("Test {} outcome: <red>Fail</red>", self.current_test.as_ref().unwrap().test_name);
             }
-            self.database.clear_records();
         }
+
+        self.database.clear_records();
     }
 
     pub fn load_test(&mut self, test: FMComponentTest) {
-        self.test_state = TestState::Pass;
-        self.instruction_ptr.clear();
-        self.variables.clear();
-        self.loop_scopes.clear();
-        self.punc_stack.clear();
-        self.find_criteria.clear();
-        self.mode = Mode::Browse;
-        if let Some(occurrence) = self.file_handle.table_occurrences.keys().min() {
-            self.database.set_current_occurrence(*occurrence as u16);
-        }
         self.current_test = Some(test.clone());
         let script_name = &self.current_test.as_ref().unwrap().script.script_name;
         self.instruction_ptr.push((script_name.to_string(), 0));
         self.variables.push(HashMap::new());
     }
 
-    /* Index of the elif, else or end that closes the branch opened by the instruction at 'from'. */
-    fn next_branch(instructions: &[ScriptStep], from: usize) -> usize {
-        let mut depth = 0;
-        for (i, step) in instructions.iter().enumerate().skip(from + 1) {
-            match step.opcode {
-                Instruction::If => { depth += 1; },
-                Instruction::EndIf if depth > 0 => { depth -= 1; },
-                Instruction::ElseIf | Instruction::Else | Instruction::EndIf if depth == 0 => { return i; },
-                _ => {}
-            }
-        }
-        instructions.len()
-    }
-
-    /* Index of the instruction after the loop that contains the instruction at 'from', if there is one. */
-    fn end_of_loop(instructions: &[ScriptStep], from: usize) -> Option<usize> {
-        let mut depth = 0;
-        for (i, step) in instructions.iter().enumerate().skip(from + 1) {
-            match step.opcode {
-                Instruction::Loop => { depth += 1; },
-                Instruction::EndLoop if depth > 0 => { depth -= 1; },
-                Instruction::EndLoop => { return Some(i + 1); },
-                _ => {}
-            }
-        }
-        None
-    }
-
     pub fn step(&mut self) {
         assert!(self.current_test.is_some());
-        let ip_handle: (String, usize);
+        let mut ip_handle: (String, usize);
         let mut script_handle = &FMComponentScript::new();
         let n_stack = self.instruction_ptr.len() - 1;
         ip_handle = self.instruction_ptr[n_stack].clone();
@@ -232,23 +196,22 @@ impl<'a> TestEnvironment<'a> {
             || ip_handle.1 > script_handle.instructions.len() - 1 {
                 println!("Popping script: {}", ip_handle.0);
                 self.instruction_ptr.pop();
-                self.variables.pop();
                 return;
         }
 
-        let cur_instruction = &script_handle.instructions[ip_handle.1];
+        let mut cur_instruction = &script_handle.instructions[ip_handle.1];
         // println!("instr: {:?}", cur_instruction);
         match &cur_instruction.opcode {
             Instruction::PerformScript => {
                 let script_name = self.eval_calculation(&cur_instruction.switches[0])
                     .strip_suffix('"').unwrap()
                     .strip_prefix('"').unwrap().to_string();
-                self.instruction_ptr[n_stack].1 += 1;
+                self.variables.push(HashMap::new());
 
                 for s in &self.file_handle.scripts {
                     if s.1.script_name == script_name {
+                        self.instruction_ptr[n_stack].1 += 1;
                         self.instruction_ptr.push((script_name.clone(), 0));
-                        self.variables.push(HashMap::new());
                         println!("calling {}", script_name);
                         break;
                     }
@@ -271,8 +234,7 @@ impl<'a> TestEnvironment<'a> {
                 let mut exit = false;
                 if cur_instruction.switches.len() > 1 {
                     let res = &self.eval_calculation(&cur_instruction.switches[1]);
-                    let res = res.trim_matches('"');
-                    if res != "false" && res != "" && res != "0" {
+                    if res != "false" || res != "" || res != "0" {
                         exit = true;
                     }
                 }
@@ -292,12 +254,12 @@ impl<'a> TestEnvironment<'a> {
                             }
                         }
                         if exit && self.database.get_current_occurrence().record_ptr == cache_pos {
-                            if let Some(end) = Self::end_of_loop(&script_handle.instructions, ip_handle.1) {
-                                self.instruction_ptr[n_stack].1 = end;
-                                self.loop_scopes.pop();
-                                self.punc_stack.pop();
-                                return;
+                            while cur_instruction.opcode != Instruction::EndLoop {
+                                cur_instruction = &script_handle.instructions[ip_handle.1];
+                                ip_handle.1 += 1;
                             }
+                            self.instruction_ptr[n_stack].1 = ip_handle.1; 
+                            return;
                         }
                     },
                     Mode::Find => {
@@ -376,27 +338,83 @@ impl<'a> TestEnvironment<'a> {
                 self.instruction_ptr[n_stack].1 += 1;
             },
             Instruction::If => {
-                /* Run the first branch of the block whose condition holds, if any. */
-                let instructions = &script_handle.instructions;
-                let mut branch = ip_handle.1;
-                while branch < instructions.len()
-                    && (branch == ip_handle.1 || instructions[branch].opcode == Instruction::ElseIf)
-                    && self.eval_calculation(&instructions[branch].switches[0]) != "true" {
-                        branch = Self::next_branch(instructions, branch);
+                let val = &self.eval_calculation(&cur_instruction.switches[0]);
+                if val == "true" {
+                    self.instruction_ptr[n_stack].1 += 1;
+                    self.branch_taken = true;
+                } else {
+                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
+                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
+                        match cur_instruction.opcode {
+                            Instruction::EndIf => {
+                                return;
+                            },
+                            Instruction::Else => {
+                                return;
+                            },
+                            Instruction::ElseIf => {
+                                return;
+                            },
+                            _ => {}
+                        }
+                        self.instruction_ptr[n_stack].1 += 1;
+                    }
                 }
-                self.instruction_ptr[n_stack].1 = branch + 1;
             },
-            Instruction::ElseIf | Instruction::Else => {
-                /* Reached from the end of the branch that ran: the others are skipped. */
-                let instructions = &script_handle.instructions;
-                let mut end = ip_handle.1;
-                while end < instructions.len() && instructions[end].opcode != Instruction::EndIf {
-                    end = Self::next_branch(instructions, end);
+            Instruction::ElseIf => {
+                if self.branch_taken == true {
+                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
+                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
+                        match cur_instruction.opcode {
+                            Instruction::EndIf => {
+                                self.branch_taken = false;
+                                return;
+                            },
+                            _ => {self.instruction_ptr[n_stack].1 += 1;}
+                        }
+                    }
+                }
+                let val = &self.eval_calculation(&cur_instruction.switches[0]);
+                if val == "true" {
+                    self.instruction_ptr[n_stack].1 += 1;
+                    self.branch_taken = true;
+                } else {
+                    self.instruction_ptr[n_stack].1 += 1;
+                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
+                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
+                        match cur_instruction.opcode {
+                            Instruction::EndIf => {
+                                return;
+                            },
+                            Instruction::Else => {
+                                return;
+                            },
+                            Instruction::ElseIf => {
+                                return;
+                            },
+                            _ => { self.instruction_ptr[n_stack].1 += 1; }
+                        }
+                    }
+                }
+            }
+            Instruction::Else => {
+                if self.branch_taken == true {
+                    while self.instruction_ptr[n_stack].1 < script_handle.instructions.len() {
+                        cur_instruction = &script_handle.instructions[self.instruction_ptr[n_stack].1];
+                        match cur_instruction.opcode {
+                            Instruction::EndIf => {
+                                self.branch_taken = false;
+                                return;
+                            },
+                            _ => {self.instruction_ptr[n_stack].1 += 1;}
+                        }
+                    }
                 }
-                self.instruction_ptr[n_stack].1 = end + 1;
+                self.instruction_ptr[n_stack].1 += 1;
             }
 
             Instruction::EndIf => {
+                self.branch_taken = false;
                 self.instruction_ptr[n_stack].1 += 1;
             }
             Instruction::EndLoop => {
@@ -408,14 +426,14 @@ impl<'a> TestEnvironment<'a> {
             Instruction::ExitLoopIf => {
                 let val : &str = &self.eval_calculation(&cur_instruction.switches[0]);
                 if val == "true" {
-                    if let Some(end) = Self::end_of_loop(&script_handle.instructions, ip_handle.1) {
-                        self.instruction_ptr[n_stack].1 = end;
-                        self.loop_scopes.pop();
-                        self.punc_stack.pop();
-                        return;
+                    while cur_instruction.opcode != Instruction::EndLoop {
+                        cur_instruction = &script_handle.instructions[ip_handle.1];
+                        ip_handle.1 += 1;
                     }
+                    self.instruction_ptr[n_stack].1 = ip_handle.1; 
+                } else {
+                    self.instruction_ptr[n_stack].1 += 1;
                 }
-                self.instruction_ptr[n_stack].1 += 1;
             }
             Instruction::NewRecordRequest => {
                 self.database.create_record();
@@ -474,7 +492,7 @@ impl<'a> TestEnvironment<'a> {
             }
 
             match c {
-                c if c.is_whitespace() => {
+                ' ' => {
                     if buffer.len() > 0 {
                         let b = flush_buffer(buffer.as_str());
                         buffer.clear();
@@ -612,7 +630,12 @@ impl<'a> TestEnvironment<'a> {
                         buffer.push(*c);
                     }
 
-                    tokens.push(calc_tokens::Token::with_value(calc_tokens::TokenType::String, buffer.clone()));
+                    let size = buffer.chars()
+                        .filter(|c| c.is_alphanumeric())
+                        .collect::<Vec<_>>().len();
+                    if size > 0 {
+                        tokens.push(calc_tokens::Token::with_value(calc_tokens::TokenType::String, buffer.clone()));
+                    }
                     buffer.clear();
                 },
                 ':' => {
@@ -626,7 +649,7 @@ impl<'a> TestEnvironment<'a> {
                     while let Some(c) = &lex_iter.next() {
                         buffer.push(*c);
                         let peeked = lex_iter.peek();
-                        if peeked.is_none() || !(peeked.unwrap().is_alphanumeric() || *peeked.unwrap() == '_') {
+                        if peeked.is_none() || !peeked.unwrap().is_alphanumeric() {
                             break;
                         }
                     }
@@ -645,23 +668,6 @@ impl<'a> TestEnvironment<'a> {
             tokens.push(b.unwrap());
         }
 
-        /* Calculations from an fmp12 file keep their whitespace as extra literals next to the operands. */
-        let is_operand = |t: Option<&calc_tokens::Token>| matches!(t.map(|t| t.ttype),
-            Some(TokenType::Identifier | TokenType::NumericLiteral | TokenType::String));
-        let is_spacer = |t: &calc_tokens::Token| t.ttype == TokenType::String
-            && !t.value.chars().any(|c| c.is_alphanumeric());
-        let mut operands: Vec<calc_tokens::Token> = vec![];
-        for (i, token) in tokens.iter().enumerate() {
-            let before = operands.last();
-            let after = tokens.get(i + 1);
-            let fills_a_gap = !is_operand(before) && !before.is_some_and(|t| t.ttype == TokenType::CloseParen)
-                && !is_operand(after) && !after.is_some_and(|t| t.ttype == TokenType::OpenParen);
-            if !is_spacer(token) || fills_a_gap {
-                operands.push(token.clone());
-            }
-        }
-        let tokens = operands;
-
         // for t in &tokens {
         //     println!("{:?}", t);
         // }
@@ -686,32 +692,30 @@ impl<'a> TestEnvironment<'a> {
             }
         }
 
-        Operand {
-            otype: OperandType::Text,
-            value: val
-        }
-    }
-
-    fn get_variable_val(&self, name: &str) -> String {
-        let scope = self.instruction_ptr.len() - 1;
-        match self.variables[scope].get(name) {
-            Some(var) => var.value.clone(),
-            None => {
-                eprintln!("Unknown variable: {}", name);
-                String::new()
+        let fieldname = val.split("::").collect::<Vec<&str>>();
+        if fieldname.len() == 2 {
+            let val = self.database.get_found_set_record_field(fieldname[1]);
+            return self.get_operand_val(val);
+        } else {
+            let scope = self.instruction_ptr.len() - 1;
+            let var_val = self.variables[scope]
+                .get(val);
+
+            if var_val.is_none() {
+                eprintln!("Unknown variable: {}", val); 
+                return Operand {
+                    otype: OperandType::Text,
+                    value: ""
+                }
             }
+            return self.get_operand_val(&var_val.unwrap().value);
         }
-    }
 
-    fn get_field_val(&self, name: &str) -> String {
-        let parts : Vec<&str> = name.split("::").collect();
-        match self.database.get_current_record_by_table_field(parts[0], parts[1]) {
-            Ok(val) => val.to_string(),
-            Err(e) => {
-                eprintln!("Unable to read {}: {}", name, e);
-                String::new()
-            }
+        return Operand {
+            otype: OperandType::Text,
+            value: ""
         }
+
     }
 
     pub fn evaluate(&self, ast: Box<calc_eval::Node>) -> String {
@@ -763,7 +767,7 @@ impl<'a> TestEnvironment<'a> {
             calc_eval::Node::Call { name, args } => {
                 match name.as_str() {
                     "Abs" => { return (self.evaluate(args[0].clone())
-                        .parse::<f64>().expect("unable to perform Abs() on non-numeric")
+                        .parse::<f32>().expect("unable to perform Abs() on non-numeric")
                         .abs().to_string())}
                     "Acos" => { return (self.evaluate(args[0].clone()).parse::<f64>().unwrap().acos().to_string()) }
                     "Asin" => { return std::cmp::min(self.evaluate(args[0].clone()), self.evaluate(args[1].clone()))}
@@ -799,7 +803,7 @@ impl<'a> TestEnvironment<'a> {
                     },
                     "Get" => {
                         match *args[0] {
-                            calc_eval::Node::Variable(ref value) => {
+                            calc_eval::Node::Unary { ref value, ref child } => {
                                 match value.as_str() {
                                     "AccountName" => "\"Admin\"".to_string(),
                                     "CurrentTime" => Local::now().timestamp().to_string(),
@@ -868,16 +872,13 @@ impl<'a> TestEnvironment<'a> {
                 }
             },
             Node::Comparison { ref left, operation, ref right } => {
-                let lhs = self.evaluate(left.clone());
-                let rhs = self.evaluate(right.clone());
-                let order = database::compare_values(&lhs, &rhs);
                 match operation {
-                    TokenType::Eq => { (lhs == rhs).to_string() },
-                    TokenType::Neq => { (lhs != rhs).to_string() },
-                    TokenType::Gt => { (order == Ordering::Greater).to_string() },
-                    TokenType::Gtq => { (order != Ordering::Less).to_string() },
-                    TokenType::Lt => { (order == Ordering::Less).to_string() },
-                    TokenType::Ltq => { (order != Ordering::Greater).to_string() },
+                    TokenType::Eq => { (self.evaluate(left.clone()) == self.evaluate(right.clone())).to_string() },
+                    TokenType::Neq => { (self.evaluate(left.clone()) != self.evaluate(right.clone())).to_string() },
+                    TokenType::Gt => { (self.evaluate(left.clone()) > self.evaluate(right.clone())).to_string() },
+                    TokenType::Gtq => { (self.evaluate(left.clone()) >= self.evaluate(right.clone())).to_string() },
+                    TokenType::Lt => { (self.evaluate(left.clone()) < self.evaluate(right.clone())).to_string() },
+                    TokenType::Ltq => { (self.evaluate(left.clone()) <= self.evaluate(right.clone())).to_string() },
                     _ => unreachable!()
                 }
             }
@@ -889,8 +890,8 @@ impl<'a> TestEnvironment<'a> {
                 format!("\"{lhs}{rhs}\"")
             }
             Node::Number(val) => val.to_string(),
-            Node::Variable(val) => self.get_variable_val(&val),
-            Node::Field(val) => self.get_field_val(&val),
+            Node::Variable(val) => self.get_operand_val(&val).value.to_string(),
+            Node::Field(val) => self.get_operand_val(&val).value.to_string(),
             Node::StringLiteral(val) => val.to_string(),
             _ => unimplemented!()
         }
-- 
2.43.0


From c4c7d733181e9ad42514a616630931643297e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:42 +0000
Subject: [PATCH 34/46] fix: a directory continued in the next sector keeps
 what it holds

---
 src/decompile/decompiler.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 71a54be..cf1a6ff 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -361,10 +361,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Examing layouts */
                 ["4", "1", "7", x, ..] => {
                     if chunk.ctype == ChunkType::PathPush {
-                        fmp_file.layouts.insert(
-                            x.parse::<usize>().unwrap(),
-                            component::FMComponentLayout::new()
-                            );
+                        fmp_file.layouts.entry(x.parse::<usize>().unwrap())
+                            .or_insert(component::FMComponentLayout::new());
                         continue;
                     } else {
                         match chunk.ref_simple {
@@ -403,8 +401,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             }
                             fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128))
                                 .unwrap().fields
-                                    .insert(y.parse::<usize>().unwrap() as u16, 
-                                            component::FMComponentField::new());
+                                    .entry(y.parse::<usize>().unwrap() as u16)
+                                    .or_insert(component::FMComponentField::new());
                         } else {
                             let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                             // match chunk.ref_simple.unwrap_or(0) {
@@ -477,9 +475,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "16", "5", x] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     if chunk.ctype == ChunkType::PathPush {
-                        if !fmp_file.tables.contains_key(&x.parse().unwrap()) {
-                            fmp_file.tables.insert(x.parse::<usize>().unwrap() - 128, component::FMComponentTable::new());
-                        } 
+                        fmp_file.tables.entry(x.parse::<usize>().unwrap() - 128).or_insert(component::FMComponentTable::new());
                     } else {
                         match chunk.ref_simple.unwrap_or(0) {
                             metadata_constants::COMPONENT_NAME => { 
-- 
2.43.0


From 21d02d460cdb3cf8cb7389e381220f25e95733cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:22 +0000
Subject: [PATCH 35/46] fix: names that read as numbers, like inf, are names

---
 src/burn_script/lexer.rs | 3 ++-
 src/compile/lexer.rs     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index ab66d2e..cf9e47c 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -27,7 +27,8 @@ impl Lexer {
                 "else" => Token::new(TokenType::Else),
                 _ => {
                     let n = b.parse::<f64>();
-                    if n.is_ok() {
+                    /* Words like "inf" parse as numbers, but are names. */
+                    if n.is_ok() && !b.as_bytes()[0].is_ascii_alphabetic() {
                         Token::with_value(TokenType::NumericLiteral, b)
                     } else {
                         Token::with_value(TokenType::Identifier, b)
diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index e3c9c57..ebb88c2 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -34,7 +34,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             "end" => Ok(Token::new(TokenType::End)),
             _ => {
                 let n = b.parse::<f64>();
-                if n.is_ok() {
+                /* Words like "inf" parse as numbers, but are names. */
+                if n.is_ok() && !b.as_bytes()[0].is_ascii_alphabetic() {
                     Ok(Token::with_value(TokenType::NumericLiteral, n.unwrap().to_string()))
                 } else if !b.as_bytes()[0].is_ascii_digit() {
                     Ok(Token::with_value(TokenType::Identifier, b.to_string()))
-- 
2.43.0


From 53aba89cbb2e6647d544c7e6f81b55427f497f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:13 +0000
Subject: [PATCH 36/46] fix: a word that is no name does not swallow the next
 one

---
 src/compile/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index ebb88c2..f100ce3 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -92,8 +92,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                     let out = flush_buffer(b);
                     if out.is_ok() {
                         ret.push(out.unwrap());
-                    buffer.clear();
                     }
+                    buffer.clear();
                 }
                 ret
 
-- 
2.43.0


From 47d9bff1a039fec5c7642b8d8c3aca73c5dd80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:29 +0000
Subject: [PATCH 37/46] fix: a declaration that never ends is refused

---
 src/compile/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index c4a4c35..1163e84 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -26,7 +26,8 @@ impl Parser {
                     } else {
                         table.table_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of the source, expected \"end\".")?;
                         match n.ttype {
                             TokenType::End => 
                             {
@@ -52,7 +53,8 @@ impl Parser {
                     if parser_iter.peek().unwrap().ttype != TokenType::Colon {
                         return Err("Expected colon after \"relationship\" keyword.".to_string())
                     } 
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of the source, expected \"end\".")?;
                         match n.ttype {
                             TokenType::Identifier => {
                                 if parser_iter.peek().unwrap().ttype == TokenType::Colon {
@@ -90,7 +92,8 @@ impl Parser {
                     } else {
                         value_list.list_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of the source, expected \"end\".")?;
                         match n.ttype {
                             TokenType::End => 
                             {
@@ -141,7 +144,8 @@ impl Parser {
                     } else {
                         table_occurence.table_occurence_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut t) = parser_iter.next() {
+                    loop {
+                        let mut t = parser_iter.next().ok_or("Unexpected end of the source, expected \"end\".")?;
                         // println!("{:?}", t.ttype);
                         match t.ttype {
                             TokenType::Table => {
@@ -184,7 +188,8 @@ impl Parser {
                         test.test_name = parser_iter.next().unwrap().text.clone();
                     }
 
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of the source, expected \"end\".")?;
                         match n.ttype {
                             TokenType::Script => {
                                 if parser_iter.next().unwrap().ttype != TokenType::Colon {
-- 
2.43.0


From 0d6743f3ee09e0dd4dd4b950426a87f693e5a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:50 +0000
Subject: [PATCH 38/46] fix: a relationship without two named occurrences is
 refused

---
 src/compile/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index 1163e84..5bde412 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -61,6 +61,9 @@ impl Parser {
                                     relationship.table1_name = n.text.clone();
                                     parser_iter.next();
                                     let n = parser_iter.next().unwrap();
+                                    if n.ttype != TokenType::Identifier {
+                                        return Err("Expected identifier after \":\" in a relationship.".to_string());
+                                    }
                                     relationship.table2_name = n.text.clone();
                                 } else {
 
@@ -83,6 +86,9 @@ impl Parser {
                             }
                         }
                     }
+                    if relationship.table1_name.is_empty() {
+                        return Err("Expected the two table occurences of a relationship.".to_string());
+                    }
                     ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
-- 
2.43.0


From 31cff858532a845d912e03d773dc42328d655e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:51 +0000
Subject: [PATCH 39/46] fix: a script without a name, or a loop or else without
 its brace, is refused

---
 src/burn_script/parser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index 5e3e9ac..f7eed5d 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -29,9 +29,10 @@ impl Parser {
                 TokenType::Define => {
                     let mut tmp = FMComponentScript::new();
                     let peeked = parser_iter.next().unwrap();
-                    if peeked.ttype == TokenType::Identifier {
-                        tmp.script_name = peeked.value.clone();
+                    if peeked.ttype != TokenType::Identifier {
+                        return Err("Expected script name after \"define\".");
                     }
+                    tmp.script_name = peeked.value.clone();
 
                     /* Parse arguments to script */
                     while let Some(t) = parser_iter.next() {
@@ -126,8 +127,7 @@ impl Parser {
                             TokenType::Loop => {
                                 let check = parser_iter.next();
                                 if check.unwrap().ttype != TokenType::OpenBracket {
-                                    eprintln!("Expected '{{' after loop.");
-                                    break;
+                                    return Err("Expected '{' after loop.");
                                 }
                                 let step = ScriptStep {
                                     opcode: Instruction::Loop,
@@ -184,8 +184,7 @@ impl Parser {
                             TokenType::Else => {
                                 let check = parser_iter.next();
                                 if check.unwrap().ttype != TokenType::OpenBracket {
-                                    eprintln!("Expected '{{' after loop.");
-                                    break;
+                                    return Err("Expected '{' after else.");
                                 }
                                 let step = ScriptStep {
                                     opcode: Instruction::Else,
-- 
2.43.0


From cade56dc7bcb28c70eab073460c326689f179008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 40/46] fix: a script cut off by the end of its block is
 refused

---
 src/burn_script/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index f7eed5d..a380779 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -57,7 +57,8 @@ impl Parser {
                     }
 
                     /* Parse the instructions inside the script with their options */
-                    while let Some(t) = parser_iter.next() {
+                    loop {
+                        let t = parser_iter.next().ok_or("Unexpected end of script, expected '}'.")?;
                         match t.ttype {
                             TokenType::Identifier => {
                                 if let Ok(op) = Instruction::from_str(&t.value) {
@@ -67,7 +68,8 @@ impl Parser {
                                         switches: vec![],
                                     };
 
-                                    while let Some(t) = parser_iter.next() {
+                                    loop {
+                                        let t = parser_iter.next().ok_or("Unexpected end of script step.")?;
                                         match t.ttype {
                                             TokenType::Argument => {
                                                 step.switches.push(t.value.clone());
-- 
2.43.0


From 982a97af4798e4ac87e9c499e3654225041e98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:12 +0000
Subject: [PATCH 41/46] fix: an else or elif that continues no conditional is
 refused

---
 src/burn_script/parser.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index a380779..edb046d 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -56,6 +56,8 @@ impl Parser {
                         };
                     }
 
+                    let mut branch_closed = false;
+
                     /* Parse the instructions inside the script with their options */
                     loop {
                         let t = parser_iter.next().ok_or("Unexpected end of script, expected '}'.")?;
@@ -94,12 +96,14 @@ impl Parser {
                                     break;
                                 }
                                 let n = parser_iter.peek();
-                                if n.is_some() {
+                                if n.is_some() && *top.unwrap() == Instruction::If {
                                     match n.unwrap().ttype {
                                         TokenType::Else => {
+                                            branch_closed = true;
                                             continue;
                                         }
                                         TokenType::Elif => {
+                                            branch_closed = true;
                                             continue;
                                         }
                                         _ => {}
@@ -107,7 +111,7 @@ impl Parser {
                                 }
                                 let op: Instruction;
                                 match top.unwrap() {
-                                    Instruction::If => {
+                                    Instruction::If | Instruction::Else => {
                                         op = Instruction::EndIf;
                                     },
                                     Instruction::Loop => {
@@ -140,6 +144,10 @@ impl Parser {
                                 punc_stack.push(Instruction::Loop);
                             },
                             TokenType::Elif => {
+                                if !branch_closed {
+                                    return Err("Unexpected elif without a closed if branch.");
+                                }
+                                branch_closed = false;
                                 let mut step = ScriptStep {
                                     opcode: Instruction::ElseIf,
                                     index: 0,
@@ -184,6 +192,13 @@ impl Parser {
                                 punc_stack.push(Instruction::If);
                             },
                             TokenType::Else => {
+                                if !branch_closed {
+                                    return Err("Unexpected else without a closed if branch.");
+                                }
+                                branch_closed = false;
+                                /* No further branch may follow the else. */
+                                punc_stack.pop();
+                                punc_stack.push(Instruction::Else);
                                 let check = parser_iter.next();
                                 if check.unwrap().ttype != TokenType::OpenBracket {
                                     return Err("Expected '{' after else.");
-- 
2.43.0


From e41629b7d57dc4a2c56f2f51ac7efb80f778915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 42/46] fix: text outside of the scripts of a block is refused

---
 src/burn_script/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index edb046d..7fd42c0 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -218,7 +218,7 @@ impl Parser {
                     scripts.push(tmp);
                 },
                 _ => {
-                    eprintln!("Unrecognized token");
+                    return Err("Unrecognized token outside of a script.");
                 }
             }
         }
-- 
2.43.0


From 32a30bc76497f847832f4804cfe06c114733c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 43/46] fix: a script block that is never closed is refused

---
 src/compile/lexer.rs  | 20 ++++++++++++--------
 src/compile/parser.rs |  4 ++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index f100ce3..d7f0ef8 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -1,20 +1,21 @@
 
 use crate::compile::token::*;
 
-/* The text up to the given delimiter, which is consumed. It does not count inside a quoted string. */
-fn take_until(iter: &mut impl Iterator<Item = (usize, char)>, end: char) -> String {
+/* The text up to the given delimiter, which is consumed, and whether it was found.
+ * It does not count inside a quoted string. */
+fn take_until(iter: &mut impl Iterator<Item = (usize, char)>, end: char) -> (String, bool) {
     let mut text = String::new();
     let mut in_string = false;
     for (_, c) in iter {
         if c == end && !in_string {
-            break;
+            return (text, true);
         }
         if c == '"' {
             in_string = !in_string;
         }
         text.push(c);
     }
-    text
+    (text, false)
 }
 
 pub fn tokenize(code: &str) -> Vec<Token> {
@@ -131,8 +132,11 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 }
                 ret.push(Token::new(TokenType::OpenSquare));
                 if list.last().map_or(true, |t| t.ttype != TokenType::FoundIn) {
-                    ret.push(Token::with_value(TokenType::Script, take_until(&mut lex_iter, ']')));
-                    ret.push(Token::new(TokenType::CloseSquare));
+                    let (text, closed) = take_until(&mut lex_iter, ']');
+                    ret.push(Token::with_value(TokenType::Script, text));
+                    if closed {
+                        ret.push(Token::new(TokenType::CloseSquare));
+                    }
                 }
                 ret
             },
@@ -193,7 +197,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                     }
                     buffer.clear();
                 }
-                ret.push(Token::with_value(TokenType::String, take_until(&mut lex_iter, '"')));
+                ret.push(Token::with_value(TokenType::String, take_until(&mut lex_iter, '"').0));
                 ret
             },
             '!' =>  
@@ -220,7 +224,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                     buffer.clear();
                 }
                 ret.push(Token::new(TokenType::OpenCurly));
-                ret.push(Token::with_value(TokenType::Calculation, take_until(&mut lex_iter, '}')));
+                ret.push(Token::with_value(TokenType::Calculation, take_until(&mut lex_iter, '}').0));
                 ret
             },
             '}' => {
diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index 5bde412..3e51de7 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -138,8 +138,8 @@ impl Parser {
                         ret.scripts.insert(ret.scripts.len() + 1, s);
                     }
 
-                    let next = parser_iter.next().unwrap();
-                    if next.ttype != TokenType::CloseSquare {
+                    let next = parser_iter.next();
+                    if next.map_or(true, |n| n.ttype != TokenType::CloseSquare) {
                         return Err("Please end BurnScript block with \"]\"".to_string());
                     }
                 },
-- 
2.43.0


From 55f53e1f4e51627f87ba1e175382f2113dbddd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 44/46] fix: a word that is no name, or the last word of a
 source, is not ignored

---
 src/burn_script/lexer.rs | 4 ++++
 src/compile/lexer.rs     | 8 +++++++-
 src/compile/token.rs     | 1 +
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index cf9e47c..04cfe84 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -281,6 +281,10 @@ impl Lexer {
             }
         }
 
+        if !buffer.is_empty() {
+            result.push(flush_buffer(&buffer));
+        }
+
         return result;
     }
 }
diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index d7f0ef8..c225c5f 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -41,7 +41,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 } else if !b.as_bytes()[0].is_ascii_digit() {
                     Ok(Token::with_value(TokenType::Identifier, b.to_string()))
                 } else {
-                    Err("Invalid Identifier".to_string())
+                    Ok(Token::with_value(TokenType::Invalid, b.to_string()))
                 }
             }
         }
@@ -292,6 +292,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
         }
     }
 
+    if !buffer.is_empty() {
+        if let Ok(t) = flush_buffer(&buffer) {
+            list.push(t);
+        }
+    }
+
     return list;
 
 }
diff --git a/src/compile/token.rs b/src/compile/token.rs
index a0800df..cdb0469 100644
--- a/src/compile/token.rs
+++ b/src/compile/token.rs
@@ -41,6 +41,7 @@ pub enum TokenType {
     Context,
     String,
     NumericLiteral,
+    Invalid,
     EOF,
 }
 
-- 
2.43.0


From 5b699b3585f5eb3adb107955d6f9716e8c8e3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:13 +0000
Subject: [PATCH 45/46] fix: content below a script's or layout's own directory
 is not its own

---
 src/decompile/decompiler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index cf1a6ff..1d8e53b 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -359,7 +359,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                 },
                 /* Examing layouts */
-                ["4", "1", "7", x, ..] => {
+                ["4", "1", "7", x] => {
                     if chunk.ctype == ChunkType::PathPush {
                         fmp_file.layouts.entry(x.parse::<usize>().unwrap())
                             .or_insert(component::FMComponentLayout::new());
@@ -587,7 +587,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     //     println!("{:?}", i);
                     // }
                 },
-                ["17", "5", x, ..] => {
+                ["17", "5", x] => {
                     if chunk.ctype == ChunkType::PathPop 
                         || chunk.ctype == ChunkType::PathPush {
                         continue;
@@ -658,7 +658,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
                 },
                 /* Examining script metadata */
-                ["17", "1", x, y, ..] => {
+                ["17", "1", x, y] => {
                     if chunk.ctype == ChunkType::PathPush 
                         || chunk.ctype == ChunkType::PathPop {
                         continue;
-- 
2.43.0


From 8f302b4402fac9c187508e26114965fb754f6deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:40 +0000
Subject: [PATCH 46/46] fix: a file in which a script's content comes before
 its name could not be read

---
 src/decompile/decompiler.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 1d8e53b..9325f24 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -218,8 +218,7 @@ fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: &BTreeMap<us
             let mut switch: Vec<String> = vec![];
             match op {
                 Some(Instruction::PerformScript) => {
-                    let target = fmp_file.scripts.get(&(instr[8] as usize));
-                    switch.push(format!("\"{}\"", target.map_or("", |s| &s.script_name)));
+                    switch.push(instr[8].to_string());
                 },
                 _ => {}
             }
@@ -287,6 +286,17 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                             &mut path, 
                                             start).expect("Unable to decode chunk.");
 
+            /* The content of a script may come before its name. */
+            if let ["17", "5", script, ..] = path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
+                fmp_file.scripts.entry(script.parse().unwrap()).or_insert_with(|| component::FMComponentScript {
+                    script_name: String::new(),
+                    instructions: vec![],
+                    create_by_user: String::new(),
+                    arguments: Vec::new(),
+                    created_by_account: String::new(),
+                });
+            }
+
             /* The steps of a script come before their parameters. */
             if let ["17", "5", script, "5", ..] = path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
                 let script = script.parse().unwrap();
@@ -602,8 +612,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     let mut switch: Vec<String> = vec![];
                                     match oc {
                                         Some(Instruction::PerformScript) => {
-                                            let target = fmp_file.scripts.get(&(ins[8] as usize));
-                                            switch.push(format!("\"{}\"", target.map_or("", |s| &s.script_name)));
+                                            switch.push(ins[8].to_string());
                                         },
                                         _ => {}
                                     }
@@ -631,8 +640,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                         let mut switch: Vec<String> = vec![];
                                         match oc {
                                             Some(Instruction::PerformScript) => {
-                                                let target = fmp_file.scripts.get(&(ins[8] as usize));
-                                                switch.push(format!("\"{}\"", target.map_or("", |s| &s.script_name)));
+                                                switch.push(ins[8].to_string());
                                             },
                                             _ => {}
                                         }
@@ -751,6 +759,15 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     for (script, segments) in &script_segments {
         assemble_script(&mut fmp_file, *script, segments);
     }
+    /* A script may be performed by one that comes before it. */
+    let names: HashMap<String, String> = fmp_file.scripts.iter()
+        .map(|(id, script)| (id.to_string(), script.script_name.clone()))
+        .collect();
+    for step in fmp_file.scripts.values_mut().flat_map(|script| script.instructions.iter_mut()) {
+        if step.opcode == Instruction::PerformScript {
+            step.switches[0] = format!("\"{}\"", names.get(&step.switches[0]).map_or("", |s| s.as_str()));
+        }
+    }
     // for script in &fmp_file.scripts {
     //     println!("{:?}", script.1.script_name);
     //     for step in &script.1.instructions {
-- 
2.43.0

