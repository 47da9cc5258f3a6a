From 65176e1279d384531844c67d98651fd9b40d0f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 01/54] fix: $ne must negate the equality test

The $ne operator emitted the same code as $eq, so it matched exactly the
documents it should exclude.
---
 src/polodb_core/vm/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 5a9374d..c075ed0 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -761,7 +761,7 @@ impl Codegen {
 
                 let stat_val_id = self.push_static(sub_value.clone());
                 self.emit_push_value(stat_val_id);
-                self.emit_logical(DbOp::Equal, is_in_not);
+                self.emit_logical(DbOp::Equal, !is_in_not);
 
                 // if equal，go to next
                 self.emit_goto(DbOp::IfFalse, not_found_label);
-- 
2.43.0


From d242219bebcbfd4124c3081ac4c3599b3a75b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 02/54] fix: $or and empty operands combined with further
 predicates

A matching $or jumped over every predicate emitted after it and a failing one
fell through into them; empty $or/$and/{} operands left the result register
untouched.
---
 src/polodb_core/vm/codegen.rs | 76 ++++++++++++++++++++++++++++++-----
 1 file changed, 67 insertions(+), 9 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index c075ed0..24911cc 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -296,7 +296,7 @@ impl Codegen {
 
         self.emit_label_with_name(compare_fun, "compare_function");
 
-        self.emit_standard_query_doc(query, result_label, compare_fun_clean)?;
+        self.emit_standard_query_doc(query, result_label, compare_fun_clean, true)?;
 
         self.emit_label_with_name(compare_fun_clean, "compare_function_clean");
         self.emit_ret(0);
@@ -437,20 +437,31 @@ impl Codegen {
         Ok(())
     }
 
+    // `is_tail` tells that nothing is emitted between this predicate and the
+    // end of the enclosing compare function, so that jumping to
+    // `not_found_label` with r0 set means "matched".
     fn emit_standard_query_doc(
         &mut self,
         query_doc: &Document,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         if query_doc.is_empty() {
             self.emit(DbOp::StoreR0_2);
             self.emit_u8(1);
             return Ok(());
         }
-        for (key, value) in query_doc.iter() {
+        let last = query_doc.len() - 1;
+        for (index, (key, value)) in query_doc.iter().enumerate() {
             crate::path_hint!(self, key.clone(), {
-                self.emit_query_tuple(key, value, result_label, not_found_label)?;
+                self.emit_query_tuple(
+                    key,
+                    value,
+                    result_label,
+                    not_found_label,
+                    is_tail && index == last,
+                )?;
             });
         }
 
@@ -478,19 +489,42 @@ impl Codegen {
         arr: &Array,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
+        if arr.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(1);
+            return Ok(());
+        }
+        let last = arr.len() - 1;
         for (index, item_doc_value) in arr.iter().enumerate() {
             let path_msg = format!("[{}]", index);
             crate::path_hint!(self, path_msg, {
                 let item_doc = crate::try_unwrap_document!("$and", item_doc_value);
-                self.emit_standard_query_doc(item_doc, result_label, not_found_label)?;
+                self.emit_standard_query_doc(
+                    item_doc,
+                    result_label,
+                    not_found_label,
+                    is_tail && index == last,
+                )?;
             });
         }
 
         Ok(())
     }
 
-    fn emit_logic_or(&mut self, arr: &Array, ret_label: Label) -> Result<()> {
+    fn emit_logic_or(
+        &mut self,
+        arr: &Array,
+        not_found_label: Label,
+        is_tail: bool,
+    ) -> Result<()> {
+        if arr.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(0);
+            self.emit_goto(DbOp::Goto, not_found_label);
+            return Ok(());
+        }
         let cmp_label = self.new_label();
         self.emit_goto(DbOp::Goto, cmp_label);
 
@@ -504,7 +538,7 @@ impl Codegen {
                 let ret_label = self.new_label();
 
                 self.emit_label(query_label);
-                self.emit_standard_query_doc(item_doc, ret_label, ret_label)?;
+                self.emit_standard_query_doc(item_doc, ret_label, ret_label, true)?;
 
                 self.emit_label(ret_label);
                 self.emit_ret(0);
@@ -514,11 +548,24 @@ impl Codegen {
         }
 
         self.emit_label(cmp_label);
+        if is_tail {
+            for fun in functions {
+                self.emit_goto(DbOp::Call, fun);
+                self.emit_u32(0);
+                self.emit_goto(DbOp::IfTrue, not_found_label);
+            }
+            return Ok(());
+        }
+
+        // there are predicates left: only go on with them if one branch matched
+        let matched_label = self.new_label();
         for fun in functions {
             self.emit_goto(DbOp::Call, fun);
             self.emit_u32(0);
-            self.emit_goto(DbOp::IfTrue, ret_label);
+            self.emit_goto(DbOp::IfTrue, matched_label);
         }
+        self.emit_goto(DbOp::Goto, not_found_label);
+        self.emit_label(matched_label);
 
         Ok(())
     }
@@ -531,17 +578,23 @@ impl Codegen {
         value: &Bson,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         if key.starts_with('$') {
             match key {
                 "$and" => {
                     let sub_arr = crate::try_unwrap_array!("$and", value);
-                    self.emit_logic_and(sub_arr.as_ref(), result_label, not_found_label)?;
+                    self.emit_logic_and(
+                        sub_arr.as_ref(),
+                        result_label,
+                        not_found_label,
+                        is_tail,
+                    )?;
                 }
 
                 "$or" => {
                     let sub_arr = crate::try_unwrap_array!("$or", value);
-                    self.emit_logic_or(sub_arr.as_ref(), not_found_label)?;
+                    self.emit_logic_or(sub_arr.as_ref(), not_found_label, is_tail)?;
                 }
 
                 _ => {
@@ -869,6 +922,11 @@ impl Codegen {
         is_in_not: bool,
         not_found_label: Label,
     ) -> Result<()> {
+        if value.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(1);
+            return Ok(());
+        }
         for (sub_key, sub_value) in value.iter() {
             crate::path_hint!(self, sub_key.clone(), {
                 self.emit_query_tuple_document_kv(
-- 
2.43.0


From e943299f7a79babfd2855a0af012e748f283f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:31 +0000
Subject: [PATCH 03/54] fix: _id lookups must evaluate residual operators and
 flush the pipeline

With an _id literal in the filter, the other predicates were compared literally
(so {_id: 1, b: {$gt: 3}} never matched), and neither the _id nor the index
layout notified the aggregation stages of the end of the input, so $count,
$group and $sort after such a $match returned nothing.
---
 src/polodb_core/vm/codegen.rs | 83 ++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 21 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 24911cc..3cc2941 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -42,6 +42,8 @@ use bson::{Array, Binary, Bson, Document};
 const JUMP_TABLE_DEFAULT_SIZE: usize = 8;
 const PATH_DEFAULT_SIZE: usize = 8;
 
+type BeforeClose = Box<dyn FnOnce(&mut Codegen) -> Result<()>>;
+
 fn is_in_literal_dollar_document(document: &Document) -> bool {
     document.contains_key("$ref") && document.contains_key("$id")
 }
@@ -167,6 +169,7 @@ impl Codegen {
         pkey: Bson,
         query: &Document,
         result_callback: F,
+        before_close: Option<BeforeClose>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -183,14 +186,41 @@ impl Codegen {
 
         self.emit_label(close_label);
         self.emit(DbOp::Pop);
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
         self.emit_label(result_label);
-        for (key, value) in query.iter() {
-            if key == "_id" {
-                continue;
-            }
+
+        let mut residual = query.clone();
+        residual.remove("_id");
+        if residual.iter().any(|(key, value)| {
+            key.starts_with('$') || matches!(value, Bson::Document(_) | Bson::Array(_))
+        }) {
+            // operators can not be compared with the fields literally
+            let compare_fun = self.new_label();
+            let compare_fun_clean = self.new_label();
+
+            self.emit(DbOp::Dup);
+            self.emit_goto(DbOp::Call, compare_fun);
+            self.emit_u32(1);
+            self.emit_goto(DbOp::IfFalse, close_label);
+
+            result_callback(self)?;
+
+            self.emit_goto(DbOp::Goto, close_label);
+
+            self.emit_label_with_name(compare_fun, "compare_function");
+            self.emit_standard_query_doc(&residual, result_label, compare_fun_clean, true)?;
+            self.emit_label_with_name(compare_fun_clean, "compare_function_clean");
+            self.emit_ret(0);
+
+            return Ok(());
+        }
+
+        for (key, value) in residual.iter() {
 
             let key_static_id = self.push_static(Bson::String(key.clone()));
             let value_static_id = self.push_static(value.clone());
@@ -218,28 +248,26 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-        before_close: Option<Box<dyn FnOnce(&mut Codegen) -> Result<()>>>,
+        before_close: Option<BeforeClose>,
         is_many: bool,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
-        let try_pkey_result = self.try_query_by_pkey(col_spec, query, result_callback)?;
-        if try_pkey_result.is_none() {
+        let try_pkey_result =
+            self.try_query_by_pkey(col_spec, query, result_callback, before_close)?;
+        let Some((result_callback, before_close)) = try_pkey_result else {
             return Ok(());
-        }
-
-        let result_callback: F = try_pkey_result.unwrap();
+        };
 
-        let try_index_result = self.try_query_by_index(col_spec, query, result_callback)?;
-        if try_index_result.is_none() {
+        let try_index_result =
+            self.try_query_by_index(col_spec, query, result_callback, before_close)?;
+        let Some((result_callback, before_close)) = try_index_result else {
             return Ok(());
-        }
+        };
 
         self.emit_open(col_spec._id.clone().into());
 
-        let result_callback: F = try_index_result.unwrap();
-
         let compare_fun = self.new_label();
         let compare_fun_clean = self.new_label();
         let compare_label = self.new_label();
@@ -309,19 +337,25 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: Option<BeforeClose>,
+    ) -> Result<Option<(F, Option<BeforeClose>)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if let Some(id_value) = query.get("_id") {
             if id_value.element_type() != ElementType::EmbeddedDocument {
                 self.emit_open(col_spec._id.clone().into());
-                self.emit_query_layout_has_pkey(id_value.clone(), query, result_callback)?;
+                self.emit_query_layout_has_pkey(
+                    id_value.clone(),
+                    query,
+                    result_callback,
+                    before_close,
+                )?;
                 return Ok(None);
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn try_query_by_index<F>(
@@ -329,12 +363,13 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: Option<BeforeClose>,
+    ) -> Result<Option<(F, Option<BeforeClose>)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if self.is_write {
-            return Ok(Some(result_callback));
+            return Ok(Some((result_callback, before_close)));
         }
 
         let index_meta = &col_spec.indexes;
@@ -355,13 +390,14 @@ impl Codegen {
                         query_doc,
                         &remain_query,
                         result_callback,
+                        before_close,
                     )?;
                     return Ok(None);
                 }
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn indeed_emit_query_by_index<F>(
@@ -371,6 +407,7 @@ impl Codegen {
         query_value: &Bson,
         remain_query: &Document,
         result_callback: F,
+        before_close: Option<BeforeClose>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -411,6 +448,10 @@ impl Codegen {
         self.emit(DbOp::Pop); // pop the collection name
         self.emit(DbOp::Pop); // pop the query value
 
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
+
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
-- 
2.43.0


From 408073b943ea0f652a525c5f509ae1d2044e2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 04/54] fix: a query must return the same documents with and
 without an index

The index lookup stopped at the first entry rejected by another predicate,
compared operators literally, and missed numbers of another numeric type which
compare equal in a scan.
---
 src/polodb_core/db/db_inner.rs | 31 ++++++++++++----
 src/polodb_core/utils/bson.rs  | 41 +++++++++++++++++++++
 src/polodb_core/vm/vm.rs       | 67 ++++++++++++++++------------------
 3 files changed, 97 insertions(+), 42 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 44c62d2..44064d9 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -836,6 +836,16 @@ impl DatabaseInner {
         Ok(result)
     }
 
+    /// An index answers a single equality. Its layout stops at the first entry
+    /// which a further predicate rejects, so any other query scans.
+    fn retain_usable_indexes(col_spec: &mut CollectionSpecification, query: &Document) {
+        let usable = query.len() == 1
+            && query.values().all(crate::utils::bson::is_index_searchable);
+        if !usable {
+            col_spec.indexes.clear();
+        }
+    }
+
     pub fn find_with_owned_session<T: DeserializeOwned + Send + Sync>(
         &self,
         col_name: &str,
@@ -850,13 +860,16 @@ impl DatabaseInner {
             &txn,
         )?;
         let subprogram = match meta_opt {
-            Some(col_spec) => {
+            Some(mut col_spec) => {
                 match filter_query {
-                    Some(query) => SubProgram::compile_query(
-                        &col_spec,
-                        &query,
-                        true
-                    ),
+                    Some(query) => {
+                        DatabaseInner::retain_usable_indexes(&mut col_spec, &query);
+                        SubProgram::compile_query(
+                            &col_spec,
+                            &query,
+                            true
+                        )
+                    },
                     None => SubProgram::compile_query_all(&col_spec, true),
                 }?
             }
@@ -938,7 +951,11 @@ impl DatabaseInner {
         DatabaseInner::validate_col_name(col_name)?;
         let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, false, &txn)?;
         let subprogram = match meta_opt {
-            Some(col_spec) => {
+            Some(mut col_spec) => {
+                let pipeline: Vec<Document> = pipeline.into_iter().collect();
+                if let Some(Ok(query)) = pipeline.first().map(|stage| stage.get_document("$match")) {
+                    DatabaseInner::retain_usable_indexes(&mut col_spec, query);
+                }
                 SubProgram::compile_aggregate(
                     &col_spec,
                     pipeline,
diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index a5cd629..a2d4fae 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 use std::cmp::Ordering;
+use std::convert::TryFrom;
 use std::io::{BufRead, Read, Write};
 use bson::{Bson, DateTime, Decimal128, Document, Timestamp};
 use bson::oid::ObjectId;
@@ -174,6 +175,46 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
     Ok(result)
 }
 
+/// The indexed values which `value_cmp` holds equal to `value`: the index keys
+/// are typed, while numbers compare across the numeric types.
+pub fn equal_index_values(value: &Bson) -> Vec<Bson> {
+    let int = match value {
+        Bson::Int32(i) => *i as i64,
+        Bson::Int64(i) => *i,
+        Bson::Double(d) => {
+            let int = *d as i64;
+            if (int as f64).total_cmp(d) != Ordering::Equal {
+                return vec![value.clone()];
+            }
+            int
+        }
+        _ => return vec![value.clone()],
+    };
+
+    let mut result = vec![Bson::Int64(int), Bson::Double(int as f64)];
+    if let Ok(int) = i32::try_from(int) {
+        result.push(Bson::Int32(int));
+    }
+    result
+}
+
+/// Whether an equality with `value` can be answered by an index: the value must
+/// be comparable with itself, and `equal_index_values` must be exhaustive.
+pub fn is_index_searchable(value: &Bson) -> bool {
+    match value {
+        // several Int64 compare equal to one Double out of this range
+        Bson::Double(d) => d.is_nan() || d.is_infinite() || d.abs() < 9007199254740992.0,
+        Bson::Null
+        | Bson::Boolean(_)
+        | Bson::Int32(_)
+        | Bson::Int64(_)
+        | Bson::String(_)
+        | Bson::DateTime(_)
+        | Bson::ObjectId(_) => true,
+        _ => false,
+    }
+}
+
 pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
     match (a, b) {
         (Bson::Null, Bson::Null) => Ok(Ordering::Equal),
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index bc1fa9c..8f565e0 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -75,7 +75,7 @@ pub(crate) struct VM {
     frames: Vec<VMFrame>,
     pub(crate) program: SubProgram,
     global_vars: Vec<Bson>,
-    index_value: Option<Bson>,
+    index_values: Vec<Bson>,
     metrics: Metrics,
 }
 
@@ -105,7 +105,7 @@ impl VM {
             frames: vec![VMFrame::default()],
             program,
             global_vars,
-            index_value: None,
+            index_values: Vec::new(),
             metrics,
         }
     }
@@ -180,29 +180,34 @@ impl VM {
         // let col_name = self.stack[stack_len - 1].as_str().expect("col_name must be string").to_string();
         let query_value = &self.stack[stack_len - 2];
 
-        let cursor = self.r1.as_mut().unwrap();
-        let result = cursor.reset_by_index_value(query_value)?;
-        self.index_value = Some(query_value.clone());
-
-        if !result {
-            return Ok(false);
-        }
-
-        let key = cursor.peek_key().expect("key must exist");
+        self.index_values = crate::utils::bson::equal_index_values(query_value);
 
-        let index_value = self.read_index_value_by_index_key(key.as_ref())?;
-
-        if index_value.is_none() {
+        if !self.seek_index_value()? {
             return Ok(false);
         }
 
-        self.stack.push(index_value.unwrap());
-
         self.metrics.add_find_by_index_count();
 
         Ok(true)
     }
 
+    /// Position the cursor on the first entry of the first remaining index
+    /// value which has one, and push its document.
+    fn seek_index_value(&mut self) -> Result<bool> {
+        while let Some(index_value) = self.index_values.first() {
+            let cursor = self.r1.as_mut().unwrap();
+            if cursor.reset_by_index_value(index_value)? {
+                let key = cursor.peek_key().expect("key must exist");
+                if let Some(doc) = self.read_index_value_by_index_key(key.as_ref())? {
+                    self.stack.push(doc);
+                    return Ok(true);
+                }
+            }
+            self.index_values.remove(0);
+        }
+        Ok(false)
+    }
+
     fn read_index_value_by_index_key(&mut self, index_key: &[u8]) -> Result<Option<Bson>> {
         let slices = crate::utils::bson::split_stacked_keys(index_key)?;
         let pkey = slices.last().expect("pkey must exist");
@@ -257,32 +262,24 @@ impl VM {
     fn next_index_value(&mut self) -> Result<()> {
         let cursor = self.r1.as_mut().unwrap();
         cursor.next()?;
-        let current_key = cursor.peek_key();
-        if current_key.is_none() {
-            self.r0 = 0;
-            return Ok(());
-        }
 
-        let index_value = self.index_value.as_ref().expect("index_value must exist");
+        let index_value = self.index_values.first().expect("index_value must exist");
 
         let key_buffer =
             make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?;
 
-        let current_key = current_key.unwrap();
-        if !current_key.starts_with(key_buffer.as_slice()) {
-            self.r0 = 0;
-            return Ok(());
-        }
-
-        let value_opt = self.read_index_value_by_index_key(current_key.as_ref())?;
-        if value_opt.is_none() {
-            self.r0 = 0;
-            return Ok(());
+        if let Some(current_key) = cursor.peek_key() {
+            if current_key.starts_with(key_buffer.as_slice()) {
+                if let Some(doc) = self.read_index_value_by_index_key(current_key.as_ref())? {
+                    self.stack.push(doc);
+                    self.r0 = 1;
+                    return Ok(());
+                }
+            }
         }
 
-        self.stack.push(value_opt.unwrap());
-
-        self.r0 = 1;
+        self.index_values.remove(0);
+        self.r0 = i32::from(self.seek_index_value()?);
 
         Ok(())
     }
-- 
2.43.0


From 700e7f014d59328f27c1ef9585ae358765a1ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 05/54] fix: pipeline stages must not forward the end-of-input
 marker

Every stage is told about the end of the input on its own. $skip, $limit,
$addFields, $unset and an empty $sort also passed the marker on, and an
exhausted $limit passed it for every further document, so the stages behind them
completed early or more than once.
---
 src/polodb_core/vm/vm_add_fields.rs |  2 +-
 src/polodb_core/vm/vm_limit.rs      |  4 ++--
 src/polodb_core/vm/vm_skip.rs       |  2 +-
 src/polodb_core/vm/vm_sort.rs       | 16 ++++++----------
 src/polodb_core/vm/vm_unset.rs      |  2 +-
 5 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/vm/vm_add_fields.rs b/src/polodb_core/vm/vm_add_fields.rs
index 58a3b9f..b4ce2fb 100644
--- a/src/polodb_core/vm/vm_add_fields.rs
+++ b/src/polodb_core/vm/vm_add_fields.rs
@@ -70,7 +70,7 @@ impl VmExternalFunc for VmFuncAddFields {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 54285fb..6e21b2a 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -49,11 +49,11 @@ impl VmExternalFunc for VmFuncLimit {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
-            0 => Ok(VmExternalFuncStatus::Next(Bson::Null)),
+            0 => Ok(VmExternalFuncStatus::Continue),
             _ => {
                 self.remain.fetch_sub(1, Ordering::Relaxed);
                 Ok(VmExternalFuncStatus::Next(args[0].clone()))
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 6a08003..0215739 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -49,7 +49,7 @@ impl VmExternalFunc for VmFuncSkip {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index a722904..bafeb48 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -102,16 +102,12 @@ impl VmExternalFunc for VmFuncSort {
             }
             Bson::Null => {
                 self.sort_array();
-                let next = {
-                    let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-                    let buffer = self.buffer.borrow();
-                    if idx >= buffer.len() {
-                        Bson::Null
-                    } else {
-                        buffer[idx].clone().into()
-                    }
-                };
-                Ok(VmExternalFuncStatus::Next(next))
+                let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+                let buffer = self.buffer.borrow();
+                match buffer.get(idx) {
+                    Some(doc) => Ok(VmExternalFuncStatus::Next(doc.clone().into())),
+                    None => Ok(VmExternalFuncStatus::Continue),
+                }
             }
             _ => {
                 Err(Error::ValidationError("Invalid sort value".into()))
diff --git a/src/polodb_core/vm/vm_unset.rs b/src/polodb_core/vm/vm_unset.rs
index 1b2126e..b41461c 100644
--- a/src/polodb_core/vm/vm_unset.rs
+++ b/src/polodb_core/vm/vm_unset.rs
@@ -57,7 +57,7 @@ impl VmExternalFunc for VmFuncUnset {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
-- 
2.43.0


From 4ef971a485f2f6fde97d1955b48ff0b1905591dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 06/54] fix: $sort must honour the order of its keys and not
 panic

The sort keys were kept in a HashMap, so a sort by several keys used them in a
random order; values which can not be compared (or mixed numbers and strings,
for which the comparison was not a total order) panicked.
---
 src/polodb_core/vm/vm_sort.rs | 48 +++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index bafeb48..e6e2b19 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -13,31 +13,32 @@
 // limitations under the License.
 
 use std::cell::RefCell;
-use std::collections::HashMap;
 use std::sync::atomic::AtomicUsize;
 use bson::{Bson, Document};
+use bson::spec::ElementType;
 use crate::vm::vm_external_func::{VmExternalFunc, VmExternalFuncStatus};
 use crate::{Result, Error};
 use crate::errors::mk_invalid_aggregate_field;
 
 pub(crate) struct VmFuncSort {
-    order_map: HashMap<String, i8>,
+    /// in the order given by the user: the first key is the major one
+    orders: Vec<(String, i8)>,
     buffer: RefCell<Vec<Document>>,
     idx: AtomicUsize,
 }
 
 impl VmFuncSort {
     pub(crate) fn compile(paths: &mut Vec<String>, val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
-        let order_map = match val {
+        let orders = match val {
             Bson::Document(doc) => {
-                let mut result = HashMap::default();
+                let mut result = Vec::with_capacity(doc.len());
                 for (k, v) in doc.iter() {
                     let order = match v {
                         Bson::Int32(val) => *val as i8,
                         Bson::Int64(val) => *val as i8,
                         _ => return Err(Error::ValidationError("Invalid sort value".into()))
                     };
-                    result.insert(k.clone(), order);
+                    result.push((k.clone(), order));
                 }
                 result
             }
@@ -47,7 +48,7 @@ impl VmFuncSort {
             }
         };
         let result = VmFuncSort {
-            order_map,
+            orders,
             buffer: RefCell::new(Vec::default()),
             idx: AtomicUsize::new(0),
         };
@@ -62,15 +63,38 @@ impl VmFuncSort {
         }
     }
 
-    fn sort_array(&self) {
+    fn type_rank(val: &Bson) -> u8 {
+        match val {
+            Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) => ElementType::Double as u8,
+            _ => val.element_type() as u8,
+        }
+    }
+
+    // `value_cmp` orders values of different types by their type, but numbers
+    // by their value: all numbers need one rank for this to be a total order.
+    fn sort_cmp(a: &Bson, b: &Bson) -> Result<std::cmp::Ordering> {
+        match Self::type_rank(a).cmp(&Self::type_rank(b)) {
+            std::cmp::Ordering::Equal => Ok(crate::utils::bson::value_cmp(a, b)?),
+            ord => Ok(ord),
+        }
+    }
+
+    fn sort_array(&self) -> Result<()> {
         let mut array = self.buffer.borrow_mut();
+        let mut error = None;
         array.sort_by(|a, b| {
-            for (k, v) in self.order_map.iter() {
+            for (k, v) in self.orders.iter() {
                 let a_val = a.get(k);
                 let b_val = b.get(k);
                 match (a_val, b_val) {
                     (Some(a_val), Some(b_val)) => {
-                        let result =  crate::utils::bson::value_cmp(a_val, b_val).expect("Invalid sort value");
+                        let result = match Self::sort_cmp(a_val, b_val) {
+                            Ok(result) => result,
+                            Err(err) => {
+                                error.get_or_insert(err);
+                                std::cmp::Ordering::Equal
+                            }
+                        };
                         match result {
                             std::cmp::Ordering::Equal => continue,
                             std::cmp::Ordering::Less => return Self::i8_to_ordering(*v),
@@ -84,6 +108,10 @@ impl VmFuncSort {
             }
             std::cmp::Ordering::Equal
         });
+        match error {
+            Some(err) => Err(err),
+            None => Ok(()),
+        }
     }
 }
 
@@ -101,7 +129,7 @@ impl VmExternalFunc for VmFuncSort {
                 Ok(VmExternalFuncStatus::Continue)
             }
             Bson::Null => {
-                self.sort_array();
+                self.sort_array()?;
                 let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                 let buffer = self.buffer.borrow();
                 match buffer.get(idx) {
-- 
2.43.0


From f67f223f0549643a7185e0ba92fe16a5a7db360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 07/54] fix: an update must be written if any of its operators
 changed the document

Only the last operator decided, so {$set: .., $max: no-op} lost the $set and
left index entries of a document which was never stored.
---
 src/polodb_core/vm/vm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 8f565e0..f105738 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -952,7 +952,10 @@ impl VM {
 
                         let result = try_vm!(self, operator.update(self.stack.last_mut().unwrap()));
 
-                        self.r0 = if result.updated { 1 } else { 0 };
+                        // r0 is cleared before the first operator
+                        if result.updated {
+                            self.r0 = 1;
+                        }
 
                         self.pc = self.pc.add(5);
                     }
-- 
2.43.0


From 11524342772cc7fa38f4cb0eb2127ff5a00ce547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 08/54] fix: $unset and $rename must not change the primary key

---
 src/polodb_core/vm/update_operators/rename_operator.rs | 6 +++++-
 src/polodb_core/vm/update_operators/unset_operator.rs  | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/update_operators/rename_operator.rs b/src/polodb_core/vm/update_operators/rename_operator.rs
index f31adb5..0472399 100644
--- a/src/polodb_core/vm/update_operators/rename_operator.rs
+++ b/src/polodb_core/vm/update_operators/rename_operator.rs
@@ -10,8 +10,9 @@ pub(crate) struct RenameOperator {
 impl RenameOperator {
 
     pub fn compile(doc: Document) -> Result<RenameOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         for (key, value) in doc.iter() {
-            let _new_name = match value {
+            let new_name = match value {
                 Bson::String(new_name) => new_name.as_str(),
                 t => {
                     let name = format!("{}", t);
@@ -23,6 +24,9 @@ impl RenameOperator {
                         .into());
                 }
             };
+            if new_name == "_id" {
+                return Err(crate::Error::UnableToUpdatePrimaryKey);
+            }
         }
         Ok(RenameOperator {
             doc
diff --git a/src/polodb_core/vm/update_operators/unset_operator.rs b/src/polodb_core/vm/update_operators/unset_operator.rs
index 2b5d9c5..2800a89 100644
--- a/src/polodb_core/vm/update_operators/unset_operator.rs
+++ b/src/polodb_core/vm/update_operators/unset_operator.rs
@@ -9,6 +9,7 @@ pub(crate) struct UnsetOperator {
 impl UnsetOperator {
 
     pub fn compile(doc: &Document) -> Result<UnsetOperator> {
+        <dyn UpdateOperator>::validate_key(doc)?;
         let fields = doc.keys().map(|k| k.to_string()).collect();
         Ok(UnsetOperator {
             fields
-- 
2.43.0


From 2c9958a92540c86284c09a9039725990dae17446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 09/54] fix: $inc and $mul must not panic or wrap on integer
 overflow

---
 .../vm/update_operators/inc_operator.rs       |  8 ++++----
 src/polodb_core/vm/update_operators/mod.rs    | 19 +++++++++++++++++++
 .../vm/update_operators/mul_operator.rs       |  8 ++++----
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/inc_operator.rs b/src/polodb_core/vm/update_operators/inc_operator.rs
index bd2ff6b..e31c782 100644
--- a/src/polodb_core/vm/update_operators/inc_operator.rs
+++ b/src/polodb_core/vm/update_operators/inc_operator.rs
@@ -18,11 +18,11 @@ impl IncOperator {
 
     fn inc_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a + *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 + *b),
+            (Bson::Int32(a), Bson::Int32(b)) => <dyn UpdateOperator>::int32_result(*a as i64 + *b as i64),
+            (Bson::Int32(a), Bson::Int64(b)) => <dyn UpdateOperator>::int64_result("$inc", key, (*a as i64).checked_add(*b))?,
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a + *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a + *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => <dyn UpdateOperator>::int64_result("$inc", key, a.checked_add(*b))?,
+            (Bson::Int64(a), Bson::Int32(b)) => <dyn UpdateOperator>::int64_result("$inc", key, a.checked_add(*b as i64))?,
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a + *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a + *b as f64),
diff --git a/src/polodb_core/vm/update_operators/mod.rs b/src/polodb_core/vm/update_operators/mod.rs
index 9ce938d..c09daa4 100644
--- a/src/polodb_core/vm/update_operators/mod.rs
+++ b/src/polodb_core/vm/update_operators/mod.rs
@@ -8,6 +8,7 @@ mod pop_operator;
 mod min_operator;
 mod max_operator;
 
+use std::convert::TryFrom;
 use bson::{Bson, Document};
 use crate::Result;
 
@@ -24,6 +25,24 @@ pub(crate) trait UpdateOperator {
 
 impl dyn UpdateOperator {
 
+    /// Int32 arithmetic which overflows is carried out on Int64,
+    /// Int64 arithmetic which overflows is an error.
+    pub(crate) fn int32_result(result: i64) -> Bson {
+        match i32::try_from(result) {
+            Ok(result) => Bson::Int32(result),
+            Err(_) => Bson::Int64(result),
+        }
+    }
+
+    pub(crate) fn int64_result(op_name: &str, key: &str, result: Option<i64>) -> Result<Bson> {
+        match result {
+            Some(result) => Ok(Bson::Int64(result)),
+            None => Err(crate::Error::ValidationError(
+                format!("{} on field '{}' overflows Int64", op_name, key),
+            )),
+        }
+    }
+
     pub(crate) fn validate_key(doc: &Document) -> Result<()> {
         for (k, _) in doc.iter() {
             if k == "_id" {
diff --git a/src/polodb_core/vm/update_operators/mul_operator.rs b/src/polodb_core/vm/update_operators/mul_operator.rs
index 21e391d..a27be5a 100644
--- a/src/polodb_core/vm/update_operators/mul_operator.rs
+++ b/src/polodb_core/vm/update_operators/mul_operator.rs
@@ -18,11 +18,11 @@ impl MulOperator {
 
     fn mul_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a * *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 * *b),
+            (Bson::Int32(a), Bson::Int32(b)) => <dyn UpdateOperator>::int32_result(*a as i64 * *b as i64),
+            (Bson::Int32(a), Bson::Int64(b)) => <dyn UpdateOperator>::int64_result("$mul", key, (*a as i64).checked_mul(*b))?,
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a * *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a * *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => <dyn UpdateOperator>::int64_result("$mul", key, a.checked_mul(*b))?,
+            (Bson::Int64(a), Bson::Int32(b)) => <dyn UpdateOperator>::int64_result("$mul", key, a.checked_mul(*b as i64))?,
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a * *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a * *b as f64),
-- 
2.43.0


From 0ae0ad8c8cc3c43e7e8f9c20388230c62e8f17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 10/54] fix: concurrent writers must not lose updates or break
 keys and indexes

Transactions took no snapshot and read without locks, so concurrent operations
lost updates, inserted the same _id or unique value twice, and wrote documents
past an index or a drop of the collection. Transactions now work on a snapshot
and conflict if they write what was committed after it, operations outside of a
transaction are run one after another, and writers of documents hold the
collection specification, which changes of indexes and drops need exclusively.
---
 src/polodb_core/coll/collection.rs        | 24 +++++----
 src/polodb_core/db/db_inner.rs            | 64 ++++++++++++++++-------
 src/polodb_core/db/rocksdb_options.rs     | 13 +++++
 src/polodb_core/db/rocksdb_transaction.rs | 49 +++++++++++++++--
 src/polodb_core/db/rocksdb_wrapper.rs     | 10 +++-
 src/polodb_core/index/index_helper.rs     |  4 ++
 src/polodb_core/vm/vm.rs                  | 45 +++++++++-------
 7 files changed, 157 insertions(+), 52 deletions(-)

diff --git a/src/polodb_core/coll/collection.rs b/src/polodb_core/coll/collection.rs
index 0baaba1..2930035 100644
--- a/src/polodb_core/coll/collection.rs
+++ b/src/polodb_core/coll/collection.rs
@@ -139,7 +139,7 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn update_one(&self, query: Document, update: Document) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let (_guard, txn) = db.start_write()?;
         let result = try_db_op!(txn, db.update_one(
             &self.name,
             query,
@@ -152,7 +152,7 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn update_one_with_options(&self, query: Document, update: Document, options: UpdateOptions) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let (_guard, txn) = db.start_write()?;
         let result = try_db_op!(txn, db.update_one(
             &self.name,
             query,
@@ -165,7 +165,7 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn update_many(&self, query: Document, update: Document) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let (_guard, txn) = db.start_write()?;
         let result = try_db_op!(txn, db.update_many(
             &self.name,
             query,
@@ -178,7 +178,7 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn update_many_with_options(&self, query: Document, update: Document, options: UpdateOptions) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let (_guard, txn) = db.start_write()?;
         let result = try_db_op!(txn, db.update_many(
             &self.name,
             query,
@@ -191,35 +191,35 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn delete_one(&self, query: Document) -> Result<DeleteResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let (_guard, txn) = db.start_write()?;
         let result = try_db_op!(txn, db.delete_one(&self.name, query, &txn));
         Ok(result)
     }
 
     fn delete_many(&self, query: Document) -> Result<DeleteResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let (_guard, txn) = db.start_write()?;
         let result = try_db_op!(txn, db.delete_many(&self.name, query, &txn));
         Ok(result)
     }
 
     fn create_index(&self, index: IndexModel) -> Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let (_guard, txn) = db.start_write()?;
         try_db_op!(txn, db.create_index(&self.name, index, &txn));
         Ok(())
     }
 
     fn drop_index(&self, name: impl AsRef<str>) -> Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let (_guard, txn) = db.start_write()?;
         try_db_op!(txn, db.drop_index(&self.name, name.as_ref(), &txn));
         Ok(())
     }
 
     fn drop(&self) -> Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let (_guard, txn) = db.start_write()?;
         try_db_op!(txn, db.drop_collection(&self.name, &txn));
         Ok(())
     }
@@ -227,7 +227,7 @@ impl<T> CollectionT<T> for Collection<T> {
     fn insert_one(&self, doc: impl Borrow<T>) -> Result<InsertOneResult>
     where T: Serialize {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let (_guard, txn) = db.start_write()?;
         let result = try_db_op!(txn, db.insert_one(
             &self.name,
             bson::to_document(doc.borrow())?,
@@ -239,7 +239,9 @@ impl<T> CollectionT<T> for Collection<T> {
     fn insert_many(&self, docs: impl IntoIterator<Item = impl Borrow<T>>) -> Result<InsertManyResult>
     where T: Serialize {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        // the iterator may use the database itself
+        let docs: Vec<_> = docs.into_iter().collect();
+        let (_guard, txn) = db.start_write()?;
         let result = try_db_op!(txn, db.insert_many(&self.name, docs, &txn));
         Ok(result)
     }
diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 44064d9..09de5f4 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -26,6 +26,7 @@ use crate::index::{IndexBuilder, IndexModel, IndexOptions};
 use crate::db::client_cursor::ClientCursor;
 use crate::results::{DeleteResult, InsertManyResult, InsertOneResult, UpdateResult};
 use std::path::Path;
+use std::sync::{Mutex, MutexGuard};
 use bson::oid::ObjectId;
 use serde::de::DeserializeOwned;
 use crate::coll::collection_info::{
@@ -50,6 +51,7 @@ pub(crate) struct DatabaseInner {
     metrics:      Metrics,
     #[allow(dead_code)]
     config:       Config,
+    write_lock:   Mutex<()>,
 }
 
 impl DatabaseInner {
@@ -80,6 +82,7 @@ impl DatabaseInner {
             node_id,
             metrics,
             config,
+            write_lock: Mutex::new(()),
         };
 
         Ok(ctx)
@@ -90,7 +93,25 @@ impl DatabaseInner {
     }
 
     pub fn start_transaction(&self) -> Result<TransactionInner> {
-        Ok(TransactionInner::new(self.rocksdb.begin_transaction()?))
+        Ok(TransactionInner::new(self.rocksdb.begin_snapshot_transaction()?))
+    }
+
+    /// Operations which commit on their own run one after another,
+    /// so that they never conflict with each other.
+    pub fn start_write(&self) -> Result<(MutexGuard<'_, ()>, TransactionInner)> {
+        let guard = self.write_lock.lock().unwrap_or_else(|err| err.into_inner());
+        let txn = self.start_transaction()?;
+        Ok((guard, txn))
+    }
+
+    /// Keep the indexes and the existence of the collection from being changed
+    /// by others while the transaction writes documents.
+    fn lock_collection_meta(&self, txn: &TransactionInner, name: &str) -> Result<()> {
+        let stacked_key = crate::utils::bson::stacked_key(&[
+            Bson::String(TABLE_META_PREFIX.to_string()),
+            Bson::String(name.to_string()),
+        ])?;
+        txn.rocksdb_txn.lock_shared(stacked_key.as_slice())
     }
 
     fn internal_get_collection_id_by_name(&self, txn: &TransactionInner, name: &str) -> Result<CollectionSpecification> {
@@ -142,7 +163,7 @@ impl DatabaseInner {
     pub fn create_collection(&self, name: &str) -> Result<CollectionSpecification> {
         DatabaseInner::validate_col_name(name)?;
 
-        let txn = self.start_transaction()?;
+        let (_guard, txn) = self.start_write()?;
         let result = self.create_collection_internal(name, &txn)?;
         txn.commit()?;
 
@@ -263,6 +284,10 @@ impl DatabaseInner {
             txn,
         )?;
 
+        // The specification is locked now: no document can be added, but some
+        // may have been since the snapshot.
+        txn.rocksdb_txn.read_latest();
+
         self.build_index(
             txn,
             col_name,
@@ -308,30 +333,27 @@ impl DatabaseInner {
             }
         };
 
-        let index_info = collection_spec.indexes.get(index_name);
-        if index_info.is_none() {
-            return Ok(());
-        }
+        let index_info = match collection_spec.indexes.shift_remove(index_name) {
+            Some(index_info) => index_info,
+            None => return Ok(()),
+        };
 
-        let index_info = index_info.unwrap();
+        DatabaseInner::update_collection_spec(
+            col_name,
+            &collection_spec,
+            txn,
+        )?;
+        txn.rocksdb_txn.read_latest();
 
         let mut builder = IndexBuilder::new(
             txn,
             col_name,
             index_name,
-            index_info,
+            &index_info,
         );
 
         builder.execute(IndexHelperOperation::Delete)?;
 
-        collection_spec.indexes.shift_remove(index_name);
-
-        DatabaseInner::update_collection_spec(
-            col_name,
-            &collection_spec,
-            txn,
-        )?;
-
         Ok(())
     }
 
@@ -413,6 +435,7 @@ impl DatabaseInner {
     }
 
     fn insert_one_internal(&self, txn: &TransactionInner, col_name: &str, doc: Document, node_id: &[u8; 6]) -> Result<InsertOneResult> {
+        self.lock_collection_meta(txn, col_name)?;
         let col_meta = self.get_collection_meta_by_name_advanced(txn, col_name, true, node_id)?
             .expect("internal: meta must exist");
         let (result, _) = self.insert_one_with_meta(txn, col_meta, doc)?;
@@ -485,6 +508,7 @@ impl DatabaseInner {
         docs: impl IntoIterator<Item = impl Borrow<T>>,
         node_id: &[u8; 6],
     ) -> Result<InsertManyResult> {
+        self.lock_collection_meta(txn, col_name)?;
         let mut col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, node_id)?
             .expect("internal: meta must exist");
         let mut inserted_ids: HashMap<usize, Bson> = HashMap::new();
@@ -571,6 +595,7 @@ impl DatabaseInner {
         options: UpdateOptions,
         txn: &TransactionInner,
     ) -> Result<UpdateResult> {
+        self.lock_collection_meta(txn, col_name)?;
         let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, false, txn)?;
 
         let result = match &meta_opt {
@@ -651,6 +676,9 @@ impl DatabaseInner {
             Err(err) => return Err(err),
         };
 
+        self.delete_collection_meta(col_name, txn)?;
+        txn.rocksdb_txn.read_latest();
+
         // Delete content begin
         let subprogram = SubProgram::compile_delete_all(
             &collection_spec,
@@ -669,8 +697,6 @@ impl DatabaseInner {
             vm.execute()?;
         } // Delete content end
 
-        self.delete_collection_meta(col_name, txn)?;
-
         Ok(())
     }
 
@@ -701,6 +727,7 @@ impl DatabaseInner {
     }
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
+        self.lock_collection_meta(txn, col_name)?;
         let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, &self.node_id)?;
         if col_spec.is_none() {
             return Ok(0);
@@ -726,6 +753,7 @@ impl DatabaseInner {
     }
 
     fn internal_delete_all(&self, txn: &TransactionInner, col_name: &str) -> Result<usize> {
+        self.lock_collection_meta(txn, col_name)?;
         let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
         let collection_spec = match test_collection_spec {
             Ok(collection_spec) => collection_spec,
diff --git a/src/polodb_core/db/rocksdb_options.rs b/src/polodb_core/db/rocksdb_options.rs
index fc4cf78..cfd3905 100644
--- a/src/polodb_core/db/rocksdb_options.rs
+++ b/src/polodb_core/db/rocksdb_options.rs
@@ -98,6 +98,11 @@ impl RocksDBReadOptions {
         self.inner
     }
 
+    /// A null snapshot reads the latest committed data.
+    pub(crate) fn set_snapshot(&self, snapshot: *const ffi::rocksdb_snapshot_t) {
+        unsafe { ffi::rocksdb_readoptions_set_snapshot(self.inner, snapshot) }
+    }
+
 }
 
 impl Drop for RocksDBReadOptions {
@@ -122,6 +127,14 @@ impl RocksDBTransactionOptions {
         self.inner
     }
 
+    /// Take a snapshot at the beginning of the transaction. The transaction
+    /// fails to write a key which was committed after it.
+    pub(crate) fn set_set_snapshot(&self, set_snapshot: bool) {
+        unsafe {
+            ffi::rocksdb_transaction_options_set_set_snapshot(self.inner, u8::from(set_snapshot))
+        }
+    }
+
 }
 
 impl Drop for RocksDBTransactionOptions {
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 568b15d..608aae8 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -45,8 +45,8 @@ pub(crate) struct RocksDBTransaction {
 
 impl RocksDBTransaction {
 
-    pub(crate) fn new(db_inner: *mut RocksDBWrapperInner) -> Result<RocksDBTransaction>  {
-        let inner = RocksDBTransactionInner::new(db_inner)?;
+    pub(crate) fn new(db_inner: *mut RocksDBWrapperInner, with_snapshot: bool) -> Result<RocksDBTransaction>  {
+        let inner = RocksDBTransactionInner::new(db_inner, with_snapshot)?;
         Ok(RocksDBTransaction {
             inner: Arc::new(Mutex::new(inner)),
         })
@@ -68,11 +68,22 @@ impl RocksDBTransaction {
         inner.get(key)
     }
 
+    pub fn lock_shared(&self, key: &[u8]) -> Result<()> {
+        let inner = self.inner.lock().unwrap();
+        inner.lock_shared(key)
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.delete(key)
     }
 
+    /// Read the latest committed data (and the own writes) from now on.
+    pub fn read_latest(&self) {
+        let inner = self.inner.lock().unwrap();
+        inner.read_options.set_snapshot(ptr::null());
+    }
+
     pub fn rollback(&self) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.rollback()
@@ -99,12 +110,13 @@ unsafe impl Sync for RocksDBTransactionInner {}
 
 impl RocksDBTransactionInner {
 
-    pub(crate) fn new(db_inner: *mut RocksDBWrapperInner) -> Result<RocksDBTransactionInner>  {
+    pub(crate) fn new(db_inner: *mut RocksDBWrapperInner, with_snapshot: bool) -> Result<RocksDBTransactionInner>  {
         unsafe {
             let read_options = RocksDBReadOptions::new();
             let write_options = RocksDBWriteOptions::new();
             write_options.set_sync(true);
             let txn_options = RocksDBTransactionOptions::new();
+            txn_options.set_set_snapshot(with_snapshot);
             _ = (*db_inner).txn_count.fetch_add(1, Ordering::SeqCst);
             let inner = ffi::rocksdb_transaction_begin(
                 (*db_inner).inner,
@@ -112,6 +124,11 @@ impl RocksDBTransactionInner {
                 txn_options.get(),
                 null_mut(),
             );
+            if with_snapshot {
+                let snapshot = ffi::rocksdb_transaction_get_snapshot(inner);
+                read_options.set_snapshot(snapshot);
+                ffi::rocksdb_free(snapshot as *mut std::ffi::c_void);
+            }
 
             Ok(RocksDBTransactionInner {
                 read_options,
@@ -166,6 +183,30 @@ impl RocksDBTransactionInner {
         }
     }
 
+    /// Lock a key in shared mode until the end of the transaction. Fails if the
+    /// key was written after the snapshot of the transaction.
+    pub fn lock_shared(&self, key: &[u8]) -> Result<()> {
+        unsafe {
+            let mut err: *mut c_char = ptr::null_mut();
+            let mut value_len: usize = 0;
+            let value = ffi::rocksdb_transaction_get_for_update(
+                self.inner,
+                self.read_options.get(),
+                key.as_ptr().cast::<c_char>(),
+                key.len(),
+                &mut value_len,
+                0,
+                &mut err,
+            );
+            if !value.is_null() {
+                ffi::rocksdb_free(value.cast());
+            }
+
+            check_err!(err);
+            Ok(())
+        }
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
@@ -188,6 +229,7 @@ impl RocksDBTransactionInner {
             ffi::rocksdb_transaction_rollback(self.inner, &mut err);
 
             check_err!(err);
+            self.read_options.set_snapshot(ptr::null());
             Ok(())
         }
     }
@@ -199,6 +241,7 @@ impl RocksDBTransactionInner {
             ffi::rocksdb_transaction_commit(self.inner, &mut err);
 
             check_err!(err);
+            self.read_options.set_snapshot(ptr::null());
             Ok(())
         }
     }
diff --git a/src/polodb_core/db/rocksdb_wrapper.rs b/src/polodb_core/db/rocksdb_wrapper.rs
index b930d46..c8b8458 100644
--- a/src/polodb_core/db/rocksdb_wrapper.rs
+++ b/src/polodb_core/db/rocksdb_wrapper.rs
@@ -52,9 +52,17 @@ impl RocksDBWrapper {
         })
     }
 
+    #[allow(dead_code)]
     pub fn begin_transaction(&self) -> Result<RocksDBTransaction> {
         let mut db_inner = self.inner.lock()?;
-        RocksDBTransaction::new(db_inner.deref_mut() as *mut _)
+        RocksDBTransaction::new(db_inner.deref_mut() as *mut _, false)
+    }
+
+    /// Begin a transaction which reads from a snapshot taken now, and which can
+    /// not write what was committed by others after it.
+    pub fn begin_snapshot_transaction(&self) -> Result<RocksDBTransaction> {
+        let mut db_inner = self.inner.lock()?;
+        RocksDBTransaction::new(db_inner.deref_mut() as *mut _, true)
     }
 
 }
diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 843b3dd..b2a2044 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -143,6 +143,10 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
             None,
         )?;
 
+        // Writing this key, which never holds a value, makes concurrent
+        // transactions conflict if they insert the same value.
+        txn.delete(&index_key_tester)?;
+
         let cursor = txn.rocksdb_txn.new_iterator();
         cursor.seek(&index_key_tester);
 
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index f105738..f0e0037 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -196,18 +196,35 @@ impl VM {
     fn seek_index_value(&mut self) -> Result<bool> {
         while let Some(index_value) = self.index_values.first() {
             let cursor = self.r1.as_mut().unwrap();
-            if cursor.reset_by_index_value(index_value)? {
-                let key = cursor.peek_key().expect("key must exist");
-                if let Some(doc) = self.read_index_value_by_index_key(key.as_ref())? {
-                    self.stack.push(doc);
-                    return Ok(true);
-                }
+            if cursor.reset_by_index_value(index_value)? && self.push_indexed_document()? {
+                return Ok(true);
             }
             self.index_values.remove(0);
         }
         Ok(false)
     }
 
+    /// Push the document of the current entry, or else of the next one with the
+    /// same index value.
+    fn push_indexed_document(&mut self) -> Result<bool> {
+        let cursor = self.r1.as_ref().unwrap();
+        let index_value = self.index_values.first().expect("index_value must exist");
+        let key_buffer =
+            make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?;
+
+        while let Some(key) = self.r1.as_ref().unwrap().peek_key() {
+            if !key.starts_with(key_buffer.as_slice()) {
+                break;
+            }
+            if let Some(doc) = self.read_index_value_by_index_key(key.as_ref())? {
+                self.stack.push(doc);
+                return Ok(true);
+            }
+            self.r1.as_mut().unwrap().next()?;
+        }
+        Ok(false)
+    }
+
     fn read_index_value_by_index_key(&mut self, index_key: &[u8]) -> Result<Option<Bson>> {
         let slices = crate::utils::bson::split_stacked_keys(index_key)?;
         let pkey = slices.last().expect("pkey must exist");
@@ -263,19 +280,9 @@ impl VM {
         let cursor = self.r1.as_mut().unwrap();
         cursor.next()?;
 
-        let index_value = self.index_values.first().expect("index_value must exist");
-
-        let key_buffer =
-            make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?;
-
-        if let Some(current_key) = cursor.peek_key() {
-            if current_key.starts_with(key_buffer.as_slice()) {
-                if let Some(doc) = self.read_index_value_by_index_key(current_key.as_ref())? {
-                    self.stack.push(doc);
-                    self.r0 = 1;
-                    return Ok(());
-                }
-            }
+        if self.push_indexed_document()? {
+            self.r0 = 1;
+            return Ok(());
         }
 
         self.index_values.remove(0);
-- 
2.43.0


From 6195a501ba3d59401aa32fbaf63dce52b603a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 11/54] fix: a failed operation inside of a transaction must
 have no effect

The writes an operation had done before it failed stayed in the transaction and
were committed with it. Operations now run under a savepoint.
---
 src/polodb_core/coll/txn_collection.rs        | 47 ++++++++++---------
 src/polodb_core/db/rocksdb_transaction.rs     | 41 +++++++++++++++-
 .../transaction/transaction_inner.rs          | 11 +++++
 3 files changed, 76 insertions(+), 23 deletions(-)

diff --git a/src/polodb_core/coll/txn_collection.rs b/src/polodb_core/coll/txn_collection.rs
index f0aa9fb..e931182 100644
--- a/src/polodb_core/coll/txn_collection.rs
+++ b/src/polodb_core/coll/txn_collection.rs
@@ -57,97 +57,100 @@ impl<T> CollectionT<T> for TransactionalCollection<T> {
 
     fn update_one(&self, query: Document, update: Document) -> crate::Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_one(
+        let result = self.txn.run_operation(|txn| db.update_one(
             &self.name,
             query,
             update,
             UpdateOptions::default(),
-            &self.txn,
-        )?;
+            txn,
+        ))?;
         Ok(result)
     }
 
     fn update_one_with_options(&self, query: Document, update: Document, options: UpdateOptions) -> crate::Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_one(
+        let result = self.txn.run_operation(|txn| db.update_one(
             &self.name,
             query,
             update,
             options,
-            &self.txn,
-        )?;
+            txn,
+        ))?;
         Ok(result)
     }
 
     fn update_many(&self, query: Document, update: Document) -> crate::Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_many(
+        let result = self.txn.run_operation(|txn| db.update_many(
             &self.name,
             query,
             update,
             UpdateOptions::default(),
-            &self.txn,
-        )?;
+            txn,
+        ))?;
         Ok(result)
     }
 
     fn update_many_with_options(&self, query: Document, update: Document, options: UpdateOptions) -> Result<UpdateResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.update_many(
+        let result = self.txn.run_operation(|txn| db.update_many(
             &self.name,
             query,
             update,
             options,
-            &self.txn,
-        )?;
+            txn,
+        ))?;
         Ok(result)
     }
 
     fn delete_one(&self, query: Document) -> crate::Result<DeleteResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.delete_one(&self.name, query, &self.txn)?;
+        let result = self.txn.run_operation(|txn| db.delete_one(&self.name, query, txn))?;
         Ok(result)
     }
 
     fn delete_many(&self, query: Document) -> crate::Result<DeleteResult> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.delete_many(&self.name, query, &self.txn)?;
+        let result = self.txn.run_operation(|txn| db.delete_many(&self.name, query, txn))?;
         Ok(result)
     }
 
     fn create_index(&self, index: IndexModel) -> crate::Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        db.create_index(&self.name, index, &self.txn)?;
+        self.txn.run_operation(|txn| db.create_index(&self.name, index, txn))?;
         Ok(())
     }
 
     fn drop_index(&self, name: impl AsRef<str>) -> Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        db.drop_index(&self.name, name.as_ref(), &self.txn)?;
+        self.txn.run_operation(|txn| db.drop_index(&self.name, name.as_ref(), txn))?;
         Ok(())
     }
 
     fn drop(&self) -> crate::Result<()> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        db.drop_collection(&self.name, &self.txn)?;
+        self.txn.run_operation(|txn| db.drop_collection(&self.name, txn))?;
         Ok(())
     }
 
     fn insert_one(&self, doc: impl Borrow<T>) -> crate::Result<InsertOneResult>
     where T: Serialize {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.insert_one(
+        let doc = bson::to_document(doc.borrow())?;
+        let result = self.txn.run_operation(|txn| db.insert_one(
             &self.name,
-            bson::to_document(doc.borrow())?,
-            &self.txn,
-        )?;
+            doc,
+            txn,
+        ))?;
         Ok(result)
     }
 
     fn insert_many(&self, docs: impl IntoIterator<Item = impl Borrow<T>>) -> crate::Result<InsertManyResult>
     where T: Serialize {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let result = db.insert_many(&self.name, docs, &self.txn)?;
+        // the iterator may use the transaction itself
+        let docs: Vec<_> = docs.into_iter().collect();
+        let result = self.txn.run_operation(|txn| db.insert_many(&self.name, docs, txn))?;
         Ok(result)
     }
 
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 608aae8..4b45488 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -16,7 +16,7 @@ use std::ops::DerefMut;
 use std::ptr;
 use std::ptr::null_mut;
 use std::sync::{Arc, Mutex};
-use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
 use libc::c_char;
 use polodb_librocksdb_sys as ffi;
 use crate::db::rocksdb_options::{RocksDBReadOptions, RocksDBTransactionOptions, RocksDBWriteOptions};
@@ -78,6 +78,16 @@ impl RocksDBTransaction {
         inner.delete(key)
     }
 
+    pub fn set_savepoint(&self) {
+        let inner = self.inner.lock().unwrap();
+        inner.set_savepoint()
+    }
+
+    pub fn rollback_to_savepoint(&self) -> Result<()> {
+        let inner = self.inner.lock().unwrap();
+        inner.rollback_to_savepoint()
+    }
+
     /// Read the latest committed data (and the own writes) from now on.
     pub fn read_latest(&self) {
         let inner = self.inner.lock().unwrap();
@@ -103,6 +113,7 @@ pub(crate) struct RocksDBTransactionInner {
     pub(crate) inner: *mut ffi::rocksdb_transaction_t,
     db_inner: *mut RocksDBWrapperInner,
     pub(crate) iter_count: AtomicU64,
+    broken: AtomicBool,
 }
 
 unsafe impl Send for RocksDBTransactionInner {}
@@ -137,6 +148,7 @@ impl RocksDBTransactionInner {
                 inner,
                 db_inner,
                 iter_count: AtomicU64::new(0),
+                broken: AtomicBool::new(false),
             })
         }
     }
@@ -223,6 +235,27 @@ impl RocksDBTransactionInner {
         }
     }
 
+    pub fn set_savepoint(&self) {
+        unsafe { ffi::rocksdb_transaction_set_savepoint(self.inner) }
+    }
+
+    /// Undo the writes since the last savepoint. The iterators of the
+    /// transaction do not survive this: if there are any, the whole transaction
+    /// can only be rolled back.
+    pub fn rollback_to_savepoint(&self) -> Result<()> {
+        if self.iter_count.load(Ordering::SeqCst) != 0 {
+            self.broken.store(true, Ordering::SeqCst);
+            return Ok(());
+        }
+        unsafe {
+            let mut err: *mut c_char = ptr::null_mut();
+            ffi::rocksdb_transaction_rollback_to_savepoint(self.inner, &mut err);
+
+            check_err!(err);
+            Ok(())
+        }
+    }
+
     pub fn rollback(&self) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
@@ -230,11 +263,17 @@ impl RocksDBTransactionInner {
 
             check_err!(err);
             self.read_options.set_snapshot(ptr::null());
+            self.broken.store(false, Ordering::SeqCst);
             Ok(())
         }
     }
 
     pub(crate) fn commit(&self) -> Result<()> {
+        if self.broken.load(Ordering::SeqCst) {
+            return Err(crate::Error::RocksDbErr(
+                "the transaction has a failed operation and must be rolled back".to_owned(),
+            ));
+        }
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
 
diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index dacac74..41db018 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -39,6 +39,17 @@ impl TransactionInner {
         self.auto_commit
     }
 
+    /// Run one operation of a transaction: if it fails, it has no effect.
+    pub fn run_operation<R>(&self, operation: impl FnOnce(&TransactionInner) -> crate::Result<R>) -> crate::Result<R> {
+        self.rocksdb_txn.set_savepoint();
+        let result = operation(self);
+        if result.is_err() {
+            // fails if the transaction is finished, without any effect then
+            let _ = self.rocksdb_txn.rollback_to_savepoint();
+        }
+        result
+    }
+
     #[inline]
     pub fn put(&self, key: &[u8], value: &[u8]) -> crate::Result<()> {
         self.rocksdb_txn.set(key, value)
-- 
2.43.0


From 426b0e91efb66c450d47747ad7b6a749ae00864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 12/54] fix: deleting from a missing collection must not create
 it

---
 src/polodb_core/db/db_inner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 09de5f4..a173cbf 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -728,7 +728,7 @@ impl DatabaseInner {
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
         self.lock_collection_meta(txn, col_name)?;
-        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, &self.node_id)?;
+        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
         if col_spec.is_none() {
             return Ok(0);
         }
-- 
2.43.0


From dbe36d2c090cc047f223995491240913ada0cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 13/54] fix: zero bytes in names and indexed strings must not
 mix up keys

Strings end with a zero byte in the keys of the store: names containing one
reached the data of other collections, an indexed value containing one matched
another value, and a _id containing one could not be found by an index.
---
 src/polodb_core/db/db_inner.rs        |  4 ++--
 src/polodb_core/index/index_helper.rs |  9 ++++++++-
 src/polodb_core/utils/bson.rs         |  4 +++-
 src/polodb_core/vm/vm.rs              | 13 +++++--------
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index a173cbf..3fcbc34 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -408,7 +408,7 @@ impl DatabaseInner {
 
     fn validate_col_name(col_name: &str) -> Result<()> {
         for ch in col_name.chars() {
-            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
+            if ch == '\0' || ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
                 return Err(Error::IllegalCollectionName(col_name.to_string()))
             }
         }
@@ -418,7 +418,7 @@ impl DatabaseInner {
 
     fn validate_index_name(col_name: &str) -> Result<()> {
         for ch in col_name.chars() {
-            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
+            if ch == '\0' || ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
                 return Err(Error::IllegalIndexName(col_name.to_string()))
             }
         }
diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index b2a2044..a69ae08 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -14,7 +14,7 @@
 
 use bson::{Bson, Document};
 use bson::spec::ElementType;
-use crate::Result;
+use crate::{Error, Result};
 use crate::coll::collection_info::{
     CollectionSpecification,
     IndexInfo,
@@ -104,6 +104,13 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
             return Ok(())
         }
 
+        if let Some(Bson::String(val) | Bson::Symbol(val)) = &value {
+            // the end of a string is marked by a zero byte in the key
+            if val.contains('\0') {
+                return Err(Error::NotAValidKeyType(format!("{:?}", val)));
+            }
+        }
+
         if op == IndexHelperOperation::Insert && index_info.is_unique() {
             IndexHelper::check_unique_key(
                 col_name,
diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index a2d4fae..b8060ec 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -111,6 +111,7 @@ pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
     Ok(())
 }
 
+#[allow(dead_code)]
 pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
     let mut result = Vec::<Bson>::new();
     let mut reader = buffer;
@@ -204,11 +205,12 @@ pub fn is_index_searchable(value: &Bson) -> bool {
     match value {
         // several Int64 compare equal to one Double out of this range
         Bson::Double(d) => d.is_nan() || d.is_infinite() || d.abs() < 9007199254740992.0,
+        // can not be indexed, see `IndexHelper`
+        Bson::String(val) => !val.contains('\0'),
         Bson::Null
         | Bson::Boolean(_)
         | Bson::Int32(_)
         | Bson::Int64(_)
-        | Bson::String(_)
         | Bson::DateTime(_)
         | Bson::ObjectId(_) => true,
         _ => false,
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index f0e0037..1d60f08 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -216,7 +216,7 @@ impl VM {
             if !key.starts_with(key_buffer.as_slice()) {
                 break;
             }
-            if let Some(doc) = self.read_index_value_by_index_key(key.as_ref())? {
+            if let Some(doc) = self.read_indexed_document(&key[key_buffer.len()..])? {
                 self.stack.push(doc);
                 return Ok(true);
             }
@@ -225,13 +225,10 @@ impl VM {
         Ok(false)
     }
 
-    fn read_index_value_by_index_key(&mut self, index_key: &[u8]) -> Result<Option<Bson>> {
-        let slices = crate::utils::bson::split_stacked_keys(index_key)?;
-        let pkey = slices.last().expect("pkey must exist");
-
-        let col_name = &slices[1];
-
-        let pkey_in_kv = crate::utils::bson::stacked_key(vec![col_name, pkey])?;
+    /// `pkey` is the encoded primary key, the name of the collection is on the stack.
+    fn read_indexed_document(&mut self, pkey: &[u8]) -> Result<Option<Bson>> {
+        let mut pkey_in_kv = crate::utils::bson::stacked_key(vec![self.stack_top()])?;
+        pkey_in_kv.extend_from_slice(pkey);
 
         let db_iter = self.txn.rocksdb_txn.new_iterator();
         db_iter.seek_to_first();
-- 
2.43.0


From 0a84402c6d999d15bd35729f93f929046030e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 14/54] fix: create_index must not ignore a different index of
 the same name

Asking for a unique index where a plain one existed (or for 'a_b' where 'a.b'
was indexed) succeeded without doing anything. An index also created a
collection with an empty name.
---
 src/polodb_core/db/db_inner.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 3fcbc34..538206a 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -253,6 +253,10 @@ impl DatabaseInner {
             return Err(Error::OnlySupportsAscendingOrder(key.to_string()));
         }
 
+        if col_name.is_empty() {
+            return Err(Error::IllegalCollectionName(col_name.into()));
+        }
+
         let index_name = DatabaseInner::make_index_name(key, 1, options)?;
 
         let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
@@ -267,7 +271,14 @@ impl DatabaseInner {
             }
         };
 
-        if collection_spec.indexes.get(&index_name).is_some() {
+        if let Some(existing) = collection_spec.indexes.get(&index_name) {
+            let unique = options.and_then(|options| options.unique).unwrap_or(false);
+            if !existing.keys.contains_key(key) || existing.is_unique() != unique {
+                return Err(Error::ValidationError(format!(
+                    "an index named '{}' exists with different keys or options",
+                    index_name,
+                )));
+            }
             return Ok(())
         }
 
-- 
2.43.0


From 1142e0a1972a48195d940259ecdd0b4c549a7473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 15/54] fix: iterating a cursor must not panic on a document of
 another shape

---
 src/polodb_core/db/client_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/client_cursor.rs b/src/polodb_core/db/client_cursor.rs
index 6507fe5..82b8521 100644
--- a/src/polodb_core/db/client_cursor.rs
+++ b/src/polodb_core/db/client_cursor.rs
@@ -82,7 +82,7 @@ impl<T> Iterator for ClientCursor<T>
         match test {
             Ok(false) => None,
             Ok(true) => {
-                Some(Ok(bson::from_bson(self.get().clone()).unwrap()))
+                Some(self.deserialize_current())
             }
             Err(err) =>{
                 Some(Err(err))
-- 
2.43.0


From e7956c057e82cc075e40bba2b7fa9e48575256b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 16/54] fix: $regex must match the string value, not its quoted
 rendering

---
 src/polodb_core/vm/query_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/query_matcher.rs b/src/polodb_core/vm/query_matcher.rs
index df76a3a..e097602 100644
--- a/src/polodb_core/vm/query_matcher.rs
+++ b/src/polodb_core/vm/query_matcher.rs
@@ -55,7 +55,7 @@ pub(super) fn validate_membership_candidates(candidates: &[Bson]) -> Result<()>
 
 pub(super) fn matches_regex(field_value: &Bson, expression: &Regex) -> Result<bool> {
     let regex = compile_regex(expression)?;
-    Ok(regex.is_match(&field_value.to_string()))
+    Ok(matches_compiled_regex(field_value, &regex))
 }
 
 fn matches_compiled_regex(field_value: &Bson, regex: &CompiledRegex) -> bool {
-- 
2.43.0


From bc1a324aa81ecc76b9ccbd888b5bd95f7ab12643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 17/54] fix: $abs must not panic on the smallest integers or
 ignore doubles

---
 src/polodb_core/vm/operators/abs_operator.rs | 27 +++++++++-----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/vm/operators/abs_operator.rs b/src/polodb_core/vm/operators/abs_operator.rs
index 4a48ab5..1cb3004 100644
--- a/src/polodb_core/vm/operators/abs_operator.rs
+++ b/src/polodb_core/vm/operators/abs_operator.rs
@@ -24,14 +24,16 @@ impl AbsOperator {
 
     fn bson_abs(input: Bson) -> Bson {
         match input {
-            Bson::Int32(v) => {
-                let result = v.abs();
-                Bson::Int32(result)
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                Bson::Int64(result)
-            }
+            // the smallest integers have no absolute value of the same type
+            Bson::Int32(v) => match v.checked_abs() {
+                Some(result) => Bson::Int32(result),
+                None => Bson::Int64((v as i64).abs()),
+            },
+            Bson::Int64(v) => match v.checked_abs() {
+                Some(result) => Bson::Int64(result),
+                None => Bson::Double((v as f64).abs()),
+            },
+            Bson::Double(v) => Bson::Double(v.abs()),
             _ => input,
         }
     }
@@ -45,13 +47,8 @@ impl AbsOperator {
             Bson::Null => {
                 OperatorExpr::Constant(Bson::Null)
             }
-            Bson::Int32(v) => {
-               let result = v.abs();
-                OperatorExpr::Constant(Bson::Int32(result))
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                OperatorExpr::Constant(Bson::Int64(result))
+            Bson::Int32(_) | Bson::Int64(_) => {
+                OperatorExpr::Constant(Self::bson_abs(v.clone()))
             }
             Bson::String(field_name) => {
                 if let Some(stripped_field_name) = field_name.strip_prefix("$") {
-- 
2.43.0


From c05a58ea1d63a5cb5e07f8dcbea9e4833d81323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 18/54] fix: $sum must add up its operand instead of counting
 documents

---
 src/polodb_core/vm/operators/op_registry.rs  |  2 +-
 src/polodb_core/vm/operators/sum_operator.rs | 65 ++++++++++++++++----
 src/polodb_core/vm/vm_group.rs               |  2 +-
 3 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/vm/operators/op_registry.rs b/src/polodb_core/vm/operators/op_registry.rs
index 479a04c..64b96f4 100644
--- a/src/polodb_core/vm/operators/op_registry.rs
+++ b/src/polodb_core/vm/operators/op_registry.rs
@@ -39,7 +39,7 @@ impl OpRegistry {
         let (op_name, op_value) = doc.iter().next().ok_or(Error::ValidationError("Operator should have exactly one field".to_string()))?;
         let op = crate::path_hint_3!(paths, op_name.clone(), {
             match op_name.as_str() {
-                "$sum" => SumOperator::compile(op_value),
+                "$sum" => SumOperator::compile(paths, self.clone(), op_value)?,
                 "$abs" => AbsOperator::compile(paths, self.clone(), op_value)?,
                 _ => {
                     let invalid_err = mk_invalid_aggregate_field(paths);
diff --git a/src/polodb_core/vm/operators/sum_operator.rs b/src/polodb_core/vm/operators/sum_operator.rs
index f79d454..60fcbac 100644
--- a/src/polodb_core/vm/operators/sum_operator.rs
+++ b/src/polodb_core/vm/operators/sum_operator.rs
@@ -12,36 +12,75 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::cell::Cell;
+use std::cell::RefCell;
 use bson::Bson;
-use crate::vm::operators::VmOperator;
+use crate::Result;
+use crate::vm::operators::{OpRegistry, OperatorExpr, VmOperator};
 
 pub(crate) struct SumOperator {
-    inner: Cell<i64>,
+    operand: OperatorExpr,
+    inner: RefCell<Bson>,
 }
 
 impl SumOperator {
 
-    pub(crate) fn compile(_v: &Bson) -> Box<dyn VmOperator> {
-        Box::new(SumOperator {
-            inner: Cell::new(0),
-        })
+    pub(crate) fn compile(paths: &mut Vec<String>, registry: OpRegistry, v: &Bson) -> Result<Box<dyn VmOperator>> {
+        let operand = match v {
+            Bson::Document(doc) => OperatorExpr::Expr(registry.compile_doc(paths, doc)?),
+            Bson::String(field_name) => match field_name.strip_prefix('$') {
+                Some(stripped_field_name) => OperatorExpr::Alias(stripped_field_name.to_string()),
+                None => OperatorExpr::Constant(v.clone()),
+            },
+            _ => OperatorExpr::Constant(v.clone()),
+        };
+        Ok(Box::new(SumOperator {
+            operand,
+            inner: RefCell::new(Bson::Int64(0)),
+        }))
+    }
+
+    // values which are not numbers count as zero
+    fn add(sum: &Bson, value: &Bson) -> Bson {
+        let int = match value {
+            Bson::Int32(v) => *v as i64,
+            Bson::Int64(v) => *v,
+            Bson::Double(v) => {
+                let sum = sum.as_f64().unwrap_or_else(|| sum.as_i64().unwrap_or(0) as f64);
+                return Bson::Double(sum + *v);
+            }
+            _ => return sum.clone(),
+        };
+        match sum {
+            Bson::Int64(sum) => match sum.checked_add(int) {
+                Some(sum) => Bson::Int64(sum),
+                None => Bson::Double(*sum as f64 + int as f64),
+            },
+            _ => Bson::Double(sum.as_f64().unwrap_or(0.0) + int as f64),
+        }
     }
 
 }
 
 impl VmOperator for SumOperator {
     fn initial_value(&self) -> Bson {
-        Bson::Int64(self.inner.get())
+        self.inner.borrow().clone()
     }
 
-    fn next(&self, _input: &Bson) -> Bson {
-        let next = self.inner.get() + 1;
-        self.inner.set(next);
-        Bson::Int64(next)
+    fn next(&self, input: &Bson) -> Bson {
+        let value = match &self.operand {
+            OperatorExpr::Constant(v) => v.clone(),
+            OperatorExpr::Expr(op) => op.next(input),
+            OperatorExpr::Alias(field_name) => input
+                .as_document()
+                .and_then(|doc| doc.get(field_name).cloned())
+                .unwrap_or(Bson::Null),
+        };
+        let next = Self::add(&self.inner.borrow(), &value);
+        *self.inner.borrow_mut() = next.clone();
+        next
     }
 
     fn complete(&self) -> Bson {
-        Bson::Int64(self.inner.get())
+        self.inner.borrow().clone()
     }
 }
diff --git a/src/polodb_core/vm/vm_group.rs b/src/polodb_core/vm/vm_group.rs
index 09cdf59..a7e8f6f 100644
--- a/src/polodb_core/vm/vm_group.rs
+++ b/src/polodb_core/vm/vm_group.rs
@@ -126,7 +126,7 @@ impl VmExternalFunc for VmFuncGroup {
                     return (k.clone(), v.clone());
                 }
                 let op = inner.operators.get(k).expect("Operator not found");
-                let next = op.next(v);
+                let next = op.next(arg0);
                 (k.clone(), next)
             })
             .collect::<IndexMap<String, Bson>>();
-- 
2.43.0


From 780cd48efbde30c940748f1518a797855fbaf05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 19/54] fix: index and collection changes in a transaction must
 not end its snapshot

---
 src/polodb_core/db/db_inner.rs            | 49 +++++++++++++++++------
 src/polodb_core/db/rocksdb_transaction.rs | 44 ++++++++++++++------
 2 files changed, 67 insertions(+), 26 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 538206a..75cf3b3 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -295,16 +295,41 @@ impl DatabaseInner {
             txn,
         )?;
 
-        // The specification is locked now: no document can be added, but some
+        // The specification is locked now: no document can be changed, but some
         // may have been since the snapshot.
-        txn.rocksdb_txn.read_latest();
+        let snapshot = Cursor::new_with_str_prefix(col_name, txn.rocksdb_txn.new_iterator())?;
+        txn.rocksdb_txn.with_latest(|| {
+            if !txn.is_auto_commit() {
+                // the transaction goes on to read from the snapshot
+                let latest = Cursor::new_with_str_prefix(col_name, txn.rocksdb_txn.new_iterator())?;
+                DatabaseInner::check_same_content(snapshot, latest)?;
+            }
+            self.build_index(
+                txn,
+                col_name,
+                index_name.as_str(),
+                &index_info,
+            )
+        })
+    }
 
-        self.build_index(
-            txn,
-            col_name,
-            index_name.as_str(),
-            &index_info,
-        )
+    fn check_same_content(mut snapshot: Cursor, mut latest: Cursor) -> Result<()> {
+        snapshot.reset()?;
+        latest.reset()?;
+        while snapshot.has_next() || latest.has_next() {
+            if !snapshot.has_next()
+                || !latest.has_next()
+                || snapshot.peek_key() != latest.peek_key()
+                || snapshot.copy_data()? != latest.copy_data()?
+            {
+                return Err(Error::RocksDbErr(
+                    "Resource busy: the collection has been changed after the begin of the transaction".to_string(),
+                ));
+            }
+            snapshot.next()?;
+            latest.next()?;
+        }
+        Ok(())
     }
 
     fn build_index(
@@ -354,7 +379,6 @@ impl DatabaseInner {
             &collection_spec,
             txn,
         )?;
-        txn.rocksdb_txn.read_latest();
 
         let mut builder = IndexBuilder::new(
             txn,
@@ -363,7 +387,7 @@ impl DatabaseInner {
             &index_info,
         );
 
-        builder.execute(IndexHelperOperation::Delete)?;
+        txn.rocksdb_txn.with_latest(|| builder.execute(IndexHelperOperation::Delete))?;
 
         Ok(())
     }
@@ -688,7 +712,6 @@ impl DatabaseInner {
         };
 
         self.delete_collection_meta(col_name, txn)?;
-        txn.rocksdb_txn.read_latest();
 
         // Delete content begin
         let subprogram = SubProgram::compile_delete_all(
@@ -701,11 +724,11 @@ impl DatabaseInner {
             let mut txn = txn.clone();
             txn.set_auto_commit(false);
             let mut vm = VM::new(
-                txn,
+                txn.clone(),
                 subprogram,
                 self.metrics.clone(),
             );
-            vm.execute()?;
+            txn.rocksdb_txn.with_latest(|| vm.execute())?;
         } // Delete content end
 
         Ok(())
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 4b45488..ce0499a 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -88,10 +88,13 @@ impl RocksDBTransaction {
         inner.rollback_to_savepoint()
     }
 
-    /// Read the latest committed data (and the own writes) from now on.
-    pub fn read_latest(&self) {
-        let inner = self.inner.lock().unwrap();
-        inner.read_options.set_snapshot(ptr::null());
+    /// Read the latest committed data (and the own writes) during `operation`,
+    /// and from the snapshot again after it.
+    pub fn with_latest<R>(&self, operation: impl FnOnce() -> R) -> R {
+        self.inner.lock().unwrap().read_options.set_snapshot(ptr::null());
+        let result = operation();
+        self.inner.lock().unwrap().read_snapshot();
+        result
     }
 
     pub fn rollback(&self) -> Result<()> {
@@ -114,6 +117,7 @@ pub(crate) struct RocksDBTransactionInner {
     db_inner: *mut RocksDBWrapperInner,
     pub(crate) iter_count: AtomicU64,
     broken: AtomicBool,
+    has_snapshot: AtomicBool,
 }
 
 unsafe impl Send for RocksDBTransactionInner {}
@@ -135,13 +139,8 @@ impl RocksDBTransactionInner {
                 txn_options.get(),
                 null_mut(),
             );
-            if with_snapshot {
-                let snapshot = ffi::rocksdb_transaction_get_snapshot(inner);
-                read_options.set_snapshot(snapshot);
-                ffi::rocksdb_free(snapshot as *mut std::ffi::c_void);
-            }
 
-            Ok(RocksDBTransactionInner {
+            let txn_inner = RocksDBTransactionInner {
                 read_options,
                 _write_options: write_options,
                 _txn_options: txn_options,
@@ -149,8 +148,27 @@ impl RocksDBTransactionInner {
                 db_inner,
                 iter_count: AtomicU64::new(0),
                 broken: AtomicBool::new(false),
-            })
+                has_snapshot: AtomicBool::new(with_snapshot),
+            };
+            txn_inner.read_snapshot();
+            Ok(txn_inner)
+        }
+    }
+
+    fn read_snapshot(&self) {
+        if !self.has_snapshot.load(Ordering::SeqCst) {
+            return;
         }
+        unsafe {
+            let snapshot = ffi::rocksdb_transaction_get_snapshot(self.inner);
+            self.read_options.set_snapshot(snapshot);
+            ffi::rocksdb_free(snapshot as *mut std::ffi::c_void);
+        }
+    }
+
+    fn forget_snapshot(&self) {
+        self.has_snapshot.store(false, Ordering::SeqCst);
+        self.read_options.set_snapshot(ptr::null());
     }
 
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
@@ -262,7 +280,7 @@ impl RocksDBTransactionInner {
             ffi::rocksdb_transaction_rollback(self.inner, &mut err);
 
             check_err!(err);
-            self.read_options.set_snapshot(ptr::null());
+            self.forget_snapshot();
             self.broken.store(false, Ordering::SeqCst);
             Ok(())
         }
@@ -280,7 +298,7 @@ impl RocksDBTransactionInner {
             ffi::rocksdb_transaction_commit(self.inner, &mut err);
 
             check_err!(err);
-            self.read_options.set_snapshot(ptr::null());
+            self.forget_snapshot();
             Ok(())
         }
     }
-- 
2.43.0


From 793d6650e259252557436f9a7b5c979ce188af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 20/54] fix: a cursor must not be read after its transaction is
 finished

---
 src/polodb_core/db/rocksdb_iterator.rs    | 28 ++++++++++++++++++++++-
 src/polodb_core/db/rocksdb_transaction.rs | 22 ++++++------------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index d560a53..231c1fd 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -75,6 +75,7 @@ impl RocksDBIterator {
 pub(crate) struct RocksDBIteratorInner {
     inner: *mut ffi::rocksdb_iterator_t,
     txn_inner: *mut RocksDBTransactionInner,
+    epoch: u64,
 }
 
 unsafe impl Send for RocksDBIteratorInner {}
@@ -91,17 +92,31 @@ impl RocksDBIteratorInner {
             RocksDBIteratorInner {
                 inner: iter,
                 txn_inner,
+                epoch: (*txn_inner).epoch.load(Ordering::SeqCst),
             }
         }
     }
 
+    /// The transaction was committed or rolled back in the meantime: the entries
+    /// which the iterator points to are gone. It is not moved any more, stays
+    /// valid, and answers with an error.
+    fn is_stale(&self) -> bool {
+        unsafe { (*self.txn_inner).epoch.load(Ordering::SeqCst) != self.epoch }
+    }
+
     pub fn seek_to_first(&self) {
+        if self.is_stale() {
+            return;
+        }
         unsafe {
             ffi::rocksdb_iter_seek_to_first(self.inner);
         }
     }
 
     pub fn seek(&self, key: &[u8]) {
+        if self.is_stale() {
+            return;
+        }
         unsafe {
             ffi::rocksdb_iter_seek(self.inner, key.as_ptr().cast::<c_char>(), key.len());
         }
@@ -109,23 +124,34 @@ impl RocksDBIteratorInner {
 
     pub fn valid(&self) -> bool {
         unsafe {
-            ffi::rocksdb_iter_valid(self.inner) != 0
+            self.is_stale() || ffi::rocksdb_iter_valid(self.inner) != 0
         }
     }
 
     pub fn next(&self) {
+        if self.is_stale() {
+            return;
+        }
         unsafe {
             ffi::rocksdb_iter_next(self.inner);
         }
     }
 
     pub fn prev(&self) {
+        if self.is_stale() {
+            return;
+        }
         unsafe {
             ffi::rocksdb_iter_prev(self.inner);
         }
     }
 
     pub fn error(&self) -> Result<()> {
+        if self.is_stale() {
+            return Err(crate::Error::RocksDbErr(
+                "the transaction of the cursor is finished".to_owned(),
+            ));
+        }
         unsafe {
             let mut err: *mut c_char = null_mut();
             ffi::rocksdb_iter_get_error(self.inner, &mut err);
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index ce0499a..ed5debd 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -116,7 +116,8 @@ pub(crate) struct RocksDBTransactionInner {
     pub(crate) inner: *mut ffi::rocksdb_transaction_t,
     db_inner: *mut RocksDBWrapperInner,
     pub(crate) iter_count: AtomicU64,
-    broken: AtomicBool,
+    /// counts the events which invalidate the iterators
+    pub(crate) epoch: AtomicU64,
     has_snapshot: AtomicBool,
 }
 
@@ -147,7 +148,7 @@ impl RocksDBTransactionInner {
                 inner,
                 db_inner,
                 iter_count: AtomicU64::new(0),
-                broken: AtomicBool::new(false),
+                epoch: AtomicU64::new(0),
                 has_snapshot: AtomicBool::new(with_snapshot),
             };
             txn_inner.read_snapshot();
@@ -257,16 +258,11 @@ impl RocksDBTransactionInner {
         unsafe { ffi::rocksdb_transaction_set_savepoint(self.inner) }
     }
 
-    /// Undo the writes since the last savepoint. The iterators of the
-    /// transaction do not survive this: if there are any, the whole transaction
-    /// can only be rolled back.
+    /// Undo the writes since the last savepoint.
     pub fn rollback_to_savepoint(&self) -> Result<()> {
-        if self.iter_count.load(Ordering::SeqCst) != 0 {
-            self.broken.store(true, Ordering::SeqCst);
-            return Ok(());
-        }
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
+            self.epoch.fetch_add(1, Ordering::SeqCst);
             ffi::rocksdb_transaction_rollback_to_savepoint(self.inner, &mut err);
 
             check_err!(err);
@@ -277,24 +273,20 @@ impl RocksDBTransactionInner {
     pub fn rollback(&self) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
+            self.epoch.fetch_add(1, Ordering::SeqCst);
             ffi::rocksdb_transaction_rollback(self.inner, &mut err);
 
             check_err!(err);
             self.forget_snapshot();
-            self.broken.store(false, Ordering::SeqCst);
             Ok(())
         }
     }
 
     pub(crate) fn commit(&self) -> Result<()> {
-        if self.broken.load(Ordering::SeqCst) {
-            return Err(crate::Error::RocksDbErr(
-                "the transaction has a failed operation and must be rolled back".to_owned(),
-            ));
-        }
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
 
+            self.epoch.fetch_add(1, Ordering::SeqCst);
             ffi::rocksdb_transaction_commit(self.inner, &mut err);
 
             check_err!(err);
-- 
2.43.0


From d6eb449732c6c5aaa23041a3d267e7de562e564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 21/54] fix: an empty aggregation stage must be an error
 instead of a panic

---
 src/polodb_core/vm/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 3cc2941..1abda86 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -1167,7 +1167,7 @@ impl Codegen {
     ) -> Result<()> {
         for stage_doc in pipeline {
             if stage_doc.is_empty() {
-                return Ok(());
+                return Err(Error::InvalidAggregationStage(Box::new(stage_doc.clone())));
             }
 
             let label = self.new_label();
-- 
2.43.0


From dc2d59fee4d02f453d3a5dde52bf09d9980d53c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 22/54] fix: $inc and $mul must reject operands which are not
 numbers

On a missing field the operand was stored as it is, whatever its type.
---
 src/polodb_core/vm/update_operators/inc_operator.rs |  1 +
 src/polodb_core/vm/update_operators/mod.rs          | 11 +++++++++++
 src/polodb_core/vm/update_operators/mul_operator.rs |  1 +
 3 files changed, 13 insertions(+)

diff --git a/src/polodb_core/vm/update_operators/inc_operator.rs b/src/polodb_core/vm/update_operators/inc_operator.rs
index e31c782..2e554fc 100644
--- a/src/polodb_core/vm/update_operators/inc_operator.rs
+++ b/src/polodb_core/vm/update_operators/inc_operator.rs
@@ -11,6 +11,7 @@ impl IncOperator {
 
     pub fn compile(doc: Document) -> Result<IncOperator> {
         <dyn UpdateOperator>::validate_key(&doc)?;
+        <dyn UpdateOperator>::validate_numeric_operands("$inc", &doc)?;
         Ok(IncOperator {
             doc
         })
diff --git a/src/polodb_core/vm/update_operators/mod.rs b/src/polodb_core/vm/update_operators/mod.rs
index c09daa4..dc4edee 100644
--- a/src/polodb_core/vm/update_operators/mod.rs
+++ b/src/polodb_core/vm/update_operators/mod.rs
@@ -43,6 +43,17 @@ impl dyn UpdateOperator {
         }
     }
 
+    pub(crate) fn validate_numeric_operands(op_name: &str, doc: &Document) -> Result<()> {
+        for (k, v) in doc.iter() {
+            if !matches!(v, Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_)) {
+                return Err(crate::Error::ValidationError(
+                    format!("{} on field '{}' requires a number", op_name, k),
+                ));
+            }
+        }
+        Ok(())
+    }
+
     pub(crate) fn validate_key(doc: &Document) -> Result<()> {
         for (k, _) in doc.iter() {
             if k == "_id" {
diff --git a/src/polodb_core/vm/update_operators/mul_operator.rs b/src/polodb_core/vm/update_operators/mul_operator.rs
index a27be5a..49afc21 100644
--- a/src/polodb_core/vm/update_operators/mul_operator.rs
+++ b/src/polodb_core/vm/update_operators/mul_operator.rs
@@ -11,6 +11,7 @@ impl MulOperator {
 
     pub fn compile(doc: Document) -> Result<MulOperator> {
         <dyn UpdateOperator>::validate_key(&doc)?;
+        <dyn UpdateOperator>::validate_numeric_operands("$mul", &doc)?;
         Ok(MulOperator {
             doc
         })
-- 
2.43.0


From 88fa58633e0c6a830751446b216f73c017f70af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 23/54] fix: $sort, $skip and $limit must reject orders and
 counts they can not honour

A sort order other than 1 and -1 was taken as no order at all, a negative
$limit as none and a negative $skip as everything.
---
 src/polodb_core/action/find.rs | 5 +++--
 src/polodb_core/vm/vm_limit.rs | 4 ++--
 src/polodb_core/vm/vm_skip.rs  | 4 ++--
 src/polodb_core/vm/vm_sort.rs  | 4 ++--
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/polodb_core/action/find.rs b/src/polodb_core/action/find.rs
index 78ca752..44c28c5 100644
--- a/src/polodb_core/action/find.rs
+++ b/src/polodb_core/action/find.rs
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 use std::sync::Weak;
+use std::convert::TryFrom;
 use bson::{Document, doc};
 use serde::de::DeserializeOwned;
 use crate::db::db_inner::DatabaseInner;
@@ -86,13 +87,13 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Find<'a, 'b, T> {
 
                 if let Some(skip) = self.skip {
                     pipeline.push(doc! {
-                        "$skip": skip as i64,
+                        "$skip": i64::try_from(skip).unwrap_or(i64::MAX),
                     });
                 }
 
                 if let Some(limit) = self.limit {
                     pipeline.push(doc! {
-                        "$limit": limit as i64,
+                        "$limit": i64::try_from(limit).unwrap_or(i64::MAX),
                     });
                 }
 
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 6e21b2a..b4d3f9f 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -26,8 +26,8 @@ impl VmFuncLimit {
 
     pub(crate) fn compile(paths: &mut Vec<String>, bson: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let limit = match bson {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err));
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 0215739..53d3933 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -27,8 +27,8 @@ pub(crate) struct VmFuncSkip {
 impl VmFuncSkip {
     pub(crate) fn compile(paths: &mut Vec<String>, skip_val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let skip = match skip_val {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err))
diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index e6e2b19..88f9a59 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -34,8 +34,8 @@ impl VmFuncSort {
                 let mut result = Vec::with_capacity(doc.len());
                 for (k, v) in doc.iter() {
                     let order = match v {
-                        Bson::Int32(val) => *val as i8,
-                        Bson::Int64(val) => *val as i8,
+                        Bson::Int32(1) | Bson::Int64(1) => 1,
+                        Bson::Int32(-1) | Bson::Int64(-1) => -1,
                         _ => return Err(Error::ValidationError("Invalid sort value".into()))
                     };
                     result.push((k.clone(), order));
-- 
2.43.0


From fa03ed20ab4721c98277890f6196e6478fc3cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 24/54] fix: $size must not leave its operand on the stack of
 the virtual machine

---
 src/polodb_core/vm/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 1abda86..7ac505b 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -901,7 +901,8 @@ impl Codegen {
                 self.emit_goto(DbOp::IfFalse, not_found_label);
 
                 self.emit(DbOp::Pop2);
-                self.emit_u32((field_size + 1) as u32);
+                // the field, its size and the expected size
+                self.emit_u32((field_size + 2) as u32);
             }
 
             "$regex" => {
-- 
2.43.0


From 8ccf1128521583480c5ab8e0595a0941bf186d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 25/54] fix: a finished transaction must not accept operations
 it can not commit

---
 src/polodb_core/db/rocksdb_iterator.rs           |  5 ++++-
 src/polodb_core/db/rocksdb_transaction.rs        | 13 +++++++++++++
 src/polodb_core/transaction/transaction_inner.rs |  4 ++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index 231c1fd..213f62f 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -101,7 +101,10 @@ impl RocksDBIteratorInner {
     /// which the iterator points to are gone. It is not moved any more, stays
     /// valid, and answers with an error.
     fn is_stale(&self) -> bool {
-        unsafe { (*self.txn_inner).epoch.load(Ordering::SeqCst) != self.epoch }
+        unsafe {
+            (*self.txn_inner).is_finished()
+                || (*self.txn_inner).epoch.load(Ordering::SeqCst) != self.epoch
+        }
     }
 
     pub fn seek_to_first(&self) {
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index ed5debd..14f6b6b 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -97,6 +97,10 @@ impl RocksDBTransaction {
         result
     }
 
+    pub fn is_finished(&self) -> bool {
+        self.inner.lock().unwrap().is_finished()
+    }
+
     pub fn rollback(&self) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.rollback()
@@ -119,6 +123,8 @@ pub(crate) struct RocksDBTransactionInner {
     /// counts the events which invalidate the iterators
     pub(crate) epoch: AtomicU64,
     has_snapshot: AtomicBool,
+    /// committed or rolled back
+    finished: AtomicBool,
 }
 
 unsafe impl Send for RocksDBTransactionInner {}
@@ -150,12 +156,17 @@ impl RocksDBTransactionInner {
                 iter_count: AtomicU64::new(0),
                 epoch: AtomicU64::new(0),
                 has_snapshot: AtomicBool::new(with_snapshot),
+                finished: AtomicBool::new(false),
             };
             txn_inner.read_snapshot();
             Ok(txn_inner)
         }
     }
 
+    pub(crate) fn is_finished(&self) -> bool {
+        self.finished.load(Ordering::SeqCst)
+    }
+
     fn read_snapshot(&self) {
         if !self.has_snapshot.load(Ordering::SeqCst) {
             return;
@@ -278,6 +289,7 @@ impl RocksDBTransactionInner {
 
             check_err!(err);
             self.forget_snapshot();
+            self.finished.store(true, Ordering::SeqCst);
             Ok(())
         }
     }
@@ -291,6 +303,7 @@ impl RocksDBTransactionInner {
 
             check_err!(err);
             self.forget_snapshot();
+            self.finished.store(true, Ordering::SeqCst);
             Ok(())
         }
     }
diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index 41db018..941a6c3 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -40,7 +40,11 @@ impl TransactionInner {
     }
 
     /// Run one operation of a transaction: if it fails, it has no effect.
+    /// A finished transaction takes no operations, they could not be committed.
     pub fn run_operation<R>(&self, operation: impl FnOnce(&TransactionInner) -> crate::Result<R>) -> crate::Result<R> {
+        if self.rocksdb_txn.is_finished() {
+            return Err(crate::Error::SessionOutdated);
+        }
         self.rocksdb_txn.set_savepoint();
         let result = operation(self);
         if result.is_err() {
-- 
2.43.0


From d3380c4c934231ff6782dc75595abf02ba07eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:57 +0000
Subject: [PATCH 26/54] fix: line_diff must report lines added or deleted at
 the beginning

---
 src/polodb_line_diff/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index 02b371a..d32403e 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -84,10 +84,12 @@ pub fn diff(a: &str, b: &str, splitter: &str) -> Vec<Diff> {
 
     for (i, item) in matrix.iter_mut().enumerate().take(a_lines.len() + 1) {
         item[0].distance = i;
+        item[0].op = DiffOp::Delete;
     }
 
     for j in 0..=b_lines.len() {
         matrix[0][j].distance = j;
+        matrix[0][j].op = DiffOp::Insert;
     }
 
     for i in 1..=a_lines.len() {
@@ -183,7 +185,7 @@ impl std::fmt::Display for Diff {
 
 fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i: usize, mut j: usize) -> Vec<Diff> {
     let mut result: Vec<Diff> = vec![];
-    while i > 0 && j > 0 {
+    while i > 0 || j > 0 {
         match matrix[i][j].op {
             DiffOp::Preserve => {
                 i -= 1;
-- 
2.43.0


From f18bd41221855d1aaa7873c4fe55e94b0d7c1bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:57 +0000
Subject: [PATCH 27/54] fix: a replaced line must not be reported as the new
 one

---
 src/polodb_line_diff/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index d32403e..e844399 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -193,8 +193,8 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
             }
 
             DiffOp::Replace => {
-                let in_line = Line::new(i - 1,a_lines[i - 1].into());
-                let de_line = Line::new(j - 1, b_lines[j - 1].into());
+                let in_line = Line::new(j - 1, b_lines[j - 1].into());
+                let de_line = Line::new(i - 1, a_lines[i - 1].into());
                 if let Some(last) = result.last_mut() {
                     if last.op == DiffOp::Replace {
                         last.in_lines.push_front(in_line);
-- 
2.43.0


From b9911cf68f03af3c5db3b03f859b2b23d02a5476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:57 +0000
Subject: [PATCH 28/54] fix: differences with unchanged lines between them must
 not be merged

---
 src/polodb_line_diff/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index e844399..499ea4d 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -183,6 +183,11 @@ impl std::fmt::Display for Diff {
 
 }
 
+// lines with unchanged ones between them do not belong to the same difference
+fn is_next(lines: &LinkedList<Line>, index: usize) -> bool {
+    lines.front().map(Line::index) == Some(index)
+}
+
 fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i: usize, mut j: usize) -> Vec<Diff> {
     let mut result: Vec<Diff> = vec![];
     while i > 0 || j > 0 {
@@ -196,7 +201,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let in_line = Line::new(j - 1, b_lines[j - 1].into());
                 let de_line = Line::new(i - 1, a_lines[i - 1].into());
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Replace {
+                    if last.op == DiffOp::Replace && is_next(&last.de_lines, i) && is_next(&last.in_lines, j) {
                         last.in_lines.push_front(in_line);
                         last.de_lines.push_front(de_line);
 
@@ -227,7 +232,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let in_line = Line::new(j - 1, b_lines[j - 1].into());
 
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Insert {
+                    if last.op == DiffOp::Insert && is_next(&last.in_lines, j) {
                         last.in_lines.push_front(in_line);
                         j -= 1;
                         continue;
@@ -251,7 +256,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let de_line = Line::new(i - 1, a_lines[i - 1].into());
 
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Delete {
+                    if last.op == DiffOp::Delete && is_next(&last.de_lines, i) {
                         last.de_lines.push_front(de_line);
                         i -= 1;
                         continue;
-- 
2.43.0


From 389e99814e7e8526852baf6dc30e27ba00569ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 29/54] fix: server replies must carry valid message flags

---
 src/polodb/reply.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/polodb/reply.rs b/src/polodb/reply.rs
index 448a11f..a9e4c32 100644
--- a/src/polodb/reply.rs
+++ b/src/polodb/reply.rs
@@ -26,13 +26,11 @@ pub(crate) struct Reply {
 impl Reply {
 
     pub(crate) fn new(response_to: i32, doc: RawDocumentBuf) -> Reply {
+        const FLAGS: u32 = 0;
         const SINGLE_DOC_KIND: u8 = 0;
         let mut payload = Vec::with_capacity(doc.as_bytes().len() + 5);
-        std::io::Write::write_all(&mut payload, [SINGLE_DOC_KIND].as_slice()).unwrap();
-
-        let doc_len = doc.as_bytes().len() as u32;
-        std::io::Write::write_all(&mut payload, doc_len.to_le_bytes().as_slice()).unwrap();
-
+        payload.extend_from_slice(FLAGS.to_le_bytes().as_slice());
+        payload.push(SINGLE_DOC_KIND);
         payload.extend_from_slice(doc.as_bytes());
 
         Reply { response_to, doc, payload }
-- 
2.43.0


From f525d0c267286f34531702a94ecffd9b0780228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 30/54] fix: the reply of find must be addressed to its request

---
 src/polodb/handlers/find_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 914acf6..2f4ef5b 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -176,7 +176,7 @@ impl Handler for FindHandler {
             "ok": 1,
             "cursor": cursor_doc,
         };
-        let reply = Reply::new(ctx.message.response_to, body);
+        let reply = Reply::new(ctx.message.request_id.unwrap(), body);
         debug!("find reply: {:?}", reply);
         Ok(reply)
     }
-- 
2.43.0


From 40769f078b9f9edc1f6b6d4dfabee852efdf0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 31/54] fix: the server must not give an open cursor's id to
 another cursor

---
 src/polodb/app_context.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polodb/app_context.rs b/src/polodb/app_context.rs
index b7ff78b..6b97458 100644
--- a/src/polodb/app_context.rs
+++ b/src/polodb/app_context.rs
@@ -14,7 +14,7 @@
 
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
-use std::sync::atomic::AtomicU64;
+use std::sync::atomic::{AtomicI64, AtomicU64};
 use bson::{Document, RawDocumentBuf};
 use bson::uuid::Uuid;
 use polodb_core::{ClientCursor, Database, Transaction};
@@ -63,9 +63,9 @@ impl AppContext {
     }
 
     pub (crate) fn save_cursor(&self, cursor: Arc<Mutex<ClientCursor<Document>>>) -> i64 {
+        // an id must never be used again, clients may still hold it
+        let cursor_id = self.inner.next_cursor_id.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
         let mut cursors = self.inner.cursors.lock().unwrap();
-        let mut cursor_id = cursors.len() as i64;
-        cursor_id += 1; // cursor_id starts from 1
         cursors.insert(cursor_id, cursor);
         cursor_id
     }
@@ -99,6 +99,7 @@ struct AppContextInner {
     db: Arc<Database>,
     handlers: Mutex<Vec<Arc<dyn Handler>>>,
     cursors: Mutex<HashMap<i64, Arc<Mutex<ClientCursor<Document>>>>>,
+    next_cursor_id: AtomicI64,
     conn_id: AtomicU64,
     session_ctx: Mutex<HashMap<Uuid, SessionContext>>,
 }
@@ -110,6 +111,7 @@ impl AppContextInner {
             db: Arc::new(db),
             handlers: Mutex::new(Vec::with_capacity(32)),
             cursors: Mutex::new(HashMap::new()),
+            next_cursor_id: AtomicI64::new(1), // cursor_id starts from 1
             conn_id: AtomicU64::new(0),
             session_ctx: Mutex::new(HashMap::new()),
         }
-- 
2.43.0


From 56c8a4358d49b7cfd19b976db3c78e8dd53fa1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 32/54] fix: the server must accept messages of the size it
 announces

---
 src/polodb/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 3a27d53..d40877a 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -179,7 +179,7 @@ pub(crate) async fn start_socket_server(path: String, socket: String, token: Can
     Ok((addr, fut))
 }
 
-const MAX_MESSAGE_SIZE: usize = 16 * 1024 * 1024;
+const MAX_MESSAGE_SIZE: usize = 48000000; // the maxMessageSizeBytes of the hello reply
 
 async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext, conn_id: u64, mut stream: W) -> Result<()> {
     loop {
-- 
2.43.0


From 6bab3c52966eb0d7b901d3fe74a943f532c8fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 33/54] fix: the server must take documents from the command
 and from sequences alike

---
 src/polodb/handlers/delete_handler.rs |  5 +----
 src/polodb/handlers/insert_handler.rs |  8 +------
 src/polodb/handlers/update_handler.rs |  5 +----
 src/polodb/wire/message.rs            | 30 +++++++++++++++++++++++++++
 4 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index bc217e5..cc2fe31 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -65,13 +65,10 @@ impl Handler for DeleteHandler {
         let doc = &ctx.message.document_payload;
         let collection_name = doc.get("delete")?.unwrap().as_str().ok_or(anyhow!("delete field is not a string"))?;
 
-        let deletes_arr = doc.get("deletes")?.unwrap().as_array().ok_or(anyhow!("deletes field is not an array"))?;
         let mut delete_result = DeleteResult::default();
 
         let session_opt = ctx.session.clone();
-        for delete_doc in deletes_arr.into_iter() {
-            let doc_ref = delete_doc?.as_document().ok_or(anyhow!("delete document is not a document"))?;
-            let doc = bson::from_slice(doc_ref.as_bytes())?;
+        for doc in ctx.message.get_documents("deletes")? {
             DeleteHandler::handle_delete(ctx.app_context.clone(), &session_opt, collection_name, doc, &mut delete_result)?;
         }
 
diff --git a/src/polodb/handlers/insert_handler.rs b/src/polodb/handlers/insert_handler.rs
index 61486d3..b3c0f19 100644
--- a/src/polodb/handlers/insert_handler.rs
+++ b/src/polodb/handlers/insert_handler.rs
@@ -51,13 +51,7 @@ impl Handler for InsertHandler {
 
         let db = ctx.app_context.db();
 
-        let mut batch_insert = Vec::<bson::Document>::new();
-        for doc_seq in ctx.message.document_sequences.as_slice() {
-            for doc in doc_seq.documents.as_slice() {
-                let d = bson::from_slice::<bson::Document>(doc.as_bytes())?;
-                batch_insert.push(d);
-            }
-        }
+        let batch_insert = ctx.message.get_documents("documents")?;
 
         // insert could be blocking, so we spawn a blocking task
         debug!("inserted {} documents, start_transaction: {}", batch_insert.len(), auto_commit);
diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index f7d4b18..73bc71e 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -65,10 +65,7 @@ impl Handler for UpdateHandler {
 
         let mut update_result = UpdateResult::default();
 
-        let updates = doc.get_array("updates")?;
-        for update in updates.into_iter() {
-            let update = update?.as_document().ok_or(anyhow!("update is not a document"))?;
-            let d = bson::from_slice::<Document>(update.as_bytes())?;
+        for d in ctx.message.get_documents("updates")? {
             UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, d, &mut update_result)?;
         }
         debug!("update result: {:?}", update_result);
diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index fa196d3..3d8a53a 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -82,6 +82,36 @@ impl Message {
         command
     }
 
+    /// The documents of a command's field: drivers send them as an array in the
+    /// command or as a document sequence of that name.
+    pub(crate) fn get_documents(&self, name: &str) -> Result<Vec<Document>> {
+        let mut result = Vec::new();
+        let mut found = false;
+
+        if let Some(val) = self.document_payload.get(name)? {
+            found = true;
+            let arr = val.as_array().ok_or_else(|| anyhow!("{} field is not an array", name))?;
+            for item in arr {
+                let doc = item?.as_document().ok_or_else(|| anyhow!("element of {} is not a document", name))?;
+                result.push(bson::from_slice::<Document>(doc.as_bytes())?);
+            }
+        }
+
+        for sequence in &self.document_sequences {
+            if sequence.identifier.trim_end_matches('\0') == name {
+                found = true;
+                for doc in &sequence.documents {
+                    result.push(bson::from_slice::<Document>(doc.as_bytes())?);
+                }
+            }
+        }
+
+        if !found {
+            return Err(anyhow!("{} field is missing", name));
+        }
+        Ok(result)
+    }
+
     /// Reads bytes from `reader` and deserializes them into a Message.
     pub(crate) async fn read_from<T: AsyncRead + Unpin + Send>(
         mut reader: T,
-- 
2.43.0


From 7e37827af8c6a1cab4eeda364b35a641606e59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 34/54] fix: a delete with limit 1 must delete one document
 only

---
 src/polodb/handlers/delete_handler.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index cc2fe31..95e6784 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -15,7 +15,7 @@
 use std::sync::Arc;
 use crate::handlers::{HandleContext, Handler};
 use async_trait::async_trait;
-use bson::{rawdoc, Document, RawDocumentBuf};
+use bson::{rawdoc, Bson, Document, RawDocumentBuf};
 use anyhow::{anyhow, Result};
 use polodb_core::results::DeleteResult;
 use polodb_core::CollectionT;
@@ -34,14 +34,19 @@ impl DeleteHandler {
     fn handle_delete(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, delete_doc: Document, result: &mut DeleteResult) -> Result<()> {
         let db = ctx.db();
         let filter = delete_doc.get_document("q")?;
+        let only_one = match delete_doc.get("limit") {
+            None | Some(Bson::Int32(0)) | Some(Bson::Int64(0)) => false,
+            Some(Bson::Int32(1)) | Some(Bson::Int64(1)) => true,
+            Some(_) => return Err(anyhow!("the limit of a delete must be 0 or 1")),
+        };
 
         let tmp_result = if let Some(session) = session_opt {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
             let collection = txn.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            DeleteHandler::delete(&collection, filter.clone(), only_one)?
         } else {
             let collection = db.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            DeleteHandler::delete(&collection, filter.clone(), only_one)?
         };
 
         result.deleted_count += tmp_result.deleted_count;
@@ -49,6 +54,15 @@ impl DeleteHandler {
         Ok(())
     }
 
+    fn delete(collection: &impl CollectionT<Document>, filter: Document, only_one: bool) -> Result<DeleteResult> {
+        let result = if only_one {
+            collection.delete_one(filter)?
+        } else {
+            collection.delete_many(filter)?
+        };
+        Ok(result)
+    }
+
 }
 
 #[async_trait]
-- 
2.43.0


From fbd9be97749de598873e951f42b2403fb5686751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 35/54] fix: the update command must respect its transaction,
 multi and upsert, and report n

---
 src/polodb/handlers/update_handler.rs | 46 +++++++++++++++++++++------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index 73bc71e..15957a1 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -18,10 +18,12 @@ use crate::handlers::{HandleContext, Handler};
 use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
+use polodb_core::options::UpdateOptions;
 use polodb_core::results::UpdateResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
 use crate::reply::Reply;
+use crate::session_context::SessionContext;
 
 pub(crate) struct UpdateHandler {}
 
@@ -31,22 +33,48 @@ impl UpdateHandler {
         Arc::new(UpdateHandler {})
     }
 
-    fn handle_update(ctx: AppContext, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
-        let db = ctx.db();
-        let collection = db.collection::<Document>(col_name);
-
+    fn handle_update(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
         let filter = update.get("q").ok_or(anyhow!("update document missing q field"))?;
-        let update = update.get("u").ok_or(anyhow!("update document missing u field"))?;
+        let update_doc = update.get("u").ok_or(anyhow!("update document missing u field"))?;
 
-        let filter_doc = filter.as_document().ok_or(anyhow!("q field is not a document"))?;
-        let update_doc = update.as_document().ok_or(anyhow!("u field is not a document"))?;
+        let filter = filter.as_document().ok_or(anyhow!("q field is not a document"))?.clone();
+        let update_doc = update_doc.as_document().ok_or(anyhow!("u field is not a document"))?.clone();
+        let multi = UpdateHandler::get_flag(&update, "multi")?;
+        let options = UpdateOptions::builder()
+            .upsert(UpdateHandler::get_flag(&update, "upsert")?)
+            .build();
 
-        let tmp_result = collection.update_many(filter_doc.clone(), update_doc.clone())?;
+        let tmp_result = if let Some(session) = session_opt {
+            let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
+            let collection = txn.collection::<Document>(col_name);
+            UpdateHandler::update(&collection, filter, update_doc, options, multi)?
+        } else {
+            let db = ctx.db();
+            let collection = db.collection::<Document>(col_name);
+            UpdateHandler::update(&collection, filter, update_doc, options, multi)?
+        };
+        result.matched_count += tmp_result.matched_count;
         result.modified_count += tmp_result.modified_count;
 
         Ok(())
     }
 
+    fn update(collection: &impl CollectionT<Document>, filter: Document, update: Document, options: UpdateOptions, multi: bool) -> Result<UpdateResult> {
+        let result = if multi {
+            collection.update_many_with_options(filter, update, options)?
+        } else {
+            collection.update_one_with_options(filter, update, options)?
+        };
+        Ok(result)
+    }
+
+    fn get_flag(update: &Document, name: &str) -> Result<bool> {
+        match update.get(name) {
+            None => Ok(false),
+            Some(val) => val.as_bool().ok_or_else(|| anyhow!("{} field is not a boolean", name)),
+        }
+    }
+
 }
 
 #[async_trait]
@@ -66,7 +94,7 @@ impl Handler for UpdateHandler {
         let mut update_result = UpdateResult::default();
 
         for d in ctx.message.get_documents("updates")? {
-            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, d, &mut update_result)?;
+            UpdateHandler::handle_update(ctx.app_context.clone(), &ctx.session, collection_name, d, &mut update_result)?;
         }
         debug!("update result: {:?}", update_result);
 
-- 
2.43.0


From 4190bc7c7ef2eda6c7f61c25d836b478edd05e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 36/54] fix: a server cursor must end with its last document
 and respect the batch size

---
 src/polodb/handlers/aggregate_handler.rs | 21 ++++++-----
 src/polodb/handlers/find_handler.rs      | 44 +++++++++++++-----------
 2 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/polodb/handlers/aggregate_handler.rs b/src/polodb/handlers/aggregate_handler.rs
index e2a78c4..6921681 100644
--- a/src/polodb/handlers/aggregate_handler.rs
+++ b/src/polodb/handlers/aggregate_handler.rs
@@ -1,9 +1,9 @@
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
 use async_trait::async_trait;
 use anyhow::{anyhow, Result};
-use bson::{rawdoc, Document, RawDocumentBuf};
+use bson::{rawdoc, Document, RawBsonRef, RawDocumentBuf};
 use polodb_core::CollectionT;
-use crate::handlers::{FindHandler, HandleContext, Handler};
+use crate::handlers::{FindHandler, HandleContext, Handler, DEFAULT_BATCH_SIZE};
 use crate::reply::Reply;
 
 pub(crate) struct AggregateHandle;
@@ -30,9 +30,13 @@ impl Handler for AggregateHandle {
         let req_id = ctx.message.request_id.unwrap();
         let col_name = ctx.message.document_payload.get_str("aggregate")?;
 
-        let batch_size = -1;
-
         let doc = &ctx.message.document_payload;
+        let batch_size = match doc.get("cursor")? {
+            Some(RawBsonRef::Document(options)) => {
+                options.get("batchSize")?.and_then(|val| val.as_i32()).unwrap_or(DEFAULT_BATCH_SIZE)
+            },
+            _ => DEFAULT_BATCH_SIZE,
+        };
         let db_name = match doc.get("$db")? {
             Some(val) => {
                 val.as_str().ok_or(anyhow!("$db is not a string"))?
@@ -63,12 +67,7 @@ impl Handler for AggregateHandle {
             collection.aggregate(pipeline_arr).run()?
         };
 
-        let cursor = Arc::new(Mutex::new(cursor));
-        let cursor_id = ctx.app_context.save_cursor(cursor.clone());
-        let cursor_doc = {
-            let mut cursor_guard = cursor.lock().unwrap();
-            FindHandler::mk_cursor_doc(cursor_id, db_name, col_name, &mut cursor_guard, batch_size as isize)?
-        };
+        let cursor_doc = FindHandler::open_cursor(ctx, db_name, col_name, cursor, batch_size as isize)?;
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 2f4ef5b..2caac81 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -30,7 +30,8 @@ impl FindHandler {
     }
 
     fn handle_single_batch(ctx: &HandleContext, db_name: &str, col_name: &str, cursor: &mut ClientCursor<Document>) -> Result<Reply> {
-        let cursor_doc = FindHandler::mk_cursor_doc(0, db_name, col_name, cursor, -1)?;
+        let (first_batch, _has_more) = FindHandler::consume_first_batch(cursor, -1)?;
+        let cursor_doc = FindHandler::mk_cursor_doc(0, db_name, col_name, first_batch);
         let body = rawdoc! {
             "ok": 1,
             "cursor": cursor_doc,
@@ -40,38 +41,45 @@ impl FindHandler {
         Ok(reply)
     }
 
-    pub(crate) fn mk_cursor_doc(cursor_id: i64, db_name: &str, col_name: &str, cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<RawDocumentBuf> {
+    /// Take the first batch of the rows. If there may be more of them, the cursor is kept
+    /// for the client, otherwise the id in the reply is 0.
+    pub(crate) fn open_cursor(ctx: &HandleContext, db_name: &str, col_name: &str, mut cursor: ClientCursor<Document>, batch_size: isize) -> Result<RawDocumentBuf> {
+        let (first_batch, has_more) = FindHandler::consume_first_batch(&mut cursor, batch_size)?;
+        let cursor_id = if has_more {
+            ctx.app_context.save_cursor(Arc::new(Mutex::new(cursor)))
+        } else {
+            0
+        };
+        Ok(FindHandler::mk_cursor_doc(cursor_id, db_name, col_name, first_batch))
+    }
+
+    fn mk_cursor_doc(cursor_id: i64, db_name: &str, col_name: &str, first_batch: RawArrayBuf) -> RawDocumentBuf {
         let mut doc = rawdoc! {};
 
-        let (first_batch, _has_more) = FindHandler::consume_first_batch(cursor, batch_size)?;
         doc.append("firstBatch", RawBson::Array(first_batch));
-        if cursor_id >= 0 {
-            doc.append("id", RawBson::from(cursor_id));
-        }
+        doc.append("id", RawBson::from(cursor_id));
 
         let ns = format!("{}.{}", db_name, col_name);
         doc.append("ns", RawBson::from(ns));
 
-        Ok(doc)
+        doc
     }
 
     fn consume_first_batch(cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<(RawArrayBuf, bool)> {
         let mut raw_arr = RawArrayBuf::new();
-        let mut has_more = false;
         let mut count: isize = 0;
 
-        while cursor.advance()? {
+        while batch_size < 0 || count < batch_size {
+            if !cursor.advance()? {
+                return Ok((raw_arr, false));
+            }
             let doc = cursor.deserialize_current()?;
             let doc_bytes = bson::to_vec(&doc)?;
             raw_arr.push(RawBson::Document(RawDocumentBuf::from_bytes(doc_bytes)?));
             count += 1;
-            if batch_size >= 0 && count >= batch_size {
-                has_more = true;
-                break;
-            }
         }
 
-        Ok((raw_arr, has_more))
+        Ok((raw_arr, true))
     }
 
 }
@@ -164,13 +172,7 @@ impl Handler for FindHandler {
         if single_batch {
             return FindHandler::handle_single_batch(ctx, db_name, collection_name, &mut cursor);
         }
-        let cursor = Arc::new(Mutex::new(cursor));
-
-        let cursor_id = ctx.app_context.save_cursor(cursor.clone());
-        let cursor_doc = {
-            let mut cursor_guard = cursor.lock().unwrap();
-            FindHandler::mk_cursor_doc(cursor_id, db_name, collection_name, &mut cursor_guard, batch_size as isize)?
-        };
+        let cursor_doc = FindHandler::open_cursor(ctx, db_name, collection_name, cursor, batch_size as isize)?;
 
         let body = rawdoc! {
             "ok": 1,
-- 
2.43.0


From 95002a509570c6aad6816c3708d57cb18adfc929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 37/54] fix: limit, skip and batchSize of any numeric type
 count, invalid ones are errors

---
 src/polodb/handlers/aggregate_handler.rs |  5 ++-
 src/polodb/handlers/find_handler.rs      | 52 ++++++++----------------
 src/polodb/handlers/get_more_handler.rs  | 16 +++-----
 src/polodb/handlers/mod.rs               |  2 +-
 src/polodb/utils.rs                      | 18 +++++++-
 5 files changed, 44 insertions(+), 49 deletions(-)

diff --git a/src/polodb/handlers/aggregate_handler.rs b/src/polodb/handlers/aggregate_handler.rs
index 6921681..a34831b 100644
--- a/src/polodb/handlers/aggregate_handler.rs
+++ b/src/polodb/handlers/aggregate_handler.rs
@@ -5,6 +5,7 @@ use bson::{rawdoc, Document, RawBsonRef, RawDocumentBuf};
 use polodb_core::CollectionT;
 use crate::handlers::{FindHandler, HandleContext, Handler, DEFAULT_BATCH_SIZE};
 use crate::reply::Reply;
+use crate::utils;
 
 pub(crate) struct AggregateHandle;
 
@@ -33,7 +34,7 @@ impl Handler for AggregateHandle {
         let doc = &ctx.message.document_payload;
         let batch_size = match doc.get("cursor")? {
             Some(RawBsonRef::Document(options)) => {
-                options.get("batchSize")?.and_then(|val| val.as_i32()).unwrap_or(DEFAULT_BATCH_SIZE)
+                utils::get_count(options, "batchSize")?.unwrap_or(DEFAULT_BATCH_SIZE)
             },
             _ => DEFAULT_BATCH_SIZE,
         };
@@ -67,7 +68,7 @@ impl Handler for AggregateHandle {
             collection.aggregate(pipeline_arr).run()?
         };
 
-        let cursor_doc = FindHandler::open_cursor(ctx, db_name, col_name, cursor, batch_size as isize)?;
+        let cursor_doc = FindHandler::open_cursor(ctx, db_name, col_name, cursor, batch_size)?;
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 2caac81..4619aee 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -14,9 +14,10 @@
 
 use std::sync::{Arc, Mutex};
 use anyhow::{anyhow, Result};
-use bson::{rawdoc, Document, RawArrayBuf, RawBson, RawBsonRef, RawDocumentBuf};
+use bson::{rawdoc, Document, RawArrayBuf, RawBson, RawDocumentBuf};
 use crate::handlers::{HandleContext, Handler, DEFAULT_BATCH_SIZE};
 use crate::reply::Reply;
+use crate::utils;
 use async_trait::async_trait;
 use log::debug;
 use polodb_core::{ClientCursor, CollectionT};
@@ -29,8 +30,8 @@ impl FindHandler {
         Arc::new(FindHandler {})
     }
 
-    fn handle_single_batch(ctx: &HandleContext, db_name: &str, col_name: &str, cursor: &mut ClientCursor<Document>) -> Result<Reply> {
-        let (first_batch, _has_more) = FindHandler::consume_first_batch(cursor, -1)?;
+    fn handle_single_batch(ctx: &HandleContext, db_name: &str, col_name: &str, cursor: &mut ClientCursor<Document>, batch_size: Option<u64>) -> Result<Reply> {
+        let (first_batch, _has_more) = FindHandler::consume_first_batch(cursor, batch_size.unwrap_or(u64::MAX))?;
         let cursor_doc = FindHandler::mk_cursor_doc(0, db_name, col_name, first_batch);
         let body = rawdoc! {
             "ok": 1,
@@ -43,7 +44,7 @@ impl FindHandler {
 
     /// Take the first batch of the rows. If there may be more of them, the cursor is kept
     /// for the client, otherwise the id in the reply is 0.
-    pub(crate) fn open_cursor(ctx: &HandleContext, db_name: &str, col_name: &str, mut cursor: ClientCursor<Document>, batch_size: isize) -> Result<RawDocumentBuf> {
+    pub(crate) fn open_cursor(ctx: &HandleContext, db_name: &str, col_name: &str, mut cursor: ClientCursor<Document>, batch_size: u64) -> Result<RawDocumentBuf> {
         let (first_batch, has_more) = FindHandler::consume_first_batch(&mut cursor, batch_size)?;
         let cursor_id = if has_more {
             ctx.app_context.save_cursor(Arc::new(Mutex::new(cursor)))
@@ -65,11 +66,11 @@ impl FindHandler {
         doc
     }
 
-    fn consume_first_batch(cursor: &mut ClientCursor<Document>, batch_size: isize) -> Result<(RawArrayBuf, bool)> {
+    fn consume_first_batch(cursor: &mut ClientCursor<Document>, batch_size: u64) -> Result<(RawArrayBuf, bool)> {
         let mut raw_arr = RawArrayBuf::new();
-        let mut count: isize = 0;
+        let mut count: u64 = 0;
 
-        while batch_size < 0 || count < batch_size {
+        while count < batch_size {
             if !cursor.advance()? {
                 return Ok((raw_arr, false));
             }
@@ -122,28 +123,9 @@ impl Handler for FindHandler {
             },
         };
 
-        let limit = doc.get("limit")?.map( |val| {
-            match val {
-                RawBsonRef::Int32(val) => val as i64,
-                RawBsonRef::Int64(val) => val,
-                _ => 0,
-            }
-        });
-
-        let skip = doc.get("skip")?.map( |val| {
-            match val {
-                RawBsonRef::Int32(val) => val as i64,
-                RawBsonRef::Int64(val) => val,
-                _ => 0,
-            }
-        });
-
-        let batch_size = match doc.get("batchSize")? {
-            Some(val) => {
-                val.as_i32().unwrap_or(DEFAULT_BATCH_SIZE)
-            },
-            None => DEFAULT_BATCH_SIZE,
-        };
+        let limit = utils::get_count(doc, "limit")?;
+        let skip = utils::get_count(doc, "skip")?;
+        let batch_size = utils::get_count(doc, "batchSize")?;
 
         let session_opt = ctx.session.clone();
         debug!("find collection: {}, auto commit: {}", collection_name, ctx.auto_commit);
@@ -152,27 +134,27 @@ impl Handler for FindHandler {
             let collection = txn.collection::<Document>(collection_name);
             let mut find = collection.find(filter);
             if let Some(limit) = limit {
-                find = find.limit(limit as u64)
+                find = find.limit(limit)
             };
             if let Some(skip) = skip {
-                find = find.skip(skip as u64)
+                find = find.skip(skip)
             };
             find.run()?
         } else {
             let collection = db.collection::<Document>(collection_name);
             let mut find = collection.find(filter);
             if let Some(limit) = limit {
-                find = find.limit(limit as u64)
+                find = find.limit(limit)
             };
             if let Some(skip) = skip {
-                find = find.skip(skip as u64)
+                find = find.skip(skip)
             };
             find.run()?
         };
         if single_batch {
-            return FindHandler::handle_single_batch(ctx, db_name, collection_name, &mut cursor);
+            return FindHandler::handle_single_batch(ctx, db_name, collection_name, &mut cursor, batch_size);
         }
-        let cursor_doc = FindHandler::open_cursor(ctx, db_name, collection_name, cursor, batch_size as isize)?;
+        let cursor_doc = FindHandler::open_cursor(ctx, db_name, collection_name, cursor, batch_size.unwrap_or(DEFAULT_BATCH_SIZE))?;
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/handlers/get_more_handler.rs b/src/polodb/handlers/get_more_handler.rs
index a78c293..af94c76 100644
--- a/src/polodb/handlers/get_more_handler.rs
+++ b/src/polodb/handlers/get_more_handler.rs
@@ -6,6 +6,7 @@ use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
 use polodb_core::ClientCursor;
 use crate::reply::Reply;
+use crate::utils;
 
 pub(crate) struct GetMoreHandler {}
 
@@ -15,16 +16,16 @@ impl GetMoreHandler {
         Arc::new(GetMoreHandler {})
     }
 
-    fn mk_cursor_doc(db_name: &str, col_name: &str, batch_size: isize, cursor_id: i64, cursor: &mut ClientCursor<Document>) -> Result<(RawDocumentBuf, bool)> {
+    fn mk_cursor_doc(db_name: &str, col_name: &str, batch_size: u64, cursor_id: i64, cursor: &mut ClientCursor<Document>) -> Result<(RawDocumentBuf, bool)> {
         let mut next_batch_arr = bson::raw::RawArrayBuf::new();
-        let mut count: isize = 0;
+        let mut count: u64 = 0;
         let mut has_more = false;
         while cursor.advance()? {
             let doc = cursor.deserialize_current()?;
             let doc_bytes = bson::to_vec(&doc)?;
             next_batch_arr.push(bson::raw::RawBson::Document(RawDocumentBuf::from_bytes(doc_bytes)?));
             count += 1;
-            if batch_size >= 0 && count >= batch_size {
+            if count >= batch_size {
                 has_more = true;
                 break;
             }
@@ -70,12 +71,7 @@ impl Handler for GetMoreHandler {
             },
         };
 
-        let batch_size = match doc.get("batchSize")? {
-            Some(val) => {
-                val.as_i32().unwrap_or(DEFAULT_BATCH_SIZE)
-            },
-            None => DEFAULT_BATCH_SIZE,
-        };
+        let batch_size = utils::get_count(doc, "batchSize")?.unwrap_or(DEFAULT_BATCH_SIZE);
 
         let cursor_id = match doc.get("getMore")? {
             Some(v) => {
@@ -87,7 +83,7 @@ impl Handler for GetMoreHandler {
         let (cursor_doc, has_more) = {
             let cursor = ctx.app_context.get_cursor(cursor_id).ok_or(anyhow::anyhow!("cursor not found"))?;
             let mut cursor_guard = cursor.lock().unwrap();
-            GetMoreHandler::mk_cursor_doc(db_name, collection, batch_size as isize, cursor_id, &mut cursor_guard)?
+            GetMoreHandler::mk_cursor_doc(db_name, collection, batch_size, cursor_id, &mut cursor_guard)?
         };
 
         if !has_more {
diff --git a/src/polodb/handlers/mod.rs b/src/polodb/handlers/mod.rs
index 6c95493..2d65cb2 100644
--- a/src/polodb/handlers/mod.rs
+++ b/src/polodb/handlers/mod.rs
@@ -31,7 +31,7 @@ pub(crate) use ping_handler::PingHandler;
 use crate::app_context::AppContext;
 use crate::session_context::SessionContext;
 
-pub(crate) const DEFAULT_BATCH_SIZE: i32 = 101;
+pub(crate) const DEFAULT_BATCH_SIZE: u64 = 101;
 
 pub(crate) struct HandleContext<'a> {
     pub(crate) app_context: AppContext,
diff --git a/src/polodb/utils.rs b/src/polodb/utils.rs
index 34c0909..0aa69a7 100644
--- a/src/polodb/utils.rs
+++ b/src/polodb/utils.rs
@@ -1,4 +1,5 @@
-use bson::{Bson, RawBsonRef, uuid};
+use anyhow::{anyhow, Result};
+use bson::{Bson, RawBsonRef, RawDocument, uuid};
 
 pub(crate) fn truly_value_for_bson_ref(r: Option<RawBsonRef>, default: bool) -> bool {
     match r {
@@ -15,6 +16,21 @@ pub(crate) fn truly_value_for_bson_ref(r: Option<RawBsonRef>, default: bool) ->
     }
 }
 
+/// A number of documents: drivers send it as any of the numeric types.
+pub(crate) fn get_count(doc: &RawDocument, name: &str) -> Result<Option<u64>> {
+    let count = match doc.get(name)? {
+        None => return Ok(None),
+        Some(RawBsonRef::Int32(i)) => i as i64,
+        Some(RawBsonRef::Int64(i)) => i,
+        Some(RawBsonRef::Double(d)) if d.fract() == 0.0 && d.abs() < i64::MAX as f64 => d as i64,
+        Some(_) => return Err(anyhow!("{} field is not an integer", name)),
+    };
+    if count < 0 {
+        return Err(anyhow!("{} field must not be negative", name));
+    }
+    Ok(Some(count as u64))
+}
+
 pub(crate) fn uuid_from_bson(r: &Bson) -> Option<uuid::Uuid> {
     match r {
         Bson::Binary(bin) => {
-- 
2.43.0


From d9aba25b943e95730937e29061992bf65af1b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:43 +0000
Subject: [PATCH 38/54] fix: the find command must sort

---
 src/polodb/handlers/find_handler.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 4619aee..7cfb250 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -123,6 +123,14 @@ impl Handler for FindHandler {
             },
         };
 
+        let sort = match doc.get("sort")? {
+            Some(val) => {
+                let doc = val.as_document().ok_or(anyhow!("sort is not a document"))?;
+                Some(bson::from_slice::<bson::Document>(doc.as_bytes())?)
+            },
+            None => None,
+        };
+
         let limit = utils::get_count(doc, "limit")?;
         let skip = utils::get_count(doc, "skip")?;
         let batch_size = utils::get_count(doc, "batchSize")?;
@@ -133,6 +141,9 @@ impl Handler for FindHandler {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not started"))?;
             let collection = txn.collection::<Document>(collection_name);
             let mut find = collection.find(filter);
+            if let Some(sort) = sort {
+                find = find.sort(sort)
+            };
             if let Some(limit) = limit {
                 find = find.limit(limit)
             };
@@ -143,6 +154,9 @@ impl Handler for FindHandler {
         } else {
             let collection = db.collection::<Document>(collection_name);
             let mut find = collection.find(filter);
+            if let Some(sort) = sort {
+                find = find.sort(sort)
+            };
             if let Some(limit) = limit {
                 find = find.limit(limit)
             };
-- 
2.43.0


From d4f245e14081b62117e2782a9e765dc4e631eed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:26 +0000
Subject: [PATCH 39/54] fix: a command that fails before its handler runs must
 be answered with an error

---
 src/polodb/main.rs | 113 ++++++++++++++++++++++-----------------------
 1 file changed, 55 insertions(+), 58 deletions(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index d40877a..33d0c9d 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -192,66 +192,63 @@ async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext
 }
 
 async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, stream: &mut W, message: wire::Message) -> Result<()> {
-    let handler = ctx.get_handlers(&message.document_payload)?;
-    if let Some(handler) = handler {
-        let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
-        let session = if start_transaction {
-            let lsid = message.document_payload.get_document("lsid")?;
-            let lsid_doc = bson::from_slice::<Document>(lsid.as_bytes())?;
-            let id = uuid_from_bson(
-                lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
-            ).ok_or(anyhow!("lsid missing id field"))?;
-            info!("=== start transaction: {:?}, id: {:?}", lsid_doc, id);
-            let txn = ctx.db().start_transaction()?;
-            Some(ctx.create_session(id, txn))
-        } else {
-            let lsid_opt = message.document_payload.get("lsid")?;
-            match lsid_opt {
-                Some(RawBsonRef::Document(lsid_doc)) => {
-                    let lsid_doc = bson::from_slice::<Document>(lsid_doc.as_bytes())?;
-                    let id = uuid_from_bson(
-                        lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
-                    ).ok_or(anyhow!("lsid missing id field"))?;
-                    ctx.get_session(&id)
-                }
-                _ => None
-            }
-        };
-        let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
-
-        let ctx = HandleContext {
-            app_context: ctx.clone(),
-            conn_id,
-            message: &message,
-            session,
-            auto_commit,
-        };
-        let reply_result = handler.handle(&ctx).await;
-        match reply_result {
-            Ok(reply) => {
-                reply.write_to(stream).await?;
-            }
-            Err(e) => {
-                log::error!("handler error: {:?}", e);
-                let doc = rawdoc! {
-                    "ok": 0,
-                    "errmsg": e.to_string(),
-                    "code": 1,
-                };
-                let reply = Reply::new(message.request_id.unwrap(), doc);
-                reply.write_to(stream).await?;
-            }
+    let reply = match run_command(ctx, conn_id, &message).await {
+        Ok(reply) => reply,
+        Err(e) => {
+            log::error!("handler error: {:?}", e);
+            let doc = rawdoc! {
+                "ok": 0,
+                "errmsg": e.to_string(),
+                "code": 1,
+            };
+            Reply::new(message.request_id.unwrap(), doc)
         }
+    };
+    reply.write_to(stream).await
+}
+
+async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) -> Result<Reply> {
+    let handler = match ctx.get_handlers(&message.document_payload)? {
+        Some(handler) => handler,
+        None => {
+            log::error!("no handler found for message: {:?}", message);
+            return Err(anyhow!("no handler found"));
+        }
+    };
+
+    let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
+    let session = if start_transaction {
+        let lsid = message.document_payload.get_document("lsid")?;
+        let lsid_doc = bson::from_slice::<Document>(lsid.as_bytes())?;
+        let id = uuid_from_bson(
+            lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
+        ).ok_or(anyhow!("lsid missing id field"))?;
+        info!("=== start transaction: {:?}, id: {:?}", lsid_doc, id);
+        let txn = ctx.db().start_transaction()?;
+        Some(ctx.create_session(id, txn))
     } else {
-        log::error!("no handler found for message: {:?}", message);
-        let doc = rawdoc! {
-            "ok": 0,
-            "errmsg": "no handler found",
-        };
-        let reply = Reply::new(message.request_id.unwrap(), doc);
-        reply.write_to(stream).await?;
-    }
-    Ok(())
+        let lsid_opt = message.document_payload.get("lsid")?;
+        match lsid_opt {
+            Some(RawBsonRef::Document(lsid_doc)) => {
+                let lsid_doc = bson::from_slice::<Document>(lsid_doc.as_bytes())?;
+                let id = uuid_from_bson(
+                    lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
+                ).ok_or(anyhow!("lsid missing id field"))?;
+                ctx.get_session(&id)
+            }
+            _ => None
+        }
+    };
+    let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
+
+    let ctx = HandleContext {
+        app_context: ctx.clone(),
+        conn_id,
+        message,
+        session,
+        auto_commit,
+    };
+    handler.handle(&ctx).await
 }
 
 #[cfg(test)]
-- 
2.43.0


From b1c1c05665c70284bab2b3785809af7c47becde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:51 +0000
Subject: [PATCH 40/54] fix: a message with moreToCome must not be replied to

---
 src/polodb/main.rs     | 7 ++++++-
 src/polodb/wire/mod.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 33d0c9d..10347d6 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -192,6 +192,8 @@ async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext
 }
 
 async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, stream: &mut W, message: wire::Message) -> Result<()> {
+    // the client does not wait for a reply then
+    let needs_reply = !message.flags.contains(wire::MessageFlags::MORE_TO_COME);
     let reply = match run_command(ctx, conn_id, &message).await {
         Ok(reply) => reply,
         Err(e) => {
@@ -204,7 +206,10 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
             Reply::new(message.request_id.unwrap(), doc)
         }
     };
-    reply.write_to(stream).await
+    if needs_reply {
+        reply.write_to(stream).await?;
+    }
+    Ok(())
 }
 
 async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) -> Result<Reply> {
diff --git a/src/polodb/wire/mod.rs b/src/polodb/wire/mod.rs
index 9bb7873..289532c 100644
--- a/src/polodb/wire/mod.rs
+++ b/src/polodb/wire/mod.rs
@@ -5,5 +5,5 @@ mod util;
 
 pub(crate) use util::next_request_id;
 pub(crate) use header::{Header, OpCode};
-pub(crate) use message::Message;
+pub(crate) use message::{Message, MessageFlags};
 
-- 
2.43.0


From 73628f0880995f3e71d8178df25d635da263a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 41/54] fix: a session must leave its transaction when that
 ends, and commands join the one they name

---
 src/polodb/app_context.rs                 | 10 ++++---
 src/polodb/handlers/abort_transaction.rs  |  8 +++++-
 src/polodb/handlers/commit_transaction.rs |  4 ++-
 src/polodb/main.rs                        | 32 +++++++++++------------
 src/polodb/session_context.rs             |  9 ++++++-
 5 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/polodb/app_context.rs b/src/polodb/app_context.rs
index 6b97458..9192226 100644
--- a/src/polodb/app_context.rs
+++ b/src/polodb/app_context.rs
@@ -82,10 +82,14 @@ impl AppContext {
         }
     }
 
-    pub(crate) fn create_session(&self, uuid: Uuid, txn: Transaction) -> SessionContext {
-        let result = SessionContext::new(txn);
+    pub(crate) fn create_session(&self, uuid: Uuid, txn_number: Option<u64>, txn: Transaction) -> SessionContext {
+        let result = SessionContext::new(txn_number, txn);
         let mut session_ctx = self.inner.session_ctx.lock().unwrap();
-        session_ctx.insert(uuid, result.clone());
+        let previous = session_ctx.insert(uuid, result.clone());
+        // a session has one transaction at a time, the next one ends it
+        if let Some(txn) = previous.and_then(|session| session.get_transaction()) {
+            let _ = txn.rollback();
+        }
         result
     }
 
diff --git a/src/polodb/handlers/abort_transaction.rs b/src/polodb/handlers/abort_transaction.rs
index 4047ab9..aca9aa1 100644
--- a/src/polodb/handlers/abort_transaction.rs
+++ b/src/polodb/handlers/abort_transaction.rs
@@ -21,7 +21,13 @@ impl Handler for AbortTransactionHandler {
     fn test(&self, doc: &RawDocumentBuf) -> anyhow::Result<bool> {
         let val = doc.get("abortTransaction")?;
         match val {
-            Some(r) => Ok(r.as_i64().is_some()),
+            Some(r) => {
+                match r {
+                    bson::RawBsonRef::Int32(i) => Ok(i == 1),
+                    bson::RawBsonRef::Int64(i) => Ok(i == 1),
+                    _ => Ok(false),
+                }
+            },
             None => Ok(false),
         }
     }
diff --git a/src/polodb/handlers/commit_transaction.rs b/src/polodb/handlers/commit_transaction.rs
index 37f5d2e..7730428 100644
--- a/src/polodb/handlers/commit_transaction.rs
+++ b/src/polodb/handlers/commit_transaction.rs
@@ -36,7 +36,9 @@ impl Handler for CommitTransactionHandler {
         let req_id = ctx.message.request_id.unwrap();
         let session = ctx.session.as_ref().ok_or(anyhow!("session not found"))?;
         let conn_ctx = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
-        conn_ctx.commit()?;
+        let result = conn_ctx.commit();
+        session.clear_transaction();
+        result?;
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 10347d6..bd097a6 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -41,7 +41,7 @@ mod session_context;
 
 use std::net::SocketAddr;
 use polodb_core::Database;
-use bson::{rawdoc, Document, RawBsonRef};
+use bson::{rawdoc, Document};
 use clap::{Arg, Command as App};
 use anyhow::{Result, anyhow};
 use tokio::io::{AsyncRead, AsyncWrite};
@@ -221,30 +221,30 @@ async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) ->
         }
     };
 
+    let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
     let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
-    let session = if start_transaction {
+    // a command of a session is part of its transaction only if it says so
+    let session = if start_transaction || !auto_commit {
         let lsid = message.document_payload.get_document("lsid")?;
         let lsid_doc = bson::from_slice::<Document>(lsid.as_bytes())?;
         let id = uuid_from_bson(
             lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
         ).ok_or(anyhow!("lsid missing id field"))?;
-        info!("=== start transaction: {:?}, id: {:?}", lsid_doc, id);
-        let txn = ctx.db().start_transaction()?;
-        Some(ctx.create_session(id, txn))
-    } else {
-        let lsid_opt = message.document_payload.get("lsid")?;
-        match lsid_opt {
-            Some(RawBsonRef::Document(lsid_doc)) => {
-                let lsid_doc = bson::from_slice::<Document>(lsid_doc.as_bytes())?;
-                let id = uuid_from_bson(
-                    lsid_doc.get("id").ok_or(anyhow!("lsid missing id field"))?,
-                ).ok_or(anyhow!("lsid missing id field"))?;
-                ctx.get_session(&id)
+        let txn_number = utils::get_count(&message.document_payload, "txnNumber")?;
+        if start_transaction {
+            info!("=== start transaction: {:?}, id: {:?}", lsid_doc, id);
+            let txn = ctx.db().start_transaction()?;
+            Some(ctx.create_session(id, txn_number, txn))
+        } else {
+            let session = ctx.get_session(&id).ok_or(anyhow!("transaction not found"))?;
+            if session.get_transaction().is_none() || session.txn_number() != txn_number {
+                return Err(anyhow!("transaction not found"));
             }
-            _ => None
+            Some(session)
         }
+    } else {
+        None
     };
-    let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
 
     let ctx = HandleContext {
         app_context: ctx.clone(),
diff --git a/src/polodb/session_context.rs b/src/polodb/session_context.rs
index 0db9821..5a2c62d 100644
--- a/src/polodb/session_context.rs
+++ b/src/polodb/session_context.rs
@@ -8,14 +8,19 @@ pub(crate) struct SessionContext {
 
 impl SessionContext {
 
-    pub(crate) fn new(txn: Transaction) -> SessionContext {
+    pub(crate) fn new(txn_number: Option<u64>, txn: Transaction) -> SessionContext {
         SessionContext {
             inner: Arc::new(SessionContextInner {
+                txn_number,
                 txn: Mutex::new(Some(txn)),
             }),
         }
     }
 
+    pub(crate) fn txn_number(&self) -> Option<u64> {
+        self.inner.txn_number
+    }
+
     pub(crate) fn get_transaction(&self) -> Option<Transaction> {
         let txn = self.inner.txn.lock().unwrap();
         txn.clone()
@@ -33,6 +38,7 @@ impl Default for SessionContext {
     fn default() -> Self {
         SessionContext {
             inner: Arc::new(SessionContextInner {
+                txn_number: None,
                 txn: Mutex::new(None),
             }),
         }
@@ -41,5 +47,6 @@ impl Default for SessionContext {
 }
 
 struct SessionContextInner {
+    txn_number: Option<u64>,
     txn: Mutex<Option<Transaction>>,
 }
-- 
2.43.0


From e691249eef513452bae19d73e0679a8d9f676aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 42/54] fix: a torn log must not make the next recovery drop
 the logs after it

---
 src/polodb_core/db/rocksdb_wrapper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/polodb_core/db/rocksdb_wrapper.rs b/src/polodb_core/db/rocksdb_wrapper.rs
index c8b8458..20a327c 100644
--- a/src/polodb_core/db/rocksdb_wrapper.rs
+++ b/src/polodb_core/db/rocksdb_wrapper.rs
@@ -87,6 +87,11 @@ impl RocksDBWrapperInner {
             let txn_db_opts = ffi::rocksdb_transactiondb_options_create();
             let options = ffi::rocksdb_options_create();
             ffi::rocksdb_options_set_create_if_missing(options, 1);
+            // kTolerateCorruptedTailRecords: every write is synced before it is
+            // acknowledged, so only the tail of a log can be torn by a crash.
+            // The default (kPointInTimeRecovery) gives up at a log of which not
+            // even the first record is complete, and drops the logs after it.
+            ffi::rocksdb_options_set_wal_recovery_mode(options, 0);
             let mut err: *mut c_char = ptr::null_mut();
             let path_c = CString::new(path.clone()).unwrap();
             let db = ffi::rocksdb_transactiondb_open(options, txn_db_opts, path_c.as_ptr(), &mut err);
-- 
2.43.0


From a40d02465820767983660e9dc0b5477ce2796f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 43/54] fix: dropping a collection in a transaction must not
 leave deleted documents in its view

---
 src/polodb_core/db/db_inner.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 75cf3b3..5d46ae7 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -722,13 +722,22 @@ impl DatabaseInner {
 
         {
             let mut txn = txn.clone();
+            let auto_commit = txn.is_auto_commit();
             txn.set_auto_commit(false);
             let mut vm = VM::new(
                 txn.clone(),
                 subprogram,
                 self.metrics.clone(),
             );
-            txn.rocksdb_txn.with_latest(|| vm.execute())?;
+            let snapshot = Cursor::new_with_str_prefix(col_name, txn.rocksdb_txn.new_iterator())?;
+            txn.rocksdb_txn.with_latest(|| {
+                if !auto_commit {
+                    // the transaction goes on to read from the snapshot
+                    let latest = Cursor::new_with_str_prefix(col_name, txn.rocksdb_txn.new_iterator())?;
+                    DatabaseInner::check_same_content(snapshot, latest)?;
+                }
+                vm.execute()
+            })?;
         } // Delete content end
 
         Ok(())
-- 
2.43.0


From 04fea59cf3b148deebbc85ecf0486e17cb1856aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 44/54] fix: Python: a row which can not be read raises an
 exception instead of panicking

---
 py-polodb/src/py_database.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index 160142f..de33ec7 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -13,6 +13,19 @@ use pyo3::IntoPyObjectExt;
 use std::path::Path;
 use std::sync::{Arc, Mutex};
 
+/// Reading a row may fail, for example because its value can not be compared.
+fn rows_to_pydicts(
+    py: Python<'_>,
+    rows: impl Iterator<Item = polodb_core::Result<Document>>,
+    what: &str,
+) -> PyResult<Vec<Py<PyDict>>> {
+    rows.map(|row| match row {
+        Ok(doc) => document_to_pydict(py, doc),
+        Err(err) => Err(PyRuntimeError::new_err(format!("{}: {}", what, err))),
+    })
+    .collect()
+}
+
 #[pyclass]
 pub struct PyCollection {
     inner: Arc<Collection<Document>>, // Use Arc for thread-safe shared ownership
@@ -143,9 +156,7 @@ impl PyCollection {
         let pipeline_documents = convert_py_list_to_vec_document(pipeline.bind(py))?;
         match self.inner.aggregate(pipeline_documents).run() {
             Ok(agg_cursor) => {
-                let vec_res: Vec<Py<PyDict>> = agg_cursor
-                    .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
-                    .collect();
+                let vec_res = rows_to_pydicts(py, agg_cursor, "Error in Aggregate")?;
                 vec_res.into_py_any(py)
             }
             Err(e) => Err(PyErr::new::<pyo3::exceptions::PyRuntimeError, _>(format!(
@@ -180,9 +191,7 @@ impl PyCollection {
         match self.inner.find(filter_doc).run() {
             Ok(result_doc) => {
                 // Convert BSON Document to Python Dict
-                let py_result: Vec<Py<PyDict>> = result_doc
-                    .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
-                    .collect();
+                let py_result = rows_to_pydicts(py, result_doc, "Find error")?;
                 // let py_result = document_to_pydict(py, result_doc).unwrap();
                 Ok(Some(py_result.into_py_any(py)?))
             }
-- 
2.43.0


From 03d3fa95bcf03167c62de18cf0afdc4f31375704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 45/54] fix: Python: integers of more than 64 bits are refused
 instead of being rounded to a float

---
 py-polodb/src/helper_type_translator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 3574c77..d2a4850 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -2,7 +2,7 @@ use polodb_core::bson::{Bson, Document};
 use polodb_core::results;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
-use pyo3::types::{PyAny, PyBool, PyBytes, PyFloat, PyList, PyString};
+use pyo3::types::{PyAny, PyBool, PyBytes, PyFloat, PyInt, PyList, PyString};
 use pyo3::IntoPyObjectExt;
 
 pub fn convert_py_list_to_vec_document(py_list: &Bound<'_, PyList>) -> PyResult<Vec<Document>> {
@@ -35,6 +35,11 @@ pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
         Ok(Bson::Boolean(rust_bool))
     } else if let Ok(rust_int) = py_obj.extract::<i64>() {
         Ok(Bson::Int64(rust_int))
+    } else if py_obj.is_instance_of::<PyInt>() {
+        // it does not fit into 64 bits, a float would be another value
+        Err(PyErr::new::<pyo3::exceptions::PyOverflowError, _>(
+            "Python int too large for a BSON integer",
+        ))
     } else if let Ok(rust_float) = py_obj.extract::<f64>() {
         Ok(Bson::Double(rust_float))
     } else if let Ok(dict) = py_obj.cast::<PyDict>() {
-- 
2.43.0


From b7aabea468c150e49a6d71b5a066842a0a063832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 46/54] fix: Python: dates are returned as datetime, and a
 value Python can not represent raises instead of panicking

---
 py-polodb/src/helper_type_translator.rs | 28 ++++++++++++++-----------
 py-polodb/src/py_database.rs            |  6 +++---
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index d2a4850..fd683ce 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -90,14 +90,14 @@ pub fn update_result_to_pydict(
 pub fn document_to_pydict(py: Python<'_>, doc: Document) -> PyResult<Py<PyDict>> {
     let py_dict = PyDict::new(py);
     for (key, value) in doc {
-        let py_value = bson_to_py_obj(py, &value);
+        let py_value = bson_to_py_obj(py, &value)?;
         py_dict.set_item(key, py_value)?;
     }
     Ok(py_dict.into())
 }
 
-pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
-    match bson {
+pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> PyResult<Py<PyAny>> {
+    let py_obj = match bson {
         Bson::Null => py.None(),
         Bson::Int32(i) => i.into_py_any(py).unwrap(),
         Bson::Int64(i) => i.into_py_any(py).unwrap(),
@@ -108,22 +108,21 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
             // Create an empty PyList without specifying a slice
             let py_list = PyList::empty(py);
             for item in arr {
-                py_list.append(bson_to_py_obj(py, item)).unwrap();
+                py_list.append(bson_to_py_obj(py, item)?)?;
             }
             py_list.into_any().unbind()
         }
         Bson::Document(doc) => {
             let py_dict = PyDict::new(py);
             for (key, value) in doc.iter() {
-                py_dict.set_item(key, bson_to_py_obj(py, value)).unwrap();
+                py_dict.set_item(key, bson_to_py_obj(py, value)?)?;
             }
             py_dict.into_any().unbind()
         }
         Bson::RegularExpression(regex) => {
-            let re_module = py.import("re").unwrap();
+            let re_module = py.import("re")?;
             re_module
-                .call_method1("compile", (regex.pattern.as_str(),))
-                .unwrap()
+                .call_method1("compile", (regex.pattern.as_str(),))?
                 .into_any()
                 .unbind()
         }
@@ -133,9 +132,13 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
         Bson::Binary(bin) => PyBytes::new(py, &bin.bytes).into_any().unbind(),
         Bson::ObjectId(oid) => PyString::new(py, &oid.to_hex()).into_any().unbind(),
         Bson::DateTime(dt) => {
-            let timestamp = dt.timestamp_millis() / 1000;
-            let datetime = py.import("datetime").unwrap().getattr("datetime").unwrap();
-            datetime.call1((timestamp,)).unwrap().into_any().unbind()
+            let millis = dt.timestamp_millis();
+            let module = py.import("datetime")?;
+            let utc = module.getattr("timezone")?.getattr("utc")?;
+            let epoch = module.getattr("datetime")?.call1((1970, 1, 1, 0, 0, 0, 0, utc))?;
+            let args = (millis.div_euclid(86_400_000), 0, 0, millis.rem_euclid(86_400_000));
+            let since_epoch = module.getattr("timedelta")?.call1(args)?;
+            epoch.add(since_epoch)?.unbind()
         }
         Bson::Symbol(s) => PyString::new(py, s).into_any().unbind(),
 
@@ -149,5 +152,6 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
         Bson::MinKey => py.None(),
 
         _ => py.None(), // Handle other BSON types as needed
-    }
+    };
+    Ok(py_obj)
 }
diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index de33ec7..2e2e11f 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -89,7 +89,7 @@ impl PyCollection {
             Ok(result) => {
                 let dict = PyDict::new(py);
                 for (key, value) in &result.inserted_ids {
-                    dict.set_item(key, bson_to_py_obj(py, value))?;
+                    dict.set_item(key, bson_to_py_obj(py, value)?)?;
                 }
                 Ok(dict.into_any().unbind())
             }
@@ -114,7 +114,7 @@ impl PyCollection {
         };
         match self.inner.insert_one(bson_doc) {
             Ok(result) => {
-                let py_inserted_id = bson_to_py_obj(py, &result.inserted_id);
+                let py_inserted_id = bson_to_py_obj(py, &result.inserted_id)?;
                 let dict = PyDict::new(py);
                 dict.set_item("inserted_id", py_inserted_id)?;
                 Ok(dict.into_any().unbind())
@@ -173,7 +173,7 @@ impl PyCollection {
         match self.inner.find_one(filter_doc) {
             Ok(Some(result_doc)) => {
                 // Convert BSON Document to Python Dict
-                let py_result = document_to_pydict(py, result_doc).unwrap();
+                let py_result = document_to_pydict(py, result_doc)?;
                 Ok(Some(py_result.into_any()))
             }
             Ok(None) => Ok(None), // Return None if no document is found
-- 
2.43.0


From 7fe95dfbc7d04a9c671304c6b79b4cd563e275b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 47/54] fix: Python: a regular expression keeps its options

---
 py-polodb/src/helper_type_translator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index fd683ce..6e3670c 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -121,8 +121,14 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> PyResult<Py<PyAny>> {
         }
         Bson::RegularExpression(regex) => {
             let re_module = py.import("re")?;
+            let mut flags = 0i32;
+            for (option, name) in [('i', "I"), ('m', "M"), ('s', "S"), ('x', "X")] {
+                if regex.options.as_str().contains(option) {
+                    flags |= re_module.getattr(name)?.extract::<i32>()?;
+                }
+            }
             re_module
-                .call_method1("compile", (regex.pattern.as_str(),))?
+                .call_method1("compile", (regex.pattern.as_str(), flags))?
                 .into_any()
                 .unbind()
         }
-- 
2.43.0


From f29ac326a9c3d0dac332b2630e7d378655a61f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 48/54] fix: Python: entering the database as a context does
 not open it again

---
 py-polodb/polodb/core.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/py-polodb/polodb/core.py b/py-polodb/polodb/core.py
index e0de4ec..79e8b89 100644
--- a/py-polodb/polodb/core.py
+++ b/py-polodb/polodb/core.py
@@ -9,7 +9,6 @@ class PoloDB:
         self.__rust_db = PyDatabase(self._path)
 
     def __enter__(self):
-        self.__rust_db = PyDatabase(self._path)
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From 52fb3df0facb86fbb31963a40f49db4fd5281cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 49/54] fix: Python: creating a collection reports errors

---
 py-polodb/src/py_database.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index 2e2e11f..31e6f1b 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -240,8 +240,14 @@ impl PyDatabase {
     }
 
     pub fn create_collection(&self, name: &str) -> PyResult<()> {
-        let _ = self.inner.lock().unwrap().create_collection(name);
-        Ok(())
+        match self.inner.lock().unwrap().create_collection(name) {
+            // another thread may have created it
+            Ok(()) | Err(polodb_core::Error::CollectionAlreadyExits(_)) => Ok(()),
+            Err(e) => Err(PyRuntimeError::new_err(format!(
+                "Create collection error: {}",
+                e
+            ))),
+        }
     }
 
     fn collection(&self, name: &str) -> PyResult<PyCollection> {
-- 
2.43.0


From 4258377e5fff538edac4047c3d0be45296fdef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 50/54] fix: a transaction can be used by several threads

---
 src/polodb_core/action/aggregate.rs              |  2 ++
 src/polodb_core/action/find.rs                   |  2 ++
 src/polodb_core/coll/txn_collection.rs           |  1 +
 src/polodb_core/db/client_cursor.rs              |  7 +++++++
 src/polodb_core/db/db_inner.rs                   |  4 ++--
 src/polodb_core/transaction/transaction_inner.rs | 12 ++++++++++++
 src/polodb_core/vm/vm.rs                         |  4 ++++
 7 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/action/aggregate.rs b/src/polodb_core/action/aggregate.rs
index b392275..c340d3d 100644
--- a/src/polodb_core/action/aggregate.rs
+++ b/src/polodb_core/action/aggregate.rs
@@ -46,6 +46,8 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Aggregate<'a, 'b, T> {
                 db.start_transaction()?
             }
         };
+        let operation = txn.clone();
+        let _guard = operation.lock_operation();
         db.aggregate_with_owned_session(self.name, self.pipeline, txn.clone())
     }
 
diff --git a/src/polodb_core/action/find.rs b/src/polodb_core/action/find.rs
index 44c28c5..2ebf811 100644
--- a/src/polodb_core/action/find.rs
+++ b/src/polodb_core/action/find.rs
@@ -68,6 +68,8 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Find<'a, 'b, T> {
                 db.start_transaction()?
             }
         };
+        let operation = txn.clone();
+        let _guard = operation.lock_operation();
         match (self.skip.as_ref(), self.limit.as_ref(), self.sort.as_ref()) {
             (None, None, None) => {
                 db.find_with_owned_session(self.name, self.filter, txn)
diff --git a/src/polodb_core/coll/txn_collection.rs b/src/polodb_core/coll/txn_collection.rs
index e931182..d979077 100644
--- a/src/polodb_core/coll/txn_collection.rs
+++ b/src/polodb_core/coll/txn_collection.rs
@@ -52,6 +52,7 @@ impl<T> CollectionT<T> for TransactionalCollection<T> {
 
     fn count_documents(&self) -> crate::Result<u64> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
+        let _guard = self.txn.lock_operation();
         db.count_documents(&self.name, &self.txn)
     }
 
diff --git a/src/polodb_core/db/client_cursor.rs b/src/polodb_core/db/client_cursor.rs
index 82b8521..d137ed5 100644
--- a/src/polodb_core/db/client_cursor.rs
+++ b/src/polodb_core/db/client_cursor.rs
@@ -49,6 +49,13 @@ impl<T: DeserializeOwned + Send + Sync> ClientCursor<T> {
     }
 
     pub fn advance(&mut self) -> Result<bool> {
+        let txn = self.vm.txn().clone();
+        let _guard = txn.lock_operation();
+        self.step()
+    }
+
+    /// Advance as a part of another operation.
+    pub(crate) fn step(&mut self) -> Result<bool> {
         if self.vm.state == VmState::Halt {
             return Ok(false);
         }
diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 5d46ae7..7a47af0 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -874,7 +874,7 @@ impl DatabaseInner {
 
         let mut handle = self.find_internal::<Document>(&col, None, txn.clone())?;
 
-        while handle.advance()? {
+        while handle.step()? {
             count += 1;
         }
 
@@ -899,7 +899,7 @@ impl DatabaseInner {
 
         let mut result = Vec::new();
 
-        while handle.advance()? {
+        while handle.step()? {
             let value = handle.get();
             result.push(value.as_document().unwrap().clone());
         }
diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index 941a6c3..741a1c1 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -12,12 +12,15 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError};
 use crate::db::RocksDBTransaction;
 
 #[derive(Clone)]
 pub(crate) struct TransactionInner {
     pub(crate) rocksdb_txn: RocksDBTransaction,
     auto_commit: bool,
+    /// The transaction of RocksDB can not be used by several threads at once.
+    operation_lock: Arc<Mutex<()>>,
 }
 
 impl TransactionInner {
@@ -26,6 +29,7 @@ impl TransactionInner {
         TransactionInner {
             rocksdb_txn,
             auto_commit: true,
+            operation_lock: Arc::new(Mutex::new(())),
         }
     }
 
@@ -39,9 +43,15 @@ impl TransactionInner {
         self.auto_commit
     }
 
+    /// Held during every operation, so that they are carried out one after another.
+    pub fn lock_operation(&self) -> MutexGuard<'_, ()> {
+        self.operation_lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
     /// Run one operation of a transaction: if it fails, it has no effect.
     /// A finished transaction takes no operations, they could not be committed.
     pub fn run_operation<R>(&self, operation: impl FnOnce(&TransactionInner) -> crate::Result<R>) -> crate::Result<R> {
+        let _guard = self.lock_operation();
         if self.rocksdb_txn.is_finished() {
             return Err(crate::Error::SessionOutdated);
         }
@@ -66,6 +76,7 @@ impl TransactionInner {
 
     #[inline]
     pub fn commit(&self) -> crate::Result<()> {
+        let _guard = self.lock_operation();
         self.rocksdb_txn.commit()
     }
 
@@ -79,6 +90,7 @@ impl TransactionInner {
 
     #[inline]
     pub fn rollback(&self) -> crate::Result<()> {
+        let _guard = self.lock_operation();
         self.rocksdb_txn.rollback()
     }
 
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 1d60f08..f9a6966 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -110,6 +110,10 @@ impl VM {
         }
     }
 
+    pub(crate) fn txn(&self) -> &TransactionInner {
+        &self.txn
+    }
+
     fn prefix_bytes_from_bson(val: Bson) -> Result<Vec<u8>> {
         match val {
             Bson::String(_) => {
-- 
2.43.0


From 76528631772cd5827fe1521f58afb0606e321af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 51/54] fix: deeply nested documents do not stop the server

---
 src/polodb/bson_util.rs    | 28 ++++++++++++++++++++++++++++
 src/polodb/main.rs         | 19 ++++++++++++++++---
 src/polodb/wire/message.rs | 11 +++++++++++
 3 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index 5be9af1..ef753dc 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -20,6 +20,7 @@ use bson:: {
     RawArrayBuf,
     RawBson,
     RawBsonRef,
+    RawDocument,
     RawDocumentBuf,
 };
 
@@ -221,6 +222,33 @@ pub(crate) fn get_or_prepend_id_field(doc: &mut RawDocumentBuf) -> Result<Bson>
     }
 }
 
+/// The deepest nesting of documents and arrays in a command.
+/// Decoding and executing a document needs stack space for every level.
+const MAX_NESTING: usize = 120;
+
+/// Check how deep the documents and arrays are nested in a document.
+pub(crate) fn check_nesting(doc: &RawDocument) -> Result<()> {
+    check_document_nesting(doc, MAX_NESTING)
+}
+
+fn check_document_nesting(doc: &RawDocument, levels: usize) -> Result<()> {
+    let levels = levels
+        .checked_sub(1)
+        .ok_or_else(|| anyhow!("documents are nested deeper than {} levels", MAX_NESTING))?;
+    for item in doc {
+        match item?.1 {
+            RawBsonRef::Document(doc) => check_document_nesting(doc, levels)?,
+            // an array has the same layout as a document
+            RawBsonRef::Array(arr) => {
+                check_document_nesting(RawDocument::from_bytes(arr.as_bytes())?, levels)?
+            }
+            RawBsonRef::JavaScriptCodeWithScope(code) => check_document_nesting(code.scope, levels)?,
+            _ => (),
+        }
+    }
+    Ok(())
+}
+
 #[cfg(test)]
 mod test {
     use crate::bson_util::num_decimal_digits;
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index bd097a6..7bcb5f6 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -54,8 +54,19 @@ use crate::app_context::AppContext;
 use crate::handlers::{make_handlers, HandleContext};
 use crate::utils::uuid_from_bson;
 
-#[tokio::main]
-async fn main() {
+// commands may nest documents, and every level needs stack space
+const WORKER_STACK_SIZE: usize = 16 * 1024 * 1024;
+
+fn main() {
+    tokio::runtime::Builder::new_multi_thread()
+        .enable_all()
+        .thread_stack_size(WORKER_STACK_SIZE)
+        .build()
+        .expect("can not start the runtime")
+        .block_on(serve())
+}
+
+async fn serve() {
     env_logger::init();
     let version = Database::get_version();
     let app = App::new("PoloDB")
@@ -185,7 +196,6 @@ async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext
     loop {
         let ctx = ctx.clone();
         let message = wire::Message::read_from(&mut stream, Some(MAX_MESSAGE_SIZE as i32)).await?;
-        debug!("received: {:?}", message);
 
         handle_message(ctx, conn_id, &mut stream, message).await?;
     }
@@ -213,6 +223,9 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
 }
 
 async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) -> Result<Reply> {
+    message.check_nesting()?;
+    debug!("received: {:?}", message);
+
     let handler = match ctx.get_handlers(&message.document_payload)? {
         Some(handler) => handler,
         None => {
diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index 3d8a53a..b24603d 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -82,6 +82,17 @@ impl Message {
         command
     }
 
+    /// Check how deep the documents of this message are nested.
+    pub(crate) fn check_nesting(&self) -> Result<()> {
+        bson_util::check_nesting(&self.document_payload)?;
+        for document_sequence in &self.document_sequences {
+            for document in &document_sequence.documents {
+                bson_util::check_nesting(document)?;
+            }
+        }
+        Ok(())
+    }
+
     /// The documents of a command's field: drivers send them as an array in the
     /// command or as a document sequence of that name.
     pub(crate) fn get_documents(&self, name: &str) -> Result<Vec<Document>> {
-- 
2.43.0


From 885927275500de094612b6b07f74a5134ac8d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 52/54] fix: a failed accept does not stop the server

---
 src/polodb/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 7bcb5f6..8fe1434 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -141,6 +141,8 @@ async fn serve() {
 
 }
 
+const ACCEPT_RETRY_DELAY: std::time::Duration = std::time::Duration::from_millis(20);
+
 pub(crate) async fn start_socket_server(path: String, socket: String, token: CancellationToken) -> Result<(SocketAddr, JoinHandle<()>)> {
     let db = Database::open_path(&path)?;
 
@@ -179,7 +181,8 @@ pub(crate) async fn start_socket_server(path: String, socket: String, token: Can
                         }
                         Err(err) => {
                             warn!("accept error: {:?}", err);
-                            return
+                            // the client may be gone, or too many connections open
+                            tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
                         }
                     }
                 }
-- 
2.43.0


From 75fe1d356892aaa8cbd382e4365298aa9eb86b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 53/54] fix: sections of an unknown kind are refused

---
 src/polodb/wire/message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index b24603d..d188ead 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -459,6 +459,9 @@ impl MessageSection {
             let document = RawDocumentBuf::from_bytes(bytes)?;
             return Ok(MessageSection::Document(document));
         }
+        if payload_type != 1 {
+            return Err(anyhow!("Invalid payload type {}", payload_type));
+        }
 
         let size = Checked::<usize>::try_from(reader.read_i32_sync()?)?;
         let mut length_remaining = size - std::mem::size_of::<i32>();
-- 
2.43.0


From 4f710f4b6a8e8d4f2f9713afbb9142b0fcdb2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 54/54] fix: the declared length of a document is checked

---
 src/polodb/bson_util.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index ef753dc..84abd28 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -147,10 +147,16 @@ fn num_decimal_digits(mut n: usize) -> usize {
 }
 
 /// Read a document's raw BSON bytes from the provided reader.
+const MIN_BSON_DOCUMENT_SIZE: i32 = 4 + 1; // the length and the terminator
+
 pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     let length = reader.read_i32_sync()?;
+    if length < MIN_BSON_DOCUMENT_SIZE {
+        return Err(anyhow!("Invalid document length {}", length));
+    }
 
-    let mut bytes = Vec::with_capacity(length as usize);
+    // the length is not trusted to reserve the space
+    let mut bytes = Vec::new();
     bytes.write_all(&length.to_le_bytes())?;
 
     reader.take(length as u64 - 4).read_to_end(&mut bytes)?;
-- 
2.43.0

