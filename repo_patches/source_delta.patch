From fbdd3f914369ea923482036b605c88f366779e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 01/66] fix: allow altering an attribute to :db.cardinality/one
 when no entity holds several values

---
 db/src/db.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 8b7401e..c3bf664 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1284,8 +1284,10 @@ SELECT EXISTS
                     // TODO: improve the failure message.  Perhaps try to mimic what Datomic says in
                     // this case?
                     if !attribute.multival {
-                        let mut rows = cardinality_stmt.query(&[&entid as &dyn ToSql])?;
-                        if rows.next()?.is_some() {
+                        // `SELECT EXISTS` always yields exactly one row.
+                        let conflicts: bool =
+                            cardinality_stmt.query_row(&[&entid as &dyn ToSql], |row| row.get(0))?;
+                        if conflicts {
                             bail!(DbErrorKind::SchemaAlterationFailed(format!(
                                 "Cannot alter schema attribute {} to be :db.cardinality/one",
                                 entid
-- 
2.43.0


From 78d34c663b378553d38e50371d7ad65af4e0a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 02/66] fix: retracting a value a :db.cardinality/one attribute
 does not hold leaves the current value alone

---
 db/src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index c3bf664..cfc9082 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -696,7 +696,7 @@ fn insert_transaction(conn: &rusqlite::Connection, tx: Entid) -> Result<()> {
       SELECT DISTINCT e0, a0, v, ?, 0, value_type_tag0
       FROM temp.search_results
       WHERE rid IS NOT NULL AND
-            ((added0 IS 0) OR
+            ((added0 IS 0 AND v0 IS v) OR
              (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v))"#;
 
     let mut stmt = conn.prepare_cached(s)?;
@@ -718,7 +718,7 @@ fn update_datoms(conn: &rusqlite::Connection, tx: Entid) -> Result<()> {
         WITH ids AS (SELECT rid
                      FROM temp.search_results
                      WHERE rid IS NOT NULL AND
-                           ((added0 IS 0) OR
+                           ((added0 IS 0 AND v0 IS v) OR
                             (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v)))
         DELETE FROM datoms WHERE rowid IN ids"#;
 
@@ -1110,7 +1110,7 @@ impl MentatStoring for rusqlite::Connection {
                 SELECT e0 as e, a0 as a, v, value_type_tag0 as value_type_tag, 0 as added
                 FROM temp.search_results
                 WHERE a0 in {} AND rid IS NOT NULL AND
-                ((added0 IS 0) OR
+                ((added0 IS 0 AND v0 IS v) OR
                     (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v))
 
             ) ORDER BY e, a, v, value_type_tag, added"#,
-- 
2.43.0


From 65e1a0b60051237a57561521d022cd8079ee9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 03/66] fix: altering an attribute keeps its :db/unique unless
 :db/unique itself changes

---
 db/src/schema.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db/src/schema.rs b/db/src/schema.rs
index fdbed5a..e64fce5 100644
--- a/db/src/schema.rs
+++ b/db/src/schema.rs
@@ -226,9 +226,6 @@ impl AttributeBuilder {
                 attribute.unique = *unique;
                 mutations.push(AttributeAlteration::Unique);
             }
-        } else if attribute.unique != None {
-            attribute.unique = None;
-            mutations.push(AttributeAlteration::Unique);
         }
 
         if let Some(index) = self.index {
-- 
2.43.0


From ce0c4c9b76195fd30584a2402c96fe3dc7ffdcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 04/66] fix: keep the ident map right when an ident moves
 between entities in one transaction

---
 db/src/metadata.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/db/src/metadata.rs b/db/src/metadata.rs
index ac43939..ed9460e 100644
--- a/db/src/metadata.rs
+++ b/db/src/metadata.rs
@@ -412,24 +412,29 @@ where
 
     let mut idents_altered: BTreeMap<Entid, IdentAlteration> = BTreeMap::new();
 
-    // Asserted, altered, or retracted :db/idents update the relevant entids.
-    for (entid, ident) in ident_set.asserted {
-        schema.entid_map.insert(entid, ident.clone());
-        schema.ident_map.insert(ident.clone(), entid);
-        idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
+    // Asserted, altered, or retracted :db/idents update the relevant entids.  An ident can move from
+    // one entity to another within a single transaction, so we forget every old ident before we
+    // record any new one.
+    for (entid, ident) in &ident_set.retracted {
+        schema.entid_map.remove(entid);
+        schema.ident_map.remove(ident);
+        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    }
+
+    for (old_ident, _new_ident) in ident_set.altered.values() {
+        schema.ident_map.remove(old_ident); // Remove old.
     }
 
-    for (entid, (old_ident, new_ident)) in ident_set.altered {
+    for (entid, (_old_ident, new_ident)) in ident_set.altered {
         schema.entid_map.insert(entid, new_ident.clone()); // Overwrite existing.
-        schema.ident_map.remove(&old_ident); // Remove old.
         schema.ident_map.insert(new_ident.clone(), entid); // Insert new.
         idents_altered.insert(entid, IdentAlteration::Ident(new_ident.clone()));
     }
 
-    for (entid, ident) in &ident_set.retracted {
-        schema.entid_map.remove(entid);
-        schema.ident_map.remove(ident);
-        idents_altered.insert(*entid, IdentAlteration::Ident(ident.clone()));
+    for (entid, ident) in ident_set.asserted {
+        schema.entid_map.insert(entid, ident.clone());
+        schema.ident_map.insert(ident.clone(), entid);
+        idents_altered.insert(entid, IdentAlteration::Ident(ident.clone()));
     }
 
     // Component attributes need to change if either:
-- 
2.43.0


From 827fd33f71e6dbaa4bdb4576a4e28e415fd3a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 05/66] fix: a transaction that exactly fills a chunk of
 bindings does not panic

---
 db/src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index cfc9082..f2cf0c4 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -795,7 +795,7 @@ impl MentatStoring for rusqlite::Connection {
             // querying against `all_datoms`.  We know all the attributes, and in the common case,
             // where most unique attributes will not be fulltext-indexed, we'll be querying just
             // `datoms`, which will be much faster.ˇ
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
 
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = format!("WITH t(search_id, a, v, value_type_tag) AS (VALUES {}) SELECT t.search_id, d.e \
@@ -937,7 +937,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, count, max_vars);
+            assert!(bindings_per_statement * count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, count, max_vars);
             let values: String = repeat_values(bindings_per_statement, count);
             let s: String = if search_type == SearchType::Exact {
                 format!("INSERT INTO temp.exact_searches (e0, a0, v0, value_type_tag0, added0, flags0) VALUES {}", values)
@@ -1058,7 +1058,7 @@ impl MentatStoring for rusqlite::Connection {
             }).collect();
 
             // TODO: cache this for selected values of count.
-            assert!(bindings_per_statement * datom_count < max_vars, "Too many values: {} * {} >= {}", bindings_per_statement, datom_count, max_vars);
+            assert!(bindings_per_statement * datom_count <= max_vars, "Too many values: {} * {} > {}", bindings_per_statement, datom_count, max_vars);
             let inner = "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".to_string();
             // Like "(?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?), (?, ?, (SELECT rowid FROM fulltext_values WHERE searchid = ?), ?, ?, ?)".
             let fts_values: String = repeat(inner).take(datom_count).join(", ");
-- 
2.43.0


From a20fda958e4764d1971d6ed964acb7a092159f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 06/66] fix: read back the nil UUID

---
 db/src/db.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index f2cf0c4..fbd2104 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -422,15 +422,15 @@ impl TypedSQLValue for TypedValue {
             (5, rusqlite::types::Value::Real(x)) => Ok(TypedValue::Double(x.into())),
             (10, rusqlite::types::Value::Text(x)) => Ok(x.into()),
             (11, rusqlite::types::Value::Blob(x)) => {
-                let u = Uuid::from_bytes(x.as_slice().try_into().unwrap());
-                if u.is_nil() {
+                let bytes: Option<[u8; 16]> = x.as_slice().try_into().ok();
+                match bytes {
+                    Some(bytes) => Ok(TypedValue::Uuid(Uuid::from_bytes(bytes))),
                     // Rather than exposing Uuid's ParseError…
-                    bail!(DbErrorKind::BadSQLValuePair(
+                    None => bail!(DbErrorKind::BadSQLValuePair(
                         rusqlite::types::Value::Blob(x),
                         value_type_tag
-                    ));
+                    )),
                 }
-                Ok(TypedValue::Uuid(u))
             }
             (13, rusqlite::types::Value::Text(x)) => to_namespaced_keyword(&x).map(|k| k.into()),
             (_, value) => bail!(DbErrorKind::BadSQLValuePair(value, value_type_tag)),
-- 
2.43.0


From 89f26bba8894f698793c96332c6feb9befc2d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 07/66] fix: assert every value of an entity that upserts, not
 only the values that did not take part

---
 db/src/tx.rs                | 1 +
 db/src/upsert_resolution.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 8b0a65a..cea8e0b 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -1110,6 +1110,7 @@ pub(crate) fn into_aev_trie<'schema>(
     inert_terms: Vec<TermWithTempIds>,
 ) -> Result<AEVTrie<'schema>> {
     let mut trie = AEVTrie::default();
+    extend_aev_trie(schema, final_populations.upserted, &mut trie)?;
     extend_aev_trie(schema, final_populations.resolved, &mut trie)?;
     extend_aev_trie(schema, final_populations.allocated, &mut trie)?;
     // Inert terms need to be unwrapped.  It is a coding error if a term can't be unwrapped.
diff --git a/db/src/upsert_resolution.rs b/db/src/upsert_resolution.rs
index f656425..84a273e 100644
--- a/db/src/upsert_resolution.rs
+++ b/db/src/upsert_resolution.rs
@@ -147,6 +147,7 @@ impl Generation {
 
         // We'll iterate our own allocations to resolve more things, but terms that have already
         // resolved stay resolved.
+        next.upserted = self.upserted;
         next.resolved = self.resolved;
 
         for UpsertE(t, a, v) in self.upserts_e {
-- 
2.43.0


From bb7a393041f2061a30ece087a611f4ccf429917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 08/66] fix: remember tempids that resolved in earlier
 generations while evolving upserts

---
 db/src/tx.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index cea8e0b..44f6959 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -735,6 +735,9 @@ where
         // Now we can collect upsert populations.
         let (mut generation, inert_terms) = Generation::from(terms, &self.schema)?;
 
+        // Everything that has resolved via upsert in any generation so far.
+        let mut resolved_temp_ids: TempIdMap = TempIdMap::default();
+
         // And evolve them forward.
         while generation.can_evolve() {
             debug!("generation {:?}", generation);
@@ -747,7 +750,11 @@ where
 
             debug!("resolved avs for tempids {:?}", temp_id_map);
 
-            generation = generation.evolve_one_step(&temp_id_map);
+            for (tempid, &entid) in &temp_id_map {
+                resolved_temp_ids.insert(tempid.clone(), entid);
+            }
+
+            generation = generation.evolve_one_step(&resolved_temp_ids);
 
             // Errors.  BTree* since we want deterministic results.
             let mut conflicting_upserts: BTreeMap<TempId, BTreeSet<KnownEntid>> =
-- 
2.43.0


From b7951913e3300545437a3442e0d36a6ea8fc4a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 09/66] fix: honour :db/retract with a reversed attribute

---
 db/src/tx.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/db/src/tx.rs b/db/src/tx.rs
index 44f6959..f4a4ab2 100644
--- a/db/src/tx.rs
+++ b/db/src/tx.rs
@@ -468,12 +468,7 @@ where
                         let reversed_e = in_process.entity_v_into_term_e(v, &a)?;
                         let reversed_a = in_process.entity_a_into_term_a(reversed_a)?;
                         let reversed_v = in_process.entity_e_into_term_v(e)?;
-                        terms.push(Term::AddOrRetract(
-                            OpType::Add,
-                            reversed_e,
-                            reversed_a,
-                            reversed_v,
-                        ));
+                        terms.push(Term::AddOrRetract(op, reversed_e, reversed_a, reversed_v));
                     } else {
                         let a = in_process.entity_a_into_term_a(a)?;
                         let attribute = self.schema.require_attribute_for_entid(a)?;
-- 
2.43.0


From ed43f9959c0eb5b274f818b21b37606e47dddf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 10/66] fix: transact repeated fulltext values that span
 several chunks

---
 db/src/db.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index fbd2104..3779260 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1036,13 +1036,16 @@ impl MentatStoring for rusqlite::Connection {
                              .chain(once(searchid as &dyn ToSql))
                      }).collect();
 
-            // TODO: make this maximally efficient. It's not terribly inefficient right now.
-            let fts_values: String = repeat_values(2, string_count);
-            let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
-
-            // TODO: consider ensuring we inserted the expected number of rows.
-            let mut stmt = self.prepare_cached(fts_s.as_str())?;
-            stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            // Every string in this chunk might have been inserted by an earlier chunk.
+            if string_count > 0 {
+                // TODO: make this maximally efficient. It's not terribly inefficient right now.
+                let fts_values: String = repeat_values(2, string_count);
+                let fts_s: String = format!("INSERT INTO fulltext_values_view (text, searchid) VALUES {}", fts_values);
+
+                // TODO: consider ensuring we inserted the expected number of rows.
+                let mut stmt = self.prepare_cached(fts_s.as_str())?;
+                stmt.execute(&fts_params).context(DbErrorKind::FtsInsertionFailed)?;
+            }
 
             // Second, insert searches.
             // `params` reference computed values in `block`.
-- 
2.43.0


From 16c7b16eec27f554654871f5bd0c09210a31d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 11/66] fix: reject schema alterations that leave an attribute
 invalid

---
 db/src/db.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 3779260..4210143 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -39,7 +39,7 @@ use mentat_core::{AttributeMap, FromMicros, IdentMap, Schema, ToMicros, ValueRc}
 use db_traits::errors::{DbErrorKind, Result};
 
 use crate::metadata;
-use crate::schema::SchemaBuilding;
+use crate::schema::{AttributeValidation, SchemaBuilding};
 use crate::tx::transact;
 use crate::types::{AVMap, AVPair, Partition, PartitionMap, DB};
 
@@ -1303,6 +1303,9 @@ SELECT EXISTS
                 }
             }
         }
+
+        // Each alteration can be fine by itself and still leave an attribute that's not valid.
+        attribute.validate(|| entid.to_string())?;
     }
 
     Ok(())
-- 
2.43.0


From bd18c59f4833f2b7a77cc57094277b90292e89d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 12/66] fix: tell observers about a commit even when observers
 come and go before they are told

---
 db/src/tx_observer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index ebc42af..b3571ba 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -8,7 +8,7 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::sync::{Arc, Weak};
+use std::sync::Arc;
 
 use std::sync::mpsc::{channel, Receiver, RecvError, Sender};
 
@@ -66,7 +66,9 @@ pub trait Command {
 
 pub struct TxCommand {
     reports: IndexMap<Entid, AttributeSet>,
-    observers: Weak<IndexMap<String, Arc<TxObserver>>>,
+    // The observers that were registered when the reports were committed.  This must be a strong
+    // reference: a weak one dangles as soon as the set of registered observers changes.
+    observers: Arc<IndexMap<String, Arc<TxObserver>>>,
 }
 
 impl TxCommand {
@@ -76,19 +78,17 @@ impl TxCommand {
     ) -> Self {
         TxCommand {
             reports,
-            observers: Arc::downgrade(observers),
+            observers: observers.clone(),
         }
     }
 }
 
 impl Command for TxCommand {
     fn execute(&mut self) {
-        if let Some(observers) = self.observers.upgrade() {
-            for (key, observer) in observers.iter() {
-                let applicable_reports = observer.applicable_reports(&self.reports);
-                if !applicable_reports.is_empty() {
-                    observer.notify(&key, applicable_reports);
-                }
+        for (key, observer) in self.observers.iter() {
+            let applicable_reports = observer.applicable_reports(&self.reports);
+            if !applicable_reports.is_empty() {
+                observer.notify(&key, applicable_reports);
             }
         }
     }
-- 
2.43.0


From 4c11da20e213dd69f2f1680bda8c5f75115d67ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 13/66] fix: a panicking observer no longer silences the others
 or fails later commits

---
 db/src/tx_observer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index b3571ba..bcf703b 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -8,6 +8,8 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
+use std::panic::{catch_unwind, AssertUnwindSafe};
+
 use std::sync::Arc;
 
 use std::sync::mpsc::{channel, Receiver, RecvError, Sender};
@@ -88,7 +90,11 @@ impl Command for TxCommand {
         for (key, observer) in self.observers.iter() {
             let applicable_reports = observer.applicable_reports(&self.reports);
             if !applicable_reports.is_empty() {
-                observer.notify(&key, applicable_reports);
+                // An observer that panics must not take down the worker: the other observers are
+                // still to be told, and so are later commits.
+                let _ = catch_unwind(AssertUnwindSafe(|| {
+                    observer.notify(&key, applicable_reports)
+                }));
             }
         }
     }
-- 
2.43.0


From 0a94dc556de0140a685b2d4a49d6369cf4453039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 14/66] fix: a transaction that fails part way leaves no trace
 in the InProgress that goes on

---
 db/src/cache.rs        |   2 +-
 db/src/tx_observer.rs  |   2 +-
 transaction/src/lib.rs | 114 +++++++++++++++++++++++++++++------------
 3 files changed, 82 insertions(+), 36 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 008ff0a..625266c 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1611,7 +1611,7 @@ impl SQLiteAttributeCache {
 
 /// We maintain a diff on top of the `inner` -- existing -- cache.
 /// That involves tracking unregisterings and registerings.
-#[derive(Debug, Default)]
+#[derive(Clone, Debug, Default)]
 pub struct InProgressSQLiteAttributeCache {
     inner: Arc<AttributeCaches>,
     pub overlay: AttributeCaches,
diff --git a/db/src/tx_observer.rs b/db/src/tx_observer.rs
index bcf703b..fecadd6 100644
--- a/db/src/tx_observer.rs
+++ b/db/src/tx_observer.rs
@@ -163,7 +163,7 @@ impl Drop for TxObservationService {
     }
 }
 
-#[derive(Default)]
+#[derive(Clone, Default)]
 pub struct InProgressObserverTransactWatcher {
     collected_attributes: AttributeSet,
     pub txes: IndexMap<Entid, AttributeSet>,
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index f30ca7b..5ce5dc9 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -165,24 +165,72 @@ impl<'a, 'c> InProgress<'a, 'c> {
     where
         I: IntoIterator<Item = TermWithTempIds>,
     {
-        let w = InProgressTransactWatcher::new(
-            &mut self.tx_observer_watcher,
-            self.cache.transact_watcher(),
-        );
-        let (report, next_partition_map, next_schema, _watcher) = transact_terms(
-            &self.transaction,
-            self.partition_map.clone(),
-            &self.schema,
-            &self.schema,
-            w,
-            terms,
-            tempid_set,
-        )?;
-        self.partition_map = next_partition_map;
-        if let Some(schema) = next_schema {
-            self.schema = schema;
+        self.all_or_nothing(|in_progress| {
+            let w = InProgressTransactWatcher::new(
+                &mut in_progress.tx_observer_watcher,
+                in_progress.cache.transact_watcher(),
+            );
+            let (report, next_partition_map, next_schema, _watcher) = transact_terms(
+                &in_progress.transaction,
+                in_progress.partition_map.clone(),
+                &in_progress.schema,
+                &in_progress.schema,
+                w,
+                terms,
+                tempid_set,
+            )?;
+            Ok((report, next_partition_map, next_schema))
+        })
+    }
+
+    /// Run `f`, which applies one Mentat transaction, so that a failure leaves no trace: neither in
+    /// the SQLite transaction we hold open, which the caller can go on to use and commit, nor in the
+    /// cache, nor in what observers will be told.
+    fn all_or_nothing<F>(&mut self, f: F) -> Result<TxReport>
+    where
+        F: FnOnce(&mut Self) -> Result<(TxReport, PartitionMap, Option<Schema>)>,
+    {
+        if self.transaction.is_autocommit() {
+            // SQLite already rolled everything back, following an earlier error.
+            bail!(MentatError::RusqliteError(
+                "cannot transact".to_string(),
+                "the SQLite transaction was rolled back".to_string()
+            ));
+        }
+
+        let cache = self.cache.clone();
+        let tx_observer_watcher = self.tx_observer_watcher.clone();
+        self.savepoint("mentat_transact")?;
+
+        let result = f(self).and_then(|applied| {
+            self.release_savepoint("mentat_transact")?;
+            Ok(applied)
+        });
+
+        match result {
+            Ok((report, next_partition_map, next_schema)) => {
+                self.partition_map = next_partition_map;
+                if let Some(schema) = next_schema {
+                    self.schema = schema;
+                }
+                Ok(report)
+            }
+            Err(e) => {
+                self.cache = cache;
+                self.tx_observer_watcher = tx_observer_watcher;
+                if !self.transaction.is_autocommit()
+                    && self
+                        .rollback_savepoint("mentat_transact")
+                        .and_then(|_| self.release_savepoint("mentat_transact"))
+                        .is_err()
+                {
+                    // We can't get back to where we were, so give up on the whole thing: nothing
+                    // further can be transacted, and committing will fail.
+                    let _ = self.transaction.execute("ROLLBACK", rusqlite::params![]);
+                }
+                Err(e)
+            }
         }
-        Ok(report)
     }
 
     pub fn transact_entities<I, V: TransactableValue>(&mut self, entities: I) -> Result<TxReport>
@@ -197,23 +245,21 @@ impl<'a, 'c> InProgress<'a, 'c> {
         //    `Metadata` on return. If we used `Cell` or other mechanisms, we'd be using
         //    `Default::default` in those situations to extract the partition map, and so there
         //    would still be some cost.
-        let w = InProgressTransactWatcher::new(
-            &mut self.tx_observer_watcher,
-            self.cache.transact_watcher(),
-        );
-        let (report, next_partition_map, next_schema, _watcher) = transact(
-            &self.transaction,
-            self.partition_map.clone(),
-            &self.schema,
-            &self.schema,
-            w,
-            entities,
-        )?;
-        self.partition_map = next_partition_map;
-        if let Some(schema) = next_schema {
-            self.schema = schema;
-        }
-        Ok(report)
+        self.all_or_nothing(|in_progress| {
+            let w = InProgressTransactWatcher::new(
+                &mut in_progress.tx_observer_watcher,
+                in_progress.cache.transact_watcher(),
+            );
+            let (report, next_partition_map, next_schema, _watcher) = transact(
+                &in_progress.transaction,
+                in_progress.partition_map.clone(),
+                &in_progress.schema,
+                &in_progress.schema,
+                w,
+                entities,
+            )?;
+            Ok((report, next_partition_map, next_schema))
+        })
     }
 
     pub fn transact<B>(&mut self, transaction: B) -> Result<TxReport>
-- 
2.43.0


From ec292e9bc6b969764f62b33089f696b8fec5aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 15/66] fix: never hand out an entid again that was only ever
 used as a value

---
 db/src/db.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 4210143..92be409 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -510,13 +510,27 @@ pub fn read_partition_map(conn: &rusqlite::Connection) -> Result<PartitionMap> {
     // First part of the union sprinkles 'allow_excision' into the 'parts' view.
     // Second part of the union takes care of partitions which are known
     // but don't have any transactions.
+    // An entid that was allocated might only ever have been used as a value, so the next entid also
+    // comes after every reference into the partition.  That's not so for transactions: they all have
+    // a `:db/txInstant`.
     conn.prepare(
         "
+        SELECT
+            part,
+            start,
+            end,
+            max(idx, ifnull((SELECT max(v) + 1
+                             FROM timelined_transactions
+                             WHERE timeline = 0 AND value_type_tag = 0 AND v >= start AND v < end AND
+                                   part IS NOT ':db.part/tx'),
+                            idx)),
+            allow_excision
+        FROM (
         SELECT
             known_parts.part,
             known_parts.start,
             known_parts.end,
-            parts.idx,
+            parts.idx AS idx,
             known_parts.allow_excision
         FROM
             parts
@@ -535,7 +549,7 @@ pub fn read_partition_map(conn: &rusqlite::Connection) -> Result<PartitionMap> {
         FROM
             known_parts
         WHERE
-            part NOT IN (SELECT part FROM parts)",
+            part NOT IN (SELECT part FROM parts))",
     )?
     .query_and_then(rusqlite::params![], |row| -> Result<(String, Partition)> {
         Ok((
-- 
2.43.0


From e38d84c379083d7d38b21e68fe9562d8765feca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 16/66] fix: ordering a query that is known to have no results
 is not an error

---
 query-algebrizer/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 36cdbe7..312413a 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -227,6 +227,12 @@ fn validate_and_simplify_order(
                     continue;
                 }
 
+                // There's nothing to order if we already know that there are no results, and we might
+                // have stopped short of binding every variable.
+                if cc.is_known_empty() {
+                    continue;
+                }
+
                 // Fail if the var isn't bound by the query.
                 if !cc.column_bindings.contains_key(&var) {
                     bail!(AlgebrizerError::UnboundVariable(var.name()))
-- 
2.43.0


From 6323f66809854a2b0d8afebc71d8732bd7835ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 17/66] fix: report an error while reading datoms into the
 cache rather than panic

---
 db/src/cache.rs | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 625266c..1545647 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -194,30 +194,12 @@ impl AevFactory {
         }
     }
 
-    fn row_to_aev(&mut self, row: &rusqlite::Row) -> Aev {
-        let a: Entid = row.get_unwrap(0);
-        let e: Entid = row.get_unwrap(1);
-        let value_type_tag: i32 = row.get_unwrap(3);
-        let v = TypedValue::from_sql_value_pair(row.get_unwrap(2), value_type_tag).unwrap();
-        (a, e, self.intern(v))
-    }
-}
-
-pub struct AevRows<'conn, F> {
-    rows: rusqlite::MappedRows<'conn, F>,
-}
-
-/// Unwrap the Result from MappedRows. We could also use this opportunity to map_err it, but
-/// for now it's convenient to avoid error handling.
-impl<'conn, F> Iterator for AevRows<'conn, F>
-where
-    F: FnMut(&rusqlite::Row) -> rusqlite::Result<Aev>,
-{
-    type Item = Aev;
-    fn next(&mut self) -> Option<Aev> {
-        self.rows
-            .next()
-            .map(|row_result| row_result.expect("All database contents should be representable"))
+    fn row_to_aev(&mut self, row: &rusqlite::Row) -> Result<Aev> {
+        let a: Entid = row.get(0)?;
+        let e: Entid = row.get(1)?;
+        let value_type_tag: i32 = row.get(3)?;
+        let v = TypedValue::from_sql_value_pair(row.get(2)?, value_type_tag)?;
+        Ok((a, e, self.intern(v)))
     }
 }
 
@@ -1071,12 +1053,14 @@ impl AttributeCaches {
         replacing: bool,
     ) -> Result<()> {
         let mut aev_factory = AevFactory::new();
-        let rows = statement.query_map(&args, |row| Ok(aev_factory.row_to_aev(row)))?;
-        let aevs = AevRows { rows };
+        // Reading can fail part way through, so read everything before we touch the cache.
+        let aevs: Result<Vec<Aev>> = statement
+            .query_and_then(&args, |row| aev_factory.row_to_aev(row))?
+            .collect();
         self.accumulate_into_cache(
             None,
             schema,
-            aevs.peekable(),
+            aevs?.into_iter().peekable(),
             AccumulationBehavior::Add { replacing },
         )?;
         Ok(())
-- 
2.43.0


From d1fbaaaefb30950a3aac96eaeec4eaf3a8b82bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 18/66] fix: a value retracted in a transaction in progress
 does not come back from the cache below

---
 db/src/cache.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 1545647..e62c5e7 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1006,14 +1006,10 @@ impl AttributeCaches {
         attribute: Entid,
         entid: Entid,
     ) -> Option<Option<&TypedValue>> {
-        if let Some(&Some(ref tv)) = self
-            .value_pairs(schema, attribute)
+        // A retracted value is present as `None`.
+        self.value_pairs(schema, attribute)
             .and_then(|c| c.get(&entid))
-        {
-            Some(Some(tv))
-        } else {
-            None
-        }
+            .map(|v| v.as_ref())
     }
 }
 
-- 
2.43.0


From 87996d82b2dc0f6c2cc9faf59e2c02e83a197e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 19/66] fix: an attribute cached afresh by a transaction does
 not mix with what was cached before

---
 db/src/cache.rs | 77 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 18 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index e62c5e7..771091a 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1037,10 +1037,37 @@ impl AttributeCaches {
         let mut stmt = sqlite
             .prepare(&sql)
             .context(DbErrorKind::CacheUpdateFailed)?;
+        self.reset_attribute(schema, attribute);
         let replacing = true;
         self.repopulate_from_aevt(schema, &mut stmt, args, replacing)
     }
 
+    /// Start afresh, with nothing, in each direction in which the attribute is cached.  There might
+    /// be no datoms to replace what was cached before, and an attribute that is present but empty
+    /// doesn't need anything from a fallback cache.
+    fn reset_attribute(&mut self, schema: &Schema, a: Entid) {
+        self.single_vals.remove(&a);
+        self.multi_vals.remove(&a);
+        self.unique_reverse.remove(&a);
+        self.non_unique_reverse.remove(&a);
+        if let Some(attribute) = schema.attribute_for_entid(a) {
+            if self.is_attribute_cached_forward(a) {
+                if attribute.multival {
+                    self.multi_vals.insert(a, Default::default());
+                } else {
+                    self.single_vals.insert(a, Default::default());
+                }
+            }
+            if self.is_attribute_cached_reverse(a) {
+                if attribute.unique.is_some() {
+                    self.unique_reverse.insert(a, Default::default());
+                } else {
+                    self.non_unique_reverse.insert(a, Default::default());
+                }
+            }
+        }
+    }
+
     fn repopulate_from_aevt<'a, 's, 'c, 'v>(
         &'a mut self,
         schema: &'s Schema,
@@ -1590,7 +1617,8 @@ impl SQLiteAttributeCache {
 }
 
 /// We maintain a diff on top of the `inner` -- existing -- cache.
-/// That involves tracking unregisterings and registerings.
+/// That involves tracking unregisterings and registerings: an attribute that was unregistered, or
+/// that was registered afresh in `overlay`, no longer falls through to `inner`.
 #[derive(Clone, Debug, Default)]
 pub struct InProgressSQLiteAttributeCache {
     inner: Arc<AttributeCaches>,
@@ -1630,9 +1658,8 @@ impl InProgressSQLiteAttributeCache {
             return Ok(());
         }
 
-        self.unregistered_forward.remove(&a);
         self.overlay.forward_cached_attributes.insert(a);
-        self.overlay.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn register_reverse<U>(
@@ -1655,9 +1682,8 @@ impl InProgressSQLiteAttributeCache {
             return Ok(());
         }
 
-        self.unregistered_reverse.remove(&a);
         self.overlay.reverse_cached_attributes.insert(a);
-        self.overlay.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
     }
 
     pub fn register<U>(
@@ -1684,8 +1710,6 @@ impl InProgressSQLiteAttributeCache {
             return Ok(());
         }
 
-        self.unregistered_forward.remove(&a);
-        self.unregistered_reverse.remove(&a);
         if !reverse_done {
             self.overlay.reverse_cached_attributes.insert(a);
         }
@@ -1693,7 +1717,24 @@ impl InProgressSQLiteAttributeCache {
             self.overlay.forward_cached_attributes.insert(a);
         }
 
-        self.overlay.repopulate(schema, sqlite, a)
+        self.repopulate(schema, sqlite, a)
+    }
+
+    /// Have `overlay` hold everything about `a`, in each direction in which it's cached.
+    fn repopulate(
+        &mut self,
+        schema: &Schema,
+        sqlite: &rusqlite::Connection,
+        a: Entid,
+    ) -> Result<()> {
+        self.unregistered_forward.insert(a);
+        self.unregistered_reverse.insert(a);
+        let repopulated = self.overlay.repopulate(schema, sqlite, a);
+        if repopulated.is_err() {
+            // Don't claim to cache what we failed to read.
+            self.overlay.unregister_attribute(a);
+        }
+        repopulated
     }
 
     pub fn unregister<U>(&mut self, attribute: U)
@@ -1733,7 +1774,7 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         entid: Entid,
     ) -> Option<&Vec<TypedValue>> {
         if self.unregistered_forward.contains(&attribute) {
-            None
+            self.overlay.get_values_for_entid(schema, attribute, entid)
         } else {
             // If it was present in `inner` but the values were deleted, there will be an empty
             // array in `overlay` -- `Some(vec![])` -- and we won't fall through.
@@ -1751,7 +1792,7 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         entid: Entid,
     ) -> Option<&TypedValue> {
         if self.unregistered_forward.contains(&attribute) {
-            None
+            self.overlay.get_value_for_entid(schema, attribute, entid)
         } else {
             // If it was present in `inner` but the value was deleted, there will be `Some(None)`
             // in `overlay`, and we won't fall through.
@@ -1767,15 +1808,15 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
     }
 
     fn is_attribute_cached_reverse(&self, attribute: Entid) -> bool {
-        !self.unregistered_reverse.contains(&attribute)
-            && (self.inner.reverse_cached_attributes.contains(&attribute)
-                || self.overlay.reverse_cached_attributes.contains(&attribute))
+        self.overlay.is_attribute_cached_reverse(attribute)
+            || (!self.unregistered_reverse.contains(&attribute)
+                && self.inner.is_attribute_cached_reverse(attribute))
     }
 
     fn is_attribute_cached_forward(&self, attribute: Entid) -> bool {
-        !self.unregistered_forward.contains(&attribute)
-            && (self.inner.forward_cached_attributes.contains(&attribute)
-                || self.overlay.forward_cached_attributes.contains(&attribute))
+        self.overlay.is_attribute_cached_forward(attribute)
+            || (!self.unregistered_forward.contains(&attribute)
+                && self.inner.is_attribute_cached_forward(attribute))
     }
 
     fn has_cached_attributes(&self) -> bool {
@@ -1811,7 +1852,7 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
         value: &TypedValue,
     ) -> Option<&BTreeSet<Entid>> {
         if self.unregistered_reverse.contains(&attribute) {
-            None
+            self.overlay.get_entids_for_value(attribute, value)
         } else {
             self.overlay
                 .get_entids_for_value(attribute, value)
@@ -1821,7 +1862,7 @@ impl CachedAttributes for InProgressSQLiteAttributeCache {
 
     fn get_entid_for_value(&self, attribute: Entid, value: &TypedValue) -> Option<Entid> {
         if self.unregistered_reverse.contains(&attribute) {
-            None
+            self.overlay.get_entid_for_value(attribute, value)
         } else {
             // If it was present in `inner` but the value was deleted, there will be `Some(None)`
             // in `overlay`, and we won't fall through.
-- 
2.43.0


From 7c695c97aefd57cc5258796eba68270ee944eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 20/66] fix: committing does not panic while somebody else
 holds on to the attribute cache

---
 db/src/cache.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 771091a..8ec09ba 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1917,29 +1917,21 @@ impl InProgressSQLiteAttributeCache {
         }
 
         // If we have exclusive write access to the destination cache, update it in place.
-        // Because the `Conn` also contains an `Arc`, this will ordinarily never be the case.
-        // In order to hit this code block, we need to eliminate our reference… do so by dropping
-        // our copy of the `Arc`.
+        // Because the `Conn` also contains an `Arc`, we need to eliminate our reference to get there:
+        // do so by dropping our copy of the `Arc`.  Anybody else who still holds on to the cache as
+        // it was keeps just that, and we make a copy.
         ::std::mem::drop(self.inner);
-        if let Some(dest) = Arc::get_mut(&mut destination.inner) {
-            // Yeah, we unregister in both directions. The only way
-            // `unregistered_forward` won't be the same as `unregistered_reverse` is if
-            // our `overlay` added one direction back in.
-            for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
-                dest.unregister_attribute(*unregistered);
-            }
+        let dest = destination.make_mut();
 
-            // Now replace each attribute's entry with `overlay`.
-            dest.absorb(self.overlay);
-            return;
+        // Yeah, we unregister in both directions. The only way
+        // `unregistered_forward` won't be the same as `unregistered_reverse` is if
+        // our `overlay` added one direction back in.
+        for unregistered in self.unregistered_forward.union(&self.unregistered_reverse) {
+            dest.unregister_attribute(*unregistered);
         }
 
-        // If we don't, populate `self.overlay` with whatever we didn't overwrite,
-        // and then shim it into `destination.`
-        // We haven't implemented this because it does not currently occur.
-        // TODO: do this! Then do this:
-        // destination.inner = Arc::new(self.overlay);
-        unimplemented!();
+        // Now replace each attribute's entry with `overlay`.
+        dest.absorb(self.overlay);
     }
 }
 
-- 
2.43.0


From e3b799834596512cdb80998d737a766c151942e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 21/66] fix: an attribute that could not be read is not cached

---
 db/src/cache.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 8ec09ba..4b1f413 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1034,12 +1034,18 @@ impl AttributeCaches {
             table
         );
         let args: Vec<&dyn rusqlite::types::ToSql> = vec![&attribute];
-        let mut stmt = sqlite
-            .prepare(&sql)
-            .context(DbErrorKind::CacheUpdateFailed)?;
         self.reset_attribute(schema, attribute);
         let replacing = true;
-        self.repopulate_from_aevt(schema, &mut stmt, args, replacing)
+        let repopulated = sqlite
+            .prepare(&sql)
+            .context(DbErrorKind::CacheUpdateFailed)
+            .map_err(|e| e.into())
+            .and_then(|mut stmt| self.repopulate_from_aevt(schema, &mut stmt, args, replacing));
+        if repopulated.is_err() {
+            // Don't claim to cache what we failed to read.
+            self.unregister_attribute(attribute);
+        }
+        repopulated
     }
 
     /// Start afresh, with nothing, in each direction in which the attribute is cached.  There might
@@ -1729,12 +1735,7 @@ impl InProgressSQLiteAttributeCache {
     ) -> Result<()> {
         self.unregistered_forward.insert(a);
         self.unregistered_reverse.insert(a);
-        let repopulated = self.overlay.repopulate(schema, sqlite, a);
-        if repopulated.is_err() {
-            // Don't claim to cache what we failed to read.
-            self.overlay.unregister_attribute(a);
-        }
-        repopulated
+        self.overlay.repopulate(schema, sqlite, a)
     }
 
     pub fn unregister<U>(&mut self, attribute: U)
-- 
2.43.0


From c552015573b091ca1d534680e7704d78d16e8144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 22/66] fix: keep the attribute caches in step with what a
 transaction changed, not with what it was asked to do

---
 db/src/cache.rs        | 197 +++++++++++++++++++++++------------------
 transaction/src/lib.rs |  34 +++----
 2 files changed, 122 insertions(+), 109 deletions(-)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 4b1f413..40886c2 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -48,12 +48,8 @@
 ///! and test the external API.
 use std::collections::{BTreeMap, BTreeSet, HashSet};
 
-use std::collections::btree_map::Entry;
-
 use std::collections::btree_map::Entry::{Occupied, Vacant};
 
-use std::iter::once;
-
 use std::sync::Arc;
 
 use std::iter::Peekable;
@@ -66,18 +62,12 @@ use core_traits::{Binding, Entid, TypedValue};
 
 use mentat_core::{CachedAttributes, HasSchema, Schema, UpdateableCache, ValueRc};
 
-use mentat_core::util::Either;
-
 use mentat_sql::{QueryBuilder, SQLQuery, SQLiteQueryBuilder};
 
-use edn::entities::OpType;
-
 use crate::db::TypedSQLValue;
 
 use db_traits::errors::{DbError, DbErrorKind, Result};
 
-use crate::watcher::TransactWatcher;
-
 // Right now we use BTreeMap, because we expect few cached attributes.
 pub type CacheMap<K, V> = BTreeMap<K, V>;
 
@@ -1936,93 +1926,126 @@ impl InProgressSQLiteAttributeCache {
     }
 }
 
-pub struct InProgressCacheTransactWatcher<'a> {
-    // A transaction might involve attributes that we cache. Track those values here so that
-    // we can update the cache after we commit the transaction.
-    collected_assertions: BTreeMap<Entid, Either<(), Vec<(Entid, TypedValue)>>>,
-    collected_retractions: BTreeMap<Entid, Either<(), Vec<(Entid, TypedValue)>>>,
-    cache: &'a mut InProgressSQLiteAttributeCache,
-    active: bool,
-}
-
-impl<'a> InProgressCacheTransactWatcher<'a> {
-    fn new(cache: &'a mut InProgressSQLiteAttributeCache) -> InProgressCacheTransactWatcher<'a> {
-        let mut w = InProgressCacheTransactWatcher {
-            collected_assertions: Default::default(),
-            collected_retractions: Default::default(),
-            cache,
-            active: true,
-        };
-
-        // This won't change during a transact.
-        w.active = w.cache.has_cached_attributes();
-        w
-    }
-}
-
-impl<'a> TransactWatcher for InProgressCacheTransactWatcher<'a> {
-    fn datom(&mut self, op: OpType, e: Entid, a: Entid, v: &TypedValue) {
-        if !self.active {
-            return;
+impl InProgressSQLiteAttributeCache {
+    /// Bring the cache up to date with the transaction that was just applied to the store.
+    ///
+    /// What was asked for is not what changed: asserting a new value retracts the old value of a
+    /// `:db.cardinality/one` attribute, asserting what's already there does nothing, and so does
+    /// retracting what isn't.  That's why we look at what the transaction did rather than at its
+    /// input.
+    pub fn update_from_transaction(
+        &mut self,
+        sqlite: &rusqlite::Connection,
+        old_schema: &Schema,
+        schema: &Schema,
+    ) -> Result<()> {
+        if !self.has_cached_attributes() {
+            return Ok(());
         }
 
-        let target = if op == OpType::Add {
-            &mut self.collected_assertions
-        } else {
-            &mut self.collected_retractions
-        };
-        match target.entry(a) {
-            Entry::Vacant(entry) => {
-                let is_cached = self.cache.is_attribute_cached_forward(a)
-                    || self.cache.is_attribute_cached_reverse(a);
-                if is_cached {
-                    entry.insert(Either::Right(vec![(e, v.clone())]));
-                } else {
-                    entry.insert(Either::Left(()));
+        let cached: BTreeSet<Entid> = self
+            .overlay
+            .forward_cached_attributes
+            .union(&self.overlay.reverse_cached_attributes)
+            .cloned()
+            .collect();
+
+        let mut attributes: BTreeSet<Entid> = BTreeSet::default();
+        for a in cached {
+            match schema.attribute_for_entid(a) {
+                None => {
+                    // It's not an attribute any more.
+                    self.unregister(a);
                 }
-            }
-            Entry::Occupied(mut entry) => {
-                match entry.get_mut() {
-                    Either::Left(_) => {
-                        // Nothing to do.
-                    }
-                    Either::Right(ref mut vec) => {
-                        vec.push((e, v.clone()));
+                Some(attribute) => {
+                    if old_schema.attribute_for_entid(a) == Some(attribute) {
+                        attributes.insert(a);
+                    } else {
+                        // How we cache an attribute depends on the attribute.
+                        self.repopulate(schema, sqlite, a)?;
                     }
                 }
             }
         }
-    }
 
-    fn done(&mut self, _t: &Entid, schema: &Schema) -> Result<()> {
-        // Oh, how I wish we had `impl trait`. Without it we have a six-line type signature if we
-        // try to break this out as a helper function.
-        let collected_retractions = std::mem::take(&mut self.collected_retractions);
-        let collected_assertions = std::mem::take(&mut self.collected_assertions);
-        let mut intermediate_expansion = once(collected_retractions)
-            .chain(once(collected_assertions))
-            .map(move |tree| {
-                tree.into_iter()
-                    .filter_map(move |(a, evs)| {
-                        match evs {
-                            // Drop the empty placeholders.
-                            Either::Left(_) => None,
-                            Either::Right(vec) => Some((a, vec)),
-                        }
-                    })
-                    .flat_map(move |(a, evs)| {
-                        // Flatten into a vec of (a, e, v).
-                        evs.into_iter().map(move |(e, v)| (a, e, v))
-                    })
-            });
-        let retractions = intermediate_expansion.next().unwrap();
-        let assertions = intermediate_expansion.next().unwrap();
-        self.cache.update(schema, retractions, assertions)
+        let (retractions, assertions) = applied_changes(sqlite, schema, &attributes)?;
+        self.update(schema, retractions.into_iter(), assertions.into_iter())
     }
 }
 
-impl InProgressSQLiteAttributeCache {
-    pub fn transact_watcher(&mut self) -> InProgressCacheTransactWatcher {
-        InProgressCacheTransactWatcher::new(self)
+/// Return the retractions and the assertions that the transaction that was just applied to the store
+/// made, restricted to the given attributes.
+fn applied_changes(
+    sqlite: &rusqlite::Connection,
+    schema: &Schema,
+    attributes: &BTreeSet<Entid>,
+) -> Result<(Vec<Aev>, Vec<Aev>)> {
+    let mut retractions: Vec<Aev> = vec![];
+    let mut assertions: Vec<Aev> = vec![];
+
+    let (fts, non_fts): (Vec<Entid>, Vec<Entid>) = attributes.iter().cloned().partition(|a| {
+        schema
+            .attribute_for_entid(*a)
+            .map_or(false, |attribute| attribute.fulltext)
+    });
+
+    for (attributes, is_fulltext) in &[(non_fts, false), (fts, true)] {
+        if attributes.is_empty() {
+            continue;
+        }
+
+        let value = |v: &str| {
+            if *is_fulltext {
+                format!("(SELECT text FROM fulltext_values WHERE rowid = {})", v)
+            } else {
+                v.to_string()
+            }
+        };
+
+        let mut qb = SQLiteQueryBuilder::new();
+        qb.push_sql("SELECT DISTINCT a0, e0, ");
+        qb.push_sql(&value("v"));
+        qb.push_sql(
+            ", value_type_tag0, 0
+             FROM temp.search_results
+             WHERE rid IS NOT NULL AND
+                   ((added0 IS 0 AND v0 IS v) OR
+                    (added0 IS 1 AND search_type IS ':db.cardinality/one' AND v0 IS NOT v)) AND
+                   a0 IN (",
+        );
+        interpose!(a, attributes, { qb.push_sql(&a.to_string()) }, {
+            qb.push_sql(", ")
+        });
+        qb.push_sql(") UNION ALL SELECT a0, e0, ");
+        qb.push_sql(&value("v0"));
+        qb.push_sql(
+            ", value_type_tag0, 1
+             FROM temp.search_results
+             WHERE added0 IS 1 AND ((rid IS NULL) OR (v0 IS NOT v)) AND
+                   a0 IN (",
+        );
+        interpose!(a, attributes, { qb.push_sql(&a.to_string()) }, {
+            qb.push_sql(", ")
+        });
+        qb.push_sql(") ORDER BY 1, 2");
+
+        let mut aev_factory = AevFactory::new();
+        let mut stmt = sqlite
+            .prepare(&qb.finish().sql)
+            .context(DbErrorKind::CacheUpdateFailed)?;
+        let changes: Result<Vec<(Aev, bool)>> = stmt
+            .query_and_then(rusqlite::params![], |row| -> Result<(Aev, bool)> {
+                Ok((aev_factory.row_to_aev(row)?, row.get(4)?))
+            })?
+            .collect();
+        for (aev, added) in changes? {
+            if added {
+                assertions.push(aev);
+            } else {
+                retractions.push(aev);
+            }
+        }
     }
+
+    Ok((retractions, assertions))
 }
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 5ce5dc9..0a9256a 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -53,7 +53,7 @@ use mentat_db::{
 
 use mentat_db::internal_types::TermWithTempIds;
 
-use mentat_db::cache::{InProgressCacheTransactWatcher, InProgressSQLiteAttributeCache};
+use mentat_db::cache::InProgressSQLiteAttributeCache;
 
 pub mod entity_builder;
 pub mod metadata;
@@ -166,10 +166,7 @@ impl<'a, 'c> InProgress<'a, 'c> {
         I: IntoIterator<Item = TermWithTempIds>,
     {
         self.all_or_nothing(|in_progress| {
-            let w = InProgressTransactWatcher::new(
-                &mut in_progress.tx_observer_watcher,
-                in_progress.cache.transact_watcher(),
-            );
+            let w = InProgressTransactWatcher::new(&mut in_progress.tx_observer_watcher);
             let (report, next_partition_map, next_schema, _watcher) = transact_terms(
                 &in_progress.transaction,
                 in_progress.partition_map.clone(),
@@ -202,9 +199,12 @@ impl<'a, 'c> InProgress<'a, 'c> {
         let tx_observer_watcher = self.tx_observer_watcher.clone();
         self.savepoint("mentat_transact")?;
 
-        let result = f(self).and_then(|applied| {
+        let result = f(self).and_then(|(report, next_partition_map, next_schema)| {
+            let schema = next_schema.as_ref().unwrap_or(&self.schema);
+            self.cache
+                .update_from_transaction(&self.transaction, &self.schema, schema)?;
             self.release_savepoint("mentat_transact")?;
-            Ok(applied)
+            Ok((report, next_partition_map, next_schema))
         });
 
         match result {
@@ -246,10 +246,7 @@ impl<'a, 'c> InProgress<'a, 'c> {
         //    `Default::default` in those situations to extract the partition map, and so there
         //    would still be some cost.
         self.all_or_nothing(|in_progress| {
-            let w = InProgressTransactWatcher::new(
-                &mut in_progress.tx_observer_watcher,
-                in_progress.cache.transact_watcher(),
-            );
+            let w = InProgressTransactWatcher::new(&mut in_progress.tx_observer_watcher);
             let (report, next_partition_map, next_schema, _watcher) = transact(
                 &in_progress.transaction,
                 in_progress.partition_map.clone(),
@@ -624,33 +621,26 @@ impl<'a, 'c> HasSchema for InProgress<'a, 'c> {
     }
 }
 
-struct InProgressTransactWatcher<'a, 'o> {
-    cache_watcher: InProgressCacheTransactWatcher<'a>,
+struct InProgressTransactWatcher<'o> {
     observer_watcher: &'o mut InProgressObserverTransactWatcher,
     tx_id: Option<Entid>,
 }
 
-impl<'a, 'o> InProgressTransactWatcher<'a, 'o> {
-    fn new(
-        observer_watcher: &'o mut InProgressObserverTransactWatcher,
-        cache_watcher: InProgressCacheTransactWatcher<'a>,
-    ) -> Self {
+impl<'o> InProgressTransactWatcher<'o> {
+    fn new(observer_watcher: &'o mut InProgressObserverTransactWatcher) -> Self {
         InProgressTransactWatcher {
-            cache_watcher,
             observer_watcher,
             tx_id: None,
         }
     }
 }
 
-impl<'a, 'o> TransactWatcher for InProgressTransactWatcher<'a, 'o> {
+impl<'o> TransactWatcher for InProgressTransactWatcher<'o> {
     fn datom(&mut self, op: OpType, e: Entid, a: Entid, v: &TypedValue) {
-        self.cache_watcher.datom(op, e, a, v);
         self.observer_watcher.datom(op, e, a, v);
     }
 
     fn done(&mut self, t: &Entid, schema: &Schema) -> ::db_traits::errors::Result<()> {
-        self.cache_watcher.done(t, schema)?;
         self.observer_watcher.done(t, schema)?;
         self.tx_id = Some(*t);
         Ok(())
-- 
2.43.0


From 7bb238cae0413c126d2452d004f7d6ba243fa4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 23/66] fix: look up a cached attribute whatever its
 cardinality

---
 transaction/src/query.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index 9f017c5..71fa0e2 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -215,8 +215,14 @@ where
     let attrid = attribute.into();
 
     if known.is_attribute_cached_forward(attrid) {
+        // Single- and multi-valued attributes are cached differently.
         Ok(known
             .get_value_for_entid(known.schema, attrid, entid)
+            .or_else(|| {
+                known
+                    .get_values_for_entid(known.schema, attrid, entid)
+                    .and_then(|values| values.first())
+            })
             .cloned())
     } else {
         fetch_values(sqlite, known, entid, attrid, true)
@@ -240,9 +246,15 @@ where
     let attrid = attribute.into();
 
     if known.is_attribute_cached_forward(attrid) {
+        // Single- and multi-valued attributes are cached differently.
         Ok(known
             .get_values_for_entid(known.schema, attrid, entid)
             .cloned()
+            .or_else(|| {
+                known
+                    .get_value_for_entid(known.schema, attrid, entid)
+                    .map(|value| vec![value.clone()])
+            })
             .unwrap_or_else(Vec::new))
     } else {
         fetch_values(sqlite, known, entid, attrid, false)
-- 
2.43.0


From 2415ac191c912cfecc104b8a2b740c52d781e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 24/66] fix: read fulltext values in the transaction log as the
 strings they are

---
 db/src/db.rs                |  3 ++-
 db/src/debug.rs             |  2 +-
 db/src/lib.rs               | 11 +++++++++++
 db/src/timelines.rs         |  6 +++++-
 tolstoy/src/tx_processor.rs |  3 ++-
 5 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 92be409..cd4b09b 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -195,7 +195,8 @@ lazy_static! {
 
         r#"CREATE TABLE timelined_transactions (e INTEGER NOT NULL, a SMALLINT NOT NULL, v BLOB NOT NULL, tx INTEGER NOT NULL, added TINYINT NOT NULL DEFAULT 1, value_type_tag SMALLINT NOT NULL, timeline TINYINT NOT NULL DEFAULT 0)"#,
         r#"CREATE INDEX idx_timelined_transactions_timeline ON timelined_transactions (timeline)"#,
-        r#"CREATE VIEW transactions AS SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE timeline IS 0"#,
+        // The log refers to fulltext indexed values by rowid, like datoms do; see `log_value!`.
+        concat!("CREATE VIEW transactions AS SELECT e, a, ", log_value!(), " AS v, value_type_tag, tx, added FROM timelined_transactions WHERE timeline IS 0"),
 
         // Fulltext indexing.
         // A fulltext indexed value v is an integer rowid referencing fulltext_values.
diff --git a/db/src/debug.rs b/db/src/debug.rs
index b2ece25..65d82a2 100644
--- a/db/src/debug.rs
+++ b/db/src/debug.rs
@@ -258,7 +258,7 @@ pub fn transactions_after<S: Borrow<Schema>>(
 ) -> Result<Transactions> {
     let borrowed_schema = schema.borrow();
 
-    let mut stmt: rusqlite::Statement = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM transactions WHERE tx > ? ORDER BY tx ASC, e ASC, a ASC, value_type_tag ASC, v ASC, added ASC")?;
+    let mut stmt: rusqlite::Statement = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE timeline IS 0 AND tx > ? ORDER BY tx ASC, e ASC, a ASC, value_type_tag ASC, v ASC, added ASC")?;
 
     let r: Result<Vec<_>> = stmt
         .query_and_then(&[&tx], |row| {
diff --git a/db/src/lib.rs b/db/src/lib.rs
index 07ce4ee..0370820 100644
--- a/db/src/lib.rs
+++ b/db/src/lib.rs
@@ -40,6 +40,17 @@ use itertools::Itertools;
 
 use db_traits::errors::{DbErrorKind, Result};
 
+/// The SQL expression for the value of a row of the transaction log, `timelined_transactions`.
+///
+/// Like `datoms`, the log refers to fulltext indexed values by rowid.  Those are the only strings
+/// that are stored as integers.
+#[macro_export]
+macro_rules! log_value {
+    () => {
+        "CASE WHEN value_type_tag IS 10 AND typeof(v) IS 'integer' THEN (SELECT text FROM fulltext_values WHERE rowid = v) ELSE v END"
+    };
+}
+
 #[macro_use]
 pub mod debug;
 
diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 38fb178..f875550 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -107,7 +107,11 @@ fn reversed_terms_for(
     conn: &rusqlite::Connection,
     tx_id: Entid,
 ) -> Result<Vec<TermWithoutTempIds>> {
-    let mut stmt = conn.prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE tx = ? AND timeline = ? ORDER BY tx DESC")?;
+    let mut stmt = conn.prepare(concat!(
+        "SELECT e, a, ",
+        log_value!(),
+        ", value_type_tag, tx, added FROM timelined_transactions WHERE tx = ? AND timeline = ? ORDER BY tx DESC"
+    ))?;
     let rows = stmt.query_and_then(
         &[&tx_id, &crate::TIMELINE_MAIN],
         |row| -> Result<TermWithoutTempIds> {
diff --git a/tolstoy/src/tx_processor.rs b/tolstoy/src/tx_processor.rs
index f4fd5ff..482d9ec 100644
--- a/tolstoy/src/tx_processor.rs
+++ b/tolstoy/src/tx_processor.rs
@@ -129,7 +129,8 @@ impl Processor {
             None => "WHERE timeline = 0".to_string(),
         };
         let select_query = format!(
-            "SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions {} ORDER BY tx",
+            "SELECT e, a, {}, value_type_tag, tx, added FROM timelined_transactions {} ORDER BY tx",
+            mentat_db::log_value!(),
             tx_filter
         );
         let mut stmt = sqlite.prepare(&select_query)?;
-- 
2.43.0


From 2f62d7b8825f179b40899c96771740e8db14d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 25/66] fix: a cached :db.cardinality/many attribute has values
 to query for

---
 query-algebrizer/src/clauses/pattern.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index 154acde..a2cca96 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -398,9 +398,17 @@ impl ConjoiningClauses {
                             match pattern.value {
                                 EvolvedValuePlace::Variable(ref var) => {
                                     if cached_forward {
-                                        match known.get_value_for_entid(known.schema, attr, entity)
-                                        {
-                                            None => {
+                                        let values: &[TypedValue] = if attribute.multival {
+                                            known
+                                                .get_values_for_entid(known.schema, attr, entity)
+                                                .map_or(&[], |values| values.as_slice())
+                                        } else {
+                                            known
+                                                .get_value_for_entid(known.schema, attr, entity)
+                                                .map_or(&[], std::slice::from_ref)
+                                        };
+                                        match values {
+                                            [] => {
                                                 self.mark_known_empty(
                                                     EmptyBecause::CachedAttributeHasNoValues {
                                                         entity,
@@ -409,10 +417,15 @@ impl ConjoiningClauses {
                                                 );
                                                 return true;
                                             }
-                                            Some(item) => {
+                                            [item] => {
                                                 self.bind_value(var, item.clone());
                                                 return true;
                                             }
+                                            _ => {
+                                                // Oh well.
+                                                // TODO: handle multiple values.
+                                                return false;
+                                            }
                                         }
                                     }
                                 }
-- 
2.43.0


From 5a9c0d14647d7386501bd0e1981ae7c2bb1300e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 26/66] fix: keep uncommitted pages out of the write-ahead log,
 where rolling back a savepoint breaks it

---
 db/src/db.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/db/src/db.rs b/db/src/db.rs
index cd4b09b..25d9bdb 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -91,6 +91,10 @@ fn make_connection(
     // Some of the platforms we support do not have a tmp partition (e.g. Android)
     // necessary to store temp files on disk. Ideally, consumers should be able to
     // override this behaviour (see issue 505).
+    //
+    // cache_spill=OFF keeps pages that aren't committed yet out of the write-ahead log. When they are
+    // in there and a savepoint is rolled back, versions of SQLite up to at least 3.33 can leave frames
+    // with bad checksums behind in the middle of what is committed later, and recovery drops it all.
     conn.execute_batch(&format!(
         "
         {}
@@ -99,6 +103,7 @@ fn make_connection(
         PRAGMA journal_size_limit=3145728;
         PRAGMA foreign_keys=ON;
         PRAGMA temp_store=2;
+        PRAGMA cache_spill=OFF;
     ",
         initial_pragmas
     ))?;
-- 
2.43.0


From a54beb893c59524d5baae01b1e7d2c2a8dc9b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 27/66] fix: report an error while reading query results rather
 than panic

---
 query-projector/src/projectors/pull_two_stage.rs | 8 ++++----
 query-projector/src/projectors/simple.rs         | 8 ++++----
 transaction/src/query.rs                         | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/query-projector/src/projectors/pull_two_stage.rs b/query-projector/src/projectors/pull_two_stage.rs
index f286232..4f5bf07 100644
--- a/query-projector/src/projectors/pull_two_stage.rs
+++ b/query-projector/src/projectors/pull_two_stage.rs
@@ -69,7 +69,7 @@ impl Projector for ScalarTwoStagePullProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         // Scalar is pretty straightforward -- zero or one entity, do the pull directly.
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let entity: Entid = row.get(0).unwrap(); // This will always be 0 and a ref.
             let bindings = self.puller.pull(schema, sqlite, once(entity))?;
@@ -153,7 +153,7 @@ impl Projector for TupleTwoStagePullProjector {
         sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
 
             // Keeping the compiler happy.
@@ -280,7 +280,7 @@ impl Projector for RelTwoStagePullProjector {
         let mut pull_consumers = pull_consumers?;
 
         // Collect the usual bindings and accumulate entity IDs for pull.
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             for p in pull_consumers.iter_mut() {
                 p.collect_entity(&row);
@@ -347,7 +347,7 @@ impl Projector for CollTwoStagePullProjector {
     ) -> Result<QueryOutput> {
         let mut pull_consumer = PullConsumer::for_operation(schema, &self.pull)?;
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             pull_consumer.collect_entity(&row);
         }
diff --git a/query-projector/src/projectors/simple.rs b/query-projector/src/projectors/simple.rs
index 213d75a..7e43cc7 100644
--- a/query-projector/src/projectors/simple.rs
+++ b/query-projector/src/projectors/simple.rs
@@ -50,7 +50,7 @@ impl Projector for ScalarProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             QueryResults::Scalar(Some(binding))
@@ -122,7 +122,7 @@ impl Projector for TupleProjector {
         _sqlite: &'s rusqlite::Connection,
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
-        let results = if let Some(r) = rows.next().unwrap() {
+        let results = if let Some(r) = rows.next()? {
             let row = r;
             let bindings = self.collect_bindings(row)?;
             QueryResults::Tuple(Some(bindings))
@@ -207,7 +207,7 @@ impl Projector for RelProjector {
         let width = self.len;
         let mut values: Vec<_> = Vec::with_capacity(5 * width);
 
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             self.collect_bindings_into(row, &mut values)?;
         }
@@ -263,7 +263,7 @@ impl Projector for CollProjector {
         mut rows: Rows<'stmt>,
     ) -> Result<QueryOutput> {
         let mut out: Vec<_> = vec![];
-        while let Some(r) = rows.next().unwrap() {
+        while let Some(r) = rows.next()? {
             let row = r;
             let binding = self.template.lookup(&row)?;
             out.push(binding);
diff --git a/transaction/src/query.rs b/transaction/src/query.rs
index 71fa0e2..d0a7a1a 100644
--- a/transaction/src/query.rs
+++ b/transaction/src/query.rs
@@ -322,7 +322,7 @@ where
     let mut statement = sqlite.prepare(sql)?;
     let mut rows = run_statement(&mut statement, &bindings)?;
     let mut result = vec![];
-    while let Some(row_or_error) = rows.next().unwrap() {
+    while let Some(row_or_error) = rows.next()? {
         result.push(mapper(&row_or_error));
     }
     Ok(result)
-- 
2.43.0


From fb77ac91c68859ee5e67b8427bfdd63df40f32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 28/66] fix: get rid of a transaction that could not be rolled
 back before using the store again

---
 src/store.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/store.rs b/src/store.rs
index 97f075a..f95644c 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -135,15 +135,31 @@ impl Store {
         &self.conn
     }
 
+    /// The connection, outside any transaction.
+    ///
+    /// If rolling back a failed or abandoned transaction fails in turn (for want of memory, say),
+    /// SQLite keeps it open: what it wrote remains visible, and no other transaction can begin.
+    /// There is no `InProgress` while we can be called, so such a leftover is nobody's: get rid of
+    /// it before doing anything else.
+    fn connection(&self) -> Result<&rusqlite::Connection> {
+        if !self.sqlite.is_autocommit() {
+            self.sqlite.execute_batch("ROLLBACK")?;
+        }
+        Ok(&self.sqlite)
+    }
+
     pub fn begin_read<'m>(&'m mut self) -> Result<InProgressRead<'m, 'm>> {
+        self.connection()?;
         self.conn.begin_read(&mut self.sqlite)
     }
 
     pub fn begin_transaction<'m>(&'m mut self) -> Result<InProgress<'m, 'm>> {
+        self.connection()?;
         self.conn.begin_transaction(&mut self.sqlite)
     }
 
     pub fn cache(&mut self, attr: &Keyword, direction: CacheDirection) -> Result<()> {
+        self.connection()?;
         let schema = &self.conn.current_schema();
         self.conn.cache(
             &mut self.sqlite,
@@ -172,21 +188,21 @@ impl Queryable for Store {
     where
         T: Into<Option<QueryInputs>>,
     {
-        self.conn.q_once(&self.sqlite, query, inputs)
+        self.conn.q_once(self.connection()?, query, inputs)
     }
 
     fn q_prepare<T>(&self, query: &str, inputs: T) -> PreparedResult<'_>
     where
         T: Into<Option<QueryInputs>>,
     {
-        self.conn.q_prepare(&self.sqlite, query, inputs)
+        self.conn.q_prepare(self.connection()?, query, inputs)
     }
 
     fn q_explain<T>(&self, query: &str, inputs: T) -> Result<QueryExplanation>
     where
         T: Into<Option<QueryInputs>>,
     {
-        self.conn.q_explain(&self.sqlite, query, inputs)
+        self.conn.q_explain(self.connection()?, query, inputs)
     }
 
     fn lookup_values_for_attribute<E>(
@@ -198,7 +214,7 @@ impl Queryable for Store {
         E: Into<Entid>,
     {
         self.conn
-            .lookup_values_for_attribute(&self.sqlite, entity.into(), attribute)
+            .lookup_values_for_attribute(self.connection()?, entity.into(), attribute)
     }
 
     fn lookup_value_for_attribute<E>(
@@ -210,7 +226,7 @@ impl Queryable for Store {
         E: Into<Entid>,
     {
         self.conn
-            .lookup_value_for_attribute(&self.sqlite, entity.into(), attribute)
+            .lookup_value_for_attribute(self.connection()?, entity.into(), attribute)
     }
 }
 
@@ -225,7 +241,7 @@ impl Pullable for Store {
         A: IntoIterator<Item = Entid>,
     {
         self.conn
-            .pull_attributes_for_entities(&self.sqlite, entities, attributes)
+            .pull_attributes_for_entities(self.connection()?, entities, attributes)
     }
 
     fn pull_attributes_for_entity<A>(&self, entity: Entid, attributes: A) -> Result<StructuredMap>
@@ -233,7 +249,7 @@ impl Pullable for Store {
         A: IntoIterator<Item = Entid>,
     {
         self.conn
-            .pull_attributes_for_entity(&self.sqlite, entity, attributes)
+            .pull_attributes_for_entity(self.connection()?, entity, attributes)
     }
 }
 
-- 
2.43.0


From a4e9d1e82ed466fde5ee6ca167f108e0d2a64ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 29/66] fix: never commit a transaction in progress whose
 failure could not be undone

---
 src/conn.rs            |  1 +
 transaction/src/lib.rs | 26 ++++++++++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/conn.rs b/src/conn.rs
index 212b3f2..de2bc00 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -251,6 +251,7 @@ impl Conn {
         Ok(InProgress {
             mutex: &self.metadata,
             transaction: tx,
+            abandoned: false,
             generation: current_generation,
             partition_map: current_partition_map,
             schema: (*current_schema).clone(),
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 0a9256a..60b10fd 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -87,6 +87,8 @@ pub enum CacheAction {
 /// Your changes will be implicitly dropped along with this struct.
 pub struct InProgress<'a, 'c> {
     pub transaction: rusqlite::Transaction<'c>,
+    /// Set when a failure could not be undone: this transaction must not be committed.
+    pub abandoned: bool,
     pub mutex: &'a Mutex<Metadata>,
     pub generation: u64,
     pub partition_map: PartitionMap,
@@ -180,6 +182,18 @@ impl<'a, 'c> InProgress<'a, 'c> {
         })
     }
 
+    /// An error if this transaction is beyond saving: all that is left is to roll it back.
+    fn ensure_intact(&self) -> Result<()> {
+        // SQLite can roll everything back of its own accord, following some errors.
+        if self.abandoned || self.transaction.is_autocommit() {
+            bail!(MentatError::RusqliteError(
+                "cannot go on with the transaction".to_string(),
+                "the SQLite transaction was rolled back".to_string()
+            ));
+        }
+        Ok(())
+    }
+
     /// Run `f`, which applies one Mentat transaction, so that a failure leaves no trace: neither in
     /// the SQLite transaction we hold open, which the caller can go on to use and commit, nor in the
     /// cache, nor in what observers will be told.
@@ -187,13 +201,7 @@ impl<'a, 'c> InProgress<'a, 'c> {
     where
         F: FnOnce(&mut Self) -> Result<(TxReport, PartitionMap, Option<Schema>)>,
     {
-        if self.transaction.is_autocommit() {
-            // SQLite already rolled everything back, following an earlier error.
-            bail!(MentatError::RusqliteError(
-                "cannot transact".to_string(),
-                "the SQLite transaction was rolled back".to_string()
-            ));
-        }
+        self.ensure_intact()?;
 
         let cache = self.cache.clone();
         let tx_observer_watcher = self.tx_observer_watcher.clone();
@@ -226,7 +234,7 @@ impl<'a, 'c> InProgress<'a, 'c> {
                 {
                     // We can't get back to where we were, so give up on the whole thing: nothing
                     // further can be transacted, and committing will fail.
-                    let _ = self.transaction.execute("ROLLBACK", rusqlite::params![]);
+                    self.abandoned = true;
                 }
                 Err(e)
             }
@@ -282,6 +290,8 @@ impl<'a, 'c> InProgress<'a, 'c> {
     }
 
     pub fn commit(self) -> Result<()> {
+        self.ensure_intact()?;
+
         // The mutex is taken during this entire method.
         let mut metadata = self.mutex.lock().unwrap();
 
-- 
2.43.0


From 829e38276628f9e886e5692d1c89afdb77bb60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 30/66] fix: report an error while dropping :db/unique rather
 than panic

---
 db/src/db.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 25d9bdb..3872865 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -1276,13 +1276,10 @@ SELECT EXISTS
                 &Unique => {
                     // TODO: This can fail if there are conflicting values; give a more helpful
                     // error message in this case.
-                    if unique_value_stmt
-                        .execute(&[
-                            to_bool_ref(attribute.unique.is_some()),
-                            &entid as &dyn ToSql,
-                        ])
-                        .is_err()
-                    {
+                    if let Err(e) = unique_value_stmt.execute(&[
+                        to_bool_ref(attribute.unique.is_some()),
+                        &entid as &dyn ToSql,
+                    ]) {
                         match attribute.unique {
                             Some(attribute::Unique::Value) => {
                                 bail!(DbErrorKind::SchemaAlterationFailed(format!(
@@ -1296,7 +1293,7 @@ SELECT EXISTS
                                     entid
                                 )))
                             }
-                            None => unreachable!(), // This shouldn't happen, even after we support removing :db/unique.
+                            None => bail!(e), // There's nothing to conflict with.
                         }
                     }
                 }
-- 
2.43.0


From e21178f3144869da33e02816dd59fcb2ed91423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 31/66] fix: a negative number in ground is a long, not an
 impossible entid

---
 query-algebrizer/src/clauses/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 9448229..219eb4b 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -138,11 +138,11 @@ impl ConjoiningClauses {
                         // This can only be a ref.
                         Ok(Val(TypedValue::Ref(x)))
                     }
-                    (_, false, true) => {
+                    (_, false, true) | (false, true, true) => {
                         // This can only be a long.
                         Ok(Val(TypedValue::Long(x)))
                     }
-                    (false, true, _) => {
+                    (false, true, false) => {
                         // This isn't a valid ref, but that's the type to which this must conform!
                         Ok(Impossible(EmptyBecause::TypeMismatch {
                             var: var.clone(),
-- 
2.43.0


From 8a36cef1603c9298bb7a0bb38eb7306d7f1cd479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 32/66] fix: reading in a transaction that was lost is an
 error, not a read of what came before it

---
 transaction/src/lib.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 60b10fd..971a53e 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -194,6 +194,12 @@ impl<'a, 'c> InProgress<'a, 'c> {
         Ok(())
     }
 
+    /// What to read from: never whatever else the store holds once the transaction is lost.
+    fn sqlite(&self) -> Result<&rusqlite::Connection> {
+        self.ensure_intact()?;
+        Ok(&*(self.transaction))
+    }
+
     /// Run `f`, which applies one Mentat transaction, so that a failure leaves no trace: neither in
     /// the SQLite transaction we hold open, which the caller can go on to use and commit, nor in the
     /// cache, nor in what observers will be told.
@@ -471,9 +477,9 @@ impl<'a, 'c> Queryable for InProgress<'a, 'c> {
     {
         if self.use_caching {
             let known = Known::new(&self.schema, Some(&self.cache));
-            q_once(&*(self.transaction), known, query, inputs)
+            q_once(self.sqlite()?, known, query, inputs)
         } else {
-            q_uncached(&*(self.transaction), &self.schema, query, inputs)
+            q_uncached(self.sqlite()?, &self.schema, query, inputs)
         }
     }
 
@@ -482,7 +488,7 @@ impl<'a, 'c> Queryable for InProgress<'a, 'c> {
         T: Into<Option<QueryInputs>>,
     {
         let known = Known::new(&self.schema, Some(&self.cache));
-        q_prepare(&*(self.transaction), known, query, inputs)
+        q_prepare(self.sqlite()?, known, query, inputs)
     }
 
     fn q_explain<T>(&self, query: &str, inputs: T) -> Result<QueryExplanation>
@@ -490,7 +496,7 @@ impl<'a, 'c> Queryable for InProgress<'a, 'c> {
         T: Into<Option<QueryInputs>>,
     {
         let known = Known::new(&self.schema, Some(&self.cache));
-        q_explain(&*(self.transaction), known, query, inputs)
+        q_explain(self.sqlite()?, known, query, inputs)
     }
 
     fn lookup_values_for_attribute<E>(
@@ -502,7 +508,7 @@ impl<'a, 'c> Queryable for InProgress<'a, 'c> {
         E: Into<Entid>,
     {
         let known = Known::new(&self.schema, Some(&self.cache));
-        lookup_values_for_attribute(&*(self.transaction), known, entity, attribute)
+        lookup_values_for_attribute(self.sqlite()?, known, entity, attribute)
     }
 
     fn lookup_value_for_attribute<E>(
@@ -514,7 +520,7 @@ impl<'a, 'c> Queryable for InProgress<'a, 'c> {
         E: Into<Entid>,
     {
         let known = Known::new(&self.schema, Some(&self.cache));
-        lookup_value_for_attribute(&*(self.transaction), known, entity, attribute)
+        lookup_value_for_attribute(self.sqlite()?, known, entity, attribute)
     }
 }
 
@@ -528,7 +534,7 @@ impl<'a, 'c> Pullable for InProgress<'a, 'c> {
         E: IntoIterator<Item = Entid>,
         A: IntoIterator<Item = Entid>,
     {
-        pull_attributes_for_entities(&self.schema, &*(self.transaction), entities, attributes)
+        pull_attributes_for_entities(&self.schema, self.sqlite()?, entities, attributes)
             .map_err(|e| e.into())
     }
 
@@ -536,7 +542,7 @@ impl<'a, 'c> Pullable for InProgress<'a, 'c> {
     where
         A: IntoIterator<Item = Entid>,
     {
-        pull_attributes_for_entity(&self.schema, &*(self.transaction), entity, attributes)
+        pull_attributes_for_entity(&self.schema, self.sqlite()?, entity, attributes)
             .map_err(|e| e.into())
     }
 }
-- 
2.43.0


From dd3b56b90ed3828e7938a09a15de221199111fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 33/66] fix: commits survive a power failure even when the
 store could not switch to WAL mode

---
 db/src/db.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/db/src/db.rs b/db/src/db.rs
index 3872865..2fc4f72 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -95,10 +95,15 @@ fn make_connection(
     // cache_spill=OFF keeps pages that aren't committed yet out of the write-ahead log. When they are
     // in there and a savepoint is rolled back, versions of SQLite up to at least 3.33 can leave frames
     // with bad checksums behind in the middle of what is committed later, and recovery drops it all.
+    //
+    // synchronous=EXTRA is the same as FULL in WAL mode. But SQLite doesn't report an error when it
+    // can't switch to WAL mode: it carries on with a rollback journal, and there only EXTRA makes sure
+    // that the journal of a committed transaction doesn't come back after a power failure.
     conn.execute_batch(&format!(
         "
         {}
         PRAGMA journal_mode=wal;
+        PRAGMA synchronous=EXTRA;
         PRAGMA wal_autocheckpoint=32;
         PRAGMA journal_size_limit=3145728;
         PRAGMA foreign_keys=ON;
-- 
2.43.0


From b7edc5d284b17af7c7fab1dc5918ae75aee7c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 34/66] fix: instants before 1970 with fractions of a second
 were read back as others

---
 edn/src/types.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/edn/src/types.rs b/edn/src/types.rs
index c1f4b07..c5577fb 100644
--- a/edn/src/types.rs
+++ b/edn/src/types.rs
@@ -653,7 +653,11 @@ pub trait FromMicros {
 
 impl FromMicros for DateTime<Utc> {
     fn from_micros(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000_000, ((ts % 1_000_000).abs() as u32) * 1_000)
+        // Fractions of a second count forwards, before 1970 as well.
+        Utc.timestamp(
+            ts.div_euclid(1_000_000),
+            (ts.rem_euclid(1_000_000) as u32) * 1_000,
+        )
     }
 }
 
@@ -675,7 +679,10 @@ pub trait FromMillis {
 
 impl FromMillis for DateTime<Utc> {
     fn from_millis(ts: i64) -> Self {
-        Utc.timestamp(ts / 1_000, ((ts % 1_000).abs() as u32) * 1_000)
+        Utc.timestamp(
+            ts.div_euclid(1_000),
+            (ts.rem_euclid(1_000) as u32) * 1_000_000,
+        )
     }
 }
 
-- 
2.43.0


From a87d96ef49fab2fb5de71cdedbff2cbf89303d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 35/66] fix: numbers and instants out of range in text panicked
 instead of being refused

---
 edn/src/lib.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 2cbb21e..0917da8 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -92,13 +92,13 @@ peg::parser!(pub grammar parse() for str {
     pub rule raw_bigint() -> BigInt = b:$( sign()? digit()+ ) "N"
         { b.parse::<BigInt>().unwrap() }
     pub rule raw_octalinteger() -> i64 = "0" i:$( octaldigit()+ )
-        { i64::from_str_radix(i, 8).unwrap() }
+        {? i64::from_str_radix(i, 8).map_err(|_| "integer out of range") }
     pub rule raw_hexinteger() -> i64 = "0x" i:$( hex()+ )
-        { i64::from_str_radix(i, 16).unwrap() }
+        {? i64::from_str_radix(i, 16).map_err(|_| "integer out of range") }
     pub rule raw_basedinteger() -> i64 = b:$( validbase() ) "r" i:$( alphanumeric()+ )
-        { i64::from_str_radix(i, b.parse::<u32>().unwrap()).unwrap() }
+        {? i64::from_str_radix(i, b.parse::<u32>().unwrap()).map_err(|_| "integer not valid in its base, or out of range") }
     pub rule raw_integer() -> i64 = i:$( sign()? digit()+ ) !("." / (['e' | 'E']))
-        { i.parse::<i64>().unwrap() }
+        {? i.parse::<i64>().map_err(|_| "integer out of range") }
     pub rule raw_float() -> OrderedFloat<f64> = f:$(sign()? digit()+ ("." digit()+)? (['e' | 'E'] sign()? digit()+)?)
         { OrderedFloat(f.parse::<f64>().unwrap()) }
 
@@ -109,7 +109,8 @@ peg::parser!(pub grammar parse() for str {
     pub rule integer() -> SpannedValue = v:raw_integer() { SpannedValue::Integer(v) }
     pub rule float() -> SpannedValue = v:raw_float() { SpannedValue::Float(v) }
 
-    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() / float() )
+    // An integer that's out of range isn't a float instead, nor one with something following it.
+    rule number() -> SpannedValue = ( bigint() / basedinteger() / hexinteger() / octalinteger() / integer() / ( &( sign()? digit()+ (['.' | 'e' | 'E']) ) v:float() { v } ) )
 
     // TODO: standalone characters: \<char>, \newline, \return, \space and \tab.
     // rule string_standalone_chars() ->
@@ -146,19 +147,27 @@ peg::parser!(pub grammar parse() for str {
         }
 
     rule inst_micros() -> DateTime<Utc> =
-        "#instmicros" whitespace()+ d:$( digit()+ ) {
-            let micros = d.parse::<i64>().unwrap();
-            let seconds: i64 = micros / 1_000_000;
-            let nanos: u32 = ((micros % 1_000_000).abs() as u32) * 1000;
-            Utc.timestamp(seconds, nanos)
+        "#instmicros" whitespace()+ d:$( digit()+ ) {?
+            d.parse::<i64>()
+                .ok()
+                .and_then(|micros| {
+                    let seconds: i64 = micros / 1_000_000;
+                    let nanos: u32 = ((micros % 1_000_000).abs() as u32) * 1000;
+                    Utc.timestamp_opt(seconds, nanos).single()
+                })
+                .ok_or("instant out of range")
         }
 
     rule inst_millis() -> DateTime<Utc> =
-        "#instmillis" whitespace()+ d:$( digit()+ ) {
-            let millis = d.parse::<i64>().unwrap();
-            let seconds: i64 = millis / 1000;
-            let nanos: u32 = ((millis % 1000).abs() as u32) * 1_000_000;
-            Utc.timestamp(seconds, nanos)
+        "#instmillis" whitespace()+ d:$( digit()+ ) {?
+            d.parse::<i64>()
+                .ok()
+                .and_then(|millis| {
+                    let seconds: i64 = millis / 1000;
+                    let nanos: u32 = ((millis % 1000).abs() as u32) * 1_000_000;
+                    Utc.timestamp_opt(seconds, nanos).single()
+                })
+                .ok_or("instant out of range")
         }
 
     rule inst() -> SpannedValue = t:(inst_millis() / inst_micros() / inst_string())
-- 
2.43.0


From 07aec2bc129fe2053705e2750cc065dbdfddecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 36/66] fix: escaped newlines, tabs and returns in strings were
 read as letters

---
 edn/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edn/src/lib.rs b/edn/src/lib.rs
index 0917da8..35b6040 100644
--- a/edn/src/lib.rs
+++ b/edn/src/lib.rs
@@ -114,7 +114,14 @@ peg::parser!(pub grammar parse() for str {
 
     // TODO: standalone characters: \<char>, \newline, \return, \space and \tab.
     // rule string_standalone_chars() ->
-    rule string_special_char() -> &'input str = "\\" c:$(['\\' | '"' | 'n' | 't' | 'r']) { c }
+    rule string_special_char() -> &'input str = "\\" c:$(['\\' | '"' | 'n' | 't' | 'r']) {
+        match c {
+            "n" => "\n",
+            "t" => "\t",
+            "r" => "\r",
+            c => c,
+        }
+    }
     rule string_normal_chars() -> &'input str = c:$((!['\"' | '\\'][_])+) { c }
 
     // This is what we need to do in order to unescape. We can't just match the entire string slice:
-- 
2.43.0


From 86700cfae41cda462809394a5553497207bb0eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 37/66] fix: instants finer than a microsecond were told apart
 from what they are stored as

---
 db/src/db.rs                            | 2 +-
 query-algebrizer/src/clauses/convert.rs | 2 +-
 query-algebrizer/src/clauses/pattern.rs | 2 +-
 query-algebrizer/src/clauses/resolve.rs | 4 ++--
 src/query_builder.rs                    | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 2fc4f72..2572e7d 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -458,7 +458,7 @@ impl TypedSQLValue for TypedValue {
     fn from_edn_value(value: &Value) -> Option<TypedValue> {
         match value {
             Value::Boolean(x) => Some(TypedValue::Boolean(*x)),
-            Value::Instant(x) => Some(TypedValue::Instant(*x)),
+            Value::Instant(x) => Some((*x).into()), // Truncated to microseconds, as stored.
             Value::Integer(x) => Some(TypedValue::Long(*x)),
             Value::Uuid(x) => Some(TypedValue::Uuid(*x)),
             Value::Float(ref x) => Some(TypedValue::Double(*x)),
diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 219eb4b..8db5d10 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -216,7 +216,7 @@ impl ConjoiningClauses {
                 coerce_to_typed_value!(var, x, known_types, ValueType::Boolean, TypedValue::Boolean)
             }
             FnArg::Constant(NonIntegerConstant::Instant(x)) => {
-                coerce_to_typed_value!(var, x, known_types, ValueType::Instant, TypedValue::Instant)
+                coerce_to_typed_value!(var, x, known_types, ValueType::Instant, TypedValue::from)
             }
             FnArg::Constant(NonIntegerConstant::Uuid(x)) => {
                 coerce_to_typed_value!(var, x, known_types, ValueType::Uuid, TypedValue::Uuid)
diff --git a/query-algebrizer/src/clauses/pattern.rs b/query-algebrizer/src/clauses/pattern.rs
index a2cca96..86b07ff 100644
--- a/query-algebrizer/src/clauses/pattern.rs
+++ b/query-algebrizer/src/clauses/pattern.rs
@@ -33,7 +33,7 @@ pub fn into_typed_value(nic: NonIntegerConstant) -> TypedValue {
         NonIntegerConstant::Boolean(v) => TypedValue::Boolean(v),
         NonIntegerConstant::Float(v) => TypedValue::Double(v),
         NonIntegerConstant::Text(v) => v.into(),
-        NonIntegerConstant::Instant(v) => TypedValue::Instant(v),
+        NonIntegerConstant::Instant(v) => v.into(),
         NonIntegerConstant::Uuid(v) => TypedValue::Uuid(v),
     }
 }
diff --git a/query-algebrizer/src/clauses/resolve.rs b/query-algebrizer/src/clauses/resolve.rs
index 0d4f1fa..ebb39a5 100644
--- a/query-algebrizer/src/clauses/resolve.rs
+++ b/query-algebrizer/src/clauses/resolve.rs
@@ -93,7 +93,7 @@ impl ConjoiningClauses {
                 }
             },
             Constant(NonIntegerConstant::Instant(v)) => {
-                Ok(QueryValue::TypedValue(TypedValue::Instant(v)))
+                Ok(QueryValue::TypedValue(v.into()))
             }
 
             // TODO: should we allow integers if they seem to be timestamps? It's ambiguous…
@@ -205,7 +205,7 @@ impl ConjoiningClauses {
                 Ok(QueryValue::TypedValue(TypedValue::Uuid(u)))
             }
             Constant(NonIntegerConstant::Instant(u)) => {
-                Ok(QueryValue::TypedValue(TypedValue::Instant(u)))
+                Ok(QueryValue::TypedValue(u.into()))
             }
             Constant(NonIntegerConstant::BigInteger(_)) => unimplemented!(),
             SrcVar(_) => unimplemented!(),
diff --git a/src/query_builder.rs b/src/query_builder.rs
index 90c44b2..1fb5497 100644
--- a/src/query_builder.rs
+++ b/src/query_builder.rs
@@ -88,7 +88,7 @@ impl<'a> QueryBuilder<'a> {
 
     pub fn bind_date_time(&mut self, var: &str, value: DateTime<Utc>) -> &mut Self {
         self.values
-            .insert(Variable::from_valid_name(var), TypedValue::Instant(value));
+            .insert(Variable::from_valid_name(var), value.into());
         self
     }
 
-- 
2.43.0


From 8ce6c1c379279927dd15b56164c29e02e0bd353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 38/66] fix: fast-forwarding to a remote transaction does not
 free entids already in use

---
 tolstoy/src/syncer.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 4ad34e9..3d61737 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -324,6 +324,22 @@ impl Syncer {
         }
     }
 
+    /// The partition map supplied with a transaction only accounts for the entids which that
+    /// transaction mentions. Whatever else is already allocated has to stay allocated, otherwise
+    /// entids of existing entities would be handed out again.
+    fn keep_allocated_entids(incoming: &mut PartitionMap, current: &PartitionMap) {
+        for (name, part) in incoming.iter_mut() {
+            if name == ":db.part/tx" {
+                continue;
+            }
+            if let Some(current_part) = current.get(name) {
+                if current_part.next_entid() > part.next_entid() {
+                    part.set_next_entid(current_part.next_entid());
+                }
+            }
+        }
+    }
+
     fn fast_forward_local<'a, 'c>(
         in_progress: &mut InProgress<'a, 'c>,
         txs: Vec<Tx>,
@@ -352,6 +368,7 @@ impl Syncer {
             Syncer::remote_parts_to_builder(&mut builder, tx.parts)?;
 
             // Allocate space for the incoming entids.
+            Syncer::keep_allocated_entids(&mut partition_map, &in_progress.partition_map);
             in_progress.partition_map = partition_map;
             let report = in_progress.transact_builder(builder)?;
             last_tx = Some((report.tx_id, tx.tx));
-- 
2.43.0


From 5b9e329eda9c4401c14320e8cc51e904b800affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 39/66] fix: entities known only by reference take part in the
 partitions of an uploaded transaction

---
 tolstoy/src/tx_uploader.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tolstoy/src/tx_uploader.rs b/tolstoy/src/tx_uploader.rs
index d33e352..412bcac 100644
--- a/tolstoy/src/tx_uploader.rs
+++ b/tolstoy/src/tx_uploader.rs
@@ -12,7 +12,7 @@ use std::collections::HashMap;
 
 use uuid::Uuid;
 
-use core_traits::Entid;
+use core_traits::{Entid, TypedValue};
 
 use mentat_db::{PartitionMap, V1_PARTS};
 
@@ -105,7 +105,14 @@ impl<'c> TxReceiver<UploaderReport> for TxUploader<'c> {
         // TODO this should live within a transaction, once server support is in place.
         // For now, we're uploading the PartitionMap in transaction's first chunk.
         datoms[0].partitions = Some(allocate_partition_map_for_entids(
-            datoms.iter().map(|d| d.e),
+            // An entity may well be known only by a reference to it.
+            datoms.iter().flat_map(|d| {
+                let value = match d.v {
+                    TypedValue::Ref(entid) => Some(entid),
+                    _ => None,
+                };
+                Some(d.e).into_iter().chain(value)
+            }),
             &self.local_partitions,
         ));
 
-- 
2.43.0


From 08485742c72d2be1e9982e67c97dcf6cd45b857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 40/66] fix: local changes can be uploaded on a first sync
 against a remote which holds only the bootstrap

---
 tolstoy/src/syncer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 3d61737..bfc282e 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -701,7 +701,7 @@ impl Syncer {
 
     fn first_sync_against_non_empty<R>(
         ip: &mut InProgress<'_, '_>,
-        remote_client: &R,
+        remote_client: &mut R,
         local_metadata: &SyncMetadata,
     ) -> Result<SyncReport>
     where
@@ -768,7 +768,14 @@ impl Syncer {
             }
 
             SyncAction::RemoteFastForward => {
-                bail!(TolstoyError::NotYetImplemented("TODO fast-forward remote on first sync when remote is just bootstrap and local has more".to_string()))
+                let remote_head = remote_bootstrap.tx;
+                Syncer::fast_forward_remote(
+                    &mut ip.transaction,
+                    Some(local_bootstrap),
+                    remote_client,
+                    &remote_head,
+                )?;
+                Ok(SyncReport::RemoteFastForward)
             }
 
             SyncAction::LocalFastForward => {
-- 
2.43.0


From 984452a07774d28aa31b8ccf5cfa5d33eb83c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 41/66] fix: a client merged with its own transactions after
 losing the acknowledgement of an upload

---
 tolstoy/src/syncer.rs | 64 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 6 deletions(-)

diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index bfc282e..3316fa0 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -386,6 +386,58 @@ impl Syncer {
         Ok(SyncReport::LocalFastForward)
     }
 
+    /// A previous sync might have advanced the remote head without us getting to know about that: an
+    /// acknowledgement may get lost, or we might have failed to commit afterwards. In that case our own
+    /// transactions are the first ones to come back.
+    fn is_own_transaction(incoming: &Tx, local: &LocalTx) -> bool {
+        fn datoms(parts: &[TxPart]) -> HashSet<(Entid, Entid, &TypedValue, Entid, bool)> {
+            parts
+                .iter()
+                .map(|part| (part.e, part.a, &part.v, part.tx, part.added))
+                .collect()
+        }
+        datoms(&incoming.parts) == datoms(&local.parts)
+    }
+
+    /// Both remote and local have transactions which follow their last shared one.
+    fn combine_changes<R>(
+        ip: &mut InProgress<'_, '_>,
+        remote_client: &mut R,
+        mut incoming_txs: Vec<Tx>,
+        mut local_txs: Vec<LocalTx>,
+    ) -> Result<SyncReport>
+    where
+        R: GlobalTransactionLog,
+    {
+        // Recognize whatever we've already uploaded.
+        let mut shared = None;
+        while !incoming_txs.is_empty()
+            && !local_txs.is_empty()
+            && Syncer::is_own_transaction(&incoming_txs[0], &local_txs[0])
+        {
+            let (local, remote) = (local_txs.remove(0).tx, incoming_txs.remove(0).tx);
+            SyncMetadata::set_remote_head_and_map(&mut ip.transaction, (local, &remote).into())?;
+            shared = Some((local, remote));
+        }
+
+        match shared {
+            Some(_) if incoming_txs.is_empty() && local_txs.is_empty() => {
+                Ok(SyncReport::RemoteFastForward)
+            }
+            Some((local, remote)) if incoming_txs.is_empty() => {
+                Syncer::fast_forward_remote(
+                    &mut ip.transaction,
+                    Some(local),
+                    remote_client,
+                    &remote,
+                )?;
+                Ok(SyncReport::RemoteFastForward)
+            }
+            Some(_) if local_txs.is_empty() => Syncer::fast_forward_local(ip, incoming_txs),
+            _ => Syncer::merge(ip, incoming_txs, local_txs),
+        }
+    }
+
     fn merge(
         ip: &mut InProgress<'_, '_>,
         incoming_txs: Vec<Tx>,
@@ -786,8 +838,9 @@ impl Syncer {
             SyncAction::CombineChanges => {
                 let local_txs = Processor::process(
                     &ip.transaction, Some(local_metadata.root), LocalTxSet::new())?;
-                Syncer::merge(
+                Syncer::combine_changes(
                     ip,
+                    remote_client,
                     incoming_txs[1..].to_vec(),
                     local_txs,
                 )
@@ -845,9 +898,6 @@ impl Syncer {
 
                 d(&"Fast-forwarding the remote.".to_string());
 
-                // TODO it's possible that we've successfully advanced remote head previously,
-                // but failed to advance our own local head. If that's the case, and we can recognize it,
-                // our sync becomes just bumping our local head. AFAICT below would currently fail.
                 Syncer::fast_forward_remote(
                     &mut ip.transaction,
                     Some(upload_from_tx),
@@ -877,10 +927,12 @@ impl Syncer {
                     LocalTxSet::new(),
                 )?;
                 // Merge!
-                Syncer::merge(
+                let incoming_txs = remote_client.transactions_after(&locally_known_remote_head)?;
+                Syncer::combine_changes(
                     ip,
+                    remote_client,
                     // Remote txs to merge...
-                    remote_client.transactions_after(&locally_known_remote_head)?,
+                    incoming_txs,
                     // ... with the local txs.
                     local_txs,
                 )
-- 
2.43.0


From 1d6e9c681b491adfe424c31865b51fe76846de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 42/66] fix: rewinding several transactions lost track of the
 schema

---
 db/src/timelines.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index f875550..59c720f 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -164,12 +164,15 @@ pub fn move_from_main_timeline(
     for tx_id in &txs_to_move {
         let reversed_terms = reversed_terms_for(conn, *tx_id)?;
 
+        // Whatever has been rewound so far might have altered the schema.
+        let current_schema = last_schema.as_ref().unwrap_or(schema);
+
         // Rewind schema and datoms.
         let (report, _, new_schema, _) = transact_terms_with_action(
             conn,
             partition_map.clone(),
-            schema,
-            schema,
+            current_schema,
+            current_schema,
             NullWatcher(),
             reversed_terms.into_iter().map(|t| t.rewrap()),
             InternSet::new(),
@@ -186,7 +189,9 @@ pub fn move_from_main_timeline(
         // A quick workaround is to just remove the bad txInstant datom.
         // See test_clashing_tx_instants test case.
         remove_tx_from_datoms(conn, report.tx_id)?;
-        last_schema = new_schema;
+        if new_schema.is_some() {
+            last_schema = new_schema;
+        }
     }
 
     // Move transactions over to the target timeline.
-- 
2.43.0


From f342d885c9bed07c8cfdea25afa51fcc4f46ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 43/66] fix: rewinding left facts attributed to a transaction
 which was not kept

---
 db/src/timelines.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 59c720f..705a8e2 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -8,6 +8,7 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
+use std::collections::BTreeSet;
 use std::ops::RangeFrom;
 
 use rusqlite;
@@ -102,6 +103,21 @@ fn is_timeline_empty(conn: &rusqlite::Connection, timeline: Entid) -> Result<boo
     Ok(rows.count() == 0)
 }
 
+/// Rewinding a retraction asserts the datom again, as part of a transaction which isn't kept.
+/// Attribute such datoms to the transactions which asserted them in the first place.
+fn restore_asserting_txs(conn: &rusqlite::Connection, rewinding_tx: Entid) -> Result<()> {
+    conn.execute(
+        "UPDATE datoms SET tx = IFNULL(
+           (SELECT MAX(t.tx) FROM timelined_transactions AS t
+             WHERE t.timeline = ?1 AND t.added IS 1
+               AND t.e = datoms.e AND t.a = datoms.a AND t.v = datoms.v
+               AND t.value_type_tag = datoms.value_type_tag), tx)
+         WHERE tx = ?2",
+        rusqlite::params![crate::TIMELINE_MAIN, rewinding_tx],
+    )?;
+    Ok(())
+}
+
 /// Get terms for tx_id, reversing them in meaning (swap add & retract).
 fn reversed_terms_for(
     conn: &rusqlite::Connection,
@@ -161,6 +177,7 @@ pub fn move_from_main_timeline(
     let txs_to_move = collect_ordered_txs_to_move(conn, txs_from, crate::TIMELINE_MAIN)?;
 
     let mut last_schema = None;
+    let mut rewinding_txs = BTreeSet::new();
     for tx_id in &txs_to_move {
         let reversed_terms = reversed_terms_for(conn, *tx_id)?;
 
@@ -189,6 +206,7 @@ pub fn move_from_main_timeline(
         // A quick workaround is to just remove the bad txInstant datom.
         // See test_clashing_tx_instants test case.
         remove_tx_from_datoms(conn, report.tx_id)?;
+        rewinding_txs.insert(report.tx_id);
         if new_schema.is_some() {
             last_schema = new_schema;
         }
@@ -197,6 +215,10 @@ pub fn move_from_main_timeline(
     // Move transactions over to the target timeline.
     move_transactions_to(conn, &txs_to_move, new_timeline)?;
 
+    for tx_id in rewinding_txs {
+        restore_asserting_txs(conn, tx_id)?;
+    }
+
     Ok((last_schema, db::read_partition_map(conn)?))
 }
 
-- 
2.43.0


From 650c2a154ac3cbd6dc6fd6b72b3ee311406f1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 44/66] fix: a reference to a transaction takes no part in the
 partitions of an uploaded transaction

---
 tolstoy/src/tx_uploader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tolstoy/src/tx_uploader.rs b/tolstoy/src/tx_uploader.rs
index 412bcac..d84f3fa 100644
--- a/tolstoy/src/tx_uploader.rs
+++ b/tolstoy/src/tx_uploader.rs
@@ -104,11 +104,13 @@ impl<'c> TxReceiver<UploaderReport> for TxUploader<'c> {
 
         // TODO this should live within a transaction, once server support is in place.
         // For now, we're uploading the PartitionMap in transaction's first chunk.
+        let tx_partition = &self.local_partitions[":db.part/tx"];
         datoms[0].partitions = Some(allocate_partition_map_for_entids(
             // An entity may well be known only by a reference to it.
             datoms.iter().flat_map(|d| {
                 let value = match d.v {
-                    TypedValue::Ref(entid) => Some(entid),
+                    // Transactions are only allocated by being transacted.
+                    TypedValue::Ref(entid) if !tx_partition.allows_entid(entid) => Some(entid),
                     _ => None,
                 };
                 Some(d.e).into_iter().chain(value)
-- 
2.43.0


From b1f1edd46d2be2e4f3cdabe04eedfd7097d52218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 45/66] fix: moving transactions off the main timeline took
 others of the same id along

---
 db/src/timelines.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/src/timelines.rs b/db/src/timelines.rs
index 705a8e2..8fa8be4 100644
--- a/db/src/timelines.rs
+++ b/db/src/timelines.rs
@@ -75,11 +75,13 @@ fn move_transactions_to(
     tx_ids: &[Entid],
     new_timeline: Entid,
 ) -> Result<()> {
-    // Move specified transactions over to a specified timeline.
+    // Move specified transactions from the main timeline over to a specified timeline.
+    // Other timelines might use the same transaction ids: leave them alone.
     conn.execute(
         &format!(
-            "UPDATE timelined_transactions SET timeline = {} WHERE tx IN {}",
+            "UPDATE timelined_transactions SET timeline = {} WHERE timeline = {} AND tx IN {}",
             new_timeline,
+            crate::TIMELINE_MAIN,
             crate::repeat_values(tx_ids.len(), 1)
         ),
         &(tx_ids
-- 
2.43.0


From 4210816c8af652596d2065c45a903cc681346fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 46/66] fix: rolling back to a savepoint left what was in
 memory as it was

---
 src/conn.rs            |  1 +
 transaction/src/lib.rs | 51 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/conn.rs b/src/conn.rs
index de2bc00..8f37426 100644
--- a/src/conn.rs
+++ b/src/conn.rs
@@ -259,6 +259,7 @@ impl Conn {
             use_caching: true,
             tx_observer: &self.tx_observer_service,
             tx_observer_watcher: InProgressObserverTransactWatcher::new(),
+            savepoints: vec![],
         })
     }
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 971a53e..8e3c622 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -97,6 +97,17 @@ pub struct InProgress<'a, 'c> {
     pub use_caching: bool,
     pub tx_observer: &'a Mutex<TxObservationService>,
     pub tx_observer_watcher: InProgressObserverTransactWatcher,
+    /// The savepoints that are open, the latest one last.
+    pub savepoints: Vec<Savepoint>,
+}
+
+/// What we held in memory when a savepoint was opened.
+pub struct Savepoint {
+    name: String,
+    partition_map: PartitionMap,
+    schema: Schema,
+    cache: InProgressSQLiteAttributeCache,
+    tx_observer_watcher: InProgressObserverTransactWatcher,
 }
 
 /// Represents an in-progress set of reads to the store. Just like `InProgress`,
@@ -207,10 +218,6 @@ impl<'a, 'c> InProgress<'a, 'c> {
     where
         F: FnOnce(&mut Self) -> Result<(TxReport, PartitionMap, Option<Schema>)>,
     {
-        self.ensure_intact()?;
-
-        let cache = self.cache.clone();
-        let tx_observer_watcher = self.tx_observer_watcher.clone();
         self.savepoint("mentat_transact")?;
 
         let result = f(self).and_then(|(report, next_partition_map, next_schema)| {
@@ -230,8 +237,6 @@ impl<'a, 'c> InProgress<'a, 'c> {
                 Ok(report)
             }
             Err(e) => {
-                self.cache = cache;
-                self.tx_observer_watcher = tx_observer_watcher;
                 if !self.transaction.is_autocommit()
                     && self
                         .rollback_savepoint("mentat_transact")
@@ -375,23 +380,51 @@ impl<'a, 'c> InProgress<'a, 'c> {
         self.partition_map[":db.part/tx"].next_entid() - 1
     }
 
-    pub fn savepoint(&self, name: &str) -> Result<()> {
+    pub fn savepoint(&mut self, name: &str) -> Result<()> {
+        // Without a transaction around it, a savepoint would begin one.
+        self.ensure_intact()?;
         self.transaction
             .execute(&format!("SAVEPOINT {}", name), rusqlite::params![])?;
+        self.savepoints.push(Savepoint {
+            name: name.to_string(),
+            partition_map: self.partition_map.clone(),
+            schema: self.schema.clone(),
+            cache: self.cache.clone(),
+            tx_observer_watcher: self.tx_observer_watcher.clone(),
+        });
         Ok(())
     }
 
-    pub fn rollback_savepoint(&self, name: &str) -> Result<()> {
+    /// Undo everything that was transacted since the savepoint was opened, which remains open.
+    pub fn rollback_savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("ROLLBACK TO {}", name), rusqlite::params![])?;
+        if let Some(n) = self.position_of_savepoint(name) {
+            self.savepoints.truncate(n + 1);
+            let savepoint = &self.savepoints[n];
+            self.partition_map = savepoint.partition_map.clone();
+            self.schema = savepoint.schema.clone();
+            self.cache = savepoint.cache.clone();
+            self.tx_observer_watcher = savepoint.tx_observer_watcher.clone();
+        }
         Ok(())
     }
 
-    pub fn release_savepoint(&self, name: &str) -> Result<()> {
+    pub fn release_savepoint(&mut self, name: &str) -> Result<()> {
         self.transaction
             .execute(&format!("RELEASE {}", name), rusqlite::params![])?;
+        if let Some(n) = self.position_of_savepoint(name) {
+            self.savepoints.truncate(n);
+        }
         Ok(())
     }
+
+    /// The latest savepoint of that name, the one SQLite would pick.
+    fn position_of_savepoint(&self, name: &str) -> Option<usize> {
+        self.savepoints
+            .iter()
+            .rposition(|savepoint| savepoint.name.eq_ignore_ascii_case(name))
+    }
 }
 
 impl<'a, 'c> InProgressRead<'a, 'c> {
-- 
2.43.0


From 9582702aefce8f829af7322b4eb3ab4dd5416b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 47/66] fix: a merge left caches holding what it had rewound

---
 db/src/cache.rs       | 20 ++++++++++++++++++++
 tolstoy/src/syncer.rs |  1 +
 2 files changed, 21 insertions(+)

diff --git a/db/src/cache.rs b/db/src/cache.rs
index 40886c2..091f6d3 100644
--- a/db/src/cache.rs
+++ b/db/src/cache.rs
@@ -1728,6 +1728,26 @@ impl InProgressSQLiteAttributeCache {
         self.overlay.repopulate(schema, sqlite, a)
     }
 
+    /// Read everything that's cached afresh, following changes the cache hasn't been told of.
+    pub fn refresh(&mut self, schema: &Schema, sqlite: &rusqlite::Connection) -> Result<()> {
+        let cached: BTreeSet<Entid> = self
+            .overlay
+            .forward_cached_attributes
+            .union(&self.overlay.reverse_cached_attributes)
+            .cloned()
+            .collect();
+
+        for a in cached {
+            if schema.attribute_for_entid(a).is_some() {
+                self.repopulate(schema, sqlite, a)?;
+            } else {
+                // It's not an attribute any more.
+                self.unregister(a);
+            }
+        }
+        Ok(())
+    }
+
     pub fn unregister<U>(&mut self, attribute: U)
     where
         U: Into<Entid>,
diff --git a/tolstoy/src/syncer.rs b/tolstoy/src/syncer.rs
index 3316fa0..0e84eec 100644
--- a/tolstoy/src/syncer.rs
+++ b/tolstoy/src/syncer.rs
@@ -461,6 +461,7 @@ impl Syncer {
             ip.schema = schema
         };
         ip.partition_map = new_partition_map;
+        ip.cache.refresh(&ip.schema, &ip.transaction)?;
 
         // 2) Transact incoming.
         // 2.1) Prepare remote tx tuples (TermBuilder, PartitionMap, Uuid), which represent
-- 
2.43.0


From 544ece7e40507cafd3bda8b22e657e201d68b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 48/66] fix: opening a store read it in several transactions,
 so it could get parts of different states

---
 db/src/db.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index 2572e7d..fb7954c 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -389,10 +389,15 @@ pub fn ensure_current_version(conn: &mut rusqlite::Connection) -> Result<DB> {
         panic!("Mentat requires at least sqlite {}", MIN_SQLITE_VERSION);
     }
 
-    let user_version = get_user_version(&conn)?;
+    if get_user_version(&conn)? == 0 {
+        return create_current_version(conn);
+    }
+
+    // Everything is read as of the same moment: another connection might commit meanwhile.
+    let tx = conn.transaction()?;
+    let user_version = get_user_version(&tx)?;
     match user_version {
-        0 => create_current_version(conn),
-        CURRENT_VERSION => read_db(conn),
+        CURRENT_VERSION => read_db(&tx),
 
         // TODO: support updating an existing store.
         v => bail!(DbErrorKind::NotYetImplemented(format!(
-- 
2.43.0


From 69171827780a592cc4d2897bc149850fe9fde565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 49/66] fix: opening a store failed when another connection
 created it meanwhile

---
 db/src/db.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index fb7954c..ff625a1 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -390,7 +390,11 @@ pub fn ensure_current_version(conn: &mut rusqlite::Connection) -> Result<DB> {
     }
 
     if get_user_version(&conn)? == 0 {
-        return create_current_version(conn);
+        match create_current_version(conn) {
+            // Another connection created the store since we looked.
+            Err(_) if get_user_version(&conn).unwrap_or(0) != 0 => (),
+            result => return result,
+        }
     }
 
     // Everything is read as of the same moment: another connection might commit meanwhile.
-- 
2.43.0


From 828e266e14bff79e1564c5650e74449016f0f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 50/66] fix: :db/noHistory never made it into the schema

---
 db/src/entids.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/src/entids.rs b/db/src/entids.rs
index 6308926..3c07974 100644
--- a/db/src/entids.rs
+++ b/db/src/entids.rs
@@ -72,6 +72,7 @@ pub fn might_update_metadata(attribute: Entid) -> bool {
         DB_FULLTEXT |
         DB_INDEX |
         DB_IS_COMPONENT |
+        DB_NO_HISTORY |
         DB_UNIQUE |
         DB_VALUE_TYPE
     )
@@ -86,6 +87,7 @@ pub fn is_a_schema_attribute(attribute: Entid) -> bool {
             | DB_FULLTEXT
             | DB_INDEX
             | DB_IS_COMPONENT
+            | DB_NO_HISTORY
             | DB_UNIQUE
             | DB_VALUE_TYPE
     )
@@ -100,23 +102,25 @@ lazy_static! {
 
     /// Attributes that are "schema related".  These might change the "schema" materialized view.
     pub static ref SCHEMA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
 
     /// Attributes that are "metadata" related.  These might change one of the materialized views.
     pub static ref METADATA_SQL_LIST: String = {
-        format!("({}, {}, {}, {}, {}, {}, {})",
+        format!("({}, {}, {}, {}, {}, {}, {}, {})",
                 DB_CARDINALITY,
                 DB_FULLTEXT,
                 DB_IDENT,
                 DB_INDEX,
                 DB_IS_COMPONENT,
+                DB_NO_HISTORY,
                 DB_UNIQUE,
                 DB_VALUE_TYPE)
     };
-- 
2.43.0


From 4530816b081a414f8388281aac08d8cf4f072c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 51/66] fix: a vocabulary upgrade which failed half way left
 its first half in the transaction

---
 src/vocabulary.rs      | 20 +++++++++++++++++++-
 transaction/src/lib.rs | 42 ++++++++++++++++++++++++++++++++----------
 2 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/vocabulary.rs b/src/vocabulary.rs
index 782f78c..3eee840 100644
--- a/src/vocabulary.rs
+++ b/src/vocabulary.rs
@@ -692,7 +692,9 @@ impl<'a, 'c> VersionedStore for InProgress<'a, 'c> {
             VocabularyCheck::Present => Ok(VocabularyOutcome::Existed),
             VocabularyCheck::NotPresent => self.install_vocabulary(definition),
             VocabularyCheck::PresentButNeedsUpdate { older_version } => {
-                self.upgrade_vocabulary(definition, older_version)
+                self.atomically(|in_progress| {
+                    in_progress.upgrade_vocabulary(definition, older_version)
+                })
             }
             VocabularyCheck::PresentButMissingAttributes { attributes } => {
                 self.install_attributes_for(definition, attributes)
@@ -710,6 +712,22 @@ impl<'a, 'c> VersionedStore for InProgress<'a, 'c> {
     fn ensure_vocabularies(
         &mut self,
         vocabularies: &mut dyn VocabularySource,
+    ) -> Result<BTreeMap<Keyword, VocabularyOutcome>> {
+        self.atomically(|in_progress| in_progress.ensure_each_vocabulary(vocabularies))
+    }
+}
+
+trait VocabularySetMechanics {
+    fn ensure_each_vocabulary(
+        &mut self,
+        vocabularies: &mut dyn VocabularySource,
+    ) -> Result<BTreeMap<Keyword, VocabularyOutcome>>;
+}
+
+impl<'a, 'c> VocabularySetMechanics for InProgress<'a, 'c> {
+    fn ensure_each_vocabulary(
+        &mut self,
+        vocabularies: &mut dyn VocabularySource,
     ) -> Result<BTreeMap<Keyword, VocabularyOutcome>> {
         let definitions = vocabularies.definitions();
 
diff --git a/transaction/src/lib.rs b/transaction/src/lib.rs
index 8e3c622..d78a14f 100644
--- a/transaction/src/lib.rs
+++ b/transaction/src/lib.rs
@@ -237,21 +237,43 @@ impl<'a, 'c> InProgress<'a, 'c> {
                 Ok(report)
             }
             Err(e) => {
-                if !self.transaction.is_autocommit()
-                    && self
-                        .rollback_savepoint("mentat_transact")
-                        .and_then(|_| self.release_savepoint("mentat_transact"))
-                        .is_err()
-                {
-                    // We can't get back to where we were, so give up on the whole thing: nothing
-                    // further can be transacted, and committing will fail.
-                    self.abandoned = true;
-                }
+                self.undo("mentat_transact");
                 Err(e)
             }
         }
     }
 
+    /// Run `f`, which may well be several Mentat transactions, so that a failure leaves no trace of
+    /// any of them.
+    pub fn atomically<F, T>(&mut self, f: F) -> Result<T>
+    where
+        F: FnOnce(&mut Self) -> Result<T>,
+    {
+        self.savepoint("mentat_atomically")?;
+        let result = f(self).and_then(|t| {
+            self.release_savepoint("mentat_atomically")?;
+            Ok(t)
+        });
+        if result.is_err() {
+            self.undo("mentat_atomically");
+        }
+        result
+    }
+
+    /// Go back to the named savepoint, and close it.
+    fn undo(&mut self, savepoint: &str) {
+        if !self.transaction.is_autocommit()
+            && self
+                .rollback_savepoint(savepoint)
+                .and_then(|_| self.release_savepoint(savepoint))
+                .is_err()
+        {
+            // We can't get back to where we were, so give up on the whole thing: nothing
+            // further can be transacted, and committing will fail.
+            self.abandoned = true;
+        }
+    }
+
     pub fn transact_entities<I, V: TransactableValue>(&mut self, entities: I) -> Result<TxReport>
     where
         I: IntoIterator<Item = edn::entities::Entity<V>>,
-- 
2.43.0


From 4e801df6a7dcce3fcd071ba510459c41d056ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 52/66] fix: an or whose arms bind a variable to different
 types could not be projected

---
 query-algebrizer/src/clauses/or.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 1376fa6..804da10 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -381,6 +381,9 @@ impl ConjoiningClauses {
             .alias_table(known.schema, &patterns[0])
             .expect("couldn't get table");
 
+        // The places, if any, which values come from that can differ in type from arm to arm.
+        let mut value_places: Vec<(Variable, QualifiedAlias)> = vec![];
+
         // This is where we'll collect everything we eventually add to the destination CC.
         let mut folded = ConjoiningClauses::default();
 
@@ -433,6 +436,11 @@ impl ConjoiningClauses {
             // we know that we can blindly merge: collisions aren't possible.
             if let Some(first) = receptacles.peek() {
                 for (v, cols) in &first.column_bindings {
+                    value_places.extend(
+                        cols.iter()
+                            .filter_map(|col| col.for_associated_type_tag())
+                            .map(|tag| (v.clone(), tag)),
+                    );
                     match self.column_bindings.entry(v.clone()) {
                         Entry::Vacant(e) => {
                             e.insert(cols.clone());
@@ -494,6 +502,12 @@ impl ConjoiningClauses {
         // variable. We thus generate a set of possible types, and we intersect it with the
         // types already possible in the CC. If the resultant set is empty, the pattern cannot
         // match. If the final set isn't unit, we must project a type tag column.
+        for (var, tag) in value_places {
+            if folded.known_type(&var).is_none() {
+                self.extracted_types.entry(var).or_insert(tag);
+            }
+        }
+
         self.intersect(folded)
     }
 
@@ -642,7 +656,10 @@ impl ConjoiningClauses {
         // For any variable which has an imprecise type anywhere in the UNION, add it to the
         // set that needs type extraction. All UNION arms must project the same columns.
         for var in projection.iter() {
-            if acc.iter().any(|cc| cc.known_type(var).is_none()) {
+            let mut types = acc.iter().map(|cc| cc.known_type(var));
+            let first = types.next().expect("there to be at least one clause");
+            // Arms that are each sure of the type, but don't agree, also need to say which it is.
+            if first.is_none() || types.any(|t| t != first) {
                 type_needed.insert(var.clone());
             }
         }
-- 
2.43.0


From dc516f920618bb08aa497be97499b894d4be408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 53/66] fix: an aggregate over no rows grouped by an input was
 an error

---
 query-projector/src/project.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/query-projector/src/project.rs b/query-projector/src/project.rs
index 4b036a0..e8a2784 100644
--- a/query-projector/src/project.rs
+++ b/query-projector/src/project.rs
@@ -440,17 +440,19 @@ pub(crate) fn project_elements<'a, I: IntoIterator<Item = &'a Element>>(
         .zip(::std::iter::repeat(false));
 
     for (var, group) in vars.chain(corresponds) {
-        if query.cc.is_value_bound(&var) {
-            continue;
-        }
-
         if group {
             // The GROUP BY goes outside, but it needs every variable and type tag to be
             // projected from inside. Collect in both directions here.
+            // Constants are grouped by, too: without any grouping SQLite aggregates no rows at all
+            // into one row, in which there is no constant.
             let name = VariableColumn::Variable(var.clone()).column_name();
             group_by.push(GroupBy::ProjectedColumn(name));
         }
 
+        if query.cc.is_value_bound(&var) {
+            continue;
+        }
+
         let needs_type_projection = !query.cc.known_type_set(&var).has_unique_type_tag();
 
         let already_inner = inner_variables.contains(&var);
-- 
2.43.0


From 2a8ec72ce5ebbfe6dbd1b0e424876adb7c5340b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 54/66] fix: binding the value of a fulltext match panicked

---
 query-algebrizer/src/clauses/mod.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 09bfe66..11a89f3 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -29,7 +29,7 @@ use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 use crate::types::{
     Column, ColumnConstraint, ColumnIntersection, ComputedTable, DatomsColumn, DatomsTable,
     EmptyBecause, EvolvedNonValuePlace, EvolvedPattern, EvolvedValuePlace, FulltextColumn,
-    PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias, TableAlias,
+    Inequality, PlaceOrEmpty, QualifiedAlias, QueryValue, SourceAlias, TableAlias,
 };
 
 mod convert; // Converting args to values.
@@ -431,13 +431,30 @@ impl ConjoiningClauses {
                     self.constrain_column_to_constant(table, column, bound_val);
                 }
 
-                Column::Fulltext(FulltextColumn::Rowid)
-                | Column::Fulltext(FulltextColumn::Text) => {
-                    // We never expose `rowid` via queries.  We do expose `text`, but only
-                    // indirectly, by joining against `datoms`.  Therefore, these are meaningless.
+                Column::Fulltext(FulltextColumn::Rowid) => {
+                    // We never expose `rowid` via queries.  Therefore, this is meaningless.
                     unimplemented!()
                 }
 
+                Column::Fulltext(FulltextColumn::Text) => {
+                    // We never use `text` but to match against it, and SQLite is free to match
+                    // against the value instead, once it knows the two to be equal -- which is an
+                    // error. Don't let it know.
+                    for operator in &[
+                        Inequality::GreaterThanOrEquals,
+                        Inequality::LessThanOrEquals,
+                    ] {
+                        self.wheres.add_intersection(ColumnConstraint::Inequality {
+                            operator: *operator,
+                            left: QueryValue::Column(QualifiedAlias(
+                                table.clone(),
+                                column.clone(),
+                            )),
+                            right: QueryValue::TypedValue(bound_val.clone()),
+                        });
+                    }
+                }
+
                 Column::Fixed(DatomsColumn::ValueTypeTag) => {
                     // I'm pretty sure this is meaningless right now, because we will never bind
                     // a type tag to a variable -- there's no syntax for doing so.
-- 
2.43.0


From 3b2b200c93de214d41dcc1c74fd9c6a39d844321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 55/66] fix: aggregates of a known value were not aggregated

---
 query-projector-traits/aggregates.rs | 31 ++++++++--------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index e0b5831..aefd567 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -150,14 +150,6 @@ impl SimpleAggregate {
         format!("({} {})", self.op.to_sql(), self.var.name())
     }
 
-    pub fn use_static_value(&self) -> bool {
-        use self::SimpleAggregationOp::*;
-        match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
-        }
-    }
-
     /// Return `true` if this aggregate can be `NULL` over 0 rows.
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
@@ -195,21 +187,16 @@ pub fn projected_column_for_simple_aggregate(
     let known_types = cc.known_type_set(&simple.var);
     let return_type = simple.op.is_applicable_to_types(known_types)?;
     let projected_column_or_expression = if let Some(value) = cc.bound_value(&simple.var) {
-        // Oh, we already know the value!
-        if simple.use_static_value() {
-            // We can statically compute the aggregate result for some operators -- not count or
-            // sum, but avg/max/min are OK.
-            ColumnOrExpression::Value(value)
+        // Oh, we already know the value! Even so we must aggregate: the average of longs is a
+        // double, and there's no maximum if there are no rows.
+        let expression = Expression::Unary {
+            sql_op: simple.op.to_sql(),
+            arg: ColumnOrExpression::Value(value),
+        };
+        if simple.is_nullable() {
+            ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
         } else {
-            let expression = Expression::Unary {
-                sql_op: simple.op.to_sql(),
-                arg: ColumnOrExpression::Value(value),
-            };
-            if simple.is_nullable() {
-                ColumnOrExpression::NullableAggregate(Box::new(expression), return_type)
-            } else {
-                ColumnOrExpression::Expression(Box::new(expression), return_type)
-            }
+            ColumnOrExpression::Expression(Box::new(expression), return_type)
         }
     } else {
         // The common case: the values are bound during execution.
-- 
2.43.0


From 43ca96e59d0b8a9a561a19cd6244b85022ff58a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 56/66] fix: an arm of an or that cannot have the type required
 was an error

---
 query-algebrizer/src/clauses/or.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 804da10..3941aff 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -591,12 +591,15 @@ impl ConjoiningClauses {
                     receptacle.apply_clause(known, clause)?;
                 }
             }
-            if receptacle.is_known_empty() {
-                empty_because = receptacle.empty_because;
-            } else {
+            if !receptacle.is_known_empty() {
                 receptacle.expand_column_bindings();
                 receptacle.prune_extracted_types();
                 receptacle.process_required_types()?;
+            }
+            // The required types might be what an arm can't meet.
+            if receptacle.is_known_empty() {
+                empty_because = receptacle.empty_because;
+            } else {
                 acc.push(receptacle);
             }
         }
-- 
2.43.0


From 662176f81f866f5fb5c4fbd0ac52e0bd9c6c013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 57/66] fix: a predicate after a pattern that cannot match was
 an error

---
 query-algebrizer/src/clauses/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 11a89f3..39d54dd 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -1194,6 +1194,11 @@ impl ConjoiningClauses {
                         self.apply_evolved_patterns(known, patterns)?;
                         patterns = VecDeque::with_capacity(remaining);
                     }
+                    // Patterns that cannot match don't bind their variables, so other clauses
+                    // can't be applied after them; and there's no need to.
+                    if self.is_known_empty() {
+                        return Ok(());
+                    }
                     self.apply_clause(known, clause)?;
                 }
             }
-- 
2.43.0


From 83c399a814d09f5006441a11c75df67151003968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:48 +0000
Subject: [PATCH 58/66] fix: a sum over no rows was an error

---
 query-projector-traits/aggregates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query-projector-traits/aggregates.rs b/query-projector-traits/aggregates.rs
index aefd567..c9ef5d9 100644
--- a/query-projector-traits/aggregates.rs
+++ b/query-projector-traits/aggregates.rs
@@ -154,8 +154,8 @@ impl SimpleAggregate {
     pub fn is_nullable(&self) -> bool {
         use self::SimpleAggregationOp::*;
         match self.op {
-            Avg | Max | Min => true,
-            Count | Sum => false,
+            Avg | Max | Min | Sum => true,
+            Count => false,
         }
     }
 }
-- 
2.43.0


From 2fe05d71a916e1b3c5799163512bed917f082cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:57 +0000
Subject: [PATCH 59/66] fix: a not whose clauses are all known to hold was
 ignored

---
 query-algebrizer/src/clauses/not.rs | 9 +++++----
 query-algebrizer/src/types.rs       | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 8b08f19..5b59e29 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -14,7 +14,7 @@ use crate::clauses::ConjoiningClauses;
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
-use crate::types::{ColumnConstraint, ComputedTable};
+use crate::types::{ColumnConstraint, ComputedTable, EmptyBecause};
 
 use crate::Known;
 
@@ -60,9 +60,10 @@ impl ConjoiningClauses {
             return Ok(());
         }
 
-        // If we don't impose any constraints on the output, we might as well
-        // not exist.
-        if template.wheres.is_empty() {
+        // If there's nothing to look for -- everything that the clauses ask for is known (from
+        // constants, inputs, or the cache) to hold -- then there's nothing to find outside.
+        if template.wheres.is_empty() && template.from.is_empty() {
+            self.mark_known_empty(EmptyBecause::NegationNeverHolds);
             return Ok(());
         }
 
diff --git a/query-algebrizer/src/types.rs b/query-algebrizer/src/types.rs
index bde772a..ee43574 100644
--- a/query-algebrizer/src/types.rs
+++ b/query-algebrizer/src/types.rs
@@ -607,6 +607,7 @@ pub enum EmptyBecause {
         right: ValueTypeSet,
     },
     NoValidTypes(Variable),
+    NegationNeverHolds,
     NonAttributeArgument,
     NonInstantArgument,
     NonNumericArgument,
@@ -660,6 +661,7 @@ impl Debug for EmptyBecause {
                 left, right
             ),
             NoValidTypes(ref var) => write!(f, "Type mismatch: {:?} has no valid types", var),
+            NegationNeverHolds => write!(f, "What is negated always holds"),
             NonAttributeArgument => write!(f, "Non-attribute argument in attribute place"),
             NonInstantArgument => write!(f, "Non-instant argument in instant place"),
             NonEntityArgument => write!(f, "Non-entity argument in entity place"),
-- 
2.43.0


From b2eb37d878df8720b086bb1261c9fde60e2c5fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:16 +0000
Subject: [PATCH 60/66] fix: what (type ?v ...) asks for was forgotten if a
 predicate implied it

---
 query-algebrizer/src/clauses/mod.rs | 17 +++++++++++++++--
 query-algebrizer/src/clauses/not.rs |  4 ++--
 query-algebrizer/src/clauses/or.rs  |  2 +-
 query-algebrizer/src/lib.rs         |  2 +-
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 39d54dd..99634a5 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -509,8 +509,11 @@ impl ConjoiningClauses {
 
         // If this is a value, and we don't already know its type or where
         // to get its type, record that we can get it from this table.
+        // If the query asks for its type, then we need to know what it is here, whatever it must be
+        // elsewhere -- see `process_required_types`.
         let needs_type_extraction = !late_binding &&                                // Never need to extract for bound vars.
-            self.known_type(&var).is_none() &&              // Don't need to extract if we know a single type.
+            (self.known_type(&var).is_none() ||             // Don't need to extract if we know a single type.
+             self.required_types.contains_key(&var)) &&
             !self.extracted_types.contains_key(&var); // We're already extracting the type.
 
         let alias = QualifiedAlias(table, column);
@@ -1052,7 +1055,17 @@ impl ConjoiningClauses {
                 }
 
                 if already_known.is_subset(types) {
-                    // TODO: I'm not convinced that we can do nothing here.
+                    // What we know might be what a predicate takes, and not what the column holds, in
+                    // which case we still need to check.
+                    if let Some(qa) = self.extracted_types.get(&var) {
+                        self.wheres.add_intersection(ColumnConstraint::HasTypes {
+                            value: qa.0.clone(),
+                            value_types: *already_known,
+                            check_value: true,
+                        });
+                    }
+
+                    // TODO: I'm not convinced that we need to do nothing else here.
                     //
                     // Consider `[:find ?x ?v :where [_ _ ?v] [(> ?v 10)] [?x :foo/long ?v]]`.
                     //
diff --git a/query-algebrizer/src/clauses/not.rs b/query-algebrizer/src/clauses/not.rs
index 5b59e29..c79ab1e 100644
--- a/query-algebrizer/src/clauses/not.rs
+++ b/query-algebrizer/src/clauses/not.rs
@@ -50,12 +50,12 @@ impl ConjoiningClauses {
             return Ok(());
         }
 
-        template.prune_extracted_types();
+        template.process_required_types()?;
         if template.is_known_empty() {
             return Ok(());
         }
 
-        template.process_required_types()?;
+        template.prune_extracted_types();
         if template.is_known_empty() {
             return Ok(());
         }
diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 3941aff..5402924 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -593,8 +593,8 @@ impl ConjoiningClauses {
             }
             if !receptacle.is_known_empty() {
                 receptacle.expand_column_bindings();
-                receptacle.prune_extracted_types();
                 receptacle.process_required_types()?;
+                receptacle.prune_extracted_types();
             }
             // The required types might be what an arm can't meet.
             if receptacle.is_known_empty() {
diff --git a/query-algebrizer/src/lib.rs b/query-algebrizer/src/lib.rs
index 312413a..a0f0d0c 100644
--- a/query-algebrizer/src/lib.rs
+++ b/query-algebrizer/src/lib.rs
@@ -327,8 +327,8 @@ pub fn algebrize_with_inputs(
     cc.apply_clauses(known, parsed.where_clauses)?;
 
     cc.expand_column_bindings();
-    cc.prune_extracted_types();
     cc.process_required_types()?;
+    cc.prune_extracted_types();
 
     let (order, extra_vars) = validate_and_simplify_order(&cc, parsed.order)?;
 
-- 
2.43.0


From 55297a87a5722a033170ae47733aff68e7ebfe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 61/66] fix: an or under a required type referred to tables it
 could not see

---
 query-algebrizer/src/clauses/or.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index 5402924..c56ef0b 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -576,7 +576,11 @@ impl ConjoiningClauses {
             UnifyVars::Explicit(vs) => vs,
         };
 
-        let template = self.use_as_template(&projected);
+        let mut template = self.use_as_template(&projected);
+
+        // The arms can't see the tables outside, so they need to find the types of their variables
+        // for themselves.
+        template.extracted_types.clear();
 
         let mut acc = Vec::with_capacity(join_clauses.len());
         let mut empty_because: Option<EmptyBecause> = None;
-- 
2.43.0


From 4e07a1616e2d01e55cfc786b1a83bd8c3dc54579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:20 +0000
Subject: [PATCH 62/66] fix: an attribute could be found several times by a
 value and its type

---
 db/src/db.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/db/src/db.rs b/db/src/db.rs
index ff625a1..85de307 100644
--- a/db/src/db.rs
+++ b/db/src/db.rs
@@ -201,7 +201,11 @@ lazy_static! {
         // transactor in all cases, but the index may speed up some of SQLite's query planning.  For now,
         // it serves to validate the transactor implementation.  Note that tag is needed here to
         // differentiate, e.g., keywords and strings.
-        r#"CREATE UNIQUE INDEX idx_datoms_unique_value ON datoms (a, value_type_tag, v) WHERE unique_value IS NOT 0"#,
+        //
+        // `unique_value` is always 1 here.  It's part of the index because SQLite, when deciding whether
+        // `SELECT DISTINCT` needs to look for duplicates, takes partial unique indices to apply to all rows:
+        // without it, SQLite would not look for duplicates of `a` in `... WHERE value_type_tag = 5 AND v = 1`.
+        r#"CREATE UNIQUE INDEX idx_datoms_unique_value ON datoms (a, value_type_tag, v, unique_value) WHERE unique_value IS NOT 0"#,
 
         r#"CREATE TABLE timelined_transactions (e INTEGER NOT NULL, a SMALLINT NOT NULL, v BLOB NOT NULL, tx INTEGER NOT NULL, added TINYINT NOT NULL DEFAULT 1, value_type_tag SMALLINT NOT NULL, timeline TINYINT NOT NULL DEFAULT 0)"#,
         r#"CREATE INDEX idx_timelined_transactions_timeline ON timelined_transactions (timeline)"#,
-- 
2.43.0


From e5ee768076cf2126ca69ba07032286bb0f69442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:52 +0000
Subject: [PATCH 63/66] fix: refuse a query which names a source or has a big
 integer, rather than panic

Patterns with a source other than the default one, and patterns and ground
expressions with a BigInteger, hit unimplemented!().  Predicates already
refuse such arguments with UnsupportedArgument; do the same.
---
 query-algebrizer/src/clauses/convert.rs |  4 +++-
 query-algebrizer/src/clauses/mod.rs     |  4 +++-
 query-algebrizer/src/validate.rs        | 25 ++++++++++++++++++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/query-algebrizer/src/clauses/convert.rs b/query-algebrizer/src/clauses/convert.rs
index 8db5d10..5fbe6ed 100644
--- a/query-algebrizer/src/clauses/convert.rs
+++ b/query-algebrizer/src/clauses/convert.rs
@@ -206,7 +206,9 @@ impl ConjoiningClauses {
             }
 
             // This isn't implemented yet.
-            FnArg::Constant(NonIntegerConstant::BigInteger(_)) => unimplemented!(),
+            FnArg::Constant(NonIntegerConstant::BigInteger(_)) => {
+                bail!(AlgebrizerError::UnsupportedArgument)
+            }
 
             // These don't make sense here.
             FnArg::Vector(_) | FnArg::SrcVar(_) => bail!(AlgebrizerError::InvalidGroundConstant),
diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 99634a5..663a0ce 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -45,7 +45,7 @@ mod ground;
 mod tx_log_api;
 mod where_fn;
 
-use crate::validate::{validate_not_join, validate_or_join};
+use crate::validate::{validate_not_join, validate_or_join, validate_pattern};
 
 pub use self::inputs::QueryInputs;
 
@@ -1173,6 +1173,7 @@ impl ConjoiningClauses {
                 // Patterns are common, so let's grab as much type information from
                 // them as we can.
                 WhereClause::Pattern(ref p) => {
+                    validate_pattern(p)?;
                     self.mark_as_ref(&p.entity);
                     self.mark_as_ref(&p.attribute);
                     self.mark_as_ref(&p.tx);
@@ -1224,6 +1225,7 @@ impl ConjoiningClauses {
     pub(crate) fn apply_clause(&mut self, known: Known, where_clause: WhereClause) -> Result<()> {
         match where_clause {
             WhereClause::Pattern(p) => {
+                validate_pattern(&p)?;
                 match self.make_evolved_pattern(known, p) {
                     PlaceOrEmpty::Place(evolved) => self.apply_pattern(known, evolved),
                     PlaceOrEmpty::Empty(because) => self.mark_known_empty(because),
diff --git a/query-algebrizer/src/validate.rs b/query-algebrizer/src/validate.rs
index 58e0ad6..9d873b4 100644
--- a/query-algebrizer/src/validate.rs
+++ b/query-algebrizer/src/validate.rs
@@ -10,10 +10,27 @@
 
 use std::collections::BTreeSet;
 
-use edn::query::{ContainsVariables, NotJoin, OrJoin, UnifyVars, Variable};
+use edn::query::{
+    ContainsVariables, NonIntegerConstant, NotJoin, OrJoin, OrWhereClause, Pattern,
+    PatternValuePlace, SrcVar, UnifyVars, Variable, WhereClause,
+};
 
 use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 
+/// For now we only support the default source, and not big integers.
+pub(crate) fn validate_pattern(pattern: &Pattern) -> Result<()> {
+    match pattern.source {
+        None | Some(SrcVar::DefaultSrc) => (),
+        Some(SrcVar::NamedSrc(_)) => bail!(AlgebrizerError::UnsupportedArgument),
+    }
+    match pattern.value {
+        PatternValuePlace::Constant(NonIntegerConstant::BigInteger(_)) => {
+            bail!(AlgebrizerError::UnsupportedArgument)
+        }
+        _ => Ok(()),
+    }
+}
+
 /// In an `or` expression, every mentioned var is considered 'free'.
 /// In an `or-join` expression, every var in the var list is 'required'.
 ///
@@ -36,6 +53,12 @@ use query_algebrizer_traits::errors::{AlgebrizerError, Result};
 /// "As with rules, src-vars are not currently supported within the clauses of or, but are supported
 /// on the or clause as a whole at top level."
 pub(crate) fn validate_or_join(or_join: &OrJoin) -> Result<()> {
+    for clause in &or_join.clauses {
+        if let OrWhereClause::Clause(WhereClause::Pattern(ref pattern)) = clause {
+            validate_pattern(pattern)?;
+        }
+    }
+
     // Grab our mentioned variables and ensure that the rules are followed.
     match or_join.unify_vars {
         UnifyVars::Implicit => {
-- 
2.43.0


From 49d8078a1f7697f5187c4627dcde9e02541698d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:03 +0000
Subject: [PATCH 64/66] fix: don't panic when a query is given fewer inputs
 than it has variables

The number of bindings to drop was computed by a subtraction which underflows
when there are more :in variables than inputs.
---
 query-algebrizer/src/clauses/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index 663a0ce..fd174bb 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -8,8 +8,6 @@
 // CONDITIONS OF ANY KIND, either express or implied. See the License for the
 // specific language governing permissions and limitations under the License.
 
-use std::cmp;
-
 use std::collections::{BTreeMap, BTreeSet, VecDeque};
 
 use std::collections::btree_map::Entry;
@@ -88,7 +86,7 @@ impl<K: Clone + Ord, V: Clone> Intersection<K> for BTreeMap<K, V> {
             self.clear();
         }
 
-        let expected_remaining = cmp::max(0, self.len() - ks.len());
+        let expected_remaining = self.len().saturating_sub(ks.len());
         let mut to_remove = Vec::with_capacity(expected_remaining);
         for k in self.keys() {
             if !ks.contains(k) {
-- 
2.43.0


From 074555be918ecf5bcd835de8cd38ca1e949d4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:12 +0000
Subject: [PATCH 65/66] fix: an 'or' none of whose arms can match yields
 nothing, rather than panicking

Arms are dropped when a bound variable makes them impossible -- an input which
isn't an entity in entity position, say.  If that was all of them, the first
of what was left was still asked for its table.
---
 query-algebrizer/src/clauses/or.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/query-algebrizer/src/clauses/or.rs b/query-algebrizer/src/clauses/or.rs
index c56ef0b..f99719c 100644
--- a/query-algebrizer/src/clauses/or.rs
+++ b/query-algebrizer/src/clauses/or.rs
@@ -354,12 +354,14 @@ impl ConjoiningClauses {
 
         assert!(patterns.len() >= 2);
 
+        let mut empty_because: Option<EmptyBecause> = None;
         let patterns: Vec<EvolvedPattern> = patterns
             .into_iter()
             .filter_map(|pattern| {
                 match self.make_evolved_pattern(known, pattern) {
-                    PlaceOrEmpty::Empty(_e) => {
+                    PlaceOrEmpty::Empty(e) => {
                         // Never mind.
+                        empty_because = Some(e);
                         None
                     }
                     PlaceOrEmpty::Place(p) => Some(p),
@@ -367,6 +369,15 @@ impl ConjoiningClauses {
             })
             .collect();
 
+        // If none of the arms can match -- a variable they share might be bound to something which
+        // isn't an entity -- neither can the whole.
+        if patterns.is_empty() {
+            if let Some(e) = empty_because {
+                self.mark_known_empty(e);
+            }
+            return Ok(());
+        }
+
         // Begin by building a base CC that we'll use to produce constraints from each pattern.
         // Populate this base CC with whatever variables are already known from the CC to which
         // we're applying this `or`.
-- 
2.43.0


From ff57a04369aeb367988dcaee573d0e3143925377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 66/66] fix: pulling what a variable is bound to leaves out
 what isn't an entity

The variable of a pull is a reference, but nothing checked that when it was
the value of an attribute that isn't known: integers were taken for entities,
and strings were a panic.
---
 query-algebrizer/src/clauses/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/query-algebrizer/src/clauses/mod.rs b/query-algebrizer/src/clauses/mod.rs
index fd174bb..3757493 100644
--- a/query-algebrizer/src/clauses/mod.rs
+++ b/query-algebrizer/src/clauses/mod.rs
@@ -301,6 +301,8 @@ impl ConjoiningClauses {
         for spec in find_spec.columns() {
             if let Element::Pull(Pull { ref var, .. }) = spec {
                 self.constrain_var_to_type(var.clone(), ValueType::Ref);
+                // The value of an attribute which isn't known might be anything; check.
+                self.add_type_requirement(var.clone(), ValueTypeSet::of_one(ValueType::Ref));
             }
         }
     }
-- 
2.43.0

