From c1f4d3cecd043f99f547016127d713d959272f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:19 +0000
Subject: [PATCH 01/54] fix: failed tablet processing no longer keeps a
 transaction pending

---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index acbfe95..969af9f 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -495,9 +495,11 @@ impl<T> PreparingTabletTransactionState<T> {
 
     fn is_active(&self) -> bool {
         for process_state in &self.process_requests {
-            let TabletProcessStatus::Completed = process_state.status else {
-                return true;
-            };
+            match process_state.status {
+                // Failed process makes no further progress and hence isn't active.
+                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
+                _ => return true,
+            }
         }
         false
     }
-- 
2.43.0


From 436229b6868b5084f1d90d9f2e7c964b04118946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:19 +0000
Subject: [PATCH 02/54] fix: transaction commits only when every tablet op has
 its own succeeded result

Missing, extra or mismatched results fail the transaction instead of being
ignored or crashing, and the metadata cache only learns new tablet versions of
transactions that committed as a whole.
---
 .../service/src/transaction/coordinator.rs    | 66 ++++++++++++-------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index 969af9f..74bb861 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -541,29 +541,47 @@ impl CommittingTabletTransactionState {
         TabletTransactionOutcome,
         Vec<(String, TabletMetadata, bool)>,
     ) {
-        // Technically we need to check that tablet ops correspond to tablet results
-        // but for the time being we are doing a simple check of that all tablet ops
-        // succeeded.
+        // Transaction succeeds only if every tablet op has a corresponding succeeded
+        // result. Results that are missing, or don't correspond to the ops, mean that
+        // the transaction failed.
         let mut metadata_to_update_cache = Vec::new();
-        let mut transaction_outcome = TabletTransactionOutcome::Succeeded;
+        let all_succeeded = self.tablet_ops.len() == tablet_op_results.len()
+            && self
+                .tablet_ops
+                .iter()
+                .zip(tablet_op_results.iter())
+                .all(|(tablet_op, tablet_op_result)| {
+                    tablet_op_result.status == TabletOpStatus::Succeeded as i32
+                        && matches!(
+                            (&tablet_op.op, &tablet_op_result.op_result),
+                            (
+                                Some(tablet_op::Op::CheckTablet(_)),
+                                Some(tablet_op_result::OpResult::CheckTablet(_)),
+                            ) | (
+                                Some(tablet_op::Op::UpdateTablet(_)),
+                                Some(tablet_op_result::OpResult::UpdateTablet(_)),
+                            )
+                        )
+                });
+        let transaction_outcome = if all_succeeded {
+            TabletTransactionOutcome::Succeeded
+        } else {
+            TabletTransactionOutcome::Failed
+        };
+
         for (tablet_op, tablet_op_result) in self.tablet_ops.iter().zip(tablet_op_results.iter()) {
             let op_succeeded = tablet_op_result.status == TabletOpStatus::Succeeded as i32;
-            if !op_succeeded {
-                transaction_outcome = TabletTransactionOutcome::Failed;
-            }
             match (&tablet_op.op, &tablet_op_result.op_result) {
                 (
-                    Some(tablet_op::Op::CheckTablet(check_tablet_op)),
+                    Some(tablet_op::Op::CheckTablet(_)),
                     Some(tablet_op_result::OpResult::CheckTablet(check_tablet_op_result)),
                 ) => {
-                    if !op_succeeded {
+                    if let (false, Some(existing_tablet)) =
+                        (op_succeeded, &check_tablet_op_result.existing_tablet)
+                    {
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
-                            check_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
+                            existing_tablet.clone(),
                             true,
                         ));
                     }
@@ -572,26 +590,24 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op::Op::UpdateTablet(update_tablet_op)),
                     Some(tablet_op_result::OpResult::UpdateTablet(update_tablet_op_result)),
                 ) => {
-                    if !op_succeeded {
+                    if all_succeeded {
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
-                            update_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
+                            update_tablet_op.tablet_metadata.as_ref().unwrap().clone(),
+                            false,
                         ));
-                    } else {
+                    } else if let (false, Some(existing_tablet)) =
+                        (op_succeeded, &update_tablet_op_result.existing_tablet)
+                    {
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
-                            update_tablet_op.tablet_metadata.as_ref().unwrap().clone(),
-                            false,
+                            existing_tablet.clone(),
+                            true,
                         ));
                     }
                 }
                 _ => {
-                    panic!("Unexpected tablet op and result combination");
+                    // Unexpected result, transaction has already been failed.
                 }
             }
         }
-- 
2.43.0


From 1902253f1c3e929e382b74e09b0b0a7561f7ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:19 +0000
Subject: [PATCH 03/54] fix: transaction that processed no tablets completes

---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index 74bb861..d584178 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -271,6 +271,12 @@ impl<T> TabletTransactionCoordinator<T> for DefaultTabletTransactionCoordinator<
                 );
                 // Completion in preparing state goes over results of each process call.
                 match transaction_state.complete() {
+                    // There is nothing to commit if no tablets have been processed.
+                    PreparingTabletTransactionOutcome::Succeeded(tablet_ops)
+                        if tablet_ops.is_empty() =>
+                    {
+                        TabletTransactionState::Completed(TabletTransactionOutcome::Succeeded)
+                    }
                     // Try to commit transaction if all processing succeeded.
                     PreparingTabletTransactionOutcome::Succeeded(tablet_ops) => {
                         // Stash outgoing message to commit transaction to the Tablet Store.
-- 
2.43.0


From a787d7c0256da2dd302f79b4b37426009e0cfb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:05 +0000
Subject: [PATCH 04/54] fix: tablet store replies are matched to the
 outstanding request and its operations

---
 .../service/src/transaction/manager.rs        | 61 +++++++++++++++++--
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/manager.rs b/apps/tablet_cache/service/src/transaction/manager.rs
index 1ddb701..ca3d832 100644
--- a/apps/tablet_cache/service/src/transaction/manager.rs
+++ b/apps/tablet_cache/service/src/transaction/manager.rs
@@ -12,7 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use core::cell::RefCell;
+use core::{cell::RefCell, mem};
 
 use alloc::{boxed::Box, rc::Rc, vec::Vec};
 use hashbrown::HashMap;
@@ -20,8 +20,8 @@ use slog::{o, Logger};
 use tcp_runtime::logger::log::create_logger;
 use tcp_tablet_store_service::apps::tablet_store::service::{
     tablet_op::Op, tablet_op_result::OpResult, AddTabletResult, CheckTabletResult,
-    ListTabletResult, RemoveTabletResult, TabletOp, TabletOpResult, TabletsRequest,
-    TabletsRequestStatus, TabletsResponse, UpdateTabletResult,
+    ListTabletResult, RemoveTabletResult, TabletOp, TabletOpResult, TabletOpStatus,
+    TabletsRequest, TabletsRequestStatus, TabletsResponse, UpdateTabletResult,
 };
 
 use crate::apps::tablet_cache::service::{ExecuteTabletOpsRequest, TransactionManagerConfig};
@@ -275,8 +275,13 @@ impl<T> TabletTransactionManagerCore<T> {
                 _execute_ops_response,
                 tablets_response,
             ) => {
-                self.tablets_errors.remove(&correlation_id);
-                self.process_in_tablets_op_response(correlation_id, tablets_response);
+                // Ignore responses that don't correspond to an outstanding request.
+                if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
+                    self.process_in_tablets_op_response(
+                        correlation_id,
+                        align_tablets_response(tablets_error, tablets_response),
+                    );
+                }
             }
             InMessage::ExecuteTabletOpsError(correlation_id, _execute_ops_error) => {
                 if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
@@ -427,3 +432,49 @@ fn create_failed_op_result(tablet_op: &TabletOp) -> TabletOpResult {
         op_result: tablet_op_result,
     }
 }
+
+// Aligns tablets response with the original request represented by its precomputed
+// tablets response where every operation failed. Results that don't correspond to the
+// requested operation are replaced with the failed ones, and no operation is considered
+// succeeded if the request as a whole didn't.
+fn align_tablets_response(
+    tablets_error: TabletsResponse,
+    tablets_response: TabletsResponse,
+) -> TabletsResponse {
+    if tablets_error.tablet_results.len() != tablets_response.tablet_results.len() {
+        return tablets_error;
+    }
+
+    let request_succeeded = tablets_response.status == TabletsRequestStatus::Succeeded as i32;
+    TabletsResponse {
+        status: tablets_response.status,
+        tablet_results: tablets_error
+            .tablet_results
+            .into_iter()
+            .zip(tablets_response.tablet_results)
+            .map(|(failed_result, mut tablet_result)| {
+                let corresponds = failed_result.table_name == tablet_result.table_name
+                    && match (&failed_result.op_result, &tablet_result.op_result) {
+                        (
+                            Some(OpResult::ListTablet(failed_list)),
+                            Some(OpResult::ListTablet(list)),
+                        ) => {
+                            failed_list.key_hash_from == list.key_hash_from
+                                && failed_list.key_hash_to == list.key_hash_to
+                        }
+                        (Some(failed_op_result), Some(op_result)) => {
+                            mem::discriminant(failed_op_result) == mem::discriminant(op_result)
+                        }
+                        _ => false,
+                    };
+                if !corresponds {
+                    return failed_result;
+                }
+                if !request_succeeded && tablet_result.status == TabletOpStatus::Succeeded as i32 {
+                    tablet_result.status = TabletOpStatus::Aborted.into();
+                }
+                tablet_result
+            })
+            .collect(),
+    }
+}
-- 
2.43.0


From 49be742228bbcd9417ee3de7a2ecd9be40a1ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:05 +0000
Subject: [PATCH 05/54] fix: tablets of different tables with the same id and
 version don't clash in a transaction

---
 .../service/src/transaction/coordinator.rs    | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index d584178..62a6781 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -398,7 +398,7 @@ impl<T> PreparingTabletTransactionState<T> {
                                 for (query, metadata) in resolve_values {
                                     // Start tracking state of the affected tablet.
                                     process_state.tablets.insert(
-                                        create_tablet_key(&metadata),
+                                        create_tablet_key(query.get_table_name(), &metadata),
                                         TabletState::create(query, metadata.clone()),
                                     );
                                     resolved_metadata.push(metadata);
@@ -427,13 +427,14 @@ impl<T> PreparingTabletTransactionState<T> {
                                 let mut tablet_refs = Vec::with_capacity(load_values.len());
 
                                 for (metadata, data) in load_values {
-                                    // Set loaded tablet data in corresponding tablet state that we look up
-                                    // using metadata.
-                                    let tablet_state = process_state
-                                        .tablets
-                                        .get_mut(&create_tablet_key(&metadata))
-                                        .unwrap();
-                                    tablet_state.tablet_init(data);
+                                    // Set loaded tablet data in corresponding tablet states that we look up
+                                    // using metadata. Tablets of different tables may share the metadata and
+                                    // hence the data.
+                                    for tablet_state in process_state.tablets.values_mut() {
+                                        if *tablet_state.tablet.get_metadata() == metadata {
+                                            tablet_state.tablet_init(data.clone());
+                                        }
+                                    }
                                 }
 
                                 // Create collection of  mutable references that process handler will consume.
@@ -621,9 +622,12 @@ impl CommittingTabletTransactionState {
     }
 }
 
-// Creates tablet key that consists of tablet id and its version.
-fn create_tablet_key(metadata: &TabletMetadata) -> u64 {
-    (metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64)
+// Creates tablet key that consists of table name, tablet id and its version.
+fn create_tablet_key(table_name: &String, metadata: &TabletMetadata) -> (String, u64) {
+    (
+        table_name.clone(),
+        (metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64),
+    )
 }
 
 // Tracks state of a tablet affected by a transaction.
@@ -693,8 +697,8 @@ struct TabletProcessState<T> {
     status: TabletProcessStatus<T>,
     // Handler that will be called to process tablets.
     handler: Box<ProcessHandler<T>>,
-    // Maps tablet key that of tablet id and its version to the tablet state.
-    tablets: HashMap<u64, TabletState<T>>,
+    // Maps tablet key that consists of table name, tablet id and its version to the tablet state.
+    tablets: HashMap<(String, u64), TabletState<T>>,
 }
 
 enum TabletProcessStatus<T> {
-- 
2.43.0


From 3603f6d6912b6e404dd3ca5c8a469dcc5a69f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:55 +0000
Subject: [PATCH 06/54] fix: load and store batches complete once all of their
 tablets are ready

A batch with some tablets already cached completed before the rest was
available, an empty batch never completed.
---
 .../service/src/transaction/data.rs           | 39 ++++++++++++-------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 2261515..0cdfead 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -281,11 +281,16 @@ impl<T> DefaultTabletDataCache<T> {
         // Register batch with each of the tablet cache entries it affects such that
         // when tablet cache entry is ready the corresponding tablet batch can be
         // notified.
+        tablet_batch.remaining_cache_entries = tablet_cache_keys.len();
         for tablet_cache_key in tablet_cache_keys {
             if let Some(tablet_cache_entry) = self.tablet_cache_entries.get_mut(tablet_cache_key) {
                 tablet_batch.add_pending_cache_entry(tablet_cache_entry);
             }
         }
+        // Batch without any tablet cache entries has nothing to wait for.
+        if tablet_cache_keys.is_empty() {
+            tablet_batch.complete();
+        }
     }
 
     fn prepare_tablet_write(
@@ -776,7 +781,6 @@ impl<T> TabletBatch<T> {
     }
 
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-        self.remaining_cache_entries += 1;
         match tablet_cache_entry.get_state() {
             TabletCacheEntryState::Load | TabletCacheEntryState::Store(_) => {
                 tablet_cache_entry.register_waiting_batch(self.batch_id);
@@ -801,25 +805,12 @@ impl<T> TabletBatch<T> {
                     tablet_cache_entry.get_metadata().clone(),
                     tablet_value.clone(),
                 ));
-                if has_completed {
-                    loaded_tablets_source.set_result(mem::take(loaded_tablets));
-                    Some(TabletBatchState::Completed)
-                } else {
-                    None
-                }
+                None
             }
             (TabletCacheEntryState::Error, TabletBatchState::Load(_, loaded_tablets_source)) => {
                 loaded_tablets_source.set_error(TabletDataStorageStatus::Failed);
                 Some(TabletBatchState::Error)
             }
-            (TabletCacheEntryState::Cache(_), TabletBatchState::Store(stored_tablets_source)) => {
-                if has_completed {
-                    stored_tablets_source.set_result(());
-                    Some(TabletBatchState::Completed)
-                } else {
-                    None
-                }
-            }
             (TabletCacheEntryState::Error, TabletBatchState::Store(stored_tablets_source)) => {
                 stored_tablets_source.set_error(TabletDataStorageStatus::Failed);
                 Some(TabletBatchState::Error)
@@ -830,6 +821,24 @@ impl<T> TabletBatch<T> {
         if updated_batch_operation.is_some() {
             self.batch_state = updated_batch_operation.unwrap();
         }
+        if has_completed {
+            self.complete();
+        }
+    }
+
+    // Completes successfully the batch that hasn't encountered an error.
+    fn complete(&mut self) {
+        match &mut self.batch_state {
+            TabletBatchState::Load(loaded_tablets, loaded_tablets_source) => {
+                loaded_tablets_source.set_result(mem::take(loaded_tablets));
+                self.batch_state = TabletBatchState::Completed;
+            }
+            TabletBatchState::Store(stored_tablets_source) => {
+                stored_tablets_source.set_result(());
+                self.batch_state = TabletBatchState::Completed;
+            }
+            TabletBatchState::Error | TabletBatchState::Completed => {}
+        }
     }
 }
 
-- 
2.43.0


From 43a904346685fde657deaa853445b0469b57eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:33 +0000
Subject: [PATCH 07/54] fix: storing the same tablet version with the same
 contents twice does not crash

---
 apps/tablet_cache/service/src/transaction/data.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 0cdfead..b3aebe9 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -461,10 +461,11 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                     self.out_messages.push(store_tablet_request);
                     map_entry.insert(tablet_cache_entry);
                 }
-                Occupied(map_entry) => {
-                    // Any new tablet cache write must be unique as once created tablets
-                    // are immutable.
-                    panic!("Cache entry with given cache id already exists");
+                Occupied(_) => {
+                    // Once created tablets are immutable and their uri is derived from the
+                    // contents, hence existing entry holds, or is about to hold, exactly
+                    // the same contents (for example, written by a transaction that is now
+                    // being retried) and can be shared.
                 }
             }
         }
-- 
2.43.0


From 7d116c953c2451583cda9ba58cf02104156bbbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:35 +0000
Subject: [PATCH 08/54] fix: loaded tablet contents is verified against the
 recorded hash

---
 apps/tablet_cache/service/src/transaction/data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index b3aebe9..9d44918 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -319,6 +319,13 @@ impl<T> DefaultTabletDataCache<T> {
         tablet_metadata: &TabletMetadata,
         tablet_contents: Bytes,
     ) -> Result<T, ()> {
+        // Tablet Data Storage isn't trusted, check that contents is what has been stored.
+        if !tablet_metadata.blob_hash.is_empty()
+            && Sha256::digest(&tablet_contents).as_slice() != tablet_metadata.blob_hash.as_ref()
+        {
+            return Err(());
+        }
+
         // Currently table name is not propagated to the serializer, will be
         // added later.
         let tablet_value = self
-- 
2.43.0


From 930525dcd9440fb1d3e9eb82950c656d08d210d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 09/54] fix: tablet that has never been written loads as empty
 without storage access

---
 .../service/src/transaction/data.rs             | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 9d44918..d7ea72f 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -385,7 +385,19 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
         tablets_metadata: &Vec<TabletMetadata>,
     ) -> ResultHandle<Vec<(TabletMetadata, TabletData<T>)>, TabletDataStorageStatus> {
         let mut tablet_cache_keys = Vec::with_capacity(tablets_metadata.len());
+        let mut unwritten_tablets = Vec::new();
         for tablet_metadata in tablets_metadata {
+            if tablet_metadata.blob_uri.is_empty() {
+                // Tablet has been initialized but not a single version has been created
+                // yet, hence there is nothing to load and its contents is empty.
+                match self.prepare_tablet_read(tablet_metadata, Bytes::new()) {
+                    Ok(tablet_value) => unwritten_tablets
+                        .push((tablet_metadata.clone(), TabletData::create(tablet_value))),
+                    Err(_) => return create_result_from_error(TabletDataStorageStatus::Failed),
+                }
+                continue;
+            }
+
             let tablet_cache_key = TabletCacheKey::from(tablet_metadata);
             tablet_cache_keys.push(tablet_cache_key.clone());
 
@@ -410,7 +422,7 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
 
         self.batch_counter += 1;
         let (mut tablet_batch, result_handle) =
-            TabletBatch::<T>::with_load_state(self.batch_counter);
+            TabletBatch::<T>::with_load_state(self.batch_counter, unwritten_tablets);
 
         // Process immediately available tablet cache entries or register for the notification
         // on when the tablet cache entry is ready.
@@ -754,6 +766,7 @@ struct TabletBatch<T> {
 impl<T> TabletBatch<T> {
     fn with_load_state(
         batch_id: u64,
+        ready_tablets: Vec<(TabletMetadata, TabletData<T>)>,
     ) -> (
         Self,
         ResultHandle<Vec<(TabletMetadata, TabletData<T>)>, TabletDataStorageStatus>,
@@ -765,7 +778,7 @@ impl<T> TabletBatch<T> {
         (
             Self {
                 batch_id,
-                batch_state: TabletBatchState::Load(Vec::new(), op_source),
+                batch_state: TabletBatchState::Load(ready_tablets, op_source),
                 remaining_cache_entries: 0,
             },
             op_handle,
-- 
2.43.0


From 1fca50850e6e1fd190a084874bb12878af5d14bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 10/54] fix: unknown data storage status is a failure and not a
 crash

---
 apps/tablet_cache/service/src/transaction/data.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index d7ea72f..97e5587 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -705,11 +705,9 @@ impl<T> TabletCacheEntry<T> {
                         self.cache_entry_state = TabletCacheEntryState::Error;
                     }
                 }
-                Some(TabletDataStorageStatus::Failed) => {
-                    self.cache_entry_state = TabletCacheEntryState::Error;
-                }
+                // Anything else but success is considered a failure.
                 _ => {
-                    panic!("Unexpected load tablet status");
+                    self.cache_entry_state = TabletCacheEntryState::Error;
                 }
             }
         } else {
@@ -723,11 +721,9 @@ impl<T> TabletCacheEntry<T> {
                 Some(TabletDataStorageStatus::Succeeded) => {
                     self.cache_entry_state = TabletCacheEntryState::Cache(tablet_value.clone());
                 }
-                Some(TabletDataStorageStatus::Failed) => {
-                    self.cache_entry_state = TabletCacheEntryState::Error;
-                }
+                // Anything else but success is considered a failure.
                 _ => {
-                    panic!("Unexpected store tablet status");
+                    self.cache_entry_state = TabletCacheEntryState::Error;
                 }
             }
         } else {
-- 
2.43.0


From eec15ca36ff2cddfbc6f124ead299c816e39196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:10 +0000
Subject: [PATCH 11/54] fix: data storage reply of the wrong kind is ignored
 and does not crash

---
 .../service/src/transaction/data.rs           | 43 ++++++++++++++++---
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 97e5587..eef51a7 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -245,7 +245,7 @@ pub struct DefaultTabletDataCache<T> {
     tablet_cache_policy: Box<dyn TabletDataCachePolicy<T>>,
     tablet_cache_entries: HashMap<TabletCacheKey, TabletCacheEntry<T>>,
     tablet_batches: HashMap<u64, TabletBatch<T>>,
-    tablet_operations: HashMap<u64, TabletCacheKey>,
+    tablet_operations: HashMap<u64, (TabletOperation, TabletCacheKey)>,
     out_messages: Vec<TabletDataCacheOutMessage>,
 }
 
@@ -293,6 +293,20 @@ impl<T> DefaultTabletDataCache<T> {
         }
     }
 
+    // Takes outstanding operation with given correlation id if it is of the given kind.
+    fn take_tablet_operation(
+        &mut self,
+        correlation_id: u64,
+        tablet_operation: TabletOperation,
+    ) -> Option<TabletCacheKey> {
+        match self.tablet_operations.entry(correlation_id) {
+            Occupied(map_entry) if map_entry.get().0 == tablet_operation => {
+                Some(map_entry.remove().1)
+            }
+            _ => None,
+        }
+    }
+
     fn prepare_tablet_write(
         &self,
         tablet_metadata: &mut TabletMetadata,
@@ -406,8 +420,10 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                 // is not being maintained by the cache.
                 self.correlation_counter += 1;
 
-                self.tablet_operations
-                    .insert(self.correlation_counter, tablet_cache_key);
+                self.tablet_operations.insert(
+                    self.correlation_counter,
+                    (TabletOperation::Load, tablet_cache_key),
+                );
 
                 let (tablet_cache_entry, load_tablet_request) =
                     TabletCacheEntry::<T>::with_load_state(
@@ -466,8 +482,10 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                     // is not being maintained by the cache.
                     self.correlation_counter += 1;
 
-                    self.tablet_operations
-                        .insert(self.correlation_counter, tablet_cache_key);
+                    self.tablet_operations.insert(
+                        self.correlation_counter,
+                        (TabletOperation::Store, tablet_cache_key),
+                    );
 
                     let (tablet_cache_entry, store_tablet_request) =
                         TabletCacheEntry::<T>::with_store_state(
@@ -512,7 +530,9 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                 load_tablet_response,
                 tablet_contents,
             ) => {
-                if let Some(tablet_cache_key) = self.tablet_operations.remove(&correlation_id) {
+                if let Some(tablet_cache_key) =
+                    self.take_tablet_operation(correlation_id, TabletOperation::Load)
+                {
                     // Prepare loaded raw tablet contents to enter the cache in deserialized form.
                     let tablet_value = self.prepare_tablet_read(
                         self.tablet_cache_entries
@@ -531,7 +551,9 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                 }
             }
             TabletDataCacheInMessage::StoreResponse(correlation_id, store_tablet_response) => {
-                if let Some(tablet_cache_key) = self.tablet_operations.remove(&correlation_id) {
+                if let Some(tablet_cache_key) =
+                    self.take_tablet_operation(correlation_id, TabletOperation::Store)
+                {
                     // Delegate tablet storing response to the corresponding tablet cache entry. Note
                     // that notifications to the tablet batches happens later when making progress.
                     self.tablet_cache_entries
@@ -586,6 +608,13 @@ impl<T> TabletDataCachePolicy<T> for DefaultTabletDataCachePolicy<T> {
     }
 }
 
+// Kind of the outstanding data storage operation.
+#[derive(PartialEq, Eq, Clone, Copy)]
+enum TabletOperation {
+    Load,
+    Store,
+}
+
 // Uniquely identifies tablet cache entry.
 #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash)]
 struct TabletCacheKey {
-- 
2.43.0


From c1d5318f3a56d1c3e60800c550d878a5e8e611a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 12/54] fix: keys resolve to the tablet that owns them and none
 is dropped

---
 .../service/src/transaction/metadata.rs       | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 687df3e..609cda7 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -453,24 +453,25 @@ impl TableMetadata {
             if let Some(fresh_tablet_ids) = table_region.maybe_fresh_tablet_ids() {
                 // Note that tablet ids must contain at least one entry. It may be the only entry on
                 // the whole consistent hashing ring.
-                let mut tablet_ids_it = fresh_tablet_ids.iter().cycle();
-                let mut curr_tablet_id = *tablet_ids_it.next().unwrap();
+                let first_tablet_id = *fresh_tablet_ids.first().unwrap();
+                let mut curr_tablet_id = first_tablet_id;
                 let mut curr_key_hashes = Vec::new();
-                // Merge two sorted lists of tablet ids and key hashes. Key hashes are handled by
+                // Walk sorted lists of tablet ids and key hashes. Key hashes are handled by
                 // a tablet that is clockwise on the consistent hashing ring.
                 let mut resolve_result = Vec::new();
                 for key_hash in table_query.get_key_hashes() {
-                    if *key_hash > curr_tablet_id {
-                        if !curr_key_hashes.is_empty() {
-                            resolve_result.push((
-                                table_query.create_from(mem::take(&mut curr_key_hashes)),
-                                self.tablets.get(&curr_tablet_id).unwrap().clone(),
-                            ));
-                        }
-                        curr_tablet_id = *tablet_ids_it.next().unwrap();
-                    } else {
-                        curr_key_hashes.push(*key_hash);
+                    let next_tablet_id = *fresh_tablet_ids
+                        .range(*key_hash..)
+                        .next()
+                        .unwrap_or(&first_tablet_id);
+                    if next_tablet_id != curr_tablet_id && !curr_key_hashes.is_empty() {
+                        resolve_result.push((
+                            table_query.create_from(mem::take(&mut curr_key_hashes)),
+                            self.tablets.get(&curr_tablet_id).unwrap().clone(),
+                        ));
                     }
+                    curr_tablet_id = next_tablet_id;
+                    curr_key_hashes.push(*key_hash);
                 }
                 if !curr_key_hashes.is_empty() {
                     resolve_result.push((
-- 
2.43.0


From a76a1d7e05f489526b794921698ff2b081ddb90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:54 +0000
Subject: [PATCH 13/54] fix: table regions cover the whole consistent hashing
 ring

---
 apps/tablet_cache/service/src/transaction/metadata.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 609cda7..e49213e 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -354,9 +354,10 @@ struct TableMetadata {
 impl TableMetadata {
     // Prefills table regions and marks them all as stale.
     fn create(table_name: String, region_size: u32) -> Self {
-        let regions_count = u32::MAX / region_size;
-        let mut regions = HashMap::with_capacity(regions_count as usize);
-        for region_idx in 0..regions_count {
+        // The last region may be smaller than the others.
+        let last_region_idx = Self::map_table_region(region_size, u32::MAX);
+        let mut regions = HashMap::with_capacity(last_region_idx as usize + 1);
+        for region_idx in 0..=last_region_idx {
             // Regions are identified by the starting position on the consistent hashing ring.
             regions.insert(region_idx, TableRegion::create());
         }
-- 
2.43.0


From edb2626d9be2055a0fa32d7abc10a57f990bfd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:57 +0000
Subject: [PATCH 14/54] fix: resolution keeps every query of the same table
 region

---
 .../service/src/transaction/metadata.rs       | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index e49213e..3c5e67a 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -552,8 +552,8 @@ enum TableResolveNotification {
 // Tracks pending request to resolve tablets.
 struct TabletResolve {
     notification: TableResolveNotification,
-    // Maps table name and region index to a pending table query.
-    pending_table_queries: HashMap<(String, u32), TableQuery>,
+    // Maps table name and region index to pending table queries.
+    pending_table_queries: HashMap<(String, u32), Vec<TableQuery>>,
     // Maps table name and tablet id to resolve result builder.
     results: HashMap<(String, u32), TabletResolveResult>,
 }
@@ -593,11 +593,15 @@ impl TabletResolve {
             } else {
                 // Otherwise register pending query and wait for the corresponding region
                 // state to become fresh.
-                table_metadata.register_pending_query(resolve_request_id, table_region_idx);
-                tablet_resolve.pending_table_queries.insert(
-                    (table_query.get_table_name().clone(), table_region_idx),
-                    table_query,
-                );
+                let pending_table_queries = tablet_resolve
+                    .pending_table_queries
+                    .entry((table_query.get_table_name().clone(), table_region_idx))
+                    .or_insert(Vec::new());
+                // Single notification is enough for all queries affecting the region.
+                if pending_table_queries.is_empty() {
+                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);
+                }
+                pending_table_queries.push(table_query);
             }
         }
         // Try to produce results if there are no more pending queries.
@@ -654,10 +658,11 @@ impl TabletResolve {
         table_region_idx: u32,
         table_metadata: &TableMetadata,
     ) {
-        // Remove pending query now that corresponding region state is fresh.
-        if let Some(pending_table_query) = self
+        // Remove pending queries now that corresponding region state is fresh.
+        for pending_table_query in self
             .pending_table_queries
             .remove(&(table_name.clone(), table_region_idx))
+            .unwrap_or(Vec::new())
         {
             // Resolve pending query into a number of sub-queries that are mapped
             // to particular tablets.
-- 
2.43.0


From 346ca2a060966f5945af0104771de386d7e8b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:00 +0000
Subject: [PATCH 15/54] fix: empty tablet listing is asked for again and does
 not crash

---
 apps/tablet_cache/service/src/transaction/metadata.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 3c5e67a..7be9e3a 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -421,7 +421,9 @@ impl TableMetadata {
         let table_region_idx = Self::map_table_region(self.region_size, table_region_start);
         let mut resolve_requests_to_notify = Vec::new();
         if let Some(table_region) = self.regions.get_mut(&table_region_idx) {
-            if let Some(tablets) = tablets {
+            // Some tablet is always responsible for the region, hence successful listing
+            // cannot be empty.
+            if let Some(tablets) = tablets.filter(|tablets| !tablets.is_empty()) {
                 let mut tablet_ids = Vec::new();
                 // Store latest version of the tablet metadata.
                 for tablet_metadata in tablets {
-- 
2.43.0


From d3d56a8654cbbe7c8e292a268e9161963784d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:32 +0000
Subject: [PATCH 16/54] fix: resolution hands out the latest known metadata of
 every tablet

---
 .../service/src/transaction/metadata.rs       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 7be9e3a..a505398 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -233,7 +233,7 @@ impl TabletMetadataCache for DefaultTabletMetadataCache {
                                     resolve_request.process_results_fresh(
                                         &list_op_result.table_name,
                                         table_region_idx,
-                                        table_metadata,
+                                        &self.tables,
                                     );
                                 }
                             }
@@ -607,7 +607,7 @@ impl TabletResolve {
             }
         }
         // Try to produce results if there are no more pending queries.
-        tablet_resolve.maybe_resolve_results();
+        tablet_resolve.maybe_resolve_results(tables);
 
         tablet_resolve
     }
@@ -629,10 +629,19 @@ impl TabletResolve {
         }
     }
 
-    fn maybe_resolve_results(&mut self) {
+    fn maybe_resolve_results(&mut self, tables: &HashMap<String, TableMetadata>) {
         if self.pending_table_queries.is_empty() {
             let mut results = Vec::new();
-            for (_, tablet_resolve_result) in mem::take(&mut self.results) {
+            for ((table_name, tablet_id), mut tablet_resolve_result) in mem::take(&mut self.results)
+            {
+                // Newer version of the tablet may have become known since its part of the
+                // request has been resolved.
+                if let Some(tablet_metadata) = tables
+                    .get(&table_name)
+                    .and_then(|table_metadata| table_metadata.tablets.get(&tablet_id))
+                {
+                    tablet_resolve_result.tablet_metadata = tablet_metadata.clone();
+                }
                 results.push(tablet_resolve_result.take_result());
             }
             match &mut self.notification {
@@ -658,8 +667,10 @@ impl TabletResolve {
         &mut self,
         table_name: &String,
         table_region_idx: u32,
-        table_metadata: &TableMetadata,
+        tables: &HashMap<String, TableMetadata>,
     ) {
+        let table_metadata = tables.get(table_name).unwrap();
+
         // Remove pending queries now that corresponding region state is fresh.
         for pending_table_query in self
             .pending_table_queries
@@ -680,7 +691,7 @@ impl TabletResolve {
         }
 
         // Try to produce results if there are no more pending queries.
-        self.maybe_resolve_results();
+        self.maybe_resolve_results(tables);
     }
 }
 
-- 
2.43.0


From 544f6a95ebb1bc36650eca25756129df7c1eb26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:15 +0000
Subject: [PATCH 17/54] fix: key value store uses its configured processing
 threshold

---
 apps/tablet_cache/service/src/store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 3607eef..2b27856 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -190,6 +190,7 @@ impl SimpleKeyValueStoreCore {
         self.table_accessor = TableAccessor::create(config.table_name.clone());
         self.request_tracker =
             RequestTracker::create(config.min_pending_before_resolve.try_into().unwrap());
+        self.config = config;
     }
 
     fn handle_query_resolve(
-- 
2.43.0


From 7d0fb0b15a29d39e8148fac94f2ac72f03929263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 18/54] fix: idle key value store starts no resolutions or
 transactions

---
 apps/tablet_cache/service/src/store.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 2b27856..c4d8e6c 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -390,7 +390,7 @@ impl RequestTracker {
         // If minimum pending requests threshold has been reached, create
         // table query with these requests and resolve which tablets they
         // affect.
-        if self.pending_requests.len() >= self.min_pending {
+        if !self.pending_requests.is_empty() && self.pending_requests.len() >= self.min_pending {
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_resolution_requests
                 .insert(query.get_id(), mem::take(&mut self.pending_requests));
@@ -447,7 +447,10 @@ impl TabletTracker {
         // If minimum pending threshold has been reached and there is no
         // active transaction, create table query with these requests to
         // process within a transaction.
-        if self.pending_requests.len() >= self.min_pending && !self.has_transaction {
+        if !self.pending_requests.is_empty()
+            && self.pending_requests.len() >= self.min_pending
+            && !self.has_transaction
+        {
             self.has_transaction = true;
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_processing_requests
-- 
2.43.0


From b9779a544e30e59f26e58815d632075987eb53f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 19/54] fix: key value store accepts resolution that completes
 immediately

---
 apps/tablet_cache/service/src/store.rs | 35 +++++++++++---------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index c4d8e6c..c4d126c 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -114,15 +114,19 @@ impl KeyValueStore for SimpleKeyValueStore {
         _instant: u64,
         transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
     ) {
-        let mut core = self.core.borrow_mut();
-
         let mut core_clone = self.core.clone();
         // If enough pending requests have accumulated initiate resolution of
-        // the affected tablets.
-        core.maybe_resolve_tablets(
-            transaction_context,
-            Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
-        );
+        // the affected tablets. Note that the handler is called immediately if
+        // the resolution doesn't need to wait.
+        let resolve_queries = self.core.borrow_mut().collect_resolve_queries();
+        if !resolve_queries.is_empty() {
+            transaction_context.resolve(
+                resolve_queries,
+                Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
+            );
+        }
+
+        let mut core = self.core.borrow_mut();
 
         core_clone = self.core.clone();
         // If enough pending requests has accumulated on some tablets initiate a
@@ -237,19 +241,10 @@ impl SimpleKeyValueStoreCore {
         }
     }
 
-    fn maybe_resolve_tablets(
-        &mut self,
-        transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
-        handler: Box<transaction::ResolveHandler>,
-    ) {
-        // Initiate resolution of affected tablets if there are enough pending requests.
-        let resolve_queries = self
-            .request_tracker
-            .collect_resolve_queries(&mut self.table_accessor);
-
-        if !resolve_queries.is_empty() {
-            transaction_context.resolve(resolve_queries, handler);
-        }
+    fn collect_resolve_queries(&mut self) -> Vec<transaction::TableQuery> {
+        // Resolution of affected tablets is needed if there are enough pending requests.
+        self.request_tracker
+            .collect_resolve_queries(&mut self.table_accessor)
     }
 
     fn maybe_start_transaction(
-- 
2.43.0


From 20d3fc3757da9aa191ed3a4e1cfa0201386d3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 20/54] fix: batch of key value requests is split between the
 tablets owning the keys

---
 apps/tablet_cache/service/src/store.rs | 40 +++++++++++++++++++-------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index c4d126c..b91bc79 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -213,7 +213,7 @@ impl SimpleKeyValueStoreCore {
             // Move resolved requests as pending to the tablet they affect.
             tablet_tracker.append_pending_requests(
                 self.request_tracker
-                    .take_resolved_requests(table_query.get_id()),
+                    .take_resolved_requests(&self.table_accessor, &table_query),
             );
         }
     }
@@ -395,11 +395,28 @@ impl RequestTracker {
         queries
     }
 
-    fn take_resolved_requests(&mut self, table_query_id: u64) -> Vec<KeyValueRequest> {
-        // Resolved requests are taken for processing within a transaction.
-        self.waiting_resolution_requests
-            .remove(&table_query_id)
+    fn take_resolved_requests(
+        &mut self,
+        table_accessor: &TableAccessor,
+        table_query: &transaction::TableQuery,
+    ) -> Vec<KeyValueRequest> {
+        // Resolved requests are taken for processing within a transaction. The rest
+        // of the requests belongs to other tablets.
+        let (resolved_requests, other_requests): (Vec<_>, Vec<_>) = self
+            .waiting_resolution_requests
+            .remove(&table_query.get_id())
             .unwrap_or(Vec::new())
+            .into_iter()
+            .partition(|request| {
+                table_query
+                    .get_key_hashes()
+                    .contains(&hash_request_key(table_accessor, request))
+            });
+        if !other_requests.is_empty() {
+            self.waiting_resolution_requests
+                .insert(table_query.get_id(), other_requests);
+        }
+        resolved_requests
     }
 }
 
@@ -638,6 +655,13 @@ impl TransactionTracker {
     }
 }
 
+fn hash_request_key(table_accessor: &TableAccessor, request: &KeyValueRequest) -> u32 {
+    match request {
+        KeyValueRequest::Put(_, put_request) => table_accessor.hash_key(&put_request.key),
+        KeyValueRequest::Get(_, get_request) => table_accessor.hash_key(&get_request.key),
+    }
+}
+
 fn create_table_query(
     table_accessor: &mut TableAccessor,
     requests: &Vec<KeyValueRequest>,
@@ -645,11 +669,7 @@ fn create_table_query(
     let mut hashes = Vec::new();
 
     for request in requests {
-        let hash = match &request {
-            KeyValueRequest::Put(_, put_request) => table_accessor.hash_key(&put_request.key),
-            KeyValueRequest::Get(_, get_request) => table_accessor.hash_key(&get_request.key),
-        };
-        hashes.push(hash);
+        hashes.push(hash_request_key(table_accessor, request));
     }
 
     transaction::TableQuery::create(
-- 
2.43.0


From f7cd9e4df89ee66a12e835d9a9fe4ab85db48228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:21 +0000
Subject: [PATCH 21/54] fix: key value requests of failed transactions are
 retried

---
 apps/tablet_cache/service/src/store.rs | 37 +++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index b91bc79..658922e 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -231,11 +231,14 @@ impl SimpleKeyValueStoreCore {
                     // Deserialize tablet contents and process requests that are associated with
                     // the table query. Store processing results comprising or original request
                     // and produced response next to the transaction.
-                    transaction_tracker.append_process_results(tablet_tracker.process_table_query(
-                        &self.table_accessor,
-                        &table_query,
-                        &mut tablet,
-                    ));
+                    transaction_tracker.append_process_results(
+                        tablet.get_id(),
+                        tablet_tracker.process_table_query(
+                            &self.table_accessor,
+                            &table_query,
+                            &mut tablet,
+                        ),
+                    );
                 }
             }
         }
@@ -297,6 +300,13 @@ impl SimpleKeyValueStoreCore {
             }
         }
 
+        // Enqueue requests of failed transactions for retry.
+        for (tablet_id, failed_request) in failed_requests {
+            if let Some(tablet_tracker) = self.tablet_trackers.get_mut(&tablet_id) {
+                tablet_tracker.append_pending_requests(Vec::from([failed_request]));
+            }
+        }
+
         // Mark tablets affected by completed transactions as no longer
         // having a transaction such that a new transaction can be issued
         // against them.
@@ -581,13 +591,18 @@ impl TabletTracker {
 
     fn complete_transaction(&mut self) {
         self.has_transaction = false;
+        // Enqueue for retry requests that haven't been processed by the transaction.
+        for (_, mut requests) in mem::take(&mut self.waiting_processing_requests) {
+            self.pending_requests.append(&mut requests);
+        }
     }
 }
 
 // Tracks requests for a particular transaction.
 struct TransactionTracker {
     tablet_ids: Vec<u32>,
-    requests: Vec<KeyValueRequest>,
+    // Processed requests along with the id of the tablet they affect.
+    requests: Vec<(u32, KeyValueRequest)>,
     responses: Vec<KeyValueResponse>,
     transaction: Option<Box<dyn transaction::TabletTransaction<Bytes>>>,
     waiting_commit: Option<Box<dyn transaction::TabletTransactionCommit>>,
@@ -607,10 +622,14 @@ impl TransactionTracker {
         }
     }
 
-    fn append_process_results(&mut self, results: Vec<(KeyValueRequest, KeyValueResponse)>) {
+    fn append_process_results(
+        &mut self,
+        tablet_id: u32,
+        results: Vec<(KeyValueRequest, KeyValueResponse)>,
+    ) {
         // Store orinal requests and local responses until transaction is committed.
         for (request, response) in results {
-            self.requests.push(request);
+            self.requests.push((tablet_id, request));
             self.responses.push(response);
         }
     }
@@ -631,7 +650,7 @@ impl TransactionTracker {
     fn maybe_finalize_transaction(
         &mut self,
         affected_tablet_ids: &mut Vec<u32>,
-        failed_requests: &mut Vec<KeyValueRequest>,
+        failed_requests: &mut Vec<(u32, KeyValueRequest)>,
         succeeded_responses: &mut Vec<KeyValueResponse>,
     ) -> bool {
         // If transaction has completed successfully, collect responses. Otherwise
-- 
2.43.0


From e90abb2834068789c8a9eefa374adfa85d1c505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:00 +0000
Subject: [PATCH 22/54] fix: advance the transaction manager from the tablet
 cache actor

Nothing called its make_progress, so no resolution or transaction ever finished.
---
 apps/tablet_cache/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 5feca3d..f15e54f 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -189,6 +189,7 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         let instant = self.get_context().instant();
         self.key_value_store
             .make_progress(instant, &mut self.transaction_manager);
+        self.transaction_manager.make_progress(instant);
 
         let transaction_out_commands = self
             .transaction_manager
-- 
2.43.0


From 6e2f9e6674725604586a26ed205e2124f701b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:00 +0000
Subject: [PATCH 23/54] fix: ignore undecodable messages in the tablet cache
 actor

An undecodable header or one without a message terminated the application and an undecodable
tablets response made it panic, although all come from the untrusted host.
---
 apps/tablet_cache/service/src/actor.rs | 27 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index f15e54f..3501cbe 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -27,7 +27,7 @@ use oak_proto_rust::oak::attestation::v1::{
     ReferenceValues, RootLayerReferenceValues, SkipVerification, TextReferenceValue,
 };
 use prost::{bytes::Bytes, Message};
-use slog::{debug, o};
+use slog::{debug, o, warn};
 use tcp_runtime::model::{
     Actor, ActorCommand, ActorContext, ActorError, ActorEvent, ActorEventContext, CommandOutcome,
     EventOutcome,
@@ -129,8 +129,9 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         if let Some(command) = command {
             let in_header = match TabletCacheInMessage::decode(command.header.clone()) {
                 Ok(in_message) => in_message.in_msg,
-                Err(_) => {
-                    return Err(ActorError::Internal);
+                Err(e) => {
+                    warn!(self.get_context().logger(), "Ignoring message: {}", e);
+                    None
                 }
             };
 
@@ -164,14 +165,18 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
                             response,
                         )),
                     InMsg::ExecuteTabletOpsResponse(response) => {
-                        let tablets_response = TabletsResponse::decode(command.payload).unwrap();
-                        self.transaction_manager.process_in_message(
-                            transaction::InMessage::ExecuteTabletOpsResponse(
-                                command.correlation_id,
-                                response,
-                                tablets_response,
+                        match TabletsResponse::decode(command.payload) {
+                            Ok(tablets_response) => self.transaction_manager.process_in_message(
+                                transaction::InMessage::ExecuteTabletOpsResponse(
+                                    command.correlation_id,
+                                    response,
+                                    tablets_response,
+                                ),
                             ),
-                        )
+                            Err(e) => {
+                                warn!(self.get_context().logger(), "Ignoring message: {}", e);
+                            }
+                        }
                     }
                     InMsg::ExecuteTabletOpsError(error) => self
                         .transaction_manager
@@ -181,7 +186,7 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
                         )),
                 },
                 None => {
-                    return Err(ActorError::Internal);
+                    warn!(self.get_context().logger(), "Ignoring message: not set");
                 }
             };
         }
-- 
2.43.0


From 08efcb47744e50351ba1cf89f888ae4957933c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:00 +0000
Subject: [PATCH 24/54] fix: refuse an incomplete tablet cache config instead
 of panicking

---
 apps/tablet_cache/service/src/actor.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 3501cbe..7d23657 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -97,15 +97,18 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         let config = TabletCacheConfig::decode(self.get_context().config().as_ref())
             .map_err(|_| ActorError::ConfigLoading)?;
 
+        let store_config = config.store_config.ok_or(ActorError::ConfigLoading)?;
+        let transaction_manager_config = config
+            .transaction_manager_config
+            .ok_or(ActorError::ConfigLoading)?;
+
         let key_value_store_logger = self.get_context().logger().new(o!("type" => "store"));
         self.key_value_store
-            .init(key_value_store_logger, config.store_config.unwrap());
+            .init(key_value_store_logger, store_config);
 
         let transaction_manager_logger = self.get_context().logger().new(o!("type" => "manager"));
-        self.transaction_manager.init(
-            transaction_manager_logger,
-            config.transaction_manager_config.unwrap(),
-        );
+        self.transaction_manager
+            .init(transaction_manager_logger, transaction_manager_config);
 
         debug!(self.get_context().logger(), "Initialized");
 
-- 
2.43.0


From 058f733d0110d1cb8122b770acee419bfe936638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:00 +0000
Subject: [PATCH 25/54] fix: reject adding and removing tablets instead of
 panicking

Such an op was replicated and then made every replica of the tablet store panic.
---
 apps/tablet_store/service/src/actor.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 0a8f284..4f0cd33 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -187,8 +187,11 @@ impl TableMetadata {
                 }
                 OpResult::UpdateTablet(update_tablet_result)
             }
-            Op::AddTablet(_add_tablet_op) => todo!(),
-            Op::RemoveTablet(_remove_tablet_op) => todo!(),
+            // Adding and removing tablets is not supported.
+            Op::AddTablet(_) | Op::RemoveTablet(_) => {
+                op_result.status = TabletOpStatus::Invalid.into();
+                return op_result;
+            }
         });
 
         op_result
@@ -211,8 +214,9 @@ impl TableMetadata {
 
                 op_result.op_result.unwrap()
             }
-            Op::AddTablet(_) => todo!(),
-            Op::RemoveTablet(_) => todo!(),
+            Op::AddTablet(_) | Op::RemoveTablet(_) => {
+                unreachable!("Unsupported ops fail to prepare")
+            }
         });
 
         op_result
-- 
2.43.0


From fae47d382edafc6b65df847e468d37779de2b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:00 +0000
Subject: [PATCH 26/54] fix: don't overflow the tablet version in the tablet
 store

---
 apps/tablet_store/service/src/actor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 4f0cd33..0d2dbdd 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -179,7 +179,9 @@ impl TableMetadata {
                 let mut update_tablet_result = UpdateTabletResult::default();
                 if let Some(updated_tablet) = &update_tablet_op.tablet_metadata {
                     if let Some(existing_tablet) = self.tablets.get(&updated_tablet.tablet_id) {
-                        if updated_tablet.tablet_version == existing_tablet.tablet_version + 1 {
+                        if Some(updated_tablet.tablet_version)
+                            == existing_tablet.tablet_version.checked_add(1)
+                        {
                             op_result.status = TabletOpStatus::Succeeded.into();
                         }
                         update_tablet_result.existing_tablet = Some(existing_tablet.clone());
-- 
2.43.0


From 280ac8e37e23794ef87fdee07eac0b8a6a1b7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:00 +0000
Subject: [PATCH 27/54] fix: accept only one update of a tablet per request in
 the tablet store

Two updates of a tablet to the same version in a request both succeeded and the first was lost.
---
 apps/tablet_store/service/src/actor.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 0d2dbdd..7137bb0 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -308,8 +308,22 @@ impl<C: TabletConfigurator> TabletStoreActor<C> {
     fn on_apply_tablets_request(&mut self, request: TabletsRequest) -> (OutMsg, Bytes) {
         let mut all_succeeded = true;
         let mut tablet_op_prepare_results = Vec::new();
+        let mut updated_tablets = HashSet::new();
         for tablet_op in &request.tablet_ops {
-            let tablet_op_result = self.prepare_tablet_op(tablet_op);
+            let mut tablet_op_result = self.prepare_tablet_op(tablet_op);
+            if let Some(Op::UpdateTablet(UpdateTabletOp {
+                tablet_metadata: Some(tablet_metadata),
+            })) = &tablet_op.op
+            {
+                // All ops are prepared against the same state, hence only one of the updates
+                // of a tablet can follow its current version.
+                if tablet_op_result.status == TabletOpStatus::Succeeded as i32
+                    && !updated_tablets
+                        .insert((tablet_op.table_name.clone(), tablet_metadata.tablet_id))
+                {
+                    tablet_op_result.status = TabletOpStatus::Failed.into();
+                }
+            }
             all_succeeded &= tablet_op_result.status == TabletOpStatus::Succeeded as i32;
             tablet_op_prepare_results.push(tablet_op_result);
         }
-- 
2.43.0


From 37015bd5d3b667691f7754bd08a06b182dc0772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 28/54] fix: replace the counters when loading a snapshot

Counters of the replica's own configuration that the snapshot doesn't hold survived, so replicas
differed.
---
 apps/atomic_counter/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/atomic_counter/service/src/actor.rs b/apps/atomic_counter/service/src/actor.rs
index ce988e1..74a3a84 100644
--- a/apps/atomic_counter/service/src/actor.rs
+++ b/apps/atomic_counter/service/src/actor.rs
@@ -194,6 +194,7 @@ impl Actor for CounterActor {
         let snapshot =
             CounterSnapshot::decode(snapshot).map_err(|_| ActorError::SnapshotLoading)?;
 
+        self.values.clear();
         for (name, value) in snapshot.values {
             self.values.insert(
                 name,
-- 
2.43.0


From 1d1ff9154861ca5d6973ca9af76cd70c029f8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 29/54] fix: reject chunks of other snapshots of the same
 sender

Delayed chunks of an earlier transfer were mixed into the current one.
---
 runtime/src/snapshot.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 0544317..6897a46 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -768,8 +768,14 @@ impl ReceiverState {
         }
     }
 
-    fn accept_chunk(&mut self, sender_id: u64, index: u64, chunk_contents: Bytes) -> bool {
-        if sender_id != self.sender_id {
+    fn accept_chunk(
+        &mut self,
+        sender_id: u64,
+        snapshot_id: u32,
+        index: u64,
+        chunk_contents: Bytes,
+    ) -> bool {
+        if sender_id != self.sender_id || snapshot_id != self.snapshot_id {
             return false;
         }
 
@@ -904,6 +910,7 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
                                 // within range.
                                 if state.accept_chunk(
                                     request.sender_replica_id,
+                                    payload.snapshot_id,
                                     chunk.chunk_index.into(),
                                     chunk.chunk_contents,
                                 ) {
-- 
2.43.0


From f3ec7b4e082bede98741e57ac74c66405388e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 30/54] fix: keep snapshot sending defaults for values that are
 not set

A chunk size of zero crashed the leader and no pending chunks blocked
snapshots for ever.
---
 runtime/src/snapshot.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 6897a46..5d12926 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -563,8 +563,14 @@ impl SnapshotSenderImpl for DefaultSnapshotSender {
         self.logger = logger;
         self.replica_id = replica_id;
         if let Some(snapshot_config) = snapshot_config {
-            self.config.chunk_size = snapshot_config.chunk_size;
-            self.config.max_pending_chunks = snapshot_config.max_pending_chunks
+            // Keep system defaults for the values that are not set, nothing can be
+            // sent with empty chunks or without pending chunks.
+            if snapshot_config.chunk_size > 0 {
+                self.config.chunk_size = snapshot_config.chunk_size;
+            }
+            if snapshot_config.max_pending_chunks > 0 {
+                self.config.max_pending_chunks = snapshot_config.max_pending_chunks;
+            }
         }
     }
 
-- 
2.43.0


From ab60c5bd54d3991929740b50d735a8fb95a2adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 31/54] fix: reject malformed snapshot chunks instead of
 panicking

---
 runtime/src/snapshot.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 5d12926..4391339 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -344,6 +344,11 @@ fn chunk_count(snapshot_size: u64, chunk_size: u64) -> u64 {
     }
 }
 
+/// Checks that the first chunk fits into the snapshot and leaves room for progress.
+fn valid_first_chunk(snapshot_size: u64, chunk_size: u64) -> bool {
+    chunk_size <= snapshot_size && (chunk_size > 0 || snapshot_size == 0)
+}
+
 struct SnapshotSenderState {
     logger: Logger,
     snapshot_id: u32,
@@ -461,7 +466,7 @@ impl SnapshotSenderState {
         let success = match response {
             Ok(response) => {
                 let payload_result = deliver_snapshot_response::SnapshotAck::decode(
-                    response.payload.unwrap().contents,
+                    response.payload.unwrap_or_default().contents,
                 );
                 if payload_result.is_err() {
                     warn!(
@@ -689,7 +694,9 @@ impl SnapshotSender for DefaultSnapshotSender {
             ..Default::default()
         };
 
-        match deliver_snapshot_request::SnapshotContent::decode(request.payload.unwrap().contents) {
+        match deliver_snapshot_request::SnapshotContent::decode(
+            request.payload.unwrap_or_default().contents,
+        ) {
             Ok(payload) => match payload.it {
                 None => {}
                 Some(deliver_snapshot_request::snapshot_content::It::Header(_)) => {
@@ -876,10 +883,28 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
             ..Default::default()
         };
 
-        match deliver_snapshot_request::SnapshotContent::decode(request.payload.unwrap().contents) {
+        match deliver_snapshot_request::SnapshotContent::decode(
+            request.payload.unwrap_or_default().contents,
+        ) {
             Ok(payload) => {
                 match payload.it {
-                    None => {}
+                    None => {
+                        warn!(self.logger, "Rejecting payload: no contents");
+                        response_payload.status =
+                            DeliverSnapshotStatus::SnapshotStatusRejected.into();
+                    }
+                    Some(deliver_snapshot_request::snapshot_content::It::Header(header))
+                        if !valid_first_chunk(
+                            header.snapshot_size,
+                            header.chunk_contents.len() as u64,
+                        ) =>
+                    {
+                        warn!(self.logger, "Rejecting payload: out of bounds");
+                        response_payload.snapshot_id = payload.snapshot_id;
+                        response_payload.chunk_index = 0;
+                        response_payload.status =
+                            DeliverSnapshotStatus::SnapshotStatusRejected.into();
+                    }
                     Some(deliver_snapshot_request::snapshot_content::It::Header(header)) => {
                         info!(self.logger,
                             "Starting snapshot receiving: sender {}, snapshot id {}, snapshot size {}",
-- 
2.43.0


From 5729be851b79c0a9396c091d24849cf388081081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 32/54] fix: keep accepted chunks when a snapshot header is
 repeated

The sender saw all chunks accepted and reported the snapshot as sent
although the receiver had started anew.
---
 runtime/src/snapshot.rs | 45 +++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 4391339..8b8f03d 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -781,6 +781,19 @@ impl ReceiverState {
         }
     }
 
+    fn is_repeated_header(
+        &self,
+        sender_id: u64,
+        snapshot_id: u32,
+        header: &deliver_snapshot_request::snapshot_content::Header,
+    ) -> bool {
+        sender_id == self.sender_id
+            && snapshot_id == self.snapshot_id
+            && header.snapshot_size == self.snapshot_size
+            && header.snapshot_metadata == self.snapshot_metadata
+            && self.chunks.get(&0) == Some(&header.chunk_contents)
+    }
+
     fn accept_chunk(
         &mut self,
         sender_id: u64,
@@ -913,17 +926,27 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
                         header.snapshot_size);
 
                         // Received new header, must reset any progress as there can only
-                        // be one snapshot at a time.
-                        self.reset();
-                        // Initiate new snapshot.
-                        self.state = Some(ReceiverState::new(
-                            self.logger.clone(),
-                            request.sender_replica_id,
-                            payload.snapshot_id,
-                            header.snapshot_size,
-                            header.snapshot_metadata.clone(),
-                            header.chunk_contents,
-                        ));
+                        // be one snapshot at a time. Repeated header of the current snapshot
+                        // must not drop the chunks that have already been accepted.
+                        let repeated = self.state.as_ref().is_some_and(|state| {
+                            state.is_repeated_header(
+                                request.sender_replica_id,
+                                payload.snapshot_id,
+                                &header,
+                            )
+                        });
+                        if !repeated {
+                            self.reset();
+                            // Initiate new snapshot.
+                            self.state = Some(ReceiverState::new(
+                                self.logger.clone(),
+                                request.sender_replica_id,
+                                payload.snapshot_id,
+                                header.snapshot_size,
+                                header.snapshot_metadata.clone(),
+                                header.chunk_contents,
+                            ));
+                        }
                         // Respond to the snapshot sender.
                         response_payload.snapshot_id = payload.snapshot_id;
                         response_payload.chunk_index = 0;
-- 
2.43.0


From a4f504a20c58b78c369b2757e13df404615bae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 33/54] fix: handshake again with a peer that assumes the
 handshake completed

---
 runtime/src/communication.rs | 61 ++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 9759b4f..c3dfa25 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -309,12 +309,30 @@ impl CommunicationModule for DefaultCommunicationModule {
     }
 
     fn make_tick(&mut self) {
-        for replica in self.replicas.values_mut() {
+        for (peer_replica_id, replica) in self.replicas.iter_mut() {
             replica.make_tick();
             if let HandshakeState::Failed(ticks_since_failed) = replica.handshake_state
                 && ticks_since_failed >= self.config.handshake_retry_tick
             {
                 replica.reset_state_machine();
+                if !mem::take(&mut replica.peer_assumes_completed) {
+                    continue;
+                }
+                // Let the peer know that it has to handshake again.
+                let result = self
+                    .handshake_session_provider
+                    .get(self.replica_id, *peer_replica_id, Role::Initiator)
+                    .and_then(|handshake_session| {
+                        replica.init(handshake_session)?;
+                        replica.initiate_handshake()
+                    });
+                if result.is_err() {
+                    warn!(
+                        self.logger,
+                        "Failed to initiate handshake {:?}",
+                        result.err()
+                    );
+                }
             }
         }
     }
@@ -331,6 +349,10 @@ pub struct CommunicationState {
     unencrypted_messages: Vec<OutgoingMessage>,
     encryptor: Option<Box<dyn Encryptor>>,
     handshake_initiated_tick_timeout: u32,
+    // Set if the peer sent an encrypted message while the handshake isn't completed on this side,
+    // e.g. because the last handshake message got lost. The peer wouldn't handshake again on its
+    // own accord.
+    peer_assumes_completed: bool,
 }
 
 #[derive(PartialEq)]
@@ -359,6 +381,7 @@ impl CommunicationState {
             unencrypted_messages: Vec::new(),
             encryptor: None,
             handshake_initiated_tick_timeout,
+            peer_assumes_completed: false,
         }
     }
 
@@ -428,6 +451,25 @@ impl CommunicationState {
         self.unencrypted_messages.push(message);
     }
 
+    fn initiate_handshake(&mut self) -> anyhow::Result<()> {
+        self.pending_handshake_message = self
+            .handshake_session
+            .as_mut()
+            .unwrap()
+            .take_out_message()
+            .inspect_err(|err| {
+                self.transition_to_failed(&err);
+            })?;
+
+        if self.pending_handshake_message.is_none() {
+            let err = anyhow!("No initial handshake message found.");
+            self.transition_to_failed(&err);
+            return Err(err);
+        }
+        self.handshake_state = HandshakeState::Initiated(0);
+        Ok(())
+    }
+
     fn process_out_message(&mut self, message: OutgoingMessage) -> anyhow::Result<()> {
         match &self.handshake_state {
             HandshakeState::Unknown => {
@@ -437,22 +479,8 @@ impl CommunicationState {
                 return Err(err);
             }
             HandshakeState::Initialized => {
-                self.pending_handshake_message = self
-                    .handshake_session
-                    .as_mut()
-                    .unwrap()
-                    .take_out_message()
-                    .inspect_err(|err| {
-                        self.transition_to_failed(&err);
-                    })?;
-
-                if self.pending_handshake_message.is_none() {
-                    let err = anyhow!("No initial handshake message found.");
-                    self.transition_to_failed(&err);
-                    return Err(err);
-                }
+                self.initiate_handshake()?;
                 self.push_or_replace_unencrypted_message(message);
-                self.handshake_state = HandshakeState::Initiated(0);
                 Ok(())
             }
             HandshakeState::Initiated(_) | HandshakeState::Completed => {
@@ -515,6 +543,7 @@ impl CommunicationState {
                             message
                         ));
                         self.transition_to_failed(&err);
+                        self.peer_assumes_completed = true;
                         Err(err)
                     }
                 }
-- 
2.43.0


From 0a086e4d7f05f34f441f02b14df12b4b9a79b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 34/54] fix: don't panic if a replica is started without
 endorsements

---
 runtime/src/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 8838820..17493aa 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -807,7 +807,7 @@ impl<
         };
         communication_config.reference_values = self.actor.get_reference_values();
         communication_config.endorsements =
-            start_replica_request.endorsements.as_ref().unwrap().clone();
+            start_replica_request.endorsements.clone().unwrap_or_default();
         self.communication.init(
             self.id,
             self.logger.new(o!("type" => "communication")),
-- 
2.43.0


From f7d1f71fb98d7d5358ef224d75612a5307c9e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 35/54] fix: don't overflow the handshake timeout

---
 runtime/src/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 17493aa..0057d74 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -793,7 +793,7 @@ impl<
         let mut communication_config = match &start_replica_request.raft_config {
             Some(raft_config) => CommunicationConfig {
                 handshake_retry_tick: raft_config.handshake_retry_tick,
-                handshake_initiated_tick_timeout: raft_config.heartbeat_tick * 10,
+                handshake_initiated_tick_timeout: raft_config.heartbeat_tick.saturating_mul(10),
                 reference_values: ReferenceValues::default(),
                 endorsements: Endorsements::default(),
             },
-- 
2.43.0


From dc1a0f9b063c74cef690297b6153ff4c865d497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 36/54] fix: ignore misrouted and malformed Raft messages

---
 runtime/src/driver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 0057d74..067ab4a 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -359,6 +359,7 @@ impl<
                         "Ignoring incorectly routed Raft message: recipient id {}",
                         recipient_replica_id
                     );
+                    return Ok(());
                 }
                 if message.get_from() != sender_replica_id {
                     // Ignore malformed message
@@ -366,6 +367,7 @@ impl<
                         self.logger,
                         "Ignoring malformed Raft message: sender id {}", sender_replica_id
                     );
+                    return Ok(());
                 }
 
                 // Advance Raft internal state by one step.
-- 
2.43.0


From 957242f6eefad641f602428e4dd7c20fbc0afdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 37/54] fix: don't panic on a dropped proposal

---
 runtime/src/driver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 067ab4a..456291a 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -387,7 +387,10 @@ impl<
     fn make_raft_proposal(&mut self, proposal_contents: Bytes) {
         debug!(self.logger, "Making Raft proposal");
 
-        self.raft.make_proposal(proposal_contents).unwrap();
+        // Raft drops proposals of a replica that doesn't lead or isn't part of the cluster.
+        if let Err(e) = self.raft.make_proposal(proposal_contents) {
+            warn!(self.logger, "Dropping Raft proposal: {}", e);
+        }
     }
 
     fn make_raft_config_change_proposal(
-- 
2.43.0


From dd16fc3fc0522962dfee2b984da26f7cf74369b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 38/54] fix: don't terminate because of a message that Raft
 ignores

---
 runtime/src/driver.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 456291a..b57e2aa 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -372,6 +372,16 @@ impl<
 
                 // Advance Raft internal state by one step.
                 match self.raft.make_step(message) {
+                    Err(
+                        e @ (RaftError::StepPeerNotFound
+                        | RaftError::StepLocalMsg
+                        | RaftError::ProposalDropped),
+                    ) => {
+                        // Raft has ignored the message, e.g. it is from a removed replica.
+                        warn!(self.logger, "Raft ignored message: {}", e);
+
+                        Ok(())
+                    }
                     Err(e) => {
                         error!(self.logger, "Raft experienced unrecoverable error: {}", e);
 
-- 
2.43.0


From b45b59cf2adb24469230ff3eac90f99006ceaf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 39/54] fix: ignore time and snapshot messages before the start
 and after the stop

---
 runtime/src/driver.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index b57e2aa..8367832 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -955,6 +955,7 @@ impl<
         &mut self,
         deliver_snapshot_request: DeliverSnapshotRequest,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -995,6 +996,7 @@ impl<
         &mut self,
         deliver_snapshot_response: DeliverSnapshotResponse,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -1033,6 +1035,7 @@ impl<
         &mut self,
         deliver_snapshot_failure: DeliverSnapshotFailure,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         match self.snapshot.mut_processor(self.instant) {
             SnapshotProcessorRole::Sender(sender) => sender.process_response(
@@ -1293,6 +1296,7 @@ impl<
         // dispatched for processing.
         self.preset_state_machine(instant);
 
+        let was_started = self.driver_state == DriverState::Started;
         let mut deliver_app_message_opt = None;
         // Dispatch incoming message for processing.
         if let Some(deserialized_message) = opt_message {
@@ -1352,7 +1356,9 @@ impl<
             self.communication.make_tick();
         }
 
-        if !self.is_ephemeral {
+        // A replica that is stopped by this message still makes its last steps.
+        let is_started = was_started || self.driver_state == DriverState::Started;
+        if is_started && !self.is_ephemeral {
             // Processes outputs from the actor to make raft proposals.
             self.process_actor_raft_proposals();
 
-- 
2.43.0


From ecfab0ee99ae6d9476c41946841b08b1e8c91d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:21 +0000
Subject: [PATCH 40/54] fix: answer check cluster requests also on a follower

---
 runtime/src/driver.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 8367832..6ab9763 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -195,6 +195,8 @@ pub struct Driver<R: Raft, S: Store, P: SnapshotProcessor, A: Actor, C: Communic
     actor: A,
     raft_state: RaftState,
     prev_raft_state: RaftState,
+    // Set if the state of the cluster must be reported even if it hasn't changed.
+    report_raft_state: bool,
     raft_progress: RaftProgress,
     communication: C,
     is_ephemeral: bool,
@@ -245,6 +247,7 @@ impl<
             actor,
             raft_state: RaftState::new(),
             prev_raft_state: RaftState::new(),
+            report_raft_state: false,
             raft_progress: RaftProgress::new(),
             communication,
             is_ephemeral: false,
@@ -688,6 +691,7 @@ impl<
 
     fn reset_leader_state(&mut self) {
         self.prev_raft_state = RaftState::new();
+        self.report_raft_state = true;
     }
 
     fn collect_config_state(&mut self, config_state: RaftConfigState) {
@@ -697,18 +701,19 @@ impl<
     fn stash_leader_state(&mut self) {
         self.raft_state = self.get_raft_state();
 
-        if self.prev_raft_state == self.raft_state {
-            return;
-        }
-
-        self.prev_raft_state = self.raft_state.clone();
+        let is_requested = mem::take(&mut self.report_raft_state);
+        if self.prev_raft_state != self.raft_state {
+            self.prev_raft_state = self.raft_state.clone();
 
-        // Update snapshot processor with the latest raft cluster state.
-        self.update_snapshot_cluster_change();
+            // Update snapshot processor with the latest raft cluster state.
+            self.update_snapshot_cluster_change();
 
-        // Update communication module with the latest set of known replicas.
-        self.communication
-            .process_cluster_change(&self.raft_progress.config_state.voters);
+            // Update communication module with the latest set of known replicas.
+            self.communication
+                .process_cluster_change(&self.raft_progress.config_state.voters);
+        } else if !is_requested {
+            return;
+        }
 
         // Sent out cluster check message with the update.
         self.stash_message(out_message::Msg::CheckCluster(CheckClusterResponse {
-- 
2.43.0


From 4b906d2729bff45deace89a6ffad6899a93daa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:56 +0000
Subject: [PATCH 41/54] fix: reject cluster changes if not leading or if one is
 pending

---
 runtime/src/driver.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 6ab9763..7fa5537 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -871,6 +871,16 @@ impl<
         self.check_non_ephemeral()?;
 
         let change_status = match ChangeClusterType::try_from(change_cluster_request.change_type) {
+            _ if self.raft_state.leader_replica_id != self.id
+                || self.raft_state.has_pending_change =>
+            {
+                warn!(
+                    self.logger,
+                    "Rejecting cluster change command: not a leader or another change is pending"
+                );
+
+                ChangeClusterStatus::ChangeStatusRejected
+            }
             Ok(ChangeClusterType::ChangeTypeAddReplica) => self.make_raft_config_change_proposal(
                 change_cluster_request.replica_id,
                 RaftConfigChangeType::AddNode,
-- 
2.43.0


From 151fe447e231aef2e55e9f7563f3825dc1aeee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:30 +0000
Subject: [PATCH 42/54] fix: keep the term of a candidate that receives a
 snapshot

---
 runtime/src/consensus.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index 797405e..fdef816 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -22,7 +22,7 @@ use prost::bytes::Bytes;
 use raft::{
     eraftpb::ConfChange as RaftConfigChange, eraftpb::ConfState as RaftConfigState,
     eraftpb::Entry as RaftEntry, eraftpb::HardState as RaftHardState,
-    eraftpb::Message as RaftMessage, eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig,
+    eraftpb::Message as RaftMessage, eraftpb::MessageType, eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig,
     Error as RaftError, RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
     SoftState as RaftSoftState, StateRole as RaftStateRole, Storage as RaftStorage,
 };
@@ -304,7 +304,12 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         Ok(())
     }
 
-    fn make_step(&mut self, message: RaftMessage) -> Result<(), RaftError> {
+    fn make_step(&mut self, mut message: RaftMessage) -> Result<(), RaftError> {
+        if message.msg_type() == MessageType::MsgSnapshot && message.term == 0 {
+            // The term isn't known for snapshots that have been transferred in chunks. Raft requires
+            // it to match, and would otherwise reset the term of a candidate.
+            message.term = self.raft_node().raft.term;
+        }
         self.mut_raft_node().step(message)
     }
 
-- 
2.43.0


From efd764122b4a0ca2ee44b1c7f70bcafce7e6c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:30 +0000
Subject: [PATCH 43/54] fix: don't panic on a message without payload

---
 runtime/src/communication.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index c3dfa25..3b79d54 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -560,7 +560,7 @@ impl CommunicationState {
         let encryptor = self.encryptor.as_mut().unwrap();
         let result = match message {
             in_message::Msg::DeliverSystemMessage(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&Payload::default()))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -569,7 +569,7 @@ impl CommunicationState {
                     Ok(in_message::Msg::DeliverSystemMessage(msg))
                 }),
             in_message::Msg::DeliverSnapshotRequest(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&Payload::default()))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -578,7 +578,7 @@ impl CommunicationState {
                     Ok(in_message::Msg::DeliverSnapshotRequest(msg))
                 }),
             in_message::Msg::DeliverSnapshotResponse(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&Payload::default()))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
-- 
2.43.0


From 862de4e1559492043d14d95d364319cafa5c6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 44/54] fix: settle handshakes initiated by both replicas at
 once

---
 runtime/src/communication.rs | 38 ++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 3b79d54..85bf396 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -256,6 +256,19 @@ impl CommunicationModule for DefaultCommunicationModule {
             CommunicationState::new(logger.clone(), self.config.handshake_initiated_tick_timeout)
         });
 
+        if replica_state.is_initiator() && is_initiator_request(&message) {
+            // Both replicas have initiated a handshake. The one with the smaller id gives way, as
+            // otherwise they may fail each other's attempts time and again.
+            if self.replica_id > peer_replica_id {
+                info!(
+                    self.logger,
+                    "Ignoring handshake initiated by replica {}", peer_replica_id
+                );
+                return Ok(None);
+            }
+            replica_state.reset_state_machine();
+        }
+
         if !replica_state.is_initialized() {
             let handshake_session = self
                 .handshake_session_provider
@@ -338,6 +351,22 @@ impl CommunicationModule for DefaultCommunicationModule {
     }
 }
 
+fn is_initiator_request(message: &in_message::Msg) -> bool {
+    matches!(
+        message,
+        in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
+            encryption: Some(secure_channel_handshake::Encryption::NoiseProtocol(
+                secure_channel_handshake::NoiseProtocol {
+                    message: Some(
+                        secure_channel_handshake::noise_protocol::Message::InitiatorRequest(_)
+                    ),
+                }
+            )),
+            ..
+        })
+    )
+}
+
 // Manages communication with a given peer replica.
 pub struct CommunicationState {
     logger: Logger,
@@ -353,6 +382,8 @@ pub struct CommunicationState {
     // e.g. because the last handshake message got lost. The peer wouldn't handshake again on its
     // own accord.
     peer_assumes_completed: bool,
+    // Set if this side has initiated the current handshake.
+    initiator: bool,
 }
 
 #[derive(PartialEq)]
@@ -382,6 +413,7 @@ impl CommunicationState {
             encryptor: None,
             handshake_initiated_tick_timeout,
             peer_assumes_completed: false,
+            initiator: false,
         }
     }
 
@@ -402,6 +434,10 @@ impl CommunicationState {
         self.handshake_state != HandshakeState::Unknown
     }
 
+    fn is_initiator(&self) -> bool {
+        self.initiator && matches!(self.handshake_state, HandshakeState::Initiated(_))
+    }
+
     fn make_tick(&mut self) {
         match &self.handshake_state {
             &HandshakeState::Failed(mut ticks_since_failed) => {
@@ -428,6 +464,7 @@ impl CommunicationState {
         self.pending_handshake_message = None;
         self.handshake_session = None;
         self.encryptor = None;
+        self.initiator = false;
     }
 
     fn transition_to_failed(&mut self, err: &anyhow::Error) {
@@ -467,6 +504,7 @@ impl CommunicationState {
             return Err(err);
         }
         self.handshake_state = HandshakeState::Initiated(0);
+        self.initiator = true;
         Ok(())
     }
 
-- 
2.43.0


From 21210aed3a65b74b3515bda6b37604b1ba5b8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 45/54] fix: cancel snapshot transfers to removed replicas

Chunks for a removed replica may never leave the leader, nobody answers them or
reports them as lost, and they occupied the in-flight slots of all transfers.
---
 runtime/src/snapshot.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 8b8f03d..4706a12 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -218,6 +218,11 @@ pub trait SnapshotSenderImpl: SnapshotSender {
     fn set_instant(&mut self, instant: u64);
 
     fn reset(&mut self) -> Vec<(u64, RaftSnapshotStatus)>;
+
+    /// Cancels transfers to replicas that are no longer part of the cluster.
+    fn retain(&mut self, _replicas: &[u64]) -> Vec<(u64, RaftSnapshotStatus)> {
+        Vec::new()
+    }
 }
 
 pub trait SnapshotReceiverImpl: SnapshotReceiver {
@@ -298,6 +303,10 @@ impl SnapshotProcessor for DefaultSnapshotProcessor {
             }
         }
 
+        // A removed replica will not answer any more, hence chunks pending for it would
+        // keep occupying in-flight slots.
+        cancelled_snapshots.extend(self.sender.retain(replicas));
+
         // Update replica state according to the cluster state.
         match self.state {
             ReplicaState::Follower => {
@@ -597,6 +606,19 @@ impl SnapshotSenderImpl for DefaultSnapshotSender {
 
         cancellations
     }
+
+    fn retain(&mut self, replicas: &[u64]) -> Vec<(u64, RaftSnapshotStatus)> {
+        let mut cancellations = Vec::new();
+        self.receivers.retain(|receiver_id, _| {
+            let retained = replicas.contains(receiver_id);
+            if !retained {
+                cancellations.push((*receiver_id, RaftSnapshotStatus::Failure));
+            }
+            retained
+        });
+
+        cancellations
+    }
 }
 
 impl SnapshotSender for DefaultSnapshotSender {
-- 
2.43.0


From b09bcabe4fa800d2527507574cb11239204f6bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 46/54] fix: don't start snapshot transfers to removed replicas

---
 runtime/src/snapshot.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 4706a12..2964f3b 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -551,6 +551,8 @@ pub struct DefaultSnapshotSender {
     instant: u64,
     next_snapshot_id: u32,
     next_delivery_id: u64,
+    // Latest known replicas of the cluster.
+    replicas: Option<Vec<u64>>,
     receivers: HashMap<u64, SnapshotSenderState>,
 }
 
@@ -567,6 +569,7 @@ impl DefaultSnapshotSender {
             instant: 0,
             next_snapshot_id: 1,
             next_delivery_id: 1,
+            replicas: None,
             receivers: HashMap::new(),
         }
     }
@@ -608,6 +611,8 @@ impl SnapshotSenderImpl for DefaultSnapshotSender {
     }
 
     fn retain(&mut self, replicas: &[u64]) -> Vec<(u64, RaftSnapshotStatus)> {
+        self.replicas = Some(replicas.to_vec());
+
         let mut cancellations = Vec::new();
         self.receivers.retain(|receiver_id, _| {
             let retained = replicas.contains(receiver_id);
@@ -623,6 +628,17 @@ impl SnapshotSenderImpl for DefaultSnapshotSender {
 
 impl SnapshotSender for DefaultSnapshotSender {
     fn start(&mut self, receiver_id: u64, snapshot: RaftSnapshot) {
+        if let Some(replicas) = &self.replicas {
+            if !replicas.contains(&receiver_id) {
+                // The receiver has been removed while the snapshot was on its way here.
+                warn!(
+                    self.logger,
+                    "Ignoring snapshot for replica {}: not in the cluster", receiver_id
+                );
+                return;
+            }
+        }
+
         info!(
             self.logger,
             "Starting snapshot sending to: receiver {}, snapshot size {}",
-- 
2.43.0


From f1c61ade9edd34ae4b00390a0f89de41f1341e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:35 +0000
Subject: [PATCH 47/54] fix: fail snapshot requests that can't be sent

A snapshot request to a replica that doesn't complete the handshake stayed stashed for ever, keeping other transfers from making progress.
---
 runtime/src/communication.rs | 31 +++++++++++++++++++++++++++++++
 runtime/src/driver.rs        | 17 +++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 85bf396..ab335bf 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -119,6 +119,13 @@ pub trait CommunicationModule {
     // Processes a new tick event and resets any internal failed state if enough ticks
     // have passed.
     fn make_tick(&mut self);
+
+    // Takes out stashed snapshot requests that couldn't be sent because the handshake with
+    // the receiving replica timed out. Callers must treat the delivery of these requests as
+    // failed, other messages are retried by Raft.
+    fn take_failed_snapshot_requests(&mut self) -> Vec<DeliverSnapshotRequest> {
+        Vec::new()
+    }
 }
 
 // Default implementation of CommunicationModule.
@@ -349,6 +356,14 @@ impl CommunicationModule for DefaultCommunicationModule {
             }
         }
     }
+
+    fn take_failed_snapshot_requests(&mut self) -> Vec<DeliverSnapshotRequest> {
+        let mut requests = Vec::new();
+        for replica_state in self.replicas.values_mut() {
+            requests.append(&mut replica_state.failed_snapshot_requests);
+        }
+        requests
+    }
 }
 
 fn is_initiator_request(message: &in_message::Msg) -> bool {
@@ -376,6 +391,8 @@ pub struct CommunicationState {
     // Unencrypted stashed messages that will be encrypted and sent out once
     // handshake completes.
     unencrypted_messages: Vec<OutgoingMessage>,
+    // Snapshot requests that were stashed when the handshake timed out.
+    failed_snapshot_requests: Vec<DeliverSnapshotRequest>,
     encryptor: Option<Box<dyn Encryptor>>,
     handshake_initiated_tick_timeout: u32,
     // Set if the peer sent an encrypted message while the handshake isn't completed on this side,
@@ -410,6 +427,7 @@ impl CommunicationState {
             pending_handshake_message: None,
             handshake_session: None,
             unencrypted_messages: Vec::new(),
+            failed_snapshot_requests: Vec::new(),
             encryptor: None,
             handshake_initiated_tick_timeout,
             peer_assumes_completed: false,
@@ -449,6 +467,7 @@ impl CommunicationState {
                 if ticks_since_initiated >= self.handshake_initiated_tick_timeout {
                     info!(self.logger, "Handshake timed out in state Initiated.");
                     self.handshake_state = HandshakeState::Failed(0);
+                    self.fail_snapshot_requests();
                 } else {
                     self.handshake_state = HandshakeState::Initiated(ticks_since_initiated);
                 }
@@ -457,6 +476,18 @@ impl CommunicationState {
         }
     }
 
+    // Gives up stashed snapshot requests, as the sender waits for their delivery.
+    fn fail_snapshot_requests(&mut self) {
+        for message in mem::take(&mut self.unencrypted_messages) {
+            match message {
+                OutgoingMessage::DeliverSnapshotRequest(request) => {
+                    self.failed_snapshot_requests.push(request)
+                }
+                message => self.unencrypted_messages.push(message),
+            }
+        }
+    }
+
     // Resets the state machine but preserves any messages not sent out yet.
     fn reset_state_machine(&mut self) {
         info!(self.logger, "Resetting state");
diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 7fa5537..37e2879 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -1046,6 +1046,22 @@ impl<
         }
     }
 
+    fn process_failed_snapshot_requests(&mut self) {
+        let failed_requests = self.communication.take_failed_snapshot_requests();
+        if failed_requests.is_empty() {
+            return;
+        }
+        if let SnapshotProcessorRole::Sender(sender) = self.snapshot.mut_processor(self.instant) {
+            for request in failed_requests {
+                sender.process_response(
+                    request.recipient_replica_id,
+                    request.delivery_id,
+                    Err(SnapshotError::FailedDelivery),
+                );
+            }
+        }
+    }
+
     fn process_deliver_snapshot_failure(
         &mut self,
         deliver_snapshot_failure: DeliverSnapshotFailure,
@@ -1369,6 +1385,7 @@ impl<
         if self.driver_state == DriverState::Started {
             self.process_deliver_app_message(deliver_app_message_opt)?;
             self.communication.make_tick();
+            self.process_failed_snapshot_requests();
         }
 
         // A replica that is stopped by this message still makes its last steps.
-- 
2.43.0


From 1a26766cca345e8ea93d8dcd4cc5a725e4669a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 48/54] fix: reject the start of a replica without id

Raft panics on it.
---
 runtime/src/driver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 37e2879..8a03cf1 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -763,6 +763,10 @@ impl<
         app_signing_key: Vec<u8>,
     ) -> Result<(), PalError> {
         self.check_driver_state(DriverState::Created)?;
+        if start_replica_request.replica_id_hint == 0 && !start_replica_request.is_ephemeral {
+            warn!(self.logger, "Rejecting start: no replica id");
+            return Err(PalError::InvalidOperation);
+        }
 
         self.initialize_driver(app_signing_key, start_replica_request.replica_id_hint);
 
-- 
2.43.0


From 3aa588404a82ee01ce3659af8fdbb2aa9e1dbfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 49/54] fix: reject the removal of the last replica

Applying it fails, which terminates the replica.
---
 runtime/src/driver.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 8a03cf1..78cfb62 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -889,6 +889,17 @@ impl<
                 change_cluster_request.replica_id,
                 RaftConfigChangeType::AddNode,
             )?,
+            Ok(ChangeClusterType::ChangeTypeRemoveReplica)
+                if self.raft_state.committed_cluster_config
+                    == [change_cluster_request.replica_id] =>
+            {
+                warn!(
+                    self.logger,
+                    "Rejecting cluster change command: the last replica can't be removed"
+                );
+
+                ChangeClusterStatus::ChangeStatusRejected
+            }
             Ok(ChangeClusterType::ChangeTypeRemoveReplica) => self
                 .make_raft_config_change_proposal(
                     change_cluster_request.replica_id,
-- 
2.43.0


From 052aa8f7b8f55436369baae1aacd0d3f2184f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 50/54] fix: don't overflow on a large snapshot count

---
 runtime/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/storage.rs b/runtime/src/storage.rs
index 9c7e9ba..8b5c6a1 100644
--- a/runtime/src/storage.rs
+++ b/runtime/src/storage.rs
@@ -243,7 +243,7 @@ impl MemoryStorageCore {
 
     fn should_snapshot(&self, applied_index: u64, config_state: &RaftConfigState) -> bool {
         // Check if existing snapshot is too old.
-        if self.snapshot_index() + self.max_snapshot_diff < applied_index {
+        if self.snapshot_index().saturating_add(self.max_snapshot_diff) < applied_index {
             return true;
         }
         // Check if snapshotting at applied index and config state will satisfy any of the
-- 
2.43.0


From a10c0862895f29c2f398652226572008f1853de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:26 +0000
Subject: [PATCH 51/54] fix: ignore misrouted messages before they affect
 sessions

A message addressed to another replica was answered in that replica's name.
---
 runtime/src/communication.rs | 40 ++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index ab335bf..188932a 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -236,25 +236,39 @@ impl CommunicationModule for DefaultCommunicationModule {
     ) -> Result<Option<in_message::Msg>, PalError> {
         self.check_initialized()?;
 
-        let peer_replica_id = match &message {
-            in_message::Msg::SecureChannelHandshake(secure_channel_handshake) => {
-                secure_channel_handshake.sender_replica_id
-            }
-            in_message::Msg::DeliverSystemMessage(deliver_system_message) => {
-                deliver_system_message.sender_replica_id
-            }
-            in_message::Msg::DeliverSnapshotRequest(deliver_snapshot_request) => {
-                deliver_snapshot_request.sender_replica_id
-            }
-            in_message::Msg::DeliverSnapshotResponse(deliver_snapshot_response) => {
-                deliver_snapshot_response.sender_replica_id
-            }
+        let (peer_replica_id, recipient_replica_id) = match &message {
+            in_message::Msg::SecureChannelHandshake(secure_channel_handshake) => (
+                secure_channel_handshake.sender_replica_id,
+                secure_channel_handshake.recipient_replica_id,
+            ),
+            in_message::Msg::DeliverSystemMessage(deliver_system_message) => (
+                deliver_system_message.sender_replica_id,
+                deliver_system_message.recipient_replica_id,
+            ),
+            in_message::Msg::DeliverSnapshotRequest(deliver_snapshot_request) => (
+                deliver_snapshot_request.sender_replica_id,
+                deliver_snapshot_request.recipient_replica_id,
+            ),
+            in_message::Msg::DeliverSnapshotResponse(deliver_snapshot_response) => (
+                deliver_snapshot_response.sender_replica_id,
+                deliver_snapshot_response.recipient_replica_id,
+            ),
             _ => {
                 warn!(self.logger, "Message type {:?} is not supported.", message);
                 return Err(PalError::InvalidOperation);
             }
         };
 
+        if recipient_replica_id != self.replica_id || peer_replica_id == self.replica_id {
+            warn!(
+                self.logger,
+                "Ignoring incorrectly routed message from replica {} to replica {}",
+                peer_replica_id,
+                recipient_replica_id
+            );
+            return Ok(None);
+        }
+
         // We need to store references in local variables below to avoid immutably borrowing "self"
         // in the closure passed to "or_insert_with". "self" is mutably borrowed in
         // "self.replicas.entry(...)" so it cannot be immutably borrowed in the closure again.
-- 
2.43.0


From daf74ea7ed88810bdd2be40566baaa2c6a57258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:57 +0000
Subject: [PATCH 52/54] fix: keep a message if the handshake can't be initiated

---
 runtime/src/communication.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 188932a..6fc5856 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -562,9 +562,10 @@ impl CommunicationState {
                 return Err(err);
             }
             HandshakeState::Initialized => {
-                self.initiate_handshake()?;
+                // Buffer the message even if the handshake can't be initiated so that it can be
+                // retried later.
                 self.push_or_replace_unencrypted_message(message);
-                Ok(())
+                self.initiate_handshake()
             }
             HandshakeState::Initiated(_) | HandshakeState::Completed => {
                 self.push_or_replace_unencrypted_message(message);
-- 
2.43.0


From eb3be937c17e49a1f27d7437148d35124aec1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 53/54] fix: don't ignore the handshake requests of a peer time
 and again

---
 runtime/src/communication.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 6fc5856..ac85698 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -279,14 +279,17 @@ impl CommunicationModule for DefaultCommunicationModule {
 
         if replica_state.is_initiator() && is_initiator_request(&message) {
             // Both replicas have initiated a handshake. The one with the smaller id gives way, as
-            // otherwise they may fail each other's attempts time and again.
-            if self.replica_id > peer_replica_id {
+            // otherwise they may fail each other's attempts time and again. The other one gives
+            // way the next time, as its own request must have been lost.
+            if self.replica_id > peer_replica_id && !replica_state.ignored_initiator_request {
+                replica_state.ignored_initiator_request = true;
                 info!(
                     self.logger,
                     "Ignoring handshake initiated by replica {}", peer_replica_id
                 );
                 return Ok(None);
             }
+            replica_state.ignored_initiator_request = false;
             replica_state.reset_state_machine();
         }
 
@@ -415,6 +418,8 @@ pub struct CommunicationState {
     peer_assumes_completed: bool,
     // Set if this side has initiated the current handshake.
     initiator: bool,
+    // Set if a handshake initiated by the peer was ignored and none has completed since.
+    ignored_initiator_request: bool,
 }
 
 #[derive(PartialEq)]
@@ -446,6 +451,7 @@ impl CommunicationState {
             handshake_initiated_tick_timeout,
             peer_assumes_completed: false,
             initiator: false,
+            ignored_initiator_request: false,
         }
     }
 
@@ -616,6 +622,7 @@ impl CommunicationState {
                             let handshake_session = self.handshake_session.take();
                             self.encryptor = handshake_session.unwrap().get_encryptor();
                             self.handshake_state = HandshakeState::Completed;
+                            self.ignored_initiator_request = false;
                         } else if self.handshake_state == HandshakeState::Initialized {
                             self.handshake_state = HandshakeState::Initiated(0);
                         }
-- 
2.43.0


From 0a490e3de53ab8317883c0ac36ec1dddfaf9a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 54/54] fix: keep serving endpoint calls after a caller has
 gone away

---
 runtime/src/service.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/src/service.rs b/runtime/src/service.rs
index 912dda8..4460142 100644
--- a/runtime/src/service.rs
+++ b/runtime/src/service.rs
@@ -191,10 +191,11 @@ impl TonicApplicationService {
             driver
                 .receive_message(&mut host, request.instant, request.message)
                 .expect("application has encountered an unrecoverable error");
-            tx.send(Ok(ReceiveMessageResponse {
+            // The caller may have gone away, e.g. if the call was cancelled or timed out. Other
+            // callers must still be served.
+            let _ = tx.send(Ok(ReceiveMessageResponse {
                 messages: host.take_messages(),
-            }))
-            .expect("failed to send receive_message response");
+            }));
         }
     }
 
-- 
2.43.0

