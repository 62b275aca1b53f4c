From c16cfe2a0a97d9f5ab396d549ce6bd59a08158c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 01/61] fix: DocumentCodec::TruncateKeyForTs(string_view)
 aborted on valid keys shorter than 88 bytes

---
 src/document/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document/codec.cc b/src/document/codec.cc
index 0f604a6..c911d58 100644
--- a/src/document/codec.cc
+++ b/src/document/codec.cc
@@ -271,7 +271,7 @@ int64_t DocumentCodec::TruncateKeyForTs(const std::string& encode_key_with_ts) {
 }
 
 int64_t DocumentCodec::TruncateKeyForTs(const std::string_view& encode_key_with_ts) {
-  CHECK(encode_key_with_ts.size() >= 88) << fmt::format("Key({}) is invalid.", Helper::StringToHex(encode_key_with_ts));
+  CHECK(encode_key_with_ts.size() >= 8) << fmt::format("Key({}) is invalid.", Helper::StringToHex(encode_key_with_ts));
 
   auto ts_str = encode_key_with_ts.substr(encode_key_with_ts.size() - 8, encode_key_with_ts.size());
 
-- 
2.43.0


From a385bae416e7ccf571549089d6736b89b856e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 02/61] fix: mvcc GetValueTTL parsed the binary ttl as text and
 aborted on empty user values

---
 src/mvcc/codec.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index fbf7074..c523f66 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -367,17 +367,17 @@ ValueFlag Codec::GetValueFlag(const std::string_view& pkg_value) {
 }
 
 int64_t Codec::GetValueTTL(const std::string& pkg_value) {
-  CHECK(pkg_value.size() > 9) << "Value length is invalid.";
+  CHECK(pkg_value.size() >= 9) << "Value length is invalid.";
 
   uint8_t flag = static_cast<uint8_t>(pkg_value.back());
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
 
   auto ttl_str = pkg_value.substr(pkg_value.size() - 9, pkg_value.size() - 1);
-  return Helper::StringToInt64(ttl_str);
+  return SerialHelper::ReadLong(ttl_str);
 }
 
 int64_t Codec::GetValueTTL(const std::string_view& pkg_value) {
-  CHECK(pkg_value.size() > 9) << "Value length is invalid.";
+  CHECK(pkg_value.size() >= 9) << "Value length is invalid.";
 
   uint8_t flag = static_cast<uint8_t>(pkg_value.back());
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
-- 
2.43.0


From 19ac07321b543dff0859e850ad9776aaca276684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 03/61] fix: mvcc DecodeBytes accepted trailing bytes after the
 last group and threw on bad markers

---
 src/mvcc/codec.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index c523f66..c6b9642 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -78,7 +78,7 @@ bool Codec::DecodeBytes(const std::string& encode_key, std::string& output) {
 }
 
 bool Codec::DecodeBytes(const std::string_view& encode_key, std::string& output) {
-  if (encode_key.length() % kPadGroupSize != 0 || encode_key.back() == '\xff') {
+  if (encode_key.empty() || encode_key.length() % kPadGroupSize != 0 || encode_key.back() == '\xff') {
     return false;
   }
 
@@ -91,6 +91,10 @@ bool Codec::DecodeBytes(const std::string_view& encode_key, std::string& output)
     uint8_t marker = encode_key.at(i + 8);
 
     int pad_count = kMarker - marker;
+    // only the last group carries padding, and it pads at most a whole group
+    if (pad_count > kGroupSize || (pad_count != 0 && i + kPadGroupSize != encode_key.size())) {
+      return false;
+    }
     for (int j = 0; j < kGroupSize - pad_count; ++j) {
       output.push_back(encode_key.at(i++));
     }
-- 
2.43.0


From 2b4124eaf338815ec60f4e2dd841eb11fb07c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 04/61] fix: Helper::IsContinuous truncated ids to 32 bits

---
 src/common/helper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/helper.cc b/src/common/helper.cc
index 414b71c..35911e5 100644
--- a/src/common/helper.cc
+++ b/src/common/helper.cc
@@ -1786,7 +1786,7 @@ bool Helper::IsContinuous(const std::set<int64_t>& numbers) {
   }
 
   auto it = numbers.begin();
-  int previous = *it;
+  int64_t previous = *it;
   ++it;
 
   for (; it != numbers.end(); ++it) {
-- 
2.43.0


From b91c2281ca0d702c87ba4cdd8682c3a914c9b467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:21 +0000
Subject: [PATCH 05/61] fix: mono store engine deletes the encoded key range

---
 src/engine/mono_store_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/mono_store_engine.cc b/src/engine/mono_store_engine.cc
index 75153e6..7a84e03 100644
--- a/src/engine/mono_store_engine.cc
+++ b/src/engine/mono_store_engine.cc
@@ -420,7 +420,7 @@ butil::Status MonoStoreEngine::Writer::KvDelete(std::shared_ptr<Context> ctx, co
 butil::Status MonoStoreEngine::Writer::KvDeleteRange(std::shared_ptr<Context> ctx, const pb::common::Range& range) {
   auto encode_range = mvcc::Codec::EncodeRange(range);
 
-  return mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), range));
+  return mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), encode_range));
 }
 
 butil::Status MonoStoreEngine::Writer::KvPutIfAbsent(std::shared_ptr<Context> ctx,
-- 
2.43.0


From f4fb33d0719b806c8201d7fa52c3a8f34ae986eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 06/61] fix: mono store engine put honours the expiry time

---
 src/engine/mono_store_engine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/mono_store_engine.cc b/src/engine/mono_store_engine.cc
index 7a84e03..56338f5 100644
--- a/src/engine/mono_store_engine.cc
+++ b/src/engine/mono_store_engine.cc
@@ -369,7 +369,8 @@ butil::Status MonoStoreEngine::Writer::KvPut(std::shared_ptr<Context> ctx,
     return butil::Status(pb::error::ETSO_NOT_AVAILABLE, "TSO not available");
   }
 
-  auto encode_kvs = mvcc::Codec::EncodeKeyValuesWithPut(ts, kvs);
+  auto encode_kvs = ctx->Ttl() == 0 ? mvcc::Codec::EncodeKeyValuesWithPut(ts, kvs)
+                                    : mvcc::Codec::EncodeKeyValuesWithTTL(ts, ctx->Ttl(), kvs);
   auto status = mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), encode_kvs, ts));
   if (!status.ok()) {
     return status;
-- 
2.43.0


From 9b0b7b7ebd7cde2105bb986aa92324e0afda1164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 07/61] fix: a pessimistic prewrite that finds no lock of its
 own checks for a newer or its own commit

---
 src/engine/txn_engine_helper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index c8de756..4fc3a90 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3093,7 +3093,8 @@ butil::Status TxnEngineHelper::Prewrite(
           << ", write_info: " << write_info.ShortDebugString();
 
       if (commit_ts >= start_ts) {
-        if (!need_check_pessimistic_lock) {
+        // without its pessimistic lock nothing protects the key since the lock phase, so the check has to be done here
+        if (!need_check_pessimistic_lock || prev_lock_info.primary_lock().empty()) {
           pb::store::WriteInfo prev_write_info;
           int64_t prev_commit_ts = 0;
           bool find_record = false;
-- 
2.43.0


From 080eb511dc7f31e50f40ade97d71174c96c2ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:08 +0000
Subject: [PATCH 08/61] fix: a rollback record no longer replaces a commit
 record with the same timestamp

---
 src/engine/txn_engine_helper.cc | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 4fc3a90..b0d0a1a 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4073,8 +4073,21 @@ butil::Status TxnEngineHelper::BatchRollback(RawEnginePtr raw_engine, std::share
 
 bvar::LatencyRecorder g_txn_do_rollback_latency("dingo_txn_do_rollback");
 
+// A transaction may commit at a ts which is the start_ts of another one (async commit, 1pc). Its commit record must not
+// be replaced by the rollback record of the latter: the commit record already makes a prewrite at start_ts conflict.
+static bool IsCommitRecordAt(RawEnginePtr raw_engine, const std::string &write_key) {
+  std::string value;
+  auto status = raw_engine->Reader()->KvGet(Constant::kTxnWriteCF, write_key, value);
+  if (!status.ok()) {
+    return false;
+  }
+
+  pb::store::WriteInfo write_info;
+  return write_info.ParseFromString(value) && write_info.op() != pb::store::Op::Rollback;
+}
+
 // DoRollback
-butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shared_ptr<Engine> raft_engine,
+butil::Status TxnEngineHelper::DoRollback(RawEnginePtr raw_engine, std::shared_ptr<Engine> raft_engine,
                                           std::shared_ptr<Context> ctx,
                                           std::vector<std::string> &keys_to_rollback_with_data,
                                           std::vector<std::string> &keys_to_rollback_without_data,
@@ -4108,7 +4121,9 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
     pb::common::KeyValue kv;
     kv.set_key(mvcc::Codec::EncodeKey(key, start_ts));
     kv.set_value(write_info.SerializeAsString());
-    kv_puts_write.emplace_back(kv);
+    if (!IsCommitRecordAt(raw_engine, kv.key())) {
+      kv_puts_write.emplace_back(kv);
+    }
   }
 
   for (const auto &key : keys_to_rollback_with_data) {
@@ -4126,7 +4141,9 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
     pb::common::KeyValue kv;
     kv.set_key(mvcc::Codec::EncodeKey(key, start_ts));
     kv.set_value(write_info.SerializeAsString());
-    kv_puts_write.emplace_back(kv);
+    if (!IsCommitRecordAt(raw_engine, kv.key())) {
+      kv_puts_write.emplace_back(kv);
+    }
   }
 
   for (const auto &key : keys_miss_lock_to_rollback) {
@@ -4138,7 +4155,9 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
     pb::common::KeyValue kv;
     kv.set_key(mvcc::Codec::EncodeKey(key, start_ts));
     kv.set_value(write_info.SerializeAsString());
-    kv_puts_write.emplace_back(kv);
+    if (!IsCommitRecordAt(raw_engine, kv.key())) {
+      kv_puts_write.emplace_back(kv);
+    }
   }
 
   if (kv_puts_write.empty() && kv_deletes_lock.empty() && kv_deletes_data.empty()) {
@@ -4187,7 +4206,7 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
 }
 
 // MarkRollBackOnMissingLock
-butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr /*raw_engine*/,
+butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr raw_engine,
                                                          std::shared_ptr<Engine> raft_engine,
                                                          std::shared_ptr<Context> ctx, std::string primary_key,
                                                          int64_t start_ts) {
@@ -4204,6 +4223,9 @@ butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr /*raw_engi
   pb::common::KeyValue kv_put;
   kv_put.set_key(mvcc::Codec::EncodeKey(primary_key, start_ts));
   kv_put.set_value(write_info.SerializeAsString());
+  if (IsCommitRecordAt(raw_engine, kv_put.key())) {
+    return butil::Status::OK();
+  }
 
   // after all mutations is processed, write into raft engine
   pb::raft::TxnRaftRequest txn_raft_request;
-- 
2.43.0


From f2f827592fdbce153b69416a0513fc4f7f23ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:41 +0000
Subject: [PATCH 09/61] fix: async commit and 1pc of a pessimistic transaction
 commit after the for_update_ts of its locks

---
 src/engine/txn_engine_helper.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index b0d0a1a..305cf51 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3202,6 +3202,8 @@ butil::Status TxnEngineHelper::Prewrite(
 
     std::string lock_extra_data = lock_extra_datas.find(i) != lock_extra_datas.end() ? lock_extra_datas.at(i) : "";
     int64_t for_update_ts = for_update_ts_checks.find(i) != for_update_ts_checks.end() ? for_update_ts_checks.at(i) : 0;
+    // an async commit or 1pc must commit after the for_update_ts of the pessimistic lock
+    for_update_ts = std::max(for_update_ts, static_cast<int64_t>(prev_lock_info.for_update_ts()));
     int64_t temp_min_commit_ts = 0;
     // 3.1 write data and lock
     auto ret3 = GenPrewriteDataAndLock(region, mutation, prev_lock_info, write_info, primary_lock, start_ts,
-- 
2.43.0


From 15aaf00830283dadd6df65a163569cb4d7647d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:41 +0000
Subject: [PATCH 10/61] fix: a repeated pessimistic lock request returns the
 locked value, not the value at start_ts

---
 src/engine/txn_engine_helper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 305cf51..daaa327 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1769,7 +1769,7 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
 
           if (return_values) {
             pb::store::WriteInfo write_info;
-            auto ret2 = txn_reader.GetOldValue(mutation.key(), start_ts, false, write_info, kvs);
+            auto ret2 = txn_reader.GetOldValue(mutation.key(), for_update_ts, false, write_info, kvs);
             if (!ret2.ok()) {
               // Now we need to fatal exit to prevent data inconsistency between raft peers
               DINGO_LOG(ERROR) << fmt::format("[txn][region({})] PessimisticLock, start_ts: {}", ctx->RegionId(),
@@ -1803,7 +1803,7 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
 
           if (return_values) {
             pb::store::WriteInfo write_info;
-            auto ret3 = txn_reader.GetOldValue(mutation.key(), start_ts, false, write_info, kvs);
+            auto ret3 = txn_reader.GetOldValue(mutation.key(), for_update_ts, false, write_info, kvs);
             if (!ret3.ok()) {
               // Now we need to fatal exit to prevent data inconsistency between raft peers
               DINGO_LOG(ERROR) << fmt::format("[txn][region({})] PessimisticLock, start_ts: {}", ctx->RegionId(),
-- 
2.43.0


From 3a689ce69b699aa6d5583d338dd40de021d71cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 11/61] fix: a repeated prewrite of an async commit transaction
 answers with the min_commit_ts of its locks

---
 src/engine/txn_engine_helper.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index daaa327..77af948 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3196,7 +3196,12 @@ butil::Status TxnEngineHelper::Prewrite(
           << prev_lock_info.ShortDebugString() << ", mutation: " << mutation.ShortDebugString();
       // if enable 1pc need to fallback to 2pc
       try_one_pc = false;
-      use_async_commit = false;
+      // the lock on disk stays an async commit lock, so the answer has to be the one of the first prewrite
+      if (use_async_commit && prev_lock_info.use_async_commit()) {
+        final_min_commit_ts = std::max(final_min_commit_ts, static_cast<int64_t>(prev_lock_info.min_commit_ts()));
+      } else {
+        use_async_commit = false;
+      }
       continue;
     }
 
-- 
2.43.0


From 54eb8572c7a9d6349f3ebe7cdcf4a8bce3f4f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 12/61] fix: committing does not raise the access timestamp of
 a region beyond the timestamps handed out

---
 src/server/store_service.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/server/store_service.cc b/src/server/store_service.cc
index d0c43a4..9fc34eb 100644
--- a/src/server/store_service.cc
+++ b/src/server/store_service.cc
@@ -2350,7 +2350,6 @@ void DoTxnCommit(StoragePtr storage, google::protobuf::RpcController* controller
 
   auto region = done->GetRegion();
   int64_t region_id = request->context().region_id();
-  region->SetTxnAccessMaxTs(request->commit_ts());
   auto status = ValidateTxnCommitRequest(request, region);
   if (BAIDU_UNLIKELY(!status.ok())) {
     ServiceHelper::SetError(response->mutable_error(), status.error_code(), status.error_str());
@@ -2678,7 +2677,6 @@ void DoTxnResolveLock(StoragePtr storage, google::protobuf::RpcController* contr
 
   auto region = done->GetRegion();
   int64_t region_id = request->context().region_id();
-  region->SetTxnAccessMaxTs(request->commit_ts());
   auto status = ValidateTxnResolveLockRequest(request, region);
   if (BAIDU_UNLIKELY(!status.ok())) {
     ServiceHelper::SetError(response->mutable_error(), status.error_code(), status.error_str());
-- 
2.43.0


From cf88da1f99af01c271177cf28e47949040a1e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:34 +0000
Subject: [PATCH 13/61] fix: async commit and 1pc respect max_commit_ts when
 the lock already carries a larger min_commit_ts

---
 src/engine/txn_engine_helper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 77af948..e156cee 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -2190,7 +2190,7 @@ int64_t TxnEngineHelper::GenFinalMinCommitTs(store::RegionPtr region, pb::store:
   int64_t region_max_ts = region->TxnAccessMaxTs();
   int64_t min_commit_ts = std::max({region_max_ts, start_ts, for_update_ts}) + 1;
   int64_t final_min_commit_ts = std::max(min_commit_ts, lock_info.min_commit_ts());
-  final_min_commit_ts = (max_commit_ts != 0 && min_commit_ts > max_commit_ts) ? 0 : final_min_commit_ts;
+  final_min_commit_ts = (max_commit_ts != 0 && final_min_commit_ts > max_commit_ts) ? 0 : final_min_commit_ts;
 
   if (final_min_commit_ts > 0) {
     lock_info.set_min_commit_ts(final_min_commit_ts);
-- 
2.43.0


From e2da4943cb3579b8037d6a21f0c9e03245df474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 14/61] fix: pushing min_commit_ts moves it past the start_ts
 of the caller

---
 src/engine/txn_engine_helper.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index e156cee..d2a511e 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3796,8 +3796,10 @@ butil::Status TxnEngineHelper::CheckTxnStatus(RawEnginePtr raw_engine, std::shar
 
       // check if we need to update the min_commit_ts
       // for valid lock, we can update min_commit_ts to reduce read-write conflict.
-      if (lock_info.min_commit_ts() < caller_start_ts) {
-        lock_info.set_min_commit_ts(caller_start_ts);
+      // the txn has to commit after caller_start_ts, or the caller which goes on reading would miss it
+      const int64_t pushed_min_commit_ts = std::min(caller_start_ts, Constant::kMaxVer - 1) + 1;
+      if (lock_info.min_commit_ts() < pushed_min_commit_ts) {
+        lock_info.set_min_commit_ts(pushed_min_commit_ts);
 
         auto ret = DoUpdateLock(raft_engine, ctx, lock_info);
         if (!ret.ok()) {
-- 
2.43.0


From 64aa9d2358556cc3819ef1ca3adb9e144753bc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:43 +0000
Subject: [PATCH 15/61] fix: a delayed pessimistic lock request neither
 replaces a prewritten lock nor locks a key its transaction has committed

---
 src/engine/txn_engine_helper.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index d2a511e..feac184 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1759,6 +1759,13 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
         // return lock_info
         *response->add_txn_result()->mutable_locked() = lock_info;
         continue;
+      } else if (lock_info.lock_ts() == start_ts && lock_info.lock_type() != pb::store::Op::Lock) {
+        // already prewritten, a delayed lock request must not turn the lock back into a pessimistic one
+        DINGO_LOG(WARNING) << fmt::format("[txn][region({})] PessimisticLock,", ctx->RegionId())
+                           << ", key: " << Helper::StringToHex(mutation.key())
+                           << " is already prewritten, lock_info: " << lock_info.ShortDebugString();
+        *response->add_txn_result()->mutable_locked() = lock_info;
+        continue;
       } else if (lock_info.lock_ts() == start_ts) {
         if (lock_info.for_update_ts() == for_update_ts) {
           // this is same pessimistic lock request, just do nothing.
@@ -1866,7 +1873,20 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
         error->set_errmsg(ret4.error_str());
         return ret4;
       }
-      if (commit_ts >= for_update_ts) {
+      // a delayed lock request of a transaction which has already been committed must not lock the key again
+      bool is_committed = false;
+      if (commit_ts >= start_ts) {
+        pb::store::WriteInfo prev_write_info;
+        int64_t prev_commit_ts = 0;
+        auto status =
+            txn_reader.CheckCommittedRecord(start_ts, mutation.key(), prev_write_info, prev_commit_ts, is_committed);
+        if (!status.ok()) {
+          error->set_errcode(static_cast<pb::error::Errno>(status.error_code()));
+          error->set_errmsg(status.error_str());
+          return status;
+        }
+      }
+      if (commit_ts >= for_update_ts || is_committed) {
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_detail)
             << "find this transaction is committed,return  WriteConflict with for_update_ts: " << for_update_ts
             << ", start_ts: " << start_ts << ", commit_ts: " << commit_ts
-- 
2.43.0


From d61c10747f68928a56b7025ef25323070dfbd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:35 +0000
Subject: [PATCH 16/61] fix: the next page of a lock scan continues behind the
 last returned lock

---
 src/engine/txn_engine_helper.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index feac184..efb7bd0 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1209,6 +1209,8 @@ butil::Status TxnEngineHelper::ScanLockInfo(StreamPtr stream, RawEnginePtr engin
           "max_scan_memory_size: {}.",
           stream->StreamId(), has_more, lock_infos.size(), limit, FLAGS_stream_message_max_limit_size, bytes,
           FLAGS_stream_message_max_bytes);
+      // the next page continues behind the last returned lock
+      iter->Next();
       break;
     }
 
-- 
2.43.0


From 6e297100c5169e05946b2a65ed2286a470fd6c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:47 +0000
Subject: [PATCH 17/61] fix: reading at the largest timestamp no longer
 exhausts the commit timestamps of a region

---
 src/meta/store_meta_manager.h | 3 +++
 src/server/store_service.cc   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meta/store_meta_manager.h b/src/meta/store_meta_manager.h
index 5d8548b..7b7ef83 100644
--- a/src/meta/store_meta_manager.h
+++ b/src/meta/store_meta_manager.h
@@ -186,6 +186,9 @@ class Region {
   int64_t RawAppliedMaxTs() { return raw_applied_max_ts_.load(std::memory_order_acquire); }
 
   void SetTxnAccessMaxTs(int64_t ts) {
+    // the largest timestamp asks for the latest data, it is not a snapshot that later commits have to stay behind
+    if (ts == INT64_MAX) return;
+
     do {
       int64_t access_max_ts = txn_access_max_ts_.load(std::memory_order_acquire);
       if (ts <= access_max_ts) break;
diff --git a/src/server/store_service.cc b/src/server/store_service.cc
index 9fc34eb..0560843 100644
--- a/src/server/store_service.cc
+++ b/src/server/store_service.cc
@@ -2464,7 +2464,7 @@ void DoTxnCheckTxnStatus(StoragePtr storage, google::protobuf::RpcController* co
   int64_t region_id = request->context().region_id();
   int64_t new_max_ts = request->lock_ts();
 
-  if (request->caller_start_ts() > new_max_ts) {
+  if (request->caller_start_ts() > new_max_ts && request->caller_start_ts() != INT64_MAX) {
     new_max_ts = request->caller_start_ts();
   }
 
-- 
2.43.0


From 2c84afc1f6de296abb17e5309771526e9f53985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:07 +0000
Subject: [PATCH 18/61] fix: the priority worker set orders tasks by priority,
 not by address

---
 src/common/runnable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/runnable.h b/src/common/runnable.h
index f6a2690..aeedeaf 100644
--- a/src/common/runnable.h
+++ b/src/common/runnable.h
@@ -67,7 +67,7 @@ using TaskRunnablePtr = std::shared_ptr<TaskRunnable>;
 
 // Custom Comparator for priority_queue
 struct CompareTaskRunnable {
-  bool operator()(const TaskRunnablePtr& lhs, TaskRunnablePtr& rhs) const { return lhs.get() < rhs.get(); }
+  bool operator()(const TaskRunnablePtr& lhs, const TaskRunnablePtr& rhs) const { return *lhs < *rhs; }
 };
 
 int ExecuteRoutine(void*, bthread::TaskIterator<TaskRunnablePtr>& iter);
-- 
2.43.0


From ae0d6be948307329b346d0a8821dd15a6fbae76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:20 +0000
Subject: [PATCH 19/61] fix: execution queue workers count a task before it can
 finish, so the pending count no longer drops below zero and rejects tasks

---
 src/common/runnable.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/common/runnable.cc b/src/common/runnable.cc
index 47276d8..9ca5547 100644
--- a/src/common/runnable.cc
+++ b/src/common/runnable.cc
@@ -101,7 +101,7 @@ void Worker::Destroy() {
 
 bool Worker::Execute(TaskRunnablePtr task) {
   if (BAIDU_UNLIKELY(task == nullptr)) {
-    DINGO_LOG(ERROR) << fmt::format("[execqueue][type({})] task is nullptr.", task->Type());
+    DINGO_LOG(ERROR) << "[execqueue] task is nullptr.";
     return false;
   }
 
@@ -111,14 +111,16 @@ bool Worker::Execute(TaskRunnablePtr task) {
   }
 
   AppendPendingTaskTrace(task->Id(), task->Trace());
+  // count before queueing, the task may finish before execution_queue_execute returns
+  IncPendingTaskCount();
 
   if (BAIDU_UNLIKELY(bthread::execution_queue_execute(queue_id_, task) != 0)) {
     DINGO_LOG(ERROR) << fmt::format("[execqueue][type({})] worker execution queue execute failed", task->Type());
     PopPendingTaskTrace(task->Id());
+    DecPendingTaskCount();
     return false;
   }
 
-  IncPendingTaskCount();
   IncTotalTaskCount();
 
   Notify(WorkerEventType::kAddTask);
@@ -207,10 +209,13 @@ bool ExecqWorkerSet::ExecuteRR(TaskRunnablePtr task) {
     return false;
   }
 
+  // count before queueing, the task may finish before Execute returns
+  IncPendingTaskCount();
   auto ret = workers_[active_worker_id_.fetch_add(1) % WorkerNum()]->Execute(task);
   if (ret) {
-    IncPendingTaskCount();
     IncTotalTaskCount();
+  } else {
+    DecPendingTaskCount();
   }
 
   return ret;
@@ -226,10 +231,13 @@ bool ExecqWorkerSet::ExecuteLeastQueue(TaskRunnablePtr task) {
     return false;
   }
 
+  // count before queueing, the task may finish before Execute returns
+  IncPendingTaskCount();
   auto ret = workers_[LeastPendingTaskWorker()]->Execute(task);
   if (ret) {
-    IncPendingTaskCount();
     IncTotalTaskCount();
+  } else {
+    DecPendingTaskCount();
   }
 
   return ret;
@@ -245,10 +253,13 @@ bool ExecqWorkerSet::ExecuteHashByRegionId(int64_t region_id, TaskRunnablePtr ta
     return false;
   }
 
+  // count before queueing, the task may finish before Execute returns
+  IncPendingTaskCount();
   auto ret = workers_[region_id % WorkerNum()]->Execute(task);
   if (ret) {
-    IncPendingTaskCount();
     IncTotalTaskCount();
+  } else {
+    DecPendingTaskCount();
   }
 
   return ret;
-- 
2.43.0


From 61e7bb5b90897816e1a27ad6655df4bb89628b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:36 +0000
Subject: [PATCH 20/61] fix: stopping thread pool workers cannot miss the
 notification

---
 src/common/threadpool.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/common/threadpool.cc b/src/common/threadpool.cc
index 1fdb758..f3353f4 100644
--- a/src/common/threadpool.cc
+++ b/src/common/threadpool.cc
@@ -192,8 +192,12 @@ void ThreadPool::ShrinkThreadPool(uint32_t pool_size) {
 
   workers_.resize(pool_size);
 
-  for (auto &worker : shrink_workers) {
-    worker->is_stop = true;
+  {
+    // under the mutex of the condition, else a worker that is about to wait misses the notification
+    std::unique_lock<std::mutex> task_lock(task_mutex_);
+    for (auto &worker : shrink_workers) {
+      worker->is_stop = true;
+    }
   }
 
   task_condition_.notify_all();
@@ -262,8 +266,12 @@ void ThreadPool::Destroy() {
   {
     std::unique_lock<std::mutex> lock(mutex_);
 
-    for (auto &worker : workers_) {
-      worker->is_stop = true;
+    {
+      // under the mutex of the condition, else a worker that is about to wait misses the notification
+      std::unique_lock<std::mutex> task_lock(task_mutex_);
+      for (auto &worker : workers_) {
+        worker->is_stop = true;
+      }
     }
 
     task_condition_.notify_all();
-- 
2.43.0


From 8d237189a4bb2ea6e5bfc41569c474f1b6716a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:46 +0000
Subject: [PATCH 21/61] fix: every action of a failpoint configuration is
 parsed, not the first one repeatedly

---
 src/common/failpoint.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/failpoint.cc b/src/common/failpoint.cc
index 36e0967..8a0c20b 100644
--- a/src/common/failpoint.cc
+++ b/src/common/failpoint.cc
@@ -118,11 +118,11 @@ bool FailPoint::Init() {
   }
 
   for (int i = 0; i < tokens.size(); i += 4) {
-    uint32_t percent = tokens[0].empty() ? 100 : std::stoi(tokens[0]);
+    uint32_t percent = tokens[i].empty() ? 100 : std::stoi(tokens[i]);
     percent = percent <= 100 ? percent : 100;
-    uint32_t max_count = tokens[1].empty() ? 0 : std::stoi(tokens[1]);
-    std::string type = tokens[2];
-    std::string arg = tokens[3];
+    uint32_t max_count = tokens[i + 1].empty() ? 0 : std::stoi(tokens[i + 1]);
+    std::string type = tokens[i + 2];
+    std::string arg = tokens[i + 3];
 
     DINGO_LOG(DEBUG) << fmt::format("Failpoint action[{}] percent[{}] max_count[{}] arg[{}]", type, percent, max_count,
                                     arg);
-- 
2.43.0


From f580254b39537ded1f50321e0eadb4fe9660be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:34 +0000
Subject: [PATCH 22/61] fix: the end of a generated auto increment range is
 computed in 64 bits

---
 src/coordinator/auto_increment_control.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index e0550f3..db1c3b0 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -403,7 +403,7 @@ int64_t AutoIncrementControl::GetGenerateEndId(int64_t start_id, uint32_t count,
   }
 
   int64_t real_start_id = GetRealStartId(start_id, increment, offset);
-  return real_start_id + count * increment;
+  return real_start_id + static_cast<int64_t>(count) * increment;
 }
 
 int64_t AutoIncrementControl::GetRealStartId(int64_t start_id, uint32_t auto_increment_increment,
-- 
2.43.0


From 127d1a6c98517ccb416166811b67fc1ab613726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:54 +0000
Subject: [PATCH 23/61] fix: a late create request does not reset an existing
 auto increment counter

---
 src/coordinator/auto_increment_control.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index db1c3b0..73b2480 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -345,6 +345,16 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
     if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
       DINGO_LOG(INFO) << "create auto increment, table id: " << table_id
                       << ", start id: " << auto_increment.increment().start_id();
+      int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
+      if (start_id_ptr != nullptr) {
+        // a concurrent request created it first, its counter may have advanced already
+        DINGO_LOG(WARNING) << "for create, table id: " << table_id << " is exist, start id: " << *start_id_ptr;
+        if (is_leader && response != nullptr && *start_id_ptr != auto_increment.increment().start_id()) {
+          Helper::SetPbMessageError(butil::Status(pb::error::Errno::EAUTO_INCREMENT_EXIST, "auto increment exist"),
+                                    response);
+        }
+        continue;
+      }
       auto_increment_map_[table_id] = auto_increment.increment().start_id();
     } else if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
       int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
-- 
2.43.0


From c5cba57010e8edbd3e5873de2bba5d74e977e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:54 +0000
Subject: [PATCH 24/61] fix: generating from a counter deleted meanwhile is
 answered with an error

---
 src/coordinator/auto_increment_control.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index 73b2480..05540d0 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -360,6 +360,10 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
       int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
       if (start_id_ptr == nullptr) {
         DINGO_LOG(WARNING) << "for update, cannot find table id: " << table_id;
+        if (is_leader && response != nullptr) {
+          Helper::SetPbMessageError(
+              butil::Status(pb::error::Errno::EAUTO_INCREMENT_NOT_FOUND, "auto increment not found"), response);
+        }
         continue;
       }
 
-- 
2.43.0


From 5787fc989b7b4649da49ead27e59a47533a0f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:54 +0000
Subject: [PATCH 25/61] fix: a late auto increment update does not move the
 counter back

---
 src/coordinator/auto_increment_control.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index 05540d0..a833c3a 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -388,6 +388,11 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
         if (source_start_id != auto_increment.increment().source_start_id()) {
           DINGO_LOG(WARNING) << "start id compare not equal: " << source_start_id << " | "
                              << auto_increment.increment().source_start_id();
+          // the update was meant to move the counter forward, but a concurrent request moved it further
+          if (auto_increment.increment().start_id() > auto_increment.increment().source_start_id() &&
+              auto_increment.increment().start_id() < source_start_id) {
+            continue;
+          }
         }
         auto_increment_map_[table_id] = auto_increment.increment().start_id();
         DINGO_LOG(INFO) << "update auto increment, table id: " << table_id
-- 
2.43.0


From 250ff43a7e4dad4aebaea0d3fb0bce10ce17b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:17 +0000
Subject: [PATCH 26/61] fix: updating or resetting the timestamp oracle no
 longer aborts the coordinator

---
 src/coordinator/tso_control.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 729645f..f9318e9 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -553,15 +553,15 @@ butil::Status TsoControl::SubmitMetaIncrementSync(google::protobuf::Closure* don
     ctx->SetResponse(response);
   }
 
-  if (done != nullptr) {
-    ctx->SetDone(done);
-  }
+  // a synchronous write does not take a closure, it is run here once the write is over
+  brpc::ClosureGuard done_guard(done);
 
   auto status = engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), meta_increment));
   if (!status.ok()) {
     DINGO_LOG(ERROR) << "ApplyMetaIncrement failed, errno=" << status.error_code() << " errmsg=" << status.error_str();
-    if (done != nullptr) {
-      brpc::ClosureGuard fail_done(done);
+    if (response != nullptr) {
+      response->mutable_error()->set_errcode(static_cast<pb::error::Errno>(status.error_code()));
+      response->mutable_error()->set_errmsg(status.error_str());
     }
     return status;
   }
-- 
2.43.0


From 53210d8e1e1c0df42fb5f72a9ca85176a837d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:17 +0000
Subject: [PATCH 27/61] fix: a request for a negative number of timestamps is
 refused

---
 src/coordinator/tso_control.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index f9318e9..cc38104 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -137,7 +137,7 @@ int TsoControl::SyncTimestamp(const pb::meta::TsoTimestamp& current_timestamp, i
 void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoResponse* response) {
   int64_t count = request->count();
   response->set_op_type(request->op_type());
-  if (count == 0) {
+  if (count <= 0) {
     response->mutable_error()->set_errcode(pb::error::Errno::EILLEGAL_PARAMTETERS);
     response->mutable_error()->set_errmsg("tso count should be positive");
     return;
-- 
2.43.0


From 9ad0d18e95c7cc31574ed7563d9a1190a8d5068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:17 +0000
Subject: [PATCH 28/61] fix: a new timestamp oracle leader does not serve
 timestamps of the previous one, nor moves backwards within a physical time

---
 src/coordinator/tso_control.cc | 52 +++++++++++++++++++++++++++++-----
 src/coordinator/tso_control.h  |  4 +++
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index cc38104..704f488 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -68,8 +68,10 @@ void TsoControl::UpdateTimestamp() {
   int64_t prev_physical = 0;
   int64_t prev_logical = 0;
   int64_t last_save = 0;
+  bool is_synced = false;
   {
     BAIDU_SCOPED_LOCK(tso_mutex_);
+    is_synced = is_synced_;
     prev_physical = tso_obj_.current_timestamp.physical();
     prev_logical = tso_obj_.current_timestamp.logical();
     last_save = tso_obj_.last_save_physical;
@@ -79,7 +81,12 @@ void TsoControl::UpdateTimestamp() {
     DINGO_LOG(WARNING) << "physical time slow now: " << now << ", prev: " << prev_physical;
   }
   int64_t next = now;
-  if (delta > kUpdateTimestampGuardMs) {
+  if (!is_synced) {
+    // the sync of leader start failed, start above everything the previous leader may have used
+    if (now < last_save + kUpdateTimestampIntervalMs) {
+      next = last_save + kUpdateTimestampGuardMs;
+    }
+  } else if (delta > kUpdateTimestampGuardMs) {
     next = now;
   } else if (prev_logical > kMaxLogical / 2) {
     next = prev_physical + kUpdateTimestampGuardMs;
@@ -154,7 +161,7 @@ void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoRespon
     {
       BAIDU_SCOPED_LOCK(tso_mutex_);
       int64_t physical = tso_obj_.current_timestamp.physical();
-      if (physical != 0) {
+      if (physical != 0 && is_synced_) {
         int64_t new_logical = tso_obj_.current_timestamp.logical() + count;
         if (new_logical < kMaxLogical) {
           current = tso_obj_.current_timestamp;
@@ -165,7 +172,7 @@ void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoRespon
           need_retry = true;
         }
       } else {
-        DINGO_LOG(WARNING) << "timestamp not ok physical == 0, retry later";
+        DINGO_LOG(WARNING) << "timestamp not ok physical == 0 or not synced, retry later";
         need_retry = true;
       }
     }
@@ -226,6 +233,17 @@ void TsoControl::Process(google::protobuf::RpcController* controller, const pb::
     GenTso(request, response);
     return;
   }
+  bool is_synced = false;
+  {
+    BAIDU_SCOPED_LOCK(tso_mutex_);
+    is_synced = is_synced_;
+  }
+  if (!is_synced && !request->force()) {
+    response->mutable_error()->set_errcode(pb::error::Errno::ERETRY_LATER);
+    response->mutable_error()->set_errmsg("timestamp not synced, retry later");
+    response->set_op_type(request->op_type());
+    return;
+  }
   butil::IOBuf data;
   butil::IOBufAsZeroCopyOutputStream wrapper(&data);
   if (!request->SerializeToZeroCopyStream(&wrapper)) {
@@ -250,7 +268,7 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
   if (request.has_current_timestamp() && request.save_physical() > 0) {
     int64_t physical = request.save_physical();
     const pb::meta::TsoTimestamp& current = request.current_timestamp();
-    if (physical < tso_obj_.last_save_physical || current.physical() < tso_obj_.current_timestamp.physical()) {
+    if (physical < tso_obj_.last_save_physical || !IsForward(current)) {
       if (!request.force()) {
         DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
                            << ") current:(" << current.physical() << ", " << tso_obj_.current_timestamp.physical()
@@ -272,6 +290,7 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
       BAIDU_SCOPED_LOCK(tso_mutex_);
       tso_obj_.last_save_physical = physical;
       tso_obj_.current_timestamp = current;
+      is_synced_ = is_synced_ || response != nullptr;
     }
     if (response) {
       response->set_save_physical(physical);
@@ -283,11 +302,18 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
   }
 }
 
+bool TsoControl::IsForward(const pb::meta::TsoTimestamp& timestamp) {
+  BAIDU_SCOPED_LOCK(tso_mutex_);
+  const auto& current = tso_obj_.current_timestamp;
+  return timestamp.physical() > current.physical() ||
+         (timestamp.physical() == current.physical() && timestamp.logical() > current.logical());
+}
+
 void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoResponse* response) {
   int64_t physical = request.save_physical();
   const pb::meta::TsoTimestamp& current = request.current_timestamp();
   // can't rollback
-  if (physical < tso_obj_.last_save_physical || current.physical() < tso_obj_.current_timestamp.physical()) {
+  if (physical < tso_obj_.last_save_physical || !IsForward(current)) {
     DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
                        << ") current:(" << current.physical() << ", " << tso_obj_.current_timestamp.physical() << ", "
                        << current.logical() << ", " << tso_obj_.current_timestamp.logical() << ")";
@@ -301,6 +327,7 @@ void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoRes
     BAIDU_SCOPED_LOCK(tso_mutex_);
     tso_obj_.last_save_physical = physical;
     tso_obj_.current_timestamp = current;
+    is_synced_ = is_synced_ || response != nullptr;
   }
 
   if (response) {
@@ -375,7 +402,14 @@ void TsoControl::GetServerLocation(pb::common::Location& raft_location, pb::comm
 
 bool TsoControl::IsLeader() { return leader_term_.load(butil::memory_order_acquire) > 0; }
 
-void TsoControl::SetLeaderTerm(int64_t term) { leader_term_.store(term, butil::memory_order_release); }
+void TsoControl::SetLeaderTerm(int64_t term) {
+  {
+    // the replicated timestamp was in use by the previous leader, do not serve it before this leader synced its own
+    BAIDU_SCOPED_LOCK(tso_mutex_);
+    is_synced_ = false;
+  }
+  leader_term_.store(term, butil::memory_order_release);
+}
 
 void TsoControl::OnLeaderStart(int64_t term) {
   DINGO_LOG(INFO) << "OnLeaderStart_TSO, term=" << term;
@@ -390,7 +424,11 @@ void TsoControl::OnLeaderStart(int64_t term) {
     current.set_physical(last_save + kUpdateTimestampGuardMs);
   }
   last_save = current.physical() + kSaveIntervalMs;
-  auto func = [this, last_save, current]() {
+  auto func = [this, term, last_save, current]() {
+    if (leader_term_.load(butil::memory_order_acquire) != term) {
+      LOG(INFO) << "leader_start of term " << term << " is out of date";
+      return;
+    }
     LOG(INFO) << "leader_start current(phy:" << current.physical() << ",log:" << current.logical()
               << ") save:" << last_save;
     int ret = SyncTimestamp(current, last_save);
diff --git a/src/coordinator/tso_control.h b/src/coordinator/tso_control.h
index 27a4415..559e58d 100644
--- a/src/coordinator/tso_control.h
+++ b/src/coordinator/tso_control.h
@@ -174,11 +174,15 @@ class TsoControl : public MetaControl {
   void UpdateTimestamp();
   void OnApply(braft::Iterator &iter);
 
+  // timestamp is larger than the current timestamp
+  bool IsForward(const pb::meta::TsoTimestamp &timestamp);
+
  private:
   TsoTimer tso_update_timer_;
   TsoObj tso_obj_;
   bthread_mutex_t tso_mutex_;  // for tso_obj_
   bool is_healty_ = true;
+  bool is_synced_ = false;     // this leader has synced its own timestamp, under tso_mutex_
 
   // node is leader or not
   butil::atomic<int64_t> leader_term_;
-- 
2.43.0


From d492748a87bc918dbeb2c104c26a0d91a2a197e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:17 +0000
Subject: [PATCH 29/61] fix: the timestamp oracle recovers after the sync of a
 leader start was lost

---
 src/coordinator/tso_control.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 704f488..b522e39 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -102,7 +102,9 @@ void TsoControl::UpdateTimestamp() {
   pb::meta::TsoTimestamp tp;
   tp.set_physical(next);
   tp.set_logical(0);
-  SyncTimestamp(tp, save);
+  if (SyncTimestamp(tp, save) == 0) {
+    is_healty_ = true;
+  }
 }
 
 int TsoControl::SyncTimestamp(const pb::meta::TsoTimestamp& current_timestamp, int64_t save_physical) {
@@ -435,8 +437,10 @@ void TsoControl::OnLeaderStart(int64_t term) {
     if (ret < 0) {
       LOG(INFO) << "sync timestamp failed";
       is_healty_ = false;
+    } else {
+      is_healty_ = true;
+      LOG(INFO) << "sync timestamp ok";
     }
-    LOG(INFO) << "sync timestamp ok";
     tso_update_timer_.start();
   };
   Bthread bth;
-- 
2.43.0


From 0b0d785a909e4d0cfa8b2e20280074f3445a8108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:57 +0000
Subject: [PATCH 30/61] fix: a version kv put with ignore_value keeps the value
 of the key

---
 src/coordinator/kv_control_kv.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 0530faa..88c9150 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -471,13 +471,10 @@ butil::Status KvControl::KvPut(const pb::common::KeyValue &key_value_in, int64_t
   kv_index_meta_increment->set_event_type(pb::coordinator_internal::KvIndexEventType::KV_INDEX_EVENT_TYPE_PUT);
   kv_index_meta_increment->set_ignore_lease(ignore_lease);
   kv_index_meta_increment->set_lease_id(lease_grant_id);
+  kv_index_meta_increment->set_ignore_value(ignore_value);
   if (!ignore_value) {
-    kv_index_meta_increment->set_ignore_value(ignore_value);
     kv_index_meta_increment->set_value(key_value_in.value());
   }
-  if (!ignore_lease) {
-    kv_index_meta_increment->set_ignore_lease(ignore_lease);
-  }
 
   return butil::Status::OK();
 }
-- 
2.43.0


From b3df115d421db388440a6644d46553df6bfdde88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 31/61] fix: the periodic version kv compaction no longer skips
 every 51st key

---
 src/coordinator/kv_control_kv.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 88c9150..b00fffd 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -915,9 +915,8 @@ void KvControl::CompactionTask() {
   // do compaction for each key
   std::vector<std::string> keys_to_compact;
   for (const auto &key : keys) {
-    if (keys_to_compact.size() < 50) {
-      keys_to_compact.push_back(key);
-    } else {
+    keys_to_compact.push_back(key);
+    if (keys_to_compact.size() >= 50) {
       auto ret = KvCompact(keys_to_compact, compact_revision);
       if (!ret.ok()) {
         DINGO_LOG(ERROR) << "KvCompact failed, error: " << ret.error_str() << ", keys size: " << keys_to_compact.size();
-- 
2.43.0


From bb480fa4a316aea1a1d8371f30a046e12fbe9fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 32/61] fix: deleting several keys of one lease detaches all of
 them

---
 src/coordinator/kv_control_kv.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index b00fffd..ce3236b 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -528,9 +528,7 @@ butil::Status KvControl::KvDeleteRange(const std::string &key, const std::string
     }
 
     // prepare for lease remove
-    std::set<std::string> keys;
-    keys.insert(kv_to_delete.kv().key());
-    keys_to_remove_lease.insert_or_assign(kv_to_delete.lease(), keys);
+    keys_to_remove_lease[kv_to_delete.lease()].insert(kv_to_delete.kv().key());
 
     if (need_lease_remove_keys) {
       DINGO_LOG(INFO) << "KvDelete will remove lease for key: " << kv_to_delete.kv().key() << "("
-- 
2.43.0


From d5e6a11f82eb495f018325c90ddaee8f08a091e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 33/61] fix: watch events carry the version of the previous
 value, not of the new one

---
 src/coordinator/kv_control_kv.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index ce3236b..f1897dc 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -614,17 +614,17 @@ butil::Status KvControl::KvPutApply(const std::string &key,
       // auto &latest_generation = *kv_index.mutable_generations()->rbegin();
       auto *latest_generation = kv_index.mutable_generations(kv_index.generations_size() - 1);
       if (latest_generation->has_create_revision()) {
+        // only in this situation, the prev_kv is meaningful
+        prev_kv.set_create_revision(latest_generation->create_revision().main());
+        prev_kv.set_mod_revision(kv_index.mod_revision().main());
+        prev_kv.set_version(latest_generation->verison());
+
         *(latest_generation->add_revisions()) = op_revision;
         latest_generation->set_verison(latest_generation->verison() + 1);
 
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
             << "KvPutApply latest_generation add revsion: " << latest_generation->ShortDebugString() << ", key: " << key
             << "(" << Helper::StringToHex(key) << ")";
-
-        // only in this situation, the prev_kv is meaningful
-        prev_kv.set_create_revision(latest_generation->create_revision().main());
-        prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
       } else {
         latest_generation->mutable_create_revision()->set_main(op_revision.main());
         latest_generation->mutable_create_revision()->set_sub(op_revision.sub());
@@ -778,6 +778,11 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
       // auto &latest_generation = *kv_index.mutable_generations()->rbegin();
       auto *latest_generation = kv_index.mutable_generations(kv_index.generations_size() - 1);
       if (latest_generation->has_create_revision()) {
+        // only in this situation, the prev_kv is meaningful
+        prev_kv.set_create_revision(latest_generation->create_revision().main());
+        prev_kv.set_mod_revision(kv_index.mod_revision().main());
+        prev_kv.set_version(latest_generation->verison());
+
         // add a the delete revision to latest generation
         *(latest_generation->add_revisions()) = op_revision;
         latest_generation->set_verison(latest_generation->verison() + 1);
@@ -787,11 +792,6 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
             << "KvDeleteApply kv_index add null generation[1]: " << generation->ShortDebugString() << ", key: " << key
             << "(" << Helper::StringToHex(key) << ")";
-
-        // only in this situation, the prev_kv is meaningful
-        prev_kv.set_create_revision(latest_generation->create_revision().main());
-        prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
       } else {
         // a null generation means delete
         // so we do not need to add a new generation
-- 
2.43.0


From 081fc3df4413584e8924b38ea259a027e63c6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 34/61] fix: a version kv range with count_only returns the
 count

---
 src/coordinator/kv_control_kv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index f1897dc..8121e29 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -286,7 +286,7 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
     kv.push_back(kv_temp);
   }
 
-  return_count = kv.size();
+  return_count = count_only ? std::min<int64_t>(limit_count, limit) : kv.size();
 
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvRange finish, key: " << key << "(" << Helper::StringToHex(key) << "), range_end: " << range_end << "("
-- 
2.43.0


From f9bf413b840011c88efd7692820234cccea2e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 35/61] fix: a version kv entry applied again after a crash has
 no second effect

---
 src/coordinator/kv_control_kv.cc | 46 +++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 8121e29..af9a858 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -593,6 +593,11 @@ butil::Status KvControl::KvPutApply(const std::string &key,
     DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
         << "KvPutApply GetRawKvIndex not found, will create new kv_index: key: " << key << "("
         << Helper::StringToHex(key) << "), kv_index generation: " << generation->ShortDebugString();
+  } else if (kv_index.mod_revision().main() == op_revision.main() &&
+             kv_index.mod_revision().sub() == op_revision.sub()) {
+    DINGO_LOG(WARNING) << "KvPutApply already applied before restart, skip, key: " << key << "("
+                       << Helper::StringToHex(key) << "), op_revision: " << op_revision.ShortDebugString();
+    return butil::Status::OK();
   } else {
     DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
         << "KvPutApply GetRawKvIndex found, will update key: " << key << "(" << Helper::StringToHex(key)
@@ -761,6 +766,11 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
         << "KvDeleteApply GetRawKvIndex not found, no need to delete: " << key << "(" << Helper::StringToHex(key)
         << "), error: " << ret.error_str();
     return butil::Status::OK();
+  } else if (kv_index.mod_revision().main() == op_revision.main() &&
+             kv_index.mod_revision().sub() == op_revision.sub()) {
+    DINGO_LOG(WARNING) << "KvDeleteApply already applied before restart, skip, key: " << key << "("
+                       << Helper::StringToHex(key) << "), op_revision: " << op_revision.ShortDebugString();
+    return butil::Status::OK();
   } else {
     DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
         << "KvDeleteApply GetRawKvIndex found, will delete key: " << key << "(" << Helper::StringToHex(key)
@@ -835,12 +845,6 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
 
   // do real write to state machine
   // CAUTION: When deleting kv, we must do PutRawKvRev before put RawKvIndex
-  ret = PutRawKvIndex(key, kv_index);
-  if (!ret.ok()) {
-    DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
-                     << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
-  }
-
   ret = PutRawKvRev(op_revision, kv_rev);
   if (!ret.ok()) {
     DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvRev failed, revision: " << op_revision.ShortDebugString()
@@ -849,6 +853,12 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
     return ret;
   }
 
+  ret = PutRawKvIndex(key, kv_index);
+  if (!ret.ok()) {
+    DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
+                     << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
+  }
+
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvDeleteApply success, key: " << key << "(" << Helper::StringToHex(key)
       << "), revision: " << op_revision.ShortDebugString();
@@ -1071,6 +1081,18 @@ butil::Status KvControl::KvCompactApply(const std::string &key,
     }
   }
 
+  // delete revisions in kv_rev
+  for (const auto &kv_revision : revisions_to_delete) {
+    pb::coordinator_internal::KvRevInternal kv_rev;
+    kv_rev.set_id(RevisionToString(kv_revision));
+
+    DINGO_LOG(INFO) << "KvCompactApply delete kv_rev, kv_revision: " << kv_revision.ShortDebugString()
+                    << ", key: " << key << "(" << Helper::StringToHex(key)
+                    << "), kv_rev: " << kv_rev.ShortDebugString();
+
+    DeleteRawKvRev(kv_revision);
+  }
+
   // if new_kv_index has no generations, delete it
   // else put new_kv_index
   if (new_kv_index.generations_size() == 0) {
@@ -1085,18 +1107,6 @@ butil::Status KvControl::KvCompactApply(const std::string &key,
     PutRawKvIndex(key, new_kv_index);
   }
 
-  // delete revisions in kv_rev
-  for (const auto &kv_revision : revisions_to_delete) {
-    pb::coordinator_internal::KvRevInternal kv_rev;
-    kv_rev.set_id(RevisionToString(kv_revision));
-
-    DINGO_LOG(INFO) << "KvCompactApply delete kv_rev, kv_revision: " << kv_revision.ShortDebugString()
-                    << ", key: " << key << "(" << Helper::StringToHex(key)
-                    << "), kv_rev: " << kv_rev.ShortDebugString();
-
-    DeleteRawKvRev(kv_revision);
-  }
-
   return butil::Status::OK();
 }
 
-- 
2.43.0


From 456c8101b51771b6932c3785013f1fc17ffb6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 36/61] fix: a new leader does not revoke leases with the key
 map of an old term

---
 src/coordinator/kv_control_lease.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/coordinator/kv_control_lease.cc b/src/coordinator/kv_control_lease.cc
index 5492594..857f91d 100644
--- a/src/coordinator/kv_control_lease.cc
+++ b/src/coordinator/kv_control_lease.cc
@@ -162,6 +162,14 @@ butil::Status KvControl::LeaseRenew(int64_t lease_id, int64_t &ttl_seconds,
 
 butil::Status KvControl::LeaseRevoke(int64_t lease_id, pb::coordinator_internal::MetaIncrement &meta_increment,
                                      bool has_mutex_locked) {
+  if (!IsLeaseToKeyMapInited()) {
+    DINGO_LOG(WARNING) << "lease_to_key_map_ not initialized, please wait and try again, term: "
+                       << lease_to_key_map_init_term_.load(butil::memory_order_acquire)
+                       << ", leader_term: " << leader_term_.load(butil::memory_order_acquire);
+    return butil::Status(pb::error::Errno::ERAFT_NOTLEADER,
+                         "lease_to_key_map_ not initialized, please wait and try again");
+  }
+
   pb::coordinator_internal::LeaseInternal lease;
   if (!has_mutex_locked) {
     bthread_mutex_lock(&lease_to_key_map_mutex_);
-- 
2.43.0


From 35c0bc62705ddc70d08d215b823580324ade89d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 37/61] fix: revoking a lease leaves keys alone that are not
 attached to it

---
 src/coordinator/kv_control_lease.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/coordinator/kv_control_lease.cc b/src/coordinator/kv_control_lease.cc
index 857f91d..056c739 100644
--- a/src/coordinator/kv_control_lease.cc
+++ b/src/coordinator/kv_control_lease.cc
@@ -211,6 +211,14 @@ butil::Status KvControl::LeaseRevoke(int64_t lease_id, pb::coordinator_internal:
     for (const auto &key : lease_with_keys.keys) {
       std::vector<pb::version::Kv> prev_kvs;
       int64_t deleted_count = 0;
+      bool has_more = false;
+      KvRange(key, std::string(), 1, true, false, prev_kvs, deleted_count, has_more);
+      if (prev_kvs.empty() || prev_kvs[0].lease() != lease_id) {
+        DINGO_LOG(INFO) << "lease id " << lease_id << " is no longer the lease of key: " << key;
+        continue;
+      }
+      prev_kvs.clear();
+
       auto ret_status = KvDeleteRange(key, std::string(), false, false, deleted_count, prev_kvs, meta_increment);
       if (!ret_status.ok()) {
         DINGO_LOG(ERROR) << "DeleteRawKv failed, key: " << key;
-- 
2.43.0


From e8eb2c428d83ae8ca3a13f315b4d3d2743da6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 38/61] fix: a renewal that is applied after the lease was
 revoked does not bring the lease back

---
 src/coordinator/kv_control_fsm.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 1cfce1b..b6a719f 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -371,7 +371,8 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
         }
 
       } else if (version_lease.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
-        auto ret = kv_lease_meta_->Put(version_lease.id(), version_lease.lease());
+        // a lease revoked meanwhile stays revoked
+        auto ret = kv_lease_meta_->PutIfExists(version_lease.id(), version_lease.lease());
         if (!ret.ok()) {
           DINGO_LOG(FATAL) << "ApplyMetaIncrement version_lease UPDATE, [id=" << version_lease.id()
                            << "] failed, set errcode=" << ret.error_code() << ", error_str=" << ret.error_str();
-- 
2.43.0


From 3256286f1bc5350acbde3f6456a7093543c58ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 39/61] fix: a watch that filters out every event is refused
 instead of waiting forever

---
 src/server/version_service.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/version_service.cc b/src/server/version_service.cc
index c3d8380..29ef7ef 100644
--- a/src/server/version_service.cc
+++ b/src/server/version_service.cc
@@ -700,6 +700,7 @@ void DoWatch(google::protobuf::RpcController* controller, const pb::version::Wat
     DINGO_LOG(ERROR) << "Watch failed: no put event and no delete event";
     response->mutable_error()->set_errcode(pb::error::Errno::EILLEGAL_PARAMTETERS);
     response->mutable_error()->set_errmsg("no put event and no delete event");
+    return;
   }
 
   kv_control->OneTimeWatch(one_time_req.key(), one_time_req.start_revision(), no_put_event, no_delete_event,
-- 
2.43.0


From 1f3b30c971c9c796ea8d5bdc8804f168dd5e3c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 40/61] fix: an answered watch is removed from the closure map

---
 src/coordinator/kv_control_watch.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordinator/kv_control_watch.cc b/src/coordinator/kv_control_watch.cc
index 95a2171..80ab670 100644
--- a/src/coordinator/kv_control_watch.cc
+++ b/src/coordinator/kv_control_watch.cc
@@ -193,6 +193,8 @@ butil::Status KvControl::RemoveOneTimeWatchWithLock(uint64_t closure_id) {
     one_time_watch_map_.erase(it_watch_key);
   }
 
+  one_time_watch_closure_map_.erase(it_defer_done);
+
   return butil::Status::OK();
 }
 
-- 
2.43.0


From ccaaaf7f4edc249d6a4345b6466eb72675eddd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 41/61] fix: applying version kv entries does not read the
 watch map without its lock

---
 src/coordinator/kv_control_kv.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index af9a858..e1d0c3d 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -717,10 +717,8 @@ butil::Status KvControl::KvPutApply(const std::string &key,
       << "), kv_index: " << kv_index.ShortDebugString();
 
   // trigger watch
-  if (!one_time_watch_map_.empty()) {
-    DINGO_LOG(INFO) << "KvPutApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
-
+  // TriggerOneWatch looks at the watches under their lock
+  {
     if (prev_kv.create_revision() > 0) {
       prev_kv.set_lease(kv_rev_last.kv().lease());
       prev_kv.mutable_kv()->set_key(key);
@@ -864,10 +862,8 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
       << "), revision: " << op_revision.ShortDebugString();
 
   // trigger watch
-  if (!one_time_watch_map_.empty()) {
-    DINGO_LOG(INFO) << "KvDeleteApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
-
+  // TriggerOneWatch looks at the watches under their lock
+  {
     if (prev_kv.create_revision() > 0) {
       prev_kv.set_lease(kv_rev_last.kv().lease());
       prev_kv.mutable_kv()->set_key(key);
-- 
2.43.0


From a9306c9944182dcfed2386afd2b982fe1808b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 42/61] fix: installing a snapshot without ids keeps the
 initial ids of version kv

---
 src/coordinator/kv_control_fsm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index b6a719f..746f7c9 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -188,6 +188,7 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
     if (!id_epoch_meta_->Recover(kvs)) {
       return false;
     }
+    InitIds();
 
     // remove data in rocksdb
     if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
-- 
2.43.0


From 96942ae67862971468b8a8178810221f3a4d5cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:55 +0000
Subject: [PATCH 43/61] fix: a late version kv entry does not move the
 persisted ids back

---
 src/coordinator/kv_control_fsm.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 746f7c9..d4a8983 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -540,6 +540,17 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
   raft_apply_index.set_id(pb::coordinator::IdEpochType::RAFT_APPLY_INDEX);
   raft_apply_index.set_value(index);
 
+  // ids are allocated before they are proposed, so entries may arrive with a smaller id than the persisted one
+  auto persisted_id = [this](const pb::coordinator_internal::IdEpochInternal& id_epoch) -> int64_t {
+    pb::common::KeyValue kv;
+    pb::coordinator_internal::IdEpochInternal persisted;
+    if (!meta_reader_->Get(id_epoch_meta_->TransformToKvValue(id_epoch).key(), kv).ok() ||
+        !persisted.ParseFromString(kv.value())) {
+      return 0;
+    }
+    return persisted.value();
+  };
+
   for (int i = 0; i < meta_increment.idepochs_size(); i++) {
     const auto& idepoch = meta_increment.idepochs(i);
     if (idepoch.op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
@@ -548,7 +559,9 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
         DINGO_LOG(INFO) << "ApplyMetaIncrement idepoch CREATE, success [id="
                         << pb::coordinator::IdEpochType_Name(idepoch.id()) << "]"
                         << " value=" << idepoch.idepoch().value();
-        meta_write_to_kv.push_back(id_epoch_meta_->TransformToKvValue(idepoch.idepoch()));
+        if (idepoch.idepoch().value() >= persisted_id(idepoch.idepoch())) {
+          meta_write_to_kv.push_back(id_epoch_meta_->TransformToKvValue(idepoch.idepoch()));
+        }
       } else {
         DINGO_LOG(WARNING) << "ApplyMetaIncrement idepoch CREATE, but UpdatePresentId failed, [id="
                            << pb::coordinator::IdEpochType_Name(idepoch.id()) << "]"
@@ -560,7 +573,9 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
         DINGO_LOG(INFO) << "ApplyMetaIncrement idepoch UPDATE, success [id="
                         << pb::coordinator::IdEpochType_Name(idepoch.id()) << "]"
                         << " value=" << idepoch.idepoch().value();
-        meta_write_to_kv.push_back(id_epoch_meta_->TransformToKvValue(idepoch.idepoch()));
+        if (idepoch.idepoch().value() >= persisted_id(idepoch.idepoch())) {
+          meta_write_to_kv.push_back(id_epoch_meta_->TransformToKvValue(idepoch.idepoch()));
+        }
       } else {
         DINGO_LOG(INFO) << "ApplyMetaIncrement idepoch UPDATE, but UpdatePresentId skip, [id="
                         << pb::coordinator::IdEpochType_Name(idepoch.id()) << "]"
-- 
2.43.0


From 96e9344e52c444b8f316176a7f09b1e5a625e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:55 +0000
Subject: [PATCH 44/61] fix: a put that raced with a delete of its key stays
 attached to its lease

---
 src/server/version_service.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/version_service.cc b/src/server/version_service.cc
index 29ef7ef..21796cf 100644
--- a/src/server/version_service.cc
+++ b/src/server/version_service.cc
@@ -535,6 +535,12 @@ void DoKvPut(google::protobuf::RpcController* controller, const pb::version::Put
     return;
   }
 
+  // a delete validated while this put was in flight may have detached the key from its lease
+  if (lease_grant_id != 0 && response->error().errcode() == pb::error::Errno::OK) {
+    std::set<std::string> keys{request->key_value().key()};
+    kv_control->LeaseAddKeys(lease_grant_id, keys);
+  }
+
   if (request->need_prev_kv()) {
     *(response->mutable_prev_kv()) = prev_kv;
   }
-- 
2.43.0


From e6ab3bca726a1f72c708d06089b21b98cffb515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:20 +0000
Subject: [PATCH 45/61] fix: garbage collection keeps the version that reads at
 the safe point see when newer versions exist

---
 src/engine/txn_engine_helper.cc | 75 +++++++++------------------------
 1 file changed, 21 insertions(+), 54 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index efb7bd0..7204505 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4942,8 +4942,6 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
   write_iter->Seek(write_iter_options.lower_bound);
 
-  // this var is too long. this is important var. do not cut down it.
-  bool is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = false;
   // this var is too long. this is important var. do not cut down it.
   bool is_first_put_key_if_write_ts_le_safe_point_ts = true;
 
@@ -4980,7 +4978,6 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
     // reset for first put
     if (last_write_key != write_key) {
-      is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = false;
       last_write_key = write_key;
       is_first_put_key_if_write_ts_le_safe_point_ts = true;
     }
@@ -4996,11 +4993,6 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
     // write_ts > safe_point_ts key value
     if (write_ts > safe_point_ts) {
-      if (!is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts) {
-        if (pb::store::Op::Put == op || pb::store::Op::Delete == op) {
-          is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = true;
-        }
-      }
       write_iter->Next();
       continue;
     }
@@ -5009,15 +5001,13 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
     switch (op) {
       case pb::store::Put: {
         // caution!!!
-        // if write_ts > safe_point_ts. not exist delete or put key.
-        // if write_ts <= safe_point_ts. first is put key. this first put key can not be delete !!!
-        if (!is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts) {
-          if (is_first_put_key_if_write_ts_le_safe_point_ts) {
-            // others put key can be delete. clear this flag.
-            is_first_put_key_if_write_ts_le_safe_point_ts = false;
-            write_iter->Next();
-            continue;
-          }
+        // if write_ts <= safe_point_ts. first is put key. this first put key can not be delete, whether or not newer
+        // versions exist: a read between safe_point_ts and the newer version still needs it !!!
+        if (is_first_put_key_if_write_ts_le_safe_point_ts) {
+          // others put key can be delete. clear this flag.
+          is_first_put_key_if_write_ts_le_safe_point_ts = false;
+          write_iter->Next();
+          continue;
         }
         kv_deletes_write.emplace_back(write_iter_key);
         if (write_info.short_value().empty()) {
@@ -5051,13 +5041,8 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
       }
       case pb::store::Delete: {
         // caution!!!
-        // if write_ts > safe_point_ts. not exist delete or put key.
         // if write_ts <= safe_point_ts. first is delete key. this first put key actually can be delete.
-        if (!is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts) {
-          if (is_first_put_key_if_write_ts_le_safe_point_ts) {
-            is_first_put_key_if_write_ts_le_safe_point_ts = false;
-          }
-        }
+        is_first_put_key_if_write_ts_le_safe_point_ts = false;
         kv_deletes_write.emplace_back(write_iter_key);
         break;
       }
@@ -5218,8 +5203,6 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
 
   default_iter->Seek(default_iter_options.lower_bound);
 
-  // this var is too long. this is important var. do not cut down it.
-  bool is_exist_default_key_if_ts_gt_safe_point_ts = false;
   // this var is too long. this is important var. do not cut down it.
   bool is_first_put_key_if_ts_le_safe_point_ts = true;
 
@@ -5296,13 +5279,7 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
 
     if (last_default_key != default_key) {
       last_default_key = default_key;
-      is_exist_default_key_if_ts_gt_safe_point_ts = false;
       is_first_put_key_if_ts_le_safe_point_ts = true;
-
-      if (default_ts > safe_point_ts) {
-        is_exist_default_key_if_ts_gt_safe_point_ts = true;
-        is_first_put_key_if_ts_le_safe_point_ts = false;
-      }
     }
 
     if (default_ts > safe_point_ts) {
@@ -5313,13 +5290,11 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
     mvcc::ValueFlag value_flag = mvcc::Codec::GetValueFlag(default_iter_value);
     switch (value_flag) {
       case mvcc::ValueFlag::kPut: {
-        if (!is_exist_default_key_if_ts_gt_safe_point_ts) {
-          if (is_first_put_key_if_ts_le_safe_point_ts) {
-            is_first_put_key_if_ts_le_safe_point_ts = false;
-            is_exist_default_key_if_ts_gt_safe_point_ts = true;
-            default_iter->Next();
-            continue;
-          }
+        // the newest version at or below safe_point_ts stays, whether or not newer versions exist.
+        if (is_first_put_key_if_ts_le_safe_point_ts) {
+          is_first_put_key_if_ts_le_safe_point_ts = false;
+          default_iter->Next();
+          continue;
         }
 
         lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
@@ -5327,16 +5302,13 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
       }
       case mvcc::ValueFlag::kPutTTL: {
         // note: The first occurrence of the expired key has been deleted.
-        if (!is_exist_default_key_if_ts_gt_safe_point_ts) {
-          if (is_first_put_key_if_ts_le_safe_point_ts) {
-            is_first_put_key_if_ts_le_safe_point_ts = false;
-            is_exist_default_key_if_ts_gt_safe_point_ts = true;
-            int64_t ttl = mvcc::Codec::GetValueTTL(default_iter_value);
-            if (start_time_ms <= ttl) {
-              // ttl not expired
-              default_iter->Next();
-              continue;
-            }
+        if (is_first_put_key_if_ts_le_safe_point_ts) {
+          is_first_put_key_if_ts_le_safe_point_ts = false;
+          int64_t ttl = mvcc::Codec::GetValueTTL(default_iter_value);
+          if (start_time_ms <= ttl) {
+            // ttl not expired
+            default_iter->Next();
+            continue;
           }
         }
         lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
@@ -5344,12 +5316,7 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
       }
 
       case mvcc::ValueFlag::kDelete: {
-        if (!is_exist_default_key_if_ts_gt_safe_point_ts) {
-          if (is_first_put_key_if_ts_le_safe_point_ts) {
-            is_first_put_key_if_ts_le_safe_point_ts = false;
-            is_exist_default_key_if_ts_gt_safe_point_ts = true;
-          }
-        }
+        is_first_put_key_if_ts_le_safe_point_ts = false;
         lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
         break;
       }
-- 
2.43.0


From 73cd76351308b75fedd452d79cb609b15d86c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:33 +0000
Subject: [PATCH 46/61] fix: garbage collection removes a delete record after
 the versions it hides, and stops at a refused batch

---
 src/engine/txn_engine_helper.cc | 104 +++++++++++++++++++++++++-------
 1 file changed, 82 insertions(+), 22 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 7204505..0aa80b3 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4948,6 +4948,10 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
   std::string write_key;
   std::string last_write_key;
 
+  // the newest delete record at or below safe_point_ts hides the older versions of its key, it is deleted after them.
+  std::string last_delete_record;
+  butil::Status status;
+
   while (write_iter->Valid()) {
     total_iter_count++;
     std::string_view write_iter_key = write_iter->Key();
@@ -4978,6 +4982,10 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
     // reset for first put
     if (last_write_key != write_key) {
+      if (!last_delete_record.empty()) {
+        kv_deletes_write.emplace_back(std::move(last_delete_record));
+        last_delete_record.clear();
+      }
       last_write_key = write_key;
       is_first_put_key_if_write_ts_le_safe_point_ts = true;
     }
@@ -5041,9 +5049,14 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
       }
       case pb::store::Delete: {
         // caution!!!
-        // if write_ts <= safe_point_ts. first is delete key. this first put key actually can be delete.
-        is_first_put_key_if_write_ts_le_safe_point_ts = false;
-        kv_deletes_write.emplace_back(write_iter_key);
+        // if write_ts <= safe_point_ts. first is delete key. this first put key actually can be delete, but not before
+        // the older versions it hides.
+        if (is_first_put_key_if_write_ts_le_safe_point_ts) {
+          is_first_put_key_if_write_ts_le_safe_point_ts = false;
+          last_delete_record = write_iter_key;
+        } else {
+          kv_deletes_write.emplace_back(write_iter_key);
+        }
         break;
       }
 
@@ -5092,16 +5105,28 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
       }
 
       total_delete_count += (kv_deletes_lock.size() + kv_deletes_write.size() + kv_deletes_data.size());
-      DoFinalWorkForTxnGc(raft_engine, ctx, reader, snapshot, write_key, gc_safe_point->GetTenantId(), type,
-                          safe_point_ts, kv_deletes_lock, kv_deletes_data, kv_deletes_write, lock_start_key,
-                          lock_end_key, last_lock_start_key, last_lock_end_key);
+      status = DoFinalWorkForTxnGc(raft_engine, ctx, reader, snapshot, write_key, gc_safe_point->GetTenantId(), type,
+                                   safe_point_ts, kv_deletes_lock, kv_deletes_data, kv_deletes_write, lock_start_key,
+                                   lock_end_key, last_lock_start_key, last_lock_end_key);
+      if (!status.ok()) {
+        // later batches must not be written without this one.
+        goto _interrupt1;
+      }
     }
     write_iter->Next();
   }
 
+  if (!last_delete_record.empty()) {
+    kv_deletes_write.emplace_back(std::move(last_delete_record));
+  }
+
 _interrupt1:
 
   auto [internal_gc_stop, internal_safe_point_ts] = gc_safe_point->GetGcFlagAndSafePointTs();
+  if (!status.ok()) {
+    goto _interrupt2;
+  }
+
   if (internal_gc_stop) {
     DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_gc_detail)
         << fmt::format("[txn_gc][tenant({})][region({})][type({})][txn] set internal_gc_stop stop, return",
@@ -5118,9 +5143,9 @@ _interrupt1:
   }
 
   total_delete_count += (kv_deletes_lock.size() + kv_deletes_write.size() + kv_deletes_data.size());
-  DoFinalWorkForTxnGc(raft_engine, ctx, reader, snapshot, write_key, gc_safe_point->GetTenantId(), type, safe_point_ts,
-                      kv_deletes_lock, kv_deletes_data, kv_deletes_write, lock_start_key, lock_end_key,
-                      last_lock_start_key, last_lock_end_key);
+  status = DoFinalWorkForTxnGc(raft_engine, ctx, reader, snapshot, write_key, gc_safe_point->GetTenantId(), type,
+                               safe_point_ts, kv_deletes_lock, kv_deletes_data, kv_deletes_write, lock_start_key,
+                               lock_end_key, last_lock_start_key, last_lock_end_key);
 
 _interrupt2:
   end_time_ms = Helper::TimestampMs();
@@ -5137,7 +5162,7 @@ _interrupt2:
       Helper::StringToHex(region_end_key), safe_point_ts, (end_time_ms - start_time_ms), total_delete_count,
       total_iter_count);
 
-  return butil::Status();
+  return status;
 }
 
 butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shared_ptr<Engine> raft_engine,
@@ -5209,6 +5234,13 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
   std::string default_key;
   std::string last_default_key;
 
+  // the newest version at or below safe_point_ts that is deleted or expired hides the older versions of its key, it is
+  // deleted after them.
+  std::string hiding_key;
+  int64_t hiding_vector_id = 0;
+  int64_t hiding_ts = 0;
+  butil::Status status;
+
   char prefix = '\0';
   int64_t region_part_id = 0;
   if (type == pb::common::RegionType::INDEX_REGION) {
@@ -5278,6 +5310,10 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
     }
 
     if (last_default_key != default_key) {
+      if (!hiding_key.empty()) {
+        lambda_emplace_back_function(type, hiding_key, hiding_vector_id, hiding_ts);
+        hiding_key.clear();
+      }
       last_default_key = default_key;
       is_first_put_key_if_ts_le_safe_point_ts = true;
     }
@@ -5310,13 +5346,23 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
             default_iter->Next();
             continue;
           }
+          hiding_key = default_iter_key;
+          hiding_vector_id = vector_id;
+          hiding_ts = default_ts;
+          break;
         }
         lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
         break;
       }
 
       case mvcc::ValueFlag::kDelete: {
-        is_first_put_key_if_ts_le_safe_point_ts = false;
+        if (is_first_put_key_if_ts_le_safe_point_ts) {
+          is_first_put_key_if_ts_le_safe_point_ts = false;
+          hiding_key = default_iter_key;
+          hiding_vector_id = vector_id;
+          hiding_ts = default_ts;
+          break;
+        }
         lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
         break;
       }
@@ -5360,22 +5406,35 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
       total_delete_count += kv_deletes_default.size() + kv_deletes_scalar.size() + kv_deletes_table.size() +
                             kv_deletes_scalar_speedup.size() + kv_deletes_use_document.size();
-      DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default,
-                             kv_deletes_scalar, kv_deletes_table, kv_deletes_scalar_speedup, kv_deletes_use_document);
+      status = DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default,
+                                      kv_deletes_scalar, kv_deletes_table, kv_deletes_scalar_speedup,
+                                      kv_deletes_use_document);
 #else
       total_delete_count += kv_deletes_default.size() + kv_deletes_scalar.size() + kv_deletes_table.size() +
                             kv_deletes_scalar_speedup.size();
-      DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default,
-                             kv_deletes_scalar, kv_deletes_table, kv_deletes_scalar_speedup);
+      status = DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default,
+                                      kv_deletes_scalar, kv_deletes_table, kv_deletes_scalar_speedup);
 #endif
+      if (!status.ok()) {
+        // later batches must not be written without this one.
+        goto _interrupt1;
+      }
     }
 
     default_iter->Next();
   }
 
+  if (!hiding_key.empty()) {
+    lambda_emplace_back_function(type, hiding_key, hiding_vector_id, hiding_ts);
+  }
+
 _interrupt1:
 
   auto [internal_gc_stop, internal_safe_point_ts] = gc_safe_point->GetGcFlagAndSafePointTs();
+  if (!status.ok()) {
+    goto _interrupt2;
+  }
+
   if (internal_gc_stop) {
     DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_gc_detail)
         << fmt::format("[txn_gc][tenant({})][region({})][type({})][nontxn] set internal_gc_stop stop, return",
@@ -5396,13 +5455,14 @@ _interrupt1:
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
   total_delete_count += kv_deletes_default.size() + kv_deletes_scalar.size() + kv_deletes_table.size() +
                         kv_deletes_scalar_speedup.size() + kv_deletes_use_document.size();
-  DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default, kv_deletes_scalar,
-                         kv_deletes_table, kv_deletes_scalar_speedup, kv_deletes_use_document);
+  status = DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default,
+                                  kv_deletes_scalar, kv_deletes_table, kv_deletes_scalar_speedup,
+                                  kv_deletes_use_document);
 #else
   total_delete_count +=
       kv_deletes_default.size() + kv_deletes_scalar.size() + kv_deletes_table.size() + kv_deletes_scalar_speedup.size();
-  DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default, kv_deletes_scalar,
-                         kv_deletes_table, kv_deletes_scalar_speedup);
+  status = DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default,
+                                  kv_deletes_scalar, kv_deletes_table, kv_deletes_scalar_speedup);
 
 #endif
 
@@ -5422,7 +5482,7 @@ _interrupt2:
       Helper::StringToHex(region_end_key), safe_point_ts, (end_time_ms - start_time_ms), total_delete_count,
       total_iter_count);
 
-  return butil::Status();
+  return status;
 }
 
 butil::Status TxnEngineHelper::DoGcForStoreTxn(RawEnginePtr raw_engine, std::shared_ptr<Engine> raft_engine,
@@ -5832,7 +5892,7 @@ butil::Status TxnEngineHelper::DoFinalWorkForTxnGc(
   kv_deletes_data.resize(0);
   kv_deletes_write.resize(0);
 
-  return butil::Status();
+  return status;
 }
 
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
@@ -5904,7 +5964,7 @@ butil::Status TxnEngineHelper::DoFinalWorkForNonTxnGc(std::shared_ptr<Engine> ra
   kv_deletes_use_document.resize(0);
 #endif
 
-  return butil::Status();
+  return status;
 }
 
 void TxnEngineHelper::RegularUpdateSafePointTsHandler(void * /*arg*/) {
-- 
2.43.0


From d7163d44ae3b73a5ca4fb006820eb9dad0c93fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:33 +0000
Subject: [PATCH 47/61] fix: a garbage collection request for a tenant without
 a safe point does not crash the store

---
 src/engine/txn_engine_helper.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 0aa80b3..5f471ec 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4849,6 +4849,12 @@ butil::Status TxnEngineHelper::Gc(RawEnginePtr raw_engine, std::shared_ptr<Engin
   int64_t tenant_id = definition.tenant_id();
 
   auto gc_safe_point = gc_safe_point_manager->FindSafePoint(tenant_id);
+  if (gc_safe_point == nullptr) {
+    std::string s = fmt::format("[txn_gc][tenant({})][region({})] safe point of the tenant is not known yet.", tenant_id,
+                                ctx->RegionId());
+    DINGO_LOG(ERROR) << s;
+    return butil::Status(pb::error::Errno::EINTERNAL, s);
+  }
 
   return DoGc(raw_engine, raft_engine, ctx, safe_point_ts, gc_safe_point, range.start_key(), range.end_key());
 }
-- 
2.43.0


From 9db9a6cf852b07d58ed8726cea531e065057b472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:25 +0000
Subject: [PATCH 48/61] fix: a snapshot beyond the end of the raft log does not
 leave a hole in the log

---
 src/log/rocks_log_storage.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index 7116164..4922a6c 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -1257,6 +1257,12 @@ int RocksLogStorage::TruncatePrefix(ClientType client_type, int64_t region_id, i
 
       min_keep_first_index = std::min(min_keep_first_index, truncate_prefix.second);
     }
+
+    // Raft installed a snapshot beyond the end of the log and goes on appending from keep_first_index, the entries kept
+    // for other clients would leave a hole in the log.
+    if (client_type == ClientType::kRaft && keep_first_index > last_index + 1) {
+      min_keep_first_index = keep_first_index;
+    }
   }
 
   if (min_keep_first_index == INT64_MAX || min_keep_first_index <= first_index) {
-- 
2.43.0


From 64b4679680de685e4201cf56a9fb597098faa03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 49/61] fix: a found entry does not leave its raft log iterator
 open

---
 src/log/rocks_log_storage.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index 4922a6c..b7d76e5 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -1374,6 +1374,7 @@ bool RocksLogStorage::HasSpecificLog(int64_t region_id, int64_t begin_index, int
     log_entry.out_data.swap(value);
 
     if (matcher(log_entry)) {
+      delete it;
       return true;
     }
   }
-- 
2.43.0


From 35a30d1fbd01d15af5b2f570949070a450b0ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 50/61] fix: destroying a region log removes its index meta

---
 src/log/rocks_log_storage.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index b7d76e5..23ffc2f 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -743,6 +743,17 @@ size_t RocksLogStorage::AppendToWriteBatch(const Mutation* mutation, std::vector
 
       size += write_op.key_or_start_key.size() + write_op.value_or_end_key.size();
       write_ops.push_back(std::move(write_op));
+
+      if (mutation->type == Mutation::Type::kDestroy) {
+        // The index meta goes as well, else the region is back after a restart.
+        WriteOp meta_write_op;
+        meta_write_op.type = WriteOp::Type::kDeleteRange;
+        meta_write_op.key_or_start_key = GenIndexMetaKey(mutation->region_id);
+        meta_write_op.value_or_end_key = meta_write_op.key_or_start_key + std::string(1, '\0');
+
+        size += meta_write_op.Size();
+        write_ops.push_back(std::move(meta_write_op));
+      }
     } break;
 
     default:
-- 
2.43.0


From 27a9639467ede7b516de3812cc56dd1a45c129b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:19 +0000
Subject: [PATCH 51/61] fix: a client that forbids truncating the raft log
 after releasing it is heeded

---
 src/log/rocks_log_storage.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index 23ffc2f..e027ec4 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -1248,6 +1248,15 @@ int RocksLogStorage::TruncatePrefix(ClientType client_type, int64_t region_id, i
 
     first_index = it->second.first_index.load(std::memory_order_acquire);
     last_index = it->second.last_index.load(std::memory_order_acquire);
+    if (keep_first_index == 0) {
+      // The client forbids truncating the log from now on, whatever it released before.
+      for (auto& truncate_prefix : it->second.truncate_prefixs) {
+        if (truncate_prefix.first == client_type) {
+          truncate_prefix.second = 0;
+        }
+      }
+    }
+
     if (keep_first_index <= first_index) {
       DINGO_LOG(INFO) << fmt::format("[raft.log][{}.{}.{}] truncate prefix ignore, keep_first_index({}).", region_id,
                                      first_index, last_index, keep_first_index);
-- 
2.43.0


From 26ad88b00280e6626389dc182888b4b4c9bd74b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:59 +0000
Subject: [PATCH 52/61] fix: a prepare merge interrupted by a restart is
 applied again instead of leaving the region merging for ever

---
 src/raft/store_state_machine.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/raft/store_state_machine.cc b/src/raft/store_state_machine.cc
index 2b41109..2583d7b 100644
--- a/src/raft/store_state_machine.cc
+++ b/src/raft/store_state_machine.cc
@@ -151,9 +151,14 @@ void StoreStateMachine::on_apply(braft::Iterator& iter) {
     bool need_apply = true;
     // Check region state
     auto region_state = region_->State();
+    // The PrepareMerge that put the region into MERGING state is applied again when a restart interrupted it.
+    bool redo_merge = BAIDU_UNLIKELY(region_state == pb::common::StoreRegionState::MERGING) &&
+                      raft_cmd->requests_size() > 0 &&
+                      raft_cmd->requests(0).cmd_type() == pb::raft::CmdType::PREPARE_MERGE &&
+                      raft_cmd->requests(0).prepare_merge().job_id() == region_->LastChangeJobId();
     if (BAIDU_UNLIKELY(region_state == pb::common::StoreRegionState::DELETING ||
                        region_state == pb::common::StoreRegionState::DELETED ||
-                       region_state == pb::common::StoreRegionState::MERGING ||
+                       (region_state == pb::common::StoreRegionState::MERGING && !redo_merge) ||
                        region_state == pb::common::StoreRegionState::ORPHAN ||
                        region_state == pb::common::StoreRegionState::TOMBSTONE)) {
       std::string s = fmt::format("Region({}) is {} state, abandon apply log", region_->Id(),
@@ -166,7 +171,8 @@ void StoreStateMachine::on_apply(braft::Iterator& iter) {
     }
 
     // Check region epoch
-    if (BAIDU_UNLIKELY(need_apply && !Helper::IsEqualRegionEpoch(raft_cmd->header().epoch(), region_->Epoch()))) {
+    if (BAIDU_UNLIKELY(need_apply && !redo_merge &&
+                       !Helper::IsEqualRegionEpoch(raft_cmd->header().epoch(), region_->Epoch()))) {
       std::string s = fmt::format("Region({}) epoch is not match, region_epoch({}) raft_cmd_epoch({})", region_->Id(),
                                   region_->EpochToString(), Helper::RegionEpochToString(raft_cmd->header().epoch()));
       DINGO_LOG(WARNING) << fmt::format("[raft.sm][region({})] {}", region_->Id(), s);
-- 
2.43.0


From 19eea7c7164ab951c2c46e637a642af306955834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:09 +0000
Subject: [PATCH 53/61] fix: a restart while a merge commits does not lose the
 source's range

---
 src/handler/raft_apply_handler.cc | 41 ++++++++++++++++---------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 044a0cb..23e8cb1 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -944,26 +944,6 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
 
   store_region_meta->UpdateState(source_region, pb::common::StoreRegionState::MERGING);
 
-  {
-    auto old_target_range = target_region->Range(false);
-    // Set target region range and epoch
-    // range: source range + target range
-    // epoch: max(source_epoch, target_epoch) + 1
-    pb::common::Range new_range;
-    // left(source region) right(target_region)
-    if (request.source_region_range().end_key() == old_target_range.start_key()) {
-      new_range.set_start_key(request.source_region_range().start_key());
-      new_range.set_end_key(old_target_range.end_key());
-    } else {
-      // left(target region) right(source region)
-      new_range.set_start_key(old_target_range.start_key());
-      new_range.set_end_key(request.source_region_range().end_key());
-    }
-    int64_t new_version = std::max(request.source_region_epoch().version(), target_region->Epoch().version()) + 1;
-
-    store_region_meta->UpdateEpochVersionAndRange(target_region, new_version, new_range, "merge target");
-  }
-
   {
     // Set source region
     // range: [0xFFFFFFF, source_region.end_key)
@@ -985,6 +965,27 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
   // Set source region TOMBSTONE state
   store_region_meta->UpdateState(source_region, pb::common::StoreRegionState::TOMBSTONE);
 
+  {
+    auto old_target_range = target_region->Range(false);
+    // Set target region range and epoch
+    // range: source range + target range
+    // epoch: max(source_epoch, target_epoch) + 1
+    // This goes last: it marks the CommitMerge applied, a restart before it applies the command again.
+    pb::common::Range new_range;
+    // left(source region) right(target_region)
+    if (request.source_region_range().end_key() == old_target_range.start_key()) {
+      new_range.set_start_key(request.source_region_range().start_key());
+      new_range.set_end_key(old_target_range.end_key());
+    } else {
+      // left(target region) right(source region)
+      new_range.set_start_key(old_target_range.start_key());
+      new_range.set_end_key(request.source_region_range().end_key());
+    }
+    int64_t new_version = std::max(request.source_region_epoch().version(), target_region->Epoch().version()) + 1;
+
+    store_region_meta->UpdateEpochVersionAndRange(target_region, new_version, new_range, "merge target");
+  }
+
   // Do snapshot
   LaunchAyncSaveSnapshot(target_region);
 
-- 
2.43.0


From df5e27ccb0e81fe5448f02076b8d2ffacd9b8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:45 +0000
Subject: [PATCH 54/61] fix: a commit merge replayed after a restart applies
 the source's log without a gap

---
 src/handler/raft_apply_handler.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 23e8cb1..4d62124 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -935,8 +935,14 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
       return 0;
     }
 
+    // After a restart this source may have replayed less than it had applied when the merge was decided.
+    int64_t first_log_id = request.entries().empty() ? request.prepare_merge_log_id() : request.entries(0).index();
+    if (state_machine->GetAppliedIndex() + 1 < first_log_id) {
+      actual_apply_log_count = state_machine->CatchUpApplyLog(
+          GetRaftLogEntries(source_region->Id(), state_machine->GetAppliedIndex() + 1, first_log_id));
+    }
     if (!request.entries().empty()) {
-      actual_apply_log_count = state_machine->CatchUpApplyLog(Helper::PbRepeatedToVector(request.entries()));
+      actual_apply_log_count += state_machine->CatchUpApplyLog(Helper::PbRepeatedToVector(request.entries()));
     }
   }
 
-- 
2.43.0


From 48ecf7125ada1aea9def2424c49e8a822f95e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:45 +0000
Subject: [PATCH 55/61] fix: a merge does not apply entries of the source that
 were proposed for another epoch

---
 src/raft/store_state_machine.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/raft/store_state_machine.cc b/src/raft/store_state_machine.cc
index 2583d7b..8108973 100644
--- a/src/raft/store_state_machine.cc
+++ b/src/raft/store_state_machine.cc
@@ -272,15 +272,24 @@ int32_t StoreStateMachine::CatchUpApplyLog(const std::vector<pb::raft::LogEntry>
           entry.index(), applied_index_,
           raft_cmd->requests().empty() ? "" : pb::raft::CmdType_Name(raft_cmd->requests().at(0).cmd_type()));
 
-      auto event = std::make_shared<SmApplyEvent>();
-      event->region = region_;
-      event->engine = raw_engine_;
-      event->raft_cmd = raft_cmd;
-      event->region_metrics = region_metrics_;
-      event->term_id = entry.term();
-      event->log_id = entry.index();
+      for (const auto& request : raft_cmd->requests()) {
+        if (request.ts() > 0) {
+          region_->SetRawAppliedMaxTs(request.ts());
+        }
+      }
+
+      // Like on_apply, abandon what was proposed for another epoch.
+      if (Helper::IsEqualRegionEpoch(raft_cmd->header().epoch(), region_->Epoch())) {
+        auto event = std::make_shared<SmApplyEvent>();
+        event->region = region_;
+        event->engine = raw_engine_;
+        event->raft_cmd = raft_cmd;
+        event->region_metrics = region_metrics_;
+        event->term_id = entry.term();
+        event->log_id = entry.index();
 
-      DispatchEvent(EventType::kSmApply, event);
+        DispatchEvent(EventType::kSmApply, event);
+      }
 
       applied_term_ = entry.term();
       applied_index_ = entry.index();
-- 
2.43.0


From e45cc8329e6bf6d0454feded0bc958d18cc2d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:32 +0000
Subject: [PATCH 56/61] fix: a split is persisted in one write, a restart in
 the middle of it finds it applied or not at all

---
 src/handler/raft_apply_handler.cc | 13 +------------
 src/meta/store_meta_manager.cc    | 22 ++++++++++++++++++++++
 src/meta/store_meta_manager.h     |  3 +++
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 4d62124..32b50e0 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -475,7 +475,6 @@ store::RegionPtr CreateNewRegion(std::shared_ptr<RaftStoreEngine> raft_store_eng
   }
 
   ADD_REGION_METRICS(region_metrics);
-  GET_STORE_REGION_META->AddRegion(region);
 
   Server::GetInstance().GetRegionController()->RegisterExecutor(region->Id());
 
@@ -574,10 +573,7 @@ bool HandlePostCreateRegionSplit(const pb::raft::SplitRequest &request, store::R
   pb::common::Range parent_range;
   parent_range.set_start_key(request.split_key());
   parent_range.set_end_key(old_parent_range.end_key());
-  store_region_meta->UpdateEpochVersionAndRange(parent_region, parent_region->Epoch().version() + 1, parent_range,
-                                                "split parent");
-  // store_region_meta->UpdateEpochVersionAndRange(child_region, child_region->Epoch().version() + 1, child_range,
-  //                                               "child parent");
+  store_region_meta->CommitSplit(parent_region, parent_region->Epoch().version() + 1, parent_range, child_region);
 
   // set last split time
   parent_region->UpdateLastSplitTimestamp();
@@ -592,13 +588,6 @@ bool HandlePostCreateRegionSplit(const pb::raft::SplitRequest &request, store::R
   // Do region snapshot
   LaunchAyncSaveSnapshot(parent_region);
 
-  // Set do snapshot when bootstrap
-  store_region_meta->UpdateNeedBootstrapDoSnapshot(child_region, true);
-
-  // update to NORMAL after save snapshot in SplitClosure::Run
-  store_region_meta->UpdateState(parent_region, pb::common::StoreRegionState::NORMAL);
-  store_region_meta->UpdateState(child_region, pb::common::StoreRegionState::NORMAL);
-
   if (parent_region->Type() == pb::common::RegionType::INDEX_REGION) {
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
     const auto &parent_definition = parent_region->Definition();
diff --git a/src/meta/store_meta_manager.cc b/src/meta/store_meta_manager.cc
index 6a8edee..4b63777 100644
--- a/src/meta/store_meta_manager.cc
+++ b/src/meta/store_meta_manager.cc
@@ -1022,6 +1022,28 @@ void StoreRegionMeta::UpdateEpochVersionAndRange(store::RegionPtr region, int64_
   meta_writer_->Put(TransformToKv(region));
 }
 
+void StoreRegionMeta::CommitSplit(store::RegionPtr parent, int64_t parent_version,
+                                  const pb::common::Range& parent_range, store::RegionPtr child) {
+  assert(parent != nullptr);
+  assert(child != nullptr);
+
+  DINGO_LOG(INFO) << fmt::format(
+      "[region.meta][region({})][trace(split parent)] update epoch({}) and range({}), add child region({})",
+      parent->Id(), parent_version, Helper::RangeToString(parent_range), child->Id());
+
+  child->SetState(pb::common::StoreRegionState::NORMAL);
+  child->AppendHistoryState(pb::common::StoreRegionState::NEW);
+  child->AppendHistoryState(pb::common::StoreRegionState::NORMAL);
+  child->SetNeedBootstrapDoSnapshot(true);
+
+  parent->SetEpochVersionAndRange(parent_version, parent_range);
+  parent->SetState(pb::common::StoreRegionState::NORMAL);
+  parent->AppendHistoryState(pb::common::StoreRegionState::NORMAL);
+
+  regions_.Put(child->Id(), child);
+  meta_writer_->Put(std::vector<pb::common::KeyValue>{*TransformToKv(parent), *TransformToKv(child)});
+}
+
 void StoreRegionMeta::UpdateSnapshotEpochVersion(store::RegionPtr region, int64_t version, const std::string& trace) {
   assert(region != nullptr);
   if (version <= region->SnapshotEpochVersion()) {
diff --git a/src/meta/store_meta_manager.h b/src/meta/store_meta_manager.h
index 7b7ef83..f73d46a 100644
--- a/src/meta/store_meta_manager.h
+++ b/src/meta/store_meta_manager.h
@@ -361,6 +361,9 @@ class StoreRegionMeta : public TransformKvAble {
                                   const std::string& trace);
   void UpdateEpochVersionAndRange(int64_t region_id, int64_t version, const pb::common::Range& range,
                                   const std::string& trace);
+  // Adds the child of a split and cuts the parent in one write: a restart finds the split applied or not at all.
+  void CommitSplit(store::RegionPtr parent, int64_t parent_version, const pb::common::Range& parent_range,
+                   store::RegionPtr child);
   void UpdateEpochConfVersion(store::RegionPtr region, int64_t version);
   void UpdateEpochConfVersion(int64_t region_id, int64_t version);
   void UpdateSnapshotEpochVersion(store::RegionPtr region, int64_t version, const std::string& trace);
-- 
2.43.0


From b06b9349b389d26f24c3252003c4f2e7eaab50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:55 +0000
Subject: [PATCH 57/61] fix: a restart does not leave a region refusing splits
 and merges for ever

---
 src/meta/store_meta_manager.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meta/store_meta_manager.cc b/src/meta/store_meta_manager.cc
index 4b63777..16f1aaf 100644
--- a/src/meta/store_meta_manager.cc
+++ b/src/meta/store_meta_manager.cc
@@ -1177,6 +1177,8 @@ void StoreRegionMeta::TransformFromKv(const std::vector<pb::common::KeyValue>& k
     auto region = store::Region::New(region_id);
     region->DeSerialize(kv.value());
     region->Recover();
+    // The change that disabled others ended with the previous process, or sets this again when it is applied again.
+    region->SetTemporaryDisableChange(false);
 
     regions_.Put(region_id, region);
   }
-- 
2.43.0


From 521298dce7c555ecdd03c64e8a115c05b9d5de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:41 +0000
Subject: [PATCH 58/61] fix: a raft snapshot holds the region's records only,
 not those of every region behind it

---
 src/raft/dingo_filesystem_adaptor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft/dingo_filesystem_adaptor.cc b/src/raft/dingo_filesystem_adaptor.cc
index b6b04de..76f17e5 100644
--- a/src/raft/dingo_filesystem_adaptor.cc
+++ b/src/raft/dingo_filesystem_adaptor.cc
@@ -124,7 +124,7 @@ void DingoDataReaderAdaptor::ContextReset() {
   iter_options.lower_bound = temp_iter_context->lower_bound;
   iter_options.upper_bound = temp_iter_context->upper_bound;
   auto new_iter = iter_ctx_in_adaptor_->snapshot_context->raw_engine->Reader()->NewIterator(
-      iter_ctx_in_adaptor_->cf_name, iter_ctx_in_adaptor_->snapshot_context->snapshot, IteratorOptions());
+      iter_ctx_in_adaptor_->cf_name, iter_ctx_in_adaptor_->snapshot_context->snapshot, iter_options);
   temp_iter_context->iter = new_iter;
   temp_iter_context->iter->Seek(temp_iter_context->lower_bound);
   temp_iter_context->snapshot_context->data_iterators[iter_ctx_in_adaptor_->cf_name] = temp_iter_context;
@@ -715,7 +715,7 @@ braft::FileAdaptor* DingoFileSystemAdaptor::OpenReaderAdaptor(const std::string&
     iter_options.lower_bound = iter_context->lower_bound;
     iter_options.upper_bound = iter_context->upper_bound;
     auto new_iter = iter_context->snapshot_context->raw_engine->Reader()->NewIterator(
-        iter_context->cf_name, iter_context->snapshot_context->snapshot, IteratorOptions());
+        iter_context->cf_name, iter_context->snapshot_context->snapshot, iter_options);
     iter_context->iter = new_iter;
     iter_context->iter->Seek(iter_context->lower_bound);
 
-- 
2.43.0


From c070efb5dc39432e87f90bf35c1c17b1718708a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:15 +0000
Subject: [PATCH 59/61] fix: a restart after a raft snapshot was installed does
 not wipe the region

---
 src/handler/raft_snapshot_handler.cc |  8 +-------
 src/raft/store_state_machine.cc      | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/handler/raft_snapshot_handler.cc b/src/handler/raft_snapshot_handler.cc
index fb0a594..96826f3 100644
--- a/src/handler/raft_snapshot_handler.cc
+++ b/src/handler/raft_snapshot_handler.cc
@@ -439,13 +439,7 @@ bool RaftSnapshot::LoadSnapshotDingo(braft::SnapshotReader* reader, store::Regio
                                    sst_path);
   }
 
-  for (const auto& sst_file : sst_files) {
-    // Clean merge temp file
-    if (sst_file.empty()) {
-      continue;
-    }
-    Helper::RemoveFileOrDirectory(sst_file);
-  }
+  // The sst files are removed when the applied index is persisted, until then a restart loads the snapshot again.
 
   DINGO_LOG(INFO) << fmt::format("[raft.snapshot][region({})] load snapshot success", region->Id());
 
diff --git a/src/raft/store_state_machine.cc b/src/raft/store_state_machine.cc
index 8108973..3e67c82 100644
--- a/src/raft/store_state_machine.cc
+++ b/src/raft/store_state_machine.cc
@@ -426,15 +426,25 @@ int StoreStateMachine::on_snapshot_load(braft::SnapshotReader* reader) {
       return ret;
     }
 
-    // Update applied term and index
-    applied_term_ = meta.last_included_term();
-    applied_index_ = meta.last_included_index();
+    // The data is that of the business meta's log index, which is ahead of meta.last_included_index().
+    applied_term_ = business_meta.term();
+    applied_index_ = business_meta.log_index();
     last_snapshot_index_ = meta.last_included_index();
 
     if (raft_meta_ != nullptr) {
-      raft_meta_->SetTermAndAppliedId(meta.last_included_term(), meta.last_included_index());
+      raft_meta_->SetTermAndAppliedId(applied_term_, applied_index_);
       Server::GetInstance().GetStoreMetaManager()->GetStoreRaftMeta()->UpdateRaftMeta(raft_meta_);
     }
+
+    // The applied index is persisted, the snapshot will not be loaded again.
+    std::vector<std::string> files;
+    reader->list_files(&files);
+    for (const auto& file : files) {
+      std::string filepath = reader->get_path() + "/" + file;
+      if (file != Constant::kRaftSnapshotRegionMetaFileName && Helper::IsExistPath(filepath)) {
+        Helper::RemoveFileOrDirectory(filepath);
+      }
+    }
   }
 
   DINGO_LOG(INFO) << fmt::format("[raft.sm][region({})] on_snapshot_load done", region_->Id());
-- 
2.43.0


From 77573ab5f727fbdc8ddc51254a7a7dc13ff92208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:12 +0000
Subject: [PATCH 60/61] fix: a snapshot that could not be opened does not keep
 the region's file adaptor waiting for ever

---
 src/raft/dingo_filesystem_adaptor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft/dingo_filesystem_adaptor.cc b/src/raft/dingo_filesystem_adaptor.cc
index 76f17e5..fdcd49b 100644
--- a/src/raft/dingo_filesystem_adaptor.cc
+++ b/src/raft/dingo_filesystem_adaptor.cc
@@ -805,7 +805,6 @@ bool DingoFileSystemAdaptor::open_snapshot(const std::string& path) {
     }
   }
 
-  mutil_snapshot_cond_.Increase();
   // create new raw engine snapshot
   auto raft_node = Server::GetInstance().GetStorage()->GetRaftStoreEngine()->GetNode(region_id_);
   if (raft_node == nullptr) {
@@ -818,6 +817,7 @@ bool DingoFileSystemAdaptor::open_snapshot(const std::string& path) {
     DINGO_LOG(ERROR) << "region_id: " << region_id_ << " make snapshot context failed.";
     return false;
   }
+  mutil_snapshot_cond_.Increase();
   snapshot_context_env_map_[path].snapshot_context = snapshot_context;
 
   DINGO_LOG(INFO) << "region_id: " << region_id_ << " open snapshot path: " << path
-- 
2.43.0


From 514d4f05804c693ee0b76818bbd65c8338fa520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:16 +0000
Subject: [PATCH 61/61] fix: a split into a region created before is persisted
 in one write

A crash between the writes left the parent SPLITTING with its new range and the child
still waiting (or SPLITTING), and the entry could not be applied again: its range was
lost, or the store aborted at every start.
---
 src/handler/raft_apply_handler.cc | 15 ++++-----------
 src/meta/store_meta_manager.cc    |  3 +--
 src/meta/store_meta_manager.h     |  2 +-
 3 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 32b50e0..a1c72be 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -306,19 +306,15 @@ bool HandlePreCreateRegionSplit(const pb::raft::SplitRequest &request, store::Re
   to_region->SetTxnAccessMaxTs(from_region->TxnAccessMaxTs());
 
   // Note: full heartbeat do not report region metrics when the region is in SPLITTING or MERGING
-  store_region_meta->UpdateState(to_region, pb::common::StoreRegionState::SPLITTING);
   store_region_meta->UpdateState(from_region, pb::common::StoreRegionState::SPLITTING);
 
   // set last split time
   to_region->UpdateLastSplitTimestamp();
   from_region->UpdateLastSplitTimestamp();
 
-  // set child region version/range/state
-  store_region_meta->UpdateEpochVersionAndRange(to_region, to_region->Epoch().version() + 1, to_range, "split child");
-
-  // set parent region version/range/state
-  store_region_meta->UpdateEpochVersionAndRange(from_region, from_region->Epoch().version() + 1, from_range,
-                                                "split parent");
+  // set child/parent region version/range/state
+  to_region->SetEpochVersionAndRange(to_region->Epoch().version() + 1, to_range);
+  store_region_meta->CommitSplit(from_region, from_region->Epoch().version() + 1, from_range, to_region);
 
   DINGO_LOG(INFO) << fmt::format(
       "[split.spliting][job_id({}).region({}->{})] splited, child region({}/{}) parent region({}/{})", request.job_id(),
@@ -337,10 +333,6 @@ bool HandlePreCreateRegionSplit(const pb::raft::SplitRequest &request, store::Re
   // Do child region snapshot
   LaunchAyncSaveSnapshot(to_region);
 
-  // update StoreRegionState to NORMAL
-  store_region_meta->UpdateState(from_region, pb::common::StoreRegionState::NORMAL);
-  store_region_meta->UpdateState(to_region, pb::common::StoreRegionState::NORMAL);
-
   if (to_region->Type() == pb::common::RegionType::INDEX_REGION) {
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
     const auto &from_definition = from_region->Definition();
@@ -445,6 +437,7 @@ store::RegionPtr CreateNewRegion(std::shared_ptr<RaftStoreEngine> raft_store_eng
                                  int64_t parent_region_id) {  // NOLINT
   store::RegionPtr region = store::Region::New(definition);
   region->SetState(pb::common::SPLITTING);
+  region->AppendHistoryState(pb::common::StoreRegionState::NEW);
   region->SetSplitStrategy(pb::raft::POST_CREATE_REGION);
   region->SetParentId(parent_region_id);
 
diff --git a/src/meta/store_meta_manager.cc b/src/meta/store_meta_manager.cc
index 16f1aaf..293b3bd 100644
--- a/src/meta/store_meta_manager.cc
+++ b/src/meta/store_meta_manager.cc
@@ -1028,11 +1028,10 @@ void StoreRegionMeta::CommitSplit(store::RegionPtr parent, int64_t parent_versio
   assert(child != nullptr);
 
   DINGO_LOG(INFO) << fmt::format(
-      "[region.meta][region({})][trace(split parent)] update epoch({}) and range({}), add child region({})",
+      "[region.meta][region({})][trace(split parent)] update epoch({}) and range({}), child region({})",
       parent->Id(), parent_version, Helper::RangeToString(parent_range), child->Id());
 
   child->SetState(pb::common::StoreRegionState::NORMAL);
-  child->AppendHistoryState(pb::common::StoreRegionState::NEW);
   child->AppendHistoryState(pb::common::StoreRegionState::NORMAL);
   child->SetNeedBootstrapDoSnapshot(true);
 
diff --git a/src/meta/store_meta_manager.h b/src/meta/store_meta_manager.h
index f73d46a..12aab88 100644
--- a/src/meta/store_meta_manager.h
+++ b/src/meta/store_meta_manager.h
@@ -361,7 +361,7 @@ class StoreRegionMeta : public TransformKvAble {
                                   const std::string& trace);
   void UpdateEpochVersionAndRange(int64_t region_id, int64_t version, const pb::common::Range& range,
                                   const std::string& trace);
-  // Adds the child of a split and cuts the parent in one write: a restart finds the split applied or not at all.
+  // Adds (or opens) the child of a split and cuts the parent in one write: a restart finds the split applied or not at all.
   void CommitSplit(store::RegionPtr parent, int64_t parent_version, const pb::common::Range& parent_range,
                    store::RegionPtr child);
   void UpdateEpochConfVersion(store::RegionPtr region, int64_t version);
-- 
2.43.0

