// transaction requests for the demonstrations of planted bugs
#pragma once
#include "demo.h"
#include "env_svc.h"
namespace demo {
using namespace dingodb;
namespace P = pb::store;
using Svc = StoreServiceImpl;
struct Txn {
  Txn() {
    Start();
    env::Fresh();
    env::SvcBoot();
    env::AddRegion(env::Def(201, "t", "u", false));
  }
  template <class Q>
  void Cx(Q& q) { env::SetCtx(q, env::S().GetRegion(201)); }
  P::TxnPrewriteRequest Pre(int64_t S, const std::string& prim, std::vector<std::pair<std::string, std::string>> kv, int64_t ttl = 1000) {
    P::TxnPrewriteRequest q;
    Cx(q);
    q.set_start_ts(S);
    q.set_primary_lock(prim);
    q.set_lock_ttl(ttl);
    q.set_txn_size(kv.size());
    for (auto& [k, v] : kv) {
      auto* m = q.add_mutations();
      m->set_key(k);
      m->set_op(v.empty() ? P::Delete : P::Put);
      m->set_value(v);
    }
    return q;
  }
  P::TxnPrewriteResponse Prewrite(P::TxnPrewriteRequest q) { return env::Call(&Svc::TxnPrewrite, q); }
  P::TxnCommitResponse Commit(int64_t S, int64_t C, std::vector<std::string> ks) {
    P::TxnCommitRequest q;
    Cx(q);
    q.set_start_ts(S);
    q.set_commit_ts(C);
    for (auto& k : ks) q.add_keys(k);
    return env::Call(&Svc::TxnCommit, q);
  }
  P::TxnPessimisticLockResponse Lock(int64_t S, int64_t fut, const std::string& prim, std::vector<std::string> ks, bool rv = false) {
    P::TxnPessimisticLockRequest q;
    Cx(q);
    q.set_start_ts(S);
    q.set_for_update_ts(fut);
    q.set_primary_lock(prim);
    q.set_lock_ttl(1000);
    q.set_return_values(rv);
    for (auto& k : ks) {
      auto* m = q.add_mutations();
      m->set_key(k);
      m->set_op(P::Lock);
    }
    return env::Call(&Svc::TxnPessimisticLock, q);
  }
  P::TxnBatchRollbackResponse Rollback(int64_t S, std::vector<std::string> ks) {
    P::TxnBatchRollbackRequest q;
    Cx(q);
    q.set_start_ts(S);
    for (auto& k : ks) q.add_keys(k);
    return env::Call(&Svc::TxnBatchRollback, q);
  }
  P::TxnCheckTxnStatusResponse Status(const std::string& k, int64_t S, int64_t caller, int64_t cur, bool force = false, bool rb = true) {
    P::TxnCheckTxnStatusRequest q;
    Cx(q);
    q.set_primary_key(k);
    q.set_lock_ts(S);
    q.set_caller_start_ts(caller);
    q.set_current_ts(cur);
    q.set_force_sync_commit(force);
    q.set_rollback_if_not_exist(rb);
    return env::Call(&Svc::TxnCheckTxnStatus, q);
  }
  P::TxnGetResponse Get(const std::string& k, int64_t ts) {
    P::TxnGetRequest q;
    Cx(q);
    q.set_key(k);
    q.set_start_ts(ts);
    return env::Call(&Svc::TxnGet, q);
  }
  P::TxnScanResponse Scan(const std::string& a, const std::string& b, int64_t ts, int lim = 100, const std::string& sid = "") {
    P::TxnScanRequest q;
    Cx(q);
    q.set_start_ts(ts);
    q.mutable_range()->mutable_range()->set_start_key(a);
    q.mutable_range()->mutable_range()->set_end_key(b);
    q.mutable_range()->set_with_start(true);
    q.mutable_stream_meta()->set_limit(lim);
    if (!sid.empty()) q.mutable_stream_meta()->set_stream_id(sid);
    return env::Call(&Svc::TxnScan, q);
  }
};
inline int64_t T(int64_t p, int64_t l) { return (p << 18) + l; }
}  // namespace demo
