#pragma once
// Transaction clients over the real store service: interleaved step by step, with lost / repeated / late requests, client
// crashes, lock resolvers and reads nested inside writes.  Afterwards every lock is resolved, the committed history is read
// back from storage and every observation any client made is compared with it.
#include <deque>

#include "env_svc.h"
namespace dingodb { DECLARE_int64(max_short_value_in_write_cf); }

namespace txw {
using namespace dingodb;
namespace P = dingodb::pb::store;
using vt::Hex;
using vt::Src;
using Svc = StoreServiceImpl;

struct Reg {
  int64_t id;
  std::string start, end;
};
struct Mut {
  P::Op op;
  std::string val;
};
struct Ver {
  int64_t commit, start;
  P::Op op;
  std::string val;
};
using Hist = std::map<std::string, std::vector<Ver>>;  // per key, commit ascending, rollbacks excluded

struct Read {
  int64_t ts;
  std::vector<std::string> keys;  // point keys, or
  std::string a, b;               // range when keys is empty
  std::map<std::string, std::string> got;
  std::string who;
  int boots;  // number of restarts before it
  int64_t owner = 0;  // a locking read binds only if its transaction commits
};
struct Txn {
  int id = 0;
  int64_t S = 0;
  bool pess = false, async = false, onepc = false;
  bool did_async = false;  // the commit went through async commit / 1PC
  std::string primary;
  std::map<std::string, Mut> muts;
  std::map<std::string, int64_t> fut;  // pessimistically locked keys
  int64_t min_commit_req = 0, max_commit = 0, prewrite_min = 0;
  int64_t commit_ts = 0;
  enum State { kActive, kCommitted, kAborted, kUnknown } st = kActive;
  int64_t ack_next_ts = 0;
  int retries = 0, lockretries = 0, boots_at_prewrite = 0;
  std::set<int64_t> resolved;
  std::deque<std::function<void()>> q;
  std::string Name() const { return "T" + std::to_string(id) + "@" + std::to_string(S); }
};
using TxnP = std::shared_ptr<Txn>;

struct Opt {
  int regions = 1;
  bool faults = true, late = true, nested = true, restart = false, pess = true, async = true;
  int ntxn = 4, nkeys = 4;
};

struct World {
  Src& s;
  Opt o;
  std::vector<Reg> regs;
  std::vector<std::string> keys;
  std::vector<TxnP> txns;
  std::vector<Read> reads;
  std::deque<std::function<void()>> late;
  int64_t phys = 100000, logical = 0;
  int64_t tso = 0;
  int boots = 0, next_id = 1, nest_budget = 0;
  bool in_nest = false, quiet = false;
  uint64_t met_lock = 0, nfault = 0, nresolved = 0, nnested = 0, nlate = 0;

  World(Src& src, Opt opt) : s(src), o(opt) {
    env::Fresh();
    env::SvcBoot();
    static const char* cut[] = {"t", "tf", "tm", "u"};
    if (o.regions == 1)
      regs = {{201, "t", "u"}};
    else if (o.regions == 2)
      regs = {{201, "t", "tk"}, {202, "tk", "u"}};
    else
      for (int i = 0; i < 3; i++) regs.push_back({201 + i, cut[i], cut[i + 1]});
    for (auto& r : regs) env::AddRegion(env::Def(r.id, r.start, r.end, false));
    static const char* pool[] = {"ta", "tl", "tp", "tb", "tk", "tf", "tm", "tz"};
    for (int i = 0; i < o.nkeys; i++) keys.push_back(pool[i]);
    if (s.Chance(1, 3)) keys[0] = std::string("t") + std::string(1, '\0');
    if (keys.size() > 1 && s.Chance(1, 4)) keys[1] = keys[0] + std::string(s.Range(1, 9), (char)s.OneOf<int>({0, 0xff}));
    std::sort(keys.begin(), keys.end());
    keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
    tso = phys << 18;
    braft::Node::g_apply = [this](braft::Node* n, const braft::Task& t) { Apply(n, t); };
  }
  ~World() {
    braft::Node::g_apply = env::OnApply;
  }

  int64_t Ts() {
    if (s.Chance(1, 6)) {
      phys += s.Range(1, 4);
      tso = std::max(tso + 1, phys << 18);
    } else
      tso += 1;
    return tso;
  }
  int64_t NowMs() { return tso >> 18; }
  Reg& RegOf(const std::string& k) {
    for (auto& r : regs)
      if (k >= r.start && k < r.end) return r;
    abort();
  }
  env::RegionPtr RP(int64_t id) { return env::S().GetRegion(id); }
  template <class Q>
  void Cx(Q& q, Reg& r) {
    env::SetCtx(q, RP(r.id));
  }

  // nested observation while a write is on its way through raft
  void Apply(braft::Node* n, const braft::Task& t) {
    if (o.nested && !in_nest && nest_budget > 0 && s.Chance(1, 3)) {
      nest_budget--;
      in_nest = true;
      NestedRead("before");
      env::OnApply(n, t);
      if (s.Bool()) NestedRead("after");
      in_nest = false;
      return;
    }
    env::OnApply(n, t);
  }
  void NestedRead(const char* when) {
    nnested++;
    int64_t ts = s.Bool() ? Ts() : txns.empty() ? Ts() : s.Pick(txns)->S;
    if (ts <= 0) ts = Ts();
    std::vector<std::string> ks{s.Pick(keys)};
    int r;
    if (s.Chance(1, 3)) {
      Reg& rg = RegOf(ks[0]);
      auto e = std::upper_bound(keys.begin(), keys.end(), ks[0]);
      std::string b = s.Bool() || e == keys.end() || *e >= rg.end ? rg.end : *e;
      r = TryScan(ts, s.Chance(3, 4) ? ks[0] : rg.start, b, {}, std::string("nested ") + when, nullptr, nullptr);
    } else
      r = TryGet(ts, ks, {}, std::string("nested ") + when, nullptr);
    s.Note(std::string("  nested read ") + when + " write at " + std::to_string(ts) + " of " + Hex(ks[0]) + " -> " + std::to_string(r));
  }

  template <class Q>
  void MarkPrewrite(const Q& q) {
    if constexpr (std::is_same_v<Q, P::TxnPrewriteRequest>)
      for (auto& t : txns)
        if (t->S == q.start_ts()) t->boots_at_prewrite = boots;
  }
  // fault-injected request.  true: answered
  template <class Q, class R>
  bool Rpc(Txn* t, void (Svc::*m)(google::protobuf::RpcController*, const Q*, R*, google::protobuf::Closure*), const Q& q, R& r) {
    size_t f = 0;
    if (t && o.faults && !quiet) f = s.Weighted({24, 1, 2, o.late ? 2 : 0});
    Q c = q;
    if (f == 1) {
      nfault++;
      s.Note("  request lost: " + q.GetTypeName());
      return false;
    }
    MarkPrewrite(q);
    r = env::Call(m, c);
    if (f == 2) {
      nfault++;
      s.Note("  reply lost: " + q.GetTypeName());
      return false;
    }
    if (f == 3) {
      nfault++;
      auto nm = t ? t->Name() : "";
      late.push_back([this, m, q, nm] {
        nlate++;
        Q c2 = q;
        for (auto& rg : regs)
          if (rg.id == c2.context().region_id()) *c2.mutable_context()->mutable_region_epoch() = RP(rg.id)->Epoch();
        s.Note("late repeat of " + nm + " " + q.GetTypeName());
        MarkPrewrite(q);
        env::Call(m, c2);
      });
    }
    return true;
  }
  // step failed without an answer: try the same step again or die
  void Lost(TxnP t, std::function<void()> again) {
    if (t->retries++ >= 3 || s.Chance(1, 4)) {
      Crash(t);
      return;
    }
    t->q.push_front(again);
  }
  void Crash(TxnP t) {
    s.Note(t->Name() + " client dies");
    if (t->st == Txn::kActive) t->st = Txn::kUnknown;
    t->q.clear();
  }

  // ---- reads: 0 ok, 1 lock met (L filled), 2 memory lock, 3 error, 4 lost
  int TryGet(int64_t ts, const std::vector<std::string>& ks, const std::set<int64_t>& resolved, const std::string& who, P::LockInfo* L,
             Txn* t = nullptr) {
    Reg& rg = RegOf(ks[0]);
    std::map<std::string, std::string> got;
    P::TxnResultInfo tr;
    int64_t ec;
    if (ks.size() == 1 && s.Bool()) {
      P::TxnGetRequest q;
      Cx(q, rg);
      q.set_key(ks[0]);
      q.set_start_ts(ts);
      for (auto x : resolved) q.mutable_context()->add_resolved_locks(x);
      P::TxnGetResponse r;
      if (!Rpc(t, &Svc::TxnGet, q, r)) return 4;
      ec = r.error().errcode();
      tr = r.txn_result();
      if (!r.value().empty()) got[ks[0]] = r.value();
    } else {
      P::TxnBatchGetRequest q;
      Cx(q, rg);
      for (auto& k : ks) q.add_keys(k);
      q.set_start_ts(ts);
      for (auto x : resolved) q.mutable_context()->add_resolved_locks(x);
      P::TxnBatchGetResponse r;
      if (!Rpc(t, &Svc::TxnBatchGet, q, r)) return 4;
      ec = r.error().errcode();
      tr = r.txn_result();
      for (auto& kv : r.kvs())
        if (!kv.value().empty()) got[kv.key()] = kv.value();
    }
    if (ec == pb::error::ETXN_MEMORY_LOCK_CONFLICT) return 2;
    if (ec) return 3;
    if (tr.has_locked()) {
      if (L) *L = tr.locked();
      return 1;
    }
    reads.push_back({ts, ks, "", "", got, who, boots});
    return 0;
  }
  int TryScan(int64_t ts, const std::string& a, const std::string& b, const std::set<int64_t>& resolved, const std::string& who,
              P::LockInfo* L, Txn* t) {
    std::map<std::string, std::string> got;
    std::string sid, prev;
    int lim = s.Range(1, 4);
    bool rpc_meta = s.Bool();
    for (int page = 0; page < 40; page++) {
      P::TxnScanRequest q;
      Cx(q, RegOf(a));
      q.set_start_ts(ts);
      q.mutable_range()->mutable_range()->set_start_key(a);
      q.mutable_range()->mutable_range()->set_end_key(b);
      q.mutable_range()->set_with_start(true);
      q.mutable_range()->set_with_end(false);
      if (rpc_meta)
        q.mutable_stream_meta()->set_limit(lim);
      else
        q.set_limit(lim);
      if (!sid.empty()) q.mutable_stream_meta()->set_stream_id(sid);
      for (auto x : resolved) q.mutable_context()->add_resolved_locks(x);
      P::TxnScanResponse r;
      if (!Rpc(t, &Svc::TxnScan, q, r)) return 4;
      if (r.error().errcode() == pb::error::ETXN_MEMORY_LOCK_CONFLICT) return 2;
      if (r.error().errcode()) return 3;
      for (auto& kv : r.kvs()) {
        VT_CHECK(prev.empty() || kv.key() > prev, "scan-order", "scan keys out of order or repeated: " << Hex(prev) << " then " << Hex(kv.key()));
        prev = kv.key();
        VT_CHECK(kv.key() >= a && kv.key() < b, "scan-range", "key outside the scanned range " << Hex(kv.key()));
        got[kv.key()] = kv.value();
      }
      if (r.txn_result().has_locked()) {
        if (L) *L = r.txn_result().locked();
        return 1;
      }
      if (!r.has_more()) {
        reads.push_back({ts, {}, a, b, got, who, boots});
        return 0;
      }
      sid = r.stream_meta().stream_id();
      if (page && o.faults && !in_nest && s.Chance(1, 6)) RandomOther(t);
    }
    vt::Failf("scan-no-end", "scan did not finish in 40 pages");
  }
  // let another client run in the middle (between the pages of a scan)
  void RandomOther(Txn* me) {
    if (quiet) return;
    for (auto& t : txns)
      if (t.get() != me && !t->q.empty()) {
        auto f = t->q.front();
        t->q.pop_front();
        f();
        return;
      }
  }
  void AddRead(TxnP t, bool front = false) {
    int64_t ts = t->S;
    auto tries = std::make_shared<int>(0);
    auto ks = std::make_shared<std::vector<std::string>>();
    bool scan = s.Chance(1, 3);
    Reg rg = s.Pick(regs);
    std::string a = rg.start, b = rg.end;
    if (scan) {
      std::string x = s.Pick(keys), y = s.Pick(keys);
      if (s.Bool() && x < y && x >= rg.start && y < rg.end) a = x, b = y;
    } else {
      ks->push_back(s.Pick(keys));
      for (auto& k : keys)
        if (&RegOf(k) == &RegOf((*ks)[0]) && k != (*ks)[0] && s.Chance(1, 3)) ks->push_back(k);
    }
    auto self = std::make_shared<std::function<void()>>();
    std::weak_ptr<Txn> w = t;
    *self = [this, w, ts, tries, ks, scan, a, b, self] {
      auto t = w.lock();
      P::LockInfo L;
      int r = scan ? TryScan(ts, a, b, t->resolved, t->Name(), &L, t.get()) : TryGet(ts, *ks, t->resolved, t->Name(), &L, t.get());
      s.Note(t->Name() + (scan ? " scan " : " get ") + (scan ? Hex(a) + ".." + Hex(b) : Hex((*ks)[0]) + "x" + std::to_string(ks->size())) + " at " +
             std::to_string(ts) + " -> " + (r == 0 ? "ok" : r == 1 ? "lock of " + std::to_string(L.lock_ts()) : std::to_string(r)));
      if (r == 1) {
        met_lock++;
        if ((*tries)++ < 4) {
          t->q.push_front(*self);
          Resolve(t, L, ts, false);
        }
      } else if (r == 2 || r == 4) {
        if ((*tries)++ < 4) t->q.push_front(*self);
      }
    };
    // keep the recursive closure alive through the queue only
    auto step = *self;
    t->q.push_back(step);
    keep.push_back(self);
  }
  std::vector<std::shared_ptr<std::function<void()>>> keep;

  // ---- lock resolution: pushes steps in front of the queue
  void Resolve(TxnP t, P::LockInfo L, int64_t caller, bool force) {
    std::weak_ptr<Txn> w = t;
    t->q.push_front([this, w, L, caller, force] {
      auto t = w.lock();
      P::TxnCheckTxnStatusRequest q;
      Cx(q, RegOf(L.primary_lock()));
      q.set_primary_key(L.primary_lock());
      q.set_lock_ts(L.lock_ts());
      q.set_caller_start_ts(caller);
      q.set_current_ts(Ts());
      q.set_force_sync_commit(force);
      bool exp = L.lock_ttl() < NowMs();
      q.set_rollback_if_not_exist(exp);
      P::TxnCheckTxnStatusResponse r;
      if (!Rpc(t.get(), &Svc::TxnCheckTxnStatus, q, r)) return;
      s.Note("  " + t->Name() + " checks status of " + std::to_string(L.lock_ts()) + (force ? " (force)" : "") + " -> action " + std::to_string(r.action()) +
             " commit " + std::to_string(r.commit_ts()) + " " + r.txn_result().ShortDebugString());
      if (r.error().errcode() || r.txn_result().has_primary_mismatch() || r.txn_result().has_txn_not_found()) return;
      auto& lk = r.txn_result().locked();
      if (r.action() == P::NoAction && r.txn_result().has_locked() && lk.use_async_commit() && !force) {
        if (lk.lock_ttl() >= NowMs()) return;
        ResolveAsync(t, L, lk, caller);
        return;
      }
      if (r.commit_ts() > 0) {
        Clear(t, L, r.commit_ts(), {});
      } else if (r.action() == P::TTLExpireRollback || r.action() == P::LockNotExistRollback) {
        Clear(t, L, 0, {});
      } else if (r.action() == P::MinCommitTSPushed) {
        t->resolved.insert(L.lock_ts());
      }
    });
  }
  struct AsyncAcc {
    int64_t max_min = 0, commit = 0;
    bool missing = false, notasync = false, abort = false, pess = false;
  };
  void ResolveAsync(TxnP t, P::LockInfo L, P::LockInfo prim, int64_t caller) {
    std::map<int64_t, std::vector<std::string>> by;
    for (auto& k : prim.secondaries()) by[RegOf(k).id].push_back(k);
    auto acc = std::make_shared<AsyncAcc>();
    acc->max_min = prim.min_commit_ts();
    std::weak_ptr<Txn> w = t;
    t->q.push_front([this, w, L, prim, acc, caller] {
      auto t = w.lock();
      if (acc->abort || acc->pess) return;
      s.Note("  " + t->Name() + " async decision for " + std::to_string(L.lock_ts()) + ": commit " + std::to_string(acc->commit) + " missing " +
             std::to_string(acc->missing) + " notasync " + std::to_string(acc->notasync) + " min " + std::to_string(acc->max_min));
      std::vector<std::string> all{prim.key()};
      for (auto& k : prim.secondaries()) all.push_back(k);
      if (acc->commit > 0)
        Clear(t, L, acc->commit, all);
      else if (acc->missing)
        Clear(t, L, 0, all);
      else if (acc->notasync)
        Resolve(t, L, caller, true);
      else
        Clear(t, L, acc->max_min, all);
    });
    for (auto& [rid, ks] : by) {
      auto kv = ks;
      t->q.push_front([this, w, kv, prim, acc] {
        auto t = w.lock();
        if (acc->abort || acc->missing || acc->commit || acc->pess) return;
        P::TxnCheckSecondaryLocksRequest q;
        Cx(q, RegOf(kv[0]));
        q.set_start_ts(prim.lock_ts());
        for (auto& k : kv) q.add_keys(k);
        P::TxnCheckSecondaryLocksResponse r;
        if (!Rpc(t.get(), &Svc::TxnCheckSecondaryLocks, q, r) || r.error().errcode()) {
          acc->abort = true;
          return;
        }
        if (r.txn_result().has_locked()) {  // a secondary still only pessimistically locked: drop that lock first
          acc->pess = true;
          P::TxnPessimisticRollbackRequest q2;
          auto& lk = r.txn_result().locked();
          Cx(q2, RegOf(lk.key()));
          q2.set_start_ts(lk.lock_ts());
          q2.set_for_update_ts(lk.for_update_ts());
          q2.add_keys(lk.key());
          P::TxnPessimisticRollbackResponse r2;
          Rpc(t.get(), &Svc::TxnPessimisticRollback, q2, r2);
          s.Note("  " + t->Name() + " drops pessimistic secondary lock " + Hex(lk.key()));
          return;
        }
        if (r.commit_ts() > 0) {
          acc->commit = r.commit_ts();
          return;
        }
        if (r.txn_result().has_txn_not_found() || r.locks_size() < (int)kv.size()) {
          acc->missing = true;
          return;
        }
        for (auto& l : r.locks()) {
          if (!l.use_async_commit()) acc->notasync = true;
          acc->max_min = std::max(acc->max_min, l.min_commit_ts());
        }
      });
    }
  }
  void Clear(TxnP t, P::LockInfo L, int64_t commit, std::vector<std::string> ks) {
    std::weak_ptr<Txn> w = t;
    if (L.lock_type() == P::Lock && ks.empty()) {
      t->q.push_front([this, w, L] {
        auto t = w.lock();
        P::TxnPessimisticRollbackRequest q;
        Cx(q, RegOf(L.key()));
        q.set_start_ts(L.lock_ts());
        q.set_for_update_ts(L.for_update_ts());
        q.add_keys(L.key());
        P::TxnPessimisticRollbackResponse r;
        Rpc(t.get(), &Svc::TxnPessimisticRollback, q, r);
        nresolved++;
      });
      return;
    }
    if (ks.empty()) ks.push_back(L.key());
    std::map<int64_t, std::vector<std::string>> by;
    for (auto& k : ks) by[RegOf(k).id].push_back(k);
    bool whole = s.Chance(1, 4);
    for (auto& [rid, kv] : by) {
      auto v = kv;
      t->q.push_front([this, w, L, commit, v, whole] {
        auto t = w.lock();
        P::TxnResolveLockRequest q;
        Cx(q, RegOf(v[0]));
        if (whole) {
          auto* i = q.add_txn_infos();
          i->set_start_ts(L.lock_ts());
          i->set_commit_ts(commit);
        } else {
          q.set_start_ts(L.lock_ts());
          q.set_commit_ts(commit);
          for (auto& k : v) q.add_keys(k);
        }
        P::TxnResolveLockResponse r;
        bool ok = Rpc(t.get(), &Svc::TxnResolveLock, q, r);
        s.Note("  " + t->Name() + " resolves " + std::to_string(L.lock_ts()) + " to " + std::to_string(commit) + (whole ? " whole region" : "") + (ok ? "" : " (no reply)") +
               " " + r.txn_result().ShortDebugString());
        nresolved++;
        if (ok && r.txn_result().has_locked() && r.txn_result().locked().lock_type() == P::Lock) {  // drop it the pessimistic way, then try again
          auto& lk = r.txn_result().locked();
          P::TxnPessimisticRollbackRequest q2;
          Cx(q2, RegOf(lk.key()));
          q2.set_start_ts(lk.lock_ts());
          q2.set_for_update_ts(lk.for_update_ts());
          q2.add_keys(lk.key());
          P::TxnPessimisticRollbackResponse r2;
          Rpc(t.get(), &Svc::TxnPessimisticRollback, q2, r2);
          s.Note("  " + t->Name() + " drops pessimistic lock " + Hex(lk.key()));
          if (s.Chance(7, 8)) Clear(t, L, commit, v);
        }
      });
    }
  }

  // ---- transaction life
  int64_t Ttl() { return NowMs() + s.OneOf<int>({4, 1, 0, 30}); }
  std::map<int64_t, std::vector<std::string>> ByRegion(const std::vector<std::string>& ks) {
    std::map<int64_t, std::vector<std::string>> by;
    for (auto& k : ks) by[RegOf(k).id].push_back(k);
    return by;
  }
  TxnP NewTxn() {
    auto t = std::make_shared<Txn>();
    t->id = next_id++;
    txns.push_back(t);
    std::weak_ptr<Txn> w = t;
    t->q.push_back([this, w] { Begin(w.lock()); });
    return t;
  }
  void Begin(TxnP t) {
    t->S = Ts();
    t->pess = o.pess && s.Chance(1, 3);
    size_t mode = s.Weighted({2, o.async ? 1 : 0, o.async ? 1 : 0, o.async ? 1 : 0});
    t->async = mode == 1 || mode == 3;
    t->onepc = mode == 2 || mode == 3;
    int n = s.Weighted({1, 4, 4, 2, 1});  // number of written keys
    std::vector<std::string> ks;
    for (int i = 0; i < n; i++) {
      auto k = s.Pick(keys);
      if (t->muts.count(k)) continue;
      Mut m;
      m.op = (P::Op)s.OneOf<int>({P::Put, P::Put, P::Put, P::Delete, P::PutIfAbsent});
      if (m.op != P::Delete) m.val = "v" + std::to_string(t->id) + "." + std::to_string(i) + (s.Chance(1, 4) ? std::string(FLAGS_max_short_value_in_write_cf, 'L') : "");
      t->muts[k] = m;
      ks.push_back(k);
    }
    if (t->muts.size() > 0) t->primary = ks[0];
    if (s.Chance(1, 3)) t->min_commit_req = t->S + 1;
    if (s.Chance(1, 5)) t->max_commit = t->S + s.Range(1, 12);
    std::ostringstream d;
    for (auto& [k, m] : t->muts) d << " " << Hex(k) << ":" << m.op;
    s.Note(t->Name() + " begins" + (t->pess ? " pess" : "") + (t->async ? " async" : "") + (t->onepc ? " 1pc" : "") + " writes" + d.str() + " primary " + Hex(t->primary));
    std::weak_ptr<Txn> w = t;
    int nr = s.Weighted({2, 3, 2});
    for (int i = 0; i < nr; i++) AddRead(t);
    if (t->muts.empty()) {
      t->st = Txn::kAborted;
      return;
    }
    if (t->pess) {
      // primary first, then the others; some keys may stay optimistic
      std::vector<std::string> rest;
      for (auto& k : ks)
        if (k != t->primary && s.Chance(3, 4)) rest.push_back(k);
      LockKeys(t, {t->primary});
      if (s.Chance(1, 3))
        LockKeys(t, rest);
      else
        for (auto& k : rest) LockKeys(t, {k});
      if (s.Chance(1, 4)) HeartBeat(t);
      if (s.Chance(1, 3)) AddRead(t);
    }
    t->q.push_back([this, w] { StartPrewrite(w.lock()); });
  }
  void HeartBeat(TxnP t) {
    std::weak_ptr<Txn> w = t;
    t->q.push_back([this, w] {
      auto t = w.lock();
      P::TxnHeartBeatRequest q;
      Cx(q, RegOf(t->primary));
      q.set_primary_lock(t->primary);
      q.set_start_ts(t->S);
      q.set_advise_lock_ttl(NowMs() + 5);
      P::TxnHeartBeatResponse r;
      Rpc(t.get(), &Svc::TxnHeartBeat, q, r);
      s.Note(t->Name() + " heartbeat");
    });
  }
  void LockKeys(TxnP t, std::vector<std::string> ks) {
    for (auto& [rid, kv] : ByRegion(ks)) {
      auto v = kv;
      auto self = std::make_shared<std::function<void()>>();
      std::weak_ptr<Txn> w = t;
      auto fut = std::make_shared<int64_t>(0);
      *self = [this, w, v, self, fut] {
        auto t = w.lock();
        bool same = *fut && s.Bool();
        if (!same) *fut = s.Chance(1, 5) && t->fut.empty() ? t->S : Ts();
        P::TxnPessimisticLockRequest q;
        Cx(q, RegOf(v[0]));
        q.set_primary_lock(t->primary);
        q.set_start_ts(t->S);
        q.set_lock_ttl(Ttl());
        q.set_for_update_ts(*fut);
        bool rv = s.Bool();
        q.set_return_values(rv);
        for (auto& k : v) {
          auto* m = q.add_mutations();
          m->set_op(P::Lock);
          m->set_key(k);
        }
        P::TxnPessimisticLockResponse r;
        bool ok = Rpc(t.get(), &Svc::TxnPessimisticLock, q, r);
        s.Note(t->Name() + " pessimistic lock " + Hex(v[0]) + "x" + std::to_string(v.size()) + " for_update " + std::to_string(*fut) + (ok ? "" : " (no reply)") +
               (r.txn_result_size() ? " " + r.txn_result(0).ShortDebugString() : ""));
        if (!ok) return Lost(t, *self);
        if (r.error().errcode()) return Crash(t);
        if (r.txn_result_size()) {
          if (t->lockretries++ > 4) {
            t->q.clear();
            return Abort(t, true);
          }
          t->q.push_front(*self);
          *fut = 0;
          for (auto& x : r.txn_result())
            if (x.has_locked() && x.locked().lock_ts() != t->S) {
              met_lock++;
              Resolve(t, x.locked(), t->S, false);
              break;
            }
          return;
        }
        for (auto& k : v) t->fut[k] = *fut;
        if (rv) {
          std::map<std::string, std::string> got;
          for (auto& kv : r.kvs())
            if (!kv.value().empty()) got[kv.key()] = kv.value();
          reads.push_back({*fut, v, "", "", got, t->Name() + " locking read", boots, t->S});
        }
      };
      t->q.push_back(*self);
      keep.push_back(self);
    }
  }
  struct PwAcc {
    int64_t max_min = 0, onepc = 0;
    bool all_async = true, permanent = false;
    int left = 0;
  };
  void StartPrewrite(TxnP t) {
    auto acc = std::make_shared<PwAcc>();
    std::vector<std::string> ks;
    for (auto& [k, m] : t->muts) ks.push_back(k);
    auto by = ByRegion(ks);
    acc->left = by.size();
    bool multi = by.size() > 1;
    bool split = !t->onepc && ks.size() > 1 && s.Chance(1, 3);  // several requests per region
    std::vector<std::vector<std::string>> groups;
    for (auto& [rid, kv] : by) {
      if (split)
        for (auto& k : kv) groups.push_back({k});
      else
        groups.push_back(kv);
    }
    acc->left = groups.size();
    if (multi || split) t->onepc = false;
    std::vector<size_t> ord;
    for (size_t i = 0; i < groups.size(); i++) ord.push_back(i);
    for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[s.Below(i)]);
    for (size_t gi : ord) {
      auto v = groups[gi];
      auto self = std::make_shared<std::function<void()>>();
      std::weak_ptr<Txn> w = t;
      bool pass_check = s.Chance(2, 3);
      *self = [this, w, v, self, acc, pass_check] {
        auto t = w.lock();
        if (acc->permanent) return;
        P::TxnPrewriteRequest q;
        Cx(q, RegOf(v[0]));
        q.set_primary_lock(t->primary);
        q.set_start_ts(t->S);
        q.set_lock_ttl(Ttl());
        q.set_txn_size(t->muts.size());
        q.set_try_one_pc(t->onepc);
        q.set_min_commit_ts(t->min_commit_req);
        q.set_max_commit_ts(t->max_commit);
        if (t->async) {
          q.set_use_async_commit(true);
          for (auto& [k, m] : t->muts)
            if (k != t->primary) q.add_secondaries(k);
        }
        for (size_t i = 0; i < v.size(); i++) {
          auto& m = t->muts[v[i]];
          auto* x = q.add_mutations();
          x->set_op(m.op);
          x->set_key(v[i]);
          x->set_value(m.val);
          if (t->pess) {
            q.add_pessimistic_checks(t->fut.count(v[i]) ? P::DO_PESSIMISTIC_CHECK : P::SKIP_PESSIMISTIC_CHECK);
            if (t->fut.count(v[i]) && pass_check) {
              auto* c = q.add_for_update_ts_checks();
              c->set_index(i);
              c->set_expected_for_update_ts(t->fut[v[i]]);
            }
          }
        }
        P::TxnPrewriteResponse r;
        bool ok = Rpc(t.get(), &Svc::TxnPrewrite, q, r);
        s.Note(t->Name() + " prewrite " + Hex(v[0]) + "x" + std::to_string(v.size()) + (ok ? "" : " (no reply)") + " min_commit " +
               std::to_string(r.min_commit_ts()) + " 1pc " + std::to_string(r.one_pc_commit_ts()) +
               (r.txn_result_size() ? " " + r.txn_result(0).ShortDebugString() : "") + (r.keys_already_exist_size() ? " exists" : "") + (r.error().errcode() ? " error " + r.error().errmsg() : ""));
        if (!ok) return Lost(t, *self);
        if (r.error().errcode()) return Crash(t);
        if (r.txn_result_size() || r.keys_already_exist_size()) {
          bool perm = r.keys_already_exist_size() > 0, conflict = false;
          P::LockInfo L;
          for (auto& x : r.txn_result()) {
            if (x.has_write_conflict()) perm = conflict = true;
            if (x.has_locked() && x.locked().lock_ts() != t->S) L = x.locked();
          }
          if (perm) {
            acc->permanent = true;
            t->q.clear();
            return Abort(t, (!t->async && !t->onepc) || (conflict && !t->pess));
          }
          met_lock++;
          if (t->lockretries++ > 4 || L.lock_ts() == 0) {
            t->q.clear();
            if (t->async || t->onepc) return Crash(t);
            return Abort(t, true);
          }
          t->q.push_front(*self);
          Resolve(t, L, t->S, false);
          return;
        }
        if (r.one_pc_commit_ts()) acc->onepc = r.one_pc_commit_ts();
        if (r.min_commit_ts() == 0) acc->all_async = false;
        acc->max_min = std::max(acc->max_min, r.min_commit_ts());
        if (--acc->left == 0) Prewritten(t, *acc);
      };
      t->q.push_back(*self);
      keep.push_back(self);
    }
  }
  void Ack(TxnP t, int64_t cts) {
    t->st = Txn::kCommitted;
    t->commit_ts = cts;
    t->ack_next_ts = tso + 1;
    s.Note(t->Name() + " committed at " + std::to_string(cts));
  }
  void Prewritten(TxnP t, PwAcc a) {
    std::vector<std::string> ks;
    for (auto& [k, m] : t->muts) ks.push_back(k);
    if (t->onepc && a.onepc) {
      t->did_async = true;
      return Ack(t, a.onepc);
    }
    if (t->async && a.all_async && a.max_min) {
      t->did_async = true;
      Ack(t, a.max_min);
      if (s.Chance(1, 4)) return t->q.clear();  // dies; the locks stay
      for (auto& [rid, kv] : ByRegion(ks)) CommitKeys(t, kv, a.max_min);
      return;
    }
    if (s.Chance(1, 8)) {
      return Abort(t, !t->async && !t->onepc);
    }
    std::weak_ptr<Txn> w = t;
    auto cts = std::make_shared<int64_t>(0);
    auto self = std::make_shared<std::function<void()>>();
    *self = [this, w, cts, self] {
      auto t = w.lock();
      if (!*cts) *cts = Ts();
      P::TxnCommitRequest q;
      Cx(q, RegOf(t->primary));
      q.set_start_ts(t->S);
      q.set_commit_ts(*cts);
      q.add_keys(t->primary);
      P::TxnCommitResponse r;
      bool ok = Rpc(t.get(), &Svc::TxnCommit, q, r);
      s.Note(t->Name() + " commit primary at " + std::to_string(*cts) + (ok ? " " : " (no reply) ") + r.txn_result().ShortDebugString());
      if (!ok) return Lost(t, *self);
      if (r.error().errcode()) return Crash(t);
      if (r.txn_result().has_commit_ts_expired()) {
        *cts = 0;
        t->q.push_front(*self);
        return;
      }
      if (r.txn_result().ByteSizeLong()) {
        // rolled back by somebody else
        t->q.clear();
        if (r.txn_result().has_write_conflict() && !t->async) t->st = Txn::kAborted;
        else t->st = Txn::kUnknown;
        return;
      }
      Ack(t, *cts);
      std::vector<std::string> rest;
      for (auto& [k, m] : t->muts)
        if (k != t->primary) rest.push_back(k);
      if (s.Chance(1, 5)) return;
      for (auto& [rid, kv] : ByRegion(rest)) CommitKeys(t, kv, *cts);
    };
    t->q.push_back(*self);
    keep.push_back(self);
  }
  void CommitKeys(TxnP t, std::vector<std::string> v, int64_t cts) {
    std::weak_ptr<Txn> w = t;
    t->q.push_back([this, w, v, cts] {
      auto t = w.lock();
      P::TxnCommitRequest q;
      Cx(q, RegOf(v[0]));
      q.set_start_ts(t->S);
      q.set_commit_ts(cts);
      for (auto& k : v) q.add_keys(k);
      P::TxnCommitResponse r;
      bool ok = Rpc(t.get(), &Svc::TxnCommit, q, r);
      s.Note(t->Name() + " commit " + Hex(v[0]) + "x" + std::to_string(v.size()) + (ok ? " " : " (no reply) ") + r.txn_result().ShortDebugString());
    });
  }
  // definite: nothing sent so far can still commit it
  void Abort(TxnP t, bool definite) {
    t->st = definite ? Txn::kAborted : Txn::kUnknown;
    s.Note(t->Name() + " aborts");
    std::weak_ptr<Txn> w = t;
    bool die = s.Chance(1, 6);
    if (die) return;
    std::vector<std::string> ks;
    for (auto& [k, m] : t->muts) ks.push_back(k);
    for (auto& k : ks)
      if (t->pess && (t->fut.count(k) || k == t->primary || s.Bool()))
        t->q.push_back([this, w, k] {
          auto t = w.lock();
          P::TxnPessimisticRollbackRequest q;
          Cx(q, RegOf(k));
          q.set_start_ts(t->S);
          q.set_for_update_ts(tso);
          q.add_keys(k);
          P::TxnPessimisticRollbackResponse r;
          Rpc(t.get(), &Svc::TxnPessimisticRollback, q, r);
        });
    if (t->pess && s.Bool()) return;  // never prewrote, or dies before the rest
    for (auto& [rid, kv] : ByRegion(ks)) {
      std::vector<std::vector<std::string>> gs;
      if (t->pess || s.Bool())
        for (auto& k : kv) gs.push_back({k});
      else
        gs.push_back(kv);
      for (auto& g : gs)
        t->q.push_back([this, w, g] {
          auto t = w.lock();
          P::TxnBatchRollbackRequest q;
          Cx(q, RegOf(g[0]));
          q.set_start_ts(t->S);
          for (auto& k : g) q.add_keys(k);
          P::TxnBatchRollbackResponse r;
          Rpc(t.get(), &Svc::TxnBatchRollback, q, r);
          s.Note(t->Name() + " rollback " + Hex(g[0]) + "x" + std::to_string(g.size()) + " " + r.txn_result().ShortDebugString());
        });
    }
  }

  // ---- driving
  void Restart() {
    s.Note("server restarts");
    boots++;
    env::Restart();
    braft::Node::g_apply = [this](braft::Node* n, const braft::Task& t) { Apply(n, t); };
    env::SvcBoot();
  }
  void Run(int steps) {
    for (int i = 0; i < o.ntxn; i++) NewTxn();
    nest_budget = 6;
    size_t started = std::min<size_t>(2, txns.size());
    for (int i = 0; i < steps; i++) {
      std::vector<TxnP> live;
      for (size_t j = 0; j < started; j++)
        if (!txns[j]->q.empty()) live.push_back(txns[j]);
      if (live.empty() || (started < txns.size() && s.Chance(1, 6))) {
        if (started < txns.size()) {
          started++;
          continue;
        }
        if (live.empty()) break;
      }
      if (!late.empty() && s.Chance(1, 6)) {
        auto f = late.front();
        late.pop_front();
        f();
        continue;
      }
      if (o.restart && s.Chance(1, 14)) Restart();
      if (s.Chance(1, 12)) phys += s.Range(1, 5), tso = std::max(tso + 1, phys << 18);
      auto t = s.Pick(live);
      if (s.Chance(1, 60)) {
        Crash(t);
        continue;
      }
      auto f = t->q.front();
      t->q.pop_front();
      f();
    }
    for (auto& t : txns) {
      t->q.clear();
      if (t->st == Txn::kActive) t->st = Txn::kUnknown;
    }
    while (!late.empty() && s.Chance(3, 4)) {
      auto f = late.front();
      late.pop_front();
      f();
    }
  }
  std::vector<P::LockInfo> Locks() {
    std::vector<P::LockInfo> v;
    std::vector<pb::common::KeyValue> kvs;
    auto rd = env::S().rocks_raw_engine_->Reader();
    rd->KvScan(Constant::kTxnLockCF, mvcc::Codec::EncodeBytes(std::string("a")), mvcc::Codec::EncodeBytes(std::string("zz")), kvs);
    for (auto& kv : kvs) {
      P::LockInfo l;
      VT_CHECK(l.ParseFromString(kv.value()), "lock-parse", "");
      v.push_back(l);
    }
    return v;
  }
  Hist History() {
    Hist h;
    std::vector<pb::common::KeyValue> kvs;
    auto rd = env::S().rocks_raw_engine_->Reader();
    rd->KvScan(Constant::kTxnWriteCF, mvcc::Codec::EncodeBytes(std::string("a")), mvcc::Codec::EncodeBytes(std::string("zz")), kvs);
    for (auto& kv : kvs) {
      std::string k;
      int64_t ts;
      VT_CHECK(mvcc::Codec::DecodeKey(kv.key(), k, ts), "write-key", Hex(kv.key()));
      P::WriteInfo w;
      VT_CHECK(w.ParseFromString(kv.value()), "write-parse", "");
      if (w.op() == P::Rollback) continue;
      Ver v{ts, w.start_ts(), w.op(), w.short_value()};
      if (w.op() == P::Put && v.val.empty()) {
        std::string val;
        auto st = rd->KvGet(Constant::kTxnDataCF, mvcc::Codec::EncodeKey(k, w.start_ts()), val);
        VT_CHECK(st.ok(), "value-missing", "committed long value of " << Hex(k) << " start " << w.start_ts() << " commit " << ts << " is gone");
        v.val = val;
      }
      h[k].push_back(v);
    }
    for (auto& [k, v] : h) std::sort(v.begin(), v.end(), [](const Ver& a, const Ver& b) { return a.commit < b.commit; });
    return h;
  }
  void ResolveAll() {
    bool oq = quiet, on = o.nested;
    quiet = true;
    o.nested = false;
    auto t = std::make_shared<Txn>();
    for (int round = 0; round < 40; round++) {
      phys += 1000;
      tso = std::max(tso + 1, phys << 18);
      auto ls = Locks();
      if (ls.empty()) {
        quiet = oq;
        o.nested = on;
        return;
      }
      t->S = Ts();
      Resolve(t, s.Pick(ls), t->S, false);
      while (!t->q.empty()) {
        auto f = t->q.front();
        t->q.pop_front();
        f();
      }
    }
    std::ostringstream d;
    for (auto& l : Locks()) d << l.ShortDebugString() << "; ";
    vt::Failf("locks-stuck", "locks survive 40 rounds of expired-lock resolution: " + d.str());
  }
  std::string HStr(const Hist& h, const std::string& k) {
    std::ostringstream d;
    auto it = h.find(k);
    if (it != h.end())
      for (auto& v : it->second) d << "[" << v.start << "->" << v.commit << " op" << v.op << " " << v.val.substr(0, 6) << "] ";
    return d.str();
  }
  static const Ver* At(const Hist& h, const std::string& k, int64_t ts, int64_t skip = 0) {
    auto it = h.find(k);
    const Ver* r = nullptr;
    if (it != h.end())
      for (auto& v : it->second)
        if (v.commit <= ts && v.start != skip) r = &v;
    return r && r->op == P::Put ? r : nullptr;
  }
  void CheckReads(const Hist& h) {
    std::set<int64_t> committed;
    for (auto& [k, vs] : h)
      for (auto& v : vs) committed.insert(v.start);
    for (auto& r : reads) {
      if (r.owner && !committed.count(r.owner)) continue;
      std::map<std::string, std::string> want;
      if (r.keys.empty()) {
        for (auto& [k, v] : h)
          if (k >= r.a && k < r.b)
            if (auto* x = At(h, k, r.ts, r.owner)) want[k] = x->val;
      } else
        for (auto& k : r.keys)
          if (auto* x = At(h, k, r.ts, r.owner)) want[k] = x->val;
      if (want == r.got) continue;
      // classify
      std::string bad;
      for (auto& [k, v] : h) {
        auto a = want.count(k) ? want[k] : "", b = r.got.count(k) ? r.got[k] : "";
        if (a != b) bad = k;
      }
      for (auto& [k, v] : r.got)
        if (!want.count(k)) bad = k;
      std::string sig = r.who.find("locking") != std::string::npos ? "locking-read" : "snapshot-read";
      // the write that slipped under the read: was it an async/1PC commit prewritten after a restart that followed the read?
      if (h.count(bad))
        for (auto& v : h.at(bad))
          if (v.commit <= r.ts)
            for (auto& t : txns)
              if (t->S == v.start && (t->async || t->onepc) && t->boots_at_prewrite > r.boots && !(r.got.count(bad) && r.got[bad] == v.val)) sig = "snapshot-read-before-restart";
      std::ostringstream m;
      m << r.who << " at " << r.ts << " of " << (r.keys.empty() ? "[" + Hex(r.a) + "," + Hex(r.b) + ")" : "keys") << " disagrees on " << Hex(bad) << ": saw '"
        << (r.got.count(bad) ? r.got[bad].substr(0, 12) : "-") << "' but the committed history there is " << HStr(h, bad);
      vt::Failf(sig, m.str());
    }
  }
  void Check(const Hist& h) {
    std::map<int64_t, TxnP> by;
    for (auto& t : txns)
      if (t->S) by[t->S] = t;
    std::map<int64_t, std::map<std::string, Ver>> got;
    for (auto& [k, vs] : h)
      for (auto& v : vs) {
        auto it = by.find(v.start);
        VT_CHECK(it != by.end() && it->second->muts.count(k), "alien-write", "key " << Hex(k) << " start " << v.start << " was written by nobody");
        auto& m = it->second->muts[k];
        P::Op op = m.op == P::PutIfAbsent ? P::Put : m.op;
        VT_CHECK(op == v.op && m.val == v.val, "wrong-write", it->second->Name() << " key " << Hex(k) << " committed op " << v.op << " value " << v.val.substr(0, 12));
        VT_CHECK(v.commit > v.start, "commit-order", it->second->Name() << " commit " << v.commit);
        VT_CHECK(!got[v.start].count(k), "committed-twice", it->second->Name() << " key " << Hex(k) << " history " << HStr(h, k));
        got[v.start][k] = v;
        VT_CHECK(v.commit <= tso + 1, "commit-future", it->second->Name() << " commit " << v.commit << " beyond the clock " << tso);
      }
    for (auto& t : txns) {
      auto& g = got[t->S];
      if (!t->S) continue;
      std::ostringstream d;
      for (auto& [k, v] : g) d << Hex(k) << "@" << v.commit << " ";
      VT_CHECK(g.empty() || g.size() == t->muts.size(), "atomicity", t->Name() << " wrote " << t->muts.size() << " keys but committed only " << d.str());
      for (auto& [k, v] : g) VT_CHECK(v.commit == g.begin()->second.commit, "atomicity-ts", t->Name() << " keys committed at different times: " << d.str());
      if (t->st == Txn::kCommitted) {
        VT_CHECK(!g.empty(), "lost-commit", t->Name() << " was acknowledged as committed at " << t->commit_ts << " but left nothing");
        VT_CHECK(g.begin()->second.commit == t->commit_ts, "commit-ts", t->Name() << " acknowledged at " << t->commit_ts << " but stored at " << d.str());
        VT_CHECK(t->commit_ts <= t->ack_next_ts, "not-external", t->Name() << " acknowledged commit " << t->commit_ts << " invisible to reads starting later at " << t->ack_next_ts);
        if (t->did_async && t->max_commit) VT_CHECK(t->commit_ts <= t->max_commit, "max-commit-ts", t->Name() << " commit " << t->commit_ts << " above the allowed " << t->max_commit);
        if (t->did_async) VT_CHECK(t->commit_ts >= t->min_commit_req, "min-commit-ts", t->Name());
      }
      if (t->st == Txn::kAborted) VT_CHECK(g.empty(), "zombie-commit", t->Name() << " was rolled back but committed " << d.str());
      for (auto& [k, v] : g) {
        int64_t base = t->fut.count(k) ? t->fut[k] : t->S;
        int64_t pmax = 0;
        P::Op pop = P::None;
        for (auto& o2 : h.at(k))
          if (o2.start != t->S) {
            if (o2.commit > pmax && o2.commit < v.commit) pmax = o2.commit, pop = o2.op;
            std::string sig = "lost-update";
            auto it = by.find(o2.start);
            if (it != by.end() && (it->second->boots_at_prewrite != t->boots_at_prewrite)) sig = "lost-update-restart";
            VT_CHECK(!(o2.commit > base && o2.commit <= v.commit), sig, t->Name() << " based on " << base << " committed " << Hex(k) << " at " << v.commit << " over a concurrent write: " << HStr(h, k));
            // a write based on what it saw at `base` must come after everything visible there
            VT_CHECK(!(o2.commit <= base && v.commit <= o2.commit), "write-under", t->Name() << " commits " << Hex(k) << " at " << v.commit << " below " << o2.commit << " which it had seen (base " << base << "): " << HStr(h, k));
          }
        if (t->muts[k].op == P::PutIfAbsent)
          VT_CHECK(pop != P::Put, "put-if-absent", t->Name() << " put-if-absent over an existing value of " << Hex(k) << ": " << HStr(h, k));
      }
    }
    CheckReads(h);
  }
};
}  // namespace txw
