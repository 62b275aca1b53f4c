#pragma once
// Garbage collection of old versions: whatever a read at or above the safe point returns stays, at every batch boundary.
#include "env_svc.h"
#include "mvcc/codec.h"
#include "engine/txn_engine_helper.h"
#include "engine/gc_safe_point.h"
#include "vector/codec.h"
#include "rocksdb/db.h"
namespace dingodb {
DECLARE_int64(max_short_value_in_write_cf);
DECLARE_int64(gc_delete_batch_count);
}

namespace gch {
using namespace dingodb;
namespace P = dingodb::pb::store;
using vt::Hex;
using vt::Src;
using Dump = std::map<std::string, std::string>;
inline Dump Cf(const std::string& cf) { return rocksdb::vs::Dump(env::DbPath() + "/rocksdb", cf); }

struct Rec {
  int kind;  // txn: 0 put 1 delete 2 rollback; raw: 0 put 1 delete 2 live ttl 3 expired ttl
  std::string val;
  int64_t start = 0;
};
using Hist = std::map<std::string, std::map<int64_t, Rec>>;

struct G {
  Src& s;
  bool txn, vec = false;
  env::RegionPtr reg, other;
  Hist h;
  std::vector<std::string> keys, okeys;
  int64_t sp = 0, next = 100;
  int64_t tenant = 0;
  int nbatch = 0, fail_at = -1, nfail = 0;
  bool failed = false, stopped_mid = false, busy = false;
  std::vector<int64_t> probe;
  std::vector<std::string> cfs;
  static G*& Cur() {
    static G* g = nullptr;
    return g;
  }

  explicit G(Src& x, bool t, bool v) : s(x), txn(t), vec(v) {}
  ~G() {
    Cur() = nullptr;
    braft::Node::g_apply = env::OnApply;
    FLAGS_gc_delete_batch_count = 32768;
  }
  RawEnginePtr Raw() { return env::S().rocks_raw_engine_; }
  void Put(const std::string& cf, const std::string& k, const std::string& v) {
    pb::common::KeyValue kv;
    kv.set_key(k), kv.set_value(v);
    Raw()->Writer()->KvPut(cf, kv);
  }
  static int64_t VecId(const std::string& k) {
    for (int i = 1; i < 100; i++)
      if (VectorCodec::PackageVectorKey('r', 7, i) == k) return i;
    return 0;
  }
  std::string SpeedKey(const std::string& k, int64_t ts) { return VectorCodec::EncodeVectorKey('r', 7, VecId(k), "fast", ts); }
  void Write(const std::string& k, int64_t ts, Rec r) {
    h[k][ts] = r;
    if (txn) {
      P::WriteInfo w;
      w.set_start_ts(r.start);
      w.set_op(r.kind == 0 ? P::Put : r.kind == 1 ? P::Delete : r.kind == 2 ? P::Rollback : P::Lock);
      if (r.kind == 0) {
        if ((int64_t)r.val.size() <= FLAGS_max_short_value_in_write_cf)
          w.set_short_value(r.val);
        else
          Put(Constant::kTxnDataCF, mvcc::Codec::EncodeKey(k, r.start), r.val);
      }
      Put(Constant::kTxnWriteCF, mvcc::Codec::EncodeKey(k, ts), w.SerializeAsString());
      return;
    }
    std::string v;
    if (r.kind == 0)
      mvcc::Codec::PackageValue(mvcc::ValueFlag::kPut, r.val, v);
    else if (r.kind == 1)
      mvcc::Codec::PackageValue(mvcc::ValueFlag::kDelete, v);
    else
      mvcc::Codec::PackageValue(mvcc::ValueFlag::kPutTTL, r.kind == 2 ? 4102444800000ll : 1 + (int64_t)s.Below(1000), r.val, v);
    for (auto& cf : cfs) Put(cf, cf == Constant::kVectorScalarKeySpeedUpCF ? SpeedKey(k, ts) : mvcc::Codec::EncodeKey(k, ts), v);
  }
  Rec NewRec(int64_t start) {
    Rec r;
    r.kind = txn ? s.Weighted({6, 3, 2}) : s.Weighted({6, 3, 1, 2});
    r.val = s.Chance(1, 4) && txn ? std::string(FLAGS_max_short_value_in_write_cf + s.Range(0, 2), 'a' + s.Below(26)) : "v" + std::to_string(s.Below(1000));
    r.start = start;
    return r;
  }
  // what is visible at ts by the records that exist
  static std::string At(const std::map<int64_t, Rec>& m, int64_t ts, bool txn, int64_t* start = nullptr) {
    for (auto it = m.rbegin(); it != m.rend(); ++it) {
      if (it->first > ts) continue;
      auto& r = it->second;
      if (txn) {
        if (r.kind == 0) {
          if (start) *start = r.start;
          return "=" + r.val;
        }
        if (r.kind == 1) return "";
        continue;
      }
      return r.kind == 0 || r.kind == 2 ? "=" + r.val : "";
    }
    return "";
  }
  // records left in the store
  std::map<std::string, std::map<int64_t, Rec>> Left() {
    Hist l;
    auto d = Cf(txn ? Constant::kTxnWriteCF : cfs[0]);
    for (auto& [ek, v] : d) {
      std::string k;
      int64_t ts;
      if (!mvcc::Codec::DecodeKey(ek, k, ts)) vt::Failf("undecodable", "a key that does not decode is left");
      auto i = h.find(k);
      VT_CHECK(i != h.end() && i->second.count(ts), "invented", "record " << Hex(k) << "@" << ts << " was never written");
      l[k][ts] = i->second[ts];
    }
    return l;
  }
  void CheckVisible(const char* when, bool complete) {
    auto l = Left();
    Dump data;
    if (txn) data = Cf(Constant::kTxnDataCF);
    std::set<std::string> need;
    for (auto& [k, m] : h) {
      bool mine = k >= reg->Range(false).start_key() && k < reg->Range(false).end_key();
      auto& lm = l[k];
      if (!mine) {
        VT_CHECK(lm.size() == m.size(), "foreign-key", when << ": records of key " << Hex(k) << " outside the region were removed");
      }
      for (auto ts : probe) {
        if (mine && ts < sp) continue;
        int64_t st = 0;
        auto want = At(m, ts, txn, &st), got = At(lm, ts, txn);
        VT_CHECK(want == got, txn ? "visible-txn" : "visible-raw", when << ": safe point " << sp << " key " << Hex(k) << " read at " << ts << " now gives '" << got.substr(0, 20) << "', before '" << want.substr(0, 20) << "'");
        if (txn && want.size() > (size_t)FLAGS_max_short_value_in_write_cf + 1) need.insert(mvcc::Codec::EncodeKey(k, st));
      }
      if (complete && mine) {
        bool first = true;
        for (auto it = lm.rbegin(); it != lm.rend(); ++it) {
          if (it->first > sp) continue;
          auto& r = it->second;
          if (txn && r.kind == 3) continue;
          VT_CHECK(first && (r.kind == 0 || (!txn && r.kind == 2)), txn ? "garbage-left-txn" : "garbage-left-raw", "complete collection at " << sp << " leaves record " << Hex(k) << "@" << it->first << " kind " << r.kind);
          first = false;
        }
      }
    }
    for (auto& k : need) VT_CHECK(data.count(k), "data-lost", when << ": the value of a visible version is gone from the data column");
    if (txn && complete) {
      std::set<std::string> used;
      for (auto& [k, m] : l)
        for (auto& [ts, r] : m)
          if (r.kind == 0 && (int64_t)r.val.size() > FLAGS_max_short_value_in_write_cf) used.insert(mvcc::Codec::EncodeKey(k, r.start));
      for (auto& [k, v] : data) VT_CHECK(used.count(k) || extra.count(k), "data-left", "the value of a collected version is left in the data column");
    }
    // the columns of one record go together
    if (vec)
      for (size_t i = 1; i < cfs.size(); i++) {
        std::set<std::string> a, b;
        for (auto& [k, m] : l)
          for (auto& [ts, r] : m) a.insert(cfs[i] == Constant::kVectorScalarKeySpeedUpCF ? SpeedKey(k, ts) : mvcc::Codec::EncodeKey(k, ts));
        for (auto& [k, v] : Cf(cfs[i])) b.insert(k);
        VT_CHECK(a == b, "columns", when << ": column " << cfs[i] << " holds " << b.size() << " records, the vector column " << a.size());
      }
  }
  std::set<std::string> extra;  // data of open transactions
  Dump locks;

  static void Apply(braft::Node* n, const braft::Task& t) {
    auto& g = *Cur();
    if (g.busy || env::NodeId(n) != g.reg->Id()) return env::OnApply(n, t);
    g.busy = true;
    int b = g.nbatch++;
    if (b == g.fail_at || (g.failed && g.s.Chance(2, 3))) {
      g.failed = true;
      g.nfail++;
      g.s.Note("batch %d refused", b);
      g.busy = false;
      t.done->status().set_error(EPERM, "not leader");
      t.done->Run();
      return;
    }
    env::OnApply(n, t);
    g.CheckVisible("after a batch", false);
    if (g.s.Chance(1, 5)) {
      auto k = g.s.Pick(g.keys);
      int64_t st = g.next++, c = g.next++;
      if (g.txn || !g.vec) {
        auto r = g.NewRec(st);
        if (r.kind == 2 && g.txn) c = st;
        g.Write(k, c, r);
        g.probe.push_back(c);
        g.s.Note("meanwhile %s@%ld kind %d", Hex(k).c_str(), (long)c, r.kind);
      }
    }
    if (g.s.Chance(1, 12)) {
      auto p = env::S().store_meta_manager_->GetGCSafePointManager()->FindSafePoint(g.tenant);
      if (p) p->SetGcStop(true), g.stopped_mid = true, g.s.Note("stop set");
    }
    g.busy = false;
  }

  void Reads(const char* when) {
    for (int q = 0; q < 3; q++) {
      int64_t ts = s.Pick(probe);
      if (ts < sp) ts = sp;
      if (ts <= 0) ts = 1;
      if (ts > INT64_MAX - 10) ts = INT64_MAX - 10;
      if (!txn) continue;
      std::vector<std::pair<std::string, std::string>> want, got;
      for (auto& k : keys) {
        auto v = At(h[k], ts, true);
        if (!v.empty()) want.push_back({k, v.substr(1)});
      }
      P::TxnScanRequest rq;
      env::SetCtx(rq, reg);
      rq.set_start_ts(ts);
      rq.set_limit(1000);
      auto* r = rq.mutable_range();
      r->mutable_range()->set_start_key("t"), r->mutable_range()->set_end_key("tq");
      r->set_with_start(true), r->set_with_end(false);
      auto rs = env::Call(&StoreServiceImpl::TxnScan, rq);
      VT_CHECK(rs.error().errcode() == 0 && !rs.txn_result().has_locked(), "read-refused", when << ": " << rs.ShortDebugString());
      for (auto& kv : rs.kvs()) got.push_back({kv.key(), kv.value()});
      VT_CHECK(want == got, "read", when << ": scan at " << ts << " returns " << got.size() << " keys, expected " << want.size() << " or other values");
    }
  }

  void Run() {
    env::Fresh();
    env::SvcBoot();
    Cur() = this;
    std::string pre = txn ? "t" : "r";
    tenant = s.Chance(1, 2) ? 0 : 5;
    std::string mid;
    if (vec) {
      mid = VectorCodec::PackageVectorKey('r', 7, 50);
      auto d = env::Def(201, VectorCodec::PackageVectorKey('r', 7), mid, false, 7);
      auto* f = d.mutable_index_parameter()->mutable_vector_index_parameter()->mutable_scalar_schema()->add_fields();
      f->set_key("fast"), f->set_field_type(pb::common::ScalarFieldType::INT64), f->set_enable_speed_up(true);
      d.set_tenant_id(tenant);
      reg = env::AddRegion(d);
      auto d2 = env::Def(202, mid, VectorCodec::PackageVectorKey('r', 8), false, 7);
      d2.set_tenant_id(tenant);
      other = env::AddRegion(d2);
      cfs = {Constant::kVectorDataCF, Constant::kVectorScalarCF, Constant::kVectorTableCF, Constant::kVectorScalarKeySpeedUpCF};
    } else {
      mid = pre + "q";
      auto d = env::Def(201, pre, mid, false);
      d.set_tenant_id(tenant);
      reg = env::AddRegion(d);
      auto d2 = env::Def(202, mid, std::string(1, pre[0] + 1), false);
      d2.set_tenant_id(tenant);
      other = env::AddRegion(d2);
      cfs = {Constant::kStoreDataCF};
    }
    int n = s.Range(1, 5);
    for (int i = 0; i < n; i++) {
      std::string k;
      if (vec)
        k = VectorCodec::PackageVectorKey('r', 7, 1 + s.Below(12));
      else {
        k = pre + std::string(1, 'a' + s.Below(4));
        if (s.Chance(1, 3)) k += std::string(s.Range(1, 9), (char)s.OneOf<int>({0, 0xff, 'z'}));
      }
      keys.push_back(k);
    }
    std::sort(keys.begin(), keys.end());
    keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
    okeys = {vec ? VectorCodec::PackageVectorKey('r', 7, 60) : mid, vec ? VectorCodec::PackageVectorKey('r', 7, 50) : mid + "x"};
    // commit timestamps grow; the records of one key are in order of time
    int nrec = s.Range(1, 24);
    for (int i = 0; i < nrec; i++) {
      auto k = s.Chance(1, 10) ? s.Pick(okeys) : s.Pick(keys);
      int64_t st = next;
      next += s.Range(1, 3);
      auto r = NewRec(st);
      int64_t c = txn && r.kind == 2 ? st : next++;
      Write(k, c, r);
      s.Note("%s@%ld kind %d%s", Hex(k).c_str(), (long)c, r.kind, (int64_t)r.val.size() > FLAGS_max_short_value_in_write_cf ? " long" : "");
      probe.push_back(c), probe.push_back(c - 1), probe.push_back(c + 1);
    }
    probe.push_back(INT64_MAX);
    std::vector<int64_t> cand = probe;
    cand.pop_back();
    auto mgr = env::S().store_meta_manager_->GetGCSafePointManager();
    int rounds = s.Range(1, 3);
    bool collected = false;
    for (int round = 0; round < rounds; round++) {
      int64_t nsp = s.Pick(cand) + s.Range(-1, 2);
      if (nsp <= 0) nsp = 1;
      bool known = s.Chance(9, 10), off = s.Chance(1, 10);
      int64_t cur = nsp + (s.Chance(1, 5) ? s.Range(0, 20) : 0);
      if (nsp < sp) nsp = sp;  // the safe point never moves back
      sp = nsp;
      next = std::max(next, sp + 2);  // new transactions are above the safe point
      probe.push_back(sp), probe.push_back(sp + 1);
      mgr->ClearAll();
      if (known) mgr->SetGcFlagAndSafePointTs({{tenant, std::max(cur, sp)}, {tenant ? 0 : 9, 3}}, off);
      if (off || !known) off = true;
      FLAGS_gc_delete_batch_count = s.OneOf<int64_t>({1, 1, 2, 3, 5, 1000});
      nbatch = 0, failed = false, stopped_mid = false;
      fail_at = s.Chance(1, 4) ? (int)s.Below(6) : -1;
      // an open transaction
      if (txn && s.Chance(1, 3)) {
        auto k = s.Pick(keys);
        P::LockInfo li;
        li.set_key(k), li.set_primary_lock(k), li.set_lock_ts(next++), li.set_lock_type(P::Put), li.set_lock_ttl(1LL << 50);
        li.set_min_commit_ts(INT64_MAX);
        Put(Constant::kTxnLockCF, mvcc::Codec::EncodeKey(k, Constant::kLockVer), li.SerializeAsString());
        auto dk = mvcc::Codec::EncodeKey(k, li.lock_ts());
        Put(Constant::kTxnDataCF, dk, "open");
        extra.insert(dk);
      }
      locks = txn ? Cf(Constant::kTxnLockCF) : Dump{};
      auto before = Left();
      braft::Node::g_apply = Apply;
      int how = vec ? 2 : s.Below(2);
      s.Note("collect at %ld batch %ld%s via %d fail %d", (long)sp, (long)FLAGS_gc_delete_batch_count, off ? " (off)" : "", how, fail_at);
      if (how == 0) {
        P::TxnGcRequest rq;
        env::SetCtx(rq, reg);
        rq.set_safe_point_ts(sp);
        auto rs = env::Call(&StoreServiceImpl::TxnGc, rq);
      } else if (how == 1) {
        if (known && !off) mgr->SetGcFlagAndSafePointTs({{tenant, sp}, {tenant ? 0 : 9, 3}}, false);
        TxnEngineHelper::RegularDoGcHandler(nullptr);
      } else if (known) {
        P::TxnGcRequest rq;
        P::TxnGcResponse rs;
        auto ctx = std::make_shared<Context>(nullptr, nullptr, &rq, &rs);
        ctx->SetRegionId(reg->Id());
        ctx->SetCfName(Constant::kStoreDataCF);
        ctx->SetRegionEpoch(reg->Epoch());
        ctx->SetRawEngineType(reg->GetRawEngineType());
        ctx->SetStoreEngineType(reg->GetStoreEngineType());
        TxnEngineHelper::DoGcForIndexNonTxn(Raw(), env::S().raft_engine_, ctx, pb::common::RegionType::INDEX_REGION, sp, mgr->FindSafePoint(tenant), reg->Range(false).start_key(), reg->Range(false).end_key());
      }
      braft::Node::g_apply = env::OnApply;
      bool complete = !off && !failed && !stopped_mid;
      auto after = Left();
      if (off) {
        size_t a = 0, b = 0;
        for (auto& [k, m] : before) a += m.size();
        for (auto& [k, m] : after) b += m.size();
        VT_CHECK(a == b, "off-collects", "collection is off, but records were removed");
      }
      for (size_t i = 0; how == 1 && i < 1; i++)  // the handler collects every region of the tenant
        for (auto& k : okeys) h[k] = after[k];
      if (txn) VT_CHECK(Cf(Constant::kTxnLockCF) == locks, "lock-removed", "collection touched a lock");
      CheckVisible("after the collection", false);
      // versions written during the collection may be at or below nothing; a second complete pass removes every leftover
      if (complete) CheckVisible("after a complete collection", true), collected |= nbatch > 0;
      Reads("after the collection");
      mgr->ClearAll();
    }
    s.Tag("batches", nbatch);
    s.Tag("refused", nfail);
    if (collected) {
      std::ostringstream d;
      for (auto& x : s.notes_) d << x << "\n";
      s.NonTrivial(d.str());
    }
  }
};
}  // namespace gch

VT_PROPERTY("C16", 40000, 800000, "a complete collection removed at least one record")
VT_SUB("C16", "txn", 3) { gch::G(s, true, false).Run(); }
VT_SUB("C16", "raw", 2) { gch::G(s, false, false).Run(); }
