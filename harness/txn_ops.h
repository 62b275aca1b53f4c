#pragma once
// Executable model of the transaction requests of one region: locks, write records and data as plain maps.  Every request is
// sent to the real store service and to the model; answers and the whole content of the three column families must agree.
#include "env_svc.h"
#include "mvcc/codec.h"
namespace dingodb { DECLARE_int64(max_short_value_in_write_cf); }

namespace txo {
using namespace dingodb;
namespace P = dingodb::pb::store;
using vt::Hex;
using vt::Src;
using Svc = StoreServiceImpl;
using Lk = P::LockInfo;
using Wr = P::WriteInfo;
constexpr int64_t kMax = INT64_MAX;

inline int64_t T(int64_t p, int64_t l) { return (p << 18) + l; }
inline bool LongVal(const std::string& v) { return (int64_t)v.size() > FLAGS_max_short_value_in_write_cf; }
inline std::string Sh(const std::string& v) { return v.size() > 12 ? Hex(v.substr(0, 4)) + "~" + std::to_string(v.size()) : Hex(v); }
inline std::string Str(const Lk& l) {
  std::ostringstream o;
  o << Hex(l.key()) << " prim " << Hex(l.primary_lock()) << " ts " << l.lock_ts() << " fut " << l.for_update_ts() << " ttl " << l.lock_ttl() << " type "
    << l.lock_type() << " size " << l.txn_size() << " min " << l.min_commit_ts() << " async " << l.use_async_commit() << " val " << Sh(l.short_value())
    << " extra " << Sh(l.extra_data()) << " sec";
  for (auto& k : l.secondaries()) o << " " << Hex(k);
  return o.str();
}
inline std::string Str(const P::TxnResultInfo& r) {
  std::ostringstream o;
  if (r.has_locked()) o << "locked(" << Str(r.locked()) << ") ";
  if (r.has_write_conflict())
    o << "conflict(" << r.write_conflict().reason() << " " << r.write_conflict().start_ts() << " " << r.write_conflict().conflict_ts() << " "
      << Hex(r.write_conflict().key()) << ") ";
  if (r.has_txn_not_found()) o << "notfound(" << r.txn_not_found().start_ts() << ") ";
  if (r.has_primary_mismatch()) o << "mismatch(" << Str(r.primary_mismatch().lock_info()) << ") ";
  if (r.has_commit_ts_expired())
    o << "expired(" << r.commit_ts_expired().start_ts() << " " << r.commit_ts_expired().attempted_commit_ts() << " " << Hex(r.commit_ts_expired().key())
      << " " << r.commit_ts_expired().min_commit_ts() << ") ";
  return o.str();
}

struct Model {
  std::map<std::string, Lk> locks;
  std::map<std::string, std::map<int64_t, Wr>> writes;
  std::map<std::pair<std::string, int64_t>, std::string> data;
  int64_t max_ts = 0;

  const Lk* Lock(const std::string& k) const {
    auto it = locks.find(k);
    return it == locks.end() ? nullptr : &it->second;
  }
  // newest put or delete with commit in [lo, hi], optionally of one transaction
  std::pair<int64_t, const Wr*> Newest(const std::string& k, int64_t lo = 0, int64_t hi = kMax, int64_t owner = 0) const {
    auto it = writes.find(k);
    if (it == writes.end()) return {0, nullptr};
    for (auto r = it->second.rbegin(); r != it->second.rend(); ++r) {
      if (r->first > hi || r->first < lo) continue;
      if (r->second.op() != P::Put && r->second.op() != P::Delete) continue;
      if (owner && r->second.start_ts() != owner) continue;
      return {r->first, &r->second};
    }
    return {0, nullptr};
  }
  int64_t Own(const std::string& k, int64_t S) const { return Newest(k, S, kMax, S).first; }
  bool RolledBack(const std::string& k, int64_t S) const {
    auto it = writes.find(k);
    if (it == writes.end()) return false;
    auto w = it->second.find(S);
    return w != it->second.end() && w->second.op() == P::Rollback;
  }
  std::string Value(const std::string& k, const Wr& w) const {
    if (w.op() != P::Put) return "";
    if (!w.short_value().empty()) return w.short_value();
    auto it = data.find({k, w.start_ts()});
    return it == data.end() ? "" : it->second;
  }
  std::string Read(const std::string& k, int64_t ts) const {
    auto [c, w] = Newest(k, 0, ts);
    return w ? Value(k, *w) : "";
  }
  void PutRollback(const std::string& k, int64_t S) {
    auto& m = writes[k];
    auto it = m.find(S);
    if (it != m.end() && it->second.op() != P::Rollback) return;
    Wr w;
    w.set_start_ts(S);
    w.set_op(P::Rollback);
    m[S] = w;
  }
  void DoCommit(const Lk& l, int64_t C) {
    Wr w;
    w.set_start_ts(l.lock_ts());
    w.set_op(l.lock_type());
    if (!l.short_value().empty()) w.set_short_value(l.short_value());
    writes[l.key()][C] = w;
    locks.erase(l.key());
  }
  void DoRollback(const Lk& l) {
    Lk c = l;
    PutRollback(c.key(), c.lock_ts());
    if (c.short_value().empty()) data.erase({c.key(), c.lock_ts()});
    locks.erase(c.key());
  }
  bool Conflict(const std::string& k, int64_t ts, bool rc, const std::set<int64_t>& resolved, Lk* out) const {
    auto l = Lock(k);
    if (!l || resolved.count(l->lock_ts()) || l->min_commit_ts() > ts) return false;
    bool c;
    if (rc)
      c = l->for_update_ts() > 0 && l->lock_type() != P::Lock && l->for_update_ts() < ts;
    else
      c = (l->for_update_ts() > 0 ? l->for_update_ts() : l->lock_ts()) < ts;
    if (c && out) *out = *l;
    return c;
  }
  std::string Dump() const {
    std::ostringstream o;
    for (auto& [k, l] : locks) o << "L " << Str(l) << "\n";
    for (auto& [k, m] : writes)
      for (auto& [ts, w] : m) o << "W " << Hex(k) << "@" << ts << " start " << w.start_ts() << " op " << w.op() << " " << Sh(w.short_value()) << "\n";
    for (auto& [k, v] : data) o << "D " << Hex(k.first) << "@" << k.second << " " << Sh(v) << "\n";
    return o.str();
  }
};

inline std::string DumpReal() {
  std::ostringstream o;
  std::vector<pb::common::KeyValue> l, w, d;
  auto a = mvcc::Codec::EncodeBytes("a"), z = mvcc::Codec::EncodeBytes("zz");
  auto rd = env::S().rocks_raw_engine_->Reader();
  VT_CHECK(rd->KvScan(Constant::kTxnLockCF, a, z, l).ok() && rd->KvScan(Constant::kTxnWriteCF, a, z, w).ok() && rd->KvScan(Constant::kTxnDataCF, a, z, d).ok(),
           "dump", "scan failed");
  std::string k;
  int64_t ts;
  for (auto& kv : l) {
    Lk x;
    VT_CHECK(mvcc::Codec::DecodeKey(kv.key(), k, ts) && x.ParseFromString(kv.value()) && x.key() == k, "lock-record", "bad lock record of " << Hex(k));
    o << "L " << Str(x) << "\n";
  }
  std::map<std::string, std::map<int64_t, std::string>> ord;
  for (auto& kv : w) {
    Wr x;
    VT_CHECK(mvcc::Codec::DecodeKey(kv.key(), k, ts) && x.ParseFromString(kv.value()), "write-record", "bad write record");
    std::ostringstream q;
    q << "W " << Hex(k) << "@" << ts << " start " << x.start_ts() << " op " << x.op() << " " << Sh(x.short_value()) << "\n";
    ord[k][ts] = q.str();
  }
  for (auto& [a1, m] : ord)
    for (auto& [b1, q] : m) o << q;
  std::map<std::pair<std::string, int64_t>, std::string> dd;
  for (auto& kv : d) {
    VT_CHECK(mvcc::Codec::DecodeKey(kv.key(), k, ts), "data-record", "bad data record");
    dd[{k, ts}] = kv.value();
  }
  for (auto& [kk, v] : dd) o << "D " << Hex(kk.first) << "@" << kk.second << " " << Sh(v) << "\n";
  return o.str();
}

struct Ops {
  Src& s;
  Model m;
  std::vector<std::string> keys;
  std::vector<int64_t> starts;
  int64_t phys = 1000;
  int seq = 0;
  uint64_t effects = 0, refused = 0;
  bool allow_1pc = true;
  int val_n = 0;

  explicit Ops(Src& src) : s(src) {
    env::Fresh();
    env::SvcBoot();
    env::AddRegion(env::Def(201, "t", "u", false));
    static const char* pool[] = {"ta", "tb", "tk", "tz", "tm"};
    int n = s.Range(1, 5);
    for (int i = 0; i < n; i++) keys.push_back(pool[i]);
    if (s.Chance(1, 4)) keys.push_back(keys[0] + std::string(s.Range(1, 9), (char)s.OneOf<int>({0, 0xff})));
    std::sort(keys.begin(), keys.end());
    int nt = s.Range(1, 4);
    for (int i = 0; i < nt; i++) starts.push_back(NewTs());
  }
  int64_t NewTs() {
    if (s.Chance(1, 4)) phys += s.Range(1, 5);
    return T(phys, ++seq);
  }
  // any timestamp: fresh, near an existing one
  int64_t AnyTs() {
    switch (s.Below(4)) {
      case 0: return NewTs();
      case 1: return s.Pick(starts);
      case 2: return s.Pick(starts) + s.Range(-2, 3);
      default: {
        std::vector<int64_t> c;
        for (auto& [k, w] : m.writes)
          for (auto& [ts, x] : w) c.push_back(ts);
        for (auto& [k, l] : m.locks) {
          c.push_back(l.min_commit_ts());
          c.push_back(l.for_update_ts());
        }
        if (c.empty()) return NewTs();
        int64_t t = s.Pick(c);
        if (t > kMax / 2) return NewTs();
        t += s.Range(-1, 1);
        return t > 0 ? t : NewTs();
      }
    }
  }
  int64_t Start() { return s.Pick(starts); }
  std::vector<std::string> Keys(bool dup = false) {
    std::vector<std::string> r;
    int n = s.Range(1, (int)keys.size() + (dup ? 1 : 0));
    for (int i = 0; i < n; i++) {
      auto& k = s.Pick(keys);
      if (!dup && std::find(r.begin(), r.end(), k) != r.end()) continue;
      r.push_back(k);
    }
    return r;
  }
  std::string Val() {
    std::string v = "v" + std::to_string(++val_n);
    if (s.Chance(1, 3)) v += std::string(FLAGS_max_short_value_in_write_cf + s.Range(-3, 3) - (int)v.size() + (s.Chance(1, 4) ? 50 : 0), 'x');
    return v;
  }
  env::RegionPtr RP() { return env::S().GetRegion(201); }
  template <class Q>
  void Cx(Q& q, bool rc = false) {
    env::SetCtx(q, RP(), rc ? P::ReadCommitted : P::SnapshotIsolation);
  }
  template <class A, class B>
  void Same(const char* what, const std::string& desc, const A& want, const B& got) {
    s.Note(desc + "\n    -> " + std::string(got));
    VT_CHECK(want == got, what, desc << "\n  expected: " << want << "\n  got:      " << got << "\n" << m.Dump());
  }
  void State(const char* what, const std::string& desc) {
    auto a = m.Dump(), b = DumpReal();
    VT_CHECK(a == b, std::string(what) + "-state", desc << "\n--- expected content\n" << a << "--- actual content\n" << b);
  }
  static std::string Err(const pb::error::Error& e) { return e.errcode() ? "error " : ""; }
  std::string KeyList(const std::vector<std::string>& ks) {
    std::string r;
    for (auto& k : ks) r += Hex(k) + " ";
    return r;
  }

  // ---------------------------------------------------------------- prewrite
  void Prewrite() {
    P::TxnPrewriteRequest q;
    Cx(q);
    int64_t S = Start();
    q.set_start_ts(S);
    auto ks = Keys();
    std::string prim = s.Chance(4, 5) ? ks[0] : s.Pick(keys);
    if (auto l = m.Lock(ks[0]); l && l->lock_ts() == S && s.Chance(3, 4)) prim = l->primary_lock();
    q.set_primary_lock(prim);
    q.set_lock_ttl(phys + s.Range(-3, 6));
    q.set_txn_size(s.Range(1, 5));
    bool onepc = s.Chance(1, 5), async = s.Chance(1, 3);
    q.set_try_one_pc(onepc);
    if (async)
      for (auto& k : ks)
        if (k != prim) q.add_secondaries(k);
    q.set_use_async_commit(async);
    async = async && q.secondaries_size() > 0;
    int64_t minreq = s.Chance(1, 3) ? S + s.Range(1, 5) : 0;
    if (s.Chance(1, 6)) minreq = AnyTs();
    q.set_min_commit_ts(minreq);
    int64_t maxc = s.Chance(1, 3) ? std::max<int64_t>(S + s.Range(0, 6), s.Chance(1, 2) ? AnyTs() : 0) : 0;
    q.set_max_commit_ts(maxc);
    bool pess = false;
    std::vector<int> pc;
    std::map<int, int64_t> fc;
    for (auto& k : ks) {
      auto l = m.Lock(k);
      bool has = l && l->lock_ts() == S && l->for_update_ts() > 0;
      bool p = has ? s.Chance(5, 6) : s.Chance(1, 12);
      pess |= p;
      pc.push_back(p);
    }
    if (pess || s.Chance(1, 8))
      for (size_t i = 0; i < ks.size(); i++) {
        q.add_pessimistic_checks(pc[i] ? P::DO_PESSIMISTIC_CHECK : P::SKIP_PESSIMISTIC_CHECK);
        auto l = m.Lock(ks[i]);
        if (pc[i] && s.Chance(1, 2)) {
          fc[i] = l && s.Chance(4, 5) ? l->for_update_ts() : AnyTs();
          auto* c = q.add_for_update_ts_checks();
          c->set_index(i);
          c->set_expected_for_update_ts(fc[i]);
        }
      }
    std::ostringstream ds;
    ds << "prewrite start " << S << " primary " << Hex(prim) << (onepc ? " 1pc" : "") << (async ? " async" : "") << " min " << minreq << " max " << maxc << " ttl "
       << q.lock_ttl();
    for (size_t i = 0; i < ks.size(); i++) {
      auto* mu = q.add_mutations();
      mu->set_key(ks[i]);
      size_t op = s.Weighted({10, 4, 3, 2, s.Chance(1, 6) ? 1 : 0});
      static const P::Op ops[] = {P::Put, P::Delete, P::PutIfAbsent, P::CheckNotExists, P::Lock};
      mu->set_op(ops[op]);
      if (op == 0 || op == 2) mu->set_value(s.Chance(1, 40) ? "" : Val());
      ds << "; " << P::Op_Name(ops[op]) << " " << Hex(ks[i]) << "=" << Sh(mu->value()) << " pc" << (q.pessimistic_checks_size() ? pc[i] : 0)
         << (fc.count(i) ? " fut=" + std::to_string(fc[i]) : "");
    }
    int bad = s.Chance(1, 25) ? s.Range(1, 4) : 0;
    if (bad == 1) q.set_start_ts(0);
    if (bad == 2) q.set_lock_ttl(0);
    if (bad == 3) q.set_txn_size(0);
    if (bad == 4) q.mutable_mutations(0)->set_key(s.Bool() ? "s" : "u");
    auto r = env::Call(&Svc::TxnPrewrite, q);
    std::ostringstream got, want;
    got << Err(r.error());
    if (!r.error().errcode()) {
      for (auto& x : r.txn_result()) got << Str(x);
      for (auto& x : r.keys_already_exist()) got << "exists(" << Hex(x.key()) << ") ";
      got << "min " << r.min_commit_ts() << " 1pc " << r.one_pc_commit_ts();
    }
    bool eff = false;
    if (bad)
      want << "error ";
    else
      eff = ModelPrewrite(q, want, async, onepc, pc, fc);
    Same("prewrite", ds.str(), want.str(), got.str());
    State("prewrite", ds.str());
    (eff ? effects : refused)++;
  }
  bool ModelPrewrite(const P::TxnPrewriteRequest& q, std::ostringstream& w, bool async, bool onepc, const std::vector<int>& pcv, const std::map<int, int64_t>& fc) {
    int64_t S = q.start_ts(), fin = 0;
    std::vector<std::string> results;
    std::string exists;
    struct Out {
      Lk l;
      std::string val;
      bool pc;
      bool one;
    };
    std::vector<Out> outs;
    std::vector<std::pair<std::string, std::string>> datas;
    auto early = [&](int64_t c) {
      for (auto& x : results) w << x;
      w << exists;
      w << "min " << (async ? c : 0) << " 1pc " << (onepc ? c : 0);
    };
    for (int i = 0; i < q.mutations_size(); i++) {
      auto& mu = q.mutations(i);
      bool pc = q.pessimistic_checks_size() && pcv[i];
      const Lk* l = m.Lock(mu.key());
      bool mine = l && l->lock_ts() == S, repeated = false;
      int64_t own = m.Own(mu.key(), S);
      auto locked = [&] {
        P::TxnResultInfo t;
        *t.mutable_locked() = *l;
        results.push_back(Str(t));
      };
      if (l && (!mine || (!pc && l->lock_type() == P::Lock))) {
        if (own) {
          early(own);
          return false;
        }
        locked();
        continue;
      }
      if (mine) {
        if (l->lock_type() != P::Lock)
          repeated = true;
        else if (fc.count(i) && fc.at(i) != l->for_update_ts()) {
          locked();
          continue;
        }
      }
      if (m.RolledBack(mu.key(), S)) {
        P::TxnResultInfo t;
        auto* c = t.mutable_write_conflict();
        c->set_reason(P::WriteConflict_Reason_SelfRolledBack);
        c->set_start_ts(S);
        c->set_conflict_ts(S);
        c->set_key(mu.key());
        results.push_back(Str(t));
        break;
      }
      auto [nc, nw] = m.Newest(mu.key());
      if (nc >= S && (!pc || !l)) {
        if (own) {
          early(own);
          return false;
        }
        P::TxnResultInfo t;
        auto* c = t.mutable_write_conflict();
        c->set_reason(P::WriteConflict_Reason_Optimistic);
        c->set_start_ts(S);
        c->set_conflict_ts(nc);
        c->set_key(mu.key());
        results.push_back(Str(t));
        break;
      }
      bool there = nw && nw->op() == P::Put;
      if (mu.op() == P::PutIfAbsent && there) {
        exists += "exists(" + Hex(mu.key()) + ") ";
        break;
      }
      if (mu.op() == P::CheckNotExists) {
        if (pc) {
          w << "error ";
          return false;
        }
        if (there) exists += "exists(" + Hex(mu.key()) + ") ";
      }
      if (repeated) {
        onepc = false;
        if (async && l->use_async_commit())
          fin = std::max<int64_t>(fin, l->min_commit_ts());
        else
          async = false;
        continue;
      }
      if (mu.op() == P::Lock || ((mu.op() == P::Put || mu.op() == P::PutIfAbsent) && mu.value().empty())) {
        w << "error ";
        return false;
      }
      int64_t temp = 0;
      if (mu.op() == P::CheckNotExists) {
        if (onepc || async) temp = S + 1;
      } else {
        Lk n = l ? *l : Lk();
        n.set_primary_lock(q.primary_lock());
        n.set_lock_ts(S);
        n.set_key(mu.key());
        n.set_lock_ttl(q.lock_ttl());
        n.set_txn_size(q.txn_size());
        n.set_min_commit_ts(std::max<int64_t>(n.min_commit_ts(), q.min_commit_ts()));
        n.set_lock_type(mu.op() == P::Delete ? P::Delete : P::Put);
        if (mu.op() != P::Delete) {
          if (LongVal(mu.value()))
            datas.push_back({mu.key(), mu.value()});
          else
            n.set_short_value(mu.value());
        }
        if (async) {
          n.set_use_async_commit(true);
          if (mu.key() == q.primary_lock()) *n.mutable_secondaries() = q.secondaries();
        }
        if (onepc || async) {
          int64_t fut = std::max<int64_t>(fc.count(i) ? fc.at(i) : 0, l ? l->for_update_ts() : 0);
          temp = std::max<int64_t>(std::max({m.max_ts, S, fut}) + 1, n.min_commit_ts());
          if (q.max_commit_ts() && temp > q.max_commit_ts()) {
            temp = 0;
            onepc = async = false;
            n.set_use_async_commit(false);
            n.clear_secondaries();
          } else
            n.set_min_commit_ts(temp);
        }
        outs.push_back({n, mu.value(), pc, onepc});
      }
      if (onepc || async)
        fin = std::max(fin, temp);
      else
        fin = 0;
    }
    for (auto& x : results) w << x;
    w << exists;
    w << "min " << (async ? fin : 0);
    if (!results.empty() || !exists.empty()) {
      w << " 1pc 0";
      return false;
    }
    w << " 1pc " << (onepc ? fin : 0);
    for (auto& [k, v] : datas) m.data[{k, S}] = v;
    for (auto& o : outs) {
      if (onepc) {
        if (o.pc)
          m.locks.erase(o.l.key());
        Wr x;
        x.set_start_ts(S);
        x.set_op(o.l.lock_type());
        x.set_short_value(o.l.short_value());
        m.writes[o.l.key()][fin] = x;
      } else
        m.locks[o.l.key()] = o.l;
    }
    return !outs.empty();
  }

  // ---------------------------------------------------------------- pessimistic lock / rollback
  void PessLock() {
    P::TxnPessimisticLockRequest q;
    Cx(q);
    int64_t S = Start();
    auto ks = Keys();
    int64_t fut = s.Chance(1, 3) ? S : std::max(AnyTs(), S);
    for (auto& k : ks) {  // timestamps are unique: no commit of another transaction at exactly start_ts or for_update_ts
      auto it = m.writes.find(k);
      if (it == m.writes.end()) continue;
      for (auto t : {S, fut}) {
        auto w = it->second.find(t);
        if (w != it->second.end() && w->second.op() != P::Rollback) return;
      }
    }
    std::string prim = s.Chance(4, 5) ? ks[0] : s.Pick(keys);
    bool rv = s.Chance(1, 2);
    q.set_start_ts(S);
    q.set_primary_lock(prim);
    q.set_for_update_ts(fut);
    q.set_lock_ttl(phys + s.Range(-3, 6));
    q.set_return_values(rv);
    for (auto& k : ks) {
      auto* mu = q.add_mutations();
      mu->set_op(P::Lock);
      mu->set_key(k);
      if (s.Chance(1, 4)) mu->set_value("x" + std::to_string(++val_n));
    }
    int bad = s.Chance(1, 25) ? s.Range(1, 4) : 0;
    if (bad == 1) q.set_start_ts(0);
    if (bad == 2) q.set_for_update_ts(0);
    if (bad == 3) q.set_lock_ttl(0);
    if (bad == 4) q.mutable_mutations(0)->set_op(P::Put);
    std::string ds = "pessimistic lock start " + std::to_string(S) + " fut " + std::to_string(fut) + " of " + KeyList(ks) + (rv ? "return values" : "");
    auto r = env::Call(&Svc::TxnPessimisticLock, q);
    std::ostringstream got, want;
    got << Err(r.error());
    if (!r.error().errcode()) {
      for (auto& x : r.txn_result()) got << Str(x);
      if (!r.txn_result_size())
        for (auto& kv : r.kvs()) got << Hex(kv.key()) << "=" << Sh(kv.value()) << " ";
    }
    bool eff = false;
    if (bad)
      want << "error ";
    else {
      std::vector<Lk> puts;
      std::string res, vals;
      for (int i = 0; i < q.mutations_size(); i++) {
        auto& k = q.mutations(i).key();
        auto l = m.Lock(k);
        auto [nc, nw] = m.Newest(k);
        P::TxnResultInfo t;
        if (l && (l->for_update_ts() == 0 || l->lock_ts() != S || l->lock_type() != P::Lock || l->for_update_ts() > fut)) {
          *t.mutable_locked() = *l;
          res += Str(t);
          continue;
        }
        if (!l && (nc >= fut || m.Own(k, S))) {
          auto* c = t.mutable_write_conflict();
          c->set_reason(P::WriteConflict_Reason_PessimisticRetry);
          c->set_start_ts(S);
          c->set_conflict_ts(nc);
          c->set_key(k);
          res += Str(t);
          continue;
        }
        std::string v = m.Read(k, kMax);
        if (rv && l) v = m.Read(k, fut);
        if (rv) vals += Hex(k) + "=" + Sh(v) + " ";
        if (l && l->for_update_ts() == fut) continue;
        Lk n = l ? *l : Lk();
        n.set_primary_lock(prim);
        n.set_lock_ts(S);
        n.set_for_update_ts(fut);
        n.set_key(k);
        n.set_lock_ttl(q.lock_ttl());
        n.set_lock_type(P::Lock);
        n.set_extra_data(q.mutations(i).value());
        puts.push_back(n);
      }
      want << res;
      if (res.empty()) {
        want << vals;
        for (auto& n : puts) m.locks[n.key()] = n;
        eff = !puts.empty();
      }
    }
    Same("pessimistic-lock", ds, want.str(), got.str());
    State("pessimistic-lock", ds);
    (eff ? effects : refused)++;
  }
  void PessRollback() {
    P::TxnPessimisticRollbackRequest q;
    Cx(q);
    int64_t S = Start(), fut = s.Chance(1, 2) ? kMax : AnyTs();
    auto ks = Keys(true);
    q.set_start_ts(S);
    q.set_for_update_ts(fut);
    for (auto& k : ks) q.add_keys(k);
    std::string ds = "pessimistic rollback start " + std::to_string(S) + " fut " + std::to_string(fut) + " of " + KeyList(ks);
    auto r = env::Call(&Svc::TxnPessimisticRollback, q);
    std::string got = Err(r.error()), want;
    for (auto& x : r.txn_result()) got += Str(x);
    std::vector<std::string> dels;
    for (auto& k : ks) {
      auto l = m.Lock(k);
      if (!l) continue;
      if (l->lock_type() != P::Lock || l->lock_ts() != S || l->for_update_ts() > fut) {
        P::TxnResultInfo t;
        *t.mutable_locked() = *l;
        want += Str(t);
      } else
        dels.push_back(k);
    }
    if (want.empty())
      for (auto& k : dels) m.locks.erase(k);
    Same("pessimistic-rollback", ds, want, got);
    State("pessimistic-rollback", ds);
    (want.empty() && dels.size() ? effects : refused)++;
  }
  // a commit timestamp that is likely acceptable
  int64_t CommitTs(int64_t S, const std::vector<std::string>& ks) {
    int64_t c = 0;
    for (auto& k : ks) {
      auto l = m.Lock(k);
      if (l && l->lock_ts() == S && l->min_commit_ts() < kMax) c = std::max<int64_t>(c, l->min_commit_ts());
      auto o = m.Own(k, S);
      if (o && s.Chance(3, 4)) return o + (s.Chance(1, 8) ? s.Range(-2, 2) : 0);
    }
    if (s.Chance(1, 6)) return AnyTs();
    if (c > S && s.Chance(1, 2)) return c - (s.Chance(1, 4) ? 1 : 0);
    return std::max(NewTs(), c);
  }
  // commits never reuse a timestamp another transaction's record of that key already has (timestamps are unique)
  bool Clash(int64_t S, int64_t C, const std::vector<std::string>& ks) {
    for (auto& k : ks) {
      auto it = m.writes.find(k);
      if (it == m.writes.end()) continue;
      auto w = it->second.find(C);
      if (w != it->second.end() && w->second.start_ts() != S) return true;
    }
    return false;
  }
  void Commit() {
    P::TxnCommitRequest q;
    Cx(q);
    int64_t S = Start();
    auto ks = Keys(true);
    if (s.Chance(2, 3)) {
      std::vector<std::string> mine;
      for (auto& [k, l] : m.locks)
        if (l.lock_ts() == S) mine.push_back(k);
      if (!mine.empty()) ks = mine;
    }
    int64_t C = CommitTs(S, ks);
    if (Clash(S, C, ks)) return;
    q.set_start_ts(S);
    q.set_commit_ts(C);
    for (auto& k : ks) q.add_keys(k);
    std::string ds = "commit start " + std::to_string(S) + " at " + std::to_string(C) + " of " + KeyList(ks);
    auto r = env::Call(&Svc::TxnCommit, q);
    std::string got = Err(r.error()) + (r.error().errcode() ? "" : Str(r.txn_result())), want;
    std::vector<Lk> todo;
    if (C <= S)
      want = "error ";
    else
      for (auto& k : ks) {
        auto l = m.Lock(k);
        P::TxnResultInfo t;
        if (l && l->lock_ts() == S) {
          if (l->lock_type() == P::Lock)
            *t.mutable_locked() = *l;
          else if (C < l->min_commit_ts()) {
            auto* e = t.mutable_commit_ts_expired();
            e->set_start_ts(S);
            e->set_attempted_commit_ts(C);
            e->set_key(k);
            e->set_min_commit_ts(l->min_commit_ts());
          } else {
            todo.push_back(*l);
            continue;
          }
        } else {
          auto [own, w] = m.Newest(k, S, C, S);
          if (own == C) continue;
          if (own || m.RolledBack(k, S)) {
            auto* c = t.mutable_write_conflict();
            c->set_reason(P::WriteConflict_Reason_SelfRolledBack);
            c->set_start_ts(S);
            c->set_conflict_ts(S);
            c->set_key(k);
          } else if (l)
            *t.mutable_locked() = *l;
          else
            t.mutable_txn_not_found()->set_start_ts(S);
        }
        want = Str(t);
        break;
      }
    if (want.empty())
      for (auto& l : todo) m.DoCommit(l, C);
    Same("commit", ds, want, got);
    State("commit", ds);
    (want.empty() && todo.size() ? effects : refused)++;
  }
  void Rollback() {
    P::TxnBatchRollbackRequest q;
    Cx(q);
    int64_t S = Start();
    auto ks = Keys(true);
    q.set_start_ts(S);
    for (auto& k : ks) q.add_keys(k);
    std::string ds = "rollback start " + std::to_string(S) + " of " + KeyList(ks);
    auto r = env::Call(&Svc::TxnBatchRollback, q);
    std::string got = Err(r.error()) + Str(r.txn_result()), want;
    std::vector<Lk> todo;
    std::vector<std::string> miss;
    for (auto& k : ks) {
      auto l = m.Lock(k);
      if (!l) {
        if (!m.RolledBack(k, S) && !m.Own(k, S)) miss.push_back(k);
        continue;
      }
      if (l->lock_ts() != S || l->lock_type() == P::Lock) {
        P::TxnResultInfo t;
        *t.mutable_locked() = *l;
        want = Str(t);
        break;
      }
      todo.push_back(*l);
    }
    if (want.empty()) {
      for (auto& l : todo) m.DoRollback(l);
      for (auto& k : miss) m.PutRollback(k, S);
    }
    Same("rollback", ds, want, got);
    State("rollback", ds);
    (want.empty() && (todo.size() || miss.size()) ? effects : refused)++;
  }
  void CheckStatus() {
    P::TxnCheckTxnStatusRequest q;
    Cx(q);
    int64_t S = Start();
    std::string k = s.Pick(keys);
    if (s.Chance(2, 3) && !m.locks.empty()) {
      auto it = m.locks.begin();
      std::advance(it, s.Below(m.locks.size()));
      S = it->second.lock_ts();
      k = s.Chance(3, 4) ? it->second.primary_lock() : it->first;
    }
    int64_t caller = AnyTs(), cur = T(phys + s.Range(-4, 6), s.Below(3));
    if (s.Chance(1, 12)) caller = kMax;
    bool force = s.Bool(), rb = s.Bool();
    q.set_primary_key(k);
    q.set_lock_ts(S);
    q.set_caller_start_ts(caller);
    q.set_current_ts(cur);
    q.set_force_sync_commit(force);
    q.set_rollback_if_not_exist(rb);
    std::ostringstream ds;
    ds << "check status of " << S << " at " << Hex(k) << " caller " << caller << " now " << cur << (force ? " force" : "") << (rb ? " rollback" : "");
    auto r = env::Call(&Svc::TxnCheckTxnStatus, q);
    std::ostringstream got, want;
    got << Err(r.error()) << Str(r.txn_result()) << "ttl " << r.lock_ttl() << " commit " << r.commit_ts() << " action " << r.action();
    m.max_ts = std::max({m.max_ts, S, caller == kMax ? 0 : caller});
    auto l = m.Lock(k);
    P::TxnResultInfo t;
    int64_t ttl = 0, cts = 0;
    int act = P::NoAction;
    bool eff = false;
    if (l && l->lock_ts() == S) {
      if (l->key() != l->primary_lock())
        *t.mutable_primary_mismatch()->mutable_lock_info() = *l;
      else if (l->use_async_commit() && !force)
        *t.mutable_locked() = *l;
      else {
        if (l->lock_type() == P::Lock) *t.mutable_locked() = *l;
        if (l->lock_ttl() >= (cur >> 18)) {
          ttl = l->lock_ttl();
          int64_t push = std::min(caller, kMax - 1) + 1;
          if (l->min_commit_ts() < push) {
            m.locks[k].set_min_commit_ts(push);
            act = P::MinCommitTSPushed;
            eff = true;
          }
        } else {
          m.DoRollback(*l);
          act = P::TTLExpireRollback;
          eff = true;
        }
      }
    } else if (m.RolledBack(k, S))
      act = P::LockNotExistRollback;
    else if (auto own = m.Own(k, S)) {
      cts = own;
      act = P::LockNotExistDoNothing;
    } else if (rb) {
      m.PutRollback(k, S);
      act = P::LockNotExistRollback;
      eff = true;
    } else
      t.mutable_txn_not_found()->set_start_ts(S);
    want << Str(t) << "ttl " << ttl << " commit " << cts << " action " << act;
    Same("check-status", ds.str(), want.str(), got.str());
    State("check-status", ds.str());
    (eff ? effects : refused)++;
  }
  void CheckSecondary() {
    P::TxnCheckSecondaryLocksRequest q;
    Cx(q);
    int64_t S = Start();
    auto ks = Keys();
    q.set_start_ts(S);
    for (auto& k : ks) q.add_keys(k);
    std::string ds = "check secondaries of " + std::to_string(S) + ": " + KeyList(ks);
    auto r = env::Call(&Svc::TxnCheckSecondaryLocks, q);
    std::ostringstream got, want;
    got << Err(r.error()) << Str(r.txn_result()) << "commit " << r.commit_ts();
    for (auto& l : r.locks()) got << " | " << Str(l);
    m.max_ts = std::max(m.max_ts, S);
    P::TxnResultInfo t;
    int64_t c = 0;
    std::string lks;
    bool eff = false;
    for (auto& k : ks) {
      auto l = m.Lock(k);
      if (l && l->lock_ts() == S) {
        if (l->lock_type() == P::Lock) {
          *t.mutable_locked() = *l;
          break;
        }
        lks += " | " + Str(*l);
        continue;
      }
      if (m.RolledBack(k, S)) break;
      if ((c = m.Own(k, S))) break;
      m.PutRollback(k, S);
      eff = true;
      t.mutable_txn_not_found()->set_start_ts(S);
      break;
    }
    want << Str(t) << "commit " << c << lks;
    Same("check-secondary", ds, want.str(), got.str());
    State("check-secondary", ds);
    (eff ? effects : refused)++;
  }
  void Resolve() {
    P::TxnResolveLockRequest q;
    Cx(q);
    std::string got, want, ds;
    bool eff = false;
    if (s.Chance(2, 3)) {
      int64_t S = Start();
      auto ks = Keys(true);
      int64_t C = s.Chance(1, 2) ? 0 : CommitTs(S, ks);
      if (s.Chance(1, 20)) C = -1;
      if (C > 0 && Clash(S, C, ks)) return;
      q.set_start_ts(S);
      q.set_commit_ts(C);
      for (auto& k : ks) q.add_keys(k);
      ds = "resolve " + std::to_string(S) + " to " + std::to_string(C) + " of " + KeyList(ks);
      auto r = env::Call(&Svc::TxnResolveLock, q);
      got = Err(r.error()) + (r.error().errcode() ? "" : Str(r.txn_result()));
      std::vector<Lk> todo;
      if (C < 0 || (C > 0 && C <= S))
        want = "error ";
      else
        for (auto& k : ks) {
          auto l = m.Lock(k);
          if (!l || l->lock_ts() != S) continue;
          if (l->lock_type() == P::Lock) {
            P::TxnResultInfo t;
            *t.mutable_locked() = *l;
            want = Str(t);
            break;
          }
          todo.push_back(*l);
        }
      if (want.empty())
        for (auto& l : todo) C > 0 ? m.DoCommit(l, C) : m.DoRollback(l);
      eff = want.empty() && todo.size();
    } else {
      std::map<int64_t, int64_t> in;
      int n = s.Range(1, 3);
      for (int i = 0; i < n; i++) {
        int64_t S = Start();
        int64_t C = s.Chance(1, 2) ? 0 : CommitTs(S, keys);
        if (C > 0 && Clash(S, C, keys)) C = 0;
        in[S] = C;
      }
      ds = "resolve all locks of";
      for (auto& [a, b] : in) {
        auto* x = q.add_txn_infos();
        x->set_start_ts(a);
        x->set_commit_ts(b);
        ds += " " + std::to_string(a) + "->" + std::to_string(b);
      }
      auto r = env::Call(&Svc::TxnResolveLock, q);
      got = Err(r.error()) + (r.error().errcode() ? "" : Str(r.txn_result()));
      for (auto& [S, C] : in)
        if (C > 0 && C <= S) want = "error ";
      if (want.empty())
        for (auto& [S, C] : in) {
          std::vector<Lk> todo;
          for (auto& [k, l] : m.locks)
            if (l.lock_ts() == S) {
              if (l.lock_type() == P::Lock) {
                P::TxnResultInfo t;
                *t.mutable_locked() = l;
                want = Str(t);
                break;
              }
              todo.push_back(l);
            }
          if (!want.empty()) break;
          for (auto& l : todo) C > 0 ? m.DoCommit(l, C) : m.DoRollback(l);
          eff |= todo.size() > 0;
        }
    }
    Same("resolve", ds, want, got);
    State("resolve", ds);
    (eff ? effects : refused)++;
  }
  void HeartBeat() {
    P::TxnHeartBeatRequest q;
    Cx(q);
    int64_t S = Start();
    auto k = s.Pick(keys);
    if (s.Chance(2, 3) && !m.locks.empty()) {
      auto it = m.locks.begin();
      std::advance(it, s.Below(m.locks.size()));
      k = it->first;
      if (s.Chance(4, 5)) S = it->second.lock_ts();
    }
    int64_t ttl = phys + s.Range(-4, 10);
    q.set_primary_lock(k);
    q.set_start_ts(S);
    q.set_advise_lock_ttl(ttl);
    auto r = env::Call(&Svc::TxnHeartBeat, q);
    std::string ds = "heartbeat of " + std::to_string(S) + " at " + Hex(k) + " ttl " + std::to_string(ttl);
    std::ostringstream got, want;
    got << Err(r.error()) << Str(r.txn_result()) << "ttl " << r.lock_ttl();
    auto l = m.Lock(k);
    bool eff = false;
    if (!l || l->lock_ts() != S)
      want << "notfound(" << S << ") ttl 0";
    else {
      eff = l->lock_ttl() < ttl;
      if (eff) m.locks[k].set_lock_ttl(ttl);
      want << "ttl " << m.locks[k].lock_ttl();
    }
    Same("heartbeat", ds, want.str(), got.str());
    State("heartbeat", ds);
    (eff ? effects : refused)++;
  }

  // ---------------------------------------------------------------- reads
  uint64_t nread = 0, nread_conf = 0, npages = 0, nread_data = 0;
  std::set<int64_t> ResolvedSet() {
    std::set<int64_t> r;
    if (s.Chance(1, 3)) r.insert(Start());
    if (s.Chance(1, 8)) r.insert(Start());
    return r;
  }
  void Get() {
    bool rc = s.Chance(1, 4);
    int64_t ts = s.Chance(1, 10) ? kMax : AnyTs();
    auto res = ResolvedSet();
    auto ks = Keys(true);
    std::string got, want, ds;
    bool single = s.Bool();
    if (single) ks.resize(1);
    ds = std::string(rc ? "rc " : "") + "read at " + std::to_string(ts) + " of " + KeyList(ks);
    for (auto x : res) ds += " resolved " + std::to_string(x);
    if (single) {
      P::TxnGetRequest q;
      Cx(q, rc);
      q.set_key(ks[0]);
      q.set_start_ts(ts);
      for (auto x : res) q.mutable_context()->add_resolved_locks(x);
      auto r = env::Call(&Svc::TxnGet, q);
      got = Err(r.error()) + Str(r.txn_result()) + (r.txn_result().has_locked() ? "" : Hex(ks[0]) + "=" + Sh(r.value()) + " ");
    } else {
      P::TxnBatchGetRequest q;
      Cx(q, rc);
      for (auto& k : ks) q.add_keys(k);
      q.set_start_ts(ts);
      for (auto x : res) q.mutable_context()->add_resolved_locks(x);
      auto r = env::Call(&Svc::TxnBatchGet, q);
      got = Err(r.error()) + Str(r.txn_result());
      if (!r.txn_result().has_locked())
        for (auto& kv : r.kvs()) got += Hex(kv.key()) + "=" + Sh(kv.value()) + " ";
    }
    if (ts != kMax) m.max_ts = std::max(m.max_ts, ts);
    for (auto& k : ks) {
      Lk l;
      if (m.Conflict(k, ts, rc, res, &l)) {
        P::TxnResultInfo t;
        *t.mutable_locked() = l;
        want = Str(t);
        nread_conf++;
        break;
      }
      auto v = m.Read(k, rc ? kMax : ts);
      nread_data += !v.empty();
      want += Hex(k) + "=" + Sh(v) + " ";
    }
    nread++;
    Same("get", ds, want, got);
  }
  void Scan() {
    bool rc = s.Chance(1, 4), konly = s.Chance(1, 5), ws = s.Chance(3, 4), we = s.Chance(1, 4);
    int64_t ts = AnyTs();
    auto res = ResolvedSet();
    std::string a = s.Bool() ? "t" : s.Pick(keys), b = s.Bool() ? "u" : s.Pick(keys);
    if (s.Chance(1, 6)) a += '\0';
    if (b == "u" || b.back() == '\xff') we = false;  // the successor of such keys is a known finding of C04
    if (a == "t" || a.back() == '\xff') ws = true;
    if (a >= b) return;
    int lim = s.Range(1, 4);
    std::string ds = std::string(rc ? "rc " : "") + "scan at " + std::to_string(ts) + " " + (ws ? "[" : "(") + Hex(a) + "," + Hex(b) + (we ? "]" : ")") +
                     " limit " + std::to_string(lim) + (konly ? " keys only" : "");
    for (auto x : res) ds += " resolved " + std::to_string(x);
    std::string got, want, sid, prev;
    for (int page = 0;; page++) {
      VT_CHECK(page < 50, "scan-no-end", ds << " does not end");
      P::TxnScanRequest q;
      Cx(q, rc);
      q.set_start_ts(ts);
      q.mutable_range()->mutable_range()->set_start_key(a);
      q.mutable_range()->mutable_range()->set_end_key(b);
      q.mutable_range()->set_with_start(ws);
      q.mutable_range()->set_with_end(we);
      q.set_key_only(konly);
      q.mutable_stream_meta()->set_limit(lim);
      if (!sid.empty()) q.mutable_stream_meta()->set_stream_id(sid);
      for (auto x : res) q.mutable_context()->add_resolved_locks(x);
      auto r = env::Call(&Svc::TxnScan, q);
      npages += page > 0;
      got += Err(r.error());
      VT_CHECK(r.kvs_size() <= lim, "scan-limit", ds << " returned " << r.kvs_size() << " pairs");
      for (auto& kv : r.kvs()) got += Hex(kv.key()) + "=" + Sh(kv.value()) + " ";
      got += Str(r.txn_result());
      if (r.error().errcode() || r.txn_result().has_locked() || !r.has_more()) break;
      sid = r.stream_meta().stream_id();
      VT_CHECK(!sid.empty(), "scan-stream", ds << " has more but names no stream");
    }
    if (ts != kMax) m.max_ts = std::max(m.max_ts, ts);
    for (auto& k : keys) {
      // an inclusive end covers, and an exclusive start skips, every key with that prefix
      if (k < a || (!ws && k.compare(0, a.size(), a) == 0) || (k >= b && !(we && k.compare(0, b.size(), b) == 0))) continue;
      Lk l;
      if (m.Conflict(k, ts, rc, res, &l)) {
        P::TxnResultInfo t;
        *t.mutable_locked() = l;
        want += Str(t);
        nread_conf++;
        break;
      }
      auto v = m.Read(k, rc ? kMax : ts);
      nread_data += !v.empty();
      if (!v.empty()) want += Hex(k) + "=" + (konly ? Sh("") : Sh(v)) + " ";
    }
    nread++;
    Same("scan", ds, want, got);
  }
  void ScanLock() {
    std::string a = s.Bool() ? "t" : s.Pick(keys), b = s.Bool() ? "u" : s.Pick(keys);
    if (a >= b) return;
    int64_t mx = s.Bool() ? kMax : AnyTs();
    int lim = s.Range(1, 3);
    std::string ds = "scan locks below " + std::to_string(mx) + " in [" + Hex(a) + "," + Hex(b) + ") limit " + std::to_string(lim), got, want, sid;
    for (int page = 0;; page++) {
      VT_CHECK(page < 50, "scan-lock-no-end", ds << " does not end: " << got);
      P::TxnScanLockRequest q;
      Cx(q);
      q.set_max_ts(mx);
      q.set_start_key(a);
      q.set_end_key(b);
      q.mutable_stream_meta()->set_limit(lim);
      if (!sid.empty()) q.mutable_stream_meta()->set_stream_id(sid);
      auto r = env::Call(&Svc::TxnScanLock, q);
      got += Err(r.error()) + Str(r.txn_result());
      VT_CHECK(r.locks_size() <= lim, "scan-lock-limit", ds);
      for (auto& l : r.locks()) got += " | " + Str(l);
      npages += page > 0;
      if (r.error().errcode() || !r.has_more()) break;
      sid = r.stream_meta().stream_id();
      VT_CHECK(!sid.empty(), "scan-stream", ds << " has more but names no stream");
    }
    for (auto& [k, l] : m.locks)
      if (k >= a && k < b && l.lock_ts() < mx) want += " | " + Str(l);
    nread++;
    Same("scan-lock", ds, want, got);
  }

  void Step(std::initializer_list<int> w) {
    if (s.Chance(1, 10)) starts.push_back(NewTs());
    switch (s.Weighted(w)) {
      case 0: return Prewrite();
      case 1: return PessLock();
      case 2: return PessRollback();
      case 3: return Commit();
      case 4: return Rollback();
      case 5: return CheckStatus();
      case 6: return CheckSecondary();
      case 7: return Resolve();
      case 8: return HeartBeat();
      case 9: return Get();
      case 10: return Scan();
      default: return ScanLock();
    }
  }
};
}  // namespace txo
