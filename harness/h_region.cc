// C26 regions split and merge; C27 raft snapshots of store regions
#include "env.h"
namespace {
struct InitEnv {
  InitEnv() { vt::InitHook() = [] {
      env::C().yaml_extra = "region:\n  split_strategy: POST_CREATE_REGION\n";
      env::InitProcess();
    }; }
} g_init;
}  // namespace
#include "region_world.h"
using namespace rw;

VT_PROPERTY("C26", 6000, 200000,
            "a case is non-trivial when at least one split and one merge went through and another store was fed the same logs")

static std::vector<std::string> Pool(Src& s) {
  std::vector<std::string> v = {"ra", "rc", "re", "rg", "ri", "rk", "rm"};
  if (s.Chance(1, 3)) v.push_back(std::string("r") + '\0');
  if (s.Chance(1, 3)) v.push_back("rg" + std::string(s.Range(1, 9), '\0'));
  if (s.Chance(1, 3)) v.push_back("rg" + std::string(s.Range(1, 9), '\xff'));
  return v;
}
static void Setup(W& w, Src& s, const std::vector<std::string>& cut) {
  w.lo = cut.front();
  w.hi = cut.back();
  for (size_t i = 0; i + 1 < cut.size(); i++) w.defs.push_back(env::Def(101 + (int64_t)i, cut[i], cut[i + 1], false));
  env::g_raftlog.clear();
  w.leading = true;
  w.can_lead = true;
  w.Begin();
}
static env::RegionPtr Neighbour(W& w, Src& s, env::RegionPtr a) {
  std::vector<env::RegionPtr> v;
  for (auto& r : w.All())
    if (w.Normal(r) && r->Id() != a->Id() &&
        (r->Range(false).end_key() == a->Range(false).start_key() || r->Range(false).start_key() == a->Range(false).end_key()))
      v.push_back(r);
  return v.empty() ? nullptr : s.Pick(v);
}
static std::string SplitKey(Src& s, const std::vector<std::string>& pool, env::RegionPtr r) {
  auto a = r->Range(false).start_key(), b = r->Range(false).end_key();
  std::string k = s.Chance(3, 4) ? s.Pick(pool) + (s.Chance(1, 4) ? std::string(1, '\0') : "") : "r" + s.Bytes(3);
  if (s.Chance(1, 20)) return k;  // may be refused
  return k > a && k < b ? k : std::string();
}
static env::RegionPtr AnyNormal(W& w, Src& s) {
  std::vector<env::RegionPtr> v;
  for (auto& r : w.All())
    if (w.Normal(r)) v.push_back(r);
  VT_CHECK(!v.empty(), "range-lost", "no region is NORMAL: " << w.MetaStr());
  std::sort(v.begin(), v.end(), [](auto& x, auto& y) { return x->Id() < y->Id(); });
  return s.Pick(v);
}

VT_SUB("C26", "jobs", 1) {
  auto pool = Pool(s);
  std::vector<std::string> cut = {"r"};
  for (auto k : {"rd", "rg", "rj"})
    if (s.Chance(1, 3)) cut.push_back(k);
  cut.push_back("s");
  W w(s);
  w.Strategy(s.Bool());
  Setup(w, s, cut);
  std::vector<std::pair<W::Known, std::string>> old;  // what clients cached earlier, with a key that was in the region then
  int vals = 0;
  auto val = [&] { return "v" + std::to_string(++vals); };
  auto job = [&](env::RegionPtr r) {  // one split or merge of r
    if (s.Chance(1, 2)) {
      auto k = SplitKey(s, pool, r);
      if (!k.empty()) w.Split(r, k);
    } else if (auto b = Neighbour(w, s, r)) {
      if (s.Bool()) w.Merge(r, b);
      else w.Merge(b, r);
    }
  };
  int n = (int)s.Range(4, 24);
  bool crashes = s.Chance(1, 2);
  for (int i = 0; i < n; i++) {
    switch (s.Weighted({8, 4, 3, 2, 3, crashes ? 2 : 0})) {
      case 0: {  // write
        auto k = s.Pick(pool);
        auto r = w.Route(k);
        VT_CHECK(r, "range-lost", "no region for " << Hex(k) << ": " << w.MetaStr());
        std::vector<std::pair<std::string, std::string>> kvs{{k, val()}};
        for (auto& p : pool)
          if (s.Chance(1, 4) && p != k && w.Route(p) == r) kvs.emplace_back(p, val());
        bool nest = s.Chance(1, 4);
        if (nest) {
          w.nnest++;
          w.pre_append = [&](int64_t id) { job(s.Chance(3, 4) && W::Normal(w.Get(id)) ? w.Get(id) : AnyNormal(w, s)); };
        }
        s.Note("put %zu from %s to %ld%s", kvs.size(), Hex(k).c_str(), (long)r->Id(), nest ? " with a job before it is proposed" : "");
        auto to = w.Look(r);
        if (s.Chance(1, 4)) r->SetTxnAccessMaxTs(5000 + (int64_t)s.Below(1000));
        bool ok = w.Put(to, kvs);
        w.pre_append = nullptr;
        if (!nest) VT_CHECK(ok, "write-refused", "a write to " << w.Metas()[r->Id()].Str() << " was refused");
        if (s.Chance(1, 2)) old.emplace_back(to, k);
        break;
      }
      case 1: {  // split
        auto r = AnyNormal(w, s);
        auto k = SplitKey(s, pool, r);
        if (k.empty()) break;
        if (s.Chance(1, 6)) {
          w.nnest++;
          w.pre_append = [&](int64_t) { job(AnyNormal(w, s)); };
        }
        w.Split(r, k);
        w.pre_append = nullptr;
        break;
      }
      case 2: {  // merge
        auto a = AnyNormal(w, s);
        auto b = Neighbour(w, s, a);
        if (!b) break;
        w.Merge(a, b);
        break;
      }
      case 3: {  // a client with an old view
        if (old.empty()) break;
        auto& [to, k] = s.Pick(old);
        auto r = w.Get(to.id);
        bool cur = r && r->Epoch().version() == to.epoch.version() && W::Normal(r);
        auto m = w.model;
        s.Note("late put %s to %ld at v%ld", Hex(k).c_str(), (long)to.id, (long)to.epoch.version());
        bool ok = w.Put(to, {{k, val()}});
        w.nstale += !cur;
        VT_CHECK(ok == cur, "stale-epoch", "a write with epoch version " << to.epoch.version() << " was " << (ok ? "accepted" : "refused") << " by " << (r ? w.Metas()[to.id].Str() : "no region"));
        if (!ok) w.model = m;
        break;
      }
      case 4: {  // delete a range
        auto r = AnyNormal(w, s);
        auto a = s.Chance(1, 3) ? r->Range(false).start_key() : s.Pick(pool), b = s.Chance(1, 3) ? r->Range(false).end_key() : s.Pick(pool);
        if (a < r->Range(false).start_key() || b > r->Range(false).end_key() || a >= b) break;
        s.Note("delete [%s,%s) in %ld", Hex(a).c_str(), Hex(b).c_str(), (long)r->Id());
        VT_CHECK(w.DelRange(w.Look(r), a, b), "delete-refused", "");
        break;
      }
      case 5: {  // the store dies in the middle of a job
        w.Arm((int)s.Below(24));
        job(AnyNormal(w, s));
        bool died = w.crashed;
        w.Disarm();
        if (!died && s.Bool()) break;
        s.Note("restart%s", died ? " (died in the job)" : "");
        w.Reboot();
        w.FeedAll(s.Chance(1, 3) ? 10 : 0, 2);
        w.LeadAll();
        break;
      }
    }
    w.LeadAll();
    for (auto& r : w.All())  // where the last range change of each region is, after a job that died
      if (r->Epoch().version() != w.ver[r->Id()]) w.chg[r->Id()] = (int64_t)env::g_raftlog[r->Id()].size();
    w.CheckRanges("leader");
    if (s.Chance(1, 3)) w.CheckData("leader");
  }
  w.CheckData("leader");
  for (auto& r : w.All())
    if (W::Normal(r)) VT_CHECK(!r->TemporaryDisableChange(), "change-disabled", "no job is running and region " << r->Id() << " refuses any split or merge");
  auto metas = w.Metas();
  auto data = rocksdb::vs::Dump(DataDb(), Constant::kStoreDataCF);
  // other replicas
  w.leading = w.can_lead = false;
  int lives = (int)s.Range(1, 2);
  for (int i = 0; i < lives; i++) {
    s.Note("follower %d", i);
    w.done_.clear();
    w.Begin();
    w.FeedAll(s.OneOf<int>({0, 0, 10, 30}), (int)s.Range(1, 4));
    auto got = w.Metas();
    for (auto& [id, m] : metas) {
      VT_CHECK(got.count(id), "replica-region", "the follower has no region " << id << ", the leader has " << m.Str());
      if (m.state == P::common::TOMBSTONE && got[id].state == m.state) continue;  // its epoch depends on which of the two groups this store saw first
      VT_CHECK(got[id] == m, "replica-region", "region " << id << ": leader " << m.Str() << " follower " << got[id].Str());
    }
    VT_CHECK(got.size() == metas.size(), "replica-region", "the follower has more regions: " << w.MetaStr());
    auto d = rocksdb::vs::Dump(DataDb(), Constant::kStoreDataCF);
    VT_CHECK(d == data, "replica-data", "the follower holds " << d.size() << " records, the leader " << data.size());
    w.CheckRanges("follower");
    w.CheckData("follower");
    if (i + 1 == lives && s.Bool()) {  // it becomes the leader, with timestamps it got long ago
      w.LeadAll();
      s.Note("the follower leads");
      for (auto& k : pool) {
        auto r = w.Route(k);
        if (s.Bool()) VT_CHECK(w.Put(w.Look(r), {{k, val()}}), "write-refused", "a write to " << w.Metas()[r->Id()].Str() << " was refused by the new leader");
      }
      w.CheckData("new leader");
    }
  }
  if (w.nsplit && w.nmerge)
    s.NonTrivial(std::to_string(w.nsplit) + "/" + std::to_string(w.nmerge) + "/" + std::to_string(w.nwait) + "/" + std::to_string(w.ncrash) + "/" + std::to_string(w.seq) + "/" + std::to_string(s.rec_.size()));
}

#include "region_snap.h"

VT_PROPERTY("C27", 4000, 200000,
            "a case is non-trivial when the snapshot carried records, the leader's region changed after it was opened, and the follower held other data")

VT_SUB("C27", "install", 1) {
  W w(s);
  bool txn = s.Chance(1, 3);
  std::string x = txn ? "t" : "r";
  Setup(w, s, {x, x + "g", x + "m", std::string(1, x[0] + 1)});
  Snap27 sn(s, w);
  sn.txn = txn;
  sn.cfs = txn ? std::vector<std::string>{Constant::kTxnDataCF, Constant::kTxnLockCF, Constant::kTxnWriteCF} : std::vector<std::string>{Constant::kStoreDataCF};
  std::vector<std::string> pool = {x + "c", x + "f", x + "g", x + "h", x + "i", x + "k", x + std::string("l\xff\xff"), x + "m", x + "o"};
  pool.push_back(x + "g" + s.Bytes(9));
  pool.push_back(x + "j" + s.Bytes(20));
  if (s.Chance(1, 20)) pool.push_back(x + "k" + std::string(5000, 'k'));
  int vals = 0;
  auto val = [&]() -> std::string {
    std::string v = "v" + std::to_string(++vals);
    switch (s.Weighted({10, 2, 2, 1})) {
      case 1: return v + std::string(300, 'x');
      case 2: return txn ? v : "";
      case 3: return s.Chance(1, 4) ? v + std::string(40000, 'y') : v;
    }
    return v;
  };
  int64_t ts = 1000;
  struct T {
    int64_t start;
    std::vector<std::string> keys;
    W::Known to;
  };
  std::vector<T> open;
  auto txn_op = [&](const std::string& k) {
    auto r = w.Route(k);
    if (open.size() < 2 || s.Bool()) {
      P::store::TxnPrewriteRequest q;
      T t{++ts, {k}, w.Look(r)};
      for (auto& p : pool)
        if (p != k && s.Chance(1, 4) && w.Route(p) == r) t.keys.push_back(p);
      w.Cx(q, t.to);
      q.mutable_context()->set_isolation_level(P::store::SnapshotIsolation);
      q.set_primary_lock(k);
      q.set_start_ts(t.start);
      q.set_lock_ttl(Helper::TimestampMs() + 1000000);
      q.set_txn_size((int64_t)t.keys.size());
      q.set_try_one_pc(s.Chance(1, 4));
      bool one = q.try_one_pc();
      for (auto& y : t.keys) {
        auto* m = q.add_mutations();
        m->set_op(s.Chance(1, 5) ? P::store::Delete : P::store::Put);
        m->set_key(y);
        if (m->op() == P::store::Put) m->set_value(val());
      }
      env::Call(&StoreServiceImpl::TxnPrewrite, q);
      if (!one) open.push_back(t);
    } else {
      size_t i = s.Below(open.size());
      auto t = open[i];
      open.erase(open.begin() + (long)i);
      if (s.Chance(3, 4)) {
        P::store::TxnCommitRequest q;
        w.Cx(q, t.to);
        q.mutable_context()->set_isolation_level(P::store::SnapshotIsolation);
        q.set_start_ts(t.start);
        q.set_commit_ts(++ts);
        for (auto& y : t.keys) q.add_keys(y);
        env::Call(&StoreServiceImpl::TxnCommit, q);
      } else {
        P::store::TxnBatchRollbackRequest q;
        w.Cx(q, t.to);
        q.mutable_context()->set_isolation_level(P::store::SnapshotIsolation);
        q.set_start_ts(t.start);
        for (auto& y : t.keys) q.add_keys(y);
        env::Call(&StoreServiceImpl::TxnBatchRollback, q);
      }
    }
  };
  auto write = [&](bool here) {  // one request, to the region itself or anywhere
    auto k = s.Pick(pool);
    auto r = w.Route(k);
    for (int i = 0; here && r->Id() != sn.R && i < 8; i++) r = w.Route(k = s.Pick(pool));
    if (txn) return txn_op(k);
    if (s.Chance(1, 6)) {
      auto a = r->Range(false).start_key(), b = s.Bool() ? r->Range(false).end_key() : k + "5";
      if (a < b && b <= r->Range(false).end_key()) w.DelRange(w.Look(r), a, b);
      return;
    }
    std::vector<std::pair<std::string, std::string>> kvs{{k, val()}};
    for (auto& p : pool)
      if (s.Chance(1, 5) && p != k && w.Route(p) == r) kvs.emplace_back(p, val());
    VT_CHECK(w.Put(w.Look(r), kvs), "write-refused", "");
  };
  auto split = [&] {
    auto r = w.Get(sn.R);
    std::vector<std::string> v;
    for (auto& p : pool)
      if (p > r->Range(false).start_key() && p < r->Range(false).end_key()) v.push_back(p);
    if (!v.empty()) w.Split(r, s.Pick(v));
  };
  int n = (int)s.Range(2, 24);
  int split_pct = s.OneOf<int>({0, 0, 4, 10});
  for (int i = 0; i < n; i++) {
    if (s.Chance(split_pct)) split();
    else write(s.Bool());
  }
  auto between = [&] {
    if (s.Chance(split_pct)) split();
    else write(s.Bool());
  };
  auto racing = [&] {
    auto r = w.Get(sn.R);
    std::string k = r->Range(false).start_key();
    if (txn) {
      P::store::TxnPrewriteRequest q;
      w.Cx(q, w.Look(r));
      q.set_primary_lock(k);
      q.set_start_ts(++ts);
      q.set_try_one_pc(true);
      q.set_lock_ttl(Helper::TimestampMs() + 1000000);
      q.set_txn_size(1);
      auto* m = q.add_mutations();
      m->set_op(P::store::Put);
      m->set_key(k);
      m->set_value("race");
      env::Call(&StoreServiceImpl::TxnPrewrite, q);
    } else {
      w.Put(w.Look(r), {{k, "race"}});
    }
    sn.after_race = Snap27::DumpAll(sn.cfs, r->Range(false).start_key(), r->Range(false).end_key(), true);
    return true;
  };
  if (!w.pos[sn.R]) racing();
  sn.Copy(between, racing);
  n = (int)s.Below(6);
  for (int i = 0; i < n; i++) between();
  if (s.Chance(1, 12)) {  // a region whose raft node is already gone
    scoped_refptr<braft::FileSystemAdaptor> gone = new DingoFileSystemAdaptor(999);
    VT_CHECK(!gone->open_snapshot("/nowhere"), "snapshot-open", "a snapshot of a region without a raft node was opened");
    gone->close_snapshot("/nowhere");
  }
  auto lm = w.Metas();
  std::map<int64_t, Cfs> ldata;
  for (auto& [id, m] : lm) ldata[id] = Snap27::DumpAll(sn.cfs, m.start, m.end, true);
  auto rlen = (int64_t)env::g_raftlog[sn.R].size();

  // a follower that is somewhere behind
  w.leading = w.can_lead = false;
  w.Begin();
  int64_t lag = s.Bool() ? 0 : (int64_t)s.Below((uint64_t)std::min<int64_t>(sn.local_index + 1, sn.want_index));
  s.Note("follower: region %ld at %ld of %ld", (long)sn.R, (long)lag, (long)rlen);
  for (int64_t id : {int64_t(101), sn.R, int64_t(103)}) {
    int64_t to = id == sn.R ? lag : (int64_t)s.Below(env::g_raftlog[id].size() + 1);
    if (to > 0) w.Feed(id, (int)to);
  }
  sn.Receive();
  auto m0 = w.Metas()[sn.R];
  auto& sm = sn.want_meta;
  auto outside = Snap27::DumpAll(sn.cfs, m0.start, m0.end, false);  // the snapshot's range is in the follower's
  auto before = Snap27::DumpAll(sn.cfs, m0.start, m0.end, true);
  auto live = rocksdb::vs::LiveReaders(DataDb());
  int crash = s.Chance(1, 2) ? (int)s.Range(1, 2) : 0;
  if (crash) sn.Arm((int)s.Below(8));
  sn.Load("first");
  bool died = false;
  while (w.crashed) {
    died = true;
    s.Note("the store dies while it installs the snapshot");
    sn.Reboot(--crash ? (int)s.Below(8) : -1);
  }
  w.Disarm();
  auto m1 = w.Metas()[sn.R];
  VT_CHECK(m1 == sm, "install-meta", "installed " << m1.Str() << " the snapshot has " << sm.Str());
  Snap27::Same(Snap27::DumpAll(sn.cfs, sm.start, sm.end, true), sn.want, "install-data", "the follower's region is not the snapshot");
  Snap27::Same(Snap27::DumpAll(sn.cfs, m0.start, m0.end, false), outside, "install-outside", "records of other regions changed");
  if (!died) VT_CHECK(rocksdb::vs::LiveReaders(DataDb()) == live, "install-leak", "");
  // it goes on from there
  int reboots = s.Chance(1, 2) ? (int)s.Range(1, 3) : 0;
  for (int step = 0; step < 200; step++) {
    std::vector<int64_t> v;
    for (int64_t id : {int64_t(101), sn.R, int64_t(103)})
      if (w.pos[id] < (int64_t)env::g_raftlog[id].size()) v.push_back(id);
    if (reboots && s.Chance(1, 4)) {
      reboots--;
      s.Note("restart at %ld", (long)w.pos[sn.R]);
      if (s.Chance(1, 3)) sn.SaveOwn();
      sn.Reboot();
      continue;
    }
    if (v.empty()) break;
    w.Feed(s.Pick(v), (int)s.Range(1, 6));
  }
  auto fm = w.Metas();
  for (int64_t id : {int64_t(101), sn.R, int64_t(103)}) {
    VT_CHECK(fm[id] == lm[id], "catch-up-meta", "leader " << lm[id].Str() << " follower " << fm[id].Str());
    Snap27::Same(Snap27::DumpAll(sn.cfs, lm[id].start, lm[id].end, true), ldata[id], "catch-up-data", "region " + std::to_string(id) + " differs from the leader's after the rest of the log");
  }
  size_t recs = 0;
  for (auto& [c, m] : sn.want) recs += m.size();
  if (recs && rlen > sn.want_index && before != sn.want)
    s.NonTrivial(std::to_string(recs) + "/" + std::to_string(rlen) + "/" + std::to_string(sn.want_index) + "/" + std::to_string(lag) + "/" + std::to_string(s.rec_.size()));
}

int main(int argc, char** argv) {
  FLAGS_minloglevel = getenv("VT_LOG") ? 0 : 3;
  return vt::Main(argc, argv);
}
