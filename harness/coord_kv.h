#pragma once
// Version kv, leases and one-time watches against an exact model that is advanced when an entry gets its place in the log.
namespace dingodb {
#define KVH(N, M) void Do##N(google::protobuf::RpcController*, const pb::version::M##Request*, pb::version::M##Response*, TrackClosure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>)
#define KVR(N, M) void Do##N(google::protobuf::RpcController*, const pb::version::M##Request*, pb::version::M##Response*, google::protobuf::Closure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>)
KVH(KvPut, Put);
KVH(KvDeleteRange, DeleteRange);
KVH(LeaseGrant, LeaseGrant);
KVH(LeaseRevoke, LeaseRevoke);
KVH(LeaseRenew, LeaseRenew);
KVR(KvRange, Range);
KVR(KvCompaction, Compaction);
KVR(Watch, Watch);
KVR(LeaseQuery, LeaseQuery);
KVR(ListLeases, ListLeases);
KVR(GetRawKvRev, GetRawKvRev);
DECLARE_bool(auto_compaction);
DECLARE_int64(compaction_retention_rev_count);
}  // namespace dingodb
namespace kvh {
namespace pv = pb::version;
using Rev = std::pair<int64_t, int64_t>;
struct Rec {
  std::string key, value;
  Rev create, mod;
  int64_t version = 0, lease = 0;
  bool del = false, loose = false;
};
struct Key {
  bool live = false;
  Rec last;
  std::vector<Rev> revs;  // what a compaction may remove
};
struct Lease {
  int64_t ttl, renew;
};
struct Watcher {
  pv::WatchRequest q;
  pv::WatchResponse a;
  brpc::Controller c;
  struct D : public TrackClosure {
    D() : TrackClosure(Tracker::New(pb::common::RequestInfo())) {}
    int n = 0;
    void Run() override { n++; }
  } d;
  std::string key;
  int64_t start = 0, term = 0;
  uint64_t id = 0;
  bool noput = false, nodel = false, prev = false;
  bool fired = false, loose = false;
  pv::Event want;
};

struct H {
  Src& s;
  World w;
  // the model
  std::map<std::string, Key> keys;
  std::map<Rev, Rec> revs;
  std::set<Rev> gone;
  int64_t rev = 10000;
  std::map<int64_t, Lease> leases;
  std::set<int64_t> granted;
  std::map<int64_t, Lease> known;        // what the leader knows
  bool inited = false;                   // the leader's lease task ran in this term
  bool clean = true;                     // no raced request in this term
  std::function<void()> pend;
  bool committed = false, racing = false;
  std::vector<std::unique_ptr<Watcher>> watches;
  int nwrite = 0, nrace = 0, nfault = 0, nelect = 0, nrestart = 0, nsnap = 0, nfired = 0, nexpired = 0, ncompact = 0, ncrash = 0;
  std::vector<std::string> pool;

  explicit H(Src& s_) : s(s_), w(3, 1u << kKv) {
    w.on_commit = [this](int, int64_t) {
      committed = true;
      if (!pend) return;
      auto p = std::move(pend);
      pend = nullptr;
      p();
    };
    pool = {"a", "b", "ab", std::string("a\0", 2), "\xff\xff", "c"};
  }
  static int64_t Now() { return g_now_us / 1000000; }
  std::shared_ptr<KvControl> Kv() { return w.L(kKv) ? w.L(kKv)->kv : nullptr; }
  std::shared_ptr<Engine> Eng() { return w.L(kKv)->eng; }
  static std::string Show(const std::string& k) { return k.size() > 8 ? "len" + std::to_string(k.size()) : Helper::StringToHex(k); }

  // ---- model transitions
  static void Fill(pv::Kv& o, const Rec& r, bool with_value = true) {
    o.set_create_revision(r.create.first);
    o.set_mod_revision(r.mod.first);
    o.set_version(r.version);
    o.set_lease(r.lease);
    o.mutable_kv()->set_key(r.key);
    if (with_value) o.mutable_kv()->set_value(r.value);
  }
  void Fire(const std::string& key, bool del, const Rec& now, const Rec* before) {
    for (auto& p : watches) {
      auto& x = *p;
      if (x.fired || x.key != key || (del ? x.nodel : x.noput) || x.start > now.mod.first) continue;
      x.fired = true;
      x.loose = now.loose || (before && before->loose);
      x.want.Clear();
      x.want.set_type(del ? pv::Event::DELETE : pv::Event::PUT);
      Fill(*x.want.mutable_kv(), now);
      if (x.prev && before) Fill(*x.want.mutable_prev_kv(), *before);
    }
  }
  bool ApplyPut(const std::string& key, const std::string& value, int64_t lease, bool igl, bool igv, Rev r) {
    auto it = keys.find(key);
    bool had = it != keys.end(), live = had && it->second.live;
    Rec n;
    n.key = key;
    n.mod = r;
    n.create = live ? it->second.last.create : r;
    n.version = live ? it->second.last.version + 1 : 1;
    n.value = !igv ? value : had ? it->second.last.value : "";
    n.lease = igl ? (had ? it->second.last.lease : 0) : lease;
    if (n.lease > 0 && !leases.count(n.lease)) return false;
    Rec before = live ? it->second.last : Rec();
    auto& k = keys[key];
    k.live = true;
    k.last = n;
    k.revs.push_back(r);
    revs[r] = n;
    Fire(key, false, n, live ? &before : nullptr);
    return true;
  }
  void ApplyDelete(const std::string& key, Rev r) {
    auto it = keys.find(key);
    if (it == keys.end()) return;
    auto& k = it->second;
    Rec n;
    n.key = key;
    n.mod = r;
    n.del = true;
    Rec before = k.last;
    bool live = k.live;
    if (live)
      n.create = k.last.create, n.version = k.last.version + 1, k.revs.push_back(r);
    else
      n.loose = true;
    k.last = n;
    k.live = false;
    revs[r] = n;
    Fire(key, true, n, live ? &before : nullptr);
  }
  void ApplyCompact(const std::string& key, int64_t at) {
    auto it = keys.find(key);
    if (it == keys.end()) return;
    auto& k = it->second;
    std::vector<Rev> keep;
    for (size_t i = 0; i < k.revs.size(); i++) {
      if (k.revs[i].first >= at || (k.live && i + 1 == k.revs.size()))
        keep.push_back(k.revs[i]);
      else
        revs.erase(k.revs[i]), gone.insert(k.revs[i]);
    }
    k.revs = keep;
    if (keep.empty()) keys.erase(it);
  }
  std::vector<std::string> LiveIn(const std::string& key, const std::string& end) {
    std::vector<std::string> o;
    for (auto& [k, v] : keys)
      if (v.live && (end.empty() ? k == key : k >= key && (end == std::string(1, '\0') || k < end))) o.push_back(k);
    return o;
  }

  // ---- faults and races
  std::set<std::string> deleting;  // by a request that is still in flight
  int armed = 0, crashed = -1;
  void Fault() {
    armed = 0;
    if (racing) return;
    if (s.Chance(5)) w.fault = kDrop, armed = 1;
    else if (s.Chance(5)) w.fault = kCommitUnknown, armed = 2;
    else if (s.Chance(6)) {
      w.ArmCrash(w.leader[kKv], s.Below(6));
      armed = 3;
    } else if (s.Chance(12)) {
      w.pre_append = [this] {
        auto save = std::move(pend);
        pend = nullptr;
        auto c = committed;
        racing = true;
        clean = false;
        nrace++;
        s.Note("  meanwhile:");
        Write();
        s.Note("  end");
        racing = false;
        w.fault = kNone;
        pend = std::move(save);
        committed = c;
      };
    }
  }
  // returns whether the answer has to be judged (the leader survived and no fault was injected)
  bool Call(const std::function<void()>& f) {
    committed = false;
    if (racing) {
      f();
      pend = nullptr;
      return true;
    }
    int l = w.leader[kKv];
    bool ok = w.Do(kKv, f);
    pend = nullptr;
    w.pre_append = nullptr;
    bool hit = armed == 1 || armed == 2 ? w.fault == kNone : false;
    w.fault = kNone;
    if (!ok) {
      s.Note("  crashed c%d", l);
      ncrash++;
      LostLeader(true);
      crashed = l;
      return false;
    }
    if (hit) {
      nfault++;
      s.Note(armed == 1 ? "  dropped" : "  commit unknown");
      w.StepDown(kKv);
      LostLeader(false);
      return false;
    }
    return w.leader[kKv] == l;
  }
  void LostLeader(bool crashed) {
    inited = false;
    clean = true;
    for (auto& x : watches)
      if (!crashed) VT_CHECK(x->d.n == 1, "watch-hangs", "the leader stepped down and a watch was answered " + std::to_string(x->d.n) + " times");
    watches.clear();
  }
  void CheckWatches() {
    for (size_t i = 0; i < watches.size();) {
      auto& x = *watches[i];
      if (!x.fired) {
        VT_CHECK(x.d.n == 0, "watch-early", "a watch was answered without a matching event: " + x.a.ShortDebugString());
        i++;
        continue;
      }
      nfired++;
      VT_CHECK(x.d.n == 1, "watch-count", "a matching event happened and the watch was answered " + std::to_string(x.d.n) + " times");
      VT_CHECK(x.a.events_size() == 1, "watch-events", "a watch was answered with " + std::to_string(x.a.events_size()) + " events");
      auto e = x.a.events(0);
      if (x.loose)
        VT_CHECK(e.type() == x.want.type(), "watch-type", "watch delivered " + e.ShortDebugString() + " expected " + x.want.ShortDebugString());
      else {
        if (!x.prev || !x.want.has_prev_kv()) {
          if (!x.want.has_prev_kv() && e.has_prev_kv()) VT_CHECK(e.prev_kv().ByteSizeLong() == 0, "watch-prev", "watch delivered a previous value that does not exist: " + e.ShortDebugString());
          e.clear_prev_kv();
        }
        VT_CHECK(e.SerializeAsString() == x.want.SerializeAsString(), "watch-event", "watch delivered {" + e.ShortDebugString() + "} expected {" + x.want.ShortDebugString() + "}");
      }
      watches.erase(watches.begin() + i);
    }
  }

  // ---- requests
  std::string AnyKey() {
    if (s.Chance(1, 60)) return std::string(s.OneOf({4095, 4096, 4097}), 'k');
    return s.Pick(pool);
  }
  int64_t AnyLease() {
    if (leases.empty() || s.Chance(15)) return s.OneOf<int64_t>({0, 5, racing ? 6 : 90001, 12345, -3});
    auto it = leases.begin();
    std::advance(it, s.Below(leases.size()));
    return it->first;
  }
  bool LeaseAlive(int64_t id) {
    return known.count(id) && known[id].ttl - (Now() - known[id].renew) > 0;
  }
  void Put() {
    auto kv = Kv();
    if (!kv) return;
    pv::PutRequest q;
    std::string key = AnyKey();
    auto it = keys.find(key);
    bool live = it != keys.end() && it->second.live;
    Rec old = live ? it->second.last : Rec();
    bool igl = s.Chance(20), igv = s.Chance(15), prev = s.Chance(30);
    int64_t lease = s.Chance(live ? 75 : 50) ? old.lease : s.Bool() ? 0 : AnyLease();
    std::string value = s.Chance(3) ? "" : s.Chance(2) ? std::string(s.OneOf({8192, 8193}), 'v') : "v" + std::to_string(s.Below(1000));
    q.mutable_key_value()->set_key(key);
    if (!igv || s.Bool()) q.mutable_key_value()->set_value(value);
    value = q.key_value().value();
    q.set_lease(lease);
    q.set_ignore_lease(igl);
    q.set_ignore_value(igv);
    q.set_need_prev_kv(prev);
    s.Note("put %s %s lease %lld%s%s%s", Show(key).c_str(), value.size() > 8 ? "big" : value.c_str(), (long long)lease, igl ? " ignore_lease" : "", igv ? " ignore_value" : "", prev ? " prev" : "");
    int expect = 1;  // 0 error, 1 ok, 2 either
    int64_t lg = igl ? old.lease : live ? old.lease : lease;
    if (key.size() > 4096) expect = 0;
    else if (!igv && (value.empty() || value.size() > 8192)) expect = 0;
    else if (!igl && lease != 0 && (!inited || !LeaseAlive(lease))) expect = 0;
    else if (igl ? !live : (live && old.lease != lease)) expect = 0;
    else if (lg != 0 && (!inited || !known.count(lg))) expect = 2;
    Rev r;
    bool applied = false;
    pend = [&] {
      r = {++rev, 1};
      applied = ApplyPut(key, value, lg, igl, igv, r);
    };
    pv::PutResponse a;
    Tracked d;
    brpc::Controller c;
    if (!racing) Fault();
    bool judge = Call([&] { DoKvPut(&c, &q, &a, &d, kv, Eng()); });
    nwrite++;
    CheckWatches();
    if (!judge) return;
    VT_CHECK(d.ran, "no-reply", "put was not answered");
    bool ok = a.error().errcode() == 0;
    if (expect == 0) {
      VT_CHECK(!ok && !committed, "put-accepted", "a put that must be refused was accepted");
      return;
    }
    if (!committed) {
      VT_CHECK(expect == 2, "put-refused", "a valid put was refused: " + a.error().ShortDebugString());
      return;
    }
    VT_CHECK(ok == applied, "put-outcome", "put answered " + a.error().ShortDebugString() + (applied ? ", it took effect" : ", its lease was gone"));
    if (!ok) return;
    VT_CHECK(a.header().revision() == r.first, "put-revision", "put answered revision " + std::to_string(a.header().revision()) + ", it is " + std::to_string(r.first));
    pv::Kv w0;
    if (live) Fill(w0, old);
    if (prev) VT_CHECK(a.prev_kv().SerializeAsString() == w0.SerializeAsString(), "put-prev", "put returned previous {" + a.prev_kv().ShortDebugString() + "} expected {" + w0.ShortDebugString() + "}");
  }
  std::pair<std::string, std::string> AnyRange() {
    std::string k = s.Pick(pool), e;
    switch (s.Below(4)) {
      case 0: break;
      case 1: e = std::string(1, '\0'); break;
      default: e = s.Pick(pool);
    }
    return {k, e};
  }
  void Delete() {
    auto kv = Kv();
    if (!kv) return;
    pv::DeleteRangeRequest q;
    auto [k, e] = AnyRange();
    if (s.Bool()) e.clear();
    q.set_key(k);
    q.set_range_end(e);
    q.set_need_prev_kv(s.Chance(30));
    auto ks = LiveIn(k, e);
    std::vector<Rec> olds;
    for (auto& x : ks) olds.push_back(keys[x].last);
    s.Note("delete [%s,%s) -> %d keys", Show(k).c_str(), Show(e).c_str(), (int)ks.size());
    int64_t r = 0;
    pend = [&] {
      if (ks.empty()) return;
      r = ++rev;
      int64_t sub = 1;
      for (auto& x : ks) ApplyDelete(x, {r, sub++});
    };
    pv::DeleteRangeResponse a;
    Tracked d;
    brpc::Controller c;
    if (!racing) Fault();
    if (!racing) deleting.insert(ks.begin(), ks.end());
    bool judge = Call([&] { DoKvDeleteRange(&c, &q, &a, &d, kv, Eng()); });
    if (!racing) deleting.clear();
    nwrite++;
    CheckWatches();
    if (!judge) return;
    VT_CHECK(d.ran && a.error().errcode() == 0, "delete-refused", "a delete was refused: " + a.error().ShortDebugString());
    VT_CHECK(a.deleted() == (int64_t)ks.size(), "delete-count", "deleted " + std::to_string(a.deleted()) + " keys, expected " + std::to_string(ks.size()));
    VT_CHECK(ks.empty() || committed, "delete-lost", "a delete was acknowledged and not written");
    if (!ks.empty()) VT_CHECK(a.header().revision() == r, "delete-revision", "delete answered revision " + std::to_string(a.header().revision()) + ", it is " + std::to_string(r));
    if (q.need_prev_kv()) {
      VT_CHECK(a.prev_kvs_size() == (int)ks.size(), "delete-prev", "number of previous values");
      for (int i = 0; i < a.prev_kvs_size(); i++) {
        pv::Kv x;
        Fill(x, olds[i]);
        VT_CHECK(x.SerializeAsString() == a.prev_kvs(i).SerializeAsString(), "delete-prev", "delete returned previous {" + a.prev_kvs(i).ShortDebugString() + "} expected {" + x.ShortDebugString() + "}");
      }
    }
  }
  void Grant() {
    auto kv = Kv();
    if (!kv) return;
    pv::LeaseGrantRequest q;
    int64_t id = s.Chance(60) ? 0 : s.OneOf<int64_t>({5, 6, 90002, -1});
    int64_t ttl = s.OneOf<int64_t>({3, 4, 5, 10, 1, 300, 301, 0, -5});
    if (racing && id > 0) id = 0;
    q.set_id(id);
    q.set_ttl(ttl);
    s.Note("grant %lld ttl %lld", (long long)id, (long long)ttl);
    int64_t eff = std::min<int64_t>(300, std::max<int64_t>(3, ttl)), now = Now();
    int64_t got = id;
    size_t at = 0;
    pend = [&] {
      at = w.log[kKv].size();
      pb::raft::RaftCmdRequest cmd;
      if (got == 0) {  // the id is only known to the entry
        if (cmd.ParseFromString(w.log[kKv][at - 1].data))
          for (auto& rq : cmd.requests())
            for (auto& l : rq.meta_req().meta_increment().leases()) got = l.id();
      }
      leases[got] = Lease{eff, now};
      known[got] = leases[got];
    };
    pv::LeaseGrantResponse a;
    Tracked d;
    brpc::Controller c;
    bool had = id && leases.count(id);
    if (id > 0 && ttl > 0 && !had && inited) known.emplace(id, Lease{eff, now});
    if (!racing) Fault();
    bool judge = Call([&] { DoLeaseGrant(&c, &q, &a, &d, kv, Eng()); });
    nwrite++;
    CheckWatches();
    if (!judge) return;
    VT_CHECK(d.ran, "no-reply", "grant was not answered");
    bool ok = a.error().errcode() == 0;
    if (id < 0 || ttl <= 0 || had || !inited) {
      VT_CHECK(!ok && !committed, "grant-accepted", "a grant that must be refused was accepted");
      return;
    }
    if (!ok && id == 0) {  // an automatic id may collide with one a client chose
      VT_CHECK(!committed && a.error().errmsg().find("already exists") != std::string::npos, "grant-refused", "a grant was refused: " + a.error().ShortDebugString());
      return;
    }
    VT_CHECK(ok && committed, "grant-refused", "a grant was refused: " + a.error().ShortDebugString());
    VT_CHECK(a.id() == got && a.id() != 0 && a.ttl() == eff, "grant-answer", "grant answered " + a.ShortDebugString());
    if (id != 0) return;
    VT_CHECK(!granted.count(got), "lease-id-twice", "lease id " + std::to_string(got) + " was granted before");
    granted.insert(got);
  }
  void ApplyRevoke(int64_t id, const std::vector<std::string>& ks, int64_t r, int64_t& sub) {
    leases.erase(id);
    known.erase(id);
    for (auto& x : ks) ApplyDelete(x, {r, sub++});
  }
  std::vector<std::string> Attached(int64_t id) {
    std::vector<std::string> o;
    for (auto& [k, v] : keys)
      if (v.live && v.last.lease == id && !deleting.count(k)) o.push_back(k);
    return o;
  }
  void Revoke() {
    auto kv = Kv();
    if (!kv) return;
    pv::LeaseRevokeRequest q;
    int64_t id = AnyLease();
    q.set_id(id);
    auto ks = Attached(id);
    bool had = leases.count(id) && (!inited || known.count(id));
    if (inited && had) known.erase(id);
    s.Note("revoke %lld (%d keys)", (long long)id, (int)ks.size());
    pend = [&] {
      int64_t sub = 1;
      if (!ks.empty()) rev++;
      ApplyRevoke(id, ks, rev, sub);
    };
    pv::LeaseRevokeResponse a;
    Tracked d;
    brpc::Controller c;
    if (!racing) Fault();
    bool judge = Call([&] { DoLeaseRevoke(&c, &q, &a, &d, kv, Eng()); });
    nwrite++;
    CheckWatches();
    if (!judge) return;
    bool ok = a.error().errcode() == 0;
    if (!had || !inited) {
      VT_CHECK(!ok && !committed, had ? "revoke-uninitialised" : "revoke-accepted", "a revoke that must be refused was accepted");
      return;
    }
    VT_CHECK(ok && committed, "revoke-refused", "a revoke was refused: " + a.error().ShortDebugString());
  }
  void Renew() {
    auto kv = Kv();
    if (!kv) return;
    pv::LeaseRenewRequest q;
    int64_t id = AnyLease();
    q.set_id(id);
    bool had = leases.count(id) && (!inited || known.count(id));
    s.Note("renew %lld", (long long)id);
    int64_t now = Now();
    if (had && inited) known[id].renew = now;
    bool alive = false;
    pend = [&] {
      alive = leases.count(id);
      if (alive) leases[id].renew = now;
    };
    pv::LeaseRenewResponse a;
    Tracked d;
    brpc::Controller c;
    int64_t ttl = had ? leases[id].ttl : 0;
    if (!racing) Fault();
    bool judge = Call([&] { DoLeaseRenew(&c, &q, &a, &d, kv, Eng()); });
    nwrite++;
    CheckWatches();
    if (!judge) return;
    bool ok = a.error().errcode() == 0;
    if (!had || !inited) {
      VT_CHECK(!ok && !committed, "renew-accepted", "a renew that must be refused was accepted");
      return;
    }
    VT_CHECK(committed, "renew-refused", "a renew was refused: " + a.error().ShortDebugString());
    if (alive) VT_CHECK(ok && a.ttl() == ttl && a.id() == id, "renew-answer", "renew answered " + a.ShortDebugString());
  }
  void Compact() {
    auto kv = Kv();
    if (!kv) return;
    pv::CompactionRequest q;
    auto [k, e] = AnyRange();
    int64_t at = rev + s.OneOf<int64_t>({-10, -3, -1, 0, 1, 5});
    q.set_key(k);
    q.set_range_end(e);
    q.set_compact_revision(at);
    std::vector<std::string> ks;
    if (e.empty()) {
      if (keys.count(k)) ks.push_back(k);
    } else
      ks = LiveIn(k, e);
    s.Note("compact [%s,%s) at %lld: %d keys", Show(k).c_str(), Show(e).c_str(), (long long)at, (int)ks.size());
    pend = [&] {
      for (auto& x : ks) ApplyCompact(x, at);
    };
    pv::CompactionResponse a;
    Tracked d;
    brpc::Controller c;
    if (!racing) Fault();
    bool judge = Call([&] { DoKvCompaction(&c, &q, &a, &d, kv, Eng()); });
    nwrite++;
    ncompact++;
    if (!judge) return;
    VT_CHECK(a.error().errcode() == 0 && (ks.empty() || committed), "compact-refused", "a compaction was refused: " + a.error().ShortDebugString());
    VT_CHECK(a.compaction_count() == (int64_t)ks.size(), "compact-count", "compacted " + std::to_string(a.compaction_count()) + " keys, expected " + std::to_string(ks.size()));
  }
  void Write() {
    switch (s.Weighted({8, 4, 2, 2, 2, 1})) {
      case 0: Put(); break;
      case 1: Delete(); break;
      case 2: Grant(); break;
      case 3: Revoke(); break;
      case 4: Renew(); break;
      case 5: Compact(); break;
    }
  }
  void Range() {
    auto kv = Kv();
    if (!kv) return;
    pv::RangeRequest q;
    auto [k, e] = AnyRange();
    q.set_key(k);
    q.set_range_end(e);
    q.set_limit(s.OneOf<int64_t>({0, 0, 1, 2, 3, -1}));
    q.set_keys_only(s.Chance(20));
    q.set_count_only(s.Chance(20));
    pv::RangeResponse a;
    Tracked d;
    DoKvRange(nullptr, &q, &a, &d, kv, Eng());
    s.Note("range [%s,%s) limit %lld -> %d", Show(k).c_str(), Show(e).c_str(), (long long)q.limit(), a.kvs_size());
    VT_CHECK(d.ran && a.error().errcode() == 0, "range-refused", "range: " + a.error().ShortDebugString());
    auto ks = LiveIn(k, e);
    size_t lim = q.limit() <= 0 ? ks.size() : std::min<size_t>(ks.size(), q.limit());
    VT_CHECK(a.more() == (lim < ks.size()), "range-more", "more is " + std::to_string(a.more()) + " with " + std::to_string(ks.size()) + " keys and limit " + std::to_string(q.limit()));
    if (q.count_only()) {
      VT_CHECK(a.kvs_size() == 0, "count-only", "a count returned keys");
      VT_CHECK(a.count() == (int64_t)ks.size() || a.count() == (int64_t)lim, "range-count", "counted " + std::to_string(a.count()) + " of " + std::to_string(ks.size()) + " keys");
      return;
    }
    VT_CHECK(a.kvs_size() == (int)lim && a.count() == (int64_t)lim, "range-size", "got " + std::to_string(a.kvs_size()) + " keys, expected " + std::to_string(lim));
    for (size_t i = 0; i < lim; i++) {
      pv::Kv x;
      Fill(x, keys[ks[i]].last, !q.keys_only());
      VT_CHECK(x.SerializeAsString() == a.kvs(i).SerializeAsString(), "range-kv", "range returned {" + a.kvs(i).ShortDebugString() + "} expected {" + x.ShortDebugString() + "}");
    }
  }
  void Query() {
    auto kv = Kv();
    if (!kv) return;
    if (s.Chance(25)) {
      pv::ListLeasesRequest q;
      pv::ListLeasesResponse a;
      Tracked d;
      DoListLeases(nullptr, &q, &a, &d, kv, Eng());
      std::set<int64_t> got, want;
      for (auto& l : a.leases()) got.insert(l.id());
      for (auto& [i, l] : leases) want.insert(i);
      VT_CHECK(a.error().errcode() == 0 && got == want, "list-leases", "listed " + std::to_string(got.size()) + " leases, there are " + std::to_string(want.size()));
      return;
    }
    pv::LeaseQueryRequest q;
    pv::LeaseQueryResponse a;
    int64_t id = AnyLease();
    q.set_id(id);
    q.set_keys(s.Chance(70));
    Tracked d;
    DoLeaseQuery(nullptr, &q, &a, &d, kv, Eng());
    s.Note("query lease %lld -> %d", (long long)id, (int)a.error().errcode());
    VT_CHECK(d.ran, "no-reply", "lease query was not answered");
    bool ok = a.error().errcode() == 0;
    VT_CHECK(ok == (inited && LeaseAlive(id)), "lease-query", "lease " + std::to_string(id) + (ok ? " was found" : " was not found: " + a.error().ShortDebugString()));
    if (!ok) return;
    VT_CHECK(a.grantedttl() == known[id].ttl && a.ttl() == known[id].ttl - (Now() - known[id].renew), "lease-ttl", "lease query answered " + a.ShortDebugString());
    if (!q.keys()) return;
    std::set<std::string> got(a.keys().begin(), a.keys().end());
    auto at = Attached(id);
    for (auto& k : at) VT_CHECK(got.count(k), "lease-keys", "lease " + std::to_string(id) + " does not list key " + Show(k));
    if (clean) VT_CHECK(got.size() == at.size(), "lease-keys-extra", "lease " + std::to_string(id) + " lists " + std::to_string(got.size()) + " keys, " + std::to_string(at.size()) + " are attached");
  }
  void Watch() {
    auto kv = Kv();
    if (!kv) return;
    auto x = std::make_unique<Watcher>();
    auto* o = x->q.mutable_one_time_request();
    x->key = s.Pick(pool);
    o->set_key(x->key);
    bool wait = s.Chance(60);
    o->set_wait_on_not_exist_key(wait);
    int64_t start = s.OneOf<int64_t>({0, 0, rev, rev - 1, rev - 3, rev + 1, rev + 4, 1});
    o->set_start_revision(start);
    x->prev = s.Chance(50);
    o->set_need_prev_kv(x->prev);
    if (s.Chance(25)) o->add_filters(pv::NOPUT), x->noput = true;
    if (s.Chance(25)) o->add_filters(pv::NODELETE), x->nodel = true;
    x->start = start == 0 ? rev : start;
    x->id = kv->one_time_watch_closure_seq_.load();
    DoWatch(&x->c, &x->q, &x->a, &x->d, kv, Eng());
    auto it = keys.find(x->key);
    bool live = it != keys.end() && it->second.live;
    s.Note("watch %s from %lld%s%s%s -> %s", Show(x->key).c_str(), (long long)start, x->noput ? " noput" : "", x->nodel ? " nodelete" : "", wait ? " wait" : "", x->d.n ? x->a.ShortDebugString().c_str() : "waits");
    if (x->noput && x->nodel) {
      VT_CHECK(x->d.n == 1 && x->a.error().errcode() != 0, "watch-nothing", "a watch for no events was not refused");
      return;
    }
    if (!live && !wait) {
      VT_CHECK(x->d.n == 1 && x->a.events_size() == 1 && x->a.events(0).type() == pv::Event::NOT_EXISTS, "watch-absent", "watch of an absent key: " + x->a.ShortDebugString());
      return;
    }
    if (live && it->second.last.mod.first > x->start) {
      if (x->noput && x->d.n == 0) {
        watches.push_back(std::move(x));
        return;
      }
      pv::Event e;
      e.set_type(pv::Event::PUT);
      Fill(*e.mutable_kv(), it->second.last);
      VT_CHECK(x->d.n == 1 && x->a.events_size() == 1 && x->a.events(0).SerializeAsString() == e.SerializeAsString(), "watch-now", "watch of a newer key: " + x->a.ShortDebugString() + " expected " + e.ShortDebugString());
      return;
    }
    VT_CHECK(x->d.n == 0, "watch-early", "a watch was answered without a matching event: " + x->a.ShortDebugString());
    watches.push_back(std::move(x));
  }
  void Cancel() {
    auto kv = Kv();
    if (!kv || watches.empty()) return;
    size_t i = s.Below(watches.size());
    s.Note("cancel watch of %s", Show(watches[i]->key).c_str());
    kv->CancelOneTimeWatchClosure(watches[i]->id);
    kv->RemoveOneTimeWatch();
    VT_CHECK(watches[i]->d.n == 1 && watches[i]->a.events_size() == 0, "watch-cancel", "a cancelled watch was answered " + std::to_string(watches[i]->d.n) + " times");
    watches.erase(watches.begin() + i);
    CheckWatches();
  }
  void LeaseTask() {
    for (auto& x : w.r)
      if (x.up && x.id != w.leader[kKv]) x.kv->LeaseTask();
    auto kv = Kv();
    if (!kv) return;
    if (!inited) {
      known = leases;
    }
    std::vector<int64_t> dead;
    for (auto& [i, l] : leases)
      if (known.count(i) && l.ttl + known[i].renew < Now()) dead.push_back(i);
    std::map<int64_t, std::vector<std::string>> at;
    for (auto i : dead) at[i] = Attached(i);
    s.Note("lease task: %d expired", (int)dead.size());
    pend = [&] {
      int64_t r = rev, sub = 1;
      for (auto& [i, ks] : at)
        if (!ks.empty()) r = rev + 1;
      rev = r;
      for (auto& [i, ks] : at) ApplyRevoke(i, ks, r, sub);
    };
    if (!dead.empty() && !racing) {
      Fault();
      w.pre_append = nullptr;
    }
    bool judge = Call([&] { kv->LeaseTask(); });
    CheckWatches();
    if (!judge) return;
    inited = true;
    nexpired += dead.size();
    VT_CHECK(committed == !dead.empty(), "expiry", std::string(dead.empty() ? "the lease task revoked a lease that has not expired" : "expired leases were not revoked"));
  }
  void Bulk() {  // many keys and the periodic compaction
    auto kv = Kv();
    if (!kv) return;
    int n = s.OneOf({3, 49, 50, 51, 52, 101, 103});
    s.Note("bulk %d", n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < 2; j++) {
        pv::PutRequest q;
        q.mutable_key_value()->set_key("m" + std::to_string(1000 + i));
        q.mutable_key_value()->set_value("x" + std::to_string(j));
        pv::PutResponse a;
        Tracked d;
        brpc::Controller c;
        pend = [&] { ApplyPut(q.key_value().key(), q.key_value().value(), 0, false, false, {++rev, 1}); };
        DoKvPut(&c, &q, &a, &d, kv, Eng());
        VT_CHECK(a.error().errcode() == 0, "put-refused", "a valid put was refused: " + a.error().ShortDebugString());
      }
    FLAGS_auto_compaction = true;
    FLAGS_compaction_retention_rev_count = s.OneOf({0, 1, 10});
    int64_t at = rev - FLAGS_compaction_retention_rev_count;
    pend = nullptr;
    kv->CompactionTask();
    std::vector<std::string> all;
    for (auto& [k, v] : keys) all.push_back(k);
    for (auto& k : all) ApplyCompact(k, at);
    CheckState(w.leader[kKv]);
    // and drop them again
    pv::DeleteRangeRequest q;
    q.set_key("m");
    q.set_range_end("n");
    pv::DeleteRangeResponse a;
    Tracked d;
    auto ks = LiveIn("m", "n");
    pend = [&] {
      int64_t r = ++rev, sub = 1;
      for (auto& x : ks) ApplyDelete(x, {r, sub++});
    };
    DoKvDeleteRange(nullptr, &q, &a, &d, kv, Eng());
    VT_CHECK(a.deleted() == (int64_t)ks.size(), "delete-count", "deleted " + std::to_string(a.deleted()) + " keys, expected " + std::to_string(ks.size()));
    CheckWatches();
  }
  // a replica holds exactly the state of the model
  void CheckState(int i) {
    auto kv = w.r[i].kv;
    std::string who = "replica " + std::to_string(i);
    std::vector<pv::Kv> kvs;
    int64_t n = 0;
    bool more = false;
    VT_CHECK(kv->KvRange(std::string(1, '\x01'), std::string(1, '\0'), 0, false, false, kvs, n, more).ok(), "range-refused", "range failed");
    auto ks = LiveIn(std::string(1, '\x01'), std::string(1, '\0'));
    VT_CHECK(kvs.size() == ks.size(), "state-keys", who + " holds " + std::to_string(kvs.size()) + " keys, expected " + std::to_string(ks.size()));
    for (size_t j = 0; j < ks.size(); j++) {
      pv::Kv x;
      Fill(x, keys[ks[j]].last);
      VT_CHECK(x.SerializeAsString() == kvs[j].SerializeAsString(), "state-kv", who + " holds {" + kvs[j].ShortDebugString() + "} expected {" + x.ShortDebugString() + "}");
    }
    for (auto& [r, rec] : revs) {
      pb::coordinator_internal::RevisionInternal ri;
      ri.set_main(r.first), ri.set_sub(r.second);
      pb::coordinator_internal::KvRevInternal x;
      if (rec.loose) continue;
      VT_CHECK(kv->GetRawKvRev(ri, x).ok(), "revision-lost", who + " lost revision " + std::to_string(r.first) + "." + std::to_string(r.second));
      auto& k = x.kv();
      VT_CHECK(k.id() == rec.key && k.value() == rec.value && k.is_deleted() == rec.del && k.version() == rec.version && k.lease() == rec.lease && k.create_revision().main() == rec.create.first && k.create_revision().sub() == rec.create.second && k.mod_revision().main() == r.first,
               "revision", who + " holds revision {" + x.ShortDebugString() + "} of key " + Show(rec.key) + " version " + std::to_string(rec.version) + " lease " + std::to_string(rec.lease));
    }
    for (auto& r : gone) {
      pb::coordinator_internal::RevisionInternal ri;
      ri.set_main(r.first), ri.set_sub(r.second);
      pb::coordinator_internal::KvRevInternal x;
      VT_CHECK(!kv->GetRawKvRev(ri, x).ok() || x.id().empty(), "compaction-leak", who + " still holds the compacted revision " + std::to_string(r.first) + "." + std::to_string(r.second));
    }
    std::vector<pb::coordinator_internal::LeaseInternal> ls;
    kv->ListLeases(ls);
    std::map<int64_t, Lease> got;
    for (auto& l : ls) got[l.id()] = Lease{l.ttl_seconds(), l.last_renew_ts_seconds()};
    VT_CHECK(got.size() == leases.size(), "state-leases", who + " holds " + std::to_string(got.size()) + " leases, expected " + std::to_string(leases.size()));
    for (auto& [id, l] : leases) VT_CHECK(got.count(id) && got[id].ttl == l.ttl && got[id].renew == l.renew, "state-lease", who + " holds lease " + std::to_string(id) + " differently");
  }
  void Compare() {
    w.CatchAll();
    std::map<std::string, std::string> first;
    for (int i = 0; i < 3; i++) {
      if (!w.r[i].up) continue;
      CheckState(i);
      auto d = rocksdb::vs::Dump(w.r[i].path() + "/db/rocksdb", Constant::kStoreMetaCF);
      if (first.empty())
        first = d;
      else
        VT_CHECK(first == d, "replicas-differ", "replicas that applied the same log hold different data");
    }
  }
  void Elect() {
    int before = w.leader[kKv];
    int i = s.Below(3);
    w.Elect(kKv, i);
    if (w.leader[kKv] < 0 && before < 0) return;
    if (before >= 0) LostLeader(false);
    inited = false;
    clean = true;
    nelect++;
    s.Note("elected c%d", w.leader[kKv]);
  }
  void Run(int steps) {
    Elect();
    for (int k = 0; k < steps; k++) {
      if (crashed >= 0 && !w.r[crashed].up) w.Up(crashed);
      crashed = -1;
      if (w.leader[kKv] < 0 && s.Chance(80)) Elect();
      if (!inited && s.Chance(50)) LeaseTask();
      switch (s.Weighted({30, 8, 5, 7, 1, 4, 2, 2, 2, 1, 3, 2, 1, 6})) {
        case 0: Write(); break;
        case 1: Range(); break;
        case 2: Query(); break;
        case 3: Watch(); break;
        case 4: Cancel(); break;
        case 5: LeaseTask(); break;
        case 6: Elect(); break;
        case 7: {
          int i = s.Below(3);
          s.Note("restart c%d", i);
          bool lead = w.leader[kKv] == i;
          w.Down(i);
          if (lead) LostLeader(true);
          w.Up(i);
          nrestart++;
          break;
        }
        case 8: {
          int i = s.Below(3);
          s.Note("snapshot c%d", i);
          w.Save(i, kKv);
          break;
        }
        case 9: {
          int i = s.Below(3), j = s.Below(3);
          if (i != j && w.Install(i, j, kKv)) nsnap++, s.Note("install c%d<-c%d", i, j);
          break;
        }
        case 10:
          for (int i = 0; i < 3; i++)
            if (w.r[i].up && s.Chance(40)) {
              if (i != w.leader[kKv] && s.Chance(10)) w.ArmCrash(i, s.Below(10));
              if (!w.Catch(i, kKv, s.Range(w.r[i].applied[kKv], (int64_t)w.log[kKv].size()))) {
                s.Note("c%d crashed while applying", i);
                ncrash++;
                w.Up(i);
              }
              w.Disarm();
            }
          break;
        case 11: Compare(); break;
        case 12:
          if (s.Chance(10) && k > 3) Bulk();
          break;
        case 13: {
          int sec = s.OneOf({1, 1, 2, 3, 4, 6, 11});
          g_now_us += sec * 1000000LL;
          s.Note("%d s pass", sec);
          break;
        }
      }
    }
    if (crashed >= 0 && !w.r[crashed].up) w.Up(crashed);
      crashed = -1;
    Compare();
  }
};
}  // namespace kvh

VT_PROPERTY("C22", 20000, 900000, "at least six writes, and a race, a crash, a lost or doubtful entry, a compaction or an installed snapshot")
VT_SUB("C22", "history", 1) {
  kvh::H t(s);
  t.Run(s.Range(8, 60));
  if (t.nwrite >= 6 && (t.nrace || t.ncrash || t.nfault || t.ncompact || t.nsnap)) {
    std::ostringstream d;
    for (auto& n : s.notes_) d << n << "\n";
    s.NonTrivial(d.str());
  }
  s.Tag("writes", t.nwrite);
  s.Tag("races", t.nrace);
  s.Tag("crashes", t.ncrash);
  s.Tag("watch-events", t.nfired);
  s.Tag("expired-leases", t.nexpired);
}
