#pragma once
// Timestamp oracle: everything handed out is unique and larger than everything handed out before.
namespace tsoh {
using M = pb::meta::TsoRequest;

struct T {
  Src& s;
  World w;
  std::map<int64_t, int64_t> issued;  // start -> end (exclusive)
  int64_t max_end = 0;
  int depth = 0, ngen = 0, nelect = 0, nfault = 0, nback = 0, nstale = 0, nforce = 0;
  bool sleeping_acts = true;

  explicit T(Src& s_) : s(s_), w(3, 1u << kTso) {
    vshim::g_usleep_hook = [this](uint64_t us) {
      Sleep(us);
      return 0;
    };
  }
  ~T() { vshim::g_usleep_hook = nullptr; }

  void Tick() {
    for (auto& x : w.r)
      if (x.up) x.tso->tso_update_timer_.vshim_fire();
  }
  void Sleep(uint64_t us) {
    g_now_us += us;
    if (!sleeping_acts) return Tick();
    if (depth < 2) {
      depth++;
      if (s.Chance(70)) Tick();
      if (s.Chance(8)) Admin();
      depth--;
    }
  }
  static int64_t V(const pb::meta::TsoTimestamp& t) { return (t.physical() << kLogicalBits) + t.logical(); }

  // returns whether a timestamp was handed out
  bool Gen(int i, int64_t count) {
    auto& x = w.r[i];
    if (!x.up) return false;
    pb::meta::TsoRequest q;
    q.set_op_type(pb::meta::OP_GEN_TSO);
    q.set_count(count);
    pb::meta::TsoResponse a;
    brpc::Controller c;
    Tracked d;
    auto keep = x.tso;  // the process may be stopped while the request sleeps
    int64_t before = max_end;
    int forces = nforce;
    bool stale = w.stale[kTso] == i;
    keep->Process(&c, &q, &a, &d);
    s.Note("gen %d from c%d%s -> %d (%lld,%lld)+%lld", (int)count, i, stale ? " (cut off)" : "", (int)a.error().errcode(), (long long)a.start_timestamp().physical(), (long long)a.start_timestamp().logical(), (long long)a.count());
    VT_CHECK(d.ran, "no-reply", "the request was not answered");
    if (a.error().errcode() != pb::error::OK) return false;
    VT_CHECK(count > 0, "bad-count", "a request for " + std::to_string(count) + " timestamps succeeded");
    VT_CHECK(a.count() == count, "count", "asked for " + std::to_string(count) + ", got " + std::to_string(a.count()));
    int64_t v = V(a.start_timestamp()), e = v + count;
    VT_CHECK(a.start_timestamp().physical() > 0, "zero", "timestamp without a physical part");
    VT_CHECK(a.start_timestamp().logical() >= 0 && a.start_timestamp().logical() + count <= kMaxLogical, "logical-overflow", "the logical part leaves its range");
    // nothing issued before the request started may be at or above it, unless the server was already replaced without knowing
    if (forces == nforce && !stale && w.stale[kTso] != i) VT_CHECK(v >= before, "not-monotonic", "issued (" + std::to_string(a.start_timestamp().physical()) + "," + std::to_string(a.start_timestamp().logical()) + ") after something larger had been issued");
    auto it = issued.upper_bound(v);
    bool overlap = it != issued.end() && it->first < e;
    if (it != issued.begin() && std::prev(it)->second > v) overlap = true;
    VT_CHECK(!overlap, "duplicate", "a timestamp was handed out twice: (" + std::to_string(a.start_timestamp().physical()) + "," + std::to_string(a.start_timestamp().logical()) + ")");
    issued[v] = e;
    max_end = std::max(max_end, e);
    ngen++;
    return true;
  }
  void AdminWrite(bool reset) {
    int l = w.leader[kTso];
    if (l < 0) return;
    auto& x = w.r[l];
    pb::meta::TsoRequest q;
    q.set_op_type(reset ? pb::meta::OP_RESET_TSO : pb::meta::OP_UPDATE_TSO);
    auto cur = x.tso->tso_obj_.current_timestamp;
    int64_t base = std::max<int64_t>(cur.physical(), 1);
    q.mutable_current_timestamp()->set_physical(std::max<int64_t>(1, base + s.OneOf({-2000, -1, 0, 0, 1, 500, 2500})));
    q.mutable_current_timestamp()->set_logical(s.OneOf({0, 0, 1, 5, 1000, 200000}));
    q.set_save_physical(std::max<int64_t>(q.current_timestamp().physical() + 1, x.tso->tso_obj_.last_save_physical + s.OneOf({-100, 0, 0, 1, 3000})));
    bool force = reset && s.Chance(15) && w.stale[kTso] < 0;
    q.set_force(force);
    pb::meta::TsoResponse a;
    brpc::Controller c;
    Tracked d;
    auto keep = x.tso;
    keep->Process(&c, &q, &a, &d);
    VT_CHECK(d.ran, "no-reply", "the request was not answered");
    s.Note("%s c%d (%lld,%lld) save %lld force %d -> %d", reset ? "reset" : "update", l, (long long)q.current_timestamp().physical(), (long long)q.current_timestamp().logical(), (long long)q.save_physical(), (int)force, (int)a.error().errcode());
    if (force) {  // an operator asked for exactly this
      max_end = 0;
      nforce++;
      issued.clear();
    }
  }
  void Admin() {
    int l = w.leader[kTso];
    switch (s.Weighted({6, 3, 2, 3, 2, 2, 2, 2, 2, 2})) {
      case 0: {  // new leader
        int i = s.Below(3);
        bool aside = s.Chance(25);
        w.defer_spawn = s.Chance(30);
        w.fault = s.Chance(15) ? (s.Bool() ? kDrop : kCommitUnknown) : kNone;
        s.Note("elect c%d aside %d deferred %d fault %d", i, aside, (int)w.defer_spawn, (int)w.fault);
        nelect++;
        int before = w.leader[kTso];
        w.Elect(kTso, i, aside);
        if (w.stale[kTso] >= 0 && w.stale[kTso] == before) nstale++;
        w.fault = kNone;
        w.defer_spawn = false;
        break;
      }
      case 1:
        s.Note("step down");
        w.StepDown(kTso);
        break;
      case 2:
        s.Note("heal");
        w.Heal(kTso);
        break;
      case 3: {  // the clock jumps
        int64_t j = s.OneOf({-100000, -3000, -200, -40, 40, 60, 1000, 3000, 3001, 20000});
        if (j < 0) nback++;
        g_now_us += j * 1000;
        s.Note("clock %+lld ms", (long long)j);
        break;
      }
      case 4: {  // restart
        int i = s.Below(3);
        s.Note("restart c%d", i);
        w.Down(i);
        w.Up(i);
        break;
      }
      case 5: {
        int i = s.Below(3);
        if (w.r[i].up && w.stale[kTso] != i) s.Note("snapshot c%d", i), w.Save(i, kTso);
        break;
      }
      case 6: {
        int i = s.Below(3), j = s.Below(3);
        if (i != j && w.r[i].up && w.Install(i, j, kTso)) s.Note("install c%d from c%d", i, j);
        break;
      }
      case 7:
        s.Note("background");
        w.RunSpawned();
        break;
      case 8:
        w.fault = s.Bool() ? kDrop : kCommitUnknown;
        nfault++;
        s.Note("fault %d for the next proposal", (int)w.fault);
        Tick();
        if (w.fault == kNone && w.leader[kTso] >= 0) {
          // a proposal only fails on a leader that loses its office
          s.Note("...and its leader steps down");
          w.StepDown(kTso);
        }
        w.fault = kNone;
        break;
      case 9: AdminWrite(s.Bool()); break;
    }
    (void)l;
  }
  void Follow() {
    for (int i = 0; i < 3; i++)
      if (w.r[i].up && w.stale[kTso] != i && s.Chance(40)) w.Catch(i, kTso, s.Range(w.r[i].applied[kTso], (int64_t)w.log[kTso].size()));
  }
  void Run(int steps) {
    w.Elect(kTso, s.Below(3));
    for (int k = 0; k < steps; k++) {
      switch (s.Weighted({8, 4, 3, 2})) {
        case 0: {
          int l = w.leader[kTso];
          int st = w.stale[kTso];
          int i = st >= 0 && s.Chance(40) ? st : l >= 0 && s.Chance(90) ? l : (int)s.Below(3);
          int64_t c = s.Chance(60) ? s.Range(1, 20) : s.OneOf({1, 1000, 70000, 131071, 131072, 200000, 262142, 262143, 262144, 0});
          if (s.Chance(2)) c = -(int64_t)s.Range(1, 100000);
          Gen(i, c);
          break;
        }
        case 1: Admin(); break;
        case 2:
          g_now_us += s.OneOf({1000, 30000, 50000, 51000, 500000});
          Tick();
          break;
        case 3: Follow(); break;
      }
    }
    // liveness: with a leader, a working clock and no faults, timestamps flow again
    sleeping_acts = false;
    w.RunSpawned();
    w.Heal(kTso);
    w.CatchAll();
    w.Elect(kTso, s.Below(3));
    w.RunSpawned();
    int64_t ahead = (max_end >> kLogicalBits) + kBaseTimestampMs;
    if (g_now_us / 1000 < ahead + 10000) g_now_us = (ahead + 10000) * 1000;
    for (int k = 0; k < 3; k++) g_now_us += 60000, Tick();
    VT_CHECK(Gen(w.leader[kTso], 1), "stuck", "a settled leader hands out no timestamps");
  }
};
}  // namespace tsoh

VT_PROPERTY("C20", 20000, 1500000, "at least three successful requests and an election, with a clock that went back, a lost proposal, a cut-off leader or a second election")
VT_SUB("C20", "history", 1) {
  tsoh::T t(s);
  t.Run(s.Range(8, 60));
  if (t.ngen >= 3 && t.nelect && (t.nback || t.nfault || t.nstale || t.nelect > 1)) {
    std::ostringstream d;
    for (auto& n : s.notes_) d << n << "\n";
    s.NonTrivial(d.str());
  }
  s.Tag("issued", t.ngen);
  s.Tag("elections", t.nelect);
  s.Tag("clock-back", t.nback);
  s.Tag("cut-off", t.nstale);
}
