#pragma once
// Auto-increment: identifiers handed out for a table never repeat, whoever leads and whatever is restarted.
namespace inch {
using MI = pb::coordinator_internal::MetaIncrement;

struct Table {
  bool exists = false;
  int64_t hi = 0;  // every later range starts here or above
};

struct H {
  Src& s;
  World w;
  std::map<int64_t, Table> m;  // as of the last committed operation
  struct Late {
    MI mi;
    std::function<void()> apply;  // what committing it does to the model
    std::function<void(const pb::meta::GenerateAutoIncrementResponse&)> answer;
    bool with_response;
    std::string what;
  };
  std::deque<Late> late;
  int ngen = 0, nelect = 0, nlate = 0, nrestart = 0, nsnap = 0;

  explicit H(Src& s_) : s(s_), w(3, 1u << kInc) {}

  std::shared_ptr<AutoIncrementControl> Leader() { return w.leader[kInc] < 0 ? nullptr : w.r[w.leader[kInc]].inc; }

  // what the service handlers do once an operation is validated; returns whether it was committed and answered without an error
  void Submit(Late& l) {
    int ld = w.leader[kInc];
    if (ld < 0) return;
    pb::meta::GenerateAutoIncrementResponse resp;
    brpc::Controller c;
    auto ctx = l.with_response ? std::make_shared<Context>(&c, nullptr, &resp) : std::make_shared<Context>();
    ctx->SetRegionId(Constant::kAutoIncrementRegionId);
    size_t before = w.log[kInc].size();
    auto st = w.r[ld].eng->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), l.mi));
    bool committed = w.log[kInc].size() > before && !w.log[kInc][before].conf;
    s.Note("%s -> %d/%d committed %d", l.what.c_str(), st.error_code(), (int)resp.error().errcode(), (int)committed);
    if (committed) {
      bool ok = st.ok() && resp.error().errcode() == pb::error::OK;
      if (l.answer && ok) l.answer(resp);  // against the state before
      l.apply();
    } else
      VT_CHECK(!st.ok(), "lost-ack", "an operation that was not committed was acknowledged");
  }
  void Fault() {
    if (s.Chance(6)) w.fault = s.Bool() ? kDrop : kCommitUnknown, s.Note("fault %d", (int)w.fault);
  }
  void Done() {
    if (w.fault == kNone && w.leader[kInc] >= 0) return;
    w.fault = kNone;
    w.StepDown(kInc);
  }

  static int64_t Fits(int64_t a, int64_t e, int64_t inc, int64_t off) {  // members of off + k*inc in [a, e)
    if (inc == 1) return e - a;
    int64_t r = ((off - a) % inc + inc) % inc;
    int64_t first = a + r;
    return first >= e ? 0 : (e - 1 - first) / inc + 1;
  }
  void Generate(int64_t t) {
    auto c = Leader();
    if (!c || !c->IsLeader()) return;
    uint32_t count = s.Chance(70) ? s.Range(1, 10) : s.OneOf({1, 1000, 65536, 65537, 100000, 0, 100001});
    uint32_t inc = s.Chance(50) ? 1 : s.Chance(60) ? s.Range(1, 10) : s.OneOf({65535, 65536, 43000, 42950, 0, 100});
    uint32_t off = s.Chance(60) ? 1 : s.Chance(70) ? s.Range(1, 10) : s.OneOf({65535, 0, 65536, 100});
    Late l;
    auto st = c->GenerateAutoIncrement(t, count, inc, off, l.mi);
    bool valid = count >= 1 && count <= 100000 && inc >= 1 && inc <= 65535 && off >= 1 && off <= 65535;
    l.what = "generate t" + std::to_string(t) + " n" + std::to_string(count) + " inc" + std::to_string(inc) + " off" + std::to_string(off);
    if (!st.ok()) {
      s.Note("%s refused %d", l.what.c_str(), st.error_code());
      VT_CHECK(!m[t].exists || !valid, "generate-refused", "generating for an existing counter was refused: " + l.what);
      return;
    }
    VT_CHECK(m[t].exists, "generate-missing", "generating for a table without a counter was accepted");
    VT_CHECK(valid, "bad-parameters", "illegal parameters were accepted: " + l.what);
    uint32_t o = off > inc ? 1 : off;
    l.with_response = true;
    auto end = std::make_shared<int64_t>(-1);
    l.answer = [=, this](const pb::meta::GenerateAutoIncrementResponse& r) {
      auto& tb = m[t];
      VT_CHECK(tb.exists, "generate-missing", "identifiers were handed out for a table without a counter (the request was accepted before it was deleted)");
      s.Note("  [%lld,%lld)", (long long)r.start_id(), (long long)r.end_id());
      VT_CHECK(r.start_id() >= tb.hi, "duplicate-id", "range [" + std::to_string(r.start_id()) + "," + std::to_string(r.end_id()) + ") starts below " + std::to_string(tb.hi) + ", up to which identifiers were already handed out or set aside");
      VT_CHECK(r.end_id() > r.start_id(), "empty-range", "an empty range was handed out");
      int64_t f = Fits(r.start_id(), r.end_id(), inc, o);
      VT_CHECK(f >= count, "short-range", "range [" + std::to_string(r.start_id()) + "," + std::to_string(r.end_id()) + ") holds " + std::to_string(f) + " identifiers of the " + std::to_string(count) + " asked for (increment " + std::to_string(inc) + ", offset " + std::to_string(o) + ")");
      *end = r.end_id();
      ngen++;
    };
    l.apply = [=, this] {
      if (*end >= 0) m[t].hi = *end;
    };
    Later(std::move(l));
  }
  void Later(Late l) {
    if (s.Chance(15) && late.size() < 4) {
      s.Note("(held back) %s", l.what.c_str());
      late.push_back(std::move(l));
      nlate++;
      return;
    }
    Fault();
    Submit(l);
    Done();
  }
  void Create(int64_t t) {
    auto c = Leader();
    if (!c || !c->IsLeader()) return;
    int64_t start = s.Chance(70) ? s.Range(1, 5) : s.OneOf({100LL, 4294967290LL, 2147483640LL, 1000000000000LL});
    Late l;
    bool sync = s.Chance(15);
    l.what = "create t" + std::to_string(t) + " at " + std::to_string(start);
    l.with_response = true;
    l.apply = [=, this] {
      if (!m[t].exists) m[t] = Table{true, start};
    };
    bool had = m[t].exists;
    butil::Status st;
    if (sync) {  // table creation inside the coordinator
      Fault();
      size_t before = w.log[kInc].size();
      st = c->SyncCreateAutoIncrement(t, start);
      bool committed = w.log[kInc].size() > before && !w.log[kInc][before].conf;
      s.Note("sync %s -> %d", l.what.c_str(), st.error_code());
      if (committed) l.apply();
      if (st.ok()) VT_CHECK(m[t].exists, "lost-ack", "creation was acknowledged and the counter does not exist");
      Done();
      return;
    }
    st = c->CreateAutoIncrement(t, start, l.mi);
    if (!st.ok()) {
      s.Note("%s refused %d", l.what.c_str(), st.error_code());
      VT_CHECK(had, "create-refused", "creating a counter that does not exist was refused");
      return;
    }
    if (had) return;  // recognised as a repeated request
    Later(std::move(l));
  }
  void Update(int64_t t) {
    auto c = Leader();
    if (!c || !c->IsLeader()) return;
    bool orcreate = s.Chance(30);
    bool force = !orcreate && s.Chance(20);
    int64_t cur = 0;
    c->GetAutoIncrement(t, cur);
    int64_t start = std::max<int64_t>(1, cur + s.OneOf({-100000, -5, -1, 0, 1, 2, 10, 100000}));
    Late l;
    l.with_response = orcreate;
    l.what = std::string(orcreate ? "restore" : force ? "force" : "update") + " t" + std::to_string(t) + " to " + std::to_string(start);
    bool had = m[t].exists;
    int64_t hi0 = m[t].hi;
    auto st = orcreate ? c->CreateOrUpdateAutoIncrement(t, start, l.mi) : c->UpdateAutoIncrement(t, start, force, l.mi);
    if (!st.ok()) {
      s.Note("%s refused %d", l.what.c_str(), st.error_code());
      return;
    }
    if (!orcreate) VT_CHECK(had, "update-missing", "updating a counter that does not exist was accepted");
    if (had && !force) VT_CHECK(start >= hi0, "rewind", "moving the counter back to " + std::to_string(start) + " below " + std::to_string(hi0) + " was accepted without force");
    if (had && orcreate && start == hi0) return;
    bool back = had && force && start <= cur;
    l.apply = [=, this] {
      auto& tb = m[t];
      if (!had) {
        if (!tb.exists) tb = Table{true, start};
        return;
      }
      if (!tb.exists) return;  // deleted meanwhile
      if (back)
        tb.hi = start;  // an operator asked for it
      else
        tb.hi = std::max(tb.hi, start);
    };
    Later(std::move(l));
  }
  void Delete(int64_t t) {
    auto c = Leader();
    if (!c || !c->IsLeader()) return;
    Late l;
    l.with_response = false;
    l.what = "delete t" + std::to_string(t);
    l.apply = [=, this] { m[t] = Table(); };
    if (!m[t].exists) return;
    if (s.Bool()) {
      if (!c->DeleteAutoIncrement(t, l.mi).ok()) Failf("delete-refused", "deleting an existing counter was refused");
      Later(std::move(l));
      return;
    }
    Fault();
    size_t before = w.log[kInc].size();
    auto st = c->SyncDeleteAutoIncrement(t);
    if (w.log[kInc].size() > before && !w.log[kInc][before].conf) l.apply();
    s.Note("sync delete t%d -> %d", (int)t, st.error_code());
    if (st.ok()) VT_CHECK(!m[t].exists, "lost-ack", "deletion was acknowledged and not committed");
    Done();
  }
  std::map<int64_t, int64_t> Dump(int i) {
    butil::FlatMap<int64_t, int64_t> f;
    f.init(64);
    w.r[i].inc->GetAutoIncrements(f);
    std::map<int64_t, int64_t> o;
    for (auto& kv : f) o[kv.first] = kv.second;
    return o;
  }
  void Compare() {
    w.CatchAll();
    std::map<int64_t, int64_t> a;
    bool first = true;
    for (int i = 0; i < 3; i++) {
      if (!w.r[i].up) continue;
      auto d = Dump(i);
      for (auto& [t, v] : d) {
        VT_CHECK(m[t].exists, "ghost-counter", "a deleted counter is present on a replica");
        VT_CHECK(v >= m[t].hi, "rewound-replica", "replica " + std::to_string(i) + " holds table " + std::to_string(t) + " at " + std::to_string(v) + ", below " + std::to_string(m[t].hi));
      }
      for (auto& [t, tb] : m)
        if (tb.exists) VT_CHECK(d.count(t), "lost-counter", "replica " + std::to_string(i) + " does not hold the counter of table " + std::to_string(t));
      if (first)
        a = d, first = false;
      else
        VT_CHECK(a == d, "replicas-differ", "replicas that applied the same log hold different counters");
    }
  }
  void Run(int steps) {
    w.Elect(kInc, s.Below(3));
    int nt = s.Range(1, 3);
    for (int k = 0; k < steps; k++) {
      int64_t t = s.Range(1, nt);
      if (w.leader[kInc] < 0 && s.Chance(80)) w.Elect(kInc, s.Below(3)), nelect++, s.Note("elected c%d", w.leader[kInc]);
      switch (s.Weighted({10, 3, 3, 1, 2, 1, 1, 1, 3, 2, 1})) {
        case 0: Generate(t); break;
        case 1: Create(t); break;
        case 2: Update(t); break;
        case 3: Delete(t); break;
        case 4:
          w.Elect(kInc, s.Below(3));
          nelect++;
          s.Note("elected c%d", w.leader[kInc]);
          break;
        case 5: {
          int i = s.Below(3);
          s.Note("restart c%d", i);
          w.Down(i), w.Up(i);
          nrestart++;
          break;
        }
        case 6: {
          int i = s.Below(3);
          s.Note("snapshot c%d", i);
          w.Save(i, kInc);
          break;
        }
        case 7: {
          int i = s.Below(3), j = s.Below(3);
          if (i != j && w.Install(i, j, kInc)) nsnap++, s.Note("install c%d<-c%d", i, j);
          break;
        }
        case 8:
          for (int i = 0; i < 3; i++)
            if (s.Chance(40)) w.Catch(i, kInc, s.Range(w.r[i].applied[kInc], (int64_t)w.log[kInc].size()));
          break;
        case 9:
          if (!late.empty() && w.leader[kInc] >= 0) {
            size_t x = s.Below(late.size());
            auto l = std::move(late[x]);
            late.erase(late.begin() + x);
            Fault();
            Submit(l);
            Done();
          }
          break;
        case 10: Compare(); break;
      }
    }
    Compare();
  }
};
}  // namespace inch

VT_PROPERTY("C21", 12000, 1000000, "at least three ranges were handed out and there was an election, a restart, an installed snapshot or a request committed later than another one it raced with")
VT_SUB("C21", "history", 1) {
  inch::H h(s);
  h.Run(s.Range(10, 70));
  if (h.ngen >= 3 && (h.nelect || h.nrestart || h.nsnap || h.nlate)) {
    std::ostringstream d;
    for (auto& n : s.notes_) d << n << "\n";
    s.NonTrivial(d.str());
  }
  s.Tag("ranges", h.ngen);
  s.Tag("elections", h.nelect);
  s.Tag("restarts", h.nrestart);
  s.Tag("held-back", h.nlate);
}
