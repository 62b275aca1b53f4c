#pragma once
// Three coordinator replicas in one process: real RocksRawEngine (over the rocksdb stand-in), RaftStoreEngine, MetaStateMachine
// and controls each; one committed log per group; the harness decides what is committed, when followers apply, who leads, what
// crashes and who installs a snapshot.
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include "common/constant.h"
#include "common/tracker.h"
#include "coordinator/auto_increment_control.h"
#include "coordinator/coordinator_control.h"
#include "coordinator/kv_control.h"
#include "coordinator/tso_control.h"
#include "engine/write_data.h"
#include "env.h"
#include "meta/meta_reader.h"
#include "meta/meta_writer.h"
#include "raft/meta_state_machine.h"
#include "server/service_helper.h"

namespace cw {
using namespace dingodb;

inline int64_t g_now_us = 1700000000000000LL;  // virtual wall clock

enum G { kMeta = 0, kKv = 1, kInc = 2, kTso = 3, kGroups = 4 };
inline int64_t RegionId(int g) {
  return g == kMeta ? Constant::kMetaRegionId : g == kKv ? Constant::kKvRegionId : g == kInc ? Constant::kAutoIncrementRegionId : Constant::kTsoRegionId;
}

struct Crash {};  // thrown by a write hook: the process dies here

struct Entry {
  std::string data;
  int64_t term;
  bool conf;  // entry braft consumes itself (leader start)
};
struct Snap {
  std::unique_ptr<braft::SnapshotWriter> w;
  int64_t index = 0, term = 0;
};
struct Replica {
  int id = 0;
  std::shared_ptr<YamlConfig> cfg;
  std::shared_ptr<RocksRawEngine> raw;
  std::shared_ptr<RaftStoreEngine> eng;
  std::shared_ptr<CoordinatorControl> meta;
  std::shared_ptr<KvControl> kv;
  std::shared_ptr<AutoIncrementControl> inc;
  std::shared_ptr<TsoControl> tso;
  std::shared_ptr<MetaControl> ctl[kGroups];
  bool up = false;
  int64_t applied[kGroups] = {0, 0, 0, 0};  // what braft has handed to the state machine
  Snap snap[kGroups];
  braft::Node* node(int g) { return eng->GetNode(RegionId(g))->node_.get(); }
  braft::StateMachine* fsm(int g) { return node(g)->o_.fsm; }
  std::string path() const { return env::Base() + "/c" + std::to_string(id); }
};

enum Fault { kNone, kDrop, kCommitUnknown };

struct World {
  int n;
  unsigned mask;  // groups in use
  std::vector<Replica> r;
  std::vector<Entry> log[kGroups];
  int leader[kGroups] = {-1, -1, -1, -1};
  int stale[kGroups] = {-1, -1, -1, -1};  // cut off from the others and still thinks it leads
  int64_t term[kGroups] = {0, 0, 0, 0};
  Fault fault = kNone;                 // applies to the next proposal
  std::vector<std::pair<int, std::function<void()>>> spawned;  // background threads the code started, and whose
  int active = -1;
  bool defer_spawn = false;
  int crash_after = -1;                // writes until the applying replica dies
  std::function<void(int g)> before_apply;
  std::function<void()> pre_append;                      // once: something happens between validating a request and appending it
  std::function<void(int g, int64_t index)> on_commit;  // an entry got its place in the log

  static World*& Cur() {
    static World* w = nullptr;
    return w;
  }

  World(int n_, unsigned mask_) : n(n_), mask(mask_), r(n_) {
    Cur() = this;
    rocksdb::vs::g_write_hook = nullptr;
    auto& s = env::S();
    if (!s.log_storage_ && !s.InitLogStorage()) abort();
    pb::common::Location loc;
    loc.set_host("127.0.0.1");
    loc.set_port(22001);
    s.SetServerLocation(loc);
    braft::Node::g_apply = [](braft::Node* nd, const braft::Task& t) { Cur()->OnApply(nd, t); };
    vshim::g_bthread_spawn_hook = [](std::function<void()> f) {
      if (!Cur() || !Cur()->defer_spawn) {
        f();
        return true;
      }
      Cur()->spawned.emplace_back(Cur()->active, std::move(f));
      return true;
    };
    for (int i = 0; i < n; i++) {
      r[i].id = i;
      std::filesystem::remove_all(r[i].path());
      rocksdb::vs::Forget(r[i].path() + "/db/rocksdb");
      std::filesystem::create_directories(r[i].path());
      Up(i);
    }
  }
  ~World() {
    rocksdb::vs::g_write_hook = nullptr;
    spawned.clear();
    for (auto& x : r) Down(x.id);
    vshim::g_bthread_spawn_hook = nullptr;
    env::S().kv_control_.reset();
    env::S().coordinator_control_.reset();
    env::S().auto_increment_control_.reset();
    env::S().tso_control_.reset();
    env::S().raft_engine_.reset();
    for (auto& x : r) {
      rocksdb::vs::Forget(x.path() + "/db/rocksdb");
      std::filesystem::remove_all(x.path());
    }
    Cur() = nullptr;
  }

  bool Has(int g) const { return mask >> g & 1; }

  // start a replica from its disk: controls recover from the raw engine, braft loads the local snapshot and replays the log
  void Up(int i, bool replay = true) {
    auto& x = r[i];
    x.cfg = std::make_shared<YamlConfig>();
    std::string y = "server:\n  host: 127.0.0.1\nraft:\n  path: " + x.path() + "/raft\n  election_timeout_s: 15\nstore:\n  path: " + x.path() +
                    "/db\n  background_thread_num: 2\n";
    if (x.cfg->Load(y) != 0) abort();
    x.raw = std::make_shared<RocksRawEngine>();
    if (!x.raw->Init(x.cfg, Helper::GetColumnFamilyNamesByRole())) abort();
    x.eng = RaftStoreEngine::New(x.raw, nullptr, nullptr);
    auto rd = [&] { return std::make_shared<MetaReader>(x.raw); };
    auto wr = [&] { return std::make_shared<MetaWriter>(x.raw); };
    butil::EndPoint ep;
    butil::str2endpoint("127.0.0.1", 22101 + i, &ep);
    env::S().SetRaftEndpoint(ep);
    if (Has(kMeta)) {
      x.meta = std::make_shared<CoordinatorControl>(rd(), wr(), x.raw);
      if (!x.meta->Recover() || !x.meta->Init()) abort();
      x.meta->SetKvEngine(x.eng);
      x.ctl[kMeta] = x.meta;
    }
    if (Has(kKv)) {
      x.kv = std::make_shared<KvControl>(rd(), wr(), x.raw);
      if (!x.kv->Recover() || !x.kv->Init()) abort();
      x.kv->SetKvEngine(x.eng);
      x.ctl[kKv] = x.kv;
    }
    if (Has(kInc)) {
      x.inc = std::make_shared<AutoIncrementControl>();
      if (!x.inc->Recover() || !x.inc->Init()) abort();
      x.inc->SetKvEngine(x.eng);
      x.ctl[kInc] = x.inc;
    }
    if (Has(kTso)) {
      x.tso = std::make_shared<TsoControl>();
      if (!x.tso->Recover() || !x.tso->Init()) abort();
      x.tso->SetKvEngine(x.eng);
      x.ctl[kTso] = x.tso;
    }
    for (int g = 0; g < kGroups; g++) {
      if (!Has(g)) continue;
      auto def = std::make_shared<pb::common::RegionDefinition>();
      def->set_id(RegionId(g));
      def->set_name("coor");
      for (int k = 0; k < n; k++) {
        auto* p = def->add_peers();
        p->set_store_id(RegionId(g));
        p->mutable_server_location()->set_host("127.0.0.1");
        p->mutable_server_location()->set_port(22001 + k);
        p->mutable_raft_location()->set_host("127.0.0.1");
        p->mutable_raft_location()->set_port(22101 + k);
      }
      if (!x.eng->AddNode(def, x.ctl[g], g == kInc || g == kTso).ok()) abort();
      x.applied[g] = 0;
      if (x.snap[g].index) {
        braft::SnapshotReader rd2(*x.snap[g].w);
        if (x.fsm(g)->on_snapshot_load(&rd2) != 0) vt::Failf("snapshot-load", "a replica could not load its own snapshot");
        x.applied[g] = x.snap[g].index;
      }
      if (leader[g] >= 0) x.node(g)->leader_ = Peer(leader[g]);
    }
    x.up = true;
  }
  static braft::PeerId Peer(int i) {
    butil::EndPoint ep;
    butil::str2endpoint("127.0.0.1", 22101 + i, &ep);
    return braft::PeerId(ep);
  }
  void Down(int i) {  // the process is gone; only its disk stays
    auto& x = r[i];
    for (int g = 0; g < kGroups; g++) {
      if (leader[g] == i) leader[g] = -1;
      if (stale[g] == i) stale[g] = -1;
      spawned.erase(std::remove_if(spawned.begin(), spawned.end(), [&](auto& f) { return f.first == i; }), spawned.end());
      x.ctl[g].reset();
    }
    if (x.eng)
      for (int g = 0; g < kGroups; g++)
        if (Has(g) && x.eng->GetNode(RegionId(g)))
          if (auto sm = std::dynamic_pointer_cast<MetaStateMachine>(x.eng->GetNode(RegionId(g))->fsm_)) sm->meta_control_.reset();
    if (x.meta) x.meta->raft_node_.reset(), x.meta->engine_.reset();
    if (x.kv) x.kv->raft_node_.reset(), x.kv->engine_.reset();
    if (x.inc) x.inc->raft_node_.reset(), x.inc->engine_.reset();
    if (x.tso) x.tso->raft_node_.reset(), x.tso->engine_.reset();
    if (env::S().coordinator_control_ == x.meta) env::S().coordinator_control_.reset();
    if (env::S().kv_control_ == x.kv) env::S().kv_control_.reset();
    if (env::S().raft_engine_ == x.eng) env::S().raft_engine_.reset();
    x.meta.reset(), x.kv.reset(), x.inc.reset(), x.tso.reset();
    x.eng.reset();
    x.raw.reset();
    x.up = false;
  }
  void Wipe(int i) {  // a new machine takes the replica's place
    if (r[i].up) Down(i);
    rocksdb::vs::Forget(r[i].path() + "/db/rocksdb");
    std::filesystem::remove_all(r[i].path());
    std::filesystem::create_directories(r[i].path());
    for (int g = 0; g < kGroups; g++) r[i].snap[g] = Snap(), r[i].applied[g] = 0;
    Up(i);
  }

  void ApplyOne(int i, int g, int64_t index, braft::Closure* done) {
    auto& e = log[g][index - 1];
    auto& x = r[i];
    x.applied[g] = index;
    if (e.conf) return;
    butil::IOBuf b;
    b.append(e.data);
    braft::Iterator it(std::vector<braft::Iterator::Item>{{b, index, e.term, done}});
    if (before_apply) before_apply(g);
    x.fsm(g)->on_apply(it);
  }
  // apply up to index (default: everything committed); false: the replica crashed on the way
  bool Catch(int i, int g, int64_t upto = -1) {
    if (upto < 0) upto = log[g].size();
    while (r[i].applied[g] < upto) {
      try {
        ApplyOne(i, g, r[i].applied[g] + 1, nullptr);
      } catch (Crash&) {
        rocksdb::vs::g_write_hook = nullptr;
        Down(i);
        return false;
      }
    }
    return true;
  }
  void CatchAll() {
    for (int i = 0; i < n; i++)
      for (int g = 0; g < kGroups; g++)
        if (Has(g) && r[i].up && stale[g] != i) Catch(i, g);
  }
  // the replica's process dies after `writes` more engine writes
  void ArmCrash(int i, int writes) {
    auto left = std::make_shared<int>(writes);
    std::string p = r[i].path() + "/db/rocksdb";
    rocksdb::vs::g_write_hook = [left, p](const std::string& path, const auto&) {
      if (path == p && (*left)-- <= 0) throw Crash();
      return rocksdb::Status::OK();
    };
  }
  void Disarm() { rocksdb::vs::g_write_hook = nullptr; }
  // run a request; false: the leader's process died while serving it
  bool Do(int g, const std::function<void()>& f) {
    int l = leader[g];
    try {
      f();
    } catch (Crash&) {
      Disarm();
      if (l >= 0) Down(l);
      return false;
    }
    Disarm();
    return true;
  }

  void StepDown(int g) {
    int l = leader[g];
    if (l < 0) return;
    leader[g] = -1;
    for (auto& x : r)
      if (x.up && x.id != stale[g]) x.node(g)->leader_ = braft::PeerId();
    r[l].fsm(g)->on_leader_stop(butil::Status(1, "step down"));
  }
  void Heal(int g) {  // the cut-off leader learns that it was replaced
    int l = stale[g];
    if (l < 0) return;
    stale[g] = -1;
    r[l].fsm(g)->on_leader_stop(butil::Status(1, "step down"));
  }
  // aside: the old leader does not notice
  void Elect(int g, int i, bool aside = false) {
    if (!r[i].up || stale[g] == i) return;
    if (aside && leader[g] >= 0 && leader[g] != i && stale[g] < 0) {
      stale[g] = leader[g];
      leader[g] = -1;
    }
    StepDown(g);
    if (!Catch(i, g)) return;
    term[g]++;
    log[g].push_back({"", term[g], true});
    r[i].applied[g] = log[g].size();
    leader[g] = i;
    for (auto& x : r)
      if (x.up && x.id != stale[g]) x.node(g)->leader_ = Peer(i);
    switch (g) {
      case kMeta: env::S().coordinator_control_ = r[i].meta; break;
      case kKv: env::S().kv_control_ = r[i].kv; break;
      case kInc: env::S().auto_increment_control_ = r[i].inc; break;
      case kTso: env::S().tso_control_ = r[i].tso; break;
    }
    if (g == kMeta) env::S().raft_engine_ = r[i].eng;
    active = i;
    r[i].fsm(g)->on_leader_start(term[g]);
    active = -1;
  }
  Replica* L(int g) { return leader[g] < 0 ? nullptr : &r[leader[g]]; }

  void Fail(braft::Closure* d, int code, const char* m) {
    d->status().set_error(code, "%s", m);
    d->Run();
  }
  void OnApply(braft::Node* nd, const braft::Task& t) {
    int g = -1, i = -1;
    for (auto& x : r)
      for (int k = 0; k < kGroups; k++)
        if (x.up && Has(k) && x.eng->GetNode(RegionId(k)) && x.node(k) == nd) g = k, i = x.id;
    if (g < 0 || leader[g] != i) return Fail(t.done, EPERM, "is not leader");
    if (pre_append) {
      auto p = std::move(pre_append);
      pre_append = nullptr;
      p();
      if (leader[g] != i) return Fail(t.done, EPERM, "is not leader");
    }
    Fault f = fault;
    fault = kNone;
    if (f == kDrop) return Fail(t.done, EPERM, "log truncated");
    log[g].push_back({t.data->to_string(), term[g], false});
    if (on_commit) on_commit(g, log[g].size());
    if (f == kCommitUnknown) {  // the leader loses its office before the entry is committed; the next leader commits it
      StepDown(g);
      return Fail(t.done, EPERM, "leader stepped down");
    }
    if (!Catch(i, g, log[g].size() - 1)) return Fail(t.done, EPERM, "crashed");
    ApplyOne(i, g, log[g].size(), t.done);
  }

  void Save(int i, int g) {
    auto& x = r[i];
    if (!x.up || x.applied[g] == 0) return;
    Snap s;
    std::string p = x.path() + "/snap" + std::to_string(g) + "_" + std::to_string(x.applied[g]);
    std::filesystem::create_directories(p);
    s.w = std::make_unique<braft::SnapshotWriter>(p);
    s.index = x.applied[g];
    s.term = log[g][s.index - 1].term;
    s.w->meta_.set_last_included_index(s.index);
    s.w->meta_.set_last_included_term(s.term);
    struct D : braft::Closure {
      bool ok = false;
      void Run() override { ok = status().ok(); }
    } d;
    bool defer = defer_spawn;
    defer_spawn = false;
    x.fsm(g)->on_snapshot_save(s.w.get(), &d);
    defer_spawn = defer;
    if (!d.ok) vt::Failf("snapshot-save", "saving a snapshot failed");
    x.snap[g] = std::move(s);
  }
  // follower i installs replica j's snapshot
  bool Install(int i, int j, int g) {
    auto& src = r[j].snap[g];
    if (!r[i].up || !src.index || i == leader[g] || i == stale[g] || src.index <= r[i].applied[g]) return false;
    std::string p = r[i].path() + "/inst" + std::to_string(g) + "_" + std::to_string(src.index);
    std::filesystem::remove_all(p);
    std::filesystem::copy(src.w->path_, p, std::filesystem::copy_options::recursive);
    Snap s;
    s.w = std::make_unique<braft::SnapshotWriter>(*src.w);
    s.w->path_ = p;
    s.index = src.index;
    s.term = src.term;
    braft::SnapshotReader rd(*s.w);
    if (r[i].fsm(g)->on_snapshot_load(&rd) != 0) vt::Failf("snapshot-load", "a follower could not load the leader's snapshot");
    r[i].applied[g] = s.index;
    r[i].snap[g] = std::move(s);
    return true;
  }
  void RunSpawned() {
    auto v = std::move(spawned);
    spawned.clear();
    for (auto& f : v)
      if (r[f.first].up) f.second();
  }
};
inline World& W() { return *World::Cur(); }

struct Tracked : public TrackClosure {
  Tracked() : TrackClosure(Tracker::New(pb::common::RequestInfo())) {}
  bool ran = false;
  void Run() override { ran = true; }
};
}  // namespace cw

// the wall clock of the process is cw::g_now_us (this header goes into one translation unit only)
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
    ts->tv_sec = cw::g_now_us / 1000000;
    ts->tv_nsec = cw::g_now_us % 1000000 * 1000;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  tv->tv_sec = cw::g_now_us / 1000000;
  tv->tv_usec = cw::g_now_us % 1000000;
  return 0;
}
extern "C" time_t time(time_t* t) noexcept {
  time_t v = cw::g_now_us / 1000000;
  if (t) *t = v;
  return v;
}

