#pragma once
// One store process that hosts several neighbouring raft regions.  The leader life serves requests and split / merge jobs
// through the real tasks and records the log of every region; other lives (fresh followers, restarted stores) are fed the same
// logs in other orders, with crashes, and must end in the same state.
#include "env_svc.h"
#include <fstream>

#include "config/config_helper.h"
#include "config/config_manager.h"
#include "log/rocks_log_storage.h"
#include "raft/dingo_filesystem_adaptor.h"

namespace rocksdb::vs {
void FreezeNow(const std::string& path);
void Thaw(const std::string& path);
}  // namespace rocksdb::vs
namespace rw {
using namespace dingodb;
using vt::Hex;
using vt::Src;
using M = std::map<std::string, std::string>;
namespace P = dingodb::pb;
using St = P::common::StoreRegionState;

struct Dec {  // a merge job went ahead: what it was told about the follower
  int64_t seq, src, m, tgt, t;
};
struct Meta {
  std::string start, end;
  int64_t ver;
  int state;
  bool operator==(const Meta& o) const { return start == o.start && end == o.end && ver == o.ver && state == o.state; }
  std::string Str() const { return "[" + Hex(start) + "," + Hex(end) + ") v" + std::to_string(ver) + " " + P::common::StoreRegionState_Name((St)state); }
};
inline std::string DataDb() { return env::DbPath() + "/rocksdb"; }
inline const char* const kFollower = "127.0.0.2:20101:0:0";

struct W {
  Src& s;
  std::vector<P::common::RegionDefinition> defs;
  std::string lo, hi;
  M model;
  std::map<int64_t, std::vector<int64_t>> seqs;  // per region, per log entry: global order of proposal
  int64_t seq = 0, next_id = 300, job = 1000;
  std::vector<Dec> decs;
  std::map<int64_t, int64_t> pos;  // how much of each log the current life has been fed
  std::map<int64_t, int64_t> ver;  // highest epoch version seen in this life's region meta
  std::map<int64_t, int64_t> chg;  // leader: log index of the region's last range change
  std::vector<int64_t> feeding;
  bool leading = false, in_nest = false, can_lead = false;
  std::function<void(int64_t)> pre_append;
  int64_t rep_applied[2] = {0, 0}, rep_committed[2] = {0, 0};
  bool rep_stale = false, rep_missing = false;
  int64_t rep_src = 0;
  int stuck = 0;
  int nsplit = 0, nmerge = 0, nwait = 0, ncatch = 0, ncrash = 0, nstale = 0, nnest = 0;

  explicit W(Src& src) : s(src) {}
  ~W() {
    rocksdb::vs::g_write_hook = nullptr;
    vshim::g_usleep_hook = [](uint64_t) { return 0; };
    braft::Node::g_apply = env::OnApply;
  }

  static std::vector<env::RegionPtr> All() { return env::S().store_meta_manager_->GetStoreRegionMeta()->GetAllRegion(); }
  static env::RegionPtr Get(int64_t id) { return env::S().store_meta_manager_->GetStoreRegionMeta()->GetRegion(id); }
  std::map<int64_t, Meta> Metas() {
    std::map<int64_t, Meta> m;
    for (auto& r : All()) m[r->Id()] = {r->Range(false).start_key(), r->Range(false).end_key(), r->Epoch().version(), (int)r->State()};
    return m;
  }
  std::string MetaStr() {
    std::string o;
    for (auto& [id, x] : Metas()) o += std::to_string(id) + ":" + x.Str() + " ";
    return o;
  }
  static bool Normal(env::RegionPtr r) { return r->State() == P::common::NORMAL; }
  env::RegionPtr Route(const std::string& k) {
    for (auto& r : All())
      if (Normal(r) && r->Range(false).start_key() <= k && k < r->Range(false).end_key()) return r;
    return nullptr;
  }

  // ---- lives
  void Begin() {
    rocksdb::vs::g_write_hook = nullptr;
    rocksdb::vs::Forget(env::Base() + "/data/raft/log");
    auto keep = env::g_raftlog;
    env::Drop();
    env::Fresh();
    env::g_raftlog = keep;
    env::SvcBoot();
    Hooks();
    pos.clear();
    inited_.clear();
    ver.clear();
    feeding.clear();
    for (auto& d : defs) {
      auto st = CreateRegionTask::CreateRegion(d, 0);
      VT_CHECK(st.ok(), "env-create-region", st.error_str());
      if (leading) Lead(d.id());
    }
    if (!leading) {  // it got timestamps before the leader wrote anything
      env::g_tso_phys = 900000;
      env::S().GetTsProvider()->GetTs();
      env::g_tso_phys = 2000000;
    }
    for (auto& [d, parent] : children) {  // made by the coordinator on every peer before it orders the split
      auto st = CreateRegionTask::CreateRegion(d, parent);
      VT_CHECK(st.ok(), "env-create-region", st.error_str());
    }
  }
  bool pre = false;
  std::vector<std::pair<P::common::RegionDefinition, int64_t>> children;  // PRE_CREATE_REGION: waiting regions
  void Strategy(bool pre_create) {
    pre = pre_create;
    std::ifstream f(env::Base() + "/c.yaml");
    std::string y((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (pre)
      if (auto i = y.find("POST_CREATE_REGION"); i != y.npos) y.replace(i, 4, "PRE");
    ConfigManager::GetInstance().GetRoleConfig()->Load(y);
    VT_CHECK(ConfigHelper::GetSplitStrategy() == (pre ? P::raft::PRE_CREATE_REGION : P::raft::POST_CREATE_REGION), "env-strategy", "");
  }
  int64_t Child(env::RegionPtr parent) {
    if (!pre) return next_id++;
    for (auto& [d, p] : children)
      if (auto c = Get(d.id()); p == parent->Id() && c && !in_nest && c->State() == P::common::STANDBY && s.Bool()) return d.id();  // an earlier split was refused
    int64_t id = next_id++;
    auto d = env::Def(id, Helper::GenMaxStartKey(), parent->Range(false).start_key(), false);
    auto h = rocksdb::vs::g_write_hook;
    rocksdb::vs::g_write_hook = nullptr;
    auto st = CreateRegionTask::CreateRegion(d, parent->Id());
    rocksdb::vs::g_write_hook = h;
    VT_CHECK(st.ok(), "create-child", "a waiting region for a split was refused: " << st.error_str());
    children.emplace_back(d, parent->Id());
    return id;
  }
  void Hooks() {
    braft::Node::g_apply = [this](braft::Node* n, const braft::Task& t) { OnPropose(n, t); };
    vshim::g_usleep_hook = [this](uint64_t) {
      OnWait();
      return 0;
    };
    env::g_rpc = [this](const google::protobuf::MethodDescriptor* m, const google::protobuf::Message* q, google::protobuf::Message* r) { return Rpc(m, q, r); };
  }
  void Lead(int64_t id) {
    auto* n = env::BNode(id);
    if (!n || n->is_leader()) return;
    env::Lead(id);
  }
  void LeadAll() {
    for (auto& r : All())
      if (pos[r->Id()] >= (int64_t)env::g_raftlog[r->Id()].size()) Lead(r->Id());
  }
  void OnPropose(braft::Node* n, const braft::Task& t) {
    int64_t id = env::NodeId(n);
    if (pre_append && !in_nest) {
      auto f = pre_append;
      pre_append = nullptr;
      in_nest = true;
      f(id);
      in_nest = false;
    }
    seqs[id].push_back(++seq);
    pos[id] = (int64_t)env::g_raftlog[id].size() + 1;
    Store(n, t.data->to_string(), pos[id], env::g_term);
    env::OnApply(n, t);
  }
  void Store(braft::Node* n, const std::string& data, int64_t idx, int64_t term) {  // into the node's real raft log
    auto* w = n->o_.log_storage;
    static braft::ConfigurationManager cm;
    if (inited_.insert(env::NodeId(n)).second) w->init(&cm);
    if (w->last_log_index() >= idx) return;
    auto* e = new braft::LogEntry;
    e->AddRef();
    e->type = braft::ENTRY_TYPE_DATA;
    e->id = braft::LogId(idx, term);
    e->data.append(data);
    w->append_entry(e);
    e->Release();
  }
  // The store dies before its nth write from here: what it does after that moment is forgotten by Reboot.
  void Arm(int writes) {
    auto left = std::make_shared<int>(writes);
    rocksdb::vs::g_write_hook = [this, left](const std::string& p, const auto&) {
      if (p == DataDb() && !crashed && (*left)-- <= 0) Die();
      return rocksdb::Status::OK();
    };
  }
  bool crashed = false;
  std::function<void()> undo_;
  static std::string LogDb() { return env::Base() + "/data/raft/log"; }
  void Die() {
    crashed = true;
    rocksdb::vs::FreezeNow(DataDb());
    rocksdb::vs::FreezeNow(LogDb());
    std::map<int64_t, size_t> len;
    for (auto& [id, l] : env::g_raftlog) len[id] = l.size();
    undo_ = [this, len, n = decs.size(), d = done_, m = model, c = chg]() mutable {
      for (auto& [id, l] : env::g_raftlog) {
        if (l.size() > len[id]) l.resize(len[id]);
        if (seqs[id].size() > len[id]) seqs[id].resize(len[id]);
      }
      decs.resize(std::min(n, decs.size()));
      done_ = d;
      model = m;
      chg = c;
    };
  }
  void Disarm() { rocksdb::vs::g_write_hook = nullptr; }
  // power off, power on; the committed logs are fed again from the start
  void Reboot() {
    Disarm();
    ncrash++;
    env::Drop();
    if (crashed) {
      undo_();
      rocksdb::vs::Thaw(DataDb());
      rocksdb::vs::Thaw(LogDb());
      crashed = false;
    }
    env::Boot();
    env::SvcBoot();
    Hooks();
    env::Raft()->Recover();
    pos.clear();
    inited_.clear();
    feeding.clear();
    iter_.clear();
    in_nest = false;
    pre_append = nullptr;
  }

  // ---- feeding a life
  std::map<int64_t, braft::Iterator*> iter_;  // being applied (maybe waiting)
  int64_t Applied(int64_t id) {
    auto it = iter_.find(id);
    return it == iter_.end() ? pos[id] : it->second->valid() ? it->second->index() - 1 : pos[id];
  }
  static bool Here(int64_t id) {  // the split that makes the region was applied
    auto r = Get(id);
    return r && r->State() != P::common::STANDBY;
  }
  bool Met(const Dec& d) { return Here(d.src) && Here(d.tgt) && Applied(d.src) >= d.m && Applied(d.tgt) >= d.t; }
  bool Allowed(int64_t id) {
    int64_t q = seqs[id][pos[id]];
    for (auto& d : decs)
      if (d.seq < q && !done_[d.seq]) {
        if (id == d.src && pos[id] < d.m) continue;
        if (id == d.tgt && pos[id] < d.t) continue;
        if (!Met(d)) return false;
      }
    return true;
  }
  std::set<int64_t> inited_;       // raft logs opened in this process
  std::map<int64_t, bool> done_;  // barriers met once in this store's history (they stay met across its restarts)
  std::vector<int64_t> Feedable() {
    std::vector<int64_t> v;
    for (auto& d : decs)
      if (Met(d)) done_[d.seq] = true;
    for (auto& r : All()) {
      int64_t id = r->Id();
      if (std::count(feeding.begin(), feeding.end(), id)) continue;
      if (!feeding.empty() && r->State() == P::common::STANDBY) continue;  // frames are nested: what it waits for may be below it
      if (pos[id] >= (int64_t)env::g_raftlog[id].size() || !env::BNode(id)) continue;
      if (Allowed(id)) v.push_back(id);
    }
    return v;
  }
  void Feed(int64_t id, int n) {
    std::vector<braft::Iterator::Item> items;
    auto& log = env::g_raftlog[id];
    auto* bn = env::BNode(id);
    for (; n > 0 && pos[id] < (int64_t)log.size() && Allowed(id); n--) {
      butil::IOBuf b;
      b.append(log[pos[id]].data);
      Store(bn, log[pos[id]].data, pos[id] + 1, log[pos[id]].term);
      items.push_back({b, pos[id] + 1, log[pos[id]].term, nullptr});
      pos[id]++;
    }
    if (items.empty()) return;
    feeding.push_back(id);
    braft::Iterator it(items);
    iter_[id] = &it;
    bn->o_.fsm->on_apply(it);
    iter_.erase(id);
    feeding.pop_back();
    stuck = 0;
  }
  // the store sleeps inside an apply: other groups go on
  void OnWait() {
    nwait++;
    auto v = Feedable();
    if (!v.empty()) {
      auto low = Get(feeding.empty() ? 0 : feeding[0]);
      Feed(s.Pick(v), low && low->State() == P::common::STANDBY ? 1 : (int)s.Range(1, 3));
      return;
    }
    if (can_lead) LeadAll();
    if (++stuck > 40) vt::Failf("stuck", "an apply waits for ever: " + MetaStr() + " feeding " + std::to_string(feeding.empty() ? 0 : feeding.back()));
  }
  // feed everything; crash_pct: chance per step of dying at a random write
  void FeedAll(int crash_pct, int max_crash) {
    int crashes = 0;
    stuck = 0;
    for (;;) {
      auto v = Feedable();
      if (v.empty()) {
        Disarm();
        bool rest = false;
        for (auto& [id, l] : env::g_raftlog)
          if (pos[id] < (int64_t)l.size()) rest = true;
        if (rest) vt::Failf("log-unreachable", "committed entries of a region this store should host were never applied (no node): " + MetaStr() + Pos());
        return;
      }
      bool die = crashes < max_crash && crash_pct && s.Chance(crash_pct), now = die && s.Chance(1, 4);
      if (die && !now) Arm((int)s.Below(16));
      if (!now) Feed(s.Pick(v), s.Chance(1, 3) ? 1 : (int)s.Range(1, 8));
      if (now || crashed) {
        crashes++;
        s.Note("crash");
        Reboot();
      }
    }
  }
  std::string Pos() {
    std::string o;
    for (auto& [id, l] : env::g_raftlog) o += " pos " + std::to_string(id) + "=" + std::to_string(pos[id]) + "/" + std::to_string(l.size());
    return o;
  }

  // ---- other stores, as this one sees them
  bool Rpc(const google::protobuf::MethodDescriptor* m, const google::protobuf::Message* q, google::protobuf::Message* r) {
    if (m->name() == "GetRegionInfo") {
      auto* qq = static_cast<const P::node::GetRegionInfoRequest*>(q);
      auto* rr = static_cast<P::node::GetRegionInfoResponse*>(r);
      for (auto id : qq->region_ids()) {
        auto reg = Get(id);
        if (!reg) continue;
        auto* x = rr->add_regions();
        *x = reg->InnerRegion();
        if (qq->region_ids_size() == 2 && rep_stale && (id == rep_src) == (rep_missing))
          x->mutable_definition()->mutable_epoch()->set_version(x->definition().epoch().version() - 1);
      }
      return true;
    }
    if (m->name() == "GetRaftStatus") {
      auto* qq = static_cast<const P::node::GetRaftStatusRequest*>(q);
      auto* rr = static_cast<P::node::GetRaftStatusResponse*>(r);
      for (auto id : qq->region_ids()) {
        auto* e = rr->add_entries();
        e->set_region_id(id);
        int k = id == rep_src ? 0 : 1;
        e->mutable_raft_status()->set_peer_id(kFollower);
        e->mutable_raft_status()->set_known_applied_index(rep_applied[k]);
        e->mutable_raft_status()->set_committed_index(rep_committed[k]);
      }
      return true;
    }
    return false;
  }
  void SetStatus(int64_t id) {
    auto* n = env::BNode(id);
    auto& st = n->status_;
    st.committed_index = st.known_applied_index = st.last_index = (int64_t)env::g_raftlog[id].size();
    st.peer_id = n->id_.peer_id;
    st.leader_id = n->leader_;
    st.stable_followers.clear();
    braft::PeerStatus ps;
    ps.valid = true;
    ps.next_index = st.last_index + 1;
    st.stable_followers[braft::PeerId(std::string("127.0.0.2:20101:0"))] = ps;
  }

  // ---- jobs
  void Split(env::RegionPtr r, const std::string& key) {
    auto cmd = std::make_shared<P::coordinator::RegionCmd>();
    int64_t child = Child(r);
    cmd->set_id(job);
    cmd->set_job_id(job++);
    cmd->set_region_id(r->Id());
    cmd->set_region_cmd_type(P::coordinator::CMD_SPLIT);
    cmd->mutable_split_request()->set_split_from_region_id(r->Id());
    cmd->mutable_split_request()->set_split_to_region_id(child);
    cmd->mutable_split_request()->set_split_watershed_key(key);
    cmd->mutable_split_request()->set_store_create_region(!pre);
    SetStatus(r->Id());
    auto before = Metas()[r->Id()];
    s.Note("split %ld at %s -> %ld", (long)r->Id(), Hex(key).c_str(), (long)child);
    int64_t pid = r->Id();
    bool must = !in_nest && !pre_append && !crashed && Normal(r) && before.start < key && key < before.end;
    SplitRegionTask(nullptr, cmd).Run();
    auto c = Get(child);
    if (must && !crashed) VT_CHECK(c && Normal(c), "split-refused", "nothing stands in the way of a split of " << before.Str() << " at " << Hex(key) << " and it did not happen: " << MetaStr());
    if (!c || c->State() == P::common::STANDBY) return;
    nsplit++;
    chg[pid] = (int64_t)env::g_raftlog[pid].size();
    chg[child] = 0;
    auto p = Metas()[pid], m = Metas()[child];
    VT_CHECK(m.start == before.start && m.end == key && p.start == key && p.end == before.end, "split-range",
             "split of " << before.Str() << " at " << Hex(key) << " gave child " << m.Str() << " parent " << p.Str());
    VT_CHECK(p.ver > before.ver, "split-epoch", "parent keeps epoch version " << p.ver);
    VT_CHECK(c->RawAppliedMaxTs() >= r->RawAppliedMaxTs(), "split-max-ts", "child max ts " << c->RawAppliedMaxTs() << " < parent's " << r->RawAppliedMaxTs());
    VT_CHECK(c->TxnAccessMaxTs() >= r->TxnAccessMaxTs(), "split-access-ts", "child access ts " << c->TxnAccessMaxTs() << " < parent's " << r->TxnAccessMaxTs());
    Lead(child);
  }
  void Merge(env::RegionPtr a, env::RegionPtr b) {  // a into b
    int64_t sid = a->Id(), tid = b->Id();
    auto cmd = std::make_shared<P::coordinator::RegionCmd>();
    cmd->set_id(job);
    cmd->set_job_id(job);
    cmd->set_region_id(sid);
    cmd->set_region_cmd_type(P::coordinator::CMD_MERGE);
    cmd->mutable_merge_request()->set_source_region_id(sid);
    cmd->mutable_merge_request()->set_target_region_id(tid);
    SetStatus(sid);
    SetStatus(tid);
    rep_src = sid;
    int64_t ids[2] = {sid, tid};
    for (int k = 0; k < 2; k++) {
      int64_t n = (int64_t)env::g_raftlog[ids[k]].size(), c = chg[ids[k]];
      rep_applied[k] = s.Chance(1, 3) ? n : c + (int64_t)s.Below((uint64_t)(n - c) + 1);
      rep_committed[k] = rep_applied[k] + (int64_t)s.Below((uint64_t)(n - rep_applied[k]) + 1);
    }
    rep_stale = s.Chance(1, 8);
    rep_missing = s.Bool();
    bool stale = rep_stale;
    auto ma = Metas()[sid], mb = Metas()[tid];
    int64_t raw = std::max(a->RawAppliedMaxTs(), b->RawAppliedMaxTs()), acc = std::max(a->TxnAccessMaxTs(), b->TxnAccessMaxTs());
    Dec d{seq, sid, rep_applied[0], tid, rep_applied[1]};
    s.Note("merge %ld into %ld (follower applied %ld/%ld of %zu/%zu)%s", (long)sid, (long)tid, (long)d.m, (long)d.t, env::g_raftlog[sid].size(), env::g_raftlog[tid].size(),
           stale ? " follower has an old epoch" : "");
    decs.push_back(d);
    done_[d.seq] = true;
    int64_t before = seq;
    size_t di = decs.size() - 1;
    job++;
    bool must = !in_nest && !pre_append && !crashed && !stale && Normal(a) && Normal(b) && (ma.end == mb.start || mb.end == ma.start);
    MergeRegionTask(nullptr, cmd).Run();
    if (must && !crashed) VT_CHECK(Get(sid)->State() == P::common::TOMBSTONE, "merge-refused", "nothing stands in the way of a merge of " << ma.Str() << " into " << mb.Str() << " and it did not happen: " << MetaStr());
    if (seq == before) decs.erase(decs.begin() + di);
    rep_stale = false;
    if (stale) VT_CHECK(seq == before, "merge-with-lagging-follower", "a merge went ahead though a follower still has an older epoch of one of the regions");
    auto A = Get(sid);
    if (!A || A->State() != P::common::TOMBSTONE) return;
    nmerge++;
    chg[tid] = (int64_t)env::g_raftlog[tid].size();
    chg[sid] = (int64_t)env::g_raftlog[sid].size();
    auto n = Metas()[tid];
    if (ma.ver == 0) return;
    VT_CHECK(Metas()[sid].ver > ma.ver, "merge-source-epoch", "the merged region keeps its epoch version " << ma.ver);
    VT_CHECK(n.start == std::min(ma.start, mb.start) && n.end == std::max(ma.end, mb.end), "merge-range", ma.Str() << " + " << mb.Str() << " gave " << n.Str());
    VT_CHECK(n.ver > ma.ver && n.ver > mb.ver, "merge-epoch", ma.Str() << " + " << mb.Str() << " gave " << n.Str());
    VT_CHECK(Get(tid)->RawAppliedMaxTs() >= raw, "merge-max-ts", "max ts " << Get(tid)->RawAppliedMaxTs() << " < " << raw);
    VT_CHECK(Get(tid)->TxnAccessMaxTs() >= acc, "merge-access-ts", "access ts " << Get(tid)->TxnAccessMaxTs() << " < " << acc);
  }

  // ---- invariants
  void CheckRanges(const char* when) {
    std::vector<std::pair<std::string, std::string>> v;
    for (auto& r : All()) {
      auto m = Metas()[r->Id()];
      auto& hv = ver[r->Id()];
      VT_CHECK(m.ver >= hv, "epoch-back", when << ": region " << r->Id() << " went from epoch version " << hv << " back to " << m.ver);
      hv = m.ver;
      if (Normal(r)) v.emplace_back(m.start, m.end);
    }
    std::sort(v.begin(), v.end());
    std::string at = lo;
    for (auto& [a, b] : v) {
      VT_CHECK(a <= at, "range-lost", when << ": no region serves [" << Hex(at) << "," << Hex(a) << "): " << MetaStr());
      VT_CHECK(a >= at, "range-twice", when << ": [" << Hex(a) << "," << Hex(at) << ") is served twice: " << MetaStr());
      VT_CHECK(a < b, "range-empty", when << ": " << MetaStr());
      at = b;
    }
    VT_CHECK(at == hi, "range-lost", when << ": no region serves [" << Hex(at) << "," << Hex(hi) << "): " << MetaStr());
  }
  M Scan() {  // everything that is served
    M m;
    for (auto& r : All()) {
      if (!Normal(r)) continue;
      auto rd = env::St().GetEngineMVCCReader(r->GetStoreEngineType(), r->GetRawEngineType());
      std::vector<P::common::KeyValue> kvs;
      auto st = rd->KvScan(Constant::kStoreDataCF, 0, r->Range(false).start_key(), r->Range(false).end_key(), kvs);
      VT_CHECK(st.ok(), "scan", st.error_str());
      for (auto& kv : kvs) m[kv.key()] = kv.value();
    }
    return m;
  }
  static std::string Str(const M& m) {
    std::string o;
    for (auto& [k, v] : m) o += Hex(k) + "=" + Hex(v) + " ";
    return o;
  }
  void CheckData(const char* when) {
    auto got = Scan();
    VT_CHECK(got == model, "data", when << ": the regions serve {" << Str(got) << "} accepted writes give {" << Str(model) << "} " << MetaStr());
  }

  // ---- requests (region as the client knows it)
  struct Known {
    int64_t id;
    P::common::RegionEpoch epoch;
  };
  Known Look(env::RegionPtr r) { return {r->Id(), r->Epoch()}; }
  template <class Q>
  void Cx(Q& q, const Known& k) {
    q.mutable_context()->set_region_id(k.id);
    *q.mutable_context()->mutable_region_epoch() = k.epoch;
  }
  bool Put(const Known& to, const std::vector<std::pair<std::string, std::string>>& kvs) {
    P::store::KvBatchPutRequest q;
    Cx(q, to);
    for (auto& [k, v] : kvs) {
      auto* x = q.add_kvs();
      x->set_key(k);
      x->set_value(v);
    }
    auto r = env::Call(&StoreServiceImpl::KvBatchPut, q);
    if (r.error().errcode() != 0) return false;
    for (auto& [k, v] : kvs) model[k] = v;
    return true;
  }
  bool DelRange(const Known& to, const std::string& a, const std::string& b) {
    P::store::KvDeleteRangeRequest q;
    Cx(q, to);
    q.mutable_range()->mutable_range()->set_start_key(a);
    q.mutable_range()->mutable_range()->set_end_key(b);
    q.mutable_range()->set_with_start(true);
    q.mutable_range()->set_with_end(false);
    auto r = env::Call(&StoreServiceImpl::KvDeleteRange, q);
    if (r.error().errcode() != 0) return false;
    model.erase(model.lower_bound(a), model.lower_bound(b));
    return true;
  }
};
}  // namespace rw
