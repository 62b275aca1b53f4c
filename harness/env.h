#pragma once
// One in-process server: real dingo-store engines, meta managers, state machines, services; in-memory rocksdb stand-in, inline
// raft (every proposed entry is committed at once and applied through the real state machine), scripted TSO.
#include <filesystem>

#include "braft/raft.h"
#include "brpc/channel.h"
#include "butil/iobuf.h"
#include "common/constant.h"
#include "common/context.h"
#include "common/helper.h"
#include "common/role.h"
#include "config/config_manager.h"
#include "config/yaml_config.h"
#include "coordinator/coordinator_interaction.h"
#include "engine/mono_store_engine.h"
#include "engine/raft_store_engine.h"
#include "engine/rocks_raw_engine.h"
#include "engine/storage.h"
#include "engine/txn_engine_helper.h"
#include "event/store_state_machine_event.h"
#include "mvcc/codec.h"
#include "mvcc/ts_provider.h"
#include "proto/coordinator.pb.h"
#include "proto/meta.pb.h"
#include "raft/store_state_machine.h"
#include "server/server.h"
#include "store/heartbeat.h"
#include "store/region_controller.h"
#include "vshim/rocksdb.h"
#include "vt.h"

DECLARE_int32(node_destroy_wait_time_ms);

namespace env {
using namespace dingodb;
using RegionPtr = store::RegionPtr;

inline int64_t g_tso_phys = 1000000;
inline bool g_tso_up = true;
inline std::function<bool(const google::protobuf::MethodDescriptor*, const google::protobuf::Message*, google::protobuf::Message*)> g_rpc;

struct LogItem {
  std::string data;
  int64_t term;
};
inline std::map<int64_t, std::vector<LogItem>> g_raftlog;  // committed log per node; entry i has index i+1
inline std::set<int64_t> g_noapply;                        // committed but not applied (node paused)
inline int64_t g_term = 1;

inline int64_t NodeId(braft::Node* n);

struct Cfg {
  std::string role = "store";
  std::string yaml_extra;
};
inline Cfg& C() {
  static Cfg c;
  return c;
}
inline std::string Base() { return vt::ScratchRoot() + "/s"; }
inline std::string DbPath() { return Base() + "/data/db"; }

inline Server& S() { return Server::GetInstance(); }

inline void OnApply(braft::Node* n, const braft::Task& t) {
  int64_t id = NodeId(n);
  auto& log = g_raftlog[id];
  log.push_back({t.data->to_string(), g_term});
  if (g_noapply.count(id)) {  // never answered; free the closure without running it
    return;
  }
  braft::Iterator it(std::vector<braft::Iterator::Item>{{*t.data, (int64_t)log.size(), g_term, t.done}});
  n->o_.fsm->on_apply(it);
}

inline void InitProcess() {
  SetRole(C().role);
  std::string b = Base();
  std::filesystem::create_directories(b);
  std::string y = "cluster:\n  name: dingodb\n  instance_id: 1001\n  keyring: TO_BE_CONTINUED\n"
                  "server:\n  host: 127.0.0.1\n  port: 20001\n"
                  "raft:\n  host: 127.0.0.1\n  port: 20101\n  path: " + b + "/data/raft\n  election_timeout_s: 15\n"
                  "log:\n  level: INFO\n  path: " + b + "/log\n"
                  "vector:\n  index_path: " + b + "/data/vector_index\n"
                  "document:\n  index_path: " + b + "/data/document_index\n"
                  "store:\n  path: " + DbPath() + "\n  background_thread_num: 2\n"
                  "  scan:\n    scan_interval_s: 30\n    timeout_s: 300\n    max_bytes_rpc: 4194304\n    max_fetch_cnt_by_server: 1000\n"
                  "  scan_v2:\n    scan_interval_s: 30\n    timeout_s: 300\n    max_bytes_rpc: 4194304\n    max_fetch_cnt_by_server: 1000\n" + C().yaml_extra;
  {
    std::ofstream f(b + "/c.yaml");
    f << y;
  }
  vshim::g_usleep_hook = [](uint64_t) { return 0; };
  vshim::g_execq_inline = true;
  vshim::g_bthread_inline = true;
  FLAGS_node_destroy_wait_time_ms = 0;
  if (!S().InitConfig(b + "/c.yaml")) abort();
  braft::Node::g_apply = OnApply;
  brpc::g_transport = [](const butil::EndPoint&, const google::protobuf::MethodDescriptor* m, brpc::Controller*,
                         const google::protobuf::Message* req, google::protobuf::Message* resp) {
    if (m->name() == "TsoService") {
      if (!g_tso_up) return false;
      auto* q = static_cast<const pb::meta::TsoRequest*>(req);
      auto* r = static_cast<pb::meta::TsoResponse*>(resp);
      r->set_op_type(q->op_type());
      r->set_count(q->count());
      r->mutable_start_timestamp()->set_physical(++g_tso_phys);
      r->mutable_start_timestamp()->set_logical(0);
      return true;
    }
    if (g_rpc) return g_rpc(m, req, resp);
    return false;
  };
}

// (re)creates every server object from what is on disk
inline void Boot() {
  auto& s = S();
  if (!s.InitServerID() || !s.InitDirectory()) abort();
  if (!s.InitRocksRawEngine()) abort();
  pb::common::Location loc;
  loc.set_host("127.0.0.1");
  loc.set_port(20001);
  s.SetServerLocation(loc);
  butil::EndPoint ep;
  butil::str2endpoint("127.0.0.1", 20101, &ep);
  s.SetRaftEndpoint(ep);
  s.coordinator_interaction_ = std::make_shared<CoordinatorInteraction>();
  if (!s.coordinator_interaction_->Init("127.0.0.1:29999")) abort();
  s.heartbeat_ = std::make_shared<Heartbeat>();
  s.heartbeat_->worker_ = Worker::New();  // never started: heartbeats are dropped
  if (!s.InitLogStorage()) abort();
  if (!s.InitTsProvider()) abort();
  if (!s.InitStoreMetaManager()) abort();
  if (!s.InitStoreMetricsManager()) abort();
  s.mono_engine_ = MonoStoreEngine::New(s.rocks_raw_engine_, nullptr, std::make_shared<StoreSmEventListenerFactory>()->Build(),
                                        s.ts_provider_, s.store_meta_manager_, s.store_metrics_manager_);
  s.raft_engine_ = RaftStoreEngine::New(s.rocks_raw_engine_, nullptr, s.ts_provider_);
  if (!s.InitStorage()) abort();
  if (!s.InitRegionController()) abort();
  if (!s.InitRegionCommandManager()) abort();
  if (!s.InitStoreController()) abort();
  if (C().role == "index") {
    if (!s.InitVectorIndexManager()) abort();
  }
}

inline std::function<void()> g_on_drop;
inline void Drop() {  // forget every in-memory object (no clean shutdown)
  auto& s = S();
  if (g_on_drop) g_on_drop();
  s.storage_.reset();
  s.raft_engine_.reset();
  s.mono_engine_.reset();
  s.store_controller_.reset();
  s.region_controller_.reset();
  s.region_command_manager_.reset();
  s.vector_index_manager_.reset();
  s.store_metrics_manager_.reset();
  s.store_meta_manager_.reset();
  s.log_storage_.reset();
  s.ts_provider_.reset();
  s.meta_reader_.reset();
  s.meta_writer_.reset();
  s.rocks_raw_engine_.reset();
}

// fresh empty server
inline void Fresh() {
  Drop();
  rocksdb::vs::g_write_hook = nullptr;
  rocksdb::vs::g_track_unsynced = false;
  rocksdb::vs::Forget(DbPath() + "/rocksdb");
  std::filesystem::remove_all(Base() + "/data");
  g_raftlog.clear();
  g_noapply.clear();
  g_term = 1;
  g_tso_phys = 1000000;
  g_tso_up = true;
  g_rpc = nullptr;
  Boot();
}

inline std::shared_ptr<RaftStoreEngine> Raft() { return std::dynamic_pointer_cast<RaftStoreEngine>(S().raft_engine_); }
inline braft::Node* BNode(int64_t id) {
  auto n = Raft()->GetNode(id);
  return n ? n->node_.get() : nullptr;
}
inline int64_t NodeId(braft::Node* n) {
  auto* sm = dynamic_cast<StoreStateMachine*>(n->o_.fsm);
  return sm ? sm->region_->Id() : 0;
}
inline void Lead(int64_t id) {
  auto* n = BNode(id);
  n->leader_ = n->id_.peer_id;
  n->o_.fsm->on_leader_start(g_term);
}

inline pb::common::RegionDefinition Def(int64_t id, const std::string& start, const std::string& end, bool mono,
                                        int64_t part = 0) {
  pb::common::RegionDefinition d;
  d.set_id(id);
  d.mutable_epoch()->set_conf_version(1);
  d.mutable_epoch()->set_version(1);
  d.set_name("r" + std::to_string(id));
  d.mutable_range()->set_start_key(start);
  d.mutable_range()->set_end_key(end);
  d.set_part_id(part);
  d.set_raw_engine(pb::common::RAW_ENG_ROCKSDB);
  d.set_store_engine(mono ? pb::common::STORE_ENG_MONO_STORE : pb::common::STORE_ENG_RAFT_STORE);
  auto* p = d.add_peers();
  p->set_store_id(1001);
  p->set_role(pb::common::VOTER);
  p->mutable_server_location()->set_host("127.0.0.1");
  p->mutable_server_location()->set_port(20001);
  p->mutable_raft_location()->set_host("127.0.0.1");
  p->mutable_raft_location()->set_port(20101);
  return d;
}

inline RegionPtr AddRegion(const pb::common::RegionDefinition& d, int64_t parent = 0) {
  auto st = CreateRegionTask::CreateRegion(d, parent);
  if (!st.ok()) vt::Failf("env-create-region", st.error_str());
  if (d.store_engine() == pb::common::STORE_ENG_RAFT_STORE) Lead(d.id());
  return S().store_meta_manager_->GetStoreRegionMeta()->GetRegion(d.id());
}

// restart after losing memory; the committed raft log survives, entries above the persisted applied index are replayed
inline void Restart(std::function<size_t(int64_t region, size_t from)> replay_to = nullptr) {
  auto regions = S().store_meta_manager_->GetStoreRegionMeta()->GetAllRegion();
  Drop();
  Boot();
  Raft()->Recover();
  for (auto& r : S().store_meta_manager_->GetStoreRegionMeta()->GetAllRegion()) {
    auto* n = BNode(r->Id());
    if (!n) continue;
    auto& log = g_raftlog[r->Id()];
    std::vector<braft::Iterator::Item> items;
    for (size_t i = 0; i < log.size(); i++) {
      butil::IOBuf b;
      b.append(log[i].data);
      items.push_back({b, (int64_t)i + 1, log[i].term, nullptr});
    }
    if (!items.empty()) {
      braft::Iterator it(items);
      n->o_.fsm->on_apply(it);
    }
    Lead(r->Id());
  }
}

inline std::shared_ptr<Context> Ctx(RegionPtr r, const std::string& cf = Constant::kStoreDataCF) {
  auto c = std::make_shared<Context>();
  c->SetRegionId(r->Id());
  c->SetCfName(cf);
  c->SetRegionEpoch(r->Epoch());
  c->SetIsolationLevel(pb::store::IsolationLevel::SnapshotIsolation);
  c->SetRawEngineType(r->GetRawEngineType());
  c->SetStoreEngineType(r->GetStoreEngineType());
  return c;
}
inline Storage& St() { return *S().storage_; }

}  // namespace env
