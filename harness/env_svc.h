#pragma once
// Calls the real StoreServiceImpl handlers in process and gives back the response.
#include "common/runnable.h"
#include "common/stream.h"
#include "env.h"
#include "proto/store.pb.h"
#include "server/store_service.h"

namespace env {
struct DoneFlag : public google::protobuf::Closure {
  bool ran = false;
  void Run() override { ran = true; }
};
inline std::unique_ptr<StoreServiceImpl>& Svc() {
  static std::unique_ptr<StoreServiceImpl> s;
  return s;
}
inline void SvcBoot() {  // after Fresh()/Restart()
  static WorkerSetPtr w = [] {
    auto x = ExecqWorkerSet::New("t", 1, 0);
    if (!x->Init()) abort();
    return x;
  }();
  if (!Svc()) Svc() = std::make_unique<StoreServiceImpl>();
  if (!S().stream_manager_) S().InitStreamManager();
  g_on_drop = [] {
    if (Svc()) Svc()->SetStorage(nullptr);
    S().stream_manager_.reset();
  };
  Svc()->SetStorage(S().storage_);
  Svc()->SetReadWorkSet(w);
  Svc()->SetWriteWorkSet(w);
}
template <class Req, class Resp>
inline Resp Call(void (StoreServiceImpl::*m)(google::protobuf::RpcController*, const Req*, Resp*, google::protobuf::Closure*), Req& req) {
  brpc::Controller cntl;
  Resp resp;
  DoneFlag d;
  (Svc().get()->*m)(&cntl, &req, &resp, &d);
  if (!d.ran) vt::Failf("no-reply", req.GetTypeName() + " was never answered");
  return resp;
}
template <class Req>
inline void SetCtx(Req& q, RegionPtr r, pb::store::IsolationLevel iso = pb::store::SnapshotIsolation) {
  q.mutable_context()->set_region_id(r->Id());
  *q.mutable_context()->mutable_region_epoch() = r->Epoch();
  q.mutable_context()->set_isolation_level(iso);
}
}  // namespace env
