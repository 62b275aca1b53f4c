#include "vshim/brpc.h"
namespace brpc {
Transport g_transport;
void Channel::CallMethod(const google::protobuf::MethodDescriptor* m, google::protobuf::RpcController* c,
                         const google::protobuf::Message* req, google::protobuf::Message* resp,
                         google::protobuf::Closure* done) {
  auto* cntl = dynamic_cast<Controller*>(c);
  if (!g_transport || !g_transport(ep_, m, cntl, req, resp)) {
    if (cntl) cntl->SetFailed(EFAILEDSOCKET, "no transport");
  }
  if (done) done->Run();
}
}  // namespace brpc
