// Stand-in for brpc: no network; harnesses may install an in-process transport.
#pragma once
#include <gflags/gflags.h>
#include <google/protobuf/service.h>

#include "vshim/bthread.h"
#include "vshim/butil.h"
#include "vshim/bvar.h"
namespace brpc {
enum Errno { ENOSERVICE = 1001, ENOMETHOD = 1002, EREQUEST = 1003, ERPCAUTH = 1004, ERPCTIMEDOUT = 1008, EFAILEDSOCKET = 1009, EHOSTDOWN_ = 112, EINTERNAL = 2001, ERESPONSE = 2002, ELOGOFF = 2003, ELIMIT = 2004 };
enum CompressType { COMPRESS_TYPE_NONE = 0, COMPRESS_TYPE_SNAPPY = 1, COMPRESS_TYPE_GZIP = 2 };
enum ConnectionType { CONNECTION_TYPE_UNKNOWN = 0, CONNECTION_TYPE_SINGLE = 1, CONNECTION_TYPE_POOLED = 2, CONNECTION_TYPE_SHORT = 4 };
enum ProtocolType { PROTOCOL_UNKNOWN = 0, PROTOCOL_BAIDU_STD = 1, PROTOCOL_GRPC = 20 };
class URI {
 public:
  const std::string* GetQuery(const std::string& k) const {
    auto it = q_.find(k);
    return it == q_.end() ? nullptr : &it->second;
  }
  const std::string& path() const { return path_; }
  void operator=(const std::string& p) { path_ = p; }
  std::map<std::string, std::string> q_;
  std::string path_;
};
enum HttpMethod { HTTP_METHOD_GET = 1, HTTP_METHOD_POST = 3 };
class HttpHeader {
 public:
  URI& uri() { return uri_; }
  const URI& uri() const { return uri_; }
  const std::string& unresolved_path() const { return unresolved_; }
  void set_content_type(const std::string& s) { ct_ = s; }
  const std::string& content_type() const { return ct_; }
  void set_status_code(int c) { code_ = c; }
  int status_code() const { return code_; }
  void set_method(HttpMethod m) { m_ = m; }
  HttpMethod method() const { return m_; }
  const std::string* GetHeader(const std::string&) const { return nullptr; }
  void SetHeader(const std::string&, const std::string&) {}
  std::string unresolved_;

 private:
  URI uri_;
  std::string ct_;
  int code_{200};
  HttpMethod m_{HTTP_METHOD_GET};
};
class Server;
class Controller : public google::protobuf::RpcController {
 public:
  void Reset() override {
    code_ = 0;
    err_.clear();
    timeout_ = -1;
    log_id_ = 0;
    has_ = false;
    req_.clear();
    resp_.clear();
  }
  bool Failed() const override { return code_ != 0; }
  std::string ErrorText() const override { return err_; }
  int ErrorCode() const { return code_; }
  void StartCancel() override {}
  void SetFailed(const std::string& r) override {
    code_ = -1;
    err_ = r;
  }
  void SetFailed(int c, const char* fmt, ...) __attribute__((__format__(__printf__, 3, 4))) {
    code_ = c;
    err_.clear();
    va_list ap;
    va_start(ap, fmt);
    butil::vappend(&err_, fmt, ap);
    va_end(ap);
  }
  bool IsCanceled() const override { return false; }
  void NotifyOnCancel(google::protobuf::Closure* c) override { (void)c; }
  void set_timeout_ms(int64_t t) { timeout_ = t; }
  int64_t timeout_ms() const { return timeout_; }
  void set_max_retry(int) {}
  void set_log_id(uint64_t id) {
    log_id_ = id;
    has_ = true;
  }
  uint64_t log_id() const { return log_id_; }
  bool has_log_id() const { return has_; }
  int64_t latency_us() const { return 0; }
  butil::EndPoint remote_side() const { return remote_; }
  butil::EndPoint local_side() const { return local_; }
  butil::IOBuf& request_attachment() { return req_; }
  butil::IOBuf& response_attachment() { return resp_; }
  HttpHeader& http_request() { return hreq_; }
  HttpHeader& http_response() { return hresp_; }
  bool has_http_request() const { return false; }
  void set_response_compress_type(CompressType) {}
  void set_request_compress_type(CompressType) {}
  const Server* server() const { return nullptr; }
  void ignore_eovercrowded() {}
  bool is_security_mode() const { return false; }

 private:
  int code_{0};
  std::string err_;
  int64_t timeout_{-1};
  uint64_t log_id_{0};
  bool has_{false};
  butil::EndPoint remote_, local_;
  butil::IOBuf req_, resp_;
  HttpHeader hreq_, hresp_;
};
class ClosureGuard {
 public:
  ClosureGuard() = default;
  explicit ClosureGuard(google::protobuf::Closure* d) : d_(d) {}
  ~ClosureGuard() {
    if (d_) d_->Run();
  }
  ClosureGuard(const ClosureGuard&) = delete;
  void reset(google::protobuf::Closure* d) {
    if (d_) d_->Run();
    d_ = d;
  }
  google::protobuf::Closure* release() {
    auto* p = d_;
    d_ = nullptr;
    return p;
  }
  bool empty() const { return d_ == nullptr; }
  void swap(ClosureGuard& o) { std::swap(d_, o.d_); }

 private:
  google::protobuf::Closure* d_{nullptr};
};
template <typename... A>
google::protobuf::Closure* NewCallback(A&&... a) {
  return google::protobuf::NewCallback(std::forward<A>(a)...);
}
inline google::protobuf::Closure* DoNothing() { return google::protobuf::NewCallback(+[]() {}); }

struct AdaptiveStr {
  AdaptiveStr() = default;
  AdaptiveStr(const char* s) : s_(s) {}
  AdaptiveStr(ProtocolType) {}
  AdaptiveStr(ConnectionType) {}
  std::string s_;
};
struct ChannelOptions {
  int32_t connect_timeout_ms{200};
  int32_t timeout_ms{500};
  int32_t backup_request_ms{-1};
  int max_retry{3};
  AdaptiveStr protocol, connection_type;
  std::string connection_group;
  bool log_succeed_without_server{true};
};
// In-process transport used by all channels: returns true when it served the call.
using Transport = std::function<bool(const butil::EndPoint&, const google::protobuf::MethodDescriptor*, Controller*,
                                     const google::protobuf::Message*, google::protobuf::Message*)>;
extern Transport g_transport;
class Channel : public google::protobuf::RpcChannel {
 public:
  int Init(butil::EndPoint p, const ChannelOptions*) {
    ep_ = p;
    return 0;
  }
  int Init(const char* s, const ChannelOptions*) { return butil::str2endpoint(s, &ep_); }
  int Init(const char* s, int port, const ChannelOptions*) { return butil::str2endpoint(s, port, &ep_); }
  int Init(const char*, const char*, const ChannelOptions*) { return 0; }
  void CallMethod(const google::protobuf::MethodDescriptor* m, google::protobuf::RpcController* c,
                  const google::protobuf::Message* req, google::protobuf::Message* resp,
                  google::protobuf::Closure* done) override;
  butil::EndPoint ep_;
};
enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE };
struct ServerOptions {
  int num_threads{8};
  int max_concurrency{0};
  bool enable_rpcz{false};
  std::string pid_file;
  int idle_timeout_sec{-1};
};
class Server {
 public:
  int AddService(google::protobuf::Service*, ServiceOwnership) { return 0; }
  int AddService(google::protobuf::Service*, ServiceOwnership, const butil::StringPiece&) { return 0; }
  int Start(const butil::EndPoint&, const ServerOptions*) { return 0; }
  int Stop(int) { return 0; }
  int Join() { return 0; }
  const ServerOptions& options() const { return o_; }
  butil::EndPoint listen_address() const { return {}; }

 private:
  ServerOptions o_;
};
inline bool IsAskedToQuit() { return false; }
template <typename T>
bool PassValidate(const char*, T) {
  return true;
}
inline bool PassValidate(const char*, const std::string&) { return true; }
template <typename T>
bool PositiveInteger(const char*, T v) {
  return v > 0;
}
template <typename T>
bool NonNegativeInteger(const char*, T v) {
  return v >= 0;
}
// builtin pages
struct TabInfo {
  std::string tab_name, path;
  bool valid() const { return true; }
};
class TabInfoList {
 public:
  TabInfo* add() {
    v_.emplace_back();
    return &v_.back();
  }
  size_t size() const { return v_.size(); }
  const TabInfo& operator[](size_t i) const { return v_[i]; }

 private:
  std::vector<TabInfo> v_;
};
class Tabbed {
 public:
  virtual ~Tabbed() = default;
  virtual void GetTabInfo(TabInfoList*) const = 0;
};
inline const char* TabsHead() { return ""; }
inline const char* gridtable_style() { return ""; }
inline bool UseHTML(const HttpHeader&) { return false; }
inline std::string min_width(const std::string& s, int) { return s; }
template <typename T>
inline std::string min_width(const T& s, int) {
  std::ostringstream o;
  o << s;
  return o.str();
}
}  // namespace brpc
#define BRPC_VALIDATE_GFLAG(flag, validate_fn)                                                    \
  const int register_FLAGS_##flag##_dummy __attribute__((unused)) =                               \
      ::google::RegisterFlagValidator(&FLAGS_##flag, (validate_fn))
