// Stand-in for braft: types and interfaces only (no replication). Node applies through a harness hook.
#pragma once
#include "braft/enum.pb.h"
#include "braft/local_file_meta.pb.h"
#include "braft/local_storage.pb.h"
#include "braft/raft.pb.h"
#include "vshim/brpc.h"
#include "vshim/bthread.h"
#include "vshim/butil.h"
#include "vshim/bvar.h"

namespace braft {
DECLARE_bool(raft_sync);
DECLARE_bool(raft_sync_meta);
DECLARE_int32(raft_sync_policy);
inline bool raft_sync_meta() { return FLAGS_raft_sync || FLAGS_raft_sync_meta; }
typedef std::string GroupId;
typedef bthread::Mutex raft_mutex_t;
enum RaftError { EINVALIDTITLE_ = 0 };
enum State { STATE_LEADER = 1, STATE_TRANSFERRING = 2, STATE_CANDIDATE = 3, STATE_FOLLOWER = 4, STATE_ERROR = 5, STATE_UNINITIALIZED = 6, STATE_SHUTTING = 7, STATE_SHUTDOWN = 8, STATE_END };
inline const char* state2str(State s) {
  static const char* n[] = {"", "LEADER", "TRANSFERRING", "CANDIDATE", "FOLLOWER", "ERROR", "UNINITIALIZED", "SHUTTING", "SHUTDOWN"};
  return s < STATE_END ? n[s] : "UNKNOWN";
}
inline bool is_active_state(State s) { return s < STATE_ERROR; }

struct PeerId {
  butil::EndPoint addr;
  int idx{0};
  PeerId() = default;
  explicit PeerId(butil::EndPoint a) : addr(a) {}
  PeerId(butil::EndPoint a, int i) : addr(a), idx(i) {}
  PeerId(const std::string& s) { CHECK_EQ(0, parse(s)); }
  void reset() {
    addr = butil::EndPoint();
    idx = 0;
  }
  bool is_empty() const { return addr.ip == butil::IP_ANY && addr.port == 0 && idx == 0; }
  bool is_witness() const { return false; }
  int parse(const std::string& str) {
    reset();
    char ip[64];
    int port = 0, i = 0;
    int n = sscanf(str.c_str(), "%63[^:]%*[:]%d%*[:]%d", ip, &port, &i);
    if (n < 2) {
      reset();
      return -1;
    }
    if (butil::str2ip(ip, &addr.ip) != 0 && butil::hostname2ip(ip, &addr.ip) != 0) {
      reset();
      return -1;
    }
    addr.port = port;
    idx = n >= 3 ? i : 0;
    return 0;
  }
  std::string to_string() const { return butil::string_printf("%s:%d", butil::endpoint2str(addr).c_str(), idx); }
};
inline bool operator<(const PeerId& a, const PeerId& b) { return a.addr != b.addr ? a.addr < b.addr : a.idx < b.idx; }
inline bool operator==(const PeerId& a, const PeerId& b) { return a.addr == b.addr && a.idx == b.idx; }
inline bool operator!=(const PeerId& a, const PeerId& b) { return !(a == b); }
inline std::ostream& operator<<(std::ostream& os, const PeerId& p) { return os << p.to_string(); }
struct NodeId {
  GroupId group_id;
  PeerId peer_id;
  NodeId() = default;
  NodeId(const GroupId& g, const PeerId& p) : group_id(g), peer_id(p) {}
  std::string to_string() const { return group_id + ":" + peer_id.to_string(); }
};
inline std::ostream& operator<<(std::ostream& os, const NodeId& p) { return os << p.to_string(); }

class Configuration {
 public:
  Configuration() = default;
  explicit Configuration(const std::vector<PeerId>& p) : s_(p.begin(), p.end()) {}
  explicit Configuration(const std::set<PeerId>& p) : s_(p) {}
  Configuration& operator=(const std::vector<PeerId>& p) {
    s_ = std::set<PeerId>(p.begin(), p.end());
    return *this;
  }
  void reset() { s_.clear(); }
  bool empty() const { return s_.empty(); }
  size_t size() const { return s_.size(); }
  auto begin() const { return s_.begin(); }
  auto end() const { return s_.end(); }
  void list_peers(std::set<PeerId>* p) const { *p = s_; }
  void list_peers(std::vector<PeerId>* p) const { p->assign(s_.begin(), s_.end()); }
  void append_peers(std::set<PeerId>* p) { p->insert(s_.begin(), s_.end()); }
  bool add_peer(const PeerId& p) { return s_.insert(p).second; }
  bool remove_peer(const PeerId& p) { return s_.erase(p) > 0; }
  bool contains(const PeerId& p) const { return s_.count(p) > 0; }
  bool contains(const std::vector<PeerId>& v) const {
    for (auto& p : v)
      if (!contains(p)) return false;
    return true;
  }
  bool equals(const Configuration& o) const { return s_ == o.s_; }
  void diffs(const Configuration& r, Configuration* inc, Configuration* exc) const {
    for (auto& p : s_)
      if (!r.contains(p)) inc->add_peer(p);
    for (auto& p : r.s_)
      if (!contains(p)) exc->add_peer(p);
  }
  int parse_from(butil::StringPiece conf) {
    reset();
    std::vector<std::string> parts;
    butil::SplitString(conf.as_string(), ',', &parts);
    for (auto& s : parts) {
      if (s.empty()) continue;
      PeerId p;
      if (p.parse(s)) return -1;
      add_peer(p);
    }
    return 0;
  }

 private:
  std::set<PeerId> s_;
};
inline std::ostream& operator<<(std::ostream& os, const Configuration& c) {
  bool f = true;
  for (auto& p : c) {
    os << (f ? "" : ",") << p;
    f = false;
  }
  return os;
}
struct LogId {
  LogId() = default;
  LogId(int64_t i, int64_t t) : index(i), term(t) {}
  int64_t index{0};
  int64_t term{0};
};
inline bool operator==(const LogId& a, const LogId& b) { return a.index == b.index && a.term == b.term; }
inline bool operator!=(const LogId& a, const LogId& b) { return !(a == b); }
inline bool operator<(const LogId& a, const LogId& b) { return a.term == b.term ? a.index < b.index : a.term < b.term; }
inline bool operator>(const LogId& a, const LogId& b) { return b < a; }
inline bool operator<=(const LogId& a, const LogId& b) { return !(b < a); }
inline bool operator>=(const LogId& a, const LogId& b) { return !(a < b); }
inline std::ostream& operator<<(std::ostream& os, const LogId& i) { return os << "(index=" << i.index << ",term=" << i.term << ")"; }
struct LogEntry : public butil::RefCountedThreadSafe<LogEntry> {
  EntryType type{ENTRY_TYPE_UNKNOWN};
  LogId id;
  std::vector<PeerId>* peers{nullptr};
  std::vector<PeerId>* old_peers{nullptr};
  butil::IOBuf data;
  LogEntry() = default;

 private:
  friend struct butil::DefaultRefCountedThreadSafeTraits<LogEntry>;
  ~LogEntry() {
    delete peers;
    delete old_peers;
  }
};
struct ConfigurationEntry {
  LogId id;
  Configuration conf, old_conf;
  ConfigurationEntry() = default;
  ConfigurationEntry(const LogEntry& e) {
    id = e.id;
    if (e.peers) conf = *e.peers;
    if (e.old_peers) old_conf = *e.old_peers;
  }
  bool stable() const { return old_conf.empty(); }
  bool empty() const { return conf.empty(); }
};
class ConfigurationManager {
 public:
  int add(const ConfigurationEntry& e) {
    if (!v_.empty() && v_.back().id.index >= e.id.index) return -1;
    v_.push_back(e);
    return 0;
  }
  void truncate_prefix(int64_t k) {
    while (!v_.empty() && v_.front().id.index < k) v_.pop_front();
  }
  void truncate_suffix(int64_t k) {
    while (!v_.empty() && v_.back().id.index > k) v_.pop_back();
  }
  void set_snapshot(const ConfigurationEntry& s) { snap_ = s; }
  void get(int64_t last_included, ConfigurationEntry* c) {
    *c = snap_;
    for (auto& e : v_)
      if (e.id.index <= last_included) *c = e;
  }
  const ConfigurationEntry& last_configuration() const { return v_.empty() ? snap_ : v_.back(); }
  const std::deque<ConfigurationEntry>& entries() const { return v_; }

 private:
  std::deque<ConfigurationEntry> v_;
  ConfigurationEntry snap_;
};
butil::Status parse_configuration_meta(const butil::IOBuf& data, LogEntry* entry);
butil::Status serialize_configuration_meta(const LogEntry* entry, butil::IOBuf& data);

class Closure : public google::protobuf::Closure {
 public:
  butil::Status& status() { return st_; }
  const butil::Status& status() const { return st_; }

 private:
  butil::Status st_;
};
class AsyncClosureGuard {
 public:
  explicit AsyncClosureGuard(google::protobuf::Closure* d) : d_(d) {}
  ~AsyncClosureGuard() {
    if (d_) d_->Run();
  }
  void reset(google::protobuf::Closure* d) {
    if (d_) d_->Run();
    d_ = d;
  }
  google::protobuf::Closure* release() {
    auto* r = d_;
    d_ = nullptr;
    return r;
  }
  bool empty() const { return !d_; }

 private:
  google::protobuf::Closure* d_;
};
class SynchronizedClosure : public Closure {
 public:
  void Run() override { e_.signal(); }
  void wait() { e_.wait(); }

 private:
  bthread::CountdownEvent e_;
};
inline void run_closure_in_bthread(google::protobuf::Closure* c) {
  if (c) c->Run();
}
struct Task {
  butil::IOBuf* data{nullptr};
  Closure* done{nullptr};
  int64_t expected_term{-1};
};
// A batch of committed entries; harnesses fill it directly.
class Iterator {
 public:
  struct Item {
    butil::IOBuf data;
    int64_t index{0}, term{0};
    Closure* done{nullptr};
  };
  explicit Iterator(std::vector<Item> v) : v_(std::move(v)) {}
  void next() {
    if (i_ < v_.size()) ++i_;
  }
  bool valid() const { return i_ < v_.size() && !err_; }
  int64_t index() const { return v_[i_].index; }
  int64_t term() const { return v_[i_].term; }
  const butil::IOBuf& data() const { return v_[i_].data; }
  Closure* done() const { return v_[i_].done; }
  void set_error_and_rollback(size_t = 1, const butil::Status* st = nullptr) {
    err_ = true;
    if (st) st_ = *st;
  }
  bool has_error() const { return err_; }

 private:
  std::vector<Item> v_;
  size_t i_{0};
  bool err_{false};
  butil::Status st_;
};
class Error {
 public:
  Error() = default;
  ErrorType type() const { return t_; }
  const butil::Status& status() const { return st_; }
  butil::Status& status() { return st_; }
  void set_type(ErrorType t) { t_ = t; }

 private:
  ErrorType t_{ERROR_TYPE_NONE};
  butil::Status st_;
};
inline std::ostream& operator<<(std::ostream& os, const Error& e) { return os << (int)e.type() << " " << e.status(); }
class LeaderChangeContext {
 public:
  LeaderChangeContext(const PeerId& p, int64_t t, const butil::Status& s) : p_(p), t_(t), s_(s) {}
  const PeerId& leader_id() const { return p_; }
  int64_t term() const { return t_; }
  const butil::Status& status() const { return s_; }

 private:
  PeerId p_;
  int64_t t_;
  butil::Status s_;
};
inline std::ostream& operator<<(std::ostream& os, const LeaderChangeContext& c) {
  return os << "{ leader_id=" << c.leader_id() << ", term=" << c.term() << ", status=" << c.status() << "}";
}
// ---------------------------------------------------------------- storage
class Snapshot {
 public:
  virtual ~Snapshot() = default;
  virtual std::string get_path() { return ""; }
  virtual void list_files(std::vector<std::string>*) {}
  virtual int get_file_meta(const std::string&, google::protobuf::Message*) { return -1; }
};
class SnapshotWriter : public Snapshot {
 public:
  explicit SnapshotWriter(const std::string& path = "") : path_(path) {}
  std::string get_path() override { return path_; }
  virtual int add_file(const std::string& f) { return add_file(f, nullptr); }
  virtual int add_file(const std::string& f, const google::protobuf::Message* m) {
    LocalFileMeta lm;
    if (m) lm.CopyFrom(*m);
    return files_.emplace(f, lm).second ? 0 : -1;
  }
  virtual int remove_file(const std::string& f) { return files_.erase(f) ? 0 : -1; }
  virtual int save_meta(const SnapshotMeta& m) {
    meta_ = m;
    return 0;
  }
  void list_files(std::vector<std::string>* v) override {
    for (auto& x : files_) v->push_back(x.first);
  }
  int get_file_meta(const std::string& f, google::protobuf::Message* m) override {
    auto it = files_.find(f);
    if (it == files_.end()) return -1;
    if (m) m->CopyFrom(it->second);
    return 0;
  }
  int error_code() const { return err_; }
  void set_error(int c, const char*, ...) { err_ = c; }
  bool ok() const { return err_ == 0; }
  std::string path_;
  std::map<std::string, LocalFileMeta> files_;
  SnapshotMeta meta_;
  int err_{0};
};
class SnapshotReader : public Snapshot {
 public:
  SnapshotReader() = default;
  explicit SnapshotReader(const SnapshotWriter& w) : path_(w.path_), files_(w.files_), meta_(w.meta_) {}
  std::string get_path() override { return path_; }
  virtual int load_meta(SnapshotMeta* m) {
    *m = meta_;
    return 0;
  }
  void list_files(std::vector<std::string>* v) override {
    for (auto& x : files_) v->push_back(x.first);
  }
  int get_file_meta(const std::string& f, google::protobuf::Message* m) override {
    auto it = files_.find(f);
    if (it == files_.end()) return -1;
    if (m) m->CopyFrom(it->second);
    return 0;
  }
  virtual std::string generate_uri_for_copy() { return ""; }
  std::string path_;
  std::map<std::string, LocalFileMeta> files_;
  SnapshotMeta meta_;
};
struct IOMetric {
  int64_t start_time_us{0}, bthread_queue_time_us{0}, open_segment_time_us{0}, append_entry_time_us{0}, sync_segment_time_us{0};
};
class LogStorage {
 public:
  virtual ~LogStorage() = default;
  virtual int init(ConfigurationManager*) = 0;
  virtual int64_t first_log_index() = 0;
  virtual int64_t last_log_index() = 0;
  virtual LogEntry* get_entry(const int64_t index) = 0;
  virtual int64_t get_term(const int64_t index) = 0;
  virtual int append_entry(const LogEntry* entry) = 0;
  virtual int append_entries(const std::vector<LogEntry*>& entries, IOMetric* metric) = 0;
  virtual int truncate_prefix(const int64_t first_index_kept) = 0;
  virtual int truncate_suffix(const int64_t last_index_kept) = 0;
  virtual int reset(const int64_t next_log_index) = 0;
  virtual LogStorage* new_instance(const std::string& uri) const = 0;
  virtual butil::Status gc_instance(const std::string&) const { return butil::Status::OK(); }
};
class StateMachine {
 public:
  virtual ~StateMachine() = default;
  virtual void on_apply(Iterator& iter) = 0;
  virtual void on_shutdown() {}
  virtual void on_snapshot_save(SnapshotWriter*, Closure* done) {
    if (done) done->Run();
  }
  virtual int on_snapshot_load(SnapshotReader*) { return -1; }
  virtual void on_leader_start(int64_t) {}
  virtual void on_leader_stop(const butil::Status&) {}
  virtual void on_error(const Error&) {}
  virtual void on_configuration_committed(const Configuration&) {}
  virtual void on_configuration_committed(const Configuration& c, int64_t) { on_configuration_committed(c); }
  virtual void on_stop_following(const LeaderChangeContext&) {}
  virtual void on_start_following(const LeaderChangeContext&) {}
};
// ---------------------------------------------------------------- file system
class DirReader {
 public:
  virtual ~DirReader() = default;
  virtual bool is_valid() const = 0;
  virtual bool next() = 0;
  virtual const char* name() const = 0;
};
class FileAdaptor {
 public:
  virtual ~FileAdaptor() = default;
  virtual ssize_t write(const butil::IOBuf& data, off_t offset) = 0;
  virtual ssize_t read(butil::IOPortal* portal, off_t offset, size_t size) = 0;
  virtual ssize_t size() = 0;
  virtual bool sync() = 0;
  virtual bool close() = 0;

 protected:
  FileAdaptor() = default;
};
class FileSystemAdaptor : public butil::RefCountedThreadSafe<FileSystemAdaptor> {
 public:
  virtual ~FileSystemAdaptor() = default;
  virtual FileAdaptor* open(const std::string& path, int oflag, const google::protobuf::Message* file_meta,
                            butil::File::Error* e) = 0;
  virtual bool delete_file(const std::string& path, bool recursive) = 0;
  virtual bool rename(const std::string& a, const std::string& b) = 0;
  virtual bool link(const std::string& a, const std::string& b) = 0;
  virtual bool create_directory(const std::string& path, butil::File::Error* e, bool parents) = 0;
  virtual bool path_exists(const std::string& path) = 0;
  virtual bool directory_exists(const std::string& path) = 0;
  virtual DirReader* directory_reader(const std::string& path) = 0;
  virtual bool open_snapshot(const std::string&) { return true; }
  virtual void close_snapshot(const std::string&) {}
};
class PosixFileSystemAdaptor : public FileSystemAdaptor {
 public:
  FileAdaptor* open(const std::string& path, int oflag, const google::protobuf::Message* m, butil::File::Error* e) override;
  bool delete_file(const std::string& p, bool r) override { return butil::DeleteFile(butil::FilePath(p), r); }
  bool rename(const std::string& a, const std::string& b) override { return ::rename(a.c_str(), b.c_str()) == 0; }
  bool link(const std::string& a, const std::string& b) override { return ::link(a.c_str(), b.c_str()) == 0; }
  bool create_directory(const std::string& p, butil::File::Error* e, bool parents) override {
    return butil::CreateDirectoryAndGetError(butil::FilePath(p), e, parents);
  }
  bool path_exists(const std::string& p) override { return butil::PathExists(butil::FilePath(p)); }
  bool directory_exists(const std::string& p) override { return butil::DirectoryExists(butil::FilePath(p)); }
  DirReader* directory_reader(const std::string& p) override;
};
int file_error_to_os_error(butil::File::Error e);
int raft_fsync(int fd);
ssize_t file_pread(butil::IOPortal* portal, int fd, off_t offset, size_t size);
ssize_t file_pwrite(const butil::IOBuf& data, int fd, off_t offset);
uint32_t murmurhash32(const void* key, int len);
uint32_t murmurhash32(const butil::IOBuf& buf);
uint32_t crc32(const void* key, int len);
uint32_t crc32(const butil::IOBuf& buf);
int gc_dir(const std::string& uri);
class ProtoBufFile {
 public:
  ProtoBufFile(const char* p, FileSystemAdaptor* = nullptr) : p_(p) {}
  ProtoBufFile(const std::string& p, FileSystemAdaptor* = nullptr) : p_(p) {}
  int save(const google::protobuf::Message* m, bool sync);
  int load(google::protobuf::Message* m);

 private:
  std::string p_;
};
class RepeatedTimerTask {
 public:
  RepeatedTimerTask() = default;
  virtual ~RepeatedTimerTask() = default;
  int init(int t) {
    timeout_ = t;
    return 0;
  }
  void start() { running_ = true; }
  void run_once_now() { run(); }
  void stop() { running_ = false; }
  void reset() {}
  void reset(int t) { timeout_ = t; }
  void destroy() { on_destroy(); }
  void describe(std::ostream&, bool) {}
  bool running_{false};
  int timeout_{0};
  void vshim_fire() {
    if (running_) run();
  }

 protected:
  virtual void run() = 0;
  virtual void on_destroy() = 0;
  virtual int adjust_timeout_ms(int t) { return t; }
};
// ---------------------------------------------------------------- node
struct PeerStatus {
  bool valid{false}, installing_snapshot{false};
  int64_t next_index{0};
  int64_t last_rpc_send_timestamp{0};
  int64_t flying_append_entries_size{0};
  int64_t readonly_index{0};
  int consecutive_error_times{0};
};
struct NodeStatus {
  typedef std::map<PeerId, PeerStatus> PeerStatusMap;
  State state{STATE_END};
  PeerId peer_id, leader_id;
  bool readonly{false};
  int64_t term{0}, committed_index{0}, known_applied_index{0}, pending_index{0}, pending_queue_size{0},
      applying_index{0}, first_index{0}, last_index{-1}, disk_index{0};
  PeerStatusMap stable_followers, unstable_followers;
};
class SnapshotThrottle;
struct NodeOptions {
  int election_timeout_ms{1000}, max_clock_drift_ms{1000}, catchup_margin{1000}, snapshot_interval_s{3600};
  Configuration initial_conf;
  bool usercode_in_pthread{false};
  StateMachine* fsm{nullptr};
  bool node_owns_fsm{false};
  LogStorage* log_storage{nullptr};
  bool node_owns_log_storage{true};
  std::string log_uri, raft_meta_uri, snapshot_uri;
  bool filter_before_copy_remote{false};
  scoped_refptr<FileSystemAdaptor>* snapshot_file_system_adaptor{nullptr};
  bool disable_cli{false};
};
struct UserLog;
class NodeImpl;
class Node {
 public:
  Node(const GroupId& g, const PeerId& p) : id_(g, p) {}
  virtual ~Node() {
    if (o_.node_owns_log_storage) delete o_.log_storage;
    if (o_.node_owns_fsm) delete o_.fsm;
  }
  NodeId node_id() { return id_; }
  PeerId leader_id() { return leader_; }
  bool is_leader() { return leader_ == id_.peer_id; }
  bool is_leader_lease_valid() { return is_leader(); }
  int init(const NodeOptions& o) {
    o_ = o;
    return 0;
  }
  void shutdown(Closure* d) {
    if (d) d->Run();
  }
  void join() {}
  void apply(const Task& t) {
    if (g_apply) g_apply(this, t);
  }
  butil::Status list_peers(std::vector<PeerId>* p) {
    o_.initial_conf.list_peers(p);
    return {};
  }
  void add_peer(const PeerId& p, Closure* d) {
    o_.initial_conf.add_peer(p);
    if (d) d->Run();
  }
  void remove_peer(const PeerId& p, Closure* d) {
    o_.initial_conf.remove_peer(p);
    if (d) d->Run();
  }
  void change_peers(const Configuration& c, Closure* d) {
    o_.initial_conf = c;
    if (d) d->Run();
  }
  butil::Status reset_peers(const Configuration& c) {
    o_.initial_conf = c;
    return {};
  }
  void snapshot(Closure* d) {
    if (d) d->Run();
  }
  int transfer_leadership_to(const PeerId&) { return 0; }
  void reset_election_timeout_ms(int, int = -1) {}
  void get_status(NodeStatus* s) { *s = status_; }
  NodeId id_;
  PeerId leader_;
  NodeOptions o_;
  NodeStatus status_;
  static std::function<void(Node*, const Task&)> g_apply;
};
inline int add_service(brpc::Server*, const butil::EndPoint&) { return 0; }
inline int add_service(brpc::Server*, int) { return 0; }
inline int add_service(brpc::Server*, const char*) { return 0; }
}  // namespace braft
