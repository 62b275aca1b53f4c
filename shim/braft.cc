#include "vshim/braft.h"
#include <filesystem>
#include <fstream>
namespace braft {
DEFINE_bool(raft_sync, false, "");
DEFINE_bool(raft_sync_meta, false, "");
DEFINE_int32(raft_sync_policy, 0, "");
std::function<void(Node*, const Task&)> Node::g_apply;
butil::Status parse_configuration_meta(const butil::IOBuf& data, LogEntry* entry) {
  ConfigurationPBMeta meta;
  if (!meta.ParseFromString(data.to_string())) return butil::Status(EINVAL, "Fail to parse ConfigurationPBMeta");
  entry->peers = new std::vector<PeerId>;
  for (auto& p : meta.peers()) entry->peers->push_back(PeerId(p));
  if (meta.old_peers_size() > 0) {
    entry->old_peers = new std::vector<PeerId>;
    for (auto& p : meta.old_peers()) entry->old_peers->push_back(PeerId(p));
  }
  return {};
}
butil::Status serialize_configuration_meta(const LogEntry* entry, butil::IOBuf& data) {
  ConfigurationPBMeta meta;
  if (entry->peers)
    for (auto& p : *entry->peers) meta.add_peers(p.to_string());
  if (entry->old_peers)
    for (auto& p : *entry->old_peers) meta.add_old_peers(p.to_string());
  data.append(meta.SerializeAsString());
  return {};
}
namespace {
class PFile : public FileAdaptor {
 public:
  explicit PFile(int fd) : fd_(fd) {}
  ~PFile() override { ::close(fd_); }
  ssize_t write(const butil::IOBuf& d, off_t o) override { return file_pwrite(d, fd_, o); }
  ssize_t read(butil::IOPortal* p, off_t o, size_t n) override { return file_pread(p, fd_, o, n); }
  ssize_t size() override { return lseek(fd_, 0, SEEK_END); }
  bool sync() override { return raft_fsync(fd_) == 0; }
  bool close() override { return true; }
  int fd_;
};
class PDir : public DirReader {
 public:
  explicit PDir(const std::string& p) : d_(p.c_str()) {}
  bool is_valid() const override { return d_.IsValid(); }
  bool next() override { return d_.Next(); }
  const char* name() const override { return d_.name(); }
  butil::DirReaderPosix d_;
};
}  // namespace
FileAdaptor* PosixFileSystemAdaptor::open(const std::string& p, int f, const google::protobuf::Message*, butil::File::Error* e) {
  int fd = ::open(p.c_str(), f, 0644);
  if (fd < 0) {
    if (e) *e = butil::File::OSErrorToFileError(errno);
    return nullptr;
  }
  if (e) *e = butil::File::FILE_OK;
  return new PFile(fd);
}
DirReader* PosixFileSystemAdaptor::directory_reader(const std::string& p) { return new PDir(p); }
int file_error_to_os_error(butil::File::Error e) {
  switch (e) {
    case butil::File::FILE_OK: return 0;
    case butil::File::FILE_ERROR_ACCESS_DENIED: return EACCES;
    case butil::File::FILE_ERROR_EXISTS: return EEXIST;
    case butil::File::FILE_ERROR_NOT_FOUND: return ENOENT;
    default: return EIO;
  }
}
int raft_fsync(int fd) { return ::fdatasync(fd) == 0 || errno == EINVAL ? 0 : -1; }
ssize_t file_pread(butil::IOPortal* portal, int fd, off_t offset, size_t size) {
  off_t orig = offset;
  ssize_t left = size;
  while (left > 0) {
    ssize_t n = portal->pappend_from_file_descriptor(fd, offset, left);
    if (n > 0) {
      left -= n;
      offset += n;
    } else if (n == 0) {
      break;
    } else {
      if (errno == EINTR) continue;
      return -1;
    }
  }
  return offset - orig;
}
ssize_t file_pwrite(const butil::IOBuf& data, int fd, off_t offset) {
  butil::IOBuf p(data);
  off_t orig = offset;
  while (!p.empty()) {
    ssize_t n = p.pcut_into_file_descriptor(fd, offset, p.size());
    if (n < 0) {
      if (errno == EINTR) continue;
      return -1;
    }
    offset += n;
  }
  return offset - orig;
}
uint32_t murmurhash32(const void* k, int n) {
  uint32_t h = 0;
  butil::MurmurHash3_x86_32(k, n, 0, &h);
  return h;
}
uint32_t murmurhash32(const butil::IOBuf& b) { return murmurhash32(b.vstr().data(), (int)b.size()); }
uint32_t crc32(const void* k, int n) { return butil::crc32c::Value((const char*)k, n); }
uint32_t crc32(const butil::IOBuf& b) { return crc32(b.vstr().data(), (int)b.size()); }
int gc_dir(const std::string& uri) {
  std::string p = uri;
  auto i = p.find("://");
  if (i != std::string::npos) p = p.substr(i + 3);
  std::error_code ec;
  std::filesystem::remove_all(p, ec);
  return ec ? -1 : 0;
}
int ProtoBufFile::save(const google::protobuf::Message* m, bool) {
  std::string tmp = p_ + ".tmp";
  {
    std::ofstream f(tmp, std::ios::binary | std::ios::trunc);
    if (!f) return -1;
    f << m->SerializeAsString();
    if (!f) return -1;
  }
  return ::rename(tmp.c_str(), p_.c_str()) == 0 ? 0 : -1;
}
int ProtoBufFile::load(google::protobuf::Message* m) {
  std::ifstream f(p_, std::ios::binary);
  if (!f) return -1;
  std::stringstream ss;
  ss << f.rdbuf();
  return m->ParseFromString(ss.str()) ? 0 : -1;
}
}  // namespace braft
