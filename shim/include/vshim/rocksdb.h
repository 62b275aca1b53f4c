// In-memory stand-in for RocksDB: multi-version column families, snapshots, iterators, write batches, SST files,
// checkpoints and external-file ingestion; "disk" contents survive close/reopen inside the process and a crash can be
// simulated (writes after the last sync are lost up to a chosen point).
#pragma once
#include <atomic>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace rocksdb {
class Slice {
 public:
  Slice() : data_(""), size_(0) {}
  Slice(const char* d, size_t n) : data_(d), size_(n) {}
  Slice(const std::string& s) : data_(s.data()), size_(s.size()) {}
  Slice(const std::string_view& s) : data_(s.data()), size_(s.size()) {}
  Slice(const char* s) : data_(s), size_(s ? strlen(s) : 0) {}
  const char* data() const { return data_; }
  size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  char operator[](size_t n) const { return data_[n]; }
  void clear() {
    data_ = "";
    size_ = 0;
  }
  void remove_prefix(size_t n) { data_ += n, size_ -= n; }
  void remove_suffix(size_t n) { size_ -= n; }
  std::string ToString(bool hex = false) const;
  std::string_view ToStringView() const { return {data_, size_}; }
  int compare(const Slice& b) const { return ToStringView().compare(b.ToStringView()); }
  bool starts_with(const Slice& x) const { return size_ >= x.size_ && memcmp(data_, x.data_, x.size_) == 0; }
  bool ends_with(const Slice& x) const {
    return size_ >= x.size_ && memcmp(data_ + size_ - x.size_, x.data_, x.size_) == 0;
  }
  const char* data_;
  size_t size_;
};
inline bool operator==(const Slice& a, const Slice& b) { return a.compare(b) == 0; }
inline bool operator!=(const Slice& a, const Slice& b) { return a.compare(b) != 0; }
inline bool operator<(const Slice& a, const Slice& b) { return a.compare(b) < 0; }

class Status {
 public:
  enum Code : unsigned char {
    kOk = 0, kNotFound = 1, kCorruption = 2, kNotSupported = 3, kInvalidArgument = 4, kIOError = 5,
    kMergeInProgress = 6, kIncomplete = 7, kShutdownInProgress = 8, kTimedOut = 9, kAborted = 10, kBusy = 11,
    kExpired = 12, kTryAgain = 13, kCompactionTooLarge = 14, kColumnFamilyDropped = 15, kMaxCode
  };
  Status() = default;
  Status(Code c, const std::string& m) : c_(c), m_(m) {}
  static Status OK() { return {}; }
  static Status NotFound(const std::string& m = "") { return {kNotFound, m}; }
  static Status Corruption(const std::string& m = "") { return {kCorruption, m}; }
  static Status InvalidArgument(const std::string& m = "") { return {kInvalidArgument, m}; }
  static Status IOError(const std::string& m = "") { return {kIOError, m}; }
  static Status NotSupported(const std::string& m = "") { return {kNotSupported, m}; }
  static Status ColumnFamilyDropped() { return {kColumnFamilyDropped, ""}; }
  bool ok() const { return c_ == kOk; }
  bool IsNotFound() const { return c_ == kNotFound; }
  bool IsCorruption() const { return c_ == kCorruption; }
  bool IsInvalidArgument() const { return c_ == kInvalidArgument; }
  bool IsIOError() const { return c_ == kIOError; }
  Code code() const { return c_; }
  std::string ToString() const;
  const char* getState() const { return m_.c_str(); }

 private:
  Code c_{kOk};
  std::string m_;
};

enum CompressionType : unsigned char { kNoCompression = 0, kSnappyCompression = 1, kZlibCompression = 2, kBZip2Compression = 3, kLZ4Compression = 4, kLZ4HCCompression = 5, kXpressCompression = 6, kZSTD = 7, kDisableCompressionOption = 0xff };
struct CompressionOptions { int level{0}; };
class Env { public: static Env* Default(); };
class FilterPolicy { public: virtual ~FilterPolicy() = default; };
inline FilterPolicy* NewBloomFilterPolicy(double, bool = false) { return new FilterPolicy; }
class Cache { public: virtual ~Cache() = default; };
inline std::shared_ptr<Cache> NewLRUCache(size_t, int = -1, bool = false, double = 0.5) { return std::make_shared<Cache>(); }
class SliceTransform { public: virtual ~SliceTransform() = default; };
inline const SliceTransform* NewCappedPrefixTransform(size_t) { return new SliceTransform; }
inline const SliceTransform* NewFixedPrefixTransform(size_t) { return new SliceTransform; }
class TableFactory { public: virtual ~TableFactory() = default; };
struct BlockBasedTableOptions {
  uint64_t block_size{4096};
  std::shared_ptr<Cache> block_cache;
  std::shared_ptr<const FilterPolicy> filter_policy;
  bool whole_key_filtering{true};
  bool cache_index_and_filter_blocks{false};
};
inline TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions& = {}) { return new TableFactory; }
class Statistics { public: virtual ~Statistics() = default; virtual std::string ToString() const { return ""; } };
inline std::shared_ptr<Statistics> CreateDBStatistics() { return std::make_shared<Statistics>(); }
class RateLimiter { public: virtual ~RateLimiter() = default; };
inline RateLimiter* NewGenericRateLimiter(int64_t, int64_t = 0, int32_t = 10) { return new RateLimiter; }
class EventListener { public: virtual ~EventListener() = default; };
struct ColumnFamilyOptions {
  size_t write_buffer_size{64 << 20};
  int max_write_buffer_number{2}, min_write_buffer_number_to_merge{1};
  size_t arena_block_size{0};
  uint64_t max_compaction_bytes{0}, max_bytes_for_level_base{0}, target_file_size_base{0};
  double max_bytes_for_level_multiplier{10};
  int level0_file_num_compaction_trigger{4}, num_levels{7};
  std::shared_ptr<const SliceTransform> prefix_extractor;
  std::shared_ptr<TableFactory> table_factory;
  std::vector<CompressionType> compression_per_level;
  CompressionType compression{kNoCompression}, bottommost_compression{kDisableCompressionOption};
  CompressionOptions compression_opts, bottommost_compression_opts;
  bool disable_auto_compactions{false};
};
struct DBOptions {
  bool create_if_missing{false}, create_missing_column_families{false}, error_if_exists{false};
  int max_background_jobs{2};
  uint32_t max_subcompactions{1};
  unsigned stats_dump_period_sec{600};
  size_t recycle_log_file_num{0}, keep_log_file_num{1000};
  bool use_direct_io_for_flush_and_compaction{false}, use_direct_reads{false}, manual_wal_flush{false};
  uint64_t max_total_wal_size{0};
  std::shared_ptr<Statistics> statistics;
  std::shared_ptr<RateLimiter> rate_limiter;
  std::vector<std::shared_ptr<EventListener>> listeners;
  Env* env{nullptr};
  int max_open_files{-1};
};
struct Options : public DBOptions, public ColumnFamilyOptions {
  Options() = default;
  Options(const DBOptions& d, const ColumnFamilyOptions& c) : DBOptions(d), ColumnFamilyOptions(c) {}
};
class Snapshot {
 public:
  virtual ~Snapshot() = default;
  virtual uint64_t GetSequenceNumber() const = 0;
};
struct ReadOptions {
  const Snapshot* snapshot{nullptr};
  const Slice* iterate_lower_bound{nullptr};
  const Slice* iterate_upper_bound{nullptr};
  bool auto_prefix_mode{false}, async_io{false}, adaptive_readahead{false}, verify_checksums{true}, fill_cache{true},
      tailing{false}, total_order_seek{false}, prefix_same_as_start{false};
  size_t readahead_size{0};
  ReadOptions() = default;
  ReadOptions(bool, bool) {}
};
struct WriteOptions {
  bool sync{false}, disableWAL{false};
};
struct FlushOptions { bool wait{true}, allow_write_stall{false}; };
struct CompactRangeOptions { bool exclusive_manual_compaction{true}, allow_write_stall{false}, change_level{false}; };
struct IngestExternalFileOptions {
  bool move_files{false}, snapshot_consistency{true}, allow_global_seqno{true}, allow_blocking_flush{true}, write_global_seqno{true};
};
struct SizeApproximationOptions { bool include_memtables{false}, include_files{true}; double files_size_error_margin{-1}; };
struct EnvOptions {};
struct Range {
  Slice start, limit;
  Range() = default;
  Range(const Slice& s, const Slice& l) : start(s), limit(l) {}
};
static const std::string kDefaultColumnFamilyName = "default";
struct ColumnFamilyDescriptor {
  std::string name;
  ColumnFamilyOptions options;
  ColumnFamilyDescriptor() = default;
  ColumnFamilyDescriptor(const std::string& n, const ColumnFamilyOptions& o) : name(n), options(o) {}
};
class ColumnFamilyHandle {
 public:
  virtual ~ColumnFamilyHandle() = default;
  virtual const std::string& GetName() const = 0;
  virtual uint32_t GetID() const = 0;
};
struct SstFileMetaData {
  size_t size{0};
  std::string name, db_path, smallestkey, largestkey, relative_filename, directory;
  uint64_t num_entries{0};
};
struct LevelMetaData {
  int level{0};
  uint64_t size{0};
  std::vector<SstFileMetaData> files;
};
struct ColumnFamilyMetaData {
  uint64_t size{0};
  size_t file_count{0};
  std::string name;
  std::vector<LevelMetaData> levels;
};
class Iterator {
 public:
  virtual ~Iterator() = default;
  virtual bool Valid() const = 0;
  virtual void SeekToFirst() = 0;
  virtual void SeekToLast() = 0;
  virtual void Seek(const Slice&) = 0;
  virtual void SeekForPrev(const Slice&) = 0;
  virtual void Next() = 0;
  virtual void Prev() = 0;
  virtual Slice key() const = 0;
  virtual Slice value() const = 0;
  virtual Status status() const = 0;
};
class WriteBatch {
 public:
  struct Op {
    int type;  // 0 put, 1 delete, 2 delete range
    std::string cf, k, v;
  };
  explicit WriteBatch(size_t = 0, size_t = 0) {}
  Status Put(ColumnFamilyHandle* h, const Slice& k, const Slice& v) { return Add(0, h, k, v); }
  Status Put(const Slice& k, const Slice& v) { return Add(0, nullptr, k, v); }
  Status Delete(ColumnFamilyHandle* h, const Slice& k) { return Add(1, h, k, Slice()); }
  Status Delete(const Slice& k) { return Add(1, nullptr, k, Slice()); }
  Status SingleDelete(ColumnFamilyHandle* h, const Slice& k) { return Add(1, h, k, Slice()); }
  Status DeleteRange(ColumnFamilyHandle* h, const Slice& b, const Slice& e) { return Add(2, h, b, e); }
  Status DeleteRange(const Slice& b, const Slice& e) { return Add(2, nullptr, b, e); }
  void Clear() { ops.clear(); }
  int Count() const { return (int)ops.size(); }
  size_t GetDataSize() const {
    size_t n = 12;
    for (auto& o : ops) n += o.k.size() + o.v.size() + 3;
    return n;
  }
  std::vector<Op> ops;

 private:
  Status Add(int t, ColumnFamilyHandle* h, const Slice& a, const Slice& b) {
    ops.push_back({t, h ? h->GetName() : kDefaultColumnFamilyName, a.ToString(), b.ToString()});
    return {};
  }
};

namespace vs {
using Versions = std::map<uint64_t, std::optional<std::string>>;  // seq -> value/tombstone
struct CF {
  std::string name;
  uint32_t id{0};
  bool dropped{false};
  std::map<std::string, Versions> data;
};
struct Disk {  // what is on "disk" for one path
  std::mutex m;
  std::string path;
  uint64_t seq{0};
  uint32_t next_id{0};
  bool open{false};
  bool read_only{false};
  std::map<std::string, std::shared_ptr<CF>> cfs;
  std::multiset<uint64_t> live;
  // crash model
  std::map<std::string, std::map<std::string, std::string>> synced;
  std::vector<std::vector<WriteBatch::Op>> unsynced;
};
// Fault hook: called before a write batch is applied; returning a non-OK status makes the write fail (nothing applied).
extern std::function<Status(const std::string& path, const std::vector<WriteBatch::Op>&)> g_write_hook;
// True: remember unsynced batches so that Crash() can drop them.
extern std::atomic<bool> g_track_unsynced;
void Crash(const std::string& path, size_t keep_unsynced_batches);
size_t UnsyncedCount(const std::string& path);
void Forget(const std::string& path);  // erase all contents of the path
std::map<std::string, std::string> Dump(const std::string& path, const std::string& cf);
}  // namespace vs

class DB {
 public:
  DB(std::shared_ptr<vs::Disk> d, bool ro) : d_(std::move(d)), ro_(ro) {}
  virtual ~DB();
  static Status Open(const DBOptions&, const std::string&, const std::vector<ColumnFamilyDescriptor>&,
                     std::vector<ColumnFamilyHandle*>*, DB**);
  static Status Open(const Options&, const std::string&, DB**);
  static Status OpenForReadOnly(const DBOptions&, const std::string&, const std::vector<ColumnFamilyDescriptor>&,
                                std::vector<ColumnFamilyHandle*>*, DB**, bool = false);
  static Status ListColumnFamilies(const DBOptions&, const std::string&, std::vector<std::string>*);
  virtual Status Put(const WriteOptions&, ColumnFamilyHandle*, const Slice&, const Slice&);
  virtual Status Put(const WriteOptions& o, const Slice& k, const Slice& v) { return Put(o, nullptr, k, v); }
  virtual Status Delete(const WriteOptions&, ColumnFamilyHandle*, const Slice&);
  virtual Status Delete(const WriteOptions& o, const Slice& k) { return Delete(o, nullptr, k); }
  virtual Status DeleteRange(const WriteOptions&, ColumnFamilyHandle*, const Slice&, const Slice&);
  virtual Status DeleteRange(const WriteOptions& o, const Slice& a, const Slice& b) { return DeleteRange(o, nullptr, a, b); }
  virtual Status Write(const WriteOptions&, WriteBatch*);
  virtual Status Get(const ReadOptions&, ColumnFamilyHandle*, const Slice&, std::string*);
  virtual Status Get(const ReadOptions& o, const Slice& k, std::string* v) { return Get(o, nullptr, k, v); }
  virtual std::vector<Status> MultiGet(const ReadOptions&, const std::vector<ColumnFamilyHandle*>&, const std::vector<Slice>&, std::vector<std::string>*);
  virtual Iterator* NewIterator(const ReadOptions&, ColumnFamilyHandle*);
  virtual Iterator* NewIterator(const ReadOptions& o) { return NewIterator(o, nullptr); }
  virtual const Snapshot* GetSnapshot();
  virtual void ReleaseSnapshot(const Snapshot*);
  virtual Status Flush(const FlushOptions&) { return SyncWAL(); }
  virtual Status Flush(const FlushOptions&, ColumnFamilyHandle*) { return SyncWAL(); }
  virtual Status Flush(const FlushOptions&, const std::vector<ColumnFamilyHandle*>&) { return SyncWAL(); }
  virtual Status FlushWAL(bool sync) { return sync ? SyncWAL() : Status(); }
  virtual Status SyncWAL();
  virtual Status CompactRange(const CompactRangeOptions&, ColumnFamilyHandle*, const Slice*, const Slice*) { return {}; }
  virtual Status CompactRange(const CompactRangeOptions&, const Slice*, const Slice*) { return {}; }
  virtual Status DropColumnFamily(ColumnFamilyHandle*);
  virtual Status DropColumnFamilies(const std::vector<ColumnFamilyHandle*>&);
  virtual Status DestroyColumnFamilyHandle(ColumnFamilyHandle* h) {
    delete h;
    return {};
  }
  virtual Status Close();
  virtual Status DisableFileDeletions() { return {}; }
  virtual Status EnableFileDeletions(bool = true) { return {}; }
  virtual void GetColumnFamilyMetaData(ColumnFamilyHandle*, ColumnFamilyMetaData*);
  virtual Status IngestExternalFile(ColumnFamilyHandle*, const std::vector<std::string>&, const IngestExternalFileOptions&);
  virtual Status GetApproximateSizes(const SizeApproximationOptions&, ColumnFamilyHandle*, const Range*, int, uint64_t*);
  virtual bool GetProperty(ColumnFamilyHandle*, const Slice&, std::string* v) { v->clear(); return true; }
  virtual bool GetProperty(const Slice&, std::string* v) { v->clear(); return true; }
  virtual bool GetIntProperty(const Slice&, uint64_t* v) { *v = 0; return true; }
  virtual const std::string& GetName() const { return d_->path; }
  virtual uint64_t GetLatestSequenceNumber() const { return d_->seq; }
  virtual ColumnFamilyHandle* DefaultColumnFamily() const;
  std::shared_ptr<vs::Disk> d_;
  bool ro_{false}, closed_{false};
};
inline void CancelAllBackgroundWork(DB*, bool = false) {}
Status DestroyDB(const std::string& path, const Options&, const std::vector<ColumnFamilyDescriptor>& = {});
Status RepairDB(const std::string& path, const DBOptions&, const std::vector<ColumnFamilyDescriptor>&);

class Checkpoint {
 public:
  static Status Create(DB* db, Checkpoint** c);
  virtual ~Checkpoint() = default;
  virtual Status CreateCheckpoint(const std::string& dir, uint64_t log_size = 0, uint64_t* seq = nullptr);
  DB* db_{nullptr};
};
struct ExternalSstFileInfo {
  std::string file_path, smallest_key, largest_key;
  uint64_t file_size{0}, num_entries{0};
};
class SstFileWriter {
 public:
  SstFileWriter(const EnvOptions&, const Options&, ColumnFamilyHandle* = nullptr, bool = true) {}
  Status Open(const std::string& p);
  Status Put(const Slice& k, const Slice& v);
  Status Add(const Slice& k, const Slice& v) { return Put(k, v); }
  Status Finish(ExternalSstFileInfo* = nullptr);
  uint64_t FileSize() { return size_; }

 private:
  bool open_{false};
  std::string path_;
  uint64_t size_{0};
  std::vector<std::pair<std::string, std::string>> kvs_;
};
class SstFileReader {
 public:
  explicit SstFileReader(const Options&) {}
  Status Open(const std::string& p);
  Iterator* NewIterator(const ReadOptions&);
  Status VerifyChecksum() { return {}; }
  Status VerifyChecksum(const ReadOptions&) { return {}; }

 private:
  std::shared_ptr<std::vector<std::pair<std::string, std::string>>> kvs_;
};
struct PerfContext {
  void Reset() {}
  std::string ToString(bool = false) const { return ""; }
  uint64_t block_read_count{0}, block_read_byte{0}, block_read_time{0}, block_cache_hit_count{0}, get_cpu_nanos{0},
      get_from_memtable_count{0}, write_wal_time{0}, write_memtable_time{0}, iter_next_cpu_nanos{0},
      internal_key_skipped_count{0}, internal_delete_skipped_count{0}, get_read_bytes{0}, iter_read_bytes{0},
      user_key_comparison_count{0}, seek_internal_seek_time{0}, find_next_user_entry_time{0}, block_decompress_time{0};
};
enum PerfLevel : unsigned char { kUninitialized = 0, kDisable = 1, kEnableCount = 2, kEnableTimeExceptForMutex = 3, kEnableTime = 5 };
inline void SetPerfLevel(PerfLevel) {}
inline PerfContext* get_perf_context() {
  static thread_local PerfContext c;
  return &c;
}
}  // namespace rocksdb
