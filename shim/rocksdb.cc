#include "vshim/rocksdb.h"

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <sstream>
namespace fs = std::filesystem;
namespace rocksdb {
std::string Slice::ToString(bool hex) const {
  if (!hex) return std::string(data_, size_);
  static const char* k = "0123456789ABCDEF";
  std::string r;
  for (size_t i = 0; i < size_; ++i) {
    uint8_t b = data_[i];
    r += k[b >> 4];
    r += k[b & 15];
  }
  return r;
}
std::string Status::ToString() const {
  static const char* n[] = {"OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: "};
  if (c_ == kOk) return "OK";
  return (c_ <= kIOError ? std::string(n[c_]) : "code " + std::to_string((int)c_) + ": ") + m_;
}
Env* Env::Default() {
  static Env e;
  return &e;
}
namespace vs {
std::function<Status(const std::string&, const std::vector<WriteBatch::Op>&)> g_write_hook;
std::atomic<bool> g_track_unsynced{false};
static std::mutex g_m;
static std::map<std::string, std::shared_ptr<Disk>>& Disks() {
  static auto* m = new std::map<std::string, std::shared_ptr<Disk>>;
  return *m;
}
static std::string Norm(const std::string& p) {
  std::string s = fs::path(p).lexically_normal().string();
  while (s.size() > 1 && s.back() == '/') s.pop_back();
  return s;
}
static std::shared_ptr<Disk> Find(const std::string& p) {
  std::lock_guard<std::mutex> l(g_m);
  auto it = Disks().find(Norm(p));
  return it == Disks().end() ? nullptr : it->second;
}
struct Handle : public ColumnFamilyHandle {
  std::shared_ptr<CF> cf;
  const std::string& GetName() const override { return cf->name; }
  uint32_t GetID() const override { return cf->id; }
};
struct Snap : public Snapshot {
  uint64_t seq;
  std::multiset<uint64_t>::iterator it;
  uint64_t GetSequenceNumber() const override { return seq; }
};
static const std::optional<std::string>* At(const Versions& v, uint64_t seq) {
  auto it = v.upper_bound(seq);
  if (it == v.begin()) return nullptr;
  --it;
  return &it->second;
}
static void Set(Disk& d, CF& cf, const std::string& k, std::optional<std::string> val) {
  uint64_t min_live = d.live.empty() ? d.seq : std::min(*d.live.begin(), d.seq);
  auto& vs = cf.data[k];
  vs[d.seq] = std::move(val);
  // drop versions no live reader can see
  auto it = vs.upper_bound(min_live);
  if (it != vs.begin()) {
    --it;
    vs.erase(vs.begin(), it);
  }
  if (vs.size() == 1 && !vs.begin()->second && d.live.empty()) cf.data.erase(k);
}
static Status Apply(Disk& d, const std::vector<WriteBatch::Op>& ops, bool sync) {
  for (auto& o : ops) {
    auto it = d.cfs.find(o.cf);
    if (it == d.cfs.end() || it->second->dropped) return Status::InvalidArgument("Invalid column family specified in write batch");
  }
  d.seq++;
  for (auto& o : ops) {
    auto& cf = *d.cfs[o.cf];
    if (o.type == 0) {
      Set(d, cf, o.k, o.v);
    } else if (o.type == 1) {
      if (cf.data.count(o.k)) Set(d, cf, o.k, std::nullopt);
    } else if (o.k < o.v) {
      std::vector<std::string> ks;
      for (auto i = cf.data.lower_bound(o.k); i != cf.data.end() && i->first < o.v; ++i) ks.push_back(i->first);
      for (auto& k : ks) Set(d, cf, k, std::nullopt);
    }
  }
  if (g_track_unsynced.load()) d.unsynced.push_back(ops);
  (void)sync;
  return {};
}
static std::map<std::string, std::string> Latest(const CF& cf) {
  std::map<std::string, std::string> r;
  for (auto& [k, v] : cf.data) {
    auto& last = v.rbegin()->second;
    if (last) r[k] = *last;
  }
  return r;
}
static void MarkSynced(Disk& d) {
  if (!g_track_unsynced.load()) return;
  for (auto& ops : d.unsynced)
    for (auto& o : ops) {
      auto& m = d.synced[o.cf];
      if (o.type == 0) m[o.k] = o.v;
      else if (o.type == 1) m.erase(o.k);
      else if (o.k < o.v) m.erase(m.lower_bound(o.k), m.lower_bound(o.v));
    }
  d.unsynced.clear();
}
void Crash(const std::string& path, size_t keep) {
  auto d = Find(path);
  if (!d) return;
  std::lock_guard<std::mutex> l(d->m);
  std::vector<std::vector<WriteBatch::Op>> un(d->unsynced.begin(), d->unsynced.begin() + std::min(keep, d->unsynced.size()));
  d->unsynced = un;
  MarkSynced(*d);
  d->seq++;
  d->live.clear();
  d->open = false;
  for (auto& [n, cf] : d->cfs) {
    cf->data.clear();
    for (auto& [k, v] : d->synced[n]) cf->data[k][d->seq] = v;
  }
}
// A crash that is to happen now while the process is left to run on: Thaw later puts the contents of this moment back.
static std::map<std::string, std::map<std::string, std::map<std::string, std::string>>> g_frozen;
void Freeze(const std::string& path, size_t keep) {
  auto d = Find(path);
  if (!d) return;
  // no lock: the caller runs alone (vsched) and nobody rests inside a write
  auto m = d->synced;
  for (size_t i = 0; i < std::min(keep, d->unsynced.size()); i++)
    for (auto& o : d->unsynced[i]) {
      auto& c = m[o.cf];
      if (o.type == 0) c[o.k] = o.v;
      else if (o.type == 1) c.erase(o.k);
      else if (o.k < o.v) c.erase(c.lower_bound(o.k), c.lower_bound(o.v));
    }
  g_frozen[Norm(path)] = m;
}
std::function<void()> g_snapshot_hook;  // called after a snapshot was taken
void FreezeNow(const std::string& path) {  // every write so far is kept
  auto d = Find(path);
  if (!d) return;
  std::lock_guard<std::mutex> l(d->m);
  auto& m = g_frozen[Norm(path)];
  m.clear();
  for (auto& [n, cf] : d->cfs) m[n] = Latest(*cf);
}
void Thaw(const std::string& path) {
  auto d = Find(path);
  if (!d) return;
  std::lock_guard<std::mutex> l(d->m);
  d->unsynced.clear();
  auto m = g_frozen[Norm(path)];
  g_frozen.erase(Norm(path));
  if (g_track_unsynced.load()) d->synced = m;
  d->seq++;
  d->live.clear();
  d->open = false;
  for (auto& [n, cf] : d->cfs) {
    cf->data.clear();
    for (auto& [k, v] : m[n]) cf->data[k][d->seq] = v;
  }
}
size_t LiveReaders(const std::string& path) {
  auto d = Find(path);
  if (!d) return 0;
  std::lock_guard<std::mutex> l(d->m);
  return d->live.size();
}
size_t UnsyncedCount(const std::string& path) {
  auto d = Find(path);
  if (!d) return 0;
  std::lock_guard<std::mutex> l(d->m);
  return d->unsynced.size();
}
void Forget(const std::string& path) {
  std::lock_guard<std::mutex> l(g_m);
  Disks().erase(Norm(path));
}
std::map<std::string, std::string> Dump(const std::string& path, const std::string& cf) {
  auto d = Find(path);
  if (!d) return {};
  std::lock_guard<std::mutex> l(d->m);
  auto it = d->cfs.find(cf);
  return it == d->cfs.end() ? std::map<std::string, std::string>{} : Latest(*it->second);
}

static void PutStr(std::ostream& o, const std::string& s) {
  uint64_t n = s.size();
  o.write((const char*)&n, 8);
  o.write(s.data(), n);
}
static bool GetStr(std::istream& i, std::string* s) {
  uint64_t n;
  if (!i.read((char*)&n, 8) || n > (1ull << 32)) return false;
  s->resize(n);
  return n == 0 || (bool)i.read(s->data(), n);
}
static const char kMagic[] = "VSHIMSST";
static bool WriteSst(const std::string& p, const std::string& cf, const std::vector<std::pair<std::string, std::string>>& kvs) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  if (!f) return false;
  f.write(kMagic, 8);
  PutStr(f, cf);
  uint64_t n = kvs.size();
  f.write((const char*)&n, 8);
  for (auto& kv : kvs) {
    PutStr(f, kv.first);
    PutStr(f, kv.second);
  }
  return (bool)f;
}
static bool ReadSst(const std::string& p, std::string* cf, std::vector<std::pair<std::string, std::string>>* kvs) {
  std::ifstream f(p, std::ios::binary);
  char m[8];
  if (!f || !f.read(m, 8) || memcmp(m, kMagic, 8)) return false;
  uint64_t n;
  if (!GetStr(f, cf) || !f.read((char*)&n, 8)) return false;
  for (uint64_t i = 0; i < n; ++i) {
    std::string k, v;
    if (!GetStr(f, &k) || !GetStr(f, &v)) return false;
    kvs->emplace_back(std::move(k), std::move(v));
  }
  return true;
}
static bool LoadDir(Disk& d) {
  std::error_code ec;
  bool any = false;
  std::vector<fs::path> files;
  for (auto& e : fs::directory_iterator(d.path, ec)) files.push_back(e.path());
  std::sort(files.begin(), files.end());
  for (auto& f : files) {
    if (f.filename() == "CURRENT") any = true;
    if (f.extension() != ".sst") continue;
    std::string cf;
    std::vector<std::pair<std::string, std::string>> kvs;
    if (!ReadSst(f.string(), &cf, &kvs)) continue;
    if (cf.empty()) continue;
    any = true;
    auto& c = d.cfs[cf];
    if (!c) {
      c = std::make_shared<CF>();
      c->name = cf;
      c->id = d.next_id++;
    }
    d.seq++;
    for (auto& kv : kvs) c->data[kv.first][d.seq] = kv.second;
  }
  return any;
}

class MemIter : public Iterator {
 public:
  MemIter(std::shared_ptr<Disk> d, std::shared_ptr<CF> cf, uint64_t seq, const ReadOptions& o) : d_(d), cf_(cf), seq_(seq) {
    if (o.iterate_lower_bound) lo_ = o.iterate_lower_bound;
    if (o.iterate_upper_bound) hi_ = o.iterate_upper_bound;
    std::lock_guard<std::mutex> l(d_->m);
    live_ = d_->live.insert(seq_);
  }
  ~MemIter() override {
    std::lock_guard<std::mutex> l(d_->m);
    for (auto it = d_->live.begin(); it != d_->live.end(); ++it)
      if (it == live_) {
        d_->live.erase(it);
        break;
      }
  }
  bool Valid() const override { return valid_; }
  void SeekToFirst() override {
    std::lock_guard<std::mutex> l(d_->m);
    Fwd(lo_ ? cf_->data.lower_bound(lo_->ToString()) : cf_->data.begin());
  }
  void SeekToLast() override {
    std::lock_guard<std::mutex> l(d_->m);
    Bwd(hi_ ? cf_->data.lower_bound(hi_->ToString()) : cf_->data.end());
  }
  void Seek(const Slice& t) override {
    std::lock_guard<std::mutex> l(d_->m);
    std::string k = t.ToString();
    if (lo_ && k < lo_->ToStringView()) k = lo_->ToString();
    Fwd(cf_->data.lower_bound(k));
  }
  void SeekForPrev(const Slice& t) override {
    std::lock_guard<std::mutex> l(d_->m);
    if (hi_ && t.ToStringView() >= hi_->ToStringView()) {
      Bwd(cf_->data.lower_bound(hi_->ToString()));
    } else {
      Bwd(cf_->data.upper_bound(t.ToString()));
    }
  }
  void Next() override {
    std::lock_guard<std::mutex> l(d_->m);
    if (!valid_) abort();
    Fwd(cf_->data.upper_bound(k_));
  }
  void Prev() override {
    std::lock_guard<std::mutex> l(d_->m);
    if (!valid_) abort();
    Bwd(cf_->data.lower_bound(k_));
  }
  Slice key() const override {
    if (!valid_) abort();
    return k_;
  }
  Slice value() const override {
    if (!valid_) abort();
    return v_;
  }
  Status status() const override { return {}; }

 private:
  using It = std::map<std::string, Versions>::iterator;
  void Fwd(It it) {
    valid_ = false;
    for (; it != cf_->data.end(); ++it) {
      if (hi_ && it->first >= hi_->ToStringView()) return;
      if (Take(it)) return;
    }
  }
  void Bwd(It it) {  // position before `it`
    valid_ = false;
    while (it != cf_->data.begin()) {
      --it;
      if (lo_ && it->first < lo_->ToStringView()) return;
      if (Take(it)) return;
    }
  }
  bool Take(It it) {
    auto* v = At(it->second, seq_);
    if (!v || !*v) return false;
    std::string nk = it->first, nv = **v;
    k_.swap(nk);
    v_.swap(nv);
    valid_ = true;
    return true;
  }
  std::shared_ptr<Disk> d_;
  std::shared_ptr<CF> cf_;
  uint64_t seq_;
  std::multiset<uint64_t>::iterator live_;
  const Slice *lo_{nullptr}, *hi_{nullptr};
  bool valid_{false};
  std::string k_, v_;
};
class VecIter : public Iterator {
 public:
  using V = std::vector<std::pair<std::string, std::string>>;
  explicit VecIter(std::shared_ptr<V> v) : v_(v), i_(v->size()) {}
  bool Valid() const override { return i_ < v_->size(); }
  void SeekToFirst() override { i_ = 0; }
  void SeekToLast() override { i_ = v_->empty() ? 0 : v_->size() - 1; }
  void Seek(const Slice& t) override {
    i_ = std::lower_bound(v_->begin(), v_->end(), t.ToString(), [](auto& a, auto& b) { return a.first < b; }) - v_->begin();
  }
  void SeekForPrev(const Slice& t) override {
    i_ = std::upper_bound(v_->begin(), v_->end(), t.ToString(), [](auto& b, auto& a) { return b < a.first; }) - v_->begin();
    i_ = i_ == 0 ? v_->size() : i_ - 1;
  }
  void Next() override { ++i_; }
  void Prev() override { i_ = i_ == 0 ? v_->size() : i_ - 1; }
  Slice key() const override { return (*v_)[i_].first; }
  Slice value() const override { return (*v_)[i_].second; }
  Status status() const override { return {}; }

 private:
  std::shared_ptr<V> v_;
  size_t i_;
};
static std::shared_ptr<CF> CfOf(Disk& d, ColumnFamilyHandle* h) {
  if (h) return static_cast<Handle*>(h)->cf;
  return d.cfs[kDefaultColumnFamilyName];
}
}  // namespace vs
using namespace vs;

DB::~DB() { Close(); }
static Status DoOpen(const DBOptions& o, const std::string& path, const std::vector<ColumnFamilyDescriptor>& cfs,
                     std::vector<ColumnFamilyHandle*>* hs, DB** db, bool ro) {
  std::shared_ptr<Disk> d;
  bool fresh = false;
  if (!ro) {
    d = Find(path);
    if (d && d->cfs.empty()) d = nullptr;
  } else if (auto x = Find(path)) {
    d = x;
  }
  if (d && !ro && d->open) return Status::IOError("lock " + path + ": already held");
  if (!d) {
    d = std::make_shared<Disk>();
    d->path = Norm(path);
    bool any = LoadDir(*d);
    if (!any && (ro || !o.create_if_missing)) return Status::InvalidArgument(path + " does not exist");
    fresh = true;
    if (!ro) {
      std::error_code ec;
      fs::create_directories(path, ec);
      if (ec) return Status::IOError("mkdir " + path);
      std::lock_guard<std::mutex> l(g_m);
      Disks()[Norm(path)] = d;
    }
  }
  (void)fresh;
  std::lock_guard<std::mutex> l(d->m);
  for (auto it = d->cfs.begin(); it != d->cfs.end();) it = it->second->dropped ? d->cfs.erase(it) : std::next(it);
  if (!d->cfs.count(kDefaultColumnFamilyName)) {
    auto c = std::make_shared<CF>();
    c->name = kDefaultColumnFamilyName;
    c->id = d->next_id++;
    d->cfs[c->name] = c;
  }
  if (!ro) {
    for (auto& [n, c] : d->cfs) {
      bool found = false;
      for (auto& x : cfs) found |= x.name == n;
      if (!found && n != kDefaultColumnFamilyName && !c->data.empty()) return Status::InvalidArgument("Column families not opened: " + n);
    }
  }
  if (hs) hs->clear();
  for (auto& x : cfs) {
    auto it = d->cfs.find(x.name);
    if (it == d->cfs.end()) {
      if (ro || !o.create_missing_column_families) return Status::InvalidArgument("Column family not found: " + x.name);
      auto c = std::make_shared<CF>();
      c->name = x.name;
      c->id = d->next_id++;
      it = d->cfs.emplace(x.name, c).first;
    }
    auto* h = new Handle;
    h->cf = it->second;
    if (hs) hs->push_back(h);
    else delete h;
  }
  if (!ro) d->open = true;
  *db = new DB(d, ro);
  return {};
}
Status DB::Open(const DBOptions& o, const std::string& p, const std::vector<ColumnFamilyDescriptor>& c,
                std::vector<ColumnFamilyHandle*>* h, DB** db) {
  return DoOpen(o, p, c, h, db, false);
}
Status DB::Open(const Options& o, const std::string& p, DB** db) { return DoOpen(o, p, {}, nullptr, db, false); }
Status DB::OpenForReadOnly(const DBOptions& o, const std::string& p, const std::vector<ColumnFamilyDescriptor>& c,
                           std::vector<ColumnFamilyHandle*>* h, DB** db, bool) {
  return DoOpen(o, p, c, h, db, true);
}
Status DB::ListColumnFamilies(const DBOptions&, const std::string& p, std::vector<std::string>* out) {
  auto d = Find(p);
  if (!d) return Status::IOError("no such db");
  for (auto& [n, _] : d->cfs) out->push_back(n);
  return {};
}
Status DB::Close() {
  if (closed_) return {};
  closed_ = true;
  if (!ro_) {
    std::lock_guard<std::mutex> l(d_->m);
    MarkSynced(*d_);
    d_->open = false;
  }
  return {};
}
static Status DoWrite(DB* db, const WriteOptions& o, const std::vector<WriteBatch::Op>& ops) {
  if (db->ro_) return Status::NotSupported("Not supported operation in read only mode.");
  if (g_write_hook) {
    Status s = g_write_hook(db->d_->path, ops);
    if (!s.ok()) return s;
  }
  std::lock_guard<std::mutex> l(db->d_->m);
  Status s = Apply(*db->d_, ops, o.sync);
  if (s.ok() && o.sync) MarkSynced(*db->d_);
  return s;
}
Status DB::Write(const WriteOptions& o, WriteBatch* b) { return DoWrite(this, o, b->ops); }
Status DB::Put(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& k, const Slice& v) {
  return DoWrite(this, o, {{0, h ? h->GetName() : kDefaultColumnFamilyName, k.ToString(), v.ToString()}});
}
Status DB::Delete(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& k) {
  return DoWrite(this, o, {{1, h ? h->GetName() : kDefaultColumnFamilyName, k.ToString(), ""}});
}
Status DB::DeleteRange(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& a, const Slice& b) {
  return DoWrite(this, o, {{2, h ? h->GetName() : kDefaultColumnFamilyName, a.ToString(), b.ToString()}});
}
Status DB::Get(const ReadOptions& o, ColumnFamilyHandle* h, const Slice& k, std::string* v) {
  std::lock_guard<std::mutex> l(d_->m);
  auto cf = CfOf(*d_, h);
  uint64_t seq = o.snapshot ? o.snapshot->GetSequenceNumber() : d_->seq;
  auto it = cf->data.find(k.ToString());
  if (it == cf->data.end()) return Status::NotFound();
  auto* p = At(it->second, seq);
  if (!p || !*p) return Status::NotFound();
  *v = **p;
  return {};
}
std::vector<Status> DB::MultiGet(const ReadOptions& o, const std::vector<ColumnFamilyHandle*>& h, const std::vector<Slice>& k,
                                 std::vector<std::string>* v) {
  std::vector<Status> r;
  v->resize(k.size());
  for (size_t i = 0; i < k.size(); ++i) r.push_back(Get(o, h[i], k[i], &(*v)[i]));
  return r;
}
Iterator* DB::NewIterator(const ReadOptions& o, ColumnFamilyHandle* h) {
  uint64_t seq;
  std::shared_ptr<CF> cf;
  {
    std::lock_guard<std::mutex> l(d_->m);
    cf = CfOf(*d_, h);
    seq = o.snapshot ? o.snapshot->GetSequenceNumber() : d_->seq;
  }
  return new MemIter(d_, cf, seq, o);
}
const Snapshot* DB::GetSnapshot() {
  auto* s = new Snap;
  {
    std::lock_guard<std::mutex> l(d_->m);
    s->seq = d_->seq;
    s->it = d_->live.insert(s->seq);
  }
  if (vs::g_snapshot_hook) vs::g_snapshot_hook();
  return s;
}
void DB::ReleaseSnapshot(const Snapshot* sn) {
  if (!sn) return;
  auto* s = (const Snap*)sn;
  {
    std::lock_guard<std::mutex> l(d_->m);
    for (auto it = d_->live.begin(); it != d_->live.end(); ++it)
      if (it == s->it) {
        d_->live.erase(it);
        break;
      }
  }
  delete s;
}
Status DB::SyncWAL() {
  std::lock_guard<std::mutex> l(d_->m);
  MarkSynced(*d_);
  return {};
}
Status DB::DropColumnFamily(ColumnFamilyHandle* h) {
  if (ro_) return Status::NotSupported("Not supported operation in read only mode.");
  std::lock_guard<std::mutex> l(d_->m);
  auto cf = CfOf(*d_, h);
  if (cf->id == 0 || cf->name == kDefaultColumnFamilyName) return Status::InvalidArgument("Can't drop default column family");
  cf->dropped = true;
  return {};
}
Status DB::DropColumnFamilies(const std::vector<ColumnFamilyHandle*>& hs) {
  Status s;
  for (auto* h : hs) {
    s = DropColumnFamily(h);
    if (!s.ok()) break;
  }
  return s;
}
ColumnFamilyHandle* DB::DefaultColumnFamily() const {
  auto* h = new Handle;
  h->cf = d_->cfs[kDefaultColumnFamilyName];
  return h;
}
static std::string SstName(uint32_t id) {
  char b[32];
  snprintf(b, sizeof(b), "/%06u.sst", id + 10);
  return b;
}
void DB::GetColumnFamilyMetaData(ColumnFamilyHandle* h, ColumnFamilyMetaData* m) {
  std::lock_guard<std::mutex> l(d_->m);
  auto cf = CfOf(*d_, h);
  m->name = cf->name;
  auto kv = Latest(*cf);
  if (kv.empty()) return;
  LevelMetaData lv;
  lv.level = 0;
  SstFileMetaData f;
  f.name = SstName(cf->id);
  f.smallestkey = kv.begin()->first;
  f.largestkey = kv.rbegin()->first;
  f.num_entries = kv.size();
  lv.files.push_back(f);
  m->levels.push_back(lv);
  m->file_count = 1;
}
Status DB::IngestExternalFile(ColumnFamilyHandle* h, const std::vector<std::string>& files, const IngestExternalFileOptions&) {
  std::vector<WriteBatch::Op> ops;
  for (auto& f : files) {
    std::string cf;
    std::vector<std::pair<std::string, std::string>> kvs;
    if (!ReadSst(f, &cf, &kvs)) return Status::Corruption("bad sst " + f);
    if (kvs.empty()) return Status::InvalidArgument("External file has no entries");
    for (auto& kv : kvs) ops.push_back({0, h->GetName(), kv.first, kv.second});
  }
  return DoWrite(this, WriteOptions(), ops);
}
Status DB::GetApproximateSizes(const SizeApproximationOptions&, ColumnFamilyHandle* h, const Range* r, int n, uint64_t* out) {
  std::lock_guard<std::mutex> l(d_->m);
  auto cf = CfOf(*d_, h);
  auto kv = Latest(*cf);
  for (int i = 0; i < n; ++i) {
    out[i] = 0;
    for (auto it = kv.lower_bound(r[i].start.ToString()); it != kv.end() && it->first < r[i].limit.ToString(); ++it)
      out[i] += it->first.size() + it->second.size();
  }
  return {};
}
Status DestroyDB(const std::string& p, const Options&, const std::vector<ColumnFamilyDescriptor>&) {
  auto d = Find(p);
  if (d && d->open) return Status::IOError("lock held");
  Forget(p);
  std::error_code ec;
  for (auto& e : fs::directory_iterator(p, ec)) {
    auto n = e.path().filename().string();
    if (e.path().extension() == ".sst" || n == "CURRENT" || n.rfind("MANIFEST", 0) == 0 || n.rfind("OPTIONS", 0) == 0) fs::remove(e.path(), ec);
  }
  return {};
}
Status RepairDB(const std::string& p, const DBOptions&, const std::vector<ColumnFamilyDescriptor>&) {
  std::error_code ec;
  if (!fs::is_directory(p, ec)) return Status::IOError("no dir " + p);
  return {};
}
Status Checkpoint::Create(DB* db, Checkpoint** c) {
  *c = new Checkpoint;
  (*c)->db_ = db;
  return {};
}
Status Checkpoint::CreateCheckpoint(const std::string& dir, uint64_t, uint64_t*) {
  std::error_code ec;
  if (fs::exists(dir, ec)) return Status::InvalidArgument("Directory exists");
  fs::create_directories(dir, ec);
  if (ec) return Status::IOError("mkdir " + dir);
  std::lock_guard<std::mutex> l(db_->d_->m);
  for (auto& [n, cf] : db_->d_->cfs) {
    auto kv = Latest(*cf);
    if (kv.empty()) continue;
    std::vector<std::pair<std::string, std::string>> v(kv.begin(), kv.end());
    if (!WriteSst(dir + SstName(cf->id), n, v)) return Status::IOError("write");
  }
  std::ofstream(dir + "/CURRENT") << "MANIFEST-000004\n";
  std::ofstream(dir + "/MANIFEST-000004") << "m";
  std::ofstream(dir + "/OPTIONS-000007") << "o";
  return {};
}
Status SstFileWriter::Open(const std::string& p) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  if (!f) return Status::IOError("While open a file for appending: " + p);
  path_ = p;
  kvs_.clear();
  size_ = 0;
  open_ = true;
  return {};
}
Status SstFileWriter::Put(const Slice& k, const Slice& v) {
  if (!open_) return Status::InvalidArgument("File is not opened");
  if (!kvs_.empty() && !(kvs_.back().first < k.ToStringView()))
    return Status::InvalidArgument("Keys must be added in strict ascending order.");
  kvs_.emplace_back(k.ToString(), v.ToString());
  size_ += k.size() + v.size();
  return {};
}
Status SstFileWriter::Finish(ExternalSstFileInfo* i) {
  if (!open_) return Status::InvalidArgument("File is not opened");
  open_ = false;
  if (kvs_.empty()) return Status::InvalidArgument("Cannot create sst file with no entries");
  if (!WriteSst(path_, "", kvs_)) return Status::IOError("write " + path_);
  if (i) {
    i->file_path = path_;
    i->smallest_key = kvs_.front().first;
    i->largest_key = kvs_.back().first;
    i->num_entries = kvs_.size();
    i->file_size = size_;
  }
  return {};
}
Status SstFileReader::Open(const std::string& p) {
  kvs_ = std::make_shared<std::vector<std::pair<std::string, std::string>>>();
  std::string cf;
  if (!ReadSst(p, &cf, kvs_.get())) return Status::Corruption("bad table magic number in " + p);
  return {};
}
Iterator* SstFileReader::NewIterator(const ReadOptions&) { return new VecIter(kvs_); }
}  // namespace rocksdb
