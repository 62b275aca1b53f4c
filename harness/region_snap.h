#pragma once
// C27: a raft snapshot of one region, copied from the leader's store through the real file adaptors, installed on a follower.
#include <fcntl.h>
#include <future>
#include <thread>
#include "region_world.h"

namespace rocksdb::vs {
extern std::function<void()> g_snapshot_hook;
size_t LiveReaders(const std::string& path);
}
namespace dingodb {
DECLARE_int64(snapshot_timeout_min);
}
namespace rw {
namespace fs = std::filesystem;
using Cfs = std::map<std::string, M>;  // column family -> records

struct Snap27 {
  Src& s;
  W& w;
  int64_t R = 102;
  bool txn = false;
  std::vector<std::string> cfs;
  // what was copied
  std::string meta;                                      // bytes of the region meta file
  std::map<std::string, std::vector<std::string>> pkgs;  // per file: packages as they arrived
  // what it must be
  Cfs want;
  Meta want_meta;
  int64_t want_index = 0, local_index = 0;
  std::vector<std::string> files;  // as listed by the leader's local snapshot
  int nretry = 0, nconc = 0, nbusy = 0, nrestart = 0, nafter = 0;

  Snap27(Src& src, W& world) : s(src), w(world) {}

  static Cfs DumpAll(const std::vector<std::string>& names, const std::string& a, const std::string& b, bool inside) {
    Cfs o;
    auto rg = P::common::Range();
    rg.set_start_key(a);
    rg.set_end_key(b);
    auto e = mvcc::Codec::EncodeRange(rg);
    for (auto& n : names)
      for (auto& [k, v] : rocksdb::vs::Dump(DataDb(), n))
        if ((k >= e.start_key() && k < e.end_key()) == inside) o[n][k] = v;
    return o;
  }
  static std::string Diff(const Cfs& got, const Cfs& want) {
    std::string o;
    for (auto* x : {&got, &want})
      for (auto& [cf, m] : *x)
        for (auto& [k, v] : m) {
          auto& y = x == &got ? want : got;
          auto it = y.find(cf);
          bool has = it != y.end() && it->second.count(k);
          if (has && (x == &want || it->second.at(k) == v)) continue;
          if (o.size() < 300) o += std::string(has ? "differs " : x == &got ? "unexpected " : "missing ") + cf + ":" + Hex(k) + " ";
        }
    return o;
  }
  static void Same(const Cfs& got, const Cfs& want, const std::string& sig, const std::string& msg) {
    auto d = Diff(got, want);
    VT_CHECK(d.empty(), sig, msg << ": " << d);
  }

  // ---- leader
  // copies the snapshot; `between` runs between two reads
  void Copy(const std::function<void()>& between, const std::function<bool()>& racing_write) {
    auto r = w.Get(R);
    auto* fsa = static_cast<DingoFileSystemAdaptor*>(r->snapshot_adaptor.get());
    // the snapshot that made the leader truncate its log (an empty one)
    braft::SnapshotWriter lw(env::Base() + "/leader_snap");
    braft::SynchronizedClosure lc;
    local_index = w.pos[R];
    env::BNode(R)->o_.fsm->on_snapshot_save(&lw, &lc);
    VT_CHECK(lc.status().ok(), "snapshot-save", lc.status().error_str());
    lw.list_files(&files);
    std::set<std::string> expect{Constant::kRaftSnapshotRegionMetaFileName};
    for (auto& c : cfs) expect.insert(c + Constant::kRaftSnapshotRegionDateFileNameSuffix);
    VT_CHECK(std::set<std::string>(files.begin(), files.end()) == expect, "snapshot-files", "the snapshot lists " << files.size() << " files, the region has " << cfs.size() << " column families");
    int n = (int)s.Below(4);
    for (int i = 0; i < n; i++) between();

    std::string path = env::Base() + "/leader_snap";
    auto rg = r->Range(false);
    want = DumpAll(cfs, rg.start_key(), rg.end_key(), true);
    want_index = w.pos[R];
    open_ver = r->Epoch().version();
    auto live = rocksdb::vs::LiveReaders(DataDb());
    std::thread th;
    bool race = s.Chance(1, 6);
    if (race) {  // a write arrives while the snapshot is taken
      nconc++;
      auto main_tid = std::this_thread::get_id();
      auto fired = std::make_shared<bool>(false);
      rocksdb::vs::g_snapshot_hook = [&, main_tid, fired] {
        if (*fired || std::this_thread::get_id() != main_tid) return;
        *fired = true;
        auto pr = std::make_shared<std::promise<void>>();
        auto fut = pr->get_future();
        th = std::thread([&racing_write, pr] {
          racing_write();
          pr->set_value();
        });
        fut.wait_for(std::chrono::milliseconds(3));
      };
    }
    bool ok = fsa->open_snapshot(path);
    if (th.joinable()) th.join();
    rocksdb::vs::g_snapshot_hook = nullptr;
    VT_CHECK(ok, "snapshot-open", "open_snapshot refused");
    s.Note("snapshot of %ld opened at log index %ld (truncated to %ld)%s", (long)R, (long)want_index, (long)local_index, race ? " with a racing write" : "");
    // region meta
    Read(fsa, path, Constant::kRaftSnapshotRegionMetaFileName, between);
    meta = Join(pkgs[Constant::kRaftSnapshotRegionMetaFileName]);
    P::store_internal::RaftSnapshotRegionMeta m;
    VT_CHECK(m.ParseFromString(meta), "snapshot-meta", "the region meta file does not parse: " << Hex(meta));
    if (m.log_index() != want_index) {  // the racing write came first
      VT_CHECK(race && m.log_index() == want_index + 1, "snapshot-meta", "the snapshot says log index " << m.log_index() << ", the region had applied " << want_index);
      want = after_race;
      want_index = m.log_index();
    }
    VT_CHECK(m.term() == env::g_term, "snapshot-meta", "term " << m.term());
    want_meta = {rg.start_key(), rg.end_key(), m.epoch().version(), (int)P::common::NORMAL};
    VT_CHECK(m.range().start_key() == rg.start_key() && m.range().end_key() == rg.end_key() && m.epoch().version() == open_ver, "snapshot-meta",
             "the snapshot was opened with " << Hex(rg.start_key()) << ".." << Hex(rg.end_key()) << " v" << open_ver << " and says " << m.ShortDebugString());
    auto names = cfs;
    for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[s.Below(i)]);
    for (auto& c : names) {
      auto f = c + Constant::kRaftSnapshotRegionDateFileNameSuffix;
      Read(fsa, path, f, between);
      Parse(c, Join(pkgs[f]));
    }
    fsa->close_snapshot(path);
    butil::File::Error e;
    auto* late = fsa->open(path + "/" + names[0] + Constant::kRaftSnapshotRegionDateFileNameSuffix, O_RDONLY, nullptr, &e);
    VT_CHECK(!late, "snapshot-closed", "a file of a closed snapshot can be opened");
    VT_CHECK(rocksdb::vs::LiveReaders(DataDb()) == live, "snapshot-leak", "the closed snapshot still pins " << rocksdb::vs::LiveReaders(DataDb()) - live << " readers");
  }
  Cfs after_race;
  int64_t open_ver = 0;

  static std::string Join(const std::vector<std::string>& v) {
    std::string o;
    for (auto& x : v) o += x;
    return o;
  }
  // like the leader's file service and a follower's copier
  void Read(DingoFileSystemAdaptor* fsa, const std::string& path, const std::string& name, const std::function<void()>& between) {
    for (int attempt = 0;; attempt++) {
      auto& out = pkgs[name];
      out.clear();
      butil::File::Error e;
      auto* f = fsa->open(path + "/" + name, O_RDONLY | O_CLOEXEC, nullptr, &e);
      VT_CHECK(f, "snapshot-open-file", name << " cannot be opened");
      size_t max = s.OneOf<size_t>({1, 17, 64, 200, 1000, 4096, 131072});
      if (name == Constant::kRaftSnapshotRegionMetaFileName && max < 17) max = 17;
      int stop = attempt == 0 && s.Chance(1, 6) ? (int)s.Below(4) : -1;
      off_t off = 0;
      bool eof = false;
      for (int step = 0; !eof; step++) {
        if (step == stop) {
          if (s.Bool() || name == Constant::kRaftSnapshotRegionMetaFileName) break;
          // the follower was away for long and asks for the whole file again
          FLAGS_snapshot_timeout_min = 0;
          usleep(2);
          off = 0;
          out.clear();
          nrestart++;
        }
        VT_CHECK(step < 20000, "snapshot-endless", name << " never ends");
        butil::IOPortal p;
        ssize_t n = f->read(&p, off, max);
        FLAGS_snapshot_timeout_min = 10;
        VT_CHECK(n >= 0, "snapshot-read", name << " offset " << off << ": read failed");
        VT_CHECK((size_t)n == p.size(), "snapshot-read", name << " offset " << off << ": read says " << n << " bytes and returns " << p.size());
        eof = n < (ssize_t)max || f->size() == off + (off_t)max;
        if (s.Chance(1, 8)) {  // the answer was lost, the same range is asked for again
          nretry++;
          if (s.Bool()) between();
          butil::IOPortal q;
          ssize_t n2 = f->read(&q, off, max);
          VT_CHECK(n2 == n && q.to_string() == p.to_string(), "snapshot-retry", name << " offset " << off << ": first " << n << " bytes, again " << n2);
          bool eof2 = n2 < (ssize_t)max || f->size() == off + (off_t)max;
          VT_CHECK(eof2 == eof, "snapshot-retry", name << " offset " << off << ": end of file differs");
        }
        out.push_back(p.to_string());
        off += n;
        if (s.Chance(1, 6)) {
          nafter++;
          between();
        }
        if (s.Chance(1, 16)) {  // another follower wants the same snapshot
          nbusy++;
          bool again = fsa->open_snapshot(path);
          VT_CHECK(!again, "snapshot-busy", "a snapshot in use was opened again");
          fsa->close_snapshot(path);
        }
      }
      f->close();
      delete f;
      if (eof) return;
      nrestart++;
    }
  }
  // packages hold whole records, in order: exactly the region's records when the snapshot was opened
  void Parse(const std::string& cf, const std::string& b) {
    M m;
    size_t at = 0;
    auto str = [&](std::string& o) {
      size_t n = 0;
      if (b.size() - at < 8) return false;
      memcpy(&n, b.data() + at, 8);
      at += 8;
      if (b.size() - at < n) return false;
      o = b.substr(at, n);
      at += n;
      return true;
    };
    while (at < b.size()) {
      std::string k, v;
      VT_CHECK(str(k) && str(v), "snapshot-bytes", cf << ": the file ends in the middle of a record");
      m[k] = v;
    }
    Cfs got, exp;
    if (!m.empty()) got[cf] = m;
    if (want.count(cf)) exp[cf] = want[cf];
    Same(got, exp, "snapshot-content", "the snapshot's " + cf + " is not what the region held when it was opened");
  }

  // ---- follower
  std::string dir;
  std::shared_ptr<braft::SnapshotReader> reader;
  bool crash_keep = false;
  void Receive() {
    auto r = w.Get(R);
    auto* fsa = r->snapshot_adaptor.get();
    dir = env::Base() + "/follower_snap";
    fs::remove_all(dir);
    fs::create_directories(dir);
    for (auto& f : files) {
      auto put = [&](size_t n) {
        butil::File::Error e;
        auto* o = fsa->open(dir + "/" + f, O_TRUNC | O_WRONLY | O_CREAT | O_CLOEXEC, nullptr, &e);
        VT_CHECK(o, "snapshot-write", f << " cannot be created");
        off_t off = 0;
        for (size_t i = 0; i < n; i++) {
          auto& p = pkgs[f][i];
          butil::IOBuf b;
          b.append(p);
          VT_CHECK(o->write(b, off) == (ssize_t)p.size(), "snapshot-write", f << " package " << i << " of " << p.size() << " bytes refused");
          off += (off_t)p.size();
        }
        VT_CHECK(o->sync() && o->close(), "snapshot-write", f << " cannot be finished");
        delete o;
      };
      if (s.Chance(1, 8)) put(s.Below(pkgs[f].size() + 1));  // the copy broke off once
      put(pkgs[f].size());
    }
    braft::SnapshotWriter sw(dir);
    for (auto& f : files) sw.add_file(f);
    sw.meta_.set_last_included_index(local_index);
    sw.meta_.set_last_included_term(env::g_term);
    reader = std::make_shared<braft::SnapshotReader>(sw);
  }
  // the store dies before its nth write; the files are kept as they are at that moment
  void Arm(int n) {
    auto left = std::make_shared<int>(n);
    rocksdb::vs::g_write_hook = [this, left](const std::string& p, const auto&) {
      if (p == DataDb() && !w.crashed && (*left)-- <= 0) {
        fs::remove_all(dir + ".keep");
        fs::copy(dir, dir + ".keep", fs::copy_options::recursive);
        w.Die();
      }
      return rocksdb::Status::OK();
    };
  }
  void Reboot(int arm = -1) {  // braft loads the last snapshot and goes on behind it
    bool died = w.crashed;
    w.Reboot();
    if (died && fs::exists(dir + ".keep")) {
      fs::remove_all(dir);
      fs::rename(dir + ".keep", dir);
    }
    if (arm >= 0) Arm(arm);
    if (reader) Load("after a restart");
    if (!w.crashed) w.Disarm();
  }
  void Load(const char* when) {
    int ret = env::BNode(R)->o_.fsm->on_snapshot_load(reader.get());
    if (w.crashed) return;
    VT_CHECK(ret == 0, "snapshot-load", when << ": on_snapshot_load answers " << ret);
    w.pos[R] = reader->meta_.last_included_index();
    auto* ls = env::BNode(R)->o_.log_storage;
    static braft::ConfigurationManager cm;
    if (w.inited_.insert(R).second) ls->init(&cm);
    if (ls->last_log_index() < w.pos[R]) ls->reset(w.pos[R] + 1);
  }
  // the follower takes a (local, empty) snapshot of its own
  void SaveOwn() {
    auto sw = braft::SnapshotWriter(env::Base() + "/own_snap");
    braft::SynchronizedClosure c;
    env::BNode(R)->o_.fsm->on_snapshot_save(&sw, &c);
    VT_CHECK(c.status().ok(), "snapshot-save", c.status().error_str());
    sw.meta_.set_last_included_index(w.pos[R]);
    sw.meta_.set_last_included_term(env::g_term);
    reader = std::make_shared<braft::SnapshotReader>(sw);
    fs::remove_all(dir);
  }
};
}  // namespace rw
