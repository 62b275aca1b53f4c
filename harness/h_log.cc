// C25 raft log storage: per-region logs in one store under concurrent writers, truncation by several clients, crashes and
// restarts, against a list model driven the way braft's log manager drives its storage.
#include "common/helper.h"
#include "log/index_term_map.h"
#include "log/rocks_log_storage.h"
#include "vsched.h"
#include "vt.h"

namespace rocksdb::vs {
void Freeze(const std::string& path, size_t keep);
void Thaw(const std::string& path);
size_t LiveReaders(const std::string& path);
}  // namespace rocksdb::vs
namespace dingodb::wal {
DECLARE_int32(rocks_log_max_write_batch_size);
DECLARE_int32(rocks_log_max_mutation_batch_size);
DECLARE_int32(rocks_log_write_wait_time_ms);
DECLARE_bool(rocks_log_enable_get_term_cache);
}  // namespace dingodb::wal
using namespace dingodb;
using wal::ClientType;

#include <sys/syscall.h>
extern "C" int nanosleep(const timespec* t, timespec* r) {
  if (sched::me && sched::g) {
    sched::Sleep(t->tv_sec * 1000000ull + t->tv_nsec / 1000 + 1);
    return 0;
  }
  return (int)syscall(SYS_nanosleep, t, r);
}

namespace {
struct Ent {
  int type{0};
  int64_t term{0};
  std::string data;
  std::vector<std::string> peers, old;
  bool operator==(const Ent& o) const {
    return type == o.type && term == o.term && data == o.data && peers == o.peers && old == o.old;
  }
  std::string Str() const { return "type " + std::to_string(type) + " term " + std::to_string(term) + " data " + vt::Hex(data); }
};
struct State {  // what one region's log may look like on disk
  int64_t lo{1}, hi{1};  // first index: between lo and hi while truncations are under way
  int64_t last{0};
  int64_t last_min{INT64_MAX};  // an append under way: any prefix of it
  std::map<int64_t, Ent> e;
};
struct Region {
  int64_t id;
  State st;
  std::map<ClientType, int64_t> keep;
  int truncating{0};
  bool exists{false};
  // what braft knows
  int64_t bfirst{1}, commit{0}, snap{0}, snap_term{0}, last_snap{0}, term{1};
  std::vector<State> hist;   // states after each mutation of this process life
  bool inflight{false};
  State after;               // result of the raft thread's running mutation
  // per process life
  std::unique_ptr<wal::RocksLogStorageWrapper> w;
  braft::ConfigurationManager conf;
  bool vec_thread{false}, reader{false}, destroyed{false};
};
struct Life {
  bool both{false}, sync{true};
  std::vector<std::unique_ptr<Region>> regions;
  wal::LogStoragePtr st;
  std::string path;
  bool frozen{false};
  int crash_keep{0};
  size_t ops{0}, crashes{0};
};
std::string Data(vt::Src& s) {
  size_t n = s.Weighted({6, 2, 1}) == 0 ? s.Range(1, 12) : s.Chance(1, 2) ? s.Range(12, 40) : s.Range(1, 2);
  std::string r = s.Bytes(n);  // up to n bytes; an empty payload is nothing braft or the store ever appends
  if (r.empty()) r = "x";
  return r;
}
Ent GenEnt(vt::Src& s, int64_t term) {
  Ent e;
  e.term = term;
  switch (s.Weighted({8, 3, 1})) {
    case 0: e.type = braft::ENTRY_TYPE_DATA; e.data = Data(s); break;
    case 1: {
      e.type = braft::ENTRY_TYPE_CONFIGURATION;
      int n = (int)s.Range(1, 3);
      for (int i = 0; i < n; i++) e.peers.push_back("10.0.0." + std::to_string(i + 1) + ":20001:" + std::to_string(s.Below(3)));
      if (s.Chance(1, 3)) e.old.push_back("10.0.0.9:20001:0");
      break;
    }
    default: e.type = braft::ENTRY_TYPE_NO_OP; e.data = Data(s); break;
  }
  return e;
}
braft::LogEntry* ToBraft(const Ent& e, int64_t index, bool split) {
  auto* b = new braft::LogEntry();
  b->AddRef();
  b->type = (braft::EntryType)e.type;
  b->id = braft::LogId(index, e.term);
  if (e.type == braft::ENTRY_TYPE_CONFIGURATION) {
    b->peers = new std::vector<braft::PeerId>;
    for (auto& p : e.peers) b->peers->push_back(braft::PeerId(p));
    if (!e.old.empty()) {
      b->old_peers = new std::vector<braft::PeerId>;
      for (auto& p : e.old) b->old_peers->push_back(braft::PeerId(p));
    }
  } else if (split && e.data.size() > 1) {
    butil::IOBuf x, y;
    x.append(e.data.substr(0, e.data.size() / 2));
    y.append(e.data.substr(e.data.size() / 2));
    b->data.append(x);
    b->data.append(y);
  } else {
    b->data.append(e.data);
  }
  return b;
}
Ent FromBraft(const braft::LogEntry* b) {
  Ent e;
  e.type = b->type;
  e.term = b->id.term;
  if (b->type == braft::ENTRY_TYPE_CONFIGURATION) {
    if (b->peers)
      for (auto& p : *b->peers) e.peers.push_back(p.to_string());
    if (b->old_peers)
      for (auto& p : *b->old_peers) e.old.push_back(p.to_string());
  } else {
    e.data = b->data.to_string();
  }
  return e;
}
Ent FromWal(const wal::LogEntry& l) {
  Ent e;
  e.type = (int)l.type;
  e.term = l.term;
  if (e.type == braft::ENTRY_TYPE_CONFIGURATION) {
    braft::ConfigurationPBMeta m;
    VT_CHECK(m.ParseFromString(l.out_data), "conf-parse", "configuration entry does not parse");
    for (auto& p : m.peers()) e.peers.push_back(p);
    for (auto& p : m.old_peers()) e.old.push_back(p);
  } else {
    e.data = l.out_data;
  }
  return e;
}
#define RG "region " << r.id << " [" << r.st.lo << ".." << r.st.hi << "," << r.st.last << "] "

// ---- mutations (called by the region's raft thread only)
template <class F>
void Mutate(Life& L, Region& r, State after, F&& f) {
  r.after = std::move(after);
  r.inflight = true;
  f();
  r.inflight = false;
  int64_t lo = r.st.lo, hi = r.st.hi;
  r.st = std::move(r.after);
  r.st.last_min = INT64_MAX;
  r.st.lo = std::max(r.st.lo, lo);
  r.st.hi = std::max(r.st.hi, hi);
  r.hist.push_back(r.st);
  L.ops++;
}
void Append(Life& L, Region& r, vt::Src& s) {
  int n = (int)s.Range(1, 5);
  if (s.Chance(1, 4)) r.term += s.Range(1, 3);
  std::vector<braft::LogEntry*> v;
  State a = r.st;
  a.last_min = r.st.last;
  for (int i = 0; i < n; i++) {
    if (i && s.Chance(1, 8)) r.term++;
    Ent e = GenEnt(s, r.term);
    a.last++;
    a.e[a.last] = e;
    v.push_back(ToBraft(e, a.last, s.Chance(1, 3)));
  }
  bool one = s.Chance(1, 4);
  s.Note("r%ld append%s %ld..%ld term %ld", r.id, one ? " singly" : "", r.st.last + 1, a.last, r.term);
  if (!one) {
    Mutate(L, r, a, [&] {
      braft::IOMetric m;
      int ret = r.w->append_entries(v, s.Bool() ? &m : nullptr);
      VT_CHECK(ret == (int)v.size(), "append", RG << "append_entries of " << v.size() << " returned " << ret);
    });
  } else {
    for (auto* b : v) {
      State o = r.st;
      o.last_min = r.st.last;
      o.last++;
      o.e[o.last] = a.e[o.last];
      Mutate(L, r, o, [&] { VT_CHECK(r.w->append_entry(b) == 0, "append", RG << "append_entry failed"); });
    }
  }
  for (auto* b : v) {
    if (b->type == braft::ENTRY_TYPE_CONFIGURATION) r.conf.add(braft::ConfigurationEntry(*b));
    b->Release();
  }
}
void Settle(Region& r) {
  if (r.truncating) return;
  r.st.lo = r.st.hi;
  r.st.e.erase(r.st.e.begin(), r.st.e.lower_bound(r.st.lo));
  r.hist.push_back(r.st);
}
void Truncate(Life& L, Region& r, ClientType c, int64_t k, vt::Src& s) {
  s.Note("r%ld truncate prefix %s %ld", r.id, c == ClientType::kRaft ? "raft" : "index", k);
  auto call = [&] {
    int ret;
    if (c == ClientType::kRaft) {
      ret = r.w->truncate_prefix(k);
    } else {
      ret = L.st->TruncatePrefix(c, r.id, k);
    }
    VT_CHECK(ret == 0, "truncate-prefix", RG << "truncate_prefix " << k << " returned " << ret);
  };
  if (c == ClientType::kRaft && k > r.st.last + 1) {  // a snapshot beyond the end of the log
    State a;
    a.lo = a.hi = k;
    a.last = k - 1;
    r.keep[c] = k;
    // the index thread may truncate meanwhile, never beyond the end of the log
    Mutate(L, r, a, call);
    return;
  }
  if (k == 0) {
    r.keep[c] = 0;
  } else if (k > r.st.lo && k > r.keep[c]) {
    r.keep[c] = k;
    int64_t m = INT64_MAX;
    for (auto& x : r.keep) m = std::min(m, x.second);
    if (m > r.st.hi) r.st.hi = m;
  }
  r.truncating++;
  r.hist.push_back(r.st);
  call();
  r.truncating--;
  L.ops++;
  Settle(r);
}
// braft's LogManager::set_snapshot
void SetSnapshot(Life& L, Region& r, int64_t n, int64_t term, vt::Src& s) {
  int64_t have = 0;
  if (n >= r.bfirst && n <= r.st.last) have = r.w->get_term(n);
  if (n >= r.bfirst && n <= r.st.last) {
    auto it = r.st.e.find(n);
    VT_CHECK(it != r.st.e.end() && it->second.term == have, "term", RG << "get_term(" << n << ") = " << have);
  }
  int64_t prev = r.snap;
  r.snap = n;
  r.snap_term = term;
  r.commit = std::max(r.commit, n);
  r.term = std::max(r.term, term);
  if (have == 0) {
    s.Note("r%ld snapshot %ld beyond the log", r.id, n);
    r.bfirst = n + 1;
    r.conf.truncate_prefix(n + 1);
    Truncate(L, r, ClientType::kRaft, n + 1, s);
  } else if (have == term) {
    s.Note("r%ld snapshot %ld", r.id, n);
    if (prev > 0) {
      r.bfirst = prev + 1;
      r.conf.truncate_prefix(prev + 1);
      Truncate(L, r, ClientType::kRaft, prev + 1, s);
    }
  } else {
    s.Note("r%ld snapshot %ld replaces the log", r.id, n);
    State a;
    a.lo = a.hi = n + 1;
    a.last = n;
    r.bfirst = n + 1;
    r.conf = braft::ConfigurationManager();
    Mutate(L, r, a, [&] { VT_CHECK(r.w->reset(n + 1) == 0, "reset", RG << "reset failed"); });
    for (auto& x : r.keep) x.second = 0;
  }
}
// ---- reads
void CheckEntry(const State& st, Region& r, int64_t i, const Ent& e, const char* how) {
  auto it = st.e.find(i);
  VT_CHECK(it != st.e.end(), "phantom", RG << how << " shows entry " << i << " " << e.Str() << " which is not in the log");
  VT_CHECK(it->second == e, "content", RG << how << " shows entry " << i << " as " << e.Str() << ", appended " << it->second.Str());
}
void Range(Life& L, Region& r, int64_t a, int64_t b, bool data) {
  const State before = r.st;  // the index thread may truncate meanwhile: nothing else appears, nothing from hi on goes
  auto v = data ? L.st->GetDataEntries(r.id, a, b) : L.st->GetEntries(r.id, a, b);
  int64_t lo = std::max(a, r.st.hi), hi = std::min(b, r.st.last + 1);
  std::set<int64_t> seen;
  int64_t prev = 0;
  for (auto& e : v) {
    VT_CHECK(e->region_id == r.id, "region", RG << "entry of region " << e->region_id);
    VT_CHECK(e->index > prev, "order", RG << "entry " << e->index << " after " << prev);
    prev = e->index;
    VT_CHECK(e->index >= a && e->index < b, "range", RG << "entry " << e->index << " outside [" << a << "," << b << ")");
    VT_CHECK(e->index >= before.lo && e->index <= r.st.last, "phantom", RG << "entry " << e->index << " outside the log");
    CheckEntry(before, r, e->index, FromWal(*e), "range");
    VT_CHECK(!data || (int)e->type == braft::ENTRY_TYPE_DATA, "data-type", RG << "entry " << e->index << " is no data");
    seen.insert(e->index);
  }
  for (int64_t i = lo; i < hi; i++)
    VT_CHECK(seen.count(i) || (data && r.st.e.at(i).type != braft::ENTRY_TYPE_DATA), "lost",
             RG << "entry " << i << " missing from range [" << a << "," << b << ")");
}
void Bounds(Region& r, const char* when) {
  int64_t lo = r.st.lo;  // the index thread may truncate meanwhile
  int64_t f = r.w->first_log_index(), l = r.w->last_log_index();
  VT_CHECK(l == r.st.last, "last", RG << when << ": last_log_index " << l);
  VT_CHECK(f >= lo && f <= r.st.hi, "first", RG << when << ": first_log_index " << f);
}
void Read(Life& L, Region& r, vt::Src& s) {
  auto any = [&] { return r.st.hi + (int64_t)s.Range(0, (uint64_t)std::max<int64_t>(0, r.st.last - r.st.hi)); };
  bool some = r.st.last >= r.st.hi;
  const State before = r.st;
  switch (s.Below(6)) {
    case 0: Bounds(r, "read"); break;
    case 1:
      if (some) {
        int64_t i = any();
        auto* b = r.w->get_entry(i);
        if (!b && i < r.st.hi) break;
        VT_CHECK(b != nullptr, "lost", RG << "get_entry(" << i << ") returned nothing");
        VT_CHECK(b->id.index == i, "index", RG << "get_entry(" << i << ") has index " << b->id.index);
        CheckEntry(before, r, i, FromBraft(b), "get_entry");
        b->Release();
      } else {
        int64_t i = r.st.last + 1 + (int64_t)s.Below(3);
        auto* b = r.w->get_entry(i);
        VT_CHECK(b == nullptr, "phantom", RG << "get_entry(" << i << ") returned an entry");
      }
      break;
    case 2:
      if (some) {
        int64_t i = std::max(any(), r.bfirst);
        if (i > r.st.last) break;
        int64_t t = r.w->get_term(i);
        if (t == 0 && i < r.st.hi) break;
        VT_CHECK(t == before.e.at(i).term, "term", RG << "get_term(" << i << ") = " << t << ", appended " << before.e.at(i).term);
      }
      break;
    case 3: {
      int64_t a = std::max<int64_t>(0, any() - (int64_t)s.Below(4)), b = s.Chance(1, 3) ? INT64_MAX : a + (int64_t)s.Below(8);
      Range(L, r, a, b, s.Bool());
      break;
    }
    case 4: {
      auto v = L.st->GetConfigurations(r.id);
      std::set<int64_t> seen;
      for (auto& e : v) {
        VT_CHECK((int)e.type == braft::ENTRY_TYPE_CONFIGURATION, "conf-type", RG << "entry " << e.index << " is no configuration");
        CheckEntry(before, r, e.index, FromWal(e), "configurations");
        seen.insert(e.index);
      }
      for (auto& [i, e] : r.st.e)
        if (i >= r.st.hi && e.type == braft::ENTRY_TYPE_CONFIGURATION)
          VT_CHECK(seen.count(i), "lost", RG << "configuration " << i << " missing");
      break;
    }
    default: {
      int64_t a = std::max(r.st.hi, any() - (int64_t)s.Below(3)), b = s.Chance(1, 3) ? INT64_MAX : a + (int64_t)s.Below(6);
      int kind = (int)s.Below(3);
      int64_t at = any();
      auto match = [&](int type, int64_t i) {
        return kind == 0 ? type == braft::ENTRY_TYPE_CONFIGURATION : kind == 1 ? i == at : false;
      };
      bool want = false;
      for (auto& [i, e] : r.st.e)
        if (i >= a && i < b && (e.type == braft::ENTRY_TYPE_CONFIGURATION || e.type == braft::ENTRY_TYPE_DATA) && match(e.type, i)) want = true;
      bool got = L.st->HasSpecificLog(r.id, a, b, [&](const wal::LogEntry& e) {
        CheckEntry(before, r, e.index, FromWal(e), "search");
        return match((int)e.type, e.index);
      });
      if (got != want && a < r.st.hi) break;  // truncated meanwhile
      VT_CHECK(got == want, "search", RG << "search of [" << a << "," << b << ") kind " << kind << " at " << at << " says " << got);
    }
  }
}
void RaftThread(Life& L, Region& r, vt::Src& s) {
  int n = (int)s.Range(1, 9);
  for (int i = 0; i < n && !L.frozen; i++) {
    switch (s.Weighted({10, 8, 4, 3, 3, 2})) {
      case 0: Append(L, r, s); break;
      case 1: Read(L, r, s); break;
      case 2:
        if (r.st.last > r.commit) r.commit += (int64_t)s.Range(1, (uint64_t)(r.st.last - r.commit));
        if (r.commit > r.snap && s.Chance(2, 3)) {
          int64_t k = r.snap + (int64_t)s.Range(1, (uint64_t)(r.commit - r.snap));
          auto it = r.st.e.find(k);
          if (it != r.st.e.end()) SetSnapshot(L, r, k, it->second.term, s);
        }
        break;
      case 3: {  // uncommitted tail goes
        int64_t from = std::max(r.commit, std::max(r.snap, r.st.hi - 1));
        if (from >= r.st.last) break;
        int64_t k = from + (int64_t)s.Below((uint64_t)(r.st.last - from));
        State a = r.st;
        a.last = k;
        a.e.erase(a.e.upper_bound(k), a.e.end());
        s.Note("r%ld truncate suffix %ld", r.id, k);
        r.conf.truncate_suffix(k);
        Mutate(L, r, a, [&] { VT_CHECK(r.w->truncate_suffix(k) == 0, "truncate-suffix", RG << "truncate_suffix " << k << " failed"); });
        r.term++;
        break;
      }
      case 4:
        if (L.both && !r.vec_thread) {
          int64_t k = s.Chance(1, 5) ? 0 : s.Chance(1, 6) ? INT64_MAX : (int64_t)s.Range(0, (uint64_t)r.commit);
          Truncate(L, r, ClientType::kVectorIndex, k, s);
        }
        break;
      default:
        if (r.vec_thread || r.reader) break;
        if (s.Bool()) {  // a snapshot from the leader, beyond the log
          SetSnapshot(L, r, r.st.last + (int64_t)s.Range(1, 6), r.term + (int64_t)s.Below(2), s);
        } else if (r.st.last > std::max(r.commit, r.bfirst - 1)) {  // one that contradicts the uncommitted tail
          int64_t b = std::max(r.commit, r.bfirst - 1);
          int64_t k = b + (int64_t)s.Range(1, (uint64_t)(r.st.last - b));
          SetSnapshot(L, r, k, r.term + 1, s);
        }
    }
  }
  if (!L.frozen) Bounds(r, "end");
}
bool Match(const State& c, const std::map<int64_t, Ent>& seen, std::string& why) {
  int64_t f = seen.empty() ? 0 : seen.begin()->first, l = seen.empty() ? 0 : seen.rbegin()->first;
  if (seen.empty()) {
    if (c.hi > c.last || std::min(c.last, c.last_min) < c.hi) return true;
    why = "empty";
    return false;
  }
  bool last_ok = l == c.last || (c.last_min != INT64_MAX && l >= c.last_min && l <= c.last);
  if (!last_ok || f < c.lo || f > c.hi) {
    why = "range";
    return false;
  }
  for (auto& [i, e] : seen) {
    auto it = c.e.find(i);
    if (it == c.e.end() || !(it->second == e)) {
      why = "content " + std::to_string(i);
      return false;
    }
  }
  return true;
}
}  // namespace

VT_PROPERTY("C25", 60000, 400000,
            "a case that wrote to at least two regions or restarted, with a truncation, reset, crash or concurrent batch");
VT_SUB("C25", "storage", 12) {
  wal::FLAGS_rocks_log_max_write_batch_size = (int)s.OneOf<int>({512, 1, 3});
  wal::FLAGS_rocks_log_max_mutation_batch_size = (int)s.OneOf<int>({256, 1, 2});
  wal::FLAGS_rocks_log_write_wait_time_ms = 2;
  wal::FLAGS_rocks_log_enable_get_term_cache = s.Chance(1, 2);
  Life L;
  L.sync = s.Chance(2, 3);
  L.both = s.Chance(2, 3);
  braft::FLAGS_raft_sync = L.sync;
  rocksdb::vs::g_track_unsynced = true;
  static int n = 0;
  L.path = vt::ScratchRoot() + "/log" + std::to_string(n++);
  int nr = (int)s.Range(1, 3);
  std::set<int64_t> ids;
  while ((int)ids.size() < nr)
    ids.insert(s.OneOf<int64_t>({1, 2, 80001, 80002, 255, 256, 65535, 0x7fff, INT64_MAX - 1}) + (int64_t)s.Below(2) * 0);
  for (auto id : ids) {
    auto r = std::make_unique<Region>();
    r->id = id;
    L.regions.push_back(std::move(r));
  }
  s.Note("sync %d clients %d cache %d", L.sync, L.both ? 2 : 1, (int)wal::FLAGS_rocks_log_enable_get_term_cache);
  int lives = (int)s.Range(1, 4);
  uint64_t sw = 0;
  std::set<int64_t> destroyed;  // in the previous life
  bool crashed = false;
  for (int life = 0; life < lives; life++) {
    bool crash = life + 1 < lives && s.Chance(2, 5);
    L.frozen = false;
    s.Note("-- process %d%s", life, crash ? " (crashes)" : "");
    sched::Run(s, [&] {
      L.st = wal::RocksLogStorage::New(L.path);
      L.st->RegisterClientType(ClientType::kRaft);
      if (L.both) L.st->RegisterClientType(ClientType::kVectorIndex);
      VT_CHECK(L.st->Init(), "init", "init failed");
      if (!crashed || L.sync) {
        auto metas = L.st->GetLogIndexMeta(std::vector<int64_t>{}, s.Bool());
        for (auto id : destroyed) VT_CHECK(!metas.count(id), "destroyed", "destroyed region " << id << " is back after the restart");
        for (auto& rp : L.regions)
          if (rp->exists && !crashed) VT_CHECK(metas.count(rp->id), "forgotten", "region " << rp->id << " is forgotten after the restart");
      }
      destroyed.clear();
      for (auto& rp : L.regions) {
        auto& r = *rp;
        r.w = std::make_unique<wal::RocksLogStorageWrapper>(r.id, L.st);
        r.conf = braft::ConfigurationManager();
        r.vec_thread = L.both && s.Chance(1, 3);
        r.reader = s.Chance(1, 4);
        r.truncating = 0;
        VT_CHECK(r.w->init(&r.conf) == 0, "init", RG << "wrapper init failed");
        r.exists = true;
        // the log found is one the past can explain
        std::map<int64_t, Ent> seen;
        for (auto& e : L.st->GetEntries(r.id, 0, INT64_MAX)) seen[e->index] = FromWal(*e);
        if (r.hist.empty()) r.hist.push_back(r.st);
        std::vector<State> cand;
        if (!crashed) cand = {r.st};
        else if (L.sync) cand = {r.hist.back()};
        else cand = r.hist;
        if (crashed && r.inflight) cand.push_back(r.after);
        bool ok = false;
        std::string why;
        for (size_t i = cand.size(); i-- > 0 && !ok;) ok = Match(cand[i], seen, why);
        std::string d;
        for (auto& [i, e] : seen) d += " " + std::to_string(i) + "(" + std::to_string(e.term) + ")";
        VT_CHECK(ok, crashed ? "crash-recovery" : "reopen",
                 RG << "log after the " << (crashed ? "crash" : "restart") << " has" << (d.empty() ? " nothing" : d) << ", not explained by what was written: " << why);
        r.inflight = false;
        int64_t f = r.w->first_log_index(), l = r.w->last_log_index();
        if (seen.empty()) {
          VT_CHECK(l == f - 1, "empty-range", RG << "empty log has range [" << f << "," << l << "]");
        } else {
          VT_CHECK(f == seen.begin()->first, "first", RG << "first_log_index " << f << " but the log starts at " << seen.begin()->first);
          VT_CHECK(l == seen.rbegin()->first, "last", RG << "last_log_index " << l << " but the log ends at " << seen.rbegin()->first);
          VT_CHECK(l - f + 1 == (int64_t)seen.size(), "hole", RG << "log has holes:" << d);
        }
        std::vector<int64_t> cf;
        for (auto& [i, e] : seen)
          if (e.type == braft::ENTRY_TYPE_CONFIGURATION) cf.push_back(i);
        VT_CHECK(r.conf.entries().size() == cf.size(), "conf", RG << r.conf.entries().size() << " configurations loaded of " << cf.size());
        for (size_t i = 0; i < cf.size(); i++) {
          auto& c = r.conf.entries()[i];
          auto& e = seen[cf[i]];
          std::vector<std::string> p, o;
          for (auto& x : c.conf) p.push_back(x.to_string());
          for (auto& x : c.old_conf) o.push_back(x.to_string());
          auto sorted = [](std::vector<std::string> v) {
            std::vector<braft::PeerId> q;
            for (auto& x : v) q.push_back(braft::PeerId(x));
            std::set<braft::PeerId> z(q.begin(), q.end());
            std::vector<std::string> w;
            for (auto& x : z) w.push_back(x.to_string());
            return w;
          };
          VT_CHECK(c.id.index == cf[i] && c.id.term == e.term && p == sorted(e.peers) && o == sorted(e.old), "conf", RG << "configuration " << cf[i] << " loaded wrong");
        }
        r.st = State();
        r.st.e = seen;
        r.st.lo = r.st.hi = f;
        r.st.last = l;
        for (auto& x : r.keep) x.second = 0;
        r.keep[ClientType::kRaft] = 0;
        if (L.both) r.keep[ClientType::kVectorIndex] = 0;
        r.hist = {r.st};
        // braft's LogManager::init followed by loading its snapshot
        r.bfirst = f;
        if (l > 0 && !seen.empty()) {
          int64_t t = r.w->get_term(l);
          VT_CHECK(t == seen[l].term, "term", RG << "get_term(" << l << ") = " << t << " after the restart");
        }
        if (!seen.empty()) r.term = std::max(r.term, seen.rbegin()->second.term);
        r.commit = std::min(r.commit, std::max(l, r.snap));
        if (r.snap > 0) {
          int64_t sn = r.snap;
          r.snap = 0;
          SetSnapshot(L, r, sn, r.snap_term, s);
        }
        r.commit = std::max(std::min(r.commit, r.st.last), r.snap);
      }
      crashed = false;
      std::vector<std::unique_ptr<sched::Thread>> th;
      for (auto& rp : L.regions) {
        auto* r = rp.get();
        th.push_back(std::make_unique<sched::Thread>([&, r] { RaftThread(L, *r, s); }));
        if (r->vec_thread)
          th.push_back(std::make_unique<sched::Thread>([&, r] {
            int k = (int)s.Range(1, 4);
            for (int i = 0; i < k && !L.frozen; i++)
              Truncate(L, *r, ClientType::kVectorIndex, s.Chance(1, 6) ? INT64_MAX : (int64_t)s.Range(1, (uint64_t)r->commit + 1), s);
          }));
        if (r->reader)
          th.push_back(std::make_unique<sched::Thread>([&, r] {
            int k = (int)s.Range(1, 3);
            for (int i = 0; i < k && !L.frozen; i++) {
              // what is committed by now and still kept afterwards is there, in order and unchanged
              int64_t a = std::max<int64_t>(1, r->commit - (int64_t)s.Below(5)), b = r->commit + 1;
              std::map<int64_t, Ent> before = r->st.e;
              auto v = L.st->GetEntries(r->id, a, b);
              std::map<int64_t, Ent> seen;
              for (auto& e : v) seen[e->index] = FromWal(*e);
              for (auto& [x, e] : seen) {
                auto it = before.find(x);
                VT_CHECK(it != before.end() && it->second == e, "read-content", "region " << r->id << " concurrent read shows entry " << x << " " << e.Str());
              }
              for (int64_t x = std::max(a, r->st.hi); x < b; x++)
                VT_CHECK(seen.count(x), "read-lost", "region " << r->id << " concurrent read misses committed entry " << x);
            }
          }));
      }
      // what was true at the crash
      std::vector<std::pair<std::vector<State>, std::pair<bool, State>>> at;
      std::vector<std::array<int64_t, 6>> braft_at;
      if (crash)
        th.push_back(std::make_unique<sched::Thread>([&] {
          uint64_t k = s.Weighted({2, 2, 1}) == 0 ? s.Range(0, 20) : s.Range(0, 400);
          for (uint64_t i = 0; i < k; i++) sched::Sleep(s.Range(1, 3));
          rocksdb::vs::Freeze(L.path, L.sync ? s.Below(3) : s.Below(20));
          L.frozen = true;
          crashed = true;
          L.crashes++;
          for (auto& r : L.regions) {
            r->hist.push_back(r->st);
            at.push_back({r->hist, {r->inflight, r->after}});
            braft_at.push_back({r->bfirst, r->commit, r->snap, r->snap_term, r->term, 0});
          }
          s.Note("crash");
        }));
      for (auto& t : th) t->Join();
      if (!crash) {
        for (auto& rp : L.regions) {
          auto& r = *rp;
          Settle(r);
          Bounds(r, "quiet");
          Range(L, r, 0, INT64_MAX, false);
          wal::LogIndexMeta m;
          VT_CHECK(L.st->GetLogIndexMeta(r.id, m), "meta", RG << "no index meta");
          VT_CHECK(m.first_index == r.st.hi && m.last_index == r.st.last, "meta", RG << "index meta says [" << m.first_index << "," << m.last_index << "]");
          if (s.Chance(1, 8)) {
            s.Note("r%ld destroyed", r.id);
            VT_CHECK(L.st->DestroyRegionLog(r.id), "destroy", RG << "destroy failed");
            auto left = L.st->GetEntries(r.id, 0, INT64_MAX);
            VT_CHECK(left.empty(), "destroy", RG << left.size() << " entries left by destroy");
            VT_CHECK(!L.st->GetLogIndexMeta(r.id, m), "destroy", RG << "index meta left by destroy");
            r.w.reset();
            int64_t id = r.id;
            auto nr2 = std::make_unique<Region>();
            nr2->id = id;
            rp = std::move(nr2);
            destroyed.insert(id);
          }
        }
      }
      for (auto& r : L.regions) r->w.reset();
      VT_CHECK(rocksdb::vs::LiveReaders(L.path) == 0, "iterator-leak", rocksdb::vs::LiveReaders(L.path) << " iterators are still open at close");
      VT_CHECK(L.st->Close(), "close", "close failed");
      L.st.reset();
      if (crash) {
        rocksdb::vs::Thaw(L.path);
        for (size_t i = 0; i < L.regions.size(); i++) {
          auto& r = *L.regions[i];
          r.hist = at[i].first;
          r.inflight = at[i].second.first;
          r.after = at[i].second.second;
          r.bfirst = braft_at[i][0], r.commit = braft_at[i][1], r.snap = braft_at[i][2], r.snap_term = braft_at[i][3], r.term = braft_at[i][4];
          r.st = r.hist.back();
        }
      }
      sw += sched::g->switches;
    });
  }
  rocksdb::vs::Forget(L.path);
  if (L.ops >= 4 && (lives > 1 || L.regions.size() > 1))
    s.NonTrivial(std::to_string(L.ops) + "/" + std::to_string(sw) + "/" + std::to_string(s.rec_.size()) + "/" + std::to_string(vt::HashStr(s.notes_.empty() ? "" : s.notes_.back())));
}
VT_SUB("C25", "terms", 1) {
  IndexTermMap m(1);
  std::map<int64_t, int64_t> e;
  int64_t next = 1 + (int64_t)s.Below(20), first = next, term = 1;
  int n = (int)s.Range(1, 60);
  int epochs = 0;
  for (int i = 0; i < n; i++) {
    switch (s.Weighted({10, 3, 2, 1, 8})) {
      case 0: {
        int k = (int)s.Range(1, 3);
        while (k--) {
          if (s.Chance(1, 2)) term++, epochs++;
          VT_CHECK(m.Append(braft::LogId(next, term)) == 0, "append", "append of " << next << "/" << term << " refused");
          e[next++] = term;
        }
        break;
      }
      case 1: {
        int64_t k = first + (int64_t)s.Below((uint64_t)(next - first) + 1);
        m.TruncatePrefix(k);
        first = std::max(first, k);
        e.erase(e.begin(), e.lower_bound(first));
        break;
      }
      case 2: {
        int64_t k = first - 1 + (int64_t)s.Below((uint64_t)(next - first) + 1);
        m.TruncateSuffix(k);
        e.erase(e.upper_bound(k), e.end());
        next = k + 1;
        break;
      }
      case 3:
        m.Reset();
        e.clear();
        next += (int64_t)s.Below(5);
        first = next;
        break;
      default:
        if (!e.empty()) {
          int64_t k = first + (int64_t)s.Below((uint64_t)(next - first));
          VT_CHECK(m.GetTerm(k) == e.at(k), "get-term", "term of " << k << " is " << m.GetTerm(k) << ", appended with " << e.at(k));
        }
    }
  }
  for (auto& [i, t] : e) VT_CHECK(m.GetTerm(i) == t, "get-term", "term of " << i << " is " << m.GetTerm(i) << ", appended with " << t);
  if (epochs >= 3) s.NonTrivial(std::to_string(vt::HashStr(std::to_string(n) + "/" + std::to_string(s.rec_.size()) + "/" + std::to_string(next))));
}
int main(int argc, char** argv) {
  FLAGS_minloglevel = getenv("VT_LOG") ? 0 : 3;
  return vt::Main(argc, argv);
}
