// Raw key-value interface, versioned reads, scan sessions: real Storage/engines/raft apply against a versioned-map model.
#include <optional>

#include "env.h"
#include "proto/store.pb.h"
#include "scan/scan_manager.h"
using namespace dingodb;
using vt::Hex;
using vt::Src;

namespace {
struct Init {
  Init() {
    vt::InitHook() = [] {
      env::C().role = "store";
      env::InitProcess();
      ScanManager::GetInstance().Init(ConfigManager::GetInstance().GetRoleConfig());
      ScanManagerV2::GetInstance().Init(ConfigManager::GetInstance().GetRoleConfig());
    };
  }
} g_init;

using M = std::map<std::string, std::string>;  // visible state

pb::common::KeyValue KV(const std::string& k, const std::string& v) {
  pb::common::KeyValue kv;
  kv.set_key(k);
  kv.set_value(v);
  return kv;
}

// keys with shared prefixes, group boundaries, 0x00/0xff
std::vector<std::string> KeyPool(Src& s, size_t n, const std::string& pre) {
  std::vector<std::string> v;
  for (size_t i = 0; i < n; i++) {
    std::string k;
    if (!v.empty() && s.Chance(1, 2)) {
      k = s.Pick(v);
      switch (s.Below(4)) {
        case 0: k += (char)s.OneOf<int>({0, 0xff, 'a', 1}); break;
        case 1: k += std::string(s.Range(1, 9), (char)s.OneOf<int>({0, 0xff})); break;
        case 2: k.back() = (char)(k.back() + 1); break;
        default:
          if (k.size() > pre.size() + 1) k.pop_back();
          break;
      }
    } else {
      k = pre + s.Bytes(18);
    }
    if (k.size() == pre.size()) k += 'k';
    if (k.compare(0, pre.size(), pre) == 0) v.push_back(k);
  }
  if (v.empty()) v.push_back(pre + "k");
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

std::string Val(Src& s) {
  switch (s.Below(4)) {
    case 0: return std::string("v") + (char)('a' + s.Below(4));
    case 1: return std::string(1, (char)s.Below(4));
    case 2: return s.Bytes(12) + "x";
    default: return std::string(8, '\0') + (char)s.Below(3);
  }
}
std::string MStr(const M& m) {
  std::string r;
  for (auto& [k, v] : m) r += Hex(k) + "=" + Hex(v) + " ";
  return r;
}
M Visible(const std::vector<pb::common::KeyValue>& kvs, const char* what) {
  M m;
  std::string prev;
  for (auto& kv : kvs) {
    VT_CHECK(m.empty() || prev < kv.key(), "scan-order", what << " keys out of order or repeated: " << Hex(prev) << " then " << Hex(kv.key()));
    prev = kv.key();
    m[kv.key()] = kv.value();
  }
  return m;
}
M Sub(const M& m, const std::string& a, const std::string& b) {
  M r;
  for (auto& [k, v] : m)
    if (k >= a && k < b) r[k] = v;
  return r;
}

struct World {
  env::RegionPtr r;
  std::string start, end;
  std::vector<std::string> keys;
  M cur;
  std::vector<std::pair<int64_t, M>> snaps;  // (read ts, what a read at it must see)
};

World Setup(Src& s, bool mono) {
  env::Fresh();
  World w;
  std::string pre = "r";
  w.start = pre;
  w.end = "s";
  w.r = env::AddRegion(env::Def(101, w.start, w.end, mono));
  w.keys = KeyPool(s, 2 + s.Below(7), pre);
  return w;
}
int64_t Ts() { return env::S().ts_provider_->GetTs(); }

void CheckReads(Src& s, World& w, const char* when) {
  auto& st = env::St();
  // latest and snapshot point reads
  auto check_at = [&](int64_t ts, const M& want) {
    auto c = env::Ctx(w.r);
    c->SetTs(ts);
    std::vector<pb::common::KeyValue> kvs;
    auto rs = st.KvGet(c, w.keys, kvs);
    VT_CHECK(rs.ok(), "get-status", when << " get failed: " << rs.error_str());
    M got;
    for (auto& kv : kvs) got[kv.key()] = kv.value();
    M exp;
    for (auto& k : w.keys)
      if (want.count(k)) exp[k] = want.at(k);
    VT_CHECK(got == exp, ts ? "snapshot-get" : "get", when << " get at ts " << ts << " want {" << MStr(exp) << "} got {" << MStr(got) << "}");
    auto rd = st.GetEngineMVCCReader(w.r->GetStoreEngineType(), w.r->GetRawEngineType());
    std::string a = s.Chance(1, 2) ? w.start : s.Pick(w.keys), b = s.Chance(1, 2) ? w.end : s.Pick(w.keys);
    if (a < b) {
      kvs.clear();
      VT_CHECK(rd->KvScan(Constant::kStoreDataCF, ts, a, b, kvs).ok(), "scan-status", when);
      M g = Visible(kvs, "scan"), e = Sub(want, a, b);
      VT_CHECK(g == e, ts ? "snapshot-scan" : "scan", when << " scan [" << Hex(a) << "," << Hex(b) << ") at " << ts << " want {" << MStr(e) << "} got {" << MStr(g) << "}");
      int64_t n = -1;
      VT_CHECK(rd->KvCount(Constant::kStoreDataCF, ts, a, b, n).ok() && n == (int64_t)e.size(), "count", when << " count " << n << " want " << e.size());
      std::string mn, mx;
      rd->KvMinKey(Constant::kStoreDataCF, ts, a, b, mn);
      rd->KvMaxKey(Constant::kStoreDataCF, ts, a, b, mx);
      VT_CHECK(mn == (e.empty() ? "" : e.begin()->first), "min-key", when << " min " << Hex(mn));
      VT_CHECK(mx == (e.empty() ? "" : e.rbegin()->first), "max-key", when << " max " << Hex(mx) << " in [" << Hex(a) << "," << Hex(b) << ")");
    }
  };
  check_at(0, w.cur);
  if (!w.snaps.empty()) {
    auto& sn = s.Pick(w.snaps);
    check_at(sn.first, sn.second);
  }
}
}  // namespace

VT_PROPERTY("C05", 24000, 600000,
            "the history has a successful conditional write or delete, and a read at an older timestamp or a restart after it")
static void RawKv(Src& s, bool mono) {
  World w = Setup(s, mono);
  int n = s.Range(3, 14);
  bool cond = false, old = false, restarted = false;
  std::string hist;
  for (int i = 0; i < n; i++) {
    auto c = env::Ctx(w.r);
    bool ttl = s.Chance(1, 6);
    bool expired = ttl && s.Chance(1, 2);
    if (ttl) c->SetTtl(expired ? 1 + (int64_t)s.Below(1000000) : 4102444800000ll + (int64_t)s.Below(1000));
    std::vector<std::string> ks;
    size_t want = 1 + s.Below(std::min<size_t>(4, w.keys.size()));
    std::set<std::string> used;
    for (size_t j = 0; j < want; j++) {
      auto k = s.Pick(w.keys);
      if (used.insert(k).second) ks.push_back(k);
    }
    M before = w.cur;
    size_t op = s.Weighted({5, 3, 4, 4, 2, 2, 1});
    switch (op) {
      case 0: {  // put
        std::vector<pb::common::KeyValue> kvs;
        for (auto& k : ks) kvs.push_back(KV(k, s.Chance(1, 10) ? "" : Val(s)));
        std::ostringstream o;
        for (auto& kv : kvs) o << Hex(kv.key()) << "=" << Hex(kv.value()) << " ";
        s.Note("put " + o.str() + (ttl ? expired ? "expired" : "ttl" : ""));
        auto copy = kvs;
        auto rs = env::St().KvPut(c, kvs);
        VT_CHECK(rs.ok(), "put-status", rs.error_str());
        for (auto& kv : copy) {
          if (expired)
            w.cur.erase(kv.key());
          else
            w.cur[kv.key()] = kv.value();
        }
        break;
      }
      case 1: {  // delete
        std::vector<bool> states;
        auto rs = env::St().KvDelete(c, ks, states);
        s.Note("delete " + std::to_string(ks.size()));
        VT_CHECK(rs.ok(), "delete-status", rs.error_str());
        VT_CHECK(states.size() == ks.size(), "delete-states", "size " << states.size());
        for (size_t j = 0; j < ks.size(); j++) {
          VT_CHECK(states[j] == (w.cur.count(ks[j]) > 0), "delete-states", "key " << Hex(ks[j]) << " reported existed=" << states[j]);
          if (w.cur.erase(ks[j])) cond = true;
        }
        break;
      }
      case 2: {  // put if absent
        bool atomic = s.Bool();
        std::vector<pb::common::KeyValue> kvs;
        for (auto& k : ks) kvs.push_back(KV(k, Val(s)));
        std::vector<bool> states;
        auto rs = env::St().KvPutIfAbsent(c, kvs, atomic, states);
        s.Note(std::string("put-if-absent atomic=") + (atomic ? "1" : "0") + " n=" + std::to_string(kvs.size()));
        VT_CHECK(rs.ok(), "pia-status", rs.error_str());
        VT_CHECK(states.size() == kvs.size(), "pia-states", "size " << states.size());
        bool any = false;
        for (auto& kv : kvs) any |= w.cur.count(kv.key()) > 0;
        for (size_t j = 0; j < kvs.size(); j++) {
          bool absent = !before.count(kvs[j].key());
          bool done = atomic ? !any : absent;
          VT_CHECK(states[j] == done, "pia-states", "key " << Hex(kvs[j].key()) << " state " << states[j] << " want " << done);
          if (done) {
            cond = true;
            if (!expired) w.cur[kvs[j].key()] = kvs[j].value();
          }
        }
        break;
      }
      case 3: {  // compare and set
        bool atomic = s.Bool();
        std::vector<pb::common::KeyValue> kvs;
        std::vector<std::string> exp;
        for (auto& k : ks) {
          kvs.push_back(KV(k, s.Chance(1, 4) ? "" : Val(s)));
          auto it = w.cur.find(k);
          exp.push_back(s.Chance(3, 4) ? (it == w.cur.end() ? "" : it->second) : Val(s));
        }
        std::vector<bool> states;
        auto rs = env::St().KvCompareAndSet(c, kvs, exp, atomic, states);
        s.Note(std::string("cas atomic=") + (atomic ? "1" : "0") + " n=" + std::to_string(kvs.size()));
        bool all = true;
        std::vector<bool> match;
        for (size_t j = 0; j < kvs.size(); j++) {
          auto it = before.find(kvs[j].key());
          bool m = it == before.end() ? exp[j].empty() : it->second == exp[j];
          match.push_back(m);
          all &= m;
        }
        if (!atomic || all) VT_CHECK(rs.ok(), "cas-status", rs.error_str());
        VT_CHECK(states.size() == kvs.size(), "cas-states", "size " << states.size());
        for (size_t j = 0; j < kvs.size(); j++) {
          bool done = atomic ? all : match[j];
          VT_CHECK(states[j] == done, "cas-states", "key " << Hex(kvs[j].key()) << " state " << states[j] << " want " << done);
          if (done) {
            cond = true;
            if (kvs[j].value().empty() || expired)
              w.cur.erase(kvs[j].key());
            else
              w.cur[kvs[j].key()] = kvs[j].value();
          }
        }
        break;
      }
      case 4: {  // delete range
        auto a = s.Pick(w.keys), b = s.Pick(w.keys);
        if (b < a) std::swap(a, b);
        pb::common::Range rg;
        rg.set_start_key(a);
        rg.set_end_key(b);
        if (a == b) break;
        auto rs = env::St().KvDeleteRange(c, rg);
        s.Note("delete-range " + Hex(a) + " " + Hex(b));
        VT_CHECK(rs.ok(), "delrange-status", rs.error_str());
        auto cut = [&](M& m) { m.erase(m.lower_bound(a), m.lower_bound(b)); };
        cut(w.cur);
        for (auto& sn : w.snaps) cut(sn.second);
        break;
      }
      case 5: {  // remember a snapshot timestamp
        int64_t ts = Ts();
        VT_CHECK(ts > 0, "ts", "no timestamp");
        w.snaps.push_back({ts, w.cur});
        s.Note("snapshot");
        break;
      }
      default:
        if (!mono) {
          env::Restart();
          w.r = env::S().store_meta_manager_->GetStoreRegionMeta()->GetRegion(101);
          VT_CHECK(w.r != nullptr, "region-lost", "region not found after restart");
          s.Note("restart");
          restarted = true;
        }
        break;
    }
    CheckReads(s, w, "after op");
    if (!w.snaps.empty() && cond) old = true;
  }
  hist = MStr(w.cur);
  if (cond && (old || restarted)) s.NonTrivial(hist);
}
VT_SUB("C05", "raft", 3) { RawKv(s, false); }
VT_SUB("C05", "mono", 2) { RawKv(s, true); }

// ---- C06: reads over hand-made version histories
VT_PROPERTY("C06", 60000, 2000000, "some key has at least two versions and a tombstone or expiry, and the read is between versions")
static void Versions(Src& s, int reader_kind) {
  env::Fresh();
  auto raw = env::S().rocks_raw_engine_;
  auto keys = KeyPool(s, 1 + s.Below(6), "r");
  struct V {
    int kind;  // 0 put 1 del 2 live ttl 3 expired ttl
    std::string val;
  };
  std::map<std::string, std::map<int64_t, V>> h;
  std::vector<int64_t> tss;
  bool multi = false, dead = false;
  for (auto& k : keys) {
    int n = s.Below(5);
    for (int i = 0; i < n; i++) {
      int64_t ts = s.Chance(1, 4) ? std::abs(s.Int64() % INT64_MAX) : 1 + (int64_t)s.Below(12);
      if (ts <= 0) ts = 1;
      V v{(int)s.Weighted({5, 3, 1, 2}), Val(s)};
      if (s.Chance(1, 8)) v.val.clear();
      h[k][ts] = v;
      tss.push_back(ts);
      pb::common::KeyValue kv;
      kv.set_key(mvcc::Codec::EncodeKey(k, ts));
      if (v.kind == 0)
        mvcc::Codec::PackageValue(mvcc::ValueFlag::kPut, v.val, *kv.mutable_value());
      else if (v.kind == 1)
        mvcc::Codec::PackageValue(mvcc::ValueFlag::kDelete, *kv.mutable_value());
      else
        mvcc::Codec::PackageValue(mvcc::ValueFlag::kPutTTL, v.kind == 2 ? 4102444800000ll : (int64_t)1 + (int64_t)s.Below(1000), v.val, *kv.mutable_value());
      raw->Writer()->KvPut(Constant::kStoreDataCF, kv);
    }
    if (h[k].size() > 1) multi = true;
    for (auto& [t, v] : h[k]) dead |= v.kind == 1 || v.kind == 3;
  }
  auto state = [&](int64_t ts) {
    M m;
    for (auto& [k, vs] : h) {
      auto it = ts <= 0 ? vs.end() : vs.upper_bound(ts);
      if (it == vs.begin()) continue;
      --it;
      if (it->second.kind == 0 || it->second.kind == 2) m[k] = it->second.val;
    }
    return m;
  };
  mvcc::ReaderPtr rd;
  if (reader_kind == 0)
    rd = mvcc::KvReader::New(raw->Reader());
  else if (reader_kind == 1)
    rd = mvcc::VectorReader::New(raw->Reader());
  else
    rd = mvcc::DocumentReader::New(raw->Reader());
  const std::string& cf = Constant::kStoreDataCF;
  for (int q = 0; q < 4; q++) {
    int64_t ts = s.Chance(1, 8) ? 0 : s.Chance(1, 8) ? INT64_MAX : (tss.empty() ? 5 : s.Pick(tss) + s.Range(-1, 1));
    if (ts < 0) ts = INT64_MAX;
    M m = state(ts);
    std::string a = s.Chance(1, 3) ? "q" : s.Pick(keys), b = s.Chance(1, 3) ? "s" : s.Pick(keys);
    s.Note("read ts=" + std::to_string(ts) + " [" + Hex(a) + "," + Hex(b) + ")");
    for (auto& k : keys) {
      std::string v;
      auto st = rd->KvGet(cf, ts, k, v);
      VT_CHECK(st.ok() == (m.count(k) > 0), "get-presence", "key " << Hex(k) << " at " << ts << " found=" << st.ok());
      if (st.ok()) VT_CHECK(v == m[k], "get-value", "key " << Hex(k) << " at " << ts << " got " << Hex(v) << " want " << Hex(m[k]));
    }
    if (!(a < b)) continue;
    M e = Sub(m, a, b);
    std::vector<pb::common::KeyValue> kvs;
    VT_CHECK(rd->KvScan(cf, ts, a, b, kvs).ok(), "scan", "status");
    M g = Visible(kvs, "scan");
    VT_CHECK(g == e, "scan", "at " << ts << " want {" << MStr(e) << "} got {" << MStr(g) << "}");
    for (auto& kv : kvs) {
      auto& vs = h[kv.key()];
      auto it = ts <= 0 ? vs.end() : vs.upper_bound(ts);
      --it;
      VT_CHECK(kv.ts() == it->first, "scan-ts", "key " << Hex(kv.key()) << " ts " << kv.ts() << " want " << it->first);
    }
    size_t stop = s.Below(4), seen = 0;
    M cb;
    rd->KvScan(cf, ts, a, b, [&](const std::string& k, const std::string& v) {
      cb[k] = v;
      return ++seen <= stop;
    });
    VT_CHECK(cb.size() == std::min(e.size(), stop + 1), "scan-callback", "visited " << cb.size() << " of " << e.size() << " stop after " << stop);
    for (auto& [k, v] : cb) VT_CHECK(e.count(k) && e[k] == v, "scan-callback", "key " << Hex(k));
    int64_t n = -1;
    rd->KvCount(cf, ts, a, b, n);
    VT_CHECK(n == (int64_t)e.size(), "count", n << " want " << e.size());
    std::string mn, mx;
    rd->KvMinKey(cf, ts, a, b, mn);
    rd->KvMaxKey(cf, ts, a, b, mx);
    VT_CHECK(mn == (e.empty() ? "" : e.begin()->first), "min-key", "got " << Hex(mn) << " in {" << MStr(e) << "}");
    VT_CHECK(mx == (e.empty() ? "" : e.rbegin()->first), "max-key", "got " << Hex(mx) << " in {" << MStr(e) << "}");
    // iterators, both directions
    {
      dingodb::IteratorOptions o;
      o.upper_bound = mvcc::Codec::EncodeBytes(b);
      auto it = rd->NewIterator(cf, ts, o);
      auto w = e.begin();
      for (it->Seek(mvcc::Codec::EncodeBytes(a)); it->Valid(); it->Next(), ++w) {
        VT_CHECK(w != e.end(), "iter-extra", "forward iterator yields more than visible");
        std::string k;
        int64_t t;
        mvcc::Codec::DecodeKey(it->Key(), k, t);
        VT_CHECK(k == w->first && mvcc::Codec::UnPackageValue(it->Value()) == w->second, "iter-forward", "at " << Hex(k) << " want " << Hex(w->first));
      }
      VT_CHECK(w == e.end(), "iter-missing", "forward iterator stopped early before " << Hex(w->first));
    }
    {
      dingodb::IteratorOptions o;
      o.lower_bound = mvcc::Codec::EncodeBytes(a);
      auto it = rd->NewIterator(cf, ts, o);
      auto w = e.rbegin();
      for (it->SeekForPrev(mvcc::Codec::EncodeBytes(b)); it->Valid(); it->Prev(), ++w) {
        std::string k;
        int64_t t;
        mvcc::Codec::DecodeKey(it->Key(), k, t);
        VT_CHECK(w != e.rend(), "riter-extra", "backward iterator yields extra " << Hex(k));
        VT_CHECK(k == w->first && mvcc::Codec::UnPackageValue(it->Value()) == w->second, "iter-backward", "at " << Hex(k) << " want " << Hex(w->first) << "=" << Hex(w->second));
      }
      VT_CHECK(w == e.rend(), "riter-missing", "backward iterator stopped early before " << Hex(w->first));
    }
    if (multi && dead && ts > 0) s.NonTrivial(MStr(e) + std::to_string(ts));
  }
}
VT_SUB("C06", "kv", 3) { Versions(s, 0); }
VT_SUB("C06", "vector", 1) { Versions(s, 1); }
VT_SUB("C06", "document", 1) { Versions(s, 2); }

// ---- C07 scan sessions
VT_PROPERTY("C07", 20000, 500000, "the scan took at least two pages and data changed while it was open")
static void Scan(Src& s, bool v2) {
  World w = Setup(s, s.Bool());
  auto& st = env::St();
  // server-side page limits
  int64_t bytes = s.Chance(1, 3) ? s.Range(1, 60) : 4194304, cnt = s.Chance(1, 4) ? s.Range(1, 3) : 1000;
  auto lim = [&](auto& m) {
    m.max_bytes_rpc = bytes;
    m.max_fetch_cnt_by_server = cnt;
  };
  lim(ScanManager::GetInstance());
  lim(ScanManagerV2::GetInstance());
  s.Note("byte limit " + std::to_string(bytes) + " server row limit " + std::to_string(cnt));
  auto put = [&](const std::string& k) {
    auto c = env::Ctx(w.r);
    std::vector<pb::common::KeyValue> kvs{KV(k, Val(s))};
    w.cur[k] = kvs[0].value();
    st.KvPut(c, kvs);
  };
  auto del = [&](const std::string& k) {
    auto c = env::Ctx(w.r);
    std::vector<bool> states;
    st.KvDelete(c, {k}, states);
    w.cur.erase(k);
  };
  for (auto& k : w.keys) {
    if (s.Chance(4, 5)) put(k);
    if (s.Chance(1, 5)) put(k);
    if (s.Chance(1, 6)) del(k);
  }
  int64_t ts = 0;
  M at = w.cur;
  if (s.Chance(1, 3)) {
    ts = Ts();
    for (auto& k : w.keys)
      if (s.Chance(1, 3)) s.Bool() ? put(k) : del(k);
  }
  struct Sess {
    std::string id;
    int64_t id2;
    M want;
    std::string a, b;
    bool key_only, done = false, auto_rel;
    M got;
    std::string last;
    int pages = 0;
    bool mutated = false;
  };
  std::vector<Sess> ss;
  auto absorb = [&](Sess& x, const std::vector<pb::common::KeyValue>& kvs, int64_t limit) {
    VT_CHECK((int64_t)kvs.size() <= std::min(limit, cnt), "page-size", "page of " << kvs.size() << " > " << limit);
    if (bytes < 100) {  // only the row that reaches the byte limit may go past it
      int64_t sz = 0;
      for (size_t i = 0; i < kvs.size(); i++) {
        VT_CHECK(sz < bytes, "page-bytes", "page continues after " << sz << " bytes with limit " << bytes);
        sz += kvs[i].key().size() + kvs[i].value().size();
      }
    }
    for (auto& kv : kvs) {
      VT_CHECK(x.got.empty() || x.last < kv.key(), "scan-order", Hex(x.last) << " then " << Hex(kv.key()));
      x.last = kv.key();
      x.got[kv.key()] = kv.value();
      VT_CHECK(!x.key_only || kv.value().empty(), "key-only", "value returned in key-only scan");
    }
    x.pages++;
  };
  int steps = s.Range(3, 12);
  bool big = false;
  for (int i = 0; i < steps; i++) {
    size_t op = ss.empty() ? 0 : s.Weighted({2, 6, 3, 1});
    if (op == 0) {
      Sess x;
      x.a = s.Chance(1, 2) ? w.start : s.Pick(w.keys);
      x.b = s.Chance(1, 2) ? w.end : s.Pick(w.keys);
      if (!(x.a < x.b)) continue;
      x.key_only = s.Chance(1, 4);
      x.auto_rel = s.Bool();
      int64_t limit = s.Below(4);
      pb::common::Range rg;
      rg.set_start_key(x.a);
      rg.set_end_key(x.b);
      auto c = env::Ctx(w.r);
      bool at_ts = ts && s.Bool();
      if (at_ts) c->SetTs(ts);
      x.want = Sub(at_ts ? at : w.cur, x.a, x.b);
      std::vector<pb::common::KeyValue> kvs;
      butil::Status rs;
      x.id2 = 7000 + i;
      if (v2)
        rs = st.KvScanBeginV2(c, Constant::kStoreDataCF, w.r->Id(), rg, limit, x.key_only, !x.auto_rel, true, pb::common::CoprocessorV2(), x.id2, &kvs);
      else
        rs = st.KvScanBegin(c, Constant::kStoreDataCF, w.r->Id(), rg, limit, x.key_only, !x.auto_rel, true, pb::store::Coprocessor(), &x.id, &kvs);
      VT_CHECK(rs.ok(), "begin-status", rs.error_str());
      s.Note("begin limit " + std::to_string(limit));
      absorb(x, kvs, limit);
      if (x.key_only)
        for (auto& [k, v] : x.want) v.clear();
      ss.push_back(x);
    } else if (op == 1) {
      auto& x = ss[s.Below(ss.size())];
      int64_t limit = 1 + s.Below(3);
      std::vector<pb::common::KeyValue> kvs;
      bool more = false;
      auto rs = v2 ? st.KvScanContinueV2(env::Ctx(w.r), x.id2, limit, &kvs, more) : st.KvScanContinue(env::Ctx(w.r), x.id, limit, &kvs, more);
      VT_CHECK(rs.ok(), "continue-status", rs.error_str());
      s.Note("continue limit " + std::to_string(limit));
      if (x.done) VT_CHECK(kvs.empty(), "after-end", "data returned after the scan reported its end");
      absorb(x, kvs, limit);
      if (!more) x.done = true;
      VT_CHECK(!more || !kvs.empty(), "no-progress", "empty page that claims more");
      for (auto& [k, v] : x.got) VT_CHECK(x.want.count(k) && x.want[k] == v, "scan-content", "key " << Hex(k) << " value " << Hex(v) << " not in the snapshot");
      if (x.done) VT_CHECK(x.got == x.want, "scan-incomplete", "want {" << MStr(x.want) << "} got {" << MStr(x.got) << "}");
      if (x.pages >= 2 && x.mutated) big = true;
    } else if (op == 2) {
      auto k = s.Pick(w.keys);
      s.Bool() ? put(k) : del(k);
      for (auto& x : ss) x.mutated = true;
      s.Note("mutate " + Hex(k));
    } else {
      size_t j = s.Below(ss.size());
      auto& x = ss[j];
      auto rs = v2 ? st.KvScanReleaseV2(env::Ctx(w.r), x.id2) : st.KvScanRelease(env::Ctx(w.r), x.id);
      VT_CHECK(rs.ok(), "release-status", rs.error_str());
      std::vector<pb::common::KeyValue> kvs;
      bool more;
      auto r2 = v2 ? st.KvScanContinueV2(env::Ctx(w.r), x.id2, 1, &kvs, more) : st.KvScanContinue(env::Ctx(w.r), x.id, 1, &kvs, more);
      VT_CHECK(!r2.ok() && kvs.empty(), "use-after-release", "released scan still answers");
      ss.erase(ss.begin() + j);
    }
  }
  // drain what is left
  for (auto& x : ss) {
    for (int g = 0; !x.done && g < 100; g++) {
      std::vector<pb::common::KeyValue> kvs;
      bool more = false;
      auto rs = v2 ? st.KvScanContinueV2(env::Ctx(w.r), x.id2, 2, &kvs, more) : st.KvScanContinue(env::Ctx(w.r), x.id, 2, &kvs, more);
      VT_CHECK(rs.ok(), "continue-status", rs.error_str());
      absorb(x, kvs, 2);
      x.done = !more;
    }
    VT_CHECK(x.got == x.want, "scan-incomplete", "want {" << MStr(x.want) << "} got {" << MStr(x.got) << "}");
    if (v2)
      ScanManagerV2::GetInstance().DeleteScan(x.id2);
    else
      ScanManager::GetInstance().DeleteScan(x.id);
    if (x.pages >= 2 && x.mutated) big = true;
  }
  for (int64_t i = 7000; i < 7020; i++) ScanManagerV2::GetInstance().DeleteScan(i);
  if (big) s.NonTrivial(MStr(w.cur));
}
VT_SUB("C07", "v1", 1) { Scan(s, false); }
VT_SUB("C07", "v2", 1) { Scan(s, true); }

DECLARE_int32(minloglevel);

int main(int argc, char** argv) {
  FLAGS_minloglevel = getenv("VT_LOG") ? 0 : 3;
  return vt::Main(argc, argv);
}
