// C08 vector arithmetic kernels, C09 latches, C10 task execution, C11 shared containers and registries.
#include <sys/mman.h>

#include <cmath>
#include <cstring>

#include "common/failpoint.h"
#include "common/latch.h"
#include "common/runnable.h"
#include "common/safe_map.h"
#include "common/slice.h"
#include "common/stream.h"
#include "common/synchronization.h"
#include "common/threadpool.h"
#include "meta/store_meta_manager.h"
#include "vsched.h"
#include "server/service_helper.h"
#include "simd/distances_avx.h"
#include "simd/distances_avx512.h"
#include "simd/distances_ref.h"
#include "simd/distances_sse.h"
#include "simd/hook.h"
#include "vt.h"

namespace dingodb {
DECLARE_uint32(stream_expire_interval_ms);
DECLARE_int64(stream_message_max_bytes);
DECLARE_int64(stream_message_max_limit_size);
}  // namespace dingodb
using namespace dingodb;

// ------------------------------------------------------------------------------------------------ C08
namespace {
// floats that end exactly at an unmapped page (or start right behind one)
struct Guarded {
  char* base;
  size_t pages, n;
  float* p;
  static constexpr size_t P = 4096;
  Guarded(size_t nfloats, bool at_end, size_t skew) : n(nfloats) {
    pages = (nfloats * 4 + 64) / P + 1;
    base = (char*)mmap(nullptr, (pages + 2) * P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(base, P, PROT_NONE);
    mprotect(base + (pages + 1) * P, P, PROT_NONE);
    if (at_end)
      p = (float*)(base + (pages + 1) * P) - nfloats;
    else
      p = (float*)(base + P) + skew;
  }
  Guarded(const Guarded&) = delete;
  ~Guarded() { munmap(base, (pages + 2) * P); }
};
size_t Dim(vt::Src& s) {
  switch (s.Below(4)) {
    case 0: return s.Range(1, 17);
    case 1: return s.OneOf<size_t>({1, 2, 4, 8, 12, 16, 32, 64, 128});
    case 2: return s.Range(1, 70);
    default: return s.Range(1, 300);
  }
}
// mode 0: small integers, every partial result exact; mode 1: reals
float Val(vt::Src& s, int mode) {
  if (mode == 0) return (float)s.Range(-8, 8);
  if (mode == 2) return s.Chance(1, 3) ? 0.f : (float)s.Range(-1, 1);
  return (float)s.Range(-1000000, 1000000) / (float)(1 << s.Below(20));
}
void Fill(vt::Src& s, Guarded& g, int mode) {
  for (size_t i = 0; i < g.n; i++) g.p[i] = Val(s, mode);
}
using F2 = float (*)(const float*, const float*, size_t);
struct Kern {
  const char* name;
  F2 ref, sse, avx, avx512, hook;
};
enum { L2, IP, L1, LI };
void Expect(int k, const float* x, const float* y, size_t d, double& v, double& scale) {
  v = 0;
  scale = 0;
  for (size_t i = 0; i < d; i++) {
    double a = x[i], b = y[i], t;
    switch (k) {
      case L2: t = (a - b) * (a - b); v += t; scale += t; break;
      case IP: t = a * b; v += t; scale += std::fabs(t); break;
      case L1: t = std::fabs(a - b); v += t; scale += t; break;
      default: t = std::fabs(a - b); v = std::max(v, t); scale = v; break;
    }
  }
}
bool Close(int mode, float got, double want, double scale, size_t d) {
  if (mode != 1) return (double)got == want;
  // |a-b| itself carries a relative rounding of 2^-24, squares two of them, sums d of them
  return std::fabs((double)got - want) <= scale * (double)(d + 8) * 6e-8 + 1e-30;
}
struct Variant {
  const char* name;
  bool avail;
};
}  // namespace

VT_PROPERTY("C08", 600000, 20000000, "distinct cases whose vectors contain at least two different nonzero components")

static void NT(vt::Src& s, const Guarded& a, const Guarded& b, size_t d) {
  std::set<float> v;
  for (size_t i = 0; i < a.n && v.size() < 3; i++)
    if (a.p[i] != 0) v.insert(a.p[i]);
  if (v.size() < 2) return;
  uint64_t h = d;
  for (size_t i = 0; i < a.n; i++) h = vt::Mix(h ^ (uint64_t)(int64_t)(a.p[i] * 1024));
  for (size_t i = 0; i < b.n; i++) h = vt::Mix(h ^ (uint64_t)(int64_t)(b.p[i] * 1024));
  s.NonTrivial(h);
}
static void PickHooks(vt::Src& s) {
  // the process chooses its kernels from these flags and the processor
  use_avx512 = s.Bool();
  use_avx2 = s.Bool();
  use_sse4_2 = s.Bool();
  std::string t, t2;
  fvec_hook(t);
  fvec_hook_info(t2);
  VT_CHECK(t == t2, "hook-info", "hooked " << t << " but reports " << t2);
  std::string want = use_avx512 && cpu_support_avx512() ? "AVX512" : use_avx2 && cpu_support_avx2() ? "AVX2" : use_sse4_2 && cpu_support_sse4_2() ? "SSE4_2" : "GENERIC";
  VT_CHECK(t == want, "hook-choice", "hooked " << t << " with avx512=" << use_avx512 << " avx2=" << use_avx2 << " sse=" << use_sse4_2);
  s.Tag("hook:" + t);
}

VT_SUB("C08", "distance", 5) {
  PickHooks(s);
  static const Kern kk[4] = {
      {"L2sqr", fvec_L2sqr_ref, fvec_L2sqr_sse, fvec_L2sqr_avx, fvec_L2sqr_avx512, nullptr},
      {"inner_product", fvec_inner_product_ref, fvec_inner_product_sse, fvec_inner_product_avx, fvec_inner_product_avx512, nullptr},
      {"L1", fvec_L1_ref, fvec_L1_sse, fvec_L1_avx, fvec_L1_avx512, nullptr},
      {"Linf", fvec_Linf_ref, fvec_Linf_sse, fvec_Linf_avx, fvec_Linf_avx512, nullptr}};
  F2 hooks[4] = {fvec_L2sqr, fvec_inner_product, fvec_L1, fvec_Linf};
  size_t d = Dim(s);
  int mode = (int)s.Weighted({3, 2, 1});
  Guarded x(d, s.Bool(), s.Below(4)), y(d, s.Bool(), s.Below(4));
  Fill(s, x, mode);
  Fill(s, y, mode);
  if (s.Chance(1, 6)) memcpy(y.p, x.p, d * 4);
  s.Note("d=" + std::to_string(d) + " mode=" + std::to_string(mode));
  NT(s, x, y, d);
  for (int k = 0; k < 4; k++) {
    double v, sc;
    Expect(k, x.p, y.p, d, v, sc);
    Variant va[5] = {{"ref", true}, {"sse", cpu_support_sse4_2()}, {"avx", cpu_support_avx2()}, {"avx512", cpu_support_avx512()}, {"hooked", true}};
    F2 fs[5] = {kk[k].ref, kk[k].sse, kk[k].avx, kk[k].avx512, hooks[k]};
    for (int i = 0; i < 5; i++) {
      if (!va[i].avail) continue;
      float got = fs[i](x.p, y.p, d);
      VT_CHECK(Close(mode, got, v, sc, d), std::string("value-") + kk[k].name + "-" + va[i].name, kk[k].name << " " << va[i].name << " d=" << d << " got " << got << " want " << v);
      VT_CHECK(fs[i](y.p, x.p, d) == got || mode == 1, "asymmetric", kk[k].name << " " << va[i].name << " d=" << d);
    }
  }
  double nv = 0;
  for (size_t i = 0; i < d; i++) nv += (double)x.p[i] * x.p[i];
  for (auto f : {fvec_norm_L2sqr_ref, fvec_norm_L2sqr_sse, fvec_norm_L2sqr}) {
    float got = f(x.p, d);
    VT_CHECK(Close(mode, got, nv, nv, d), "value-norm", "norm d=" << d << " got " << got << " want " << nv);
  }
}
VT_SUB("C08", "batch", 3) {
  PickHooks(s);
  size_t d = s.Chance(2, 3) ? s.OneOf<size_t>({1, 2, 4, 8, 12}) : Dim(s) % 40 + 1;
  size_t ny = s.Range(0, 13);
  int mode = (int)s.Weighted({3, 1, 1});
  Guarded x(d, true, 0), y(d * ny, s.Bool(), s.Below(4));
  Fill(s, x, mode);
  Fill(s, y, mode);
  s.Note("d=" + std::to_string(d) + " ny=" + std::to_string(ny));
  NT(s, y, x, d);
  using FN = void (*)(float*, const float*, const float*, size_t, size_t);
  FN fs[2][3] = {{fvec_L2sqr_ny_ref, fvec_L2sqr_ny_sse, fvec_L2sqr_ny}, {fvec_inner_products_ny_ref, fvec_inner_products_ny_sse, fvec_inner_products_ny}};
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < 3; i++) {
      Guarded dis(ny, s.Bool(), 0);
      fs[k][i](dis.p, x.p, y.p, d, ny);
      for (size_t j = 0; j < ny; j++) {
        double v, sc;
        Expect(k, x.p, y.p + j * d, d, v, sc);
        VT_CHECK(Close(mode, dis.p[j], v, sc, d), std::string("batch-") + (k ? "ip" : "l2"), "variant " << i << " d=" << d << " row " << j << "/" << ny << " got " << dis.p[j] << " want " << v);
      }
    }
}
VT_SUB("C08", "madd", 3) {
  PickHooks(s);
  size_t n = s.Bool() ? s.Range(0, 12) * 4 : s.Range(0, 40);
  int mode = (int)s.Weighted({2, 1, 1});
  bool al = s.Chance(2, 3);
  auto sk = [&] { return al ? 0 : s.Below(4); };
  Guarded a(n, false, sk()), b(n, false, sk()), c(n, false, sk());
  Fill(s, a, mode);
  Fill(s, b, mode);
  float bf = Val(s, mode);
  s.Note("n=" + std::to_string(n) + " bf=" + std::to_string(bf));
  NT(s, a, b, n);
  auto want = [&](size_t i) { return (double)a.p[i] + (double)bf * b.p[i]; };
  auto ok = [&](float got, size_t i) { return Close(mode, got, want(i), std::fabs(a.p[i]) + std::fabs((double)bf * b.p[i]), 4); };
  for (auto f : {fvec_madd_ref, fvec_madd_sse, fvec_madd}) {
    for (size_t i = 0; i < n; i++) c.p[i] = -77;
    f(n, a.p, bf, b.p, c.p);
    for (size_t i = 0; i < n; i++) VT_CHECK(ok(c.p[i], i), "madd", "n=" << n << " i=" << i << " got " << c.p[i] << " want " << want(i));
  }
  for (auto f : {fvec_madd_and_argmin_ref, fvec_madd_and_argmin_sse, fvec_madd_and_argmin}) {
    for (size_t i = 0; i < n; i++) c.p[i] = -77;
    int m = f(n, a.p, bf, b.p, c.p);
    for (size_t i = 0; i < n; i++) VT_CHECK(ok(c.p[i], i), "madd-argmin", "n=" << n << " i=" << i << " got " << c.p[i] << " want " << want(i));
    if (n == 0) {
      VT_CHECK(m == -1, "argmin-empty", "argmin of nothing is " << m);
      continue;
    }
    VT_CHECK(m >= 0 && m < (int)n, "argmin-range", "argmin " << m << " of " << n);
    for (size_t i = 0; i < n; i++) VT_CHECK(c.p[m] <= c.p[i], "argmin", "n=" << n << " argmin " << m << " value " << c.p[m] << " but [" << i << "]=" << c.p[i]);
  }
}

// ------------------------------------------------------------------------------------------------ C09
VT_PROPERTY("C09", 300000, 5000000, "distinct cases in which at least one command had to wait for another")

namespace {
struct Cmd {
  uint64_t cid;
  std::vector<std::string> keys;
  std::unique_ptr<Lock> lock;
  enum { WAITING, WOKEN, HELD, DONE } st{WOKEN};
  size_t pos{0};  // model: how many of its hashes it owns
  bool queued{false};
};
}  // namespace

VT_SUB("C09", "queue-model", 4) {
  Latches latches(s.OneOf<size_t>({1, 2, 4, 7, 64}));
  std::vector<std::string> pool;
  int np = (int)s.Range(1, 6);
  for (int i = 0; i < np; i++) pool.push_back(std::string(1, 'a' + i));
  std::map<uint64_t, std::deque<uint64_t>> q;  // model: first = owner
  std::map<uint64_t, Cmd> cmds;
  uint64_t next = 1;
  int waits = 0;
  std::string sigt;
  auto acquire = [&](Cmd& c) {
    auto& h = c.lock->requiredHashes;
    size_t owned0 = c.lock->ownedCount;
    VT_CHECK(owned0 == c.pos, "owned", "command " << c.cid << " owns " << owned0 << " expected " << c.pos);
    bool got = latches.Acquire(c.lock.get(), c.cid);
    bool want = true;
    while (c.pos < h.size()) {
      auto& dq = q[h[c.pos]];
      if (dq.empty()) dq.push_back(c.cid);
      if (dq.front() == c.cid) {
        c.pos++;
        continue;
      }
      dq.push_back(c.cid);
      want = false;
      break;
    }
    VT_CHECK(got == want, "acquire", "command " << c.cid << " acquired=" << got << " expected " << want);
    VT_CHECK(c.lock->ownedCount == c.pos, "owned", "command " << c.cid << " owns " << c.lock->ownedCount << " expected " << c.pos);
    VT_CHECK(c.lock->Acquired() == want, "acquired-flag", "command " << c.cid);
    c.st = got ? Cmd::HELD : Cmd::WAITING;
    if (got) {
      for (auto& [id, o] : cmds)
        if (id != c.cid && o.st == Cmd::HELD)
          for (auto& k : o.keys)
            VT_CHECK(std::find(c.keys.begin(), c.keys.end(), k) == c.keys.end(), "exclusion", "commands " << id << " and " << c.cid << " both hold " << k);
    } else
      waits++;
  };
  auto make = [&](const std::vector<std::string>& keys) -> Cmd& {
    auto& c = cmds[next];
    c.cid = next++;
    c.keys = keys;
    c.lock = std::make_unique<Lock>(keys);
    std::set<uint64_t> hs;
    for (auto& k : keys) hs.insert(Lock::Hash(k));
    VT_CHECK(std::set<uint64_t>(c.lock->requiredHashes.begin(), c.lock->requiredHashes.end()) == hs && hs.size() == c.lock->requiredHashes.size(),
             "lock-hashes", "lock does not list each key's hash once");
    VT_CHECK(c.lock->IsWriteLock() == !keys.empty(), "write-lock", "keys " << keys.size());
    return c;
  };
  auto release = [&](Cmd& c, bool keep) {
    std::optional<std::pair<uint64_t, Lock*>> opt;
    Cmd* nc = nullptr;
    if (keep) {
      std::vector<std::string> sub;
      for (auto& k : c.keys)
        if (s.Bool() && std::find(sub.begin(), sub.end(), k) == sub.end()) sub.push_back(k);
      nc = &make(sub);
      opt = std::make_pair(nc->cid, nc->lock.get());
      s.Note("release " + std::to_string(c.cid) + " keeping " + std::to_string(sub.size()) + " for " + std::to_string(nc->cid));
    }
    std::multiset<uint64_t> want;
    for (auto h : c.lock->requiredHashes) {
      auto& dq = q[h];
      dq.pop_front();
      bool kept = nc && std::find(nc->lock->requiredHashes.begin(), nc->lock->requiredHashes.end(), h) != nc->lock->requiredHashes.end();
      if (kept)
        dq.push_front(nc->cid);
      else if (!dq.empty())
        want.insert(dq.front());
    }
    auto w = latches.Release(c.lock.get(), c.cid, opt);
    std::multiset<uint64_t> got(w.begin(), w.end());
    auto str = [](const std::multiset<uint64_t>& m) {
      std::string r;
      for (auto x : m) r += " " + std::to_string(x);
      return r;
    };
    VT_CHECK(got == want, "wakeup", "release of " << c.cid << " wakes" << str(got) << " expected" << str(want));
    c.st = Cmd::DONE;
    for (auto id : want) {
      VT_CHECK(cmds[id].st == Cmd::WAITING, "wakeup-state", "woke " << id << " which does not wait");
      cmds[id].st = Cmd::WOKEN;
    }
    if (nc) acquire(*nc);
  };
  int steps = (int)s.Range(2, 26);
  for (int i = 0; i < steps; i++) {
    std::vector<uint64_t> held, woken;
    for (auto& [id, c] : cmds) {
      if (c.st == Cmd::HELD) held.push_back(id);
      if (c.st == Cmd::WOKEN) woken.push_back(id);
    }
    switch (s.Weighted({4, 3, 3})) {
      case 1:
        if (!held.empty()) {
          release(cmds[s.Pick(held)], s.Chance(1, 4));
          sigt += 'r';
          break;
        }
        [[fallthrough]];
      case 2:
        if (!woken.empty()) {
          auto id = s.Pick(woken);
          s.Note("woken " + std::to_string(id));
          acquire(cmds[id]);
          sigt += 'w';
          break;
        }
        [[fallthrough]];
      default: {
        std::vector<std::string> keys;
        int n = (int)s.Range(0, 4);
        for (int j = 0; j < n; j++) keys.push_back(s.Pick(pool));
        auto& c = make(keys);
        std::string t = "command " + std::to_string(c.cid) + ":";
        for (auto& k : keys) t += " " + k, sigt += k;
        s.Note(t);
        acquire(c);
        sigt += 'a';
      }
    }
  }
  // every command finishes once the holders before it release
  for (;;) {
    Cmd* pick = nullptr;
    for (auto& [id, c] : cmds)
      if (c.st == Cmd::HELD || c.st == Cmd::WOKEN) pick = &c;
    if (!pick) break;
    if (pick->st == Cmd::HELD)
      release(*pick, false);
    else
      acquire(*pick);
  }
  for (auto& [id, c] : cmds) VT_CHECK(c.st == Cmd::DONE, "stuck", "command " << id << " never gets its latches");
  if (waits) s.NonTrivial(sigt);
}

VT_SUB("C09", "threads", 3) {
  static auto region = [] {
    pb::common::RegionDefinition def;
    def.mutable_range()->set_start_key("r1");
    def.mutable_range()->set_end_key("r2");
    def.set_id(1001);
    auto r = store::Region::New(def);
    return r;
  }();
  int nt = (int)s.Range(2, 4), np = (int)s.Range(1, 3);
  std::vector<std::vector<std::vector<std::string>>> plan(nt);
  std::string sigt;
  for (auto& t : plan) {
    int ops = (int)s.Range(1, 3);
    for (int i = 0; i < ops; i++) {
      std::vector<std::string> keys;
      int n = (int)s.Range(1, 3);
      for (int j = 0; j < n; j++) keys.push_back(std::string(1, 'a' + s.Below(np)));
      for (auto& k : keys) sigt += k;
      sigt += ',';
      t.push_back(keys);
    }
    sigt += ';';
  }
  s.Note(sigt);
  std::map<std::string, int> inside;
  bool contended = false;
  uint64_t sw = 0;
  sched::Run(s, [&] {
    std::vector<std::unique_ptr<sched::Thread>> th;
    for (int t = 0; t < nt; t++)
      th.push_back(std::make_unique<sched::Thread>([&, t] {
        for (auto& keys : plan[t]) {
          auto ctx = std::make_shared<LatchContext>(region, keys);
          ServiceHelper::LatchesAcquire(*ctx, t % 2);
          std::set<std::string> ks(keys.begin(), keys.end());
          for (auto& k : ks) {
            int n = ++inside[k];
            VT_CHECK(n == 1, "exclusion", "two commands inside the latch of " << k);
          }
          for (int i = 0; i < 2; i++) sched::Point();
          for (auto& k : ks) inside[k]--;
          for (auto& o : sched::g->th) contended |= o->st == sched::COND;
          ServiceHelper::LatchesRelease(*ctx);
        }
      }));
    for (auto& t : th) t->Join();
    sw = sched::g->switches;
  });
  if (contended) s.NonTrivial(sigt + std::to_string(sw));
}

// ------------------------------------------------------------------------------------------------ C10
VT_PROPERTY("C10", 150000, 3000000, "distinct schedules with at least two tasks and four context switches")

namespace {
struct Board {
  int64_t begun{0};      // Execute calls that may have queued a task
  int64_t accepted{0};   // Execute calls that returned true
  int64_t run_done{0};   // tasks whose Run returned
  std::map<int, int> runs;
  std::vector<int> order;
  std::map<int64_t, std::vector<std::pair<int, int>>> region_order;  // region -> (producer, seq)
  std::map<int64_t, int> active;
};
class Probe : public TaskRunnable {
 public:
  Probe(std::function<void()> f) : f_(std::move(f)) {}
  std::string Type() override { return "PROBE"; }
  void Run() override { f_(); }
  std::string Trace() override { return "t" + std::to_string(Id()); }

 private:
  std::function<void()> f_;
};
void Work(vt::Src& s, int kind) {
  for (int i = 0; i < kind % 3; i++) sched::Point();
  if (kind >= 3) bthread_usleep(100);
}
}  // namespace

VT_SUB("C10", "worker-sets", 6) {
  int kind = (int)s.Below(3);  // execution queue, simple, priority
  int workers = (int)s.Range(1, 3), producers = (int)s.Range(1, 3);
  int64_t maxp = s.Chance(1, 3) ? 0 : s.Range(1, 7);
  bool pth = s.Bool(), inplace = kind && s.Chance(1, 3);
  struct Item {
    int how, region, prio, work;
    bool nested;
  };
  std::vector<std::vector<Item>> plan(producers);
  std::string sigt = std::to_string(kind) + "," + std::to_string(workers) + "," + std::to_string(maxp) + (inplace ? "i" : "") + ":";
  for (auto& p : plan) {
    int n = (int)s.Range(1, 6);
    for (int i = 0; i < n; i++) {
      p.push_back({(int)s.Below(4), (int)s.Below(3), (int)s.Below(4), (int)s.Below(5), kind == 0 && s.Chance(1, 8)});
      sigt += std::to_string(p.back().how) + std::to_string(p.back().work);
    }
    sigt += ';';
  }
  s.Note(sigt);
  Board b;
  int total = 0;
  uint64_t sw = 0;
  sched::Run(s, [&] {
    WorkerSetPtr ws = kind == 0   ? ExecqWorkerSet::New("w", workers, maxp)
                      : kind == 1 ? SimpleWorkerSet::New("w", workers, maxp, pth, inplace)
                                  : PriorWorkerSet::New("w", workers, maxp, pth, inplace);
    VT_CHECK(ws->Init(), "init", "worker set does not start");
    std::function<void(int, int, Item)> submit = [&](int prod, int seq, Item it) {
      int id = total++;
      auto task = std::make_shared<Probe>([&, id, it, prod, seq] {
        if (++b.runs[id] > 1) vt::Failf("twice", "task runs twice");
        if (it.how == 3 && kind == 0) {
          VT_CHECK(++b.active[it.region] == 1, "region-overlap", "two tasks of region " << it.region << " run at once");
          b.region_order[it.region].push_back({prod, seq});
        }
        Work(s, it.work);
        if (it.how == 3 && kind == 0) b.active[it.region]--;
        b.run_done++;
        if (it.nested) {
          Item n = it;
          n.nested = false;
          n.how = 0;
          submit(100 + prod, seq, n);
        }
      });
      task->SetPriority(it.prio);
      int64_t returned0 = b.accepted, done0 = b.run_done;
      b.begun++;
      bool ok = it.how == 0   ? ws->Execute(task)
                : it.how == 1 ? ws->ExecuteRR(task)
                : it.how == 2 ? ws->ExecuteLeastQueue(task)
                              : ws->ExecuteHashByRegionId(it.region, task);
      if (ok) {
        b.accepted++;
        b.runs[id] += 0;
        // definitely more waiting than allowed for the whole call: it had to be refused
        if (maxp > 0) VT_CHECK(returned0 - b.run_done <= maxp, "overload", "accepted with " << returned0 - b.run_done << " unfinished, limit " << maxp);
      } else {
        b.begun--;
        VT_CHECK(maxp > 0, "rejected-unlimited", "rejected without a limit");
        VT_CHECK(b.begun - done0 + workers + (inplace ? producers : 0) > maxp, "rejected-idle", "rejected with at most " << b.begun - done0 << " unfinished tasks, limit " << maxp);
        VT_CHECK(b.runs.count(id) == 0, "rejected-ran", "rejected task ran");
        b.runs[id] = 1 << 20;
      }
    };
    std::vector<std::unique_ptr<sched::Thread>> th;
    for (int p = 0; p < producers; p++)
      th.push_back(std::make_unique<sched::Thread>([&, p] {
        for (size_t i = 0; i < plan[p].size(); i++) {
          submit(p, (int)i, plan[p][i]);
          if (plan[p][i].work == 4) bthread_usleep(50);
        }
      }));
    for (auto& t : th) t->Join();
    if (s.Bool() || total != (int)b.runs.size()) bthread_usleep(100000);
    while (b.run_done < b.accepted && kind == 0) bthread_usleep(1000);  // nested tasks are accepted before their set stops
    ws->Destroy();
    VT_CHECK(b.run_done == b.accepted, "lost", b.accepted << " tasks accepted, " << b.run_done << " ran before the set stopped");
    VT_CHECK((int64_t)ws->PendingTaskCount() == 0, "pending", "pending count is " << (int64_t)ws->PendingTaskCount() << " when all is done");
    VT_CHECK((int64_t)ws->TotalTaskCount() == b.accepted, "total", "total count " << ws->TotalTaskCount() << " accepted " << b.accepted);
    for (auto& tr : ws->GetPendingTaskTrace()) VT_CHECK(tr.empty(), "trace", "finished task still listed as pending");
    sw = sched::g->switches;
  });
  for (auto& [id, n] : b.runs) VT_CHECK(n == 1 || n == 1 << 20, "count", "task ran " << n << " times");
  for (auto& [r, v] : b.region_order) {
    std::map<int, int> last;
    for (auto& [p, q] : v) {
      VT_CHECK(!last.count(p) || last[p] < q, "region-order", "tasks of region " << r << " from one caller ran out of order");
      last[p] = q;
    }
  }
  s.Tag("tasks", total);
  if (total >= 2 && sw >= 4) s.NonTrivial(sigt + std::to_string(sw) + "/" + std::to_string(s.rec_.size()));
}
VT_SUB("C10", "priority", 2) {
  bool pool = s.Bool(), pth = s.Bool();
  int n = (int)s.Range(2, 8);
  std::vector<int> prio, order;
  std::string sigt = pool ? "p" : "w";
  for (int i = 0; i < n; i++) prio.push_back((int)s.Range(-2, 4)), sigt += std::to_string(prio.back());
  s.Note(sigt);
  uint64_t sw = 0;
  sched::Run(s, [&] {
    bool open = false;
    auto gate = [&] {
      while (!open) bthread_usleep(10);
    };
    if (pool) {
      ThreadPool tp("p", 1);
      bool started = false;
      tp.ExecuteTask([&](void*) { started = true, gate(); }, nullptr, 100);
      while (!started) bthread_usleep(10);
      for (int i = 0; i < n; i++) tp.ExecuteTask([&, i](void*) { order.push_back(i); }, nullptr, prio[i]);
      open = true;
      tp.Destroy();
    } else {
      auto ws = PriorWorkerSet::New("w", 1, 0, pth, false);
      ws->Init();
      bool started = false;
      ws->Execute(std::make_shared<Probe>([&] { started = true, gate(); }));
      while (!started) bthread_usleep(10);
      for (int i = 0; i < n; i++) {
        auto t = std::make_shared<Probe>([&, i] { order.push_back(i); });
        t->SetPriority(prio[i]);
        ws->Execute(t);
      }
      open = true;
      ws->Destroy();
    }
    sw = sched::g->switches;
  });
  VT_CHECK((int)order.size() == n, "lost", order.size() << " of " << n << " tasks ran");
  for (int i = 1; i < n; i++)
    VT_CHECK(prio[order[i - 1]] >= prio[order[i]], "priority", (pool ? "thread pool" : "priority worker set") << " ran a task of priority " << prio[order[i - 1]] << " before one of " << prio[order[i]]);
  if (sw >= 2) s.NonTrivial(sigt);
}
VT_SUB("C10", "thread-pool", 4) {
  int size = (int)s.Range(1, 3), producers = (int)s.Range(1, 2), adj = (int)s.Range(0, 3);
  std::vector<std::vector<std::pair<int, int>>> plan(producers);  // work kind, option
  std::string sigt = std::to_string(size) + ":";
  for (auto& p : plan) {
    int n = (int)s.Range(1, 5);
    for (int i = 0; i < n; i++) p.push_back({(int)s.Below(5), (int)s.Below(4)}), sigt += std::to_string(p.back().first) + std::to_string(p.back().second);
    sigt += ';';
  }
  std::vector<int> sizes;
  for (int i = 0; i < adj; i++) sizes.push_back((int)s.Range(0, 4)), sigt += "s" + std::to_string(sizes.back());
  if (adj) sizes.push_back((int)s.Range(1, 3));
  s.Note(sigt);
  std::map<int, int> runs;
  int total = 0;
  uint64_t sw = 0;
  sched::Run(s, [&] {
    int inits = 0;
    ThreadPool tp("p", size, [&] { inits++; });
    std::vector<std::unique_ptr<sched::Thread>> th;
    for (int p = 0; p < producers; p++)
      th.push_back(std::make_unique<sched::Thread>([&, p] {
        for (auto& [work, opt] : plan[p]) {
          int id = total++;
          runs[id] = 0;
          auto t = tp.ExecuteTask(
              [&, id, work = work, opt = opt](void* arg) {
                VT_CHECK(arg == &runs, "arg", "task got another argument");
                runs[id]++;
                Work(s, work);
                if (opt == 2) throw std::runtime_error("task throws");
              },
              &runs, opt);
          VT_CHECK(t != nullptr, "refused", "running pool refused a task");
          if (opt == 1) {
            t->Join();
            VT_CHECK(runs[id] == 1, "join", "Join returned but the task ran " << runs[id] << " times");
          }
        }
      }));
    for (auto n : sizes) {
      tp.AdjustPoolSize(n);
      VT_CHECK(tp.workers_.size() == (size_t)n, "size", "pool has " << tp.workers_.size() << " threads, asked for " << n);
      sched::Point();
    }
    for (auto& t : th) t->Join();
    tp.Destroy();
    for (auto& [id, n] : runs) VT_CHECK(n == 1, "count", "task ran " << n << " times before the pool was gone");
    VT_CHECK(tp.PendingTaskCount() == 0, "pending", "pending " << tp.PendingTaskCount());
    VT_CHECK((int)tp.TotalTaskCount() == total, "total", "total " << tp.TotalTaskCount() << " of " << total);
    VT_CHECK(tp.ExecuteTask([](void*) {}, nullptr) == nullptr, "after-destroy", "destroyed pool accepts a task");
    sw = sched::g->switches;
  });
  if (total >= 2 && sw >= 4) s.NonTrivial(sigt + std::to_string(sw) + "/" + std::to_string(s.rec_.size()));
}
VT_SUB("C10", "rwlock", 3) {
  int nt = (int)s.Range(2, 4);
  std::vector<std::vector<int>> plan(nt);
  std::string sigt;
  for (auto& p : plan) {
    int n = (int)s.Range(1, 4);
    for (int i = 0; i < n; i++) p.push_back((int)s.Below(4)), sigt += std::to_string(p.back());
    sigt += ';';
  }
  s.Note(sigt);
  int readers = 0, writers = 0;
  uint64_t sw = 0;
  bool waited = false;
  sched::Run(s, [&] {
    RWLock lk;
    std::vector<std::unique_ptr<sched::Thread>> th;
    for (int t = 0; t < nt; t++)
      th.push_back(std::make_unique<sched::Thread>([&, t] {
        for (int k : plan[t]) {
          if (k & 1) {
            RWLockWriteGuard g(&lk);
            writers++;
            VT_CHECK(writers == 1 && readers == 0, "exclusion", writers << " writers and " << readers << " readers inside");
            if (k & 2) sched::Point(), sched::Point();
            VT_CHECK(writers == 1 && readers == 0, "exclusion", writers << " writers and " << readers << " readers inside");
            writers--;
          } else {
            RWLockReadGuard g(&lk);
            readers++;
            VT_CHECK(writers == 0, "exclusion", "reader next to a writer");
            if (k & 2) sched::Point(), sched::Point();
            VT_CHECK(writers == 0, "exclusion", "reader next to a writer");
            readers--;
          }
          for (auto& o : sched::g->th) waited |= o->st == sched::COND;
        }
      }));
    for (auto& t : th) t->Join();
    sw = sched::g->switches;
  });
  if (waited) s.NonTrivial(sigt + std::to_string(sw));
}
VT_SUB("C10", "signals", 2) {
  // a counted condition: waiters go on exactly when enough signals came; a resource pool hands out each item to one taker
  int n = (int)s.Range(1, 4);
  bool bc = s.Bool();
  int items = (int)s.Range(1, 3), takers = (int)s.Range(2, 4);
  s.Note("n=" + std::to_string(n) + " items=" + std::to_string(items) + " takers=" + std::to_string(takers));
  uint64_t sw = 0;
  sched::Run(s, [&] {
    BthreadCond c(n);
    int signals = 0;
    ResourcePool<int> rp("p");
    std::map<int, int> held;
    std::vector<std::unique_ptr<sched::Thread>> th;
    th.push_back(std::make_unique<sched::Thread>([&] {
      c.Wait();
      VT_CHECK(signals == n, "early", "wait ended after " << signals << " of " << n << " signals");
    }));
    for (int i = 0; i < n; i++)
      th.push_back(std::make_unique<sched::Thread>([&] {
        signals++;
        bc ? c.DecreaseBroadcast() : c.DecreaseSignal();
      }));
    for (int i = 0; i < takers; i++)
      th.push_back(std::make_unique<sched::Thread>([&] {
        int x = rp.Get();
        VT_CHECK(++held[x] == 1, "shared-item", "item " << x << " handed out twice");
        sched::Point();
        held[x]--;
        rp.Put(x);
      }));
    for (int i = 0; i < items; i++) rp.Put(i);
    for (auto& t : th) t->Join();
    std::set<int> back;
    for (int i = 0; i < items; i++) back.insert(rp.Get());
    VT_CHECK((int)back.size() == items, "item-lost", "items lost");
    sw = sched::g->switches;
  });
  if (sw >= 4) s.NonTrivial(std::to_string(n) + "/" + std::to_string(takers) + "/" + std::to_string(s.rec_.size()));
}

// ------------------------------------------------------------------------------------------------ C11
VT_PROPERTY("C11", 400000, 8000000, "distinct operation histories with at least three operations that change state, or distinct schedules")

template <class M, bool STD>
static void MapCase(vt::Src& s) {
  M m;
  if constexpr (!STD) m.Init(s.OneOf<int>({4, 16, 64}));
  std::map<int64_t, std::string> ref;
  auto key = [&] { return s.Range(-2, 6); };
  auto val = [&] { return std::string(1, 'a' + s.Below(4)); };
  auto same = [&](const std::map<int64_t, std::string>& got, const char* how) { VT_CHECK(got == ref, std::string("content-") + how, how << " shows other content"); };
  std::string t;
  int changes = 0;
  int n = (int)s.Range(3, 24);
  for (int i = 0; i < n; i++) {
    int64_t k = key();
    std::string v = val();
    int op = (int)s.Below(STD ? 18 : 16);
    t += std::to_string(op) + "." + std::to_string(k) + v;
    s.Note(std::to_string(op) + " " + std::to_string(k) + " " + v);
    bool has = ref.count(k);
    switch (op) {
      case 0: {
        std::string g = "zz";
        int r = m.Get(k, g);
        VT_CHECK(r == (has ? 1 : -1) && (!has || g == ref[k]), "get", "get " << k << " -> " << r << " " << g);
        VT_CHECK(m.Get(k) == (has ? ref[k] : ""), "get-value", "get " << k);
        VT_CHECK(m.Exists(k) == has, "exists", "exists " << k);
        break;
      }
      case 1: {
        std::vector<int64_t> ks = {k, key(), key()};
        std::vector<std::string> vs;
        std::vector<bool> ex;
        VT_CHECK(m.MultiGet(ks, vs, ex) == 1 && vs.size() == 3 && ex.size() == 3, "multi-get", "size");
        for (int j = 0; j < 3; j++) VT_CHECK(ex[j] == (bool)ref.count(ks[j]) && (!ex[j] || vs[j] == ref[ks[j]]), "multi-get", "key " << ks[j]);
        break;
      }
      case 2: {
        std::vector<int64_t> ks, ks2;
        std::vector<std::string> vs, vs2;
        VT_CHECK(m.GetAllKeys(ks) == (int)ref.size(), "all-keys", "count");
        VT_CHECK(m.GetAllKeyValues(ks2, vs) == (int)ref.size(), "all-kv", "count");
        VT_CHECK(ks2.size() == vs.size(), "all-kv", "sizes");
        std::map<int64_t, std::string> g;
        for (size_t j = 0; j < ks2.size(); j++) g[ks2[j]] = vs[j];
        same(g, "GetAllKeyValues");
        g.clear();
        m.GetAllKeyValues(g);
        same(g, "GetAllKeyValues(map)");
        std::multiset<std::string> a, b;
        m.GetAllValues(vs2);
        a.insert(vs2.begin(), vs2.end());
        for (auto& [_, x] : ref) b.insert(x);
        VT_CHECK(a == b, "all-values", "values differ");
        std::set<int64_t> fk, want;
        m.GetAllKeys(fk, [&](std::string x) { return x == v; });
        for (auto& [kk, x] : ref)
          if (x == v) want.insert(kk);
        VT_CHECK(fk == want, "filter", "filtered keys differ");
        VT_CHECK(m.Size() == (int64_t)ref.size(), "size", "size " << m.Size() << " of " << ref.size());
        break;
      }
      case 3:
      case 4:
        VT_CHECK(m.Put(k, v) == 1, "put", "put failed");
        ref[k] = v;
        changes++;
        break;
      case 5: {
        VT_CHECK(m.PutIfAbsent(k, v) == (has ? -1 : 1), "put-if-absent", "key " << k << " present=" << has);
        if (!has) ref[k] = v, changes++;
        break;
      }
      case 6:
        VT_CHECK(m.PutIfExists(k, v) == (has ? 1 : -1), "put-if-exists", "key " << k << " present=" << has);
        if (has) ref[k] = v, changes++;
        break;
      case 7: {
        bool ok = has && ref[k] != v;
        VT_CHECK(m.PutIfNotEqual(k, v) == (ok ? 1 : -1), "put-if-not-equal", "key " << k);
        if (ok) ref[k] = v, changes++;
        break;
      }
      case 8:
      case 9:
        VT_CHECK(m.Erase(k) == 1, "erase", "erase failed");
        ref.erase(k);
        changes++;
        break;
      case 10: {
        std::vector<int64_t> ks;
        std::vector<std::string> vs;
        int c = (int)s.Below(4);
        for (int j = 0; j < c; j++) ks.push_back(key()), vs.push_back(val());
        if (s.Chance(1, 6)) vs.push_back("x");
        bool ok = c > 0 && ks.size() == vs.size();
        VT_CHECK(m.MultiPut(ks, vs) == (ok ? 1 : -1), "multi-put", "sizes " << ks.size() << "/" << vs.size());
        if (ok)
          for (int j = 0; j < c; j++) ref[ks[j]] = vs[j];
        changes++;
        break;
      }
      case 11: {
        std::vector<int64_t> ks;
        int c = (int)s.Below(4);
        for (int j = 0; j < c; j++) ks.push_back(key());
        VT_CHECK(m.MultiErase(ks) == (c ? 1 : -1), "multi-erase", "n=" << c);
        for (auto x : ks) ref.erase(x);
        changes++;
        break;
      }
      case 12:
        if (s.Chance(1, 3)) {
          VT_CHECK(m.Clear() == 1, "clear", "clear failed");
          ref.clear();
          changes++;
        }
        break;
      case 13: {
        typename M::TypeRawMap raw;
        if constexpr (!STD) raw.init(16);
        VT_CHECK(m.GetRawMapCopy(raw) == 1, "raw-copy", "failed");
        std::map<int64_t, std::string> g;
        for (auto it = raw.begin(); it != raw.end(); ++it) g[it->first] = it->second;
        same(g, "GetRawMapCopy");
        raw[k] = v;
        if (s.Bool()) {
          VT_CHECK(m.CopyFromRawMap(raw) == 1, "raw-set", "failed");
          ref[k] = v;
          changes++;
        }
        break;
      }
      case 14:
        if constexpr (!STD) {
          bool ex = !has;
          VT_CHECK(m.SafeExists(k, ex) == 1 && ex == has, "safe-exists", "key " << k);
        } else {
          int64_t f = 99;
          int r = m.GetFirstKey(f);
          VT_CHECK(r == (ref.empty() ? 0 : 1) && (ref.empty() || f == ref.begin()->first), "first-key", r << " " << f);
          r = m.GetLastKey(f);
          VT_CHECK(r == (ref.empty() ? 0 : 1) && (ref.empty() || f == ref.rbegin()->first), "last-key", r << " " << f);
        }
        break;
      case 15:
        if constexpr (STD) {
          std::vector<int64_t> del, put;
          std::vector<std::string> vs;
          int a = (int)s.Below(3), b = (int)s.Below(3);
          for (int j = 0; j < a; j++) del.push_back(key());
          for (int j = 0; j < b; j++) {
            int64_t x = key();
            if (std::find(put.begin(), put.end(), x) == put.end()) put.push_back(x), vs.push_back(val());
          }
          VT_CHECK(m.MultiEraseThenPut(del, put, vs) == 1, "erase-then-put", "failed");
          for (auto x : del) ref.erase(x);
          for (size_t j = 0; j < put.size(); j++) ref[put[j]] = vs[j];
          changes++;
        }
        break;
      case 16:
        if constexpr (STD) {
          int64_t lo = key(), hi = key();
          std::set<int64_t> wk;
          std::vector<int64_t> kk;
          std::vector<std::string> vs, vs2, wv;
          m.GetRangeValues(vs, lo, hi);
          m.GetRangeKeyValues(kk, vs2, lo, hi);
          for (auto& [x, y] : ref)
            if (x >= lo && x < hi) wk.insert(x), wv.push_back(y);
          VT_CHECK(vs == wv && vs2 == wv && std::set<int64_t>(kk.begin(), kk.end()) == wk, "range", "[" << lo << "," << hi << ")");
          kk.clear();
          vs2.clear();
          m.GetRangeKeyValues(kk, vs2, lo, hi, [&](int64_t x) { return x % 2 == 0; }, [&](std::string x) { return x == v; });
          for (auto it = wk.begin(); it != wk.end();) it = (*it % 2 == 0 && ref[*it] == v) ? std::next(it) : wk.erase(it);
          VT_CHECK(std::set<int64_t>(kk.begin(), kk.end()) == wk, "range-filter", "[" << lo << "," << hi << ")");
        }
        break;
      default:
        if constexpr (STD) {
          // interval starts: the interval containing lo, then all that start before hi
          int64_t lo = key(), hi = key();
          std::vector<std::string> vs, wv;
          m.FindIntervalValues(vs, lo, hi);
          if (!ref.empty() && lo < hi) {
            auto it = ref.upper_bound(lo);
            if (it != ref.begin()) --it;
            for (; it != ref.end() && it->first < hi; ++it) wv.push_back(it->second);
          }
          VT_CHECK(vs == wv, "intervals", "[" << lo << "," << hi << ") found " << vs.size() << " expected " << wv.size());
        }
    }
  }
  std::map<int64_t, std::string> g;
  m.GetAllKeyValues(g);
  same(g, "final");
  if (changes >= 3) s.NonTrivial(t);
}
VT_SUB("C11", "safe-map", 4) { MapCase<DingoSafeMap<int64_t, std::string>, false>(s); }
VT_SUB("C11", "safe-std-map", 4) { MapCase<DingoSafeStdMap<int64_t, std::string>, true>(s); }
VT_SUB("C11", "streams", 3) {
  auto save = FLAGS_stream_expire_interval_ms;
  FLAGS_stream_expire_interval_ms = 60000;
  StreamManager mgr;
  struct M {
    uint32_t limit;
    bool old;
    StreamPtr p;
    int seq;
  };
  std::map<std::string, M> ref;
  int n = (int)s.Range(2, 14), changes = 0;
  std::string t;
  for (int i = 0; i < n; i++) {
    int op = (int)s.Below(6);
    t += std::to_string(op);
    pb::stream::StreamRequestMeta meta;
    std::string id;
    if (!ref.empty()) {
      std::vector<std::pair<int, std::string>> ids;  // by age: the ids themselves are random
      for (auto& [k, m] : ref) ids.emplace_back(m.seq, k);
      std::sort(ids.begin(), ids.end());
      id = ids[s.Below(ids.size())].second;
    }
    switch (op) {
      case 0:
      case 1: {
        uint32_t lim = (uint32_t)s.OneOf<int>({0, 1, 5, 1000, 50000});
        meta.set_limit(lim);
        auto p = mgr.GetOrNew(meta);
        VT_CHECK(p && !p->StreamId().empty() && !ref.count(p->StreamId()) && p->Limit() == lim, "new", "new stream");
        ref[p->StreamId()] = {lim, false, p, i};
        for (int j = 0; j < 3; j++) {
          size_t sz = s.OneOf<size_t>({0, 1, 4, 5, 6, 999, 1000, 40959, 40960, 49999}), by = s.OneOf<size_t>({0, 100, 62914559, 62914560});
          bool full = sz >= lim || sz >= (size_t)FLAGS_stream_message_max_limit_size || by >= (size_t)FLAGS_stream_message_max_bytes;
          VT_CHECK(p->Check(sz, by) == full, "limit", "limit " << lim << " rows " << sz << " bytes " << by);
        }
        changes++;
        break;
      }
      case 2: {
        bool known = !id.empty() && s.Chance(3, 4);
        meta.set_stream_id(known ? id : "nobody");
        meta.set_limit(s.Chance(1, 2) && !id.empty() ? ref[id].limit : (uint32_t)s.OneOf<int>({0, 1, 7}));
        auto p = mgr.GetOrNew(meta);
        VT_CHECK((p != nullptr) == known && (!known || p == ref[id].p), "lookup", "stream " << meta.stream_id());
        if (known) {
          ref[id].old = false;
          VT_CHECK(p->Limit() == ref[id].limit, "limit-changed", "limit of a known stream changed");
        }
        break;
      }
      case 3:
        if (!id.empty()) {
          mgr.RemoveStream(ref[id].p);
          ref.erase(id);
          VT_CHECK(mgr.GetStream(id) == nullptr, "removed", "removed stream still found");
          changes++;
        }
        break;
      case 4:
        if (!id.empty()) {
          ref[id].p->last_time_ms_ -= 70000;
          ref[id].old = true;
        }
        break;
      default:
        mgr.RecycleExpireStream();
        for (auto it = ref.begin(); it != ref.end();) {
          bool gone = mgr.GetStream(it->first) == nullptr;
          VT_CHECK(gone == it->second.old, "recycle", "stream idle=" << it->second.old << " recycled=" << gone);
          it = gone ? ref.erase(it) : std::next(it);
        }
        changes++;
    }
    VT_CHECK(mgr.GetStreamCount() == (int64_t)ref.size(), "count", mgr.GetStreamCount() << " of " << ref.size());
  }
  FLAGS_stream_expire_interval_ms = save;
  if (changes >= 3) s.NonTrivial(t);
}
VT_SUB("C11", "failpoints", 3) {
  auto& mgr = FailPointManager::GetInstance();
  for (auto& f : mgr.GetAllFailPoints()) mgr.DeleteFailPoint(f->Name());
  std::map<std::string, std::string> ref;
  struct A {
    uint32_t percent;
    int max;
    std::string type, arg;
  };
  int n = (int)s.Range(1, 8), changes = 0;
  std::string t;
  for (int i = 0; i < n; i++) {
    std::string name = std::string("fp") + (char)('a' + s.Below(3));
    switch (s.Below(4)) {
      case 0:
      case 1: {
        std::vector<A> as;
        std::string cfg;
        int c = (int)s.Range(1, 3);
        for (int j = 0; j < c; j++) {
          A a{100, 0, s.OneOf<const char*>({"sleep", "panic", "print", "yield", "delay"}), ""};
          if (j) cfg += s.OneOf<const char*>({"->", ";", " "});
          if (s.Bool()) {
            a.percent = (uint32_t)s.Range(1, 130);
            cfg += std::to_string(a.percent) + "%";
            a.percent = std::min(a.percent, 100u);
          }
          if (s.Bool()) {
            a.max = (int)s.Range(1, 9);
            cfg += std::to_string(a.max) + "*";
          }
          cfg += a.type;
          if (s.Bool()) {
            a.arg = s.OneOf<const char*>({"100", "hello world", "x_1"});
            cfg += "(" + a.arg + ")";
          }
          as.push_back(a);
        }
        s.Note(name + "=" + cfg);
        t += name + cfg;
        VT_CHECK(mgr.ConfigureFailPoint(name, cfg).ok(), "configure", cfg);
        auto fp = mgr.GetFailPoint(name);
        VT_CHECK(fp && fp->Name() == name && fp->Config() == cfg, "configured", cfg);
        auto got = fp->GetActions();
        VT_CHECK(got.size() == as.size(), "actions", cfg << " gives " << got.size() << " actions");
        for (size_t j = 0; j < as.size(); j++)
          VT_CHECK(got[j]->Percent() == as[j].percent && (int)got[j]->MaxCount() == as[j].max && got[j]->GetType() == as[j].type && got[j]->Arg() == as[j].arg, "action",
                   cfg << " action " << j << ": " << got[j]->Percent() << "%" << got[j]->MaxCount() << "*" << got[j]->GetType() << "(" << got[j]->Arg() << ")");
        ref[name] = cfg;
        changes++;
        break;
      }
      case 2: {
        std::string bad = s.OneOf<const char*>({"", "nothing", "10%", "5*"});
        VT_CHECK(!mgr.ConfigureFailPoint(name, bad).ok(), "accepts-bad", bad);
        break;
      }
      default:
        mgr.DeleteFailPoint(name);
        ref.erase(name);
        changes++;
    }
    std::map<std::string, std::string> got;
    for (auto& f : mgr.GetAllFailPoints()) got[f->Name()] = f->Config();
    VT_CHECK(got == ref, "registry", "registered failpoints differ");
  }
  // an action with a maximum runs exactly that often
  int mx = (int)s.Range(1, 4), runs = (int)s.Range(0, 7);
  mgr.ConfigureFailPoint("count", std::to_string(mx) + "*yield");
  for (int i = 0; i < runs; i++) mgr.ApplyFailPoint("count");
  auto fp = mgr.GetFailPoint("count");
  VT_CHECK((int)fp->GetActions()[0]->Count() == std::min(mx, runs), "max-count", mx << "* applied " << runs << " times ran " << fp->GetActions()[0]->Count());
  mgr.DeleteFailPoint("count");
  if (changes >= 2) s.NonTrivial(t + std::to_string(mx * 10 + runs));
}
VT_SUB("C11", "threads", 3) {
  // one winner per key; a batch is seen whole
  int nt = (int)s.Range(2, 3);
  uint64_t sw = 0;
  sched::Run(s, [&] {
    DingoSafeMap<int64_t, int64_t> m;
    m.Init(16);
    DingoSafeStdMap<int64_t, int64_t> sm;
    int wins = 0, wins2 = 0;
    std::vector<std::unique_ptr<sched::Thread>> th;
    for (int t = 0; t < nt; t++)
      th.push_back(std::make_unique<sched::Thread>([&, t] {
        if (m.PutIfAbsent(1, t) == 1) wins++;
        if (sm.PutIfAbsent(1, t) == 1) wins2++;
        for (int64_t r = 1; r <= 2; r++) {
          int64_t v = t * 10 + r;
          m.MultiPut({5, 6}, {v, v});
          sm.MultiEraseThenPut({5}, {6, 7}, {v, v});
          std::vector<int64_t> vs;
          std::vector<bool> ex;
          m.MultiGet({5, 6}, vs, ex);
          VT_CHECK(vs[0] == vs[1], "torn", "half of a batch is visible");
          vs.clear();
          ex.clear();
          sm.MultiGet({6, 7}, vs, ex);
          VT_CHECK(vs[0] == vs[1], "torn", "half of a batch is visible");
        }
      }));
    for (auto& t : th) t->Join();
    VT_CHECK(wins == 1 && wins2 == 1, "winners", wins << " and " << wins2 << " threads inserted the same key");
    sw = sched::g->switches;
  });
  if (sw > 3) s.NonTrivial(std::to_string(nt) + "/" + std::to_string(s.rec_.size()) + "/" + std::to_string(sw));
}

int main(int argc, char** argv) {
  FLAGS_minloglevel = getenv("VT_LOG") ? 0 : 3;
  return vt::Main(argc, argv);
}
