#pragma once
// Choice-sequence property testing: every random decision of a case goes through Src, which records it.  A case is the
// list of its choices, so shrinking edits that list, replay feeds it back, and a crash leaves it in shared memory.
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

extern "C" int __llvm_profile_write_file(void) __attribute__((weak));
namespace vt {

struct Fail {
  std::string sig, msg;
};

inline double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return Mix(h);
}

inline std::string Hex(const std::string& s, size_t max = 40) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < s.size() && i < max; i++) {
    r += d[(unsigned char)s[i] >> 4];
    r += d[s[i] & 15];
  }
  if (s.size() > max) r += "..(" + std::to_string(s.size()) + ")";
  return r.empty() ? "-" : r;
}

constexpr size_t kMaxChoices = 1 << 16;
struct Shared {  // one per worker, in shared memory
  volatile uint64_t case_index;
  volatile double case_start;
  volatile uint64_t done_cases;
  volatile uint32_t n;
  volatile uint32_t finished;
  uint64_t choices[kMaxChoices];
};

class Src {
 public:
  Src(uint64_t seed, Shared* sh) : st_(seed), sh_(sh) {}
  Src(const std::vector<uint64_t>* fixed, Shared* sh) : fixed_(fixed), sh_(sh) {}

  uint64_t Raw(uint64_t n) {  // uniform in [0,n); n==0 means full 64 bit
    uint64_t v;
    if (fixed_) {
      v = pos_ < fixed_->size() ? (*fixed_)[pos_] : 0;
      if (n && v >= n) v = n - 1;
    } else {
      st_ += 0x9e3779b97f4a7c15ull;
      uint64_t x = Mix(st_);
      v = n ? (uint64_t)(((unsigned __int128)x * n) >> 64) : x;
    }
    pos_++;
    rec_.push_back(v);
    if (sh_ && sh_->n < kMaxChoices) {
      sh_->choices[sh_->n] = v;
      sh_->n = sh_->n + 1;
    }
    return v;
  }
  uint64_t Below(uint64_t n) { return n <= 1 ? 0 : Raw(n); }
  // inclusive range
  int64_t Range(int64_t lo, int64_t hi) { return lo + (int64_t)Below((uint64_t)(hi - lo) + 1); }
  bool Chance(int pct) { return Chance(pct, 100); }
  bool Chance(int num, int den) { return (int64_t)Below(den) >= den - num; }  // shrinks towards false
  bool Bool() { return Below(2); }
  uint64_t U64() { return Raw(0); }
  template <class C>
  const typename C::value_type& Pick(const C& c) {
    auto it = c.begin();
    std::advance(it, Below(c.size()));
    return *it;
  }
  template <class T>
  T OneOf(std::initializer_list<T> l) {
    return *(l.begin() + Below(l.size()));
  }
  size_t Weighted(std::initializer_list<int> w) {
    int t = 0;
    for (int x : w) t += x;
    int64_t r = Below(t);
    size_t i = 0;
    for (int x : w) {
      if (r < x) return i;
      r -= x;
      i++;
    }
    return 0;
  }
  // 64-bit value biased to boundaries
  int64_t Int64() {
    switch (Below(6)) {
      case 0: return Range(-3, 3);
      case 1: return Range(-300, 300);
      case 2: {
        int sh = (int)Below(64);
        uint64_t v = 1ull << sh;
        return (int64_t)(v + Range(-2, 2));
      }
      case 3: {
        int sh = (int)Below(64);
        return (int64_t)(0 - ((1ull << sh) + (uint64_t)Range(-2, 2)));
      }
      case 4: return OneOf<int64_t>({INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 0xff, 0xffff, 0xffffffffll, 0x80, 0x8000});
      default: return (int64_t)U64();
    }
  }
  // bytes biased to adversarial content (0x00/0xff, group boundaries)
  std::string Bytes(size_t maxlen) {
    size_t n = Below(3) ? Below(std::min<size_t>(maxlen, 12) + 1) : Below(maxlen + 1);
    std::string s;
    int mode = (int)Below(4);
    for (size_t i = 0; i < n; i++) {
      switch (mode) {
        case 0: s += (char)OneOf<int>({'a', 'b', 'c'}); break;
        case 1: s += (char)OneOf<int>({0, 0xff, 1, 0xfe, 'a', 8, 0xf7}); break;
        case 2: s += (char)Below(256); break;
        default: s += (char)(Chance(1, 4) ? Below(256) : (uint64_t)OneOf<int>({0, 0xff})); break;
      }
    }
    return s;
  }

  // --- reporting
  template <class... A>
  void Note(const char* fmt, A... a) {
    char b[600];
    snprintf(b, sizeof b, fmt, a...);
    Note(std::string(b));
  }
  void Note(const std::string& s) {
    if (notes_.size() < 400) notes_.push_back(s);
  }
  void NonTrivial(uint64_t h) {
    nontrivial_ = true;
    nt_hash_ = Mix(nt_hash_ ^ h);
  }
  void NonTrivial(const std::string& s) { NonTrivial(HashStr(s)); }
  void Tag(const std::string& t, uint64_t n = 1) { tags_[t] += n; }

  std::vector<uint64_t> rec_;
  std::vector<std::string> notes_;
  std::map<std::string, uint64_t> tags_;
  bool nontrivial_ = false;
  uint64_t nt_hash_ = 0;

 private:
  uint64_t st_ = 0;
  const std::vector<uint64_t>* fixed_ = nullptr;
  size_t pos_ = 0;
  Shared* sh_;
};

[[noreturn]] inline void Failf(const std::string& sig, const std::string& msg) { throw Fail{sig, msg}; }
#define VT_STR_(x) #x
#define VT_STR(x) VT_STR_(x)
// VT_CHECK(cond, sig, stream << message)
#define VT_CHECK(cond, sig, msg)                                                     \
  do {                                                                               \
    if (!(cond)) {                                                                   \
      std::ostringstream vt_os_;                                                     \
      vt_os_ << msg << " [" << #cond << "] @" << __LINE__;                           \
      vt::Failf(sig, vt_os_.str());                                                  \
    }                                                                                \
  } while (0)

struct Sub {
  std::string name;
  int weight;
  std::function<void(Src&)> fn;
};
struct Property {
  std::string id, rule;
  uint64_t quick_cases = 1000, thorough_cases = 20000;
  std::vector<Sub> subs;
};
inline std::map<std::string, Property>& Props() {
  static std::map<std::string, Property> p;
  return p;
}
inline std::function<void()>& InitHook() {  // run in every worker process before its first case
  static std::function<void()> f;
  return f;
}
struct RegProp {
  RegProp(const char* id, uint64_t q, uint64_t t, const char* rule) {
    auto& p = Props()[id];
    p.id = id;
    p.rule = rule;
    p.quick_cases = q;
    p.thorough_cases = t;
  }
};
struct RegSub {
  RegSub(const char* id, const char* name, int w, std::function<void(Src&)> f) { Props()[id].subs.push_back({name, w, f}); }
};
#define VT_CAT_(a, b) a##b
#define VT_CAT(a, b) VT_CAT_(a, b)
#define VT_PROPERTY(id, q, t, rule) static vt::RegProp VT_CAT(vt_rp_, __COUNTER__)(id, q, t, rule);
#define VT_SUB_I(id, name, w, n)                                      \
  static void VT_CAT(vt_sub_, n)(vt::Src & s);                        \
  static vt::RegSub VT_CAT(vt_rs_, n)(id, name, w, VT_CAT(vt_sub_, n)); \
  static void VT_CAT(vt_sub_, n)(vt::Src & s)
#define VT_SUB(id, name, w) VT_SUB_I(id, name, w, __COUNTER__)

inline void RunCase(const Property& p, Src& s) {
  int tot = 0;
  for (auto& x : p.subs) tot += x.weight;
  int64_t r = s.Below(tot);
  for (auto& x : p.subs) {
    if (r < x.weight) {
      s.Tag("sub:" + x.name);
      s.Note("sub " + x.name);
      s.nt_hash_ = HashStr(x.name);
      x.fn(s);
      return;
    }
    r -= x.weight;
  }
}

inline std::string JEsc(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c > 126) {
      snprintf(b, 8, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r + "\"";
}

struct Outcome {
  int kind = 0;  // 0 ok, 1 fail, 2 crash, 3 hang
  std::string sig, msg;
  std::vector<uint64_t> choices;
  std::vector<std::string> notes;
};

inline void PutStr(FILE* f, const std::string& s) {
  uint64_t n = s.size();
  fwrite(&n, 8, 1, f);
  fwrite(s.data(), 1, n, f);
}
inline bool GetStr(FILE* f, std::string& s) {
  uint64_t n;
  if (fread(&n, 8, 1, f) != 1 || n > (1u << 28)) return false;
  s.resize(n);
  return fread(s.data(), 1, n, f) == n;
}

struct Opts {
  std::string prop, out, replay, replay_dir = ".", scratch;
  uint64_t seed = 1, cases = 0;
  int workers = 8;
  double time_cap = 300, case_timeout = 40, shrink_time = 45;
  bool thorough = false;
  std::set<std::string> known;
};
inline Opts& O() {
  static Opts o;
  return o;
}
// private scratch directory of this worker process, created on demand
inline std::string& ScratchRoot() {
  static std::string s;
  return s;
}

inline void WorkerInit(int w) {
  if (!getenv("VT_STDERR")) {
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 2);
    close(nul);
  }
  ScratchRoot() = O().scratch + "/w" + std::to_string(w) + "_" + std::to_string(getpid());
  mkdir(O().scratch.c_str(), 0755);
  mkdir(ScratchRoot().c_str(), 0755);
  if (InitHook()) InitHook()();
}

// run one case in a forked child from a fixed choice list
inline Outcome RunFixed(const Property& p, const std::vector<uint64_t>& ch, double timeout) {
  static Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->n = 0;
  char tmp[] = "/tmp/vt_rf_XXXXXX";
  int tfd = mkstemp(tmp);
  close(tfd);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    WorkerInit(99);
    Src s(&ch, sh);
    int kind = 0;
    Fail fl;
    try {
      RunCase(p, s);
    } catch (Fail& f) {
      kind = 1;
      fl = f;
    } catch (std::exception& e) {
      kind = 1;
      fl = {"exception", std::string("uncaught exception: ") + e.what()};
    }
    FILE* f = fopen(tmp, "w");
    fwrite(&kind, 4, 1, f);
    PutStr(f, fl.sig);
    PutStr(f, fl.msg);
    uint64_t n = s.notes_.size();
    fwrite(&n, 8, 1, f);
    for (auto& x : s.notes_) PutStr(f, x);
    fclose(f);
    _exit(0);
  }
  Outcome o;
  double t0 = Now();
  int st = 0;
  bool exited = false;
  while (Now() - t0 < timeout) {
    if (waitpid(pid, &st, WNOHANG) == pid) {
      exited = true;
      break;
    }
    usleep(Now() - t0 < 0.05 ? 300 : 3000);
  }
  struct Rm {
    std::string d;
    ~Rm() {
      std::error_code ec;
      std::filesystem::remove_all(d, ec);
    }
  } rm{O().scratch + "/w99_" + std::to_string(pid)};
  if (!exited) {
    kill(-pid, SIGKILL);
    kill(pid, SIGKILL);
    waitpid(pid, &st, 0);
    o.kind = 3;
    o.sig = "hang";
    o.msg = "case did not finish within the time limit";
  } else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    o.kind = 2;
    o.sig = WIFSIGNALED(st) ? "crash-sig" + std::to_string(WTERMSIG(st)) : "crash-exit" + std::to_string(WEXITSTATUS(st));
    o.msg = "process under test died: " + o.sig;
  } else {
    FILE* f = fopen(tmp, "r");
    if (f && fread(&o.kind, 4, 1, f) == 1) {
      GetStr(f, o.sig);
      GetStr(f, o.msg);
      uint64_t n = 0;
      if (fread(&n, 8, 1, f) == 1)
        for (uint64_t i = 0; i < n; i++) {
          std::string x;
          if (!GetStr(f, x)) break;
          o.notes.push_back(x);
        }
    }
    if (f) fclose(f);
  }
  unlink(tmp);
  o.choices.assign(sh->choices, sh->choices + sh->n);
  return o;
}

inline bool SameClass(const Outcome& a, const Outcome& b) { return a.kind == b.kind && a.sig == b.sig; }

inline Outcome Shrink(const Property& p, Outcome best) {
  double end = Now() + O().shrink_time;
  auto tryit = [&](const std::vector<uint64_t>& c) {
    if (Now() > end) return false;
    Outcome o = RunFixed(p, c, O().case_timeout);
    if (SameClass(o, best) && o.kind) {
      if (o.choices.size() > c.size()) o.choices.resize(c.size());
      // strictly simpler: shorter, or lexicographically smaller
      if (o.choices.size() < best.choices.size() || (o.choices.size() == best.choices.size() && o.choices < best.choices)) {
        best = o;
        return true;
      }
    }
    return false;
  };
  if (best.kind == 3) return best;
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    for (size_t blk : {64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = best.choices.size(); i-- > 0 && Now() < end;) {
        if (i + blk > best.choices.size()) continue;
        auto c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + blk);
        if (tryit(c)) progress = true;
      }
    }
    for (size_t i = 0; i < best.choices.size() && Now() < end; i++) {
      if (best.choices[i] == 0) continue;
      auto c = best.choices;
      c[i] = 0;
      if (tryit(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = best.choices[i];
      for (int k = 0; k < 12 && lo + 1 < hi && Now() < end; k++) {
        uint64_t mid = lo + (hi - lo) / 2;
        if (i >= best.choices.size()) break;
        c = best.choices;
        c[i] = mid;
        if (tryit(c)) {
          hi = mid;
          progress = true;
        } else
          lo = mid;
      }
    }
  }
  return best;
}

inline std::string WriteReplay(const Property& p, const Outcome& o, const std::string& mode, uint64_t seed, int w, uint64_t upto, int workers) {
  mkdir(O().replay_dir.c_str(), 0755);
  uint64_t h = 0;
  for (auto c : o.choices) h = Mix(h ^ c);
  char name[64];
  snprintf(name, 64, "%s-%012llx.json", p.id.c_str(), (unsigned long long)((h ^ HashStr(o.sig)) & 0xffffffffffffull));
  std::string path = O().replay_dir + "/" + name;
  std::ofstream f(path);
  f << "{\"property\":" << JEsc(p.id) << ",\"mode\":" << JEsc(mode) << ",\"sig\":" << JEsc(o.sig) << ",\"kind\":" << o.kind
    << ",\"seed\":" << seed << ",\"worker\":" << w << ",\"workers\":" << workers << ",\"upto\":" << upto << ",\"choices\":[";
  for (size_t i = 0; i < o.choices.size(); i++) f << (i ? "," : "") << o.choices[i];
  f << "],\n\"message\":" << JEsc(o.msg) << ",\n\"case\":[";
  for (size_t i = 0; i < o.notes.size(); i++) f << (i ? ",\n " : "") << JEsc(o.notes[i]);
  f << "]}\n";
  return path;
}

inline uint64_t CaseSeed(uint64_t seed, const std::string& id, uint64_t idx) { return Mix(Mix(seed ^ HashStr(id)) + idx * 0x632be59bd9b4e019ull); }

// worker main: runs case indices w, w+W, w+2W ...; writes a result file
inline void WorkerMain(const Property& p, int w, int W, uint64_t cases, Shared* sh, const std::string& resfile, double deadline, uint64_t start_idx) {
  WorkerInit(w);
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> tags;
  std::vector<std::string> samples;
  uint64_t evals = 0, nontriv = 0;
  int kind = 0;
  Fail fl;
  std::map<std::string, uint64_t> knownhits;
  uint64_t bad_idx = 0;
  for (uint64_t idx = start_idx; idx < cases; idx += W) {
    if (Now() > deadline) break;
    sh->n = 0;
    sh->case_index = idx;
    sh->case_start = Now();
    Src s(CaseSeed(O().seed, p.id, idx), sh);
    bool known = false;
    try {
      RunCase(p, s);
    } catch (Fail& f) {
      if (O().known.count(f.sig)) {
        knownhits[f.sig]++;
        known = true;
      } else {
        kind = 1;
        fl = f;
      }
    } catch (std::exception& e) {
      kind = 1;
      fl = {"exception", std::string("uncaught exception: ") + e.what()};
    }
    evals++;
    sh->done_cases = sh->done_cases + 1;
    if (kind) {
      bad_idx = idx;
      break;
    }
    for (auto& [k, v] : s.tags_) tags[k] += v;
    if (s.nontrivial_ && !known) {
      nontriv++;
      if (distinct.size() < 4000000) distinct.insert(s.nt_hash_);
      if (samples.size() < 3 && (evals % 7 == 1 || samples.empty())) {
        std::string t;
        for (size_t i = 0; i < s.notes_.size() && t.size() < 900; i++) t += (i ? "; " : "") + s.notes_[i];
        samples.push_back(t.substr(0, 1000));
      }
    }
  }
  FILE* f = fopen(resfile.c_str(), "w");
  fwrite(&kind, 4, 1, f);
  PutStr(f, fl.sig);
  PutStr(f, fl.msg);
  fwrite(&bad_idx, 8, 1, f);
  fwrite(&evals, 8, 1, f);
  fwrite(&nontriv, 8, 1, f);
  uint64_t n = tags.size();
  fwrite(&n, 8, 1, f);
  for (auto& [k, v] : tags) {
    PutStr(f, k);
    fwrite(&v, 8, 1, f);
  }
  n = knownhits.size();
  fwrite(&n, 8, 1, f);
  for (auto& [k, v] : knownhits) {
    PutStr(f, k);
    fwrite(&v, 8, 1, f);
  }
  n = samples.size();
  fwrite(&n, 8, 1, f);
  for (auto& x : samples) PutStr(f, x);
  n = distinct.size();
  fwrite(&n, 8, 1, f);
  for (auto x : distinct) fwrite(&x, 8, 1, f);
  fclose(f);
  sh->finished = 1;
  if (__llvm_profile_write_file) __llvm_profile_write_file();  // only in a coverage build
  _exit(0);
}

inline std::vector<uint64_t> ParseList(const std::string& t, const std::string& key) {
  std::vector<uint64_t> r;
  auto i = t.find("\"" + key + "\":[");
  if (i == std::string::npos) return r;
  i = t.find('[', i) + 1;
  while (i < t.size() && t[i] != ']') {
    char* e;
    r.push_back(strtoull(t.c_str() + i, &e, 10));
    i = e - t.c_str();
    if (t[i] == ',') i++;
  }
  return r;
}
inline uint64_t ParseNum(const std::string& t, const std::string& key) {
  auto i = t.find("\"" + key + "\":");
  return i == std::string::npos ? 0 : strtoull(t.c_str() + i + key.size() + 3, nullptr, 10);
}
inline std::string ParseStr(const std::string& t, const std::string& key) {
  auto i = t.find("\"" + key + "\":\"");
  if (i == std::string::npos) return "";
  i += key.size() + 4;
  return t.substr(i, t.find('"', i) - i);
}

// run a worker's case prefix [w, w+W.., upto] in one child; returns the outcome of the last failing case
inline Outcome RunPrefix(const Property& p, int w, int W, uint64_t upto) {
  static Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, 64);
  std::string rf = O().scratch + "/prefix.res";
  unlink(rf.c_str());
  sh->case_start = Now();
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    WorkerMain(p, w, W, upto + 1, sh, rf, Now() + 600, w);
  }
  int st;
  Outcome o;
  while (true) {
    if (waitpid(pid, &st, WNOHANG) == pid) break;
    if (Now() - sh->case_start > O().case_timeout) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      o.kind = 3;
      o.sig = "hang";
      break;
    }
    usleep(3000);
  }
  if (o.kind == 0) {
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      o.kind = 2;
      o.sig = WIFSIGNALED(st) ? "crash-sig" + std::to_string(WTERMSIG(st)) : "crash-exit" + std::to_string(WEXITSTATUS(st));
      o.msg = "process under test died: " + o.sig;
    } else if (FILE* f = fopen(rf.c_str(), "r")) {
      if (fread(&o.kind, 4, 1, f) == 1) {
        GetStr(f, o.sig);
        GetStr(f, o.msg);
      }
      fclose(f);
    }
  }
  o.choices.assign(sh->choices, sh->choices + sh->n);
  return o;
}

inline int Main(int argc, char** argv) {
  auto& o = O();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") o.prop = nxt();
    else if (a == "--seed") o.seed = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--cases") o.cases = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--workers") o.workers = atoi(nxt().c_str());
    else if (a == "--time") o.time_cap = atof(nxt().c_str());
    else if (a == "--out") o.out = nxt();
    else if (a == "--replay") o.replay = nxt();
    else if (a == "--replay-dir") o.replay_dir = nxt();
    else if (a == "--scratch") o.scratch = nxt();
    else if (a == "--thorough") o.thorough = true;
    else if (a == "--shrink-time") o.shrink_time = atof(nxt().c_str());
    else if (a == "--case-timeout") o.case_timeout = atof(nxt().c_str());
    else if (a == "--known") o.known.insert(nxt());
    else if (a == "--list") {
      for (auto& [k, v] : Props()) printf("%s q=%lu t=%lu subs=%zu\n", k.c_str(), (unsigned long)v.quick_cases, (unsigned long)v.thorough_cases, v.subs.size());
      return 0;
    }
  }
  if (!Props().count(o.prop)) {
    fprintf(stderr, "unknown property %s\n", o.prop.c_str());
    return 2;
  }
  const Property& p = Props()[o.prop];
  if (o.scratch.empty()) {
    char t[] = "/tmp/vt_scratch_XXXXXX";
    o.scratch = mkdtemp(t);
  }
  if (!o.replay.empty()) {
    std::ifstream f(o.replay);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string t = ss.str();
    Outcome r;
    if (ParseStr(t, "mode") == "prefix") {
      o.seed = ParseNum(t, "seed");
      r = RunPrefix(p, (int)ParseNum(t, "worker"), (int)ParseNum(t, "workers"), ParseNum(t, "upto"));
    } else
      r = RunFixed(p, ParseList(t, "choices"), o.case_timeout);
    if (r.kind) {
      printf("REPRODUCED kind=%d sig=%s msg=%s\n", r.kind, r.sig.c_str(), r.msg.c_str());
      for (auto& x : r.notes) printf("  %s\n", x.c_str());
      return 1;
    }
    printf("NOT-REPRODUCED\n");
    return 0;
  }
  uint64_t cases = o.cases ? o.cases : (o.thorough ? p.thorough_cases : p.quick_cases);
  int W = o.workers;
  double t0 = Now(), deadline = t0 + o.time_cap;
  std::vector<Shared*> sh(W);
  std::vector<pid_t> pid(W, 0);
  std::vector<std::string> rf(W);
  std::vector<int> dead(W, 0);  // 1 crash, 2 hang
  std::vector<int> status(W, 0);
  for (int w = 0; w < W; w++) {
    sh[w] = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    rf[w] = o.scratch + "/res" + std::to_string(w);
    sh[w]->case_start = Now();
    pid[w] = fork();
    if (pid[w] == 0) {
      setpgid(0, 0);
      WorkerMain(p, w, W, cases, sh[w], rf[w], deadline, w);
    }
  }
  int left = W;
  std::vector<bool> done(W, false);
  while (left) {
    usleep(3000);
    for (int w = 0; w < W; w++) {
      if (done[w]) continue;
      int st;
      if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
        done[w] = true;
        left--;
        status[w] = st;
        if (!WIFEXITED(st) || WEXITSTATUS(st) || !sh[w]->finished) dead[w] = 1;
      } else if (Now() - sh[w]->case_start > o.case_timeout) {
        kill(-pid[w], SIGKILL);
        kill(pid[w], SIGKILL);
        waitpid(pid[w], &st, 0);
        done[w] = true;
        left--;
        dead[w] = 2;
      }
    }
  }
  uint64_t evals = 0, nontriv = 0, distinct_n = 0;
  std::map<std::string, uint64_t> tags, knownhits;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> distinct;
  struct V {
    Outcome o;
    int w;
    uint64_t idx;
  };
  std::vector<V> viol;
  for (int w = 0; w < W; w++) {
    if (dead[w]) {
      Outcome x;
      x.kind = dead[w] == 2 ? 3 : 2;
      int st = status[w];
      x.sig = x.kind == 3 ? "hang" : WIFSIGNALED(st) ? "crash-sig" + std::to_string(WTERMSIG(st)) : "crash-exit" + std::to_string(WEXITSTATUS(st));
      x.msg = x.kind == 3 ? "case did not finish within the time limit" : "process under test died: " + x.sig;
      x.choices.assign(sh[w]->choices, sh[w]->choices + sh[w]->n);
      viol.push_back({x, w, sh[w]->case_index});
      evals += sh[w]->done_cases;
      continue;
    }
    FILE* f = fopen(rf[w].c_str(), "r");
    int kind = 0;
    uint64_t bad = 0, e = 0, nt = 0, n = 0;
    std::string sig, msg, k;
    if (fread(&kind, 4, 1, f) != 1) kind = 0;
    GetStr(f, sig);
    GetStr(f, msg);
    size_t z = fread(&bad, 8, 1, f) + fread(&e, 8, 1, f) + fread(&nt, 8, 1, f);
    (void)z;
    evals += e;
    nontriv += nt;
    auto rdmap = [&](std::map<std::string, uint64_t>& m) {
      uint64_t n = 0, v = 0;
      if (fread(&n, 8, 1, f) != 1) return;
      for (uint64_t i = 0; i < n; i++) {
        GetStr(f, k);
        if (fread(&v, 8, 1, f) != 1) return;
        m[k] += v;
      }
    };
    rdmap(tags);
    rdmap(knownhits);
    if (fread(&n, 8, 1, f) == 1)
      for (uint64_t i = 0; i < n; i++) {
        GetStr(f, k);
        samples.push_back(k);
      }
    if (fread(&n, 8, 1, f) == 1)
      for (uint64_t i = 0; i < n; i++) {
        uint64_t v;
        if (fread(&v, 8, 1, f) != 1) break;
        distinct.insert(v);
      }
    fclose(f);
    if (kind) {
      Outcome x;
      x.kind = kind;
      x.sig = sig;
      x.msg = msg;
      x.choices.assign(sh[w]->choices, sh[w]->choices + sh[w]->n);
      viol.push_back({x, w, bad});
    }
  }
  distinct_n = distinct.size();
  // confirm, shrink and write replays (one per signature)
  std::vector<std::pair<std::string, std::string>> confirmed;  // path, sig:msg
  std::vector<std::string> unconfirmed;
  std::set<std::string> seen;
  for (auto& v : viol) {
    if (seen.count(v.o.sig) || seen.size() >= 4) continue;
    if (o.known.count(v.o.sig)) continue;
    Outcome r = RunFixed(p, v.o.choices, o.case_timeout);
    if (r.kind && r.sig == v.o.sig) {
      seen.insert(v.o.sig);
      r = Shrink(p, r);
      Outcome fin = RunFixed(p, r.choices, o.case_timeout);
      if (fin.kind) {
        fin.choices = r.choices;
        r = fin;
      }
      confirmed.push_back({WriteReplay(p, r, "case", o.seed, v.w, v.idx, W), r.sig + ": " + r.msg});
    } else {
      Outcome q = RunPrefix(p, v.w, W, v.idx);
      if (q.kind && q.sig == v.o.sig) {
        seen.insert(v.o.sig);
        confirmed.push_back({WriteReplay(p, q, "prefix", o.seed, v.w, v.idx, W), q.sig + ": " + q.msg});
      } else
        unconfirmed.push_back(v.o.sig + ": " + v.o.msg);
    }
  }
  if (!o.out.empty()) {
    std::ofstream f(o.out);
    f << "{\"property\":" << JEsc(p.id) << ",\"seed\":" << o.seed << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv
      << ",\"distinct_nontrivial\":" << distinct_n << ",\"planned_cases\":" << cases << ",\"rule\":" << JEsc(p.rule) << ",\"wall_s\":" << (Now() - t0) << ",\n\"classes\":{";
    bool first = true;
    for (auto& [k, v] : tags) {
      f << (first ? "" : ",") << JEsc(k) << ":" << v;
      first = false;
    }
    f << "},\n\"known_hits\":{";
    first = true;
    for (auto& [k, v] : knownhits) {
      f << (first ? "" : ",") << JEsc(k) << ":" << v;
      first = false;
    }
    f << "},\n\"samples\":[";
    for (size_t i = 0; i < samples.size() && i < 6; i++) f << (i ? ",\n " : "") << JEsc(samples[i * samples.size() / std::min<size_t>(6, samples.size())]);
    f << "],\n\"violations\":[";
    for (size_t i = 0; i < confirmed.size(); i++)
      f << (i ? ",\n" : "") << "{\"replay\":" << JEsc(confirmed[i].first) << ",\"what\":" << JEsc(confirmed[i].second) << "}";
    f << "],\n\"unconfirmed\":[";
    for (size_t i = 0; i < unconfirmed.size(); i++) f << (i ? "," : "") << JEsc(unconfirmed[i]);
    f << "]}\n";
  }
  for (auto& c : confirmed) printf("FAIL %s %s\n", c.first.c_str(), c.second.c_str());
  for (auto& c : unconfirmed) printf("UNCONFIRMED %s\n", c.c_str());
  printf("%s evals=%lu nontrivial=%lu distinct=%lu wall=%.1f\n", p.id.c_str(), (unsigned long)evals, (unsigned long)nontriv, (unsigned long)distinct_n, Now() - t0);
  return confirmed.empty() ? 0 : 1;
}
}  // namespace vt
