// Stand-in for the parts of brpc's butil that dingo-store uses.
#pragma once
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <glog/logging.h>
#include <google/protobuf/io/zero_copy_stream.h>
#include <google/protobuf/message.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cassert>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#ifndef BAIDU_LIKELY
#define BAIDU_LIKELY(expr) (__builtin_expect((bool)(expr), true))
#define BAIDU_UNLIKELY(expr) (__builtin_expect((bool)(expr), false))
#endif
#define BUTIL_LIKELY(expr) BAIDU_LIKELY(expr)
#define BUTIL_UNLIKELY(expr) BAIDU_UNLIKELY(expr)
#ifndef WARN_UNUSED_RESULT
#define WARN_UNUSED_RESULT
#endif
#ifndef ALLOW_UNUSED
#define ALLOW_UNUSED __attribute__((unused))
#endif
#ifndef PRINTF_FORMAT
#define PRINTF_FORMAT(a, b) __attribute__((format(printf, a, b)))
#endif
#define BAIDU_CACHELINE_ALIGNMENT __attribute__((aligned(64)))
#define BAIDU_CASSERT(expr, msg) static_assert(expr, #msg)
#define BAIDU_CONCAT_I(a, b) a##b
#define BAIDU_CONCAT(a, b) BAIDU_CONCAT_I(a, b)
#ifndef DISALLOW_COPY_AND_ASSIGN
#define DISALLOW_COPY_AND_ASSIGN(T) \
  T(const T&) = delete;             \
  void operator=(const T&) = delete
#endif
#ifndef DISALLOW_COPY
#define DISALLOW_COPY(T) T(const T&) = delete
#endif
#ifndef ARRAY_SIZE
#define arraysize(a) (sizeof(a) / sizeof(a[0]))
#define ARRAY_SIZE(a) (sizeof(a) / sizeof(a[0]))
#endif
#ifndef ignore_result
#define ignore_result(x) (void)(x)
#endif

#define PCHECK_VSHIM(x) CHECK(x)

namespace butil {

inline void vappend(std::string* dst, const char* format, va_list ap) {
  char space[1024];
  va_list copy;
  va_copy(copy, ap);
  int n = vsnprintf(space, sizeof(space), format, copy);
  va_end(copy);
  if (n < 0) return;
  if (n < (int)sizeof(space)) {
    dst->append(space, n);
    return;
  }
  std::string buf(n + 1, '\0');
  va_copy(copy, ap);
  vsnprintf(buf.data(), buf.size(), format, copy);
  va_end(copy);
  dst->append(buf.data(), n);
}
inline std::string string_printf(const char* format, ...) {
  std::string r;
  va_list ap;
  va_start(ap, format);
  vappend(&r, format, ap);
  va_end(ap);
  return r;
}
inline int string_printf(std::string* out, const char* format, ...) {
  out->clear();
  va_list ap;
  va_start(ap, format);
  vappend(out, format, ap);
  va_end(ap);
  return 0;
}
inline int string_appendf(std::string* out, const char* format, ...) {
  va_list ap;
  va_start(ap, format);
  vappend(out, format, ap);
  va_end(ap);
  return 0;
}
inline std::string StringPrintf(const char* format, ...) {
  std::string r;
  va_list ap;
  va_start(ap, format);
  vappend(&r, format, ap);
  va_end(ap);
  return r;
}

class StringPiece {
 public:
  using const_iterator = const char*;
  static const size_t npos = (size_t)-1;
  StringPiece() = default;
  StringPiece(const char* s) : p_(s), n_(s ? strlen(s) : 0) {}
  StringPiece(const std::string& s) : p_(s.data()), n_(s.size()) {}
  StringPiece(std::string_view s) : p_(s.data()), n_(s.size()) {}
  StringPiece(const char* s, size_t n) : p_(s), n_(n) {}
  const char* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  char operator[](size_t i) const { return p_[i]; }
  std::string as_string() const { return std::string(p_ ? p_ : "", n_); }
  operator std::string_view() const { return {p_, n_}; }
  std::string_view sv() const { return {p_, n_}; }
  const_iterator begin() const { return p_; }
  const_iterator end() const { return p_ + n_; }
  void set(const char* s) { *this = StringPiece(s); }
  void set(const char* s, size_t n) { p_ = s, n_ = n; }
  void remove_prefix(size_t n) { p_ += n, n_ -= n; }
  void remove_suffix(size_t n) { n_ -= n; }
  StringPiece substr(size_t pos, size_t n = npos) const {
    auto s = sv().substr(pos, n);
    return StringPiece(s);
  }
  size_t find(char c, size_t pos = 0) const { return sv().find(c, pos); }
  size_t find(const StringPiece& s, size_t pos = 0) const { return sv().find(s.sv(), pos); }
  size_t rfind(char c) const { return sv().rfind(c); }
  bool starts_with(const StringPiece& x) const { return n_ >= x.n_ && memcmp(p_, x.p_, x.n_) == 0; }
  bool ends_with(const StringPiece& x) const { return n_ >= x.n_ && memcmp(p_ + n_ - x.n_, x.p_, x.n_) == 0; }
  int compare(const StringPiece& o) const { return sv().compare(o.sv()); }
  void CopyToString(std::string* s) const { s->assign(p_ ? p_ : "", n_); }
  void AppendToString(std::string* s) const { s->append(p_ ? p_ : "", n_); }

 private:
  const char* p_{nullptr};
  size_t n_{0};
};
inline bool operator==(const StringPiece& a, const StringPiece& b) { return a.sv() == b.sv(); }
inline bool operator!=(const StringPiece& a, const StringPiece& b) { return a.sv() != b.sv(); }
inline bool operator<(const StringPiece& a, const StringPiece& b) { return a.sv() < b.sv(); }
inline std::ostream& operator<<(std::ostream& o, const StringPiece& p) { return o << p.sv(); }

class Status {
 public:
  Status() = default;
  Status(int code, const char* fmt, ...) __attribute__((__format__(__printf__, 3, 4))) : code_(code) {
    if (code_ != 0) {
      va_list ap;
      va_start(ap, fmt);
      vappend(&msg_, fmt, ap);
      va_end(ap);
    }
  }
  Status(int code, const StringPiece& s) : code_(code) {
    if (code_ != 0) msg_ = s.as_string();
  }
  Status(int code, const std::string& s) : code_(code) {
    if (code_ != 0) msg_ = s;
  }
  static Status OK() { return Status(); }
  int set_error(int code, const char* fmt, ...) __attribute__((__format__(__printf__, 3, 4))) {
    code_ = code;
    msg_.clear();
    if (code_ != 0) {
      va_list ap;
      va_start(ap, fmt);
      vappend(&msg_, fmt, ap);
      va_end(ap);
    }
    return code == 0 ? 0 : -1;
  }
  int set_error(int code, const StringPiece& s) {
    code_ = code;
    msg_ = code ? s.as_string() : "";
    return code == 0 ? 0 : -1;
  }
  int set_error(int code, const std::string& s) { return set_error(code, StringPiece(s)); }
  bool ok() const { return code_ == 0; }
  int error_code() const { return code_; }
  const char* error_cstr() const { return code_ == 0 ? "OK" : msg_.c_str(); }
  StringPiece error_data() const { return code_ == 0 ? StringPiece("OK") : StringPiece(msg_); }
  std::string error_str() const { return code_ == 0 ? "OK" : msg_; }
  void reset() {
    code_ = 0;
    msg_.clear();
  }
  void swap(Status& o) {
    std::swap(code_, o.code_);
    msg_.swap(o.msg_);
  }

 private:
  int code_{0};
  std::string msg_;
};
inline std::ostream& operator<<(std::ostream& os, const Status& st) { return os << st.error_str(); }

// ---------------------------------------------------------------- time
inline int64_t gettimeofday_us() {
  timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec * 1000000L + tv.tv_usec;
}
inline int64_t gettimeofday_ms() { return gettimeofday_us() / 1000; }
inline int64_t gettimeofday_s() { return gettimeofday_us() / 1000000; }
inline int64_t monotonic_time_ns() {
  timespec now;
  clock_gettime(CLOCK_MONOTONIC, &now);
  return now.tv_sec * 1000000000L + now.tv_nsec;
}
inline int64_t monotonic_time_us() { return monotonic_time_ns() / 1000; }
inline int64_t monotonic_time_ms() { return monotonic_time_ns() / 1000000; }
inline int64_t monotonic_time_s() { return monotonic_time_ns() / 1000000000; }
inline int64_t cpuwide_time_ns() { return monotonic_time_ns(); }
inline int64_t cpuwide_time_us() { return monotonic_time_us(); }
inline int64_t cpuwide_time_ms() { return monotonic_time_ms(); }
inline int64_t cpuwide_time_s() { return monotonic_time_s(); }
inline timespec microseconds_to_timespec(int64_t us) {
  timespec ts;
  ts.tv_sec = us / 1000000;
  ts.tv_nsec = (us % 1000000) * 1000;
  return ts;
}
inline timespec milliseconds_to_timespec(int64_t ms) { return microseconds_to_timespec(ms * 1000); }
inline timespec seconds_to_timespec(int64_t s) { return microseconds_to_timespec(s * 1000000); }
inline timespec microseconds_from_now(int64_t us) { return microseconds_to_timespec(gettimeofday_us() + us); }
inline timespec milliseconds_from_now(int64_t ms) { return microseconds_from_now(ms * 1000); }
inline timespec seconds_from_now(int64_t s) { return microseconds_from_now(s * 1000000); }
class Timer {
 public:
  enum TimerType { STARTED };
  Timer() = default;
  explicit Timer(const TimerType) { start(); }
  void start() { stop_ = start_ = cpuwide_time_ns(); }
  void stop() { stop_ = cpuwide_time_ns(); }
  int64_t n_elapsed() const { return stop_ - start_; }
  int64_t u_elapsed() const { return n_elapsed() / 1000; }
  int64_t m_elapsed() const { return u_elapsed() / 1000; }
  int64_t s_elapsed() const { return m_elapsed() / 1000; }

 private:
  int64_t start_{0}, stop_{0};
};

// ---------------------------------------------------------------- rand
uint64_t fast_rand();
uint64_t fast_rand_less_than(uint64_t range);
template <typename T>
inline T fast_rand_in(T lo, T hi) {
  if (hi < lo) std::swap(lo, hi);
  uint64_t range = (uint64_t)(hi - lo) + 1;
  return range == 0 ? (T)fast_rand() : (T)(lo + fast_rand_less_than(range));
}
double fast_rand_double();
inline std::string GenerateGUID() {
  char b[64];
  uint64_t a = fast_rand(), c = fast_rand();
  snprintf(b, sizeof(b), "%08X-%04X-%04X-%04X-%012llX", (unsigned)(a >> 32), (unsigned)(a >> 16) & 0xffff,
           (unsigned)a & 0xffff, (unsigned)(c >> 48), (unsigned long long)(c & 0xffffffffffffull));
  return b;
}

// ---------------------------------------------------------------- endpoint
struct ip_t : in_addr {
  ip_t() { s_addr = 0; }
  ip_t(in_addr a) : in_addr(a) {}  // NOLINT
  explicit ip_t(uint32_t v, int) { s_addr = v; }
};
static const ip_t IP_ANY(INADDR_ANY, 0);
static const ip_t IP_NONE(INADDR_NONE, 0);
struct EndPoint {
  EndPoint() : ip(IP_ANY), port(0) {}
  EndPoint(ip_t i, int p) : ip(i), port(p) {}
  explicit EndPoint(const sockaddr_in& in) : ip(in.sin_addr), port(ntohs(in.sin_port)) {}
  ip_t ip;
  int port;
};
struct IPStr {
  const char* c_str() const { return buf; }
  char buf[INET_ADDRSTRLEN + 2];
};
struct EndPointStr {
  const char* c_str() const { return buf; }
  char buf[64];
};
inline std::ostream& operator<<(std::ostream& os, const IPStr& s) { return os << s.c_str(); }
inline std::ostream& operator<<(std::ostream& os, const EndPointStr& s) { return os << s.c_str(); }
inline IPStr ip2str(ip_t ip) {
  IPStr s;
  if (!inet_ntop(AF_INET, &ip, s.buf, INET_ADDRSTRLEN)) s.buf[0] = 0;
  return s;
}
inline EndPointStr endpoint2str(const EndPoint& p) {
  EndPointStr s;
  snprintf(s.buf, sizeof(s.buf), "%s:%d", ip2str(p.ip).c_str(), p.port);
  return s;
}
inline int str2ip(const char* s, ip_t* ip) {
  if (!s) return -1;
  while (isspace(*s)) ++s;
  return inet_pton(AF_INET, s, ip) > 0 ? 0 : -1;
}
inline int hostname2ip(const char* h, ip_t* ip) {
  if (str2ip(h, ip) == 0) return 0;
  if (strcmp(h, "localhost") == 0) return str2ip("127.0.0.1", ip);
  return -1;
}
inline int str2endpoint(const char* ip_str, int port, EndPoint* p) {
  if (str2ip(ip_str, &p->ip) != 0) return -1;
  if (port < 0 || port > 65535) return -1;
  p->port = port;
  return 0;
}
inline int str2endpoint(const char* str, EndPoint* p) {
  const char* c = strchr(str, ':');
  if (!c || c - str > 63) return -1;
  std::string ips(str, c - str);
  char* e = nullptr;
  long port = strtol(c + 1, &e, 10);
  if (e == c + 1) return -1;
  if (*e) {
    for (++e; isspace(*e); ++e) {
    }
    if (*e) return -1;
  }
  return str2endpoint(ips.c_str(), (int)port, p);
}
inline int hostname2endpoint(const char* ip_str, int port, EndPoint* p) {
  if (hostname2ip(ip_str, &p->ip) != 0) return -1;
  if (port < 0 || port > 65535) return -1;
  p->port = port;
  return 0;
}
inline int hostname2endpoint(const char* str, EndPoint* p) {
  const char* c = strchr(str, ':');
  if (!c) return -1;
  return hostname2endpoint(std::string(str, c - str).c_str(), atoi(c + 1), p);
}
inline int ip2hostname(ip_t ip, std::string* out) {
  *out = ip2str(ip).c_str();
  return 0;
}
inline int endpoint2hostname(const EndPoint& p, std::string* out) {
  *out = endpoint2str(p).c_str();
  return 0;
}
inline ip_t my_ip() {
  ip_t ip;
  str2ip("127.0.0.1", &ip);
  return ip;
}
inline const char* my_hostname() { return "localhost"; }
inline uint32_t ip2int(ip_t ip) { return ip.s_addr; }
inline ip_t int2ip(in_addr_t v) {
  ip_t r;
  r.s_addr = v;
  return r;
}
inline bool operator<(ip_t a, ip_t b) { return a.s_addr < b.s_addr; }
inline bool operator==(ip_t a, ip_t b) { return a.s_addr == b.s_addr; }
inline bool operator!=(ip_t a, ip_t b) { return a.s_addr != b.s_addr; }
inline bool operator<(const EndPoint& a, const EndPoint& b) {
  return a.ip != b.ip ? a.ip < b.ip : a.port < b.port;
}
inline bool operator==(const EndPoint& a, const EndPoint& b) { return a.ip == b.ip && a.port == b.port; }
inline bool operator!=(const EndPoint& a, const EndPoint& b) { return !(a == b); }
inline bool operator>(const EndPoint& a, const EndPoint& b) { return b < a; }
inline bool operator<=(const EndPoint& a, const EndPoint& b) { return !(b < a); }
inline bool operator>=(const EndPoint& a, const EndPoint& b) { return !(a < b); }
inline std::ostream& operator<<(std::ostream& os, ip_t ip) { return os << ip2str(ip).c_str(); }
inline std::ostream& operator<<(std::ostream& os, const EndPoint& p) { return os << endpoint2str(p).c_str(); }

// ---------------------------------------------------------------- atomics
using std::memory_order;
using std::memory_order_acq_rel;
using std::memory_order_acquire;
using std::memory_order_consume;
using std::memory_order_relaxed;
using std::memory_order_release;
using std::memory_order_seq_cst;
template <typename T>
using atomic = std::atomic<T>;

// ---------------------------------------------------------------- strings
void SplitString(const std::string& str, char c, std::vector<std::string>* r);
void SplitStringUsingSubstr(const std::string& str, const std::string& s, std::vector<std::string>* r);
enum TrimPositions { TRIM_NONE = 0, TRIM_LEADING = 1, TRIM_TRAILING = 2, TRIM_ALL = 3 };
TrimPositions TrimWhitespaceASCII(const std::string& in, TrimPositions pos, std::string* out);
inline TrimPositions TrimWhitespace(const std::string& in, TrimPositions pos, std::string* out) {
  return TrimWhitespaceASCII(in, pos, out);
}
bool StringToInt(const StringPiece& s, int* v);
bool StringToInt64(const StringPiece& s, int64_t* v);
bool StringToUint64(const StringPiece& s, uint64_t* v);
inline std::string HexEncode(const void* p, size_t n) {
  static const char* k = "0123456789ABCDEF";
  std::string r;
  for (size_t i = 0; i < n; ++i) {
    uint8_t b = ((const uint8_t*)p)[i];
    r += k[b >> 4];
    r += k[b & 15];
  }
  return r;
}

// ---------------------------------------------------------------- FlatMap
template <typename K>
struct DefaultHasher : std::hash<K> {};
template <typename K>
struct DefaultEqualTo : std::equal_to<K> {};
template <typename K, typename T, typename H = DefaultHasher<K>, typename E = DefaultEqualTo<K>, bool S = false>
class FlatMap {
  using M = std::unordered_map<K, T, H, E>;

 public:
  using key_type = K;
  using mapped_type = T;
  using value_type = typename M::value_type;
  using iterator = typename M::iterator;
  using const_iterator = typename M::const_iterator;
  FlatMap() = default;
  explicit FlatMap(const H&) {}
  int init(size_t n, unsigned = 80) {
    if (init_) return -1;
    init_ = true;
    (void)n;
    return 0;
  }
  bool initialized() const { return init_; }
  T* insert(const K& k, const T& v) {
    T& r = m_[k];
    r = v;
    return &r;
  }
  T* insert(const std::pair<K, T>& kv) { return insert(kv.first, kv.second); }
  size_t erase(const K& k, T* old = nullptr) {
    auto it = m_.find(k);
    if (it == m_.end()) return 0;
    if (old) *old = it->second;
    m_.erase(it);
    return 1;
  }
  void clear() { m_.clear(); }
  void clear_and_reset_pool() { m_.clear(); }
  T* seek(const K& k) const {
    auto it = m_.find(k);
    return it == m_.end() ? nullptr : const_cast<T*>(&it->second);
  }
  T& operator[](const K& k) { return m_[k]; }
  bool resize(size_t) { return true; }
  iterator begin() { return m_.begin(); }
  iterator end() { return m_.end(); }
  const_iterator begin() const { return m_.begin(); }
  const_iterator end() const { return m_.end(); }
  void swap(FlatMap& o) {
    m_.swap(o.m_);
    std::swap(init_, o.init_);
  }
  size_t size() const { return m_.size(); }
  bool empty() const { return m_.empty(); }
  size_t bucket_count() const { return m_.bucket_count(); }
  unsigned load_factor() const { return 80; }

 private:
  M m_;
  bool init_{false};
};
template <typename K, typename H = DefaultHasher<K>, typename E = DefaultEqualTo<K>>
class FlatSet {
 public:
  int init(size_t, unsigned = 80) { return 0; }
  const void* insert(const K& k) { return &*s_.insert(k).first; }
  size_t erase(const K& k) { return s_.erase(k); }
  const K* seek(const K& k) const {
    auto it = s_.find(k);
    return it == s_.end() ? nullptr : &*it;
  }
  size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  void clear() { s_.clear(); }
  auto begin() const { return s_.begin(); }
  auto end() const { return s_.end(); }

 private:
  std::unordered_set<K, H, E> s_;
};

// ---------------------------------------------------------------- DoublyBufferedData
struct Void {};
// Two instances; readers hold a (recursive-safe) per-data reader count, a modifier writes the background
// instance, flips, waits until no reader holds the old one, then applies the same function to it.
template <typename T, typename TLS = Void, bool AllowBthreadSuspended = false>
class DoublyBufferedData {
 public:
  class ScopedPtr {
   public:
    ScopedPtr() = default;
    ~ScopedPtr() { release(); }
    ScopedPtr(const ScopedPtr&) = delete;
    void operator=(const ScopedPtr&) = delete;
    const T* get() const { return data_; }
    const T& operator*() const { return *data_; }
    const T* operator->() const { return data_; }

   private:
    friend class DoublyBufferedData;
    void release() {
      if (owner_) owner_->readers_[idx_].fetch_sub(1);
      owner_ = nullptr;
    }
    const T* data_{nullptr};
    const DoublyBufferedData* owner_{nullptr};
    int idx_{0};
  };
  DoublyBufferedData() : data_{} {}
  int Read(ScopedPtr* p) const {
    p->release();
    for (;;) {
      int i = index_.load();
      readers_[i].fetch_add(1);
      if (index_.load() == i) {
        p->data_ = &data_[i];
        p->owner_ = this;
        p->idx_ = i;
        return 0;
      }
      readers_[i].fetch_sub(1);
    }
  }
  int Read(ScopedPtr* p) {
    return const_cast<const DoublyBufferedData*>(this)->Read(p);
  }
  template <typename Fn>
  auto Read(Fn&& fn) -> decltype(fn(std::declval<const T&>()), 0) {
    ScopedPtr p;
    Read(&p);
    fn(*p);
    return 0;
  }
  template <typename Fn, typename... Args>
  size_t Modify(Fn&& fn, Args&&... args) {
    std::lock_guard<std::mutex> lk(mu_);
    int bg = !index_.load();
    const size_t ret = fn(data_[bg], args...);
    if (!ret) return 0;
    index_.store(bg);
    int old = !bg;
    while (readers_[old].load() != 0) std::this_thread::yield();
    const size_t ret2 = fn(data_[old], args...);
    CHECK_EQ(ret2, ret) << "DoublyBufferedData Modify fn returned differently on the second instance";
    return ret2;
  }
  template <typename Fn, typename... Args>
  size_t ModifyWithForeground(Fn&& fn, Args&&... args) {
    std::lock_guard<std::mutex> lk(mu_);
    int bg = !index_.load();
    const size_t ret = fn(data_[bg], (const T&)data_[!bg], args...);
    if (!ret) return 0;
    index_.store(bg);
    while (readers_[!bg].load() != 0) std::this_thread::yield();
    return fn(data_[!bg], (const T&)data_[bg], args...);
  }

 private:
  T data_[2];
  std::atomic<int> index_{0};
  mutable std::atomic<int> readers_[2] = {{0}, {0}};
  std::mutex mu_;
};

// ---------------------------------------------------------------- IOBuf
class IOBuf {
 public:
  struct Movable {
    explicit Movable(IOBuf& b) : b_(&b) {}
    IOBuf& value() const { return *b_; }
    IOBuf* b_;
  };
  IOBuf() = default;
  IOBuf(const IOBuf&) = default;
  IOBuf(IOBuf&&) = default;
  IOBuf(const Movable& m) { s_.swap(m.value().s_); }
  IOBuf& operator=(const IOBuf&) = default;
  IOBuf& operator=(IOBuf&&) = default;
  void operator=(const Movable& m) {
    clear();
    swap(m.value());
  }
  void operator=(const char* p) { s_ = p; }
  void operator=(const std::string& p) { s_ = p; }
  void swap(IOBuf& o) { s_.swap(o.s_); }
  void clear() { s_.clear(); }
  size_t size() const { return s_.size(); }
  size_t length() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  size_t pop_front(size_t n) {
    n = std::min(n, s_.size());
    s_.erase(0, n);
    return n;
  }
  size_t pop_back(size_t n) {
    n = std::min(n, s_.size());
    s_.resize(s_.size() - n);
    return n;
  }
  size_t cutn(IOBuf* out, size_t n) {
    n = std::min(n, s_.size());
    out->s_.append(s_, 0, n);
    s_.erase(0, n);
    return n;
  }
  size_t cutn(void* out, size_t n) {
    n = std::min(n, s_.size());
    memcpy(out, s_.data(), n);
    s_.erase(0, n);
    return n;
  }
  size_t cutn(std::string* out, size_t n) {
    n = std::min(n, s_.size());
    out->append(s_, 0, n);
    s_.erase(0, n);
    return n;
  }
  bool cut1(void* c) {
    if (s_.empty()) return false;
    *(char*)c = s_[0];
    s_.erase(0, 1);
    return true;
  }
  int append(const void* d, size_t n) {
    s_.append((const char*)d, n);
    return 0;
  }
  int append(const char* d) {
    s_.append(d);
    return 0;
  }
  int append(const std::string& d) {
    s_.append(d);
    return 0;
  }
  void append(const IOBuf& o) { s_.append(o.s_); }
  void append(const Movable& m) {
    s_.append(m.value().s_);
    m.value().clear();
  }
  int append_user_data(void* d, size_t n, void (*deleter)(void*)) {
    s_.append((const char*)d, n);
    if (deleter) deleter(d);
    return 0;
  }
  int push_back(char c) {
    s_.push_back(c);
    return 0;
  }
  int resize(size_t n, char c = 0) {
    s_.resize(n, c);
    return 0;
  }
  size_t append_to(IOBuf* b, size_t n = (size_t)-1, size_t pos = 0) const {
    if (pos >= s_.size()) return 0;
    n = std::min(n, s_.size() - pos);
    b->s_.append(s_, pos, n);
    return n;
  }
  size_t copy_to(void* b, size_t n = (size_t)-1, size_t pos = 0) const {
    if (pos >= s_.size()) return 0;
    n = std::min(n, s_.size() - pos);
    memcpy(b, s_.data() + pos, n);
    return n;
  }
  size_t copy_to(std::string* b, size_t n = (size_t)-1, size_t pos = 0) const {
    b->clear();
    if (pos >= s_.size()) return 0;
    n = std::min(n, s_.size() - pos);
    b->assign(s_, pos, n);
    return n;
  }
  const void* fetch(void* aux, size_t n) const {
    if (n > s_.size()) return nullptr;
    memcpy(aux, s_.data(), n);
    return aux;
  }
  const void* fetch1() const { return s_.empty() ? nullptr : s_.data(); }
  std::string to_string() const { return s_; }
  bool equals(const IOBuf& o) const { return s_ == o.s_; }
  bool equals(const StringPiece& o) const { return std::string_view(s_) == o.sv(); }
  size_t backing_block_num() const { return s_.empty() ? 0 : 1; }
  StringPiece backing_block(size_t) const { return StringPiece(s_); }
  ssize_t cut_into_file_descriptor(int fd, size_t hint = 1024 * 1024) {
    size_t n = std::min(hint, s_.size());
    if (n == 0) return 0;
    ssize_t w = ::write(fd, s_.data(), n);
    if (w > 0) s_.erase(0, w);
    return w;
  }
  ssize_t pcut_into_file_descriptor(int fd, off_t off, size_t hint = 1024 * 1024) {
    size_t n = std::min(hint, s_.size());
    if (n == 0) return 0;
    ssize_t w = off >= 0 ? ::pwrite(fd, s_.data(), n, off) : ::write(fd, s_.data(), n);
    if (w > 0) s_.erase(0, w);
    return w;
  }
  static ssize_t cut_multiple_into_file_descriptor(int fd, IOBuf* const* pieces, size_t count) {
    ssize_t total = 0;
    for (size_t i = 0; i < count; ++i) {
      while (!pieces[i]->empty()) {
        ssize_t w = pieces[i]->cut_into_file_descriptor(fd, (size_t)-1);
        if (w < 0) return total ? total : -1;
        total += w;
      }
    }
    return total;
  }
  Movable movable() { return Movable(*this); }
  std::string& vstr() { return s_; }
  const std::string& vstr() const { return s_; }

 protected:
  std::string s_;
};
inline std::ostream& operator<<(std::ostream& os, const IOBuf& b) { return os << b.vstr(); }
inline bool operator==(const IOBuf& a, const IOBuf& b) { return a.equals(b); }
inline bool operator!=(const IOBuf& a, const IOBuf& b) { return !a.equals(b); }

class IOPortal : public IOBuf {
 public:
  IOPortal() = default;
  void return_cached_blocks() {}
  ssize_t append_from_file_descriptor(int fd, size_t max) { return pappend_from_file_descriptor(fd, -1, max); }
  ssize_t pappend_from_file_descriptor(int fd, off_t off, size_t max) {
    std::string b(max, '\0');
    ssize_t r = off < 0 ? ::read(fd, b.data(), max) : ::pread(fd, b.data(), max, off);
    if (r > 0) s_.append(b.data(), r);
    return r;
  }
};
class IOBufBuilder : public std::ostringstream {
 public:
  IOBuf& buf() {
    buf_ = str();
    return buf_;
  }
  void buf(IOBuf& b) { b = str(); }
  void move_to(IOBuf& target) {
    target = str();
    str("");
  }

 private:
  IOBuf buf_;
};
class IOBufAsZeroCopyInputStream : public google::protobuf::io::ZeroCopyInputStream {
 public:
  explicit IOBufAsZeroCopyInputStream(const IOBuf& b) : b_(&b) {}
  bool Next(const void** d, int* n) override {
    if (pos_ >= b_->size()) return false;
    *d = b_->vstr().data() + pos_;
    *n = (int)(b_->size() - pos_);
    pos_ = b_->size();
    return true;
  }
  void BackUp(int n) override { pos_ -= n; }
  bool Skip(int n) override {
    pos_ += n;
    if (pos_ > b_->size()) {
      pos_ = b_->size();
      return false;
    }
    return true;
  }
  int64_t ByteCount() const override { return pos_; }

 private:
  const IOBuf* b_;
  size_t pos_{0};
};
class IOBufAsZeroCopyOutputStream : public google::protobuf::io::ZeroCopyOutputStream {
 public:
  explicit IOBufAsZeroCopyOutputStream(IOBuf* b) : b_(b) {}
  bool Next(void** d, int* n) override {
    size_t old = b_->size();
    b_->vstr().resize(old + 4096);
    *d = b_->vstr().data() + old;
    *n = 4096;
    count_ += 4096;
    return true;
  }
  void BackUp(int n) override {
    b_->vstr().resize(b_->size() - n);
    count_ -= n;
  }
  int64_t ByteCount() const override { return count_; }

 private:
  IOBuf* b_;
  int64_t count_{0};
};

class RawPacker {
 public:
  explicit RawPacker(void* s) : p_((char*)s) {}
  RawPacker& pack32(uint32_t v) {
    v = htonl(v);
    memcpy(p_, &v, 4);
    p_ += 4;
    return *this;
  }
  RawPacker& pack64(uint64_t v) {
    pack32(v >> 32);
    return pack32((uint32_t)v);
  }

 private:
  char* p_;
};
class RawUnpacker {
 public:
  explicit RawUnpacker(const void* s) : p_((const char*)s) {}
  RawUnpacker& unpack32(uint32_t& v) {
    memcpy(&v, p_, 4);
    v = ntohl(v);
    p_ += 4;
    return *this;
  }
  RawUnpacker& unpack64(uint64_t& v) {
    uint32_t a, b;
    unpack32(a);
    unpack32(b);
    v = ((uint64_t)a << 32) | b;
    return *this;
  }

 private:
  const char* p_;
};

namespace crc32c {
uint32_t Extend(uint32_t init, const char* d, size_t n);
inline bool IsFastCrc32Supported() { return true; }
inline uint32_t Value(const char* d, size_t n) { return Extend(0, d, n); }
}  // namespace crc32c
void MurmurHash3_x86_32(const void* key, int len, uint32_t seed, void* out);

// ---------------------------------------------------------------- files
class FilePath {
 public:
  using StringType = std::string;
  FilePath() = default;
  explicit FilePath(const std::string& p) : p_(p) {}
  const std::string& value() const { return p_; }
  bool empty() const { return p_.empty(); }
  std::string MaybeAsASCII() const { return p_; }
  std::string AsUTF8Unsafe() const { return p_; }
  FilePath Append(const std::string& s) const {
    if (p_.empty()) return FilePath(s);
    return FilePath(p_.back() == '/' ? p_ + s : p_ + "/" + s);
  }
  FilePath DirName() const {
    auto i = p_.rfind('/');
    if (i == std::string::npos) return FilePath(".");
    return FilePath(i == 0 ? "/" : p_.substr(0, i));
  }
  FilePath BaseName() const {
    auto i = p_.rfind('/');
    return FilePath(i == std::string::npos ? p_ : p_.substr(i + 1));
  }

 private:
  std::string p_;
};
class File {
 public:
  enum Error {
    FILE_OK = 0,
    FILE_ERROR_FAILED = -1,
    FILE_ERROR_IN_USE = -2,
    FILE_ERROR_EXISTS = -3,
    FILE_ERROR_NOT_FOUND = -4,
    FILE_ERROR_ACCESS_DENIED = -5,
    FILE_ERROR_TOO_MANY_OPENED = -6,
    FILE_ERROR_NO_MEMORY = -7,
    FILE_ERROR_NO_SPACE = -8,
    FILE_ERROR_NOT_A_DIRECTORY = -9,
    FILE_ERROR_INVALID_OPERATION = -10,
    FILE_ERROR_SECURITY = -11,
    FILE_ERROR_ABORT = -12,
    FILE_ERROR_NOT_A_FILE = -13,
    FILE_ERROR_NOT_EMPTY = -14,
    FILE_ERROR_INVALID_URL = -15,
    FILE_ERROR_IO = -16,
    FILE_ERROR_MAX = -17
  };
  static Error OSErrorToFileError(int e);
};
bool DeleteFile(const FilePath& p, bool recursive);
bool PathExists(const FilePath& p);
bool DirectoryExists(const FilePath& p);
bool CreateDirectoryAndGetError(const FilePath& p, File::Error* e, bool create_parents = true);
bool CreateDirectory(const FilePath& p);
bool ReplaceFile(const FilePath& a, const FilePath& b, File::Error* e);
bool GetFileSize(const FilePath& p, int64_t* s);
bool ReadFileToString(const FilePath& p, std::string* s);
int WriteFile(const FilePath& p, const char* d, int n);
inline int make_close_on_exec(int fd) { return fcntl(fd, F_SETFD, FD_CLOEXEC); }
inline int make_non_blocking(int fd) { return fcntl(fd, F_SETFL, fcntl(fd, F_GETFL, 0) | O_NONBLOCK); }
class DirReaderPosix {
 public:
  explicit DirReaderPosix(const char* d) : d_(opendir(d)) {}
  ~DirReaderPosix() {
    if (d_) closedir(d_);
  }
  bool IsValid() const { return d_ != nullptr; }
  bool Next() {
    while (d_ && (e_ = readdir(d_))) {
      if (strcmp(e_->d_name, ".") && strcmp(e_->d_name, "..")) return true;
    }
    return false;
  }
  const char* name() const { return e_->d_name; }
  static bool IsFallback() { return false; }

 private:
  DIR* d_;
  dirent* e_{nullptr};
};
using DirReaderLinux = DirReaderPosix;
class fd_guard {
 public:
  fd_guard() = default;
  explicit fd_guard(int fd) : fd_(fd) {}
  ~fd_guard() { reset(-1); }
  void reset(int fd) {
    if (fd_ >= 0) ::close(fd_);
    fd_ = fd;
  }
  int release() {
    int r = fd_;
    fd_ = -1;
    return r;
  }
  operator int() const { return fd_; }

 private:
  int fd_{-1};
};

// ---------------------------------------------------------------- refcount
template <class T>
struct DefaultRefCountedThreadSafeTraits {
  static void Destruct(const T* x) { delete x; }
};
template <class T, typename Tr = DefaultRefCountedThreadSafeTraits<T>>
class RefCountedThreadSafe {
 public:
  void AddRef() const { n_.fetch_add(1); }
  void Release() const {
    if (n_.fetch_sub(1) == 1) Tr::Destruct(static_cast<const T*>(this));
  }
  bool HasOneRef() const { return n_.load() == 1; }

 protected:
  ~RefCountedThreadSafe() = default;

 private:
  mutable std::atomic<int> n_{0};
};
}  // namespace butil
namespace std {
template <>
struct hash<butil::EndPoint> {
  size_t operator()(const butil::EndPoint& e) const { return std::hash<uint64_t>()((uint64_t(e.ip.s_addr) << 16) ^ uint64_t(e.port)); }
};
}  // namespace std

template <class T>
class scoped_refptr {
 public:
  scoped_refptr() = default;
  scoped_refptr(T* p) : p_(p) {
    if (p_) p_->AddRef();
  }
  scoped_refptr(const scoped_refptr& o) : scoped_refptr(o.p_) {}
  template <class U>
  scoped_refptr(const scoped_refptr<U>& o) : scoped_refptr(o.get()) {}
  ~scoped_refptr() {
    if (p_) p_->Release();
  }
  T* get() const { return p_; }
  operator T*() const { return p_; }
  T* operator->() const { return p_; }
  scoped_refptr& operator=(T* p) {
    if (p) p->AddRef();
    T* o = p_;
    p_ = p;
    if (o) o->Release();
    return *this;
  }
  scoped_refptr& operator=(const scoped_refptr& r) { return *this = r.p_; }
  void swap(scoped_refptr& r) { std::swap(p_, r.p_); }
  void reset(T* p = nullptr) { *this = p; }

 private:
  T* p_{nullptr};
};

// ---------------------------------------------------------------- scoped lock
namespace butil {
using ScopedRefPtrTag = Void;
template <typename M>
struct VLockOf {
  using type = std::lock_guard<M>;
};
namespace detail {
template <typename M>
typename VLockOf<std::remove_reference_t<M>>::type get_lock_guard();
}
template <typename... L>
inline void double_lock(L&... l) {
  std::lock(l...);
}
}  // namespace butil
#define BAIDU_SCOPED_LOCK(ref_of_lock)                                                                       \
  typename ::butil::VLockOf<std::remove_reference_t<decltype(ref_of_lock)>>::type BAIDU_CONCAT(              \
      scoped_locker_dummy_at_line_, __LINE__)(ref_of_lock)
namespace std {
template <>
class lock_guard<pthread_mutex_t> {
 public:
  explicit lock_guard(pthread_mutex_t& m) : m_(&m) { pthread_mutex_lock(m_); }
  ~lock_guard() { pthread_mutex_unlock(m_); }
  lock_guard(const lock_guard&) = delete;

 private:
  pthread_mutex_t* m_;
};
}  // namespace std
