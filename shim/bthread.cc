#include "vshim/bthread.h"
#include "vshim/bvar.h"
namespace vshim {
std::function<int(uint64_t)> g_usleep_hook;
std::atomic<bool> g_bthread_inline{false};
std::function<bool(std::function<void()>)> g_bthread_spawn_hook;
std::atomic<bool> g_execq_inline{false};
}  // namespace vshim
namespace bthread {
DEFINE_int32(bthread_concurrency, 9, "");
}
namespace {
struct Reg {
  std::mutex m;
  std::condition_variable c;
  uint64_t next{1};
  std::set<uint64_t> live;
};
Reg& R() {
  static Reg* r = new Reg;
  return *r;
}
thread_local bthread_t t_self = 0;
int Start(bthread_t* tid, void* (*fn)(void*), void* arg) {
  uint64_t id;
  {
    std::lock_guard<std::mutex> l(R().m);
    id = R().next++;
    R().live.insert(id);
  }
  if (tid) *tid = id;
  auto body = [=] {
    auto old = t_self;
    t_self = id;
    fn(arg);
    t_self = old;
    std::lock_guard<std::mutex> l(R().m);
    R().live.erase(id);
    R().c.notify_all();
  };
  if (vshim::g_bthread_spawn_hook && vshim::g_bthread_spawn_hook(body)) return 0;
  if (vshim::g_bthread_inline.load()) {
    body();
    return 0;
  }
  std::thread(body).detach();
  return 0;
}
}  // namespace
int bthread_start_background(bthread_t* t, const bthread_attr_t*, void* (*fn)(void*), void* a) { return Start(t, fn, a); }
int bthread_start_urgent(bthread_t* t, const bthread_attr_t*, void* (*fn)(void*), void* a) { return Start(t, fn, a); }
int bthread_join(bthread_t t, void**) {
  std::unique_lock<std::mutex> l(R().m);
  R().c.wait(l, [&] { return !R().live.count(t); });
  return 0;
}
bthread_t bthread_self() { return t_self; }
int bthread_usleep(uint64_t us) {
  if (vshim::g_usleep_hook) return vshim::g_usleep_hook(us);
  std::this_thread::sleep_for(std::chrono::microseconds(us));
  return 0;
}
int bthread_yield() {
  std::this_thread::yield();
  return 0;
}
int bthread_setconcurrency(int n) {
  bthread::FLAGS_bthread_concurrency = n;
  return 0;
}
int bthread_getconcurrency() { return bthread::FLAGS_bthread_concurrency; }
int bthread_timer_add(bthread_timer_t* id, timespec, void (*)(void*), void*) {
  if (id) *id = 1;
  return 0;
}
int bthread_timer_del(bthread_timer_t) { return 0; }
namespace bthread {
namespace {
struct Butex {
  int v{0};
  std::mutex m;
  std::condition_variable c;
};
}  // namespace
void* butex_create() { return &(new Butex)->v; }
void butex_destroy(void* p) { delete (Butex*)p; }
int butex_wake(void* p, bool) {
  auto* b = (Butex*)p;
  std::lock_guard<std::mutex> l(b->m);
  b->c.notify_one();
  return 1;
}
int butex_wake_all(void* p, bool) {
  auto* b = (Butex*)p;
  std::lock_guard<std::mutex> l(b->m);
  b->c.notify_all();
  return 1;
}
int butex_wait(void* p, int expected, const timespec* abst, bool) {
  auto* b = (Butex*)p;
  std::unique_lock<std::mutex> l(b->m);
  if (((std::atomic<int>*)&b->v)->load() != expected) {
    errno = EWOULDBLOCK;
    return -1;
  }
  if (abst) {
    auto tp = std::chrono::system_clock::time_point(
        std::chrono::microseconds(abst->tv_sec * 1000000LL + abst->tv_nsec / 1000));
    if (b->c.wait_until(l, tp) == std::cv_status::timeout) {
      errno = ETIMEDOUT;
      return -1;
    }
  } else {
    b->c.wait(l);
  }
  return 0;
}
}  // namespace bthread
namespace bvar {
DEFINE_int32(bvar_latency_p1, 80, "");
DEFINE_int32(bvar_latency_p2, 90, "");
DEFINE_int32(bvar_latency_p3, 99, "");
DEFINE_int32(bvar_max_dump_multi_dimension_metric_number, 1024, "");
}  // namespace bvar
