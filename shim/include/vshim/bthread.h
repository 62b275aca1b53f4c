// Stand-in for brpc's bthread on top of pthreads.
#pragma once
#include <pthread.h>

#include <chrono>
#include <condition_variable>
#include <functional>
#include <queue>

#include "vshim/butil.h"
#include "vshim/bvar.h"

typedef uint64_t bthread_t;
typedef int bthread_tag_t;
typedef uint64_t bthread_timer_t;
typedef pthread_mutex_t bthread_mutex_t;
typedef pthread_cond_t bthread_cond_t;
typedef pthread_mutexattr_t bthread_mutexattr_t;
typedef pthread_condattr_t bthread_condattr_t;
struct bthread_attr_t {
  int stack_type{0};
  int flags{0};
  void* keytable_pool{nullptr};
  int tag{0};
};
static const bthread_attr_t BTHREAD_ATTR_NORMAL = {3, 0, nullptr, 0};
static const bthread_attr_t BTHREAD_ATTR_SMALL = {2, 0, nullptr, 0};
static const bthread_attr_t BTHREAD_ATTR_LARGE = {4, 0, nullptr, 0};
static const bthread_attr_t BTHREAD_ATTR_PTHREAD = {1, 0, nullptr, 0};
static const bthread_t INVALID_BTHREAD = 0;
static const bthread_tag_t BTHREAD_TAG_DEFAULT = 0;
#define BTHREAD_MUTEX_INITIALIZER PTHREAD_MUTEX_INITIALIZER

namespace vshim {
// Optional hook: replaces real sleeping (harnesses advance a virtual clock or just skip).
extern std::function<int(uint64_t)> g_usleep_hook;
// When true, bthread_start_* runs the function inline on the calling thread.
extern std::atomic<bool> g_bthread_inline;
// When set, receives every bthread_start_* function instead of starting a thread.
extern std::function<bool(std::function<void()>)> g_bthread_spawn_hook;
// When true, ExecutionQueue tasks run inline in execution_queue_execute.
extern std::atomic<bool> g_execq_inline;
}  // namespace vshim

int bthread_start_background(bthread_t* tid, const bthread_attr_t* attr, void* (*fn)(void*), void* arg);
int bthread_start_urgent(bthread_t* tid, const bthread_attr_t* attr, void* (*fn)(void*), void* arg);
int bthread_join(bthread_t tid, void** ret);
int bthread_usleep(uint64_t us);
int bthread_yield();
bthread_t bthread_self();
inline int bthread_stop(bthread_t) { return 0; }
inline int bthread_stopped(bthread_t) { return 0; }
int bthread_setconcurrency(int n);
int bthread_getconcurrency();
inline int bthread_getconcurrency_by_tag(bthread_tag_t) { return bthread_getconcurrency(); }
int bthread_timer_add(bthread_timer_t* id, timespec abstime, void (*on_timer)(void*), void* arg);
int bthread_timer_del(bthread_timer_t id);

inline int bthread_mutex_init(bthread_mutex_t* m, const bthread_mutexattr_t*) { return pthread_mutex_init(m, nullptr); }
inline int bthread_mutex_destroy(bthread_mutex_t* m) { return pthread_mutex_destroy(m); }
inline int bthread_mutex_lock(bthread_mutex_t* m) { return pthread_mutex_lock(m); }
inline int bthread_mutex_trylock(bthread_mutex_t* m) { return pthread_mutex_trylock(m); }
inline int bthread_mutex_unlock(bthread_mutex_t* m) { return pthread_mutex_unlock(m); }
inline int bthread_cond_init(bthread_cond_t* c, const bthread_condattr_t*) { return pthread_cond_init(c, nullptr); }
inline int bthread_cond_destroy(bthread_cond_t* c) { return pthread_cond_destroy(c); }
inline int bthread_cond_signal(bthread_cond_t* c) { return pthread_cond_signal(c); }
inline int bthread_cond_broadcast(bthread_cond_t* c) { return pthread_cond_broadcast(c); }
inline int bthread_cond_wait(bthread_cond_t* c, bthread_mutex_t* m) { return pthread_cond_wait(c, m); }
inline int bthread_cond_timedwait(bthread_cond_t* c, bthread_mutex_t* m, const timespec* t) {
  return pthread_cond_timedwait(c, m, t);
}

namespace bthread {
DECLARE_int32(bthread_concurrency);
class Mutex {
 public:
  typedef bthread_mutex_t* native_handler_type;
  Mutex() { pthread_mutex_init(&m_, nullptr); }
  ~Mutex() { pthread_mutex_destroy(&m_); }
  Mutex(const Mutex&) = delete;
  void lock() { pthread_mutex_lock(&m_); }
  void unlock() { pthread_mutex_unlock(&m_); }
  bool try_lock() { return pthread_mutex_trylock(&m_) == 0; }
  native_handler_type native_handler() { return &m_; }

 private:
  bthread_mutex_t m_;
};
class ConditionVariable {
 public:
  ConditionVariable() { pthread_cond_init(&c_, nullptr); }
  ~ConditionVariable() { pthread_cond_destroy(&c_); }
  void wait(std::unique_lock<Mutex>& l) { pthread_cond_wait(&c_, l.mutex()->native_handler()); }
  template <typename P>
  void wait(std::unique_lock<Mutex>& l, P p) {
    while (!p()) wait(l);
  }
  int wait_until(std::unique_lock<Mutex>& l, timespec t) {
    return pthread_cond_timedwait(&c_, l.mutex()->native_handler(), &t);
  }
  int wait_for(std::unique_lock<Mutex>& l, long us) { return wait_until(l, butil::microseconds_from_now(us)); }
  void notify_one() { pthread_cond_signal(&c_); }
  void notify_all() { pthread_cond_broadcast(&c_); }

 private:
  bthread_cond_t c_;
};
class CountdownEvent {
 public:
  explicit CountdownEvent(int n = 1) : n_(n) {}
  void signal(int s = 1) {
    std::lock_guard<std::mutex> l(m_);
    n_ -= s;
    if (n_ <= 0) c_.notify_all();
  }
  int wait() {
    std::unique_lock<std::mutex> l(m_);
    c_.wait(l, [this] { return n_ <= 0; });
    return 0;
  }
  void add_count(int v = 1) {
    std::lock_guard<std::mutex> l(m_);
    n_ += v;
  }
  void reset(int v = 1) {
    std::lock_guard<std::mutex> l(m_);
    n_ = v;
  }

 private:
  int n_;
  std::mutex m_;
  std::condition_variable c_;
};

void* butex_create();
template <typename T>
T* butex_create_checked() {
  return static_cast<T*>(butex_create());
}
void butex_destroy(void*);
int butex_wake(void*, bool nosignal = false);
int butex_wake_all(void*, bool nosignal = false);
int butex_wait(void*, int expected, const timespec* abstime, bool prepend = false);

// ---------------------------------------------------------------- execution queue
struct ExecutionQueueOptions {
  bool use_pthread{false};
  bthread_attr_t bthread_attr{};
  void* executor{nullptr};
};
struct TaskOptions {
  bool high_priority{false};
  bool in_place_if_possible{false};
};
static const TaskOptions TASK_OPTIONS_NORMAL{};
static const TaskOptions TASK_OPTIONS_URGENT{true, false};
static const TaskOptions TASK_OPTIONS_INPLACE{false, true};
struct TaskHandle {};
template <typename T>
class TaskIterator {
 public:
  TaskIterator(std::deque<T>* items, bool stopped) : items_(items), stopped_(stopped) {}
  bool is_queue_stopped() const { return stopped_; }
  operator bool() const { return items_ && i_ < items_->size(); }
  T& operator*() const { return (*items_)[i_]; }
  T* operator->() const { return &(*items_)[i_]; }
  TaskIterator& operator++() {
    ++i_;
    return *this;
  }
  void operator++(int) { ++i_; }

 private:
  std::deque<T>* items_;
  size_t i_{0};
  bool stopped_;
};
template <typename T>
struct ExecutionQueueImpl {
  std::mutex m;
  std::condition_variable c;
  std::deque<T> q;
  bool stopping{false}, done{false};
  int (*fn)(void*, TaskIterator<T>&){nullptr};
  void* meta{nullptr};
  std::thread th;
  std::recursive_mutex inl;
};
template <typename T>
struct ExecutionQueueId {
  uint64_t value{0};
  ExecutionQueueImpl<T>* impl{nullptr};
};
template <typename T>
int execution_queue_start(ExecutionQueueId<T>* id, const ExecutionQueueOptions*, int (*fn)(void*, TaskIterator<T>&),
                          void* meta) {
  auto* q = new ExecutionQueueImpl<T>();
  q->fn = fn;
  q->meta = meta;
  id->impl = q;
  id->value = (uint64_t)q;
  if (vshim::g_execq_inline.load()) return 0;
  q->th = std::thread([q] {
    for (;;) {
      std::deque<T> batch;
      {
        std::unique_lock<std::mutex> l(q->m);
        q->c.wait(l, [q] { return q->stopping || !q->q.empty(); });
        if (q->q.empty()) break;
        batch.swap(q->q);
      }
      TaskIterator<T> it(&batch, false);
      q->fn(q->meta, it);
    }
    TaskIterator<T> it(nullptr, true);
    q->fn(q->meta, it);
  });
  return 0;
}
template <typename T>
int execution_queue_execute(ExecutionQueueId<T> id, const T& task) {
  auto* q = id.impl;
  if (!q) return EINVAL;
  if (!q->th.joinable()) {
    std::lock_guard<std::recursive_mutex> l(q->inl);
    if (q->stopping) return EINVAL;
    std::deque<T> batch{task};
    TaskIterator<T> it(&batch, false);
    q->fn(q->meta, it);
    return 0;
  }
  std::lock_guard<std::mutex> l(q->m);
  if (q->stopping) return EINVAL;
  q->q.push_back(task);
  q->c.notify_one();
  return 0;
}
template <typename T>
int execution_queue_execute(ExecutionQueueId<T> id, const T& task, const TaskOptions*) {
  return execution_queue_execute(id, task);
}
template <typename T>
int execution_queue_stop(ExecutionQueueId<T> id) {
  auto* q = id.impl;
  if (!q) return EINVAL;
  {
    std::lock_guard<std::mutex> l(q->m);
    if (q->stopping) return EINVAL;
    q->stopping = true;
    q->c.notify_all();
  }
  if (!q->th.joinable()) {
    TaskIterator<T> it(nullptr, true);
    q->fn(q->meta, it);
  }
  return 0;
}
template <typename T>
int execution_queue_join(ExecutionQueueId<T> id) {
  auto* q = id.impl;
  if (!q) return EINVAL;
  if (q->th.joinable()) q->th.join();
  return 0;
}
}  // namespace bthread

namespace std {
template <>
class unique_lock<pthread_mutex_t> {
 public:
  typedef pthread_mutex_t mutex_type;
  unique_lock() = default;
  explicit unique_lock(mutex_type& m) : m_(&m), own_(true) { pthread_mutex_lock(m_); }
  unique_lock(mutex_type& m, defer_lock_t) : m_(&m) {}
  unique_lock(mutex_type& m, try_to_lock_t) : m_(&m), own_(pthread_mutex_trylock(&m) == 0) {}
  unique_lock(mutex_type& m, adopt_lock_t) : m_(&m), own_(true) {}
  ~unique_lock() {
    if (own_) pthread_mutex_unlock(m_);
  }
  void lock() {
    pthread_mutex_lock(m_);
    own_ = true;
  }
  bool try_lock() { return own_ = pthread_mutex_trylock(m_) == 0; }
  void unlock() {
    pthread_mutex_unlock(m_);
    own_ = false;
  }
  mutex_type* release() {
    auto* r = m_;
    m_ = nullptr;
    own_ = false;
    return r;
  }
  mutex_type* mutex() { return m_; }
  bool owns_lock() const { return own_; }
  operator bool() const { return own_; }
  unique_lock(const unique_lock&) = delete;

 private:
  mutex_type* m_{nullptr};
  bool own_{false};
};
}  // namespace std
