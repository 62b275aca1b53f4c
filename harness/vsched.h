#pragma once
// Deterministic schedules: pthread mutexes, condition variables and threads of the process under test are interposed, so
// inside sched::Run exactly one thread runs at a time and the case's choices decide at every lock, unlock, wait, signal,
// thread start, join and sleep which one goes on.  Blocking everything is a deadlock.  Time is virtual.
// Include in one translation unit per harness.
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>

#include <thread>

#include "vshim/bthread.h"
#include "vt.h"

namespace sched {
enum St { RUN, MUTEX, COND, JOIN, SLEEP, DONE };
struct Th {
  int id;
  St st{RUN};
  void* obj{nullptr};
  bool timed{false}, timed_out{false};
  uint64_t wake{0};
  sem_t sem;
  pthread_t pt{};
};
struct State {
  vt::Src* s{nullptr};
  std::vector<Th*> th;
  uint64_t now{0};   // virtual microseconds
  uint64_t steps{0};
  int den{6};
  bool failed{false};
  vt::Fail fail;
  jmp_buf env;
  uint64_t switches{0};
};
inline State* g = nullptr;
inline thread_local Th* me = nullptr;

template <class F>
F Real(F, const char* n, const char* v = nullptr) {
  void* p = v ? dlvsym(RTLD_NEXT, n, v) : nullptr;
  if (!p) p = dlsym(RTLD_NEXT, n);
  return (F)p;
}
#define VT_REAL(name, ver) static auto real = sched::Real(&name, #name, ver)

inline void SwitchTo(Th* t) {
  Th* self = me;
  if (t == self) return;
  g->switches++;
  bool done = self->st == DONE;  // a finished thread's record may be gone as soon as another one runs
  sem_post(&t->sem);
  if (done) return;
  while (sem_wait(&self->sem) != 0) {
  }
  if (self->id == 0 && g->failed) longjmp(g->env, 1);
}
[[noreturn]] inline void FailNow(const std::string& sig, const std::string& msg) {
  if (!g->failed) {
    g->failed = true;
    g->fail = {sig, msg};
  }
  if (me->id == 0) longjmp(g->env, 1);
  sem_post(&g->th[0]->sem);
  for (;;) pause();
}
inline std::string Describe() {
  static const char* n[] = {"run", "mutex", "cond", "join", "sleep", "done"};
  std::string r;
  for (auto* t : g->th) r += " t" + std::to_string(t->id) + ":" + n[t->st] + (t->timed ? "(timed)" : "");
  return r;
}
// picks who runs; `forced` when the caller cannot go on
inline void Reschedule(bool forced) {
  if (g->failed) {
    if (me->id == 0) longjmp(g->env, 1);
    if (me->st == DONE) return;
    for (;;) pause();
  }
  g->steps++;
  g->now++;
  for (auto* t : g->th)
    if ((t->st == SLEEP || (t->st == COND && t->timed)) && t->wake <= g->now) {
      t->timed_out = t->st == COND;
      t->st = RUN;
    }
  if (me->st == RUN) forced = false;
  if (g->steps > 400000) FailNow("livelock", "no end after 400000 scheduling steps:" + Describe());
  for (;;) {
    std::vector<Th*> c;
    for (auto* t : g->th)
      if (t->st == RUN && t != me) c.push_back(t);
    bool self = !forced && me->st == RUN;
    if (self && c.empty()) return;
    if (self) {
      uint64_t r = g->steps > 20000 ? (g->steps % 64 ? 0 : g->den - 1) : g->s->Below(g->den);
      if (r + 1 < (uint64_t)g->den) return;
    }
    if (!c.empty()) {
      size_t k = c.size() == 1 ? 0 : g->steps > 20000 ? g->steps % c.size() : g->s->Below(c.size());
      SwitchTo(c[k]);
      return;
    }
    // everybody waits: let time pass
    Th* best = nullptr;
    for (auto* t : g->th)
      if ((t->st == SLEEP || (t->st == COND && t->timed)) && (!best || t->wake < best->wake)) best = t;
    if (!best) {
      bool all = true;
      for (auto* t : g->th) all = all && t->st == DONE;
      if (all) return;
      FailNow("deadlock", "no thread can go on:" + Describe());
    }
    if (best->wake > g->now) g->now = best->wake;
    best->timed_out = best->st == COND;
    best->st = RUN;
    if (best == me) return;
  }
}
inline void Point() {
  if (me && g) Reschedule(false);
}
inline void Block(St st, void* obj) {
  me->st = st;
  me->obj = obj;
  Reschedule(true);
}
inline void WakeMutex(void* m) {
  for (auto* t : g->th)
    if (t->st == MUTEX && t->obj == m) t->st = RUN;
}
inline void Sleep(uint64_t us) {
  me->wake = g->now + us;
  Block(SLEEP, nullptr);
}

// Runs fn as thread 0 with every thread it starts; all of them have to end.  Failures of any thread surface here.
inline void Run(vt::Src& s, const std::function<void()>& fn) {
  State st;
  st.s = &s;
  st.den = s.OneOf<int>({3, 6, 2, 12, 30});
  Th t0;
  t0.id = 0;
  sem_init(&t0.sem, 0, 0);
  t0.pt = pthread_self();
  st.th.push_back(&t0);
  auto old = vshim::g_usleep_hook;
  auto end = [&] {
    me = nullptr;
    g = nullptr;
    vshim::g_usleep_hook = old;
  };
  vshim::g_usleep_hook = [&](uint64_t us) {
    if (me)
      Sleep(us);
    else
      ::usleep(us);
    return 0;
  };
  g = &st;
  me = &t0;
  if (setjmp(st.env)) {
    vt::Fail f = *new vt::Fail(g->fail);
    // the other threads stay parked; the worker process reports and ends
    static std::vector<State*> leak;
    leak.push_back(new State(*g));
    end();
    throw f;
  }
  try {
    fn();
    for (;;) {  // let the remaining threads end
      bool all = true;
      for (auto* t : st.th) all = all && (t == &t0 || t->st == DONE);
      if (all) break;
      me->wake = g->now + 1000000;
      Block(SLEEP, nullptr);
      if (g->now > 100000000000ull) FailNow("thread-leak", "threads never end:" + Describe());
    }
  } catch (...) {
    g->failed = true;  // park the others
    end();
    throw;
  }
  end();
  for (auto* t : st.th)
    if (t != &t0) {
      sem_destroy(&t->sem);
      delete t;
    }
  sem_destroy(&t0.sem);
}
// starts a checked thread; VT_CHECK may be used inside
struct Thread {
  std::thread th;
  explicit Thread(std::function<void()> f)
      : th([f] {
          try {
            f();
          } catch (vt::Fail& e) {
            FailNow(e.sig, e.msg);
          } catch (std::exception& e) {
            FailNow("exception", e.what());
          }
        }) {}
  void Join() { th.join(); }
};
struct Boot {
  void* (*fn)(void*);
  void* arg;
  Th* t;
};
inline void* BootFn(void* p) {
  Boot b = *(Boot*)p;
  delete (Boot*)p;
  while (sem_wait(&b.t->sem) != 0) {
  }
  me = b.t;
  void* r = b.fn(b.arg);
  if (g && !g->failed) {
    me->st = DONE;
    for (auto* t : g->th)
      if (t->st == JOIN && t->obj == me) t->st = RUN;
    Reschedule(true);
  }
  me = nullptr;
  return r;
}
inline int LockLoop(pthread_mutex_t* m, int (*try_)(pthread_mutex_t*)) {
  for (;;) {
    int r = try_(m);
    if (r != EBUSY) return r;
    Block(MUTEX, m);
  }
}
}  // namespace sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  VT_REAL(pthread_mutex_lock, nullptr);
  if (!sched::me || !sched::g) return real(m);
  static auto tr = sched::Real(&pthread_mutex_trylock, "pthread_mutex_trylock");
  sched::Reschedule(false);
  return sched::LockLoop(m, tr);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  VT_REAL(pthread_mutex_unlock, nullptr);
  int r = real(m);
  if (sched::me && sched::g) {
    sched::WakeMutex(m);
    sched::Reschedule(false);
  }
  return r;
}
static int vt_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t us) {
  static auto un = sched::Real(&pthread_mutex_unlock, "pthread_mutex_unlock");
  static auto tr = sched::Real(&pthread_mutex_trylock, "pthread_mutex_trylock");
  auto* me = sched::me;
  sched::Reschedule(false);  // the caller may be preempted between testing its condition and waiting
  un(m);
  sched::WakeMutex(m);
  me->timed = timed;
  me->timed_out = false;
  me->wake = sched::g->now + us;
  sched::Block(sched::COND, c);
  bool to = me->timed_out;
  me->timed = false;
  sched::LockLoop(m, tr);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  VT_REAL(pthread_cond_wait, "GLIBC_2.3.2");
  if (!sched::me || !sched::g) return real(c, m);
  return vt_wait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  VT_REAL(pthread_cond_timedwait, "GLIBC_2.3.2");
  if (!sched::me || !sched::g) return real(c, m, t);
  timespec n;
  clock_gettime(CLOCK_REALTIME, &n);
  int64_t us = (t->tv_sec - n.tv_sec) * 1000000ll + (t->tv_nsec - n.tv_nsec) / 1000;
  return vt_wait(c, m, true, us > 0 ? us : 0);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  VT_REAL(pthread_cond_clockwait, nullptr);
  if (!sched::me || !sched::g) return real(c, m, k, t);
  timespec n;
  clock_gettime(k, &n);
  int64_t us = (t->tv_sec - n.tv_sec) * 1000000ll + (t->tv_nsec - n.tv_nsec) / 1000;
  return vt_wait(c, m, true, us > 0 ? us : 0);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  VT_REAL(pthread_cond_signal, "GLIBC_2.3.2");
  if (!sched::me || !sched::g) return real(c);
  std::vector<sched::Th*> w;
  for (auto* t : sched::g->th)
    if (t->st == sched::COND && t->obj == c) w.push_back(t);
  if (!w.empty()) w[w.size() == 1 || sched::g->steps > 20000 ? 0 : sched::g->s->Below(w.size())]->st = sched::RUN;
  sched::Reschedule(false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  VT_REAL(pthread_cond_broadcast, "GLIBC_2.3.2");
  if (!sched::me || !sched::g) return real(c);
  for (auto* t : sched::g->th)
    if (t->st == sched::COND && t->obj == c) t->st = sched::RUN;
  sched::Reschedule(false);
  return 0;
}
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
  VT_REAL(pthread_create, nullptr);
  if (!sched::me || !sched::g) return real(p, a, fn, arg);
  auto* t = new sched::Th;
  t->id = (int)sched::g->th.size();
  sem_init(&t->sem, 0, 0);
  int r = real(p, a, sched::BootFn, new sched::Boot{fn, arg, t});
  if (r) return r;
  t->pt = *p;
  sched::g->th.push_back(t);
  sched::Reschedule(false);
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  VT_REAL(pthread_join, nullptr);
  if (sched::me && sched::g) {
    for (size_t i = sched::g->th.size(); i-- > 0;) {
      auto* t = sched::g->th[i];
      if (t->pt == p) {
        while (t->st != sched::DONE) sched::Block(sched::JOIN, t);
        break;
      }
    }
  }
  return real(p, ret);
}
}
