// sched.hpp - controlled scheduler for the threads the library starts.
// pthread_create / pthread_join / hardware_concurrency are interposed; exactly one thread
// runs at a time, and at every scheduling point (thread start, thread end, creation,
// joining, and wherever the harness calls point()) the model checker chooses which
// enabled thread continues.  Default: the running thread, else the oldest enabled one; the
// number of deviations from that is bounded per execution (delay bounding), or unlimited.
#pragma once
#include "common.hpp"
#include <condition_variable>
#include <dlfcn.h>
#include <mutex>
#include <pthread.h>
#include <sys/mman.h>
#include <thread>

extern "C" {
struct MonThread
{
  int tid;
  int ignore;
  uint64_t locks;
  uint32_t clk[32];
  uintptr_t lo, hi;
};
extern __thread MonThread monMe;
extern volatile int monOn;
void monBegin();
int monEnd(char *, size_t, uint64_t *);
void monFork(MonThread *, int);
void monJoin(const MonThread *);
void monStack();
void monLock(void *);
void monUnlock(void *);
}

namespace sched {
struct Ignore // accesses of the scheduler itself are not those of the program
{
  Ignore() { monMe.ignore++; }
  ~Ignore() { monMe.ignore--; }
};
struct Thr
{
  pthread_t real{};
  bool ended{ false }, joined{ false };
  int joining{ -1 };
  MonThread mon{};
  void *(*fn)(void *){ nullptr };
  void *arg{ nullptr };
  int id{ 0 };
};
using Create = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
using Join = int (*)(pthread_t, void **);
using Mtx = int (*)(pthread_mutex_t *);

struct S
{
  bool active{ false }, freeRun{ false };
  unsigned cores{ 4 };
  mc::Ctx *ctx{ nullptr };
  std::vector<std::unique_ptr<Thr>> t;
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
  int token{ 0 };
  uint64_t progress{ 0 };
  int switches{ 0 }, maxSwitches{ 1000000 };
  std::exception_ptr stop; // the explorer asked to stop this execution
  int created{ 0 };
};
inline S g;
inline thread_local int me = -1; // -1: not managed

template <typename F>
F real(const char *n)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
inline bool enabled(const Thr &x) { return !x.ended && (x.joining < 0 || g.t[static_cast<size_t>(x.joining)]->ended); }

// g.m held: choose who goes on
inline void pickNext(int self)
{
  std::vector<int> en;
  for (auto &x : g.t)
    if (enabled(*x)) en.push_back(x->id);
  if (en.empty()) {
    g.token = -1;
    return;
  }
  // the running thread first, so that choice 0 is "no switch"
  auto it = std::find(en.begin(), en.end(), self);
  const bool can = it != en.end();
  if (can) std::rotate(en.begin(), it, it + 1);
  size_t k = 0;
  if (en.size() > 1 && !g.stop && g.switches < g.maxSwitches) {
    try {
      k = static_cast<size_t>(g.ctx->choose(static_cast<int>(en.size()), "next thread"));
    } catch (...) {
      g.stop = std::current_exception();
      k = 0;
    }
  }
  if (k) g.switches++;
  g.token = en[k];
}
// g.m held: wait for our turn; gives up when nothing moves (the program blocks on its own)
inline void await(int self)
{
  while (g.token != self && !g.freeRun) {
    const auto seen = g.progress;
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 4;
    if (pthread_cond_timedwait(&g.cv, &g.m, &ts) == ETIMEDOUT && g.progress == seen && g.token != self) {
      g.freeRun = true;
      pthread_cond_broadcast(&g.cv);
    }
  }
}
inline void point()
{
  if (!g.active || me < 0) return;
  Ignore ig;
  pthread_mutex_lock(&g.m);
  g.progress++;
  pickNext(me);
  pthread_cond_broadcast(&g.cv);
  await(me);
  pthread_mutex_unlock(&g.m);
}
constexpr size_t stackSize = size_t(1) << 19;
inline std::vector<char *> stacks;
inline char *stack(int id)
{
  while (stacks.size() <= static_cast<size_t>(id)) stacks.push_back(static_cast<char *>(mmap(nullptr, stackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)));
  return stacks[static_cast<size_t>(id)];
}
inline void *trampoline(void *p)
{
  auto *t = static_cast<Thr *>(p);
  monMe = t->mon;
  monMe.ignore = 1;
  me = t->id;
  pthread_mutex_lock(&g.m);
  await(me);
  pthread_mutex_unlock(&g.m);
  monMe.ignore = 0;
  void *r = t->fn(t->arg);
  monMe.ignore = 1;
  pthread_mutex_lock(&g.m);
  t->ended = true;
  t->mon = monMe;
  g.progress++;
  pickNext(-1);
  pthread_cond_broadcast(&g.cv);
  pthread_mutex_unlock(&g.m);
  me = -1;
  return r;
}
inline void begin(mc::Ctx &ctx, unsigned cores, int maxSwitches = 1000000)
{
  g.ctx = &ctx;
  g.t.clear();
  g.t.push_back(std::make_unique<Thr>()); // the caller
  g.token = 0;
  g.freeRun = false;
  g.stop = nullptr;
  g.cores = cores;
  g.switches = 0;
  g.maxSwitches = maxSwitches;
  g.created = 0;
  me = 0;
  monStack();
  g.active = true;
}
// returns false when something was left running
inline bool end()
{
  g.active = false;
  me = -1;
  bool ok = true;
  for (size_t i = 1; i < g.t.size(); i++) ok = ok && g.t[i]->joined;
  if (!ok) {
    stacks.clear(); // still in use
    for (auto &x : g.t) (void)x.release();
  }
  if (g.stop) std::rethrow_exception(g.stop);
  return ok;
}
} // namespace sched

extern "C" int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept
{
  using namespace sched;
  static const auto rc = real<Create>("pthread_create");
  if (!g.active || me < 0) return rc(th, a, fn, arg);
  int r;
  {
    Ignore ig;
    pthread_mutex_lock(&g.m);
    g.t.push_back(std::make_unique<Thr>());
    auto *t = g.t.back().get();
    t->id = static_cast<int>(g.t.size()) - 1;
    t->fn = fn, t->arg = arg;
    g.created++;
    if (t->id > 31) abort();
    monFork(&t->mon, t->id);
    // a stack of its own, so that in one execution an address never means two objects
    (void)a;
    char *stk = stack(t->id);
    t->mon.lo = reinterpret_cast<uintptr_t>(stk), t->mon.hi = t->mon.lo + stackSize;
    pthread_attr_t own;
    pthread_attr_init(&own);
    pthread_attr_setstack(&own, stk, stackSize);
    r = rc(&t->real, &own, trampoline, t);
    pthread_attr_destroy(&own);
    *th = t->real;
    pthread_mutex_unlock(&g.m);
  }
  point();
  return r;
}
extern "C" int pthread_join(pthread_t th, void **ret)
{
  using namespace sched;
  static const auto rj = real<Join>("pthread_join");
  if (!g.active || me < 0) return rj(th, ret);
  Ignore ig;
  int r;
  Thr *t = nullptr;
  pthread_mutex_lock(&g.m);
  for (auto &x : g.t)
    if (x->id && !x->joined && pthread_equal(x->real, th)) t = x.get();
  if (t) {
    g.t[static_cast<size_t>(me)]->joining = t->id;
    g.progress++;
    pickNext(me);
    pthread_cond_broadcast(&g.cv);
    await(me);
    g.t[static_cast<size_t>(me)]->joining = -1;
  }
  pthread_mutex_unlock(&g.m);
  r = rj(th, ret);
  if (t) {
    t->joined = true;
    monJoin(&t->mon);
  }
  return r;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
  static const auto f = sched::real<sched::Mtx>("pthread_mutex_lock");
  const int r = f(m);
  if (monOn && !monMe.ignore) monLock(m);
  return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
  static const auto f = sched::real<sched::Mtx>("pthread_mutex_unlock");
  if (monOn && !monMe.ignore) monUnlock(m);
  return f(m);
}
unsigned int std::thread::hardware_concurrency() noexcept
{
  return sched::g.cores;
}
