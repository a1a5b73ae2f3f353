// tsan_rt.cpp - access monitor behind gcc's -fsanitize=thread instrumentation (our own
// runtime, not ThreadSanitizer).  While tracking is on, every instrumented access is
// recorded with the thread that did it; two accesses to the same byte conflict when they
// come from different threads, at least one writes, they are not ordered by thread
// creation / joining and no mutex is held during both.  Because mutual exclusion and
// create/join order are all that is assumed, the verdict does not depend on the schedule
// in which the accesses happened to be executed.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>

#define NOSAN __attribute__((no_sanitize_thread)) __attribute__((noinline))

extern "C" {
struct MonThread
{
  int tid;
  int ignore;
  uint64_t locks; // bit set of the mutexes held
  uint32_t clk[32];
  uintptr_t lo, hi; // own stack
};
__thread MonThread monMe;
volatile int monOn = 0;
}

extern "C" char __executable_start;
namespace {
struct Acc
{
  uint32_t epoch;
  uint8_t tid, mask, write;
  uint32_t clk;
  uint64_t locks;
  uintptr_t pc;
};
struct Cell
{
  uintptr_t addr;
  uint32_t epoch;
  Acc a[6];
  int n;
};
constexpr size_t N = size_t(1) << 19;
Cell *tab;
uint32_t epoch = 1;
size_t used;
volatile int lockv;
char report[512];
int conflicts;
void *quarantine;
uint64_t accesses;

NOSAN void lk()
{
  while (__sync_lock_test_and_set(&lockv, 1)) {
  }
}
NOSAN void ul() { __sync_lock_release(&lockv); }

NOSAN void granule(uintptr_t g, uint8_t mask, int w, uintptr_t pc)
{
  MonThread &me = monMe;
  size_t h = (g * 0x9E3779B97F4A7C15ull) >> 45;
  h &= N - 1;
  for (size_t k = 0; k < 64; k++, h = (h + 1) & (N - 1)) {
    Cell &c = tab[h];
    if (c.epoch != epoch) {
      c.epoch = epoch;
      c.addr = g;
      c.n = 0;
      used++;
    }
    if (c.addr != g) continue;
    int free_ = -1;
    for (int i = 0; i < c.n; i++) {
      Acc &a = c.a[i];
      if (!(a.mask & mask)) continue;
      if (a.tid == me.tid) {
        if (a.mask == mask && a.locks == me.locks && a.write >= w) {
          a.clk = me.clk[me.tid];
          return;
        }
        continue;
      }
      if (!(a.write || w)) continue;
      if (me.clk[a.tid] >= a.clk) { // ordered by creation or join
        free_ = i;
        continue;
      }
      if (a.locks & me.locks) continue;
      if (!conflicts++)
        snprintf(report, sizeof report, "thread %d %s and thread %d %s the same memory %p (code at +%lx and +%lx)", a.tid, a.write ? "writes" : "reads", me.tid, w ? "writes" : "reads", (void *)g, (long)(a.pc - (uintptr_t)&__executable_start), (long)(pc - (uintptr_t)&__executable_start));
    }
    Acc n{ epoch, (uint8_t)me.tid, mask, (uint8_t)w, me.clk[me.tid], me.locks, pc };
    if (c.n < 6) c.a[c.n++] = n;
    else
      c.a[free_ >= 0 ? free_ : 5] = n;
    return;
  }
}
NOSAN void access(uintptr_t p, size_t n, int w, uintptr_t pc)
{
  if (!monOn) return;
  MonThread &me = monMe;
  if (me.ignore || n == 0) return;
  if (p >= me.lo && p < me.hi) return;
  lk();
  accesses++;
  for (uintptr_t g = p & ~uintptr_t(7); g < p + n; g += 8) {
    uint8_t m = 0;
    for (unsigned b = 0; b < 8; b++)
      if (g + b >= p && g + b < p + n) m |= uint8_t(1u << b);
    granule(g, m, w, pc);
  }
  ul();
}
} // namespace

extern "C" {
#define PC (uintptr_t) __builtin_return_address(0)
NOSAN void monBegin()
{
  if (!tab) tab = (Cell *)calloc(N, sizeof(Cell));
  epoch++;
  used = 0;
  conflicts = 0;
  report[0] = 0;
  accesses = 0;
  memset(monMe.clk, 0, sizeof monMe.clk);
  monMe.tid = 0;
  monMe.locks = 0;
  monMe.clk[0] = 1;
  monOn = 1;
}
NOSAN int monEnd(char *buf, size_t n, uint64_t *acc)
{
  monOn = 0;
  while (quarantine) {
    void *q = quarantine;
    quarantine = *(void **)q;
    free(q);
  }
  snprintf(buf, n, "%s", report);
  *acc = accesses;
  return conflicts;
}
// thread creation and joining order accesses
NOSAN void monFork(MonThread *child, int tid)
{
  memcpy(child->clk, monMe.clk, sizeof child->clk);
  child->tid = tid;
  child->clk[tid] = 1;
  child->locks = 0;
  child->ignore = 0;
  monMe.clk[monMe.tid]++;
}
NOSAN void monJoin(const MonThread *child)
{
  for (int i = 0; i < 32; i++)
    if (child->clk[i] > monMe.clk[i]) monMe.clk[i] = child->clk[i];
}
NOSAN void monStack()
{
  pthread_attr_t a;
  void *lo;
  size_t sz;
  if (pthread_getattr_np(pthread_self(), &a) != 0) return;
  pthread_attr_getstack(&a, &lo, &sz);
  pthread_attr_destroy(&a);
  monMe.lo = (uintptr_t)lo;
  monMe.hi = (uintptr_t)lo + sz + 65536;
}
NOSAN void monLock(void *m) { monMe.locks |= uint64_t(1) << (((uintptr_t)m * 0x9E3779B97F4A7C15ull) >> 58); }
NOSAN void monUnlock(void *m) { monMe.locks &= ~(uint64_t(1) << (((uintptr_t)m * 0x9E3779B97F4A7C15ull) >> 58)); }
// memory that is released while tracking is kept, so that an address means one object
NOSAN void monFree(void *p)
{
  if (!p) return;
  if (monOn) {
    lk();
    *(void **)p = quarantine;
    quarantine = p;
    ul();
  } else
    free(p);
}

NOSAN void __tsan_init() {}
NOSAN void __tsan_func_entry(void *) {}
NOSAN void __tsan_func_exit() {}
#define RW(n)                                                                             \
  NOSAN void __tsan_read##n(void *p) { access((uintptr_t)p, n, 0, PC); }                   \
  NOSAN void __tsan_write##n(void *p) { access((uintptr_t)p, n, 1, PC); }                  \
  NOSAN void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, 0, PC); }         \
  NOSAN void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, 1, PC); }        \
  NOSAN void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, 0, PC); }          \
  NOSAN void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, 1, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
NOSAN void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, 0, PC); }
NOSAN void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, 1, PC); }
NOSAN void __tsan_vptr_update(void **p, void *v)
{
  if (*p != v) access((uintptr_t)p, 8, 1, PC);
}
NOSAN void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, 0, PC); }
// atomic accesses never conflict with each other
#define AT(n, T)                                                                                                                   \
  NOSAN T __tsan_atomic##n##_load(const volatile T *p, int) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }                        \
  NOSAN void __tsan_atomic##n##_store(volatile T *p, T v, int) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }                        \
  NOSAN T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }              \
  NOSAN T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }              \
  NOSAN T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }              \
  NOSAN T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }                \
  NOSAN T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }              \
  NOSAN T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }              \
  NOSAN int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int)                                          \
  {                                                                                                                                \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                        \
  }                                                                                                                                \
  NOSAN int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int, int)                                            \
  {                                                                                                                                \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                        \
  }                                                                                                                                \
  NOSAN T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int)                                                \
  {                                                                                                                                \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                              \
    return e;                                                                                                                      \
  }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
NOSAN void __tsan_atomic_thread_fence(int) {}
NOSAN void __tsan_atomic_signal_fence(int) {}

// bulk copies are not instrumented by the compiler
NOSAN void *__real_memcpy(void *, const void *, size_t);
NOSAN void *__real_memmove(void *, const void *, size_t);
NOSAN void *__real_memset(void *, int, size_t);
NOSAN void *__wrap_memcpy(void *d, const void *s, size_t n)
{
  access((uintptr_t)s, n, 0, PC);
  access((uintptr_t)d, n, 1, PC);
  return __real_memcpy(d, s, n);
}
NOSAN void *__wrap_memmove(void *d, const void *s, size_t n)
{
  access((uintptr_t)s, n, 0, PC);
  access((uintptr_t)d, n, 1, PC);
  return __real_memmove(d, s, n);
}
NOSAN void *__wrap_memset(void *d, int c, size_t n)
{
  access((uintptr_t)d, n, 1, PC);
  return __real_memset(d, c, n);
}
}

// all C++ allocation goes through here
void *operator new(size_t n)
{
  void *p = malloc(n < 8 ? 8 : n);
  if (!p) abort();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { monFree(p); }
void operator delete[](void *p) noexcept { monFree(p); }
void operator delete(void *p, size_t) noexcept { monFree(p); }
void operator delete[](void *p, size_t) noexcept { monFree(p); }
