// Deterministic preemption inside library calls. The adapter translation units of the isolation check are compiled with
// -fsanitize=thread but linked with the runtime below instead of libtsan: every memory access and every function boundary of
// the library calls into it and is a possible switch point. Each vehicle has a thread of its own (so that thread-local
// storage is what it is in a real process), but exactly one of them runs at any time and the seed decides which: nothing is
// left to the scheduler of the machine.
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <cerrno>
#include <cstdlib>
#include "exec.hpp"

extern char __data_start, _end;  // variables with static storage live between these two

namespace dst {
namespace {
constexpr int MAXJ = 8;
struct Seat {
  sem_t go;
  bool done;
  std::function<void()> *job;
};
Seat g_seat[MAXJ];
sem_t g_main;
int g_have = 0;
pid_t g_pid = 0;
volatile int g_cur = -1;  // who runs; -1: outside of a group
int g_n = 0;
long g_left = 0, g_switches = 0;
int g_locked = 0;         // inside a guarded initialisation of a static variable
int g_policy = 0;
double g_pstatic = 0;
Rng *g_rng = nullptr;

void wait(sem_t *s) {
  while (sem_wait(s) && errno == EINTR) {}
}
long quantum() {
  switch (g_policy) {
    case 0: return 1 + g_rng->i(4);                         // nearly every access
    case 1: return (long)g_rng->logu(1, 400);
    case 2: return (long)g_rng->logu(10, 40000);
    default: return 1000000000L;                            // only at variables with static storage
  }
}
int pick() {
  int i = g_rng->i(g_n);
  for (int k = 0; k < g_n; k++, i = (i + 1) % g_n)
    if (!g_seat[i].done) return i;
  return -1;
}
void hand(int to) {
  g_left = quantum();
  g_cur  = to;
  sem_post(to < 0 ? &g_main : &g_seat[to].go);
}
void *body(void *p) {
  int i = (int)(long)p;
  for (;;) {
    wait(&g_seat[i].go);
    (*g_seat[i].job)();
    g_seat[i].done = true;
    hand(pick());
  }
}
void switch_away(bool other) {
  int me = g_cur, to = pick();
  if (other && to == me)
    for (int k = 1; k < g_n && to == me; k++)
      if (!g_seat[(me + k) % g_n].done) to = (me + k) % g_n;
  g_left = quantum();
  if (to == me || to < 0) return;
  g_switches++;
  hand(to);
  wait(&g_seat[me].go);
}
inline void point(const void *addr) {
  if (g_cur < 0 || g_locked) return;
  const char *a = (const char *)addr;
  if (a >= &__data_start && a < &_end && g_rng->u() < g_pstatic) return switch_away(true);
  if (--g_left > 0) return;
  switch_away(false);
}
}  // namespace

long pre_run(std::vector<std::function<void()>> &jobs, uint64_t seed) {
  Rng rng(seed);
  g_rng = &rng;
  g_n   = (int)jobs.size();
  g_switches = 0;
  g_locked   = 0;
  int k      = rng.i(20);
  g_policy   = k < 1 ? 0 : k < 7 ? 1 : k < 12 ? 2 : 3;
  g_pstatic  = rng.p(0.5) ? 1 : rng.logu(0.02, 1);
  if (g_pid != getpid()) {
    g_pid  = getpid();
    g_have = 0;
    sem_init(&g_main, 0, 0);
  }
  for (; g_have < g_n; g_have++) {
    sem_init(&g_seat[g_have].go, 0, 0);
    pthread_t t;
    if (pthread_create(&t, nullptr, body, (void *)(long)g_have)) abort();
    pthread_detach(t);
  }
  for (int i = 0; i < g_n; i++) {
    g_seat[i].done = false;
    g_seat[i].job  = &jobs[i];
  }
  hand(pick());
  wait(&g_main);
  g_rng = nullptr;
  return g_switches;
}
// a lock held by the vehicle that is not running: let it run
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *m);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (g_cur < 0 || g_n < 2) return __real_pthread_mutex_lock(m);
  for (;;) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    switch_away(true);
  }
}
}  // namespace dst

using dst::point;
extern "C" {
// a static variable that is being initialised: the other vehicle would have to wait for it, so it does not get to run
int __cxa_guard_acquire(uint64_t *g) {
  if (*(char *)g) return 0;
  dst::g_locked++;
  return 1;
}
void __cxa_guard_release(uint64_t *g) {
  *(char *)g = 1;
  dst::g_locked--;
}
void __cxa_guard_abort(uint64_t *) { dst::g_locked--; }

void __tsan_init() {}
void __tsan_func_entry(void *) { point(nullptr); }
void __tsan_func_exit() { point(nullptr); }
#define RW(n)                                               \
  void __tsan_read##n(void *a) { point(a); }                \
  void __tsan_write##n(void *a) { point(a); }               \
  void __tsan_unaligned_read##n(void *a) { point(a); }      \
  void __tsan_unaligned_write##n(void *a) { point(a); }     \
  void __tsan_volatile_read##n(void *a) { point(a); }       \
  void __tsan_volatile_write##n(void *a) { point(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long) { point(a); }
void __tsan_write_range(void *a, unsigned long) { point(a); }
void __tsan_vptr_update(void **a, void *) { point(a); }
void __tsan_vptr_read(void **a) { point(a); }
#define AT(n, T)                                                                                                                \
  T __tsan_atomic##n##_load(const volatile T *a, int) { point((const void *)a); return *a; }                                    \
  void __tsan_atomic##n##_store(volatile T *a, T v, int) { point((const void *)a); *a = v; }                                    \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { point((const void *)a); T o = *a; *a = v; return o; }                \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { point((const void *)a); T o = *a; *a = (T)(o + v); return o; }      \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { point((const void *)a); T o = *a; *a = (T)(o - v); return o; }      \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { point((const void *)a); T o = *a; *a = (T)(o & v); return o; }      \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { point((const void *)a); T o = *a; *a = (T)(o | v); return o; }       \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { point((const void *)a); T o = *a; *a = (T)(o ^ v); return o; }      \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) {                                          \
    point((const void *)a);                                                                                                     \
    if (*a == *e) { *a = v; return 1; }                                                                                         \
    *e = *a;                                                                                                                    \
    return 0;                                                                                                                   \
  }                                                                                                                             \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int x, int y) {                                        \
    return __tsan_atomic##n##_compare_exchange_strong(a, e, v, x, y);                                                           \
  }                                                                                                                             \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int, int) {                                                \
    point((const void *)a);                                                                                                     \
    T o = *a;                                                                                                                   \
    if (o == e) *a = v;                                                                                                         \
    return o;                                                                                                                   \
  }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { point(nullptr); }
void __tsan_atomic_signal_fence(int) {}
}
