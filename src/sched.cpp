// Controlled OpenMP runtime: one thread of the team runs at a time, the order is given by the exploration;
// every instrumented memory access inside of parallel regions is checked for conflicts with the other threads.
// No STL here: this file is not instrumented, but its templates would be merged with instrumented ones.
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <unistd.h>
#include "sched.hpp"
#define MAXT 32
enum { READY, BARRIER, LOCK, DONE };
sched_policy sched_pol; sched_stat sched_st; char sched_msg[1024];
static int T, state[MAXT], nbar, cur = -1, active, ord_[MAXT]; static sem_t sem[MAXT], joined; static bool have[MAXT]; static __thread int me, in_rt, guard; static __thread int lockid;
static void (*fn_)(void *); static void *data_; static long sync_no; static void *lock_of[MAXT], *wait_for[MAXT]; static long loop_next, loop_end, loop_incr, loop_chunk; static int loop_gen, single_gen; static __thread int my_loop, my_single;

// ------------------------------------------------------------------ conflicts
struct Ent { uint64_t key; uint32_t epoch; uint8_t rd[MAXT], wr[MAXT], ard[MAXT], awr[MAXT], lk[MAXT]; uint32_t pc[MAXT]; uint32_t who; };
static const uint32_t BITS = 18; static Ent *tab; static uint32_t epoch = 1, used;
static char *base_() { static char *b = nullptr; if (!b) { Dl_info i; dladdr((void *)&base_, &i); b = (char *)i.dli_fbase; } return b; }
static const char *where(uint32_t off, char *buf, size_t n) { Dl_info i; if (dladdr(base_() + off, &i) && i.dli_sname) snprintf(buf, n, "%s", i.dli_sname); else snprintf(buf, n, "+%x", off); return buf; }
static void touch1(uint64_t key, uint8_t mask, bool write, bool atomic, uint32_t pc) {
  uint32_t h = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> (64 - BITS)); Ent *e;
  for (;; h = (h + 1) & ((1u << BITS) - 1)) { e = &tab[h]; if (e->epoch != epoch) { memset(e, 0, sizeof *e); e->key = key; e->epoch = epoch; if (++used > (3u << BITS) / 4) { fprintf(stderr, "sched: table of accesses is full\n"); _exit(3); } break; } if (e->key == key) break; }
  uint32_t others = e->who & ~(1u << me);
  for (int m = 0; others; ++m, others >>= 1) if (others & 1) { uint8_t o = e->wr[m]; if (write) o |= e->rd[m]; if (!atomic) { o |= e->awr[m]; if (write) o |= e->ard[m]; }
    if ((o & mask) && !(lockid && e->lk[m] == lockid)) { sched_st.conflicts++; if (!sched_msg[0]) { char a[300], b[300]; snprintf(sched_msg, sizeof sched_msg, "thread %d in %s %s memory, that thread %d in %s %s", me, where(pc, a, sizeof a), write ? "writes" : "reads", m, where(e->pc[m], b, sizeof b), ((e->wr[m] | e->awr[m]) & mask) ? "writes" : "reads"); } } }
  bool w_new = write && !(e->wr[me] | e->awr[me]); if (w_new || !e->pc[me]) e->pc[me] = pc;
  if (!(e->who >> me & 1)) e->lk[me] = (uint8_t)lockid; else if (e->lk[me] != lockid) e->lk[me] = 0;
  e->who |= 1u << me; (atomic ? (write ? e->awr : e->ard) : (write ? e->wr : e->rd))[me] |= mask;
}
static inline void touch(const void *p, size_t n, bool write, bool atomic, void *ra) {
  if (!active || in_rt || guard) return; in_rt = 1; sched_st.accesses++; uintptr_t a = (uintptr_t)p, z = a + n; uint32_t pc = (uint32_t)((char *)ra - base_());
  while (a < z) { uintptr_t g = a >> 3, e = (g + 1) << 3; if (e > z) e = z; uint8_t mask = (uint8_t)(((1u << (e - a)) - 1) << (a & 7)); touch1(g, mask, write, atomic, pc); a = e; }
  in_rt = 0;
}

// ------------------------------------------------------------------ scheduler
static int choose() { for (int n = 0; n < T; ++n) if (state[ord_[n]] == READY) return ord_[n]; return -1; }
static void to_end(int m) { int k = 0; while (ord_[k] != m) ++k; for (; k + 1 < T; ++k) ord_[k] = ord_[k + 1]; ord_[T - 1] = m; }
static void yield_to(int nxt) { int mine = me; if (nxt == mine) return; if (nxt < 0) { fprintf(stderr, "sched: deadlock\n"); _exit(4); } cur = nxt; sem_post(&sem[nxt]); sem_wait(&sem[mine]); }
static void sync_point() { // a point where threads really communicate
  if (!active) return; long k = sync_no++; sched_st.syncs++;
  for (int n = 0; n < sched_pol.npre; ++n) if (sched_pol.pre[n].at == k) { int r = sched_pol.pre[n].to, c = -1; for (int q = 0; q < T; ++q) if (ord_[q] != me && state[ord_[q]] == READY && r-- == 0) { c = ord_[q]; break; } if (c >= 0) { to_end(me); sched_st.preemptions++; yield_to(c); } return; }
}
static void finish() { state[me] = DONE; int alive = 0; for (int m = 0; m < T; ++m) alive += state[m] != DONE; if (nbar && nbar == alive) { nbar = 0; for (int m = 0; m < T; ++m) if (state[m] == BARRIER) state[m] = READY; } }
static void *worker(void *v) { me = (int)(intptr_t)v; for (;;) { sem_wait(&sem[me]); my_loop = my_single = 0; fn_(data_); finish(); int n = choose(); if (n >= 0) { cur = n; sem_post(&sem[n]); } else sem_post(&joined); } return nullptr; }
static void new_epoch() { epoch++; used = 0; }
static void barrier() { if (!active) return; nbar++; int alive = 0; for (int m = 0; m < T; ++m) alive += state[m] != DONE; state[me] = BARRIER;
  if (nbar == alive) { nbar = 0; for (int m = 0; m < T; ++m) if (state[m] == BARRIER) state[m] = READY; new_epoch(); if (sched_pol.npre == 0) { } yield_to(choose()); } else yield_to(choose()); }
static void take(void *l) { if (!active) return; sync_point(); for (;;) { bool held = false; for (int m = 0; m < T; ++m) held |= lock_of[m] == l; if (!held) break; state[me] = LOCK; wait_for[me] = l; yield_to(choose()); } lock_of[me] = l; lockid = 1 + (int)(((uintptr_t)l >> 4) % 254); }
static void drop(void *l) { if (!active || lock_of[me] != l) return; lock_of[me] = nullptr; lockid = 0; for (int m = 0; m < T; ++m) if (state[m] == LOCK && wait_for[m] == l) state[m] = READY; }

// ------------------------------------------------------------------ memory is not reused inside of a region
static void **frees; static size_t nfree, cfree; extern "C" void __real_free(void *);
static bool defer(void *p) { if (!active || !p) return false; if (nfree == cfree) { int s = in_rt; in_rt = 1; cfree = cfree ? 2 * cfree : 1024; frees = (void **)realloc(frees, cfree * sizeof *frees); in_rt = s; } frees[nfree++] = p; return true; }
static void release() { for (size_t n = 0; n < nfree; ++n) __real_free(frees[n]); nfree = 0; }

static bool starts_at_0() { return true; }
static void region(void (*fn)(void *), void *data, unsigned n) {
  int t = n ? (int)n : sched_pol.team; if (active || t <= 1) { fn(data); return; } if (t > MAXT) t = MAXT; (void)starts_at_0;
  if (!tab) { tab = (Ent *)calloc(1u << BITS, sizeof(Ent)); sem_init(&joined, 0, 0); }
  T = t; me = 0; for (int m = 0; m < T; ++m) if (!have[m]) { have[m] = true; sem_init(&sem[m], 0, 0); if (m) { pthread_t id; pthread_create(&id, nullptr, worker, (void *)(intptr_t)m); } }
  // order of the threads: permutation number sched_pol.perm of the factorial number system
  int pool[MAXT]; for (int m = 0; m < T; ++m) pool[m] = m; long p = sched_pol.perm; for (int m = 0, k = T; m < T; ++m, --k) { int x = (int)(p % k); p /= k; ord_[m] = pool[x]; for (int q = x; q + 1 < k; ++q) pool[q] = pool[q + 1]; }
  for (int m = 0; m < T; ++m) { state[m] = READY; lock_of[m] = nullptr; } nbar = 0; fn_ = fn; data_ = data; loop_gen = single_gen = 0; my_loop = my_single = 0; new_epoch(); sched_st.regions++; active = 1;
  int f = choose(); if (f) { cur = f; sem_post(&sem[f]); sem_wait(&sem[0]); } cur = 0;
  fn(data); finish(); int nx = choose(); if (nx >= 0) { cur = nx; sem_post(&sem[nx]); sem_wait(&joined); }
  active = 0; release();
}
// loops with dynamic schedules
static bool next_chunk(long *s, long *e) { sync_point(); if (loop_incr > 0 ? loop_next >= loop_end : loop_next <= loop_end) return false; *s = loop_next; long z = loop_next + loop_incr * loop_chunk; if (loop_incr > 0 ? z > loop_end : z < loop_end) z = loop_end; *e = z; loop_next = z; return true; }
static bool start_loop(long a, long b, long inc, long chunk, long *s, long *e) { if (!active) { loop_next = a; loop_end = b; loop_incr = inc; loop_chunk = b - a > 0 ? b - a : a - b; if (!loop_chunk) loop_chunk = 1; } else if (my_loop++ == loop_gen) { loop_gen++; loop_next = a; loop_end = b; loop_incr = inc; loop_chunk = chunk > 0 ? chunk : 1; } return next_chunk(s, e); }
static char crit, atom;
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { region(fn, d, n); }
static long L4[4]; static void (*Lfn)(void *); static void *Ld;
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned) { if (active || (n ? (int)n : sched_pol.team) <= 1) { loop_next = a; loop_end = b; loop_incr = i; loop_chunk = 1L << 40; fn(d); return; } loop_next = a; loop_end = b; loop_incr = i; loop_chunk = c > 0 ? c : 1; region(fn, d, n); } \
  bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { return start_loop(a, b, i, c, s, e); } bool GOMP_loop_##name##_next(long *s, long *e) { return next_chunk(s, e); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, a, b, i, 1, f); } void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, a, b, i, 1, f); }
bool GOMP_loop_runtime_next(long *s, long *e) { return next_chunk(s, e); } bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return next_chunk(s, e); }
void GOMP_loop_end() { barrier(); } void GOMP_loop_end_nowait() {} void GOMP_barrier() { barrier(); }
bool GOMP_single_start() { if (!active) return true; if (my_single++ == single_gen) { single_gen++; return true; } return false; }
void GOMP_critical_start() { take(&crit); } void GOMP_critical_end() { drop(&crit); } void GOMP_critical_name_start(void **p) { take(p); } void GOMP_critical_name_end(void **p) { drop(p); } void GOMP_atomic_start() { take(&atom); } void GOMP_atomic_end() { drop(&atom); }
int omp_get_num_threads() { return active ? T : 1; } int omp_get_thread_num() { return active ? me : 0; } int omp_get_max_threads() { return sched_pol.team; } int omp_in_parallel() { return active; }
void omp_set_num_threads(int) {} void omp_set_dynamic(int) {} int omp_get_num_procs() { return 1; } void omp_set_nested(int) {} int omp_get_dynamic() { return 0; }
void omp_init_lock(void *) {} void omp_destroy_lock(void *) {} void omp_set_lock(void *l) { take(l); } void omp_unset_lock(void *l) { drop(l); }
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (active) { take(m); return 0; } return __real_pthread_mutex_lock(m); } int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (active) { drop(m); return 0; } return __real_pthread_mutex_unlock(m); }
int __real___cxa_guard_acquire(void *); void __real___cxa_guard_release(void *); int __wrap___cxa_guard_acquire(void *g) { int r = __real___cxa_guard_acquire(g); if (r) guard++; return r; } void __wrap___cxa_guard_release(void *g) { guard--; __real___cxa_guard_release(g); }
// the generator of the C library is shared by all of the threads; it locks, but order of its numbers depends on the schedule
void __wrap_free(void *p) { if (!defer(p)) __real_free(p); }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
#define RA __builtin_return_address(0)
void *__wrap_memcpy(void *d, const void *s, size_t n) { touch(s, n, false, false, RA); touch(d, n, true, false, RA); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { touch(s, n, false, false, RA); touch(d, n, true, false, RA); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { touch(d, n, true, false, RA); return __real_memset(d, c, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return __wrap_memcpy(d, s, n); } void *__tsan_memmove(void *d, const void *s, size_t n) { return __wrap_memmove(d, s, n); } void *__tsan_memset(void *d, int c, size_t n) { return __wrap_memset(d, c, n); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void *p) { touch(p, n, false, false, RA); } void __tsan_write##n(void *p) { touch(p, n, true, false, RA); } void __tsan_unaligned_read##n(void *p) { touch(p, n, false, false, RA); } void __tsan_unaligned_write##n(void *p) { touch(p, n, true, false, RA); } void __tsan_volatile_read##n(void *p) { touch(p, n, false, false, RA); } void __tsan_volatile_write##n(void *p) { touch(p, n, true, false, RA); } void __tsan_read_write##n(void *p) { touch(p, n, false, false, RA); touch(p, n, true, false, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, false, false, RA); } void __tsan_write_range(void *p, size_t n) { touch(p, n, true, false, RA); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) touch(p, 8, true, false, RA); } void __tsan_vptr_read(void **p) { touch(p, 8, false, false, RA); }
#define AT(w) sync_point(); touch((void *)p, sizeof *p, w, true, RA)
#define ATO(bits, Y) Y __tsan_atomic##bits##_load(const volatile Y *p, int) { AT(false); return __atomic_load_n(p, 5); } void __tsan_atomic##bits##_store(volatile Y *p, Y v, int) { AT(true); __atomic_store_n(p, v, 5); } Y __tsan_atomic##bits##_exchange(volatile Y *p, Y v, int) { AT(true); return __atomic_exchange_n(p, v, 5); } \
  Y __tsan_atomic##bits##_fetch_add(volatile Y *p, Y v, int) { AT(true); return __atomic_fetch_add(p, v, 5); } Y __tsan_atomic##bits##_fetch_sub(volatile Y *p, Y v, int) { AT(true); return __atomic_fetch_sub(p, v, 5); } Y __tsan_atomic##bits##_fetch_or(volatile Y *p, Y v, int) { AT(true); return __atomic_fetch_or(p, v, 5); } Y __tsan_atomic##bits##_fetch_and(volatile Y *p, Y v, int) { AT(true); return __atomic_fetch_and(p, v, 5); } Y __tsan_atomic##bits##_fetch_xor(volatile Y *p, Y v, int) { AT(true); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile Y *p, Y *c, Y v, int, int) { AT(true); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); } int __tsan_atomic##bits##_compare_exchange_weak(volatile Y *p, Y *c, Y v, int, int) { AT(true); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); } Y __tsan_atomic##bits##_compare_exchange_val(volatile Y *p, Y c, Y v, int, int) { AT(true); __atomic_compare_exchange_n(p, &c, v, false, 5, 5); return c; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
void operator delete(void *p) noexcept { if (!defer(p)) __real_free(p); } void operator delete(void *p, unsigned long) noexcept { if (!defer(p)) __real_free(p); } void operator delete[](void *p) noexcept { if (!defer(p)) __real_free(p); } void operator delete[](void *p, unsigned long) noexcept { if (!defer(p)) __real_free(p); }
void sched_begin(int team, long perm) { memset(&sched_pol, 0, sizeof sched_pol); sched_pol.team = team; sched_pol.perm = perm; memset(&sched_st, 0, sizeof sched_st); sched_msg[0] = 0; sync_no = 0; }
