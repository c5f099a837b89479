#include "sched_rt.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unordered_map>

extern "C" {
void* __libc_malloc(std::size_t);
void __libc_free(void*);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* __libc_memalign(std::size_t, std::size_t);
}
namespace {
constexpr int kMaxT = 4;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using u8 = std::uint8_t;
struct VC { u32 c[kMaxT] = {0, 0, 0, 0}; };
void join(VC& a, const VC& b) { for (int i = 0; i < kMaxT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum Status { kRunnable, kBlocked, kDone };
struct Thread {
  std::atomic<int> go{0};
  Status status = kDone;
  const void* waiting = nullptr;
  VC vc;
  pthread_t th{};
  int tid = 0;
  const std::function<void()>* body = nullptr;
  char *lo = nullptr, *hi = nullptr;
};
Thread T[kMaxT];
int nT = 0, cur = -1, preemptions_left = 0;
sched::Config cfg;
sched::Stats st;
std::atomic<int> main_go{0};
bool active = false, session = false;
std::int64_t clock_ns = 1000000000ll;
u32 stamp = 0;
// Whether the code tries locks without waiting: then it matters who else holds one, and a thread may also be
// preempted inside its critical section.  Fixed by settle() after a trial run, so that schedules stay reproducible.
bool tries_locks = false, hold_points = false;

thread_local int t_self = -1;
thread_local int t_rt = 0;  // inside the runtime: nothing is modelled
inline bool modelled() { return t_self >= 0 && t_rt == 0; }
struct InRt { InRt() { ++t_rt; } ~InRt() { --t_rt; } };

void futex_wait(std::atomic<int>& f) {
  while (f.load(std::memory_order_acquire) == 0) syscall(SYS_futex, reinterpret_cast<int*>(&f), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  f.store(0, std::memory_order_release);
}
void futex_wake(std::atomic<int>& f) {
  f.store(1, std::memory_order_release);
  syscall(SYS_futex, reinterpret_cast<int*>(&f), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
[[noreturn]] void fatal(const char* what) {
  std::fprintf(stderr, "ERROR: AddressSanitizer: %s\n", what);  // the driver's crash key
  std::fflush(stderr);
  _exit(77);
}
[[noreturn]] void broken(const char* what) {
  std::fprintf(stderr, "HARD ERROR: %s\n", what);
  std::fflush(stderr);
  _exit(3);
}

// ---------------------------------------------------------------- shadow memory
struct Cell { u32 clock; u32 mask; };
struct Granule { u64 key; u32 stamp; u32 freed; // freed: 1 + the thread that freed the block
  Cell w[kMaxT][2]; Cell r[kMaxT][2]; const void* pc[kMaxT]; };
constexpr u64 kSmall = 1u << 19, kLarge = 1u << 23;
u64 kTable = kSmall;
Granule* small_table = nullptr;
Granule* large_table = nullptr;
Granule* table = nullptr;
u64 used = 0;
Granule* granule(u64 key) {
  if (!table) {
    void* m = mmap(nullptr, kTable * sizeof(Granule), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) broken("shadow memory");
    table = (kTable == kSmall ? small_table : large_table) = static_cast<Granule*>(m);
  }
  u64 h = key * 0x9e3779b97f4a7c15ull;
  for (u64 i = h >> 36;; ++i) {
    Granule& g = table[i & (kTable - 1)];
    if (g.stamp == stamp && g.key == key) return &g;
    if (g.stamp != stamp) {
      if (++used > kTable * 8 / 10) broken("shadow memory exhausted");
      std::memset(&g, 0, sizeof g);
      g.stamp = stamp;
      g.key = key;
      return &g;
    }
  }
}
std::string where(const void* pc) {
  char cmd[256], line[512];
  char exe[256];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n <= 0) return "?";
  exe[n] = 0;
  std::snprintf(cmd, sizeof cmd, "addr2line -Cfpe %s %p 2>/dev/null", exe, pc);
  FILE* f = popen(cmd, "r");
  if (!f) return "?";
  std::string out;
  if (std::fgets(line, sizeof line, f)) out = line;
  pclose(f);
  while (!out.empty() && out.back() == '\n') out.pop_back();
  return out;
}
// After a data race the run has no defined meaning any more, so it ends there and then.
[[noreturn]] void race(const char* a, const char* b, int other, const void* pc, const void* pc2) {
  std::fprintf(stderr, "ERROR: AddressSanitizer: data-race\n  %s by thread %d at %s\n  and unordered %s by thread %d near %s\n", a, t_self, where(pc).c_str(), b, other, where(pc2).c_str());
  std::fflush(stderr);
  _exit(77);
}
void access_granule(u64 key, u32 mask, bool write, const void* pc) {
  Thread& me = T[t_self];
  Granule* g = granule(key);
  if (g->freed) {
    std::fprintf(stderr, "ERROR: AddressSanitizer: heap-use-after-free\n  %s by thread %d at %s of memory that thread %u has freed\n", write ? "write" : "read", t_self, where(pc).c_str(), g->freed - 1);
    std::fflush(stderr);
    _exit(77);
  }
  for (int u = 0; u < nT; ++u) {
    if (u == t_self) continue;
    for (int k = 0; k < 2; ++k) {
      if (g->w[u][k].clock > me.vc.c[u] && (g->w[u][k].mask & mask)) race(write ? "write" : "read", "write", u, pc, g->pc[u]);
      if (write && g->r[u][k].clock > me.vc.c[u] && (g->r[u][k].mask & mask)) race("write", "read", u, pc, g->pc[u]);
    }
  }
  Cell* c = write ? g->w[t_self] : g->r[t_self];
  const u32 now = me.vc.c[t_self];
  g->pc[t_self] = pc;
  if (c[0].clock == now) { c[0].mask |= mask; return; }
  if ((c[0].mask & ~mask) == 0) { c[0] = {now, mask}; return; }
  c[1] = c[0];
  c[0] = {now, mask};
}
void access(const void* p, std::size_t n, bool write, const void* pc) {
  if (!modelled() || !active) return;
  const Thread& me = T[t_self];
  const char* a = static_cast<const char*>(p);
  if (a >= me.lo && a < me.hi) return;  // its own stack
  InRt rt;
  st.accesses++;
  u64 b = reinterpret_cast<u64>(a), e = b + n;
  while (b < e) {
    const u64 key = b >> 3;
    const u32 off = b & 7, len = static_cast<u32>(std::min<u64>(8 - off, e - b));
    access_granule(key, ((1u << len) - 1) << off, write, pc);
    b += len;
  }
}
void forget(void* p, bool freeing, const void* pc) {
  if (!p || !modelled() || !active) return;
  InRt rt;
  const u64 n = malloc_usable_size(p);
  if (n > (cfg.large ? 1u << 26 : 1u << 20)) return;
  const u64 b = reinterpret_cast<u64>(p) >> 3, e = (reinterpret_cast<u64>(p) + n + 7) >> 3;
  for (u64 k = b; k < e; ++k) {
    // only granules that were touched in this run
    u64 h = k * 0x9e3779b97f4a7c15ull;
    for (u64 i = h >> 36;; ++i) {
      Granule& g = table[i & (kTable - 1)];
      if (g.stamp != stamp) break;
      if (g.key != k) continue;
      if (freeing) access_granule(k, 0xff, true, pc);
      std::memset(g.w, 0, sizeof g.w);
      std::memset(g.r, 0, sizeof g.r);
      break;
    }
  }
}

// Blocks freed during a run keep their memory until it ends, so that no use of them goes unnoticed.
std::vector<void*> quarantine;
bool hold(void* p, const void* pc) {
  if (!p || !modelled() || !active) return false;
  forget(p, true, pc);
  InRt rt;
  const u64 n = malloc_usable_size(p);
  if (n > (1u << 16)) return false;
  const u64 b = reinterpret_cast<u64>(p) >> 3, e = (reinterpret_cast<u64>(p) + n) >> 3;
  for (u64 k = b; k < e; ++k) granule(k)->freed = 1 + t_self;
  quarantine.push_back(p);
  return true;
}

// ---------------------------------------------------------------- scheduling
bool enabled(int i) { return T[i].status == kRunnable; }
void switch_to(int n) {
  const int me = t_self;
  if (n == me) return;
  st.switches++;
  cur = n;
  futex_wake(T[n].go);
  if (T[me].status != kDone) futex_wait(T[me].go);
}
// The current thread gives up control: because it is blocked or done (forced), or voluntarily.
void reschedule(bool forced, const char* label) {
  int opts[kMaxT], n = 0;
  if (!forced) opts[n++] = t_self;
  if (forced || preemptions_left > 0)
    for (int i = 0; i < nT; ++i) if (i != t_self && enabled(i)) opts[n++] = i;
  if (n == 0) {
    bool all = true;
    for (int i = 0; i < nT; ++i) all &= T[i].status == kDone;
    if (all) { futex_wake(main_go); return; }
    fatal("deadlock: no thread can continue");
  }
  const int c = n > 1 ? cfg.pick(n, label) : 0;
  if (!forced && c > 0) { --preemptions_left; st.preemptions++; }
  switch_to(opts[c]);
}
void sync_point(const char* label) {
  st.sync++;
  reschedule(false, label);
}
void block_on(const void* obj, const char* label) {
  T[t_self].status = kBlocked;
  T[t_self].waiting = obj;
  reschedule(true, label);
}
void unblock(const void* obj) {
  for (int i = 0; i < nT; ++i) if (T[i].status == kBlocked && T[i].waiting == obj) { T[i].status = kRunnable; T[i].waiting = nullptr; }
}
void acquire(const VC& v) { join(T[t_self].vc, v); }
void release(VC& v) { join(v, T[t_self].vc); T[t_self].vc.c[t_self]++; }

// A thread that keeps performing atomic operations on one address is waiting for the others: let them run.
const volatile void* spin_on = nullptr;
int spin_by = -1, spin_n = 0;
void spin_check(const volatile void* a) {
  if (spin_on == a && spin_by == t_self) {
    if (++spin_n < 40) return;
    spin_n = 0;
    for (int k = 1; k < nT; ++k) { const int i = (t_self + k) % nT; if (enabled(i)) { switch_to(i); return; } }
    static long total = 0;
    if (++total > 200000) fatal("livelock: a thread waits for something no other thread can do");
  } else {
    spin_on = a; spin_by = t_self; spin_n = 0;
  }
}

struct Sync { VC vc; int owner = -1; int depth = 0; int readers = 0; int init = 0; };
// keyed by address; forgotten at the end of a run (all are free by then, or the code is broken)
std::map<const void*, Sync> syncs;
Sync& sync_of(const void* p) { return syncs[p]; }

struct Dtor { void (*f)(void*); void* arg; };
std::vector<Dtor> dtors;
std::vector<char*> guards;
int init_depth = 0;

void* thread_main(void* arg) {
  const int i = static_cast<int>(reinterpret_cast<std::intptr_t>(arg));
  ++t_rt;
  Thread& me = T[i];
  me.tid = static_cast<int>(syscall(SYS_gettid));
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void* lo;
  std::size_t sz;
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  me.lo = static_cast<char*>(lo);
  me.hi = me.lo + sz;
  t_self = i;
  futex_wait(me.go);
  --t_rt;
  (*me.body)();
  ++t_rt;
  me.status = kDone;
  unblock(&me);
  reschedule(true, "thread end");
  t_self = -1;
  --t_rt;
  return nullptr;
}
}  // namespace

namespace sched {
void run(const std::vector<std::function<void()>>& bodies, const Config& c) {
  ++t_rt;
  cfg = c;
  nT = static_cast<int>(bodies.size());
  if (nT > kMaxT) broken("too many threads");
  if (++stamp == 0) broken("stamp overflow");
  kTable = c.large ? kLarge : kSmall;
  table = c.large ? large_table : small_table;
  if (!table) { granule(1); }
  used = 0;
  st = Stats();
  syncs.clear();
  preemptions_left = c.preemptions;
  spin_on = nullptr;
  main_go = 0;
  for (int i = 0; i < nT; ++i) {
    T[i].go = 0;
    T[i].status = kRunnable;
    T[i].waiting = nullptr;
    T[i].vc = VC();
    T[i].vc.c[i] = 1;
    T[i].body = &bodies[i];
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 0; i < nT; ++i) if (pthread_create(&T[i].th, &at, thread_main, reinterpret_cast<void*>(static_cast<std::intptr_t>(i)))) broken("pthread_create");
  pthread_attr_destroy(&at);
  active = true;
  const int first = nT > 1 ? c.pick(nT, "first thread") : 0;
  cur = first;
  futex_wake(T[first].go);
  futex_wait(main_go);
  active = false;
  for (int i = 0; i < nT; ++i) pthread_join(T[i].th, nullptr);
  for (auto& [p, s] : syncs) if (s.owner >= 0 && cfg.report) { cfg.report("lock-held", "a lock is still held at the end of the run"); break; }
  st.granules = used;
  for (void* p : quarantine) __libc_free(p);
  quarantine.clear();
  --t_rt;
}
void point(const char* label) { if (modelled() && active) { InRt rt; sync_point(label); } }
std::int64_t now() { return clock_ns += 1000000; }
int self() { return t_self; }
int real_tid(int i) { return T[i].tid; }
void begin_session() { session = true; clock_ns = 1000000000ll; }
void end_session() {
  session = false;
  for (std::size_t i = dtors.size(); i-- > 0;) dtors[i].f(dtors[i].arg);
  dtors.clear();
  for (char* g : guards) { *g = 0; g[1] = 0; }
  guards.clear();
}
void settle() { hold_points = tries_locks; }
Stats stats() { return st; }
}  // namespace sched

// ---------------------------------------------------------------- controlled clocks
namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(nanoseconds(sched::now())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(nanoseconds(sched::now())); }
}  // namespace _V2
}  // namespace std::chrono

extern "C" {
// ---------------------------------------------------------------- mutexes
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!modelled() || !active) return 0;
  InRt rt;
  sync_point("lock");
  for (;;) {
    Sync& s = sync_of(m);
    if (s.owner < 0) { s.owner = t_self; acquire(s.vc); return 0; }
    if (s.owner == t_self) {
      if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { s.depth++; return 0; }
      fatal("deadlock: a thread locks a mutex it already holds");
    }
    block_on(m, "lock held");
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!modelled() || !active) return 0;
  InRt rt;
  tries_locks = true;
  spin_check(m);
  sync_point("trylock");
  Sync& s = sync_of(m);
  if (s.owner >= 0) return EBUSY;
  s.owner = t_self;
  acquire(s.vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!modelled() || !active) return 0;
  InRt rt;
  Sync& s = sync_of(m);
  if (s.owner != t_self) { if (cfg.report) cfg.report("unlock", "a thread unlocks a mutex it does not hold"); return 0; }
  if (s.depth > 0) { s.depth--; return 0; }
  if (hold_points) sync_point("unlock");
  Sync& s2 = sync_of(m);
  release(s2.vc);
  s2.owner = -1;
  unblock(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!modelled() || !active) return 0;
  InRt rt;
  sync_point("write lock");
  for (;;) {
    Sync& s = sync_of(m);
    if (s.owner < 0 && s.readers == 0) { s.owner = t_self; acquire(s.vc); return 0; }
    if (s.owner == t_self) fatal("deadlock: a thread locks a lock it already holds");
    block_on(m, "lock held");
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!modelled() || !active) return 0;
  InRt rt;
  sync_point("read lock");
  for (;;) {
    Sync& s = sync_of(m);
    if (s.owner < 0) { s.readers++; acquire(s.vc); return 0; }
    block_on(m, "lock held");
  }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!modelled() || !active) return 0;
  InRt rt;
  if (hold_points) sync_point("unlock");
  Sync& s = sync_of(m);
  if (s.owner == t_self) { release(s.vc); s.owner = -1; } else { release(s.vc); s.readers--; }
  unblock(m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { const int r = pthread_mutex_trylock(m); return r == EBUSY ? ETIMEDOUT : r; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { const int r = pthread_mutex_trylock(m); return r == EBUSY ? ETIMEDOUT : r; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (!modelled() || !active) return 0;
  InRt rt;
  tries_locks = true;
  spin_check(m);
  sync_point("trylock");
  Sync& s = sync_of(m);
  if (s.owner >= 0 || s.readers > 0) return EBUSY;
  s.owner = t_self;
  acquire(s.vc);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!modelled() || !active) return 0;
  InRt rt;
  tries_locks = true;
  spin_check(m);
  sync_point("trylock");
  Sync& s = sync_of(m);
  if (s.owner >= 0) return EBUSY;
  s.readers++;
  acquire(s.vc);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!modelled() || !active) return 0;
  InRt rt;
  Sync& s = sync_of(m);
  release(s.vc);
  s.owner = -1;
  unblock(m);
  block_on(c, "condition");
  for (;;) {
    Sync& s2 = sync_of(m);
    if (s2.owner < 0) { s2.owner = t_self; acquire(s2.vc); return 0; }
    block_on(m, "lock held");
  }
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!modelled() || !active) return 0;
  InRt rt;
  sync_point("signal");
  for (int i = 0; i < nT; ++i) if (T[i].status == kBlocked && T[i].waiting == c) { T[i].status = kRunnable; T[i].waiting = nullptr; break; }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!modelled() || !active) return 0;
  InRt rt;
  sync_point("broadcast");
  unblock(c);
  return 0;
}
int sched_yield() {
  if (!modelled() || !active) return 0;
  InRt rt;
  for (int k = 1; k < nT; ++k) { const int i = (t_self + k) % nT; if (enabled(i)) { switch_to(i); break; } }
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!modelled() || !active) {
    if (*o == 0) { f(); *o = 2; if (session) guards.push_back(reinterpret_cast<char*>(o)); }
    return 0;
  }
  ++t_rt;
  sync_point("once");
  for (;;) {
    Sync& s = sync_of(o);
    if (*o == 2) { acquire(s.vc); --t_rt; return 0; }
    if (s.owner < 0) {
      s.owner = t_self;
      --t_rt;
      try { f(); } catch (...) { ++t_rt; sync_of(o).owner = -1; unblock(o); --t_rt; throw; }
      ++t_rt;
      Sync& s2 = sync_of(o);
      *o = 2;
      guards.push_back(reinterpret_cast<char*>(o));
      release(s2.vc);
      s2.owner = -1;
      unblock(o);
      --t_rt;
      return 0;
    }
    block_on(o, "once in progress");
  }
}

// ---------------------------------------------------------------- function-local statics
int __cxa_guard_acquire(u64* g) {
  char* b = reinterpret_cast<char*>(g);
  if (!modelled() || !active) { if (*b) return 0; if (session) ++init_depth; return 1; }
  InRt rt;
  sync_point("static initialisation");
  for (;;) {
    Sync& s = sync_of(g);
    if (*b) { acquire(s.vc); return 0; }
    if (s.owner < 0) { s.owner = t_self; ++init_depth; st.inits++; if (s.init++ > 8 && cfg.report) cfg.report("initialisation", "repeated initialisation"); return 1; }
    if (s.owner == t_self) fatal("recursive initialisation of a static");
    block_on(g, "static being initialised");
  }
}
void __cxa_guard_release(u64* g) {
  char* b = reinterpret_cast<char*>(g);
  *b = 1;
  if (session) { --init_depth; guards.push_back(b); }
  if (!modelled() || !active) return;
  InRt rt;
  Sync& s = sync_of(g);
  release(s.vc);
  s.owner = -1;
  unblock(g);
}
void __cxa_guard_abort(u64* g) {
  if (session) --init_depth;
  if (!modelled() || !active) return;
  InRt rt;
  sync_of(g).owner = -1;
  unblock(g);
}
int __cxa_atexit(void (*f)(void*), void* arg, void* dso) {
  static auto real = reinterpret_cast<int (*)(void (*)(void*), void*, void*)>(dlsym(RTLD_NEXT, "__cxa_atexit"));
  if (session && init_depth > 0) { ++t_rt; dtors.push_back({f, arg}); --t_rt; return 0; }
  return real(f, arg, dso);
}

// ---------------------------------------------------------------- allocation
void* malloc(std::size_t n) { void* p = __libc_malloc(n); forget(p, false, __builtin_return_address(0)); return p; }
void free(void* p) { if (!hold(p, __builtin_return_address(0))) __libc_free(p); }
void* calloc(std::size_t a, std::size_t b) { void* p = __libc_calloc(a, b); forget(p, false, __builtin_return_address(0)); return p; }
void* realloc(void* p, std::size_t n) {
  if (p && n && modelled() && active) {
    void* q = malloc(n);
    if (!q) return q;
    std::memcpy(q, p, std::min<std::size_t>(n, malloc_usable_size(p)));
    free(p);
    return q;
  }
  forget(p, true, __builtin_return_address(0)); void* q = __libc_realloc(p, n); forget(q, false, __builtin_return_address(0)); return q; }
void* aligned_alloc(std::size_t a, std::size_t n) { void* p = __libc_memalign(a, n); forget(p, false, __builtin_return_address(0)); return p; }
int posix_memalign(void** out, std::size_t a, std::size_t n) { *out = __libc_memalign(a, n); forget(*out, false, __builtin_return_address(0)); return *out ? 0 : ENOMEM; }

// ---------------------------------------------------------------- instrumented accesses
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(n) \
  void __tsan_read##n(void* a) { access(a, n, false, PC); } \
  void __tsan_write##n(void* a) { access(a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { access(a, n, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { access(a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { access(a, n, false, PC); } \
  void __tsan_volatile_write##n(void* a) { access(a, n, true, PC); } \
  void __tsan_read_write##n(void* a) { access(a, n, false, PC); access(a, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void* a) { access(a, n, false, PC); access(a, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, std::size_t n) { access(a, n, false, PC); }
void __tsan_write_range(void* a, std::size_t n) { access(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, std::size_t n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return std::memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, std::size_t n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return std::memmove(d, s, n); }
void* __tsan_memset(void* d, int c, std::size_t n) { if (n) access(d, n, true, PC); return std::memset(d, c, n); }
}  // extern "C"

// ---------------------------------------------------------------- atomics (sequentially consistent values)
namespace {
// memory orders as numbers: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
void atomic_sync(const volatile void* a, int mo, bool load, bool store) {
  Sync& s = sync_of(const_cast<const void*>(a));
  if (load && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) acquire(s.vc);
  if (store && mo >= 3) release(s.vc);
  else if (store) s.vc = load ? s.vc : VC();  // a relaxed store starts a new release sequence
}
// The flag of an initialised static never changes again: reading it commutes with everything.
bool settled(const volatile void* a) {
  for (char* g : guards) if (g == a) return true;
  return false;
}
template <class V, class F>
V atomic_op(volatile V* a, int mo, bool load, bool store, F&& f) {
  if (!modelled() || !active) return f();
  InRt rt;
  if (store || !settled(a)) {
    spin_check(a);
    sync_point("atomic");
  }
  V v = f();
  atomic_sync(a, mo, load, store);
  return v;
}
template <class V>
bool atomic_cas(volatile V* a, V* e, V d, int mo, int fmo) {
  auto op = [&] { if (*a == *e) { *a = d; return true; } *e = *a; return false; };
  if (!modelled() || !active) return op();
  InRt rt;
  spin_check(a);
  sync_point("atomic");
  const bool ok = op();
  atomic_sync(a, ok ? mo : fmo, true, ok);
  return ok;
}
}  // namespace
#define ATOM(bits, V) \
  extern "C" V __tsan_atomic##bits##_load(const volatile V* a, int mo) { return atomic_op(const_cast<volatile V*>(a), mo, true, false, [&] { return V(*a); }); } \
  extern "C" void __tsan_atomic##bits##_store(volatile V* a, V v, int mo) { atomic_op(a, mo, false, true, [&] { *a = v; return v; }); } \
  extern "C" V __tsan_atomic##bits##_exchange(volatile V* a, V v, int mo) { return atomic_op(a, mo, true, true, [&] { V o = *a; *a = v; return o; }); } \
  extern "C" V __tsan_atomic##bits##_fetch_add(volatile V* a, V v, int mo) { return atomic_op(a, mo, true, true, [&] { V o = *a; *a = V(o + v); return o; }); } \
  extern "C" V __tsan_atomic##bits##_fetch_sub(volatile V* a, V v, int mo) { return atomic_op(a, mo, true, true, [&] { V o = *a; *a = V(o - v); return o; }); } \
  extern "C" V __tsan_atomic##bits##_fetch_and(volatile V* a, V v, int mo) { return atomic_op(a, mo, true, true, [&] { V o = *a; *a = V(o & v); return o; }); } \
  extern "C" V __tsan_atomic##bits##_fetch_or(volatile V* a, V v, int mo) { return atomic_op(a, mo, true, true, [&] { V o = *a; *a = V(o | v); return o; }); } \
  extern "C" V __tsan_atomic##bits##_fetch_xor(volatile V* a, V v, int mo) { return atomic_op(a, mo, true, true, [&] { V o = *a; *a = V(o ^ v); return o; }); } \
  extern "C" V __tsan_atomic##bits##_fetch_nand(volatile V* a, V v, int mo) { return atomic_op(a, mo, true, true, [&] { V o = *a; *a = V(~(o & v)); return o; }); } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile V* a, V* e, V d, int mo, int fmo) { return atomic_cas(a, e, d, mo, fmo); } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile V* a, V* e, V d, int mo, int fmo) { return atomic_cas(a, e, d, mo, fmo); } \
  extern "C" V __tsan_atomic##bits##_compare_exchange_val(volatile V* a, V e, V d, int mo, int fmo) { atomic_cas(a, &e, d, mo, fmo); return e; }
ATOM(8, std::uint8_t) ATOM(16, std::uint16_t) ATOM(32, std::uint32_t) ATOM(64, std::uint64_t)
// Conservative: every fence synchronises with every other fence.
static char fence_object;
extern "C" void __tsan_atomic_thread_fence(int) {
  if (!modelled() || !active) return;
  InRt rt;
  sync_point("fence");
  atomic_sync(&fence_object, 5, true, true);
}
extern "C" void __tsan_atomic_signal_fence(int) {}
