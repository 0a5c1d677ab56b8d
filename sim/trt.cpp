#include "trt.hpp"

#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace trt {

void (*violation)(const char*, const char*) = nullptr;

// ---- arena ------------------------------------------------------------------------------------------
static const std::uintptr_t kArena = 0x200000000000ull;
static const std::size_t kArenaSize = 192u << 20;
static const std::uintptr_t kShadow = 0x210000000000ull;
static const std::uintptr_t kGShadow = 0x220000000000ull;

struct Cell { std::uint16_t r[kMax]; std::uint16_t w; std::uint8_t wt; std::uint8_t state; };   // state: 0 none, 1 live, 2 freed
static_assert(sizeof(Cell) == 12, "");

static bool ready;
static std::size_t top, base;
static Policy pol{1, 0, 0, 0};
static std::uint64_t gap_state;
struct Hdr { std::uint64_t size; std::uint64_t cls; };     // in front of every block; cls: capacity
static const std::size_t kPressure = 16u << 20;
static const int kClasses = 40;
struct FreeList { std::uintptr_t head, tail; };
static FreeList fl[kClasses];
// Policy 3: the lowest free address, so that equal histories occupy equal addresses.
struct Lowest { std::uintptr_t* v; std::size_t n; };
static Lowest low[kClasses];
static const std::size_t kLowMax = 1u << 20;
static void low_push(int c, std::uintptr_t a) {
  Lowest& l = low[c];
  if (!l.v) l.v = static_cast<std::uintptr_t*>(mmap(nullptr, kLowMax * sizeof(std::uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (l.n == kLowMax) return;
  std::size_t i = l.n++;
  while (i && l.v[(i - 1) / 2] > a) { l.v[i] = l.v[(i - 1) / 2]; i = (i - 1) / 2; }
  l.v[i] = a;
}
static std::uintptr_t low_pop(int c) {
  Lowest& l = low[c];
  if (!l.n) return 0;
  std::uintptr_t r = l.v[0], x = l.v[--l.n];
  std::size_t i = 0;
  while (true) {
    std::size_t k = 2 * i + 1;
    if (k >= l.n) break;
    if (k + 1 < l.n && l.v[k + 1] < l.v[k]) ++k;
    if (l.v[k] >= x) break;
    l.v[i] = l.v[k];
    i = k;
  }
  l.v[i] = x;
  return r;
}
extern "C" char __data_start, _end;
static std::uintptr_t g0, g1;

static void arena_init() {
  ready = true;
  auto map = [](std::uintptr_t a, std::size_t n) {
    if (mmap(reinterpret_cast<void*>(a), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) _exit(99);
  };
  map(kArena, kArenaSize);
  map(kShadow, kArenaSize * sizeof(Cell));
  g0 = reinterpret_cast<std::uintptr_t>(&__data_start);
  g1 = reinterpret_cast<std::uintptr_t>(&_end);
  map(kGShadow, (g1 - g0) * sizeof(Cell) + 4096);
  top = 64;
}
static inline Cell* cells(std::uintptr_t a) {
  if (a - kArena < kArenaSize) return reinterpret_cast<Cell*>(kShadow) + (a - kArena);
  if (a - g0 < g1 - g0) return reinterpret_cast<Cell*>(kGShadow) + (a - g0);
  return nullptr;
}
static int size_class(std::size_t n, std::size_t& cap) {
  if (n <= 256) { cap = (n + 15) / 16 * 16; if (!cap) cap = 16; return static_cast<int>(cap / 16) - 1; }   // 0..15
  int c = 16;
  cap = 512;
  while (cap < n) { cap *= 2; ++c; }
  return c;
}

// ---- threads ----------------------------------------------------------------------------------------
struct VC { std::uint16_t c[kMax]; };
static void join(VC& a, const VC& b) { for (int i = 0; i < kMax; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
enum State { UNUSED, RUNNABLE, BLOCKED, DONE };
struct Thread {
  int id;
  State state;
  const void* blocked_on;
  bool track;
  VC vc, pend, relf;
  int word;                 // baton
  std::uint64_t steps, syncs, since;
  Faults f;
  pthread_t handle;
  void (*body)(int);
};
static Thread th[kMax];
static int cur = 0, nthreads = 1;
static bool threads_on;
static Switch* plan;
static int nplan;
static Counters cnt;
static std::uint64_t limit_steps = 400000000ull, total_steps;
static __thread Thread* me __attribute__((tls_model("initial-exec")));

Counters& counters() { return cnt; }
void mix(std::uint64_t v) { cnt.trace = (cnt.trace ^ v) * 1099511628211ull; cnt.trace ^= cnt.trace >> 29; }
int self() { return me ? me->id : 0; }
Faults& faults() { return me->f; }
std::uint64_t step_limit(std::uint64_t n) { auto o = limit_steps; limit_steps = n; return o; }

void init(int) {
  if (!ready) arena_init();
  // a fresh half of the arena: addresses do not depend on what this process did before
  base = kArenaSize / 2;
  top = base + 64;
  std::memset(static_cast<void*>(fl), 0, sizeof fl);
  for (auto& l : low) l.n = 0;
  std::memset(static_cast<void*>(th), 0, sizeof th);
  me = &th[0];
  me->state = RUNNABLE;
  me->vc.c[0] = 1;
  std::memset(static_cast<void*>(&cnt), 0, sizeof cnt);
  cnt.trace = 1469598103934665603ull;
  total_steps = 0;
}
void set_policy(const Policy& p) { pol = p; gap_state = p.gap; }

__attribute__((noinline)) void dirty_stack(int pattern) {
  volatile char buf[48 << 10];
  for (std::size_t i = 0; i < sizeof buf; i += 1) buf[i] = static_cast<char>(pattern);
  asm volatile("" : : "r"(buf) : "memory");
}

static void futex_wait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void futex_wake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
[[noreturn]] static void fail(const char* cls, const char* msg) {
  me->track = false;
  violation(cls, msg);
  _exit(98);
}
static int pick(int want) {
  for (int k = 0; k <= nthreads; ++k) {
    int t = (want + k) % (nthreads + 1);
    if (t >= 1 && th[t].state == RUNNABLE) return t;
  }
  return -1;
}
static void hand_over(int to) {      // the caller keeps its state
  Thread* t = me;
  if (to == t->id) return;
  cur = to;
  ++cnt.switches;
  mix(0x5000 + static_cast<unsigned>(t->id) * 16u + static_cast<unsigned>(to));
  mix(t->steps);
  t->since = 0;
  futex_wake(&th[to].word);
  futex_wait(&t->word);
}
static void yield_from(int want) {
  int to = pick(want);
  if (to > 0) hand_over(to);
}
static void block_on(const void* what) {
  Thread* t = me;
  t->state = BLOCKED;
  t->blocked_on = what;
  int to = pick(t->id + 1);
  if (to < 0) fail("deadlock", "every thread waits for a lock that another one holds");
  hand_over(to);
}
static void unblock(const void* what) {
  for (int i = 1; i <= nthreads; ++i) if (th[i].state == BLOCKED && th[i].blocked_on == what) { th[i].state = RUNNABLE; th[i].blocked_on = nullptr; }
}
static std::uint64_t next_at[kMax][2];
static void find_next(Thread* t, bool sync) {
  std::uint64_t n = sync ? t->syncs : t->steps, best = ~0ull;
  for (int i = 0; i < nplan; ++i) {
    Switch& s = plan[i];
    if (!s.done && s.thread == t->id && s.sync == sync && s.at > n && s.at < best) best = s.at;
  }
  next_at[t->id][sync] = best;
}
static inline void preempt(Thread* t, bool sync) {
  std::uint64_t n = sync ? t->syncs : t->steps;
  if (n < next_at[t->id][sync]) return;
  int to = -1;
  for (int i = 0; i < nplan; ++i) {
    Switch& s = plan[i];
    if (!s.done && s.thread == t->id && s.sync == sync && s.at == n) { s.done = true; to = s.to; }
  }
  find_next(t, sync);
  if (to >= 0) yield_from(to);
}
static inline void step(Thread* t) {
  ++t->steps;
  ++cnt.accesses;
  if (++total_steps > limit_steps) fail("hang", "no end within the step limit");
  if (threads_on && t->id) preempt(t, false);
}
static void sync_point(Thread* t) {
  if (!threads_on || !t->id || !t->track) return;
  ++t->syncs;
  if (++total_steps > limit_steps) fail("hang", "no end within the step limit");
  preempt(t, true);
  if (++t->since > 20000) { t->since = 0; yield_from(t->id + 1); }    // someone may be spinning
}
void point() { if (me) { bool w = me->track; me->track = true; sync_point(me); me->track = w; } }

Lib::Lib() : was(me->track) { me->track = true; }
Lib::~Lib() { me->track = was; }
Off::Off() : was(me && me->track) { if (me) me->track = false; }
Off::~Off() { if (me) me->track = was; }

static void* start(void* p) {
  me = static_cast<Thread*>(p);
  futex_wait(&me->word);
  me->body(me->id);
  me->track = false;
  me->state = DONE;
  // main joins: everything that happened here happened before
  join(th[0].vc, me->vc);
  int to = pick(me->id + 1);
  if (to > 0) {
    cur = to;
    mix(0x6000 + static_cast<unsigned>(me->id) * 16u + static_cast<unsigned>(to));
    futex_wake(&th[to].word);
  } else {
    for (int i = 1; i <= nthreads; ++i) if (th[i].state == BLOCKED) fail("deadlock", "a thread waits for a lock that nobody will release");
    futex_wake(&th[0].word);
  }
  return nullptr;
}
void run_threads(int n, void (*body)(int), Switch* sw, int nsw) {
  nthreads = n;
  plan = sw;
  nplan = nsw;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 1; i <= n; ++i) {
    Thread& t = th[i];
    std::memset(static_cast<void*>(&t), 0, sizeof t);
    t.id = i;
    t.state = RUNNABLE;
    t.body = body;
    t.vc = th[0].vc;
    t.vc.c[i] = 1;
    find_next(&t, false);
    find_next(&t, true);
    if (pthread_create(&t.handle, &at, start, &t)) fail("machinery", "pthread_create failed");
  }
  ++th[0].vc.c[0];
  threads_on = true;
  cur = 1;
  futex_wake(&th[1].word);
  futex_wait(&th[0].word);
  for (int i = 1; i <= n; ++i) pthread_join(th[i].handle, nullptr);
  threads_on = false;
  for (int i = 1; i <= n; ++i) { cnt.steps[i] = th[i].steps; cnt.syncs[i] = th[i].syncs; }
}

// ---- clocks of locks and atomics ----------------------------------------------------------------------
struct Sync { std::uintptr_t a; VC vc; int owner; int count; int readers; int waiters; std::uint64_t gen; };
static const unsigned kSync = 1u << 20;
static Sync* sync_tab;
static Sync& sync_of(const volatile void* p) {
  if (!sync_tab) {
    sync_tab = static_cast<Sync*>(mmap(nullptr, sizeof(Sync) * kSync, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  auto a = reinterpret_cast<std::uintptr_t>(p);
  unsigned h = static_cast<unsigned>((a * 0x9e3779b97f4a7c15ull) >> 24) % kSync;
  for (unsigned k = 0; k < kSync; ++k) {
    Sync& s = sync_tab[(h + k) % kSync];
    if (s.a == a) return s;
    if (!s.a) { s.a = a; return s; }
  }
  _exit(97);
}
static void acquire(Thread* t, Sync& s) { join(t->vc, s.vc); }
static void release(Thread* t, Sync& s) { join(s.vc, t->vc); if (t->vc.c[t->id] < 65000) ++t->vc.c[t->id]; }

// ---- races ----------------------------------------------------------------------------------------------
static void where(char* out, std::size_t n, const void* pc) {
  Dl_info d;
  if (pc && dladdr(pc, &d) && d.dli_sname) {
    int st = 0;
    bool was = me->track;
    me->track = false;
    char* s = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    std::snprintf(out, n, "%s", st == 0 && s ? s : d.dli_sname);
    std::free(s);
    me->track = was;
  } else std::snprintf(out, n, "?");
}
static void race(std::uintptr_t a, unsigned n, bool w, int other, bool ow, const void* pc) {
  char msg[1400], f[700], o[300] = "";
  me->track = false;
  where(f, sizeof f, pc);
  if (a - kArena >= kArenaSize) { Dl_info d; if (dladdr(reinterpret_cast<void*>(a), &d) && d.dli_sname) std::snprintf(o, sizeof o, " (%.200s)", d.dli_sname); }
  std::snprintf(msg, sizeof msg, "thread %d %s %u bytes of %s%s in %s, which thread %d %s without synchronisation", me->id, w ? "writes" : "reads", n,
                a - kArena < kArenaSize ? "the heap" : "a global variable", o, f, other, ow ? "wrote" : "read");
  fail("data-race", msg);
}
static void check(Thread* t, std::uintptr_t a, unsigned n, bool w, const void* pc) {
  Cell* c = cells(a);
  if (!c) return;
  bool heap = a - kArena < kArenaSize;
  std::uint16_t now = t->vc.c[t->id];
  for (unsigned i = 0; i < n; ++i, ++c) {
    if (heap && c->state != 1) {
      char msg[900], f[700];
      bool freed = c->state == 2;
      t->track = false;
      where(f, sizeof f, pc);
      std::snprintf(msg, sizeof msg, "%s of %s memory in %s", w ? "write" : "read", freed ? "freed" : "unallocated", f);
      fail(freed ? "use-after-free" : "wild-access", msg);
    }
    if (c->w && c->wt != t->id && c->w > t->vc.c[c->wt]) race(a, n, w, c->wt, true, pc);
    if (w) {
      for (int k = 0; k < kMax; ++k) if (k != t->id && c->r[k] > t->vc.c[k]) race(a, n, w, k, false, pc);
      c->w = now;
      c->wt = static_cast<std::uint8_t>(t->id);
    } else c->r[t->id] = now;
  }
}
static inline void access(const volatile void* p, unsigned n, bool w, const void* pc) {
  Thread* t = me;
  if (!t || !t->track) return;
  auto a = reinterpret_cast<std::uintptr_t>(p);
  if (a - kArena >= kArenaSize && a - g0 >= g1 - g0) return;
  step(t);
  check(t, a, n, w, pc);
}
void touch(const void* p, unsigned n, int write) {
  Thread* t = me;
  if (!t || !t->id || !threads_on) return;
  check(t, reinterpret_cast<std::uintptr_t>(p), n, write != 0, __builtin_return_address(0));
}

// ---- allocation ---------------------------------------------------------------------------------------
bool alloc_point() {
  Thread* t = me;
  if (!t || !t->track) return false;
  sync_point(t);
  Faults& f = t->f;
  ++f.n;
  if (f.n > f.from && f.n <= f.to) { ++f.fired; return true; }
  return false;
}
static void* arena_alloc(std::size_t n, std::size_t al) {
  if (!ready) arena_init();
  if (n > kArenaSize / 4) { errno = ENOMEM; return nullptr; }
  std::size_t cap;
  int c = size_class(n, cap);
  std::uintptr_t a = 0;
  ++cnt.allocs;
  // without reuse, freed memory comes back only under pressure
  if (pol.reuse == 3 && al <= 16 && (a = low_pop(c))) {
  } else if ((pol.reuse || top - base > kPressure) && al <= 16 && fl[c].head) {
    a = fl[c].head;
    fl[c].head = *reinterpret_cast<std::uintptr_t*>(a - 16);    // the link lives in the header
    if (!fl[c].head) fl[c].tail = 0;
  } else {
    std::size_t g = 16;
    if (pol.gap) { gap_state = gap_state * 6364136223846793005ull + 1442695040888963407ull; g += (gap_state >> 40) % 24 * 16; }
    a = kArena + top + g + 16;
    a = (a + al - 1) / al * al;
    top = a + cap - kArena;
    if (top + 64 > kArenaSize) { top -= cap; errno = ENOMEM; return nullptr; }
  }
  auto* h = reinterpret_cast<Hdr*>(a - 16);
  h->size = n;
  h->cls = static_cast<std::uint64_t>(c);
  std::memset(reinterpret_cast<void*>(a), pol.fill, cap);
  Cell* s = reinterpret_cast<Cell*>(kShadow) + (a - kArena);
  std::memset(static_cast<void*>(s), 0, cap * sizeof(Cell));
  for (std::size_t i = 0; i < n; ++i) s[i].state = 1;
  return reinterpret_cast<void*>(a);
}
static void arena_free(void* p, const void* pc) {
  if (!p) return;
  auto a = reinterpret_cast<std::uintptr_t>(p);
  if (a - kArena >= kArenaSize || a - kArena < base) return;
  auto* h = reinterpret_cast<Hdr*>(a - 16);
  Cell* s = reinterpret_cast<Cell*>(kShadow) + (a - kArena);
  if (h->size && s->state != 1) {
    if (me && violation) fail("double-free", "memory is freed twice");
    _exit(95);
  }
  ++cnt.frees;
  if (me && me->track && threads_on && h->size) check(me, a, static_cast<unsigned>(h->size), true, pc);
  std::size_t cap;
  size_class(h->size, cap);
  int c = static_cast<int>(h->cls);
  std::memset(p, pol.freefill, h->size);
  for (std::size_t i = 0; i < h->size; ++i) s[i].state = 2;
  if (!h->size) s[0].state = 2;
  if (pol.reuse == 3) low_push(c, a);
  else if (pol.reuse == 1) {                       // last in, first out
    *reinterpret_cast<std::uintptr_t*>(a - 16) = fl[c].head;
    fl[c].head = a;
    if (!fl[c].tail) fl[c].tail = a;
  } else {                                    // first in, first out
    *reinterpret_cast<std::uintptr_t*>(a - 16) = 0;
    if (fl[c].tail) *reinterpret_cast<std::uintptr_t*>(fl[c].tail - 16) = a; else fl[c].head = a;
    fl[c].tail = a;
  }
}

}  // namespace trt
using namespace trt;

// ---- malloc -----------------------------------------------------------------------------------------------
extern "C" {
void* malloc(std::size_t n) { return arena_alloc(n, 16); }
void free(void* p) { arena_free(p, __builtin_return_address(0)); }
void* calloc(std::size_t a, std::size_t b) {
  if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
  void* p = arena_alloc(a * b, 16);
  if (p) std::memset(p, 0, a * b);
  return p;
}
void* realloc(void* p, std::size_t n) {
  if (!p) return arena_alloc(n, 16);
  void* q = arena_alloc(n, 16);
  if (!q) return nullptr;
  std::size_t o = (reinterpret_cast<Hdr*>(reinterpret_cast<std::uintptr_t>(p) - 16))->size;
  std::memcpy(q, p, o < n ? o : n);
  arena_free(p, __builtin_return_address(0));
  return q;
}
void* aligned_alloc(std::size_t a, std::size_t n) { return arena_alloc(n, a < 16 ? 16 : a); }
void* memalign(std::size_t a, std::size_t n) { return arena_alloc(n, a < 16 ? 16 : a); }
int posix_memalign(void** p, std::size_t a, std::size_t n) { *p = arena_alloc(n, a < 16 ? 16 : a); return *p ? 0 : ENOMEM; }
void* valloc(std::size_t n) { return arena_alloc(n, 4096); }
std::size_t malloc_usable_size(void* p) { return p ? (reinterpret_cast<Hdr*>(reinterpret_cast<std::uintptr_t>(p) - 16))->size : 0; }
}

static void* new_or_throw(std::size_t n, std::size_t al) {
  if (alloc_point()) throw std::bad_alloc();
  void* p = arena_alloc(n, al < 16 ? 16 : al);
  if (!p) throw std::bad_alloc();
  return p;
}
static void* new_or_null(std::size_t n, std::size_t al) noexcept { return alloc_point() ? nullptr : arena_alloc(n, al < 16 ? 16 : al); }
#define PC __builtin_return_address(0)
void* operator new(std::size_t n) { return new_or_throw(n, 16); }
void* operator new[](std::size_t n) { return new_or_throw(n, 16); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return new_or_null(n, 16); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return new_or_null(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { return new_or_throw(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return new_or_throw(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { arena_free(p, PC); }
void operator delete[](void* p) noexcept { arena_free(p, PC); }
void operator delete(void* p, std::size_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, std::size_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arena_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arena_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { arena_free(p, PC); }

// ---- locks --------------------------------------------------------------------------------------------------
static int lock_excl(const void* p, bool recursive, bool try_only) {
  Thread* t = me;
  if (!t) return 0;
  ++cnt.locks;
  sync_point(t);
  Sync& s = sync_of(p);
  while (s.count || s.readers) {
    if (s.count && s.owner == t->id) {
      if (recursive) { ++s.count; return 0; }
      if (try_only) return EBUSY;
      fail("deadlock", "a thread locks a mutex that it already holds");
    }
    if (try_only) return EBUSY;
    if (!threads_on || !t->id) fail("deadlock", "a mutex is held by a thread that has ended");
    block_on(p);
  }
  s.owner = t->id;
  s.count = 1;
  acquire(t, s);
  return 0;
}
static int lock_shared(const void* p, bool try_only) {
  Thread* t = me;
  if (!t) return 0;
  ++cnt.locks;
  sync_point(t);
  Sync& s = sync_of(p);
  while (s.count) {
    if (try_only) return EBUSY;
    if (s.owner == t->id) fail("deadlock", "a thread locks a lock that it already holds");
    if (!threads_on || !t->id) fail("deadlock", "a lock is held by a thread that has ended");
    block_on(p);
  }
  ++s.readers;
  acquire(t, s);
  return 0;
}
static int unlock(const void* p) {
  Thread* t = me;
  if (!t) return 0;
  Sync& s = sync_of(p);
  release(t, s);
  if (s.count) { if (--s.count == 0) unblock(p); }
  else if (s.readers && --s.readers == 0) unblock(p);
  sync_point(t);
  return 0;
}
static bool rec(const pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { return lock_excl(m, rec(m), false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lock_excl(m, rec(m), true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return lock_excl(m, rec(m), false); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) { return lock_excl(m, rec(m), false); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return unlock(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lock_shared(m, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return lock_shared(m, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lock_excl(m, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return lock_excl(m, false, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlock(m); }
int pthread_spin_lock(pthread_spinlock_t* m) { return lock_excl(const_cast<const int*>(m), false, false); }
int pthread_spin_trylock(pthread_spinlock_t* m) { return lock_excl(const_cast<const int*>(m), false, true); }
int pthread_spin_unlock(pthread_spinlock_t* m) { return unlock(const_cast<const int*>(m)); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  unlock(m);
  Thread* t = me;
  if (!t || !threads_on || !t->id) return lock_excl(m, rec(m), false);
  Sync& s = sync_of(c);
  auto g = s.gen;
  while (s.gen == g) block_on(c);
  acquire(t, s);
  return lock_excl(m, rec(m), false);
}
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const timespec*) {   // times out at once, others run in between
  unlock(m);
  if (me && threads_on && me->id) yield_from(me->id + 1);
  lock_excl(m, rec(m), false);
  return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) { return pthread_cond_timedwait(c, m, ts); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (me) { Sync& s = sync_of(c); release(me, s); ++s.gen; unblock(c); } return 0; }
int pthread_cond_signal(pthread_cond_t* c) { return pthread_cond_broadcast(c); }
int pthread_once(pthread_once_t* o, void (*f)()) {
  Thread* t = me;
  if (!t) { if (*o != 2) { *o = 2; f(); } return 0; }
  sync_point(t);
  Sync& s = sync_of(o);
  while (*o == 1) { if (!threads_on || !t->id) fail("deadlock", "recursive once"); block_on(o); }
  if (*o == 2) { acquire(t, s); return 0; }
  *o = 1;
  try { f(); } catch (...) { *o = 0; unblock(o); throw; }
  *o = 2;
  release(t, s);
  unblock(o);
  return 0;
}
int sched_yield() { if (me && threads_on && me->id) yield_from(me->id + 1); return 0; }
int usleep(useconds_t) { return sched_yield(); }
int nanosleep(const timespec*, timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { return sched_yield(); }

// function-local statics
int __cxa_guard_acquire(std::int64_t* g) {
  auto* b = reinterpret_cast<unsigned char*>(g);
  Thread* t = me;
  if (t) sync_point(t);
  while (true) {
    if (b[0]) { if (t) acquire(t, sync_of(g)); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    if (!t || !threads_on || !t->id) { if (t) fail("deadlock", "recursive initialisation"); return 1; }
    block_on(g);
  }
}
void __cxa_guard_release(std::int64_t* g) {
  auto* b = reinterpret_cast<unsigned char*>(g);
  b[1] = 0;
  b[0] = 1;
  if (me) { release(me, sync_of(g)); unblock(g); sync_point(me); }
}
void __cxa_guard_abort(std::int64_t* g) {
  reinterpret_cast<unsigned char*>(g)[1] = 0;
  if (me) unblock(g);
}

// ---- instrumentation ------------------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
  void __tsan_read##N(void* p) { access(p, N, false, PC); } \
  void __tsan_write##N(void* p) { access(p, N, true, PC); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
  void __tsan_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); } \
  void __tsan_unaligned_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); } \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); else access(p, 8, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { access(p, static_cast<unsigned>(n), false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, static_cast<unsigned>(n), true, PC); }
void* __tsan_memcpy(void* d, const void* s, std::size_t n) { if (n) { access(s, static_cast<unsigned>(n), false, PC); access(d, static_cast<unsigned>(n), true, PC); } return std::memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, std::size_t n) { if (n) { access(s, static_cast<unsigned>(n), false, PC); access(d, static_cast<unsigned>(n), true, PC); } return std::memmove(d, s, n); }
void* __tsan_memset(void* d, int c, std::size_t n) { if (n) access(d, static_cast<unsigned>(n), true, PC); return std::memset(d, c, n); }
}

namespace {
enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };
bool acq(int mo) { return mo == CONSUME || mo == ACQUIRE || mo == ACQ_REL || mo == SEQ_CST; }
bool rel(int mo) { return mo == RELEASE || mo == ACQ_REL || mo == SEQ_CST; }
void alive(const volatile void* p) {     // an atomic operation on freed memory
  auto a = reinterpret_cast<std::uintptr_t>(p);
  Thread* t = me;
  if (t && t->track && a - kArena < kArenaSize && (reinterpret_cast<Cell*>(kShadow) + (a - kArena))->state != 1) fail("use-after-free", "atomic operation on memory that is not allocated");
}
void before(const volatile void* p) {
  Thread* t = me;
  if (!t) return;
  if (t->track) { ++cnt.atomics; sync_point(t); alive(p); }
}
void after_load(const volatile void* p, int mo) {
  Thread* t = me;
  if (!t) return;
  Sync& s = sync_of(p);
  if (acq(mo)) acquire(t, s); else join(t->pend, s.vc);
}
void after_store(const volatile void* p, int mo, bool rmw) {
  Thread* t = me;
  if (!t) return;
  Sync& s = sync_of(p);
  if (!rmw) std::memset(static_cast<void*>(&s.vc), 0, sizeof s.vc);      // a plain store starts a new release sequence
  if (rel(mo)) release(t, s); else join(s.vc, t->relf);
}
}
#define ATOMIC(BITS, T) \
  T __tsan_atomic##BITS##_load(const volatile T* p, int mo) { before(p); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); after_load(p, mo); return v; } \
  void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) { before(p); after_store(p, mo, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) { before(p); T o = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); after_load(p, mo); after_store(p, mo, true); return o; } \
  T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) { before(p); T o = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); after_load(p, mo); after_store(p, mo, true); return o; } \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) { before(p); T o = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); after_load(p, mo); after_store(p, mo, true); return o; } \
  T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) { before(p); T o = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); after_load(p, mo); after_store(p, mo, true); return o; } \
  T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) { before(p); T o = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); after_load(p, mo); after_store(p, mo, true); return o; } \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) { before(p); T o = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); after_load(p, mo); after_store(p, mo, true); return o; } \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) { before(p); T o = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); after_load(p, mo); after_store(p, mo, true); return o; } \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
    before(p); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    after_load(p, ok ? mo : fmo); if (ok) after_store(p, mo, true); return ok; } \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##BITS##_compare_exchange_strong(p, e, v, mo, fmo); } \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { __tsan_atomic##BITS##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
extern "C" {
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {
  Thread* t = me;
  if (!t) return;
  sync_point(t);
  if (acq(mo)) join(t->vc, t->pend);
  if (rel(mo)) { t->relf = t->vc; if (t->vc.c[t->id] < 65000) ++t->vc.c[t->id]; }
  if (mo == SEQ_CST) { static VC all; join(t->vc, all); join(all, t->vc); }
}
void __tsan_atomic_signal_fence(int) {}
}
