#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {
constexpr int MAXT = 8, MAXM = 256, MAXQ = 1 << 16;
enum State { FREE, READY, BLOCKED, DONE };
enum Why { NONE, MUTEX, COND, TIMED, JOIN, PRED };
const char* why_name[] = {"nothing", "mutex", "condition", "timed wait", "join", "condition of the harness"};

struct VC {
  uint32_t c[MAXT];
  void clear() { memset(c, 0, sizeof c); }
  void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Thread {
  std::atomic<int> go{0};
  State st = FREE;
  Why why = NONE;
  void* obj = nullptr;      // mutex / condition waited for
  void* reacquire = nullptr;
  bool timed_out = false;
  int joining = -1;
  bool (*pred)(void*) = nullptr; void* arg = nullptr;
  bool detached = false, joined = false;
  void* (*fn)(void*) = nullptr; void* fnarg = nullptr; void* ret = nullptr;
  VC vc;
  int quiet = 0;
  char* lo = nullptr; char* hi = nullptr; // stack
  pthread_t os;
  bool started = false;
  const char* at = "";
};
struct Mutex { void* addr; uint32_t gen; int owner; VC vc; };
struct Rec { uint32_t clk; uint8_t tid, mask, flags; uint32_t pc; }; // flags: 1 write, 2 atomic, 4 valid
struct Cell { uintptr_t key; uint32_t gen; uint32_t freed; uint8_t freed_by; Rec r[6]; };
struct Sync { uintptr_t key; uint32_t gen; VC vc; };
constexpr uint32_t NCELL = 1 << 17, NSYNC = 1 << 12;

Thread T[MAXT];
int nthreads = 0, cur = 0;
bool on = false;
uint32_t gen = 1;
Mutex M[MAXM]; int nmutex = 0;
Cell* cells = nullptr; Sync* syncs = nullptr; uint32_t ncells = 0;
void** quarantine = nullptr; int nquar = 0;
sched::Hooks H; sched::Options O;
unsigned long npoints = 0;
thread_local int me = -1;
int settler = -1; bool calm_ = false;

int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*r_lock)(pthread_mutex_t*); int (*r_trylock)(pthread_mutex_t*); int (*r_unlock)(pthread_mutex_t*);
int (*r_minit)(pthread_mutex_t*, const pthread_mutexattr_t*); int (*r_mdestroy)(pthread_mutex_t*);
int (*r_wait)(pthread_cond_t*, pthread_mutex_t*);
int (*r_timedwait)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int (*r_clockwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
int (*r_signal)(pthread_cond_t*); int (*r_broadcast)(pthread_cond_t*); int (*r_cdestroy)(pthread_cond_t*);
int (*r_join)(pthread_t, void**); int (*r_detach)(pthread_t);

template <typename F> void res(F& f, const char* n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); }
void resolve()
{
  static bool done = false;
  if (done) return;
  done = true;
  res(r_create, "pthread_create"); res(r_lock, "pthread_mutex_lock"); res(r_trylock, "pthread_mutex_trylock"); res(r_unlock, "pthread_mutex_unlock");
  res(r_minit, "pthread_mutex_init"); res(r_mdestroy, "pthread_mutex_destroy");
  res(r_signal, "pthread_cond_signal"); res(r_broadcast, "pthread_cond_broadcast"); res(r_cdestroy, "pthread_cond_destroy");
  res(r_wait, "pthread_cond_wait"); res(r_timedwait, "pthread_cond_timedwait"); res(r_clockwait, "pthread_cond_clockwait");
  res(r_join, "pthread_join"); res(r_detach, "pthread_detach");
}
bool ctl() { return on && me >= 0; }

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void fail(const char* fmt, ...)
{
  char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  T[me < 0 ? 0 : me].quiet++;
  H.fail(H.ctx, b);
  _exit(43);
}
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...)
{
  if (!H.note) return;
  char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  T[me].quiet++; H.note(H.ctx, b); T[me].quiet--;
}
void fwait(std::atomic<int>& a) { while (a.load() == 0) syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a = 0; }
void fwake(std::atomic<int>& a) { a = 1; syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

Mutex* mutex_of(void* a)
{
  for (int i = 0; i < nmutex; ++i) if (M[i].addr == a) return &M[i];
  if (nmutex == MAXM) { fprintf(stderr, "sched: too many mutexes\n"); _exit(44); }
  Mutex* m = &M[nmutex++]; m->addr = a; m->owner = -1; m->vc.clear();
  return m;
}
bool enabled(int i)
{
  Thread& t = T[i];
  if (t.st == READY) return true;
  if (t.st != BLOCKED) return false;
  switch (t.why) {
    case MUTEX: return mutex_of(t.obj)->owner < 0;
    case JOIN: return T[t.joining].st == DONE;
    case PRED: { T[cur].quiet++; bool r = t.pred(t.arg); T[cur].quiet--; return r; }
    default: return false;
  }
}
void switch_to(int to)
{
  int from = me;
  if (to == from) return;
  cur = to;
  bool leaving = T[from].st == DONE; // to be read before anybody else may run
  fwake(T[to].go);
  if (leaving) return;
  fwait(T[from].go);
}
// The running thread can't or needn't go on: pick the next one.
void pick(const char* tag, bool deviation)
{
  if (++npoints > (unsigned long)O.horizon) fail("more than %d scheduling points: livelock", O.horizon);
  int e[MAXT], n = 0;
  if (T[me].st != DONE && enabled(me)) e[n++] = me;
  for (int i = 0; i < nthreads; ++i) if (i != me && enabled(i)) e[n++] = i;
  if (!n) {
    // time passes only if nothing else can happen
    for (int i = 0; i < nthreads; ++i) if (T[i].st == BLOCKED && T[i].why == TIMED) { T[i].why = MUTEX; T[i].obj = T[i].reacquire; T[i].timed_out = true; e[n++] = i; break; }
  }
  if (!n) {
    char b[1500]; int k = snprintf(b, sizeof b, "deadlock:");
    for (int i = 0; i < nthreads; ++i)
      if (T[i].st == BLOCKED) k += snprintf(b + k, sizeof b - k, " thread %d waits for a %s (at %s)%s;", i, why_name[T[i].why], T[i].at, T[i].why == MUTEX && mutex_of(T[i].obj)->owner == i ? " it already owns" : "");
    fail("%s", b);
  }
  int k = 0;
  if (settler >= 0) { for (int i = 0; i < n; ++i) if (e[i] != settler) { k = i; break; } }
  else if (n > 1 && !calm_) { T[me].quiet++; k = H.choose(H.ctx, n, tag, deviation && e[0] == me); T[me].quiet--; }
  if (e[k] != me) note("  thread %d -> thread %d (%s)", me, e[k], tag);
  switch_to(e[k]);
}
void block(Why why, void* obj, const char* tag)
{
  Thread& t = T[me];
  t.st = BLOCKED; t.why = why; t.obj = obj; t.at = tag;
  if (!enabled(me)) pick(tag, false);
  t.st = READY; t.why = NONE;
}
void yield(const char* tag) { T[me].at = tag; pick(tag, true); }

// ---- race detection ---------------------------------------------------------------------------------------------
void tick() { T[me].vc.c[me]++; }
Sync* sync_of(uintptr_t a, bool make)
{
  uint32_t i = (uint32_t)((a >> 2) * 0x9e3779b1u) % NSYNC;
  for (uint32_t k = 0; k < NSYNC; ++k, i = (i + 1) % NSYNC) {
    if (syncs[i].gen != gen) { if (!make) return nullptr; syncs[i].gen = gen; syncs[i].key = a; syncs[i].vc.clear(); return &syncs[i]; }
    if (syncs[i].key == a) return &syncs[i];
  }
  return nullptr;
}
Cell* cell_of(uintptr_t key, bool make)
{
  uint32_t i = (uint32_t)(key * 0x9e3779b97f4a7c15ull >> 40) % NCELL;
  for (uint32_t k = 0; k < 200; ++k, i = (i + 1) % NCELL) {
    Cell& c = cells[i];
    if (c.gen != gen) { if (!make || ncells > NCELL / 2) return nullptr; ++ncells; memset(&c, 0, sizeof c); c.gen = gen; c.key = key; return &c; }
    if (c.key == key) return &c;
  }
  return nullptr;
}
extern "C" char __executable_start;
uint32_t pc_off(void* pc) { return (uint32_t)((char*)pc - &__executable_start); }
void* pc_at(uint32_t off) { return &__executable_start + off; }
std::string where(void* pc)
{
  Dl_info i; char b[200];
  if (pc && dladdr(pc, &i) && i.dli_fname) { snprintf(b, sizeof b, "%p (%s+0x%lx)", pc, i.dli_sname ? i.dli_sname : "?", (unsigned long)((char*)pc - (char*)i.dli_fbase)); return b; }
  snprintf(b, sizeof b, "%p", pc); return b;
}
void touch1(uintptr_t key, uint8_t mask, uint8_t flags, void* pc)
{
  Cell* c = cell_of(key, true);
  if (!c) return;
  if (c->freed & mask) {
    T[me].quiet++;
    fail("use after free: thread %d %s %p (freed by thread %d) at %s", me, flags & 1 ? "writes" : "reads", (void*)(key * 8), c->freed_by, where(pc).c_str());
  }
  VC& vc = T[me].vc;
  int slot = -1, empty = -1, old = -1;
  for (int i = 0; i < 6; ++i) {
    Rec& r = c->r[i];
    if (!(r.flags & 4)) { if (empty < 0) empty = i; continue; }
    if (r.tid == me) {
      if (r.mask == mask && ((r.flags & 3) == (flags & 3))) slot = i;
      else if ((r.mask & ~mask) == 0 && (flags & 1) && !(flags & 2)) { r.flags = 0; if (empty < 0) empty = i; }
      continue;
    }
    bool hb = r.clk <= vc.c[r.tid];
    if ((r.mask & mask) && ((r.flags | flags) & 1) && !((r.flags & 2) && (flags & 2)) && !hb && O.races) {
      T[me].quiet++;
      char b[1500];
      snprintf(b, sizeof b, "data race: thread %d %s%s %p, unordered with the %s%s by thread %d, at %s; the other access was at %s", me, flags & 2 ? "atomically " : "", flags & 1 ? "writes" : "reads", (void*)(key * 8), r.flags & 2 ? "atomic " : "", r.flags & 1 ? "write" : "read", r.tid, where(pc).c_str(), where(pc_at(r.pc)).c_str());
      if (!H.tolerate || !H.tolerate(H.ctx, b)) fail("%s", b);
      T[me].quiet--;
    }
    if (hb) { if ((r.mask & ~mask) == 0 && (flags & 1) && !(flags & 2)) { r.flags = 0; if (empty < 0) empty = i; } else old = i; }
  }
  if (slot < 0) slot = empty;
  if (slot < 0) slot = old;
  if (slot < 0) slot = (int)(npoints % 6);
  c->r[slot] = Rec{vc.c[me], (uint8_t)me, mask, (uint8_t)((flags & 3) | 4), pc_off(pc)};
}
inline void touch(const void* p, size_t n, uint8_t flags, void* pc)
{
  if (!on || me < 0 || nthreads < 2) return;
  Thread& t = T[me];
  if (t.quiet) return;
  uintptr_t a = (uintptr_t)p;
  if ((char*)a >= t.lo && (char*)a < t.hi) return;
  while (n) {
    unsigned o = a & 7, k = 8 - o < n ? 8 - o : (unsigned)n;
    touch1(a >> 3, (uint8_t)(((1u << k) - 1) << o), flags, pc);
    a += k; n -= k;
  }
}
void mark_freed(void* p, size_t n)
{
  uintptr_t a = (uintptr_t)p;
  if (nthreads < 2) { a = (uintptr_t)p; }
  while (n) {
    unsigned o = a & 7, k = 8 - o < n ? 8 - o : (unsigned)n;
    Cell* c = cell_of(a >> 3, true);
    if (c) { c->freed |= ((1u << k) - 1) << o; c->freed_by = (uint8_t)me; }
    a += k; n -= k;
  }
}
// atomics
void acq(const volatile void* a) { if (Sync* s = sync_of((uintptr_t)a, false)) T[me].vc.join(s->vc); }
void rel(const volatile void* a, bool rmw)
{
  if (Sync* s = sync_of((uintptr_t)a, true)) { if (rmw) s->vc.join(T[me].vc); else s->vc = T[me].vc; }
  tick();
}
bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool at_on() { return on && me >= 0 && nthreads > 1; }
void at_point() { if (O.atomics && !T[me].quiet) yield("atomic"); }
void at_load(const volatile void* a, int n, int mo, void* pc) { if (!at_on()) return; touch((const void*)a, n, 2, pc); if (is_acq(mo)) acq(a); }
void at_store(const volatile void* a, int n, int mo, void* pc)
{
  if (!at_on()) return;
  touch((const void*)a, n, 3, pc);
  if (is_rel(mo)) rel(a, false); else if (Sync* s = sync_of((uintptr_t)a, false)) s->vc.clear();
}
void at_rmw(const volatile void* a, int n, int mo, void* pc)
{
  if (!at_on()) return;
  touch((const void*)a, n, 3, pc);
  if (is_acq(mo)) acq(a);
  if (is_rel(mo)) rel(a, true);
}

// ---- threads ----------------------------------------------------------------------------------------------------
void* trampoline(void* p)
{
  int id = (int)(intptr_t)p;
  Thread& t = T[id];
  for (;;) {
    fwait(t.go);
    me = id;
    t.ret = t.fn(t.fnarg);
    tick();
    t.st = DONE;
    pick("thread exit", false);
    me = -1;
  }
  return nullptr;
}
void stack_of(Thread& t)
{
  pthread_attr_t a; void* p; size_t n;
  if (!pthread_getattr_np(pthread_self(), &a)) { pthread_attr_getstack(&a, &p, &n); t.lo = (char*)p; t.hi = t.lo + n; pthread_attr_destroy(&a); }
}
}

namespace sched {
void begin(const Hooks& h, const Options& o)
{
  resolve();
  H = h; O = o;
  if (!cells) {
    cells = (Cell*)__libc_calloc(NCELL, sizeof(Cell)); syncs = (Sync*)__libc_calloc(NSYNC, sizeof(Sync));
    quarantine = (void**)__libc_malloc(MAXQ * sizeof(void*));
    stack_of(T[0]);
  }
  ++gen; ncells = 0; nmutex = 0; npoints = 0; nquar = 0;
  for (auto& t : T) { t.st = FREE; t.why = NONE; t.vc.clear(); t.quiet = 0; t.detached = t.joined = false; t.timed_out = false; }
  nthreads = 1; cur = 0; me = 0; T[0].st = READY; T[0].vc.c[0] = 1;
  settler = -1; calm_ = false;
  on = true;
}
void end()
{
  for (int i = 1; i < nthreads; ++i) if (T[i].st != DONE) fail("thread %d was never joined", i);
  on = false; me = -1;
  for (int i = 0; i < nquar; ++i) __libc_free(quarantine[i]);
  nquar = 0;
}
bool active() { return ctl(); }
int self() { return ctl() ? me : -1; }
void point(const char* tag) { if (ctl()) yield(tag); }
void settle() { if (!ctl()) return; settler = me; pick("settle", false); settler = -1; }
void calm(bool b) { calm_ = b; }
unsigned long points() { return npoints; }
int threads() { return nthreads; }
void access(const void* p, size_t n, bool write)
{
  if (!ctl() || !n) return;
  int q = T[me].quiet; T[me].quiet = 0; // called from within simulated system calls, which are quiet
  touch(p, n, write ? 1 : 0, __builtin_return_address(0));
  T[me].quiet = q;
}
void block_until(bool (*pred)(void*), void* arg, const char* tag)
{
  if (!ctl()) return;
  T[me].pred = pred; T[me].arg = arg;
  block(PRED, nullptr, tag);
}
void quiet(int d) { if (on && me >= 0) T[me].quiet += d; }
}
extern "C" void mc_quiet(int d) { sched::quiet(d); }

extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
  resolve();
  if (!ctl()) return r_create(th, at, fn, arg);
  if (nthreads == MAXT) { fprintf(stderr, "sched: too many threads\n"); _exit(44); }
  int id = nthreads++;
  Thread& t = T[id];
  t.fn = fn; t.fnarg = arg; t.st = READY; t.detached = t.joined = false; t.quiet = 0; t.at = "start";
  t.vc = T[me].vc; t.vc.c[id]++;
  tick();
  if (!t.started) {
    t.started = true;
    pthread_attr_t a; pthread_attr_init(&a);
    size_t sz = 1 << 20; char* st = (char*)__libc_memalign(4096, sz);
    pthread_attr_setstack(&a, st, sz); t.lo = st; t.hi = st + sz;
    if (r_create(&t.os, &a, trampoline, (void*)(intptr_t)id)) { fprintf(stderr, "sched: pthread_create failed\n"); _exit(44); }
    pthread_attr_destroy(&a);
  }
  *th = (pthread_t)(id + 1);
  if (O.locks) yield("thread created");
  return 0;
}
int pthread_join(pthread_t th, void** ret)
{
  resolve();
  if (!ctl()) return r_join(th, ret);
  int id = (int)th - 1;
  if (id <= 0 || id >= nthreads || T[id].joined) fail("join of an invalid thread");
  if (id == me) return EDEADLK;
  if (O.locks) yield("join");
  T[me].joining = id;
  block(JOIN, nullptr, "join");
  T[id].joined = true;
  T[me].vc.join(T[id].vc);
  if (ret) *ret = T[id].ret;
  return 0;
}
int pthread_detach(pthread_t th)
{
  resolve();
  if (!ctl()) return r_detach(th);
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
  resolve();
  if (ctl()) { Mutex* x = mutex_of(m); x->owner = -1; x->vc.clear(); }
  return r_minit(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
  resolve();
  if (ctl()) {
    Mutex* x = mutex_of(m);
    if (x->owner >= 0) fail("a locked mutex is destroyed");
    for (int i = 0; i < nthreads; ++i) if (T[i].st == BLOCKED && ((T[i].why == MUTEX && T[i].obj == m) || ((T[i].why == COND || T[i].why == TIMED) && T[i].reacquire == m))) fail("a mutex is destroyed while thread %d waits for it", i);
    *x = M[--nmutex];
  }
  return r_mdestroy(m);
}
static void take(Mutex* x, bool)
{
  x->owner = me;
  T[me].vc.join(x->vc);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
  resolve();
  if (!ctl()) return r_lock ? r_lock(m) : 0;
  if (O.locks) yield("lock");
  touch(m, 4, 2, __builtin_return_address(0)); // detects use of a freed mutex
  block(MUTEX, m, "lock");
  take(mutex_of(m), false);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  resolve();
  if (!ctl()) return r_trylock(m);
  if (O.locks) yield("trylock");
  Mutex* x = mutex_of(m);
  if (x->owner >= 0) return EBUSY;
  take(x, false);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  resolve();
  if (!ctl()) return r_unlock ? r_unlock(m) : 0;
  Mutex* x = mutex_of(m);
  if (x->owner != me) fail("a mutex is unlocked by thread %d, which does not own it", me);
  touch(m, 4, 2, __builtin_return_address(0));
  x->vc = T[me].vc; tick();
  x->owner = -1;
  if (O.unlocks) yield("unlocked");
  return 0;
}
static int wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
  Mutex* x = mutex_of(m);
  if (x->owner != me) fail("condition wait without owning the mutex");
  touch(c, 4, 2, __builtin_return_address(0));
  x->vc = T[me].vc; tick();
  x->owner = -1;
  Thread& t = T[me];
  t.reacquire = m; t.timed_out = false;
  bool spur = false;
  if (O.spurious) { t.quiet++; spur = H.choose(H.ctx, 2, "spurious wakeup", true); t.quiet--; }
  if (!spur) {
    t.st = BLOCKED; t.why = timed ? TIMED : COND; t.obj = c; t.at = "condition wait";
    pick("wait", false);
  } else yield("spurious");
  // signalled: the signaller made us wait for the mutex, and we've been picked when it was free
  t.st = READY; t.why = NONE;
  block(MUTEX, m, "relock");
  take(mutex_of(m), false);
  return t.timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { resolve(); return ctl() ? wait_impl(c, m, false) : r_wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { resolve(); return ctl() ? wait_impl(c, m, true) : r_timedwait(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { resolve(); return ctl() ? wait_impl(c, m, true) : r_clockwait(c, m, k, t); }
static void wake(int i) { T[i].why = MUTEX; T[i].obj = T[i].reacquire; }
int pthread_cond_signal(pthread_cond_t* c)
{
  resolve();
  if (!ctl()) return r_signal(c);
  touch(c, 4, 2, __builtin_return_address(0));
  int w[MAXT], n = 0;
  for (int i = 0; i < nthreads; ++i) if (T[i].st == BLOCKED && (T[i].why == COND || T[i].why == TIMED) && T[i].obj == c) w[n++] = i;
  if (!n) return 0;
  int k = 0;
  if (n > 1 && !calm_ && settler < 0) { T[me].quiet++; k = H.choose(H.ctx, n, "signal", false); T[me].quiet--; }
  wake(w[k]);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  resolve();
  if (!ctl()) return r_broadcast(c);
  touch(c, 4, 2, __builtin_return_address(0));
  for (int i = 0; i < nthreads; ++i) if (T[i].st == BLOCKED && (T[i].why == COND || T[i].why == TIMED) && T[i].obj == c) wake(i);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
  resolve();
  if (ctl()) {
    for (int i = 0; i < nthreads; ++i) if (T[i].st == BLOCKED && (T[i].why == COND || T[i].why == TIMED) && T[i].obj == c) fail("a condition is destroyed while thread %d waits for it", i);
    return 0;
  }
  return r_cdestroy(c);
}
int sched_yield() { if (ctl()) { yield("sched_yield"); return 0; } return (int)syscall(SYS_sched_yield); }

// ---- memory -----------------------------------------------------------------------------------------------------
void* malloc(size_t n) { return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void* memalign(size_t a, size_t n) { return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
void free(void* p)
{
  if (!p) return;
  if (!ctl()) return __libc_free(p);
  Cell* c = cell_of((uintptr_t)p >> 3, false);
  if (c && (c->freed & 1)) fail("double free of %p by thread %d (first freed by thread %d)", p, me, c->freed_by);
  if (nquar >= MAXQ) return; // leak
  size_t n = malloc_usable_size(p);
  if (n > 4096) n = 4096;
  // freeing is a write: it must be ordered after every access
  int q = T[me].quiet;
  if (!q) touch(p, n < 256 ? n : 256, 1, __builtin_return_address(0));
  mark_freed(p, n);
  quarantine[nquar++] = p;
}
void* realloc(void* p, size_t n)
{
  if (!p) return malloc(n);
  if (!ctl()) return __libc_realloc(p, n);
  size_t o = malloc_usable_size(p);
  void* r = __libc_malloc(n);
  if (r) { memcpy(r, p, o < n ? o : n); free(p); }
  return r;
}

// ---- instrumentation --------------------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
void __tsan_read1(void* p) { touch(p, 1, 0, PC); }
void __tsan_read2(void* p) { touch(p, 2, 0, PC); }
void __tsan_read4(void* p) { touch(p, 4, 0, PC); }
void __tsan_read8(void* p) { touch(p, 8, 0, PC); }
void __tsan_read16(void* p) { touch(p, 16, 0, PC); }
void __tsan_write1(void* p) { touch(p, 1, 1, PC); }
void __tsan_write2(void* p) { touch(p, 2, 1, PC); }
void __tsan_write4(void* p) { touch(p, 4, 1, PC); }
void __tsan_write8(void* p) { touch(p, 8, 1, PC); }
void __tsan_write16(void* p) { touch(p, 16, 1, PC); }
void __tsan_unaligned_read2(void* p) { touch(p, 2, 0, PC); }
void __tsan_unaligned_read4(void* p) { touch(p, 4, 0, PC); }
void __tsan_unaligned_read8(void* p) { touch(p, 8, 0, PC); }
void __tsan_unaligned_read16(void* p) { touch(p, 16, 0, PC); }
void __tsan_unaligned_write2(void* p) { touch(p, 2, 1, PC); }
void __tsan_unaligned_write4(void* p) { touch(p, 4, 1, PC); }
void __tsan_unaligned_write8(void* p) { touch(p, 8, 1, PC); }
void __tsan_unaligned_write16(void* p) { touch(p, 16, 1, PC); }
void __tsan_read_range(void* p, size_t n) { touch(p, n, 0, PC); }
void __tsan_write_range(void* p, size_t n) { touch(p, n, 1, PC); }
void __tsan_volatile_read1(void*) {} void __tsan_volatile_read2(void*) {} void __tsan_volatile_read4(void*) {} void __tsan_volatile_read8(void*) {}
void __tsan_volatile_write1(void*) {} void __tsan_volatile_write2(void*) {} void __tsan_volatile_write4(void*) {} void __tsan_volatile_write8(void*) {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) touch(p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { touch(p, 8, 0, PC); }

#define AT(N, TY) \
  TY __tsan_atomic##N##_load(const volatile TY* a, int mo) { if (at_on()) at_point(); TY r = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load(a, N / 8, mo, PC); return r; } \
  void __tsan_atomic##N##_store(volatile TY* a, TY v, int mo) { if (at_on()) at_point(); at_store(a, N / 8, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int mo) { if (at_on()) at_point(); at_rmw(a, N / 8, mo, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int mo) { if (at_on()) at_point(); at_rmw(a, N / 8, mo, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int mo) { if (at_on()) at_point(); at_rmw(a, N / 8, mo, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int mo) { if (at_on()) at_point(); at_rmw(a, N / 8, mo, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int mo) { if (at_on()) at_point(); at_rmw(a, N / 8, mo, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int mo) { if (at_on()) at_point(); at_rmw(a, N / 8, mo, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int mo) { if (at_on()) at_point(); at_rmw(a, N / 8, mo, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* e, TY v, int mo, int fmo) { if (at_on()) at_point(); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) at_rmw(a, N / 8, mo, PC); else at_load(a, N / 8, fmo, PC); return ok; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* e, TY v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo); } \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY e, TY v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
