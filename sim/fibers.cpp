// Scheduler, race detector and the runtime entry points of -fsanitize=thread instrumentation.
#include "fibers.hpp"
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <cxxabi.h>
#include <pthread.h>
#include <link.h>

extern "C" char __data_start, _end;
namespace sim {
extern void (*mem_hook)(void*, size_t);
extern void (*free_hook)(void*, size_t);
namespace fib {
Counters N;
static const size_t STACK = 512 << 10;
static char* stacks;
static int count = 0, cur = -1;
static ucontext_t main_ctx;
struct Eh { void* caught; unsigned uncaught; };
struct Fiber {
  ucontext_t ctx; bool done; Eh eh; int op; long in_op_accesses; unsigned vc[MAX];
  bool armed, in_op; int fk; long fn, fl, seen[F_KINDS], fired_now, quota; int cur_op; uint64_t* sink; char* tls;
};
static Fiber F[MAX];
static const std::vector<long>* plan; static size_t plan_at; static long left; static int target;
static const std::function<void(int)>* body_;
static struct { const char *a, *b; } shared[8]; static int nshared;

// ---- shadow memory: 8-byte cells, per fiber the last read and write
struct Mark { unsigned clock; short op; unsigned char mask; };
struct Cell { uintptr_t key; Mark r[MAX], w[MAX]; };
static const size_t CELLS = 1 << 17;
static Cell* table;
static bool overflow_;
static Cell* cell(uintptr_t key, bool make) {
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 47;
  for (size_t i = 0; i < 64; ++i) {
    Cell& c = table[(h + i) & (CELLS - 1)];
    if (c.key == key) return &c;
    if (!c.key) { if (!make) return nullptr; c.key = key; ++N.cells; return &c; }
  }
  overflow_ = true; return nullptr;
}
static void forget(void* p, size_t n) {
  if (cur < 0 || !table) return;
  for (uintptr_t k = (uintptr_t)p >> 3; k <= ((uintptr_t)p + n) >> 3; ++k) if (Cell* c = cell(k, false)) { memset(c->r, 0, sizeof c->r); memset(c->w, 0, sizeof c->w); }
}
static void freed(void* p, size_t n);
static bool is_static(const char* p) { return p >= &__data_start && p < &_end; }
static bool harness(const char* p) { return (p >= (const char*)&C && p < (const char*)(&C + 1)) || (p >= (const char*)&S && p < (const char*)(&S + 1)) || (p >= (const char*)&N && p < (const char*)(&N + 1)); }
static bool is_shared(const char* p) { for (int i = 0; i < nshared; ++i) if (p >= shared[i].a && p < shared[i].b) return true; return false; }
static const char* where(const char* p) { return is_static(p) ? "static data" : in_arena(p) ? "memory of a container" : is_shared(p) ? "a container object" : "other memory"; }

// thread-local data of the program, exchanged on every switch
static char* tls; static size_t tls_size; static const char* tls_image; static size_t tls_image_size;
static int find_tls(dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
    tls = (char*)i->dlpi_tls_data; tls_size = i->dlpi_phdr[k].p_memsz;
    tls_image = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tls_image_size = i->dlpi_phdr[k].p_filesz; }
  return 1; // the program itself comes first
}
static void next_entry() {
  if (plan_at < plan->size()) { long e = (*plan)[plan_at++]; left = e / 8 < 1 ? 1 : e / 8; target = (int)(e % 8); } else left = 0;
}
static void save(Fiber& f) {
  f.armed = C.armed; f.in_op = C.in_op; f.fk = C.fk; f.fn = C.fn; f.fl = C.fl; f.fired_now = C.fired_now; f.quota = C.quota; f.cur_op = C.cur_op; f.sink = C.sink; if (tls) memcpy(f.tls, tls, tls_size);
  for (int i = 0; i < F_KINDS; ++i) f.seen[i] = C.seen[i];
  memcpy(&f.eh, abi::__cxa_get_globals(), sizeof(void*) + sizeof(unsigned));
}
static void load(const Fiber& f) {
  C.armed = f.armed; C.in_op = f.in_op; C.fk = f.fk; C.fn = f.fn; C.fl = f.fl; C.fired_now = f.fired_now; C.quota = f.quota; C.cur_op = f.cur_op; C.sink = f.sink; if (tls) memcpy(tls, f.tls, tls_size);
  for (int i = 0; i < F_KINDS; ++i) C.seen[i] = f.seen[i];
  memcpy(abi::__cxa_get_globals(), &f.eh, sizeof(void*) + sizeof(unsigned));
}
static void switch_to(int t) {
  int me = cur;
  ev((uint64_t)me * 8 + t + 0x5300); ev((uint64_t)F[me].op * 4096 + (uint64_t)F[me].in_op_accesses);
  state_seen(mix(mix((uint64_t)F[me].op, (uint64_t)F[me].in_op_accesses), mix((uint64_t)F[t].op, (uint64_t)F[t].in_op_accesses)));
  ++N.switches; save(F[me]); cur = t; load(F[t]);
  swapcontext(&F[me].ctx, &F[t].ctx);
}
static int other_runnable(int from) { for (int i = 1; i < count; ++i) { int t = (from + i) % count; if (!F[t].done) return t; } return -1; }
static void preemption_point() {
  ++N.accesses; ++F[cur].in_op_accesses;
  if (left && --left == 0) {
    int t = target % count; if (t == cur || F[t].done) t = other_runnable(cur);
    next_entry();
    if (t >= 0) switch_to(t);
  }
}
static void report(const char* p, int g, bool iw, bool ow, int oop) {
  char cls[16]; snprintf(cls, sizeof cls, "%s.race", C.prop);
  violation(cls, "unsynchronised access to %s: thread %d %s it in its operation %d, thread %d %s it in its operation %d", where(p), cur, iw ? "writes" : "reads", F[cur].op, g, ow ? "writes" : "reads", oop);
}
static void record(const char* p, size_t n, bool write) {
  uintptr_t a = (uintptr_t)p, e = a + n;
  for (uintptr_t k = a >> 3; k <= (e - 1) >> 3; ++k) {
    unsigned lo = k == a >> 3 ? a & 7 : 0, hi = k == (e - 1) >> 3 ? ((e - 1) & 7) + 1 : 8;
    unsigned char m = (unsigned char)(((1u << hi) - 1) & ~((1u << lo) - 1));
    Cell* c = cell(k, true); if (!c) return;
    for (int g = 0; g < count; ++g) if (g != cur) {
      if ((c->w[g].mask & m) && c->w[g].clock > F[cur].vc[g]) report(p, g, write, true, c->w[g].op);
      if (write && (c->r[g].mask & m) && c->r[g].clock > F[cur].vc[g]) report(p, g, true, false, c->r[g].op);
    }
    Mark& q = write ? c->w[cur] : c->r[cur];
    if (q.clock != F[cur].vc[cur]) { q.clock = F[cur].vc[cur]; q.mask = 0; }
    q.mask |= m; q.op = (short)F[cur].op;
  }
}
static inline void access(const void* p_, size_t n, bool write) {
  if (cur < 0 || C.exempt) return;
  const char* p = (const char*)p_;
  if (p >= stacks + cur * STACK && p < stacks + (cur + 1) * STACK) return;
  if (harness(p) || !n || (p >= tls && p < tls + tls_size)) return;
  if (C.in_op && (in_arena(p) || is_static(p) || is_shared(p))) preemption_point();
  record(p, n, write);
}

static void freed(void* p, size_t n) { if (cur >= 0 && n) record((const char*)p, n, true); }

void account() {
  S.steps += N.accesses; S.probes["context switches at memory accesses"] += N.switches; S.probes["preemption points passed"] += N.accesses;
  S.probes["memory cells watched for races"] += N.cells; S.probes["static variables first initialised by a simulated thread"] += N.guards;
  if (overflow_) ++S.probes["runs with an overfull race table"];
}
// ---- synchronisation: guards of function-local statics, atomics
struct Sync { const void* p; unsigned vc[MAX]; };
static Sync syncs[256]; static int nsyncs;
static Sync* sync_of(const void* p, bool make) {
  for (int i = 0; i < nsyncs; ++i) if (syncs[i].p == p) return &syncs[i];
  if (!make || nsyncs == 256) return nullptr;
  syncs[nsyncs].p = p; memset(syncs[nsyncs].vc, 0, sizeof syncs[nsyncs].vc); return &syncs[nsyncs++];
}
static void acquire(const void* p) { if (cur < 0) return; if (Sync* s = sync_of(p, false)) for (int g = 0; g < MAX; ++g) if (s->vc[g] > F[cur].vc[g]) F[cur].vc[g] = s->vc[g]; }
static void release(const void* p) { if (cur < 0) return; if (Sync* s = sync_of(p, true)) for (int g = 0; g < MAX; ++g) if (F[cur].vc[g] > s->vc[g]) s->vc[g] = F[cur].vc[g]; ++F[cur].vc[cur]; }
static void entry(int i) {
  try { (*body_)(i); } catch (...) { violation("exception", "an exception escapes from a simulated thread"); }
  F[i].done = true;
  int t = other_runnable(i);
  if (t >= 0) { cur = t; load(F[t]); setcontext(&F[t].ctx); }
  cur = -1; setcontext(&main_ctx);
}
void run(int n, const std::function<void(int)>& body, const std::vector<long>& sched) {
  if (!stacks) stacks = (char*)mmap(nullptr, STACK * MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!table) table = (Cell*)mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mem_hook = forget; free_hook = freed; if (N.cells) memset(table, 0, CELLS * sizeof(Cell)); nsyncs = 0; count = n; body_ = &body; plan = &sched; plan_at = 0; next_entry();
  if (!tls) dl_iterate_phdr(find_tls, nullptr);
  for (int i = 0; i < n; ++i) {
    Fiber& f = F[i]; memset(&f.eh, 0, sizeof f.eh); f.done = false; f.op = -1; f.in_op_accesses = 0;
    for (int g = 0; g < MAX; ++g) f.vc[g] = g == i;
    f.armed = f.in_op = false; f.fk = 0; f.fn = f.fl = f.fired_now = 0; f.quota = -1; f.cur_op = -1; f.sink = nullptr; f.tls = (char*)calloc(1, tls_size + 1); if (tls) memcpy(f.tls, tls_image, tls_image_size); for (long& x : f.seen) x = 0;
    getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = stacks + i * STACK; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, (void (*)())entry, 1, i);
  }
  static Fiber mine; mine.tls = (char*)calloc(1, tls_size + 1); save(mine);
  cur = 0; load(F[0]);
  swapcontext(&main_ctx, &F[0].ctx);
  load(mine); nshared = 0;
}
void share(const void* p, size_t n) { if (nshared < 8) { shared[nshared].a = (const char*)p; shared[nshared++].b = (const char*)p + n; } }
void note(int op) { if (cur >= 0) { F[cur].op = op; F[cur].in_op_accesses = 0; C.cur_op = op; } }
int self() { return cur; }

} } // namespace sim::fib

using namespace sim;
using namespace sim::fib;
extern "C" {
int __cxa_guard_acquire(long long* g_) {
  char* g = (char*)g_;
  while (true) {
    if (g[0]) { acquire(g); return 0; }
    if (!g[1]) { g[1] = 1; ++N.guards; return 1; }
    if (cur < 0) abort();
    int t = other_runnable(cur); if (t < 0) abort(); // recursive initialisation
    switch_to(t);
  }
}
void __cxa_guard_release(long long* g_) { char* g = (char*)g_; g[0] = 1; g[1] = 0; release(g); }
void __cxa_guard_abort(long long* g_) { ((char*)g_)[1] = 0; }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false); } \
  void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
  void __tsan_read##n##_pc(void* p, void*) { access(p, n, false); } \
  void __tsan_write##n##_pc(void* p, void*) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }

// atomics: the operation itself, with the ordering of acquire and release whatever order was asked for
} // extern "C"
static void atomic_point() { if (cur >= 0 && C.in_op) preemption_point(); }
extern "C" {
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { atomic_point(); T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); acquire((const void*)a); return r; } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { atomic_point(); release((const void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { atomic_point(); acquire((const void*)a); release((const void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { atomic_point(); acquire((const void*)a); release((const void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { atomic_point(); acquire((const void*)a); release((const void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { atomic_point(); acquire((const void*)a); release((const void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { atomic_point(); acquire((const void*)a); release((const void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { atomic_point(); acquire((const void*)a); release((const void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { atomic_point(); acquire((const void*)a); release((const void*)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atomic_point(); acquire((const void*)a); release((const void*)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atomic_point(); acquire((const void*)a); release((const void*)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atomic_point(); acquire((const void*)a); release((const void*)a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { acquire(&syncs); release(&syncs); }
void __tsan_atomic_signal_fence(int) {}

// locks of simulated threads
static struct Lock { const void* m; int owner, depth; } locks[64]; static int nlocks;
static Lock* lock_of(const void* m) { for (int i = 0; i < nlocks; ++i) if (locks[i].m == m) return &locks[i]; if (nlocks == 64) abort(); locks[nlocks] = Lock{m, -1, 0}; return &locks[nlocks++]; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (cur < 0) return 0;
  Lock* l = lock_of(m);
  if (l->owner >= 0 && (l->owner != cur || (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE)) return 16;
  l->owner = cur; ++l->depth; acquire(m); return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  while (pthread_mutex_trylock(m)) {
    int t = other_runnable(cur);
    if (t < 0 || lock_of(m)->owner == cur) { violation("deadlock", "a thread waits for a lock that is never released"); abort(); }
    switch_to(t);
  }
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (cur < 0) return 0;
  Lock* l = lock_of(m);
  if (--l->depth <= 0) { l->depth = 0; l->owner = -1; release(m); }
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  static int running = -1; int* s = (int*)o;
  while (*s == 1 && running != cur) { int t = other_runnable(cur); if (t < 0) abort(); switch_to(t); }
  if (*s == 2) { acquire(o); return 0; }
  *s = 1; int was = running; running = cur;
  try { f(); } catch (...) { *s = 0; running = was; throw; }
  *s = 2; running = was; release(o); return 0;
}
}
