// Deterministic simulator core: PRNG, plans, simulated allocator, fault plans, ledgers, reporting.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <new>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <exception>
#include <utility>

namespace sim {

// ---------------------------------------------------------------------------------------------
// one PRNG per run
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  long below(long n) { return n <= 0 ? 0 : (long)(next() % (uint64_t)n); }
  long range(long a, long b) { return a + below(b - a + 1); }
  bool chance(long permille) { return below(1000) < permille; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull));
  r.next();
  return r.next();
}

// ---------------------------------------------------------------------------------------------
// plan = explicit, serialisable execution script
struct Op {
  int code = 0;
  int t = 0;                 // target container
  int a[6] = {0, 0, 0, 0, 0, 0};
  int fk = 0, fn = 0, fl = 0; // fault: kind, position (reduced mod what the operation does), length
};
struct Plan {
  std::string prop, world;
  long seed = 0, index = 0;
  int grid = 12;
  int flags = 0; // bit0: guard pages
  std::vector<Op> ops;
  std::vector<long> sched; // threaded worlds: preemption points
};
std::string plan_text(const Plan&);
bool plan_parse(const std::string& text, Plan&);

// ---------------------------------------------------------------------------------------------
enum FaultKind { F_NONE = 0, F_ALLOC = 1, F_COPY = 2, F_COMB = 3, F_ANY = 4, F_PRED = 5, F_KINDS = 6 };
extern const char* const fault_name[F_KINDS];

struct SimFault {}; // thrown by codomain values, combiners and predicates

struct Block { char* p; size_t size, span; int tag; bool live; };

struct Quiet { bool was; Quiet(); ~Quiet(); };  // the simulator at work: not part of what is simulated
struct Core {
  // arena
  char* base = nullptr; size_t cap = 0, used = 0;
  std::vector<Block> blocks;
  long live_blocks = 0; long frees = 0;
  bool guard = false;
  // faults
  bool armed = false, in_op = false;
  int fk = 0; long fn = 0, fl = 0;
  long seen[F_KINDS] = {0, 0, 0, 0, 0, 0}; // events since arm()
  long fired_now = 0;
  long quota = -1;           // remaining allocations during a shortage; -1: unlimited
  // whole-run counters
  long n_alloc = 0, n_copy = 0, n_comb = 0, n_pred = 0, n_dtor = 0;
  long foreign = 0;          // operator new calls inside library operations
  bool exempt = false;
  // object ledger
  long live_objs = 0;
  // violation (first one wins)
  bool bad = false; std::string cls, detail;
  // trace
  uint64_t hash = 1469598103934665603ull;
  bool verbose = false;
  int cur_op = -1;
  uint64_t* sink = nullptr;  // threaded worlds: answers of queries are collected instead of judged
  const char* prop = "";
};
extern Core C;
inline Quiet::Quiet() : was(C.exempt) { C.exempt = true; }
inline Quiet::~Quiet() { C.exempt = was; }

void reset_run(bool guard);
bool fault_point(int kind);            // true: the caller has to fail now
void arm(int fk, long fn, long fl);
void disarm();
void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void ledger(const char* cls, const char* what); // a violation only where the ledger is what is checked
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define SIM_TRACE(...) do { if (sim::C.verbose) sim::trace(__VA_ARGS__); } while (0)
inline void ev(uint64_t x) { C.hash = (C.hash ^ x) * 1099511628211ull; C.hash ^= C.hash >> 29; }
bool block_live(const void* p);        // is the address inside a live block of the arena?
bool in_arena(const void* p);

void* sim_allocate(size_t bytes, int tag);
void sim_deallocate(void* p, size_t bytes, int tag);
int new_tag();
template <class T> struct TypeTag { static int get() { static int t = new_tag(); return t; } };

template <class T> struct SimAlloc {
  typedef T value_type;
  typedef T* pointer; typedef const T* const_pointer;
  typedef T& reference; typedef const T& const_reference;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  template <class U> struct rebind { typedef SimAlloc<U> other; };
  SimAlloc() noexcept {}
  SimAlloc(const SimAlloc&) noexcept {}
  template <class U> SimAlloc(const SimAlloc<U>&) noexcept {}
  T* allocate(std::size_t n) { return static_cast<T*>(sim_allocate(n * sizeof(T), TypeTag<T>::get())); }
  void deallocate(T* p, std::size_t n) noexcept { sim_deallocate(p, n * sizeof(T), TypeTag<T>::get()); }
  friend bool operator==(const SimAlloc&, const SimAlloc&) { return true; }
  friend bool operator!=(const SimAlloc&, const SimAlloc&) { return false; }
};

// ---------------------------------------------------------------------------------------------
// codomain value with an object ledger and failing copies / combinations
struct Led {
  int v; const Led* self; uint32_t magic;
  static const uint32_t LIVE = 0x51DEC0DEu, DEAD = 0xDEADBEEFu;
  void born() { self = this; magic = LIVE; ++C.live_objs; }
  void use() const {
    if (magic != LIVE || self != this) ledger("ledger.object", "use of a value object that is not alive");
  }
  Led() : v(0) { born(); }
  explicit Led(int x) : v(x) { born(); }
  // copying an identity value (a default constructed one) does not fail
  Led(const Led& o) : v(o.v) { o.use(); ++C.n_copy; if (o.v && fault_point(F_COPY)) throw SimFault(); born(); }
  Led& operator=(const Led& o) {
    use(); o.use(); ++C.n_copy;
    if (o.v && fault_point(F_COPY)) throw SimFault();
    v = o.v; return *this;
  }
  ~Led() {
    if (magic != LIVE || self != this) ledger("ledger.object", "destruction of a value object that is not alive");
    magic = DEAD; self = nullptr; --C.live_objs; ++C.n_dtor;
  }
  Led& operator+=(const Led& o) { use(); o.use(); ++C.n_comb; if (fault_point(F_COMB)) throw SimFault(); v += o.v; return *this; }
  static long joined(long a, long b) { for (long x = b; x; x /= 4) a *= 4; return (a + b) % 4096; } // words over the letters 1, 2 and 3, of which the last six are kept
  void append(const Led& o) { use(); o.use(); ++C.n_comb; if (fault_point(F_COMB)) throw SimFault(); v = (int)joined(v, o.v); }
  Led& operator-=(const Led& o) { use(); o.use(); ++C.n_comb; if (fault_point(F_COMB)) throw SimFault(); v -= o.v; return *this; }
  friend bool operator==(const Led& a, const Led& b) { a.use(); b.use(); return a.v == b.v; }
  friend bool operator!=(const Led& a, const Led& b) { return !(a == b); }
  friend bool operator<(const Led& a, const Led& b) { a.use(); b.use(); return a.v < b.v; }
  friend bool operator>(const Led& a, const Led& b) { return b < a; }
};

// runs one library call under the armed fault plan
struct Act {
  bool threw = false;
  int fk = 0; long fn = 0, fl = 0;
  bool arm_it = false;
  long seen[F_KINDS] = {0}; // events of the call
  long calls = 0, d_alloc = 0, d_copy = 0;
  template <class F> void go(F&& f) {
    if (threw || C.bad) return;
    ++calls;
    if (arm_it) arm(fk, fn, fl); else arm(0, 0, 0);
    long a0 = C.n_alloc, c0 = C.n_copy;
    C.in_op = true;
    try { f(); }
    catch (const std::bad_alloc&) { threw = true; }
    catch (const SimFault&) { threw = true; }
    catch (const std::exception& e) { C.in_op = false; violation("exception", "unexpected exception: %s", e.what()); }
    C.in_op = false;
    d_alloc += C.n_alloc - a0; d_copy += C.n_copy - c0;
    for (int i = 0; i < F_KINDS; ++i) seen[i] += C.seen[i];
    disarm();
  }
};

// ---------------------------------------------------------------------------------------------
// observation / model of one container over the atoms 0..A-1 of its universe
const long NONE = LONG_MIN;
struct Seg { int lo, hi; long v; };            // atoms [lo,hi) carry v (1 for sets)
const int MAXA = 130;
template <class T> struct Few {                // a short vector in place; its functions live in core.cpp
  T d[MAXA]; int n;
  Few() : n(0) {}
  Few(int k, T x);
  Few(const Few&); Few& operator=(const Few&);
  void push_back(const T& x);
  size_t size() const { return (size_t)n; }
  bool empty() const { return n == 0; }
  T& operator[](size_t i) { return d[i]; }
  const T& operator[](size_t i) const { return d[i]; }
  T* begin() { return d; } T* end() { return d + n; }
  const T* begin() const { return d; } const T* end() const { return d + n; }
  T& back() { return d[n - 1]; }
  const T& back() const { return d[n - 1]; }
  bool operator==(const Few&) const;
  bool operator!=(const Few& o) const { return !(*this == o); }
};
struct Segs : Few<Seg> { Segs() {} explicit Segs(const Seg& s) { push_back(s); } };
struct Cont {                                  // content and borders between adjacent present atoms
  Few<long> val; Few<char> cut;
  explicit Cont(int A = 0) : val(A, NONE), cut(A + 1, 0) {}
  int size() const { return val.n; }
  bool has(int i) const { return i >= 0 && i < val.n && val.d[i] != NONE; }
  bool operator==(const Cont& o) const { return val == o.val && cut == o.cut; }
  bool operator!=(const Cont& o) const { return !(*this == o); }
  Segs segs() const;
  void fill(int lo, int hi, long v);
  bool empty() const;
  std::string str() const;
};
struct Obs { Segs segs; Cont c; bool bad = false; std::string why; }; // bad: segments not ordered/disjoint/non-empty

uint64_t hash_cont(const Cont&);

// ---------------------------------------------------------------------------------------------
struct Stats {
  long runs = 0, nontrivial = 0, ops = 0, threw = 0, checks = 0, steps = 0;
  long fired[F_KINDS] = {0}, fault_ops[F_KINDS] = {0}, shortages = 0;
  std::map<std::string, long> probes, worlds;
  std::set<uint64_t> states, runs_seen;
  long judged_faults = 0;
};
extern Stats S;
inline void probe(const char* name) { ++S.probes[name]; }
void state_seen(uint64_t h);

struct World {
  std::string name;
  virtual ~World() {}
  virtual bool serves(const std::string& prop) const = 0;
  virtual void generate(Rng&, Plan&) const = 0;
  virtual void execute(const Plan&) const = 0;   // reports through violation(), ev(), S
  virtual bool isolated() const { return false; } // every run in a process of its own
  virtual std::string describe(const Plan&, const Op&) const { return ""; }
};
std::vector<World*>& worlds();
struct Register { explicit Register(World* w) { worlds().push_back(w); } };

} // namespace sim
