#include "core.hpp"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <cerrno>
#include <sys/wait.h>
#include <cstdarg>
#include <ctime>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <iostream>

namespace sim {
thread_local long value_countdown = -1;
void (*mem_hook)(void*, size_t) = nullptr;   // fibers: heap memory is handed out
void (*free_hook)(void*, size_t) = nullptr;  // fibers: container memory is returned
Core C; Stats S;
const char* const fault_name[F_KINDS] = {"none", "alloc", "copy", "combine", "any", "predicate"};
std::vector<World*>& worlds() { static std::vector<World*> w; return w; }
int new_tag() { static int t = 0; return ++t; }

static const size_t PAGE = 4096;
static const size_t CAP = size_t(256) << 20;
static char* const BASE = reinterpret_cast<char*>(0x500000000000ull);
static long run_frees_protected = 0;

void reset_run(bool guard) {
  if (!C.base) {
    void* p = mmap(BASE, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != BASE) { fprintf(stderr, "cannot map arena\n"); _exit(2); }
    C.base = BASE; C.cap = CAP;
  }
  if (run_frees_protected) { mprotect(C.base, (C.used + PAGE - 1) / PAGE * PAGE, PROT_READ | PROT_WRITE); run_frees_protected = 0; }
  C.used = 0; C.blocks.clear(); C.live_blocks = 0; C.frees = 0; C.guard = guard;
  C.armed = C.in_op = false; C.fk = 0; C.quota = -1;
  for (long& x : C.seen) x = 0;
  C.n_alloc = C.n_copy = C.n_comb = C.n_pred = C.n_dtor = 0; C.foreign = 0; C.exempt = false;
  C.live_objs = 0;
  C.bad = false; C.cls.clear(); C.detail.clear();
  C.hash = 1469598103934665603ull; C.cur_op = -1; C.sink = nullptr;
}

void arm(int fk, long fn, long fl) {
  C.fk = fk; C.fn = fn; C.fl = fl; C.armed = true; C.fired_now = 0;
  for (long& x : C.seen) x = 0;
}
void disarm() { C.armed = false; C.fk = 0; }

bool fault_point(int kind) {
  if (!C.armed) return false;
  long k = ++C.seen[kind], any = k;
  if (kind == F_ALLOC || kind == F_COPY || kind == F_COMB) any = ++C.seen[F_ANY];
  bool hit = false;
  if (C.fk == kind) hit = k >= C.fn && k < C.fn + C.fl;
  else if (C.fk == F_ANY && kind != F_PRED) hit = any >= C.fn && any < C.fn + C.fl;
  if (hit) { ++C.fired_now; ++S.fired[kind]; ev(1000 + kind); }
  return hit;
}

void violation(const char* cls, const char* fmt, ...) {
  if (C.bad) return;
  Quiet q; C.bad = true; C.cls = cls;
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  C.detail = buf;
}
void ledger(const char* cls, const char* what) { if (!strcmp(C.prop, "C07")) violation(cls, "%s", what); }
void trace(const char* fmt, ...) {
  if (!C.verbose) return;
  va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); fflush(stdout);
}
bool in_arena(const void* p) { return C.base && p >= C.base && p < C.base + C.cap; }
static Block* find_block(const void* p) {
  auto it = std::upper_bound(C.blocks.begin(), C.blocks.end(), (const char*)p, [](const char* q, const Block& b) { return q < b.p; });
  if (it == C.blocks.begin()) return nullptr;
  --it;
  if ((const char*)p >= it->p + it->size) return nullptr;
  return &*it;
}
bool block_live(const void* p) { Quiet q; Block* b = find_block(p); return b && b->live; }

void* sim_allocate(size_t bytes, int tag) {
  ++C.n_alloc;
  if (C.quota == 0 && C.in_op) { ++S.fired[F_ALLOC]; ++C.fired_now; ev(1100); throw std::bad_alloc(); }
  if (fault_point(F_ALLOC)) throw std::bad_alloc();
  if (C.quota > 0 && C.in_op) --C.quota;
  size_t span = C.guard ? (bytes + PAGE - 1) / PAGE * PAGE : (bytes + 31) / 16 * 16;
  if (C.used + span > C.cap) { char b[96]; snprintf(b, sizeof b, "\nRESULT class=endless-allocation hash=0 op=%d\n", C.cur_op); ssize_t r = write(1, b, strlen(b)); (void)r; _exit(71); }
  Quiet q;
  char* p = C.base + C.used; C.used += span;
  memset(p, 0xCD, bytes);
  C.blocks.push_back(Block{p, bytes, span, tag, true});
  ++C.live_blocks;
  return p;
}
void sim_deallocate(void* p, size_t bytes, int tag) {
  Quiet q;
  Block* b = find_block(p);
  if (!b || b->p != p) { ledger("ledger.memory", "memory returned that was never obtained"); return; }
  if (!b->live) { ledger("ledger.memory", "memory block returned twice"); return; }
  if (b->size != bytes || b->tag != tag) { ledger("ledger.memory", "memory block returned with another size or type"); }
  if (free_hook) free_hook(p, b->size);
  b->live = false; --C.live_blocks; ++C.frees;
  memset(p, 0xDD, b->size);
  if (C.guard && run_frees_protected < 12000) { mprotect(b->p, b->span, PROT_NONE); ++run_frees_protected; }
}

// ---------------------------------------------------------------------------------------------
template <class T> Few<T>::Few(int k, T x) : n(k) { for (int i = 0; i < k; ++i) d[i] = x; }
template <class T> Few<T>::Few(const Few& o) : n(o.n) { memcpy(d, o.d, sizeof(T) * n); }
template <class T> Few<T>& Few<T>::operator=(const Few& o) { n = o.n; memcpy(d, o.d, sizeof(T) * n); return *this; }
template <class T> void Few<T>::push_back(const T& x) { if (n == MAXA) abort(); d[n++] = x; }
template <class T> bool Few<T>::operator==(const Few& o) const { return n == o.n && !memcmp(d, o.d, sizeof(T) * n); }
template struct Few<long>; template struct Few<char>; template struct Few<Seg>;
void Cont::fill(int lo, int hi, long v) { for (int i = lo; i < hi; ++i) val.d[i] = v; }
bool Cont::empty() const { for (int i = 0; i < val.n; ++i) if (val.d[i] != NONE) return false; return true; }
Segs Cont::segs() const {
  Segs r;
  for (int i = 0; i < size(); ++i) {
    if (val[i] == NONE) continue;
    if (!r.empty() && r.back().hi == i && !cut[i] && r.back().v == val[i]) r.back().hi = i + 1;
    else r.push_back(Seg{i, i + 1, val[i]});
  }
  return r;
}
std::string Cont::str() const {
  std::string s;
  for (const Seg& g : segs()) { char b[64]; snprintf(b, sizeof b, "[%d,%d)=%ld ", g.lo, g.hi, g.v); s += b; }
  return s.empty() ? "empty" : s;
}
uint64_t hash_cont(const Cont& c) {
  uint64_t h = 7;
  for (const Seg& g : c.segs()) h = mix(h, (uint64_t)g.lo * 1315423911u + (uint64_t)g.hi * 2654435761u + (uint64_t)g.v * 97u);
  return h;
}
void state_seen(uint64_t h) { Quiet q; if (S.states.size() < 400000) S.states.insert(h); }

// ---------------------------------------------------------------------------------------------
std::string plan_text(const Plan& p) {
  std::ostringstream o;
  o << "prop " << p.prop << "\nworld " << p.world << "\nseed " << p.seed << "\nindex " << p.index
    << "\ngrid " << p.grid << "\nflags " << p.flags << "\n";
  for (const Op& x : p.ops) {
    o << "op " << x.code << ' ' << x.t;
    for (int v : x.a) o << ' ' << v;
    o << " fault " << x.fk << ' ' << x.fn << ' ' << x.fl << "\n";
  }
  if (!p.sched.empty()) { o << "sched"; for (long v : p.sched) o << ' ' << v; o << "\n"; }
  return o.str();
}
bool plan_parse(const std::string& text, Plan& p) {
  std::istringstream in(text); std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string k; l >> k;
    if (k.empty() || k[0] == '#') continue;
    if (k == "prop") l >> p.prop; else if (k == "world") l >> p.world; else if (k == "seed") l >> p.seed;
    else if (k == "index") l >> p.index; else if (k == "grid") l >> p.grid; else if (k == "flags") l >> p.flags;
    else if (k == "op") {
      Op x; std::string f; l >> x.code >> x.t; for (int& v : x.a) l >> v;
      l >> f >> x.fk >> x.fn >> x.fl; if (!l) return false; p.ops.push_back(x);
    } else if (k == "sched") { long v; while (l >> v) p.sched.push_back(v); }
    else return false;
  }
  return !p.world.empty();
}

static World* find_world(const std::string& n) { for (World* w : worlds()) if (w->name == n) return w; return nullptr; }

// ---------------------------------------------------------------------------------------------
// crashes and hangs of the simulated code become outcomes of the run
static bool replaying = false;
static void say(const char* s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
static void on_crash(int sig, siginfo_t* si, void*) {
  const char* cls = sig == SIGSEGV ? "crash.segv" : sig == SIGABRT ? "crash.abort" : sig == SIGFPE ? "crash.fpe" : "crash.bus";
  if (sig == SIGSEGV && si && in_arena(si->si_addr)) cls = "crash.use-after-release";
  char b[256]; snprintf(b, sizeof b, "\nRESULT class=%s hash=%016llx op=%d\n", cls, (unsigned long long)C.hash, C.cur_op);
  say(b); _exit(70);
}
static void on_prof(int) {
  char b[256]; snprintf(b, sizeof b, "\nRESULT class=hang hash=0 op=%d\n", C.cur_op); say(b); _exit(71);
}
static void handlers() {
  static char alt[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS}) sigaction(s, &sa, nullptr);
  struct sigaction sp; memset(&sp, 0, sizeof sp); sp.sa_handler = on_prof; sp.sa_flags = SA_ONSTACK; sigaction(SIGPROF, &sp, nullptr);
}
static void cpu_limit(int sec) { itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }

static void run_one(const Plan& p) {
  World* w = find_world(p.world);
  if (!w) { fprintf(stderr, "no world %s\n", p.world.c_str()); _exit(2); }
  static std::string prop; prop = p.prop; C.prop = prop.c_str();
  cpu_limit(C.verbose || replaying ? 8 : 8);
  reset_run(p.flags & 1);
  w->execute(p);
  cpu_limit(0);
}

// ---- a run in a process of its own: static data of the library starts afresh
struct Report {
  bool done, bad, nontrivial; uint64_t hash; char cls[64], detail[3000];
  long ops, threw, checks, steps, shortages, judged, fired[F_KINDS], fault_ops[F_KINDS];
  int nprobes, nstates; struct { char name[80]; long n; } probes[40]; uint64_t states[8192];
};
static Report* report;
static int run_isolated(const Plan& p) { // exit status of the run
  if (!report) report = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  report->done = false; fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { fprintf(stderr, "cannot fork\n"); _exit(2); }
  if (!pid) {
    S = Stats(); run_one(p);
    Report& r = *report; r.bad = C.bad; r.nontrivial = S.nontrivial > 0; r.hash = C.hash;
    snprintf(r.cls, sizeof r.cls, "%s", C.cls.c_str()); snprintf(r.detail, sizeof r.detail, "%s", C.detail.c_str());
    r.ops = S.ops; r.threw = S.threw; r.checks = S.checks; r.steps = S.steps; r.shortages = S.shortages; r.judged = S.judged_faults;
    for (int i = 0; i < F_KINDS; ++i) { r.fired[i] = S.fired[i]; r.fault_ops[i] = S.fault_ops[i]; }
    r.nprobes = r.nstates = 0;
    for (auto& kv : S.probes) if (r.nprobes < 40) { snprintf(r.probes[r.nprobes].name, 80, "%s", kv.first.c_str()); r.probes[r.nprobes++].n = kv.second; }
    for (uint64_t h : S.states) if (r.nstates < 8192) r.states[r.nstates++] = h;
    r.done = true; _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  const Report& r = *report;
  if (!r.done) return WIFEXITED(st) && WEXITSTATUS(st) ? WEXITSTATUS(st) : 72;
  C.bad = r.bad; C.cls = r.cls; C.detail = r.detail; C.hash = r.hash;
  S.ops += r.ops; S.threw += r.threw; S.checks += r.checks; S.steps += r.steps; S.shortages += r.shortages; S.judged_faults += r.judged;
  for (int i = 0; i < F_KINDS; ++i) { S.fired[i] += r.fired[i]; S.fault_ops[i] += r.fault_ops[i]; }
  for (int i = 0; i < r.nprobes; ++i) S.probes[r.probes[i].name] += r.probes[i].n;
  for (int i = 0; i < r.nstates; ++i) state_seen(r.states[i]);
  if (r.nontrivial) { ++S.nontrivial; if (S.runs_seen.size() < 600000) S.runs_seen.insert(r.hash); }
  return 0;
}

static Plan make_plan(const std::string& prop, long seed, long idx, const std::vector<World*>& ws) {
  uint64_t h = 0; for (char c : prop) h = mix(h, (unsigned char)c);
  Rng r(mix(mix((uint64_t)seed, h), (uint64_t)idx));
  Plan p; p.prop = prop; p.seed = seed; p.index = idx;
  World* w = ws[idx % ws.size()];
  p.world = w->name;
  w->generate(r, p);
  return p;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jstr(const std::string& s) {
  std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\"";
}
static void write_stats(const std::string& out, long next, const std::string& status) {
  std::ofstream f(out);
  f << "{\"status\":" << jstr(status) << ",\"next\":" << next << ",\"runs\":" << S.runs << ",\"nontrivial\":" << S.nontrivial << ",\"ops\":" << S.ops
    << ",\"threw\":" << S.threw << ",\"checks\":" << S.checks << ",\"steps\":" << S.steps << ",\"shortages\":" << S.shortages << ",\"judged_faults\":" << S.judged_faults << ",\"fired\":{";
  for (int i = 1; i < F_KINDS; ++i) f << (i > 1 ? "," : "") << jstr(fault_name[i]) << ":" << S.fired[i];
  f << "},\"probes\":{"; bool c = false;
  for (auto& kv : S.probes) { f << (c ? "," : "") << jstr(kv.first) << ":" << kv.second; c = true; }
  f << "},\"worlds\":{"; c = false;
  for (auto& kv : S.worlds) { f << (c ? "," : "") << jstr(kv.first) << ":" << kv.second; c = true; }
  f << "}}\n";
  f.close();
  std::ofstream g(out + ".states", std::ios::binary);
  for (uint64_t h : S.states) g.write((const char*)&h, 8);
  std::ofstream q(out + ".runs", std::ios::binary);
  for (uint64_t h : S.runs_seen) q.write((const char*)&h, 8);
}

int main_(int argc, char** argv) {
  std::map<std::string, std::string> o; std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto L = [&](const char* k, long d) { return o.count(k) ? atol(o[k].c_str()) : d; };
  setvbuf(stdout, nullptr, _IOLBF, 1 << 12);
  handlers();
  rlimit lim = {rlim_t(6) << 30, rlim_t(6) << 30}; setrlimit(RLIMIT_AS, &lim);
  rlimit nocore = {0, 0}; setrlimit(RLIMIT_CORE, &nocore);
  std::sort(worlds().begin(), worlds().end(), [](World* a, World* b) { return a->name < b->name; });
  std::string prop = o["--prop"];
  std::vector<World*> ws;
  for (World* w : worlds()) if (w->serves(prop) && (!o.count("--world") || w->name == o["--world"])) ws.push_back(w);
  if (mode == "worlds") { for (World* w : ws) printf("%s\n", w->name.c_str()); return 0; }
  if (mode == "gen") { fputs(plan_text(make_plan(prop, L("--seed", 1), L("--index", 0), ws)).c_str(), stdout); return 0; }
  if (mode == "replay") {
    replaying = true;
    std::ifstream f(o["--file"]); std::stringstream b; b << f.rdbuf(); Plan p;
    if (!f || !plan_parse(b.str(), p)) { fprintf(stderr, "bad plan\n"); return 2; }
    C.verbose = L("--verbose", 0) != 0;
    run_one(p);
    if (C.bad) printf("\nRESULT class=%s hash=%016llx op=%d detail=%s\n", C.cls.c_str(), (unsigned long long)C.hash, C.cur_op, C.detail.c_str());
    else printf("\nRESULT class=ok hash=%016llx op=%d\n", (unsigned long long)C.hash, C.cur_op);
    return C.bad ? 3 : 0;
  }
  if (mode == "work") {
    // one worker: runs --from, --from+stride, ... < --to, until --secs are over
    if (ws.empty()) { fprintf(stderr, "no world serves %s\n", prop.c_str()); return 2; }
    long seed = L("--seed", 1), from = L("--from", 0), to = L("--to", 1000), stride = L("--stride", 1);
    double end = now() + (double)L("--secs", 20);
    std::string out = o["--out"];
    int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 4096)) return 2;
    volatile long* cur = (volatile long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    bool hashes = L("--hashes", 0) != 0;
    long i = from, n = 0;
    for (; i < to; i += stride) {
      cur[0] = i;
      if ((n++ & 7) == 0 && now() > end) break;
      Plan p = make_plan(prop, seed, i, ws);
      if (find_world(p.world)->isolated()) {
        if (int rc = run_isolated(p)) { ++S.runs; write_stats(out, i, "crash"); return rc; }
      } else run_one(p);
      ++S.runs; ++S.worlds[p.world];
      if (hashes) printf("H %ld %016llx %d\n", i, (unsigned long long)C.hash, C.bad ? 1 : 0);
      if (C.bad) {
        write_stats(out, i, "violation");
        printf("VIOL index=%ld class=%s hash=%016llx detail=%s\n", i, C.cls.c_str(), (unsigned long long)C.hash, C.detail.c_str());
        return 3;
      }
    }
    cur[0] = -1;
    write_stats(out, i, "done");
    return 0;
  }
  fprintf(stderr, "usage: icl_sim work|replay|gen|worlds ...\n");
  return 2;
}
} // namespace sim

// memory obtained past the container's allocator during a library call
static void* raw_new(size_t n) {
  if (sim::C.in_op && !sim::C.exempt) ++sim::C.foreign;
  void* p = malloc(n ? n : 1); if (!p) abort(); if (sim::mem_hook) sim::mem_hook(p, n); return p;
}
void* operator new(size_t n) { return raw_new(n); }
void* operator new[](size_t n) { return raw_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return raw_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return raw_new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

int main(int argc, char** argv) { return sim::main_(argc, argv); }
