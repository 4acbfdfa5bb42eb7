// Threaded worlds: C08 (readers of shared containers) and C09 (owners of separate containers).
#pragma once
#include "sets.hpp"
#include "maps.hpp"
#include "elems.hpp"
#include "fibers.hpp"
#include <sstream>

namespace sim {
enum { Q_ASK = 950, Q_PRINT = 951, Q_COMPARE = 952 };
typedef std::vector<uint64_t> Hashes;

template <class X> auto print_hash(const X& x, int) -> decltype(icl::is_empty(x), uint64_t()) {
  using boost::icl::operator<<;
  std::ostringstream o; o << x; uint64_t h = 3; for (char c : o.str()) h = mix(h, (unsigned char)c); return h;
}
inline void gen_sched(Rng& r, Plan& p, int n) {
  static const long mean[] = {2, 8, 40, 200, 1000}, first[] = {1, 30, 300, 3000, 12000};
  for (int bursts = 1 + (int)r.below(3); bursts; --bursts) {
    p.sched.push_back((1 + r.below(first[r.below(5)])) * 8 + r.below(n));
    long m = mean[r.below(5)];
    for (long k = r.range(0, 24); k; --k) p.sched.push_back((1 + r.below(2 * m)) * 8 + r.below(n));
  }
}
// the operations of one simulated thread, drawn like those of a single-threaded world
template <class Sys> void gen_thread(Rng& r, Plan& p, int fiber, int n, bool reader) {
  Plan q; q.prop = p.prop; Engine<Sys>::generate(r, q);
  long fault = std::vector<long>{0, 300, 1000, 1000}[r.below(4)];
  for (Op o : q.ops) {
    if (n-- <= 0) break;
    if (o.code >= 900) { if (reader) continue; o.t = fiber * 64; p.ops.push_back(o); continue; }
    if (o.fk && !r.chance(fault)) o.fk = o.fn = o.fl = 0;
    if (o.fk) o.fn %= (int)std::vector<long>{4, 16, 60}[r.below(3)];
    o.t = fiber * 64 + (reader ? 0 : o.t % 64);
    if (r.chance(reader ? 450 : 120)) o.code = Q_ASK + (int)(r.chance(600) ? 0 : 1 + r.below(2));
    p.ops.push_back(o);
  }
}
// what a reader must not do: change anything but its own container
template <class Sys> bool reading(int code) {
  if (code >= Q_ASK) return true;
  for (const OpKind& k : Sys::kinds()) if (k.code == code) {
    for (const char* n : {"move", "swap", "update of", "domain"}) if (!strncmp(k.name, n, strlen(n))) return false;
    return true;
  }
  return false;
}
template <class Sys> void act_of(const Op& op, Act& a) { if (op.fk) { a.arm_it = true; a.fk = op.fk; a.fn = 1 + op.fn; a.fl = op.fl; } }
template <class Sys> std::string say(const Op& op, int grid) { return op.code == Q_ASK ? "queries" : op.code == Q_PRINT ? "print" : op.code == Q_COMPARE ? "compare" : Sys::describe(op, grid); }

template <class Sys> uint64_t ask(const typename Sys::Env& e, const std::vector<Obs>& o, const Op& op, int grid) {
  uint64_t h = op.code; Act act; act_of<Sys>(op, act);
  act.go([&] {
    C.sink = &h;
    switch (op.code) {
      case Q_ASK: Sys::queries(e, o, op, grid); break;
      case Q_PRINT: h = mix(h, print_hash(e.s[op.a[5] % 2], 0)); break;
      default: { const auto &x = e.s[0], &y = e.s[1]; auto c(e.s[op.a[5] % 2]);
        h = mix(h, (x == y) + 2 * (x < y) + 4 * (c == x) + 8 * (c != y)); }
    }
  });
  C.sink = nullptr; S.threw += act.threw;
  return mix(h, act.threw);
}
template <class Sys> uint64_t hash_of(const typename Sys::Env& e, int n, bool* wild) {
  bool a = C.armed; C.armed = false; uint64_t h = 5;
  for (int c = 0; c < n; ++c) { Obs o = Sys::observe(e, c); h = mix(h, hash_cont(o.c) + o.bad); if (wild && (o.bad || half_done<Sys>(o.c, 0))) *wild = true; }
  C.armed = a; return h;
}

// ---- C08
template <class Sys> struct ReaderWorld : World {
  typedef typename Sys::Env Env;
  ReaderWorld(const char* n) { name = n; }
  bool isolated() const override { return true; }
  bool serves(const std::string& p) const override { return p == "C08"; }
  void generate(Rng& r, Plan& p) const override {
    p.grid = (int)(r.chance(300) ? r.range(3, 8) : r.range(6, Sys::A)); p.flags = r.chance(500) ? 2 : 0;
    Plan q; q.prop = p.prop; Engine<Sys>::generate(r, q); size_t setup = (size_t)r.range(2, 24); if (q.ops.size() > setup) q.ops.resize(setup);
    for (Op o : q.ops) if (o.code < 900) { if (o.fk && !r.chance(200)) o.fk = o.fn = o.fl = 0; o.fn %= 20; o.t %= 64; p.ops.push_back(o); }
    int n = 2 + (int)r.chance(300);
    for (int f = 1; f <= n; ++f) gen_thread<Sys>(r, p, f, (int)r.range(1, 6), true);
    gen_sched(r, p, n);
  }
  static void reader(const Plan& p, int fiber, Env& e, const std::vector<Obs>& obs, Hashes& out) {
    Env mine; mine.s[0] = e.s[fiber % 2];
    size_t k = 0;
    for (size_t i = 0; i < p.ops.size(); ++i) {
      const Op& op = p.ops[i]; if (op.t / 64 != fiber || !reading<Sys>(op.code)) continue;
      fib::note((int)i);
      uint64_t h; bool wild = false;
      if (op.code >= Q_ASK) h = ask<Sys>(e, obs, op, p.grid);
      else {
        Op o = op; o.t = 0; Act act; act_of<Sys>(op, act);
        typename Sys::View v = Sys::view(mine.s[0], e, op.a[5] % 2);
        Sys::apply(v, o, p.grid, act, nullptr);
        S.threw += act.threw; h = mix(hash_of<Sys>(mine, 1, &wild), act.threw);
      }
      out[k++] = h; ++S.checks; 
      if (wild) mine.s[0].clear();
    }
  }
  void execute(const Plan& p) const override {
    if (p.flags & 2) Sys::warm_up();
    Env env; int n = 1, grid = p.grid; bool wild = false;
    for (size_t i = 0; i < p.ops.size() && !C.bad && !wild; ++i) {
      const Op& op = p.ops[i]; ++S.ops; if (op.t / 64 > n) n = op.t / 64;
      if (op.t >= 64 || op.code >= 900) continue;
      C.cur_op = (int)i; Act act; act_of<Sys>(op, act);
      SIM_TRACE("%3zu %s\n", i, Sys::describe(op, grid).c_str());
      Sys::apply(env, op, grid, act, nullptr);
      hash_of<Sys>(env, Sys::NC, &wild);
    }
    if (n > fib::MAX) n = fib::MAX;
    std::vector<Obs> obs; Engine<Sys>::observe_all(env, obs);
    for (const Obs& o : obs) if (o.bad || half_done<Sys>(o.c, 0)) return;
    Env ref(env);
    for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].t >= 64) SIM_TRACE("%3zu thread %d: %s\n", i, p.ops[i].t / 64 - 1, say<Sys>(p.ops[i], grid).c_str());
    std::vector<Hashes> got(n, Hashes(p.ops.size(), 0)), want(n, Hashes(p.ops.size(), 0));
    fib::share(&env, sizeof env);
    C.cur_op = -1;
    fib::run(n, [&](int f) { reader(p, f + 1, env, obs, got[f]); }, p.sched);
    if (C.bad) return;
    for (int f = 0; f < n && !C.bad; ++f) reader(p, f + 1, ref, obs, want[f]);
    long reads = 0;
    for (int f = 0; f < n && !C.bad; ++f) {
      size_t k = 0;
      for (size_t i = 0; i < p.ops.size() && !C.bad; ++i) {
        const Op& op = p.ops[i]; if (op.t / 64 != f + 1 || !reading<Sys>(op.code)) continue;
        ++reads; ev(got[f][k]);
        if (got[f][k] != want[f][k]) { C.cur_op = (int)i; violation("C08.result", "operation %zu of thread %d (%s) has another result than running alone", i, f, say<Sys>(op, grid).c_str()); }
        ++k;
      }
    }
    std::vector<Obs> after; Engine<Sys>::observe_all(env, after);
    for (int c = 0; c < Sys::NC && !C.bad; ++c) if (after[c].bad || after[c].c != obs[c].c) violation("C08.changed", "container %d changed from %s to %s while it was only read", c, obs[c].c.str().c_str(), after[c].c.str().c_str());
    fib::account();
    if (reads >= 2 && fib::N.switches) { ++S.nontrivial; S.runs_seen.insert(C.hash); }
  }
};

// ---- C09
template <class A, class B> struct OwnerWorld : World {
  OwnerWorld(const char* n) { name = n; }
  bool isolated() const override { return true; }
  bool serves(const std::string& p) const override { return p == "C09"; }
  static bool second(const Plan& p, int f) { return p.flags & 4 ? f % 2 : f == 2; } // which kind of container the thread owns
  void generate(Rng& r, Plan& p) const override {
    p.grid = (int)(r.chance(300) ? r.range(3, 8) : r.range(6, A::A)); p.flags = (r.chance(300) ? 2 : 0) | (r.chance(300) ? 4 : 0);
    int n = 2 + (int)r.chance(400);
    for (int f = 0; f < n; ++f) if (second(p, f)) gen_thread<B>(r, p, f, (int)r.range(2, 14), false); else gen_thread<A>(r, p, f, (int)r.range(2, 14), false);
    gen_sched(r, p, n);
  }
  template <class Sys> static void owner(const Plan& p, int fiber, typename Sys::Env& e, Hashes& out) {
    bool wild = false; size_t k = 0;
    for (size_t i = 0; i < p.ops.size() && !wild; ++i) {
      const Op& op = p.ops[i]; if (op.t / 64 != fiber) continue;
      fib::note((int)i);
      if (op.code == 900) { C.quota = op.a[0]; out[k++] = 1; continue; }
      if (op.code == 901) { C.quota = -1; out[k++] = 2; continue; }
      ++S.checks;
      if (op.code >= Q_ASK) { std::vector<Obs> obs; Engine<Sys>::observe_all(e, obs); out[k++] = ask<Sys>(e, obs, op, p.grid); continue; }
      Op o = op; o.t %= 64; Act act; act_of<Sys>(op, act);
      Sys::apply(e, o, p.grid, act, nullptr);
      S.threw += act.threw; out[k++] = mix(hash_of<Sys>(e, Sys::NC, &wild), act.threw);
    }
    C.quota = -1;
  }
  void execute(const Plan& p) const override {
    if (p.flags & 2) { A::warm_up(); B::warm_up(); }
    int n = 1; S.ops += (long)p.ops.size();
    for (const Op& o : p.ops) if (o.t / 64 + 1 > n) n = o.t / 64 + 1;
    if (n > fib::MAX) n = fib::MAX;
    for (size_t i = 0; i < p.ops.size(); ++i) { const Op& o = p.ops[i]; Op q = o; q.t %= 64; SIM_TRACE("%3zu thread %d: %s\n", i, o.t / 64, o.code == 900 ? "shortage" : o.code == 901 ? "shortage lifted" : second(p, o.t / 64) ? say<B>(q, p.grid).c_str() : say<A>(q, p.grid).c_str()); }
    std::vector<Hashes> got(n, Hashes(p.ops.size(), 0)), want(n, Hashes(p.ops.size(), 0));
    {
      std::vector<std::unique_ptr<typename A::Env> > as(n); std::vector<std::unique_ptr<typename B::Env> > bs(n);
      for (int f = 0; f < n; ++f) if (second(p, f)) { bs[f].reset(new typename B::Env); fib::share(bs[f].get(), sizeof(typename B::Env)); } else { as[f].reset(new typename A::Env); fib::share(as[f].get(), sizeof(typename A::Env)); }
      C.cur_op = -1;
      fib::run(n, [&](int f) { if (second(p, f)) owner<B>(p, f, *bs[f], got[f]); else owner<A>(p, f, *as[f], got[f]); }, p.sched);
    }
    if (C.bad) return;
    for (int f = 0; f < n && !C.bad; ++f) { if (second(p, f)) { typename B::Env e; owner<B>(p, f, e, want[f]); } else { typename A::Env e; owner<A>(p, f, e, want[f]); } }
    long done = 0;
    for (int f = 0; f < n && !C.bad; ++f) {
      size_t k = 0;
      for (size_t i = 0; i < p.ops.size() && !C.bad; ++i) if (p.ops[i].t / 64 == f) {
        ++done; ev(got[f][k]);
        if (got[f][k] != want[f][k]) { Op q = p.ops[i]; q.t %= 64; C.cur_op = (int)i; violation("C09.result", "operation %zu of thread %d (%s) has another result than running alone", i, f, second(p, f) ? say<B>(q, p.grid).c_str() : say<A>(q, p.grid).c_str()); }
        ++k;
      }
    }
    fib::account();
    if (done >= 3 && fib::N.switches) { ++S.nontrivial; S.runs_seen.insert(C.hash); }
  }
};
} // namespace sim
