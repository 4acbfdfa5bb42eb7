// Generic executor for single-threaded worlds: drives an Env through a plan and evaluates the oracle of one property.
#pragma once
#include "core.hpp"
#include "domains.hpp"

namespace sim {

enum Style { ST_JOIN = 0, ST_SEP = 1, ST_SPLIT = 2, ST_ELEM = 3 };

struct Meta {
  int target = -1, other = -1;   // containers the operation may change
  bool update = false;           // in-place update with an operand (C04)
  bool repeatable = false;       // C06
  bool may_drop = false;         // replacing / flipping map updates
  bool strong = false;           // C05: target unchanged when it fails
  bool transfer = false;         // C12
  bool wholesale = false;        // whole content replaced
  bool exact = true;             // borders are predicted exactly
  bool joined = false;           // explicit join
  bool skip = false;
  bool resync = false;           // content of target is not predicted
  std::vector<char> mask;        // operand atoms
};

struct OpKind { int code; const char* name; int weight; const char* tags; }; // tags: u update, s strong, t transfer, m misc

// a container of one's own and a shared one, in place of the two containers of an environment
template <class T> struct Two { T* p[2]; T& operator[](int i) const { return *p[i]; } };

struct Held { int cont; Seg seg; const void* addr; std::function<void()> drop; };

template <class Sys> auto judge_failed(int) -> decltype(bool(Sys::judge_failed)) { return Sys::judge_failed; }
template <class Sys> bool judge_failed(long) { return true; }
// a failed operation may stop halfway inside a set-valued codomain and leave an identity value behind
template <class Sys> auto half_done(const Cont& c, int) -> decltype(Sys::half_done(c)) { return Sys::half_done(c); }
template <class Sys> bool half_done(const Cont&, long) { return false; }
inline bool is(const char* p) { return !strcmp(C.prop, p); }

template <class Sys> struct Engine {
  typedef typename Sys::Env Env;
  static const int NC = Sys::NC;

  static void generate(Rng& r, Plan& p) {
    const std::string& pr = p.prop;
    p.grid = (int)(r.chance(300) ? r.range(3, 8) : r.range(6, Sys::A));
    p.flags = (pr == "C07" || pr == "C13") ? (int)r.below(2) : (r.chance(60) ? 1 : 0);
    int n = (int)(r.chance(350) ? r.range(3, 10) : r.range(8, 44));
    if (r.chance(30)) n = (int)r.range(60, 220);
    const bool large = Sys::A > 64;
    if (large) { p.grid = (int)(r.chance(150) ? r.range(6, 24) : r.range(40, Sys::A)); n = (int)(r.chance(500) ? r.range(8, 44) : r.range(40, 100)); }
    std::vector<OpKind> ks = Sys::kinds();
    std::vector<int> w;
    for (const OpKind& k : ks) {
      int x = k.weight;
      bool strong = strchr(k.tags, 's'), tr = strchr(k.tags, 't'), up = strchr(k.tags, 'u');
      if (r.chance(300)) x = x / 4;            // swarm: a random subset of the operations dominates
      else if (r.chance(300)) x = x * 3;
      if (pr == "C05" && strong) x *= 4;
      if (pr == "C12" && tr) x *= 6;
      if ((pr == "C04" || pr == "C06") && !up) x = (x + 2) / 3;
      w.push_back(x);
    }
    long tot = 0; for (int x : w) tot += x;
    if (tot <= 0) { for (int& x : w) x = 1; tot = (long)w.size(); }
    static const long rates[] = {0, 80, 250, 600};
    long rate = rates[r.below(4)];
    if (pr == "C04" || pr == "C06" || pr == "C05" || pr == "C07") rate = rates[1 + r.below(3)];
    if (pr == "C12") rate = rates[r.below(2)];
    bool kinds[F_KINDS] = {false, true, r.chance(700), r.chance(700), r.chance(500), r.chance(700)};
    long shortage_rate = r.chance(250) ? 60 : 0;
    bool shortage = false;
    int lastt = 0;
    if (large) for (const OpKind& k : ks) { // many segments to start with
      if (&k != &ks[0] && (strncmp(k.name, "update of", 9) || r.chance(500))) continue;
      if (r.chance(150)) continue;
      const int m = (int)r.range(8, r.chance(500) ? p.grid + 8 : 60), step = (int)(r.chance(400) ? 1 : r.range(1, 4)), jitter = (int)(r.chance(500) ? 0 : 120), both = r.chance(400), base = (int)r.below(64);
      for (int i = 0; i < m; ++i) {
        Op o; o.code = k.code; o.t = both ? (int)r.below(2) : base;
        o.a[0] = (int)(r.chance(jitter) ? r.below(p.grid) : (i * step) % p.grid); o.a[1] = (int)(o.a[0] + (r.chance(2 * jitter) ? r.range(0, 3) : 1));
        if (o.a[1] > p.grid) o.a[1] = p.grid;
        o.a[2] = (int)r.below(4); o.a[3] = (int)r.below(64); o.a[4] = (int)r.below(4096); o.a[5] = (int)r.below(4096);
        p.ops.push_back(o);
      }
    }
    for (int i = 0; i < n; ++i) {
      Op o;
      if (shortage_rate && (shortage ? r.chance(300) : r.chance(shortage_rate))) {
        o.code = shortage ? OP_LIFT : OP_SHORTAGE; o.a[0] = (int)r.below(7);
        shortage = !shortage; p.ops.push_back(o); continue;
      }
      long x = r.below(tot); size_t k = 0;
      while (x >= w[k]) x -= w[k++];
      o.code = ks[k].code;
      o.t = (int)(r.chance(600) ? lastt : r.below(64));
      if (r.chance(500)) lastt = o.t;
      o.a[0] = (int)r.below(p.grid + 1);
      o.a[1] = (int)(r.chance(30) ? r.below(p.grid + 1) : r.chance(large ? 850 : 500) ? o.a[0] + r.range(0, 4) : o.a[0] + r.below(p.grid + 1));
      if (o.a[1] > p.grid) o.a[1] = p.grid;
      o.a[2] = (int)r.below(4);
      o.a[3] = (int)r.below(64);   // variant
      o.a[4] = (int)r.below(4096); // operand / value / iterator index
      o.a[5] = (int)r.below(4096);
      if (i >= 2 && r.chance(rate)) {
        int fk = 0; for (int tries = 0; tries < 8 && !fk; ++tries) { int c = 1 + (int)r.below(F_KINDS - 1); if (kinds[c]) fk = c; }
        if (!fk) fk = F_ALLOC;
        o.fk = fk; o.fn = (int)r.below(1 << 16); o.fl = r.chance(700) ? 1 : r.chance(500) ? 2 : 100000;
      }
      p.ops.push_back(o);
    }
  }
  enum { OP_SHORTAGE = 900, OP_LIFT = 901 };

  // --- execution ------------------------------------------------------------------------------
  static void observe_all(const Env& e, std::vector<Obs>& o) {
    bool q = C.armed; C.armed = false;
    o.resize(NC);
    for (int i = 0; i < NC; ++i) o[i] = Sys::observe(e, i);
    C.armed = q;
  }
  static std::string show(const Cont& c) { return c.str(); }

  static void execute(const Plan& p) {
    Sys::warm_up();
    long objs0 = C.live_objs, blocks0 = C.live_blocks;
    {
      Env env;
      body(p, env);
    }
    if (C.bad) return;
    if (is("C07")) {
      ++S.checks;
      if (C.live_blocks != blocks0) violation("C07.leak", "%ld memory blocks outstanding after all containers are gone", C.live_blocks - blocks0);
      else if (C.live_objs != objs0) violation("C07.objects", "%ld value objects outstanding after all containers are gone", C.live_objs - objs0);
      else if (C.foreign) violation("C07.foreign", "%ld memory blocks obtained past the container's allocator", C.foreign);
    }
    ev((uint64_t)C.n_alloc); ev((uint64_t)C.n_copy); ev((uint64_t)C.n_comb);
  }

  static void body(const Plan& p, Env& env) {
    std::vector<char> dirty(NC, 0), moved(NC, 0);
    std::vector<Obs> pre, post;
    typename Sys::Holder holds;
    observe_all(env, pre);
    long judged = 0, judged_faults = 0, nonempty = 0;
    bool shortage = false; (void)shortage;
    for (size_t i = 0; i < p.ops.size() && !C.bad; ++i) {
      const Op& op = p.ops[i];
      C.cur_op = (int)i; ++S.ops; ++S.steps;
      if (op.code == OP_SHORTAGE) { C.quota = op.a[0]; ++S.shortages; ev(op.code + (uint64_t)op.a[0]); SIM_TRACE("%3zu shortage after %d allocations\n", i, op.a[0]); continue; }
      if (op.code == OP_LIFT) { C.quota = -1; ev(op.code); SIM_TRACE("%3zu shortage lifted\n", i); continue; }
      Meta m; std::vector<Cont> next;
      for (const Obs& o : pre) next.push_back(o.c);
      Sys::predict(env, next, op, p.grid, m);
      if (m.skip) { ev(77); continue; }
      int t = m.target;
      SIM_TRACE("%3zu %s", i, Sys::describe(op, p.grid).c_str());

      Act act;
      std::vector<Obs> fresh; bool have_fresh = false;
      bool with_fault = op.fk != 0 || C.quota >= 0;
      if (m.transfer && is("C12")) { // transfers run while nothing can be allocated or copied
        act.arm_it = true; act.fk = F_ANY; act.fn = 1; act.fl = 1L << 40;
      } else if (with_fault) {
        long q = C.quota; C.quota = -1;
        { Env clone(env); Act dry; Sys::apply(clone, op, p.grid, dry, nullptr);
          observe_all(clone, fresh); have_fresh = true;
          if (op.fk) {
            ++S.fault_ops[op.fk];
            long n = dry.seen[op.fk];
            if (n > 0) { act.arm_it = true; act.fk = op.fk; act.fn = 1 + op.fn % n; act.fl = op.fl; }
          }
        }
        C.quota = q;
      }
      if (C.bad) break;
      if (is("C13")) holds.take(env, pre, op, dirty);

      long fired0 = fired_total();
      Sys::apply(env, op, p.grid, act, is("C13") ? &holds : nullptr);
      bool fired = fired_total() != fired0;
      if (C.bad) break;
      S.steps += act.seen[F_ALLOC] + act.seen[F_COPY] + act.seen[F_COMB];
      observe_all(env, post);
      if (act.threw) ++S.threw;
      if (Sys::A > 64 && post[0].segs.size() + post[1].segs.size() >= 64) probe("operation on containers of 64 and more segments");
      if (act.threw && fired) probe("fault inside operation, exception seen");
      if (!act.threw && fired) probe("fault inside operation, no exception");
      SIM_TRACE("%s  ->  c%d: %s%s\n", act.threw ? " THREW" : "", t, post[t].c.str().c_str(), post[t].bad ? " (INVALID)" : "");

      // ---- oracles
      if (is("C03")) {
        for (int c = 0; c < NC && !C.bad; ++c) if (post[c].bad) violation("C03.order", "container %d: %s", c, post[c].why.c_str());
      }
      // wild segment structure: other properties cannot be judged on it
      bool wild = false; for (int c = 0; c < NC; ++c) wild |= post[c].bad;
      if (wild && !C.bad) {
        if (is("C01") || is("C02") || is("C11") || is("C14")) violation((std::string(C.prop) + ".content").c_str(), "iteration shows no valid content: %s", why_of(post).c_str());
        else if (is("C04") && act.threw && m.update) violation("C04.content", "after a failed update iteration shows no valid content: %s", why_of(post).c_str());
        ev(0xBAD); break;
      }
      if (!act.threw) {
        if (Sys::content_prop(C.prop) || (is("C12") && (m.transfer || moved_any(moved)))) {
          ++S.checks; ++judged;
          for (int c = 0; c < NC && !C.bad; ++c) {
            if (c == t && m.resync) continue;
            if (m.transfer && c == m.other && !m.exact) continue; // moved-from: any valid state
            if (post[c].c.val != next[c].val)
              violation((std::string(C.prop) + ".content").c_str(), "op %zu %s: container %d is %s, expected %s", i, Sys::describe(op, p.grid).c_str(), c, show(post[c].c).c_str(), show(next[c]).c_str());
          }
        }
        if (is("C03")) {
          ++S.checks; ++judged;
          if (m.joined) dirty[t] = 0;
          if (m.wholesale && m.transfer && m.exact && m.other >= 0 && Sys::swaps(op)) std::swap(dirty[t], dirty[m.other]);
          else if (m.wholesale) dirty[t] = Sys::dirty_after(op, dirty) ? 1 : 0;
          for (int c = 0; c < NC && !C.bad; ++c) {
            if (c != t && c != m.other) continue;
            int st = Sys::style(c);
            if (st == ST_JOIN) {
              if (!dirty[c]) {
                const Segs& g = post[c].segs;
                for (size_t k = 1; k < g.size() && !C.bad; ++k)
                  if (g[k - 1].hi == g[k].lo && g[k - 1].v == g[k].v)
                    violation("C03.joined", "op %zu %s: container %d has unjoined segments [%d,%d) and [%d,%d)", i, Sys::describe(op, p.grid).c_str(), c, g[k - 1].lo, g[k - 1].hi, g[k].lo, g[k].hi);
              }
            } else if (m.exact && !m.resync && post[c].c.val == next[c].val && post[c].c.cut != next[c].cut)
              violation("C03.style", "op %zu %s: container %d has segments %s, expected %s", i, Sys::describe(op, p.grid).c_str(), c, show(post[c].c).c_str(), show(next[c]).c_str());
          }
        }
        if (is("C05")) {
          for (int c = 0; c < NC && !C.bad; ++c) if (c != t && c != m.other) {
            ++S.checks; ++judged;
            if (post[c].c != pre[c].c) violation("C05.operand", "op %zu %s changed container %d from %s to %s", i, Sys::describe(op, p.grid).c_str(), c, show(pre[c].c).c_str(), show(post[c].c).c_str());
          }
        }
        if (is("C12") && !m.transfer) {
          for (int c = 0; c < NC && !C.bad; ++c) if (c != t && c != m.other && post[c].c != pre[c].c)
            violation("C12.other", "op %zu %s changed container %d", i, Sys::describe(op, p.grid).c_str(), c);
        }
      } else { // threw
        for (int c : {t, m.other}) if (c >= 0 && Sys::style(c) == ST_JOIN && !m.strong) dirty[c] = 1;
        if (is("C04") && m.update && !m.strong && have_fresh) {
          ++S.checks; ++judged; ++judged_faults;
          for (int c = 0; c < NC && !C.bad; ++c) {
            if (c != t) { if (post[c].c.val != pre[c].c.val) violation("C04.operand", "failed op %zu %s changed container %d", i, Sys::describe(op, p.grid).c_str(), c); continue; }
            for (int x = 0; x < Sys::A && !C.bad; ++x) {
              long b = pre[c].c.val[x], n = post[c].c.val[x], w = fresh[c].c.val[x];
              bool ok = m.mask[x] ? (n == b || n == w || (m.may_drop && n == NONE)) : n == b;
              if (!ok) violation(m.mask[x] ? "C04.inside" : "C04.outside", "failed op %zu %s: atom %d %s the operand had %ld, would get %ld, has %ld; before: %s after: %s", i, Sys::describe(op, p.grid).c_str(), x, m.mask[x] ? "inside" : "outside", b, w, n, show(pre[c].c).c_str(), show(post[c].c).c_str());
            }
          }
        }
        if (is("C11") && m.update && have_fresh && judge_failed<Sys>(0)) { // element containers: same rule
          ++S.checks; ++judged; ++judged_faults;
          for (int c = 0; c < NC && !C.bad; ++c) for (int x = 0; x < Sys::A && !C.bad; ++x) {
            long b = pre[c].c.val[x], n = post[c].c.val[x], w = fresh[c].c.val[x];
            bool ok = c == t && !m.strong && m.mask[x] ? (n == b || n == w || (m.may_drop && n == NONE)) : n == b;
            if (!ok) violation("C11.failed", "failed op %zu %s: key %d of container %d had %ld, would get %ld, has %ld", i, Sys::describe(op, p.grid).c_str(), x, c, b, w, n);
          }
        }
        if (is("C05")) {
          for (int c = 0; c < NC && !C.bad; ++c) {
            if ((c == t || c == m.other) && !m.strong) continue;
            ++S.checks; ++judged; ++judged_faults;
            if (post[c].c != pre[c].c) violation("C05.failed", "failed op %zu %s changed container %d from %s to %s", i, Sys::describe(op, p.grid).c_str(), c, show(pre[c].c).c_str(), show(post[c].c).c_str());
          }
        }
        if (is("C12") && m.transfer) violation("C12.threw", "op %zu %s threw", i, Sys::describe(op, p.grid).c_str());
        if (is("C03") && t >= 0 && Sys::style(t) == ST_JOIN && (op.a[5] & 1) && !C.bad) {
          // an explicit join restores the canonical form and keeps the content
          long q = C.quota; C.quota = -1;
          Act j; j.go([&] { Sys::join(env, t); });
          C.quota = q;
          Obs o = Sys::observe(env, t);
          ++S.checks; ++judged; ++judged_faults;
          if (j.threw) violation("C03.join", "explicit join threw without any fault");
          else if (o.bad || o.c.val != post[t].c.val) violation("C03.join", "explicit join after a failed update changed the content from %s to %s", show(post[t].c).c_str(), show(o.c).c_str());
          else for (size_t k = 1; k < o.segs.size() && !C.bad; ++k)
            if (o.segs[k - 1].hi == o.segs[k].lo && o.segs[k - 1].v == o.segs[k].v) violation("C03.join", "explicit join leaves unjoined segments: %s", show(o.c).c_str());
          post[t] = o; dirty[t] = 0;
        }
        if (is("C06") && m.repeatable && have_fresh) {
          // further failing attempts, then one with memory back
          for (int k = 0; k < (op.a[5] & 3) && !C.bad; ++k) {
            Act again; again.arm_it = op.fk != 0; again.fk = op.fk; again.fn = 1 + (op.fn / (3 + k * 4)) % (act.seen[op.fk] + 2); again.fl = op.fl;
            Sys::apply(env, op, p.grid, again, nullptr); ev(again.threw);
            if (again.threw) probe("repetition failed again");
          }
          long q = C.quota; C.quota = -1;
          Act last; Sys::apply(env, op, p.grid, last, nullptr);
          C.quota = q;
          observe_all(env, post);
          ++S.checks; ++judged; ++judged_faults;
          if (last.threw) violation("C06.threw", "op %zu %s fails again without any fault", i, Sys::describe(op, p.grid).c_str());
          else if (post[t].bad || post[t].c.val != fresh[t].c.val)
            violation("C06.content", "op %zu %s repeated after a failure leaves %s instead of %s", i, Sys::describe(op, p.grid).c_str(), show(post[t].c).c_str(), show(fresh[t].c).c_str());
        }
      }
      if (is("C12") && m.transfer && !C.bad) {
        ++S.checks; ++judged; ++judged_faults;
        if (act.d_alloc || act.d_copy) violation("C12.resources", "op %zu %s made %ld allocations and %ld value copies", i, Sys::describe(op, p.grid).c_str(), act.d_alloc, act.d_copy);
        if (!m.exact) moved[m.other] = 1;
        moved[t] = 1;
        if (m.exact && m.other >= 0) moved[m.other] = 1;
        for (int c : {t, m.other}) if (c >= 0 && !C.bad && (m.exact || c == t) && post[c].c.cut != next[c].cut && post[c].c.val == next[c].val)
          violation("C12.content", "op %zu %s: segments of container %d differ: %s instead of %s", i, Sys::describe(op, p.grid).c_str(), c, show(post[c].c).c_str(), show(next[c]).c_str());
      }
      if (is("C13") && !C.bad) { long k = holds.check(env, pre, m, i); S.checks += k; judged += k; if (act.threw) judged_faults += k; }
      if (is("C10") && !C.bad) {
        Sys::prints(env, op, p.grid); ++judged;
        for (int c = 0; c < NC && !C.bad; ++c) if (Sys::observe(env, c).c != post[c].c) violation("C10.changed", "printing changes container %d", c);
      }
      if (is("C14") && !C.bad) { Sys::queries(env, post, op, p.grid); ++judged; if (act.threw) ++judged_faults; }

      ev((uint64_t)op.code * 131 + act.threw);
      for (int c = 0; c < NC; ++c) { uint64_t h = hash_cont(post[c].c); ev(h); if (!post[c].c.empty()) { ++nonempty; state_seen(mix(h, (uint64_t)c)); } }
      bool stop = false;
      if (act.threw) for (int c = 0; c < NC; ++c) stop |= half_done<Sys>(post[c].c, 0);
      if (stop) { probe("run ends: a set-valued combination stopped halfway"); break; }
      pre.swap(post);
    }
    C.quota = -1;
    bool faulty = is("C04") || is("C06");
    S.judged_faults += judged_faults;
    bool nontrivial = faulty ? judged_faults > 0 : (judged >= 3 || is("C07")) && nonempty >= 3;
    if (nontrivial) { ++S.nontrivial; if (S.runs_seen.size() < 600000) S.runs_seen.insert(C.hash); }
  }
  static long fired_total() { return S.fired[1] + S.fired[2] + S.fired[3] + S.fired[5]; }
  static std::string why_of(const std::vector<Obs>& o) { for (const Obs& x : o) if (x.bad) return x.why; return ""; }
  static bool moved_any(const std::vector<char>& v) { for (char c : v) if (c) return true; return false; }
};

// ---- helpers shared by the interval container worlds ------------------------------------------
// An operand may be a reference to what the container itself holds: the segment of c that equals made, if wanted and there.
inline void probe_own() { if (!is("C08") && !is("C09")) probe("operand refers into the container itself"); }
template <class D, class C_, class KeyOf> const typename D::itv& own_segment(const C_& c, const typename D::itv& made, bool wanted, KeyOf key) {
  Range r, q; if (!wanted || !D::decode(made, r) || r.empty()) return made;
  for (auto k = c.begin(); k != c.end(); ++k) if (D::decode(key(k), q) && q.lo == r.lo && q.hi == r.hi) { probe_own(); return key(k); }
  return made;
}
template <class D, class ContT, class KeyOf, class ValOf>
Obs observe_segments(const ContT& c, KeyOf key, ValOf val) {
  Obs o; o.c = Cont(D::A);
  int last = -1; long n = 0;
  for (auto it = c.begin(); it != c.end(); ++it) {
    if (++n > 4 * D::A) { o.bad = true; o.why = "iteration does not end"; break; }
    Range r;
    if (!D::decode(key(it), r)) { o.bad = true; o.why = "segment outside of everything ever added"; break; }
    if (r.empty()) { o.bad = true; o.why = "empty segment"; break; }
    if (r.lo < last) { o.bad = true; char b[96]; snprintf(b, sizeof b, "segment [%d,%d) overlaps or precedes its predecessor", r.lo, r.hi); o.why = b; break; }
    long v = val(it);
    o.segs.push_back(Seg{r.lo, r.hi, v});
    o.c.fill(r.lo, r.hi, v);
    if (r.lo == last) o.c.cut[r.lo] = 1;
    last = r.hi;
  }
  return o;
}
inline void clear_cuts_where_absent(Cont& c) {
  for (int i = 0; i <= c.size(); ++i) if (!c.has(i - 1) || !c.has(i)) c.cut[i] = 0;
}
inline void set_cut(Cont& c, int i) { if (c.has(i - 1) && c.has(i)) c.cut[i] = 1; }
// borders after adding / inserting over [lo,hi): 'was' is the presence before
inline void cuts_at_transitions(Cont& c, const Few<long>& was, int lo, int hi) {
  for (int i = lo; i <= hi; ++i) {
    bool l = i > 0 && was[i - 1] != NONE, r = i < c.size() && was[i] != NONE;
    if (l != r) set_cut(c, i);
  }
}

} // namespace sim
