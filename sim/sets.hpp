// Interval set worlds.
#pragma once
#include "engine.hpp"
#include "queries.hpp"
#include <boost/icl/iterator.hpp>
#include <algorithm>

namespace sim {

template <class D, int STYLE> struct SetTypes;
template <class D> struct SetTypes<D, ST_JOIN> { typedef typename D::JSet T; typedef typename D::SSet U; typedef typename D::LSet V; enum { SU = ST_SEP, SV = ST_SPLIT }; static const char* name() { return "interval_set"; } };
template <class D> struct SetTypes<D, ST_SEP> { typedef typename D::SSet T; typedef typename D::JSet U; typedef typename D::LSet V; enum { SU = ST_JOIN, SV = ST_SPLIT }; static const char* name() { return "separate_interval_set"; } };
template <class D> struct SetTypes<D, ST_SPLIT> { typedef typename D::LSet T; typedef typename D::JSet U; typedef typename D::SSet V; enum { SU = ST_JOIN, SV = ST_SEP }; static const char* name() { return "split_interval_set"; } };

// ---- reference model of the three combining styles over atoms
struct SetModel {
  static void add(Cont& c, int st, int lo, int hi) {
    if (lo >= hi) return;
    Few<long> was = c.val; int L = lo, H = hi;
    for (const Seg& g : c.segs()) if (g.lo < hi && g.hi > lo) { if (g.lo < L) L = g.lo; if (g.hi > H) H = g.hi; }
    for (int i = lo; i < hi; ++i) c.val[i] = 1;
    if (st == ST_JOIN) { for (char& x : c.cut) x = 0; return; }
    if (st == ST_SEP) { for (int i = L + 1; i < H; ++i) c.cut[i] = 0; set_cut(c, L); set_cut(c, H); return; }
    cuts_at_transitions(c, was, lo, hi);
    set_cut(c, lo); set_cut(c, hi);
  }
  static void sub(Cont& c, int lo, int hi) { for (int i = lo; i < hi; ++i) c.val[i] = NONE; clear_cuts_where_absent(c); }
  static void flip(Cont& c, int st, int lo, int hi) {
    if (lo >= hi) return;
    for (int i = lo; i < hi; ++i) c.val[i] = c.val[i] == NONE ? 1 : NONE;
    clear_cuts_where_absent(c);
    if (st == ST_JOIN) { for (char& x : c.cut) x = 0; return; }
    set_cut(c, lo); set_cut(c, hi);
  }
  static void meet(Cont& c, int st, const Cont& o) {
    for (int i = 0; i < c.size(); ++i) if (!o.has(i)) c.val[i] = NONE;
    for (int i = 0; i <= c.size(); ++i) if (o.cut[i]) c.cut[i] = 1;
    if (st == ST_JOIN) for (char& x : c.cut) x = 0;
    clear_cuts_where_absent(c);
  }
  static Cont of_range(int A, Range r) { Cont c(A); for (int i = r.lo; i < r.hi; ++i) c.val[i] = 1; return c; }
  static void convert(Cont& c, int st) { if (st == ST_JOIN) for (char& x : c.cut) x = 0; }
};

template <class D, int STYLE> struct SetSys {
  typedef SetTypes<D, STYLE> Ts;
  typedef typename Ts::T T; typedef typename Ts::U U; typedef typename Ts::V V;
  typedef typename D::itv itv; typedef typename D::dom dom;
  static const int NC = 4, A = D::A;
  struct Env { T s[2]; U u; V v; };
  struct View { Two<T> s; U& u; V& v; };
  static View view(T& mine, Env& e, int k) { return View{{{&mine, &e.s[k]}}, e.u, e.v}; }
  static int style(int c) { return c < 2 ? STYLE : c == 2 ? (int)Ts::SU : (int)Ts::SV; }
  static bool content_prop(const char* p) { return !strcmp(p, "C01"); }
  static void warm_up() {}

  enum { ADD_I = 1, ADD_E, SUB_I, SUB_E, FLIP_I, FLIP_E, AND_I, AND_E, ADD_S, SUB_S, FLIP_S, AND_S, COPY, MOVE, SWAP, CONVERT, CLEAR, ERASE_IT, FROM, JOIN, SIDE, GAPS, BIN, ITER_RANGE };
  static std::vector<OpKind> kinds() {
    std::vector<OpKind> k = {
      {ADD_I, "add interval", 20, "u"}, {SUB_I, "subtract interval", 14, "u"}, {FLIP_I, "flip interval", 5, "u"}, {AND_I, "intersect interval", 2, "s"},
      {ADD_S, "add set", 5, "u"}, {SUB_S, "subtract set", 4, "u"}, {FLIP_S, "flip set", 4, "u"}, {AND_S, "intersect set", 3, "s"},
      {COPY, "copy", 2, "s"}, {MOVE, "move", 2, "t"}, {SWAP, "swap", 2, "t"}, {CONVERT, "convert", 2, "m"}, {CLEAR, "clear", 1, "m"},
      {ERASE_IT, "erase by iterator", 3, "m"}, {FROM, "construct from interval", 1, "m"}, {JOIN, "join", 1, "m"}, {SIDE, "update of a companion", 10, "u"},
      {GAPS, "gaps", 1, "m"}, {BIN, "binary operator", 5, "s"}};
    if (D::has_elem) { k.push_back({ADD_E, "add element", 6, "u"}); k.push_back({SUB_E, "subtract element", 5, "u"}); k.push_back({FLIP_E, "flip element", 3, "u"}); k.push_back({AND_E, "intersect element", 1, "s"}); }
    return k;
  }
  static std::string describe(const Op& op, int grid) {
    for (const OpKind& k : kinds()) if (k.code == op.code) {
      int a = op.a[0], b = op.a[1], bn = op.a[2]; D::resolve(a, b, bn, grid);
      Range r = D::range(a, b, bn);
      char buf[160]; snprintf(buf, sizeof buf, "%s (container %d, atoms [%d,%d), element atom %d, variant %d, arg %d)%s%s", k.name, op.t % (op.code == SIDE ? 4 : 2), r.lo, r.hi,
        D::has_elem ? D::elem_atom(op.a[0], grid) : -1, op.a[3], op.a[4], op.fk ? " with fault " : "", op.fk ? fault_name[op.fk] : "");
      return buf;
    }
    return "?";
  }
  static Obs observe(const Env& e, int c) {
    auto go = [](const auto& s) { return observe_segments<D>(s, [](auto it) -> const itv& { return *it; }, [](auto) { return 1L; }); };
    return c < 2 ? go(e.s[c]) : c == 2 ? go(e.u) : go(e.v);
  }
  static void join(Env& e, int c) { if (c < 2) icl::join(e.s[c]); else if (c == 2) icl::join(e.u); else icl::join(e.v); }
  static bool swaps(const Op& op) { return op.code == SWAP; }
  static bool dirty_after(const Op& op, const std::vector<char>& d) {
    int t = op.t % 2;
    if (op.code == SWAP) return d[t]; // with itself
    if (op.code == COPY || op.code == MOVE) return d[1 - t];
    if (op.code == BIN) return d[0] || d[1];
    return false;
  }

  // ---- reference model
  static void predict(const Env&, std::vector<Cont>& m, const Op& op, int grid, Meta& me) {
    int t = op.t % 2; me.target = t; me.mask.assign(A, 0);
    int a = op.a[0], b = op.a[1], bn = op.a[2]; D::resolve(a, b, bn, grid);
    Range r = D::range(a, b, bn); int e = D::has_elem ? D::elem_atom(op.a[0], grid) : 0; Range re{e, e + 1};
    auto maskr = [&](Range x) { for (int i = x.lo; i < x.hi; ++i) me.mask[i] = 1; };
    auto maskc = [&](const Cont& c) { for (int i = 0; i < A; ++i) if (c.has(i)) me.mask[i] = 1; };
    int o = op.a[4] % 3 == 0 ? 1 - t : op.a[4] % 3 + 1;
    Cont& c = m[t];
    switch (op.code) {
      case ADD_I: me.update = me.repeatable = true; maskr(r); SetModel::add(c, STYLE, r.lo, r.hi); break;
      case ADD_E: me.update = me.repeatable = true; maskr(re); SetModel::add(c, STYLE, re.lo, re.hi); break;
      case SUB_I: me.update = me.repeatable = true; maskr(r); SetModel::sub(c, r.lo, r.hi); break;
      case SUB_E: me.update = me.repeatable = true; maskr(re); SetModel::sub(c, re.lo, re.hi); break;
      case FLIP_I: me.update = true; maskr(r); SetModel::flip(c, STYLE, r.lo, r.hi); break;
      case FLIP_E: me.update = true; maskr(re); SetModel::flip(c, STYLE, re.lo, re.hi); break;
      case AND_I: me.strong = me.wholesale = true; SetModel::meet(c, STYLE, SetModel::of_range(A, r)); break;
      case AND_E: me.strong = me.wholesale = true; SetModel::meet(c, STYLE, SetModel::of_range(A, re)); break;
      case ADD_S: me.update = me.repeatable = true; maskc(m[o]); for (const Seg& g : m[o].segs()) SetModel::add(c, STYLE, g.lo, g.hi); break;
      case SUB_S: me.update = me.repeatable = true; maskc(m[o]); for (const Seg& g : m[o].segs()) SetModel::sub(c, g.lo, g.hi); break;
      case FLIP_S: me.update = true; maskc(m[o]); for (const Seg& g : m[o].segs()) SetModel::flip(c, STYLE, g.lo, g.hi); break;
      case AND_S: me.strong = me.wholesale = true; SetModel::meet(c, STYLE, m[o]); break;
      case COPY: me.strong = me.wholesale = true; c = m[1 - t]; break;
      case MOVE: me.transfer = me.wholesale = true; me.other = 1 - t; c = m[1 - t];
        if (is("C12")) me.exact = false; else m[1 - t] = Cont(A);
        break;
      case SWAP:
        me.transfer = me.wholesale = true; me.other = 1 - t;
        if (op.a[3] % 6 == 5) me.other = -1; else std::swap(m[t], m[1 - t]); // 5: with itself
        break;
      case CONVERT: me.wholesale = true; c = m[2 + op.a[4] % 2]; SetModel::convert(c, STYLE); break;
      case CLEAR: me.wholesale = true; c = Cont(A); break;
      case FROM: me.wholesale = true; c = Cont(A); if (D::has_elem && (op.a[3] & 1)) SetModel::add(c, STYLE, e, e + 1); else SetModel::add(c, STYLE, r.lo, r.hi); break;
      case JOIN: me.joined = true; for (char& x : c.cut) x = 0; break;
      case ERASE_IT: {
        Segs g = c.segs(); if (g.empty()) { me.skip = true; break; }
        int i = op.a[4] % (int)g.size(), j = (op.a[3] & 1) ? i + 1 : i + op.a[5] % ((int)g.size() - i + 1);
        for (int k = i; k < j; ++k) { maskr(Range{g[k].lo, g[k].hi}); SetModel::sub(c, g[k].lo, g[k].hi); }
        me.update = true; break;
      }
      case SIDE: {
        int k = 2 + op.t % 2; me.target = k; me.update = me.repeatable = true; maskr(r);
        if (op.a[3] & 1) SetModel::sub(m[k], r.lo, r.hi); else SetModel::add(m[k], style(k), r.lo, r.hi);
        if (op.a[3] % 16 == 14) { m[k] = Cont(A); me.update = me.repeatable = false; me.wholesale = true; }
        break;
      }
      case GAPS: {
        me.wholesale = true; Segs g = m[1 - t].segs(); c = Cont(A);
        for (size_t i = 1; i < g.size(); ++i) SetModel::add(c, STYLE, g[i - 1].hi, g[i].lo);
        break;
      }
      case BIN: {
        me.strong = me.wholesale = true;
        int x = op.a[5] % 2, y = op.a[4] % 4; // y==3: interval
        if (y == 0) y = 1 - x; else if (y < 3) y += 1; else y = -1;
        Cont n = m[x], q = y < 0 ? SetModel::of_range(A, r) : m[y];
        Segs qs = y < 0 ? Segs(Seg{r.lo, r.hi, 1}) : q.segs();
        switch (bin_op(op)) {
          case 0: for (const Seg& g : qs) SetModel::add(n, STYLE, g.lo, g.hi); break;
          case 1: for (const Seg& g : qs) SetModel::sub(n, g.lo, g.hi); break;
          case 2: SetModel::meet(n, STYLE, q); break;
          default: for (const Seg& g : qs) SetModel::flip(n, STYLE, g.lo, g.hi); break;
        }
        // commuted rvalue forms work on the right operand
        if (y >= 0 && y < 2 && (bin_form(op) == 2 || bin_form(op) == 3) && bin_op(op) != 1) me.exact = false;
        c = n; break;
      }
      default: me.skip = true;
    }
  }
  static int bin_op(const Op& op) { return op.a[3] % 5 == 4 ? 0 : op.a[3] % 5; } // 4: '|' instead of '+'
  static int bin_form(const Op& op) { return (op.a[3] / 5) % 5; }

  // ---- held iterators
  struct Holder {
    struct H { int c; typename T::const_iterator it; Seg seg; const void* addr; };
    std::vector<H> hs;
    void take(const Env& e, const std::vector<Obs>& pre, const Op& op, const std::vector<char>&) {
      if (hs.size() > 6) return;
      for (int c = 0; c < 2; ++c) {
        const Segs& g = pre[c].segs; if (g.empty()) continue;
        int i = (op.a[5] + c) % (int)g.size();
        typename T::const_iterator it = e.s[c].begin(); std::advance(it, i);
        hs.push_back(H{c, it, g[i], &*it});
      }
    }
    long check(const Env& e, const std::vector<Obs>& pre, const Meta& m, size_t i) {
      long n = 0; std::vector<H> keep;
      for (const H& h : hs) {
        if (C.bad) break;
        if (drop_held(h.c, h.seg, pre[h.c], m, style(h.c))) continue;
        ++n;
        if (!block_live(h.addr)) { violation("C13.dangling", "after op %zu the segment [%d,%d) of container %d, away from the operand, is gone", i, h.seg.lo, h.seg.hi, h.c); break; }
        Range r; bool ok = &*h.it == h.addr && D::decode(*h.it, r) && r.lo == h.seg.lo && r.hi == h.seg.hi;
        if (!ok) { violation("C13.changed", "after op %zu the iterator to segment [%d,%d) of container %d denotes something else", i, h.seg.lo, h.seg.hi, h.c); break; }
        bool found = false; for (auto it = e.s[h.c].begin(); it != e.s[h.c].end(); ++it) found |= (const void*)&*it == h.addr;
        if (!found) { violation("C13.unreachable", "after op %zu the segment [%d,%d) of container %d is not reached by iteration", i, h.seg.lo, h.seg.hi, h.c); break; }
        keep.push_back(h);
      }
      hs.swap(keep); return n;
    }
    template <class S, class It> void returned(const S& s, It it) {
      bool ok = it == s.end();
      for (auto k = s.begin(); k != s.end() && !ok; ++k) ok = k == it;
      if (!ok) violation("C13.returned", "an update returned an iterator that denotes no segment of the container");
    }
  };

  // ---- the real thing
  template <class S> static typename S::iterator hint_of(S& s, int k) {
    int n = (int)s.iterative_size() + 1; typename S::iterator it = s.begin(); std::advance(it, k % n); return it;
  }
  template <class S> static void side(S& s, const Op& op, const itv& i, Act& act) {
    if (op.a[3] % 16 == 14) { act.go([&] { s.clear(); }); return; }
    if (op.a[3] & 1) act.go([&] { s -= i; }); else act.go([&] { s += i; });
  }
  template <class F> static void with(Env& e, int c, F&& f) { if (c < 2) f(e.s[c]); else if (c == 2) f(e.u); else f(e.v); }

  template <class X, class Y> static void bin(T& dst, X& x, Y& y, const Op& op, Act& act) {
    const X& cx = x; const Y& cy = y; int f = bin_form(op), v = op.a[3] % 5;
    act.go([&] {
      if constexpr (std::is_same<X, Y>::value) {
        if (f == 1) { X tx(cx); apply2(dst, std::move(tx), cy, v); return; }
        if (f == 2) { Y ty(cy); apply2(dst, cx, std::move(ty), v); return; }
        if (f == 3) { X tx(cx); Y ty(cy); apply2(dst, std::move(tx), std::move(ty), v); return; }
      } else if (f == 1) { X tx(cx); apply2(dst, std::move(tx), cy, v); return; }
      apply2(dst, cx, cy, v);
    });
  }
  template <class X, class Y> static void apply2(T& dst, X&& x, Y&& y, int v) {
    switch (v) {
      case 0: dst = std::forward<X>(x) + std::forward<Y>(y); break;
      case 1: if constexpr (std::is_same<typename std::decay<X>::type, itv>::value) {} else if constexpr (std::is_rvalue_reference<Y&&>::value) dst = std::forward<X>(x) - y; else dst = std::forward<X>(x) - std::forward<Y>(y); break;
      case 2: dst = std::forward<X>(x) & std::forward<Y>(y); break;
      case 3: dst = std::forward<X>(x) ^ std::forward<Y>(y); break;
      default: dst = std::forward<X>(x) | std::forward<Y>(y); break;
    }
  }
  // interval operand on either side
  static void bin_itv(T& dst, const T& x, const itv& i, const Op& op, Act& act) {
    int f = bin_form(op), v = op.a[3] % 5;
    act.go([&] {
      if (f == 1) { T tx(x); apply2(dst, std::move(tx), i, v); }
      else if (f == 2 && v != 1) { apply2(dst, i, x, v); }
      else if (f == 3 && v != 1) { T tx(x); apply2(dst, i, std::move(tx), v); }
      else apply2(dst, x, i, v);
    });
  }

  template <class Ev> static void apply(Ev& e, const Op& op, int grid, Act& act, Holder* h) {
    int t = op.t % 2, w = op.a[3];
    int a = op.a[0], b = op.a[1], bn = op.a[2]; D::resolve(a, b, bn, grid);
    const dom x = D::has_elem ? D::elem(D::elem_atom(op.a[0], grid)) : dom();
    T& s = e.s[t];
    const itv made = D::make(a, b, bn);
    const itv& i = own_segment<D>(s, made, op.a[5] % 4 == 1, [](auto k) -> const itv& { return *k; });
    int osel = op.a[4] % 3;
    auto operand = [&](auto f) { if (osel == 0) f(static_cast<const T&>(e.s[1 - t])); else if (osel == 1) f(static_cast<const U&>(e.u)); else f(static_cast<const V&>(e.v)); };
    switch (op.code) {
      case ADD_I: {
        typename T::iterator ret; bool has = false;
        auto hint = hint_of(s, op.a[4]);
        act.go([&] {
          switch (w % 10) {
            case 0: s.add(i); break; case 1: icl::add(s, i); break; case 2: s += i; break; case 3: s |= i; break;
            case 4: s.insert(i); break; case 5: icl::insert(s, i); break;
            case 6: ret = s.add(hint, i); has = true; break; case 7: ret = s.insert(hint, i); has = true; break;
            case 8: ret = icl::add(s, hint, i); has = true; break; default: ret = icl::insert(s, hint, i); has = true; break;
          }
        });
        if (h && has && !act.threw) h->returned(s, ret);
        break;
      }
      case SUB_I: act.go([&] { switch (w % 5) { case 0: s.subtract(i); break; case 1: icl::subtract(s, i); break; case 2: s -= i; break; case 3: s.erase(i); break; default: icl::erase(s, i); } }); break;
      case FLIP_I: act.go([&] { switch (w % 3) { case 0: s.flip(i); break; case 1: icl::flip(s, i); break; default: s ^= i; } }); break;
      case AND_I: act.go([&] { if (w % 3) s &= i; else { T sec; icl::add_intersection(sec, s, i); s.swap(sec); } }); break;
      case ADD_E: if constexpr (D::has_elem) act.go([&] { switch (w % 6) { case 0: s.add(x); break; case 1: icl::add(s, x); break; case 2: s += x; break; case 3: s |= x; break; case 4: s.insert(x); break; default: icl::insert(s, x); } }); break;
      case SUB_E: if constexpr (D::has_elem) act.go([&] { switch (w % 5) { case 0: s.subtract(x); break; case 1: icl::subtract(s, x); break; case 2: s -= x; break; case 3: s.erase(x); break; default: icl::erase(s, x); } }); break;
      case FLIP_E: if constexpr (D::has_elem) act.go([&] { switch (w % 3) { case 0: s.flip(x); break; case 1: icl::flip(s, x); break; default: s ^= x; } }); break;
      case AND_E: if constexpr (D::has_elem) act.go([&] { if (w % 3) s &= x; else { T sec; icl::add_intersection(sec, s, x); s.swap(sec); } }); break;
      case ADD_S: operand([&](const auto& o) { act.go([&] { switch (w % 6) { case 0: case 3: s += o; break; case 1: s |= o; break; case 4: std::copy(o.begin(), o.end(), icl::adder(s, w % 4 ? s.end() : s.begin())); break; case 5: std::copy(o.begin(), o.end(), icl::inserter(s, w % 4 ? s.end() : s.begin())); break; default: icl::insert(s, o); } }); }); break;
      case SUB_S: operand([&](const auto& o) { act.go([&] { if (w % 2) s -= o; else icl::erase(s, o); }); }); break;
      case FLIP_S: operand([&](const auto& o) { act.go([&] { if (w % 2) s ^= o; else icl::flip(s, o); }); }); break;
      case AND_S: operand([&](const auto& o) { act.go([&] { if (w % 3) s &= o; else { T sec; icl::add_intersection(sec, s, o); s.swap(sec); } }); }); break;
      case COPY: act.go([&] { if (w % 2) s = static_cast<const T&>(e.s[1 - t]); else { T tmp(static_cast<const T&>(e.s[1 - t])); s.swap(tmp); } }); break;
      case MOVE: act.go([&] { if (w % 2) s = std::move(e.s[1 - t]); else { T tmp(std::move(e.s[1 - t])); s = std::move(tmp); } });
        if (!is("C12")) e.s[1 - t].clear();
        break;
      case SWAP: act.go([&] { if (w % 6 == 5) s.swap(s); else if (w % 6 == 4) icl::swap(s, e.s[1 - t]); else s.swap(e.s[1 - t]); }); break;
      case CONVERT:
        if (op.a[4] % 2) act.go([&] { if (w % 2) s = e.v; else { T tmp(e.v); s.swap(tmp); } });
        else act.go([&] { if (w % 2) s = e.u; else { T tmp(e.u); s.swap(tmp); } });
        break;
      case CLEAR: act.go([&] { switch (w % 3) { case 0: s.clear(); break; case 1: icl::clear(s); break; default: s = T(); } }); break;
      case FROM:
        if constexpr (D::has_elem) { if (w & 1) { act.go([&] { T tmp(x); s.swap(tmp); }); break; } }
        act.go([&] { T tmp(i); s.swap(tmp); });
        break;
      case JOIN: act.go([&] { icl::join(s); }); break;
      case ERASE_IT: {
        int n = (int)s.iterative_size(); if (!n) break;
        int k = op.a[4] % n; typename T::iterator it = s.begin(); std::advance(it, k);
        if (w & 1) act.go([&] { s.erase(it); });
        else { typename T::iterator e2 = it; std::advance(e2, op.a[5] % (n - k + 1)); act.go([&] { s.erase(it, e2); }); }
        break;
      }
      case SIDE: if (op.t % 2 == 0) side(e.u, op, i, act); else side(e.v, op, i, act); break;
      case GAPS: act.go([&] { icl::between(s, static_cast<const T&>(e.s[1 - t])); }); break;
      case BIN: {
        int xi = op.a[5] % 2, y = op.a[4] % 4;
        if (y == 0) bin(s, e.s[xi], e.s[1 - xi], op, act);
        else if (y == 1) bin_cross(s, e.s[xi], e.u, op, act);
        else if (y == 2) bin_cross(s, e.s[xi], e.v, op, act);
        else bin_itv(s, e.s[xi], i, op, act);
        break;
      }
    }
  }
  template <class X, class Y> static void bin_cross(T& dst, X& x, Y& y, const Op& op, Act& act) {
    const X& cx = x; const Y& cy = y; int v = op.a[3] % 5;
    act.go([&] {
      // mixed styles: in-place operators on a copy
      if (v == 1 && bin_form(op) == 1) { T r(cx - cy); dst = std::move(r); return; }
      if (v == 2 && bin_form(op) == 1) { T r(cx & cy); dst = std::move(r); return; }
      T tx(cx);
      switch (v) { case 0: tx += cy; break; case 1: tx -= cy; break; case 2: tx &= cy; break; case 3: tx ^= cy; break; default: tx |= cy; }
      dst = std::move(tx);
    });
  }

  static void queries(const Env& e, const std::vector<Obs>& o, const Op& op, int grid) {
    int c = op.a[5] % 4;
    if (c < 2) set_queries<D>(e.s[c], o[c], op, grid);
    else if (c == 2) set_queries<D>(e.u, o[c], op, grid);
    else set_queries<D>(e.v, o[c], op, grid);
    pair_queries<D>(e.s[0], o[0], e.s[1], o[1]);
    if (op.a[5] % 3 == 0) pair_queries<D>(e.s[1], o[1], e.u, o[2]); else if (op.a[5] % 3 == 1) pair_queries<D>(e.s[0], o[0], e.v, o[3]);
    else pair_queries<D>(e.u, o[2], e.s[0], o[0]);
  }
  static void prints(const Env& e, const Op& op, int grid) { if constexpr (D::printable) {
    Rng r = print_rng(op, 5);
    switch (r.below(6)) { case 0: case 1: print_set<D>(e.s[0], r); break; case 2: print_set<D>(e.s[1], r); break; case 3: print_set<D>(e.u, r); break; case 4: print_set<D>(e.v, r); break; default: print_interval<D>(r, grid); }
  } }
  // may an iterator to seg of container c be affected by the operation?
  static bool drop_held(int c, const Seg& seg, const Obs& pre, const Meta& m, int st) {
    if (c != m.target && c != m.other) return false;
    if (!m.update && !m.joined) return true;
    for (int k = seg.lo - 1; k <= seg.hi; ++k) if (k >= 0 && k < A && m.mask[k]) return true;
    if (st == ST_JOIN || m.joined) for (const Seg& g : pre.segs) if (g.hi == seg.lo || g.lo == seg.hi) return true;
    return false;
  }
};

template <class D, int STYLE> struct SetWorld : World {
  typedef SetSys<D, STYLE> Sys; typedef Engine<Sys> E;
  SetWorld() { name = std::string(Sys::Ts::name()) + "/" + D::name(); }
  bool serves(const std::string& p) const override {
    static const std::set<std::string> ps = {"C01", "C03", "C04", "C05", "C06", "C07", "C12", "C13", "C14", "C10"};
    if (p == "C10" && !D::printable) return false;
    if (p == "C14" && !D::queryable) return false;
    return ps.count(p) > 0;
  }
  void generate(Rng& r, Plan& p) const override { E::generate(r, p); }
  void execute(const Plan& p) const override { E::execute(p); }
};

} // namespace sim
