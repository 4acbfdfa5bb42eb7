// Interval map worlds.
#pragma once
#include "engine.hpp"
#include "codomains.hpp"
#include "queries.hpp"

namespace sim {

template <class D, int STYLE, class K, class Tr> struct MapTypes;
template <class D, class K, class Tr> struct MapTypes<D, ST_JOIN, K, Tr> {
  typedef typename D::template maps<typename K::T, Tr, K::template Comb, icl::inter_section> M;
  typedef typename M::JMap T; typedef typename M::LMap U; typedef typename D::JSet S; enum { SU = ST_SPLIT, SS = ST_JOIN };
  static const char* name() { return "interval_map"; } };
template <class D, class K, class Tr> struct MapTypes<D, ST_SPLIT, K, Tr> {
  typedef typename D::template maps<typename K::T, Tr, K::template Comb, icl::inter_section> M;
  typedef typename M::LMap T; typedef typename M::JMap U; typedef typename D::LSet S; enum { SU = ST_JOIN, SS = ST_SPLIT };
  static const char* name() { return "split_interval_map"; } };

// ---- reference model over atoms
template <class K, class Tr> struct MapModel {
  static const bool absorber = Kind<Tr>::absorbs_identities, total = Kind<Tr>::is_total, invertible = total && K::has_inverse;
  static void norm(Cont& c, int st) {
    clear_cuts_where_absent(c);
    for (int i = 1; i < c.size(); ++i) if (c.has(i - 1) && c.has(i)) {
      if (c.val[i - 1] != c.val[i]) c.cut[i] = 1; else if (st == ST_JOIN) c.cut[i] = 0; }
  }
  static void combine(Cont& c, int st, int lo, int hi, long v, bool inv) {
    if (lo >= hi || (absorber && v == 0)) return;
    Few<long> was = c.val;
    for (int i = lo; i < hi; ++i) {
      if (!c.has(i)) { c.val[i] = inv ? K::inv_version(v) : v; continue; }
      long n = inv ? K::inv(c.val[i], v) : K::comb(c.val[i], v);
      c.val[i] = absorber && n == 0 ? NONE : n;
    }
    clear_cuts_where_absent(c);
    cuts_at_transitions(c, was, lo, hi); set_cut(c, lo); set_cut(c, hi);
    norm(c, st);
  }
  static void add(Cont& c, int st, int lo, int hi, long v) { combine(c, st, lo, hi, v, false); }
  static void sub(Cont& c, int st, int lo, int hi, long v) {
    if (invertible) { combine(c, st, lo, hi, v, true); return; }
    if (lo >= hi || (absorber && v == 0)) return;
    for (int i = lo; i < hi; ++i) if (c.has(i)) { long n = K::inv(c.val[i], v); c.val[i] = absorber && n == 0 ? NONE : n; }
    clear_cuts_where_absent(c); set_cut(c, lo); set_cut(c, hi); norm(c, st);
  }
  static void insert(Cont& c, int st, int lo, int hi, long v) {
    if (lo >= hi || (absorber && v == 0)) return;
    Few<long> was = c.val;
    for (int i = lo; i < hi; ++i) if (!c.has(i)) c.val[i] = v;
    cuts_at_transitions(c, was, lo, hi); norm(c, st);
  }
  static void erase(Cont& c, int st, int lo, int hi) { for (int i = lo; i < hi; ++i) c.val[i] = NONE; norm(c, st); }
  static void erase(Cont& c, int st, int lo, int hi, long v) {
    if (absorber && v == 0) return;
    for (int i = lo; i < hi; ++i) if (c.val[i] == v) c.val[i] = NONE;
    norm(c, st);
  }
  static void set(Cont& c, int st, int lo, int hi, long v) { erase(c, st, lo, hi); insert(c, st, lo, hi, v); }
  static void flip(Cont& c, int st, int lo, int hi, long v) { // partial
    if (lo >= hi) return;
    Few<long> was = c.val;
    for (int i = lo; i < hi; ++i) {
      if (!c.has(i)) { c.val[i] = absorber && v == 0 ? NONE : v; continue; }
      long n = K::is_set ? (v ^ c.val[i]) : 0;
      c.val[i] = absorber && n == 0 ? NONE : n;
    }
    clear_cuts_where_absent(c); cuts_at_transitions(c, was, lo, hi); set_cut(c, lo); set_cut(c, hi); norm(c, st);
  }
  static void total_flip(Cont& c, int st) { // after the operand has been added
    if (absorber) { c = Cont(c.size()); return; }
    for (long& x : c.val) if (x != NONE) x = 0;
    if (st == ST_JOIN) norm(c, st);
  }
  static void meet(Cont& c, int st, const Cont& o, bool keys) {
    if (total && !keys) { for (const Seg& g : o.segs()) add(c, st, g.lo, g.hi, g.v); return; }
    for (int i = 0; i < c.size(); ++i) {
      if (!c.has(i)) continue;
      if (!o.has(i)) { c.val[i] = NONE; continue; }
      if (keys) continue;
      long n = K::is_set ? (c.val[i] & o.val[i]) : K::comb(c.val[i], o.val[i]);
      c.val[i] = absorber && n == 0 ? NONE : n;
    }
    for (int i = 0; i <= c.size(); ++i) if (o.cut[i]) c.cut[i] = 1;
    norm(c, st);
  }
  static Cont of_range(int A, Range r, long v) { Cont c(A); for (int i = r.lo; i < r.hi; ++i) c.val[i] = v; return c; }
};

// a predicate on segments; may fail
template <class K> struct SegPred {
  long m;
  template <class P> bool operator()(const P& p) const {
    ++C.n_pred; if (fault_point(F_PRED)) throw SimFault();
    return test(K::un(p.second));
  }
  bool test(long v) const { return ((v % 3) + 3) % 3 == m; }
};

template <class D, int STYLE, class K, class Tr> struct MapSys {
  typedef MapTypes<D, STYLE, K, Tr> Ts; typedef MapModel<K, Tr> MM;
  typedef typename Ts::T T; typedef typename Ts::U U; typedef typename Ts::S Set;
  typedef typename D::itv itv; typedef typename D::dom dom; typedef typename K::T Val;
  typedef typename T::segment_type Segment; typedef typename T::element_type Element;
  static const int NC = 4, A = D::A;
  static const bool absorber = MM::absorber, total = MM::total;
  struct Env { T s[2]; U u; Set k; };
  struct View { Two<T> s; U& u; Set& k; };
  static View view(T& mine, Env& e, int k) { return View{{{&mine, &e.s[k]}}, e.u, e.k}; }
  static int style(int c) { return c < 2 ? STYLE : c == 2 ? (int)Ts::SU : (int)Ts::SS; }
  static bool content_prop(const char* p) { return !strcmp(p, "C02"); }
  static void warm_up() { icl::identity_element<Val>::value(); icl::identity_element<typename T::codomain_type>::value(); }

  enum { ADD = 1, SUB, INS, SET, ERASE_SEG, ERASE_ITV, FLIP, AND_SEG, AND_KEY, ADD_M, SUB_M, INS_M, ERASE_M, FLIP_M, AND_M, SUB_KEYS, AND_KEYS,
         COPY, MOVE, SWAP, CONVERT, CLEAR, ERASE_IT, FROM, JOIN, SIDE, KEYS, BIN, ERASE_IF, ADD_IF, ASSIGN_IF, ABSORB, DOMAIN_ };
  static std::vector<OpKind> kinds() {
    std::vector<OpKind> k = {
      {ADD, "add", 24, "u"}, {SUB, "subtract", 12, "u"}, {INS, "insert", 8, "u"}, {SET, "set", 6, "u"}, {ERASE_SEG, "erase segment", 5, "u"},
      {ERASE_ITV, "erase keys", 9, "u"}, {FLIP, "flip", 4, "u"}, {AND_SEG, "intersect segment", 2, "s"}, {AND_KEY, "intersect interval", 2, "s"},
      {ADD_M, "add map", 5, "u"}, {SUB_M, "subtract map", 4, "u"}, {INS_M, "insert map", 2, "u"}, {ERASE_M, "erase map", 2, "u"},
      {FLIP_M, "flip map", 3, "u"}, {AND_M, "intersect map", 3, "s"}, {SUB_KEYS, "subtract keys", 2, "u"}, {AND_KEYS, "intersect keys", 2, "s"},
      {COPY, "copy", 2, "s"}, {MOVE, "move", 2, "t"}, {SWAP, "swap", 2, "t"}, {CONVERT, "convert", 2, "m"}, {CLEAR, "clear", 1, "m"},
      {ERASE_IT, "erase by iterator", 3, "m"}, {FROM, "construct", 1, "m"}, {JOIN, "join", 1, "m"}, {SIDE, "update of the companion", 8, "u"},
      {KEYS, "update of the key set", 4, "m"}, {BIN, "binary operator", 5, "s"}, {ERASE_IF, "erase_if", 1, "u"}, {ADD_IF, "add_if", 1, "u"}, {ASSIGN_IF, "assign_if", 1, "u"}, {DOMAIN_, "domain", 1, "m"}};
    if (!absorber) k.push_back({ABSORB, "absorb_identities", 1, "m"});
    return k;
  }
  // decoded parameters of an operation
  struct Par { int t, a, b, bn, e, o; Range r; long v; bool elem; };
  static Par par(const Op& op, int grid) {
    Par p; p.t = op.t % 2; p.a = op.a[0]; p.b = op.a[1]; p.bn = op.a[2]; D::resolve(p.a, p.b, p.bn, grid);
    p.r = D::range(p.a, p.b, p.bn); p.e = D::has_elem ? D::elem_atom(op.a[0], grid) : 0;
    p.v = K::value(op.a[4]); p.elem = D::has_elem && (op.a[3] / 8) % 4 == 3;
    if (p.elem) p.r = Range{p.e, p.e + 1};
    // a neutral value means different things to these operations of an absorbing map; it is not used there
    if (absorber && p.v == 0 && (op.code == FLIP || op.code == AND_SEG || op.code == BIN)) p.v = K::value(1);
    p.o = op.a[5] % 2 ? 2 : 1 - p.t;
    return p;
  }
  static std::string describe(const Op& op, int grid) {
    for (const OpKind& k : kinds()) if (k.code == op.code) {
      Par p = par(op, grid); char buf[200];
      snprintf(buf, sizeof buf, "%s (container %d, atoms [%d,%d), value %ld, operand container %d, variant %d)%s%s", k.name, op.code == SIDE ? 2 : op.code == KEYS ? 3 : p.t, p.r.lo, p.r.hi, p.v, p.o, op.a[3], op.fk ? " with fault " : "", op.fk ? fault_name[op.fk] : "");
      return buf;
    }
    return "?";
  }
  static Obs observe(const Env& e, int c) {
    auto go = [](const auto& s) { return observe_segments<D>(s, [](auto it) -> const itv& { return (*it).first; }, [](auto it) { return K::un((*it).second); }); };
    if (c == 3) return observe_segments<D>(e.k, [](auto it) -> const itv& { return *it; }, [](auto) { return 1L; });
    return c < 2 ? go(e.s[c]) : go(e.u);
  }
  static void join(Env& e, int c) { if (c < 2) icl::join(e.s[c]); else if (c == 2) icl::join(e.u); else icl::join(e.k); }
  static bool swaps(const Op& op) { return op.code == SWAP; }
  static bool half_done(const Cont& c) { if (!K::atomic) for (long x : c.val) if ((absorber && x == 0) || x >= 1024) return true; return false; }
  static bool dirty_after(const Op& op, const std::vector<char>& d) {
    int t = op.t % 2;
    if (op.code == SWAP) return d[t]; // with itself
    if (op.code == COPY || op.code == MOVE) return d[1 - t];
    if (op.code == BIN || op.code == FLIP || op.code == FLIP_M) return d[0] || d[1];
    if (op.code == AND_SEG || op.code == AND_M) return false;
    return false;
  }

  static void predict(const Env&, std::vector<Cont>& m, const Op& op, int grid, Meta& me) {
    Par p = par(op, grid); int t = p.t; me.target = t; me.mask.assign(A, 0);
    auto maskr = [&](Range x) { for (int i = x.lo; i < x.hi; ++i) me.mask[i] = 1; };
    auto maskc = [&](const Cont& c) { for (int i = 0; i < A; ++i) if (c.has(i)) me.mask[i] = 1; };
    Cont& c = m[t]; Range r = p.r; const Cont& o = m[p.o];
    switch (op.code) {
      case ADD: me.update = true; maskr(r); MM::add(c, STYLE, r.lo, r.hi, p.v); break;
      case SUB: me.update = true; maskr(r); MM::sub(c, STYLE, r.lo, r.hi, p.v); break;
      case INS: me.update = me.repeatable = true; maskr(r); MM::insert(c, STYLE, r.lo, r.hi, p.v); break;
      case SET: me.update = me.repeatable = me.may_drop = true; maskr(r); MM::set(c, STYLE, r.lo, r.hi, p.v); break;
      case ERASE_SEG: me.update = me.repeatable = true; maskr(r); MM::erase(c, STYLE, r.lo, r.hi, p.v); break;
      case ERASE_ITV: me.update = me.repeatable = true; maskr(r); MM::erase(c, STYLE, r.lo, r.hi); break;
      case FLIP:
        if (total) { me.wholesale = true; if (!absorber) MM::add(c, STYLE, r.lo, r.hi, p.v); MM::total_flip(c, STYLE); }
        else { me.update = me.may_drop = true; maskr(r); MM::flip(c, STYLE, r.lo, r.hi, p.v); }
        break;
      case FLIP_M:
        if (total) { me.wholesale = true; if (!absorber) for (const Seg& g : o.segs()) MM::add(c, STYLE, g.lo, g.hi, g.v); MM::total_flip(c, STYLE); }
        else { me.update = me.may_drop = true; maskc(o); for (const Seg& g : o.segs()) MM::flip(c, STYLE, g.lo, g.hi, g.v); }
        break;
      case AND_SEG: me.strong = me.wholesale = true; MM::meet(c, STYLE, MM::of_range(A, r, p.v), false); break;
      case AND_KEY: me.strong = me.wholesale = true; MM::meet(c, STYLE, MM::of_range(A, r, 1), true); break;
      case AND_M: me.strong = me.wholesale = true; MM::meet(c, STYLE, o, false); break;
      case AND_KEYS: me.strong = me.wholesale = true; MM::meet(c, STYLE, m[3], true); break;
      case ADD_M: me.update = true; maskc(o); for (const Seg& g : o.segs()) MM::add(c, STYLE, g.lo, g.hi, g.v); break;
      case SUB_M: me.update = true; maskc(o); for (const Seg& g : o.segs()) MM::sub(c, STYLE, g.lo, g.hi, g.v); break;
      case INS_M: me.update = me.repeatable = true; maskc(o); for (const Seg& g : o.segs()) MM::insert(c, STYLE, g.lo, g.hi, g.v); break;
      case ERASE_M: me.update = me.repeatable = true; maskc(o); for (const Seg& g : o.segs()) MM::erase(c, STYLE, g.lo, g.hi, g.v); break;
      case SUB_KEYS: me.update = me.repeatable = true; maskc(m[3]); for (const Seg& g : m[3].segs()) MM::erase(c, STYLE, g.lo, g.hi); break;
      case COPY: me.strong = me.wholesale = true; c = m[1 - t]; break;
      case MOVE: me.transfer = me.wholesale = true; me.other = 1 - t; c = m[1 - t];
        if (is("C12")) me.exact = false; else m[1 - t] = Cont(A);
        break;
      case SWAP: me.transfer = me.wholesale = true; me.other = 1 - t;
        if (op.a[3] % 6 == 5) me.other = -1; else std::swap(m[t], m[1 - t]);
        break;
      case CONVERT: me.wholesale = true; c = m[2]; MM::norm(c, STYLE); break;
      case CLEAR: me.wholesale = true; c = Cont(A); break;
      case FROM: me.wholesale = true; c = Cont(A); MM::add(c, STYLE, r.lo, r.hi, p.v); break;
      case JOIN: me.joined = true; MM::norm(c, ST_JOIN); break;
      case ERASE_IT: {
        Segs g = c.segs(); if (g.empty()) { me.skip = true; break; }
        int i = op.a[4] % (int)g.size(), j = (op.a[3] & 1) ? i + 1 : i + op.a[5] % ((int)g.size() - i + 1);
        for (int k = i; k < j; ++k) { maskr(Range{g[k].lo, g[k].hi}); MM::erase(c, STYLE, g[k].lo, g[k].hi); }
        me.update = true; break;
      }
      case SIDE: {
        Cont& u = m[2]; int st = style(2); me.target = 2; me.update = true; maskr(r);
        switch (op.a[3] % 8) {
          case 0: case 1: case 2: case 3: MM::add(u, st, r.lo, r.hi, p.v); break;
          case 4: MM::insert(u, st, r.lo, r.hi, p.v); me.repeatable = true; break;
          case 5: MM::erase(u, st, r.lo, r.hi); me.repeatable = true; break;
          case 6: MM::sub(u, st, r.lo, r.hi, p.v); break;
          default: MM::set(u, st, r.lo, r.hi, p.v); me.repeatable = me.may_drop = true; break;
        }
        break;
      }
      case KEYS: { // a plain interval set; its own behaviour is judged by the set worlds
        Cont& k = m[3]; me.target = 3; me.resync = true; me.wholesale = true; (void)k; break;
      }
      case DOMAIN_: { me.target = 3; me.wholesale = true; Cont n(A); const Cont& x = m[t];
        for (const Seg& g : x.segs()) { for (int i = g.lo; i < g.hi; ++i) n.val[i] = 1; n.cut[g.lo] = 1; n.cut[g.hi] = 1; }
        clear_cuts_where_absent(n); if (style(3) == ST_JOIN) for (char& z : n.cut) z = 0;
        m[3] = n; break; }
      case ERASE_IF: { me.update = true; SegPred<K> q{op.a[4] % 3}; maskc(c); for (const Seg& g : Segs(c.segs())) if (q.test(g.v)) MM::erase(c, STYLE, g.lo, g.hi);
        // segments are removed, the remaining ones are not joined (they do not touch each other any closer than before)
        break; }
      case ADD_IF: { me.update = true; SegPred<K> q{op.a[4] % 3}; for (const Seg& g : m[1 - t].segs()) if (q.test(g.v)) { maskr(Range{g.lo, g.hi}); MM::add(c, STYLE, g.lo, g.hi, g.v); } break; }
      case ASSIGN_IF: { me.update = me.may_drop = true; SegPred<K> q{op.a[4] % 3}; maskc(c); c = Cont(A); for (const Seg& g : m[1 - t].segs()) if (q.test(g.v)) { maskr(Range{g.lo, g.hi}); MM::add(c, STYLE, g.lo, g.hi, g.v); } break; }
      case ABSORB: { me.update = true; maskc(c); for (const Seg& g : Segs(c.segs())) if (g.v == 0) MM::erase(c, STYLE, g.lo, g.hi); break; }
      case BIN: {
        me.strong = me.wholesale = true;
        int x = op.a[5] % 2, y = bin_arg(op), f = bin_form(op), w = bin_op(op);
        Cont n = m[x];
        Cont q = y == 0 ? m[1 - x] : y == 1 ? m[2] : y == 2 ? m[3] : MM::of_range(A, r, p.v);
        bool keys = y == 2 || y == 4;
        Segs qs = y >= 3 ? (r.lo < r.hi ? Segs(Seg{r.lo, r.hi, p.v}) : Segs()) : q.segs();
        if (keys) w = w == 2 ? 2 : 1;
        switch (w) {
          case 0: for (const Seg& g : qs) MM::add(n, STYLE, g.lo, g.hi, g.v); break;
          case 1: for (const Seg& g : qs) { if (keys) MM::erase(n, STYLE, g.lo, g.hi); else MM::sub(n, STYLE, g.lo, g.hi, g.v); } break;
          case 2: MM::meet(n, STYLE, q, keys); break;
          default:
            if (total) { if (!absorber) for (const Seg& g : qs) MM::add(n, STYLE, g.lo, g.hi, g.v); MM::total_flip(n, STYLE); }
            else for (const Seg& g : qs) MM::flip(n, STYLE, g.lo, g.hi, g.v);
        }
        if (y == 0 && (f == 2 || f == 3) && w != 1) me.exact = false; // may work on the right operand
        c = n; break;
      }
      default: me.skip = true;
    }
  }
  static int bin_op(const Op& op) { return op.a[3] % 5 == 4 ? 0 : op.a[3] % 5; }
  static int bin_form(const Op& op) { // 2 and 3 may combine into the right operand, so may an intersection of different styles
    int f = (op.a[3] / 5) % 5; if (K::commutes) return f;
    return bin_arg(op) == 0 && (f == 2 || f == 3) ? f - 2 : bin_arg(op) == 1 && f == 1 && bin_op(op) == 2 ? 0 : f; }
  static int bin_arg(const Op& op) { return op.a[2] % 5 + (op.a[5] / 2 % 3 == 2 && op.a[2] % 5 == 3 ? 1 : 0); } // 0 same type, 1 other style, 2 key set, 3 segment, 4 interval

  struct Holder {
    struct H { int c; typename T::const_iterator it; Seg seg; const void* addr; };
    std::vector<H> hs;
    void take(const Env& e, const std::vector<Obs>& pre, const Op& op, const std::vector<char>&) {
      if (hs.size() > 6) return;
      for (int c = 0; c < 2; ++c) {
        const Segs& g = pre[c].segs; if (g.empty()) continue;
        int i = (op.a[5] + c) % (int)g.size();
        typename T::const_iterator it = e.s[c].begin(); std::advance(it, i);
        hs.push_back(H{c, it, g[i], &*it});
      }
    }
    long check(const Env& e, const std::vector<Obs>& pre, const Meta& m, size_t i) {
      long n = 0; std::vector<H> keep;
      for (const H& h : hs) {
        if (C.bad) break;
        if (drop_held(h.c, h.seg, pre[h.c], m, style(h.c))) continue;
        ++n;
        if (!block_live(h.addr)) { violation("C13.dangling", "after op %zu the segment [%d,%d) of container %d, away from the operand, is gone", i, h.seg.lo, h.seg.hi, h.c); break; }
        Range r; bool ok = &*h.it == h.addr && D::decode((*h.it).first, r) && r.lo == h.seg.lo && r.hi == h.seg.hi && K::un((*h.it).second) == h.seg.v;
        if (!ok) { violation("C13.changed", "after op %zu the iterator to segment [%d,%d) of container %d denotes something else", i, h.seg.lo, h.seg.hi, h.c); break; }
        bool found = false; for (auto it = e.s[h.c].begin(); it != e.s[h.c].end(); ++it) found |= (const void*)&*it == h.addr;
        if (!found) { violation("C13.unreachable", "after op %zu the segment [%d,%d) of container %d is not reached by iteration", i, h.seg.lo, h.seg.hi, h.c); break; }
        keep.push_back(h);
      }
      hs.swap(keep); return n;
    }
    template <class S, class It> void returned(const S& s, It it) {
      bool ok = it == s.end();
      for (auto k = s.begin(); k != s.end() && !ok; ++k) ok = k == it;
      if (!ok) violation("C13.returned", "an update returned an iterator that denotes no segment of the container");
    }
  };

  template <class S> static typename S::iterator hint_of(S& s, int k) {
    int n = (int)s.iterative_size() + 1; typename S::iterator it = s.begin(); std::advance(it, k % n); return it;
  }
  template <class M, class F> static void on_seg(const Par& p, F&& f) { // element or segment operand
    if constexpr (D::has_elem) { if (p.elem) { const typename M::element_type x(D::elem(p.e), K::mk(p.v)); f(x); return; } }
    const typename M::segment_type x(D::make(p.a, p.b, p.bn), K::mk(p.v)); f(x);
  }
  template <class F> static void on_key(const T& s, const Par& p, const Op& op, F&& f) {
    if constexpr (D::has_elem) { if (p.elem) { const dom x = D::elem(p.e); f(x); return; } }
    const itv x = D::make(p.a, p.b, p.bn); f(own_segment<D>(s, x, op.a[5] % 4 == 1, [](auto k) -> const itv& { return (*k).first; }));
  }
  static void store(T& dst, T&& r) { dst = std::move(r); }
  template <class R> static void store(T& dst, const R& r) { T n; n = r; dst = std::move(n); }

  template <class X, class Y> static void apply2(T& dst, X&& x, Y&& y, int v) {
    switch (v) {
      case 0: dst = std::forward<X>(x) + std::forward<Y>(y); break;
      case 1:
        if constexpr (!std::is_same<std::decay_t<X>, T>::value) dst = std::forward<X>(x) + std::forward<Y>(y);
        else if constexpr (std::is_rvalue_reference<Y&&>::value) dst = std::forward<X>(x) - y; else dst = std::forward<X>(x) - std::forward<Y>(y);
        break;
      case 2: dst = std::forward<X>(x) & std::forward<Y>(y); break;
      case 3: dst = std::forward<X>(x) ^ std::forward<Y>(y); break;
      default: dst = std::forward<X>(x) | std::forward<Y>(y); break;
    }
  }

  template <class Ev> static void apply(Ev& e, const Op& op, int grid, Act& act, Holder* h) {
    Par p = par(op, grid); int t = p.t, w = op.a[3] % 8; T& s = e.s[t];
    auto operand = [&](auto f) { if (p.o == 2) f(static_cast<const U&>(e.u)); else f(static_cast<const T&>(e.s[1 - t])); };
    switch (op.code) {
      case ADD: case INS: {
        bool ins = op.code == INS;
        if (!p.elem && w >= 5) { // hinted forms
          const Segment x(D::make(p.a, p.b, p.bn), K::mk(p.v)); typename T::iterator ret; auto hint = hint_of(s, op.a[5]);
          act.go([&] { if (ins) ret = w == 5 ? icl::insert(s, hint, x) : s.insert(hint, x); else ret = w == 5 ? icl::add(s, hint, x) : s.add(hint, x); });
          if (h && !act.threw) h->returned(s, ret);
          break;
        }
        on_seg<T>(p, [&](const auto& x) { act.go([&] {
          if (ins) { if (w % 2) s.insert(x); else icl::insert(s, x); }
          else switch (w % 4) { case 0: s.add(x); break; case 1: s += x; break; case 2: s |= x; break; default: icl::add(s, x); } }); });
        break;
      }
      case SUB: on_seg<T>(p, [&](const auto& x) { act.go([&] { switch (w % 3) { case 0: s.subtract(x); break; case 1: s -= x; break; default: icl::subtract(s, x); } }); }); break;
      case SET: on_seg<T>(p, [&](const auto& x) { act.go([&] { if (w % 2) s.set(x); else icl::set_at(s, x); }); }); break;
      case ERASE_SEG: on_seg<T>(p, [&](const auto& x) { act.go([&] { if (w % 2) s.erase(x); else icl::erase(s, x); }); }); break;
      case ERASE_ITV: on_key(s, p, op, [&](const auto& x) { act.go([&] { switch (w % 4) { case 0: s.erase(x); break; case 1: icl::erase(s, x); break; case 2: s -= x; break; default: icl::subtract(s, x); } }); }); break;
      case FLIP: on_seg<T>(p, [&](const auto& x) { act.go([&] { switch (w % 3) { case 0: s.flip(x); break; case 1: s ^= x; break; default: icl::flip(s, x); } }); }); break;
      case AND_SEG: on_seg<T>(p, [&](const auto& x) { act.go([&] { if (w % 3) s &= x; else { T sec; icl::add_intersection(sec, static_cast<const T&>(s), x); s.swap(sec); } }); }); break;
      case AND_KEY: on_key(s, p, op, [&](const auto& x) { act.go([&] { if (w % 3) s &= x; else { T sec; icl::add_intersection(sec, static_cast<const T&>(s), x); s.swap(sec); } }); }); break;
      case ADD_M: operand([&](const auto& o) { act.go([&] { if (w == 4) std::copy(o.begin(), o.end(), icl::adder(s, s.end())); else if (w == 6) std::copy(o.begin(), o.end(), icl::adder(s, s.begin())); else if (w % 2) s += o; else s |= o; }); }); break;
      case SUB_M: operand([&](const auto& o) { act.go([&] { s -= o; }); }); break;
      case INS_M: operand([&](const auto& o) { act.go([&] { if (w < 2) std::copy(o.begin(), o.end(), icl::inserter(s, w ? s.begin() : s.end())); else icl::insert(s, o); }); }); break;
      case ERASE_M: operand([&](const auto& o) { act.go([&] { icl::erase(s, o); }); }); break;
      case FLIP_M: operand([&](const auto& o) { act.go([&] { if (w % 2) s ^= o; else icl::flip(s, o); }); }); break;
      case AND_M: operand([&](const auto& o) { act.go([&] { if (w % 3) s &= o; else { T sec; icl::add_intersection(sec, static_cast<const T&>(s), o); s.swap(sec); } }); }); break;
      case SUB_KEYS: act.go([&] { if (w % 2) s -= static_cast<const Set&>(e.k); else icl::erase(s, static_cast<const Set&>(e.k)); }); break;
      case AND_KEYS: act.go([&] { s &= static_cast<const Set&>(e.k); }); break;
      case COPY: act.go([&] { if (w % 2) s = static_cast<const T&>(e.s[1 - t]); else { T tmp(static_cast<const T&>(e.s[1 - t])); s.swap(tmp); } }); break;
      case MOVE: act.go([&] { if (w % 2) s = std::move(e.s[1 - t]); else { T tmp(std::move(e.s[1 - t])); s = std::move(tmp); } });
        if (!is("C12")) e.s[1 - t].clear();
        break;
      case SWAP: act.go([&] { if (op.a[3] % 6 == 5) s.swap(s); else if (op.a[3] % 6 == 4) icl::swap(s, e.s[1 - t]); else s.swap(e.s[1 - t]); }); break;
      case CONVERT: act.go([&] { if constexpr (STYLE == ST_JOIN) { if (w % 2) { T tmp(static_cast<const U&>(e.u)); s.swap(tmp); return; } } s = static_cast<const U&>(e.u); }); break;
      case CLEAR: act.go([&] { switch (w % 3) { case 0: s.clear(); break; case 1: icl::clear(s); break; default: s = T(); } }); break;
      case FROM: on_seg<T>(p, [&](const auto& x) { act.go([&] { T tmp(x); s.swap(tmp); }); }); break;
      case JOIN: act.go([&] { icl::join(s); }); break;
      case ERASE_IT: {
        int n = (int)s.iterative_size(); if (!n) break;
        int k = op.a[4] % n; typename T::iterator it = s.begin(); std::advance(it, k);
        if (op.a[3] & 1) act.go([&] { s.erase(it); });
        else { typename T::iterator e2 = it; std::advance(e2, op.a[5] % (n - k + 1)); act.go([&] { s.erase(it, e2); }); }
        break;
      }
      case SIDE: {
        U& u = e.u;
        if (w == 5) { on_key(s, p, op, [&](const auto& x) { act.go([&] { u.erase(x); }); }); break; }
        on_seg<U>(p, [&](const auto& x) { act.go([&] { switch (w) { case 4: u.insert(x); break; case 6: u -= x; break; case 7: u.set(x); break; default: u += x; } }); });
        break;
      }
      case KEYS: on_key(s, p, op, [&](const auto& x) { act.go([&] { if (w == 0) e.k.clear(); else if (w < 5) e.k += x; else e.k -= x; }); }); break;
      case DOMAIN_: act.go([&] { icl::domain(e.k, static_cast<const T&>(s)); }); break;
      case ERASE_IF: act.go([&] { icl::erase_if(SegPred<K>{op.a[4] % 3}, s); }); break;
      case ADD_IF: act.go([&] { icl::add_if(SegPred<K>{op.a[4] % 3}, s, static_cast<const T&>(e.s[1 - t])); }); break;
      case ASSIGN_IF: act.go([&] { icl::assign_if(SegPred<K>{op.a[4] % 3}, s, static_cast<const T&>(e.s[1 - t])); }); break;
      case ABSORB: act.go([&] { icl::absorb_identities(s); }); break;
      case BIN: bin(e, op, p, act); break;
    }
  }
  template <class Ev> static void bin(Ev& e, const Op& op, const Par& p, Act& act) {
    int x = op.a[5] % 2, y = bin_arg(op), f = bin_form(op), v = op.a[3] % 5;
    T& dst = e.s[p.t]; const T& cx = e.s[x];
    if (y == 0) {
      const T& cy = e.s[1 - x];
      act.go([&] {
        if (f == 1) { T tx(cx); apply2(dst, std::move(tx), cy, v); }
        else if (f == 2) { T ty(cy); apply2(dst, cx, std::move(ty), v); }
        else if (f == 3) { T tx(cx); T ty(cy); apply2(dst, std::move(tx), std::move(ty), v); }
        else apply2(dst, cx, cy, v);
      });
    } else if (y == 1) {
      const U& cy = e.u;
      act.go([&] {
        if (f == 1 && v == 1) { T r(cx - cy); dst = std::move(r); return; }
        if (f == 1 && v == 2) { store(dst, cx & cy); return; }
        T tx(cx);
        switch (v) { case 0: tx += cy; break; case 1: tx -= cy; break; case 2: tx &= cy; break; case 3: tx ^= cy; break; default: tx |= cy; }
        dst = std::move(tx);
      });
    } else if (y == 2) {
      const Set& cy = e.k;
      act.go([&] {
        if (bin_op(op) == 2) { if (f == 1) { T tx(cx); dst = std::move(tx) & cy; } else if (f == 2) dst = cy & cx; else dst = cx & cy; }
        else { if (f == 1) { T tx(cx); dst = std::move(tx) - cy; } else dst = cx - cy; }
      });
    } else if (y == 3) {
      on_seg<T>(p, [&](const auto& q) { act.go([&] {
        if (f == 1) { T tx(cx); apply2(dst, std::move(tx), q, v); }
        else if (f == 2 && v != 1) apply2(dst, q, cx, v);
        else if (f == 3 && v != 1) { T tx(cx); apply2(dst, q, std::move(tx), v); }
        else apply2(dst, cx, q, v); }); });
    } else {
      on_key(cx, p, op, [&](const auto& q) { act.go([&] {
        if (bin_op(op) == 2) { if (f == 1) { T tx(cx); dst = std::move(tx) & q; } else if (f == 2) dst = q & cx; else if (f == 3) { T tx(cx); dst = q & std::move(tx); } else dst = cx & q; }
        else { if (f == 1) { T tx(cx); dst = std::move(tx) - q; } else dst = cx - q; } }); });
    }
  }

  static void queries(const Env& e, const std::vector<Obs>& o, const Op& op, int grid) {
    int c = op.a[5] % 3;
    if (c < 2) map_queries<D, K, Tr>(e.s[c], o[c], op, grid); else map_queries<D, K, Tr>(e.u, o[c], op, grid);
    if (op.a[5] % 4 == 0) map_pair_queries<D, K, Tr>(e.s[0], o[0], e.s[1], o[1]);
    else if (op.a[5] % 4 == 1) map_pair_queries<D, K, Tr>(e.s[1], o[1], e.u, o[2]);
    else if (op.a[5] % 4 == 2) map_pair_queries<D, K, Tr>(e.u, o[2], e.s[0], o[0]);
    else map_key_queries<D, K, Tr>(e.s[op.t % 2], o[op.t % 2], e.k, o[3]);
  }
  static void prints(const Env& e, const Op& op, int grid) { if constexpr (D::printable) {
    Rng r = print_rng(op, 5);
    switch (r.below(6)) { case 0: case 1: print_map<D>(e.s[0], r); break; case 2: print_map<D>(e.s[1], r); break; case 3: print_map<D>(e.u, r); break; case 4: print_set<D>(e.k, r); break; default: print_interval<D>(r, grid); }
  } }
  static bool drop_held(int c, const Seg& seg, const Obs& pre, const Meta& m, int st) {
    if (c != m.target && c != m.other) return false;
    if (!m.update && !m.joined) return true;
    for (int k = seg.lo - 1; k <= seg.hi; ++k) if (k >= 0 && k < A && m.mask[k]) return true;
    if (st == ST_JOIN || m.joined) for (const Seg& g : pre.segs) if ((g.hi == seg.lo || g.lo == seg.hi) && g.v == seg.v) return true;
    return false;
  }
};

template <class D, int STYLE, class K, class Tr> struct MapWorld : World {
  typedef MapSys<D, STYLE, K, Tr> Sys; typedef Engine<Sys> E;
  MapWorld() { name = std::string(Sys::Ts::name()) + "/" + D::name() + "/" + K::name() + "/" + (Kind<Tr>::is_total ? "total" : "partial") + "_" + (Kind<Tr>::absorbs_identities ? "absorber" : "enricher"); }
  bool serves(const std::string& p) const override {
    static const std::set<std::string> ps = {"C02", "C03", "C04", "C05", "C06", "C07", "C12", "C13", "C14", "C10"};
    if (!K::atomic && (p == "C04" || p == "C06")) return false;
    if (p == "C10" && !D::printable) return false;
    if (p == "C14" && !D::queryable) return false;
    return ps.count(p) > 0;
  }
  void generate(Rng& r, Plan& p) const override { E::generate(r, p); }
  void execute(const Plan& p) const override { E::execute(p); }
};

} // namespace sim
