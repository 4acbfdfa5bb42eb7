// Element map and element set worlds. Every atom with a domain point is a possible key.
#pragma once
#include "maps.hpp"
#include <boost/icl/set.hpp>

namespace sim {

struct NoHolder {
  template <class E, class O, class X> void take(const E&, const O&, const Op&, const X&) {}
  template <class E, class O> long check(const E&, const O&, const Meta&, size_t) { return 0; }
};

// observes an element container: keys in order, each an atom with a point
template <class D, class Ct, class KeyOf, class ValOf> Obs observe_elements(const Ct& c, KeyOf key, ValOf val) {
  Obs o; o.c = Cont(D::A); int last = -1; long n = 0;
  for (auto it = c.begin(); it != c.end(); ++it) {
    if (++n > D::A) { o.bad = true; o.why = "iteration does not end"; break; }
    int i = D::atom_of(key(it));
    if (i < 0) { o.bad = true; o.why = "key never added"; break; }
    if (i <= last) { o.bad = true; o.why = "keys out of order or repeated"; break; }
    last = i; o.c.val[i] = val(it); o.segs.push_back(Seg{i, i + 1, o.c.val[i]});
  }
  if (!o.bad && (long)c.size() != n) { o.bad = true; o.why = "size() differs from the number of keys iterated"; }
  return o;
}
inline std::vector<int> keys_of(const Cont& c) { std::vector<int> k; for (int i = 0; i < c.size(); ++i) if (c.has(i)) k.push_back(i); return k; }

// predicate on keys; may fail
template <class D> struct KeyPred {
  int m;
  bool operator()(const typename D::dom& x) const { ++C.n_pred; if (fault_point(F_PRED)) throw SimFault(); return test(D::atom_of(x)); }
  bool test(int atom) const { return atom / 2 % 3 == m; }
};

template <class D, class K, class Tr> struct EMapSys {
  typedef D Dom;
  typedef typename D::template maps<typename K::T, Tr, K::template Comb, icl::inter_section> M;
  typedef typename M::EMap T; typedef typename T::set_type Set; typedef MapModel<K, Tr> MM;
  typedef typename D::dom dom; typedef typename K::T Val; typedef typename T::element_type Element;
  static const int NC = 3, A = D::A;
  static const bool absorber = MM::absorber, total = MM::total, judge_failed = K::atomic;
  struct Env { T s[2]; Set k; };
  struct View { Two<T> s; Set& k; };
  static View view(T& mine, Env& e, int k) { return View{{{&mine, &e.s[k]}}, e.k}; }
  typedef NoHolder Holder;
  static int style(int) { return ST_ELEM; }
  static bool content_prop(const char* p) { return !strcmp(p, "C11"); }
  static void warm_up() { icl::identity_element<Val>::value(); }
  enum { ADD = 1, SUB, INS, SET, ERASE_PAIR, ERASE_KEY, FLIP, AND_PAIR, AND_KEY, ADD_M, SUB_M, INS_M, ERASE_M, FLIP_M, AND_M, SUB_KEYS, ERASE_KEYS, AND_KEYS,
         COPY, MOVE, SWAP, CLEAR, ERASE_IT, FROM, INS_RANGE, KEYS, BIN, ERASE_IF, ADD_IF, ASSIGN_IF, ABSORB, DOMAIN_, SECT };
  static std::vector<OpKind> kinds() {
    std::vector<OpKind> k = {
      {ADD, "add", 26, "u"}, {SUB, "subtract", 12, "u"}, {INS, "insert", 9, "u"}, {SET, "set", 5, "u"}, {ERASE_PAIR, "erase pair", 5, "u"}, {ERASE_KEY, "erase key", 8, "u"},
      {FLIP, "flip", 5, "u"}, {AND_PAIR, "intersect pair", 2, "s"}, {AND_KEY, "intersect key", 1, "s"}, {ADD_M, "add map", 5, "u"}, {SUB_M, "subtract map", 4, "u"},
      {INS_M, "insert map", 3, "u"}, {ERASE_M, "erase map", 3, "u"}, {FLIP_M, "flip map", 3, "u"}, {AND_M, "intersect map", 4, "s"}, {SUB_KEYS, "subtract keys", 3, "u"},
      {ERASE_KEYS, "erase keys", 2, "u"}, {AND_KEYS, "intersect keys", 2, "s"}, {COPY, "copy", 2, "s"}, {MOVE, "move", 2, "t"}, {SWAP, "swap", 2, "t"}, {CLEAR, "clear", 1, "m"},
      {ERASE_IT, "erase by iterator", 3, "m"}, {FROM, "construct", 2, "m"}, {INS_RANGE, "insert range", 3, "u"}, {KEYS, "update of the key set", 8, "m"}, {BIN, "binary operator", 6, "s"},
      {ERASE_IF, "erase_if", 2, "u"}, {ADD_IF, "add_if", 2, "u"}, {ASSIGN_IF, "assign_if", 1, "u"}, {DOMAIN_, "domain", 1, "m"}, {SECT, "add_intersection", 2, "u"}};
    if (!absorber) k.push_back({ABSORB, "absorb_identities", 1, "u"});
    return k;
  }
  struct Par { int t, e, o; long v; };
  static Par par(const Op& op, int grid) {
    Par p; p.t = op.t % 2; p.e = D::elem_atom(op.a[0], grid); p.v = K::value(op.a[4]); p.o = 1 - p.t;
    if (absorber && p.v == 0 && (op.code == FLIP || op.code == SUB || op.code == AND_PAIR || op.code == BIN || op.code == SECT)) p.v = K::value(1);
    return p;
  }
  static std::string describe(const Op& op, int grid) {
    for (const OpKind& k : kinds()) if (k.code == op.code) {
      Par p = par(op, grid); char buf[200];
      snprintf(buf, sizeof buf, "%s (container %d, key atom %d, value %ld, variant %d)%s%s", k.name, op.code == KEYS ? 2 : p.t, p.e, p.v, op.a[3], op.fk ? " with fault " : "", op.fk ? fault_name[op.fk] : "");
      return buf;
    }
    return "?";
  }
  static Obs observe(const Env& e, int c) {
    if (c == 2) return observe_elements<D>(e.k, [](auto it) { return *it; }, [](auto) { return 1L; });
    return observe_elements<D>(e.s[c], [](auto it) { return it->first; }, [](auto it) { return K::un(it->second); });
  }
  static void join(Env&, int) {}
  static bool swaps(const Op& op) { return op.code == SWAP; }
  static bool half_done(const Cont& c) { if (!K::atomic) for (long x : c.val) if ((absorber && x == 0) || x >= 1024) return true; return false; }
  static bool dirty_after(const Op&, const std::vector<char>&) { return false; }

  static void predict(const Env&, std::vector<Cont>& m, const Op& op, int grid, Meta& me) {
    Par p = par(op, grid); int t = p.t; me.target = t; me.mask.assign(A, 0);
    auto mask1 = [&](int i) { me.mask[i] = 1; };
    auto maskc = [&](const Cont& c) { for (int i = 0; i < A; ++i) if (c.has(i)) me.mask[i] = 1; };
    const int ST = ST_SPLIT; Cont& c = m[t]; const Cont o = m[p.o]; const Cont k = m[2]; int e = p.e; long v = p.v;
    auto add1 = [&](Cont& x, int i, long w) { MM::add(x, ST, i, i + 1, w); };
    auto flip_map = [&](Cont& x, const Cont& y) {
      if (total) { if (!absorber) for (int i : keys_of(y)) add1(x, i, y.val[i]); MM::total_flip(x, ST); }
      else for (int i : keys_of(y)) MM::flip(x, ST, i, i + 1, y.val[i]);
    };
    auto flip1 = [&](Cont& x, int i, long w) {
      if (total) { if (!absorber) add1(x, i, w); MM::total_flip(x, ST); } else MM::flip(x, ST, i, i + 1, w);
    };
    auto set1 = [&](Cont& x, int i, long w) { x.val[i] = absorber && w == 0 ? NONE : w; };
    switch (op.code) {
      case ADD: me.update = true; mask1(e); add1(c, e, v); break;
      case SUB: me.update = true; mask1(e); MM::sub(c, ST, e, e + 1, v); break;
      case INS: me.update = me.repeatable = true; mask1(e); MM::insert(c, ST, e, e + 1, v); break;
      case SET: me.update = me.repeatable = me.may_drop = true; mask1(e); set1(c, e, v); break;
      case ERASE_PAIR: me.update = me.repeatable = true; mask1(e); MM::erase(c, ST, e, e + 1, v); break;
      case ERASE_KEY: me.update = me.repeatable = true; mask1(e); c.val[e] = NONE; break;
      case FLIP: if (total) me.wholesale = true; else { me.update = me.may_drop = true; mask1(e); } flip1(c, e, v); break;
      case FLIP_M: if (total) me.wholesale = true; else { me.update = me.may_drop = true; maskc(o); } flip_map(c, o); break;
      case AND_PAIR: me.wholesale = true; if (total) { me.update = true; me.wholesale = false; mask1(e); } else me.strong = true; MM::meet(c, ST, MM::of_range(A, Range{e, e + 1}, v), false); break;
      case AND_KEY: me.strong = me.wholesale = true; MM::meet(c, ST, MM::of_range(A, Range{e, e + 1}, 1), true); break;
      case AND_M: if (total) { me.update = true; maskc(o); } else me.strong = me.wholesale = true; MM::meet(c, ST, o, false); break;
      case AND_KEYS: me.strong = me.wholesale = true; MM::meet(c, ST, k, true); break;
      case ADD_M: me.update = true; maskc(o); for (int i : keys_of(o)) add1(c, i, o.val[i]); break;
      case SUB_M: me.update = true; maskc(o); for (int i : keys_of(o)) MM::sub(c, ST, i, i + 1, o.val[i]); break;
      case INS_M: case INS_RANGE: me.update = me.repeatable = true; maskc(o); for (int i : keys_of(o)) MM::insert(c, ST, i, i + 1, o.val[i]); break;
      case ERASE_M: me.update = me.repeatable = true; maskc(o); for (int i : keys_of(o)) MM::erase(c, ST, i, i + 1, o.val[i]); break;
      case SUB_KEYS: case ERASE_KEYS: me.update = me.repeatable = true; maskc(k); for (int i : keys_of(k)) c.val[i] = NONE; break;
      case COPY: me.strong = me.wholesale = true; c = o; break;
      case MOVE: me.transfer = me.wholesale = true; me.other = 1 - t; c = o; if (is("C12")) me.exact = false; else m[1 - t] = Cont(A); break;
      case SWAP: me.transfer = me.wholesale = true; me.other = 1 - t; if (op.a[3] % 6 == 5) me.other = -1; else std::swap(m[t], m[1 - t]); break;
      case CLEAR: me.wholesale = true; c = Cont(A); break;
      case FROM: me.wholesale = true; if (op.a[3] % 3) { c = Cont(A); set1(c, e, v); } else { c = o; if (op.a[3] & 8) { c = Cont(A); for (int i : keys_of(o)) if (i >= e) c.val[i] = o.val[i]; } } break;
      case KEYS: { me.target = 2; me.wholesale = true; Cont& q = m[2]; int w = op.a[3] % 8; if (w == 0) q = Cont(A); else q.val[e] = w < 6 ? 1 : NONE; break; }
      case DOMAIN_: me.target = 2; me.wholesale = true; if (op.a[3] % 2) m[2] = Cont(A); for (int i : keys_of(m[t])) m[2].val[i] = 1; break;
      case ERASE_IT: {
        std::vector<int> g = keys_of(c); if (g.empty()) { me.skip = true; break; }
        int i = op.a[4] % (int)g.size(), j = (op.a[3] & 1) ? i + 1 : i + op.a[5] % ((int)g.size() - i + 1);
        for (int x = i; x < j; ++x) { mask1(g[x]); c.val[g[x]] = NONE; }
        me.update = true; break; }
      case ERASE_IF: { me.update = me.repeatable = true; SegPred<K> q{op.a[4] % 3}; maskc(c); for (int i : keys_of(c)) if (q.test(c.val[i])) c.val[i] = NONE; break; }
      case ADD_IF: { me.update = true; SegPred<K> q{op.a[4] % 3}; for (int i : keys_of(o)) if (q.test(o.val[i])) { mask1(i); add1(c, i, o.val[i]); } break; }
      case ASSIGN_IF: { me.update = me.may_drop = true; SegPred<K> q{op.a[4] % 3}; maskc(c); c = Cont(A); for (int i : keys_of(o)) if (q.test(o.val[i])) { mask1(i); add1(c, i, o.val[i]); } break; }
      case ABSORB: me.update = me.repeatable = true; maskc(c); for (int i : keys_of(c)) if (c.val[i] == 0) c.val[i] = NONE; break;
      case SECT: { // adds the intersection of the other map with something to this one
        Cont n = o; int w = op.a[3] % 3;
        if (total && w != 1) { // the other map and the operand are added
          me.wholesale = true; for (int i : keys_of(o)) add1(c, i, o.val[i]); add1(c, e, v); break; } // two steps
        if (w == 0 || w == 2) MM::meet(n, ST, MM::of_range(A, Range{e, e + 1}, v), false); else MM::meet(n, ST, MM::of_range(A, Range{e, e + 1}, 1), true);
        if (w == 1) { me.update = true; mask1(e); } else me.wholesale = true; // a pair is added in two steps
        me.resync = true;
        if (w == 1) { me.resync = false; for (int i : keys_of(n)) add1(c, i, n.val[i]); }
        else if (o.has(e)) { add1(c, e, o.val[e]); me.resync = K::is_set; if (!K::is_set) add1(c, e, v); }
        else me.resync = false;
        break; }
      case BIN: {
        me.strong = me.wholesale = true;
        int x = op.a[5] % 2, y = bin_arg(op), f = bin_form(op), w = bin_op(op); Cont n = m[x]; (void)f;
        Cont q = y == 0 ? m[1 - x] : y == 1 ? k : MM::of_range(A, Range{e, e + 1}, v);
        if (y == 1 || y == 3) { w = (w == 2 || y == 3) ? 2 : 1; if (w == 2) MM::meet(n, ST, q, true); else for (int i : keys_of(q)) n.val[i] = NONE; }
        else switch (w) {
          case 0: for (int i : keys_of(q)) add1(n, i, q.val[i]); break;
          case 1: for (int i : keys_of(q)) MM::sub(n, ST, i, i + 1, q.val[i]); break;
          case 2: MM::meet(n, ST, q, false); break;
          default: flip_map(n, q); break;
        }
        c = n; break; }
      default: me.skip = true;
    }
    for (int i = 0; i < NC; ++i) for (char& z : m[i].cut) z = 0;
  }
  static int bin_op(const Op& op) { return op.a[3] % 5 == 4 ? 0 : op.a[3] % 5; }
  static int bin_form(const Op& op) { return (op.a[3] / 5) % 5; }
  static int bin_arg(const Op& op) { return op.a[2] % 4; } // 0 map, 1 key set, 2 pair, 3 key

  static typename T::iterator hint_of(T& s, int k) { auto it = s.begin(); std::advance(it, k % (int)(s.size() + 1)); return it; }
  template <class Ev> static void apply(Ev& e, const Op& op, int grid, Act& act, Holder*) {
    Par p = par(op, grid); int t = p.t, w = op.a[3] % 8; T& s = e.s[t]; const T& o = e.s[1 - t]; const Set& k = e.k;
    const dom made_key = D::elem(p.e); const Element made(made_key, K::mk(p.v));
    const dom* ownk = nullptr; const Element* ownx = nullptr; // an operand may be a reference to what the container itself holds
    if (op.a[5] % 4 == 1 && op.code != SECT && op.code != BIN) { auto it = s.find(made_key); if (it != s.end()) { probe_own(); ownk = &(*it).first; if constexpr (std::is_same<Element, typename T::value_type>::value) if (K::un((*it).second) == p.v) ownx = &*it; } }
    const dom& key = ownk ? *ownk : made_key; const Element& x = ownx ? *ownx : made;
    switch (op.code) {
      case ADD: { auto hint = hint_of(s, op.a[5]); act.go([&] { switch (w) { case 0: s.add(x); break; case 1: s += x; break; case 2: s |= x; break; case 3: icl::add(s, x); break; case 4: case 5: s.add(hint, x); break; case 6: icl::add(s, hint, x); break; default: s += x; } }); break; }
      case SUB: act.go([&] { switch (w % 3) { case 0: s.subtract(x); break; case 1: s -= x; break; default: icl::subtract(s, x); } }); break;
      case INS: { auto hint = hint_of(s, op.a[5]); act.go([&] { switch (w % 4) { case 0: s.insert(x); break; case 1: icl::insert(s, x); break; case 2: s.insert(hint, x); break; default: icl::insert(s, hint, x); } }); break; }
      case SET: act.go([&] { if (w % 2) s.set(x); else icl::set_at(s, x); }); break;
      case ERASE_PAIR: act.go([&] { if (w % 2) s.erase(x); else icl::erase(s, x); }); break;
      case ERASE_KEY: act.go([&] { switch (w % 4) { case 0: s.erase(key); break; case 1: icl::erase(s, key); break; case 2: s.subtract(key); break; default: icl::subtract(s, key); } }); break;
      case FLIP: act.go([&] { switch (w % 3) { case 0: s.flip(x); break; case 1: s ^= x; break; default: icl::flip(s, x); } }); break;
      case AND_PAIR: act.go([&] { s &= x; }); break;
      case AND_KEY: act.go([&] { s &= key; }); break;
      case ADD_M: act.go([&] { if (w == 4) std::copy(o.begin(), o.end(), icl::adder(s, s.end())); else if (w % 2) s += o; else s |= o; }); break;
      case SUB_M: act.go([&] { s -= o; }); break;
      case INS_M: act.go([&] { if (w == 4) std::copy(o.begin(), o.end(), icl::inserter(s, s.begin())); else icl::insert(s, o); }); break;
      case INS_RANGE: act.go([&] { s.insert(o.begin(), o.end()); }); break;
      case ERASE_M: act.go([&] { icl::erase(s, o); }); break;
      case FLIP_M: act.go([&] { s ^= o; }); break;
      case AND_M: act.go([&] { if (w % 2) { s &= o; } else { T n; if (total) { s &= o; } else { icl::add_intersection(n, static_cast<const T&>(s), o); s.swap(n); } } }); break;
      case AND_KEYS: act.go([&] { if (w % 2) s &= k; else { T n; icl::add_intersection(n, static_cast<const T&>(s), k); s.swap(n); } }); break;
      case SUB_KEYS: act.go([&] { s -= k; }); break;
      case ERASE_KEYS: act.go([&] { icl::erase(s, k); }); break;
      case COPY: act.go([&] { if (w % 2) s = o; else { T n(o); s.swap(n); } }); break;
      case MOVE: act.go([&] { if (w % 2) s = std::move(e.s[1 - t]); else { T n(std::move(e.s[1 - t])); s = std::move(n); } }); if (!is("C12")) e.s[1 - t].clear(); break;
      case SWAP: act.go([&] { if (op.a[3] % 6 == 5) s.swap(s); else s.swap(e.s[1 - t]); }); break;
      case CLEAR: act.go([&] { switch (w % 3) { case 0: s.clear(); break; case 1: icl::clear(s); break; default: s = T(); } }); break;
      case FROM: act.go([&] { if (op.a[3] % 3) { T n(x); s.swap(n); } else { T n((op.a[3] & 8) ? o.lower_bound(key) : o.begin(), o.end()); s.swap(n); } }); break;
      case KEYS: act.go([&] { if (w == 0) e.k.clear(); else if (w < 3) icl::add(e.k, key); else if (w < 6) icl::insert(e.k, key); else if (w == 6) icl::erase(e.k, key); else icl::subtract(e.k, key); }); break;
      case DOMAIN_: act.go([&] { if (w % 2) e.k.clear(); icl::domain(e.k, static_cast<const T&>(s)); }); break;
      case ERASE_IT: {
        int n = (int)s.size(); if (!n) break;
        int i = op.a[4] % n; auto it = s.begin(); std::advance(it, i);
        if (op.a[3] & 1) act.go([&] { s.erase(it); }); else { auto e2 = it; std::advance(e2, op.a[5] % (n - i + 1)); act.go([&] { s.erase(it, e2); }); }
        break; }
      case ERASE_IF: act.go([&] { icl::erase_if(SegPred<K>{op.a[4] % 3}, s); }); break;
      case ADD_IF: act.go([&] { icl::add_if(SegPred<K>{op.a[4] % 3}, s, o); }); break;
      case ASSIGN_IF: act.go([&] { icl::assign_if(SegPred<K>{op.a[4] % 3}, s, o); }); break;
      case ABSORB: act.go([&] { icl::absorb_identities(s); }); break;
      case SECT: act.go([&] { switch (op.a[3] % 3) { case 0: icl::add_intersection(s, o, x); break; case 1: icl::add_intersection(s, o, key); break; default: o.add_intersection(s, x); } }); break;
      case BIN: bin(s, e.s[op.a[5] % 2], e.s[1 - op.a[5] % 2], k, x, key, op, act); break;
    }
  }
  static void bin(T& dst, const T& x, const T& y, const Set& k, const Element& p, const dom& key, const Op& op, Act& act) {
    int f = bin_form(op), v = op.a[3] % 5;
    act.go([&] {
      switch (bin_arg(op)) {
        case 0: switch (v) { case 0: dst = x + y; break; case 1: dst = x - y; break; case 2: dst = x & y; break; case 3: dst = x ^ y; break; default: dst = x | y; } break;
        case 1: if (bin_op(op) == 2) { if (f % 2) dst = x & k; else dst = k & x; } else dst = x - k; break;
        case 2: switch (v) {
          case 0: if (f % 2) dst = x + p; else dst = p + x; break;
          case 1: dst = x - p; break;
          case 2: if (f % 2) dst = x & p; else dst = p & x; break;
          case 3: if (f % 2) dst = x ^ p; else dst = p ^ x; break;
          default: if (f % 2) dst = x | p; else dst = p | x; } break;
        default: if (f % 2) dst = x & key; else dst = key & x; break;
      }
    });
  }
  static void queries(const Env& e, const std::vector<Obs>& o, const Op& op, int grid);
  static void prints(const Env& e, const Op& op, int) { Rng r = print_rng(op, 5); if (r.chance(200)) print_elements(e.k, r); else print_element_map(e.s[r.below(2)], r); }
};

template <class D> struct ESetSys {
  typedef D Dom;
  typedef typename D::ESet T; typedef typename D::dom dom;
  static const int NC = 2, A = D::A; static const bool judge_failed = true;
  struct Env { T s[2]; };
  struct View { Two<T> s; };
  static View view(T& mine, Env& e, int k) { return View{{{&mine, &e.s[k]}}}; }
  typedef NoHolder Holder;
  static int style(int) { return ST_ELEM; }
  static bool content_prop(const char* p) { return !strcmp(p, "C11"); }
  static void warm_up() {}
  enum { ADD = 1, INS, ERASE, FLIP, AND, ADD_S, INS_S, SUB_S, FLIP_S, AND_S, COPY, MOVE, SWAP, CLEAR, BIN, ERASE_IF, ADD_IF, ASSIGN_IF, SECT };
  static std::vector<OpKind> kinds() {
    return {{ADD, "add", 24, "u"}, {INS, "insert", 8, "u"}, {ERASE, "erase", 12, "u"}, {FLIP, "flip", 6, "u"}, {AND, "intersect element", 1, "s"}, {ADD_S, "add set", 5, "u"},
      {INS_S, "insert set", 3, "u"}, {SUB_S, "subtract set", 4, "u"}, {FLIP_S, "flip set", 4, "u"}, {AND_S, "intersect set", 4, "s"}, {COPY, "copy", 2, "s"}, {MOVE, "move", 2, "t"},
      {SWAP, "swap", 2, "t"}, {CLEAR, "clear", 1, "m"}, {BIN, "binary operator", 6, "s"}, {ERASE_IF, "erase_if", 2, "u"}, {ADD_IF, "add_if", 2, "u"}, {ASSIGN_IF, "assign_if", 1, "u"}, {SECT, "add_intersection", 3, "u"}};
  }
  static std::string describe(const Op& op, int grid) {
    for (const OpKind& k : kinds()) if (k.code == op.code) {
      char buf[160]; snprintf(buf, sizeof buf, "%s (container %d, key atom %d, variant %d)%s%s", k.name, op.t % 2, D::elem_atom(op.a[0], grid), op.a[3], op.fk ? " with fault " : "", op.fk ? fault_name[op.fk] : "");
      return buf; }
    return "?";
  }
  static Obs observe(const Env& e, int c) { return observe_elements<D>(e.s[c], [](auto it) { return *it; }, [](auto) { return 1L; }); }
  static void join(Env&, int) {}
  static bool swaps(const Op& op) { return op.code == SWAP; }
  static bool dirty_after(const Op&, const std::vector<char>&) { return false; }
  static int bin_arg(const Op& op) { return op.a[2] % 2; }
  static void predict(const Env&, std::vector<Cont>& m, const Op& op, int grid, Meta& me) {
    int t = op.t % 2, e = D::elem_atom(op.a[0], grid); me.target = t; me.mask.assign(A, 0);
    auto maskc = [&](const Cont& c) { for (int i = 0; i < A; ++i) if (c.has(i)) me.mask[i] = 1; };
    Cont& c = m[t]; const Cont o = m[1 - t]; KeyPred<D> q{op.a[4] % 3};
    switch (op.code) {
      case ADD: case INS: me.update = me.repeatable = true; me.mask[e] = 1; c.val[e] = 1; break;
      case ERASE: me.update = me.repeatable = true; me.mask[e] = 1; c.val[e] = NONE; break;
      case FLIP: me.update = true; me.mask[e] = 1; c.val[e] = c.has(e) ? NONE : 1; break;
      case AND: me.strong = me.wholesale = true; for (int i = 0; i < A; ++i) if (i != e) c.val[i] = NONE; break;
      case ADD_S: case INS_S: me.update = me.repeatable = true; maskc(o); for (int i : keys_of(o)) c.val[i] = 1; break;
      case SUB_S: me.update = me.repeatable = true; maskc(o); for (int i : keys_of(o)) c.val[i] = NONE; break;
      case FLIP_S: me.update = true; maskc(o); for (int i : keys_of(o)) c.val[i] = c.has(i) ? NONE : 1; break;
      case AND_S: me.strong = me.wholesale = true; for (int i = 0; i < A; ++i) if (!o.has(i)) c.val[i] = NONE; break;
      case COPY: me.wholesale = true; c = o; break; // std::set's own assignment
      case MOVE: me.transfer = me.wholesale = true; me.other = 1 - t; c = o; m[1 - t] = Cont(A); break;
      case SWAP: me.transfer = me.wholesale = true; me.other = 1 - t; std::swap(m[t], m[1 - t]); break;
      case CLEAR: me.wholesale = true; c = Cont(A); break;
      case ERASE_IF: me.update = me.repeatable = true; maskc(c); for (int i : keys_of(c)) if (q.test(i)) c.val[i] = NONE; break;
      case ADD_IF: me.update = true; for (int i : keys_of(o)) if (q.test(i)) { me.mask[i] = 1; c.val[i] = 1; } break;
      case ASSIGN_IF: me.update = me.may_drop = true; maskc(c); c = Cont(A); for (int i : keys_of(o)) if (q.test(i)) { me.mask[i] = 1; c.val[i] = 1; } break;
      case SECT: me.update = me.repeatable = true; if (op.a[3] % 2) { if (o.has(e)) { me.mask[e] = 1; c.val[e] = 1; } } else { maskc(o); for (int i : keys_of(o)) c.val[i] = 1; } break;
      case BIN: {
        me.strong = me.wholesale = true; int x = op.a[5] % 2; Cont n = m[x]; Cont q2(A); if (bin_arg(op)) q2.val[e] = 1; else q2 = m[1 - x];
        for (int i = 0; i < A; ++i) { bool a = n.has(i), b = q2.has(i), r;
          switch (op.a[3] % 5) { case 1: r = a && !b; break; case 2: r = a && b; break; case 3: r = a != b; break; default: r = a || b; }
          n.val[i] = r ? 1 : NONE; }
        c = n; break; }
      default: me.skip = true;
    }
  }
  template <class Ev> static void apply(Ev& e, const Op& op, int grid, Act& act, Holder*) {
    using namespace boost::icl; // operators on std::set
    int t = op.t % 2, w = op.a[3] % 8; T& s = e.s[t]; const T& o = e.s[1 - t]; const dom made = D::elem(D::elem_atom(op.a[0], grid));
    const dom* own = nullptr; if (op.a[5] % 4 == 1 && op.code != SECT && op.code != BIN) { auto it = s.find(made); if (it != s.end()) { probe_own(); own = &*it; } }
    const dom& x = own ? *own : made;
    auto hint = s.begin(); std::advance(hint, op.a[5] % (int)(s.size() + 1)); KeyPred<D> q{op.a[4] % 3};
    switch (op.code) {
      case ADD: act.go([&] { switch (w % 4) { case 0: icl::add(s, x); break; case 1: s += x; break; case 2: s |= x; break; default: icl::add(s, hint, x); } }); break;
      case INS: act.go([&] { if (w % 2) icl::insert(s, x); else icl::insert(s, hint, x); }); break;
      case ERASE: act.go([&] { switch (w % 3) { case 0: icl::erase(s, x); break; case 1: s -= x; break; default: icl::subtract(s, x); } }); break;
      case FLIP: act.go([&] { if (w % 2) s ^= x; else icl::flip(s, x); }); break;
      case AND: act.go([&] { s &= x; }); break;
      case ADD_S: act.go([&] { if (w == 4) std::copy(o.begin(), o.end(), icl::adder(s, s.end())); else if (w % 2) s += o; else s |= o; }); break;
      case INS_S: act.go([&] { if (w == 4) std::copy(o.begin(), o.end(), icl::inserter(s, s.begin())); else icl::insert(s, o); }); break;
      case SUB_S: act.go([&] { if (w % 2) s -= o; else icl::erase(s, o); }); break;
      case FLIP_S: act.go([&] { s ^= o; }); break;
      case AND_S: act.go([&] { s &= o; }); break;
      case COPY: act.go([&] { s = o; }); break;
      case MOVE: act.go([&] { s = std::move(e.s[1 - t]); }); e.s[1 - t].clear(); break;
      case SWAP: act.go([&] { s.swap(e.s[1 - t]); }); break;
      case CLEAR: act.go([&] { icl::clear(s); }); break;
      case ERASE_IF: act.go([&] { icl::erase_if(q, s); }); break;
      case ADD_IF: act.go([&] { icl::add_if(q, s, o); }); break;
      case ASSIGN_IF: act.go([&] { icl::assign_if(q, s, o); }); break;
      case SECT: act.go([&] { if (op.a[3] % 2) icl::add_intersection(s, o, x); else icl::add_intersection(s, o, o); }); break;
      case BIN: { const T& a = e.s[op.a[5] % 2]; const T& b = e.s[1 - op.a[5] % 2]; int v = op.a[3] % 5; bool f = op.a[3] / 5 % 2;
        act.go([&] {
          if (!bin_arg(op)) switch (v) { case 0: s = a + b; break; case 1: s = a - b; break; case 2: s = a & b; break; case 3: s = a ^ b; break; default: s = a | b; }
          else switch (v) { case 0: if (f) s = a + x; else s = x + a; break; case 1: s = a - x; break; case 2: if (f) s = a & x; else s = x & a; break; case 3: if (f) s = a ^ x; else s = x ^ a; break; default: if (f) s = a | x; else s = x | a; }
        }); break; }
    }
  }
  static void queries(const Env& e, const std::vector<Obs>& o, const Op& op, int grid);
  static void prints(const Env& e, const Op& op, int) { Rng r = print_rng(op, 5); print_elements(e.s[r.below(2)], r); }
};

#ifndef SIM_QUERIES
template <class D, class K, class Tr> void EMapSys<D, K, Tr>::queries(const Env&, const std::vector<Obs>&, const Op&, int) {}
template <class D> void ESetSys<D>::queries(const Env&, const std::vector<Obs>&, const Op&, int) {}
#else
inline int seq_cmp(const Cont& a, const Cont& b, const std::function<int(int, long, int, long)>& cmp) {
  std::vector<int> x = keys_of(a), y = keys_of(b);
  for (size_t i = 0; i < x.size() && i < y.size(); ++i) if (int c = cmp(x[i], a.val[x[i]], y[i], b.val[y[i]])) return c;
  return x.size() == y.size() ? 0 : x.size() < y.size() ? -1 : 1;
}
template <class D, class K, class Tr> void EMapSys<D, K, Tr>::queries(const Env& e, const std::vector<Obs>& o, const Op& op, int grid) {
  const T& s = e.s[op.a[5] % 2]; const Cont& c = o[op.a[5] % 2].c; const std::string str = c.str(); long n = (long)keys_of(c).size();
  Q((long)icl::iterative_size(s) == n && (long)icl::size(s) == n && (long)icl::cardinality(s) == n && (long)s.size() == n && (long)s.iterative_size() == n, "a size of %s is wrong", str.c_str());
  Q(icl::is_empty(s) == (n == 0) && s.empty() == (n == 0), "emptiness of %s is wrong", str.c_str());
  Rng r = query_rng(op, 3);
  for (int i = 0; i < A && !C.bad; ++i) {
    if (!Measure<D>::point(i)) continue;
    dom x = D::elem(i); long v = c.has(i) && r.chance(600) ? c.val[i] : K::value((int)r.below(8)); const Element p(x, K::mk(v)); bool pair = c.has(i) && c.val[i] == v;
    Q((s.find(x) != s.end()) == c.has(i) && s.count(x) == (size_t)c.has(i), "find(%d) is wrong for %s", i, str.c_str());
    Q(K::un(s(x)) == (c.has(i) ? c.val[i] : 0), "the map reads %ld at %d of %s", K::un(s(x)), i, str.c_str());
    Q(icl::contains(s, x) == c.has(i) && s.contains(x) == c.has(i) && icl::within(x, s) == c.has(i), "contains(key %d) is wrong for %s", i, str.c_str());
    Q(icl::contains(s, p) == pair && s.contains(p) == pair && icl::within(p, s) == pair, "contains(pair %d=%ld) is wrong for %s", i, v, str.c_str());
    Q(icl::intersects(s, x) == (total || c.has(i)), "intersects(key %d) is wrong for %s", i, str.c_str());
  }
  const Cont &a = o[0].c, &b = o[1].c, &k = o[2].c; const std::string sa = a.str(), sb = b.str(), sk = k.str(); const T &x = e.s[0], &y = e.s[1];
  bool sub = true, super = true, meet = false, equal = true, meetk = false, superk = true, deq = true;
  for (int i = 0; i < A; ++i) {
    if (a.has(i) && !(b.has(i) && a.val[i] == b.val[i])) sub = false;
    if (b.has(i) && !(a.has(i) && a.val[i] == b.val[i])) super = false;
    if (a.has(i) && b.has(i)) meet = true;
    if (a.val[i] != b.val[i]) equal = false;
    if (k.has(i) && a.has(i)) meetk = true;
    if (k.has(i) && !a.has(i)) superk = false;
    if ((a.has(i) ? a.val[i] : 0) != (b.has(i) ? b.val[i] : 0)) deq = false;
  }
  Q(icl::contains(x, y) == super && icl::within(x, y) == sub && x.contains(y) == super && x.within(y) == sub, "contains/within is wrong for %s and %s", sa.c_str(), sb.c_str());
  Q(icl::contains(x, e.k) == superk && icl::within(e.k, x) == superk, "contains(key set) is wrong for %s and %s", sa.c_str(), sk.c_str());
  Q((x == y) == equal && (x != y) == !equal && icl::is_element_equal(x, y) == equal, "equality is wrong for %s and %s", sa.c_str(), sb.c_str());
  Q(icl::is_distinct_equal(x, y) == deq, "is_distinct_equal is wrong for %s and %s", sa.c_str(), sb.c_str());
  Q(icl::intersects(x, y) == (total || meet), "intersects is wrong for %s and %s", sa.c_str(), sb.c_str());
  Q(icl::disjoint(x, y) == !(total || meet), "disjoint is wrong for %s and %s", sa.c_str(), sb.c_str());
  Q(icl::intersects(x, e.k) == (total || meetk), "intersects(key set) is wrong for %s and %s", sa.c_str(), sk.c_str());
  { auto le = [](long p, long q) { return K::is_set ? (p & ~q) == 0 : p == q; }; bool sub2 = true, super2 = true;
    for (int i = 0; i < A; ++i) { if (a.has(i) && !(b.has(i) && le(a.val[i], b.val[i]))) sub2 = false; if (b.has(i) && !(a.has(i) && le(b.val[i], a.val[i]))) super2 = false; }
    Q(icl::inclusion_compare(x, y) == inclusion_of(sub2, super2), "inclusion_compare is %d for %s and %s", icl::inclusion_compare(x, y), sa.c_str(), sb.c_str()); }
    int cmp = seq_cmp(a, b, [&](int i, long v, int j, long w) { if (i != j) return i < j ? -1 : 1; auto p = K::mk(v), q = K::mk(w); int z = p < q ? -1 : q < p ? 1 : 0; return D::descending ? -z : z; });
  Q((x < y) == (cmp < 0) && (x > y) == (cmp > 0) && (x <= y) == (cmp <= 0) && (x >= y) == (cmp >= 0), "an ordering operator is wrong for %s and %s", sa.c_str(), sb.c_str());
  for (int i = 0; i < 2; ++i) Q(observe(e, i).c == o[i].c, "a query changed container %d", i);
}
template <class D> void ESetSys<D>::queries(const Env& e, const std::vector<Obs>& o, const Op& op, int grid) {
  using namespace boost::icl;
  const T& s = e.s[op.a[5] % 2]; const Cont& c = o[op.a[5] % 2].c; const std::string str = c.str(); long n = (long)keys_of(c).size();
  Q((long)icl::iterative_size(s) == n && (long)icl::size(s) == n && (long)icl::cardinality(s) == n && icl::is_empty(s) == (n == 0), "a size of %s is wrong", str.c_str());
  for (int i = 0; i < A && !C.bad; ++i) if (Measure<D>::point(i)) {
    dom x = D::elem(i);
    Q(icl::contains(s, x) == c.has(i) && icl::within(x, s) == c.has(i) && icl::intersects(s, x) == c.has(i), "contains(%d) is wrong for %s", i, str.c_str());
  }
  const Cont &a = o[0].c, &b = o[1].c; const std::string sa = a.str(), sb = b.str(); const T &x = e.s[0], &y = e.s[1];
  bool sub = subset(a, b), super = subset(b, a), meet = meets(a, b);
  Q(icl::contains(x, y) == super && icl::within(x, y) == sub, "contains/within is wrong for %s and %s", sa.c_str(), sb.c_str());
  Q(icl::intersects(x, y) == meet && icl::disjoint(x, y) == !meet, "intersects is wrong for %s and %s", sa.c_str(), sb.c_str());
  Q(icl::inclusion_compare(x, y) == inclusion_of(sub, super) && icl::is_element_equal(x, y) == (sub && super), "inclusion_compare is wrong for %s and %s", sa.c_str(), sb.c_str());
}
#endif

template <class Sys> struct ElemWorld : World {
  typedef Engine<Sys> E;
  bool serves(const std::string& p) const override {
    if (p == "C10" && !Sys::Dom::printable) return false;
    if (p == "C06" || p == "C11" || p == "C05" || p == "C07" || p == "C12" || p == "C14" || p == "C10") return Sys::judge_failed || p != "C06";
    return false;
  }
  void generate(Rng& r, Plan& p) const override { E::generate(r, p); }
  void execute(const Plan& p) const override { E::execute(p); }
};
template <class D, class K, class Tr> struct EMapWorld : ElemWorld<EMapSys<D, K, Tr> > {
  EMapWorld() { this->name = std::string("map/") + D::name() + "/" + K::name() + "/" + (Kind<Tr>::is_total ? "total" : "partial") + "_" + (Kind<Tr>::absorbs_identities ? "absorber" : "enricher"); }
};
template <class D> struct ESetWorld : ElemWorld<ESetSys<D> > { ESetWorld() { this->name = std::string("set/") + D::name(); } };

} // namespace sim
