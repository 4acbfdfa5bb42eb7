// C14: every query is answered by brute force from the observed segments and compared with the library's answer.
// Compiled only into the simulator of that property (SIM_QUERIES): it is a lot of code.
#pragma once
#include "engine.hpp"
#include "prints.hpp"
#include "codomains.hpp"
#include <boost/icl/predicates/element_equal.hpp>
#include <boost/icl/predicates/std_equal.hpp>
#include <boost/icl/predicates/distinct_equal.hpp>
#include <boost/icl/predicates/sub_super_set.hpp>
namespace sim {

#ifndef SIM_QUERIES
template <class D, class S> void set_queries(const S&, const Obs&, const Op&, int) {}
template <class D, class X, class Y> void pair_queries(const X&, const Obs&, const Y&, const Obs&) {}
template <class D, class K, class Tr, class S> void map_queries(const S&, const Obs&, const Op&, int) {}
template <class D, class K, class Tr, class X, class Y> void map_pair_queries(const X&, const Obs&, const Y&, const Obs&) {}
template <class D, class K, class Tr, class X, class Y> void map_key_queries(const X&, const Obs&, const Y&, const Obs&) {}
#else

// measures of atom ranges
template <class D> struct Measure {
  static const int A = D::A;
  static bool point(int atom) { return D::discrete || atom % 2 == 0; }
  static long card(const Obs& o) { // -1: infinite
    long n = 0;
    for (const Seg& g : o.segs) { if (!D::discrete && !(g.hi - g.lo == 1 && g.lo % 2 == 0)) return -1; n += g.hi - g.lo; }
    return n;
  }
  static double lower(int lo) { return D::discrete ? lo : (lo / 2) * 0.5 - 2.0 + (0); }             // border value of an atom range
  static double lo_border(int lo) { return lo % 2 == 0 ? lo / 2 * 0.5 - 2.0 : lo / 2 * 0.5 - 2.0; }  // [k or (k
  static double hi_border(int hi) { return hi % 2 == 1 ? hi / 2 * 0.5 - 2.0 : hi / 2 * 0.5 - 2.0; }  // k] or k)
  static double length(const Obs& o) {
    double n = 0;
    for (const Seg& g : o.segs) n += D::discrete ? g.hi - g.lo : hi_border(g.hi) - lo_border(g.lo);
    return n;
  }
  static double distance(const Obs& o) {
    double n = 0;
    for (size_t i = 1; i < o.segs.size(); ++i) n += D::discrete ? o.segs[i].lo - o.segs[i - 1].hi : lo_border(o.segs[i].lo) - hi_border(o.segs[i - 1].hi);
    return n;
  }
};

#define Q(cond, ...) do { ++S.checks; if (C.sink) *C.sink = mix(*C.sink, (cond) ? 1 : 2); else if (!C.bad && !(cond)) violation("C14.query", __VA_ARGS__); } while (0)

template <class Ct> int index_of(const Ct& s, typename Ct::const_iterator it) {
  int k = 0; for (auto i = s.begin(); i != s.end(); ++i, ++k) if (i == it) return k;
  return it == s.end() ? k : -7;
}
inline int first_reaching(const Segs& g, int lo) { for (size_t i = 0; i < g.size(); ++i) if (g[i].hi > lo) return (int)i; return (int)g.size(); }   // first segment not before
inline int first_after(const Segs& g, int hi) { for (size_t i = 0; i < g.size(); ++i) if (g[i].lo >= hi) return (int)i; return (int)g.size(); }
inline int containing(const Segs& g, int atom) { for (size_t i = 0; i < g.size(); ++i) if (g[i].lo <= atom && atom < g[i].hi) return (int)i; return (int)g.size(); }
inline Rng query_rng(const Op& op, int n) { return Rng(mix((uint64_t)op.a[5] * 8191 + op.a[4], (uint64_t)op.a[0] * 97 + op.a[1] * 13 + op.code + n * 1000003)); }
inline bool subset(const Cont& a, const Cont& b) { for (int i = 0; i < a.size(); ++i) if (a.has(i) && !b.has(i)) return false; return true; }
inline bool meets(const Cont& a, const Cont& b) { for (int i = 0; i < a.size(); ++i) if (a.has(i) && b.has(i)) return true; return false; }
template <class D> void random_interval(Rng& r, int grid, int& a, int& b, int& bn) {
  a = (int)r.below(grid + 1); b = (int)(r.chance(500) ? a + r.range(0, 3) : r.below(grid + 1)); bn = (int)r.below(4); D::resolve(a, b, bn, grid);
}

// ---- what sets and maps have in common
template <class D, class Ct, class Gaps> void common_queries(const Ct& s, const Obs& o, const Op& op, int grid, const Gaps*, bool total) {
  typedef Measure<D> M; typedef typename D::dom dom; typedef typename D::itv itv;
  const Segs& g = o.segs; const int n = (int)g.size();
  Q((long)icl::iterative_size(s) == n && (long)icl::interval_count(s) == n && (long)s.iterative_size() == n, "number of segments: %ld, %ld, %ld, iteration shows %d", (long)icl::iterative_size(s), (long)icl::interval_count(s), (long)s.iterative_size(), n);
  Q(icl::is_empty(s) == (n == 0) && s.empty() == (n == 0), "is_empty / empty contradict the %d segments", n);
  long card = M::card(o);
  typedef typename Ct::size_type size_type;
  auto sized = [&](const size_type& x) { return card < 0 ? x == icl::infinity<size_type>::value() : D::num(x) == (double)card; };
  Q(sized(icl::cardinality(s)) && sized(icl::size(s)) && sized(s.size()), "cardinality %g / size %g / size() %g, content has %ld: %s", D::num(icl::cardinality(s)), D::num(icl::size(s)), D::num(s.size()), card, o.c.str().c_str());
  Q(D::num(icl::length(s)) == M::length(o), "length %g, content has %g: %s", D::num(icl::length(s)), M::length(o), o.c.str().c_str());
  if constexpr (D::has_distance)
    Q(D::num(icl::distance(s)) == M::distance(o), "distance %g, content has %g: %s", D::num(icl::distance(s)), M::distance(o), o.c.str().c_str());
  { itv h = icl::hull(s); Range r; bool ok = D::decode(h, r);
    if (n == 0) Q(icl::is_empty(h), "the hull of an empty container is not empty");
    else {
      Q(ok && r.lo == g[0].lo && r.hi == g[n - 1].hi, "hull [%d,%d) instead of [%d,%d)", r.lo, r.hi, g[0].lo, g[n - 1].hi);
      const itv& a = icl::key_value<Ct>(s.begin()); const itv& z = icl::key_value<Ct>(s.rbegin());
      Q(icl::lower(s) == icl::lower(a) && icl::upper(s) == icl::upper(z), "lower or upper border of the container differs from its outermost segments");
      if constexpr (D::discrete) Q(icl::first(s) == D::elem(g[0].lo) && icl::last(s) == D::elem(g[n - 1].hi - 1), "first/last element %d/%d instead of %d/%d", D::atom_of(icl::first(s)), D::atom_of(icl::last(s)), g[0].lo, g[n - 1].hi - 1);
    }
  }
  { // reverse iteration shows the same segments
    int k = n; for (auto it = s.rbegin(); it != s.rend() && !C.bad; ++it) { --k; Range r; bool ok = k >= 0 && D::decode(icl::key_value<Ct>(it), r) && r.lo == g[k].lo && r.hi == g[k].hi; Q(ok, "reverse iteration differs from forward iteration at segment %d", k); }
    Q(k == 0, "reverse iteration shows %d segments too few", k);
  }
  // elements
  for (int i = 0; i < D::A && !C.bad; ++i) {
    if (!M::point(i)) continue;
    dom x = D::elem(i); int k = containing(g, i); bool in = k < n;
    Q(index_of(s, icl::find(s, x)) == k, "find(element %d) gives segment %d instead of %d of %s", i, index_of(s, icl::find(s, x)), k, o.c.str().c_str());
    Q(icl::contains(s, x) == (in || total), "contains(element %d) is %d in %s", i, (int)icl::contains(s, x), o.c.str().c_str());
    if (i % 4 == op.a[4] % 4) {
      Q(icl::within(x, s) == (in || total), "within(element %d) is wrong for %s", i, o.c.str().c_str());
      Q(index_of(s, s.find(x)) == k, "member find(element %d) is wrong for %s", i, o.c.str().c_str());
      Q(icl::intersects(s, x) == (in || total) && icl::disjoint(s, x) == !(in || total), "intersects/disjoint(element %d) is wrong for %s", i, o.c.str().c_str());
    }
  }
  // intervals
  Rng rng = query_rng(op, 1);
  for (int t = 0; t < 5 && !C.bad; ++t) {
    int a, b, bn; random_interval<D>(rng, grid, a, b, bn);
    if (t == 4 && n && rng.chance(700)) { // exactly the borders of segments
      int i = rng.chance(500) ? 0 : (int)rng.below(n), j = rng.chance(500) ? n - 1 : (int)rng.below(n); if (i > j) std::swap(i, j);
      itv x = icl::hull(icl::key_value<Ct>(std::next(s.begin(), i)), icl::key_value<Ct>(std::next(s.begin(), j))); Range r; D::decode(x, r);
      bool all = true; for (int i = r.lo; i < r.hi; ++i) all &= o.c.has(i);
      Q(icl::contains(s, x) == (all || total), "contains(hull of segments [%d,%d)) is wrong for %s", r.lo, r.hi, o.c.str().c_str());
      continue;
    }
    itv x = D::make(a, b, bn); Range r = D::range(a, b, bn);
    bool all = true, some = false; for (int i = r.lo; i < r.hi; ++i) { all &= o.c.has(i); some |= o.c.has(i); }
    Q(icl::contains(s, x) == (all || total), "contains(interval [%d,%d)) is %d in %s", r.lo, r.hi, (int)icl::contains(s, x), o.c.str().c_str());
    Q(icl::within(x, s) == (all || total), "within(interval [%d,%d)) is wrong for %s", r.lo, r.hi, o.c.str().c_str());
    Q(icl::intersects(s, x) == some && icl::disjoint(s, x) == !some, "intersects/disjoint(interval [%d,%d)) is wrong for %s", r.lo, r.hi, o.c.str().c_str());
    if (r.empty()) continue;
    int lb = first_reaching(g, r.lo), ub = first_after(g, r.hi);
    Q(index_of(s, s.lower_bound(x)) == lb, "lower_bound([%d,%d)) gives segment %d instead of %d of %s", r.lo, r.hi, index_of(s, s.lower_bound(x)), lb, o.c.str().c_str());
    Q(index_of(s, s.upper_bound(x)) == ub, "upper_bound([%d,%d)) gives segment %d instead of %d of %s", r.lo, r.hi, index_of(s, s.upper_bound(x)), ub, o.c.str().c_str());
    auto er = s.equal_range(x);
    Q(index_of(s, er.first) == lb && index_of(s, er.second) == ub, "equal_range([%d,%d)) is wrong for %s", r.lo, r.hi, o.c.str().c_str());
    int f = some ? lb : n;
    Q(index_of(s, s.find(x)) == f && index_of(s, icl::find(s, x)) == f, "find([%d,%d)) is wrong for %s", r.lo, r.hi, o.c.str().c_str());
  }
  // two segments against each other, in both orders
  if (n && !C.bad) {
    int i = (int)rng.below(n), j = (int)rng.below(n); if (i > j) std::swap(i, j);
    const itv a = icl::key_value<Ct>(std::next(s.begin(), i)), b = icl::key_value<Ct>(std::next(s.begin(), j));
    const int gap_lo = g[i].hi, gap_hi = g[j].lo; Range r;
    Q(icl::exclusive_less(a, b) == (i < j) && !icl::exclusive_less(b, a), "exclusive_less is wrong for segments %d and %d of %s", i, j, o.c.str().c_str());
    Q(icl::touches(a, b) == (i < j && gap_lo == gap_hi) && !icl::touches(b, a), "touches is wrong for segments %d and %d of %s", i, j, o.c.str().c_str());
    Q(icl::contains(a, b) == (i == j) && icl::within(b, a) == (i == j) && icl::intersects(a, b) == (i == j) && icl::disjoint(b, a) == (i != j), "a relation of segments %d and %d of %s is wrong", i, j, o.c.str().c_str());
    if constexpr (!is_own<itv>::value) // their comparison is not found from here
      Q((a < b) == (i < j) && !(b < a) && (a <= b) && (b <= a) == (i == j) && (b > a) == (i < j) && !(a > b) && (b >= a) && (a >= b) == (i == j) && (a == b) == (i == j) && (a != b) == (i != j), "segments %d and %d of %s are ordered wrongly", i, j, o.c.str().c_str());
    { Obs one; one.c = Cont(D::A); one.segs.push_back(g[i]); for (int e = g[i].lo; e < g[i].hi; ++e) one.c.val[e] = 1;
      long n1 = M::card(one);
      Q(n1 < 0 ? icl::cardinality(a) == icl::infinity<size_type>::value() : D::num(icl::cardinality(a)) == (double)n1 && D::num(icl::size(a)) == (double)n1, "the cardinality of segment %d of %s is wrong", i, o.c.str().c_str());
      Q(D::num(icl::length(a)) == M::length(one), "the length of segment %d of %s is %g", i, o.c.str().c_str(), D::num(icl::length(a)));
      for (int e = 0; e < D::A; ++e) if (M::point(e)) Q(icl::contains(a, D::elem(e)) == (g[i].lo <= e && e < g[i].hi), "segment %d of %s and element %d", i, o.c.str().c_str(), e);
    }
    for (int order = 0; order < 2 && !C.bad; ++order) {
      const itv &x = order ? b : a, &y = order ? a : b;
      itv h = icl::hull(x, y); Q(D::decode(h, r) && r.lo == g[i].lo && r.hi == g[j].hi, "the hull of segments %d and %d of %s is wrong", i, j, o.c.str().c_str());
      itv m = icl::between(x, y);
      if (i < j && gap_lo < gap_hi) Q(D::decode(m, r) && r.lo == gap_lo && r.hi == gap_hi, "the gap between segments %d and %d of %s is wrong", i, j, o.c.str().c_str());
      else Q(icl::is_empty(m), "there is no gap between segments %d and %d of %s", i, j, o.c.str().c_str());
      if constexpr (D::has_distance) {
        double want = i == j ? 0 : D::discrete ? gap_hi - gap_lo : M::lo_border(gap_hi) - M::hi_border(gap_lo);
        Q(D::num(icl::distance(x, y)) == want, "the distance of segments %d and %d is %g in %s", i, j, D::num(icl::distance(x, y)), o.c.str().c_str());
      }
    }
  }
  // a segment against any interval
  if (n && !C.bad) {
    const int i = (int)rng.below(n); int xa, xb, xn; random_interval<D>(rng, grid, xa, xb, xn);
    const itv a = icl::key_value<Ct>(std::next(s.begin(), i)), x = D::make(xa, xb, xn);
    const Range p{g[i].lo, g[i].hi}, q = D::range(xa, xb, xn); Range r;
    auto is = [&](const itv& y, int lo, int hi) { return lo < hi ? D::decode(y, r) && r.lo == lo && r.hi == hi : icl::is_empty(y); };
    const int ml = std::max(p.lo, q.lo), mh = std::min(p.hi, q.hi); const bool meet = !q.empty() && ml < mh;
    #define SQ(cond, what) Q(cond, "segment [%d,%d) and interval [%d,%d): " what " is wrong", p.lo, p.hi, q.lo, q.hi)
    SQ(icl::is_empty(x) == q.empty(), "is_empty");
    SQ(icl::operator==(a, x) == (p.lo == q.lo && p.hi == q.hi) && icl::operator==(x, a) == icl::operator==(a, x) && icl::operator!=(a, x) == !icl::operator==(a, x), "equality");
    SQ(q.empty() || icl::operator<(a, x) == (p.lo < q.lo || (p.lo == q.lo && p.hi < q.hi)) && icl::operator<(x, a) == (q.lo < p.lo || (p.lo == q.lo && q.hi < p.hi)), "order");
    for (int e = 0; e < D::A; ++e) if (M::point(e)) { const bool in = q.lo <= e && e < q.hi; SQ(icl::contains(x, D::elem(e)) == in, "containedness of an element"); }
    SQ(q.empty() ? icl::is_empty(icl::operator&(a, x)) && icl::is_empty(icl::operator&(x, a)) : is(icl::operator&(a, x), ml, mh) && is(icl::operator&(x, a), ml, mh), "intersection");
    SQ(icl::intersects(a, x) == meet && icl::intersects(x, a) == meet && icl::disjoint(a, x) == !meet && icl::disjoint(x, a) == !meet, "intersects or disjoint");
    SQ(icl::contains(a, x) == (q.empty() || (p.lo <= q.lo && q.hi <= p.hi)) && icl::within(a, x) == (!q.empty() && q.lo <= p.lo && p.hi <= q.hi), "contains or within");
    { const int hl = q.empty() ? p.lo : std::min(p.lo, q.lo), hh = q.empty() ? p.hi : std::max(p.hi, q.hi); SQ(is(icl::hull(a, x), hl, hh) && is(icl::hull(x, a), hl, hh), "hull"); }
    if (!q.empty()) {
      SQ(icl::exclusive_less(a, x) == (p.hi <= q.lo) && icl::exclusive_less(x, a) == (q.hi <= p.lo), "exclusive_less");
      SQ(icl::touches(a, x) == (p.hi == q.lo) && icl::touches(x, a) == (q.hi == p.lo), "touches");
      SQ(is(icl::between(a, x), std::min(p.hi, q.hi), std::max(p.lo, q.lo)) && is(icl::between(x, a), std::min(p.hi, q.hi), std::max(p.lo, q.lo)), "between");
      // what is left of one when the other is taken away on one side: asked where something is left (the library represents nothing at the ends of the domain by no interval at all)
      if (p.hi < q.hi) SQ(is(icl::left_subtract(x, a), std::max(q.lo, p.hi), q.hi), "left_subtract");
      if (q.hi < p.hi) SQ(is(icl::left_subtract(a, x), std::max(p.lo, q.hi), p.hi), "left_subtract (reversed)");
      if (q.lo < p.lo) SQ(is(icl::right_subtract(x, a), q.lo, std::min(q.hi, p.lo)), "right_subtract");
      if (p.lo < q.lo) SQ(is(icl::right_subtract(a, x), p.lo, std::min(p.hi, q.lo)), "right_subtract (reversed)");
      if constexpr (D::has_distance) {
        const int lo = std::min(p.hi, q.hi), hi = std::max(p.lo, q.lo); const double want = hi <= lo ? 0 : D::discrete ? hi - lo : M::lo_border(hi) - M::hi_border(lo);
        SQ(D::num(icl::distance(a, x)) == want && D::num(icl::distance(x, a)) == want, "distance");
      }
    }
    #undef SQ
  }
  // gaps
  if (op.a[4] % 2) {
    Gaps gaps; icl::between(gaps, s); Obs q = observe_segments<D>(gaps, [](auto it) -> const itv& { return *it; }, [](auto) { return 1L; });
    bool ok = !q.bad; for (int i = 0; i < D::A && ok; ++i) ok = q.c.has(i) == (n && i > g[0].lo && i < g[n - 1].hi && !o.c.has(i));
    Q(ok, "gaps %s of %s", q.c.str().c_str(), o.c.str().c_str());
  }
}

template <class D, class Ct, class Check> void element_iteration(const Ct& s, const Obs& o, const Op& op, Check check) {
  if constexpr (D::discrete && !is_own<typename D::itv>::value) { // not offered for user defined interval classes
    std::vector<int> want; for (int i = 0; i < D::A; ++i) if (o.c.has(i)) want.push_back(i);
    size_t k = 0; const size_t n = want.size();
    for (auto it = icl::elements_begin(s); it != icl::elements_end(s) && k < n + 1 && !C.bad; ++it, ++k) Q(k < n && check(*it, want[k]), "element iteration is wrong at position %zu of %s", k, o.c.str().c_str());
    Q(k == n, "element iteration shows %zu of %zu elements of %s", k, n, o.c.str().c_str());
    k = n;
    for (auto it = icl::elements_rbegin(s); it != icl::elements_rend(s) && !C.bad; ++it) { Q(k > 0 && check(*it, want[k - 1]), "reverse element iteration is wrong at position %zu of %s", k, o.c.str().c_str()); if (!k) break; --k; }
    Q(k == 0, "reverse element iteration misses %zu elements of %s", k, o.c.str().c_str());
    if (!C.sink && op.a[4] % 4 == 3 && !C.bad) { // iterators into a container that may be changed
      Ct m(s); k = 0;
      for (auto it = icl::elements_begin(m); it != icl::elements_end(m) && k < n + 1 && !C.bad; ++it, ++k) Q(k < n && check(*it, want[k]), "element iteration (not const) is wrong at position %zu of %s", k, o.c.str().c_str());
      for (auto it = icl::elements_rbegin(m); it != icl::elements_rend(m) && !C.bad; ++it) { Q(k > 0 && check(*it, want[k - 1]), "reverse element iteration (not const) is wrong at position %zu of %s", k, o.c.str().c_str()); if (!k) break; --k; }
      Q(k == 0, "reverse element iteration (not const) misses %zu elements of %s", k, o.c.str().c_str());
      for (auto x : icl::elements(m)) { Q(k < n && check(x, want[k]), "the element range (not const) is wrong at position %zu of %s", k, o.c.str().c_str()); if (++k > n) break; }
      const Ct& cm = m; k = 0; for (auto x : icl::elements(cm)) { Q(k < n && check(x, want[k]), "the element range is wrong at position %zu of %s", k, o.c.str().c_str()); if (++k > n) break; }
      Q(k == n, "the element range shows %zu of %zu elements of %s", k, n, o.c.str().c_str());
      k = o.segs.size(); for (auto it = m.rbegin(); it != m.rend() && !C.bad; ++it) { --k; Range r; Q(D::decode(icl::key_value<Ct>(it), r) && r.lo == o.segs[k].lo && r.hi == o.segs[k].hi, "reverse iteration (not const) differs at segment %zu", k); }
    }
    if (n && !C.bad) { // back and forth
      auto it = icl::elements_end(s); k = n;
      for (size_t step = 0; step < n && !C.bad; ++step) { --it; --k; Q(check(*it, want[k]), "stepping back over elements is wrong at position %zu of %s", k, o.c.str().c_str()); }
      Q(it == icl::elements_begin(s), "stepping back over all elements does not arrive at the first of %s", o.c.str().c_str());
      for (size_t step = 1; step < n && step < 5 && !C.bad; ++step) { ++it; ++k; Q(check(*it, want[k]), "stepping forth over elements is wrong at position %zu of %s", k, o.c.str().c_str()); }
      if (n > 2) { --it; if (k) --k; Q(check(*it, want[k]), "turning back over elements is wrong at position %zu of %s", k, o.c.str().c_str()); }
    }
  }
}

template <class D, class X, class Y> void pair_queries(const X& x, const Obs& ox, const Y& y, const Obs& oy);
template <class D, class K, class Tr, class X, class Y> void map_pair_queries(const X& x, const Obs& ox, const Y& y, const Obs& oy);

template <class D, class Ct> void set_queries(const Ct& s, const Obs& o, const Op& op, int grid) { if constexpr (D::queryable) {
  typedef typename D::JSet Gaps;
  common_queries<D>(s, o, op, grid, (const Ct*)nullptr, false); (void)sizeof(Gaps);
  element_iteration<D>(s, o, op, [](auto x, int atom) { return x == D::elem(atom); });
  if (op.a[4] % 8 == 1) pair_queries<D>(s, o, s, o); // a container and itself
  if (op.a[4] % 4 == 2) { Ct d; icl::domain(d, s); Obs q = observe_segments<D>(d, [](auto it) -> const typename D::itv& { return *it; }, [](auto) { return 1L; }); Q(!q.bad && q.c.val == o.c.val, "domain of %s is %s", o.c.str().c_str(), q.c.str().c_str()); }
  Obs again = observe_segments<D>(s, [](auto it) -> const typename D::itv& { return *it; }, [](auto) { return 1L; });
  Q(again.c == o.c, "a query changed the container from %s to %s", o.c.str().c_str(), again.c.str().c_str());
}}

inline int seg_cmp(bool descending, const Segs& a, const Segs& b, const std::function<int(long, long)>& vcmp) { // lexicographic, segments compared by Compare<segment>: (lower, upper, value), reversed for a descending order
  const int up = descending ? 1 : -1;
  size_t n = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = 0; i < n; ++i) {
    if (a[i].lo != b[i].lo) return a[i].lo < b[i].lo ? up : -up;
    if (a[i].hi != b[i].hi) return a[i].hi < b[i].hi ? up : -up;
    if (int c = vcmp(a[i].v, b[i].v)) return descending ? -c : c;
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
template <class X> void order_queries(const X& x, const X& y, int c, const Obs& ox, const Obs& oy) {
  Q((x == y) == (c == 0) && (x != y) == (c != 0), "== or != is wrong for %s and %s", ox.c.str().c_str(), oy.c.str().c_str());
  Q((x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0), "an ordering operator is wrong for %s and %s", ox.c.str().c_str(), oy.c.str().c_str());
}
// lexicographic order of two contents as sequences of elements (continuous: of point and gap atoms), values by vcmp
inline int elem_cmp(const Cont& a, const Cont& b, const std::function<int(long, long)>& vcmp) {
  for (int i = 0; i < a.size(); ++i) {
    if (!a.has(i) && !b.has(i)) continue;
    if (a.has(i) && b.has(i)) { if (int c = vcmp(a.val[i], b.val[i])) return c; continue; }
    const Cont& o = a.has(i) ? b : a; bool more = false; for (int k = i + 1; k < a.size(); ++k) more |= o.has(k); // the other one ends here, or goes on later
    return a.has(i) == more ? -1 : 1;
  }
  return 0;
}
inline int inclusion_of(bool sub, bool super) { return (sub ? 1 : 0) | (super ? 2 : 0); }

template <class D, class X, class Y> void pair_queries(const X& x, const Obs& ox, const Y& y, const Obs& oy) {
  if (C.bad || ox.bad || oy.bad) return;
  const Cont &a = ox.c, &b = oy.c; bool sub = subset(a, b), super = subset(b, a), meet = meets(a, b);
  const std::string sa = a.str(), sb = b.str();
  Q(icl::contains(x, y) == super, "contains is %d for %s and %s", (int)icl::contains(x, y), sa.c_str(), sb.c_str());
  Q(icl::within(x, y) == sub, "within is %d for %s and %s", (int)icl::within(x, y), sa.c_str(), sb.c_str());
  Q(icl::intersects(x, y) == meet && icl::disjoint(x, y) == !meet, "intersects is %d for %s and %s", (int)icl::intersects(x, y), sa.c_str(), sb.c_str());
  Q(icl::is_element_equal(x, y) == (sub && super), "is_element_equal is %d for %s and %s", (int)icl::is_element_equal(x, y), sa.c_str(), sb.c_str());
  Q(icl::inclusion_compare(x, y) == inclusion_of(sub, super), "inclusion_compare is %d for %s and %s", icl::inclusion_compare(x, y), sa.c_str(), sb.c_str());
  { int c = elem_cmp(a, b, [](long, long) { return 0; });
    Q(icl::is_element_less(x, y) == (c < 0) && icl::is_element_greater(x, y) == (c > 0), "is_element_less/greater is %d/%d for %s and %s", (int)icl::is_element_less(x, y), (int)icl::is_element_greater(x, y), sa.c_str(), sb.c_str()); }
  if constexpr (std::is_same<X, Y>::value) order_queries(x, y, seg_cmp(D::descending, ox.segs, oy.segs, [](long, long) { return 0; }), ox, oy);
}

// ---- maps
template <class D, class K, class Tr, class Ct> void map_queries(const Ct& s, const Obs& o, const Op& op, int grid) { if constexpr (D::queryable) {
  typedef typename Ct::set_type Gaps; typedef typename D::itv itv; typedef typename D::dom dom;
  common_queries<D>(s, o, op, grid, (const typename D::JSet*)nullptr, Kind<Tr>::is_total);
  element_iteration<D>(s, o, op, [&](const auto& x, int atom) {
    if (!(x.first == D::elem(atom) && K::un(x.second) == o.c.val[atom])) return false;
    // a reference to an element compares like a pair of key and value
    int to = (atom + op.a[4] / 8 % 3 - 1 + D::A) % D::A; long v = K::value(op.a[4]); auto kv = K::mk(v);
    const std::pair<dom, typename K::T> y(D::elem(to), o.c.has(to) && op.a[4] % 2 ? K::mk(o.c.val[to]) : kv);
    std::pair<dom, typename K::T> z(D::elem(atom), K::mk(o.c.val[atom]));
    auto ref = x; const std::pair<dom, typename K::T> same = ref;
    bool less = z.first < y.first || (!(y.first < z.first) && z.second < y.second), more = y.first < z.first || (!(z.first < y.first) && y.second < z.second);
    return same == z && (x == y) == (z == y) && (x != y) == !(z == y) && (x < y) == less && (x > y) == more && (x <= y) == !more && (x >= y) == !less;
  });
  for (int i = 0; i < D::A && !C.bad; ++i) {
    if (!Measure<D>::point(i)) continue;
    long want = o.c.has(i) ? o.c.val[i] : 0;
    Q(K::un(s(D::elem(i))) == want, "the map reads %ld at element %d of %s", K::un(s(D::elem(i))), i, o.c.str().c_str());
  }
  Rng rng = query_rng(op, 2);
  for (int t = 0; t < 4 && !C.bad; ++t) {
    int a, b, bn; random_interval<D>(rng, grid, a, b, bn); Range r = D::range(a, b, bn); long v = K::value((int)rng.below(8));
    if (rng.chance(600) && !r.empty() && o.c.has(r.lo)) v = o.c.val[r.lo];
    const typename Ct::segment_type seg(D::make(a, b, bn), K::mk(v));
    bool all = true; for (int i = r.lo; i < r.hi; ++i) all &= o.c.has(i) && o.c.val[i] == v;
    Q(icl::contains(s, seg) == all, "contains(segment [%d,%d)=%ld) is wrong for %s", r.lo, r.hi, v, o.c.str().c_str());
    if constexpr (D::has_elem) {
      int e = D::elem_atom((int)rng.below(64), grid); long w = o.c.has(e) && rng.chance(600) ? o.c.val[e] : v;
      const typename Ct::element_type kv(D::elem(e), K::mk(w));
      Q(icl::contains(s, kv) == (o.c.has(e) && o.c.val[e] == w), "contains(pair %d=%ld) is wrong for %s", e, w, o.c.str().c_str());
      if constexpr (Kind<Tr>::is_total) Q(icl::intersects(s, kv), "a total map does not intersect a pair");
      else if (!K::is_set && !(Kind<Tr>::absorbs_identities && w == 0))
        Q(icl::intersects(s, kv) == (o.c.has(e) && (!Kind<Tr>::absorbs_identities || K::comb(o.c.val[e], w) != 0)), "intersects(pair %d=%ld) is wrong for %s", e, w, o.c.str().c_str());
    }
    if constexpr (Kind<Tr>::is_total) { Q(icl::intersects(s, seg), "a total map does not intersect a segment"); }
    if (!Kind<Tr>::is_total && !K::is_set) { // the intersection of values decides: the values themselves are combined
      bool hit = false; for (int i = r.lo; i < r.hi; ++i) if (o.c.has(i)) hit |= !Kind<Tr>::absorbs_identities || K::comb(o.c.val[i], v) != 0;
      if (!(Kind<Tr>::absorbs_identities && v == 0)) Q(icl::intersects(s, seg) == hit, "intersects(segment [%d,%d)=%ld) is wrong for %s", r.lo, r.hi, v, o.c.str().c_str());
    }
  }
  if (op.a[4] % 8 == 1) map_pair_queries<D, K, Tr>(s, o, s, o); // a container and itself
  if (op.a[4] % 4 == 2 && !C.bad) {
    Gaps d; icl::domain(d, s); Obs q = observe_segments<D>(d, [](auto it) -> const itv& { return *it; }, [](auto) { return 1L; });
    bool ok = !q.bad; for (int i = 0; i < D::A && ok; ++i) ok = q.c.has(i) == o.c.has(i);
    Q(ok, "domain of %s is %s", o.c.str().c_str(), q.c.str().c_str());
  }
  Obs again = observe_segments<D>(s, [](auto it) -> const itv& { return (*it).first; }, [](auto it) { return K::un((*it).second); });
  Q(again.c == o.c, "a query changed the container from %s to %s", o.c.str().c_str(), again.c.str().c_str());
}}

template <class D, class K, class Tr, class X, class Y> void map_pair_queries(const X& x, const Obs& ox, const Y& y, const Obs& oy) {
  if (C.bad || ox.bad || oy.bad) return;
  const Cont &a = ox.c, &b = oy.c; const std::string sa = a.str(), sb = b.str();
  auto le = [](long p, long q) { return K::is_set ? (p & ~q) == 0 : p == q; };
  bool sub = true, super = true, equal = true;
  for (int i = 0; i < a.size(); ++i) {
    if (a.has(i) && !(b.has(i) && le(a.val[i], b.val[i]))) sub = false;
    if (b.has(i) && !(a.has(i) && le(b.val[i], a.val[i]))) super = false;
    if (a.val[i] != b.val[i]) equal = false;
  }
  Q(icl::contains(x, y) == super, "contains is %d for %s and %s", (int)icl::contains(x, y), sa.c_str(), sb.c_str());
  Q(icl::within(x, y) == sub, "within is %d for %s and %s", (int)icl::within(x, y), sa.c_str(), sb.c_str());
  Q(icl::is_element_equal(x, y) == equal, "is_element_equal is %d for %s and %s", (int)icl::is_element_equal(x, y), sa.c_str(), sb.c_str());
  Q(icl::inclusion_compare(x, y) == inclusion_of(sub, super), "inclusion_compare is %d for %s and %s", icl::inclusion_compare(x, y), sa.c_str(), sb.c_str());
  if (Kind<Tr>::is_total) Q(icl::intersects(x, y), "total maps do not intersect: %s and %s", sa.c_str(), sb.c_str());
  else if (!K::is_set) {
    bool meet = false; for (int i = 0; i < a.size(); ++i) if (a.has(i) && b.has(i)) meet |= !Kind<Tr>::absorbs_identities || (K::comb(a.val[i], b.val[i]) != 0);
    Q(icl::intersects(x, y) == meet && icl::disjoint(x, y) == !meet, "intersects is %d for %s and %s", (int)icl::intersects(x, y), sa.c_str(), sb.c_str());
  }
  auto vcmp = [](long p, long q) { auto u = K::mk(p), v = K::mk(q); return u < v ? -1 : v < u ? 1 : 0; };
  { int c = elem_cmp(a, b, vcmp);
    Q(icl::is_element_less(x, y) == (c < 0) && icl::is_element_greater(x, y) == (c > 0), "is_element_less/greater is %d/%d for %s and %s", (int)icl::is_element_less(x, y), (int)icl::is_element_greater(x, y), sa.c_str(), sb.c_str()); }
  if constexpr (std::is_same<X, Y>::value) {
    order_queries(x, y, seg_cmp(D::descending, ox.segs, oy.segs, vcmp), ox, oy);
    Segs p, q; for (const Seg& g : ox.segs) if (g.v) p.push_back(g); for (const Seg& g : oy.segs) if (g.v) q.push_back(g);
    bool deq = p.size() == q.size(); for (size_t i = 0; i < p.size() && deq; ++i) deq = p[i].lo == q[i].lo && p[i].hi == q[i].hi && p[i].v == q[i].v;
    Q(icl::is_distinct_equal(x, y) == deq && icl::distinct_equal<X>()(x, y) == deq, "is_distinct_equal is %d for %s and %s", (int)icl::is_distinct_equal(x, y), sa.c_str(), sb.c_str());
    Q(icl::element_equal<X>()(x, y) == equal && icl::std_equal<X>()(x, y) == (x == y) && icl::sub_super_set<X>()(x, y) == sub && icl::super_sub_set<X>()(x, y) == super, "a predicate object is wrong for %s and %s", sa.c_str(), sb.c_str());
  }
}
template <class D, class K, class Tr, class X, class Y> void map_key_queries(const X& x, const Obs& ox, const Y& y, const Obs& oy) {
  if (C.bad || ox.bad || oy.bad) return;
  const Cont &a = ox.c, &b = oy.c; bool meet = meets(a, b), super = subset(b, a); const std::string sa = a.str(), sb = b.str();
  if constexpr (!Kind<Tr>::is_total) { // not offered for total maps
  Q(icl::contains(x, y) == (super), "contains(key set) is %d for %s and %s", (int)icl::contains(x, y), sa.c_str(), sb.c_str());
  Q(icl::within(y, x) == (super), "within(key set) is %d for %s and %s", (int)icl::within(y, x), sa.c_str(), sb.c_str());
  }
  Q(icl::intersects(x, y) == meet && icl::disjoint(x, y) == !meet, "intersects(key set) is %d for %s and %s", (int)icl::intersects(x, y), sa.c_str(), sb.c_str());
  Q(icl::inclusion_compare(x, y) == inclusion_of(subset(a, b), super), "inclusion_compare(key set) is %d for %s and %s", icl::inclusion_compare(x, y), sa.c_str(), sb.c_str());
}
#endif
} // namespace sim
