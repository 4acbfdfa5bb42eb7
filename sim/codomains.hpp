// Codomains: value types with an integer encoding, and the arithmetic of their combiners for the reference model.
#pragma once
#include "domains.hpp"
#include <boost/icl/functors.hpp>
#include <boost/icl/set.hpp>
#include <boost/icl/map.hpp>
#include <boost/icl/interval_set.hpp>
#include <boost/icl/iterator.hpp>

namespace sim {

// what the names of the four kinds of maps promise, whatever the library's own constants say
template <class Tr> struct Kind;
template <> struct Kind<icl::partial_absorber> { static const bool is_total = false, absorbs_identities = true; };
template <> struct Kind<icl::partial_enricher> { static const bool is_total = false, absorbs_identities = false; };
template <> struct Kind<icl::total_absorber> { static const bool is_total = true, absorbs_identities = true; };
template <> struct Kind<icl::total_enricher> { static const bool is_total = true, absorbs_identities = false; };

struct K_int { // sums
  typedef int T; template <class X> using Comb = icl::inplace_plus<X>;
  static T mk(long v) { return (int)v; } static long un(const T& x) { return x; }
  static long value(int k) { static const long t[] = {0, 1, 2, 1, 3, -1, 1, -2}; return t[k & 7]; }
  static long comb(long a, long b) { return a + b; } static long inv(long a, long b) { return a - b; } static long inv_version(long v) { return -v; }
  static const bool is_set = false, has_inverse = true, atomic = true, commutes = true; static const char* name() { return "int.plus"; }
};
struct K_led : K_int { // sums of value objects whose copies and combinations can fail
  typedef Led T; template <class X> using Comb = icl::inplace_plus<X>;
  static T mk(long v) { return Led((int)v); } static long un(const T& x) { return x.v; }
  static const bool has_inverse = false; static const char* name() { return "object.plus"; }
};
template <class X> struct Overwrite : icl::identity_based_inplace_combine<X> { // a user's combiner, not commutative: the last value counts
  typedef Overwrite<X> type;
  void operator()(X& object, const X& operand) const { object = operand; }
};
struct K_own : K_led {
  template <class X> using Comb = Overwrite<X>;
  static long comb(long, long b) { return b; } static long inv(long a, long b) { return a == b ? 0 : a; } static long inv_version(long v) { return v; }
  static const bool commutes = false; static const char* name() { return "object.last"; }
};
template <class X> struct Append : icl::identity_based_inplace_combine<X> { // words: every contribution counts, and their order
  typedef Append<X> type;
  void operator()(X& object, const X& operand) const { object.append(operand); }
};
struct K_word : K_led {
  template <class X> using Comb = Append<X>;
  static long value(int k) { static const long t[] = {0, 1, 2, 1, 3, 6, 1, 9}; return t[k & 7]; }
  static long comb(long a, long b) { return Led::joined(a, b); } static long inv(long a, long b) { return a == b ? 0 : a; } static long inv_version(long v) { return v; }
  static const bool commutes = false; static const char* name() { return "object.word"; }
};
template <class N> struct K_num : K_int { // sums of other numbers
  typedef N T; static T mk(long v) { return (N)v; } static long un(const T& x) { return x == (N)(long)x ? (long)x : 99; }
  static const char* name() { return sizeof(N) == 2 ? "short.plus" : sizeof(N) > 8 ? "long_double.plus" : (N)0.5 > 0 ? sizeof(N) == 4 ? "float.plus" : "double.plus" : "long.plus"; }
};
struct K_short : K_num<short> {}; struct K_long : K_num<long> {}; struct K_float : K_num<float> {}; struct K_dbl : K_num<double> {}; struct K_ldbl : K_num<long double> {};
struct K_llong : K_num<long long> { static const char* name() { return "long_long.plus"; } };
struct K_first : K_int { // the first value counts
  template <class X> using Comb = icl::inplace_identity<X>;
  static long comb(long a, long) { return a; } static long inv(long a, long b) { return a == b ? 0 : a; } static long inv_version(long v) { return v; }
  static const bool has_inverse = false, commutes = false; static const char* name() { return "int.first"; }
};
struct K_star { // products of signs; what is absorbed is zero
  typedef double T; template <class X> using Comb = icl::inplace_star<X>;
  static T mk(long v) { return v == 0 ? 0.0 : v == 1 ? 1.0 : -1.0; } static long un(const T& x) { return x == 0 ? 0 : x == 1 ? 1 : x == -1 ? 2 : 9; }
  static long value(int k) { static const long t[] = {0, 1, 2, 1, 2, 2, 1, 2}; return t[k & 7]; }
  static long comb(long a, long b) { return a * b == 0 ? 0 : a == b ? 1 : 2; } static long inv(long a, long b) { return comb(a, b); } static long inv_version(long v) { return v; }
  static const bool is_set = false, has_inverse = false, atomic = true, commutes = true; static const char* name() { return "double.product"; }
};
struct K_max { // extremal values
  typedef int T; template <class X> using Comb = icl::inplace_max<X>;
  static T mk(long v) { return (int)v; } static long un(const T& x) { return x; }
  static long value(int k) { static const long t[] = {0, 1, 2, 1, 3, -1, 4, -2}; return t[k & 7]; }
  static long comb(long a, long b) { return a < b ? b : a; } static long inv(long a, long b) { return a < b ? a : b; } static long inv_version(long v) { return v; }
  static const bool is_set = false, has_inverse = true, atomic = true, commutes = true; static const char* name() { return "int.max"; }
};
struct K_min : K_max {
  template <class X> using Comb = icl::inplace_min<X>;
  static long comb(long a, long b) { return a < b ? a : b; } static long inv(long a, long b) { return a < b ? b : a; }
  static const char* name() { return "int.min"; }
};
struct K_bits { // bit sets
  typedef unsigned T; template <class X> using Comb = icl::inplace_bit_add<X>;
  static T mk(long v) { return (unsigned)v; } static long un(const T& x) { return (long)x; }
  static long value(int k) { static const long t[] = {0, 1, 2, 4, 3, 5, 7, 1}; return t[k & 7]; }
  static long comb(long a, long b) { return a | b; } static long inv(long a, long b) { return a & ~b; } static long inv_version(long v) { return v; }
  static const bool is_set = false, has_inverse = false, atomic = true, commutes = true; static const char* name() { return "unsigned.bits"; }
};
struct K_xor : K_bits {
  template <class X> using Comb = icl::inplace_bit_xor<X>;
  static long comb(long a, long b) { return a ^ b; } static long inv(long a, long b) { return a & b; }
  static const char* name() { return "unsigned.xor"; }
};
struct K_set { // sets of names
  typedef std::set<int, std::less<int>, SimAlloc<int> > T; template <class X> using Comb = icl::inplace_plus<X>;
  static T mk(long v) { T s; for (int i = 0; i < 8; ++i) if (v >> i & 1) s.insert(i); return s; }
  static long un(const T& s) { long v = 0; for (int i : s) v |= 1L << i; return v; }
  static long value(int k) { static const long t[] = {1, 2, 4, 3, 5, 6, 7, 1}; return t[k & 7]; }
  static long comb(long a, long b) { return a | b; } static long inv(long a, long b) { return a & ~b; } static long inv_version(long v) { return v; }
  static const bool is_set = true, has_inverse = false, atomic = false, commutes = true; // a failing union may stop halfway
  static const char* name() { return "set.union"; }
};
struct K_iset : K_set { // interval containers inside an interval container
  typedef icl::interval_set<int, std::less, icl::discrete_interval<int>, SimAlloc> T; template <class X> using Comb = icl::inplace_plus<X>;
  static T mk(long v) { T s; for (int i = 0; i < 8; ++i) if (v >> i & 1) s.add(i); return s; }
  static const long SPLIT = 1 << 10; // segments that a failed union has left unjoined count as a different value
  static long un(const T& s) {
    long v = 0, last = -5;
    for (const auto& x : s) { if (icl::first(x) == last + 1) v |= SPLIT << last; last = icl::last(x); for (int i = icl::first(x); i <= last; ++i) v |= 1L << i; }
    return v;
  }
  static const char* name() { return "interval_set.union"; }
};
} // namespace sim
