// Domains: a grid of domain points, the atoms it induces, and the interval type over it.
#pragma once
#include "core.hpp"
#include <boost/icl/set.hpp>
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>
#include <boost/icl/interval_map.hpp>
#include <boost/icl/split_interval_map.hpp>
#include <boost/icl/map.hpp>
#include <boost/icl/interval.hpp>
#include <boost/icl/discrete_interval.hpp>
#include <boost/icl/continuous_interval.hpp>
#include <boost/icl/right_open_interval.hpp>
#include <boost/icl/left_open_interval.hpp>
#include <boost/icl/closed_interval.hpp>
#include <boost/icl/open_interval.hpp>

namespace sim {
namespace icl = boost::icl;

// interval_bounds: 0 open, 1 left open "(]", 2 right open "[)", 3 closed
struct Range { int lo, hi; bool empty() const { return lo >= hi; } };

#define SIM_CONTAINERS(CMP) \
  typedef icl::interval_set<dom, CMP, itv, SimAlloc> JSet; \
  typedef icl::separate_interval_set<dom, CMP, itv, SimAlloc> SSet; \
  typedef icl::split_interval_set<dom, CMP, itv, SimAlloc> LSet; \
  template <class Cod, class Tr, template <class> class Comb, template <class> class Sect> struct maps { \
    typedef icl::interval_map<dom, Cod, Tr, CMP, Comb, Sect, itv, SimAlloc> JMap; \
    typedef icl::split_interval_map<dom, Cod, Tr, CMP, Comb, Sect, itv, SimAlloc> LMap; \
    typedef icl::map<dom, Cod, Tr, CMP, Comb, Sect, SimAlloc> EMap; }; \
  typedef std::set<dom, CMP<dom>, SimAlloc<dom> > ESet;

// user defined interval classes, adapted by traits
struct Span { // [first,past)
  int first, past;
  Span() : first(0), past(0) {} Span(int a, int b) : first(a), past(b) {} explicit Span(int a) : first(a), past(a + 1) {}
  int lower() const { return first; }
  friend bool operator==(const Span& a, const Span& b) { return a.first == b.first && a.past == b.past; }
  friend bool operator<(const Span& a, const Span& b) { return a.first != b.first ? a.first < b.first : a.past < b.past; }
};
struct Pages { // [from,to]
  long from, to;
  Pages() : from(1), to(0) {} Pages(long a, long b) : from(a), to(b) {} explicit Pages(long a) : from(a), to(a) {}
  long lower() const { return from; }
  friend bool operator==(const Pages& a, const Pages& b) { return a.from == b.from && a.to == b.to; }
  friend bool operator<(const Pages& a, const Pages& b) { return a.from != b.from ? a.from < b.from : a.to < b.to; }
};
} // namespace sim
namespace boost { namespace icl {
template <> struct interval_traits<sim::Span> {
  typedef sim::Span interval_type; typedef int domain_type; typedef std::less<int> domain_compare;
  static interval_type construct(const domain_type& lo, const domain_type& up) { return interval_type(lo, up); }
  static domain_type lower(const interval_type& x) { return x.first; }
  static domain_type upper(const interval_type& x) { return x.past; }
};
template <> struct interval_bound_type<sim::Span> { typedef interval_bound_type type; BOOST_STATIC_CONSTANT(bound_type, value = interval_bounds::static_right_open); };
template <> struct interval_traits<sim::Pages> {
  typedef sim::Pages interval_type; typedef long domain_type; typedef std::less<long> domain_compare;
  static interval_type construct(const domain_type& lo, const domain_type& up) { return interval_type(lo, up); }
  static domain_type lower(const interval_type& x) { return x.from; }
  static domain_type upper(const interval_type& x) { return x.to; }
};
template <> struct interval_bound_type<sim::Pages> { typedef interval_bound_type type; BOOST_STATIC_CONSTANT(bound_type, value = interval_bounds::static_closed); };
}} // namespace boost::icl
namespace sim {

// ---- discrete: grid point k is atom k-1; atoms 0..A-1 are points 1..A; point 0 and A+1 only serve as open borders
template <class DomT> struct IntCodec { // points of the domain as numbers
  static DomT mk(long n) { return static_cast<DomT>(n); }
  static long un(const DomT& x) { return (long)x; }
  template <class T> static double num(const T& x) { return (double)x; } // sizes, lengths and distances
  static const bool printable = true;
};
template <class DomT> struct OwnCodec : IntCodec<DomT> { static const bool printable = false; }; // of interval classes outside the library's namespace
template <class Itv> struct is_own { static const bool value = std::is_same<Itv, Span>::value || std::is_same<Itv, Pages>::value; };
template <class DomT, class Itv, int SIGN, long OFF, class Codec = IntCodec<DomT>, int ATOMS = 24> struct DiscreteBase {
  typedef DomT dom; typedef Itv itv;
  static const int A = ATOMS;
  static const bool discrete = true, has_elem = true, descending = SIGN < 0, queryable = true, printable = Codec::printable, has_distance = !std::is_unsigned<dom>::value;
  static dom point(int k) { return Codec::mk(SIGN * (k + OFF)); }
  static long unpoint(dom x) { return SIGN * Codec::un(x) - OFF; }
  template <class T> static double num(const T& x) { return Codec::num(x); }
  static dom elem(int atom) { return point(atom + 1); }
  static int elem_atom(int k, int grid) { int n = grid < A ? grid : A; return ((k % n) + n) % n; }
  static int atom_of(dom x) { long k = unpoint(x); return k >= 1 && k <= A ? (int)k - 1 : -1; }
  static Range range(int a, int b, int bnd) { // interval with borders at points a, b
    int lo = (bnd & 2) ? a : a + 1, hi = (bnd & 1) ? b : b - 1; // first and last point
    if (lo > hi) return Range{0, 0};
    return Range{lo - 1, hi};
  }
};
template <class D, bool DYN, int BND> struct ItvMaker;
template <class D, int BND> struct ItvMaker<D, true, BND> {
  static typename D::itv make(typename D::dom l, typename D::dom u, int bnd) { return typename D::itv(l, u, icl::interval_bounds((unsigned char)bnd)); }
  static int bound(const typename D::itv& i, int) { return i.bounds().bits(); }
};
template <class D, int BND> struct ItvMaker<D, false, BND> {
  static typename D::itv make(typename D::dom l, typename D::dom u, int) { return typename D::itv(l, u); }
  static int bound(const typename D::itv&, int) { return BND; }
};

// how interval parameters (a,b,bnd) drawn over a grid of G atoms become an interval
// EDGE -1: there is no point below the first atom, 1: none above the last, 0: open borders may lie on both
template <class Base, bool DYN, int BND, int EDGE = 0> struct Discrete : Base {
  typedef typename Base::itv itv; typedef typename Base::dom dom;
  static const bool dynamic = DYN;
  typedef ItvMaker<Base, DYN, BND> M;
  // resolve parameters: returns borders in points and a bound code; universe = points 1..grid
  static void resolve(int& a, int& b, int& bnd, int grid) {
    int n = grid < Base::A ? grid : Base::A;
    bnd = DYN ? (bnd & 3) : BND;
    a = ((a % (n + 1)) + n + 1) % (n + 1); b = ((b % (n + 1)) + n + 1) % (n + 1); // 0..n
    if (EDGE < 0 && DYN && a == 0) bnd |= 2;
    if (EDGE > 0 && DYN && b == Base::A) bnd |= 1;
    // map to the point range that keeps all atoms inside 1..n
    if (bnd == 0) { b += 1; }             // (a, b+1): a..; points a+1 .. b
    else if (bnd == 2) { a += 1; b += 1; } // [a+1, b+1): points a+1..b
    else if (bnd == 3) { a += 1; }         // [a+1, b]
    if ((EDGE < 0 && b < 1) || (EDGE > 0 && a > Base::A)) { a = 2; b = 1; } // nothing, expressed with points that exist
  }
  static itv make(int a, int b, int bnd) { return M::make(Base::point(a), Base::point(b), bnd); }
  static bool decode(const itv& i, Range& r) {
    long a = Base::unpoint(icl::lower(i)), b = Base::unpoint(icl::upper(i));
    int bnd = M::bound(i, 0);
    if (a < -1000 || a > 1000 || b < -1000 || b > 1000) return false;
    r = Base::range((int)a, (int)b, bnd);
    if (r.empty()) return true;
    return r.lo >= 0 && r.hi <= Base::A;
  }
};

typedef DiscreteBase<int, icl::discrete_interval<int>, 1, -7> DB_dyn;
struct D_dyn : Discrete<DB_dyn, true, 0> { SIM_CONTAINERS(std::less) static const char* name() { return "int.dyn"; } };
typedef DiscreteBase<int, icl::right_open_interval<int>, 1, -7> DB_ro;
struct D_ro : Discrete<DB_ro, false, 2> { SIM_CONTAINERS(std::less) static const char* name() { return "int.rightopen"; } };
typedef DiscreteBase<long, icl::left_open_interval<long>, 1, -9> DB_lo;
struct D_lo : Discrete<DB_lo, false, 1> { SIM_CONTAINERS(std::less) static const char* name() { return "long.leftopen"; } };
typedef DiscreteBase<int, icl::closed_interval<int>, 1, -7> DB_cl;
struct D_cl : Discrete<DB_cl, false, 3> { SIM_CONTAINERS(std::less) static const char* name() { return "int.closed"; } };
typedef DiscreteBase<short, icl::open_interval<short>, 1, -7> DB_op;
struct D_op : Discrete<DB_op, false, 0> { SIM_CONTAINERS(std::less) static const char* name() { return "short.open"; } };
typedef DiscreteBase<unsigned, icl::discrete_interval<unsigned>, 1, 3> DB_u;
struct D_u : Discrete<DB_u, true, 0> { SIM_CONTAINERS(std::less) static const char* name() { return "unsigned.dyn"; } };
typedef DiscreteBase<int, icl::discrete_interval<int, std::greater>, -1, -7> DB_gt;
struct D_gt : Discrete<DB_gt, true, 0> { SIM_CONTAINERS(std::greater) static const char* name() { return "int.greater.dyn"; } };
typedef DiscreteBase<int, icl::right_open_interval<int, std::greater>, -1, -7> DB_gro;
struct D_gro : Discrete<DB_gro, false, 2> { SIM_CONTAINERS(std::greater) static const char* name() { return "int.greater.rightopen"; } };

// up to and down to the limits of the number type
typedef DiscreteBase<signed char, icl::discrete_interval<signed char>, 1, 103> DB_hi;
struct D_hi : Discrete<DB_hi, true, 0, 1> { SIM_CONTAINERS(std::less) static const char* name() { return "schar.to_max.dyn"; } };
typedef DiscreteBase<signed char, icl::closed_interval<signed char>, 1, 103> DB_clhi;
struct D_clhi : Discrete<DB_clhi, false, 3, 1> { SIM_CONTAINERS(std::less) static const char* name() { return "schar.to_max.closed"; } };
typedef DiscreteBase<int, icl::discrete_interval<int>, 1, INT_MIN - 1L> DB_low;
struct D_low : Discrete<DB_low, true, 0, -1> { SIM_CONTAINERS(std::less) static const char* name() { return "int.from_min.dyn"; } };
typedef DiscreteBase<unsigned char, icl::closed_interval<unsigned char>, 1, -1> DB_zero;
struct D_zero : Discrete<DB_zero, false, 3, -1> { SIM_CONTAINERS(std::less) static const char* name() { return "uchar.from_0.closed"; } };
// user defined
typedef DiscreteBase<int, Span, 1, -7, OwnCodec<int> > DB_span2;
struct D_own : Discrete<DB_span2, false, 2> { SIM_CONTAINERS(std::less) static const char* name() { return "own_class.rightopen"; } };
typedef DiscreteBase<long, Pages, 1, -7, OwnCodec<long> > DB_pages;
struct D_ownc : Discrete<DB_pages, false, 3> { SIM_CONTAINERS(std::less) static const char* name() { return "own_class.closed"; } };

// large containers: up to 64 segments in a joining, 128 in a splitting container
typedef DiscreteBase<int, icl::discrete_interval<int>, 1, -70, IntCodec<int>, 128> DB_big;
struct D_big : Discrete<DB_big, true, 0> { SIM_CONTAINERS(std::less) static const char* name() { return "int.dyn.large"; } };
typedef DiscreteBase<long, icl::right_open_interval<long>, 1, -70, IntCodec<long>, 128> DB_bigro;
struct D_bigro : Discrete<DB_bigro, false, 2> { SIM_CONTAINERS(std::less) static const char* name() { return "long.rightopen.large"; } };
// ---- continuous: grid points 0..P-1; atom 2k = point k, atom 2k+1 = the open gap (k,k+1)
struct DoubleCodec {
  typedef double dom;
  static dom mk(int k) { return k * 0.5 - 2.0; }
  static double un(dom x) { return (x + 2.0) * 2; }
  template <class T> static double num(const T& x) { return (double)x; }
  static const bool queryable = true, printable = true;
};
template <class Itv, bool DYN, int BND, class Codec = DoubleCodec> struct Continuous {
  typedef typename Codec::dom dom; typedef Itv itv;
  static const int P = 12; static const int A = 2 * P;
  static const bool discrete = false, has_elem = DYN, dynamic = DYN, descending = false, queryable = Codec::queryable, printable = Codec::printable, has_distance = true;
  static dom point(int k) { return Codec::mk(k); }
  template <class T> static double num(const T& x) { return Codec::num(x); }
  static dom elem(int atom) { return point(atom / 2); }
  static int elem_atom(int k, int grid) { int n = grid / 2 < P ? grid / 2 : P; if (n < 1) n = 1; return 2 * (((k % n) + n) % n); }
  static int atom_of(dom x) { for (int k = 0; k < P; ++k) if (point(k) == x) return 2 * k; return -1; }
  static Range range(int a, int b, int bnd) {
    if (a > b) return Range{0, 0};
    if (a == b) return bnd == 3 ? Range{2 * a, 2 * a + 1} : Range{0, 0};
    return Range{2 * a + ((bnd & 2) ? 0 : 1), 2 * b + ((bnd & 1) ? 1 : 0)};
  }
  static void resolve(int& a, int& b, int& bnd, int grid) {
    int n = grid / 2 < P ? grid / 2 : P; if (n < 2) n = 2;
    bnd = DYN ? (bnd & 3) : BND;
    a = ((a % n) + n) % n; b = ((b % n) + n) % n;
  }
  typedef ItvMaker<Continuous, DYN, BND> M;
  static itv make(int a, int b, int bnd) { return M::make(point(a), point(b), bnd); }
  static bool decode(const itv& i, Range& r) {
    double a = Codec::un(icl::lower(i)), b = Codec::un(icl::upper(i));
    if (!(a >= -100 && a <= 100 && b >= -100 && b <= 100) || a != (int)a || b != (int)b) return false;
    r = range((int)a, (int)b, M::bound(i, 0));
    return r.empty() || (r.lo >= 0 && r.hi <= A);
  }
};
struct D_cdyn : Continuous<icl::continuous_interval<double>, true, 0> { SIM_CONTAINERS(std::less) static const char* name() { return "double.dyn"; } };
struct D_cro : Continuous<icl::right_open_interval<double>, false, 2> { SIM_CONTAINERS(std::less) static const char* name() { return "double.rightopen"; } };
struct D_clo : Continuous<icl::left_open_interval<double>, false, 1> { SIM_CONTAINERS(std::less) static const char* name() { return "double.leftopen"; } };

} // namespace sim
