// C23: the work an operation does, counted in executed basic blocks, against what its documentation promises in terms of
// the number of segments n, of segments m of a container operand, and of segments the operand touches.
#pragma once
#include "domains.hpp"
#include "codomains.hpp"
#include "engine.hpp"
#include <boost/icl/iterator.hpp>
#include <cmath>

namespace sim {
extern long work_steps;

struct Limit { const char* kind; const char* op; int shape; double per_search, per_segment; };
extern const Limit work_limits[];

// what an operation may do
enum Shape {
  O_CONST,   // a constant number of steps
  O_HINT,    // ditto: an addition behind a position that fits
  O_LOG,     // searches
  O_SEG,     // searches and a constant amount per segment touched
  O_SEGLOG,  // a search per segment touched
  O_N,       // a constant amount per segment of the container
  O_NM,      // ditto of both containers
  O_MLOG,    // a search per segment of the operand and per segment touched
  O_MLOGN,   // ditto and a constant amount per segment of the container
  O_NMLOG,   // a search per segment of either
  O_ELEMS    // a constant amount per element
};

template <class D> long place(const typename D::dom& x) { if constexpr (D::discrete) return D::unpoint(x); else return (long)std::floor(DoubleCodec::un(x)); }
typedef std::vector<std::pair<long, long> > Places; // first and last point (or border) of every segment

template <class Ctx> struct WorkOp { const char* name; Shape shape; std::function<void(Ctx&)> run; };

// ---- interval sets
template <class D, int STYLE> struct WorkSet {
  typedef typename std::conditional<STYLE == ST_JOIN, typename D::JSet, typename std::conditional<STYLE == ST_SEP, typename D::SSet, typename D::LSet>::type>::type T;
  typedef typename std::conditional<STYLE == ST_JOIN, typename D::LSet, typename D::JSet>::type U;
  typedef typename D::itv itv; typedef typename D::dom dom;
  struct Ctx { T x, y; U u; T r; itv i; dom e; typename T::iterator it, it2; bool b = false; long n = 0; };
  static constexpr const char* kind() { return "set"; }
  static std::string name() { return std::string(STYLE == ST_JOIN ? "interval_set/" : STYLE == ST_SEP ? "separate_interval_set/" : "split_interval_set/") + D::name(); }
  template <class S> static void places(const S& s, Places& p) { p.clear(); for (auto it = s.begin(); it != s.end(); ++it) p.push_back({place<D>(icl::lower(*it)), place<D>(icl::upper(*it))}); }
  static void operand(Ctx& c, long a, long b, int bnd, int) { c.i = D::make((int)a, (int)b, bnd); c.e = D::point((int)a); }
  template <class S> static void append(S& s, long a, long b, int bnd, int) { s.add(s.end(), D::make((int)a, (int)b, bnd)); }
  static long elements(const Ctx& c) { long n = 0; if constexpr (D::discrete) for (auto& i : c.x) n += (long)icl::cardinality(i); return n; }
  typedef WorkOp<Ctx> Op_;
  static std::vector<Op_> ops() {
    std::vector<Op_> v = {
      {"add element", O_LOG, [](Ctx& c) { c.x.add(c.e); }}, {"insert element", O_LOG, [](Ctx& c) { icl::insert(c.x, c.e); }}, {"+= element", O_LOG, [](Ctx& c) { c.x += c.e; }},
      {"subtract element", O_LOG, [](Ctx& c) { c.x.subtract(c.e); }}, {"erase element", O_LOG, [](Ctx& c) { icl::erase(c.x, c.e); }}, {"flip element", O_LOG, [](Ctx& c) { c.x.flip(c.e); }},
      {"add interval", O_SEG, [](Ctx& c) { c.x.add(c.i); }}, {"insert interval", O_SEG, [](Ctx& c) { c.x.insert(c.i); }}, {"+= interval", O_SEG, [](Ctx& c) { c.x += c.i; }},
      {"subtract interval", O_SEG, [](Ctx& c) { c.x.subtract(c.i); }}, {"-= interval", O_SEG, [](Ctx& c) { c.x -= c.i; }}, {"erase interval", O_SEG, [](Ctx& c) { c.x.erase(c.i); }},
      {"flip interval", O_SEGLOG, [](Ctx& c) { c.x.flip(c.i); }}, {"^= interval", O_SEGLOG, [](Ctx& c) { c.x ^= c.i; }}, {"&= interval", O_N, [](Ctx& c) { c.x &= c.i; }},
      {"add at a fitting position", O_HINT, [](Ctx& c) { c.x.add(c.it, c.i); }}, {"insert at a fitting position", O_HINT, [](Ctx& c) { c.x.insert(c.it, c.i); }},
      {"icl::add at a fitting position", O_HINT, [](Ctx& c) { icl::add(c.x, c.it, c.i); }}, {"icl::insert at a fitting position", O_HINT, [](Ctx& c) { icl::insert(c.x, c.it, c.i); }},
      {"add at a position", O_SEG, [](Ctx& c) { c.x.add(c.it2, c.i); }}, {"insert at a position", O_SEG, [](Ctx& c) { c.x.insert(c.it2, c.i); }},
      {"add_intersection interval", O_SEG, [](Ctx& c) { icl::add_intersection(c.r, c.x, c.i); }}, {"add_intersection element", O_LOG, [](Ctx& c) { icl::add_intersection(c.r, c.x, c.e); }},
      {"+= set", O_MLOG, [](Ctx& c) { c.x += c.y; }}, {"|= other style", O_MLOG, [](Ctx& c) { c.x |= c.u; }}, {"insert set", O_MLOG, [](Ctx& c) { icl::insert(c.x, c.y); }},
      {"-= set", O_MLOG, [](Ctx& c) { c.x -= c.y; }}, {"erase other style", O_MLOG, [](Ctx& c) { icl::erase(c.x, c.u); }}, {"^= set", O_MLOG, [](Ctx& c) { c.x ^= c.y; }}, {"&= set", O_MLOGN, [](Ctx& c) { c.x &= c.y; }}, {"&= other style", O_MLOGN, [](Ctx& c) { c.x &= c.u; }},
      {"set + set", O_MLOGN, [](Ctx& c) { c.r = c.x + c.y; }}, {"set - set", O_MLOGN, [](Ctx& c) { c.r = c.x - c.y; }}, {"set & set", O_MLOGN, [](Ctx& c) { c.r = c.x & c.y; }}, {"set ^ set", O_MLOGN, [](Ctx& c) { c.r = c.x ^ c.y; }},
      {"contains element", O_LOG, [](Ctx& c) { c.b = icl::contains(c.x, c.e); }}, {"find element", O_LOG, [](Ctx& c) { c.b = c.x.find(c.e) == c.x.end(); }}, {"icl::find element", O_LOG, [](Ctx& c) { c.b = icl::find(c.x, c.e) == c.x.end(); }},
      {"contains interval", STYLE == ST_JOIN ? O_LOG : O_SEG, [](Ctx& c) { c.b = icl::contains(c.x, c.i); }}, {"within", STYLE == ST_JOIN ? O_LOG : O_SEG, [](Ctx& c) { c.b = icl::within(c.i, c.x); }}, {"find interval", O_LOG, [](Ctx& c) { c.b = c.x.find(c.i) == c.x.end(); }}, {"icl::find interval", O_LOG, [](Ctx& c) { c.b = icl::find(c.x, c.i) == c.x.end(); }},
      {"intersects element", O_LOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.e); }}, {"intersects interval", O_LOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.i); }}, {"disjoint interval", O_LOG, [](Ctx& c) { c.b = icl::disjoint(c.x, c.i); }},
      {"lower_bound", O_LOG, [](Ctx& c) { c.b = c.x.lower_bound(c.i) == c.x.end(); }}, {"upper_bound", O_LOG, [](Ctx& c) { c.b = c.x.upper_bound(c.i) == c.x.end(); }}, {"equal_range", O_LOG, [](Ctx& c) { c.b = c.x.equal_range(c.i).first == c.x.end(); }},
      {"contains set", O_MLOG, [](Ctx& c) { c.b = icl::contains(c.x, c.y); }}, {"contains part of itself", O_MLOG, [](Ctx& c) { c.b = icl::contains(c.x, c.r); }}, {"contains other style", O_MLOG, [](Ctx& c) { c.b = icl::within(c.u, c.x); }}, {"intersects set", O_MLOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.y); }}, {"disjoint other style", O_MLOG, [](Ctx& c) { c.b = icl::disjoint(c.x, c.u); }},
      {"iterative_size", O_CONST, [](Ctx& c) { c.n = (long)c.x.iterative_size(); }}, {"interval_count", O_CONST, [](Ctx& c) { c.n = (long)icl::interval_count(c.x); }}, {"icl::iterative_size", O_CONST, [](Ctx& c) { c.n = (long)icl::iterative_size(c.x); }}, {"is_empty", O_CONST, [](Ctx& c) { c.b = icl::is_empty(c.x) && c.x.empty(); }},
      {"ends", O_CONST, [](Ctx& c) { c.b = c.x.begin() == c.x.end() || c.x.rbegin() == c.x.rend(); }}, {"hull", O_CONST, [](Ctx& c) { c.i = icl::hull(c.x); }},
      {"borders", O_CONST, [](Ctx& c) { if (!c.x.empty()) { c.e = icl::lower(c.x); c.e = icl::upper(c.x); if constexpr (D::discrete) { c.e = icl::first(c.x); c.e = icl::last(c.x); } } }},
      {"swap", O_CONST, [](Ctx& c) { c.x.swap(c.y); }}, {"icl::swap", O_CONST, [](Ctx& c) { icl::swap(c.x, c.y); }}, {"move", O_CONST, [](Ctx& c) { T t(std::move(c.x)); c.x = std::move(t); }},
      {"copy", O_N, [](Ctx& c) { T t(c.x); c.b = t.empty(); }}, {"assign", O_NM, [](Ctx& c) { c.y = c.x; }}, {"clear", O_N, [](Ctx& c) { c.x.clear(); }}, {"convert", O_NM, [](Ctx& c) { c.u = c.x; }}, {"construct", O_NM, [](Ctx& c) { U t(c.x); c.b = t.empty(); }},
      {"join", O_N, [](Ctx& c) { icl::join(c.x); }}, {"length", O_N, [](Ctx& c) { c.b = icl::length(c.x) == 0; }}, {"cardinality", O_N, [](Ctx& c) { c.b = icl::cardinality(c.x) == 0; }}, {"size", O_N, [](Ctx& c) { c.b = c.x.size() == 0; }},
      {"==", O_NM, [](Ctx& c) { c.b = c.x == c.y; }}, {"== itself", O_N, [](Ctx& c) { c.b = c.x == c.x; }}, {"<", O_NM, [](Ctx& c) { c.b = c.x < c.y; }}, {"is_element_equal", O_NM, [](Ctx& c) { c.b = icl::is_element_equal(c.x, c.u); }}, {"is_element_less", O_NM, [](Ctx& c) { c.b = icl::is_element_less(c.x, c.y); }},
      {"between", O_N, [](Ctx& c) { T g; icl::between(g, c.x); c.b = g.empty(); }},
      {"erase by iterator", O_CONST, [](Ctx& c) { if (c.it2 != c.x.end()) c.x.erase(c.it2); }}, {"erase range", O_N, [](Ctx& c) { c.x.erase(c.it2, c.x.end()); }},
    };
    if constexpr (D::discrete) v.push_back({"element iteration", O_ELEMS, [](Ctx& c) { long n = 0; for (auto k = icl::elements_begin(c.x); k != icl::elements_end(c.x); ++k) ++n; c.n = n; }});
    return v;
  }
  // a part of the container (for the containment of parts)
  static void part(Ctx& c, size_t from, size_t n) { c.r.clear(); auto it = c.x.begin(); std::advance(it, from); for (; n && it != c.x.end(); ++it, --n) c.r.add(c.r.end(), *it); }
};

// ---- interval maps
template <class D, int STYLE, class K, class Tr> struct WorkMap {
  typedef typename D::template maps<typename K::T, Tr, K::template Comb, icl::inter_section> Ms;
  typedef typename std::conditional<STYLE == ST_JOIN, typename Ms::JMap, typename Ms::LMap>::type T;
  typedef typename std::conditional<STYLE == ST_JOIN, typename Ms::LMap, typename Ms::JMap>::type U;
  typedef typename T::set_type Set; typedef typename T::segment_type Segment; typedef typename T::element_type Element;
  typedef typename D::itv itv; typedef typename D::dom dom; typedef D Dm;
  static const bool total = Kind<Tr>::is_total;
  struct Ctx { T x, y; U u; Set k; T r; itv i; dom e; Segment s; Element p; typename T::iterator it, it2; bool b = false; long n = 0; };
  static constexpr const char* kind() { return total ? "total map" : "map"; }
  static std::string name() { return std::string(STYLE == ST_JOIN ? "interval_map/" : "split_interval_map/") + D::name() + "/" + K::name() + "/" + (total ? "total" : "partial") + "_" + (Kind<Tr>::absorbs_identities ? "absorber" : "enricher"); }
  template <class S> static void places(const S& s, Places& p) { p.clear(); for (auto it = s.begin(); it != s.end(); ++it) { const itv& i = icl::key_value<S>(it); p.push_back({place<D>(icl::lower(i)), place<D>(icl::upper(i))}); } }
  static void operand(Ctx& c, long a, long b, int bnd, int v) { c.i = D::make((int)a, (int)b, bnd); c.e = D::point((int)a); c.s = Segment(c.i, K::mk(1 + v)); c.p = Element(c.e, K::mk(1 + v)); }
  template <class S> static void append(S& s, long a, long b, int bnd, int v) { s.add(s.end(), std::make_pair(D::make((int)a, (int)b, bnd), K::mk(1 + v))); }
  static void append(Set& s, long a, long b, int bnd, int) { s.add(s.end(), D::make((int)a, (int)b, bnd)); }
  static long elements(const Ctx& c) { long n = 0; if constexpr (D::discrete) for (auto& i : c.x) n += (long)icl::cardinality(i.first); return n; }
  typedef WorkOp<Ctx> Op_;
  struct Pred { bool operator()(const typename T::segment_type& s) const { return s.second == K::mk(1); } };
  static std::vector<Op_> ops() {
    const Shape inside = STYLE == ST_JOIN ? O_SEG : O_SEG;
    std::vector<Op_> v = {
      {"add element", O_LOG, [](Ctx& c) { c.x.add(c.p); }}, {"insert element", O_LOG, [](Ctx& c) { c.x.insert(c.p); }}, {"set element", O_LOG, [](Ctx& c) { c.x.set(c.p); }}, {"+= element", O_LOG, [](Ctx& c) { c.x += c.p; }},
      {"subtract element", O_LOG, [](Ctx& c) { c.x.subtract(c.p); }}, {"erase element", O_LOG, [](Ctx& c) { c.x.erase(c.p); }}, {"erase key", O_LOG, [](Ctx& c) { c.x.erase(c.e); }},
      {"add segment", O_SEG, [](Ctx& c) { c.x.add(c.s); }}, {"+= segment", O_SEG, [](Ctx& c) { c.x += c.s; }}, {"insert segment", O_SEG, [](Ctx& c) { c.x.insert(c.s); }}, {"set segment", O_SEG, [](Ctx& c) { c.x.set(c.s); }},
      {"subtract segment", O_SEG, [](Ctx& c) { c.x.subtract(c.s); }}, {"-= segment", O_SEG, [](Ctx& c) { c.x -= c.s; }}, {"erase segment", O_SEG, [](Ctx& c) { c.x.erase(c.s); }}, {"erase interval", O_SEG, [](Ctx& c) { c.x.erase(c.i); }}, {"-= interval", O_SEG, [](Ctx& c) { c.x -= c.i; }},
      {"flip segment", total ? O_N : O_SEGLOG, [](Ctx& c) { c.x.flip(c.s); }}, {"^= element", total ? O_N : O_LOG, [](Ctx& c) { c.x ^= c.p; }},
      {"&= segment", O_N, [](Ctx& c) { c.x &= c.s; }}, {"&= interval", O_N, [](Ctx& c) { c.x &= c.i; }},
      {"add at a fitting position", O_HINT, [](Ctx& c) { c.x.add(c.it, c.s); }}, {"insert at a fitting position", O_HINT, [](Ctx& c) { c.x.insert(c.it, c.s); }},
      {"icl::add at a fitting position", O_HINT, [](Ctx& c) { icl::add(c.x, c.it, c.s); }}, {"icl::insert at a fitting position", O_HINT, [](Ctx& c) { icl::insert(c.x, c.it, c.s); }},
      {"add at a position", O_SEG, [](Ctx& c) { c.x.add(c.it2, c.s); }}, {"insert at a position", O_SEG, [](Ctx& c) { c.x.insert(c.it2, c.s); }},
      {"add_intersection segment", total ? O_N : O_SEGLOG, [](Ctx& c) { icl::add_intersection(c.r, c.x, c.s); }}, {"add_intersection interval", O_SEG, [](Ctx& c) { icl::add_intersection(c.r, c.x, c.i); }}, {"add_intersection key", O_LOG, [](Ctx& c) { icl::add_intersection(c.r, c.x, c.e); }},
      {"+= map", O_MLOG, [](Ctx& c) { c.x += c.y; }}, {"|= other style", O_MLOG, [](Ctx& c) { c.x |= c.u; }}, {"insert map", O_MLOG, [](Ctx& c) { icl::insert(c.x, c.y); }}, {"-= map", O_MLOG, [](Ctx& c) { c.x -= c.y; }}, {"erase map", O_MLOG, [](Ctx& c) { icl::erase(c.x, c.y); }},
      {"-= keys", O_MLOG, [](Ctx& c) { c.x -= c.k; }}, {"erase keys", O_MLOG, [](Ctx& c) { icl::erase(c.x, c.k); }}, {"^= map", total ? O_MLOGN : O_MLOG, [](Ctx& c) { c.x ^= c.y; }}, {"&= map", O_MLOGN, [](Ctx& c) { c.x &= c.y; }}, {"&= keys", O_MLOGN, [](Ctx& c) { c.x &= c.k; }},
      {"map + map", O_MLOGN, [](Ctx& c) { c.r = c.x + c.y; }}, {"map - map", O_MLOGN, [](Ctx& c) { c.r = c.x - c.y; }}, {"map & map", O_MLOGN, [](Ctx& c) { c.r = c.x & c.y; }}, {"map & keys", O_MLOGN, [](Ctx& c) { c.r = c.x & c.k; }},
      {"contains key", O_LOG, [](Ctx& c) { c.b = icl::contains(c.x, c.e); }}, {"contains element", O_LOG, [](Ctx& c) { c.b = icl::contains(c.x, c.p); }}, {"find key", O_LOG, [](Ctx& c) { c.b = c.x.find(c.e) == c.x.end(); }}, {"icl::find key", O_LOG, [](Ctx& c) { c.b = icl::find(c.x, c.e) == c.x.end(); }},
      {"contains interval", inside, [](Ctx& c) { c.b = icl::contains(c.x, c.i); }}, {"contains segment", inside, [](Ctx& c) { c.b = icl::contains(c.x, c.s); }}, {"within", inside, [](Ctx& c) { c.b = icl::within(c.s, c.x); }},
      {"find interval", O_LOG, [](Ctx& c) { c.b = c.x.find(c.i) == c.x.end(); }}, {"icl::find interval", O_LOG, [](Ctx& c) { c.b = icl::find(c.x, c.i) == c.x.end(); }},
      {"intersects key", O_LOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.e); }}, {"intersects interval", O_LOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.i); }}, {"disjoint interval", O_LOG, [](Ctx& c) { c.b = icl::disjoint(c.x, c.i); }}, {"intersects segment", O_SEGLOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.s); }},
      {"lower_bound", O_LOG, [](Ctx& c) { c.b = c.x.lower_bound(c.i) == c.x.end(); }}, {"upper_bound", O_LOG, [](Ctx& c) { c.b = c.x.upper_bound(c.i) == c.x.end(); }}, {"equal_range", O_LOG, [](Ctx& c) { c.b = c.x.equal_range(c.i).first == c.x.end(); }},
      {"contains map", O_MLOG, [](Ctx& c) { c.b = icl::contains(c.x, c.y); }}, {"contains part of itself", O_MLOG, [](Ctx& c) { c.b = icl::contains(c.x, c.r); }}, {"intersects map", O_MLOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.y); }}, {"intersects keys", O_MLOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.k); }},
      {"iterative_size", O_CONST, [](Ctx& c) { c.n = (long)c.x.iterative_size(); }}, {"interval_count", O_CONST, [](Ctx& c) { c.n = (long)icl::interval_count(c.x); }}, {"icl::iterative_size", O_CONST, [](Ctx& c) { c.n = (long)icl::iterative_size(c.x); }}, {"is_empty", O_CONST, [](Ctx& c) { c.b = icl::is_empty(c.x) && c.x.empty(); }},
      {"ends", O_CONST, [](Ctx& c) { c.b = c.x.begin() == c.x.end() || c.x.rbegin() == c.x.rend(); }}, {"hull", O_CONST, [](Ctx& c) { c.i = icl::hull(c.x); }},
      {"borders", O_CONST, [](Ctx& c) { if (!c.x.empty()) { c.e = icl::lower(c.x); c.e = icl::upper(c.x); if constexpr (D::discrete) { c.e = icl::first(c.x); c.e = icl::last(c.x); } } }},
      {"swap", O_CONST, [](Ctx& c) { c.x.swap(c.y); }}, {"icl::swap", O_CONST, [](Ctx& c) { icl::swap(c.x, c.y); }}, {"move", O_CONST, [](Ctx& c) { T t(std::move(c.x)); c.x = std::move(t); }},
      {"copy", O_N, [](Ctx& c) { T t(c.x); c.b = t.empty(); }}, {"assign", O_NM, [](Ctx& c) { c.y = c.x; }}, {"clear", O_N, [](Ctx& c) { c.x.clear(); }}, {"convert", O_NM, [](Ctx& c) { c.u = c.x; }},
      {"join", O_N, [](Ctx& c) { icl::join(c.x); }}, {"length", O_N, [](Ctx& c) { c.b = icl::length(c.x) == 0; }}, {"cardinality", O_N, [](Ctx& c) { c.b = icl::cardinality(c.x) == 0; }}, {"size", O_N, [](Ctx& c) { c.b = c.x.size() == 0; }},
      {"==", O_NM, [](Ctx& c) { c.b = c.x == c.y; }}, {"== itself", O_N, [](Ctx& c) { c.b = c.x == c.x; }}, {"<", O_NM, [](Ctx& c) { c.b = c.x < c.y; }}, {"is_element_equal", O_NM, [](Ctx& c) { c.b = icl::is_element_equal(c.x, c.u); }}, {"is_distinct_equal", O_NM, [](Ctx& c) { c.b = icl::is_distinct_equal(c.x, c.y); }},
      {"domain", O_N, [](Ctx& c) { Set g; icl::domain(g, c.x); c.b = g.empty(); }}, {"between", O_N, [](Ctx& c) { Set g; icl::between(g, c.x); c.b = g.empty(); }}, {"erase_if", O_N, [](Ctx& c) { icl::erase_if(Pred(), c.x); }}, {"absorb_identities", O_N, [](Ctx& c) { icl::absorb_identities(c.x); }},
      {"erase by iterator", O_CONST, [](Ctx& c) { if (c.it2 != c.x.end()) c.x.erase(c.it2); }}, {"erase range", O_N, [](Ctx& c) { c.x.erase(c.it2, c.x.end()); }},
    };
    if constexpr (total) v.push_back({"value of a key", O_LOG, [](Ctx& c) { c.b = c.x(c.e) == K::mk(1); }});
    else { v.push_back({"flip element", O_LOG, [](Ctx& c) { c.x.flip(c.p); }}); v.push_back({"contains keys", O_MLOG, [](Ctx& c) { c.b = icl::contains(c.x, c.k); }}); }
    if constexpr (STYLE == ST_JOIN) v.push_back({"construct", O_NM, [](Ctx& c) { T t(c.u); c.b = t.empty(); }});
    if constexpr (D::discrete) v.push_back({"element iteration", O_ELEMS, [](Ctx& c) { long n = 0; for (auto k = icl::elements_begin(c.x); k != icl::elements_end(c.x); ++k) ++n; c.n = n; }});
    return v;
  }
  static void part(Ctx& c, size_t from, size_t n) { c.r.clear(); auto it = c.x.begin(); std::advance(it, from); for (; n && it != c.x.end(); ++it, --n) c.r.add(c.r.end(), *it); }
};

// ---- element containers
template <class D, class K, class Tr> struct WorkEMap {
  typedef typename D::template maps<typename K::T, Tr, K::template Comb, icl::inter_section>::EMap T;
  typedef typename T::set_type Set; typedef typename T::element_type Element; typedef typename D::dom dom; typedef typename D::itv itv; typedef D Dm;
  static const bool total = Kind<Tr>::is_total;
  struct Ctx { T x, y; T& u; Set k; T r; dom e; std::vector<Element> p; typename T::iterator it, it2; bool b = false; long n = 0; Ctx() : u(y) {} };
  static constexpr const char* kind() { return "element map"; }
  static std::string name() { return std::string("map/") + D::name() + "/" + K::name() + "/" + (total ? "total" : "partial") + "_" + (Kind<Tr>::absorbs_identities ? "absorber" : "enricher"); }
  template <class S> static void places(const S& s, Places& p) { p.clear(); for (auto it = s.begin(); it != s.end(); ++it) { long k = place<D>(icl::key_value<S>(it)); p.push_back({k, k}); } }
  static void operand(Ctx& c, long a, long, int, int v) { c.e = D::point((int)a); c.p.clear(); c.p.emplace_back(c.e, K::mk(1 + v)); }
  static void append(T& s, long a, long, int, int v) { s.add(s.end(), Element(D::point((int)a), K::mk(1 + v))); }
  static void append(Set& s, long a, long, int, int) { s.insert(s.end(), D::point((int)a)); }
  static long elements(const Ctx& c) { return (long)c.x.size(); }
  struct Pred { bool operator()(const typename T::value_type& s) const { return s.second == K::mk(1); } };
  typedef WorkOp<Ctx> Op_;
  static std::vector<Op_> ops() {
    std::vector<Op_> v = {
      {"add element", O_LOG, [](Ctx& c) { c.x.add(c.p[0]); }}, {"insert element", O_LOG, [](Ctx& c) { icl::insert(c.x, c.p[0]); }}, {"set element", O_LOG, [](Ctx& c) { c.x.set(c.p[0]); }}, {"+= element", O_LOG, [](Ctx& c) { c.x += c.p[0]; }},
      {"subtract element", O_LOG, [](Ctx& c) { c.x.subtract(c.p[0]); }}, {"-= element", O_LOG, [](Ctx& c) { c.x -= c.p[0]; }}, {"erase element", O_LOG, [](Ctx& c) { icl::erase(c.x, c.p[0]); }}, {"erase key", O_LOG, [](Ctx& c) { c.x.erase(c.e); }}, {"subtract key", O_LOG, [](Ctx& c) { c.x.subtract(c.e); }},
      {"add at a fitting position", O_HINT, [](Ctx& c) { c.x.add(c.it, c.p[0]); }}, {"insert at a fitting position", O_HINT, [](Ctx& c) { c.x.insert(c.it, c.p[0]); }},
      {"flip element", total ? O_N : O_LOG, [](Ctx& c) { c.x.flip(c.p[0]); }}, {"&= element", O_N, [](Ctx& c) { c.x &= c.p[0]; }}, {"&= key", O_N, [](Ctx& c) { c.x &= c.e; }},
      {"+= map", O_MLOG, [](Ctx& c) { c.x += c.y; }}, {"-= map", O_MLOG, [](Ctx& c) { c.x -= c.y; }}, {"insert map", O_MLOG, [](Ctx& c) { icl::insert(c.x, c.y); }}, {"erase map", O_MLOG, [](Ctx& c) { icl::erase(c.x, c.y); }}, {"-= keys", O_MLOG, [](Ctx& c) { c.x -= c.k; }}, {"erase keys", O_MLOG, [](Ctx& c) { icl::erase(c.x, c.k); }},
      {"&= map", O_MLOGN, [](Ctx& c) { c.x &= c.y; }}, {"&= keys", O_MLOGN, [](Ctx& c) { c.x &= c.k; }}, {"map + map", O_MLOGN, [](Ctx& c) { c.r = c.x + c.y; }},
      {"contains key", O_LOG, [](Ctx& c) { c.b = icl::contains(c.x, c.e); }}, {"contains element", O_LOG, [](Ctx& c) { c.b = icl::contains(c.x, c.p[0]); }}, {"find", O_LOG, [](Ctx& c) { c.b = c.x.find(c.e) == c.x.end(); }}, {"intersects key", O_LOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.e); }},
      {"[]", O_LOG, [](Ctx& c) { c.b = c.x[c.e] == K::mk(1); }}, {"()", O_LOG, [](Ctx& c) { c.b = c.x(c.e) == K::mk(1); }},
      {"contains map", O_MLOG, [](Ctx& c) { c.b = icl::contains(c.x, c.y); }}, {"contains part of itself", O_MLOG, [](Ctx& c) { c.b = icl::contains(c.x, c.r); }}, {"contains keys", O_MLOG, [](Ctx& c) { c.b = icl::contains(c.x, c.k); }}, {"intersects map", O_NMLOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.y); }},
      {"iterative_size", O_CONST, [](Ctx& c) { c.n = (long)c.x.iterative_size(); }}, {"size", O_CONST, [](Ctx& c) { c.n = (long)icl::size(c.x); }}, {"is_empty", O_CONST, [](Ctx& c) { c.b = icl::is_empty(c.x); }}, {"swap", O_CONST, [](Ctx& c) { c.x.swap(c.y); }}, {"move", O_CONST, [](Ctx& c) { T t(std::move(c.x)); c.x = std::move(t); }},
      {"copy", O_N, [](Ctx& c) { T t(c.x); c.b = t.empty(); }}, {"clear", O_N, [](Ctx& c) { icl::clear(c.x); }}, {"==", O_NM, [](Ctx& c) { c.b = c.x == c.y; }}, {"is_element_equal", O_NM, [](Ctx& c) { c.b = icl::is_element_equal(c.x, c.y); }}, {"is_distinct_equal", O_NM, [](Ctx& c) { c.b = icl::is_distinct_equal(c.x, c.y); }},
      {"domain", O_N, [](Ctx& c) { Set g; icl::domain(g, c.x); c.b = g.empty(); }}, {"erase_if", O_N, [](Ctx& c) { icl::erase_if(Pred(), c.x); }}, {"erase by iterator", O_CONST, [](Ctx& c) { if (c.it2 != c.x.end()) c.x.erase(c.it2); }},
    };
    if constexpr (!(total && !Kind<Tr>::absorbs_identities)) v.push_back({"^= map", O_MLOGN, [](Ctx& c) { c.x ^= c.y; }}); // there, every element of the operand resets the whole map
    return v;
  }
  static void part(Ctx& c, size_t from, size_t n) { c.r.clear(); auto it = c.x.begin(); std::advance(it, from); for (; n && it != c.x.end(); ++it, --n) c.r.insert(c.r.end(), *it); }
};

template <class D> struct WorkESet {
  typedef typename D::ESet T; typedef T Set; typedef typename D::dom dom; typedef typename D::itv itv;
  struct Ctx { T x, y; T& u; T r; dom e; typename T::iterator it, it2; bool b = false; long n = 0; Ctx() : u(y) {} };
  static constexpr const char* kind() { return "element set"; }
  static std::string name() { return std::string("set/") + D::name(); }
  static void places(const T& s, Places& p) { p.clear(); for (const dom& x : s) { long k = place<D>(x); p.push_back({k, k}); } }
  static void operand(Ctx& c, long a, long, int, int) { c.e = D::point((int)a); }
  static void append(T& s, long a, long, int, int) { s.insert(s.end(), D::point((int)a)); }
  static long elements(const Ctx& c) { return (long)c.x.size(); }
  struct Pred { bool operator()(const dom& x) const { return place<D>(x) % 2; } };
  typedef WorkOp<Ctx> Op_;
  static std::vector<Op_> ops() {
    std::vector<Op_> v = {
      {"add element", O_LOG, [](Ctx& c) { icl::add(c.x, c.e); }}, {"insert element", O_LOG, [](Ctx& c) { icl::insert(c.x, c.e); }}, {"+= element", O_LOG, [](Ctx& c) { using namespace icl; c.x += c.e; }},
      {"subtract element", O_LOG, [](Ctx& c) { icl::subtract(c.x, c.e); }}, {"erase element", O_LOG, [](Ctx& c) { icl::erase(c.x, c.e); }}, {"flip element", O_LOG, [](Ctx& c) { icl::flip(c.x, c.e); }}, {"&= element", O_N, [](Ctx& c) { using namespace icl; c.x &= c.e; }},
      {"add at a fitting position", O_HINT, [](Ctx& c) { icl::add(c.x, c.it, c.e); }}, {"insert at a fitting position", O_HINT, [](Ctx& c) { icl::insert(c.x, c.it, c.e); }},
      {"+= set", O_MLOG, [](Ctx& c) { using namespace icl; c.x += c.y; }}, {"-= set", O_MLOG, [](Ctx& c) { using namespace icl; c.x -= c.y; }}, {"^= set", O_MLOG, [](Ctx& c) { using namespace icl; c.x ^= c.y; }}, {"&= set", O_MLOGN, [](Ctx& c) { using namespace icl; c.x &= c.y; }}, {"insert set", O_MLOG, [](Ctx& c) { icl::insert(c.x, c.y); }}, {"erase set", O_MLOG, [](Ctx& c) { icl::erase(c.x, c.y); }},
      {"contains element", O_LOG, [](Ctx& c) { c.b = icl::contains(c.x, c.e); }}, {"intersects element", O_LOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.e); }}, {"contains set", O_MLOG, [](Ctx& c) { c.b = icl::contains(c.x, c.y); }}, {"contains part of itself", O_MLOG, [](Ctx& c) { c.b = icl::contains(c.x, c.r); }}, {"intersects set", O_NMLOG, [](Ctx& c) { c.b = icl::intersects(c.x, c.y); }},
      {"iterative_size", O_CONST, [](Ctx& c) { c.n = (long)icl::iterative_size(c.x); }}, {"size", O_CONST, [](Ctx& c) { c.n = (long)icl::size(c.x); }}, {"is_empty", O_CONST, [](Ctx& c) { c.b = icl::is_empty(c.x); }},
      {"clear", O_N, [](Ctx& c) { icl::clear(c.x); }}, {"is_element_equal", O_NM, [](Ctx& c) { c.b = icl::is_element_equal(c.x, c.y); }}, {"erase_if", O_N, [](Ctx& c) { icl::erase_if(Pred(), c.x); }},
    };
    return v;
  }
  static void part(Ctx& c, size_t from, size_t n) { c.r.clear(); auto it = c.x.begin(); std::advance(it, from); for (; n && it != c.x.end(); ++it, --n) c.r.insert(c.r.end(), *it); }
};

// ---- one run
template <class Sys> struct WorkWorld : World {
  typedef typename Sys::Ctx Ctx;
  std::vector<WorkOp<Ctx> > ops;
  WorkWorld() { name = "work/" + Sys::name(); ops = Sys::ops(); }
  bool serves(const std::string& p) const override { return p == "C23"; }
  static constexpr bool elems() { return Sys::kind()[0] == 'e'; }
  enum { BUILD = 1, OP0 = 100 };

  void generate(Rng& r, Plan& p) const override {
    static const int sizes[] = {0, 3, 40, 300, 1500, 5000, 16000};
    int N = sizes[r.chance(250) ? r.below(4) : 4 + r.below(3)]; N += (int)r.below(N / 4 + 1);
    p.grid = N; p.flags = 0;
    for (int t = 0; t < 4; ++t) { // containers and operands
      Op o; o.code = BUILD; o.t = t;
      o.a[0] = t == 0 ? N : r.chance(400) ? (int)r.below(8) : r.chance(500) ? (int)r.below(N / 20 + 2) : (int)r.below(N + 2);
      o.a[1] = (int)r.below(1 << 20); o.a[2] = (int)r.below(4); o.a[3] = (int)r.below(7) % 4; p.ops.push_back(o);
    }
    static const long rates[] = {0, 60, 250}; long rate = rates[r.below(3)];
    int n = (int)r.range(4, 30); long U = 8L * N + 8;
    for (int i = 0; i < n; ++i) {
      Op o; o.code = OP0 + (int)r.below((long)ops.size());
      if (r.chance(400)) for (int tries = 0; tries < 6 && ops[o.code - OP0].shape >= O_N; ++tries) o.code = OP0 + (int)r.below((long)ops.size());
      const char* nm = ops[o.code - OP0].name;
      if ((!strcmp(nm, "clear") || !strncmp(nm, "&= ", 3) || !strcmp(nm, "erase range")) && r.chance(700)) { --i; continue; }
      o.a[0] = (int)r.below(U);
      o.a[1] = (int)(r.chance(300) ? 1 : r.chance(300) ? r.below(12) : r.chance(500) ? r.below(400) : r.chance(500) ? r.below(U / 3 + 1) : r.below(U + 1));
      o.a[2] = (int)r.below(4); o.a[3] = (int)r.below(3); o.a[4] = (int)r.below(1 << 20); o.a[5] = (int)r.below(1 << 20);
      if (r.chance(rate)) { static const int fks[] = {F_ALLOC, F_ALLOC, F_COPY, F_COMB, F_ANY}; o.fk = fks[r.below(5)]; o.fn = 1 + (int)(r.chance(700) ? r.below(4) : r.below(200)); o.fl = r.chance(600) ? 1 : 100000; }
      p.ops.push_back(o);
    }
  }

  template <class S> static void build(S& s, const Op& o, long U) {
    Rng r(mix(o.a[1], 77)); long n = o.a[0], at = 0; int style = o.a[3]; // dense at the front, spread over the universe, in one place, or in runs of touching segments
    long step = style == 0 || !n ? 8 : std::max(8L, U / n / 8 * 8); if (style == 2) at = r.below(std::max(1L, U - 8 * n)) / 8 * 8;
    for (long k = 0; k < n && at < U; ++k, at += step) {
      if (style == 3 && !elems() && k % 64) { Sys::append(s, at, at + 8, 2, (int)(k % 3)); continue; } // mostly without gaps
      long lo = at + 1 + r.below(3), len = 1 + r.below(3);
      Sys::append(s, lo, elems() ? lo : lo + len, 2, (int)r.below(3));
      if (!elems() && r.chance(150)) Sys::append(s, lo + len, lo + len + 1, 2, (int)r.below(3)); // touching
    }
  }
  template <class X> static auto with_keys(X& c, int) -> decltype(&c.k) { return &c.k; }
  template <class X> static std::nullptr_t with_keys(X&, long) { return nullptr; }
  static void limits_of(const char* op, int shape, double& ps, double& pg) {
    for (const Limit* l = work_limits; l->kind; ++l) if (l->shape == shape && !strcmp(l->kind, Sys::kind()) && !strcmp(l->op, op)) { ps = l->per_search; pg = l->per_segment; return; }
    fprintf(stderr, "no limit for %s of %s\n", op, Sys::kind()); _exit(2);
  }

  void execute(const Plan& p) const override {
    static const bool calibrate = getenv("SIM_CALIBRATE") != nullptr;
    Ctx c; long U = 8L * p.grid + 8; Places px, py;
    auto keys = with_keys(c, 0); const bool own_u = (const void*)&c.u != (const void*)&c.y;
    long judged_big = 0;
    for (size_t i = 0; i < p.ops.size() && !C.bad; ++i) {
      const Op& o = p.ops[i]; C.cur_op = (int)i;
      if (o.code == BUILD) {
        if (o.t == 0) build(c.x, o, U); else if (o.t == 1) build(c.y, o, U);
        else if (o.t == 2) { if (own_u) build(c.u, o, U); }
        else if constexpr (!std::is_same<decltype(keys), std::nullptr_t>::value) build(*keys, o, U);
        SIM_TRACE("%3zu build container %d of %d segments\n", i, o.t, o.a[0]);
        continue;
      }
      if (o.code < OP0 || o.code >= OP0 + (int)ops.size()) continue;
      const WorkOp<Ctx>& w = ops[o.code - OP0];
      ++S.ops;
      // operands
      long a = o.a[0] % U, hi = std::min(a + o.a[1], U + 4); int bnd = o.a[2] & 3;
      Sys::places(c.x, px); const size_t n = px.size();
      c.r.clear();
      if (w.shape == O_HINT) { // a gap with a free point on either side
        bool found = false;
        for (size_t t = 0; t < 50 && !found && n > 1; ++t) {
          size_t j = (o.a[4] + t) % (n - 1);
          if (px[j + 1].first - px[j].second >= 5) { found = true; a = px[j].second + 2; hi = a + 1; bnd = 3; c.it = c.x.begin(); std::advance(c.it, j); }
        }
        if (!found) { ev(77); continue; }
      } else {
        if (!elems() && o.a[5] % 5 == 0 && n) { a = px[o.a[4] % n].first; hi = px[o.a[4] % n].second; bnd = 2; } // a segment of the container
        c.it2 = c.x.begin(); std::advance(c.it2, o.a[4] % (n + 1));
        if (!strcmp(w.name, "contains part of itself")) Sys::part(c, o.a[4] % (n + 1), o.a[5] % 3 ? o.a[5] % 20 : o.a[5] % (n + 1));
      }
      if (hi - a < 2 && (strstr(w.name, "find") || strstr(w.name, "_bound") || strstr(w.name, "equal_range"))) { hi = a + 2; bnd = 3; } // not for empty intervals
      Sys::operand(c, a, hi, bnd, o.a[3]);
      long m = 0, touched = 0;
      if (w.shape == O_MLOG || w.shape == O_MLOGN || w.shape == O_NM || w.shape == O_NMLOG) {
        if (strstr(w.name, "part of itself")) Sys::places(c.r, py);
        else if (strstr(w.name, "keys")) { if constexpr (!std::is_same<decltype(keys), std::nullptr_t>::value) keys_places(*keys, py); }
        else if (own_u && (strstr(w.name, "other style") || !strcmp(w.name, "is_element_equal") || !strcmp(w.name, "convert") || !strcmp(w.name, "construct"))) Sys::places(c.u, py);
        else Sys::places(c.y, py);
        m = (long)py.size();
        size_t f = 0;
        for (const auto& q : py) { while (f < n && px[f].second < q.first - 1) ++f; for (size_t k = f; k < n && px[k].first <= q.second + 1; ++k) ++touched; }
      } else if (w.shape == O_SEG || w.shape == O_SEGLOG) for (const auto& q : px) if (q.second >= a - 1 && q.first <= hi + 1) ++touched;
      long el = w.shape == O_ELEMS ? Sys::elements(c) : 0;
      SIM_TRACE("%3zu %s [%ld,%ld) bounds %d, %zu segments, operand of %ld, %ld touched%s%s", i, w.name, a, hi, bnd, n, m, touched, o.fk ? ", fault " : "", o.fk ? fault_name[o.fk] : "");
      // the same call on a container of only the segments touched and their neighbours
      long twin = -1; size_t twin_n = 0;
      if constexpr (!elems()) if (w.shape == O_SEG && touched >= 40 && (size_t)touched * 8 <= n && !o.fk && !strstr(w.name, "position") && !calibrate) {
        auto small = c.x; small.clear(); auto it = c.x.begin(); size_t k = 0; int after = 0;
        while (k < n && px[k].second < a - 1) ++k;
        for (std::advance(it, k > 2 ? k - 2 : 0), k = k > 2 ? k - 2 : 0; k < n && after < 3; ++k, ++it) { small.add(small.end(), *it); ++twin_n; if (px[k].first > hi + 1) ++after; }
        c.x.swap(small); const long s0 = work_steps; { Act act; act.go([&] { w.run(c); }); } twin = work_steps - s0; c.x.swap(small); c.r.clear();
        if (C.bad) break;
      }
      // the call
      Act act; if (o.fk) { act.arm_it = true; act.fk = o.fk; act.fn = o.fn; act.fl = o.fl; ++S.fault_ops[o.fk]; }
      const long s0 = work_steps; act.go([&] { w.run(c); }); const long cost = work_steps - s0;
      if (C.bad) break;
      if (act.threw) ++S.threw;
      S.steps += cost;
      // what it may cost
      const long most = std::max((long)n, (long)icl::iterative_size(c.x));
      const double L = std::log2((double)(most + m + 2));
      double searches = 8, linear = 0;
      switch (w.shape) {
        case O_CONST: case O_HINT: break;
        case O_LOG: searches += L; break;
        case O_SEG: searches += L; linear = (double)touched; break;
        case O_SEGLOG: searches = (8 + L) * (touched + 1); break;
        case O_NMLOG: searches = (8 + L) * (most + m + 1); break;
        case O_N: searches += L; linear = (double)most; break;
        case O_NM: searches += L; linear = (double)(most + m); break;
        case O_MLOG: searches = (8 + L) * (m + touched + 1); linear = (double)(touched + m); break;
        case O_MLOGN: searches = (8 + L) * (m + touched + 1); linear = (double)(touched + m + most); break;
        case O_ELEMS: linear = (double)(most + el); break;
      }
      if (calibrate) fprintf(stderr, "CAL\t%s\t%s\t%d\t%f\t%f\t%ld\n", Sys::kind(), w.name, (int)w.shape, searches, linear, cost);
      else {
        double ps, pg; limits_of(w.name, (int)w.shape, ps, pg);
        const double limit = ps * searches + pg * linear;
        SIM_TRACE("%s: %ld steps, at most %.0f\n", act.threw ? " THREW" : "", cost, limit);
        ++S.checks; if (act.threw || o.fk) ++S.judged_faults; if (most >= 1000) ++judged_big;
        if (twin >= 0) {
          ++S.checks; const double more = .05 * twin + ps * (L - std::log2(twin_n + 2.0) + 2);
          if ((double)(cost - twin) > more) violation("C23.work", "op %zu %s on %zu segments, %ld touched: %ld steps of work, but %ld on a container of only the segments touched, at most %.0f more are in order", i, w.name, n, touched, cost, twin, more);
        }
        if ((double)cost > limit) violation("C23.work", "op %zu %s on %zu segments, operand of %ld segments, %ld touched: %ld steps of work, at most %.0f are in order", i, w.name, n, m, touched, cost, limit);
      }
      long held = (long)(icl::iterative_size(c.x) + icl::iterative_size(c.y) + icl::iterative_size(c.r)); if (own_u) held += (long)icl::iterative_size(c.u);
      if constexpr (!std::is_same<decltype(keys), std::nullptr_t>::value) held += (long)icl::iterative_size(*keys);
      if (!C.bad && C.live_blocks > 2 * held + 16) violation("C23.space", "op %zu %s: %ld memory blocks are held for %ld segments", i, w.name, C.live_blocks, held);
      ev((uint64_t)o.code); ev(act.threw); ev((uint64_t)most * 31 + touched); ev((uint64_t)c.n);
      state_seen(mix(mix((uint64_t)o.code, (uint64_t)std::log2(most + 1.0)), mix((uint64_t)std::log2(m + 1.0) * 64 + (uint64_t)std::log2(touched + 1.0), act.threw + 2 * (o.fk != 0))));
    }
    if (C.bad) return;
    if (judged_big >= 3) { ++S.nontrivial; if (S.runs_seen.size() < 600000) S.runs_seen.insert(C.hash); }
  }
  template <class Ks> static void keys_places(const Ks& ks, Places& p) {
    p.clear();
    if constexpr (elems()) Sys::places(ks, p);
    else for (auto it = ks.begin(); it != ks.end(); ++it) p.push_back({place<typename Sys::Dm>(icl::lower(*it)), place<typename Sys::Dm>(icl::upper(*it))});
  }
};
} // namespace sim
