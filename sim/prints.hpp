// C10: containers and intervals are printed to a simulated stream that fails at a chosen byte, in several ways.
// Compiled only into the simulator of that property (SIM_PRINT).
#pragma once
#include "engine.hpp"
#include "codomains.hpp"
namespace sim {
inline Rng print_rng(const Op& op, int n) { return Rng(mix((uint64_t)op.a[5] * 8191 + op.a[4], (uint64_t)op.a[0] * 97 + op.a[1] * 13 + op.a[3] * 7919 + op.code + n * 1000003)); }

#ifndef SIM_PRINT
inline void compose_value(std::ostream& o, const K_iset::T& s) { o << "{"; for (const auto& i : s) { int b = i.bounds().bits(); o << ((b & 2) ? "[" : "("); o << i.lower(); o << ","; o << i.upper(); o << ((b & 1) ? "]" : ")"); } o << "}"; }
template <class D, class X> void print_set(const X&, Rng&) {}
template <class D, class X> void print_map(const X&, Rng&) {}
template <class X> void print_elements(const X&, Rng&) {}
template <class X> void print_element_map(const X&, Rng&) {}
template <class D> void print_interval(Rng&, int) {}
#else
} // namespace sim
#include <boost/icl/type_traits/to_string.hpp>
#include <iomanip>
#include <ostream>
#include <sstream>
#include <streambuf>
namespace sim {

// values whose inserter can throw
extern thread_local long value_countdown;
inline std::ostream& operator<<(std::ostream& o, const Led& x) {
  x.use();
  if (value_countdown >= 0 && value_countdown-- == 0) { probe("stream fault: value inserter throws"); throw SimFault(); }
  return o << x.v;
}

// the simulated device: fails once 'limit' bytes have been taken
enum BufFault { B_NONE, B_ERROR, B_THROW, B_SHORT, B_SYNC };
struct SimBuf : std::streambuf {
  std::string got; char area[16]; int cap; long limit = 0, syncs = 0, refused = 0; int mode = B_NONE; bool glitch = false, failed = false;
  explicit SimBuf(int cap_) : cap(cap_) { if (cap) setp(area, area + cap); }
  std::string text() const { return got + std::string(pbase(), pptr()); }
  void heal() { mode = B_NONE; failed = false; got.clear(); if (cap) setp(area, area + cap); }
  bool fail(const char* what) {
    if (!failed) probe(what);
    failed = true; if (++refused > 20000) violation("C10.progress", "writing goes on and on after the stream failed");
    if (glitch) mode = B_NONE; // later writes would succeed again
    if (what[14] == 't') throw SimFault();
    return false;
  }
  bool take(char ch) {
    if (mode != B_NONE && mode != B_SYNC && (long)got.size() >= limit) return fail(mode == B_THROW ? "stream fault: throwing write" : mode == B_SHORT ? "stream fault: short write" : "stream fault: failing write");
    got += ch; return true;
  }
  bool drain() {
    std::string a(pbase(), pptr()); if (cap) setp(area, area + cap); // what cannot be written is lost
    for (char ch : a) if (!take(ch)) return false;
    return true;
  }
  int_type overflow(int_type ch) override {
    if (!drain()) return traits_type::eof();
    if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
    return take(traits_type::to_char_type(ch)) ? ch : traits_type::eof();
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (!drain()) return 0;
    if (mode == B_ERROR && (long)got.size() < limit && (long)got.size() + n > limit) { // all or nothing is not promised either: bytes up to the limit
      for (std::streamsize i = 0; i < n; ++i) if (!take(s[i])) return i;
    }
    for (std::streamsize i = 0; i < n; ++i) if (!take(s[i])) return i;
    return n;
  }
  int sync() override {
    if (mode == B_SYNC && ++syncs > limit) { fail("stream fault: failing flush"); return -1; }
    return drain() ? 0 : -1;
  }
};

inline void apply_format(std::ostream& o, Rng r) {
  typedef std::ios_base I;
  if (r.chance(400)) return;
  o.setf(r.chance(500) ? I::dec : r.chance(500) ? I::hex : I::oct, I::basefield);
  if (r.chance(300)) o.setf(I::showbase);
  if (r.chance(300)) o.setf(I::showpos);
  if (r.chance(200)) o.setf(I::uppercase);
  if (r.chance(200)) o.setf(I::boolalpha);
  if (r.chance(200)) o.setf(I::showpoint);
  if (r.chance(300)) o.setf(r.chance(500) ? I::fixed : I::scientific, I::floatfield);
  o.setf(r.chance(500) ? I::left : r.chance(500) ? I::right : I::internal, I::adjustfield);
  o.precision(r.below(12)); o.fill((char)('!' + r.below(20)));
}
struct Format {
  std::ios_base::fmtflags f; std::streamsize p, w; char fill;
  explicit Format(const std::ostream& o) : f(o.flags()), p(o.precision()), w(o.width()), fill(o.fill()) {}
  bool operator==(const Format& o) const { return f == o.f && p == o.p && w == o.w && fill == o.fill; }
};

template <class X, class Compose> void print_case(const X& x, Compose compose, Rng& r, bool values_throw) {
  if (C.bad) return;
  value_countdown = -1;
  Rng fr(r.next());
  std::ostringstream ref; apply_format(ref, fr); compose(static_cast<std::ostream&>(ref)); const std::string want = ref.str(); const long n = (long)want.size();
  ++S.checks; S.steps += n;
  int kind = (int)r.below(values_throw ? 9 : 8);
  SimBuf buf(kind == 0 || r.chance(600) ? 0 : 1 + (int)r.below(12));
  std::ostream os(kind == 6 && r.chance(300) ? nullptr : &buf); bool null = os.rdbuf() == nullptr;
  os.copyfmt(ref); os.exceptions(std::ios_base::goodbit); if (!null) os.clear();
  long k = r.chance(300) ? (r.chance(500) ? 0 : n) : r.below(n + 1);
  unsigned mask = (unsigned)r.below(3) == 0 ? 0 : (unsigned)r.below(8); // bad 1, eof 2, fail 4 in libstdc++
  std::ios_base::iostate ms = std::ios_base::goodbit;
  if (mask & 1) ms |= std::ios_base::badbit; if (mask & 2) ms |= std::ios_base::eofbit; if (mask & 4) ms |= std::ios_base::failbit;
  if (kind == 5) ms &= ~std::ios_base::badbit; // libstdc++ terminates when the flush of a unitbuf stream fails and badbit throws
  buf.limit = k; buf.glitch = r.chance(300);
  bool prestate = false;
  switch (kind) {
    case 1: case 2: buf.mode = B_ERROR; break;
    case 3: buf.mode = B_THROW; break;
    case 4: buf.mode = B_SHORT; break;
    case 5: buf.mode = B_SYNC; buf.limit = r.below(1 + n / 2); os.setf(std::ios_base::unitbuf); break;
    case 6: if (!null) { prestate = true; os.setstate(r.chance(500) ? std::ios_base::failbit : r.chance(500) ? std::ios_base::eofbit : std::ios_base::badbit); } probe("stream fault: stream already failed"); break;
    case 8: value_countdown = r.below(3); break;
    default: probe("healthy stream"); break;
  }
  try { os.exceptions(ms); } catch (const std::ios_base::failure&) {}
  const Format before(os);
  bool escaped = false, by_value = false;
  C.in_op = false;
  try { os << x; }
  catch (const std::ios_base::failure&) { escaped = true; }
  catch (const SimFault&) { escaped = true; }
  catch (...) { violation("C10.exception", "printing %s throws something else than the stream does", want.c_str()); }
  by_value = kind == 8 && value_countdown == -1 && escaped;
  value_countdown = -1;
  os.exceptions(std::ios_base::goodbit);
  const std::ios_base::iostate st = os.rdstate();
  const std::string text = buf.cap && kind != 0 && buf.failed ? buf.got : buf.text();
  ev(mix((uint64_t)text.size() * 31 + kind, (uint64_t)st * 2 + escaped));
#define P(cond, cls, ...) do { if (!C.bad && !(cond)) violation(cls, __VA_ARGS__); } while (0)
  P(Format(os) == before, "C10.format", "printing %s changes the formatting of the stream", want.c_str());
  bool failed = buf.failed || null || prestate || by_value;
  if (!failed) {
    P(text == want, "C10.text", "printed %s instead of %s", text.c_str(), want.c_str());
    P(!escaped && st == std::ios_base::goodbit, "C10.state", "printing %s without a fault: state %d, exception %d", want.c_str(), (int)st, (int)escaped);
  } else {
    ++S.judged_faults;
    P(want.compare(0, text.size(), text) == 0, "C10.prefix", "fault of kind %d at byte %ld: accepted %s of %s", kind, buf.limit, text.c_str(), want.c_str());
    if (buf.failed && !buf.cap && kind != 5) P((long)text.size() == k, "C10.prefix", "fault of kind %d at byte %ld: accepted %s of %s", kind, k, text.c_str(), want.c_str());
    if (prestate || null) P(text.empty(), "C10.prefix", "printed %s to a stream that had already failed", text.c_str());
    if (buf.failed) {
      P(st & (std::ios_base::badbit | std::ios_base::failbit), "C10.state", "a stream failure while printing %s is not visible in the stream's state", want.c_str());
      if (ms & std::ios_base::badbit) P(escaped, "C10.swallowed", "the exception the stream is configured for does not come out of printing %s", want.c_str());
    }
    if (!by_value) P(!escaped || ms != std::ios_base::goodbit, "C10.escaped", "an exception comes out of printing %s although the stream is not configured for any", want.c_str());
    if (!by_value && escaped) P(st & ms, "C10.escaped", "an exception comes out of printing %s for a state the stream is not configured for", want.c_str());
  }
  // the stream recovers
  if (null) os.rdbuf(&buf);
  os.clear(); buf.heal();
  try { os << x; } catch (...) { violation("C10.again", "printing %s on the recovered stream throws", want.c_str()); }
  P(buf.text() == want && os.good(), "C10.again", "printed on the recovered stream: %s instead of %s", buf.text().c_str(), want.c_str());
  P(Format(os) == before, "C10.format", "printing %s changes the formatting of the stream", want.c_str());
  if (r.chance(50)) {
    std::ostringstream plain; compose(static_cast<std::ostream&>(plain)); std::string s;
    s = icl::to_string<X>::apply(x);
    P(s == plain.str(), "C10.text", "to_string gives %s instead of %s", s.c_str(), plain.str().c_str());
  }
#undef P
}

// ---- the complete rendering, composed without the library's output operators
template <class D> void compose_interval(std::ostream& o, const typename D::itv& i) {
  int b = D::M::bound(i, 0); Range r{0, 0}; D::decode(i, r);
  o << ((b & 2) ? "[" : "(");
  if (!r.empty()) { o << icl::lower(i); o << ","; o << icl::upper(i); }
  o << ((b & 1) ? "]" : ")");
}
template <class V> void compose_value(std::ostream& o, const V& v) { o << v; }
inline void compose_value(std::ostream& o, const std::set<int, std::less<int>, SimAlloc<int> >& s) { o << "{"; for (int i : s) { o << i; o << " "; } o << "}"; }
template <class D, class X> void print_set(const X& x, Rng& r) {
  print_case(x, [&](std::ostream& o) { o << "{"; for (auto it = x.begin(); it != x.end(); ++it) compose_interval<D>(o, *it); o << "}"; }, r, false);
}
template <class D, class X> void print_map(const X& x, Rng& r) {
  print_case(x, [&](std::ostream& o) { o << "{"; for (auto it = x.begin(); it != x.end(); ++it) { o << "("; compose_interval<D>(o, it->first); o << "->"; compose_value(o, it->second); o << ")"; } o << "}"; },
             r, std::is_same<typename X::codomain_type, Led>::value);
}
template <class X> void print_element_map(const X& x, Rng& r) {
  print_case(x, [&](std::ostream& o) { o << "{"; for (auto it = x.begin(); it != x.end(); ++it) { o << "("; o << it->first; o << "->"; compose_value(o, it->second); o << ")"; } o << "}"; },
             r, std::is_same<typename X::codomain_type, Led>::value);
}
template <class X> struct IclPrinted { const X& x; }; // std::set has no operator << of its own
template <class X> std::ostream& operator<<(std::ostream& o, const IclPrinted<X>& p) { using boost::icl::operator<<; return o << p.x; }
template <class X> void print_elements(const X& x, Rng& r) {
  print_case(IclPrinted<X>{x}, [&](std::ostream& o) { o << "{"; for (auto it = x.begin(); it != x.end(); ++it) { o << *it; o << " "; } o << "}"; }, r, false);
}
template <class D> void print_interval(Rng& r, int grid) {
  int a = (int)r.below(grid + 1), b = (int)(r.chance(200) ? r.below(a + 1) : r.below(grid + 1)), bn = (int)r.below(4); D::resolve(a, b, bn, grid);
  typename D::itv i = D::make(a, b, bn);
  print_case(i, [&](std::ostream& o) { compose_interval<D>(o, i); }, r, false);
  if constexpr (D::dynamic) {
    icl::interval_bounds x = i.bounds(); int bits = x.bits();
    print_case(x, [&](std::ostream& o) { o << ((bits & 2) ? "[" : "("); o << ((bits & 1) ? "]" : ")"); }, r, false);
  }
}
#endif
} // namespace sim
