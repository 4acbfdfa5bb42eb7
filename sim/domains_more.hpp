// Domains of other Boost libraries and of the standard library: calendar dates, time points, durations, rational numbers, strings.
#pragma once
#include "domains.hpp"
#include <boost/icl/gregorian.hpp>
#include <boost/icl/ptime.hpp>
#include <boost/icl/rational.hpp>

namespace sim {
struct DateCodec {
  static const bool printable = false; // the output operators of Date_Time write to failed streams
  typedef boost::gregorian::date T;
  static T base() { return T(2023, 12, 20); } // the grid crosses the end of a year and a leap day is near
  static T mk(long n) { return base() + boost::gregorian::date_duration(n); }
  static long un(const T& x) { return x.is_special() ? -5000 : (x - base()).days(); }
  static double num(const boost::gregorian::date_duration& d) { return (double)d.days(); }
};
struct DaysCodec {
  static const bool printable = false; // the output operators of Date_Time write to failed streams
  typedef boost::gregorian::date_duration T;
  static T mk(long n) { return T(n); }
  static long un(const T& x) { return x.days(); }
  static double num(const T& d) { return (double)d.days(); }
};
struct SpanCodec {
  static const bool printable = false; // the output operators of Date_Time write to failed streams
  typedef boost::posix_time::time_duration T;
  static T mk(long n) { return T::unit() * (int)n; }
  static long un(const T& x) { return x.is_special() ? -5000 : x.ticks(); }
  static double num(const T& d) { return (double)d.ticks(); }
};
struct TimeCodec {
  static const bool printable = false; // the output operators of Date_Time write to failed streams
  typedef boost::posix_time::ptime T;
  static T base() { return T(boost::gregorian::date(2024, 2, 28), boost::posix_time::hours(24) - boost::posix_time::time_duration::unit() * 9); } // the grid crosses midnight
  static T mk(long n) { return base() + SpanCodec::mk(n); }
  static long un(const T& x) { if (x.is_special()) return -5000; boost::posix_time::time_duration d = x - base(); return d.ticks(); }
  static double num(const boost::posix_time::time_duration& d) { return (double)d.ticks(); }
};
struct RatCodec {
  typedef boost::rational<int> dom;
  static dom mk(int k) { return dom(k, 2) - dom(2); }
  static double un(const dom& x) { return boost::rational_cast<double>((x + dom(2)) * 2); }
  static double num(const dom& x) { return boost::rational_cast<double>(x); }
  static double num(std::size_t x) { return (double)x; }
  static const bool queryable = true, printable = true;
};
struct StrCodec {
  typedef std::string dom;
  static dom mk(int k) { return std::string(1, (char)('c' + k / 2)) + (k % 2 ? "m" : ""); } // c < cm < d < dm ...
  static double un(const dom& x) {
    if (x.empty() || x.size() > 2 || x[0] < 'c' || x[0] > 'z' || (x.size() == 2 && x[1] != 'm')) return -5000;
    return 2 * (x[0] - 'c') + (x.size() == 2);
  }
  template <class T> static double num(const T&) { return 0; }
  static const bool queryable = false, printable = true; // no differences, no steps
};
typedef DiscreteBase<boost::gregorian::date, icl::discrete_interval<boost::gregorian::date>, 1, 0, DateCodec> DB_date;
struct D_date : Discrete<DB_date, true, 0> { SIM_CONTAINERS(std::less) static const char* name() { return "date.dyn"; } };
typedef DiscreteBase<boost::gregorian::date_duration, icl::closed_interval<boost::gregorian::date_duration>, 1, -7, DaysCodec> DB_days;
struct D_days : Discrete<DB_days, false, 3> { SIM_CONTAINERS(std::less) static const char* name() { return "days.closed"; } };
typedef DiscreteBase<boost::posix_time::time_duration, icl::discrete_interval<boost::posix_time::time_duration>, 1, -7, SpanCodec> DB_span;
struct D_span : Discrete<DB_span, true, 0> { SIM_CONTAINERS(std::less) static const char* name() { return "duration.dyn"; } };
typedef DiscreteBase<boost::posix_time::ptime, icl::discrete_interval<boost::posix_time::ptime>, 1, 0, TimeCodec> DB_time; // static bounds: no unit interval around a time point
struct D_time : Discrete<DB_time, true, 0> { SIM_CONTAINERS(std::less) static const char* name() { return "ptime.dyn"; } };
struct D_rat : Continuous<icl::continuous_interval<boost::rational<int> >, true, 0, RatCodec> { SIM_CONTAINERS(std::less) static const char* name() { return "rational.dyn"; } };
struct D_str : Continuous<icl::right_open_interval<std::string>, false, 2, StrCodec> { SIM_CONTAINERS(std::less) static const char* name() { return "string.rightopen"; } };
} // namespace sim
