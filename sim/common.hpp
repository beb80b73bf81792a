#pragma once
#include "core.hpp"
#include "ggdatetime/dtcalendar.hpp"
#include <algorithm>
#include <string>
namespace gen {
inline long mjd_of(int y, int m, int d) { return ngpt::shim::civil(y, m, d) + ngpt::shim::MJD_UNIX; }
struct Stamp {
  int y{2020}, mo{1}, d{1}, h{0}, mi{0};
  double sec{0};
  long mjd() const { return mjd_of(y, mo, d); }
  /// whole seconds since MJD 0 (sec must be integral)
  long abs() const { return mjd() * 86400L + h * 3600L + mi * 60L + (long)sec; }
};
inline Stamp from_abs(long s) {
  long day = ngpt::shim::fdiv(s, 86400), r = s - day * 86400;
  auto c = ngpt::shim::from_days(day - ngpt::shim::MJD_UNIX);
  Stamp t;
  t.y = (int)c.y, t.mo = c.m, t.d = c.d, t.h = (int)(r / 3600), t.mi = (int)(r / 60 % 60), t.sec = (double)(r % 60);
  return t;
}
inline void advance(Stamp &t, long sec) {
  double keep = t.sec;
  t.sec = 0;
  long whole = t.abs();
  t = from_abs(whole + sec);
  t.sec = keep;
}
/// the same day of the next month that has it, of the next year that has it
inline long same_next_month(Stamp t) {
  do
    t.mo == 12 ? t.y++, t.mo = 1 : t.mo++;
  while (t.d > ngpt::shim::dim(t.y, t.mo));
  return t.abs();
}
inline long same_next_year(Stamp t) {
  do
    t.y++;
  while (t.d > ngpt::shim::dim(t.y, t.mo));
  return t.abs();
}
/// a simulated instant, biased to day, week, month and year boundaries
inline Stamp gen_stamp() {
  using namespace sim;
  static const int Y[] = {2020, 2019, 2000, 2021, 2016, 2024, 1999, 2038};
  Stamp t;
  t.y = Y[pick(8)];
  switch (weighted({3, 3, 2})) {
  case 0: break;
  case 1:
    t.mo = (int)range(1, 12);
    t.d = (int)range(1, 28);
    t.h = (int)range(0, 23);
    t.mi = (int)range(0, 59);
    break;
  default:
    t.mo = one_of<int>({12, 2, 1});
    t.d = t.mo == 2 ? ngpt::shim::dim(t.y, 2) : 31;
    t.h = 23;
    t.mi = (int)range(50, 59);
  }
  return t;
}
inline std::string padded(std::string s, size_t n) {
  s.resize(n, ' ');
  return s;
}
inline std::string hline(std::string body, const char *label, bool trim = false) {
  body.resize(60, ' ');
  body += label;
  if (!trim)
    body.resize(std::max<size_t>(80, body.size()), ' ');
  return body + "\n";
}
/// how many steps a history has; now and then very many
inline int history(int lo, int hi, int most = 600) {
  if (!sim::chance(1, 30))
    return (int)sim::range(lo, hi);
  sim::probe("long_history");
  return (int)sim::range(most / 6, most);
}
} // namespace gen
