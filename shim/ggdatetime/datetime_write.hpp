/* Stand-in for ggdatetime (see dtcalendar.hpp). */
#ifndef VERIF_SHIM_DATETIME_WRITE_HPP
#define VERIF_SHIM_DATETIME_WRITE_HPP
#include "dtcalendar.hpp"
#include <cerrno>
#include <cstdio>
#include <string>

namespace ngpt {
template <typename T> std::string strftime_ymd_hms(const datetime<T> &t, char delim = '-') {
  struct keep { int e; ~keep() { errno = e; } } k{errno};
  char buf[128];
  shim::ymd d = shim::from_days(t.mjd().as_underlying_type() - shim::MJD_UNIX);
  long f = T::template sec_factor<long>();
  long s = t.sec().as_underlying_type();
  std::snprintf(buf, sizeof buf, "%04ld%c%02d%c%02d %02ld:%02ld:%09.6f", d.y, delim, d.m, delim, d.d,
                s / f / 3600, (s / f / 60) % 60,
                static_cast<double>(s % (60 * f)) / static_cast<double>(f));
  return std::string(buf);
}
template <typename T> std::string strftime_ymd_hmfs(const datetime<T> &t, char delim = '-') {
  return strftime_ymd_hms(t, delim);
}
} // namespace ngpt
#endif
