/* Stand-in for ggdatetime (see dtcalendar.hpp). */
#ifndef VERIF_SHIM_DATETIME_READ_HPP
#define VERIF_SHIM_DATETIME_READ_HPP
#include "dtcalendar.hpp"
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstring>

namespace ngpt {
/// Read "YYYY MM DD HH MM SS.SSS" (fields separated by exactly one arbitrary
/// character and any blanks). Throws std::invalid_argument when it cannot.
/// Leaves errno as it was.
template <typename T, typename = std::enable_if_t<T::is_of_sec_type>>
datetime<T> strptime_ymd_hms(const char *str, char **stop = nullptr) {
  struct keep { int e; ~keep() { errno = e; } } k{errno};
  int v[5];
  const char *p = str;
  for (int i = 0; i < 5; i++) {
    char *end;
    errno = 0;
    long x = std::strtol(p, &end, 10);
    if (end == p || errno || x > 100000 || x < -100000)
      throw std::invalid_argument("strptime_ymd_hms: invalid field");
    v[i] = static_cast<int>(x < 0 ? -x : x);
    p = end;
    if (*p)
      ++p;
  }
  char *end;
  errno = 0;
  double s = std::strtod(p, &end);
  if (end == p || errno || !(s >= 0e0) || !(s < 86400e0))
    throw std::invalid_argument("strptime_ymd_hms: invalid seconds");
  if (stop)
    *stop = end;
  if (!month(v[1]).is_valid() || !day_of_month(v[2]).is_valid(year(v[0]), month(v[1])))
    throw std::invalid_argument("strptime_ymd_hms: invalid date");
  // nearest tick when the text is exact in T (guards the binary rounding of
  // e.g. 0.123456), truncation otherwise
  double ticks = s * T::template sec_factor<double>();
  double r = std::round(ticks);
  long t = static_cast<long>(std::fabs(r - ticks) < 3e-8 ? r : std::floor(ticks));
  return datetime<T>(year(v[0]), month(v[1]), day_of_month(v[2]), hours(v[3]), minutes(v[4]), T(t));
}
} // namespace ngpt
#endif
