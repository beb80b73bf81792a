/* Stand-in for the external library `ggdatetime` (namespace ngpt), which
 * xanthospap/ggnss depends on and which is not installed in this sandbox.
 * It is a STUB of a dependency, not code under test: simple, total, free of
 * undefined behaviour on garbage input, and it never touches errno.        */
#ifndef VERIF_SHIM_DTCALENDAR_HPP
#define VERIF_SHIM_DTCALENDAR_HPP
#include <cstdint>
#include <cstddef>
#include <limits>
#include <string>
#include <stdexcept>
#include <type_traits>
#include <ostream>

namespace ngpt {

constexpr double mjd0_jd{2400000.5e0};
constexpr double j2000_jd{2451545e0};
constexpr double j2000_mjd{j2000_jd - mjd0_jd};
constexpr double days_in_julian_cent{36525e0};
constexpr double sec_per_day{86400e0};

namespace shim {
constexpr long wadd(long a, long b) noexcept {
  return static_cast<long>(static_cast<unsigned long>(a) + static_cast<unsigned long>(b));
}
constexpr long wsub(long a, long b) noexcept {
  return static_cast<long>(static_cast<unsigned long>(a) - static_cast<unsigned long>(b));
}
constexpr long wmul(long a, long b) noexcept {
  return static_cast<long>(static_cast<unsigned long>(a) * static_cast<unsigned long>(b));
}
constexpr long fdiv(long a, long b) noexcept {
  return a / b - ((a % b != 0 && ((a < 0) != (b < 0))) ? 1 : 0);
}
constexpr bool leap(long y) noexcept {
  return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}
constexpr int dim(long y, int m) noexcept {
  return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
}
// days from 1970-01-01 (Hinnant), valid for every int y, any int m, d
constexpr long civil(long y, long m, long d) noexcept {
  y += fdiv(m - 1, 12);
  m = (m - 1) - fdiv(m - 1, 12) * 12 + 1;
  y -= m <= 2;
  long era = fdiv(y, 400);
  long yoe = y - era * 400;
  long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
struct ymd { long y; int m; int d; };
constexpr ymd from_days(long z) noexcept {
  z += 719468;
  long era = fdiv(z, 146097);
  long doe = z - era * 146097;
  long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long y = yoe + era * 400;
  long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  long mp = (5 * doy + 2) / 153;
  int d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
  int m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
  return ymd{y + (m <= 2), m, d};
}
constexpr long MJD_UNIX = 40587;
} // namespace shim

#define VERIF_SHIM_INT(NAME, T)                                                \
  class NAME {                                                                 \
  public:                                                                      \
    typedef T underlying_type;                                                 \
    static constexpr bool is_dt_fundamental_type{true};                        \
    explicit constexpr NAME(T v = T{}) noexcept : v_(v) {}                     \
    constexpr T as_underlying_type() const noexcept { return v_; }             \
    constexpr T &__member_ref__() noexcept { return v_; }                      \
    constexpr T __member_const_ref__() const noexcept { return v_; }           \
    constexpr bool operator==(NAME o) const noexcept { return v_ == o.v_; }    \
    constexpr bool operator!=(NAME o) const noexcept { return v_ != o.v_; }    \
    constexpr bool operator<(NAME o) const noexcept { return v_ < o.v_; }      \
    constexpr bool operator<=(NAME o) const noexcept { return v_ <= o.v_; }    \
    constexpr bool operator>(NAME o) const noexcept { return v_ > o.v_; }      \
    constexpr bool operator>=(NAME o) const noexcept { return v_ >= o.v_; }

VERIF_SHIM_INT(year, int)
private:
  int v_;
};
VERIF_SHIM_INT(month, int)
  constexpr bool is_valid() const noexcept { return v_ > 0 && v_ < 13; }
private:
  int v_;
};
VERIF_SHIM_INT(day_of_month, int)
  constexpr bool is_valid(year y, month m) const noexcept {
    return m.is_valid() && v_ > 0 && v_ <= shim::dim(y.as_underlying_type(), m.as_underlying_type());
  }
private:
  int v_;
};
VERIF_SHIM_INT(day_of_year, int)
private:
  int v_;
};
VERIF_SHIM_INT(hours, int)
private:
  int v_;
};
VERIF_SHIM_INT(minutes, int)
private:
  int v_;
};
VERIF_SHIM_INT(gps_week, long)
private:
  long v_;
};

class modified_julian_day {
public:
  typedef long underlying_type;
  explicit constexpr modified_julian_day(long v = 0) noexcept : v_(v) {}
  constexpr modified_julian_day(year y, month m, day_of_month d) noexcept
      : v_(shim::civil(y.as_underlying_type(), m.as_underlying_type(), d.as_underlying_type()) +
           shim::MJD_UNIX) {}
  static constexpr modified_julian_day max() noexcept { return modified_julian_day(10000000L); }
  static constexpr modified_julian_day min() noexcept { return modified_julian_day(-10000000L); }
  constexpr long as_underlying_type() const noexcept { return v_; }
  constexpr bool operator==(modified_julian_day o) const noexcept { return v_ == o.v_; }
  constexpr bool operator!=(modified_julian_day o) const noexcept { return v_ != o.v_; }
  constexpr bool operator<(modified_julian_day o) const noexcept { return v_ < o.v_; }
  constexpr bool operator<=(modified_julian_day o) const noexcept { return v_ <= o.v_; }
  constexpr bool operator>(modified_julian_day o) const noexcept { return v_ > o.v_; }
  constexpr bool operator>=(modified_julian_day o) const noexcept { return v_ >= o.v_; }
  constexpr modified_julian_day operator+(modified_julian_day o) const noexcept {
    return modified_julian_day(shim::wadd(v_, o.v_));
  }
  constexpr modified_julian_day operator-(modified_julian_day o) const noexcept {
    return modified_julian_day(shim::wsub(v_, o.v_));
  }
  constexpr modified_julian_day &operator+=(modified_julian_day o) noexcept {
    v_ = shim::wadd(v_, o.v_);
    return *this;
  }
  constexpr modified_julian_day &operator-=(modified_julian_day o) noexcept {
    v_ = shim::wsub(v_, o.v_);
    return *this;
  }
  constexpr modified_julian_day operator++() noexcept { v_ = shim::wadd(v_, 1); return *this; }
  constexpr modified_julian_day operator--() noexcept { v_ = shim::wsub(v_, 1); return *this; }

private:
  long v_;
};

#define VERIF_SHIM_SEC(NAME, FACTOR)                                           \
  class NAME {                                                                 \
  public:                                                                      \
    typedef long underlying_type;                                              \
    static constexpr bool is_of_sec_type{true};                                \
    static constexpr long max_in_day{86400L * (FACTOR)};                       \
    template <typename T> static constexpr T sec_factor() noexcept {           \
      return static_cast<T>(FACTOR);                                           \
    }                                                                          \
    explicit constexpr NAME(long v = 0) noexcept : v_(v) {}                    \
    constexpr NAME(hours h, minutes m, NAME c = NAME(0)) noexcept              \
        : v_(shim::wadd(c.v_, (h.as_underlying_type() * 3600L +                \
                               m.as_underlying_type() * 60L) * (FACTOR))) {}   \
    constexpr long as_underlying_type() const noexcept { return v_; }          \
    constexpr double to_fractional_seconds() const noexcept {                  \
      return static_cast<double>(v_) / static_cast<double>(FACTOR);            \
    }                                                                          \
    constexpr double fractional_days() const noexcept {                        \
      return static_cast<double>(v_) / static_cast<double>(max_in_day);        \
    }                                                                          \
    constexpr bool operator==(NAME o) const noexcept { return v_ == o.v_; }    \
    constexpr bool operator!=(NAME o) const noexcept { return v_ != o.v_; }    \
    constexpr bool operator<(NAME o) const noexcept { return v_ < o.v_; }      \
    constexpr bool operator<=(NAME o) const noexcept { return v_ <= o.v_; }    \
    constexpr bool operator>(NAME o) const noexcept { return v_ > o.v_; }      \
    constexpr bool operator>=(NAME o) const noexcept { return v_ >= o.v_; }    \
    constexpr NAME operator+(NAME o) const noexcept {                          \
      return NAME(shim::wadd(v_, o.v_));                                       \
    }                                                                          \
    constexpr NAME operator-(NAME o) const noexcept {                          \
      return NAME(shim::wsub(v_, o.v_));                                       \
    }                                                                          \
    constexpr NAME &operator+=(NAME o) noexcept {                              \
      v_ = shim::wadd(v_, o.v_);                                               \
      return *this;                                                            \
    }                                                                          \
    constexpr NAME &operator-=(NAME o) noexcept {                              \
      v_ = shim::wsub(v_, o.v_);                                               \
      return *this;                                                            \
    }                                                                          \
                                                                               \
  private:                                                                     \
    long v_;                                                                   \
  };

VERIF_SHIM_SEC(seconds, 1L)
VERIF_SHIM_SEC(milliseconds, 1000L)
VERIF_SHIM_SEC(microseconds, 1000000L)

/// cast between second types (finer -> coarser truncates)
template <typename Ssrc, typename Strg, typename = std::enable_if_t<Ssrc::is_of_sec_type>,
          typename = std::enable_if_t<Strg::is_of_sec_type>>
constexpr Strg cast_to(Ssrc s) noexcept {
  constexpr long fs = Ssrc::template sec_factor<long>(), ft = Strg::template sec_factor<long>();
  if (ft >= fs)
    return Strg(shim::wmul(s.as_underlying_type(), ft / fs));
  return Strg(s.as_underlying_type() / (fs / ft));
}

namespace shim {
template <typename A, typename B> constexpr int cmp(A a, B b) noexcept {
  constexpr long fa = A::template sec_factor<long>(), fb = B::template sec_factor<long>();
  constexpr long f = fa > fb ? fa : fb;
  __int128 x = static_cast<__int128>(a.as_underlying_type()) * (f / fa);
  __int128 y = static_cast<__int128>(b.as_underlying_type()) * (f / fb);
  return x < y ? -1 : (x > y ? 1 : 0);
}
template <typename A, typename B>
using finer = std::conditional_t<(A::template sec_factor<long>() >= B::template sec_factor<long>()), A, B>;
template <typename A, typename B>
using mixed = std::enable_if_t<A::is_of_sec_type && B::is_of_sec_type && !std::is_same<A, B>::value>;
} // namespace shim

#define VERIF_SHIM_CMP(OP)                                                     \
  template <typename A, typename B, typename = shim::mixed<A, B>>              \
  constexpr bool operator OP(A a, B b) noexcept {                              \
    return shim::cmp(a, b) OP 0;                                               \
  }
VERIF_SHIM_CMP(<)
VERIF_SHIM_CMP(>)
VERIF_SHIM_CMP(<=)
VERIF_SHIM_CMP(>=)
VERIF_SHIM_CMP(==)
VERIF_SHIM_CMP(!=)

namespace shim {
template <typename A, typename B> constexpr B conv(A s) noexcept { return ngpt::cast_to<A, B>(s); }
} // namespace shim

template <typename S> class datetime_interval {
public:
  explicit constexpr datetime_interval(modified_julian_day d = modified_julian_day(0), S s = S(0)) noexcept
      : d_(d), s_(s) {}
  constexpr modified_julian_day days() const noexcept { return d_; }
  constexpr S secs() const noexcept { return s_; }
  constexpr S sec() const noexcept { return s_; }
  constexpr modified_julian_day mjd() const noexcept { return d_; }
  constexpr S as_underlying_seconds_type() const noexcept {
    return S(shim::wadd(shim::wmul(d_.as_underlying_type(), S::max_in_day), s_.as_underlying_type()));
  }

private:
  modified_julian_day d_;
  S s_;
};

template <typename S, typename = std::enable_if_t<S::is_of_sec_type>> class datetime {
public:
  static constexpr datetime max() noexcept { return datetime(modified_julian_day::max(), S(0)); }
  static constexpr datetime min() noexcept { return datetime(modified_julian_day::min(), S(0)); }

  explicit constexpr datetime() noexcept : d_(51544), s_(0) {}
  constexpr datetime(modified_julian_day d, S s = S(0)) noexcept : d_(d), s_(s) { normalize(); }
  template <typename T, typename = shim::mixed<S, T>>
  constexpr datetime(modified_julian_day d, T s) noexcept : d_(d), s_(shim::conv<T, S>(s)) { normalize(); }
  constexpr datetime(year y, month m, day_of_month d, S s = S(0)) noexcept : d_(y, m, d), s_(s) {
    normalize();
  }
  constexpr datetime(year y, month m, day_of_month d, hours h, minutes mi, S s = S(0)) noexcept
      : d_(y, m, d), s_(h, mi, s) {
    normalize();
  }
  template <typename T, typename = shim::mixed<S, T>>
  constexpr datetime(year y, month m, day_of_month d, hours h, minutes mi, T s) noexcept
      : d_(y, m, d), s_(h, mi, shim::conv<T, S>(s)) {
    normalize();
  }
  template <typename T, typename = std::enable_if_t<T::is_of_sec_type>>
  constexpr datetime(gps_week w, T sow) noexcept
      : d_(shim::wadd(44244, shim::wmul(w.as_underlying_type(), 7))), s_(shim::conv<T, S>(sow)) {
    normalize();
  }

  constexpr modified_julian_day mjd() const noexcept { return d_; }
  constexpr S sec() const noexcept { return s_; }
  constexpr double as_mjd() const noexcept {
    return static_cast<double>(d_.as_underlying_type()) + s_.fractional_days();
  }
  template <typename T> constexpr datetime<T> cast_to() const noexcept {
    return datetime<T>(d_, shim::conv<S, T>(s_));
  }
  template <typename T, typename = std::enable_if_t<T::is_of_sec_type>>
  constexpr void add_seconds(T t) noexcept {
    s_ += shim::conv<T, S>(t);
    normalize();
  }
  template <typename T, typename = std::enable_if_t<T::is_of_sec_type>>
  constexpr void remove_seconds(T t) noexcept {
    s_ -= shim::conv<T, S>(t);
    normalize();
  }
  constexpr void remove_days(modified_julian_day d) noexcept { d_ -= d; }
  constexpr void add_days(modified_julian_day d) noexcept { d_ += d; }
  constexpr void normalize() noexcept {
    long day = shim::fdiv(s_.as_underlying_type(), S::max_in_day);
    d_ = modified_julian_day(shim::wadd(d_.as_underlying_type(), day));
    s_ = S(shim::wsub(s_.as_underlying_type(), shim::wmul(day, S::max_in_day)));
  }
  constexpr gps_week as_gps_wsow(long &sow) const noexcept {
    long dd = shim::wsub(d_.as_underlying_type(), 44244);
    long w = shim::fdiv(dd, 7);
    sow = shim::wadd(shim::wmul(dd - w * 7, 86400L), shim::conv<S, seconds>(s_).as_underlying_type());
    return gps_week(w);
  }
  template <typename T, typename = std::enable_if_t<T::is_of_sec_type>>
  constexpr gps_week as_gps_wsow(T &sow) const noexcept {
    long dd = shim::wsub(d_.as_underlying_type(), 44244);
    long w = shim::fdiv(dd, 7);
    sow = T(shim::wadd(shim::wmul(dd - w * 7, T::max_in_day), shim::conv<S, T>(s_).as_underlying_type()));
    return gps_week(w);
  }
  constexpr datetime_interval<S> delta_date(const datetime &o) const noexcept {
    return datetime_interval<S>(d_ - o.d_, s_ - o.s_);
  }
  constexpr datetime_interval<S> operator-(const datetime &o) const noexcept { return delta_date(o); }
  constexpr datetime operator+(const datetime_interval<S> &o) const noexcept {
    return datetime(d_ + o.days(), s_ + o.secs());
  }
  constexpr S delta_sec(const datetime &o) const noexcept {
    return S(shim::wadd(shim::wmul(shim::wsub(d_.as_underlying_type(), o.d_.as_underlying_type()), S::max_in_day),
                        shim::wsub(s_.as_underlying_type(), o.s_.as_underlying_type())));
  }

private:
  modified_julian_day d_;
  S s_;
};

namespace shim {
template <typename A, typename B> constexpr int dcmp(const datetime<A> &a, const datetime<B> &b) noexcept {
  if (a.mjd() != b.mjd())
    return a.mjd() < b.mjd() ? -1 : 1;
  return cmp(a.sec(), b.sec());
}
} // namespace shim
#define VERIF_SHIM_DCMP(OP)                                                    \
  template <typename A, typename B>                                            \
  constexpr bool operator OP(const datetime<A> &a, const datetime<B> &b) noexcept { \
    return shim::dcmp(a, b) OP 0;                                              \
  }
VERIF_SHIM_DCMP(<)
VERIF_SHIM_DCMP(>)
VERIF_SHIM_DCMP(<=)
VERIF_SHIM_DCMP(>=)
VERIF_SHIM_DCMP(==)
VERIF_SHIM_DCMP(!=)

/// seconds from b to a (in the finer of the two types)
template <typename A, typename B>
constexpr shim::finer<A, B> delta_sec(const datetime<A> &a, const datetime<B> &b) noexcept {
  using F = shim::finer<A, B>;
  return a.template cast_to<F>().delta_sec(b.template cast_to<F>());
}
} // namespace ngpt
#endif
