// Reference model of a RINEX 3 navigation file, its generator, and helpers to
// compare real data frames with it.
#pragma once
#include "common.hpp"
#include "navrnx.hpp"

namespace gen {
using ngpt::NavDataFrame;
using ngpt::NavigationRnx;
using ngpt::SATELLITE_SYSTEM;
using ms_t = ngpt::datetime<ngpt::milliseconds>;

inline int nav_lines(char s) { return (s == 'R' || s == 'S') ? 4 : 8; }
inline int nav_last(char s) { return (s == 'R' || s == 'S') ? 4 : (s == 'E' || s == 'I') ? 1 : 2; }
inline int nav_count(char s) { return 3 + 4 * (nav_lines(s) - 2) + nav_last(s); }
/// fields the format leaves without a meaning (what the frame holds there is not specified)
inline bool nav_spare(char s, int i) {
  if (s == 'G' || s == 'J')
    return false;
  if (s == 'E')
    return i == 22;
  if (s == 'C')
    return i == 20 || i == 22;
  if (s == 'I')
    return i == 20 || i == 22 || i == 26;
  return false;
}
inline int nav_health_idx(char s) { return (s == 'R' || s == 'S') ? 6 : 24; }
inline SATELLITE_SYSTEM sys_of(char c) {
  switch (c) {
  case 'G': return SATELLITE_SYSTEM::gps;
  case 'R': return SATELLITE_SYSTEM::glonass;
  case 'S': return SATELLITE_SYSTEM::sbas;
  case 'E': return SATELLITE_SYSTEM::galileo;
  case 'C': return SATELLITE_SYSTEM::beidou;
  case 'J': return SATELLITE_SYSTEM::qzss;
  case 'I': return SATELLITE_SYSTEM::irnss;
  }
  return SATELLITE_SYSTEM::mixed;
}

struct NavRec {
  char sys{'G'};
  int prn{1};
  Stamp toc;
  double data[31]{}; // as the text says (GLONASS already in metres)
  long toe{0};       // whole seconds since MJD 0
  size_t begin{0}, end{0};
  bool geo() const { return sys == 'C' && (prn <= 5 || (prn >= 59 && prn <= 63)); } // geostationary
  bool healthy() const { return (int)data[nav_health_idx(sys)] == 0; }
  long fit() const {
    if (sys == 'R')
      return 900;
    if (sys == 'G')
      return 3600L * (long)data[28];
    return 4 * 3600L;
  }
  /// does the validity interval contain t (milliseconds since MJD 0)?
  bool covers(long t) const {
    if (sys == 'R')
      return t >= (toe - 900) * 1000 && t < (toe + 900) * 1000;
    return t >= toc.abs() * 1000 && t < (toc.abs() + fit()) * 1000;
  }
};
struct NavFile {
  std::vector<NavRec> recs;
  std::string text;
  size_t eoh{0};
};

/// how a file writes its numbers (constant within one file)
struct NavStyle {
  char e{'D'};
  bool nolead{false}; // .123 instead of 0.123
  bool pad{false};    // pad lines to 80 columns
  bool blanks{false}; // leave spare/zero fields blank
  bool trim{false};   // cut trailing blanks
};
inline NavStyle gen_nav_style(sim::Sub &r) {
  NavStyle s;
  if (r.quiet())
    return s;
  static const char E[] = "DEde";
  s.e = E[r.below(4)];
  s.nolead = r.chance(1, 3);
  s.pad = r.chance(1, 3);
  s.blanks = r.chance(1, 2);
  s.trim = r.chance(1, 2);
  return s;
}
/// one D19.12 field; *exact becomes the number the text denotes
inline std::string nav_field(double v, const NavStyle &s, double *exact) {
  std::string t;
  if (s.nolead) {
    // d.ddd..e+xx  ->  .dddd..e+(xx+1)
    std::string b = sim::fmt("%.11e", std::fabs(v)); // 1.23456789012e+05
    std::string dig = b.substr(0, 1) + b.substr(2, 11);
    int ex = std::atoi(b.c_str() + b.find('e') + 1) + (v == 0 ? 0 : 1);
    t = sim::fmt("%s.%se%+03d", v < 0 ? "-" : " ", dig.c_str(), ex);
  } else
    t = sim::fmt("%.12e", v);
  *exact = std::strtod(t.c_str(), nullptr);
  for (auto &c : t)
    if (c == 'e')
      c = s.e;
  t.insert(0, 19 - t.size(), ' ');
  return t;
}

/// write a record's text; rounds rec.data to what the text denotes
inline std::string nav_text(NavRec &r, const NavStyle &st, sim::Sub &br) {
  std::string out, line;
  int n = nav_count(r.sys);
  line = sim::fmt("%c%02d %04d %02d %02d %02d %02d %02d", r.sys, r.prn, r.toc.y, r.toc.mo, r.toc.d, r.toc.h, r.toc.mi,
                  (int)r.toc.sec);
  auto flush = [&] {
    if (st.trim)
      while (!line.empty() && line.back() == ' ')
        line.pop_back();
    if (st.pad)
      line.resize(80, ' ');
    out += line + "\n";
    line = "    ";
  };
  int col = 1;
  for (int i = 0; i < n; i++) {
    if (col == 4) {
      flush();
      col = 0;
    }
    bool crucial = i < 3 || i == nav_health_idx(r.sys) || (r.sys != 'R' && r.sys != 'S' && (i == 11 || i == 21)) ||
                   (r.sys == 'G' && i == 28);
    bool blank = st.blanks && i > 0 && (nav_spare(r.sys, i) ? br.chance(1, 2) : (!crucial && br.chance(1, 24)));
    if (!blank && st.blanks && crucial && i != nav_health_idx(r.sys) && r.data[i] == 0 && br.chance(1, 6))
      blank = true;
    if (!st.blanks && nav_spare(r.sys, i))
      r.data[i] = 0;
    if (blank) {
      line += std::string(19, ' ');
      r.data[i] = 0;
    } else
      line += nav_field(r.data[i], st, &r.data[i]);
    ++col;
  }
  flush();
  if (r.sys == 'R')
    for (int i : {3, 4, 5, 7, 8, 9, 11, 12, 13})
      r.data[i] *= 1e3;
  return out;
}

inline double nav_rand(sim::Sub &r) {
  if (r.quiet())
    return 0;
  switch (r.below(5)) {
  case 0: return 0;
  case 1: return (double)r.range(-99999, 99999);
  case 2: return (r.unit() - .5) * 2e-9;
  case 3: return (r.unit() - .5) * 6e7;
  default: return (r.unit() - .5) * 7;
  }
}
/// fill the time fields consistently: toe = toc + dtoe (GLONASS: message frame
/// time, may lie on the other side of a day or week boundary)
inline void nav_times(NavRec &r, long dtoe) {
  long toe = r.toc.abs() + dtoe;
  r.toe = toe;
  long days = ngpt::shim::fdiv(toe, 86400) - 44244; // since GPS epoch
  long week = ngpt::shim::fdiv(days, 7);
  long sow = toe - (44244 + week * 7) * 86400;
  if (r.sys == 'R')
    r.data[2] = (double)sow;
  else if (r.sys != 'S') {
    r.data[11] = (double)sow;
    r.data[21] = (double)(r.sys == 'C' ? week - 1356 : week);
  }
}

inline std::string nav_header(sim::Sub &hr, char sys) {
  bool trim = !hr.quiet() && hr.chance(1, 3);
  std::string hdr;
  auto H = [&](std::string body, const char *label) { hdr += hline(body, label, trim); };
  static const char *VER[] = {"3.04", "3.02", "3.03", "3.00"};
  H(sim::fmt("%9s           NAVIGATION DATA     %c: x", VER[hr.below(4)], sys), "RINEX VERSION / TYPE");
  int k = hr.quiet() ? 0 : (int)hr.below(7);
  if (!hr.quiet() && hr.chance(1, 40))
    k = (int)hr.range(50, hr.chance(1, 6) ? 2500 : 900), sim::probe("long_header");
  for (int i = 0; i < k; i++)
    switch (hr.below(6)) {
    case 0: H("BCEmerge            congo               20200102 012902 GMT", "PGM / RUN BY / DATE"); break;
    case 1: H("Merged GPS/GLO/GAL/BDS/QZS/SBAS navigation file", "COMMENT"); break;
    case 2: H("based on CONGO and MGEX tracking data", "COMMENT"); break;
    case 3: H("GPSA   1.1176E-08 -7.4506E-09 -5.9605E-08  1.1921E-07", "IONOSPHERIC CORR"); break;
    case 4: H("GPUT -2.7939677238E-09-1.776356839E-15  61440 2086", "TIME SYSTEM CORR"); break;
    default: H("    18    18  1929     7", "LEAP SECONDS"); break;
    }
  H("", "END OF HEADER");
  return hdr;
}

/// once in a while, a crowd of records of another system somewhere in the file:
/// whoever looks for a satellite has to pass them all
inline void crowd(NavFile &f, const char *systems, const NavStyle &style, sim::Sub &vr) {
  using namespace sim;
  if (!chance(1, 250))
    return;
  size_t n = (size_t)one_of<int>({1100, 2100, 5200});
  size_t at = pick(f.recs.size() + 1);
  NavRec r;
  r.sys = systems[pick(std::strlen(systems))];
  r.prn = (int)range(1, 3);
  r.toc = f.recs.empty() ? gen_stamp() : f.recs[at ? at - 1 : 0].toc;
  r.toc.sec = 0;
  for (int k = 0; k < nav_count(r.sys); k++)
    r.data[k] = nav_rand(vr);
  r.data[nav_health_idx(r.sys)] = 0;
  nav_times(r, 0);
  if (r.sys == 'S')
    r.data[2] = 0;
  if (r.sys == 'G')
    r.data[28] = 4;
  std::string one = nav_text(r, style, vr), all;
  all.reserve(n * one.size());
  std::vector<NavRec> more;
  size_t begin = at < f.recs.size() ? f.recs[at].begin : f.text.size();
  for (size_t i = 0; i < n; i++) {
    r.begin = begin + all.size();
    all += one;
    r.end = begin + all.size();
    more.push_back(r);
  }
  for (size_t i = at; i < f.recs.size(); i++)
    f.recs[i].begin += all.size(), f.recs[i].end += all.size();
  f.text.insert(begin, all);
  f.recs.insert(f.recs.begin() + (long)at, more.begin(), more.end());
  probe("crowded_navigation_file");
}

struct NavOpts {
  int min_recs{0}, max_recs{9};
  const char *systems{"GRECSJI"};
  bool crowd{false};
};
/// a file of arbitrary, independent records (C04, C06)
inline NavFile make_nav(NavOpts o = NavOpts()) {
  using namespace sim;
  NavFile f;
  Sub hr = sub();
  Sub vr = sub();
  Sub st = sub();
  NavStyle style = gen_nav_style(st);
  std::string pool = o.systems;
  int nsys = (int)range(1, 4);
  std::string use;
  for (int i = 0; i < nsys; i++)
    use += pool[pick(pool.size())];
  f.text = nav_header(hr, nsys > 1 ? 'M' : use[0]);
  f.eoh = f.text.size();
  int n = (int)range(o.min_recs, o.max_recs);
  if (chance(1, 200)) {
    n = 400;
    probe("long_navigation_file");
  }
  Stamp t = gen_stamp();
  for (int i = 0; i < n; i++) {
    NavRec r;
    r.sys = use[vr.quiet() ? 0 : vr.below(use.size())];
    r.prn = vr.quiet() ? 1 : (int)vr.range(1, vr.chance(1, 2) ? 3 : 63);
    if (!vr.quiet())
      advance(t, vr.chance(1, 12) ? (vr.chance(1, 2) ? same_next_month(t) : same_next_year(t)) - t.abs() : 60 * vr.range(0, 120));
    r.toc = t;
    if (!vr.quiet() && vr.chance(1, 4))
      r.toc.sec = (double)vr.below(60);
    for (int k = 0; k < nav_count(r.sys); k++)
      r.data[k] = nav_rand(vr);
    r.data[nav_health_idx(r.sys)] = vr.chance(1, 4) ? (double)vr.range(1, 63) : 0;
    nav_times(r, vr.quiet() ? 0 : 60 * vr.range(-30, 30));
    if (r.sys == 'R' || r.sys == 'S') {
      // message frame time is a whole number of seconds
      if (r.sys == 'S')
        r.data[2] = (double)vr.below(604800);
    }
    if (r.sys == 'G')
      r.data[28] = 4;
    f.recs.push_back(r);
    NavRec &q = f.recs.back();
    q.begin = f.text.size();
    f.text += nav_text(q, style, vr);
    q.end = f.text.size();
  }
  if (o.crowd)
    crowd(f, "SJ", style, vr);
  return f;
}

inline bool near(double a, double b) { return a == b || std::fabs(a - b) <= 4e-16 * std::max(std::fabs(a), std::fabs(b)); }
inline std::string nav_diff(const NavDataFrame &g, const NavRec &r) {
  if (g.system() != sys_of(r.sys))
    return sim::fmt("system differs from '%c'", r.sys);
  if (g.prn() != r.prn)
    return sim::fmt("PRN %d, file has %d", g.prn(), r.prn);
  auto t = g.toc();
  long a = (long)t.mjd().as_underlying_type() * 86400L + t.sec().as_underlying_type();
  if (a != r.toc.abs())
    return sim::fmt("clock epoch is off by %ld s", a - r.toc.abs());
  for (int i = 0; i < nav_count(r.sys); i++)
    if (!nav_spare(r.sys, i) && !near(g.data(i), r.data[i]))
      return sim::fmt("value %d is %.15g, file has %.15g", i, g.data(i), r.data[i]);
  if (r.sys == 'G' || r.sys == 'R' || r.sys == 'E' || r.sys == 'C') {
    auto e = g.toe<ngpt::seconds>();
    long b = (long)e.mjd().as_underlying_type() * 86400L + e.sec().as_underlying_type();
    if (b != r.toe)
      return sim::fmt("time of ephemeris is off by %ld s", b - r.toe);
    auto u = g.toc<ngpt::microseconds>();
    if ((long)u.mjd().as_underlying_type() * 86400L + u.sec().as_underlying_type() / 1000000L != r.toc.abs() || u.sec().as_underlying_type() % 1000000L)
      return "the clock epoch in microseconds differs";
  }
  auto meters = [&](double got) { return near(got, (double)(float)r.data[23]) || std::fabs(got - r.data[23]) <= 1e-6 * std::fabs(r.data[23]); };
  bool fits = std::fabs(r.data[23]) < 1e30;
  if (r.sys == 'G' && fits && !meters(g.gps_ura()))
    return sim::fmt("gps_ura() is %g, file has %g", (double)g.gps_ura(), r.data[23]);
  if (r.sys == 'E' && fits && !meters(g.gal_sisa()))
    return sim::fmt("gal_sisa() is %g, file has %g", (double)g.gal_sisa(), r.data[23]);
  if (r.sys == 'E' && std::fabs(r.data[3]) < 1e6 && g.gal_iod_nav() != (int)r.data[3])
    return sim::fmt("gal_iod_nav() is %d, file has %g", g.gal_iod_nav(), r.data[3]);
  return "";
}
inline ms_t ms_at(long ms) {
  long day = ngpt::shim::fdiv(ms, 86400000L);
  return ms_t(ngpt::modified_julian_day(day), ngpt::milliseconds(ms - day * 86400000L));
}
/// what find_next_valid must do: status and where the cursor ends up
struct Want {
  int st;
  size_t rec, cur;
};
inline Want valid_model(const NavFile &f, size_t cur, long t, char sys, int prn) {
  for (size_t i = cur; i < f.recs.size(); i++) {
    const NavRec &r = f.recs[i];
    if (r.sys != sys || (prn != -1 && prn != r.prn))
      continue;
    if (r.toc.abs() * 1000 > t + 4 * 3600000L)
      return {-1, 0, i + 1};
    if (r.healthy() && r.covers(t))
      return {0, i, i + 1};
  }
  return {-1, 0, f.recs.size()};
}
} // namespace gen
