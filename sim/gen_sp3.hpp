// Reference model of an SP3-c/d orbit file, its generator and a session driver.
#pragma once
#include "common.hpp"
#include "sp3c.hpp"

namespace gen {
using ngpt::Sp3c;
using ngpt::Sp3Event;

struct Sp3Sat {
  char sys{'G'};
  int prn{1};
  double v[4]; // metres, microseconds
  unsigned flags{0};
};
struct Sp3Epoch {
  Stamp t;
  std::vector<Sp3Sat> sats;
  size_t begin{0}, end{0}; // end includes the EOF line for the last one
  long us() const { return Stamp{t.y, t.mo, t.d, t.h, t.mi, std::floor(t.sec)}.abs() * 1000000L +
                           std::lround((t.sec - std::floor(t.sec)) * 1e6); }
};
struct Sp3File {
  std::vector<Sp3Epoch> epochs;
  std::vector<std::pair<char, int>> ids;
  std::string text;
  size_t eoh{0};
  long interval_us{0};
  char version{'c'};
  std::string coord, orbit, agency, time;
};
struct Sp3Opts {
  int min_epochs{1}, max_epochs{6};
  bool lasting{false}; // now and then thousands of epochs, or no line end after EOF
};
inline ngpt::SATELLITE_SYSTEM sp3_sys(char c) { return ngpt::char_to_satsys(c); }

inline Sp3File make_sp3(Sp3Opts o = Sp3Opts()) {
  using namespace sim;
  Sp3File f;
  Sub hr = sub(), vr = sub();
  bool d = !hr.quiet() && hr.chance(1, 2);
  bool lasting = o.lasting && chance(1, 220);
  int ns;
  switch (lasting ? 0 : weighted({5, 2, 1})) {
  case 0: ns = (int)range(1, 5); break;
  case 1: ns = (int)range(6, 40); break;
  default: ns = (int)range(41, d ? 120 : 85);
  }
  static const char SYS[] = "GRECJSI";
  for (int i = 0; i < ns; i++) {
    std::pair<char, int> id;
    do
      id = hr.quiet() ? std::make_pair('G', i % 99 + 1)
                      : std::make_pair(SYS[hr.below(7)], (int)hr.range(1, 99));
    while (std::find(f.ids.begin(), f.ids.end(), id) != f.ids.end());
    f.ids.push_back(id);
  }
  int n = (int)range(o.min_epochs, o.max_epochs);
  if (lasting)
    n = one_of<int>({300, 1100, 3000}), probe("thousands_of_epochs");
  Stamp t0 = gen_stamp();
  t0.sec = one_of<double>({0, 0, 0, 30, 0.5, 0.57, 12.345678, 59.999999});
  if (chance(1, 4)) // any microsecond: most have no exact binary form
    t0.sec = (double)pick(60000000) / 1e6;
  if (t0.mi % 15 && chance(1, 2))
    t0.mi -= t0.mi % 15;
  double dt = one_of<double>({900, 300, 30, 1, 0.25, 86400, 3600});
  f.interval_us = std::lround(dt * 1e6);
  bool vel = !hr.quiet() && hr.chance(1, 4), corr = !hr.quiet() && hr.chance(1, 5);
  f.version = d ? 'd' : 'c';
  static const char *const WORD[4][4] = {{"IGS14", "ITR97", "WGS84", "IGb08"}, {"FIT", "EXT", "HLM", "BCT"}, {"AIUB", " IGS", "COD", "SIO"}, {"GPS", "UTC", "GAL", "GLO"}};
  f.coord = WORD[0][hr.quiet() ? 0 : hr.below(4)];
  f.orbit = WORD[1][hr.quiet() ? 0 : hr.below(4)];
  f.agency = WORD[2][hr.quiet() ? 0 : hr.below(4)];
  f.time = WORD[3][hr.quiet() ? 0 : hr.below(4)];
  // ---------------------------------------------------------------- header
  std::string h;
  auto L = [&](std::string s, bool pad = false) {
    if (pad)
      s.resize(80, ' ');
    h += s + "\n";
  };
  L(fmt("#%c%c%4d %2d %2d %2d %2d %11.8f %7d %5s %5s %3s %4s", d ? 'd' : 'c', vel ? 'V' : 'P', t0.y, t0.mo, t0.d, t0.h,
        t0.mi, t0.sec, n, hr.chance(1, 2) ? "ORBIT" : "u+U", f.coord.c_str(), f.orbit.c_str(), f.agency.c_str()));
  {
    long day = t0.mjd() - 44244, wk = day / 7;
    double sod = t0.h * 3600. + t0.mi * 60. + t0.sec;
    L(fmt("## %4ld %15.8f %14.8f %5ld %15.13f", wk, (double)((day - wk * 7) * 86400) + sod, dt, t0.mjd(), sod / 86400.));
  }
  int lines = std::max(5, (ns + 16) / 17);
  for (int i = 0; i < lines; i++) {
    std::string s = i ? "+        " : fmt(d ? "+  %3d   " : "+   %2d   ", ns);
    for (int k = i * 17; k < i * 17 + 17; k++)
      s += k < ns ? fmt("%c%02d", f.ids[(size_t)k].first, f.ids[(size_t)k].second) : "  0";
    L(s);
  }
  for (int i = 0; i < lines; i++) {
    std::string s = "++       ";
    for (int k = 0; k < 17; k++)
      s += fmt("%3d", hr.quiet() ? 0 : (int)hr.below(12));
    L(s);
  }
  L("%c M  cc " + f.time + " ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  L("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  L("%f  1.2500000  1.025000000  0.00000000000  0.000000000000000");
  L("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000");
  L("%i    0    0    0    0      0      0      0      0         0");
  L("%i    0    0    0    0      0      0      0      0         0");
  int nc = d && !hr.quiet() ? (int)hr.below(9) : 4;
  if (!hr.quiet() && hr.chance(1, 40))
    nc = (int)hr.range(10, hr.chance(1, 6) ? 2500 : 300), probe("long_header");
  for (int i = 0; i < nc; i++)
    L(hr.chance(1, 2) ? "/* FINAL ORBIT COMBINATION FROM WEIGHTED AVERAGE OF:" : "/*");
  f.text = h;
  f.eoh = h.size();
  // ---------------------------------------------------------------- epochs
  bool pad = !vr.quiet() && vr.chance(1, 3), std_dev = vr.chance(1, 2);
  for (int e = 0; e < n; e++) {
    Sp3Epoch ep;
    ep.t = t0;
    {
      long us = std::lround((t0.sec + e * dt) * 1e6); // t0.sec < 60
      Stamp b = t0;
      b.sec = 0;
      b = from_abs(b.abs() + us / 1000000);
      ep.t = b;
      ep.t.sec += (double)(us % 1000000) / 1e6;
    }
    ep.begin = f.text.size();
    f.text += fmt("*  %4d %2d %2d %2d %2d %11.8f", ep.t.y, ep.t.mo, ep.t.d, ep.t.h, ep.t.mi, ep.t.sec);
    if (pad && vr.chance(1, 2))
      f.text += "   ";
    f.text += "\n";
    for (auto &id : f.ids) {
      if (!vr.quiet() && vr.chance(1, 8))
        continue; // not every satellite in every epoch
      Sp3Sat s;
      s.sys = id.first;
      s.prn = id.second;
      std::string line = fmt("P%c%02d", s.sys, s.prn);
      bool nopos = !vr.quiet() && vr.chance(1, 12);
      int noone = !vr.quiet() && vr.chance(1, 16) ? (int)vr.below(3) : -1; // a single component
      for (int k = 0; k < 3; k++) {
        double x = nopos || noone == k || vr.quiet() ? 0 : (vr.unit() - .5) * (vr.chance(1, 4) ? 199999 : 60000);
        std::string a = fmt("%14.6f", x);
        s.v[k] = std::strtod(a.c_str(), nullptr) * 1e3;
        line += a;
      }
      std::string c = vr.quiet() || vr.chance(1, 8) ? vr.chance(1, 3) ? " 999999.999999" : " 999999.000000"
                                                    : fmt("%14.6f", (vr.unit() - .5) * (vr.chance(1, 8) ? 1999998. : 900.));
      s.v[3] = std::strtod(c.c_str(), nullptr);
      line += c;
      if (s.v[0] == 0 || s.v[1] == 0 || s.v[2] == 0)
        s.flags |= 1;
      if (s.v[3] >= 999999)
        s.flags |= 2;
      bool flags = !vr.quiet() && vr.chance(1, 3);
      if (std_dev || flags)
        line += vr.chance(1, 4) ? "            " : fmt(" %2d %2d %2d %3d", (int)vr.below(30), (int)vr.below(30), (int)vr.below(30), (int)vr.below(300));
      if (flags) {
        line.resize(80, ' ');
        if (vr.chance(1, 2))
          line[74] = 'E', s.flags |= 4;
        if (vr.chance(1, 2))
          line[75] = 'P', s.flags |= 8;
        if (vr.chance(1, 2))
          line[78] = 'M', s.flags |= 16;
        if (vr.chance(1, 2))
          line[79] = 'P', s.flags |= 32;
      }
      if (pad)
        line.resize(80, ' ');
      else
        while (line.back() == ' ')
          line.pop_back();
      f.text += line + "\n";
      if (corr && vr.chance(1, 2))
        f.text += "EP  55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000\n";
      if (vel)
        f.text += fmt("V%c%02d%14.6f%14.6f%14.6f%14.6f", s.sys, s.prn, vr.unit() * 3e4, -vr.unit() * 3e4, vr.unit(), vr.unit()) + "\n";
      if (vel && corr && vr.chance(1, 2))
        f.text += "EV  22   22   22     111  1234567  1234567  1234567  1234567  1234567  1234567\n";
      ep.sats.push_back(s);
    }
    if (e + 1 == n)
      f.text += o.lasting && !vr.quiet() && vr.chance(1, 6) ? "EOF" : "EOF\n";
    ep.end = f.text.size();
    f.epochs.push_back(ep);
  }
  return f;
}

struct Sp3Session {
  std::unique_ptr<Sp3c> rd;
  std::vector<ngpt::Sp3EpochSvRecord> vec;
  ngpt::datetime<ngpt::microseconds> t;
  int n{-7};
  void open(const char *path) {
    try {
      rd = sim::api("Sp3c", [&] { return std::make_unique<Sp3c>(path); });
    } catch (std::exception &e) {
      sim::fail("valid-file-rejected", "constructor threw on a valid file: %s", e.what());
    }
    vec = rd->allocate_epoch_vector();
  }
  int read() {
    n = -7;
    int st = sim::api("get_next_epoch", [&] { return rd->get_next_epoch(t, vec, n); });
    sim::ev("get_next_epoch -> %d", st);
    return st;
  }
  void rewind() {
    sim::api("rewind", [&] { rd->rewind(); });
    sim::ev("rewind");
  }
};
inline std::string sp3_diff(const Sp3Session &s, const Sp3Epoch &e) {
  using sim::fmt;
  long us = (long)s.t.mjd().as_underlying_type() * 86400000000L + s.t.sec().as_underlying_type();
  if (us != e.us())
    return fmt("time is off by %g s", (double)(us - e.us()) / 1e6);
  if (s.n != (int)e.sats.size())
    return fmt("%d satellites, file has %zu", s.n, e.sats.size());
  for (size_t i = 0; i < e.sats.size(); i++) {
    auto &g = s.vec[i];
    auto &w = e.sats[i];
    if (g.s_ != sp3_sys(w.sys) || g.prn_ != w.prn)
      return fmt("satellite %zu is not %c%02d", i, w.sys, w.prn);
    for (size_t k = 0; k < 4; k++)
      if (!(g.vals_[k] == w.v[k] || std::fabs(g.vals_[k] - w.v[k]) <= 4e-16 * std::fabs(w.v[k])))
        return fmt("%c%02d value %zu is %.10g, file has %.10g", w.sys, w.prn, k, g.vals_[k], w.v[k]);
    static const Sp3Event E[] = {Sp3Event::bad_abscent_position, Sp3Event::bad_abscent_clock, Sp3Event::clock_event,
                                 Sp3Event::clock_prediction,     Sp3Event::maneuver,          Sp3Event::orbit_prediction};
    for (unsigned k = 0; k < 6; k++)
      if (g.flag_.is_set(E[k]) != (bool)(w.flags >> k & 1))
        return fmt("%c%02d flag %u is %d, file has %d", w.sys, w.prn, k, (int)g.flag_.is_set(E[k]), (int)(w.flags >> k & 1));
  }
  return "";
}
} // namespace gen
