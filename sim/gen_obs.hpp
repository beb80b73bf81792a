// Reference model of a RINEX 3 observation file, its generator, and a session
// driver over the real reader.
#pragma once
#include "common.hpp"
#include "obsrnx.hpp"
#include <optional>

namespace gen {
using ngpt::SATELLITE_SYSTEM;

struct ObsVal {
  bool present{false};
  double v{0};
};
struct ObsSat {
  char sys;
  int prn;
  std::vector<ObsVal> vals; // header order
};
struct ObsEpoch {
  int y, mo, d, h, mi;
  double sec;
  long mjd;
  double sod;
  std::vector<ObsSat> sats;
  size_t begin{0}, head{0}, end{0}; // bytes of the epoch in the file (head: its epoch line)
};
struct ObsFile {
  std::map<char, std::vector<std::string>> types;
  std::vector<char> order;
  double xyz[3];
  Stamp first;
  std::vector<ObsEpoch> epochs;
  std::string text;
  size_t eoh{0}; // offset just past END OF HEADER line
  int maxobs{0};
  std::string marker, number, rcvr_nr, rcvr, antenna;
  bool clk{false};
};

struct ObsOpts {
  int min_epochs{0}, max_epochs{7};
  bool big{true};
  bool events{true};
  bool lasting{false};
};

inline std::string obs_code(sim::Sub &r) {
  static const char T[] = "CLDS", A[] = "CWPQXILSZABDEMNY";
  std::string s;
  s += T[r.below(4)];
  s += (char)('1' + r.below(9));
  s += A[r.below(16)];
  return s;
}

/// a special event: flag 2..5 with header records, 6 with cycle slip records;
/// no observations
inline std::string obs_event(sim::Sub &r, const ObsFile &f, const Stamp &t, double sec) {
  using sim::fmt;
  int flag = (int)r.range(2, 6);
  std::vector<std::string> l;
  static const char *const C[] = {"NEW SITE                                                    MARKER NAME", "9081", "        1.2345        0.0000        0.0000                  ANTENNA: DELTA H/E/N",
                                  "> not an epoch                                              COMMENT", "G07 20000000.000                                            COMMENT",
                                  "a comment                                                   COMMENT"};
  for (int n = (int)(r.chance(1, 8) ? r.range(8, 30) : r.chance(1, 60) ? r.range(90, 200) : r.range(0, 3)); n > 0; n--)
    if (flag == 6) {
      char s = f.order[r.below(f.order.size())];
      std::string x = fmt("%c%02d", s, (int)r.range(1, 32));
      for (size_t k = 0; k < f.types.at(s).size(); k++)
        x += r.chance(1, 2) ? fmt("%14.3f  ", (double)r.range(-9, 9)) : std::string(16, ' ');
      l.push_back(x);
    } else
      l.push_back(C[r.below(6)]);
  if (l.size() > 1 && flag == 3)
    l[0] = C[0];
  bool stamp = flag >= 5 || r.chance(1, 2);
  std::string h = stamp ? fmt("> %4d %02d %02d %02d %02d%11.7f", t.y, t.mo, t.d, t.h, t.mi, sec) : ">" + std::string(28, ' ');
  h += fmt("  %d%3zu", flag, l.size());
  if (r.chance(1, 3))
    h.resize(h.size() + 21, ' ');
  h += "\n";
  for (auto &x : l)
    h += x + "\n";
  sim::probe("special_event");
  return h;
}
inline ObsFile make_obs(ObsOpts o = ObsOpts()) {
  using namespace sim;
  ObsFile f;
  static const char SYS[] = "GREJSCI";
  bool lasting = o.lasting && chance(1, 220); // thousands of epochs
  int nsys = lasting ? 1 : (int)range(1, 4);
  {
    std::string pool = SYS;
    for (int i = 0; i < nsys; i++) {
      size_t k = pick(pool.size());
      f.order.push_back(pool[k]);
      pool.erase(k, 1);
    }
  }
  Sub cr = sub();
  for (char s : f.order) {
    int n;
    switch (lasting ? 0 : weighted({4, 2, 2, 1, 1})) {
    case 0: n = (int)range(1, 4); break;
    case 1: n = (int)range(5, 12); break;
    case 2: n = (int)range(13, 14); break;
    case 3: n = (int)range(15, 25); break;
    default: n = (int)range(26, chance(1, 4) ? 70 : 30); break;
    }
    std::vector<std::string> v;
    std::set<std::string> seen;
    while ((int)v.size() < n) {
      std::string c = obs_code(cr);
      if (seen.insert(c).second)
        v.push_back(c);
    }
    f.types[s] = v;
    f.maxobs = std::max(f.maxobs, n);
  }
  // ---------------------------------------------------------------- header
  Sub hr = sub();
  bool trim = !hr.quiet() && hr.chance(1, 3);
  static const char *VER[] = {"3.04", "3.02", "3.03", "3.05"};
  std::string hdr;
  auto H = [&](std::string body, const char *label) { hdr += hline(body, label, trim); };
  H(fmt("%9s           OBSERVATION DATA    %c", VER[hr.below(4)], nsys > 1 ? 'M' : f.order[0]), "RINEX VERSION / TYPE");
  std::vector<std::function<void()>> fields;
  Stamp t0 = gen_stamp();
  double sec0 = one_of<double>({0, 0, 30, 29.5, 59.9999999, 0.1, 1.0});
  f.first = t0;
  f.first.sec = sec0;
  for (int i = 0; i < 3; i++)
    f.xyz[i] = std::strtod(fmt("%.4f", (hr.unit() - .5) * 1.3e7).c_str(), nullptr);
  fields.push_back([&] { H("teqc  2019Feb25     NOA                 20200102 00:00:10UTC", "PGM / RUN BY / DATE"); });
  auto text = [&](size_t n) { // of a length between nothing and the whole field
    std::string s;
    for (size_t k = hr.chance(1, 4) ? n : hr.below(n + 1); s.size() < k;)
      s += s.size() && s.back() != ' ' && s.size() + 1 < k && hr.chance(1, 8) ? ' ' : "ABCDEFxyz0123456789/-+."[hr.below(23)];
    return s;
  };
  fields.push_back([&] { H(f.marker = hr.chance(1, 2) ? "DYNG" : text(60), "MARKER NAME"); });
  fields.push_back([&] { H(f.number = hr.chance(1, 2) ? "12602M006" : text(20), "MARKER NUMBER"); });
  fields.push_back([&] { H("National Observatory NOA", "OBSERVER / AGENCY"); });
  fields.push_back([&] { 
    f.rcvr_nr = hr.chance(1, 2) ? "4906K34268" : text(20);
    f.rcvr = hr.chance(1, 2) ? "TRIMBLE NETR9" : text(20);
    H(padded(f.rcvr_nr, 20) + padded(f.rcvr, 20) + "5.22", "REC # / TYPE / VERS");
  });
  fields.push_back([&] { 
    f.antenna = hr.chance(1, 3) ? "ASH701945G_M    NONE" : "TRM59800.00     SCIS";
    bool none = f.antenna[0] == 'A' && hr.chance(1, 3); // a blank radome is NONE
    H((f.antenna[0] == 'A' ? std::string(20, ' ') : padded("1441112501", 20)) + f.antenna.substr(0, none ? 16 : 20), "ANT # / TYPE");
  });
  fields.push_back([&] { H(fmt("%14.4f%14.4f%14.4f", f.xyz[0], f.xyz[1], f.xyz[2]), "APPROX POSITION XYZ"); });
  fields.push_back([&] { H(fmt("%14.4f%14.4f%14.4f", 0.0083, 0.0, -1.25), "ANTENNA: DELTA H/E/N"); });
  fields.push_back([&] { H("    30.000", "INTERVAL"); });
  fields.push_back([&] { H((f.clk = hr.chance(1, 4)) ? "     1" : "     0", "RCV CLOCK OFFS APPL"); });
  fields.push_back([&] {
    H(fmt("%6d%6d%6d%6d%6d%13.7f     GPS", t0.y, t0.mo, t0.d, t0.h, t0.mi, sec0), "TIME OF FIRST OBS");
  });
  for (char s : f.order)
    fields.push_back([&, s] {
      auto &v = f.types[s];
      for (size_t i = 0; i < v.size(); i += 13) {
        std::string b = i ? std::string(6, ' ') : fmt("%c  %3zu", s, v.size());
        for (size_t k = i; k < std::min(v.size(), i + 13); k++)
          b += " " + v[k];
        H(b, "SYS / # / OBS TYPES");
      }
    });
  if (!hr.quiet()) {
    for (size_t i = fields.size(); i > 1; i--)
      std::swap(fields[i - 1], fields[hr.below(i)]);
    int nc = (int)hr.below(4);
    if (hr.chance(1, 40))
      nc = (int)hr.range(50, hr.chance(1, 6) ? 2500 : 900), probe("long_header");
    for (int i = 0; i < nc; i++)
      fields.insert(fields.begin() + (long)hr.below(fields.size() + 1), [&] {
        H(hr.chance(1, 2) ? "a comment that fills sixty columns ........................." : "short", "COMMENT");
      });
    if (hr.chance(1, 2))
      fields.push_back([&] { H("G L1C  0.00000  12 G01 G02 G03", "SYS / PHASE SHIFT"); });
    if (hr.chance(1, 2))
      fields.push_back([&] { H(" 24 R01  1 R02 -4 R03  5 R04  6", "GLONASS SLOT / FRQ #"); });
    if (hr.chance(1, 2))
      fields.push_back([&] { H("    18    18  2185     7", "LEAP SECONDS"); });
  }
  for (auto &x : fields)
    x();
  H("", "END OF HEADER");
  f.text = hdr;
  f.eoh = hdr.size();
  // ---------------------------------------------------------------- epochs
  int ne = (int)range(o.min_epochs, o.max_epochs);
  if (lasting)
    ne = one_of<int>({700, 1500, 3100}), probe("thousands_of_epochs");
  static const long STEP[] = {30, 1, 900, 86400, 7, 3600};
  long step = STEP[pick(6)];
  Stamp t = t0;
  double sec = sec0;
  for (int e = 0; e < ne; e++) {
    ObsEpoch ep;
    Sub r = sub();
    ep.begin = f.text.size();
    if (o.events && !r.quiet() && r.chance(1, 10)) // part of the epoch that follows
      f.text += obs_event(r, f, t, sec);
    ep.y = t.y, ep.mo = t.mo, ep.d = t.d, ep.h = t.h, ep.mi = t.mi;
    std::string ssec = fmt("%11.7f", sec);
    ep.sec = std::strtod(ssec.c_str(), nullptr);
    ep.mjd = mjd_of(t.y, t.mo, t.d);
    ep.sod = t.h * 3600e0 + t.mi * 60e0 + ep.sec;
    int ns = 0;
    switch (lasting ? 4 : weighted({4, 4, 2, 1})) {
    case 4: ns = (int)r.below(3); break;
    case 0: ns = (int)range(1, 3); break;
    case 1: ns = (int)range(4, 14); break;
    case 2: ns = 0; break;
    default: ns = o.big ? (int)range(40, chance(1, 12) ? 300 : 80) : 9; break;
    }
    std::set<std::pair<char, int>> used;
    for (int i = 0; i < ns; i++) {
      ObsSat sv;
      int guard = 0;
      do {
        sv.sys = f.order[r.below(f.order.size())];
        sv.prn = 1 + (int)r.below(r.chance(1, 4) ? 99 : 32);
      } while (used.count({sv.sys, sv.prn}) && ++guard < 200);
      if (guard >= 200)
        break;
      used.insert({sv.sys, sv.prn});
      ep.sats.push_back(sv);
    }
    bool pad = r.quiet() || r.chance(2, 3);
    std::string head = pad ? fmt("> %4d %02d %02d %02d %02d%s  %d%3zu", t.y, t.mo, t.d, t.h, t.mi, ssec.c_str(),
                                 (int)(!r.quiet() && r.chance(1, 8)), ep.sats.size())
                           : fmt("> %4d %2d %2d %2d %2d%s  %d%3zu", t.y, t.mo, t.d, t.h, t.mi, ssec.c_str(), 0,
                                 ep.sats.size());
    if (!r.quiet()) {
      if (r.chance(1, 5))
        head += fmt("      %15.12f", (r.unit() - .5) * 1e-3);
      else if (r.chance(1, 3))
        head += std::string(r.below(22), ' ');
    }
    ep.head = f.text.size();
    f.text += head + "\n";
    for (auto &sv : ep.sats) {
      auto &v = f.types[sv.sys];
      std::string l = fmt("%c%02d", sv.sys, sv.prn);
      unsigned blank = (unsigned)r.below(10);
      for (size_t k = 0; k < v.size(); k++) {
        ObsVal ov;
        if (!r.quiet() && r.below(16) < blank) {
          l += std::string(14, ' ');
          // the loss of lock may be noted where there is no value
          bool fl = r.chance(1, 12);
          l += fl && r.chance(2, 3) ? (char)('0' + r.below(8)) : ' ';
          l += fl && r.chance(1, 2) ? (char)('0' + r.below(10)) : ' ';
        } else {
          double mag = v[k][0] == 'C' ? 2.2e7 : v[k][0] == 'L' ? 1.2e8 : v[k][0] == 'D' ? 4000. : 50.;
          double x = r.quiet() ? mag + (double)k : (v[k][0] == 'D' ? (r.unit() - .5) * 2 * mag : mag * (0.5 + r.unit()));
          if (!r.quiet() && r.chance(1, 20))
            x = (r.chance(1, 2) ? -1 : 1) * r.unit() * (r.chance(1, 2) ? 9e8 : 10.); // up to full width
          std::string s = fmt("%14.3f", x);
          ov.v = std::strtod(s.c_str(), nullptr);
          if (ov.v == 0 || ov.v == ngpt::RNXOBS_MISSING_VAL || s.size() != 14) {
            s = fmt("%14.3f", 20000123.456);
            ov.v = std::strtod(s.c_str(), nullptr);
          }
          ov.present = true;
          char lli = ' ', ssi = ' ';
          if (!r.quiet()) {
            if (r.chance(1, 3))
              lli = (char)('0' + r.below(8));
            if (r.chance(1, 2))
              ssi = (char)('0' + r.below(10));
          }
          l += s;
          l += lli;
          l += ssi;
        }
        sv.vals.push_back(ov);
      }
      if (!r.quiet() && r.chance(1, 2)) { // writers drop trailing blanks
        while (!l.empty() && l.back() == ' ')
          l.pop_back();
      }
      f.text += l + "\n";
    }
    ep.end = f.text.size();
    f.epochs.push_back(std::move(ep));
    // advance the simulated receiver clock
    long st = step;
    if (!lasting && chance(1, 6)) // an outage, as long as it takes
      switch (pick(8)) {
      case 0: st = 604800; break;
      case 1: st = 60; break;
      case 2: st = 59; break;
      case 3: st = same_next_month(t) - t.abs(); break;
      case 4: st = same_next_year(t) - t.abs(); break;
      case 5: st = 0; break;
      default: st = 86400;
      }
    simtime((double)st);
    advance(t, st);
  }
  if (Sub r = sub(); o.events && !r.quiet() && r.chance(1, 10))
    f.text += obs_event(r, f, t, sec);
  return f;
}

// ------------------------------------------------------------- request map
struct ObsReq {
  std::map<SATELLITE_SYSTEM, std::vector<ngpt::GnssObservable>> in;   // what is asked
  bool skip{false};
  // expected outcome
  bool ok{true}; // a usable (possibly empty) map
  struct Part {
    int idx;
    double coef;
  };
  std::map<char, std::vector<std::vector<Part>>> want; // per system: observables as parts
  std::string text;
};
inline ObsReq make_req(const ObsFile &f) {
  using namespace sim;
  ObsReq q;
  if (chance(1, 40)) { // nothing asked: nothing delivered, epoch by epoch
    q.skip = chance(1, 2);
    q.text = " (nothing)";
    return q;
  }
  q.skip = chance(1, 3);
  Sub r = sub();
  bool err = false;
  std::vector<char> asked;
  for (char s : f.order)
    if (asked.empty() || pick(4) != 3)
      asked.push_back(s);
  if (q.skip && chance(1, 3)) {
    for (char s : std::string("GREJSCI"))
      if (!f.types.count(s)) {
        asked.push_back(s);
        break;
      }
  }
  // std::map order = enum order; build in that order so that the outcome of an
  // error is independent of it (an error empties the whole map)
  for (char s : asked) {
    auto sys = ngpt::char_to_satsys(s);
    auto it = f.types.find(s);
    int n = (int)range(1, 4);
    if (chance(1, 8) && it != f.types.end())
      n = (int)it->second.size();
    bool all = n > 4;
    for (int i = 0; i < n; i++) {
      int np = all ? 1 : weighted({4, 2, 1}) + 1;
      std::vector<ObsReq::Part> parts;
      std::optional<ngpt::GnssObservable> go;
      bool missing = it == f.types.end();
      q.text += fmt(" %c:", s);
      for (int p = 0; p < np; p++) {
        std::string code;
        int idx = -1;
        if (it != f.types.end() && !(q.skip && chance(1, 8))) {
          idx = all ? i : (int)(r.quiet() ? (i + p) % it->second.size() : r.below(it->second.size()));
          code = it->second[(size_t)idx];
        } else {
          do
            code = obs_code(r);
          while (it != f.types.end() && std::find(it->second.begin(), it->second.end(), code) != it->second.end());
          missing = true;
        }
        double coef = np == 1 ? (chance(1, 6) ? 0.5 : 1e0)
                              : (r.quiet() ? 0.5 : std::floor((r.unit() - .5) * 2000) / 256. + 0.00390625);
        ngpt::ObservationCode oc(code.c_str());
        if (!go)
          go.emplace(sys, oc, coef);
        else
          go->add(sys, oc, coef);
        parts.push_back({idx, coef});
        q.text += fmt("%s%s*%g", p ? "+" : "", code.c_str(), coef);
      }
      q.in[sys].push_back(*go);
      if (missing) {
        if (!q.skip)
          err = true;
      } else
        q.want[s].push_back(parts);
    }
  }
  if (!q.skip && chance(1, 12)) { // ask for something the file does not have
    char s = f.order[0];
    std::string code;
    auto &v = f.types.at(s);
    do
      code = obs_code(r);
    while (std::find(v.begin(), v.end(), code) != v.end());
    q.in[ngpt::char_to_satsys(s)].push_back(ngpt::GnssObservable(ngpt::char_to_satsys(s), ngpt::ObservationCode(code.c_str())));
    q.text += fmt(" %c:%s(absent)", s, code.c_str());
    err = true;
  }
  if (q.ok && !err && chance(1, 24)) { // parts of two systems, or filed under another system
    char a = f.order[0], b = 0;
    for (char s : f.order)
      if (s != a)
        b = s;
    if (b) {
      auto A = ngpt::char_to_satsys(a), B = ngpt::char_to_satsys(b);
      ngpt::GnssObservable g(A, ngpt::ObservationCode(f.types.at(a)[0].c_str()), .5);
      if (chance(1, 2))
        g.add(B, ngpt::ObservationCode(f.types.at(b)[0].c_str()), .5);
      else
        A = B;
      q.in[A].push_back(g);
      q.text += " (mixed systems)";
      err = true;
    }
  }
  if (err) {
    q.ok = false;
    q.want.clear();
  }
  return q;
}

// ------------------------------------------------------------ real session
inline bool same_parts(const ngpt::GnssObservable &a, const ngpt::GnssObservable &b) {
  auto x = a.underlying_vector(), y = b.underlying_vector();
  if (x.size() != y.size())
    return false;
  for (size_t i = 0; i < x.size(); i++)
    if (x[i].type().satsys() != y[i].type().satsys() || x[i].type().code().to_string() != y[i].type().code().to_string() || x[i].__coef != y[i].__coef)
      return false;
  return true;
}
struct ObsSession {
  using Map = decltype(std::declval<const ngpt::ObservationRnx &>().set_read_map(
      std::declval<std::map<SATELLITE_SYSTEM, std::vector<ngpt::GnssObservable>> &>(), false));
  using Vec = std::vector<std::pair<ngpt::Satellite, std::vector<double>>>;
  std::unique_ptr<ngpt::ObservationRnx> rd;
  Map map;
  Vec vec;
  int sats{0};
  ngpt::modified_julian_day mjd{0};
  double sod{0};
  int n_calls{0};

  void open(const std::string &path) {
    sim::api("ObservationRnx()", [&] { rd = std::make_unique<ngpt::ObservationRnx>(path.c_str()); });
  }
  void set_map(ObsReq &q) {
    auto in = q.in;
    map = sim::api("set_read_map", [&] { return rd->set_read_map(in, q.skip); });
    vec = sim::api("initialize_epoch_vector", [&] { return rd->initialize_epoch_vector(map); });
    sim::ev("set_read_map%s skip=%d -> %zu systems", q.text.c_str(), (int)q.skip, map.size());
    // the outcome the caller relies on
    if (!q.ok) {
      if (!map.empty())
        sim::fail("read-map", "a request with an absent observable was accepted");
      return;
    }
    if (map.size() != q.want.size())
      sim::fail("read-map", "map has %zu systems, expected %zu", map.size(), q.want.size());
    for (auto &w : q.want) {
      auto it = map.find(ngpt::char_to_satsys(w.first));
      if (it == map.end() || it->second.size() != w.second.size())
        sim::fail("read-map", "wrong number of observables for system %c", w.first);
      auto ii = in.find(ngpt::char_to_satsys(w.first));
      if (ii == in.end() || ii->second.size() != w.second.size())
        sim::fail("read-map", "input map and result disagree for system %c", w.first);
      for (size_t k = 0, j = 0; k < ii->second.size(); k++, j++) { // what is left are the asked ones, in their order
        auto &was = q.in.at(ngpt::char_to_satsys(w.first));
        while (j < was.size() && !same_parts(was[j], ii->second[k]))
          j++;
        if (j == was.size())
          sim::fail("read-map", "the input map of system %c holds something that was not asked", w.first);
      }
    }
  }
  int read() {
    ++n_calls;
    sats = -12345;
    int st = sim::api("read_next_epoch", [&] { return rd->read_next_epoch(map, vec, sats, mjd, sod); });
    return st;
  }
};

inline double obs_expect(const ObsSat &sv, const std::vector<ObsReq::Part> &parts, double &scale) {
  double x = 0;
  scale = 0;
  for (auto &p : parts) {
    if (!sv.vals[(size_t)p.idx].present)
      return ngpt::RNXOBS_MISSING_VAL;
    double t = sv.vals[(size_t)p.idx].v * p.coef;
    x += t;
    scale += std::fabs(t);
  }
  return x;
}
/// empty string if the delivered epoch is exactly `ep`, else what differs
inline std::string obs_diff(const ObsSession &s, const ObsReq &q, const ObsEpoch &ep) {
  using sim::fmt;
  if (s.mjd.as_underlying_type() != ep.mjd)
    return fmt("date: mjd %ld, file has %ld", s.mjd.as_underlying_type(), ep.mjd);
  if (!(std::fabs(s.sod - ep.sod) < 1e-8))
    return fmt("seconds of day %.9f, file has %.9f", s.sod, ep.sod);
  std::vector<const ObsSat *> w;
  for (auto &sv : ep.sats)
    if (q.want.count(sv.sys))
      w.push_back(&sv);
  if (s.sats != (int)w.size())
    return fmt("%d satellites delivered, %zu expected", s.sats, w.size());
  if (s.vec.size() < w.size())
    return fmt("epoch vector too small (%zu)", s.vec.size());
  for (size_t i = 0; i < w.size(); i++) {
    const auto &got = s.vec[i];
    char gs = ngpt::satsys_to_char(got.first.system());
    if (gs != w[i]->sys || got.first.prn() != w[i]->prn)
      return fmt("satellite %zu is %c%02d, file has %c%02d", i, gs, got.first.prn(), w[i]->sys, w[i]->prn);
    const auto &want = q.want.at(w[i]->sys);
    for (size_t k = 0; k < want.size(); k++) {
      double sc, x = obs_expect(*w[i], want[k], sc);
      double g = got.second.at(k);
      bool good = x == ngpt::RNXOBS_MISSING_VAL ? g == x : std::fabs(g - x) <= 1e-13 * sc;
      if (!good)
        return fmt("%c%02d observable #%zu is %.6f, expected %.6f", gs, got.first.prn(), k, g, x);
    }
  }
  return "";
}
} // namespace gen
