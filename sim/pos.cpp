// C22: a positioning program over everything: pseudoranges from an observation
// file, messages selected from a navigation file, orbits and clocks, the filter.
#include "gen_filter.hpp"
#include "gen_obs.hpp"
#include "gen_orbit.hpp"
using namespace sim;
using namespace gen;

namespace {
const char *PO = "/sim/rover.rnx", *PN = "/sim/brdc.rnx";

struct World {
  double scale{1}; // what is asked for is this multiple of a pseudorange
  double pos[3], clk, drift; // the receiver: place, clock at the first epoch (m), drift (m/s)
  long t0{0};                // first epoch, milliseconds since MJD 0
  NavFile nav;
  ObsFile obs;
  ObsReq req;
  std::vector<long> ms;                // of every epoch
  std::vector<std::vector<long>> want; // per epoch, per requested satellite: its record, -1: none, -2: not observed
};

/// the message a program uses that keeps one for each satellite until it expires
/// and then takes the first good one of the file
struct Cache {
  std::map<std::pair<char, int>, size_t> c;
  long get(const NavFile &f, long t, char s, int p) {
    auto it = c.find({s, p});
    if (it != c.end() && f.recs[it->second].healthy() && f.recs[it->second].covers(t))
      return (long)it->second;
    Want w = valid_model(f, 0, t, s, p);
    if (w.st)
      return -1;
    c[{s, p}] = w.rec;
    return (long)w.rec;
  }
};
Eval orbit_at(const NavRec &r, long ms) {
  ld tk = (ld)(ms - r.toe * 1000L) / 1e3L, dtc = (ld)(ms - r.toc.abs() * 1000L) / 1e3L;
  return r.sys == 'R' ? glo_model(r, tk) : kepler_model(r, tk, dtc);
}

void make_messages(World &w, const std::vector<std::pair<char, int>> &sats, long t0, long t1) {
  NavFile &f = w.nav;
  Sub hr = sub(), vr = sub(), st = sub();
  NavStyle style = gen_nav_style(st);
  f.text = nav_header(hr, 'M');
  f.eoh = f.text.size();
  Sub v(vr.quiet() ? 4711 : vr.next());
  std::vector<NavRec> all;
  for (auto &sp : sats) {
    char s = sp.first;
    long cad = s == 'R' ? 1800 : s == 'C' ? 3600 : s == 'E' ? 600 * v.range(3, 12) : 7200;
    long at = t0 - (long)v.below((u64)cad);
    at -= ((at % 16) + 16) % 16;
    for (; at <= t1; at += cad) {
      NavRec r;
      r.sys = s;
      r.prn = sp.second;
      r.toc = from_abs(at);
      realistic(r, v);
      if (v.chance(1, 10)) // out of order
        r.data[nav_health_idx(s)] = (double)v.range(1, 63);
      if (s == 'G' && v.chance(1, 4))
        r.data[28] = (double)v.range(1, 6);
      nav_times(r, v.chance(1, 4) ? (s == 'R' ? 30 * v.range(-20, 20) : 16 * v.range(-200, 200)) : 0);
      if (v.chance(1, 12)) { // never received
        probe("message_missing");
        continue;
      }
      all.push_back(r);
      if (v.chance(1, 10)) { // superseded by a later upload
        realistic(r, v);
        nav_times(r, 0);
        all.push_back(r);
      }
    }
  }
  if (!vr.quiet() && vr.chance(1, 3)) { // somebody else's satellites
    NavRec r;
    r.sys = vr.chance(1, 2) ? 'J' : 'S';
    r.toc = from_abs(t0);
    for (int k = 0; k < nav_count(r.sys); k++)
      r.data[k] = nav_rand(vr);
    if (r.sys == 'S')
      r.data[2] = (double)vr.below(604800);
    nav_times(r, 0);
    all.push_back(r);
  }
  std::stable_sort(all.begin(), all.end(), [](const NavRec &a, const NavRec &b) { return a.toc.abs() < b.toc.abs(); });
  for (auto &r : all) {
    f.recs.push_back(r);
    NavRec &q = f.recs.back();
    style.blanks = false;
    q.begin = f.text.size();
    f.text += nav_text(q, style, vr);
    q.end = f.text.size();
  }
}

void make_world(World &w) {
  Sub r = sub();
  Sub v(r.quiet() ? 7 : r.next());
  double lat = (v.unit() - .5) * 3.1, lon = (v.unit() - .5) * 6.2, R = 6371e3 + v.unit() * 9000;
  w.pos[0] = R * std::cos(lat) * std::cos(lon);
  w.pos[1] = R * std::cos(lat) * std::sin(lon);
  w.pos[2] = R * std::sin(lat);
  w.clk = (v.unit() - .5) * 60;
  w.drift = v.chance(1, 3) ? 0 : (v.unit() - .5) * 2e-2;
  // who is in view
  std::vector<std::pair<char, int>> sats;
  static const char *MIX[] = {"G", "GE", "GR", "R", "GREC", "E", "C", "EC"};
  std::string mix = MIX[pick(8)];
  int n = chance(1, 8) ? (int)range(13, 30) : (int)range(4, 12);
  for (int i = 0; i < n; i++) {
    char s = mix[v.below(mix.size())];
    int p = s == 'C' ? 1 + (int)v.below(62) : 1 + (int)v.below(24);
    if (std::find(sats.begin(), sats.end(), std::make_pair(s, p)) == sats.end())
      sats.push_back({s, p});
  }
  // when
  Stamp t = gen_stamp();
  t.sec = (double)pick(2) * 30;
  double frac = one_of<double>({0, 0, 0.5, 0.02, 0.999});
  std::vector<long> at; // milliseconds
  long ms = t.abs() * 1000 + std::lround(frac * 1e3);
  int ne = history(1, 30, 180);
  long step = one_of<long>({30, 1, 300, 120, 5});
  for (int e = 0; e < ne; e++) {
    at.push_back(ms);
    long d = step;
    if (chance(1, 10)) { // the receiver was off for a while
      d = one_of<long>({900, 200, 3600, 7200, 14400, 50000});
      fault("epoch_gap");
    }
    ms += d * 1000;
    simtime((double)d);
  }
  w.t0 = at[0];
  make_messages(w, sats, at[0] / 1000, at.back() / 1000);
  // ------------------------------------------------------- observation file
  ObsFile &f = w.obs;
  Sub hr = sub();
  Sub h(hr.quiet() ? 99 : hr.next());
  std::set<char> present;
  for (auto &s : sats)
    present.insert(s.first);
  if (h.chance(1, 3))
    present.insert('J'); // observed, not asked for
  f.order.assign(present.begin(), present.end());
  bool combine = chance(1, 2);
  // free of the ionosphere, for several pairs of frequencies, or a weighted mean
  double g = one_of<double>({1.6469444444, 1.7932703213, 1.6530612245, 1.6723743, 0});
  double ca = g / (g - 1), cb = -1 / (g - 1);
  if (g == 0) {
    ca = .2 + .6 * h.unit(), cb = 1 - ca;
    g = -ca / cb;
  }
  w.scale = one_of<double>({1, 1, 1, 2, .5, -1});
  if (w.scale != 1)
    probe("scaled_observable");
  double c1 = w.scale * (combine ? ca : 1e0), c2 = w.scale * cb;
  std::map<char, std::pair<int, int>> where; // of the two pseudoranges
  for (char s : f.order) {
    std::vector<std::string> x = {"C1C", "C2W"};
    int more = (int)h.below(h.chance(1, 5) ? 14 : 5);
    while (more-- > 0) {
      std::string c = obs_code(h);
      if (std::find(x.begin(), x.end(), c) == x.end())
        x.push_back(c);
    }
    for (size_t i = x.size(); i > 1; i--)
      std::swap(x[i - 1], x[h.below(i)]);
    where[s] = {(int)(std::find(x.begin(), x.end(), "C1C") - x.begin()), (int)(std::find(x.begin(), x.end(), "C2W") - x.begin())};
    f.types[s] = x;
    f.maxobs = std::max(f.maxobs, (int)x.size());
    if (s == 'J')
      continue;
    auto sys = ngpt::char_to_satsys(s);
    ngpt::GnssObservable o(sys, ngpt::ObservationCode("C1C"), c1);
    std::vector<ObsReq::Part> parts = {{where[s].first, c1}};
    if (combine) {
      o.add(sys, ngpt::ObservationCode("C2W"), c2);
      parts.push_back({where[s].second, c2});
    }
    w.req.in[sys].push_back(o);
    w.req.want[s].push_back(parts);
  }
  bool trim = h.chance(1, 3);
  auto H = [&](std::string body, const char *label) { f.text += hline(body, label, trim); };
  H("     3.04           OBSERVATION DATA    M", "RINEX VERSION / TYPE");
  H("sim                 sim                 20200102 00:00:10UTC", "PGM / RUN BY / DATE");
  for (int i = 0; i < 3; i++)
    f.xyz[i] = std::strtod(fmt("%.4f", w.pos[i] + (h.unit() - .5) * 60).c_str(), nullptr);
  H(fmt("%14.4f%14.4f%14.4f", f.xyz[0], f.xyz[1], f.xyz[2]), "APPROX POSITION XYZ");
  for (char s : f.order) {
    auto &x = f.types[s];
    for (size_t i = 0; i < x.size(); i += 13) {
      std::string b = i ? std::string(6, ' ') : fmt("%c  %3zu", s, x.size());
      for (size_t k = i; k < std::min(x.size(), i + 13); k++)
        b += " " + x[k];
      H(b, "SYS / # / OBS TYPES");
    }
  }
  f.first = t;
  f.first.sec = t.sec + frac;
  H(fmt("%6d%6d%6d%6d%6d%13.7f     GPS", t.y, t.mo, t.d, t.h, t.mi, f.first.sec), "TIME OF FIRST OBS");
  H("", "END OF HEADER");
  f.eoh = f.text.size();
  Cache cache;
  int lose = weighted({2, 2, 1});
  Sub er = sub();
  Sub x(er.quiet() ? 3 : er.next());
  for (long m : at) {
    ObsEpoch ep;
    ep.begin = f.text.size();
    Stamp c = from_abs(ngpt::shim::fdiv(m, 1000));
    double sec = c.sec + (double)(m - ngpt::shim::fdiv(m, 1000) * 1000) / 1e3;
    if (!er.quiet() && x.chance(1, 12))
      f.text += obs_event(x, f, c, sec);
    ep.y = c.y, ep.mo = c.mo, ep.d = c.d, ep.h = c.h, ep.mi = c.mi;
    std::string ssec = fmt("%11.7f", sec);
    ep.sec = std::strtod(ssec.c_str(), nullptr);
    ep.mjd = mjd_of(c.y, c.mo, c.d);
    ep.sod = c.h * 3600e0 + c.mi * 60e0 + ep.sec;
    std::vector<std::pair<char, int>> seen;
    for (auto &s : sats)
      if (x.below(12) >= (u64)lose)
        seen.push_back(s);
      else
        fault("satellite_lost");
    if (present.count('J') && x.chance(1, 2))
      seen.push_back({'J', 1});
    for (size_t i = seen.size(); i > 1 && !er.quiet(); i--)
      std::swap(seen[i - 1], seen[x.below(i)]);
    ep.head = f.text.size();
    std::vector<long> want;
    std::string lines;
    for (auto &s : seen) {
      ObsSat sv;
      sv.sys = s.first, sv.prn = s.second;
      bool no1 = x.below(24) < (u64)lose, no2 = x.below(24) < (u64)lose;
      sv.vals.resize(f.types[sv.sys].size());
      bool asked = sv.sys != 'J', observed = asked && !no1 && !(combine && no2);
      double rho = 2.1e7 + x.unit() * 5e6; // without a message: anything
      if (observed) {
        long rec = cache.get(w.nav, m, sv.sys, sv.prn);
        want.push_back(rec);
        if (rec >= 0) {
          Eval e = orbit_at(w.nav.recs[(size_t)rec], m);
          ld d = 0;
          for (int i = 0; i < 3; i++)
            d += (e.pos[i] - w.pos[i]) * (e.pos[i] - w.pos[i]);
          rho = (double)(std::sqrt(d) - e.clock * C + w.clk + w.drift * (ld)(m - w.t0) / 1e3L);
        } else
          probe("satellite_without_message");
      } else if (asked)
        want.push_back(-2);
      double iono = combine ? 2 + 20 * x.unit() : 0;
      lines += fmt("%c%02d", sv.sys, sv.prn);
      for (int k = 0; k < (int)sv.vals.size(); k++) {
        auto wh = where[sv.sys];
        bool first = k == wh.first, second = k == wh.second;
        if ((first && no1) || (second && no2) || (!first && !second && x.chance(1, 3))) {
          lines += std::string(16, ' ');
          continue;
        }
        std::string a = fmt("%14.3f", first ? rho + iono : second ? rho + g * iono : 1e5 + x.unit() * 1e8);
        sv.vals[(size_t)k].present = true;
        sv.vals[(size_t)k].v = std::strtod(a.c_str(), nullptr);
        lines += a;
        lines += x.chance(1, 4) ? (char)('0' + x.below(8)) : ' ';
        lines += x.chance(1, 2) ? (char)('0' + x.below(10)) : ' ';
      }
      if (x.chance(1, 2))
        while (lines.back() == ' ')
          lines.pop_back();
      lines += "\n";
      ep.sats.push_back(sv);
    }
    f.text += fmt("> %4d %02d %02d %02d %02d%s  %d%3zu", c.y, c.mo, c.d, c.h, c.mi, ssec.c_str(), (int)x.chance(1, 20), ep.sats.size()) + "\n" + lines;
    ep.end = f.text.size();
    f.epochs.push_back(ep);
    w.ms.push_back(m);
    w.want.push_back(want);
  }
}

// ------------------------------------------------- the program, real code only
struct Program {
  const World &w;
  const char *who;
  File &dob, &dn;
  bool silent; // does not print before the end
  ObsSession obs;
  std::unique_ptr<NavigationRnx> nav;
  std::vector<NavDataFrame> cache;
  std::vector<long> cached; // which records they should be
  std::unique_ptr<Feeder> filter;
  std::unique_ptr<Model> model;
  double c0{0}; // normalised initial error: never grows
  size_t cur{0}, done{0};
  long last{0};
  size_t updates{0};

  Program(const World &world, const char *name, bool quiet) : w(world), who(name), dob(disk(PO)), dn(disk(PN)), silent(quiet) {}

  void open() {
    ObsReq q = w.req;
    try {
      obs.open(PO);
      nav = api("NavigationRnx", [&] { return std::make_unique<NavigationRnx>(PN); });
    } catch (std::exception &e) {
      fail("valid-file-rejected", "constructor threw on a valid file: %s", e.what());
    }
    obs.set_map(q);
    double x0[5] = {obs.rd->x_approx(), obs.rd->y_approx(), obs.rd->z_approx(), 0, 0};
    restart(x0);
    for (int i = 0; i < 3; i++)
      if (x0[i] != w.obs.xyz[i])
        fail("header", "approximate position %d is %.4f, file has %.4f", i, x0[i], w.obs.xyz[i]);
  }
  void restart(const double *x0) {
    filter = std::make_unique<Feeder>(x0, chance(1, 2), w.scale);
    model = std::make_unique<Model>(x0, w.scale);
    c0 = 0;
    updates = 0;
  }
  /// a message for the satellite at the instant; null: there is none
  const NavDataFrame *message(long ms, char s, int p, long want) {
    auto t = ms_at(ms);
    for (size_t i = 0; i < cache.size(); i++) {
      NavDataFrame &m = cache[i];
      if (m.system() != sys_of(s) || m.prn() != p)
        continue;
      bool ok = !m.sv_health();
      if (ok) {
        auto from = s == 'R' ? m.toe<ngpt::milliseconds>() : m.toc<ngpt::milliseconds>(), till = from;
        till.add_seconds(ngpt::seconds(m.fit_interval()));
        if (s == 'R')
          from.remove_seconds(ngpt::seconds(m.fit_interval()));
        ok = t >= from && t < till;
      }
      if (ok) {
        if (want != cached[i])
          fail("expired-message-kept", "%s%c%02d at %.3f: message %ld is kept, %ld is the one to use", who, s, p, (double)ms / 1e3, cached[i], want);
        return &m;
      }
      cache.erase(cache.begin() + (long)i);
      cached.erase(cached.begin() + (long)i);
      break;
    }
    for (int attempt = 0;; attempt++) {
      NavDataFrame m;
      NavigationRnx::pos_type at;
      u64 hits = dn.eio_hits;
      int st = api("find_next_valid", [&] { return nav->find_next_valid(t, at, m, sys_of(s), p); });
      bool hit = dn.eio_hits > hits;
      if (st > 0 && hit && attempt < 4) { // the disk failed: start over
        probe("navigation_read_failed");
        api("rewind", [&] { nav->rewind(); });
        continue;
      }
      ev("%smessage %c%02d -> %d", who, s, p, st);
      if (st != (want >= 0 ? 0 : -1))
        fail("wrong-status", "%s%c%02d at %.3f: status %d, record %ld is the one to use", who, s, p, (double)ms / 1e3, st, want);
      bool there = chance(1, 2);
      api("rewind", [&] { there ? nav->rewind(at) : nav->rewind(); });
      if (st)
        return nullptr;
      std::string x = nav_diff(m, w.nav.recs[(size_t)want]);
      if (!x.empty())
        fail("wrong-message", "%s%c%02d at %.3f: not record %ld: %s", who, s, p, (double)ms / 1e3, want, x.c_str());
      cache.push_back(m);
      cached.push_back(want);
      return &cache.back();
    }
  }
  void epoch(size_t e) {
    long ms = (long)obs.mjd.as_underlying_type() * 86400000L + std::lround(obs.sod * 1e3);
    if (ms != w.ms[e])
      fail("wrong-data", "%sepoch %zu is at %.3f, not %.3f", who, e, (double)ms / 1e3, (double)w.ms[e] / 1e3);
    std::vector<Sat> sats;
    auto t = ms_at(ms);
    for (int i = 0; i < obs.sats; i++) {
      const auto &o = obs.vec[(size_t)i];
      char s = ngpt::satsys_to_char(o.first.system());
      int p = o.first.prn();
      long want = w.want[e][(size_t)i];
      bool missing = std::fabs(o.second[0] - ngpt::RNXOBS_MISSING_VAL) < 1e-3;
      if (missing != (want == -2))
        fail("wrong-data", "%sepoch %zu: %c%02d is %sobserved", who, e, s, p, missing ? "not " : "");
      if (missing)
        continue;
      const NavDataFrame *m = message(ms, s, p, want);
      if (!m)
        continue;
      double st[6], clk = -1e99;
      int j = api("stateNclock", [&] { return m->stateNclock(t, st, clk); });
      const NavRec &rec = w.nav.recs[(size_t)want];
      Eval ref = orbit_at(rec, ms);
      ld d = 0;
      for (int k = 0; k < 3; k++)
        d += (st[k] - ref.pos[k]) * (st[k] - ref.pos[k]);
      if (j || !(d < 1e-4L) || !(std::fabs(clk - ref.clock) < 1e-10L))
        fail("wrong-orbit", "%s%c%02d record %ld at %.3f: status %d, position off by %.4Lg m, clock by %.4Lg s", who, s, p, want, (double)ms / 1e3, j, std::sqrt(d),
             clk - ref.clock);
      sats.push_back({{st[0], st[1], st[2], clk}, o.second[0], 1.0 + (double)(i % 3)});
    }
    if (sats.empty())
      return;
    double dt = updates ? (double)(ms - last) / 1e3 : 0;
    if (dt > 300) { // what the filter knew of the clock is worth nothing by now
      if (!silent)
        look(e, 0);
      double x0[5] = {w.obs.xyz[0], w.obs.xyz[1], w.obs.xyz[2], 0, 0};
      restart(x0);
      dt = 0;
      probe("filter_restarted");
    }
    last = ms;
    double tc = w.clk + w.drift * (double)(ms - w.t0) / 1e3;
    if (!updates++) {
      for (int i = 0; i < 3; i++)
        c0 += (double)((model->x[i] - w.pos[i]) * (model->x[i] - w.pos[i])) / 2500;
      c0 += tc * tc / 2500 + w.drift * w.drift / 30;
    }
    if (updates % 7 == 3) // in a vector that grows
      filter->relocate(updates % 3);
    filter->update(sats, dt);
    model->update(sats, dt);
    if (!silent && (updates % 4 == 1))
      look(e, sats.size());
  }
  void look(size_t e, size_t n) {
    if (!updates)
      return;
    Shown s = show(*filter->k);
    if (!s.ok)
      fail("unreadable", "print_state() does not print five values with standard deviations");
    ev("%sepoch %zu, %zu satellites: %.3f %.3f %.3f %.3f", who, e, n, s.x[0], s.x[1], s.x[2], s.x[3]);
    double err = 0, var = 0;
    for (int q = 0; q < 5; q++) {
      double sg = (double)std::sqrt(model->P[q][q]), extra = (double)model->rounding / sg;
      double dx = (double)std::fabs((ld)s.x[q] - model->x[q]), ds = (double)std::fabs((ld)s.s[q] - std::sqrt(model->P[q][q]));
      if (!(dx <= 6e-4 + 2e-4 * sg + extra))
        fail("wrong-state", "%sepoch %zu (%zu satellites): component %d is %.3f, the reference has %.3Lf", who, e, n, q, s.x[q], model->x[q]);
      if (!(ds <= 6e-4 + 1e-4 * sg + extra))
        fail("wrong-deviation", "%sepoch %zu (%zu satellites): deviation %d is %.3f, the reference has %.3Lf", who, e, n, q, s.s[q], std::sqrt(model->P[q][q]));
      if (q < 3) {
        err += (s.x[q] - w.pos[q]) * (s.x[q] - w.pos[q]);
        var += (double)model->P[q][q];
      }
    }
    err = std::sqrt(err);
    double bound = .5 + std::sqrt(c0 * var);
    if (!(err <= bound))
      fail("wrong-position", "%sepoch %zu: %.3f m from the true position, at most %.3f m are possible", who, e, err, bound);
    if (var < 100)
      probe("position_better_than_10_m");
    if (c0 * var < 25)
      probe("true_position_within_5_m");
  }
  void run(bool faults) {
    open();
    size_t N = w.obs.epochs.size(), trouble = 0;
    for (;;) {
      if (faults && chance(1, 8)) {
        bool o = chance(1, 2);
        File &d = o ? dob : dn;
        size_t b = o ? w.obs.eoh : w.nav.eoh, n = (o ? w.obs.text.size() : w.nav.text.size()) - b;
        if (n) {
          d.plan.eio_at = (long)(b + pick(n));
          d.plan.eio_count = (int)range(1, 3);
          ev("arm EIO at %ld of the %s file", d.plan.eio_at, o ? "observation" : "navigation");
        }
      }
      if (chance(1, 24)) { // handed over to somebody else
        obs.rd = api("move", [&] { return std::make_unique<ngpt::ObservationRnx>(std::move(*obs.rd)); });
        probe("observation_reader_moved");
      }
      if (chance(1, 24)) {
        nav = api("move", [&] { return std::make_unique<NavigationRnx>(std::move(*nav)); });
        probe("navigation_reader_moved");
      }
      u64 hits = dob.eio_hits;
      int st = obs.read();
      bool hit = dob.eio_hits > hits;
      ev("%sread -> %d", who, st);
      if (st > 0 && hit && ++trouble < 40) { // the disk failed: start over, skip what is done
        probe("observation_read_failed");
        api("rewind", [&] { obs.rd->rewind(); });
        cur = 0;
        if (trouble > 20)
          faults = false;
        continue;
      }
      if (st == -1 && !hit) {
        if (cur != N)
          fail("epoch-lost", "%sthe file ends after %zu of %zu epochs", who, cur, N);
        break;
      }
      if (st)
        fail(hit ? "io-error-as-eof" : "epoch-lost", "%sepoch %zu of %zu: status %d", who, cur, N, st);
      if (cur >= N)
        fail("phantom-epoch", "%sepoch %zu, the file has %zu", who, cur, N);
      std::string x = obs_diff(obs, w.req, w.obs.epochs[cur]);
      if (!x.empty())
        fail("wrong-data", "%sepoch %zu: %s", who, cur, x.c_str());
      if (cur++ < done)
        continue;
      done = cur;
      epoch(cur - 1);
    }
    if (done != N)
      fail("epoch-lost", "%s%zu of %zu epochs were processed", who, done, N);
  }
};

void c22() {
  World w;
  make_world(w);
  File &fo = disk(PO, w.obs.text);
  File &fn = disk(PN, w.nav.text);
  benign_io(fo);
  benign_io(fn);
  g_budget_scale = w.obs.text.size() + w.nav.text.size() + 200000;
  ambient_conditions();
  block("observations", w.obs.text);
  block("navigation", w.nav.text);
  if (!chance(1, 6)) {
    Program p(w, "", false);
    p.run(chance(1, 2));
    p.look(w.obs.epochs.size(), 0);
    if (p.updates)
      nontrivial();
    return;
  }
  // two programs at the same time, with the same files
  Program a(w, "A: ", true), b(w, "B: ", true);
  run_tasks({[&] { a.run(false); }, [&] { b.run(false); }});
  a.look(w.obs.epochs.size(), 0);
  b.look(w.obs.epochs.size(), 0);
  probe("two_programs");
  if (a.updates && task_switches())
    nontrivial();
}
} // namespace
SIM_PROP(C22, c22);
