// C18: the Kalman filter at the end of a lossy, duplicating, reordering channel
// of measurement epochs, against an independent information-form filter.
#include "gen_filter.hpp"
using namespace sim;
using namespace gen;

namespace {
// --------------------------------------------------------------- the world
struct World {
  double truth[5]; // position, clock offset, drift
  struct Orb {
    double u, O, i, R, clk;
  };
  std::vector<Orb> sv;
  double noise{0};
  double coef{1}; // observables are multiples of pseudoranges
  Sub nz;
  std::array<double, 4> sat(size_t k, double t) const {
    const Orb &o = sv[k];
    double u = o.u + 1.458e-4 * t;
    return {o.R * (std::cos(u) * std::cos(o.O) - std::sin(u) * std::cos(o.i) * std::sin(o.O)),
            o.R * (std::cos(u) * std::sin(o.O) + std::sin(u) * std::cos(o.i) * std::cos(o.O)), o.R * std::sin(u) * std::sin(o.i),
            o.clk};
  }
  Sat measure(size_t k, double t, double w) {
    Sat s;
    s.x = sat(k, t);
    s.w = w;
    ld r = 0;
    for (int i = 0; i < 3; i++)
      r += ((ld)s.x[(size_t)i] - truth[i]) * ((ld)s.x[(size_t)i] - truth[i]);
    s.obs = (double)(coef * (std::sqrt(r) + truth[3] + (ld)truth[4] * t - (ld)s.x[3] * C));
    if (noise > 0)
      s.obs += noise * (nz.unit() + nz.unit() + nz.unit() - 1.5);
    return s;
  }
};
World make_world() {
  World w;
  Sub r = sub();
  Sub v(r.quiet() ? 7 : r.next());
  double lat = (v.unit() - .5) * 3.1, lon = (v.unit() - .5) * 6.2, R = 6371e3 + v.unit() * 9000;
  w.truth[0] = R * std::cos(lat) * std::cos(lon);
  w.truth[1] = R * std::cos(lat) * std::sin(lon);
  w.truth[2] = R * std::sin(lat);
  w.truth[3] = (v.unit() - .5) * 60;
  w.truth[4] = v.chance(1, 3) ? 0 : (v.unit() - .5) * 4;
  size_t n = (size_t)range(6, 14);
  if (!r.quiet() && r.chance(1, 25)) // all systems there are
    n = (size_t)r.range(30, 70), probe("many_satellites");
  for (size_t k = 0; k < n; k++) {
    // spread over the sky: directions of satellites above the horizon
    World::Orb o;
    for (int tries = 0;; tries++) {
      o = {v.unit() * 6.2832, v.unit() * 6.2832, .95, 26.56e6 + v.unit() * 3e6, (v.unit() - .5) * 1e-3};
      w.sv.push_back(o);
      auto x = w.sat(k, 0);
      w.sv.pop_back();
      double dot = 0, d2 = 0;
      for (int i = 0; i < 3; i++) {
        dot += (x[(size_t)i] - w.truth[i]) * w.truth[i];
        d2 += (x[(size_t)i] - w.truth[i]) * (x[(size_t)i] - w.truth[i]);
      }
      if (dot > .1 * R * std::sqrt(d2) || tries > 200)
        break;
    }
    w.sv.push_back(o);
  }
  w.noise = weighted({2, 1, 1}) * 5.0;
  w.nz = sub();
  w.coef = one_of<double>({1, 1, 1, 2, .5, 1.25, -1});
  if (w.coef != 1)
    probe("scaled_observable");
  return w;
}

void c18() {
  World w = make_world();
  double x0[5];
  Sub ir = sub();
  double off = ir.quiet() ? 10 : 1 + 70 * ir.unit();
  for (int i = 0; i < 3; i++)
    x0[i] = w.truth[i] + (ir.quiet() ? 5 : off * (ir.unit() - .5));
  bool astray = !ir.quiet() && ir.chance(1, 10); // nothing is known of the position, e.g. the centre of the earth
  if (astray) {
    bool centre = ir.chance(1, 3);
    for (int i = 0; i < 3; i++)
      x0[i] = centre ? 0 : w.truth[i] + 8e6 * (ir.unit() - .5);
    probe("far_initial_position");
  }
  x0[3] = ir.quiet() || ir.chance(1, 2) ? 0 : w.truth[3] + 40 * (ir.unit() - .5);
  x0[4] = ir.quiet() || ir.chance(1, 2) ? 0 : w.truth[4] + (ir.unit() - .5);
  g_budget_scale = 200000;
  ambient_conditions();
  // the receiver produces epochs, the channel delivers them
  int n = history(1, 30);
  if (w.sv.size() > 14)
    n = std::min(n, 12);
  double step = one_of<double>({1, 30, 0.2, 5, 15, 60});
  int lose = weighted({3, 1, 1}), dup = weighted({3, 1}), delay = weighted({3, 1, 1}), dropsat = weighted({2, 1, 1});
  if (astray) // ill-conditioned epochs would make rounding visible
    step = 1, dropsat = lose = delay = 0;
  int wmode = weighted({2, 1, 1, 1, 1, 1});
  if (wmode == 4)
    probe("no_weights");
  if (wmode == 5)
    probe("some_epochs_without_weights");
  bool moves = chance(1, 3);
  std::vector<Epoch> arrived, late;
  double now = 0;
  // no step is longer than this (see DESIGN.md, rounding)
  auto recent = [&](double t) { return now - t <= 480; };
  for (int i = 0; i < n; i++) {
    Epoch e;
    e.t = now;
    if (chance(1, 12) && !astray) // the receiver changes its rate
      step = one_of<double>({1, 30, 0.2, 5, 15, 60, 240});
    now += step;
    bool due = !recent(arrived.empty() ? 0 : arrived.back().t);
    e.weighted = wmode != 4 && (wmode != 5 || chance(1, 2));
    for (size_t k = 0; k < w.sv.size(); k++) {
      if (dropsat && chance((unsigned)dropsat, 4) && !(due && e.sats.empty() && k + 1 == w.sv.size())) {
        fault("satellite_lost");
        continue;
      }
      double wt = !e.weighted ? 0 : wmode == 0 || wmode == 5 ? 1 : wmode == 1 ? (double)range(0, 400) : wmode == 2 ? 0.01 + (double)pick(1000) * .37 : 1e4 * (double)pick(2) + 1;
      e.sats.push_back(w.measure(k, e.t, wt));
    }
    simtime(step);
    if (e.sats.empty())
      continue;
    if (lose && chance((unsigned)lose, 6) && !due) {
      fault("epoch_lost");
      continue;
    }
    if (delay && chance((unsigned)delay, 6) && !due) {
      fault("epoch_delayed");
      late.push_back(e);
      continue;
    }
    arrived.push_back(e);
    if (dup && chance(1, 5)) {
      fault("epoch_duplicated");
      arrived.push_back(e);
    }
    while (!late.empty() && (late.size() > 6 || chance(1, 3))) { // out of order: time runs backwards
      if (recent(late.front().t))
        arrived.push_back(late.front());
      late.erase(late.begin());
    }
  }
  for (auto &e : late)
    if (recent(e.t))
      arrived.push_back(e);
  bool settle = w.noise == 0 && !astray && chance(1, 3); // the faults stop
  if (settle)
    for (int i = 0; i < 40; i++) {
      Epoch e;
      e.t = now + i * 10;
      e.weighted = wmode != 4;
      for (size_t k = 0; k < w.sv.size(); k++)
        e.sats.push_back(w.measure(k, e.t, wmode == 4 ? 0 : 1));
      arrived.push_back(e);
    }
  if (arrived.empty())
    return;
  nontrivial();
  Model m(x0, w.coef);
  Feeder a(x0, chance(1, 2), w.coef), b(x0, chance(1, 2), w.coef);
  Sub sh = sub();
  bool permute = chance(1, 2);
  double before = 0;
  size_t printed = settle ? 3 : 1;
  auto step_one = [&](size_t i) {
    const Epoch &e = arrived[i];
    double dt = e.t - before;
    before = e.t;
    m.update(e.sats, dt);
    if (moves && chance(1, 4))
      a.relocate((int)pick(3));
    a.update(e.sats, dt, e.weighted);
    if (permute) {
      std::vector<Sat> p = e.sats;
      if (!sh.quiet())
        for (size_t k = p.size(); k > 1; k--)
          std::swap(p[k - 1], p[sh.below(k)]);
      else
        std::reverse(p.begin(), p.end());
      b.update(p, dt, e.weighted);
    }
    if (i % printed && i + 1 != arrived.size())
      return;
    for (int which = 0; which < (permute ? 2 : 1); which++) {
      Shown s = show(which ? *b.k : *a.k);
      if (!s.ok)
        fail("unreadable", "print_state() does not print five values with standard deviations");
      if (!which)
        ev("epoch %zu dt %.1f sats %zu -> %.3f %.3f %.3f %.3f %.3f", i, dt, e.sats.size(), s.x[0], s.x[1], s.x[2], s.x[3], s.x[4]);
      for (int q = 0; q < 5; q++) {
        double sg = (double)std::sqrt(m.P[q][q]), extra = (double)m.rounding / sg;
        double tx = 6e-4 + 2e-4 * sg + extra + (astray ? (double)m.shift : 0), ts = 6e-4 + 1e-4 * sg + extra;
        double dx = (double)std::fabs((ld)s.x[q] - m.x[q]), ds = (double)std::fabs((ld)s.s[q] - std::sqrt(m.P[q][q]));
        if (std::getenv("KALMAN_MAX") && (dx > 5.2e-4 + extra/2 || ds > 5.2e-4 + extra/2))
          std::fprintf(stderr, "MAX %g %g %g\n", dx - 5e-4, ds - 5e-4, (double)std::sqrt(m.P[q][q]));
        if (!(dx <= tx))
          fail("wrong-state", "%sepoch %zu (dt %g, %zu satellites): component %d is %.3f, textbook filter has %.3Lf", which ? "satellites in another order, " : "",
               i, dt, e.sats.size(), q, s.x[q], m.x[q]);
        if (!(ds <= ts))
          fail("wrong-deviation", "%sepoch %zu (dt %g, %zu satellites): deviation %d is %.3f, textbook filter has %.3Lf",
               which ? "satellites in another order, " : "", i, dt, e.sats.size(), q, s.s[q], std::sqrt(m.P[q][q]));
      }
    }
  };
  for (size_t i = 0; i < arrived.size(); i++)
    step_one(i);
  if (settle) {
    double err = 0, start = 0;
    Shown s = show(*a.k);
    for (int q = 0; q < 3; q++) {
      err += (s.x[q] - w.truth[q]) * (s.x[q] - w.truth[q]);
      start += (x0[q] - w.truth[q]) * (x0[q] - w.truth[q]);
    }
    err = std::sqrt(err), start = std::sqrt(start);
    probe("faults_stopped");
    double sigma = (double)std::sqrt(m.P[0][0] + m.P[1][1] + m.P[2][2]);
    ev("settled: %.3f m from the truth, initially %.3f m, deviation %.3f m", err, start, sigma);
    if (!(err <= 2 + sigma) || !(sigma < 50))
      fail("no-convergence", "%.3f m from the truth 40 epochs after the last fault (initially %.3f m, deviation %.3f m)", err, start, sigma);
  }
}
} // namespace
SIM_PROP(C18, c18);
