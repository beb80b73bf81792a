// C16, C17: what a receiver computes from broadcast messages while simulated
// time runs: positions and clocks against independent long double models.
#include "gen_orbit.hpp"
using namespace sim;
using namespace gen;

namespace {
const char *P = "/sim/brdc.rnx";
NavFile make_orbits(const char *systems) {
  NavFile f;
  Sub hr = sub(), vr = sub(), st = sub();
  NavStyle style = gen_nav_style(st);
  style.blanks = false;
  std::string pool = systems;
  f.text = nav_header(hr, pool.size() > 1 ? 'M' : pool[0]);
  f.eoh = f.text.size();
  int n = (int)range(1, 5);
  Stamp t = gen_stamp();
  int dmode = weighted({4, 2, 2, 1});
  Sub quiet_proof(vr.quiet() ? 12345 : vr.next());
  Sub &v = quiet_proof;
  for (int i = 0; i < n; i++) {
    NavRec r;
    r.sys = pool[pick(pool.size())];
    r.prn = r.sys == 'C' ? 6 + (int)pick(58) : 1 + (int)pick(24);
    if (r.sys == 'C' && chance(1, 4))
      r.prn = one_of<int>({1, 2, 3, 4, 5, 59, 60, 61, 62, 63});
    if (r.geo())
      probe("geostationary_message");
    advance(t, r.sys == 'R' ? 1800 * v.range(0, 2) : 60 * v.range(0, 120));
    r.toc = t;
    if (r.sys == 'R') { // on the quarter hours 15 and 45, as the system does; or not
      if (v.chance(1, 2))
        r.toc = from_abs(ngpt::shim::fdiv(t.abs(), 1800) * 1800 + 900);
    } else if (v.chance(1, 3))
      r.toc.sec = (double)v.below(60);
    realistic(r, v);
    long d = 0;
    switch (dmode) {
    case 0: break;
    case 1: d = r.sys == 'R' ? 60 * v.range(-15, 15) : 16 * v.range(-8, 8); break;
    case 2: d = 60 * v.range(-30, 30); break;
    default: d = r.sys == 'R' ? 30 * v.range(-60, 60) : 16 * v.range(-450, 450);
    }
    nav_times(r, d);
    f.recs.push_back(r);
    NavRec &q = f.recs.back();
    q.begin = f.text.size();
    f.text += nav_text(q, style, vr);
    q.end = f.text.size();
  }
  return f;
}

// -------------------------------------------------------------- evaluating
struct Out {
  int st{0};
  double pos[6]{}, clock{0};
};
/// state arrays exactly as long as the caller must provide
Out eval(const NavDataFrame &f, long us, int ty, bool glo, bool quietly = false) {
  Out o;
  size_t n = glo ? 6 : 3;
  std::unique_ptr<double[]> s(new double[n]);
  for (size_t i = 0; i < n; i++)
    s[i] = -9.25e99;
  double clk = -7.5e55;
  auto go = [&] {
    switch (ty) {
    case 0: return f.stateNclock(at_us<ngpt::seconds>(us), s.get(), clk);
    case 1: return f.stateNclock(at_us<ngpt::milliseconds>(us), s.get(), clk);
    default: return f.stateNclock(at_us<ngpt::microseconds>(us), s.get(), clk);
    }
  };
  o.st = quietly ? go() : api("stateNclock", go);
  for (size_t i = 0; i < n; i++)
    o.pos[i] = s[i];
  o.clock = clk;
  return o;
}
struct Err {
  double pos, clk;
};
Err compare(const Out &o, const Eval &m) {
  ld d = 0;
  for (int i = 0; i < 3; i++)
    d += ((ld)o.pos[i] - m.pos[i]) * ((ld)o.pos[i] - m.pos[i]);
  return {(double)std::sqrt(d), (double)std::fabs((ld)o.clock - m.clock)};
}
std::string when(long us) {
  Stamp t = from_abs(ngpt::shim::fdiv(us, 1000000));
  return fmt("%04d-%02d-%02d %02d:%02d:%02d+%06ldus", t.y, t.mo, t.d, t.h, t.mi, (int)t.sec, us - ngpt::shim::fdiv(us, 1000000) * 1000000);
}
struct Instant {
  size_t rec;
  long us;
  int ty;
};
Eval model(const NavRec &r, const Instant &i) {
  long us = trunc_us(i.us, i.ty);
  ld tk = (ld)(us - r.toe * 1000000L) / 1e6L, dtc = (ld)(us - r.toc.abs() * 1000000L) / 1e6L;
  return r.sys == 'R' ? glo_model(r, tk) : kepler_model(r, tk, dtc);
}
std::string judge(const Out &o, const NavRec &r, const Instant &i) {
  if (o.st != 0)
    return fmt("status %d", o.st);
  Err e = compare(o, model(r, i));
  if (!(e.pos < 1e-2))
    return fmt("position is off by %.4g m", e.pos);
  if (!(e.clk < 1e-10))
    return fmt("clock is off by %.4g s", e.clk);
  return "";
}

void orbits(const char *systems, long half_us) {
  NavFile f = make_orbits(systems);
  File &d = disk(P, f.text);
  benign_io(d);
  g_budget_scale = f.text.size() + 200000;
  int nread = weighted({3, 1});
  long eio = nread ? (long)(f.eoh + pick(f.text.size() - f.eoh)) : -1;
  ambient_conditions();
  block("file", f.text);
  std::unique_ptr<NavigationRnx> rd;
  try {
    rd = api("NavigationRnx", [&] { return std::make_unique<NavigationRnx>(P); });
  } catch (std::exception &e) {
    fail("valid-file-rejected", "constructor threw on a valid file: %s", e.what());
  }
  std::vector<NavDataFrame> frames;
  bool reuse = chance(1, 2);
  NavDataFrame fr;
  if (nread) { // the disk fails in the middle; the receiver rewinds and reads again
    d.plan.eio_at = eio;
    d.plan.eio_count = 1;
    for (size_t i = 0; i <= f.recs.size(); i++)
      if (api("read_next_record", [&] { return rd->read_next_record(fr); }))
        break;
    d.plan.eio_at = -1;
    api("rewind", [&] { rd->rewind(); });
  }
  for (size_t i = 0; i < f.recs.size(); i++) {
    if (!reuse)
      fr = NavDataFrame();
    int st = api("read_next_record", [&] { return rd->read_next_record(fr); });
    if (st)
      fail("record-lost", "record %zu: status %d", i, st);
    std::string x = nav_diff(fr, f.recs[i]);
    if (!x.empty())
      fail("wrong-data", "record %zu: %s", i, x.c_str());
    frames.push_back(fr);
  }
  rd.reset();
  // instants of a receiver: it walks, stands, jumps ahead and back
  std::vector<Instant> walk;
  int n = (int)range(1, 14);
  size_t cur = pick(frames.size());
  long us = f.recs[cur].toe * 1000000L;
  for (int i = 0; i < n; i++) {
    const long S = 1000000;
    if (chance(1, 3))
      cur = pick(frames.size());
    const NavRec &r = f.recs[cur];
    long toe = r.toe * S, lo = toe - half_us, hi = toe + half_us;
    switch (weighted({3, 2, 2, 2, 2, 1})) {
    case 0: us += range(0, 600) * S; break;                              // walks
    case 1: us = toe; break;                                             // at the ephemeris epoch
    case 2: us = lo + (long)pick((u64)(half_us / S * 2 + 1)) * S; break; // jumps
    case 3: us = (ngpt::shim::fdiv(toe + (chance(1, 2) ? half_us : -half_us / 2), 86400 * S) * 86400) * S; break; // a midnight
    case 4: us = r.toc.abs() * S + range(-2, 2) * S; break;              // at the clock epoch
    default: us = chance(1, 2) ? lo : hi;                                // the end of the interval
    }
    switch (weighted({3, 1, 1, 1})) {
    case 0: break;
    case 1: us += 1000 * range(-999, 999); break;
    case 2: us += range(-999999, 999999); break;
    default: us += one_of<long>({1, -1, 500000, 999999, -999999});
    }
    us = std::max(lo, std::min(hi, us));
    int ty = (int)pick(3);
    if (ty < 2 && trunc_us(us, ty) < lo)
      us = toe;
    walk.push_back({cur, us, ty});
    simtime(1);
  }
  auto verdict = [&](const Out &o, const Instant &i, const char *what) {
    const NavRec &r = f.recs[i.rec];
    std::string v = judge(o, r, i);
    if (!v.empty())
      fail("wrong-orbit", "%s%c%02d (toe %s, toc %+ld s) at %s: %s", what, r.sys, r.prn, when(r.toe * 1000000L).c_str(), r.toc.abs() - r.toe,
           when(trunc_us(i.us, i.ty)).c_str(), v.c_str());
  };
  std::vector<Out> first;
  for (auto &i : walk) {
    const NavRec &r = f.recs[i.rec];
    Out o = eval(frames[i.rec], i.us, i.ty, r.sys == 'R');
    ev("%c%02d %+.6f s type %d -> %d %.3f %.3f %.3f %.4e", r.sys, r.prn, (double)(i.us - r.toe * 1000000L) / 1e6, i.ty, o.st, o.pos[0], o.pos[1],
       o.pos[2], o.clock);
    verdict(o, i, "");
    first.push_back(o);
    long day0 = ngpt::shim::fdiv(r.toe, 86400), day1 = ngpt::shim::fdiv(i.us, 86400000000L);
    if (day0 != day1)
      probe("across_a_day_boundary");
    if (ngpt::shim::fdiv(day0 - 44244, 7) != ngpt::shim::fdiv(day1 - 44244, 7))
      probe("across_a_week_boundary");
    if (r.toe != r.toc.abs())
      probe("toe_differs_from_toc");
  }
  nontrivial();
  // the same instants in another order, by other types, from other threads
  auto same = [&](const Out &o, const Instant &i, size_t k, const char *what) {
    verdict(o, i, what);
    if (trunc_us(i.us, i.ty) == trunc_us(walk[k].us, walk[k].ty)) {
      ld dd = 0;
      for (int q = 0; q < 3; q++)
        dd += std::fabs((ld)o.pos[q] - first[k].pos[q]);
      if (dd > 1e-4 || std::fabs(o.clock - first[k].clock) > 1e-13)
        fail("depends-on-history", "%s: the same message at the same instant gave %.6Lf m, %.3g s more", what, dd, std::fabs(o.clock - first[k].clock));
    }
  };
  for (size_t k = walk.size(); k-- > 0;) {
    Instant i = walk[k];
    if (chance(1, 3) && trunc_us(i.us, 0) == i.us)
      i.ty = (int)pick(3);
    same(eval(frames[i.rec], i.us, i.ty, f.recs[i.rec].sys == 'R'), i, k, "again: ");
  }
  if (chance(1, 3)) {
    size_t nt = 2 + pick(2);
    std::vector<std::vector<Out>> got(nt);
    std::vector<std::function<void()>> fns;
    for (size_t t = 0; t < nt; t++)
      fns.push_back([&, t] {
        for (size_t k = 0; k < walk.size(); k++) {
          const Instant &i = walk[(k * (t + 1) + t) % walk.size()];
          got[t].push_back(eval(frames[i.rec], i.us, i.ty, f.recs[i.rec].sys == 'R'));
        }
      });
    run_tasks(fns);
    ev("switches %llu", (unsigned long long)task_switches());
    for (size_t t = 0; t < nt; t++)
      for (size_t k = 0; k < walk.size(); k++) {
        size_t w = (k * (t + 1) + t) % walk.size();
        same(got[t][k], walk[w], w, "concurrently: ");
      }
  }
  // nothing of this changed the messages
  for (size_t i = 0; i < frames.size(); i++) {
    std::string x = nav_diff(frames[i], f.recs[i]);
    if (!x.empty())
      fail("message-changed", "record %zu after the evaluations: %s", i, x.c_str());
  }
}
} // namespace

static void c16() { orbits("GEC", 43200L * 1000000L); }
SIM_PROP(C16, c16);

static void c17() {
  orbits("R", 900L * 1000000L);
  // further away than the message is good for: flagged
  NavFile f = make_orbits("R");
  disk(P, f.text);
  NavDataFrame fr;
  auto rd = api("NavigationRnx", [&] { return std::make_unique<NavigationRnx>(P); });
  int st = api("read_next_record", [&] { return rd->read_next_record(fr); });
  if (st)
    fail("record-lost", "status %d", st);
  long far = one_of<long>({901, 1800, 3600, 43000}) * (chance(1, 2) ? -1 : 1);
  Out o = eval(fr, (f.recs[0].toe + far) * 1000000L, (int)pick(3), true);
  ev("%+ld s from the ephemeris -> %d", far, o.st);
  if (o.st == 0)
    fail("unflagged", "%+ld s from the ephemeris epoch: status 0", far);
}
SIM_PROP(C17, c17);
