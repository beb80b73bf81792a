// Independent long double models of satellite orbits and clocks, realistic
// broadcast messages for them, instants in any second type.
#pragma once
#include "gen_nav.hpp"

namespace gen {
typedef long double ld;
struct Eval {
  ld pos[3], clock, rel;
};

// ------------------------------------------------------------ Kepler model
/// IS-GPS-200 table 20-IV / Galileo OS SIS ICD 5.1.1 / BDS ICD 5.2.4
inline Eval kepler_model(const NavRec &r, ld tk, ld dtc) {
  const ld mi = r.sys == 'G' ? 3.986005e14L : 3.986004418e14L;
  const ld om = r.sys == 'C' ? 7.2921150e-5L : 7.2921151467e-5L;
  const ld c = 299792458.0L;
  const ld F = r.sys == 'G' ? -4.442807633e-10L : -2 * std::sqrt(mi) / (c * c);
  const ld sqa = r.data[10], A = sqa * sqa, e = r.data[8];
  const ld n = std::sqrt(mi) / (A * sqa) + (ld)r.data[5];
  const ld M = (ld)r.data[6] + n * tk;
  ld E = M;
  for (int i = 0; i < 60; i++)
    E -= (E - e * std::sin(E) - M) / (1 - e * std::cos(E));
  const ld nu = 2 * std::atan2(std::sqrt(1 + e) * std::sin(E / 2), std::sqrt(1 - e) * std::cos(E / 2));
  const ld phi = nu + (ld)r.data[17], s2 = std::sin(2 * phi), c2 = std::cos(2 * phi);
  const ld u = phi + r.data[9] * s2 + r.data[7] * c2;
  const ld rad = A * (1 - e * std::cos(E)) + r.data[4] * s2 + r.data[16] * c2;
  const ld inc = r.data[15] + r.data[14] * s2 + r.data[12] * c2 + r.data[19] * tk;
  const ld Om = r.data[13] + ((ld)r.data[18] - om) * tk - om * r.data[11];
  const ld x = rad * std::cos(u), y = rad * std::sin(u);
  Eval v;
  if (r.geo()) { // BDS ICD: Rz(om tk) Rx(-5 deg) of the coordinates in the inclined frame
    const ld five = 5 * std::acos(-1.0L) / 180, Og = r.data[13] + (ld)r.data[18] * tk - om * r.data[11];
    const ld g[3] = {x * std::cos(Og) - y * std::cos(inc) * std::sin(Og), x * std::sin(Og) + y * std::cos(inc) * std::cos(Og), y * std::sin(inc)};
    const ld h[3] = {g[0], std::cos(five) * g[1] - std::sin(five) * g[2], std::sin(five) * g[1] + std::cos(five) * g[2]};
    v.pos[0] = std::cos(om * tk) * h[0] + std::sin(om * tk) * h[1];
    v.pos[1] = -std::sin(om * tk) * h[0] + std::cos(om * tk) * h[1];
    v.pos[2] = h[2];
  } else {
    v.pos[0] = x * std::cos(Om) - y * std::cos(inc) * std::sin(Om);
    v.pos[1] = x * std::sin(Om) + y * std::cos(inc) * std::cos(Om);
    v.pos[2] = y * std::sin(inc);
  }
  v.rel = F * e * sqa * std::sin(E);
  v.clock = r.data[0] + (r.data[1] + r.data[2] * dtc) * dtc + v.rel;
  return v;
}
// ----------------------------------------------------------- GLONASS model
inline void glo_acc(const ld *y, const NavRec &r, ld *d) {
  const ld GM = 398600441.8e6L, ae = 6378136.0L, J2 = 1082625.75e-9L, w = 7.2921151467e-5L;
  ld r2 = y[0] * y[0] + y[1] * y[1] + y[2] * y[2], rr = std::sqrt(r2);
  ld g = GM / (r2 * rr), k = 1.5L * J2 * GM * ae * ae / (r2 * r2 * rr), z = 5 * y[2] * y[2] / r2;
  d[0] = y[3], d[1] = y[4], d[2] = y[5];
  d[3] = -g * y[0] - k * y[0] * (1 - z) + w * w * y[0] + 2 * w * y[4] + r.data[5];
  d[4] = -g * y[1] - k * y[1] * (1 - z) + w * w * y[1] - 2 * w * y[3] + r.data[9];
  d[5] = -g * y[2] - k * y[2] * (3 - z) + r.data[13];
}
inline Eval glo_model(const NavRec &r, ld dt) {
  ld y[6] = {r.data[3], r.data[7], r.data[11], r.data[4], r.data[8], r.data[12]};
  int n = (int)std::ceil(std::fabs(dt) / 10) + 1;
  ld h = dt / n;
  for (int s = 0; s < n; s++) {
    ld k[4][6], t[6];
    glo_acc(y, r, k[0]);
    for (int q = 1; q < 4; q++) {
      for (int i = 0; i < 6; i++)
        t[i] = y[i] + h * (q == 3 ? 1 : .5L) * k[q - 1][i];
      glo_acc(t, r, k[q]);
    }
    for (int i = 0; i < 6; i++)
      y[i] += h / 6 * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]);
  }
  Eval v;
  for (int i = 0; i < 3; i++)
    v.pos[i] = y[i];
  v.rel = 0;
  v.clock = (ld)r.data[0] + (ld)r.data[1] * dt;
  return v;
}

// --------------------------------------------------------------- messages
inline void sym(double &x, sim::Sub &v, double a) { x = v.chance(1, 8) ? 0 : (2 * v.unit() - 1) * a; }
inline void realistic(NavRec &r, sim::Sub &v) {
  const double PI = 3.14159265358979;
  if (r.sys == 'R') {
    // a circular-ish orbit of 25500 km, in km
    double u = v.unit() * 2 * PI, O = v.unit() * 2 * PI, i = 1.13 + (v.unit() - .5) * .05, R = 25510 + (v.unit() - .5) * 40,
           n = 1.5514e-4 * (1 + (v.unit() - .5) * 2e-3), w = 7.2921151467e-5;
    double p[3], q[3];
    p[0] = R * (std::cos(u) * std::cos(O) - std::sin(u) * std::cos(i) * std::sin(O));
    p[1] = R * (std::cos(u) * std::sin(O) + std::sin(u) * std::cos(i) * std::cos(O));
    p[2] = R * std::sin(u) * std::sin(i);
    q[0] = R * n * (-std::sin(u) * std::cos(O) - std::cos(u) * std::cos(i) * std::sin(O)) + w * p[1];
    q[1] = R * n * (-std::sin(u) * std::sin(O) + std::cos(u) * std::cos(i) * std::cos(O)) - w * p[0];
    q[2] = R * n * std::cos(u) * std::sin(i);
    for (int k = 0; k < 3; k++) {
      r.data[3 + 4 * k] = p[k];
      r.data[4 + 4 * k] = q[k];
      r.data[5 + 4 * k] = 9.31322574615e-10 * (double)v.range(-5, 5);
    }
    sym(r.data[0], v, 5e-4);
    sym(r.data[1], v, 9e-12);
    r.data[6] = 0;
    r.data[10] = (double)v.range(-7, 6);
    r.data[14] = (double)v.below(3);
    return;
  }
  for (double &x : r.data)
    x = 0;
  sym(r.data[0], v, 1e-3);
  sym(r.data[1], v, 2e-11);
  sym(r.data[2], v, 2e-17);
  r.data[3] = (double)v.below(256);
  sym(r.data[4], v, 300);
  sym(r.data[5], v, 6e-9);
  r.data[6] = (2 * v.unit() - 1) * PI;
  sym(r.data[7], v, 2e-5);
  switch (v.below(4)) {
  case 0: r.data[8] = v.unit() * 5e-4; break;
  case 1: r.data[8] = v.unit() * 2e-2; break;
  case 2: r.data[8] = .14 + v.unit() * .03; break; // Galileo on eccentric orbits
  default: r.data[8] = v.chance(1, 3) ? 0 : v.unit() * 1e-2;
  }
  sym(r.data[9], v, 2e-5);
  r.data[10] = (r.sys == 'G' ? 5153.65 : r.sys == 'E' ? 5440.6 : v.chance(1, 3) ? 6493.4 : 5282.6) + (v.unit() - .5);
  if (r.geo()) {
    r.data[8] = v.unit() * 1e-3;
    r.data[10] = 6493.4 + (v.unit() - .5);
  }
  sym(r.data[12], v, 5e-7);
  r.data[13] = (2 * v.unit() - 1) * PI;
  sym(r.data[14], v, 5e-7);
  r.data[15] = r.geo() ? .04 + v.unit() * .1 : .9 + v.unit() * .2;
  sym(r.data[16], v, 400);
  r.data[17] = (2 * v.unit() - 1) * PI;
  sym(r.data[18], v, 9e-9);
  sym(r.data[19], v, 9e-10);
  sym(r.data[25], v, 2e-8);
  sym(r.data[26], v, 2e-8);
  r.data[23] = (double)v.below(5);
  if (r.sys == 'G') {
    r.data[26] = r.data[3];
    r.data[28] = 4;
  }
}
// -------------------------------------------------------------- evaluating
template <class T> ngpt::datetime<T> at_us(long us) {
  constexpr long F = T::template sec_factor<long>();
  long day = ngpt::shim::fdiv(us, 86400000000L);
  long t = (us - day * 86400000000L) / (1000000L / F);
  return ngpt::datetime<T>(ngpt::modified_julian_day(day), T(t));
}
/// microseconds since MJD 0 the type can express
inline long trunc_us(long us, int ty) {
  long g = ty == 0 ? 1000000 : ty == 1 ? 1000 : 1;
  return ngpt::shim::fdiv(us, g) * g;
}
} // namespace gen
