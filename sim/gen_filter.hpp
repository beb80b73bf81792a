// An independent textbook filter, and what the real one shows of itself.
#pragma once
#include "common.hpp"
#include <array>
#include <iostream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "gauss_newton.hpp"

namespace gen {
typedef long double ld;
constexpr double C = 299792458e0;
typedef ngpt::Kalman<5> Filter;

// ---------------------------------------------------------- what it prints
/// everything written to descriptor 1 while f runs (whatever layer writes it)
template <class F> std::string captured(F &&f) {
  std::fflush(stdout);
  std::cout.flush();
  static int mem = -1;
  if (mem < 0)
    mem = memfd_create("stdout", 0);
  static int keep = dup(1);
  if (mem < 0 || keep < 0 || ftruncate(mem, 0) || syscall(SYS_lseek, mem, 0L, SEEK_SET) != 0 || dup2(mem, 1) < 0)
    sim::harness_error("cannot capture stdout");
  struct R {
    ~R() {
      std::fflush(stdout);
      std::cout.flush();
      dup2(keep, 1);
    }
  };
  {
    R r;
    f();
  }
  std::string s(4096, 0);
  long n = syscall(SYS_pread64, mem, &s[0], s.size(), 0L);
  s.resize(n < 0 ? 0 : (size_t)n);
  return s;
}
struct Shown {
  bool ok{false};
  double x[5], s[5];
};
inline Shown show(Filter &k) {
  std::string t = captured([&] { sim::api("print_state", [&] { k.print_state(); }); });
  Shown r;
  const char *p = t.c_str();
  for (int i = 0; i < 5; i++) {
    char *e;
    r.x[i] = std::strtod(p, &e);
    if (e == p)
      return r;
    for (p = e; *p && std::strchr(" +-/", *p) && p < e + 12; ++p)
      ;
    if (std::string((const char *)e, (size_t)(p - e)).find("+/-") == std::string::npos)
      return r;
    r.s[i] = std::strtod(p, &e);
    if (e == p)
      return r;
    p = e;
  }
  r.ok = true;
  return r;
}

// --------------------------------------------------------------- the model
struct Sat {
  std::array<double, 4> x; // position, clock
  double obs, w; // the weight: a variance beyond the 100 square metres every measurement has
};
struct Epoch {
  double t;
  std::vector<Sat> sats;
  bool weighted{true};
};
struct Model {
  ld x[5], P[5][5];
  ld rounding{0}; // what rounding in double precision can do to a variance
  ld shift{0};    // ... and to the state, when it is far from what is measured
  ld coef;        // what is measured is a multiple of the pseudorange
  explicit Model(const double *x0, double c = 1) : coef(c) {
    for (int i = 0; i < 5; i++) {
      x[i] = x0[i];
      for (int j = 0; j < 5; j++)
        P[i][j] = i != j ? 0 : i == 4 ? 30 : 2500;
    }
  }
  static void invert(const ld (&a)[5][5], ld (&b)[5][5]) {
    ld m[5][10];
    for (int i = 0; i < 5; i++)
      for (int j = 0; j < 5; j++)
        m[i][j] = a[i][j], m[i][5 + j] = i == j;
    for (int c = 0; c < 5; c++) {
      int p = c;
      for (int i = c; i < 5; i++)
        if (std::fabs(m[i][c]) > std::fabs(m[p][c]))
          p = i;
      for (int j = 0; j < 10; j++)
        std::swap(m[p][j], m[c][j]);
      ld d = m[c][c];
      for (int j = 0; j < 10; j++)
        m[c][j] /= d;
      for (int i = 0; i < 5; i++)
        if (i != c) {
          ld f = m[i][c];
          for (int j = 0; j < 10; j++)
            m[i][j] -= f * m[c][j];
        }
    }
    for (int i = 0; i < 5; i++)
      for (int j = 0; j < 5; j++)
        b[i][j] = m[i][5 + j];
  }
  void update(const std::vector<Sat> &sats, ld dt) {
    // prediction: F = I + dt e3 e4'
    x[3] += dt * x[4];
    for (int j = 0; j < 5; j++)
      P[3][j] += dt * P[4][j];
    for (int i = 0; i < 5; i++)
      P[i][3] += dt * P[i][4];
    P[3][3] += .0114L, P[3][4] += .0019L, P[4][3] += .0019L, P[4][4] += .0039L;
    for (int i = 0; i < 5; i++) // variance times condition of the residual covariance
      rounding += 1.2e-15L * P[i][i] * (1 + coef * coef * P[i][i] * sats.size() / 100);
    ld trace = 0, far = 0;
    for (int i = 0; i < 5; i++)
      trace += P[i][i];
    // information form of the update
    ld Y[5][5], y[5] = {0, 0, 0, 0, 0};
    invert(P, Y);
    for (const Sat &s : sats) {
      ld d[3], r = 0;
      for (int i = 0; i < 3; i++) {
        d[i] = (ld)s.x[(size_t)i] - x[i];
        r += d[i] * d[i];
      }
      r = std::sqrt(r);
      ld h[5] = {-coef * d[0] / r, -coef * d[1] / r, -coef * d[2] / r, coef, 0};
      ld R = 100.0L + s.w, v = (ld)s.obs + coef * ((ld)s.x[3] * C - r - x[3]);
      far = std::max(far, std::fabs(v));
      for (int i = 0; i < 5; i++) {
        y[i] += h[i] * v / R;
        for (int j = 0; j < 5; j++)
          Y[i][j] += h[i] * h[j] / R;
      }
    }
    invert(Y, P);
    shift += 1e-14L * far * (1 + coef * coef * trace * sats.size() / 100);
    for (int i = 0; i < 5; i++)
      for (int j = 0; j < 5; j++)
        x[i] += P[i][j] * y[j];
  }
};

/// hand an epoch over the way callers do: vectors of exactly the satellites, or
/// longer ones that are reused and hold older data behind them
struct Feeder {
  std::unique_ptr<Filter> k, former; // (a copy shares nothing with what it was copied from)
  bool reuse;
  std::vector<double> obs, w;
  std::vector<std::array<double, 4>> sv;
  Feeder(const double *x0, bool r, double c = 1) : k(std::make_unique<Filter>(make(x0, c))), reuse(r) {
    if (reuse) {
      obs.assign(80, 1e300), w.assign(80, -99);
      sv.assign(80, {1e300, -1e300, 0, 1});
    }
  }
  static Filter make(const double *x0, double c) {
    if (c == 1) // what the constructor takes for granted
      return Filter({x0[0], x0[1], x0[2], x0[3], x0[4]});
    return Filter({x0[0], x0[1], x0[2], x0[3], x0[4]}, c);
  }
  /// the filter moves to another place, as in a vector that grows
  void relocate(int how) {
    sim::api("copy", [&] {
      if (how == 0)
        former = std::make_unique<Filter>(*k);
      else if (how == 1)
        former = std::make_unique<Filter>(std::move(*k));
      else {
        former = std::make_unique<Filter>(make(std::array<double, 5>{0, 0, 0, 0, 0}.data(), 3));
        *former = *k;
      }
    });
    std::swap(k, former);
    if (how != 0)
      former.reset();
  }
  void update(const std::vector<Sat> &s, double dt, bool weighted = true) {
    if (!reuse) {
      obs.resize(s.size()), w.resize(s.size()), sv.resize(s.size());
      obs.shrink_to_fit(), w.shrink_to_fit(), sv.shrink_to_fit();
    }
    for (size_t i = 0; i < s.size(); i++)
      obs[i] = s[i].obs, w[i] = s[i].w, sv[i] = s[i].x;
    auto o0 = obs, w0 = w;
    sim::api("update", [&] {
      if (weighted)
        k->update((int)s.size(), &obs, &sv, dt, &w);
      else
        k->update((int)s.size(), &obs, &sv, dt);
    });
    if (o0 != obs || w0 != w)
      sim::fail("caller-data-changed", "update() changed the caller's measurements");
  }
};

} // namespace gen
