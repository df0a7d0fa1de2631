// Arbitrary astronomical angles, and the documented nodal factors.
#pragma once
#include <cmath>

#include "fes/angle/astronomic.hpp"
#include "oracle_waves.hpp"
#include "vf.hpp"

struct Angles {
  double t, s, h, p, n, p1, i, xi, nu, x1ra, r, nuprim, nusec;
};

inline Angles any_angles(fes::angle::Astronomic& a) {
  Angles g;
  g.t = a.t_ = vf_real("T", -4, 4);
  g.s = a.s_ = vf_real("s", 0, 7);
  g.h = a.h_ = vf_real("h", 0, 7);
  g.p = a.p_ = vf_real("p", 0, 7);
  g.n = a.n_ = vf_real("N", 0, 7);
  g.p1 = a.p1_ = vf_real("p1", 0, 7);
  g.i = a.i_ = vf_real("I", 0.3, 0.52);
  g.xi = a.xi_ = vf_real("xi", -1, 1);
  g.nu = a.nu_ = vf_real("nu", -1, 1);
  g.x1ra = a.x1ra_ = vf_real("1/Ra", 0, 4);
  g.r = a.r_ = vf_real("R", -2, 2);
  g.nuprim = a.nuprim_ = vf_real("nu'", -1, 1);
  g.nusec = a.nusec_ = vf_real("nu''", -2, 2);
  return g;
}

inline double sq(double x) { return x * x; }

inline double oracle_f(OracleF k, const Angles& g) {
  double si = std::sin(g.i), c2 = std::cos(0.5 * g.i), s2 = std::sin(0.5 * g.i);
  double s2i = std::sin(2 * g.i);
  double m2 = sq(sq(c2)) / 0.9154;
  double o1 = si * sq(c2) / 0.3800;
  double k1 = std::sqrt(0.8965 * sq(s2i) + 0.6001 * s2i * std::cos(g.nu) + 0.1006);
  double k2 = std::sqrt(19.0444 * sq(sq(si)) + 2.7702 * sq(si) * std::cos(2 * g.nu) + 0.0981);
  switch (k) {
    case F_1: return 1;
    case F_141: return (si - 1.25 * si * si * si) / 0.3192;
    case F_79: return sq(si) / 0.1565;
    case F_j1: return s2i / 0.7214;
    case F_k1: return k1;
    case F_k2: return k2;
    case F_l2: return m2 * g.x1ra;
    case F_m1: return o1 * std::sqrt(2.310 + 1.435 * std::cos(2 * (g.p - g.xi)));
    case F_m2: return m2;
    case F_m22: return m2 * m2;
    case F_m22_k1: return m2 * m2 * k1;
    case F_m22_k2: return m2 * m2 * k2;
    case F_m23: return m2 * m2 * m2;
    case F_m24: return sq(m2 * m2);
    case F_m2_k1: return m2 * k1;
    case F_m2_k2: return m2 * k2;
    case F_m2_o1: return m2 * o1;
    case F_m3: return sq(c2 * c2 * c2) / 0.8758;
    case F_mf: return sq(si) / 0.1578;
    case F_mm: return (2.0 / 3.0 - sq(si)) / 0.5021;
    case F_o1: return o1;
    case F_oo1: return si * sq(s2) / 0.0164;
  }
  return 0;
}

inline double oracle_v(const OracleWave& w, const Angles& g) {
  return w.arg[0] * g.t + w.arg[1] * g.s + w.arg[2] * g.h + w.arg[3] * g.p +
         w.arg[5] * g.p1 + w.arg[6] * 1.5707963267948966;
}

inline double oracle_u(int k, const OracleWave& w, const Angles& g) {
  double u = w.arg[7] * g.xi + w.arg[8] * g.nu + w.arg[9] * g.nuprim + w.arg[10] * g.nusec;
  if (k == 12)  // M13
    u -= 1 / std::sqrt(2.310 + 1.435 * std::cos(2 * (g.p - g.xi))) * 3.14159265358979323846 / 180;
  if (k == 33)  // L2
    u -= g.r;
  return u;
}
