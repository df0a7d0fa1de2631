// P06: astronomical angles of the three theories.
#include "fes/angle/astronomic.hpp"
#include "vf.hpp"

using fes::angle::Astronomic;
using fes::angle::Formulae;

static const double kPi = 3.14159265358979323846;
static double rad(double x) { return x * kPi / 180; }

struct Poly {
  double c[5];
  double at(double x) const { return c[0] + x * (c[1] + x * (c[2] + x * (c[3] + x * c[4]))); }
};
// Degrees per Julian century (Schureman: since 1899-12-31T12:00; Meeus: since J2000).
struct Theory {
  Poly n, h, s, p1, p;
};
static double dms(double d, double m, double s) { return d + m / 60 + s / 3600; }
static Theory theory(int k) {
  Theory t;
  t.n = {{dms(259, 10, 57.12), -(1800 + 482912.63 / 3600), 0, 0, 0}};
  t.h = {{dms(279, 41, 48.04), 129602768.13 / 3600, 0, 0, 0}};
  t.s = {{dms(270, 26, 14.72), 1336 * 360 + 1108411.20 / 3600, 0, 0, 0}};
  t.p1 = {{dms(281, 13, 15.0), 6189.03 / 3600, 0, 0, 0}};
  t.p = {{dms(334, 19, 40.87), 3960 + 392515.94 / 3600, 0, 0, 0}};
  if (k == 1) {
    t.n.c[2] = 7.58 / 3600, t.n.c[3] = 0.008 / 3600;
    t.h.c[2] = 1.089 / 3600;
    t.s.c[2] = 9.09 / 3600, t.s.c[3] = 0.0068 / 3600;
    t.p1.c[2] = 1.63 / 3600, t.p1.c[3] = 0.012 / 3600;
    t.p.c[2] = -37.24 / 3600, t.p.c[3] = -0.045 / 3600;
  }
  if (k == 2) {
    t.n = {{125.0445479, -1934.1362891, 0.0020754, 1.0 / 467441, -1.0 / 60616000}};
    t.s = {{218.3164477, 481267.88123421, -0.0015786, 1.0 / 538841, -1.0 / 65194000}};
    t.p = {{83.3532465, 4069.0137287, -0.0103200, -1.0 / 80053, 1.0 / 18999000}};
    Poly d = {{297.8501921, 445267.1114034, -0.0018819, -1.0 / 545868, 1.0 / 113065000}};
    Poly g = {{357.5291092, 35999.0502909, -0.0001536, 1.0 / 24490000, 0}};
    for (int i = 0; i < 5; ++i) {
      t.h.c[i] = t.s.c[i] - d.c[i];
      t.p1.c[i] = t.h.c[i] - g.c[i];
    }
  }
  return t;
}

static void congruent(double angle, double degrees, const char* what) {
  vf_assert(angle >= 0 && angle < 2 * kPi + 1e-12, "reduced to [0, 2 pi)");
  double k = (rad(degrees) - angle) / (2 * kPi);
  vf_close(k, std::floor(k + 0.5), 1e-7, what);
}

static Formulae formula(long k) { return k == 0 ? Formulae::kSchuremanOrder1 : k == 1 ? Formulae::kSchuremanOrder3 : Formulae::kMeeus; }

VF_HARNESS(angle_polynomials) {
  long k = vf_split("formula", 0, 2);
  double epoch = vf_real("epoch", -1e11, 1e11);  // four thousand years
  long leap = vf_int("leap seconds", 0, 65535);
  Astronomic a(formula(k), epoch, static_cast<uint16_t>(leap));
  double jc = k < 2 ? (epoch / 86400 + 25567.5) / 36525 : (epoch + static_cast<double>(static_cast<uint16_t>(leap)) + 32.184 - 946728000) / 3155760000.0;
  Theory t = theory(static_cast<int>(k));
  vf_cover("computed");
  congruent(a.n(), t.n.at(jc), "N follows the theory");
  congruent(a.s(), t.s.at(jc), "s follows the theory");
  congruent(a.h(), t.h.at(jc), "h follows the theory");
  congruent(a.p(), t.p.at(jc), "p follows the theory");
  congruent(a.p1(), t.p1.at(jc), "p1 follows the theory");
  vf_assert(a.t() >= -kPi - 1e-12 && a.t() <= kPi + 1e-12, "T in [-pi, pi]");
  double q = (rad(180 + 15 * (epoch / 3600)) - a.t()) / (2 * kPi);
  vf_close(q, std::floor(q + 0.5), 1e-6, "T is the hour angle of the mean sun");
}

VF_HARNESS(angle_derived) {
  long k = vf_split("formula", 0, 2);
  double epoch = vf_real("epoch", -1e11, 1e11);
  Astronomic a(formula(k));
  a.update(epoch, static_cast<uint16_t>(vf_int("leap seconds", 0, 65535)));
  double n = a.n(), i = a.i(), nu = a.nu(), xi = a.xi(), p = a.p() - a.xi();
  double at1 = std::atan(1.01883 * std::tan(n * 0.5)), at2 = std::atan(0.64412 * std::tan(n * 0.5));
  double tgi2 = std::tan(i * 0.5) * std::tan(i * 0.5), s2 = std::sin(i) * std::sin(i);
  vf_cover("computed");
  vf_close(i, std::acos(0.91370 - 0.03569 * std::cos(n)), 1e-9, "I");
  vf_close(nu, at1 - at2, 1e-9, "nu");
  vf_close(xi, n - at1 - at2 - (n > kPi ? 2 * kPi : 0.0), 1e-9, "xi");
  vf_close(a.x1ra(), std::sqrt(1 + tgi2 * (36 * tgi2 - 12 * std::cos(2 * p))), 1e-9, "1/Ra");
  vf_close(a.r(), std::atan(std::sin(2 * p) / (1 / (6 * tgi2) - std::cos(2 * p))), 1e-9, "R");
  vf_close(a.nuprim(), std::atan(std::sin(2 * i) * std::sin(nu) / (std::sin(2 * i) * std::cos(nu) + 0.3347)), 1e-9, "nu'");
  vf_close(a.nusec(), 0.5 * std::atan(s2 * std::sin(2 * nu) / (s2 * std::cos(2 * nu) + 0.0727)), 1e-9, "nu''");
}

// xi does not jump: it stays in a small interval around zero.
VF_HARNESS(angle_branch) {
  Astronomic a(fes::angle::Formulae::kSchuremanOrder3);
  double epoch = vf_real("epoch", -1e11, 1e11);
  a.update(epoch, 0);
  // at N = pi exactly tan(N / 2) has no value in the reals
  vf_assume(std::fabs(a.n() - kPi) > 1e-12);
  vf_cover("computed");
  vf_assert(a.xi() > -1 && a.xi() < 1, "xi on the continuous branch");
}

VF_HARNESS(angle_unknown) {
  long k = vf_split("formula", 3, 20);
  int o = vf_outcome([&] { Astronomic a(static_cast<Formulae>(k)); });
  vf_cover("rejected");
  vf_assert(o != 0, "an unknown theory is rejected");
  o = vf_outcome([&] { Astronomic a(static_cast<Formulae>(k), 0.0, 0); });
  vf_assert(o != 0, "an unknown theory is rejected when a date is given");
}
