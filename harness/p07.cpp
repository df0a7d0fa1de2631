// P07: angle and number helpers.
#include <array>
#include <cmath>
#include <complex>
#include <limits>
#include <tuple>

#include "fes/detail/math.hpp"
#include "vf.hpp"

namespace m = fes::detail::math;
static const double kPi = 3.14159265358979323846;

VF_HARNESS(normalize) {
  double x = vf_real("x", -1e9, 1e9), lo = vf_real("min", -1e6, 1e6);
  double c = vf_split("circle", 0, 1) ? 360.0 : 2 * kPi;
  double r = m::normalize_angle(x, lo, c);
  vf_cover("reduced");
  vf_assert(r >= lo - 1e-7 && r < lo + c + 1e-7, "inside [min, min+circle)");
  double k = (x - r) / c;
  vf_close(k, std::floor(k + 0.5), 1e-7, "congruent");
}

VF_HARNESS(normalize_circle) {
  double x = vf_real("x", -1e6, 1e6), c = vf_real("circle", 0.001, 1e6);
  double r = m::normalize_angle(x, 0.0, c);
  vf_cover("reduced");
  vf_assert(r >= 0 && r < c, "inside [0, circle)");
  double k = (x - r) / c;
  vf_close(k, std::floor(k + 0.5), 1e-6, "congruent");
}

// The interval is half-open in floating point too (native only).
VF_HARNESS(normalize_rounding) {
  double x = vf_real("x", -1, 1), lo = vf_split("min", -1, 1) * 180.0;
  long e = vf_int("exponent", 0, 60);
  double near = lo + std::ldexp(x, -static_cast<int>(e));
  double r = m::normalize_angle(near, lo, 360.0);
  vf_cover("reduced");
  vf_assert(r >= lo && r < lo + 360.0, "inside [min, min+360) next to min");
  double d = m::normalize_angle(std::nextafter(lo, -1e9), lo, 360.0);
  vf_assert(d >= lo && d < lo + 360.0, "inside [min, min+360) just below min");
}

VF_HARNESS(remainder_int) {
  long x = vf_int("x", -1000000000, 1000000000), y = vf_int("y", -1000000, 1000000);
  vf_assume(y != 0);
  int64_t r = m::remainder<int64_t>(x, y);
  vf_cover("divided");
  vf_assert(y > 0 ? (r >= 0 && r < y) : (r <= 0 && r > y), "sign of the divisor, smaller than it");
  vf_assert((x - r) % y == 0, "congruent");
}

VF_HARNESS(remainder_real) {
  double x = vf_real("x", -1e6, 1e6), y = vf_real("divisor", 0.001, 1e6);
  if (vf_split("negative divisor", 0, 1)) y = -y;
  double r = m::remainder(x, y);
  vf_cover("divided");
  vf_assert(y > 0 ? (r >= 0 && r < y * (1 + 1e-12)) : (r <= 0 && r > y * (1 + 1e-12)), "sign of the divisor, smaller than it");
  double k = (x - r) / y;
  vf_close(k, std::floor(k + 0.5), 1e-6, "congruent");
}

// x = 90 q + z, |z| <= 45, in each of the four quadrants.
VF_HARNESS(degrees_trigonometry) {
  long turn = vf_int("turn", -100000, 100000), quad = vf_split("quadrant", 0, 3);
  double z = vf_real("z", -45, 45);
  vf_assume(z > -45 && z < 45);  // the tie: degrees_trigonometry_tie
  double x = 90.0 * static_cast<double>(4 * turn + quad) + z;
  double s = std::sin(z * kPi / 180), c = std::cos(z * kPi / 180);
  double es[4] = {s, c, -s, -c}, ec[4] = {c, -s, -c, s};
  vf_cover("evaluated");
  vf_close(m::sind(x), es[quad], 1e-9, "sine of an angle in degrees");
  vf_close(m::cosd(x), ec[quad], 1e-9, "cosine of an angle in degrees");
  double a, b;
  std::tie(a, b) = m::sincosd(x);
  vf_close(a, es[quad], 1e-9, "sine of the pair");
  vf_close(b, ec[quad], 1e-9, "cosine of the pair");
}

VF_HARNESS(degrees_trigonometry_tie) {
  long turn = vf_int("turn", -100000, 100000), quad = vf_split("quadrant", 0, 3);
  double x = 90.0 * static_cast<double>(4 * turn + quad) + 45.0;
  double h = std::sqrt(0.5);
  double es[4] = {h, h, -h, -h}, ec[4] = {h, -h, -h, h};
  vf_cover("evaluated");
  vf_close(m::sind(x), es[quad], 1e-9, "sine of an angle in degrees");
  vf_close(m::cosd(x), ec[quad], 1e-9, "cosine of an angle in degrees");
  double a, b;
  std::tie(a, b) = m::sincosd(x);
  vf_close(a, es[quad], 1e-9, "sine of the pair");
  vf_close(b, ec[quad], 1e-9, "cosine of the pair");
}

VF_HARNESS(conversions) {
  double x = vf_real("x", -1e6, 1e6);
  vf_cover("converted");
  vf_close(m::radians(x), x * kPi / 180, 1e-9, "radians");
  vf_close(m::degrees(x) * kPi / 180, x, 1e-9, "degrees");
  vf_close(m::degrees(m::radians(x)), x, 1e-9, "inverse");
  double d = vf_real("degrees", -1e3, 1e3), mi = vf_real("minutes", -1e3, 1e3), s = vf_real("seconds", -1e9, 1e9);
  vf_close(m::dms_to_degrees(d, mi, s), d + mi / 60 + s / 3600, 1e-6, "degrees, minutes, seconds");
}

VF_HARNESS(polynomials) {
  double x = vf_real("x", -10, 10), a = vf_real("a", -10, 10), b = vf_real("b", -10, 10), c = vf_real("c", -10, 10),
         d = vf_real("d", -10, 10), e = vf_real("e", -10, 10);
  vf_cover("evaluated");
  vf_close(m::horner(x, a), a, 1e-9, "degree 0");
  vf_close(m::horner(x, a, b), a + b * x, 1e-9, "degree 1");
  vf_close(m::horner(x, a, b, c), a + b * x + c * x * x, 1e-9, "degree 2");
  vf_close(m::horner(x, a, b, c, d), a + b * x + c * x * x + d * x * x * x, 1e-9, "degree 3");
  vf_close(m::horner(x, a, b, c, d, e), a + b * x + c * x * x + d * x * x * x + e * x * x * x * x, 1e-8, "degree 4");
  vf_close(m::pow<0>(x), 1, 1e-9, "power 0");
  vf_close(m::pow<1>(x), x, 1e-9, "power 1");
  vf_close(m::pow<2>(x), x * x, 1e-9, "power 2");
  vf_close(m::pow<3>(x), x * x * x, 1e-9, "power 3");
  vf_close(m::pow<4>(x), x * x * x * x, 1e-9, "power 4");
  vf_close(m::pow<7>(x), x * x * x * x * x * x * x, 1e-5, "power 7");
}

VF_HARNESS(comparisons) {
  double a = vf_real("a", -1e6, 1e6), b = vf_real("b", -1e6, 1e6), e = vf_real("epsilon", 1e-12, 1);
  double diff = std::fabs(a - b), big = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
  vf_cover("compared");
  vf_assert(m::is_same(a, b, e) == (diff <= e || diff < big * e), "same within the tolerance");
  vf_assert(m::is_almost_zero(a, e) == (std::fabs(a) < e), "almost zero within the tolerance");
}

// Bilinear weights and interpolation, any subset of defined samples.
VF_HARNESS(bilinear) {
  double x1 = vf_real("x1", -1e3, 1e3), y1 = vf_real("y1", -1e3, 1e3);
  double sx = vf_real("dx", 0.01, 100), sy = vf_real("dy", 0.01, 100), tx = vf_real("tx", 0, 1), ty = vf_real("ty", 0, 1);
  double w1, w2, w3, w4;
  std::tie(w1, w2, w3, w4) = m::bilinear_weights(x1 + tx * sx, y1 + ty * sy, x1, y1, x1 + sx, y1 + sy);
  vf_cover("weighted");
  vf_close(w1, 1 - tx, 1e-6, "weight of x1");
  vf_close(w2, tx, 1e-6, "weight of x2");
  vf_close(w3, 1 - ty, 1e-6, "weight of y1");
  vf_close(w4, ty, 1e-6, "weight of y2");
}
VF_HARNESS(bilinear_samples) {
  double tx = vf_real("tx", 0.001, 0.999), ty = vf_real("ty", 0.001, 0.999);
  double z[4];
  vf_fill_real(z, 4, "z", -1e3, 1e3, true);
  int64_t n = -1;
  double r = m::bilinear_interpolation(1 - tx, tx, 1 - ty, ty, z[0], z[1], z[2], z[3], n);
  double w[4] = {(1 - tx) * (1 - ty), (1 - tx) * ty, tx * (1 - ty), tx * ty}, sw = 0, sz = 0;
  int64_t k = 0;
  for (int i = 0; i < 4; ++i)
    if (!std::isnan(z[i])) {
      ++k;
      sw += w[i];
      sz += w[i] * z[i];
    }
  vf_cover("interpolated");
  vf_assert(n == k, "number of defined samples");
  if (k == 0) {
    vf_assert(std::isnan(r), "undefined without samples");
  } else {
    vf_close(r * sw, sz, 1e-6, "renormalised weighted mean of the defined samples");
  }
}
