// P03, P04, P05: what each constituent computes from the astronomical angles.
#include <string>
#include <vector>

#include "angles.hpp"
#include "fes/wave.hpp"
#include "fes/wave/table.hpp"
#include "vf.hpp"

using fes::Constituent;
using fes::wave::Table;

VF_HARNESS(wave_phase) {
  fes::angle::Astronomic a;
  auto g = any_angles(a);
  long k = vf_split("ident", 0, 74);
  auto w = Table::wave_factory(static_cast<Constituent>(k));
  w->nodal_g(a);
  vf_cover("phase computed");
  vf_close(w->v(), oracle_v(kOracle[k], g), 1e-9, "V is the documented combination");
  vf_close(w->u(), oracle_u(k, kOracle[k], g), 1e-9, "u is the documented combination");
}

VF_HARNESS(wave_identity) {
  long k = vf_split("ident", 0, 74);
  auto w = Table::wave_factory(static_cast<Constituent>(k));
  vf_cover("wave built");
  vf_assert(static_cast<long>(w->ident()) == k, "the wave carries the identifier asked for");
  vf_assert((w->type() == fes::Wave::kLongPeriod) == kOracle[k].long_period, "documented type of tide");
  vf_assert(w->admittance() == kOracle[k].admittance, "documented admittance flag");
  vf_assert(!w->dynamic(), "not dynamic at first");
  vf_assert(std::string(w->name()) == kOracle[k].name, "documented name");
}

// The combined phase is V+u modulo one turn, for any V and u.
VF_HARNESS(wave_vu) {
  auto w = Table::wave_factory(fes::kM2);
  double v = w->v_ = vf_real("V", -200, 200);
  double u = w->u_ = vf_real("u", -20, 20);
  double vu = w->vu();
  const double turn = 6.283185307179586;
  vf_cover("phase combined");
  vf_assert(vu > -turn - 1e-9 && vu < turn + 1e-9, "reduced to one turn");
  double k = (v + u - vu) / turn;
  vf_close(k, std::floor(k + 0.5), 1e-9, "congruent to V+u");
}

VF_HARNESS(wave_factor) {
  fes::angle::Astronomic a;
  auto g = any_angles(a);
  long k = vf_split("ident", 0, 74);
  if (k == 59) vf_assume(false);  // 2MK6: see wave_factor_2mk6
  auto w = Table::wave_factory(static_cast<Constituent>(k));
  w->nodal_a(a);
  vf_cover("factor computed");
  vf_close(w->f(), oracle_f(kOracle[k].f, g), 1e-9, "f is the documented formula");
}

// Known finding: f(2MK6) is f(M2)^3 f(K2) instead of the documented
// f(M2)^2 f(K2) (pinned by an existing test).  Nothing else is tolerated.
VF_HARNESS(wave_factor_2mk6) {
  fes::angle::Astronomic a;
  auto g = any_angles(a);
  auto w = Table::wave_factory(fes::k2MK6);
  w->nodal_a(a);
  double doc = oracle_f(F_m22_k2, g), code = doc * oracle_f(F_m2, g);
  vf_cover("factor computed");
  vf_close2(w->f(), doc, code, 1e-9, "f(2MK6) is the documented or the known formula");
}
VF_HARNESS(finding_2mk6) {
  fes::angle::Astronomic a;
  auto g = any_angles(a);
  auto w = Table::wave_factory(fes::k2MK6);
  w->nodal_a(a);
  vf_cover("factor computed");
  vf_close(w->f(), oracle_f(F_m22_k2, g), 1e-9, "f(2MK6) is the documented formula");
}

// Mean speeds in degrees per hour (documented in speed.hpp).
static const double kCentury = 3155760000.0 / 3600.0;
static double oracle_speed(long k) {
  const double s = (1336.0 * 360.0 + 307.892) / kCentury;
  const double h = (100.0 * 360.0 + 0.769) / kCentury;
  const double p = (11.0 * 360.0 + 109.032) / kCentury;
  const double n = -(5.0 * 360.0 + 134.142) / kCentury;
  const double p1 = 1.719 / kCentury;
  const auto* a = kOracle[k].arg;
  return 15.0 * a[0] + s * a[1] + h * a[2] + p * a[3] + n * a[4] + p1 * a[5];
}
static double oracle_freq(long k) { return oracle_speed(k) * 3.14159265358979323846 / 180; }

VF_HARNESS(wave_frequency) {
  long k = vf_split("ident", 0, 74);
  auto w = Table::wave_factory(static_cast<Constituent>(k));
  vf_cover("wave built");
  vf_close(w->freq(), oracle_freq(k), 1e-11, "rate of change of V");
  if (k != 72)  // M0 is constant: its period is not a number of hours
    vf_close(w->period() * oracle_freq(k), 6.283185307179586, 1e-8, "one turn divided by the frequency");
}

VF_HARNESS(wave_doodson) {
  long k = vf_split("ident", 0, 74);
  auto w = Table::wave_factory(static_cast<Constituent>(k));
  std::string d = w->doodson_number();
  vf_cover("code built");
  vf_assert(d.size() == 6, "six symbols");
  for (int i = 0; i < 6; ++i) {
    int v = kOracle[k].arg[i] + (i ? 5 : 0);
    char c = v == -1 ? '*' : v == 10 ? 'X' : v == 11 ? 'E' : v == 12 ? 'T' : static_cast<char>('0' + v);
    vf_assert(d[i] == c, "symbol of the documented coefficient");
  }
}

VF_HARNESS(select_waves) {
  double d = vf_real("duration", 0, 1e10), f = vf_real("multiple", 0.1, 100);
  double lim = f * d / 3600.0;
  // exhaustive case split over the interval between two successive periods
  // (a margin of 1e-12 around ties, where rounding decides, is left out)
  double sorted[76];
  int m = 0;
  for (long k = 0; k < 75; ++k) {
    if (k == 72) continue;
    double p = 6.283185307179586 / oracle_freq(k);
    int i = m++;
    for (; i > 0 && sorted[i - 1] > p; --i) sorted[i] = sorted[i - 1];
    sorted[i] = p;
  }
  long r = vf_split("interval", 0, 74);
  if (r > 0) vf_assume(lim > sorted[r - 1] * (1 + 1e-12));
  if (r < 74) vf_assume(lim < sorted[r] * (1 - 1e-12));
  auto v = Table::select_waves_for_analysis(d, f);
  vf_cover("selected");
  size_t n = 0, pos = 0;
  for (long k = 0; k < 75; ++k) {
    if (k == 72) continue;
    double p = 6.283185307179586 / oracle_freq(k);
    if (!(p < lim)) continue;
    ++n;
    std::string s(kOracle[k].name);
    bool found = false;
    for (size_t t = 0; t < v.size() && !found; ++t, ++pos) {
      if (pos >= v.size()) pos = 0;
      found = v[pos] == s;
    }
    vf_assert(found, "a constituent with a shorter period is selected");
  }
  vf_assert(v.size() == n, "nothing else is selected");
}
