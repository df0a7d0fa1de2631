#include "fes/detail/math.hpp"
#include "fes/constituent.hpp"
#include "vf.hpp"
#include <string>
using namespace fes::detail::math;
VF_HARNESS(norm) {
  double x = vf_real("x", -1e6, 1e6), m = vf_real("min", -1e3, 1e3), c = vf_real("circle", 1, 1e4);
  double r = normalize_angle(x, m, c);
  vf_assert(r >= m, "lower");
  vf_assert(r < m + c, "upper");
}
VF_HARNESS(parse) {
  std::string s("mM");
  vf_assert(fes::constituents::parse(s) == fes::kMm, "Mm");
}
VF_HARNESS(names) {
  long k = vf_split("ident", 0, 74);
  auto c = static_cast<fes::Constituent>(k);
  std::string s(fes::constituents::name(c));
  vf_assert(fes::constituents::parse(s) == c, "roundtrip");
}
VF_HARNESS(known) {
  auto v = fes::constituents::known();
  vf_assert(v.size() == 75, "75");
}
