// P01: constituent names and identifiers are in one-to-one correspondence.
#include <cctype>
#include <cstring>
#include <string>
#include <vector>

#include "fes/constituent.hpp"
#include "vf.hpp"

using fes::Constituent;
namespace cs = fes::constituents;

VF_HARNESS(names) {
  auto c = static_cast<Constituent>(vf_split("ident", 0, 74));
  std::string s(cs::name(c));
  vf_cover("named");
  vf_assert(!s.empty(), "the name is not empty");
  vf_assert(cs::parse(s) == c, "parse(name(c)) == c");
}

// Any mixture of upper and lower case.
VF_HARNESS(spelling) {
  auto c = static_cast<Constituent>(vf_split("ident", 0, 74));
  std::string s(cs::name(c));
  bool up[16];
  long n = static_cast<long>(s.size());
  vf_assert(n < 16, "short name");
  char flags[16];
  vf_fill_int(flags, n, "upper", 0, 1, 1);
  for (long i = 0; i < n; ++i) {
    char ch = s[i];
    if (ch >= 'a' && ch <= 'z' && flags[i]) s[i] = static_cast<char>(ch - 32);
    if (ch >= 'A' && ch <= 'Z' && flags[i]) s[i] = static_cast<char>(ch + 32);
  }
  (void)up;
  int r = -1;
  auto outcome = vf_outcome([&] { r = cs::parse(s); });
  vf_cover("spelled");
  vf_assert(outcome == 0, "every spelling is accepted");
  vf_assert(r == static_cast<int>(c), "every spelling maps to the identifier");
}

VF_HARNESS(known_list) {
  auto v = cs::known();
  vf_assert(v.size() == 75, "75 constituents are known");
  for (int k = 0; k < 75; ++k) {
    std::string s(cs::name(static_cast<Constituent>(k)));
    int n = 0;
    for (auto& e : v) n += e == s;
    vf_assert(n == 1, "each name is listed exactly once");
  }
  vf_cover("listed");
}

// Any string that is not a spelling of a name is rejected.
VF_HARNESS(reject) {
#ifdef VF_SYMBOLIC
  long n = vf_int("length", 0, 1000000);
#else
  long n = vf_int("length", 0, 40);
#endif
  char* p = new char[n + 1];
#ifdef VF_SYMBOLIC
  vf_fill_int(p, n, "byte", -128, 127, 1);
#else
  // native runs only: a name with one byte replaced, appended or removed
  long base = vf_int("near name", 0, 75);
  if (base) {
    delete[] p;
    std::string near = cs::name(static_cast<Constituent>(base - 1));
    long at = vf_int("at", 0, static_cast<long>(near.size())), ch = vf_int("byte", -128, 127);
    near.resize(std::max(static_cast<size_t>(at + 1), near.size() - vf_int("cut", 0, 1)));
    near[at] = static_cast<char>(ch);
    n = static_cast<long>(near.size());
    p = new char[n + 1];
    memcpy(p, near.data(), n);
  } else {
    vf_fill_int(p, n, "byte", -128, 127, 1);
  }
#endif
  for (int k = 0; k < 75; ++k) {
    const char* s = cs::name(static_cast<Constituent>(k));
    long m = static_cast<long>(strlen(s));
    bool eq = n == m;
    if (eq)
      for (long i = 0; i < m; ++i) {
        int a = p[i], b = s[i];
        if (a >= 'A' && a <= 'Z') a += 32;
        if (b >= 'A' && b <= 'Z') b += 32;
        eq = eq & (a == b);
      }
    vf_assume(!eq);
  }
  std::string s(p, static_cast<size_t>(n));
  auto outcome = vf_outcome([&] { (void)cs::parse(s); });
  vf_cover("rejected");
  vf_assert(outcome == 2, "any other string is an invalid argument");
  delete[] p;
}

VF_HARNESS(name_of_nothing) {
  auto c = static_cast<Constituent>(vf_split("value", 75, 255));
  auto outcome = vf_outcome([&] { (void)cs::name(c); });
  vf_cover("rejected");
  vf_assert(outcome == 2, "a value that is not an identifier is an invalid argument");
}
