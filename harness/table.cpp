// P02: a wave table returns the constituent that was asked for.
#include <string>
#include <vector>

#include "fes/wave.hpp"
#include "fes/wave/table.hpp"
#include "oracle_waves.hpp"
#include "vf.hpp"

using fes::Constituent;
using fes::wave::Table;

static Constituent id(long k) { return static_cast<Constituent>(k); }

// What every table must answer, for the selection `in`.
static void check_table(const Table& t, const bool* in, long q) {
  size_t n = 0;
  for (int k = 0; k < 75; ++k) n += in[k];
  vf_assert(t.size() == n, "the size is the number of selected constituents");
  // by identifier
  std::shared_ptr<fes::Wave> w;
  int outcome = vf_outcome([&] { w = t[id(q)]; });
  if (in[q]) {
    vf_assert(outcome == 0 && w && w->ident() == id(q), "indexing by identifier yields this constituent");
  } else {
    vf_assert(outcome == 1, "indexing an absent constituent is out of range");
  }
  // by name
  std::shared_ptr<fes::Wave> g;
  outcome = vf_outcome([&] { g = t.find(kOracle[q].name); });
  vf_assert(outcome == 0, "searching a known name answers");
  if (in[q]) {
    vf_assert(g && g->ident() == id(q), "searching by name yields this constituent");
  } else {
    vf_assert(!g, "searching an absent constituent yields nothing");
  }
}

VF_HARNESS(table_complete) {
  Table t;
  long q = vf_split("constituent", 0, 74);
  bool in[75];
  for (bool& b : in) b = true;
  vf_cover("built");
  check_table(t, in, q);
  vf_assert(t[static_cast<size_t>(q)]->ident() == id(q), "position k holds constituent k");
  vf_assert(vf_outcome([&] { (void)t[static_cast<size_t>(75)]; }) == 1, "position past the end");
}

VF_HARNESS(table_complete_lists) {
  Table t;
  auto names = t.constituents();
  vf_assert(names.size() == 75, "75 names");
  size_t n = 0;
  for (const auto& w : t) {
    vf_assert(n < 75 && w->ident() == id(n), "iteration yields each constituent once, in order");
    vf_assert(names[n] == kOracle[n].name, "list of names");
    ++n;
  }
  vf_cover("iterated");
  vf_assert(n == 75, "iteration yields every constituent");
}

// Any subset: entry k of the list is constituent k or an unknown name.
static Table subset(bool* in, bool reversed = false) {
  std::vector<std::string> names;
  names.reserve(76);
  char sel[75];
  vf_fill_int(sel, 75, "selected", 0, 1, 1);
  for (long i = 0; i < 75; ++i) {
    long k = reversed ? 74 - i : i;
    in[k] = sel[k] != 0;
    names.emplace_back(in[k] ? kOracle[k].name : "?");
  }
  return Table(names);
}

VF_HARNESS(table_subset) {
  bool in[75];
  Table t = subset(in);
  long q = vf_split("constituent", 0, 74);
  vf_cover("built");
  check_table(t, in, q);
}

// A list may name a constituent several times.
VF_HARNESS(table_repeated) {
  bool in[75];
  std::vector<std::string> names;
  names.reserve(150);
  char sel[75], again[75];
  vf_fill_int(sel, 75, "selected", 0, 1, 1);
  vf_fill_int(again, 75, "again", 0, 1, 1);
  for (long k = 74; k >= 0; --k) names.emplace_back(sel[k] ? kOracle[k].name : "?");
  for (long k = 0; k < 75; ++k) {
    names.emplace_back(again[k] ? kOracle[k].name : "?");
    in[k] = sel[k] || again[k];
  }
  Table t(names);
  long q = vf_split("constituent", 0, 74);
  vf_cover("built");
  check_table(t, in, q);
}

VF_HARNESS(table_subset_reversed) {
  bool in[75];
  Table t = subset(in, true);
  long q = vf_split("constituent", 0, 74);
  vf_cover("built");
  check_table(t, in, q);
}

// Positions, iteration and both constructors: fifty selections of two or three
// constituents that together hold every constituent.
static void check_window(bool by_ident) {
  long w = vf_split("window", 0, 24), bits = vf_split("subset", 0, 1) ? 11 : 6, rev = w & 1;
  bool in[75] = {};
  std::vector<Constituent> ids;
  std::vector<std::string> nms;
  for (long i = 0; i < 4; ++i) {
    long j = rev ? 3 - i : i;
    if (!(bits >> j & 1)) continue;
    long k = (w * 3 + j * 19) % 75;
    in[k] = true;
    ids.push_back(id(k));
    nms.emplace_back(kOracle[k].name);
  }
  Table t = by_ident ? Table(ids) : Table(nms);
  vf_cover("built");
  auto names = t.constituents();
  size_t n = 0;
  auto it = t.begin();
  for (long k = 0; k < 75; ++k) {
    if (!in[k]) {
      vf_assert(vf_outcome([&] { (void)t[id(k)]; }) == 1 && !t.find(kOracle[k].name), "an absent constituent is reported");
      continue;
    }
    vf_assert(t[id(k)]->ident() == id(k), "indexing by identifier");
    vf_assert(t.find(kOracle[k].name)->ident() == id(k), "searching by name");
    vf_assert(it != t.end() && (*it)->ident() == id(k), "iteration yields the selected constituents in order");
    vf_assert(n < names.size() && names[n] == kOracle[k].name, "the list of names is that of the selection");
    vf_assert(t[n]->ident() == id(k), "positional access agrees with iteration");
    ++it;
    ++n;
  }
  vf_assert(!(it != t.end()), "iteration ends after the selected constituents");
  vf_assert(names.size() == n && t.size() == n, "nothing else is listed");
  vf_assert(vf_outcome([&] { (void)t[n]; }) == 1, "a position past the end is out of range");
}
VF_HARNESS(table_window_names) { check_window(false); }
VF_HARNESS(table_window_idents) { check_window(true); }
