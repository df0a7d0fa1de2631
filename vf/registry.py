"""Which contracts decide which property."""


class J:
    def __init__(self, name, contracts=None, bounded=None, tier='quick', exec_s=240.0, prove_s=30.0, search_s=2.0,
                 finding=False, native_only=False, **opts):
        self.name = name
        self.contracts = contracts or {}
        self.bounded = bounded
        self.tier = tier
        self.exec_s = exec_s
        self.prove_s = prove_s
        self.search_s = search_s
        self.finding = finding
        self.native_only = native_only
        self.opts = opts
        self.deadline = 0


LEVEL = dict(trusted=[
    'clang 18 (C++ to LLVM IR, -O1 without passes) and the IR dump', 'the VC generator vf/engine.py and its term simplifier',
    'z3, cvc5, ring normaliser vf/smt.py',
])
ASSUME = [
    'double and float arithmetic is read as exact real arithmetic plus a not-a-number flag (rounding, overflow and signed zero are not modelled); tolerances of the contracts cover the constants only',
    'allocation never fails', 'library built as the shipped configuration (NDEBUG)',
    'external library functions behave as their models in vf/natives.py and harness/models.cpp',
]

PROPS = {}


def P(id, files, jobs, **k):
    PROPS[id] = dict(files=files, jobs=jobs, **k)


P('P01', ['p01'], [J('names'), J('spelling'), J('known_list'), J('reject'), J('name_of_nothing')])
P('P02', ['table'], [J('table_complete'), J('table_complete_lists'), J('table_subset'), J('table_subset_reversed'), J('table_repeated'),
                   J('table_window_names', bounded='50 selections of 2 or 3 constituents', nomerge=True), J('table_window_idents', bounded='50 selections of 2 or 3 constituents', nomerge=True)])
P('P03', ['waves'], [J('wave_phase'), J('wave_identity'), J('wave_vu')])
P('P04', ['waves'], [J('wave_factor'), J('wave_factor_2mk6'), J('finding_2mk6', finding=True)])
P('P05', ['waves'], [J('wave_frequency'), J('wave_doodson'), J('select_waves', nomerge=True)])

P('P06', ['p06'], [J('angle_polynomials'), J('angle_derived'), J('angle_branch'), J('angle_unknown')])
P('P07', ['p07'], [J('normalize'), J('normalize_circle'), J('normalize_rounding', native_only=True), J('remainder_int'), J('remainder_real'),
                 J('degrees_trigonometry'), J('degrees_trigonometry_tie'), J('conversions'), J('polynomials'), J('comparisons'), J('bilinear'), J('bilinear_samples')])

# MANIFEST level_note per property
NOTES = {
    'P01': 'all identifiers, strings of unbounded length; trusted: models of std::string/map internals',
    'P02': 'all subsets of the 75 constituents (unbounded); tables built from lists of names or identifiers: 50 selections (bounded)',
    'P06': 'every epoch (reals) and leap-second count, three theories; trusted: range and branch lemmas for atan/tan',
    'P07': 'every real argument; floor, remainder and trigonometric functions axiomatised; rounding of normalize_angle near the bounds checked natively only (bounded)',
    'P03': 'every constituent, every angle value (reals); documented tables transcribed in harness/oracle_waves.hpp',
    'P04': 'every constituent, every angle value (reals); 2MK6 is a known finding',
    'P05': 'every constituent; series duration and multiple arbitrary reals',
}
NA = {}
