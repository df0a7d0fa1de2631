"""Writes properties.jsonl (the source of truth for titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

p('P01', 'Constituent names and identifiers are in one-to-one correspondence',
  'Every tidal constituent identifier has a distinct non-empty name, looking that name up in any mixture of upper and lower case returns the same identifier, and the list of known constituents contains every name exactly once. '
  'Any other string is rejected with an invalid-argument error; it is never silently mapped to some constituent. '
  'Asking for the name of a value that is not an identifier is also rejected with an invalid-argument error.',
  ['inputs'], 'all 75 identifiers, all upper/lower-case spellings of their names, and all other strings (any length, any bytes)',
  'The tests parse each canonical spelling, one lower-case name and one bad string; case folding and rejection range over all strings.',
  ['src/library/constituent.cpp', 'include/fes/constituent.hpp', 'include/fes/detail/wave/name.hpp'],
  [('parse', 'src/library/constituent.cpp parse()'), ('name', 'src/library/constituent.cpp name()'), ('known', 'src/library/constituent.cpp known()')])

p('P02', 'A wave table returns the constituent that was asked for',
  'Indexing a wave table by identifier, searching it by name, or reading it by position yields the wave whose own identity is the one requested (for positions: each selected constituent exactly once, iteration and positional access agreeing), for the complete table and for every table built from a subset of constituents. '
  'Asking a partial table for a constituent it does not hold is reported (out-of-range error when indexing by identifier, empty result when searching by name), never answered with another wave. '
  'The size and the list of names of the table are those of the constituents selected.',
  ['inputs', 'configurations'], 'all 75 identifiers, the complete table and all tables built from any list of distinct identifiers',
  'The tests iterate the table and check what each wave says about itself, so a table whose slots are permuted still passes; subsets are sampled once.',
  ['src/library/wave/table.cpp', 'include/fes/wave/table.hpp', 'src/library/constituent.cpp'],
  [('table construction', 'src/library/wave/table.cpp Table::Table, create_table, create_sparse_table'), ('factory', 'Table::wave_factory'), ('access', 'include/fes/wave/table.hpp operator[], find, direct_access, sparse_access')])

p('P03', 'Equilibrium argument and nodal phase follow the documented tables',
  'For every constituent and every set of astronomical angles, the Greenwich argument V and the nodal phase u are exactly the linear combinations of T, s, h, p, p1, the 90-degree shift, xi, nu, nu-prime and nu-second documented for that constituent (with the additional documented terms of M13 and L2), and the combined phase is V+u reduced modulo one turn. '
  'Each constituent carries its documented long-period/short-period type and admittance flag, and starts not dynamic.',
  ['inputs'], 'all 75 constituents; all values of the astronomical angles',
  'The tests set every angle to the same value (1 degree), so sign errors that cancel (2xi-2nu versus 2nu-2xi), swapped angles and most coefficient changes are invisible.',
  ['include/fes/wave.hpp'], [('nodal_g', 'include/fes/wave.hpp Wave::nodal_g and overrides in M13, L2'), ('vu', 'Wave::vu'), ('coefficient tables', 'constructors of the classes in fes::wave')])

p('P04', 'Nodal amplitude factor f follows the documented formula of each constituent',
  'For every constituent and every set of astronomical angles, the nodal amplitude factor f equals the Schureman formula documented for that constituent (a function of I, xi, nu, p and 1/Ra, or products and powers of the factors of M2, K1, K2 and O1), and is exactly 1 for purely solar constituents.',
  ['inputs'], 'all 75 constituents; all values of I, xi, nu, p, 1/Ra in their ranges',
  'The tests evaluate each factor at one point where I, xi, nu and p are all equal to one radian.',
  ['include/fes/wave.hpp', 'include/fes/angle/astronomic.hpp'], [('node factors', 'include/fes/angle/astronomic.hpp f_*()'), ('nodal_a', 'include/fes/wave.hpp Wave::nodal_a')])

p('P05', 'Frequency, period and Doodson number agree with the constituent argument',
  'For every constituent the frequency is the rate of change of its documented argument V (radians per hour, from the mean speeds of T, s, h, p and p1), the period is one turn divided by that frequency, and the Doodson number is the six-symbol code of the same integer coefficients (raw T, the others shifted by five, with * X E T for -1, 10, 11 and 12). '
  'The list of constituents selected for a harmonic analysis contains exactly the constituents whose period is shorter than the given multiple of the series duration.',
  ['inputs'], 'all 75 constituents; all durations and multiples',
  'The tests compare some frequencies to 1e-8 and a few Doodson numbers; waves selected for an arbitrary duration are not covered.',
  ['include/fes/wave.hpp', 'src/library/wave.cpp', 'src/library/wave/table.cpp', 'include/fes/detail/angle/astronomic/frequency.hpp', 'include/fes/detail/angle/astronomic/speed.hpp'],
  [('frequency', 'include/fes/wave.hpp Wave::frequency'), ('doodson_number', 'src/library/wave.cpp'), ('select_waves_for_analysis', 'src/library/wave/table.cpp')])

p('P06', 'Astronomical angles follow the selected theory at every date',
  'For every date and leap-second count, T, s, h, p, N and p1 are the documented polynomials of time of the chosen theory (Schureman first order, Schureman, Meeus with dynamical-time correction), converted to radians and reduced to one turn: s, h, p, N, p1 in [0, 2 pi) and T in [-pi, pi]. '
  'The derived quantities I, xi, nu, 1/Ra, R, nu-prime and nu-second are the documented Schureman functions of N, p and I, with xi on the continuous branch. '
  'An unknown theory is rejected.',
  ['inputs'], 'all dates (epoch seconds in a range of +/- 10^11), all leap-second counts, the three theories',
  'The tests check one or two dates per theory; dates before 1970, the branch N>pi and the leap-second dependence are not sampled.',
  ['include/fes/angle/astronomic.hpp', 'include/fes/detail/math.hpp'], [('update', 'include/fes/angle/astronomic.hpp Astronomic::update'), ('theories', 'schureman_order1, schureman_order3, meeus')])

p('P07', 'Angle and number helpers satisfy their mathematical contracts',
  'For every angle, reduction to an interval returns a congruent value inside [min, min+circle); sine, cosine and both together of an angle in degrees equal the true sine and cosine in every quadrant, positive or negative; degree/radian conversions are inverse; the integer and floating remainders have the sign of the divisor and are congruent. '
  'Polynomial evaluation, degree-minute-second conversion, integer powers and tolerance comparisons return their mathematical value.',
  ['inputs'], 'all finite arguments',
  'The tests sample a handful of angles and coefficients.',
  ['include/fes/detail/math.hpp'], [('normalize_angle', 'include/fes/detail/math.hpp'), ('sind/cosd/sincosd', 'include/fes/detail/math.hpp'), ('horner', 'include/fes/detail/math.hpp'), ('remainder', 'include/fes/detail/math.hpp')])

p('P08', 'Geographic points convert to WGS84 Earth-centred coordinates',
  'For every longitude and latitude the Earth-centred position is the WGS84 ellipsoid point at height zero: x, y, z equal the documented functions of the sines and cosines of latitude and longitude, so the point lies on the ellipsoid. '
  'The conversion is unchanged when a whole turn is added to the longitude.',
  ['inputs'], 'all longitudes and latitudes',
  'The tests convert a few points.',
  ['include/fes/geometry/point.hpp', 'include/fes/geometry/ecef.hpp'], [('conversion operator', 'include/fes/geometry/point.hpp Point::operator EarthCenteredEarthFixed')])

p('P09', 'An axis represents exactly the evenly spaced points it was built from',
  'Building an axis from points that are evenly spaced within tolerance (for a circular axis: after undoing one 360-degree jump) yields an axis whose size, first value, step, direction and limits are those of the points, value k of the axis is first + k*step, and the axis is circular exactly when circularity was requested and size*|step| is 360 within tolerance. '
  'Fewer than two points, constant points or unevenly spaced points are rejected with an invalid-argument error, and reading a value outside [0, size) with an out-of-range error.',
  ['inputs'], 'all vectors of points (ascending, descending, crossing the antimeridian, uneven), all tolerances',
  'The tests build fixed ascending/descending examples.',
  ['include/fes/axis.hpp', 'src/library/axis.cpp'], [('constructor', 'include/fes/axis.hpp Axis::Axis'), ('is_evenly_spaced, normalize_longitude, initialize', 'src/library/axis.cpp')])

p('P10', 'Locating a coordinate on an axis finds the nearest and the bracketing points',
  'For every coordinate, the nearest-index search returns an index whose axis value is at most half a step away (modulo 360 degrees on a circular axis), or, outside the axis, "none" (or the nearest end in bounded mode). '
  'The bracketing search returns two adjacent, in-range indices whose values enclose the coordinate, the first value being the lower one when the coordinate is strictly between two points, and returns nothing exactly when the coordinate is outside the domain of a non-circular axis. '
  'On a circular axis every longitude is bracketed, the last and the first points being adjacent, and adding whole turns to the longitude changes nothing.',
  ['inputs'], 'all axes (ascending, descending, circular or not, any size, start and step) and all finite coordinates',
  'The tests query three axes at a few coordinates; descending circular axes and the wrap interval between last and first point are not covered.',
  ['include/fes/axis.hpp', 'src/library/axis.cpp'], [('find_index', 'include/fes/axis.hpp'), ('find_indices', 'src/library/axis.cpp'), ('normalize_coordinate', 'include/fes/axis.hpp')])

p('P11', 'Serialized axes, meshes and models are restored exactly',
  'Restoring the serialized state of an axis, a mesh index, a gridded model or a finite-element model gives an object equal to the original: same geometry and flags, same tide type, same constituents with bit-identical values, and therefore the same answers to every later operation, including adding further constituents.',
  ['inputs', 'histories'], 'all axes, meshes and models, then any later use of the restored object',
  'The tests round-trip one object per class and compare a few accessors; fields used only by later operations are not compared.',
  ['src/library/axis.cpp', 'src/library/mesh/index.cpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/tidal_model/lgp.hpp', 'include/fes/detail/serialize.hpp', 'include/fes/detail/isviewstream.hpp'],
  [('getstate/setstate', 'Axis, mesh::Index, Cartesian, LGP1, LGP2'), ('encoders', 'include/fes/detail/serialize.hpp')])

p('P12', 'Malformed serialized states are rejected without touching foreign memory',
  'Restoring an axis, a mesh index or a model from a truncated or corrupted byte string either fails with an exception of the documented kind or yields a well-formed object; it never reads outside the given bytes and never writes outside its own objects.',
  ['inputs', 'fault_sequences'], 'every prefix of a valid state and every corruption of its length fields',
  'The tests try one invalid string; memory safety over all byte strings is out of their reach.',
  ['include/fes/detail/isviewstream.hpp', 'include/fes/detail/serialize.hpp', 'src/library/axis.cpp', 'src/library/mesh/index.cpp', 'include/fes/tidal_model/cartesian.hpp', 'include/fes/tidal_model/lgp.hpp'],
  [('bounds', 'include/fes/detail/isviewstream.hpp readview/seekoff'), ('matrix reader', 'include/fes/detail/serialize.hpp read_matrix')])

p('P13', 'Grid interpolation is bilinear, skips undefined samples and flags its quality',
  'At every position inside the grid, each constituent value is the bilinear interpolation of the four surrounding grid samples of that constituent, whatever the storage order of the grid; samples that are undefined (NaN) are left out and the weights of the others renormalised, and the value is undefined when none remains. '
  'The quality flag states how many samples were used (4 interpolated, 3, 2, 1 extrapolated, 0 undefined), and positions outside the grid yield undefined values and quality for every constituent. '
  'On a circular longitude axis the answer does not change when whole turns are added to the longitude.',
  ['inputs'], 'all grids (any axes, storage order, values including NaN patterns) and all positions',
  'The tests interpolate two positions of one small grid.',
  ['include/fes/tidal_model/cartesian.hpp', 'include/fes/detail/grid.hpp', 'include/fes/detail/math.hpp'],
  [('interpolate', 'include/fes/tidal_model/cartesian.hpp'), ('bilinear_weights/bilinear_interpolation', 'include/fes/detail/math.hpp'), ('storage order', 'include/fes/detail/grid.hpp')])

p('P14', 'Finite-element interpolation is the exact LGP interpolant on its triangle',
  'Inside a mesh triangle the interpolated value is the first- or second-order Lagrange combination of the values attached to that triangle: weights sum to one, the value at a node is the nodal value, and linear (second order: quadratic) fields are reproduced exactly, whatever the orientation of the triangle or a 360-degree shift of the longitude. '
  'At a position identified with a vertex the value attached to that vertex is returned; when no triangle is found the values are undefined and so is the quality. '
  'A model rejects negative codes, a number of code rows different from the number of triangles, and constituents whose number of values does not match its codes, and reads no value outside those it was given.',
  ['inputs'], 'all triangles, all positions in them, all nodal values and codes, both orders',
  'The tests interpolate one position on one mesh per order.',
  ['include/fes/tidal_model/lgp.hpp', 'include/fes/geometry/triangle.hpp', 'src/library/geometry/triangle.cpp'],
  [('calculate_beta', 'include/fes/tidal_model/lgp.hpp'), ('interpolate', 'include/fes/tidal_model/lgp.hpp'), ('reference_right_angled', 'src/library/geometry/triangle.cpp')])

p('P15', 'Mesh triangles are validated and located correctly',
  'A mesh is accepted only if coordinates have equal length, there is at least one triangle and every vertex number is in range; longitudes are kept as the same meridians reduced to [-180, 180). '
  'A search returns either a triangle of the mesh built from its own vertices that contains the position (the position itself being kept), or, within the requested distance, the nearest examined triangle with the projection of the position on it, or nothing.',
  ['inputs'], 'all meshes and positions, any maximum distance',
  'The tests search one mesh.',
  ['src/library/mesh/index.cpp', 'include/fes/mesh/index.hpp'], [('constructor, sanity_check', 'src/library/mesh/index.cpp'), ('search', 'src/library/mesh/index.cpp'), ('build_triangle', 'include/fes/mesh/index.hpp')])

p('P16', 'The predicted tide is the harmonic sum over the active constituents',
  'For every date, position and model, the short-period height is the sum over active short-period constituents of f*(Re*cos(V+u) + Im*sin(V+u)) with the interpolated or admittance-inferred amplitude, and the long-period height is the same sum over active long-period constituents plus, for an ocean tide only, the long-period equilibrium tide of the constituents not provided. '
  'Where the model is undefined the short-period height is NaN, the long-period height is the equilibrium tide alone, and the quality is undefined; otherwise the quality is the one of the interpolation. '
  'Inputs of different lengths are rejected with an invalid-argument error.',
  ['inputs', 'configurations'], 'all dates, positions, models (any constituents, values, dynamic list) and tide types',
  'Only the Python tests compare with reference series; no C++ test evaluates a prediction, and none can sum over all states.',
  ['include/fes/tide.hpp', 'include/fes/abstract_tidal_model.hpp', 'include/fes/wave/table.hpp'],
  [('evaluate_tide', 'include/fes/tide.hpp detail::evaluate_tide and evaluate_tide'), ('interpolate into the table', 'include/fes/abstract_tidal_model.hpp')])

p('P17', 'Model, dynamic and excluded lists decide which constituents are active',
  'A constituent takes part in a prediction exactly when it is provided by the model and not excluded, or listed as dynamic, or inferred by admittance; provided or dynamic constituents are never overwritten by admittance, and excluded ones are treated as if the model did not provide them for activation, admittance and the equilibrium tide.',
  ['configurations'], 'all sets of provided, dynamic and excluded constituents',
  'No C++ test varies these lists.',
  ['include/fes/tide.hpp', 'include/fes/settings.hpp', 'include/fes/abstract_tidal_model.hpp'], [('build_wave_table', 'include/fes/tide.hpp'), ('settings', 'include/fes/settings.hpp')])

p('P18', 'Parallel evaluation covers every item exactly once for any thread count',
  'For every number of items (including none) and every requested number of threads (including automatic), the work is split into contiguous, disjoint ranges that cover all items exactly once, never more ranges than items, and a single thread runs in the caller. '
  'If a worker fails, all workers are still awaited and one of the failures is reported to the caller. '
  'Results of a prediction therefore do not depend on the number of threads.',
  ['inputs', 'schedules'], 'all sizes and thread counts; workers that fail or not',
  'The tests run one size with a few thread counts.',
  ['include/fes/detail/thread.hpp', 'include/fes/tide.hpp', 'src/library/wave/table.cpp'], [('parallel_for', 'include/fes/detail/thread.hpp')])

p('P19', 'Long-period equilibrium tide is the documented spectral sum',
  'For every date and latitude the equilibrium long-period tide equals (1-h2+k2)*c20(latitude)*sum of the order-2 lines (cosines) + (1-h3+k3)*c30(latitude)*sum of the order-3 lines (sines) over the published Cartwright-Tayler-Edden lines, with the mass-conserving latitude functions, in centimetres.',
  ['inputs'], 'all astronomical angles and latitudes',
  'The tests evaluate a single date at latitude 1 degree, where the 123 lines cannot be told apart.',
  ['src/library/wave/long_period_equilibrium.cpp', 'include/fes/wave/long_period_equilibrium.hpp'], [('lpe_minus_n_waves', 'src/library/wave/long_period_equilibrium.cpp'), ('line tables', 'LongPeriodEquilibrium::LongPeriodEquilibrium')])

p('P20', 'Dynamic constituents remove exactly their own equilibrium lines',
  'For every combination of dynamically provided long-period constituents, the equilibrium tide equals the full sum minus exactly the lines attributed to those constituents (Mm, Mf, Mtm, Msqm, Ssa, Sa1, Sta, Mm1, Mf1, A5, Mm2, Mf2); constituents that are not long-period lines of this list remove nothing.',
  ['configurations', 'inputs'], 'all subsets of dynamic constituents, all dates and latitudes',
  'The tests switch groups of five constituents together at one date.',
  ['src/library/wave/long_period_equilibrium.cpp'], [('disable_dynamic_wave', 'src/library/wave/long_period_equilibrium.cpp')])

p('P21', 'Admittance infers only inferable constituents with the published coefficients',
  'After inference by admittance, every constituent flagged as inferred has the published linear combination of the complex amplitudes of its parents (Q1, O1, K1 for diurnals; N2, M2, K2 and the inferred or provided 2N2 for semidiurnals); every other constituent keeps its amplitude.',
  ['inputs', 'configurations'], 'all complex amplitudes of the parents and all settings of the inference flags',
  'The test infers once from fixed amplitudes.',
  ['src/library/wave/table.cpp'], [('admittance', 'src/library/wave/table.cpp Table::admittance')])

p('P22', 'Tide series and maps computed from harmonic constants equal the harmonic sum',
  'The tide of a series is, at each date, the sum over the table of f*(Re*cos(V+u) + Im*sin(V+u)) with the constants supplied; the map form gives, per position and constituent, the corresponding term; the nodal modulations are f and V+u per constituent and date. '
  'Constants whose number does not match the table, and date vectors of different lengths, are rejected with an invalid-argument error.',
  ['inputs'], 'all dates, constants, theories and tables (complete or partial)',
  'No C++ test calls these functions.',
  ['src/library/wave/table.cpp', 'include/fes/detail/broadcast.hpp'], [('tide_from_tide_series', 'src/library/wave/table.cpp'), ('tide_from_mapping', 'src/library/wave/table.cpp'), ('compute_nodal_modulations', 'src/library/wave/table.cpp')])

p('P23', 'Computations never modify the wave table they are called on',
  'Computing a tide series, a tide map or nodal modulations leaves the properties of the waves of the table (nodal factors, phases, amplitudes, flags) as they were, and a copy of a table can be changed without changing the original.',
  ['histories'], 'all tables and all sequences of computations',
  'No test looks at the table after such a computation.',
  ['src/library/wave/table.cpp', 'include/fes/wave/table.hpp'], [('working copy', 'src/library/wave/table.cpp "auto wt = Table(*this)"')])

p('P24', 'Harmonic analysis returns least-squares constants and propagates undefined data',
  'For every sea-level series, nodal factors and phases, the constants returned satisfy the normal equations of the least-squares fit of sum f*(a*cos(vu) + b*sin(vu)), so a series synthesised from known constants with independent constituents returns them. '
  'If any observation is NaN all constants are NaN; matrices whose shapes do not match are rejected with an invalid-argument error.',
  ['inputs'], 'all series, factors and phases',
  'Only the Python tests run one analysis.',
  ['src/library/wave/table.cpp', 'include/fes/detail/broadcast.hpp'], [('harmonic_analysis', 'src/library/wave/table.cpp')])

p('P25', 'Astronomical angles are reused only within the time tolerance',
  'Successive requests for astronomical angles return the angles of the requested date whenever it differs by more than the tolerance from the date of the angles held, and otherwise the angles of a date within the tolerance; with a zero tolerance each date gets its own angles. '
  'Clearing or filling interpolated values never changes the angles.',
  ['histories'], 'all sequences of dates and tolerances',
  'No test exercises the cache.',
  ['include/fes/abstract_tidal_model.hpp'], [('calculate_angle', 'include/fes/abstract_tidal_model.hpp Accelerator::calculate_angle')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
