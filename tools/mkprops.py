#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
B = 'include/integratorxx/'
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

prop('P01', 'Angular grids integrate exactly to their advertised algebraic order',
 'For every supported size of each of the four angular families (Ahrens-Beylkin, Delley, Lebedev-Laikov, Womersley), the constructed grid has that many points, all on the unit sphere, with weights summing to 4*pi, and integrates every spherical harmonic up to the algebraic order the library advertises for that size. '
 'This holds to tabulation accuracy for every size, not only for small ones.',
 ['inputs', 'configurations'], 'All 231 supported (family, size) pairs and, for each, every spherical harmonic (l,m) with l up to the advertised order.',
 'The tests integrate harmonics below l=10 on three sizes per family; a wrong digit, a swapped file, a wrong multiplicity or a wrong scale in any other table, or an error visible only at high degree, passes.',
 [B+'quadratures/s2/ahrens_beylkin.hpp', B+'quadratures/s2/delley.hpp', B+'quadratures/s2/lebedev_laikov.hpp', B+'quadratures/s2/womersley.hpp', B+'quadratures/s2/womersley/womersley_grids.hpp', B+'util/copy_grid.hpp'],
 [('size dispatch to constant tables', 'quadrature_traits<...>::generate in each s2 header'), ('table copy and 4*pi scaling', B+'util/copy_grid.hpp detail::copy_grid and the s2 generate functions'), ('constant point/weight tables', B+'quadratures/s2/*/')],
 observe=['points()/weights() of a constructed angular grid'])

prop('P02', 'Angular size/order look-ups are complete, consistent and rounded upwards',
 'For each angular family, size-from-order and order-from-size are mutually inverse on exactly the supported pairs and signal "unsupported" (a negative value) for every other integer. '
 'The next-order look-up returns, for every requested order not above the largest supported one, the smallest supported order that is at least the request, and never returns an order the family does not support.',
 ['inputs'], 'All integer orders and sizes, for the four families.',
 'The tests call the look-ups on a couple of values per family; the tables have 56, 18, 32 and 125 entries and the rounding rule is a statement about every integer.',
 [B+'quadratures/s2/ahrens_beylkin.hpp', B+'quadratures/s2/delley.hpp', B+'quadratures/s2/lebedev_laikov.hpp', B+'quadratures/s2/womersley.hpp'],
 [('npts_by_algebraic_order / algebraic_order_by_npts / next_algebraic_order', 'quadrature_traits of each s2 family')],
 observe=['return values of the three look-ups'])

prop('P03', 'Unsupported angular sizes are refused',
 'Constructing an angular grid of any family, directly or through any run-time factory, with a number of points the family does not support fails with an exception. '
 'It never yields a grid (in particular not one with uninitialised or all-zero points or weights).',
 ['inputs'], 'Every size_t that is not a supported size, for the four families and the run-time factories.',
 'Testing samples sizes; the guarantee is about every unsupported integer and every construction route, and the present tests never construct an unsupported size.',
 [B+'quadratures/s2/ahrens_beylkin.hpp', B+'quadratures/s2/delley.hpp', B+'quadratures/s2/lebedev_laikov.hpp', B+'quadratures/s2/womersley.hpp', B+'quadratures/s2/womersley/womersley_grids.hpp', B+'generators/impl/s2_factory.hpp', B+'generators/impl/unpruned_grid.hpp', B+'generators/impl/pruned_grid.hpp'],
 [('final else of the size dispatch', 'generate() of each s2 family')], observe=['exception or returned grid'])

prop('P04', 'Closed-form primitive rules follow their defining formulas at every size',
 'For every number of points, the three Gauss-Chebyshev rules, the modified second-kind Gauss-Chebyshev rule and the uniform trapezoid rule return exactly that many nodes in ascending order, and every node and weight equals the defining closed form of the rule (for Chebyshev rules with the weight function divided out, so that the rule integrates plain functions; the trapezoid rule with end weights halved, on the requested interval). '
 'This includes the first, last and middle node, odd and even sizes and small and large sizes.',
 ['inputs'], 'All sizes n >= 1 (n >= 2 for the trapezoid rule), all node indices, all trapezoid intervals.',
 'The tests compare tabulated values for a few sizes up to about 100 and integrate Gaussians at one size; no test reaches an arbitrary n or index.',
 [B+'quadratures/primitive/gausschebyshev1.hpp', B+'quadratures/primitive/gausschebyshev2.hpp', B+'quadratures/primitive/gausschebyshev2modified.hpp', B+'quadratures/primitive/gausschebyshev3.hpp', B+'quadratures/primitive/uniform.hpp'],
 [('node/weight loops', 'quadrature_traits<...>::generate of each rule')], observe=['points()/weights()'])

prop('P05', 'Gauss-Legendre and Gauss-Lobatto nodes and weights are what the theory says',
 'For every size, each Gauss-Legendre node is the result of a convergence-controlled Newton iteration on the Legendre polynomial of degree n started at the documented guess, with weight 2/((1-x^2)P_n\'(x)^2); each interior Gauss-Lobatto node likewise for the derivative of the Legendre polynomial of degree n-1 with weight 2/(n(n-1)P_{n-1}(x)^2), and the end nodes are -1 and +1. '
 'Nodes and weights are mirror-symmetric about zero, every slot is filled, the polynomial values used are those of the three-term recurrence, and an iteration that does not converge is reported by an exception rather than returned.',
 ['inputs'], 'All sizes n >= 1 (n >= 2 for Lobatto) and all node indices.',
 'The tests compare tables at some sizes up to 100; recurrence, symmetry filling, the middle node and the convergence test are universally quantified over n and the non-convergence path is never exercised.',
 [B+'quadratures/primitive/gausslegendre.hpp', B+'quadratures/primitive/gausslobatto.hpp', B+'util/legendre.hpp'],
 [('Newton iteration', 'generate() of both rules'), ('Legendre recurrence', B+'util/legendre.hpp eval_Pn')], observe=['points()/weights()', 'exception on non-convergence'])

prop('P06', 'Radial quadratures are exact changes of variable',
 'For every size, scale and exponent, each radial quadrature (Becke, Murray-Handy-Laming, Mura-Knowles, Treutler-Ahlrichs) has exactly the requested number of points, and point i is its published transformation of the i-th node of its underlying rule while weight i is the underlying weight times the derivative of that same transformation at that node. '
 'End points of end-point-inclusive underlying rules, where the transformation is singular, are excluded, and the volume factor r^2 is not included.',
 ['inputs'], 'All sizes n >= 1, all node indices, all positive scales R and all exponents alpha.',
 'The tests check convergence of one Gaussian integral at one size per scheme (with default or single parameters); parameters, end-point handling and the node-to-derivative correspondence are universally quantified.',
 [B+'quadratures/radial/radial_transform.hpp', B+'quadratures/radial/becke.hpp', B+'quadratures/radial/mhl.hpp', B+'quadratures/radial/muraknowles.hpp', B+'quadratures/radial/treutlerahlrichs.hpp'],
 [('change of variable', B+'quadratures/radial/radial_transform.hpp generate'), ('transformation and Jacobian', 'radial_transform / radial_jacobian of the four traits classes')], observe=['points()/weights()'])

prop('P07', 'Spherical product grids are the full outer product with the r^2 weight',
 'An unpruned spherical grid built from any radial rule and any angular rule has one point for every (radial, angular) pair, radial index running fastest, located at centre + r*a, with weight w_r * w_a * r^2. '
 'No pair is missing, duplicated or weighted with another pair\'s data, whatever the two sizes, contents and centre.',
 ['inputs'], 'All radial and angular sizes, contents, index pairs and centres.',
 'The tests compare a few fixed grids against the same loop; index arithmetic over arbitrary sizes and contents is not reached.',
 [B+'composite_quadratures/product_quadrature.hpp', B+'composite_quadratures/spherical_quadrature.hpp'],
 [('product loop', 'quadrature_traits<ProductQuadrature>::generate'), ('r^2 factor and shift', 'quadrature_traits<SphericalQuadrature>::generate')], observe=['points()/weights()/npts()/center()'])

prop('P08', 'Pruned grids cover each radial shell once, with its own region\'s angular grid',
 'A pruned spherical grid built from a radial rule and a partition of its shells contains, for each region in order, exactly the product of that region\'s shells with that region\'s angular rule (weights w_r * w_a * r^2, points at centre + r*a). '
 'Every shell appears in exactly one region, for any number of regions, region boundaries and angular sizes, and with a single region the grid equals the unpruned one.',
 ['inputs'], 'All radial sizes, all increasing partitions, all angular sizes and contents.',
 'The tests use one radial size and one three-region partition.',
 [B+'composite_quadratures/pruned_spherical_quadrature.hpp', B+'composite_quadratures/sub_quadrature.hpp', B+'generators/impl/pruned_grid.hpp'],
 [('region iteration and concatenation', 'quadrature_traits<PrunedSphericalQuadrature>::generate'), ('radial slice', B+'composite_quadratures/sub_quadrature.hpp'), ('partition bookkeeping', 'RadialGridPartition::add_quad/finalize/begin/end')],
 [('partition boundaries', 'start index of each region followed by the number of shells', 'RadialGridPartition'), ('per-region angular rules', 'same length as the regions', 'RadialGridPartition')], observe=['points()/weights()'])

prop('P09', 'Recentring is a rigid translation and nothing else',
 'Recentring a spherical grid (pruned or not, of any origin) to a new centre moves every point by exactly the difference between the new and the old centre and makes the new centre the reported one; weights, point count and order are untouched. '
 'Consequently any history of recentrings is equivalent to the last one, and recentring to the current centre changes nothing.',
 ['inputs', 'histories'], 'All grids, all pairs of old/new centres (including those sharing some coordinates), all sequences of recentrings.',
 'The tests recentre a grid a few times with generic centres; partial-coordinate changes, other grid types and long histories are not reached.',
 [B+'composite_quadratures/spherical_quadrature.hpp', B+'composite_quadratures/pruned_spherical_quadrature.hpp', B+'batch/spherical_micro_batcher.hpp'],
 [('recenter', 'SphericalQuadratureBase::recenter'), ('construction centre', 'constructors of the spherical quadratures')],
 [('centre', 'the centre the points are currently relative to', 'SphericalQuadratureBase')], observe=['points()/weights()/center() after recenter()'])

prop('P10', 'Pruning schemes tile every radial range and pick the documented angular sizes',
 'For every radial size and every supported angular family and size, the robust and Treutler schemes (and the trivial one) produce regions that start at zero, are contiguous, in order and end at the number of radial points, use the requested angular family throughout, keep the requested angular size in the outer region and the documented smaller supported sizes in the inner ones, and leave the radial specification unchanged. '
 'With n shells the robust scheme cuts at n/4+1 and n/2+1 and uses the sizes of the next orders to 7 and to the base order minus 6; the Treutler scheme cuts at n/3+1 and n/2+1 and uses the next orders to 7 and 11. '
 'The resulting specification can always be turned into a grid.',
 ['inputs', 'configurations'], 'All radial sizes n >= 1, all families, all supported angular sizes, all schemes.',
 'The tests use 99 radial points and a single angular size per family.',
 [B+'generators/impl/robust_pruning.hpp', B+'generators/impl/treutler_pruning.hpp', B+'generators/impl/pruned_grid.hpp', B+'generators/spherical_factory.hpp', B+'composite_quadratures/pruned_spherical_quadrature.hpp'],
 [('region boundaries', 'robust_psi4_pruning_scheme_impl / treutler_pruning_scheme_impl / create_pruned_spec'), ('angular sizes', 'get_robust_low_med_sizes / get_treutler_low_med_sizes')], observe=['pruning regions of the specification', 'grid generated from it'])

prop('P11', 'Run-time factories build exactly what is requested',
 'For every radial scheme, angular family and parameters, each run-time factory (radial, angular, spherical unpruned, spherical pruned, and from a specification) returns a grid identical to directly constructing the named types with those parameters. '
 'Requests that do not make sense (unknown scheme values, missing or mismatched parameters, empty or mixed-family pruning regions) fail with an exception.',
 ['inputs', 'configurations'], 'All scheme pairs (4 x 4), all parameter values, all region lists, plus all invalid enumerator values and parameter combinations.',
 'The tests compare only some pairs at one size, and of the refusals only few are exercised.',
 [B+'generators/radial_factory.hpp', B+'generators/s2_factory.hpp', B+'generators/spherical_factory.hpp', B+'generators/impl/radial_factory.hpp', B+'generators/impl/s2_factory.hpp', B+'generators/impl/unpruned_grid.hpp', B+'generators/impl/pruned_grid.hpp', B+'generators/impl/radial_types.hpp', B+'generators/impl/s2_types.hpp'],
 [('enum dispatch', 'switch statements of the factories'), ('traits down-cast', 'radial_traits_cast'), ('traits factory', 'make_radial_traits')], observe=['returned grid or exception'])

prop('P12', 'Scheme names resolve case-insensitively and unknown names are refused',
 'The documented names and abbreviations of the radial and angular schemes resolve to the scheme they name, in any mixture of upper and lower case, and every other string is refused with an exception. '
 'Resolving a scheme from its type agrees with resolving it from its name.',
 ['inputs'], 'All strings; all scheme types.',
 'The tests try each name in two casings and one bad string; near-misses, prefixes, empty and longer strings are not tried.',
 [B+'generators/impl/radial_factory.hpp', B+'generators/impl/s2_factory.hpp', B+'generators/radial_factory.hpp', B+'generators/s2_factory.hpp'],
 [('name chain', 'radial_from_string / angular_from_string'), ('type chain', 'radial_from_type / angular_from_type')], observe=['returned enumerator or exception'])

prop('P13', 'Copies and clones are deep and complete, and equality compares everything',
 'Copying, assigning or cloning any quadrature, parameter set or grid specification (and cloning a batched grid) yields an object with equal content whose later modification does not affect the original, and vice versa. '
 'Two parameter sets (or specifications) compare equal exactly when they are of the same scheme and all their parameters agree.',
 ['inputs', 'histories'], 'All quadrature, traits, partition and specification types, all contents, all later mutations.',
 'The tests copy a few quadratures and compare contents immediately; aliasing after mutation and each field of each equality are not covered.',
 [B+'quadrature.hpp', B+'quadratures/radial/becke.hpp', B+'quadratures/radial/mhl.hpp', B+'quadratures/radial/muraknowles.hpp', B+'quadratures/radial/treutlerahlrichs.hpp', B+'composite_quadratures/spherical_quadrature.hpp', B+'composite_quadratures/pruned_spherical_quadrature.hpp', B+'generators/spherical_factory.hpp', B+'batch/spherical_micro_batcher.hpp'],
 [('copy constructors / clone()', 'every quadrature and traits class'), ('compare / operator==', 'radial traits and specifications')], observe=['copy contents', 'effects of mutation', 'results of =='])

prop('P14', 'Batching is a permutation split into contiguous, bounded batches',
 'Building micro-batches from any spherical grid only reorders (point, weight) pairs: every pair of the original grid appears in exactly one batch, no pair is split, changed, lost or duplicated, batches are contiguous, in order, non-empty, and no batch holds more points than the requested maximum. '
 'Traversing the batches therefore yields the same multiset of pairs as the unbatched grid.',
 ['inputs'], 'All grids, all maximum batch sizes for which the subdivision terminates.',
 'The tests batch one grid with one maximum size and compare total counts and integrals.',
 [B+'batch/spherical_micro_batcher.hpp'],
 [('recursive octree partition', 'detail::partition_box / generate_batches'), ('batch iterator', 'SphericalMicroBatcher::iterator_type')],
 [('partition indices', 'start of every batch plus the number of points', 'SphericalMicroBatcher')], observe=['batches from begin()/end()/at(i), quadrature()'])

prop('P15', 'Each batch reports a box that bounds its points',
 'The lower and upper corners reported with a batch enclose every point of that batch component-wise, are attained by its points (the box is tight), and the points and weights reported with the batch are precisely those of its index range. '
 'This holds for every batch of every grid, also after recentring the batched grid.',
 ['inputs', 'histories'], 'All grids, batches, batch indices and recentring histories.',
 'The tests check the box of the batches of one grid.',
 [B+'batch/spherical_micro_batcher.hpp'],
 [('box computation', 'detail::get_box_bounds_points / iterator dereference')], observe=['dereferenced batch (box_lo, box_up, points, weights, npts)'])

prop('P16', 'Grid construction is a pure, thread-safe function of its arguments',
 'Constructing, copying, batching or querying grids reads and writes no state that outlives the call other than the returned or receiving object: no mutable globals or function-local statics, no clocks, random numbers, environment, files or locale dependence. '
 'Equal arguments therefore give identical grids on every call, in any order and from any number of threads without synchronisation.',
 ['schedules', 'histories'], 'All call sequences, all interleavings of calls from several threads on distinct objects.',
 'Tests run single-threaded, once; hidden static state shows only under particular schedules or histories.',
 [B+'quadrature.hpp', B+'quadratures/all.hpp', B+'generators/spherical_factory.hpp', B+'batch/spherical_micro_batcher.hpp', 'src/radial_factory.cxx', 'src/s2_factory.cxx', 'src/spherical_factory.cxx'],
 [('constant tables', 'static constexpr arrays of the angular grids'), ('value-returning generate functions', 'quadrature_traits<...>::generate')], observe=['call graph effects'])

prop('P17', 'Headers and library combine into one program without definition conflicts',
 'Every public header compiles by itself, and the headers can be included in any number of translation units of one program without multiply-defined or missing entities; the run-time generator definitions come from exactly one unit, either the compiled library or the single unit in which a header-only program includes the implementation header. '
 'Both configurations provide the same set of run-time generator entry points with the same behaviour.',
 ['programs', 'configurations'], 'All programs including any subset of the headers in any number of translation units, in both configurations.',
 'The test programs include the headers in few translation units and never mix or compare the two configurations symbol by symbol.',
 ['include/integratorxx', 'src/CMakeLists.txt', 'src/radial_factory.cxx', 'src/s2_factory.cxx', 'src/spherical_factory.cxx', 'CMakeLists.txt'],
 [('inline/template linkage', 'all headers'), ('single-definition units', 'src/*.cxx including generators/impl/*.hpp')], observe=['symbol linkage of each unit', 'IR of each entry point in both configurations'])

prop('P18', 'Library loops stay inside their storage and indexed accessors check bounds',
 'No construction, pruning, product or recentring code of the library ever reads or writes outside the arrays it works on, for any supported sizes. '
 'The indexed single-point and single-weight accessors and the indexed batch accessor return the element with that index or throw for every index not in range.',
 ['inputs'], 'All sizes and contents for the library loops; all index values for the accessors.',
 'Out-of-bounds accesses at untested sizes need not fail visibly, and no test calls the accessors out of range.',
 [B+'quadrature.hpp', B+'util/copy_grid.hpp', B+'composite_quadratures/product_quadrature.hpp', B+'composite_quadratures/sub_quadrature.hpp', B+'quadratures/primitive/gausslegendre.hpp', B+'quadratures/primitive/gausslobatto.hpp', B+'batch/spherical_micro_batcher.hpp'],
 [('checked element access', 'QuadratureBase::points(i)/weights(i)'), ('loop bounds', 'all generate functions')], observe=['memory accesses of the loops', 'accessor results'])

prop('P19', 'Bound transformations pair every node with its own Jacobian',
 'Mapping a rule on (-1,1) to any finite, half-infinite or doubly infinite interval yields nodes inside that interval that are increasing functions of the original nodes, with each weight multiplied by the (positive) derivative of that mapping at the node. '
 'Mapping to (-1,1) itself leaves the rule unchanged.',
 ['inputs'], 'All intervals (both ends finite or infinite) and all nodes and weights.',
 'No existing test calls these transformations.',
 [B+'util/bound_transform.hpp'], [('interval case distinction', 'transform_minus_one_to_one')], observe=['returned (node, weight)'])

prop('P20', 'Mutable, const and element-wise traversal agree',
 'For partitions and batched grids, iterating through mutable and through const iterators, by increments or by indexed access, visits the same elements in the same order and ends after the same number of steps; begin equals end exactly when there is nothing to visit. '
 'Every advertised iterator operation is usable on the corresponding iterator type and leaves other iterators unchanged.',
 ['inputs', 'programs', 'histories'], 'All partitions and batched grids; all uses of the iterator interface.',
 'The tests only use range-for over mutable objects; unused template members are not even instantiated.',
 [B+'batch/spherical_micro_batcher.hpp', B+'composite_quadratures/pruned_spherical_quadrature.hpp'],
 [('batch iterators', 'SphericalMicroBatcher::begin/end/cbegin/cend/at'), ('partition iterators', 'RadialGridPartition::rgp_iterator')], observe=['visited elements', 'compilability of each operation'])

prop('P21', 'Grids converge: integrals of smooth decaying functions converge with grid size',
 'For every smooth exponentially decaying function the integral over a spherical grid converges to the exact one as the radial and angular sizes grow, at the rate the underlying theory predicts. ',
 ['inputs'], 'All smooth decaying integrands.', 'Tests integrate one Gaussian at fixed sizes.',
 [B+'quadratures/radial.hpp', B+'composite_quadratures/spherical_quadrature.hpp'], [('quadrature theory', 'whole library')])

prop('P22', 'Nodes and weights are accurate to a few units in the last place at every size',
 'Every node and weight of every analytically generated rule differs from the exact value by no more than a few units in the last place, for every size.',
 ['inputs'], 'All sizes.', 'Tests compare with tables at a few sizes with a tolerance.',
 [B+'quadratures/primitive/gausslegendre.hpp', B+'util/legendre.hpp'], [('floating-point evaluation', 'generate functions')])

prop('P23', 'Batching terminates for every grid and maximum batch size',
 'Creating micro-batches returns after finitely many subdivisions for every non-empty grid and every positive maximum batch size.',
 ['inputs'], 'All grids (including ones with coincident points) and maximum batch sizes.', 'Tests batch one grid.',
 [B+'batch/spherical_micro_batcher.hpp'], [('subdivision loop', 'generate_batches')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
for p in P: assert len(p['title']) <= 80, p['title']
print(len(P))
