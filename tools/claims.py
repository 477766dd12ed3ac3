CLAIMS = {
 'P01': ('@AI for the size dispatch and table copy, then arithmetic analysis of the constant tables (spherical-harmonic moments of the static data)',
         'All 231 (family, size) pairs: count, norms, weight sum and every harmonic up to the advertised order, computed from the constant tables reached by the dispatch. @TRUSTTolerances are tabulation accuracy (see DESIGN.md).'),
 'P02': ('@AI: look-up functions over a symbolic integer argument', 'Every integer argument is covered by finitely many cells; pairs compared with an independent reference table. @TRUST'),
 'P03': ('@AI: path enumeration of the size dispatch, unadvertised sizes must only reach throwing paths', 'All integer sizes, four families, four construction routes. @TRUST'),
 'P04': ('@AI with value numbering against the defining closed forms', 'All sizes and slots symbolically; terms compared with the oracle at random points of each cell (random interpretation, 50 digits). @TRUST'),
 'P05': ('@AI with fixpoint terms for the Newton iteration, compared with the theory by random interpretation', 'All sizes and slots symbolically; the iteration is summarised as a convergence-guarded fixpoint, evaluated in 50-digit arithmetic at random (n, slot). @TRUST'),
 'P06': ('@AI with value numbering against published transformations and their derivatives', 'All sizes, slots, scales and exponents symbolically. @TRUST'),
 'P07': ('@AI with value numbering: symbolic sizes, slots and uninterpreted rule contents', 'All radial and angular sizes, contents and centres symbolically. @TRUST'),
 'P08': ('@AI with value numbering: symbolic region lengths, angular sizes and slots', 'All region lengths and angular sizes symbolically, for up to 4 (quick) or 5 (thorough) regions; the region loop is iterated concretely, everything inside is symbolic. @TRUST'),
 'P09': ('@AI with value numbering, including partially coinciding centres', 'All sizes, contents and centres symbolically; sequences of one and two recentrings, self-recentring, via base class and via clone. @TRUST'),
 'P10': ('@AI over a symbolic number of shells and angular size; grids built through the factory for the small shell counts', 'Region lists: every n >= 1 and every supported size of every family, for robust, Treutler and trivial scheme, through the dispatcher and directly. Building: n = 1..7 (quick) through the public factory; larger n follow from the tiling decided here plus P08 and P11. @TRUST'),
 'P11': ('@AI with value numbering: the factory result against direct construction of the named types', 'Every 32-bit scheme value, all sizes, parameters, region lengths (0..3 regions, empty ones included) and slots symbolically; the base rules are uninterpreted, so the correspondence is decided for whatever they contain. Every refusal is a path that must end in an exception. @TRUST'),
 'P12': ('@AI with byte-valued symbols and path enumeration over all strings', 'Every string of symbolic length and content; only the documented names (case-insensitively) reach a normal return. @TRUST'),
 'P13': ('@AI with an explicit heap: aliasing of copies through symbolic writes, object identity and content terms; path enumeration of the equalities', 'Rules, product and pruned grids, partitions (two regions), batched grids (three batches), parameter sets and specifications (up to two regions); sizes, contents, written slot and value symbolic. @TRUST'),
 'P15': ('@AI with symbolic batch boundaries; the searches evaluated with the comparator found in the code', 'Grids with 1..4 batches at symbolic boundaries, uninterpreted contents, every way of reaching a batch (mutable and const iterators, at), after recentring, cloning, moving and writing through the batcher; corners compared with the extremes over the range at random interpretations. std::minmax_element and friends are modelled by their specification. @TRUST'),
 'P16': ('custom clang AST plugin listing all static/thread storage, call-graph effect analysis on the compiler IR of the library and of drivers instantiating it, and @AI for unchanged arguments', 'All variables of static storage in the headers and sources (templates as written); every external function reachable from any public entry is classified as pure, allocation or error path; an unclassified one gives no answer. Dependence on pointer values is not tracked. @TRUST'),
 'P17': ('linkage and one-definition analysis: stand-alone compilation of every header, symbol linkage composed over both configurations, comparison of normalised compiler IR between units, clang AST plugin for declared entry points', 'Every header except the internal per-size tables; both configurations with two users including all headers in opposite orders; every library function emitted by more than one unit compared. Functions are compared without exception-handling blocks (their layout depends on inclusion order). Trusted: clang++-18 and g++-13 front ends.'),
 'P18': ('@AI with extents of every heap and stack object; path enumeration over all 64-bit indices', 'Accessors for every index; every load, store and copy of construction, product, pruning (1..3 regions quick, 4 thorough), sub-range, recentring and batch traversal checked against the extent of the object addressed, sizes symbolic. Bounds are per object; the octree subdivision itself (generate_batches) is P14. @TRUST'),
 'P19': ('@AI with value numbering against the documented mappings and their derivatives', 'All six interval kinds with symbolic ends, node and weight; evaluated at random interpretations. @TRUST'),
 'P20': ('@AI of traversal drivers plus compile witnesses for the advertised iterator operations', 'Partitions with 1..4 regions and batched grids with 1..4 batches at symbolic boundaries; every traversal form must visit the same elements; every iterator operation documented by the interface must compile on its iterator type. @TRUST'),
}
NA = {
 'P21': 'Convergence of the integral of an arbitrary smooth function is an analytic limit statement about a function the code never sees; no static argument over the source bounds it. Its static ingredients (exactness order, change of variable, product and pruning structure) are P01, P04-P08.',
 'P22': 'A few-ulp bound at every size needs a rounding-error analysis of trigonometric library calls and of a Newton iteration over unbounded n; no sound static bound in reach. The rules are decided in real arithmetic by P04-P06 instead.',
 'P23': 'Termination depends on run-time coordinates: coincident points exceeding the maximum batch size cannot be separated by halving boxes, and for distinct points the bound is on floating-point distances that no static analysis of this source can bound.',
}
