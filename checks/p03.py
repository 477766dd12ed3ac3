from s2lib import *
C = Check('P03', rule='every integer size outside the advertised set reaches only throwing paths, for direct construction and for each run-time factory')
FAC = '''
#include <integratorxx/generators/impl/impl.hpp>
#include <integratorxx/quadratures/s2.hpp>
using namespace IntegratorXX;
extern "C" void sink_made(size_t, size_t);
'''
for f in FAM: FAC += f'''
extern "C" void drv_fac_{f}(size_t n){{ auto q = S2Factory::generate(AngularQuad::{f}, n); sink_made(q->points().size(), q->weights().size()); }}
extern "C" void drv_unp_{f}(size_t n){{ BeckeRadialTraits t(2, 1.0); auto q = SphericalGridFactory::generate_unpruned_grid(RadialQuad::Becke, t, AngularQuad::{f}, n); sink_made(q->points().size(), q->weights().size()); }}
extern "C" void drv_pru_{f}(size_t n){{ BeckeRadialTraits t(2, 1.0); std::vector<PruningRegion> r = {{ PruningRegion{{0, 2, AngularQuad::{f}, n}} }}; auto q = SphericalGridFactory::generate_pruned_grid(RadialQuad::Becke, t, r); sink_made(q->points().size(), q->weights().size()); }}
'''
def run(C):
    mods = C.modules([(f, HEAD + src_gen(f) + src_look(f)) for f in FAM] + [('fac', FAC, dict(cap=4000))])
    for f in FAM:
        adv = set()
        for c, I, v in lookup(C, mods[f], 'drv_order_' + f):
            if isinstance(v, int) and v >= 0:
                x = fixed(c, 'x')
                if x is None: raise Unknown(f'{f}: order look-up not pointwise')
                adv.add(x)
        if not adv: raise CheckError('no advertised size')
        routes = [('constructor', mods[f], 'drv_gen_' + f), ('run-time angular factory', mods['fac'], 'drv_fac_' + f), ('unpruned spherical factory', mods['fac'], 'drv_unp_' + f), ('pruned spherical factory', mods['fac'], 'drv_pru_' + f)]
        for label, mod, fn in routes:
            def body(I, cell, S):
                def irrelevant():
                    if fixed(cell, 'n') in adv: raise Abort('advertised')
                I.atloop = irrelevant
                try: I.call(fn, [S['n']])
                except Unknown:
                    if fixed(cell, 'n') in adv: return 'advertised'
                    raise
                return 'made'
            ncell = 0
            for c, I, r in C.explore(mod, fn, body, roots=[('n', 0, BIG)], maxcells=40000):
                ncell += 1
                n = fixed(c, 'n')
                if n in adv: continue
                if n is None:
                    s = None
                    for _ in range(20):
                        e = c.sample(C.rng, big=20000)
                        if e is not None and e['n'] not in adv: s = e['n']; break
                    if s is None: continue
                else: s = n
                if isinstance(r, Abort) and r.kind == 'throw': C.ok()
                elif isinstance(r, Abort): C.violation('throws', f'{f} {label} {r.kind}', f'{f}: {label} with unsupported size {s} ends in {describe_abort(r)} instead of an exception', r.loc)
                else: C.violation('throws', f'{f} {label}', f'{f}: {label} accepts the unsupported size {s} (sizes {c.base})', 'include/integratorxx/quadratures/' + FAM[f][0])
            C.samples.append(f'{f} {label}: {ncell} size cells, {len(adv)} advertised sizes')
    C.finish('For a symbolic size over all integers, every path of the dispatch of each family (constructor and the three run-time factory routes) is enumerated by trace partitioning; each cell that contains an unadvertised size must end in a throw.')
if __name__ == '__main__': main(C, run)
