from s2lib import *
from complib import MOCKFAC
C = Check('P10', rule='for every number of shells and every supported angular size, the regions are [0,c1),[c1,c2),[c2,n) with the documented cuts and sizes; the specification always builds')
SRC = MOCKFAC + '''
extern "C" void sink_h(uint32_t, size_t, size_t, size_t); extern "C" void sink_reg(size_t, size_t, uint32_t, size_t); extern "C" void sink_made(size_t, size_t, size_t);
static void show(const PrunedSphericalGridSpecification& p, const RadialTraits& t){
  sink_h((uint32_t)p.radial_quad, p.radial_traits ? p.radial_traits->npts() : ~0ul, p.radial_traits && p.radial_traits->compare(t), p.pruning_regions.size());
  for(auto& r : p.pruning_regions) sink_reg(r.idx_st, r.idx_en, (uint32_t)r.angular_quad, r.angular_size); }
#define FAMILY(F) \\
extern "C" void drv_rob_##F(uint32_t rq, size_t n, size_t as, double R, double al){ TreutlerAhlrichsRadialTraits t(n, R, al); UnprunedSphericalGridSpecification u((RadialQuad)rq, t, AngularQuad::F, as); show(create_pruned_spec(PruningScheme::Robust, u), t); } \\
extern "C" void drv_tre_##F(uint32_t rq, size_t n, size_t as, double R, double al){ TreutlerAhlrichsRadialTraits t(n, R, al); UnprunedSphericalGridSpecification u((RadialQuad)rq, t, AngularQuad::F, as); show(create_pruned_spec(PruningScheme::Treutler, u), t); } \\
extern "C" void drv_unp_##F(uint32_t rq, size_t n, size_t as, double R, double al){ TreutlerAhlrichsRadialTraits t(n, R, al); UnprunedSphericalGridSpecification u((RadialQuad)rq, t, AngularQuad::F, as); show(create_pruned_spec(PruningScheme::Unpruned, u), t); } \\
extern "C" void drv_drob_##F(uint32_t rq, size_t n, size_t as, double R, double al){ TreutlerAhlrichsRadialTraits t(n, R, al); UnprunedSphericalGridSpecification u((RadialQuad)rq, t, AngularQuad::F, as); show(robust_psi4_pruning_scheme(u), t); } \\
extern "C" void drv_dtre_##F(uint32_t rq, size_t n, size_t as, double R, double al){ TreutlerAhlrichsRadialTraits t(n, R, al); UnprunedSphericalGridSpecification u((RadialQuad)rq, t, AngularQuad::F, as); show(treutler_pruning_scheme(u), t); } \\
extern "C" void drv_made_rob_##F(uint32_t rq, size_t n, size_t as, double R, double al){ BeckeRadialTraits t(n, R); UnprunedSphericalGridSpecification u(RadialQuad::Becke, t, AngularQuad::F, as); auto g = SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Robust, u)); sink_made(g->npts(), g->points().size(), g->weights().size()); } \\
extern "C" void drv_made_tre_##F(uint32_t rq, size_t n, size_t as, double R, double al){ BeckeRadialTraits t(n, R); UnprunedSphericalGridSpecification u(RadialQuad::Becke, t, AngularQuad::F, as); auto g = SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Treutler, u)); sink_made(g->npts(), g->points().size(), g->weights().size()); } \\
extern "C" void drv_made_unp_##F(uint32_t rq, size_t n, size_t as, double R, double al){ BeckeRadialTraits t(n, R); UnprunedSphericalGridSpecification u(RadialQuad::Becke, t, AngularQuad::F, as); auto g = SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Unpruned, u)); sink_made(g->npts(), g->points().size(), g->weights().size()); }
FAMILY(AhrensBeylkin) FAMILY(Delley) FAMILY(LebedevLaikov) FAMILY(Womersley)
'''
ENUM = dict(AhrensBeylkin=0x100, Delley=0x200, LebedevLaikov=0x300, Womersley=0x400)
ORD = {f: {int(o): n for o, n in v.items()} for f, v in json.load(open(os.path.join(ROOT, 'specs', 's2_orders.json'))).items() if f in FAM}   # order -> size
def nxt(f, o): return ORD[f][min(x for x in ORD[f] if x >= o)]
def sizes(f, scheme, a):
    """documented angular size of the (low, medium, outer) region"""
    base = next(o for o, n in ORD[f].items() if n == a)
    if scheme == 'rob': return nxt(f, 7), nxt(f, base - 6 if base > 6 else base), a
    if scheme == 'tre': return nxt(f, 7), nxt(f, 11), a
    return (a,)
CUT = dict(rob=(4, 2), tre=(3, 2), unp=())
def where(mod, fn):
    for b in mod.fns[fn].blocks.values():
        for i in b:
            for file, line, nm in i.get('l') or ():
                if 'prun' in nm or 'prun' in file: return f"{file.split('include/')[-1]}:{line} {nm}"
def run(C):
    mod = C.module('schemes', SRC, cap=4000)
    def regions(f, drv):
            sup = set(ORD[f].values())
            scheme = drv[-3:]; fn = f'drv_{drv}_{f}'
            def body(I, cell, S):
                I.call(fn, [S['rq'], S['n'], S['as']] + [T_('sym', 'R'), T_('sym', 'alpha')])
                g = {}
                for nm, a, snap, i in I.sinks: g.setdefault(nm, []).append(a)
                if len(g.get('sink_h', [])) != 1: raise CheckError(f'{fn}: result not observed')
                regs = g.get('sink_reg', [])
                r = dict(h=g['sink_h'][0], regs=regs, why=[], n=S['n'], a=S['as'])
                # decide the shape inside the cell
                exp = [0] + [padd(cell.floordiv(S['n'], d), 1) for d in CUT[scheme]] + [S['n']]
                r['exp'] = exp
                if len(regs) == len(exp) - 1:
                    r['cut'] = [(cell.decide_eq(psub(x[0], exp[k])), cell.decide_eq(psub(x[1], exp[k + 1]))) for k, x in enumerate(regs)]
                    r['mono'] = [cell.decide_ge(psub(x[1], x[0])) for x in regs]
                r['head'] = (cell.decide_eq(psub(r['h'][0], S['rq'])), cell.decide_eq(psub(r['h'][1], S['n'])))
                return r
            covered = {}
            for cell, I, r in C.explore(mod, fn, body, roots=[('rq', 0, 2**31), ('n', 1, 2**24), ('as', 0, 2**40)], maxcells=20000):
                b = cell.bounds('as', {}, cell.cons) or (1, 0)
                mine = [a for a in sup if b[0] <= a <= b[1] and in_cell(cell, {'as': a}) is not None]
                if not mine: continue
                n0 = (cell.sample(C.rng, big=60) or {}).get('n')
                for a in mine:
                    lab = f'{f} {drv} {a}'
                    loc = where(mod, fn)
                    if isinstance(r, Abort): C.violation('total', lab, f'{lab}: scheme fails ({describe_abort(r)}) for a supported size, e.g. {n0} shells', r.loc); continue
                    covered[a] = True
                    if not all(r['head']): C.violation('radial', lab, f'{lab}: radial specification changed: scheme {r["h"][0]!r}, {r["h"][1]!r} shells, e.g. n={n0}', loc)
                    t = r['h'][2]
                    if isinstance(t, T):
                        try: same = Eval(dict(n=7), dict(R=mp.mpf('1.3'), alpha=mp.mpf('0.4')), seed=1).cond(t)
                        except Unknown: same = Eval(dict(n=7), dict(R=mp.mpf('1.3'), alpha=mp.mpf('0.4')), seed=1)(real(t)) != 0
                    else: same = bool(t)
                    if not same: C.violation('radial', lab, f'{lab}: radial parameters differ from the requested ones', loc)
                    if 'cut' not in r: C.violation('tiling', lab, f'{lab}: {len(r["regs"])} regions instead of {len(r["exp"]) - 1}', loc); continue
                    for k, (c0, c1) in enumerate(r['cut']):
                        if not (c0 and c1): C.violation('tiling', f'{lab} region {k}', f'{lab}: region {k} is [{r["regs"][k][0]!r},{r["regs"][k][1]!r}) instead of [{r["exp"][k]!r},{r["exp"][k+1]!r}), e.g. for n={n0}', loc)
                        else: C.ok()
                    if not all(r['mono']): C.violation('tiling', lab + ' order', f'{lab}: decreasing region boundaries, e.g. for n={n0}', loc)
                    for k, (x, e) in enumerate(zip(r['regs'], sizes(f, scheme, a))):
                        if x[2] != ENUM[f]: C.violation('family', f'{lab} region {k}', f'{lab}: region {k} uses angular family {x[2]!r}', loc)
                        v = peval(x[3], {'as': a}) if isinstance(x[3], Poly) and symbols(x[3]) <= {'as'} else x[3]
                        if v != e: C.violation('size', f'{lab} region {k}', f'{lab}: region {k} has angular size {v!r} instead of {e}', loc)
                        else: C.ok()
            miss = sup - set(covered)
            if miss and not C.viol: raise Unknown(f'{fn}: sizes {sorted(miss)[:4]} not covered')
            C.samples.append(f'{f} {drv}: {len(covered)} sizes, regions {r["regs"] if isinstance(r, dict) else r}'[:300])
    def made(f, drv):
            sup = set(ORD[f].values())
            fn = f'drv_made_{drv}_{f}'
            todo = sorted(sup)
            todo = todo[:2] + [a for a in todo[2:] if C.thorough and a < 800]
            for a in todo:
                for n in (1, 2, 3, 4, 5, 6, 7) + ((11, 24) if C.thorough else ()):
                    def body(I, cell, S):
                        I.unroll = 100000
                        I.call(fn, [0x10, n, a, T_('sym', 'R'), T_('sym', 'alpha')])
                        if len(I.sinks) != 1: raise CheckError(f'{fn}: result not observed')
                        c = [0] + [n // d + 1 for d in CUT[drv]] + [n]
                        tot = sum((y - x) * z for x, y, z in zip(c, c[1:], sizes(f, drv, a)))
                        return [cell.decide_eq(psub(x, tot)) for x in I.sinks[0][1]]
                    for cell, I, r in C.explore(mod, fn, body):
                        lab = f'{f} {drv} {a}'
                        if isinstance(r, Abort): C.violation('buildable', lab, f'{lab}: the grid of {n} shells cannot be built from the scheme ({describe_abort(r)})', r.loc); continue
                        if not all(r): C.violation('buildable', lab, f'{lab}: grid of {n} shells from the scheme has a wrong number of points: {I.sinks[0][1]}')
                        else: C.ok()
                        for o in I.oob: C.violation('bounds', lab, f'{lab}: {o}', str(o))
    C.parallel([lambda f=f, d=d: regions(f, d) for f in reversed(list(FAM)) for d in ('rob', 'drob', 'tre', 'dtre', 'unp')] + [lambda f=f, d=d: made(f, d) for f in FAM for d in ('rob', 'tre', 'unp')])
    C.finish('Region lists of all schemes and families as functions of a symbolic number of shells and a symbolic angular size; grids built through the factory from the schemes for one to seven shells (the numbers for which regions are empty or a single shell); for more shells the regions are increasing with supported sizes, and building from any such list is P08/P11.')
if __name__ == '__main__': main(C, run)
