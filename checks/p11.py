from s2lib import in_cell
from complib import *
import complib
C = Check('P11', rule='for every scheme value, family value, parameter set and region list, the factory result equals the direct construction of the named types (symbolic sizes, slots, contents), and every senseless request ends in an exception')
TR = dict(bk='BeckeRadialTraits t(n, R)', mhl='MurrayHandyLamingRadialTraits<2> t(n, R)', mk='MuraKnowlesRadialTraits t(n, R)', ta='TreutlerAhlrichsRadialTraits t(n, R, al)', mhl3='MurrayHandyLamingRadialTraits<3> t(n, R)')
QT = dict(bk='Becke<double,double>', mhl='MurrayHandyLaming<double,double>', mk='MuraKnowles<double,double>', ta='TreutlerAhlrichs<double,double>')
RQ = dict(bk=0x10, mhl=0x20, mk=0x30, ta=0x40); AQ = {0x100: 1, 0x200: 2, 0x300: 3, 0x400: 4}
HEAD = MOCKFAC + '''
extern "C" void sink_p(const double*, size_t); extern "C" void sink_w(const double*, size_t); extern "C" void sink_n(size_t); extern "C" void sink_c(double, double, double);
extern "C" void sink_dp(const double*, size_t); extern "C" void sink_dw(const double*, size_t);
template <class Q> static void outg(const Q& q) { sink_p((const double*)q.points().data(), q.points().size()); sink_w(q.weights().data(), q.weights().size()); sink_n(q.npts()); }
template <class Q> static void outs(const Q& q) { outg(q); auto c = q.center(); sink_c(c[0], c[1], c[2]); }
template <class Q> static void outd(const Q& q) { sink_dp((const double*)q.points().data(), q.points().size()); sink_dw(q.weights().data(), q.weights().size()); }
'''
SRC = HEAD + 'extern "C" void drv_s2(uint32_t aq, size_t n){ auto g = S2Factory::generate((AngularQuad)aq, n); outg(*g); }\n'
ARGS = 'uint32_t rq, size_t n, double R, double al'
KS = (0, 1, 2, 3)
for t, decl in TR.items():
    d = f'{QT[t]} d(t); outd(d);' if t in QT else ''
    SRC += f'extern "C" void drv_rad_{t}({ARGS}){{ {decl}; auto g = RadialFactory::generate((RadialQuad)rq, t); {d} outg(*g); }}\n'
    SRC += f'extern "C" void drv_unp_{t}({ARGS}, uint32_t aq, size_t m){{ {decl}; auto g = SphericalGridFactory::generate_unpruned_grid((RadialQuad)rq, t, (AngularQuad)aq, m); {d} outs(*g); }}\n'
    SRC += f'extern "C" void drv_unpspec_{t}({ARGS}, uint32_t aq, size_t m){{ {decl}; UnprunedSphericalGridSpecification u((RadialQuad)rq, t, (AngularQuad)aq, m); auto g = SphericalGridFactory::generate_grid(u); {d} outs(*g); }}\n'
    for k in KS:
        ar = ''.join(f', size_t b{i}, uint32_t aq{i}, size_t m{i}' for i in range(k))
        regs = ' '.join(f'v.push_back({{{"0" if i == 0 else f"b{i-1}"}, b{i}, (AngularQuad)aq{i}, m{i}}});' for i in range(k))
        SRC += f'extern "C" void drv_pru{k}_{t}({ARGS}{ar}){{ {decl}; std::vector<PruningRegion> v; {regs} auto g = SphericalGridFactory::generate_pruned_grid((RadialQuad)rq, t, v); {d} outs(*g); }}\n'
        SRC += f'extern "C" void drv_pruspec{k}_{t}({ARGS}{ar}){{ {decl}; std::vector<PruningRegion> v; {regs} PrunedSphericalGridSpecification s((RadialQuad)rq, t, v); auto g = SphericalGridFactory::generate_grid(s); {d} outs(*g); }}\n'
# parameter sets from scheme and argument list
MAKE = {1: 'n', 2: 'n, R', 3: 'n, R, al', 4: 'n, R, al, 1.0'}
DEF = {'bk': 'BeckeRadialTraits', 'mhl': 'MurrayHandyLamingRadialTraits<2>', 'mk': 'MuraKnowlesRadialTraits', 'ta': 'TreutlerAhlrichsRadialTraits'}
FULL = {'bk': ('n', 'n, R'), 'mhl': ('n', 'n, R'), 'mk': ('n', 'n, R'), 'ta': ('n', 'n, R', 'n, R, al')}
EXPL = {'bk': ('n, 1.0', 'n, R'), 'mhl': ('n, 1.0', 'n, R'), 'mk': ('n, 1.0', 'n, R'), 'ta': ('n, 1.0, 0.6', 'n, R, 0.6', 'n, R, al')}
for a, args in MAKE.items():
    for t in QT:
        d = f'{QT[t]} d({DEF[t]}({EXPL[t][a-1]})); outd(d); {QT[t]} g(*p); outg(g);' if a <= len(EXPL[t]) else 'sink_n(p->npts());'
        SRC += f'extern "C" void drv_make{a}_{t}({ARGS}){{ auto p = make_radial_traits((RadialQuad)rq, {args}); {d} }}\n'
SRC += '''
extern "C" void drv_null_u(uint32_t rq, size_t n, double R, double al, uint32_t aq, size_t m){ BeckeRadialTraits t(n, R); UnprunedSphericalGridSpecification u((RadialQuad)rq, t, (AngularQuad)aq, m); u.radial_traits.reset(); auto g = SphericalGridFactory::generate_grid(u); sink_n(g->npts()); }
extern "C" void drv_null_p(uint32_t rq, size_t n, double R, double al, uint32_t aq, size_t m){ PrunedSphericalGridSpecification s; s.radial_quad = (RadialQuad)rq; s.pruning_regions.push_back({0, n, (AngularQuad)aq, m}); auto g = SphericalGridFactory::generate_grid(s); sink_n(g->npts()); }
#define SCH(NM, CALL) extern "C" void drv_null_##NM(uint32_t rq, size_t n, double R, double al, uint32_t aq, size_t m){ BeckeRadialTraits t(n, R); UnprunedSphericalGridSpecification u((RadialQuad)rq, t, (AngularQuad)aq, m); u.radial_traits.reset(); auto s = CALL; sink_n(s.pruning_regions.size()); }
SCH(crob, create_pruned_spec(PruningScheme::Robust, u)) SCH(ctre, create_pruned_spec(PruningScheme::Treutler, u)) SCH(cunp, create_pruned_spec(PruningScheme::Unpruned, u)) SCH(rob, robust_psi4_pruning_scheme(u)) SCH(tre, treutler_pruning_scheme(u))
#define BAD(NM, CALL) extern "C" void drv_bad_##NM(uint32_t rq, size_t n, double R, double al, uint32_t aq, size_t m){ BeckeRadialTraits t(n, R); UnprunedSphericalGridSpecification u((RadialQuad)rq, t, (AngularQuad)aq, m); auto s = CALL; sink_n(s.pruning_regions.size()); }
BAD(crob, create_pruned_spec(PruningScheme::Robust, u)) BAD(ctre, create_pruned_spec(PruningScheme::Treutler, u)) BAD(rob, robust_psi4_pruning_scheme(u)) BAD(tre, treutler_pruning_scheme(u))
'''
RE = complib.renv_of([])
def renv(rng, env): return dict(R=mp.mpf(rng.uniform(0.3, 4)), alpha=mp.mpf(rng.uniform(0.1, 1.9)))
RS = [T_('sym', 'R'), T_('sym', 'alpha')]
TOL = dict(renv=renv, rtol=mp.mpf(10)**-20, atol=mp.mpf(10)**-25)
def slot(I, o, snap, off): return I.read(o.o, padd(o.off, off), 8, 'd')
def refused(C, lab, r, cell, what):
    if isinstance(r, Abort) and r.kind == 'throw': C.ok(); return
    e = cell.sample(C.rng, big=60)
    if isinstance(r, Abort): C.violation('refusal', lab, f'{lab}: {what} is not refused by an exception but fails otherwise ({describe_abort(r)}), e.g. {e}', r.loc)
    else: C.violation('refusal', lab, f'{lab}: {what} is accepted, e.g. {e}')
MIX = 'mixed'
def vals(cell, nm, known, r=None, lab=None):
    """which of the known values the cell allows; None if it allows only others; a cell allowing both is judged here: the code does not tell them apart"""
    b = cell.bounds(nm, {}, cell.cons)
    if b and b[0] == b[1]: return b[0] if b[0] in known else None
    hit = [k for k in known if b[0] <= k <= b[1] and in_dom(cell, nm, k)]
    if not hit: return None
    other = next((w for k in hit + [b[0], b[1]] for w in (k + 1, k - 1, k) if w not in known and b[0] <= w <= b[1] and in_dom(cell, nm, w)), None)
    if other is None: raise Unknown(f'{nm}: cell {cell.base} allows several known values')
    if lab is None: return MIX
    if isinstance(r, Abort): C.violation('refused', lab, f'{lab}: {nm} = {hit[0]:#x} fails like {other:#x} ({describe_abort(r)})', r.loc)
    else: C.violation('refusal', lab, f'{lab}: {nm} = {other:#x} is accepted like {hit[0]:#x}')
    return MIX
def in_dom(cell, nm, v): return in_cell(cell, {nm: v}) is not None
def radial_terms(I, cell, g, n, i):
    D, W = g['sink_dp'][0][0], g['sink_dw'][0][0]
    if not (cell.decide_eq(psub(D[1], n)) and cell.decide_eq(psub(W[1], n))): raise CheckError('direct radial construction has another size (P06)')
    return [I.read(o.o, padd(o.off, pmul(8, i)), 8, 'd') for o in (D[0], W[0])]
def run(C):
    mod = C.module('fac', SRC, cap=6000)
    U32 = ('aq', 0, 2**31)
    jobs = []
    # ---- angular factory
    def s2(I, cell, S):
        I.call('drv_s2', [S['aq'], S['n']])
        g = sinks(I); r = dict(n=[cell.decide_eq(psub(x, S['n'])) for x in (g['sink_p'][0][0][1], g['sink_w'][0][0][1], g['sink_n'][0][0][0])])
        if all(r['n']):
            i = cell.add_root('i', 0, padd(S['n'], -1)); P, W = g['sink_p'][0][0][0], g['sink_w'][0][0][0]
            r['v'] = [I.read(P.o, padd(P.off, padd(pmul(24, i), 8*c)), 8, 'd') for c in range(3)] + [I.read(W.o, padd(W.off, pmul(8, i)), 8, 'd')]
        return r
    hit = set()
    for cell, I, r in C.explore(mod, 'drv_s2', s2, roots=[U32, ('n', 1, 2**20)]):
        a = vals(cell, 'aq', AQ, r, 'S2Factory::generate')
        if a == MIX: continue
        if a is None: refused(C, 'S2Factory::generate', r, cell, 'an unknown angular scheme value'); continue
        lab = f'S2Factory::generate({a:#x})'
        if isinstance(r, Abort): C.violation('refused', lab, f'{lab}: fails ({describe_abort(r)})', r.loc); continue
        if not all(r['n']): C.violation('size', lab, f'{lab}: wrong number of points'); continue
        hit.add(a)
        for nm, v in zip(('max', 'may', 'maz', 'maw'), r['v']):
            C.expect_term(v, lambda en, e, s: uf('uf_' + nm, s, AQ[a], en['n'], en['i']), cell, f'{lab} {nm[2]}', 'same-grid', None, **TOL)
    if hit != set(AQ) and not C.viol: raise Unknown(f'angular schemes reached: {hit}')
    # ---- radial factory
    for t in TR:
        fn = f'drv_rad_{t}'; hit = set()
        def body(I, cell, S):
            I.call(fn, [S['rq'], S['n']] + RS)
            g = sinks(I); n = S['n']
            r = dict(n=[cell.decide_eq(psub(x, n)) for x in (g['sink_p'][0][0][1], g['sink_w'][0][0][1], g['sink_n'][0][0][0])])
            if 'sink_dp' in g and all(r['n']):
                i = cell.add_root('i', 0, padd(n, -1)); P, W = g['sink_p'][0][0][0], g['sink_w'][0][0][0]
                r['d'] = radial_terms(I, cell, g, n, i); r['v'] = [I.read(o.o, padd(o.off, pmul(8, i)), 8, 'd') for o in (P, W)]
            return r
        for cell, I, r in C.explore(mod, fn, body, roots=[('rq', 0, 2**31), ('n', 1, 2**20)]):
            q = vals(cell, 'rq', list(RQ.values()), r, f'RadialFactory::generate({t})')
            if q == MIX: continue
            mine = t in QT and q == RQ[t]
            if not mine: refused(C, f'RadialFactory::generate {t}', r, cell, 'an unknown radial scheme value' if q is None else 'a parameter set of another scheme'); continue
            lab = f'RadialFactory::generate({t})'; hit.add(q)
            if isinstance(r, Abort): C.violation('refused', lab, f'{lab}: fails ({describe_abort(r)})', r.loc); continue
            if not all(r['n']): C.violation('size', lab, f'{lab}: wrong number of points'); continue
            for nm, v, d in zip(('point', 'weight'), r['v'], r['d']): C.expect_term(v, lambda en, e, s: Eval(en, e, seed=s)(real(d)), cell, f'{lab} {nm}', 'same-grid', None, **TOL)
        if t in QT and not hit and not C.viol: raise Unknown(f'{fn}: scheme not reached')
        # ---- parameter sets
    for a in MAKE:
        for t in QT:
            fn = f'drv_make{a}_{t}'; ok = a <= len(EXPL[t]); hit = 0
            def body(I, cell, S):
                for v in RQ.values():
                    if cell.decide_eq(psub(S['rq'], v)): break
                I.call(fn, [S['rq'], S['n']] + RS)
                g = sinks(I)
                if not ok: return {}
                n = S['n']; r = dict(n=[cell.decide_eq(psub(x, n)) for x in (g['sink_p'][0][0][1], g['sink_w'][0][0][1], g['sink_n'][0][0][0])])
                if all(r['n']):
                    i = cell.add_root('i', 0, padd(n, -1)); P, W = g['sink_p'][0][0][0], g['sink_w'][0][0][0]
                    r['d'] = radial_terms(I, cell, g, n, i); r['v'] = [I.read(o.o, padd(o.off, pmul(8, i)), 8, 'd') for o in (P, W)]
                return r
            for cell, I, r in C.explore(mod, fn, body, roots=[('rq', 0, 2**31), ('n', 1, 2**20)]):
                lab = f'make_radial_traits({t}, {MAKE[a]})'; q = vals(cell, 'rq', list(RQ.values()), r, lab)
                if q == MIX: continue
                other = next((x for x in QT if RQ[x] == q), None)
                if q is None or a > len(EXPL[other]): refused(C, f'make_radial_traits({other or "unknown"}, {MAKE[a]})', r, cell, 'an unknown scheme value' if q is None else 'a parameter list the scheme does not take'); continue
                if other != t:          # parameters of another scheme: made, but then refused where this scheme's are needed
                    if ok: refused(C, lab, r, cell, 'a parameter set of another scheme')
                    continue
                hit += 1
                if isinstance(r, Abort): C.violation('refused', lab, f'{lab}: fails ({describe_abort(r)})', r.loc); continue
                if not all(r['n']): C.violation('size', lab, f'{lab}: wrong number of points'); continue
                for nm, v, d in zip(('point', 'weight'), r['v'], r['d']): C.expect_term(v, lambda en, e, s: Eval(en, e, seed=s)(real(d)), cell, f'{lab} {nm}', 'parameters', None, **TOL)
            if ok and not hit and not C.viol: raise Unknown(f'{fn}: scheme not reached')
    # ---- unpruned spherical grids
    def grid(fn, t, regs, roots, args, aqs):
        """regs: function S -> [(first shell, number of shells, angular size symbol/value)]"""
        def body(I, cell, S):
            I.call(fn, args(S))
            g = sinks(I); n = S['n'] if 'n' in S else args(S)[1]
            R_ = regs(S); tot = 0; base = []
            for (b, L, m) in R_: base.append(tot); tot = padd(tot, pmul(L, m))
            r = dict(n=[cell.decide_eq(psub(x, tot)) for x in (g['sink_p'][0][0][1], g['sink_w'][0][0][1], g['sink_n'][0][0][0])], v=[], c=g['sink_c'][0][0])
            if 'sink_dp' in g and all(r['n']):
                P, W = g['sink_p'][0][0][0], g['sink_w'][0][0][0]
                for k, (b, L, m) in enumerate(R_):
                    if L == 0: continue
                    i = cell.add_root(f'i{k}', 0, padd(L, -1)); j = cell.add_root(f'j{k}', 0, padd(m, -1)); q = padd(base[k], padd(i, pmul(j, L)))
                    r['v'].append((k, m, [I.read(P.o, padd(P.off, padd(pmul(24, q), 8*c)), 8, 'd') for c in range(3)] + [I.read(W.o, padd(W.off, pmul(8, q)), 8, 'd')], radial_terms(I, cell, g, n, padd(b, i))))
            r['loc'] = locs_of(g['sink_p'][0][0][0].o)
            return r
        hit = set()
        for cell, I, r in C.explore(mod, fn, body, roots=roots, maxcells=20000):
            lab = fn[4:]
            if isinstance(r, Abort) and r.kind == 'throw' and not (t in QT and aqs and any(in_cell(cell, dict({x: a for x in aqs}, rq=RQ[t])) is not None for a in AQ)): C.ok(); continue
            q = vals(cell, 'rq', list(RQ.values()), r, lab); A = [vals(cell, x, AQ, r, lab) for x in aqs]
            if q == MIX or MIX in A: continue
            if q is None: refused(C, lab + ' radial', r, cell, 'an unknown radial scheme value'); continue
            if t not in QT or q != RQ[t]: refused(C, lab + ' mismatch', r, cell, 'a parameter set of another radial scheme'); continue
            if not aqs: refused(C, lab + ' empty', r, cell, 'an empty list of regions'); continue
            if None in A:
                refused(C, lab + ' angular', r, cell, 'an unknown angular scheme value'); continue
            if len(set(A)) > 1: refused(C, lab + ' mixed', r, cell, 'a region list of mixed angular families'); continue
            lab = f'{lab} angular {A[0]:#x}'
            if isinstance(r, Abort): C.violation('refused', lab, f'{lab}: fails ({describe_abort(r)}), e.g. {cell.sample(C.rng, big=60)}', r.loc); continue
            if not all(r['n']): C.violation('size', lab, f'{lab}: wrong number of points, e.g. {cell.sample(C.rng, big=60)}', r['loc']); continue
            hit.add(A[0])
            for x in range(3):
                C.expect_term(r['c'][x], lambda en, e, s: mp.mpf(0), cell, f'{lab} centre', 'same-grid', None, **TOL)
            for k, m, v, (dp, dw) in r['v']:
                def ev(d, en, e, s): return Eval(en, e, seed=s)(real(d))
                mm = (lambda en: peval(m, en)) if isinstance(m, Poly) else (lambda en: m)
                for x, nm in enumerate(('max', 'may', 'maz')):
                    C.expect_term(v[x], lambda en, e, s: ev(dp, en, e, s) * uf('uf_' + nm, s, AQ[A[0]], mm(en), en[f'j{k}']), cell, f'{lab} region {k} point {x}', 'same-grid', r['loc'], samples=4 if not C.thorough else None, **TOL)
                C.expect_term(v[3], lambda en, e, s: ev(dw, en, e, s) * ev(dp, en, e, s)**2 * uf('uf_maw', s, AQ[A[0]], mm(en), en[f'j{k}']), cell, f'{lab} region {k} weight', 'same-grid', r['loc'], samples=4 if not C.thorough else None, **TOL)
            for o in I.oob: C.violation('bounds', lab, f'{lab}: {o}', str(o))
        if t in QT and aqs and hit != set(AQ) and not C.viol: raise Unknown(f'{fn}: angular schemes reached: {hit}')
    rq = ('rq', 0, 2**31)
    def job(*a): jobs.append(lambda: grid(*a))
    for t in TR:
        for d in ('unp', 'unpspec'):
            job(f'drv_{d}_{t}', t, lambda S: [(0, S['n'], S['m'])], [rq, U32, ('n', 1, 2**20), ('m', 1, 2**16)], lambda S: [S['rq'], S['n']] + RS + [S['aq'], S['m']], ['aq'])
    # ---- pruned grids: every pattern of empty and non-empty regions
    for t in TR:
        for d in ('pru', 'pruspec'):
            job(f'drv_{d}0_{t}', t, lambda S: [(0, 0, 0)], [rq, ('n', 1, 2**20)], lambda S: [S['rq'], S['n']] + RS, [])
            for k in KS[1:]:
                if t not in QT and k > 1: continue
                for pat in range(1, 2**k):
                    if not C.thorough and ((d == 'pruspec' and (k > 1 or pat != 2**k - 1)) or (k == 3 and (t, pat) not in (('bk', 7), ('mk', 5), ('mhl', 3), ('ta', 6), ('ta', 4)))): continue
                    on = [pat >> i & 1 for i in range(k)]
                    roots = [rq] + [(f'aq{i}', 0, 2**31) for i in range(k)] + [(f'l{i}', 2, 2**18) for i in range(k) if on[i]] + [(f'm{i}', 2, 2**14) for i in range(k)]
                    if k == 1: roots = [rq, ('aq0', 0, 2**31), ('l0', 1, 2**18), ('m0', 1, 2**14)]
                    def lens(S, on=on, k=k): return [S[f'l{i}'] if on[i] else 0 for i in range(k)]
                    def regs(S, lens=lens):
                        b = 0; out = []
                        for i, L in enumerate(lens(S)): out.append((b, L, S[f'm{i}'])); b = padd(b, L)
                        return out
                    def args(S, lens=lens):
                        b = 0; a = []
                        for i, L in enumerate(lens(S)): b = padd(b, L); a += [b, S[f'aq{i}'], S[f'm{i}']]
                        return [S['rq'], b] + RS + a
                    job(f'drv_{d}{k}_{t}', t, regs, roots, args, [f'aq{i}' for i in range(k)])
    C.parallel(jobs)
    # ---- missing parameters, unsupported families in the schemes
    roots = [rq, U32, ('n', 1, 2**20), ('m', 1, 2**16)]
    for nm in ('u', 'p', 'crob', 'ctre', 'cunp', 'rob', 'tre'):
        fn = f'drv_null_{nm}'
        def body(I, cell, S): I.call(fn, [S['rq'], S['n']] + RS + [S['aq'], S['m']])
        for cell, I, r in C.explore(mod, fn, body, roots=roots): refused(C, fn[4:], r, cell, 'a specification without radial parameters')
    for nm in ('crob', 'ctre', 'rob', 'tre'):
        fn = f'drv_bad_{nm}'
        def body(I, cell, S):
            for v in AQ:
                if cell.decide_eq(psub(S['aq'], v)): break
            I.call(fn, [S['rq'], S['n']] + RS + [S['aq'], S['m']])
        for cell, I, r in C.explore(mod, fn, body, roots=roots, maxcells=20000):
            if vals(cell, 'aq', AQ, r, fn[4:]) is None: refused(C, fn[4:], r, cell, 'an unknown angular scheme value')
    C.finish('Angular, radial and spherical (unpruned, pruned with 0..3 regions including empty ones, and from specifications) factories for every 32-bit scheme value, all sizes, parameters, region lengths and slots symbolic; parameter factory for 1..4 arguments; all refusals.')
if __name__ == '__main__': main(C, run)
