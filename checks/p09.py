from complib import *
C = Check('P09', rule='after any recentring sequence every slot holds last centre + r_i a_j, the reported centre is the last one, weights/count untouched (also for partially coinciding centres)')
A3 = lambda p: ', '.join(f'double {p}{c}' for c in 'xyz')
P3 = lambda p: 'pt3{' + ', '.join(p + c for c in 'xyz') + '}'
SRC = MOCK + f'''
extern "C" void drv_sq(size_t n1, size_t n2, {A3("o")}, {A3("p")}){{ RQ r(1, n1); AQ a(2, n2); SQ s(r, a, {P3("o")}); s.recenter({P3("p")}); out(s); }}
extern "C" void drv_base(size_t n1, size_t n2, {A3("o")}, {A3("p")}){{ RQ r(1, n1); AQ a(2, n2); SQ s(r, a, {P3("o")}); SB& b = s; b.recenter({P3("p")}); out(b); }}
extern "C" void drv_twice(size_t n1, size_t n2, {A3("o")}, {A3("q")}, {A3("p")}){{ RQ r(1, n1); AQ a(2, n2); SQ s(r, a, {P3("o")}); s.recenter({P3("q")}); s.recenter({P3("p")}); out(s); }}
extern "C" void drv_self(size_t n1, size_t n2, {A3("p")}){{ RQ r(1, n1); AQ a(2, n2); SQ s(r, a, {P3("p")}); s.recenter(s.center()); out(s); }}
extern "C" void drv_pq(size_t n1, size_t n2, {A3("o")}, {A3("p")}){{ RQ r(1, n1); AQ a(2, n2); GP g(r, (size_t)0, a); PQ s(r, g, {P3("o")}); s.recenter({P3("p")}); out(s); }}
extern "C" void drv_pqbase(size_t n1, size_t n2, {A3("o")}, {A3("p")}){{ RQ r(1, n1); AQ a(2, n2); GP g(r, (size_t)0, a); PQ s(r, g, {P3("o")}); SB& b = s; b.recenter({P3("p")}); out(b); }}
extern "C" void drv_clone(size_t n1, size_t n2, {A3("o")}, {A3("p")}){{ RQ r(1, n1); AQ a(2, n2); SQ s(r, a, {P3("o")}); auto c = s.clone(); c->recenter({P3("p")}); out(*c); }}
'''
DRV = dict(drv_sq='op', drv_base='op', drv_twice='oqp', drv_self='p', drv_pq='op', drv_pqbase='op', drv_clone='op')
def renv_for(ps):
    def f(rng, env):
        e = {}
        for c in 'xyz':
            vals = [mp.mpf(rng.uniform(-3, 3)) for _ in range(2)]
            for p in ps: e[p + c] = rng.choice(vals)      # coordinates often coincide between centres
        return e
    return f
def run(C):
    mod = C.module('recenter', SRC)
    for fn, ps in DRV.items():
        def body(I, cell, S):
            I.call(fn, [S['n1'], S['n2']] + rsym(*[p + c for p in ps for c in 'xyz']))
            g = sinks(I)
            if set(g) != {'sink_p', 'sink_w', 'sink_c', 'sink_n'}: raise CheckError(f'{fn}: result not observed')
            n1, n2 = S['n1'], S['n2']
            r = dict(np=g['sink_p'][0][0][1], nw=g['sink_w'][0][0][1], n=g['sink_n'][0][0][0], c=g['sink_c'][0][0])
            r['sizes'] = [cell.decide_eq(psub(r[x], pmul(n1, n2))) for x in ('np', 'nw', 'n')]
            if all(r['sizes']):
                i = cell.add_root('i', 0, padd(n1, -1)); j = cell.add_root('j', 0, padd(n2, -1)); q = padd(i, pmul(j, n1))
                P, W = g['sink_p'][0][0][0], g['sink_w'][0][0][0]
                r['p'] = [I.read(P.o, padd(P.off, padd(pmul(24, q), 8 * c)), 8, 'd') for c in range(3)]
                r['w'] = I.read(W.o, padd(W.off, pmul(8, q)), 8, 'd'); r['loc'] = locs_of(P.o), locs_of(W.o)
            return r
        for cell, I, r in C.explore(mod, fn, body, roots=[('n1', 1, 2**20), ('n2', 1, 2**20)]):
            if isinstance(r, Abort): C.violation('total', f'{fn} aborts', f'{fn}: fails ({describe_abort(r)}) for {cell.sample(C.rng)}', r.loc); continue
            for nm, ok in zip(('points', 'weights', 'npts()'), r['sizes']):
                if ok: C.ok()
                else: C.violation('size', f'{fn} {nm}', f'{fn}: {nm} count changed by recentring')
            re = renv_for(ps); tol = dict(renv=re, rtol=mp.mpf(10)**-20, atol=mp.mpf(10)**-20, samples=80 if C.thorough else 24)
            for x, ch in enumerate('xyz'):
                C.expect_term(r['c'][x], lambda en, e, s: e['p' + ch], cell, f'{fn} reported centre', 'centre', None, **tol)
                if 'p' in r: C.expect_term(r['p'][x], lambda en, e, s: e['p' + ch] + rp(1, en['i'], s) * ap(2, en['j'], s)[x], cell, f'{fn} point component {x}', 'translation', r['loc'][0], **tol)
            if 'p' in r:
                C.expect_term(r['w'], lambda en, e, s: rw(1, en['i'], s) * aw(2, en['j'], s) * rp(1, en['i'], s)**2, cell, f'{fn} weight', 'weights', r['loc'][1], **tol)
                if len(C.samples) < 8: C.samples.append(f'{fn} on {cell.base}: point.x {show(r["p"][0]) if isinstance(r["p"][0], T) else r["p"][0]!r}'[:600])
            C.no_aborts(I, cell, fn, re)
            for o in I.oob: C.violation('bounds', f'{fn} access', f'{fn}: access out of bounds {o}', str(o))
            C.ok(len(I.obl))
    C.finish('Product and pruned grids with uninterpreted contents, symbolic sizes and slot; old, intermediate and new centres symbolic (evaluated also with coinciding coordinates); recentred directly, through the polymorphic base, repeatedly, to the same centre, and on a clone.', drivers=list(DRV))
if __name__ == '__main__': main(C, run)
