from complib import *
C = Check('P07', rule='slot (i + j*n_rad) of a product grid holds centre + r_i a_j and w_i w_j r_i^2, for all sizes, slots, contents and centres')
SRC = MOCK + '''
extern "C" void drv_centre(size_t n1, size_t n2, double x, double y, double z){ RQ r(1, n1); AQ a(2, n2); SQ s(r, a, pt3{x, y, z}); out(s); }
extern "C" void drv_default(size_t n1, size_t n2){ RQ r(1, n1); AQ a(2, n2); SQ s(r, a); out(s); }
extern "C" void drv_base(size_t n1, size_t n2, double x, double y, double z){ RQ r(1, n1); AQ a(2, n2); SQ s(r, a, pt3{x, y, z}); const SB& b = s; out(b); }
'''
def run(C):
    mod = C.module('prod', SRC)
    for fn, cen in (('drv_centre', True), ('drv_default', False), ('drv_base', True)):
        for zero in (False, True):
            def body(I, cell, S):
                n1, n2 = (S['n1'], S['n2']) if not zero else ((0, S['n2']) if 'n2' in S else (S['n1'], 0))
                I.call(fn, [n1, n2] + (rsym(*CEN) if cen else []))
                g = sinks(I)
                if set(g) != {'sink_p', 'sink_w', 'sink_c', 'sink_n'}: raise CheckError(f'{fn}: result not observed')
                r = dict(np=g['sink_p'][0][0][1], nw=g['sink_w'][0][0][1], n=g['sink_n'][0][0][0], c=g['sink_c'][0][0])
                r['sizes'] = [cell.decide_eq(psub(r[x], pmul(n1, n2))) for x in ('np', 'nw', 'n')]
                if not zero and all(r['sizes']):
                    i = cell.add_root('i', 0, padd(n1, -1)); j = cell.add_root('j', 0, padd(n2, -1)); q = padd(i, pmul(j, n1))
                    P, W = g['sink_p'][0][0][0], g['sink_w'][0][0][0]
                    r['p'] = [I.read(P.o, padd(P.off, padd(pmul(24, q), 8 * c)), 8, 'd') for c in range(3)]
                    r['w'] = I.read(W.o, padd(W.off, pmul(8, q)), 8, 'd'); r['loc'] = locs_of(P.o), locs_of(W.o)
                return r
            roots = [[('n1', 1, 2**20), ('n2', 1, 2**20)]] if not zero else [[('n1', 0, 2**20)], [('n2', 0, 2**20)]]
            for rt in roots:
                for cell, I, r in C.explore(mod, fn, body, roots=rt):
                    if isinstance(r, Abort): C.violation('total', f'{fn} aborts', f'{fn}: fails ({describe_abort(r)}) for {cell.sample(C.rng)}', r.loc); continue
                    for nm, ok in zip(('points', 'weights', 'npts()'), r['sizes']):
                        if ok: C.ok()
                        else: C.violation('size', f'{fn} {nm}', f'{fn}: {nm} count {r["np"]!r}/{r["nw"]!r}/{r["n"]!r} is not the product of the sizes')
                    re = renv_of(CEN)
                    c0 = (lambda e, x: e[CEN[x]]) if cen else (lambda e, x: mp.mpf(0))
                    for x in range(3): C.expect_term(r['c'][x], lambda en, e, k: c0(e, x), cell, f'{fn} centre', 'centre', None, renv=re)
                    if 'p' in r:
                        for x in range(3):
                            C.expect_term(r['p'][x], lambda en, e, k: c0(e, x) + rp(1, en['i'], k) * ap(2, en['j'], k)[x], cell, f'{fn} point component {x}', 'product', r['loc'][0], renv=re, rtol=mp.mpf(10)**-20, atol=mp.mpf(10)**-20)
                        C.expect_term(r['w'], lambda en, e, k: rw(1, en['i'], k) * aw(2, en['j'], k) * rp(1, en['i'], k)**2, cell, f'{fn} weight', 'product', r['loc'][1], renv=re, rtol=mp.mpf(10)**-20, atol=mp.mpf(10)**-20)
                        if len(C.samples) < 6: C.samples += [f'{fn} on {cell.base}: point.x {show(r["p"][0])}, weight {show(r["w"])}'[:500]]
                    C.no_aborts(I, cell, fn, re)
                    for o in I.oob: C.violation('bounds', f'{fn} access', f'{fn}: access out of bounds {o}', str(o))
                    C.ok(len(I.obl))
    C.finish('The product grid of two rules with uninterpreted contents is analysed with both sizes, the pair of indices and the centre symbolic; each slot term is compared with centre + r a and w w r^2.')
if __name__ == '__main__': main(C, run)
