from complib import *
C = Check('P08', rule='region by region, slot base_k + (i - b_k) + j*(b_{k+1}-b_k) of a pruned grid holds centre + r_i a^k_j and w_i w^k_j r_i^2, for all sizes, boundaries, contents and centres')
KMAX = int(os.environ.get("KMAX", "5" if os.environ.get("VERIF_TIER") == "thorough" else "4"))
def drv(k):
    ar = ', '.join(f'size_t b{m}' for m in range(1, k)) ; am = ', '.join(f'size_t m{m}' for m in range(k))
    sig = f'size_t n{", " + ar if ar else ""}, {am}, double x, double y, double z'
    call = 'r, ' + ', '.join(f'(size_t){"b%d" % m if m else "0"}, a{m}' for m in range(k))
    decl = ' '.join(f'AQ a{m}({m + 2}, m{m});' for m in range(k))
    add = 'GP g; ' + ' '.join(f'g.add_quad(r, {"b%d" % m if m else "0"}, a{m});' for m in range(k)) + ' g.finalize(r);'
    return f'''
extern "C" void drv_ctor_{k}({sig}){{ RQ r(1, n); {decl} GP g({call}); PQ s(r, g, pt3{{x, y, z}}); out(s); }}
extern "C" void drv_add_{k}({sig}){{ RQ r(1, n); {decl} {add} PQ s(r, g, pt3{{x, y, z}}); out(s); }}
extern "C" void drv_default_{k}({sig}){{ RQ r(1, n); {decl} GP g({call}); PQ s(r, g); out(s); }}
'''
def part(C, mod, k, kind):
    fn = f'drv_{kind}_{k}'
    lo = 1 if k <= 2 else 2          # sizes of one (special-cased by std::vector) are covered by one and two regions
    roots = [(f'l{m}', max(lo, 2) if m == k - 1 and k > 1 else lo, 2**20) for m in range(k)] + [(f'm{m}', lo, 2**16) for m in range(k)]   # l = region lengths
    def body(I, cell, S):
        B = [0]
        for m in range(k): B.append(padd(B[-1], S[f'l{m}']))
        I.call(fn, [B[k]] + B[1:k] + [S[f'm{m}'] for m in range(k)] + rsym(*CEN))
        g = sinks(I)
        if set(g) != {'sink_p', 'sink_w', 'sink_c', 'sink_n'}: raise CheckError(f'{fn}: result not observed')
        tot = 0; base = []
        for m in range(k): base.append(tot); tot = padd(tot, pmul(S[f'l{m}'], S[f'm{m}']))
        r = dict(np=g['sink_p'][0][0][1], nw=g['sink_w'][0][0][1], n=g['sink_n'][0][0][0], c=g['sink_c'][0][0], reg=[])
        r['sizes'] = [cell.decide_eq(psub(r[x], tot)) for x in ('np', 'nw', 'n')]
        if all(r['sizes']):
            P, W = g['sink_p'][0][0][0], g['sink_w'][0][0][0]
            for reg in range(k):
                L = S[f'l{reg}']
                i = cell.add_root(f'i{reg}', 0, padd(L, -1)); j = cell.add_root(f'j{reg}', 0, padd(S[f'm{reg}'], -1)); q = padd(base[reg], padd(i, pmul(j, L)))
                r['reg'].append(([I.read(P.o, padd(P.off, padd(pmul(24, q), 8 * c)), 8, 'd') for c in range(3)], I.read(W.o, padd(W.off, pmul(8, q)), 8, 'd')))
            r['loc'] = locs_of(P.o), locs_of(W.o)
        return r
    for cell, I, r in C.explore(mod, fn, body, roots=roots):
        if isinstance(r, Abort): C.violation('total', f'{fn} aborts', f'{fn}: fails ({describe_abort(r)}) for {cell.sample(C.rng)}', r.loc); continue
        for nm, ok in zip(('points', 'weights', 'npts()'), r['sizes']):
            if ok: C.ok()
            else: C.violation('size', f'{fn} {nm}', f'{fn}: {nm} count {r["np"]!r}/{r["nw"]!r}/{r["n"]!r} is not the sum of the region products')
        re = renv_of(CEN); cen = kind != 'default'
        c0 = (lambda e, x: e[CEN[x]]) if cen else (lambda e, x: mp.mpf(0))
        for x in range(3): C.expect_term(r['c'][x], lambda en, e, s: c0(e, x), cell, f'{fn} centre', 'centre', None, renv=re)
        tol = dict(renv=re, rtol=mp.mpf(10)**-20, atol=mp.mpf(10)**-20)
        for reg, (p, w) in enumerate(r['reg']):
            def sh(en): return sum(en[f'l{m}'] for m in range(reg)) + en[f'i{reg}']
            J = f'j{reg}'
            for x in range(3):
                C.expect_term(p[x], lambda en, e, s: c0(e, x) + rp(1, sh(en), s) * ap(2 + reg, en[J], s)[x], cell, f'{fn} region {reg} point component {x}', 'pruned-product', r['loc'][0], **tol)
            C.expect_term(w, lambda en, e, s: rw(1, sh(en), s) * aw(2 + reg, en[J], s) * rp(1, sh(en), s)**2, cell, f'{fn} region {reg} weight', 'pruned-product', r['loc'][1], **tol)
            if len(C.samples) < 8: C.samples.append(f'{fn} region {reg} on {cell.base}: weight {show(w) if isinstance(w, T) else w!r}'[:500])
        C.no_aborts(I, cell, fn, re)
        for o in I.oob: C.violation('bounds', f'{fn} access', f'{fn}: access out of bounds {o}', str(o))
        C.ok(len(I.obl))
def run(C):
    ks = range(1, KMAX + 1)
    mods = C.modules([(f'pr{k}', MOCK + drv(k)) for k in ks])
    C.parallel([lambda k=k, kind=kind: part(C, mods[f'pr{k}'], k, kind) for k in reversed(ks) for kind in ('ctor', 'add', 'default')[: 3 if k <= 2 else 1]])
    C.finish(f'Pruned grids with 1..{KMAX} regions; number of shells, every region boundary, every angular size, slot (i,j) within the region, centre and all contents symbolic.', regions=KMAX)
if __name__ == '__main__': main(C, run)
