from s2lib import *
from concurrent.futures import ProcessPoolExecutor
C = Check('P01', rule='every size dispatched to a constant table: size, unit sphere, weight sum 4*pi, and all spherical harmonics up to the advertised order integrate to zero')
TOL_R, TOL_S = 2e-15, 5e-14      # distance from the unit sphere; relative weight sum
def tol_h(f, n): return 2e-12 if f == 'AhrensBeylkin' and n > 4000 else 2e-13   # measured tabulation accuracy, with margin

def harm_error(P, W, L):
    """max over 1<=l<=L, m of |sum_i w_i Y_lm(x_i)| with fully normalised Y (times sqrt(4pi)/4pi), and the worst (l,m)"""
    x, y, z = P[:, 0], P[:, 1], P[:, 2]
    r = np.sqrt(x*x + y*y); st = r
    ph = np.arctan2(y, x)
    perl = np.zeros(L + 1)
    worst, at = 0.0, None
    pmm = np.ones(len(W))          # normalised so that int Y^2 = 4pi
    for m in range(L + 1):
        if m: pmm = pmm * st * np.sqrt((2*m + 1) / (2*m))
        cs = np.stack([W * np.cos(m * ph), W * np.sin(m * ph)], 1)
        a, b = None, pmm
        rows = [pmm]
        for l in range(m + 1, L + 1):
            if l == m + 1: c = np.sqrt(2*m + 3.0) * z * pmm
            else:
                A = np.sqrt((4.0*l*l - 1) / (l*l - m*m)); B = np.sqrt(((l - 1.0)**2 - m*m) / (4*(l - 1.0)**2 - 1))
                c = A * (z * b - B * a)
            rows.append(c); a, b = b, c
        v = np.abs(np.stack(rows) @ cs) * (np.sqrt(2) if m else 1)
        if m == 0: v[0, 0] = 0.0
        perl[m:] = np.maximum(perl[m:], v.max(1))
        k = np.unravel_index(np.argmax(v), v.shape)
        if v[k] > worst: worst, at = float(v[k]), (int(k[0]) + m, m, 'cos' if k[1] == 0 else 'sin')
    return worst / (4*np.pi), at, perl / (4*np.pi)

def job(a):
    P, W, L = a
    r = np.abs(np.sqrt((P.astype(np.longdouble)**2).sum(1)) - 1)
    e, at, perl = harm_error(P, W, L)
    return float(r.max()), int(r.argmax()), float(abs(W.sum() / (4*np.pi) - 1)), e, at, perl

def collect(C, f, mod):
    """tables and advertised orders of one family"""
    order = {}
    for c, I, v in lookup(C, mod, 'drv_order_' + f):
        x = fixed(c, 'x')
        if isinstance(v, Abort): continue
        if isinstance(v, int):
            if v >= 0:
                if x is None: raise Unknown(f'{f}: a range of sizes {c.base} is advertised with one order')
                order[x] = v
        else: raise Unknown(f'{f}: order look-up is not constant on {c.base}')
    tabs = {}
    for c, I, r in dispatch(C, mod, f, True):
        if isinstance(r, Abort) or r['n'] is None or r['n'] not in order: 
            n = fixed(c, 'n')
            if isinstance(r, Abort) and n is not None and n in order: C.violation('constructible', f'{f} {n}', f'{f}: advertised size {n} cannot be constructed ({describe_abort(r)})', r.loc)
            continue
        n = r['n']
        for nm in ('np', 'nw'):
            if not (r[nm] == n or c.prove(psub(r[nm], n)) and c.prove(psub(n, r[nm]))): C.violation('size', f'{f} {n}', f'{f} size {n}: {nm} is {r[nm]!r}')
        q = np.arange(n)
        mask = np.ones(n, dtype=bool)
        for p in c.cons:
            if 'q' in symbols(p) and symbols(p) <= {'q', 'n'}: mask &= np.asarray(ppeval(p, dict(n=n), q)) >= 0
            elif 'q' in symbols(p): raise Unknown(f'{f} {n}: slot cell {p!r}')
        P, W, hit = tabs.setdefault(n, (np.full((n, 3), np.nan), np.full(n, np.nan), np.zeros(n, int)))
        qs = q[mask]
        if not len(qs): continue
        for k in range(3):
            t = r['p'][k]
            if t is UNDEF: C.violation('uninitialised', f'{f} {n}', f'{f} size {n}: coordinate {k} of slots {qs[:5]} never written', r['loc'])
            else: P[qs, k] = npeval(mod, real(t), dict(n=n), qs)
        if r['w'] is UNDEF: C.violation('uninitialised', f'{f} {n}', f'{f} size {n}: weight of slots {qs[:5]} never written', r['loc'])
        else: W[qs] = npeval(mod, real(r['w']), dict(n=n), qs)
        hit[qs] += 1
        C.ok(len(I.obl))
        for o in I.oob: C.violation('bounds', f'{f} {n}', f'{f} size {n}: access out of bounds {o}')
    for n in order:
        if n not in tabs: C.violation('constructible', f'{f} {n}', f'{f}: advertised size {n} has no table')
    return order, tabs

def table_where(f, n): return f'include/integratorxx/quadratures/{FAM[f][0]} -> {FAM[f][1]}_{n}'
def run(C):
    mods = build(C)
    jobs, keys = [], []
    for f in FAM:
        order, tabs = collect(C, f, mods[f])
        if not order: raise CheckError(f'{f}: no advertised size found')
        for n, (P, W, hit) in sorted(tabs.items()):
            if np.isnan(P).any() or np.isnan(W).any() or (hit != 1).any():
                if not any(v['instance'] == f'{f} {n}' for v in C.viol): C.violation('fill', f'{f} {n}', f'{f} size {n}: slots {np.where(np.isnan(W) | np.isnan(P).any(1))[0][:5]} not filled', table_where(f, n))
                continue
            jobs.append((P, W, order[n])); keys.append((f, n, order[n]))
        C.cov.setdefault('families', {})[f] = dict(sizes=len(tabs), max_order=max(order.values()))
    idx = sorted(range(len(jobs)), key=lambda i: -len(jobs[i][1]) * jobs[i][2]**2)
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    with ProcessPoolExecutor(8) as ex: res = list(ex.map(job, [jobs[i] for i in idx]))
    worst = []
    nh = 0
    for i, (dr, ir, ds, e, at, perl) in zip(idx, res):
        f, n, L = keys[i]; nh += (L + 1)**2
        where = table_where(f, n)
        worst.append((max(dr, ds, e), f, n, L, dr, ds, e, at))
        if dr > TOL_R: C.violation('unit-sphere', f'{f} {n}: {dr:.2e}', f'{f} size {n}: point {ir} is {dr:.3g} off the unit sphere', where)
        if ds > TOL_S: C.violation('weight-sum', f'{f} {n}: {ds:.2e}', f'{f} size {n}: weights sum to 4*pi*(1+-{ds:.3g})', where)
        if e > tol_h(f, n):
            l0 = int(np.argmax(perl > tol_h(f, n)))
            C.violation('harmonics', f'{f} {n}: advertised {L}, first failing degree {l0}, worst {e:.2e}', f'{f} size {n} (advertised order {L}): harmonics of degree {l0} and above are not integrated exactly; worst l,m={at} integrates to {e:.3g} instead of 0', where)
        C.ok(3); C.evals += (L + 1)**2
    worst.sort(reverse=True)
    for w in worst[:8]: C.samples.append(f'{w[1]} {w[2]} order {w[3]}: radius error {w[4]:.2e}, weight-sum error {w[5]:.2e}, worst harmonic {w[7]} error {w[6]:.2e}')
    if os.environ.get('VERIF_DEBUG'):
        for f in FAM:
            ws = [w for w in worst if w[1] == f]
            for k in (4, 5, 6): print(f, k, [f'{w[2]}:{w[k]:.1e}' for w in sorted(ws, key=lambda w: -w[k])[:5]])
    C.finish('Constant-table data analysis: the abstract interpreter resolves, for every integer size, which constant tables reach the returned points/weights and through which arithmetic (scale, copy, index); the resolved table data are then tested against all real spherical harmonics up to the advertised order obtained from the order look-up.', tables=len(jobs), harmonics_tested=nh, tolerance=dict(radius=TOL_R, weight_sum=TOL_S, harmonics='2e-13 (Ahrens-Beylkin above 4000 points: 2e-12)'))
if __name__ == '__main__': main(C, run)
