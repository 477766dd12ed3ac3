from lib import *
from p04 import check_vectors
C = Check('P05', rule='node and weight terms (Newton fixpoint over the three-term recurrence) denote the theoretical nodes and weights; the fixpoint has no normal exit without convergence')
SRC = '''
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/util/legendre.hpp>
using namespace IntegratorXX;
extern "C" void sink_p(const double*, size_t);
extern "C" void sink_w(const double*, size_t);
extern "C" void sink_l(double, double, double);
template <class Q> static void out(const Q& q){ sink_p(q.points().data(), q.points().size()); sink_w(q.weights().data(), q.weights().size()); }
extern "C" void drv_GaussLegendre(size_t n){ GaussLegendre<double,double> q(n); out(q); }
extern "C" void drv_GaussLobatto(size_t n){ GaussLobatto<double,double> q(n); out(q); }
extern "C" void drv_Pn(double x, size_t n){ auto t = eval_Pn(x, n); sink_l(std::get<0>(t), std::get<1>(t), std::get<2>(t)); }
'''
def leg(n, x):
    """P_n(x), P_n'(x), P_{n-1}(x)"""
    p, p1 = mp.mpf(1), mp.mpf(0)
    for m in range(1, n + 1): p, p1 = ((2*m - 1) * x * p - (m - 1) * p1) / m, p
    d = (x * p - p1) * n / (x*x - 1) if n else mp.mpf(0)
    return p, d, p1
_roots = {}
def gl_root(n, i):
    """i-th largest root of P_n, i = 1..n"""
    if 2*i == n + 1: return mp.mpf(0)
    if 2*i > n + 1: return -gl_root(n, n + 1 - i)
    k = ('l', n, i)
    if k not in _roots:
        x = mp.cos(mp.pi * (i - mp.mpf('0.25')) / (n + mp.mpf('0.5')))
        for _ in range(60):
            p, d, _p = leg(n, x); dx = p / d; x -= dx
            if abs(dx) < mp.mpf(10)**-45: break
        # i-th root bracket (theory: (i-1/2)/(n+1/2) < theta/pi < i/(n+1/2)... )
        th = mp.acos(x) / mp.pi
        assert (i - mp.mpf('0.5')) / (n + mp.mpf('0.5')) < th < i / (n + mp.mpf('0.5'))
        _roots[k] = x
    return _roots[k]
def glo_root(n, i):
    """i-th largest root of P'_{n-1}, i = 1..n-2"""
    N = n - 1
    if 2*i == n - 1: return mp.mpf(0)
    if 2*i > n - 1: return -glo_root(n, n - 1 - i)
    k = ('b', n, i)
    if k not in _roots:
        # bracketed by consecutive roots of P_N: bisection start, Newton on (1-x^2) P_N'
        lo, hi = gl_root(N, i + 1), gl_root(N, i)
        def f(x): p, d, q = leg(N, x); return x*p - q, N * 0 + p
        x = (lo + hi) / 2
        for _ in range(25):
            s = (x * leg(N, x)[0] - leg(N, x)[2]) ; t = hi * leg(N, hi)[0] - leg(N, hi)[2]
            if (s > 0) == (t > 0): hi = x
            else: lo = x
            x = (lo + hi) / 2
        for _ in range(60):
            p, d, q = leg(N, x); dx = (x*p - q) / (n * p); x -= dx
            if abs(dx) < mp.mpf(10)**-45: break
        _roots[k] = x
    return _roots[k]
def gl(n, q, r):
    x = gl_root(n, n - q); d = leg(n, x)[1]
    return x, 2 / ((1 - x*x) * d*d)
def glo(n, q, r):
    w = mp.mpf(2) / (n * (n - 1))
    if q in (0, n - 1): return mp.mpf(-1 if q == 0 else 1), w
    x = glo_root(n, n - 1 - q); p = leg(n - 1, x)[0]
    return x, w / (p*p)
GUESS = dict(GaussLegendre=lambda n, q: mp.cos(mp.pi * (n - q - mp.mpf('0.25')) / (n + mp.mpf('0.5'))), GaussLobatto=lambda n, q: mp.cos(mp.pi * q / (n - 1)))

def fixes(t): return [x for x in subterms(t) if x.op == 'fix']
def control(C, label, cell, term, side, loc):
    """every data-dependent loop behind the term: documented start, no exit without convergence, abnormal end otherwise"""
    done = set()
    for t in fixes(term):
        res, kn, m, ex, cont = t.a[:5]; phs, ins, nx = t.a[5:5 + m], t.a[5 + m:5 + 2*m], t.a[5 + 2*m:5 + 3*m]
        if (ex, cont) in done: continue
        done.add((ex, cont))
        for s in range(3):
            env = cell.sample(C.rng, big=30)
            if env is None or 2*env['q'] + 1 == env['n']: continue
            n, q = env['n'], env['q']
            base = Eval(env, {}, seed=s)
            g = GUESS[label](n, q); v = [base(x) for x in ins]
            if not any(abs(abs(x) - abs(g)) < mp.mpf(10)**-12 for x in v):
                C.violation('start', f'{label} start', f'{label}: the iteration for node {q} of {n} starts at {[mp.nstr(x, 12) for x in v]}, not at the documented guess +-{mp.nstr(g, 12)}', loc); return
            C.ok()
            # a state far from convergence must not leave the loop normally, whatever the iteration number
            z = mp.mpf(C.rng.uniform(0.2, 0.8)); vals = [z + mp.mpf(C.rng.uniform(-.05, .05)) * j for j in range(m)]
            e0 = base.sub(kn, 0, phs, vals); nv = [e0(x) for x in nx]
            if max(abs(a - b) for a, b in zip(nv, vals)) < mp.mpf(10)**-6: continue
            abnormal = False
            for k in list(range(0, 260)) + [500, 1000, 5000, 10**6, 2**31 - 2, 2**31 - 1]:
                e = base.sub(kn, k, phs, vals)
                for x in subterms(ex) | subterms(cont):      # reuse the real part of the conditions
                    if x in e0.memo and kn not in tsyms(x): e.memo[x] = e0.memo[x]
                if e.cond(ex):
                    C.violation('converged', f'{label} exit', f'{label}: the iteration for node {q} of {n} returns normally in iteration {k} although the step is {mp.nstr(max(abs(a - b) for a, b in zip(nv, vals)), 5)}', loc); return
                if not e.cond(cont): abnormal = True; break
            C.ok()
            if abnormal and not any(a.kind == 'throw' for c, a in side):
                C.violation('converged', f'{label} failure', f'{label}: a non-converging iteration is not reported by an exception', loc); return
def run(C):
    mod = C.module('gl', SRC)
    import p04
    for r, f, nmin in (('GaussLegendre', gl, 1), ('GaussLobatto', glo, 2)):
        fn = 'drv_' + r
        def body(I, cell, S):
            I.call(fn, [S['n']])
            got = {nm: a for nm, a, snap, i in I.sinks}
            if set(got) != {'sink_p', 'sink_w'}: raise CheckError(f'{fn}: result not observed')
            for nm in got:
                if not cell.decide_eq(psub(got[nm][1], S['n'])): return ('size', nm, got[nm][1])
            q = cell.add_root('q', 0, padd(S['n'], -1))
            return ('ok', [(nm, I.read(got[nm][0].o, padd(got[nm][0].off, pmul(8, q)), 8, 'd'), locs_of(got[nm][0].o)) for nm in ('sink_p', 'sink_w')])
        nfix = 0
        for cell, I, x in C.explore(mod, fn, body, roots=[('n', nmin, 2**31)]):
            if isinstance(x, Abort): C.violation('total', f'{r} aborts', f'{r}: construction fails ({describe_abort(x)}) for sizes such as {cell.sample(C.rng)}', x.loc); continue
            if x[0] == 'size': C.violation('size', f'{r} {x[1]}', f'{r}: {x[1]} has {x[2]!r} entries for size n'); continue
            for nm, v, loc in x[1]:
                k = nm == 'sink_w'; what = f'{r} {"weight" if k else "node"}'
                try: C.expect_term(v, lambda e, re, s: f(e['n'], e['q'], re)[k], cell, what, 'value', loc, samples=24 if C.thorough else 6)
                except NoExit as e: C.violation('value', what, f'{what}: the iteration fails where theory converges ({e})', loc)
                if isinstance(v, T): nfix += len(fixes(v)); control(C, r, cell, v, I.side, loc)
                if len(C.samples) < 12: C.samples.append(f'{what} on {cell.base}: {show(v) if isinstance(v, T) else v!r}'[:300])
            for o in I.oob: C.violation('bounds', f'{r} access', f'{r}: access out of bounds {o}', str(o))
            C.ok(len(I.obl))
        C.cov[r + '_fixpoint_terms'] = nfix
    def body(I, cell, S):
        I.call('drv_Pn', [T_('sym', 'x'), S['n']])
        return I.sinks[0][1]
    for cell, I, x in C.explore(mod, 'drv_Pn', body, roots=[('n', 0, 2**31)]):
        if isinstance(x, Abort): C.violation('total', 'eval_Pn aborts', f'eval_Pn: {describe_abort(x)}', x.loc); continue
        for j, nm in enumerate(('P_n', "P_n'", 'P_{n-1}')):
            C.expect_term(x[j], lambda e, re, s: leg(e['n'], re['x'])[j], cell, f'eval_Pn {nm}', 'recurrence', 'include/integratorxx/util/legendre.hpp', renv=lambda rng, env: dict(x=mp.mpf(rng.uniform(-.99, .99))), rtol=mp.mpf(10)**-20, atol=mp.mpf(10)**-25)
    C.finish('Abstract interpretation with n and the slot symbolic.  The data-dependent Newton loop becomes a fixpoint term over the recurrence term of eval_Pn; the term is interpreted in 50-digit arithmetic at sampled (n, slot) of each cell and compared with theory; separately the fixpoint start value, the absence of a normal exit without convergence and the exceptional end are decided on the fixpoint term itself.')
if __name__ == '__main__': main(C, run)
