from lib import *
C = Check('P04', rule='every slot of points/weights, over all sizes and indices, holds a value term equal to the defining closed form')
SRC = '''
#include <integratorxx/quadratures/primitive.hpp>
using namespace IntegratorXX;
extern "C" void sink_p(const double*, size_t);
extern "C" void sink_w(const double*, size_t);
template <class Q> static void out(const Q& q){ sink_p(q.points().data(), q.points().size()); sink_w(q.weights().data(), q.weights().size()); }
extern "C" void drv_GaussChebyshev1(size_t n){ GaussChebyshev1<double,double> q(n); out(q); }
extern "C" void drv_GaussChebyshev2(size_t n){ GaussChebyshev2<double,double> q(n); out(q); }
extern "C" void drv_GaussChebyshev2Modified(size_t n){ GaussChebyshev2Modified<double,double> q(n); out(q); }
extern "C" void drv_GaussChebyshev3(size_t n){ GaussChebyshev3<double,double> q(n); out(q); }
extern "C" void drv_UniformTrapezoid(size_t n, double lo, double up){ UniformTrapezoid<double,double> q(n,lo,up); out(q); }
extern "C" void drv_UniformTrapezoid01(size_t n){ auto [p,w] = quadrature_traits<UniformTrapezoid<double,double>>::generate(n); sink_p(p.data(),p.size()); sink_w(w.data(),w.size()); }
'''
pi = mp.pi
def gc1(n, q, r):
    x = -mp.cos((2*q + 1) * pi / (2*n)); return x, pi / n * mp.sqrt(1 - x*x)
def gc2(n, q, r):
    th = (n - q) * pi / (n + 1); return mp.cos(th), pi / (n + 1) * mp.sin(th)
def gc2m(n, q, r):
    i = n - q; t = i * pi / (n + 1); s, c = mp.sin(t), mp.cos(t)
    return 1 - mp.mpf(2*i) / (n + 1) + 2 / pi * (1 + mp.mpf(2) / 3 * s*s) * c * s, mp.mpf(16) / (3 * (n + 1)) * s**4
def gc3(n, q, r):
    i = n - q; t = (2*i - 1) * pi / (2 * (2*n + 1)); x = mp.cos(t)**2
    return x, 2*pi / (2*n + 1) * x * mp.sqrt((1 - x) / x)
def trap(n, q, r):
    lo, up = r.get('lo', mp.mpf(0)), r.get('up', mp.mpf(1)); h = (up - lo) / (n - 1)
    return lo + q*h, h / 2 if q in (0, n - 1) else h
RULES = dict(GaussChebyshev1=(gc1, 1), GaussChebyshev2=(gc2, 1), GaussChebyshev2Modified=(gc2m, 1), GaussChebyshev3=(gc3, 1), UniformTrapezoid=(trap, 2), UniformTrapezoid01=(trap, 2))

def renv(rng, env):
    lo = mp.mpf(rng.uniform(-3, 3)); return dict(lo=lo, up=lo + mp.mpf(rng.uniform(0.1, 4)))

def check_vectors(C, mod, fn, nmin, oracle, args=lambda S: [S['n']], renv=None, label=None, sides=True):
    label = label or fn
    def body(I, cell, S):
        I.call(fn, args(S))
        got = {nm: (a, snap) for nm, a, snap, i in I.sinks}
        if set(got) != {'sink_p', 'sink_w'}: raise CheckError(f'{fn}: result not observed')
        for nm in got:
            if not cell.decide_eq(psub(got[nm][0][1], S['n'])): return ('size', nm, got[nm][0][1], None)
        q = cell.add_root('q', 0, padd(S['n'], -1))
        res = []
        for nm in ('sink_p', 'sink_w'):
            p = got[nm][0][0]
            res.append((nm, I.read(p.o, padd(p.off, pmul(8, q)), 8, 'd'), locs_of(p.o)))
        return ('ok', res)
    for cell, I, r in C.explore(mod, fn, body, roots=[('n', nmin, 2**31)]):
        if isinstance(r, Abort):
            env = cell.sample(C.rng)
            C.violation('total', f'{label}: construction aborts', f'{label}: construction fails ({describe_abort(r)}) for sizes such as {env}', r.loc); continue
        if r[0] == 'size':
            C.violation('size', f'{label} {r[1]}', f'{label}: {r[1]} has {r[2]!r} entries for size n, cell {cell.base}'); continue
        if sides: C.no_aborts(I, cell, label, renv)
        for nm, v, loc in r[1]:
            k = 0 if nm == 'sink_p' else 1
            C.expect_term(v, lambda e, re, s: oracle(e['n'], e['q'], re)[k], cell, f'{label} {"node" if k == 0 else "weight"}', 'closed-form', loc, renv=renv)
            if len(C.samples) < 12: C.samples.append(f'{label} {"node" if k == 0 else "weight"} on {cell.base}: {show(v) if isinstance(v, T) else v!r}'[:400])
        for o in I.oob: C.violation('bounds', f'{label} access', f'{label}: access out of bounds {o}', str(o))
        C.ok(len(I.obl))

def run(C):
    mod = C.module('prim', SRC)
    for r, (f, nmin) in RULES.items():
        a = (lambda S: [S['n'], T_('sym', 'lo'), T_('sym', 'up')]) if r == 'UniformTrapezoid' else (lambda S: [S['n']])
        check_vectors(C, mod, 'drv_' + r, nmin, f, a, renv if r == 'UniformTrapezoid' else None, r)
    C.finish('Abstract interpretation of the compiler IR of each rule with the size n and the slot index q symbolic; every (n,q) cell of the trace partition yields one value term per slot, compared with the defining formula by random interpretation; in-bounds obligations of every access are discharged on the way.', rules=list(RULES))
if __name__ == '__main__': main(C, run)
