from lib import *
C = Check('P19', rule='the mapped node is an increasing function of the node onto the requested interval and the weight is multiplied by its derivative')
SRC = '''
#include <integratorxx/util/bound_transform.hpp>
using namespace IntegratorXX;
extern "C" void sink_r(double, double);
static constexpr double inf = std::numeric_limits<double>::infinity();
#define D(NM, LO, UP, ...) extern "C" void drv_##NM(__VA_ARGS__){ auto r = transform_minus_one_to_one<double,double>(LO, UP, x, w); sink_r(std::get<0>(r), std::get<1>(r)); }
D(fin, lo, up, double lo, double up, double x, double w)
D(upinf, lo, inf, double lo, double x, double w)
D(loinf, -inf, up, double up, double x, double w)
D(both, -inf, inf, double x, double w)
D(same, -1.0, 1.0, double x, double w)
D(unit, 0.0, 1.0, double x, double w)
D(huge, lo, up, double lo, double up, double x, double w)
D(maxfin, -std::numeric_limits<double>::max(), up, double up, double x, double w)
D(maxup, lo, std::numeric_limits<double>::max(), double lo, double x, double w)
'''
ARGS = dict(fin=('lo', 'up'), upinf=('lo',), loinf=('up',), both=(), same=(), unit=(), huge=('lo', 'up'), maxfin=('up',), maxup=('lo',))
INF = mp.inf; MAX = mp.mpf(sys.float_info.max)
def interval(k, re):
    return {'same': (mp.mpf(-1), mp.mpf(1)), 'unit': (mp.mpf(0), mp.mpf(1)), 'both': (-INF, INF), 'maxfin': (-MAX, re.get('up')), 'maxup': (re.get('lo'), MAX),
            'upinf': (re.get('lo'), INF), 'loinf': (-INF, re.get('up'))}.get(k, (re.get('lo'), re.get('up')))
def run(C):
    mod = C.module('bt', SRC)
    n = 200 if C.thorough else 40
    for k, args in ARGS.items():
        fn = 'drv_' + k
        def body(I, cell, S):
            I.call(fn, [T_('sym', a) for a in args + ('x', 'w')])
            if len(I.sinks) != 1: raise CheckError('result not observed')
            return I.sinks[0][1]
        for cell, I, r in C.explore(mod, fn, body):
            loc = first_loc(mod, fn)
            if isinstance(r, Abort): C.violation('total', k, f'{k}: mapping fails: {describe_abort(r)}', r.loc); continue
            def ev(t, re, seed): return Eval({}, re, seed=seed)(real(t))
            bad = None
            for s in range(n):
                scale = mp.mpf(10) ** C.rng.randint(-3, 3) if k != 'huge' else mp.mpf(10) ** C.rng.randint(8, 300)
                lo = mp.mpf(C.rng.uniform(-3, 3)) * scale; up = lo + mp.mpf(C.rng.uniform(0.05, 4)) * scale
                if s % 7 == 3: lo = mp.mpf(0); up = scale
                if s % 7 == 5: up = mp.mpf(0); lo = -scale
                if k in ('maxfin',): up = mp.mpf(C.rng.uniform(-3, 3)); 
                if k in ('maxup',): lo = mp.mpf(C.rng.uniform(-3, 3))
                x = mp.mpf(C.rng.choice([C.rng.uniform(-1, 1), C.rng.uniform(-0.02, 0.02), 1 - C.rng.uniform(0, .01), -1 + C.rng.uniform(0, .01), 0.0]))
                w = mp.mpf(C.rng.uniform(0.1, 2))
                re = dict(lo=lo, up=up, x=x, w=w); C.evals += 1
                for cond, a in I.side:
                    if isinstance(cond, T) and Eval({}, re, seed=s).cond(cond): bad = bad or ('total', f'fails ({describe_abort(a)})', re)
                a, b = interval(k, re)
                old = mp.mp.dps
                try:
                    mp.mp.dps = 90 if k not in ('huge', 'maxfin', 'maxup') else 700
                    y, v = ev(r[0], re, s), ev(r[1], re, s)
                    h = mp.mpf(10) ** -30 if k not in ('huge', 'maxfin', 'maxup') else mp.mpf(10) ** -60
                    d = (ev(r[0], dict(re, x=x + h), s) - ev(r[0], dict(re, x=x - h), s)) / (2 * h)
                    e = mp.mpf(10) ** -25
                    y0, y1 = ev(r[0], dict(re, x=-1 + e), s), ev(r[0], dict(re, x=1 - e), s)
                finally: mp.mp.dps = old
                if mp.isnan(y) or not (a < y < b): bad = bad or ('inside', f'maps to {mp.nstr(y, 15)} outside ({mp.nstr(a, 8)},{mp.nstr(b, 8)})', re)
                elif not d > 0: bad = bad or ('monotone', f'mapping is not increasing (derivative {mp.nstr(d, 10)})', re)
                elif mp.isnan(v) or abs(v - w * d) > mp.mpf(10) ** -14 * abs(w * d): bad = bad or ('jacobian', f'weight factor {mp.nstr(v / w, 17)} is not the derivative {mp.nstr(d, 17)} of the mapping', re)
                sz = abs(a) if a != -INF else mp.mpf(1); su = abs(b) if b != INF else mp.mpf(1)
                if not bad and (abs(y0 - a) > mp.mpf(10) ** -10 * (1 + sz + (su if b != INF else 0)) if a != -INF else y0 > -mp.mpf(10) ** 20): bad = ('onto', f'the lower end maps to {mp.nstr(y0, 10)}, not {mp.nstr(a, 10)}', re)
                if not bad and (abs(y1 - b) > mp.mpf(10) ** -10 * (1 + su + (sz if a != -INF else 0)) if b != INF else y1 < mp.mpf(10) ** 20): bad = ('onto', f'the upper end maps to {mp.nstr(y1, 10)}, not {mp.nstr(b, 10)}', re)
                if k == 'same' and not bad and (abs(y - x) > 1e-25 or abs(v - w) > 1e-25): bad = ('identity', f'(-1,1) onto itself changes the rule: {mp.nstr(y, 15)}, weight factor {mp.nstr(v / w, 15)}', re)
                if bad: break
            if bad: C.violation(bad[0], k, f'transform_minus_one_to_one [{k}]: {bad[1]} at {dict((q, mp.nstr(z, 12)) for q, z in bad[2].items())}; node term {show(r[0])}; weight term {show(r[1])}'[:1500], loc)
            else:
                C.ok(5)
                C.samples.append(f'{k}: node {show(real(r[0]))}, weight {show(real(r[1]))}'[:300])
            for o in I.oob: C.violation('bounds', k, str(o), str(o))
    C.finish('Value terms of the mapped node and weight for finite, half-infinite and doubly infinite bounds (finite bounds symbolic, including the largest finite doubles); the weight factor is compared with the derivative of the node term, which must be positive, map onto the interval and be the identity for (-1,1).', drivers=list(ARGS))
def first_loc(mod, fn):
    for b in mod.fns[fn].blocks.values():
        for i in b:
            for file, line, nm in i.get('l') or ():
                if 'integratorxx' in file: return f"{file.split('include/')[-1]}:{line} {nm}"
if __name__ == '__main__': main(C, run)
