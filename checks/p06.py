from lib import *
import p04
C = Check('P06', rule='for every size and slot, node = published transformation of the underlying node and weight = underlying weight x derivative of that transformation')
SRC = '''
#include <integratorxx/quadratures/radial.hpp>
using namespace IntegratorXX;
extern "C" void sink_p(const double*, size_t);
extern "C" void sink_w(const double*, size_t);
template <class Q> static void out(const Q& q){ sink_p(q.points().data(), q.points().size()); sink_w(q.weights().data(), q.weights().size()); }
extern "C" void drv_Becke(size_t n, double R){ Becke<double,double> q(n, R); out(q); }
extern "C" void drv_MuraKnowles(size_t n, double R){ MuraKnowles<double,double> q(n, R); out(q); }
extern "C" void drv_MurrayHandyLaming(size_t n, double R){ MurrayHandyLaming<double,double> q(n, R); out(q); }
extern "C" void drv_TreutlerAhlrichs(size_t n, double R, double alpha){ TreutlerAhlrichs<double,double> q(n, R, alpha); out(q); }
extern "C" void drv_TreutlerAhlrichs_default(size_t n, double R){ TreutlerAhlrichs<double,double> q(n, R); out(q); }
extern "C" void drv_Becke_traits(size_t n, double R){ BeckeRadialTraits t(n, R); Becke<double,double> q(t); out(q); }
extern "C" void drv_Becke_base(size_t n, double R){ BeckeRadialTraits t(n, R); const RadialTraits& b = t; Becke<double,double> q(b); out(q); }
extern "C" void drv_MuraKnowles_base(size_t n, double R){ MuraKnowlesRadialTraits t(n, R); const RadialTraits& b = t; MuraKnowles<double,double> q(b); out(q); }
extern "C" void drv_MurrayHandyLaming_base(size_t n, double R){ MurrayHandyLamingRadialTraits<2> t(n, R); const RadialTraits& b = t; MurrayHandyLaming<double,double> q(b); out(q); }
extern "C" void drv_TreutlerAhlrichs_base(size_t n, double R, double alpha){ TreutlerAhlrichsRadialTraits t(n, R, alpha); const RadialTraits& b = t; TreutlerAhlrichs<double,double> q(b); out(q); }
extern "C" void drv_unit_Becke(size_t n){ BeckeRadialTraits t(n); Becke<double,double> q(t); out(q); }
extern "C" void drv_unit_MuraKnowles(size_t n){ MuraKnowlesRadialTraits t(n); MuraKnowles<double,double> q(t); out(q); }
extern "C" void drv_unit_MurrayHandyLaming(size_t n){ MurrayHandyLamingRadialTraits<2> t(n); MurrayHandyLaming<double,double> q(t); out(q); }
extern "C" void drv_unit_TreutlerAhlrichs(size_t n){ TreutlerAhlrichsRadialTraits t(n); TreutlerAhlrichs<double,double> q(t); out(q); }
''' + ''.join(f'''
#define Q{m} RadialTransformQuadrature<UniformTrapezoid<double,double>, MurrayHandyLamingRadialTraits<{m}>>
extern "C" void drv_MHL_{m}(size_t n, double R){{ Q{m} q(MurrayHandyLamingRadialTraits<{m}>(n, R)); out(q); }}
''' for m in (1, 2, 3, 4))
def inner(n, q):      # interior nodes of the (n+2)-point trapezoid rule on [0,1]
    h = mp.mpf(1) / (n + 1); return (q + 1) * h, h
def becke(n, q, r):
    R = r.get('R', 1); x, w = p04.gc2(n, q, r); return R * (1 + x) / (1 - x), w * R * 2 / (1 - x)**2
def mk(n, q, r):
    R = r.get('R', 1); x, w = inner(n, q); return -R * mp.log(1 - x**3), w * R * 3 * x*x / (1 - x**3)
def mhl(M):
    def f(n, q, r):
        R = r.get('R', 1); x, w = inner(n, q); return R * (x / (1 - x))**M, w * R * M * x**(M - 1) / (1 - x)**(M + 1)
    return f
def ta(n, q, r):
    R, al = r.get('R', 1), r.get('alpha', mp.mpf('0.6')); x, w = p04.gc2(n, q, r); l2 = mp.log(2); L = mp.log(2 / (1 - x)); P = (1 + x)**al
    return R * P * L / l2, w * R * P / l2 * (al * L / (1 + x) + 1 / (1 - x))
def renv(rng, env): return dict(R=mp.mpf(rng.choice([rng.uniform(0.2, 5), rng.uniform(0.2, 5), rng.uniform(5, 1000), rng.uniform(1e-3, 0.2), 1.0])), alpha=mp.mpf(rng.choice([rng.uniform(0.1, 1), rng.uniform(1, 4), 0.0, 0.5, 0.6, 1.0, 2.0])))
RULES = {'Becke': (becke, 'R'), 'MuraKnowles': (mk, 'R'), 'MurrayHandyLaming': (mhl(2), 'R'), 'TreutlerAhlrichs': (ta, 'Ra'), 'TreutlerAhlrichs_default': (lambda n, q, r: ta(n, q, dict(R=r['R'])), 'R'),
         'Becke_traits': (becke, 'R'), 'Becke_base': (becke, 'R'), 'MuraKnowles_base': (mk, 'R'), 'MurrayHandyLaming_base': (mhl(2), 'R'), 'TreutlerAhlrichs_base': (ta, 'Ra'),
         'unit_Becke': (becke, ''), 'unit_MuraKnowles': (mk, ''), 'unit_MurrayHandyLaming': (mhl(2), ''), 'unit_TreutlerAhlrichs': (ta, '')}
for m in (1, 2, 3, 4): RULES[f'MHL_{m}'] = (mhl(m), 'R')
def run(C):
    mod = C.module('radial', SRC)
    for r, (f, par) in RULES.items():
        def args(S): return [S['n']] + ([T_('sym', 'R')] if 'R' in par else []) + ([T_('sym', 'alpha')] if 'a' in par else [])
        g = f if par else (lambda n, q, e, f=f: f(n, q, {}))
        p04.check_vectors(C, mod, 'drv_' + r, 1, g, args, renv, r)
    C.finish('Abstract interpretation with symbolic size, slot, scale R and exponent alpha (and M = 1..4 for the Murray-Handy-Laming family), for construction from named parameters, from the traits object and from the polymorphic traits base; each slot term is compared with the published transformation / its derivative by random interpretation.', rules=list(RULES))
if __name__ == '__main__': main(C, run)
