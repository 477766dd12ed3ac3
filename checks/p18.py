from batchlib import *
import p04, p05, p06, p07, p08, p09, p13, s2lib
C = Check('P18', rule='accessors: index < size gives that element, any other index throws; library loops: every load, store and copy stays inside its object, for all sizes')
P3 = lambda p: 'pt3{' + ', '.join(p + c for c in 'xyz') + '}'
A3 = lambda p: ', '.join(f'double {p}{c}' for c in 'xyz')
# ------------------------------------------------------------------ accessors
ACC = MOCK + SEARCH + GRID.replace('using pt3 = std::array<double,3>; using SB = SphericalQuadratureBase<std::vector<pt3>, std::vector<double>>; ', '') + '''
using RB = QuadratureBase<std::vector<double>, std::vector<double>>; using AB = QuadratureBase<std::vector<pt3>, std::vector<double>>;
extern "C" void sink_d(double); extern "C" void sink_3(double, double, double); extern "C" void sink_b(const double*, size_t, const double*, size_t);
static void put(double x) { sink_d(x); } static void put(const pt3& x) { sink_3(x[0], x[1], x[2]); }
template <class V> static void put(const V& v) { auto& [lo, up, p, w] = v; sink_b((const double*)p.data(), p.size(), w.data(), w.size()); vf_done(); }
'''
ACCS = {}
for nm, mk in {'rule': 'RQ q(1, n);', 'copy': 'RQ q0(1, n); RQ q(q0);', 'base': 'RQ q0(1, n); const Quadrature<RQ>& q = q0;', 'root': 'RQ q0(1, n); const RB& q = q0;', 'const': 'const RQ q(1, n);'}.items():
    for what in ('points', 'weights'):
        ACCS[f'r_{nm}_{what}'] = (1, what, 0); ACC += f'extern "C" void drv_r_{nm}_{what}(size_t n, size_t i){{ {mk} put(q.{what}(i)); }}\n'
for nm, mk in {'rule': 'AQ q(2, n);', 'copy': 'AQ q0(2, n); AQ q(std::move(q0));', 'base': 'AQ q0(2, n); const Quadrature<AQ>& q = q0;', 'root': 'AQ q0(2, n); const AB& q = q0;'}.items():
    for what in ('points', 'weights'):
        ACCS[f'a_{nm}_{what}'] = (2, what, 0); ACC += f'extern "C" void drv_a_{nm}_{what}(size_t n, size_t i){{ {mk} put(q.{what}(i)); }}\n'
for nm, mk in {'sub': 'RQ q0(1, n); SubQuadrature<RQ> q(std::make_pair((size_t)1, n), q0);'}.items():
    for what in ('points', 'weights'):
        ACCS[f'r_{nm}_{what}'] = (1, what, 1); ACC += f'extern "C" void drv_r_{nm}_{what}(size_t n, size_t i){{ {mk} put(q.{what}(i)); }}\n'
BAT = {}
for K in (0, 1, 2, 3):
    idx = ', '.join(['0'] + [f'c{k}' for k in range(1, K)] + (['n'] if K else [])); cuts = ''.join(f', size_t c{k}' for k in range(1, K))
    for nm, acc in (('at', 'b.at(i)'), ('cat', 'c.at(i)')):
        BAT[f'b{K}_{nm}'] = K
        ACC += f'extern "C" void drv_b{K}_{nm}(size_t n{cuts}, size_t i){{ MB b(1, MG({"n" if K else "0"}, pt3{{0., 0., 0.}}), std::vector<size_t>{{{idx}}}); const MB& c = b; put({acc}); }}\n'
ACC += '''
static std::vector<size_t> cutlist(size_t K, size_t s) { std::vector<size_t> v(K + 1); for(size_t k = 0; k <= K; ++k) v[k] = k * s; return v; }
extern "C" void drv_many_at(size_t K, size_t s, size_t i){ MB b(1, MG(K * s, pt3{0., 0., 0.}), cutlist(K, s)); put(b.at(i)); }
extern "C" void drv_many_cat(size_t K, size_t s, size_t i){ MB b(1, MG(K * s, pt3{0., 0., 0.}), cutlist(K, s)); const MB& c = b; put(c.at(i)); }
'''
TOP = 2**64 - 1
def refused(C, lab, r, cell, inside, size):
    """the path of a cell: returns True when it delivers an element that has to be compared"""
    s = cell.sample(C.rng, big=30)
    if s is None and cell.empty(): return False
    if inside:
        if isinstance(r, Abort): C.violation('accessor', f'{lab} in range', f'{lab}: index in range fails ({describe_abort(r)}), e.g. {s}', r.loc); return False
        return True
    if isinstance(r, Abort) and r.kind == 'throw': C.ok()
    elif isinstance(r, Abort): C.violation('accessor', f'{lab} out of range', f'{lab}: index out of range ends in {describe_abort(r)} instead of an exception, e.g. {s}', r.loc)
    else: C.violation('accessor', f'{lab} out of range', f'{lab}: an index out of range ({size}) yields a value instead of an exception, e.g. {s}')
    return False
def accessor(C, mod, nm):
    rid, what, off = ACCS[nm]; lab = nm.replace('_', ' ')
    def body(I, cell, S):
        inside = cell.decide_ge(psub(psub(psub(S['n'], off), 1), S['i']))
        try: I.call('drv_' + nm, [S['n'], S['i']]); r = sinks(I)
        except Abort as a: r = a
        return inside, r
    for cell, I, (inside, g) in C.explore(mod, 'drv_' + nm, body, roots=[('n', 2 if off else 0, 2**31), ('i', 0, TOP)]):
        for o in I.oob: C.violation('bounds', lab, f'{lab}: {o}', str(o))
        if not refused(C, lab, g, cell, inside, 'n'): continue
        for cond, a in [x[:2] for x in I.side]: raise Unknown(f'{lab}: conditional failure')
        v = list((g.get('sink_d') or g['sink_3'])[0][0])
        want = (lambda en, s: [rp(1, en['i'] + off, s)] if what == 'points' else [rw(1, en['i'] + off, s)]) if rid == 1 else (lambda en, s: ap(2, en['i'], s) if what == 'points' else [aw(2, en['i'], s)])
        for x, t in enumerate(v): C.expect_term(t, lambda en, e, s: want(en, s)[x], cell, f'{lab} element', 'accessor')
def batch(C, mod, nm, K):
    lab = f'batch {nm}'
    def body(I, cell, S):
        arm(I, cell)
        b = [0] + [S[f'c{k}'] for k in range(1, K)] + ([S['n']] if K else [])
        inside = cell.decide_ge(psub(K - 1, S['i']))
        try: I.call('drv_' + nm, [S['n']] + b[1:-1] + [S['i']]); g = sinks(I)
        except Abort as a: return inside, a, b, None, None
        if not inside: return inside, g, b, None, None
        k = next((k for k in range(K) if cell.decide_eq(psub(S['i'], k))), None); a, sn = g['sink_b'][0]; v = None
        ok = all([cell.decide_eq(psub(x, psub(b[k + 1], b[k]))) for x in (a[1], a[3])])
        if ok:
            j = cell.add_root('j', 0, psub(psub(b[k + 1], b[k]), 1))
            v = [read_at(I, a[0].o, sn, padd(a[0].off, padd(pmul(24, j), 8*x))) for x in range(3)] + [read_at(I, a[2].o, sn, padd(a[2].off, pmul(8, j)))]
        return inside, g, b, k, v
    roots = [('n', max(K, 1), 2**20)] + [(f'c{k}', k, 2**20) for k in range(1, K)] + [('i', 0, TOP)]
    pre = [lambda S, k=k: psub(psub(S[f'c{k+1}'], S[f'c{k}']), 1) for k in range(1, K - 1)] + ([lambda S: psub(psub(S['n'], S[f'c{K-1}']), 1)] if K > 1 else [])
    for cell, I, (inside, g, b, k, v) in C.explore(mod, 'drv_' + nm, body, roots=roots, pre=pre):
        for o in I.oob: C.violation('bounds', lab, f'{lab}: {o}', str(o))
        if not refused(C, lab, g, cell, inside, f'{K} batches'): continue
        if v is None: C.violation('accessor', f'{lab} element', f'{lab}: at({k}) yields a batch of another length'); continue
        for x in range(4): C.expect_term(v[x], lambda en, e, s: uf('uf_g' + 'xyzw'[x], s, (peval(b[k], en) if isinstance(b[k], Poly) else b[k]) + en['j']), cell, f'{lab} batch {k}', 'accessor', samples=3)
def many(C, mod, nm):
    lab = f'any number of batches {nm}'
    def body(I, cell, S):
        arm(I, cell)
        K, s, i = S['K'], S['s'], S['i']
        inside = cell.decide_ge(psub(psub(K, 1), i))
        cell.assume(psub(2**41, pmul(K, s))); cell.assume(psub(pmul(K, s), 1))
        if inside: cell.assume(pmul(psub(psub(K, 1), i), s)); cell.assume(pmul(i, s))
        try: I.call('drv_' + nm, [K, s, i]); g = sinks(I)
        except Abort as a: return inside, a, None
        if not inside: return inside, g, None
        a, sn = g['sink_b'][0]; v = None
        if all([cell.decide_eq(psub(x, s)) for x in (a[1], a[3])]):
            j = cell.add_root('j', 0, psub(s, 1))
            v = [read_at(I, a[0].o, sn, padd(a[0].off, padd(pmul(24, j), 8*x))) for x in range(3)] + [read_at(I, a[2].o, sn, padd(a[2].off, pmul(8, j)))]
        return inside, g, v
    for hi in (False, True):
        for cell, I, (inside, g, v) in C.explore(mod, 'drv_' + nm, body, roots=[('K', 1, 2**20), ('s', 1, 2**20), ('i', 2**31 if hi else 0, TOP if hi else 2**31 - 1)]):
            for o in I.oob: C.violation('bounds', lab, f'{lab}: {o}', str(o))
            if not refused(C, lab, g, cell, inside, 'K batches'): continue
            if v is None: C.violation('accessor', f'{lab} element', f'{lab}: at(i) yields a batch of another length'); continue
            for x in range(4): C.expect_term(v[x], lambda en, e, s: uf('uf_g' + 'xyzw'[x], s, en['i'] * en['s'] + en['j']), cell, f'{lab} element', 'accessor')
# ------------------------------------------------------------------ library loops
SUB = MOCK + f'''
template <class Q> static void show(const Q& q) {{ sink_p((const double*)q.points().data(), q.points().size()); sink_w(q.weights().data(), q.weights().size()); }}
extern "C" void drv_subr(size_t n, size_t a, size_t b){{ RQ r(1, n); SubQuadrature<RQ> s(std::make_pair(a, b), r); show(s); }}
'''
BATCH = '''
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
''' + SEARCH + GRID + f'''
extern "C" void sink_b(const double*, size_t, const double*, size_t);
template <class B> static void show(B& b) {{ for(auto it = b.begin(); it != b.end(); ++it) {{ auto [lo, up, p, w] = *it; sink_b((const double*)p.data(), p.size(), w.data(), w.size()); vf_done(); }} }}
''' + ''.join(f'''
extern "C" void drv_it{K}(size_t n{''.join(f", size_t c{k}" for k in range(1, K))}, {A3("o")}, {A3("p")}){{ MB b(1, MG(n, {P3("o")}), std::vector<size_t>{{{', '.join(['0'] + [f'c{k}' for k in range(1, K)] + ['n'])}}}); show(b); b.recenter({P3("p")}); MB d = b.clone(); show(d); }}
''' for K in (1, 2, 3))
def loops(C, mod, fn, roots, args, pre=(), label=None, arming=False, renv=None, sink_ok=True):
    lab = label or fn[4:]
    def body(I, cell, S):
        if arming: arm(I, cell)
        try: I.call(fn, args(S))
        except Abort as a: return a
    done = 0
    for cell, I, r in C.explore(mod, fn, body, roots=roots, pre=pre, maxcells=40000):
        for o in I.oob: C.violation('bounds', f'{lab} {o[3]}', f'{lab}: {o[0]} outside its object ({o[1]}, offset {o[2]}), e.g. {cell.sample(C.rng, big=60)}', str(o[3]))
        if isinstance(r, Abort):
            if r.kind == 'oob': C.violation('bounds', f'{lab} {r.loc}', f'{lab}: {describe_abort(r)}, e.g. {cell.sample(C.rng, big=60)}', r.loc)
            continue
        done += 1
        for cond, a in [x[:2] for x in I.side]:
            if a.kind != 'oob': continue
            for t in range(40):
                env = cell.sample(C.rng, big=60)
                if env is None: break
                re = renv(C.rng, env) if renv else {}
                if cond is True or Eval(env, re, seed=t).cond(cond): C.violation('bounds', f'{lab} {a.loc}', f'{lab}: {describe_abort(a)}, e.g. {env}', a.loc); break
        C.ok(len(I.obl))
    if not done: raise Unknown(f'{lab}: no path completes')
    if len(C.samples) < 12: C.samples.append(f'{lab}: {done} completing cells')
def syms(*n): return lambda S: [S[x] if x in S else T_('sym', x) for x in n]
def run(C):
    macc, mprim, mgl, mrad, mprod, mrec, mbat, msub = [m for m in C.modules([('acc', ACC), ('prim', p04.SRC), ('gl', p05.SRC), ('radial', p06.SRC), ('prod', p07.SRC), ('recenter', p09.SRC), ('batch', BATCH), ('sub', SUB)]).values()]
    KR = 4 if C.thorough else 3
    mpr = C.modules([(f'pr{k}', MOCK + p08.drv(k)) for k in range(1, KR + 1)])
    ms2 = s2lib.build(C, look=False)
    jobs = [lambda nm=nm: accessor(C, macc, nm) for nm in ACCS] + [lambda nm=nm, K=K: batch(C, macc, nm, K) for nm, K in BAT.items()] + [lambda nm=nm: many(C, macc, nm) for nm in ('many_at', 'many_cat')]
    n1 = [('n', 1, 2**31)]; n2 = [('n', 2, 2**31)]
    for r, (f, lo) in p04.RULES.items(): jobs.append(lambda r=r, lo=lo: loops(C, mprim, 'drv_' + r, [('n', lo, 2**31)], syms('n', 'lo', 'up') if r == 'UniformTrapezoid' else syms('n'), renv=p04.renv))
    for r, lo in (('GaussLegendre', 1), ('GaussLobatto', 2)): jobs.append(lambda r=r, lo=lo: loops(C, mgl, 'drv_' + r, [('n', lo, 2**31)], syms('n')))
    for r, (f, par) in p06.RULES.items(): jobs.append(lambda r=r, par=par: loops(C, mrad, 'drv_' + r, n1, syms('n', *(['R'] if 'R' in par else []), *(['alpha'] if 'a' in par else [])), renv=p06.renv))
    z2 = [('n1', 0, 2**20), ('n2', 0, 2**20)]
    for fn, cen in (('drv_centre', True), ('drv_default', False), ('drv_base', True)): jobs.append(lambda fn=fn, cen=cen: loops(C, mprod, fn, z2, syms('n1', 'n2', *(CEN if cen else ())), label='product ' + fn[4:]))
    for fn, ps in p09.DRV.items(): jobs.append(lambda fn=fn, ps=ps: loops(C, mrec, fn, [('n1', 1, 2**20), ('n2', 1, 2**20)], syms('n1', 'n2', *[p + c for p in ps for c in 'xyz']), label='recentring ' + fn[4:], renv=p09.renv_for(ps)))
    for fn in ('drv_subr',): jobs.append(lambda fn=fn: loops(C, msub, fn, [('n', 1, 2**20), ('a', 0, 2**20), ('b', 1, 2**20)], syms('n', 'a', 'b'), pre=[lambda S: psub(S['n'], S['b']), lambda S: psub(psub(S['b'], S['a']), 1)], label='sub-range ' + fn[4:]))
    for k in range(1, KR + 1):
        for kind in ('ctor', 'add'):
            lo = 1 if k <= 2 else 2
            def args(S, k=k):
                B = [0]
                for m in range(k): B.append(padd(B[-1], S[f'l{m}']))
                return [B[k]] + B[1:k] + [S[f'm{m}'] for m in range(k)] + rsym(*CEN)
            jobs.append(lambda k=k, kind=kind, args=args, lo=lo: loops(C, mpr[f'pr{k}'], f'drv_{kind}_{k}', [(f'l{m}', lo, 2**20) for m in range(k)] + [(f'm{m}', lo, 2**16) for m in range(k)], args, label=f'pruned {kind} {k}'))
    for K in (1, 2, 3):
        pre = [lambda S, k=k: psub(psub(S[f'c{k+1}'], S[f'c{k}']), 1) for k in range(1, K - 1)] + ([lambda S, K=K: psub(psub(S['n'], S[f'c{K-1}']), 1)] if K > 1 else [])
        jobs.append(lambda K=K, pre=pre: loops(C, mbat, f'drv_it{K}', [('n', K, 2**20)] + [(f'c{k}', k, 2**20) for k in range(1, K)], syms('n', *[f'c{k}' for k in range(1, K)], *[a + c for a in 'op' for c in 'xyz']), pre=pre, arming=True, label=f'batch traversal {K}'))
    for f in s2lib.FAM: jobs.append(lambda f=f: loops(C, ms2[f], 'drv_gen_' + f, [('n', 0, 2**40)], syms('n'), label=f))
    C.parallel(jobs[::-1])
    C.finish('Accessors over every 64-bit index and symbolic sizes (from zero), through rules, copies, base-class references, sub-ranges and batches; every load, store and copy of the construction, product, pruning, sub-range, recentring and batch traversal code checked against the extent of the object it addresses, sizes symbolic.')
if __name__ == '__main__': main(C, run)
