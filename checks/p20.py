from batchlib import *
C = Check('P20', rule='step k of every traversal yields element k (range, box-free contents) and exactly as many steps as elements; == and != agree with positions; iterator copies unaffected; every operation compiles on its iterator type')
A3 = lambda p: ', '.join(f'double {p}{c}' for c in 'xyz')
P3 = lambda p: 'pt3{' + ', '.join(p + c for c in 'xyz') + '}'
# ---- operations that must be usable (each compiled on its own)
WIT_HEAD = MOCK + '''
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using MB = SphericalMicroBatcher<std::vector<pt3>, std::vector<double>>;
'''
OPS = {'pre-increment': '++it;', 'post-increment': 'it++;', 'value of the post-increment': 'auto x = it++; (void)(x == it);', 'value of the pre-increment': 'auto& x = ++it; (void)(x == it);', 'addition': 'auto x = it + 1; (void)(x == it);', 'equality': '(void)(it == e);', 'equality of an iterator with itself': '(void)(it == it);',
       'inequality': '(void)(it != e);', 'dereference': 'auto x = *it; (void)x;', 'copy': 'auto x = it; (void)x;', 'assignment': 'auto x = it; x = e;', 'comparison of temporaries': '(void)(BEG == END); (void)(BEG != END);', 'traversal': 'for(auto i = BEG; i != END; ++i) { auto x = *i; (void)x; }', 'traversal with post-increment': 'for(auto i = BEG; i != END; i++) { auto x = *i; (void)x; }'}
OBJ = {'batches (mutable)': ('MB& c', 'c.begin()', 'c.end()'), 'batches (const)': ('const MB& c', 'c.cbegin()', 'c.cend()'),
       'batches (const iterators of a mutable object)': ('MB& c', 'c.cbegin()', 'c.cend()'),
       'partition (mutable)': ('GP& c', 'c.begin()', 'c.end()'), 'partition (const)': ('const GP& c', 'c.begin()', 'c.end()'), 'partition (cbegin)': ('const GP& c', 'c.cbegin()', 'c.cend()'), 'partition (const iterators of a mutable object)': ('GP& c', 'c.cbegin()', 'c.cend()')}
WIT = []
for o, (par, b, e) in OBJ.items():
    for op, code in OPS.items(): WIT.append((f'{o}: {op}', f'void w@({par}) {{ auto it = {b}; auto e = {e}; (void)e; {code.replace("BEG", b).replace("END", e)} }}'))
    if 'batches' in o: WIT.append((f'{o}: range of a batch', f'void w@({par}) {{ auto it = {b}; auto r = it.range(); (void)r; }}'))
for o, par in (('mutable', 'MB& c'), ('const', 'const MB& c')): WIT.append((f'batches ({o}): indexed access', f'void w@({par}) {{ auto x = c.at(0); (void)x; }}'))
for o, par in (('mutable batches', 'MB& c'), ('mutable partition', 'GP& c'), ('const partition', 'const GP& c')): WIT.append((f'range-based loop over {o}', f'void w@({par}) {{ for(auto&& x : c) (void)x; }}'))
# ---- traversals
SRC = MOCK + SEARCH + GRID.replace('using pt3 = std::array<double,3>; using SB = SphericalQuadratureBase<std::vector<pt3>, std::vector<double>>; ', '') + '''
extern "C" void sink_r(int, size_t, size_t, const double*, size_t, const double*, size_t); extern "C" void sink_v(int, size_t, const double*, size_t, const double*, size_t);
extern "C" void sink_k(int, size_t); extern "C" void sink_eq(int, int, int, int); extern "C" void sink_g(int, size_t, size_t, size_t, const double*, size_t, const double*, size_t);
template <class I> static void rng(int tag, size_t k, I& it) { auto [n, pb, pe, wb, we] = it.range(); sink_r(tag, k, n, (const double*)&*pb, pe - pb, &*wb, we - wb); }
template <class V> static void val(int tag, size_t k, const V& v) { auto& [lo, up, p, w] = v; sink_v(tag, k, (const double*)p.data(), p.size(), w.data(), w.size()); vf_done(); }
template <class I> static void el(int tag, size_t k, I& it) { rng(tag, k, it); val(tag, k, *it); }
template <class V> static void reg(int tag, size_t k, const V& v) { sink_g(tag, k, v.first.first, v.first.second, (const double*)v.second.points().data(), v.second.npts(), v.second.weights().data(), v.second.weights().size()); }
template <class V> static void el(int tag, size_t k, typename GP::template rgp_iterator<V, typename std::vector<Quadrature<AQ>>::iterator>& it) { reg(tag, k, *it); }
template <class V> static void el(int tag, size_t k, typename GP::template rgp_iterator<V, typename std::vector<Quadrature<AQ>>::const_iterator>& it) { reg(tag, k, *it); }
'''.replace('template <class V> static void el(int tag, size_t k, typename GP::template rgp_iterator<V, typename std::vector<Quadrature<AQ>>::iterator>& it) { reg(tag, k, *it); }\n', 'static void el(int tag, size_t k, GP::iterator& it) { reg(tag, k, *it); }\n'
 ).replace('template <class V> static void el(int tag, size_t k, typename GP::template rgp_iterator<V, typename std::vector<Quadrature<AQ>>::const_iterator>& it) { reg(tag, k, *it); }\n', 'static void el(int tag, size_t k, GP::const_iterator& it) { reg(tag, k, *it); }\n') + '''
#define WALK(TAG, BEG, END) \\
  { size_t k = 0; for(auto it = BEG; it != END; ++it) el(TAG, k++, it); sink_k(TAG, k); } \\
  { size_t k = 0; for(auto it = BEG; !(it == END); ) { auto old = it++; el(TAG + 1, k++, old); } sink_k(TAG + 1, k); } \\
  { for(size_t k = 0; k < K; ++k) { auto fst = BEG; auto it = fst + (int)k; el(TAG + 2, k, it); if(k) el(TAG + 3, 0, fst); } } \\
  { auto it = BEG; for(size_t k = 0; k < K; ++k) { auto keep = it; auto& r = ++it; if(k + 1 < K) el(TAG + 4, k + 1, r); el(TAG + 4, k, keep); } } \\
  { for(size_t j = 0; j <= K; ++j) for(size_t k = 0; k <= K; ++k) { auto x = BEG + (int)j; auto y = BEG + (int)k; sink_eq(TAG, j == k, x == y, x != y); } { auto x = END; auto y = BEG + (int)K; sink_eq(TAG + 1, 1, x == y, x != y); auto z = BEG; sink_eq(TAG + 2, K == 0, z == x, z != x); } }
'''
def idx(K): return ', '.join(['0'] + [f'c{k}' for k in range(1, K)] + (['n'] if K else []))
def cuts(K): return ''.join(f', size_t c{k}' for k in range(1, K))
DRV = []
for K in (0, 1, 2, 3):
    for h, code in {'plain': '', 'moved': 'MB d(std::move(b)); ', 'clone': 'MB d = b.clone(); '}.items():
        v = 'b' if h == 'plain' else 'd'
        DRV.append((f'drv_b{K}_{h}', 'b', K))
        at = f'for(size_t k = 0; k < K; ++k) {{ val(20, k, {v}.at(k)); val(21, k, c.at(k)); }} size_t q = 0; for(auto&& x : {v}) val(22, q++, x); sink_k(22, q); sink_k(23, {v}.nbatches());'
        SRC += f'extern "C" void drv_b{K}_{h}(size_t n{cuts(K)}){{ const size_t K = {K}; MB b(1, MG({"0" if not K else "n"}, pt3{{0., 0., 0.}}), std::vector<size_t>{{{idx(K)}}}); {code} const MB& c = {v}; WALK(0, {v}.begin(), {v}.end()) WALK(10, c.cbegin(), c.cend()) {at} }}\n'
for R in (1, 2, 3):
    for h in ('ctor', 'add', 'copy', 'idx'):
        regs = ', '.join(f'{"(size_t)0" if k == 0 else f"c{k}"}, a{k}' for k in range(R))
        mk = {'ctor': f'GP g(r, {regs});', 'copy': f'GP g0(r, {regs}); GP g(g0);', 'add': 'GP g; ' + ' '.join(f'g.add_quad(r, {"0" if k == 0 else f"c{k}"}, a{k});' for k in range(R)) + ' g.finalize(r);',
              'idx': f'GP g(r, {regs}); g.finalize(r);'}[h]
        DRV.append((f'drv_p{R}_{h}', 'p', R))
        SRC += f'extern "C" void drv_p{R}_{h}(size_t n{cuts(R)}{"".join(f", size_t m{k}" for k in range(R))}){{ const size_t K = {R}; RQ r(1, n); {" ".join(f"AQ a{k}({k + 2}, m{k});" for k in range(R))} {mk} const GP& c = g; WALK(0, g.begin(), g.end()) WALK(10, c.begin(), c.end()) {{ size_t q = 0; for(auto&& x : c) reg(22, q++, x); sink_k(22, q); }} {{ size_t q = 0; for(auto it = g.cbegin(); it != g.cend(); ++it) reg(24, q++, *it); sink_k(24, q); }} }}\n'
# any number of equally long batches; any number of regions of equal length
SRC += '''
static std::vector<size_t> cutlist(size_t K, size_t s) { std::vector<size_t> v(K + 1); for(size_t k = 0; k <= K; ++k) v[k] = k * s; return v; }
template <class A, class B> static size_t steps(A it, B e) { size_t k = 0; for(; it != e; ++it) ++k; return k; }
template <class A, class B> static size_t steps2(A it, B e) { size_t k = 0; while(it != e) { it++; ++k; } return k; }
extern "C" void drv_many(size_t K, size_t s, size_t k) { MB b(1, MG(K * s, pt3{0., 0., 0.}), cutlist(K, s)); const MB& c = b; sink_k(0, steps(b.begin(), b.end())); sink_k(1, steps(c.cbegin(), c.cend())); sink_k(2, steps2(b.begin(), b.end())); sink_k(3, steps2(c.cbegin(), c.cend())); sink_k(4, b.nbatches());
  auto i = b.begin() + (int)k; auto j = c.cbegin() + (int)k; el(0, k, i); el(1, k, j); val(2, k, b.at(k)); val(3, k, c.at(k)); }
'''
def batches(C, mod, fn, K):
    lab = fn[4:]
    def body(I, cell, S):
        arm(I, cell)
        b = [0] + [S[f'c{k}'] for k in range(1, K)] + ([S['n']] if K else [])
        I.call(fn, [S['n']] + b[1:-1])
        return b, observe(I, cell, b, K)
    roots = [('n', max(K, 1), 2**20)] + [(f'c{k}', k, 2**20) for k in range(1, K)]
    pre = [lambda S, k=k: psub(psub(S[f'c{k+1}'], S[f'c{k}']), 1) for k in range(1, K - 1)] + ([lambda S: psub(psub(S['n'], S[f'c{K-1}']), 1)] if K > 1 else [])
    for cell, I, r in C.explore(mod, fn, body, roots=roots, pre=pre):
        if isinstance(r, Abort): C.violation('total', lab, f'{lab}: fails ({describe_abort(r)}), e.g. {cell.sample(C.rng, big=30)}', r.loc); continue
        b, (rng, val) = r
        judge(C, I, cell, lab, K, rng, val, b)
def observe(I, cell, b, K):
    g = sinks(I); rng, val = [], []
    base = None
    for a, s in g.get('sink_r', []):
        k = a[1]; base = base or (a[3].o, a[5].o)
        ok = isinstance(k, int) and k < K and all([cell.decide_eq(psub(x, psub(b[k + 1], b[k]))) for x in (a[2], a[4], a[6])]) and a[3].o is base[0] and a[5].o is base[1] and cell.decide_eq(psub(a[3].off, pmul(24, b[k]))) and cell.decide_eq(psub(a[5].off, pmul(8, b[k])))
        rng.append((a[0], k, ok))
    for a, s in g.get('sink_v', []):
        k = a[1]; ok = isinstance(k, int) and k < K and all([cell.decide_eq(psub(x, psub(b[k + 1], b[k]))) for x in (a[3], a[5])]); v = None
        if ok:
            j = cell.add_root(f'j{k}', 0, psub(psub(b[k + 1], b[k]), 1))
            v = [read_at(I, a[2].o, s, padd(a[2].off, padd(pmul(24, j), 8*x))) for x in range(3)] + [read_at(I, a[4].o, s, padd(a[4].off, pmul(8, j)))]
        val.append((a[0], k, ok, v))
    return rng, val
TAG = ('pre-increment', 'post-increment', 'addition', 'iterator after an addition from it', 'iterator and its copy after increment')
def name(t): return {20: 'at', 21: 'const at', 22: 'range-based loop', 23: 'number of batches', 24: 'cbegin/cend'}.get(t) or f'{"const " if t >= 10 else ""}{TAG[t % 10]}'
def plan(K, single):
    """expected visits per traversal"""
    e = {}
    for t0 in (0, 10):
        e[t0] = e[t0 + 1] = e[t0 + 2] = list(range(K)); e[t0 + 3] = [0] * max(K - 1, 0); e[t0 + 4] = [x for k in range(K) for x in ([k + 1] if k + 1 < K else []) + [k]]
    return {t: v for t, v in e.items() if v}
def judge(C, I, cell, lab, K, rng, val, b):
    g = sinks(I)
    for o in I.oob: C.violation('bounds', lab, f'{lab}: {o}', str(o))
    exp = plan(K, False); full = {**exp, **({20: list(range(K)), 21: list(range(K)), 22: list(range(K))} if K else {})}
    for what, got, want in (('ranges', rng, exp), ('elements', val, full)):
        by = {}
        for x in got: by.setdefault(x[0], []).append(x)
        for t in sorted(set(by) | set(want)):
            seq = [x[1] for x in by.get(t, [])]
            if seq != want.get(t, []): C.violation('steps', f'{lab} {name(t)}', f'{lab}: {name(t)} visits {seq} instead of {want.get(t, [])}')
            elif not all(x[2] for x in by.get(t, [])): C.violation('element', f'{lab} {name(t)} {what}', f'{lab}: {name(t)} yields another range at step {[x[1] for x in by[t] if not x[2]]}')
            else: C.ok()
    counts(C, lab, g, K, (0, 1, 10, 11, 22, 23))
    equality(C, lab, g)
    for t, k, ok, v in val:
        if not ok: continue
        for x in range(4):
            C.expect_term(v[x], lambda en, e, s: uf('uf_g' + 'xyzw'[x], s, (peval(b[k], en) if isinstance(b[k], Poly) else b[k]) + en[f'j{k}']), cell, f'{lab} {name(t)} step {k} {("point", "weight")[x // 3]}', 'element', None, samples=3)
def counts(C, lab, g, K, tags):
    seen = {a[0]: a[1] for a, s in g['sink_k']}
    for t in tags:
        if t not in seen: raise CheckError(f'{lab}: {name(t)} not observed')
        if seen[t] != K: C.violation('steps', f'{lab} {name(t)}', f'{lab}: {name(t)} takes {seen[t]} steps for {K} elements')
        else: C.ok()
def equality(C, lab, g):
    for a, s in g['sink_eq']:
        t, want, eq, ne = a; want = bool(want); eq, ne = bool(eq), bool(ne)
        what = ('positions', 'end and begin advanced to the end', 'begin and end')[t % 10]
        if eq != want or ne == want: C.violation('equality', f'{lab} {what} {"const" if t >= 10 else ""}', f'{lab}: {what}: == is {eq}, != is {ne}, expected {"equal" if want else "different"}')
        else: C.ok()
def partitions(C, mod, fn, K):
    lab = fn[4:]
    def body(I, cell, S):
        b = [0] + [S[f'c{k}'] for k in range(1, K)] + [S['n']]
        I.call(fn, [S['n']] + b[1:-1] + [S[f'm{k}'] for k in range(K)])
        out = []
        for a, s in sinks(I)['sink_g']:
            k = a[1]; ok = isinstance(k, int) and k < K and all([cell.decide_eq(psub(x, y)) for x, y in ((a[2], b[k]), (a[3], b[k + 1]), (a[5], S[f'm{k}']), (a[7], S[f'm{k}']))]); v = None
            if ok:
                j = cell.add_root(f'j{k}', 0, psub(S[f'm{k}'], 1))
                v = [read_at(I, a[4].o, s, padd(a[4].off, padd(pmul(24, j), 8*x))) for x in range(3)] + [read_at(I, a[6].o, s, padd(a[6].off, pmul(8, j)))]
            out.append((a[0], k, ok, v))
        return out
    roots = [('n', K, 2**20)] + [(f'c{k}', k, 2**20) for k in range(1, K)] + [(f'm{k}', 2, 2**16) for k in range(K)]
    pre = [lambda S, k=k: psub(psub(S[f'c{k+1}'], S[f'c{k}']), 1) for k in range(1, K - 1)] + ([lambda S: psub(psub(S['n'], S[f'c{K-1}']), 1)] if K > 1 else [])
    for cell, I, out in C.explore(mod, fn, body, roots=roots, pre=pre):
        if isinstance(out, Abort): C.violation('total', lab, f'{lab}: fails ({describe_abort(out)}), e.g. {cell.sample(C.rng, big=30)}', out.loc); continue
        for o in I.oob: C.violation('bounds', lab, f'{lab}: {o}', str(o))
        g = sinks(I); want = plan(K, False); want[22] = want[24] = list(range(K))
        by = {}
        for x in out: by.setdefault(x[0], []).append(x)
        for t in sorted(set(by) | set(want)):
            seq = [x[1] for x in by.get(t, [])]
            if seq != want.get(t, []): C.violation('steps', f'{lab} {name(t)}', f'{lab}: {name(t)} visits {seq} instead of {want.get(t, [])}')
            elif not all(x[2] for x in by.get(t, [])): C.violation('element', f'{lab} {name(t)}', f'{lab}: {name(t)} yields another region at step {[x[1] for x in by[t] if not x[2]]}')
            else: C.ok()
        counts(C, lab, g, K, (0, 1, 10, 11, 22, 24)); equality(C, lab, g)
        for t, k, ok, v in out:
            if not ok: continue
            for x in range(4): C.expect_term(v[x], lambda en, e, s: (ap(k + 2, en[f'j{k}'], s) + [aw(k + 2, en[f'j{k}'], s)])[x], cell, f'{lab} {name(t)} region {k} {("point", "weight")[x // 3]}', 'element', None, samples=2)
def many(C, mod):
    fn = 'drv_many'
    def body(I, cell, S):
        arm(I, cell)
        K, s = S['K'], S['s']; k = cell.add_root('k', 0, psub(K, 1)); cell.assume(pmul(psub(psub(K, 1), k), s)); cell.assume(pmul(k, s))
        I.call(fn, [K, s, k])
        g = sinks(I); r = dict(k=[cell.decide_eq(psub(a[1], K)) for a, _ in g['sink_k']], e=[], v=[])
        for a, sn in g['sink_r']: r['e'].append((a[0], all([cell.decide_eq(psub(x, s)) for x in (a[2], a[4], a[6])]) and cell.decide_eq(psub(a[3].off, pmul(24, pmul(k, s)))) and cell.decide_eq(psub(a[5].off, pmul(8, pmul(k, s))))))
        for a, sn in g['sink_v']:
            ok = all([cell.decide_eq(psub(x, s)) for x in (a[3], a[5])]); v = None
            if ok:
                j = cell.add_root('j', 0, psub(s, 1))
                v = [read_at(I, a[2].o, sn, padd(a[2].off, padd(pmul(24, j), 8*x))) for x in range(3)] + [read_at(I, a[4].o, sn, padd(a[4].off, pmul(8, j)))]
            r['v'].append((a[0], ok, v))
        return r
    for cell, I, r in C.explore(mod, fn, body, roots=[('K', 1, 2**20), ('s', 1, 2**20)]):
        lab = 'any number of batches'
        if isinstance(r, Abort): C.violation('total', lab, f'{lab}: fails ({describe_abort(r)}), e.g. {cell.sample(C.rng, big=30)}', r.loc); continue
        for t, ok in enumerate(r['k']):
            if ok: C.ok()
            else: C.violation('steps', f'{lab} {t}', f'{lab}: {("mutable", "const", "mutable post-increment", "const post-increment", "nbatches")[t]} does not take one step per batch, e.g. {cell.sample(C.rng, big=30)}')
        for t, ok in r['e'] + [x[:2] for x in r['v']]:
            if ok: C.ok()
            else: C.violation('element', f'{lab} {t}', f'{lab}: batch k ({("addition", "const addition", "at", "const at")[t]}) has another range, e.g. {cell.sample(C.rng, big=30)}')
        for t, ok, v in r['v']:
            if not ok: continue
            for x in range(4): C.expect_term(v[x], lambda en, e, s: uf('uf_g' + 'xyzw'[x], s, en['k'] * en['s'] + en['j']), cell, f'{lab} ({("addition", "const addition", "at", "const at")[t]}) {("point", "weight")[x // 3]}', 'element', None)
def run(C):
    if witnesses(C):
        mod = C.module('trav', SRC)
        C.parallel([lambda nm=nm, k=k, K=K: (batches if k == 'b' else partitions)(C, mod, nm, K) for nm, k, K in DRV] + [lambda: many(C, mod)])
    C.finish('All traversal forms of batched grids (0..3 batches at symbolic boundaries, and any number of equally long batches) and of partitions (1..3 regions at symbolic boundaries), element by element; every pair of positions for == and !=; every operation compiled on every iterator type.')
def witnesses(C):
    r = C.compiles(WIT_HEAD, [(n, w) for n, w in WIT])
    for (n, w), err in zip(WIT, r):
        if err: C.violation('usable', n, f'{n}: does not compile: {err}')
        else: C.ok()
    return not any(r)
if __name__ == '__main__': main(C, run)
