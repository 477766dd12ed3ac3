from batchlib import *
C = Check('P15', rule='corner components equal the least/greatest coordinate over the batch range (the search result evaluated with the comparator found in the code), points and weights equal those at the batch range; symbolic boundaries, slots and contents')
A3 = lambda p: ', '.join(f'double {p}{c}' for c in 'xyz')
P3 = lambda p: 'pt3{' + ', '.join(p + c for c in 'xyz') + '}'
SRC = SEARCH + GRID + '''
extern "C" void sink_b(int, size_t, double, double, double, double, double, double, const double*, size_t, const double*, size_t);
template <class V> static void show(int tag, size_t k, const V& v) { auto& [lo, up, p, w] = v; sink_b(tag, k, lo[0], lo[1], lo[2], up[0], up[1], up[2], (const double*)p.data(), p.size(), w.data(), w.size()); vf_done(); }
static void by_at(int tag, MB& b, size_t K) { for(size_t k = 0; k < K; ++k) show(tag, k, b.at(k)); }
static void by_cat(int tag, const MB& b, size_t K) { for(size_t k = 0; k < K; ++k) show(tag, k, b.at(k)); }
static void by_it(int tag, MB& b, size_t) { size_t k = 0; for(auto it = b.begin(); it != b.end(); ++it) show(tag, k++, *it); }
static void by_cit(int tag, const MB& b, size_t) { size_t k = 0; for(auto it = b.cbegin(); it != b.cend(); ++it) show(tag, k++, *it); }
'''
FORMS = ('at', 'cat', 'it', 'cit')
def idx(K): return ', '.join(['0'] + [f'c{k}' for k in range(1, K)] + ['n'])
def cuts(K): return ''.join(f', size_t c{k}' for k in range(1, K))
HIST = {   # name -> (code after constructing `MB b`, number of shown objects with their centre)
 'plain': ('BY(0, b);', {0: ''}),
 'recenter': (f'b.recenter({P3("p")}); BY(0, b);', {0: 'p'}),
 'clone': (f'MB d = b.clone(); BY(1, d); d.recenter({P3("p")}); BY(0, d); BY(2, b);', {1: '', 0: 'p', 2: ''}),
 'grid': (f'b.quadrature().recenter({P3("p")}); BY(0, b); MB d(std::move(b)); BY(1, d);', {0: 'p', 1: 'p'}),
 'write': ('for(auto& x : b.points()) x[0] *= px; for(auto& x : b.weights()) x *= py; BY(0, b);', {0: 'w'}),
}
DRV = {}
for K in (1, 2, 3, 4):
    for f in FORMS:
        for h, (code, _) in HIST.items():
            for ctor in ('copy', 'move', 'ptr'):
                if not (C.thorough or K == 3 and (ctor == 'copy' or (f == 'at' and h == 'plain')) or K == 1 and h == 'plain' and ctor == 'copy'): continue
                nm = f'drv_{K}_{f}_{h}_{ctor}'
                mk = {'copy': f'MG g(n, {P3("o")}); MB b(mb, g, std::vector<size_t>{{{idx(K)}}});', 'move': f'MB b(mb, MG(n, {P3("o")}), std::vector<size_t>{{{idx(K)}}});',
                      'ptr': f'std::shared_ptr<SB> g = std::make_shared<MG>(n, {P3("o")}); MB b(mb, g, std::vector<size_t>{{{idx(K)}}});'}[ctor]
                body = code.replace('BY(', f'by_{f}(').replace(', b);', f', b, {K});').replace(', d);', f', d, {K});')
                DRV[nm] = (K, f, h, ctor)
                SRC += f'extern "C" void {nm}(size_t n{cuts(K)}, size_t mb, {A3("o")}, {A3("p")}){{ {mk} {body} }}\n'
TOL = dict(rtol=mp.mpf(10)**-20, atol=mp.mpf(10)**-20)
def case(C, mod, fn, K, f, h):
    names = [a + c for a in 'op' for c in 'xyz']; lab = fn[4:]
    def body(I, cell, S):
        arm(I, cell)
        b = [0] + [S[f'c{k}'] for k in range(1, K)] + [S['n']]
        I.call(fn, [S['n']] + b[1:-1] + [S['mb']] + rsym(*names))
        out = []; I.at = {}
        for a, snap in sinks(I)['sink_b']:
            tag, k = a[0], a[1]
            ok = isinstance(k, int) and k < K and all(cell.decide_eq(psub(x, psub(b[k + 1], b[k]))) for x in (a[9], a[11]))
            v = None
            if ok:
                j = cell.add_root(f'j{k}', 0, psub(psub(b[k + 1], b[k]), 1))
                v = [read_at(I, a[8].o, snap, padd(a[8].off, padd(pmul(24, j), 8*x))) for x in range(3)] + [read_at(I, a[10].o, snap, padd(a[10].off, pmul(8, j)))]
            out.append((tag, k, ok, a[2:8], v, locs_of(a[8].o)))
        return b, out
    roots = [('n', K, 2**20), ('mb', 1, 2**20)] + [(f'c{k}', k, 2**20) for k in range(1, K)]
    pre = [lambda S, k=k: psub(psub(S[f'c{k+1}'], S[f'c{k}']), 1) for k in range(1, K - 1)] + ([lambda S: psub(psub(S['n'], S[f'c{K-1}']), 1)] if K > 1 else [])
    for cell, I, r in C.explore(mod, fn, body, roots=roots, pre=pre):
        if isinstance(r, Abort): C.violation('total', lab, f'{lab}: fails ({describe_abort(r)}), e.g. {cell.sample(C.rng, big=30)}', r.loc); continue
        b, out = r
        unsplit(I, cell)
        for o in I.oob: C.violation('bounds', lab, f'{lab}: {o}', str(o))
        exp = [(t, k) for t in dict.fromkeys(x[0] for x in out) for k in range(K)]
        if [x[:2] for x in out] != exp or {x[0] for x in out} != set(HIST[h][1]): C.violation('batches', lab, f'{lab}: visits batches {[x[:2] for x in out]} of {K}'); continue
        for t in range(30 if C.thorough else 6):
            env = cell.sample(C.rng, big=24)
            if env is None: continue
            e = renv_of(names)(C.rng, env); settle(I, cell, env, e, t)
            B = [peval(x, env) if isinstance(x, Poly) else x for x in b]
            def point(i, mode):
                return [uf('uf_g' + c, t, i) * (e['px'] if mode == 'w' and c == 'x' else 1) + (e['p' + c] - e['o' + c] if mode == 'p' else 0) for c in 'xyz']
            def weight(i, mode): return uf('uf_gw', t, i) * (e['py'] if mode == 'w' else 1)
            ev = Eval(env, e, seed=t)
            for tag, k, ok, box, v, loc in out:
                mode = HIST[h][1][tag]; who = f'{lab} batch {k}'
                if not ok: C.violation('content', who + ' size', f'{who}: number of points or weights differs from the length of its range', loc); continue
                pts = [point(i, mode) for i in range(B[k], B[k + 1])]
                want = [min(p[x] for p in pts) for x in range(3)] + [max(p[x] for p in pts) for x in range(3)]
                for x in range(6):
                    got = None if box[x] is UNDEF else ev(real(box[x]))
                    C.evals += 1
                    if got is None or mp.isnan(got) or abs(got - want[x]) > mp.mpf(10)**-20:
                        C.violation('box', f'{who} {("lower", "upper")[x // 3]} {"xyz"[x % 3]}', f'{who}: {("lower", "upper")[x // 3]} corner {"xyz"[x % 3]} is {"uninitialised" if got is None else mp.nstr(got, 12)}, the {("least", "greatest")[x // 3]} coordinate of its points is {mp.nstr(want[x], 12)} (ranges {B}); term {show(box[x]) if isinstance(box[x], T) else box[x]!r}'[:1500]); break
                    C.ok()
                j = B[k] + env[f'j{k}']; w4 = point(j, mode) + [weight(j, mode)]
                for x in range(4):
                    got = None if v[x] is UNDEF else ev(real(v[x]))
                    if got is None or mp.isnan(got) or abs(got - w4[x]) > mp.mpf(10)**-20: C.violation('content', f'{who} {("point", "weight")[x // 3]}', f'{who}: {("point", "weight")[x // 3]} {env[f"j{k}"]} is {"uninitialised" if got is None else mp.nstr(got, 12)} instead of {mp.nstr(w4[x], 12)} (ranges {B})', loc); break
                    C.ok()
def run(C):
    mod = C.module('box', SRC)
    C.parallel([lambda nm=nm, K=K, f=f, h=h: case(C, mod, nm, K, f, h) for nm, (K, f, h, ctor) in DRV.items()])
    C.finish('Every batch of grids with 1..4 batches at symbolic boundaries, grid contents uninterpreted, dereferenced through mutable and const iterators and at(), after recentring, cloning, moving and writing; box corners compared with the extreme coordinates of the range, contents at a symbolic slot.')
if __name__ == '__main__': main(C, run)
