from complib import *
C = Check('P13', rule='contents of a copy equal the source at every slot, writes to either are invisible in the other (symbolic slot and value), no heap object is shared or freed twice, equality is the conjunction of scheme and every parameter')
A3 = lambda p: ', '.join(f'double {p}{c}' for c in 'xyz')
P3 = lambda p: 'pt3{' + ', '.join(p + c for c in 'xyz') + '}'
VW = 'double v, double u'
SRC = MOCK + '''
extern "C" void sink_q(int, const double*, size_t, const double*, size_t);
template <class Q> static void show(int tag, const Q& q) { sink_q(tag, (const double*)q.points().data(), q.points().size(), q.weights().data(), q.weights().size()); }
static void put(double& p, double v) { p = v; }
static void put(pt3& p, double v) { p[0] = v; p[1] = v; p[2] = v; }
extern "C" void sink_cc(int, double, double, double);
template <class Q> static void cen(int tag, const Q& q) { auto c = q.center(); sink_cc(tag, c[0], c[1], c[2]); }
template <class A, class B> static void history(A& a, B& b, size_t k, double v, double u) {
  show(0, a); show(1, b);
  put(b.points()[k], v); b.weights()[k] = u; show(2, a); show(3, b);
  put(a.points()[k], u); a.weights()[k] = v; show(4, a); show(5, b); }
''' + f'''
extern "C" void drv_r(size_t n, size_t k, {VW}){{ RQ a(1, n); RQ b(a); history(a, b, k, v, u); }}
extern "C" void drv_rb(size_t n, size_t k, {VW}){{ RQ a(1, n); Quadrature<RQ> b(a); history(a, b, k, v, u); }}
extern "C" void drv_a(size_t n, size_t k, {VW}){{ AQ a(2, n); AQ b(a); history(a, b, k, v, u); }}
extern "C" void drv_s(size_t n1, size_t n2, size_t k, {A3("o")}, {VW}){{ RQ r(1, n1); AQ q(2, n2); SQ a(r, q, {P3("o")}); SQ b(a); cen(0, a); cen(1, b); history(a, b, k, v, u); }}
extern "C" void drv_sc(size_t n1, size_t n2, size_t k, {A3("o")}, {VW}){{ RQ r(1, n1); AQ q(2, n2); SQ a(r, q, {P3("o")}); auto b = a.clone(); cen(0, a); cen(1, *b); history(a, *b, k, v, u); }}
extern "C" void drv_p(size_t n1, size_t n2, size_t k, {A3("o")}, {VW}){{ RQ r(1, n1); AQ q(2, n2); GP g(r, (size_t)0, q); PQ a(r, g, {P3("o")}); PQ b(a); cen(0, a); cen(1, b); history(a, b, k, v, u); }}
extern "C" void drv_pc(size_t n1, size_t n2, size_t k, {A3("o")}, {VW}){{ RQ r(1, n1); AQ q(2, n2); GP g(r, (size_t)0, q); PQ a(r, g, {P3("o")}); const SB& s = a; auto b = s.clone(); cen(0, a); cen(1, *b); history(a, *b, k, v, u); }}
// recentring one of the two
#define REC(NM, MAKE, COPY) extern "C" void drv_rec_##NM(size_t n1, size_t n2, size_t k, {A3("o")}, {A3("p")}, {A3("q")}){{ RQ r(1, n1); AQ q(2, n2); GP g(r, (size_t)0, q); MAKE; COPY; b.recenter({P3("p")}); show(2, a); show(3, b); cen(2, a); cen(3, b); a.recenter({P3("q")}); show(4, a); show(5, b); cen(4, a); cen(5, b); }}
REC(s, SQ a(r COMMA q COMMA {P3("o").replace(",", " COMMA")}), SQ b(a)) REC(sc, SQ a(r COMMA q COMMA {P3("o").replace(",", " COMMA")}), auto h = a.clone(); SB& b = *h)
REC(p, PQ a(r COMMA g COMMA {P3("o").replace(",", " COMMA")}), PQ b(a)) REC(pc, PQ a(r COMMA g COMMA {P3("o").replace(",", " COMMA")}), auto h = a.clone(); SB& b = *h)
'''.replace('#define REC', '#define COMMA ,\n#define REC') + '''
// partitions
extern "C" void sink_part(int, size_t, size_t, size_t, const double*, size_t, const double*, size_t);
static void part(int tag, const GP& g) { size_t n = 0; for(auto it = g.cbegin(); it != g.cend(); ++it) { auto x = *it; sink_part(tag, n++, x.first.first, x.first.second, (const double*)x.second.points().data(), x.second.npts(), x.second.weights().data(), x.second.weights().size()); } }
#define PART(NM, COPY) extern "C" void drv_part_##NM(size_t n, size_t b1, size_t m0, size_t m1, size_t c) { RQ r(1, n); AQ x(2, m0), y(3, m1); GP g(r, (size_t)0, x, b1, y); COPY; part(0, g); part(1, h); h.partition_idx()[1] = c; part(2, g); part(3, h); g.partition_idx()[1] = c; h.partition_idx()[1] = b1; part(4, g); part(5, h); }
PART(copy, GP h(g)) PART(assign, GP h; h = g) PART(over, AQ z(4, m0); GP h(r COMMA (size_t)0 COMMA z); h = g) PART(self, GP h(g); GP& s = h; h = s)
// batched grids
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using MB = SphericalMicroBatcher<std::vector<pt3>, std::vector<double>>;
extern "C" void sink_rng(int, size_t, size_t, const double*, const double*, size_t, size_t, size_t, size_t);
static void batches(int tag, MB& b) { size_t k = 0; for(auto it = b.begin(); it != b.end(); ++it, ++k) { auto [n, pb, pe, wb, we] = it.range(); sink_rng(tag, k, n, (const double*)&*pb, &*wb, b.nbatches(), b.max_batch_size(), b.npts(), b.partition_size()); } }
'''.replace(', b.partition_size()', ', 0') + f'''
extern "C" void drv_batch(size_t n1, size_t n2, size_t c1, size_t c2, size_t mb, size_t k, {A3("o")}, {A3("p")}){{ RQ r(1, n1); AQ q(2, n2); SQ s(r, q, {P3("o")}); MB a(mb, s, std::vector<size_t>{{0, c1, c2, s.npts()}}); MB b = a.clone(); show(0, a); show(1, b); cen(0, a.quadrature()); cen(1, b.quadrature()); batches(0, a); batches(1, b);
  b.recenter({P3("p")}); show(2, a); show(3, b); cen(2, a.quadrature()); cen(3, b.quadrature()); show(4, s); }}
'''
TSRC = '''
#include <integratorxx/generators/spherical_factory.hpp>
#include <integratorxx/generators/impl/impl.hpp>
using namespace IntegratorXX;
extern "C" void sink_t(size_t, double, double, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t); extern "C" void sink_e(uint32_t, uint32_t, uint32_t, uint32_t);
extern "C" void sink_x(const void*, const void*); extern "C" void sink_regs(int, uint32_t, uint32_t, uint32_t, size_t); extern "C" void sink_reg(int, size_t, size_t, uint32_t, size_t);
using BK = BeckeRadialTraits; using MH = MurrayHandyLamingRadialTraits<2>; using M3 = MurrayHandyLamingRadialTraits<3>; using MK = MuraKnowlesRadialTraits; using TA = TreutlerAhlrichsRadialTraits;
#define MKT(T, S, n, R, al) T S(n, R)
#define MKA(T, S, n, R, al) T S(n, R, al)
template <class T> static void tshow(const RadialTraits& t, const T& o, double x) { auto& c = dynamic_cast<const T&>(t); sink_t(t.npts(), c.radial_transform(x), c.radial_jacobian(x), t.compare(o), o.compare(t), c == o, dynamic_cast<const T*>(&t) != nullptr, &t != &o); }
// copies and clones of parameter sets; later assignment to either
#define TRAITS(T, MAKE) \\
extern "C" void drv_t_##T(size_t n, double R, double al, size_t n2, double R2, double al2, double x) { MAKE(T, t, n, R, al); T o(t); MAKE(T, z, n2, R2, al2); \\
  T c(t); tshow(c, o, x); auto p = t.clone(); tshow(*p, o, x); auto pp = static_cast<const RadialTraits&>(*p).clone(); tshow(*pp, o, x); T as(z); as = t; tshow(as, o, x); as = as; tshow(as, o, x); \\
  c = z; tshow(t, o, x); t = z; tshow(*p, o, x); tshow(*pp, o, x); static_cast<T&>(*p) = z; tshow(*pp, o, x); sink_x(p.get(), pp.get()); } \\
extern "C" void drv_e_##T(size_t n, double R, double al, size_t n2, double R2, double al2) { MAKE(T, t, n, R, al); MAKE(T, z, n2, R2, al2); sink_e(t == z, z == t, t.compare(z), z.compare(t)); }
TRAITS(BK, MKT) TRAITS(MH, MKT) TRAITS(M3, MKT) TRAITS(MK, MKT) TRAITS(TA, MKA)
#define CROSS(T, S, MT, MS) extern "C" void drv_x_##T##_##S(size_t n, double R, double al) { MT(T, t, n, R, al); MS(S, z, n, R, al); sink_e(static_cast<const RadialTraits&>(t).compare(z), static_cast<const RadialTraits&>(z).compare(t), 0, 0); }
CROSS(BK, MH, MKT, MKT) CROSS(BK, MK, MKT, MKT) CROSS(BK, TA, MKT, MKA) CROSS(MH, MK, MKT, MKT) CROSS(MH, TA, MKT, MKA) CROSS(MK, TA, MKT, MKA) CROSS(MH, M3, MKT, MKT) CROSS(BK, M3, MKT, MKT)
// regions and specifications
extern "C" void drv_region(size_t a, size_t b, uint32_t q, size_t s, size_t a2, size_t b2, uint32_t q2, size_t s2) { PruningRegion x{a, b, (AngularQuad)q, s}, y{a2, b2, (AngularQuad)q2, s2}; sink_e(x == y, y == x, 0, 0); }
static PrunedSphericalGridSpecification spec(uint32_t rq, int null, size_t n, double R, double al, size_t k, const PruningRegion& r0, const PruningRegion& r1) {
  PrunedSphericalGridSpecification s; s.radial_quad = (RadialQuad)rq; if(!null) s.radial_traits = std::make_unique<TA>(n, R, al); if(k > 0) s.pruning_regions.push_back(r0); if(k > 1) s.pruning_regions.push_back(r1); return s; }
#define SPECEQ(K1, K2, N1, N2) extern "C" void drv_spec_##K1##K2##N1##N2(uint32_t rq, size_t n, double R, double al, size_t c, uint32_t q, size_t s, uint32_t rq2, size_t n2, double R2, double al2, size_t c2, uint32_t q2, size_t s2) { \\
  auto x = spec(rq, N1, n, R, al, K1, {0, c, (AngularQuad)q, s}, {c, n, (AngularQuad)q, s}), y = spec(rq2, N2, n2, R2, al2, K2, {0, c2, (AngularQuad)q2, s2}, {c2, n, (AngularQuad)q2, s2}); sink_e(x == y, y == x, 0, 0); }
SPECEQ(2,2,0,0) SPECEQ(1,2,0,0) SPECEQ(2,1,0,0) SPECEQ(0,0,0,0) SPECEQ(0,1,0,0) SPECEQ(1,1,1,1) SPECEQ(1,1,0,1) SPECEQ(1,1,1,0)
static bool tcmp(const RadialTraits* p, const TA& o) { return p ? p->compare(o) : false; }
static void pshow(int tag, const PrunedSphericalGridSpecification& s, const TA& o) { sink_regs(tag, (uint32_t)s.radial_quad, !s.radial_traits, tcmp(s.radial_traits.get(), o), s.pruning_regions.size()); for(auto& r : s.pruning_regions) sink_reg(tag, r.idx_st, r.idx_en, (uint32_t)r.angular_quad, r.angular_size); }
#define SPECCP(NM, N1, COPY) extern "C" void drv_cp_##NM(uint32_t rq, size_t n, double R, double al, size_t c, uint32_t q, size_t s, uint32_t rq2) { TA o(n, R, al); auto x = spec(rq, N1, n, R, al, 2, {0, c, (AngularQuad)q, s}, {c, n, (AngularQuad)q, s}); COPY; \\
  pshow(0, x, o); pshow(1, y, o); sink_x(x.radial_traits.get(), y.radial_traits.get()); sink_x(x.pruning_regions.data(), y.pruning_regions.data()); \\
  y.radial_quad = (RadialQuad)rq2; y.radial_traits.reset(); y.pruning_regions[1].idx_st = n; y.pruning_regions.pop_back(); pshow(2, x, o); \\
  COPY##2; x.radial_quad = (RadialQuad)rq2; x.radial_traits.reset(); x.pruning_regions.clear(); pshow(3, z, o); }
#define CTOR PrunedSphericalGridSpecification y(x)
#define CTOR2 PrunedSphericalGridSpecification z(x)
#define ASG PrunedSphericalGridSpecification y; y = x
#define ASG2 PrunedSphericalGridSpecification z(spec(rq2, 0, c, al, R, 1, {0, c, (AngularQuad)q, s}, {c, n, (AngularQuad)q, s})); z = x
#define SLF PrunedSphericalGridSpecification y(x); auto& yr = y; y = yr
#define SLF2 PrunedSphericalGridSpecification z(x); auto& zr = z; z = zr
#define MAKE(NM, N1, C) SPECCP(NM, N1, C)
SPECCP(ctor, 0, CTOR) SPECCP(asg, 0, ASG) SPECCP(self, 0, SLF) SPECCP(nctor, 1, CTOR) SPECCP(nasg, 1, ASG)
extern "C" void drv_un(uint32_t rq, size_t n, double R, double al, uint32_t q, size_t s) { TA o(n, R, al); UnprunedSphericalGridSpecification x((RadialQuad)rq, o, (AngularQuad)q, s); UnprunedSphericalGridSpecification y(x);
  for(auto* z : {&x, &y}) { sink_regs(z == &y, (uint32_t)z->radial_quad, !(*z).radial_traits, tcmp((*z).radial_traits.get(), o), 1); sink_reg(z == &y, 0, 0, (uint32_t)z->angular_quad, z->angular_size); }
  sink_x(x.radial_traits.get(), y.radial_traits.get()); sink_x(x.radial_traits.get(), &o); y.radial_traits.reset(); sink_regs(2, (uint32_t)x.radial_quad, !(x).radial_traits, tcmp(x.radial_traits.get(), o), 1); x.radial_traits.reset();
  UnprunedSphericalGridSpecification w(x); sink_regs(3, (uint32_t)w.radial_quad, !(w).radial_traits, tcmp(w.radial_traits.get(), o), 1); }
'''
TOL = dict(rtol=mp.mpf(10)**-20, atol=mp.mpf(10)**-20)
def aliased(I, lab, g):
    """storage shared between the pairs handed to the sink"""
    by = {}
    for tag, P, np_, W, nw in g: by.setdefault(tag, (P, W))
    for x, y in ((0, 1), (2, 3), (4, 5)):
        if x in by and y in by and (by[x][0].o is by[y][0].o or by[x][1].o is by[y][1].o): C.violation('alias', lab, f'{lab}: the copy shares the storage of its source', locs_of(by[x][0].o))
        elif x in by and y in by: C.ok()
def bad(C, I, lab):
    for o in I.oob: C.violation('bounds', lab, f'{lab}: invalid or double access {o}', str(o))
def quad(C, mod, fn, dim, comp):
    """history of copy, write to the copy, write to the source"""
    lab = fn[4:]; A = ['v', 'u']
    roots = ([('n', 1, 2**20)] if not comp else [('n1', 1, 2**18), ('n2', 1, 2**18)])
    names = A + (['ox', 'oy', 'oz'] if comp else [])
    def body(I, cell, S):
        n = S['n'] if not comp else pmul(S['n1'], S['n2'])
        if comp:
            i0 = cell.add_root('i0', 0, padd(S['n1'], -1)); j0 = cell.add_root('j0', 0, padd(S['n2'], -1)); k = padd(i0, pmul(j0, S['n1']))
        else: k = cell.add_root('k', 0, padd(n, -1))
        I.call(fn, ([S['n']] if not comp else [S['n1'], S['n2']]) + [k] + (rsym('ox', 'oy', 'oz') if comp else []) + rsym(*A))
        g = sinks(I); r = dict(q=[a for a, s in g['sink_q']], c=[a for a, s in g.get('sink_cc', [])], v={})
        if len(r['q']) != 6: raise CheckError(f'{fn}: result not observed')
        r['n'] = [cell.decide_eq(psub(x, n)) for a in r['q'] for x in (a[2], a[4])]
        if all(r['n']):
            if comp:
                i = cell.add_root('i', 0, padd(S['n1'], -1)); j = cell.add_root('j', 0, padd(S['n2'], -1)); s = padd(i, pmul(j, S['n1']))
                # order of the two rows, with the (valid) product facts the linear reasoning lacks
                if cell.decide_ge(psub(psub(j, j0), 1)): cell.assume(pmul(psub(psub(j, j0), 1), S['n1']))
                elif cell.decide_ge(psub(psub(j0, j), 1)): cell.assume(pmul(psub(psub(j0, j), 1), S['n1']))
                else: j = j0; s = padd(i, pmul(j, S['n1']))
                r['at'] = cell.decide_eq(psub(i, i0)) and j is j0
                r['j'] = 'j0' if j is j0 else 'j'
            else:
                s = cell.add_root('i', 0, padd(n, -1)); r['at'] = cell.decide_eq(psub(s, k))
            for a, snap in g['sink_q']:
                P, W = a[1], a[3]
                r['v'][a[0]] = ([read_at(I, P.o, snap, padd(P.off, padd(pmul(8*dim, s), 8*c))) for c in range(dim)], read_at(I, W.o, snap, padd(W.off, pmul(8, s))), locs_of(P.o))
        return r
    for cell, I, r in C.explore(mod, fn, body, roots=roots):
        if isinstance(r, Abort): C.violation('total', lab, f'{lab}: copying fails ({describe_abort(r)})', r.loc); continue
        bad(C, I, lab); aliased(I, lab, r['q'])
        if not all(r['n']): C.violation('content', lab + ' size', f'{lab}: copy has another number of points'); continue
        renv = renv_of(names)
        for tag, cc in ((a[0], a[1:]) for a in r['c']):
            for x in range(3): C.expect_term(cc[x], lambda en, e, s: e['o' + 'xyz'[x]], cell, f'{lab} centre of {"copy" if tag & 1 else "source"}', 'content', None, renv=renv, **TOL)
        for tag, (p, w, loc) in r['v'].items():
            who = ('source', 'copy')[tag & 1]; when = ('after copying', 'after writing to the copy', 'after writing to the source')[tag // 2]
            wr = r['at'] and ((tag & 1 and tag >= 2) or tag == 4)
            for x in range(dim):
                def orc(en, e, s):
                    if wr: return e['v' if tag & 1 else 'u']
                    if comp: return e['o' + 'xyz'[x]] + rp(1, en['i'], s) * ap(2, en[r['j']], s)[x]
                    return rp(1, en['i'], s) if dim == 1 else ap(2, en['i'], s)[x]
                C.expect_term(p[x], orc, cell, f'{lab} {who} point {when}', 'alias' if tag >= 2 else 'content', loc, renv=renv, **TOL)
            def orw(en, e, s):
                if wr: return e['u' if tag & 1 else 'v']
                if comp: return rw(1, en['i'], s) * aw(2, en[r['j']], s) * rp(1, en['i'], s)**2
                return rw(1, en['i'], s) if dim == 1 else aw(2, en['i'], s)
            C.expect_term(w, orw, cell, f'{lab} {who} weight {when}', 'alias' if tag >= 2 else 'content', loc, renv=renv, **TOL)
def rec(C, mod, fn, batch=False):
    lab = fn[4:]; names = [a + c for a in ('op' if batch else 'opq') for c in 'xyz']
    def body(I, cell, S):
        n = pmul(S['n1'], S['n2'])
        if batch: I.call(fn, [S['n1'], S['n2'], S['c1'], S['c2'], S['mb'], 0] + rsym(*names))
        else: I.call(fn, [S['n1'], S['n2'], 0] + rsym(*names))
        g = sinks(I); r = dict(q=[a for a, s in g['sink_q']], c=[a for a, s in g['sink_cc']], v={}, rng=[])
        r['n'] = [cell.decide_eq(psub(x, n)) for a in r['q'] for x in (a[2], a[4])]
        for a, s in g.get('sink_rng', []):
            base = next(q for q in r['q'] if q[0] == a[0]); B = [0, S['c1'], S['c2'], n]; k = a[1]
            ok = isinstance(k, int) and k < 3 and cell.decide_eq(psub(a[2], psub(B[k + 1], B[k]))) and a[3].o is base[1].o and cell.decide_eq(psub(psub(a[3].off, base[1].off), pmul(24, B[k]))) \
                and a[4].o is base[3].o and cell.decide_eq(psub(psub(a[4].off, base[3].off), pmul(8, B[k]))) and cell.decide_eq(psub(a[5], 3)) and cell.decide_eq(psub(a[6], S['mb'])) and cell.decide_eq(psub(a[7], n))
            r['rng'].append((a[0], k, ok))
        if all(r['n']):
            i = cell.add_root('i', 0, padd(S['n1'], -1)); j = cell.add_root('j', 0, padd(S['n2'], -1)); s = padd(i, pmul(j, S['n1']))
            for a, snap in g['sink_q']:
                P, W = a[1], a[3]
                r['v'][a[0]] = ([read_at(I, P.o, snap, padd(P.off, padd(pmul(24, s), 8*c))) for c in range(3)], read_at(I, W.o, snap, padd(W.off, pmul(8, s))), locs_of(P.o))
        return r
    roots = [('n1', 1, 2**18), ('n2', 1, 2**18)]; pre = []
    if batch:
        roots = [('n1', 3, 2**18), ('n2', 3, 2**18), ('c1', 1, 2**18), ('c2', 2, 2**18), ('mb', 1, 2**18)]
        pre = [lambda S: psub(psub(S['c2'], S['c1']), 1), lambda S: psub(psub(pmul(S['n1'], S['n2']), S['c2']), 1)]
    cen = {0: 'o', 1: 'o', 2: 'o', 3: 'p', 4: 'q', 5: 'p'} if not batch else {0: 'o', 1: 'o', 2: 'o', 3: 'p', 4: 'o'}
    for cell, I, r in C.explore(mod, fn, body, roots=roots, pre=pre):
        if isinstance(r, Abort): C.violation('total', lab, f'{lab}: fails ({describe_abort(r)})', r.loc); continue
        bad(C, I, lab); aliased(I, lab, r['q'])
        for tag, k, ok in r['rng']:
            if ok: C.ok()
            else: C.violation('content', f'{lab} batches', f'{lab}: batch {k} of the {"clone" if tag else "source"} has another range')
        if batch and [x[:2] for x in r['rng']] != [(t, k) for t in (0, 1) for k in range(3)]: C.violation('content', f'{lab} batches', f'{lab}: batches of the clone {[x[:2] for x in r["rng"]]}')
        if not all(r['n']): C.violation('content', lab + ' size', f'{lab}: number of points changes'); continue
        renv = renv_of(names)
        for a in r['c']:
            for x in range(3): C.expect_term(a[1 + x], lambda en, e, s: e[cen[a[0]] + 'xyz'[x]], cell, f'{lab} centre of {"copy" if a[0] & 1 else "source"}', 'alias', None, renv=renv, **TOL)
        for tag, (p, w, loc) in r['v'].items():
            who = 'copy' if tag & 1 else 'source'
            for x in range(3): C.expect_term(p[x], lambda en, e, s: e[cen[tag] + 'xyz'[x]] + rp(1, en['i'], s) * ap(2, en['j'], s)[x], cell, f'{lab} {who} point (step {tag})', 'alias', loc, renv=renv, **TOL)
            C.expect_term(w, lambda en, e, s: rw(1, en['i'], s) * aw(2, en['j'], s) * rp(1, en['i'], s)**2, cell, f'{lab} {who} weight (step {tag})', 'alias', loc, renv=renv, **TOL)
def parts(C, mod, fn):
    lab = fn[4:]
    def body(I, cell, S):
        n, b, c = padd(S['l0'], S['l1']), S['l0'], S['c']
        I.call(fn, [n, b, S['m0'], S['m1'], c])
        g = sinks(I); r = dict(rows=[], v=[])
        exp = {0: b, 1: b, 2: b, 3: c, 4: c, 5: b}
        for a, snap in g['sink_part']:
            tag, k = a[0], a[1]; lo, hi = ((0, exp[tag]), (exp[tag], n))[k] if k in (0, 1) else (None, None)
            m = S[f'm{k}'] if k in (0, 1) else None
            ok = m is not None and all(cell.decide_eq(psub(x, y)) for x, y in ((a[2], lo), (a[3], hi), (a[5], m), (a[7], m)))
            if ok:
                i = cell.add_root(f'i{k}', 0, padd(m, -1))
                r['v'].append((tag, k, [read_at(I, a[4].o, snap, padd(a[4].off, padd(pmul(24, i), 8*x))) for x in range(3)], read_at(I, a[6].o, snap, padd(a[6].off, pmul(8, i)))))
            r['rows'].append((tag, k, ok))
        return r
    for cell, I, r in C.explore(mod, fn, body, roots=[('l0', 1, 2**18), ('l1', 1, 2**18), ('m0', 2, 2**16), ('m1', 2, 2**16), ('c', 1, 2**18)]):
        if isinstance(r, Abort): C.violation('total', lab, f'{lab}: fails ({describe_abort(r)})', r.loc); continue
        bad(C, I, lab)
        for t in range(6):
            ks = [(k, ok) for tag, k, ok in r['rows'] if tag == t]
            if ks != [(0, True), (1, True)]: C.violation('alias' if t >= 2 else 'content', f'{lab} {t}', f'{lab}: {"copy" if t & 1 else "source"} partition has regions {ks} (step {t})')
            else: C.ok()
        for tag, k, p, w in r['v']:
            for x in range(3): C.expect_term(p[x], lambda en, e, s: ap(2 + k, en[f'i{k}'], s)[x], cell, f'{lab} region {k} angular point (step {tag})', 'content', None, **TOL)
            C.expect_term(w, lambda en, e, s: aw(2 + k, en[f'i{k}'], s), cell, f'{lab} region {k} angular weight (step {tag})', 'content', None, **TOL)
def truth(t, en, e, seed=0):
    """truth value of a returned bool"""
    if isinstance(t, int): return bool(t)
    if isinstance(t, Poly): return peval(t, en) != 0
    if t.op in ('fcmp', 'icmp', 'not', 'and', 'or', 'true', 'false'): return Eval(en, e, seed=seed).cond(t)
    return Eval(en, e, seed=seed)(t) != 0
def kept(t, en, e):
    """0: no radial parameters, 1: equal to the original ones, 2: other ones"""
    return 0 if truth(t[0], en, e) else 1 if truth(t[1], en, e) else 2
def traits(C, mod, T):
    fn = f'drv_t_{T}'; names = ['R', 'al', 'R2', 'al2', 'x']
    def renv(rng, env): return dict(R=mp.mpf(rng.uniform(.3, 3)), al=mp.mpf(rng.uniform(.1, 2)), R2=mp.mpf(rng.uniform(.3, 3)), al2=mp.mpf(rng.uniform(.1, 2)), x=mp.mpf(rng.uniform(.1, .9)))
    def body(I, cell, S):
        I.call(fn, [S['n']] + rsym('R', 'al') + [S['n2']] + rsym('R2', 'al2', 'x'))
        g = sinks(I); r = dict(t=[a for a, s in g['sink_t']], x=[a for a, s in g['sink_x']])
        r['n'] = [cell.decide_eq(psub(a[0], S['n'])) for a in r['t']]
        return r
    STEP = ('copy', 'clone', 'clone of the clone', 'assignment', 'self-assignment', 'source after assigning to the copy', 'clone after assigning to the source', 'clone of the clone after assigning to the source', 'clone of the clone after assigning to the clone')
    for cell, I, r in C.explore(mod, fn, body, roots=[('n', 1, 2**20), ('n2', 1, 2**20)]):
        if isinstance(r, Abort): C.violation('total', fn, f'{T}: copying fails ({describe_abort(r)})', r.loc); continue
        bad(C, I, T)
        if len(r['t']) != len(STEP): raise CheckError(f'{fn}: results not observed')
        ref = r['t'][0]
        for k, (a, what) in enumerate(zip(r['t'], STEP)):
            lab = f'{T} {what}'
            if not r['n'][k]: C.violation('content', lab, f'{lab}: other number of points'); continue
            for t in range(12):
                en = cell.sample(C.rng, big=100); e = renv(C.rng, en)
                if not all(truth(a[j], en, e, t) for j in range(3, 7)): C.violation('content', lab, f'{lab}: does not compare equal to the original parameters'); break
                # the transformation itself reveals the parameters
                ev = Eval(en, e, seed=t); ideal = IDEAL[T](e)
                if abs(ev(real(a[1])) - ideal) > abs(ideal) * mp.mpf(10)**-12: C.violation('content', lab, f'{lab}: transformation uses other parameters (at {e})'); break
            else: C.ok()
        for a in r['x']:
            if a[0].o is a[1].o: C.violation('alias', f'{T} clone', f'{T}: a clone shares its storage')
            else: C.ok()
    fn = f'drv_e_{T}'
    def eqs(I, cell, S):
        I.call(fn, [S['n']] + rsym('R', 'al') + [S['n2']] + rsym('R2', 'al2'))
        r = sinks(I)['sink_e'][0][0]
        return r, cell.decide_eq(psub(S['n'], S['n2']))
    for cell, I, r in C.explore(mod, fn, eqs, roots=[('n', 1, 2**20), ('n2', 1, 2**20)]):
        if isinstance(r, Abort): C.violation('total', fn, f'{T}: comparing fails ({describe_abort(r)})', r.loc); continue
        r, same = r
        for mode in range(16 * (4 if C.thorough else 1)):
            en = cell.sample(C.rng, big=100); R = mp.mpf(C.rng.uniform(.3, 3)); al = mp.mpf(C.rng.uniform(.1, 2))
            d = [mp.mpf(10)**-C.rng.choice((0, 3, 6, 9, 12)) * C.rng.choice((1, -1)) for _ in range(2)]
            dR, da = (mode & 1), (mode >> 1 & 1)
            e = dict(R=R, al=al, R2=R + (d[0] if dR else 0), al2=al + (d[1] if da else 0)); exp = same and not dR and not (da and T == 'TA')
            for k in range(4):
                if truth(r[k], en, e, mode) != exp:
                    C.violation('equality', f'{T} {("==", "== (swapped)", "compare", "compare (swapped)")[k]}', f'{T}: {("==", "==", "compare", "compare")[k]} yields {not exp} for npts {"equal" if same else "different"}, R difference {mp.nstr(d[0] if dR else 0, 3)}, alpha difference {mp.nstr(d[1] if da else 0, 3)}'); break
            else: C.ok(); C.evals += 1
IDEAL = dict(BK=lambda e: e['R'] * (1 + e['x']) / (1 - e['x']), MH=lambda e: e['R'] * (e['x'] / (1 - e['x']))**2, M3=lambda e: e['R'] * (e['x'] / (1 - e['x']))**3,
             MK=lambda e: -e['R'] * mp.log(1 - e['x']**3), TA=lambda e: e['R'] / mp.log(2) * (1 + e['x'])**e['al'] * mp.log(2 / (1 - e['x'])))
def cross(C, mod, fn):
    for cell, I, r in C.explore(mod, fn, lambda I, cell, S: (I.call(fn, [S['n']] + rsym('R', 'al')), sinks(I)['sink_e'][0][0])[1], roots=[('n', 1, 2**20)]):
        if isinstance(r, Abort): C.violation('total', fn, f'{fn[6:]}: comparing fails ({describe_abort(r)})', r.loc); continue
        for k in range(2):
            en = cell.sample(C.rng, big=100)
            if truth(r[k], en, dict(R=mp.mpf(1.25), al=mp.mpf(.6))): C.violation('equality', fn[6:], f'parameter sets of different schemes ({fn[6:]}) compare equal')
            else: C.ok()
def ints(C, mod, fn, roots, args, exp, renvs=((),)):
    """equality over integer fields; exp: list of pairs of fields which must agree; renvs: real parameters and whether they agree"""
    def body(I, cell, S):
        I.call(fn, args(S)); r = sinks(I)['sink_e'][0][0]
        return r[:2], exp(cell, S)
    for cell, I, r in C.explore(mod, fn, body, roots=roots, maxcells=20000):
        if isinstance(r, Abort): C.violation('total', fn, f'{fn[4:]}: comparing fails ({describe_abort(r)})', r.loc); continue
        r, same = r; en = cell.sample(C.rng, big=100)
        if en is None: continue
        for e, agree in renvs:
            for k in range(2):
                if truth(r[k], en, e) != (same and agree):
                    C.violation('equality', fn[4:], f'{fn[4:]}: == yields {not (same and agree)} for {dict((a, b) for a, b in en.items() if not a.startswith("fd("))}, {dict((a, mp.nstr(b, 12)) for a, b in e.items())}'); break
            else: C.ok()
def region(C, mod):
    F = ('a', 'b', 'q', 's')
    ints(C, mod, 'drv_region', [(x + k, 0, 2**30) for k in ('', '2') for x in F], lambda S: [S[x + k] for k in ('', '2') for x in F],
         lambda cell, S: all([cell.decide_eq(psub(S[x], S[x + '2'])) for x in F]), [({}, True)])
def speceq(C, mod, k1, k2, n1, n2):
    fn = f'drv_spec_{k1}{k2}{n1}{n2}'; F = ('rq', 'n', 'c', 'q', 's'); tr = not n1 and not n2
    def args(S): return [x for k in ('', '2') for x in ([S['rq' + k], S['n' + k]] + rsym('R' + k, 'al' + k) + [S['c' + k], S['q' + k], S['s' + k]])]
    def exp(cell, S):
        if k1 != k2 or n1 != n2: return False
        need = ['rq'] + (['n'] if tr else []) + (['c', 'q', 's'] if k1 else [])
        return all([cell.decide_eq(psub(S[x], S[x + '2'])) for x in need])
    R, al = mp.mpf('1.37'), mp.mpf('.61')
    ren = [(dict(R=R, al=al, R2=R + (d if i & 1 else 0), al2=al + (d if i & 2 else 0)), not i or not tr) for d in (mp.mpf(1) / 2, mp.mpf(10)**-9) for i in range(4)]
    ints(C, mod, fn, [(x + k, 0 if x != 'n' else 1, 2**30) for k in ('', '2') for x in F], args, exp, ren)
def speccp(C, mod, nm):
    fn = f'drv_cp_{nm}'; null = nm[0] == 'n'
    def body(I, cell, S):
        n = padd(S['c'], S['l'])
        I.call(fn, [S['rq'], n] + rsym('R', 'al') + [S['c'], S['q'], S['s'], S['rq2']])
        g = sinks(I); r = dict(h={}, regs={}, x=[a for a, s in g['sink_x']])
        for a, s in g['sink_regs']: r['h'][a[0]] = (cell.decide_eq(psub(a[1], S['rq'])), (a[2], a[3]), a[4])
        for a, s in g['sink_reg']:
            k = len(r['regs'].setdefault(a[0], [])); e = ((0, S['c'], S['q'], S['s']), (S['c'], n, S['q'], S['s']))[k] if k < 2 else None
            r['regs'][a[0]].append(e is not None and all([cell.decide_eq(psub(x, y)) for x, y in zip(a[1:], e)]))
        return r
    for cell, I, r in C.explore(mod, fn, body, roots=[('rq', 0, 2**30), ('rq2', 0, 2**30), ('c', 1, 2**20), ('l', 1, 2**20), ('q', 0, 2**30), ('s', 0, 2**20)], maxcells=20000):
        lab = f'specification copy ({nm})'
        if isinstance(r, Abort): C.violation('total', lab, f'{lab}: fails ({describe_abort(r)})', r.loc); continue
        bad(C, I, lab)
        for t in range(4):
            who = ('source', 'copy', 'source after changing the copy', 'copy after changing the source')[t]
            if t not in r['h']: raise CheckError(f'{fn}: step {t} not observed')
            rq, tr, k = r['h'][t]
            en = cell.sample(C.rng, big=50); e = dict(R=mp.mpf('1.37'), al=mp.mpf('.61'))
            tr = kept(tr, en, e)
            if not rq or tr != (0 if null else 1) or k != 2 or r['regs'].get(t) != [True, True]: C.violation('content' if t < 2 else 'alias', f'{lab} {who}', f'{lab}: {who} has radial scheme {"kept" if rq else "changed"}, radial parameters {("missing", "kept", "changed")[tr]}, regions {r["regs"].get(t)}')
            else: C.ok()
        for a in r['x']:
            if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].o is a[1].o: C.violation('alias', lab, f'{lab}: copy and source share storage')
            else: C.ok()
def unspec(C, mod):
    fn = 'drv_un'
    def body(I, cell, S):
        I.call(fn, [S['rq'], S['n']] + rsym('R', 'al') + [S['q'], S['s']])
        g = sinks(I)
        return dict(h=[(a[0], cell.decide_eq(psub(a[1], S['rq'])), (a[2], a[3])) for a, s in g['sink_regs']], r=[(cell.decide_eq(psub(a[3], S['q'])), cell.decide_eq(psub(a[4], S['s']))) for a, s in g['sink_reg']], x=[a for a, s in g['sink_x']])
    for cell, I, r in C.explore(mod, fn, body, roots=[('rq', 0, 2**30), ('n', 1, 2**20), ('q', 0, 2**30), ('s', 0, 2**20)]):
        lab = 'unpruned specification copy'
        if isinstance(r, Abort): C.violation('total', lab, f'{lab}: fails ({describe_abort(r)})', r.loc); continue
        bad(C, I, lab)
        en = cell.sample(C.rng, big=50); e = dict(R=mp.mpf('1.37'), al=mp.mpf('.61'))
        h = [(a, b, kept(c, en, e)) for a, b, c in r['h']]
        if h != [(0, True, 1), (1, True, 1), (2, True, 1), (3, True, 0)] or not all(a and b for a, b in r['r']): C.violation('content', lab, f'{lab}: fields not kept: {h} {r["r"]}')
        else: C.ok()
        for a in r['x']:
            if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].o is a[1].o: C.violation('alias', lab, f'{lab}: radial parameters are shared')
            else: C.ok()
def run(C):
    ms = C.modules([('cp', SRC), ('tr', TSRC)]); m, t = ms['cp'], ms['tr']
    J = [lambda fn=fn, d=d, c=c: quad(C, m, fn, d, c) for fn, d, c in (('drv_r', 1, 0), ('drv_rb', 1, 0), ('drv_a', 3, 0), ('drv_s', 3, 1), ('drv_sc', 3, 1), ('drv_p', 3, 1), ('drv_pc', 3, 1))]
    J += [lambda x=x: rec(C, m, f'drv_rec_{x}') for x in ('s', 'sc', 'p', 'pc')] + [lambda: rec(C, m, 'drv_batch', True)]
    J += [lambda x=x: parts(C, m, f'drv_part_{x}') for x in ('copy', 'assign', 'over', 'self')]
    J += [lambda x=x: traits(C, t, x) for x in IDEAL]
    J += [lambda x=x: cross(C, t, f'drv_x_{x}') for x in ('BK_MH', 'BK_MK', 'BK_TA', 'MH_MK', 'MH_TA', 'MK_TA', 'MH_M3', 'BK_M3')]
    J += [lambda: region(C, t)] + [lambda x=x: speceq(C, t, *map(int, x)) for x in ('2200', '1200', '2100', '0000', '0100', '1111', '1101', '1110')]
    J += [lambda x=x: speccp(C, t, x) for x in ('ctor', 'asg', 'self', 'nctor', 'nasg')] + [lambda: unspec(C, t)]
    C.parallel(J)
    C.finish('Copy construction, clone, assignment and self-assignment of rules, product and pruned grids, partitions, batched grids, parameter sets and specifications with symbolic sizes, contents, written slot and value; contents compared at a symbolic slot after every step; every field of every equality.')
if __name__ == '__main__': main(C, run)
