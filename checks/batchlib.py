"""Batched grids: a spherical grid of uninterpreted contents behind the public base class, symbolic batch boundaries, and a model of the
standard element searches (a fresh index, defined as the position the comparator selects)."""
from complib import *
SEARCH = '''
#include <algorithm>
#include <utility>
#include <functional>
#include <iterator>
extern "C" size_t vf_pick(size_t kind, size_t n); extern "C" size_t vf_var(size_t which, size_t n); extern "C" void vf_def(size_t s, size_t p, size_t q, int less); extern "C" void vf_done();
namespace std {
template <class It, class C> It vf_search(size_t kind, It b, It e, C c) {
  size_t n = e - b; if(n == 0) return e;
  size_t s = vf_pick(kind, n), p = vf_var(0, n), q = vf_var(1, n);
  vf_def(s, p, q, c(*(b + p), *(b + q)));
  return b + s; }
template <class It, class C> pair<It,It> vf_minmax_element(It b, It e, C c) { auto l = vf_search(0, b, e, c); return pair<It,It>(l, vf_search(2, b, e, c)); }
template <class It> pair<It,It> vf_minmax_element(It b, It e) { return std::vf_minmax_element(b, e, std::less<>()); }
template <class It, class C> It vf_min_element(It b, It e, C c) { return vf_search(0, b, e, c); }
template <class It> It vf_min_element(It b, It e) { return vf_search(0, b, e, std::less<>()); }
template <class It, class C> It vf_max_element(It b, It e, C c) { return vf_search(1, b, e, c); }
template <class It> It vf_max_element(It b, It e) { return vf_search(1, b, e, std::less<>()); }
}
#define minmax_element vf_minmax_element
#define min_element vf_min_element
#define max_element vf_max_element
'''
GRID = '''
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace IntegratorXX;
using pt3 = std::array<double,3>; using SB = SphericalQuadratureBase<std::vector<pt3>, std::vector<double>>; using MB = SphericalMicroBatcher<std::vector<pt3>, std::vector<double>>;
extern "C" double uf_gx(size_t); extern "C" double uf_gy(size_t); extern "C" double uf_gz(size_t); extern "C" double uf_gw(size_t);
struct MG : SB { std::vector<pt3> p; std::vector<double> w;
  using point_container = std::vector<pt3>; using weight_container = std::vector<double>;
  MG(size_t n, pt3 c) : SB(c), p(n), w(n) { for(size_t i = 0; i < n; ++i) { p[i] = pt3{uf_gx(i), uf_gy(i), uf_gz(i)}; w[i] = uf_gw(i); } }
  const std::vector<pt3>& sph_points_adaptor() const override { return p; } std::vector<pt3>& sph_points_adaptor() override { return p; }
  const std::vector<double>& sph_weights_adaptor() const override { return w; } std::vector<double>& sph_weights_adaptor() override { return w; }
  std::shared_ptr<SB> clone() const override { return std::make_shared<MG>(*this); } };
'''
def arm(I, cell):
    """handlers of the search model; I.picks: [(index symbol, kind, n, p, q, comparison term)].
    The ranges of the bound variables p, q are only assumed while the comparator is derived, those of the picked indices until vf_done()."""
    I.picks = []; cnt = [0]; last = []; tmp = []
    def fresh(base, n):
        cnt[0] += 1; nm = f'{base}{cnt[0]}'
        mark = len(cell.cons); s = cell.add_root(nm, 0, psub(n, 1)); tmp.append((nm, cell.cons[mark:]))
        return s
    def drop(keep):
        for nm, cs in [t for t in tmp if t[0][0] not in keep]:
            for c in cs: cell.cons.remove(c)
            cell.roots.remove(nm); tmp.remove((nm, cs))
        cell.cache.clear()
    def pick(I, a, i):
        last[:] = [a[0], a[1]]; return fresh('s', a[1])
    def define(I, a, i):
        I.picks.append((a[0], last[0], last[1], a[1], a[2], a[3])); drop('s')
    I.externs.update(vf_pick=pick, vf_var=lambda I, a, i: fresh('pq'[a[0]], a[1]), vf_def=define, vf_done=lambda I, a, i: drop(''))
def settle(I, cell, env, e, seed):
    """give every picked index the position its comparator selects"""
    def name(x):
        if not isinstance(x, Poly): return None
        s = symbols(x); return next(iter(s)) if len(s) == 1 else None
    for s, kind, n, p, q, c in I.picks:
        N = peval(n, env) if isinstance(n, Poly) else n; ps, qs, ss = name(p), name(q), name(s)
        def less(a, b):
            en = dict(env)
            if ps: en[ps] = a
            if qs: en[qs] = b
            for nm, (num, den) in cell.defs.items():
                if nm in en and (symbols(num) | symbols(den)) & {ps, qs}: raise Unknown('search over a divided index')
            if isinstance(c, bool) or isinstance(c, int): return bool(c)
            if isinstance(c, Poly): return peval(c, en) != 0
            return Eval(en, e, seed=seed).cond(c)
        best = 0
        for k in range(1, N):
            if kind == 0 and less(k, best) or kind == 1 and less(best, k) or kind == 2 and not less(k, best): best = k
        if ss: env[ss] = best
    return env
def unsplit(I, cell):
    """the comparison must have been derived for every pair of positions of the range"""
    vs = {x for t in I.picks for v in t[3:5] if isinstance(v, Poly) for x in symbols(v)}
    for c in cell.base:
        if symbols(c[1] if isinstance(c, tuple) else c) & vs: raise Unknown(f'search comparison depends on position: {c}')
