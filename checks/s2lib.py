"""Shared analysis of the angular families: size dispatch -> constant tables, and the order look-ups."""
from lib import *
import numpy as np
FAM = dict(AhrensBeylkin=('s2/ahrens_beylkin.hpp', 'ahrens_beylkin'), Delley=('s2/delley.hpp', 'delley'), LebedevLaikov=('s2/lebedev_laikov.hpp', 'lebedev_laikov'), Womersley=('s2/womersley.hpp', 'womersley'))
HEAD = """
#include <integratorxx/quadratures/s2.hpp>
using namespace IntegratorXX;
extern "C" void sink_p(const double*, size_t);
extern "C" void sink_w(const double*, size_t);
extern "C" void sink_r(int64_t);
"""
def src_gen(f):
    return f"""
extern "C" void drv_gen_{f}(size_t n){{ {f}<double> q(n); sink_p((const double*)q.points().data(), q.points().size()); sink_w(q.weights().data(), q.weights().size()); }}
"""
def src_look(f):
    return f"""
extern "C" void drv_size_{f}(int64_t o){{ sink_r(quadrature_traits<{f}<double>>::npts_by_algebraic_order(o)); }}
extern "C" void drv_order_{f}(int64_t n){{ sink_r(quadrature_traits<{f}<double>>::algebraic_order_by_npts(n)); }}
extern "C" void drv_next_{f}(int64_t o){{ sink_r(quadrature_traits<{f}<double>>::next_algebraic_order(o)); }}
"""
def build(C, gen=True, look=True):
    """one unit per family, compiled in parallel"""
    ms = C.modules([(f, HEAD + (src_gen(f) if gen else '') + (src_look(f) if look else '')) for f in FAM])
    return ms
BIG = 2**40
def lookup(C, mod, fn):
    """piecewise function of one integer: list of (cell, value or Abort)"""
    def body(I, cell, S):
        I.call(fn, [S['x']])
        if len(I.sinks) != 1: raise CheckError(f'{fn}: no result observed')
        v = I.sinks[0][1][0]
        return signed(v)
    return C.explore(mod, fn, body, roots=[('x', -BIG, BIG)], maxcells=20000)
def signed(v):
    if isinstance(v, int) and v >= 2**63: return v - 2**64
    return v
def dispatch(C, mod, f, with_data=False):
    """cells of the size argument: list of (size or None, cell, result)"""
    fn = 'drv_gen_' + f
    def body(I, cell, S):
        I.call(fn, [S['n']])
        got = {nm: (a, snap) for nm, a, snap, i in I.sinks}
        if set(got) != {'sink_p', 'sink_w'}: raise CheckError(f'{fn}: result not observed')
        n = fixed(cell, 'n')
        r = dict(np=got['sink_p'][0][1], nw=got['sink_w'][0][1], n=n)
        if n and with_data:
            q = cell.add_root('q', 0, n - 1)
            p, w = got['sink_p'][0][0], got['sink_w'][0][0]
            r['p'] = [I.read(p.o, padd(p.off, padd(pmul(24, q), 8*c)), 8, 'd') for c in range(3)]
            r['w'] = I.read(w.o, padd(w.off, pmul(8, q)), 8, 'd')
            r['loc'] = locs_of(w.o)
        return r
    return C.explore(mod, fn, body, roots=[('n', 0, BIG)], maxcells=40000)
def fixed(cell, s):
    """value of a symbol pinned by the cell, else None"""
    x = sym(s)
    b = cell.bounds(s, {}, cell.cons)
    if b and b[0] == b[1]: return b[0]
    return None
def npeval(mod, t, env, q):
    """evaluate a value term for a vector of slot indices (float64)"""
    o = t.op
    if o == 'c': return np.full(len(q), t.a[0])
    if o == 'i': return np.asarray(ppeval(t.a[0], env, q), dtype=float) + np.zeros(len(q))
    if o == 'gl':
        name, off = t.a
        g = mod.globals[name]
        offs = np.asarray(ppeval(off, env, q)) + np.zeros(len(q), dtype=np.int64)
        raw = np.frombuffer(mod.bin, dtype=np.uint8, count=g['size'], offset=g['pos'])
        if (offs < 0).any() or (offs + 8 > g['size']).any() or (offs % 8).any() or g['size'] % 8: raise Unknown('table access outside ' + name)
        return raw.view(np.float64)[offs // 8]
    v = [npeval(mod, x, env, q) for x in t.a]
    if o == '+': return v[0] + v[1]
    if o == '-': return v[0] - v[1]
    if o == '*': return v[0] * v[1]
    if o == '/': return v[0] / v[1]
    if o == 'neg': return -v[0]
    fn = {'sqrt': np.sqrt, 'cos': np.cos, 'sin': np.sin, 'abs': np.abs, 'exp': np.exp, 'log': np.log, 'acos': np.arccos, 'asin': np.arcsin, 'atan2': np.arctan2, 'tan': np.tan}.get(o)
    if fn: return fn(*v)
    raise Unknown('no vector interpretation of ' + o)
def ppeval(p, env, q):
    if not isinstance(p, Poly): return p
    r = 0
    for m, c in p.t.items():
        v = c
        for s in m:
            if s == 'q': v = v * q
            elif s in env: v = v * env[s]
            else: raise Unknown(f'symbol {s}')
        r = r + v
    return r
def in_cell(cell, env):
    """does the point satisfy the cell's constraints (floor-division symbols are evaluated)"""
    e = dict(env)
    for name, (num, den) in cell.defs.items():
        try: e[name] = peval(num, e) // peval(den, e)
        except KeyError: pass
    for p in cell.cons:
        if any(s not in e for s in symbols(p)): continue
        if peval(p, e) < 0: return None
    return e
def tabulate(C, f, kind, pieces, lo, hi):
    """explicit function on [lo,hi] plus the pieces reaching beyond; value None = fails"""
    val, tails = {}, []
    for c, I, v in pieces:
        b = c.bounds('x', {}, c.cons) or (1, 0)
        if b[0] > b[1]: continue
        if b[0] < lo: tails.append(('below', v, c, I))
        if b[1] > hi: tails.append(('above', v, c, I))
        for x in range(max(lo, b[0]), min(hi, b[1]) + 1):
            e = in_cell(c, dict(x=x))
            if e is None: continue
            y = v if isinstance(v, (Abort, int)) else signed(peval(v, e))
            if x in val and val[x] != y and not isinstance(y, Abort): raise Unknown(f'{f} {kind}: overlapping pieces at {x}: {val[x]} / {y}')
            val[x] = y
    miss = [x for x in range(lo, hi + 1) if x not in val]
    if miss: raise Unknown(f'{f} {kind}: no piece covers {miss[:5]}')
    return val, tails
