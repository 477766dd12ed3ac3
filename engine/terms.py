"""Real-valued value terms (hash-consed) and their random interpretation."""
import mpmath as mp
from poly import *

_tab = {}
class T:
    """op, args (T, Poly/int, str, float)"""
    __slots__ = ('op', 'a', 'h', '_syms')
    def __repr__(self): return show(self)

def T_(op, *a):
    key = (op,) + tuple(id(x) if isinstance(x, T) else ('P', x) if isinstance(x, Poly) else ('k', type(x).__name__, x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.a = a; t.h = len(_tab); t._syms = None
        _tab[key] = t
    return t

def const(x): return T_('c', float(x))
def real(p):
    """int -> real conversion"""
    if isinstance(p, T): return p
    if not isinstance(p, Poly): return const(p)
    return T_('i', p)
def is_c(t, v=None): return t.op == 'c' and (v is None or t.a[0] == v)

def fadd(a, b):
    if is_c(a) and is_c(b): return const(a.a[0] + b.a[0])
    if is_c(a, 0.0): return b
    if is_c(b, 0.0): return a
    return T_('+', a, b)
def fneg(a):
    if is_c(a): return const(-a.a[0])
    if a.op == 'neg': return a.a[0]
    return T_('neg', a)
def fsub(a, b):
    if is_c(a) and is_c(b): return const(a.a[0] - b.a[0])
    if is_c(b, 0.0): return a
    return T_('-', a, b)
def fmul(a, b):
    if is_c(a) and is_c(b): return const(a.a[0] * b.a[0])
    if is_c(a, 1.0): return b
    if is_c(b, 1.0): return a
    return T_('*', a, b)
def fdiv(a, b):
    if is_c(a) and is_c(b) and b.a[0] != 0: return const(a.a[0] / b.a[0])
    if is_c(b, 1.0): return a
    return T_('/', a, b)

import math
def fcall(name, *a):
    if all(is_c(x) for x in a) and name in ('cos', 'sin', 'sqrt', 'log', 'exp', 'pow', 'abs'):
        try:
            v = {'cos': math.cos, 'sin': math.sin, 'sqrt': math.sqrt, 'log': math.log, 'exp': math.exp, 'pow': math.pow, 'abs': abs}[name](*[x.a[0] for x in a])
            return const(v)
        except (ValueError, OverflowError): pass
    return T_(name, *a)

def binder(t):
    """(positions of args in the scope of the binder, bound counter, bound phis) for rec/fix terms"""
    if t.op == 'rec':
        m = t.a[4]; return range(5 + 2 * m, 5 + 3 * m), t.a[2], t.a[5:5 + m], m, 5
    if t.op == 'fix':
        m = t.a[2]; return (0, 3, 4, *range(5 + 2 * m, 5 + 3 * m)), t.a[1], t.a[5:5 + m], m, 5
    return None
def tsyms(t):
    if t._syms is None and t.op in ('rec', 'fix'):
        sc, kn, phs, m, o = binder(t); s = set()
        for j, x in enumerate(t.a):
            y = tsyms(x) if isinstance(x, T) else symbols(x) if isinstance(x, Poly) else ()
            s |= (set(y) - {kn}) if j in sc else set(y)
        t._syms = frozenset(s)
    if t._syms is None:
        s = set()
        for x in t.a:
            if isinstance(x, T): s |= tsyms(x)
            elif isinstance(x, Poly): s |= symbols(x)
        t._syms = frozenset(s)
    return t._syms

def tsubst(t, env, memo=None):
    """substitute integer symbols"""
    if isinstance(t, (int, Poly)): return psubst(t, env)
    if not isinstance(t, T): return t
    if memo is None: memo = {}
    if not (tsyms(t) & env.keys()): return t
    r = memo.get(t)
    if r is None and t.op in ('rec', 'fix'):
        sc, kn, phs, m, o = binder(t)
        inner = {k: v for k, v in env.items() if k != kn}
        a = []
        for j, x in enumerate(t.a):
            e, mm = (inner, {}) if j in sc and kn in env else (env, memo)
            a.append(tsubst(x, e, mm) if isinstance(x, T) else psubst(x, e) if isinstance(x, Poly) else x)
        r = memo[t] = T_(t.op, *a)
    if r is None:
        a = [tsubst(x, env, memo) if isinstance(x, T) else psubst(x, env) if isinstance(x, Poly) else x for x in t.a]
        if t.op == 'i' and not isinstance(a[0], Poly): r = const(a[0])
        else: r = T_(t.op, *a)
        memo[t] = r
    return r

def treplace(t, m, memo=None):
    """replace subterms by identity"""
    if memo is None: memo = {}
    if t in m: return m[t]
    r = memo.get(t)
    if r is None:
        if not any(isinstance(x, T) for x in t.a): r = t
        elif t.op in ('rec', 'fix') and any(x in m for x in t.a[5:5 + binder(t)[3]]):
            sc, kn, phs, mm, o = binder(t)
            inner = {k: v for k, v in m.items() if k not in phs}
            r = T_(t.op, *[x if not isinstance(x, T) or 5 <= j < 5 + mm else treplace(x, inner) if j in sc else treplace(x, m, memo) for j, x in enumerate(t.a)])
        else:
            r = T_(t.op, *[treplace(x, m, memo) if isinstance(x, T) else x for x in t.a])
        memo[t] = r
    return r

def subterms(t, seen=None):
    if seen is None: seen = set()
    if t in seen: return seen
    seen.add(t)
    for x in t.a:
        if isinstance(x, T): subterms(x, seen)
    return seen

def show(t, d=0):
    if isinstance(t, (int, Poly)): return repr(t)
    if not isinstance(t, T): return str(t)
    if d > 14: return '...'
    o = t.op
    if o == 'c': return repr(t.a[0])
    if o == 'i': return '(' + repr(t.a[0]) + ')'
    if o in '+-*/': return '(' + show(t.a[0], d + 1) + ' ' + o + ' ' + show(t.a[1], d + 1) + ')'
    if o == 'neg': return '-' + show(t.a[0], d + 1)
    return o + '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'

_uf = {}
def uf_value(name, args, seed):
    import hashlib
    h = hashlib.sha256(repr((name, args, seed)).encode()).digest()
    return mp.mpf(int.from_bytes(h[:8], 'big')) / 2**64 * mp.mpf('0.8') + mp.mpf('0.1')

BOOL = ('true', 'false', 'not', 'and', 'or', 'fcmp', 'icmp')
class NoExit(Exception): pass
class Eval:
    """random interpretation: integer symbols -> env, real symbols -> renv (or hashed)"""
    def __init__(self, env, renv=None, seed=0, hooks=None, phi=None):
        self.env, self.renv, self.seed, self.memo, self.hooks, self.phi = env, renv or {}, seed, {}, hooks or {}, phi or {}
    def sub(self, kn, k, phs, vals):
        """evaluator of one loop iteration: counter kn = k, loop-carried values phs = vals"""
        return Eval(dict(self.env, **{kn: k}), self.renv, self.seed, self.hooks, dict(self.phi, **{p.a[0]: v for p, v in zip(phs, vals)}))
    def rec(self, t):
        """('rec', j, count, kn, lo, m, phis.., inits.., nexts..): phi j after count updates"""
        j, cnt, kn, lo, m = t.a[:5]; phs, ins, nx = t.a[5:5 + m], t.a[5 + m:5 + 2 * m], t.a[5 + 2 * m:5 + 3 * m]
        key = ('rec', kn, cnt, lo) + tuple(phs) + tuple(ins) + tuple(nx)
        v = self.memo.get(key)
        if v is None:
            c, l = peval(cnt, self.env), peval(lo, self.env)
            v = [self(x) for x in ins]
            for k in range(l, l + c):
                e = self.sub(kn, k, phs, v); v = [e(x) for x in nx]
            self.memo[key] = v
        return v[j]
    def fix(self, t, maxit=2000):
        """('fix', result, kn, m, exit, continue, phis.., inits.., nexts..): loop left by a condition on reals"""
        res, kn, m, ex, cont = t.a[:5]; phs, ins, nx = t.a[5:5 + m], t.a[5 + m:5 + 2 * m], t.a[5 + 2 * m:5 + 3 * m]
        key = ('fix', kn, ex, cont) + tuple(phs) + tuple(ins) + tuple(nx)
        e = self.memo.get(key)
        if e is None:
            v = [self(x) for x in ins]
            for k in range(maxit):
                e = self.sub(kn, k, phs, v)
                if e.cond(ex): break
                if not e.cond(cont): e = 'abort'; break
                v = [e(x) for x in nx]
            else: e = 'abort'
            self.memo[key] = e
        if e == 'abort': raise NoExit(f'loop {kn} never takes its normal exit')
        return e(res) if not (isinstance(res, T) and res.op in BOOL) else e.cond(res)
    def __call__(self, t):
        m = self.memo.get(t)
        if m is not None: return m
        o = t.op
        if o in self.hooks: r = self.hooks[o](self, t)
        elif o == 'c': r = mp.mpf(t.a[0])
        elif o == 'i': r = mp.mpf(peval(t.a[0], self.env))
        elif o == 'sym':
            r = self.renv[t.a[0]] if t.a[0] in self.renv else uf_value('sym:' + t.a[0], (), self.seed)
        elif o == 'uf': r = uf_value(t.a[0], tuple(int(peval(x, self.env)) if not isinstance(x, T) else str(self(x)) for x in t.a[1:]), self.seed)
        elif o == 'undef': r = mp.nan
        elif o == 'phi':
            if t.a[0] not in self.phi: raise Unknown('free loop-carried value ' + t.a[0])
            r = self.phi[t.a[0]]
        elif o == 'rec': r = self.rec(t)
        elif o == 'fix': r = self.fix(t)
        elif o == 'sel':
            r = self(t.a[1]) if self.cond(t.a[0]) else self(t.a[2])
        else:
            v = [self(x) if isinstance(x, T) else peval(x, self.env) if isinstance(x, (Poly, int)) else x for x in t.a]
            r = self.apply(o, v)
        self.memo[t] = r
        return r
    def apply(self, o, v):
        if o == '+': return v[0] + v[1]
        if o == '-': return v[0] - v[1]
        if o == '*': return v[0] * v[1]
        if o == '/': return v[0] / v[1]
        if o == 'neg': return -v[0]
        if o == 'sqrt': return mp.sqrt(v[0])
        if o == 'cos': return mp.cos(v[0])
        if o == 'sin': return mp.sin(v[0])
        if o == 'tan': return mp.tan(v[0])
        if o == 'atan': return mp.atan(v[0])
        if o == 'acos': return mp.acos(v[0])
        if o == 'log': return mp.log(v[0])
        if o == 'log1p': return mp.log(1 + v[0])
        if o == 'expm1': return mp.expm1(v[0])
        if o == 'log2': return mp.log(v[0], 2)
        if o == 'log10': return mp.log(v[0], 10)
        if o == 'exp': return mp.exp(v[0])
        if o == 'pow': return mp.power(v[0], v[1])
        if o == 'abs': return abs(v[0])
        if o == 'min': return min(v)
        if o == 'max': return max(v)
        if o == 'atan2': return mp.atan2(v[0], v[1])
        if o == 'cbrt': return mp.cbrt(v[0])
        if o == 'hypot': return mp.hypot(v[0], v[1])
        if o == 'fma': return v[0]*v[1]+v[2]
        raise Unknown(f'no interpretation for operation {o}')
    def cond(self, t):
        o = t.op
        if o == 'true': return True
        if o == 'fix': return bool(self.fix(t))
        if o == 'false': return False
        if o == 'not': return not self.cond(t.a[0])
        if o == 'and': return self.cond(t.a[0]) and self.cond(t.a[1])
        if o == 'or': return self.cond(t.a[0]) or self.cond(t.a[1])
        if o == 'fcmp':
            a, b = self(t.a[1]), self(t.a[2])
            p = t.a[0][1:]
            return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[p]
        if o == 'icmp':
            v = peval(t.a[1], self.env)
            return {'ge': v >= 0, 'eq': v == 0}[t.a[0]]
        raise Unknown(f'condition {o}')

TRUE, FALSE = T_('true'), T_('false')
def cnot(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.a[0]
    return T_('not', c)
def cand(a, b):
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE or b is FALSE: return FALSE
    return T_('and', a, b)
def cor(a, b): return cnot(cand(cnot(a), cnot(b)))
def sel(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return T_('sel', c, a, b)
