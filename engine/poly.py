"""Integer polynomials, polyhedral cells (Fourier-Motzkin entailment) and real terms."""
from math import gcd
from fractions import Fraction
import itertools

# ---------------------------------------------------------------- polynomials
# An index value is a python int or a Poly (dict: monomial(tuple of symbols) -> int)

class Poly:
    __slots__ = ('t', '_h')
    def __init__(self, t):
        self.t = t
        self._h = None
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t
    def __repr__(self):
        out = []
        for m in sorted(self.t, key=lambda m: (-len(m), m)):
            c = self.t[m]
            s = '*'.join(m)
            if not m: s = str(c)
            elif c == 1: pass
            elif c == -1: s = '-' + s
            else: s = f'{c}*{s}'
            out.append(s)
        r = ' + '.join(out) if out else '0'
        return r.replace('+ -', '- ')

def sym(name):
    return Poly({(name,): 1})

def mk(t):
    t = {m: c for m, c in t.items() if c}
    if not t: return 0
    if len(t) == 1 and () in t: return t[()]
    return Poly(t)

def terms(a):
    if isinstance(a, Poly): return a.t
    return {(): a} if a else {}

def padd(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly): return a + b
    t = dict(terms(a))
    for m, c in terms(b).items(): t[m] = t.get(m, 0) + c
    return mk(t)

def pneg(a):
    if not isinstance(a, Poly): return -a
    return Poly({m: -c for m, c in a.t.items()})

def psub(a, b): return padd(a, pneg(b))

def pmul(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly): return a * b
    t = {}
    for m1, c1 in terms(a).items():
        for m2, c2 in terms(b).items():
            m = tuple(sorted(m1 + m2))
            t[m] = t.get(m, 0) + c1 * c2
    return mk(t)

def pconst(a): return terms(a).get((), 0)
def symbols(a):
    if not isinstance(a, Poly): return set()
    return {s for m in a.t for s in m}

def psubst(a, env):
    """substitute symbols by polys/ints"""
    if not isinstance(a, Poly): return a
    if not any(s in env for m in a.t for s in m): return a
    r = 0
    for m, c in a.t.items():
        v = c
        for s in m: v = pmul(v, env.get(s, None) if s in env else sym(s))
        r = padd(r, v)
    return r

def pdiv_exact(a, c):
    """a / c for int c when all coefficients are divisible, else None"""
    if not isinstance(a, Poly): return a // c if a % c == 0 else None
    if all(v % c == 0 for v in a.t.values()): return mk({m: v // c for m, v in a.t.items()})
    return None

def coef_of(a, s):
    """a = C*s + R with s of degree<=1; returns (C,R) or None"""
    C, R = {}, {}
    for m, c in terms(a).items():
        k = m.count(s)
        if k == 0: R[m] = c
        elif k == 1:
            mm = list(m); mm.remove(s); C[tuple(mm)] = C.get(tuple(mm), 0) + c
        else: return None
    return mk(C), mk(R)

def pdivmod(a, b):
    """polynomial division a = b*q + r w.r.t. the leading monomial of b"""
    bt = terms(b)
    lead = max(bt, key=lambda m: (len(m), m))
    lc = bt[lead]
    q, r = 0, a
    for _ in range(64):
        best = None
        for m, c in terms(r).items():
            mm = list(m); ok = True
            for s in lead:
                if s in mm: mm.remove(s)
                else: ok = False; break
            if ok and c % lc == 0:
                if lead == () and m == () : best = (tuple(mm), c // lc); break
                best = (tuple(mm), c // lc); break
        if best is None: break
        t = mk({best[0]: best[1]})
        q = padd(q, t); r = psub(r, pmul(t, b))
        if not terms(r): break
    return q, r

def peval(a, env):
    if not isinstance(a, Poly): return a
    r = 0
    for m, c in a.t.items():
        v = c
        for s in m: v = v * env[s]
        r = r + v
    return r

# ---------------------------------------------------------------- exceptions
class Split(Exception):
    """predicate poly compared with 0 cannot be decided in the current cell"""
    def __init__(self, p, kind):
        self.p, self.kind = p, kind   # kind: 'ge' (p>=0 ?) or 'eq' (p==0 ?)
    def __str__(self): return f'Split({self.p!r} {self.kind} 0)'

class Unknown(Exception):
    """the analysis cannot interpret a construct (never a verdict)"""
    def __init__(self, msg, loc=None):
        super().__init__(msg + (f' at {loc}' if loc else '')); self.loc = loc

# ---------------------------------------------------------------- FM
def _norm(c):
    g = 0
    for m, v in c.items():
        if m != (): g = gcd(g, abs(v))
    if g > 1:
        n = {m: v // g for m, v in c.items() if m != ()}
        k = c.get((), 0)
        n[()] = k // g            # floor: integer tightening
        return n
    return c

def _fm_infeasible(cons, limit=4000):
    """cons: list of dict monomial->int meaning sum >= 0. True if rationally infeasible
    (after integer tightening)."""
    cur = []
    seen = set()
    for c in cons:
        c = _norm({m: v for m, v in c.items() if v})
        if not any(m != () for m in c):
            if c.get((), 0) < 0: return True
            continue
        key = frozenset(c.items())
        if key not in seen: seen.add(key); cur.append(c)
    while True:
        vs = {}
        for c in cur:
            for m, v in c.items():
                if m != ():
                    p = vs.setdefault(m, [0, 0]); p[0 if v > 0 else 1] += 1
        if not vs: return False
        x = min(vs, key=lambda m: (vs[m][0] * vs[m][1] - vs[m][0] - vs[m][1], m))
        pos = [c for c in cur if c.get(x, 0) > 0]; neg = [c for c in cur if c.get(x, 0) < 0]
        rest = [c for c in cur if not c.get(x, 0)]
        best = {}
        def add(c):
            key = frozenset((m, v) for m, v in c.items() if m != () and v)
            k = c.get((), 0)
            if key not in best or best[key] > k: best[key] = k
        for c in rest: add(c)
        for a in pos:
            for b in neg:
                ca, cb = a[x], -b[x]
                g = gcd(ca, cb); ma, mb = cb // g, ca // g
                n = {}
                for m, v in a.items():
                    if m != x: n[m] = n.get(m, 0) + ma * v
                for m, v in b.items():
                    if m != x: n[m] = n.get(m, 0) + mb * v
                n = _norm({m: v for m, v in n.items() if v})
                if not any(m != () for m in n):
                    if n.get((), 0) < 0: return True
                    continue
                add(n)
        cur = [dict(list(k) + [((), v)]) for k, v in best.items()]
        if len(cur) > limit: return False

class Cell:
    """A polyhedral cell: conjunction of poly >= 0 constraints plus definitions of
    floor-division symbols."""
    MAXN = 2**31
    def __init__(self, cons=(), roots=()):
        self.base = list(cons)        # cell-defining constraints
        self.roots = list(roots)      # root symbols in sampling order
        self.reset()
    def reset(self):
        self.cons = list(self.base)
        self.defs = {}                # name -> (num poly, den poly)
        self.cache = {}
    def clone_with(self, extra):
        c = Cell(self.base + list(extra), self.roots)
        return c
    def add_root(self, name, lo=None, hi=None):
        s = sym(name)
        if name not in self.roots: self.roots.append(name)
        if lo is not None: self.assume(psub(s, lo))
        if hi is not None: self.assume(psub(hi, s))
        return s
    def assume(self, p):
        if not isinstance(p, Poly):
            if p < 0: raise Unknown('contradictory assumption')
            return
        if p not in self.cons:
            self.cons.append(p); self.cache.clear()
    def push(self): return len(self.cons)
    def pop(self, n):
        if len(self.cons) != n: del self.cons[n:]; self.cache.clear()

    def relevant(self, p, cons):
        want = {m for m in terms(p) if m}
        syms = {s for m in want for s in m}
        sel = []; rem = list(cons)
        changed = True
        while changed:
            changed = False
            nr = []
            for c in rem:
                cs = symbols(c)
                if cs & syms:
                    sel.append(c); syms |= cs; changed = True
                else: nr.append(c)
            rem = nr
        return sel
    def _system(self, p, neg=None):
        cons = self.relevant(p, self.cons)
        if neg is not None: cons = cons + [neg]
        out = [dict(terms(c)) for c in cons]
        monos = {m for c in cons + [p] for m in terms(c) if len(m) >= 2}
        if monos:
            # linearise: multiply linear constraints on one factor by the other (nonneg) factors
            for m in list(monos):
                for i in range(len(m)):
                    x = m[i]; rest = m[:i] + m[i + 1:]
                    if any(not self.simple_nonneg(s) for s in rest): continue
                    rp = mk({tuple(sorted(rest)): 1})
                    for c in cons:
                        if x in symbols(c) and all(len(mm) <= 2 for mm in terms(c)):
                            q = pmul(c, rp)
                            out.append(dict(terms(q)))
                if all(self.simple_nonneg(s) for s in m): out.append({m: 1})
        return out
    def simple_nonneg(self, s):
        for c in self.cons:
            t = terms(c)
            if t.get((s,), 0) > 0 and all(m == (s,) or m == () for m in t) and t.get((), 0) <= 0: return True
        if s.startswith('fd('): return True
        # implied lower bounds through other constraints
        key = ('nn', s)
        if key in self.cache: return self.cache[key]
        self.cache[key] = False
        r = self.prove(sym(s))
        self.cache[key] = r
        return r
    def prove(self, p):
        """p >= 0 entailed?"""
        if not isinstance(p, Poly): return p >= 0
        key = ('p', p)
        if key in self.cache: return self.cache[key]
        neg = padd(pneg(p), -1)
        sy = self._system(p, neg)
        r = _fm_infeasible(sy)
        if not r:
            # products of two linear constraints whose quadratic part is made of monomials of p
            quad = {m for m in terms(p) if len(m) == 2}
            if quad and all(len(m) <= 2 for m in terms(p)):
                qs = {s for m in quad for s in m}
                lin = [c for c in self.cons if all(len(m) <= 1 for m in terms(c)) and symbols(c) & qs]
                if len(lin) <= 60:
                    extra = []
                    for x in qs:
                        c = coef_of(p, x)
                        if c is None or not isinstance(c[0], Poly) or x in symbols(c[0]) or not self.simple_nonneg(x): continue
                        g = 0
                        for v in c[0].t.values(): g = gcd(g, abs(v))
                        A0 = mk({m: v // g for m, v in c[0].t.items()})
                        for A in (A0, pneg(A0)):
                            B = padd(A, -1)
                            f = B if self.prove(B) else A if self.prove(A) else None
                            if f is not None:
                                extra.append(dict(terms(pmul(f, sym(x)))))
                                if f not in lin: lin.append(f)
                    for i, a in enumerate(lin):
                        for b in lin[i + 1:]:
                            q = pmul(a, b)
                            if all(len(m) <= 1 or m in quad for m in terms(q)) and any(len(m) == 2 for m in terms(q)): extra.append(dict(terms(q)))
                    if extra: r = _fm_infeasible(sy + extra)
        self.cache[key] = r
        return r
    def feasible(self):
        allp = 0
        cons = [dict(terms(c)) for c in self.cons]
        return not _fm_infeasible(cons)
    def decide_ge(self, p, split=True):
        if not isinstance(p, Poly): return p >= 0
        if self.prove(p): return True
        if self.prove(padd(pneg(p), -1)): return False
        if split: raise Split(p, 'ge')
        return None
    def decide_eq(self, p, split=True):
        if not isinstance(p, Poly): return p == 0
        # gcd test
        g = 0
        for m, c in p.t.items():
            if m: g = gcd(g, abs(c))
        if pconst(p) % g: return False
        if self.prove(padd(p, -1)) or self.prove(padd(pneg(p), -1)): return False
        if self.prove(p) and self.prove(pneg(p)): return True
        if split: raise Split(p, 'eq')
        return None
    def floordiv(self, p, d):
        """floor(p/d) for p>=0, d>0"""
        if not isinstance(p, Poly) and not isinstance(d, Poly):
            return p // d
        if not isinstance(d, Poly):
            e = pdiv_exact(p, d)
            if e is not None: return e
            sy = symbols(p)
            if len(sy) == 1:
                s, = sy
                if all(len(m) <= 1 for m in p.t):
                    b = self.bounds(s, {}, self.cons)
                    if b and b[1] < 1 << 40 and b[1] - b[0] < 256:
                        u, v = peval(p, {s: b[0]}) // d, peval(p, {s: b[1]}) // d
                        if u == v: return u
            # pull out the divisible part
            q = mk({m: c // d for m, c in p.t.items() if m and c % d == 0})
            k = pconst(p); q = padd(q, k // d)
            r = psub(p, pmul(q, d))
            if r == 0: return q
            for h in getattr(self, 'hints', ()):
                for o in (0, 1, -1, 2):
                    rem = psub(p, pmul(padd(h, o), d))
                    if self.prove(rem) and self.prove(psub(d - 1, rem)): return padd(h, o)
            if not self.prove(r):
                # keep the constant with the remainder
                q = mk({m: c // d for m, c in p.t.items() if m and c % d == 0}); r = psub(p, pmul(q, d))
            if self.prove(r) and self.prove(psub(d - 1, r)): return q
            if not self.prove(r): raise Unknown(f'floor division of possibly negative {p!r}')
            # neighbour of an existing quotient with the same divisor: express it through that one
            for name, (num, den) in self.defs.items():
                if den == d and not isinstance(den, Poly):
                    c = psub(r, num)
                    if isinstance(c, Poly) or c == 0: continue
                    h = sym(name); rem = psub(num, pmul(h, d)); q0, c0 = divmod(c, d)
                    if c0 == 0: return padd(q, padd(h, q0))
                    t = self.decide_ge(psub(padd(rem, c0), d), not any(s.startswith('k:') for s in symbols(rem)))
                    if t is not None: return padd(q, padd(h, q0 + (1 if t else 0)))
            return padd(q, self._fd(r, d))
        g = 0
        for m, c in d.t.items(): g = gcd(g, abs(c))
        if g > 1 and all(c % g == 0 for m, c in terms(p).items() if m):      # floor(g p' + c / g d') = floor(p' / d')
            return self.floordiv(mk({m: c // g for m, c in terms(p).items()}), mk({m: c // g for m, c in d.t.items()}))
        q, r = pdivmod(p, d)
        if r == 0: return q
        if self.prove(r) and self.prove(psub(psub(d, r), 1)): return q
        if not self.prove(p): raise Unknown(f'floor division of possibly negative {p!r}')
        return self._fd(p, d)
    def _fd(self, r, d):
        name = f'fd({r!r}/{d!r})'.replace(' ', '')
        h = sym(name)
        if name not in self.defs:
            self.defs[name] = (r, d)
        lo = psub(r, pmul(h, d)); hi = psub(psub(padd(pmul(h, d), d), 1), r)
        if lo not in self.cons: self.assume(lo)
        if hi not in self.cons: self.assume(hi)
        if h not in self.cons: self.assume(h)
        return h
    # -------- sampling integer points of the cell
    def bounds(self, s, env, cons):
        """integer bounds of s given partial env via FM projection of the other symbols"""
        sub = []
        for c in cons:
            c2 = psubst(c, env)
            if isinstance(c2, Poly): sub.append(dict(c2.t))
            elif c2 < 0: return None
        cur = sub; target = (s,)
        while True:
            vs = {m for c in cur for m in c if m and m != target}
            if not vs: break
            x = min(vs, key=lambda m: (sum(1 for c in cur if c.get(m, 0) > 0) * sum(1 for c in cur if c.get(m, 0) < 0), m))
            pos = [c for c in cur if c.get(x, 0) > 0]; neg = [c for c in cur if c.get(x, 0) < 0]
            nxt = [c for c in cur if not c.get(x, 0)]
            for a in pos:
                for b in neg:
                    n = {}
                    for m, v in a.items(): n[m] = n.get(m, 0) - b[x] * v
                    for m, v in b.items(): n[m] = n.get(m, 0) + a[x] * v
                    n = _norm({m: v for m, v in n.items() if v and m != x})
                    if n not in nxt: nxt.append(n)
            cur = nxt
            if len(cur) > 3000: break
        lo, hi = -(1 << 40), 1 << 40
        for c in cur:
            a = c.get(target, 0); k = c.get((), 0)
            if any(m and m != target for m in c): continue
            if a > 0: lo = max(lo, -(k // a))
            elif a < 0: hi = min(hi, (k // -a))
            elif k < 0: return None
        return lo, hi
    def sample(self, rng, big=200, tries=60, extra=()):
        """random integer point satisfying all constraints, or None"""
        cons = list(self.cons) + list(extra)
        syms_all = set()
        for c in cons: syms_all |= symbols(c)
        order = [r for r in self.roots if r in syms_all or True]
        order += sorted(x for x in syms_all if x not in order and x not in self.defs and not x.startswith('@'))
        for t in range(tries):
            env = {}
            ok = True
            for s in order:
                b = self.bounds(s, env, cons)
                if b is None: ok = False; break
                lo, hi = b
                if lo > hi: ok = False; break
                top = min(hi, max(lo, 0) + rng.choice([3, 17, big]) if hi > lo else hi)
                v = rng.randint(lo if lo > -(1 << 39) else min(0, top), top)
                r = rng.random()
                if r < 0.15: v = lo if lo > -(1 << 39) else v
                elif r < 0.3 and hi < (1 << 39) and hi <= top: v = hi
                env[s] = v
            if not ok: continue
            for name, (num, den) in self.defs.items():
                try: env[name] = peval(num, env) // peval(den, env)
                except (KeyError, ZeroDivisionError): pass
            try:
                if all(peval(c, env) >= 0 for c in cons if not any(s.startswith('@') for s in symbols(c))): return env
            except KeyError: pass
        return None

    def empty(self, limit=4000):
        """proof by enumeration that a bounded cell has no integer point"""
        cons = [c for c in self.cons if not any(x.startswith('@') for x in symbols(c))]
        seen = set().union(*[symbols(c) for c in cons]) if cons else set()
        order = [r for r in self.roots if r in seen]
        if any(x not in order and x not in self.defs for x in seen): return False
        budget = [limit]
        def rec(i, env):
            budget[0] -= 1
            if budget[0] < 0: return False
            if i == len(order):
                e = dict(env)
                for name, (num, den) in self.defs.items():
                    try: e[name] = peval(num, e) // peval(den, e)
                    except (KeyError, ZeroDivisionError): return False
                try: return not all(peval(c, e) >= 0 for c in cons)
                except KeyError: return False
            b = self.bounds(order[i], env, cons)
            if b is None: return True
            lo, hi = b
            if hi - lo > limit: return False
            return all(rec(i + 1, dict(env, **{order[i]: v})) for v in range(lo, hi + 1))
        return rec(0, {})

def subcells(cell, sp):
    out = []
    if sp.kind == 'ge':
        alts = [[sp.p], [padd(pneg(sp.p), -1)]]
    else:
        alts = [[sp.p, pneg(sp.p)], [padd(sp.p, -1)], [padd(pneg(sp.p), -1)]]
    for a in alts:
        c = cell.clone_with(a)
        c.defs = {}
        # re-introduce definitions needed by constraints
        for p in a:
            for s in symbols(p):
                if s in cell.defs:
                    num, den = cell.defs[s]
                    h = sym(s)
                    for extra in (psub(num, pmul(h, den)), psub(psub(padd(pmul(h, den), den), 1), num), h):
                        if extra not in c.base: c.base.append(extra)
                    c.keepdefs = getattr(c, 'keepdefs', {})
                    c.keepdefs[s] = (num, den)
        # drop constraints dominated by a stronger one over the same linear form
        best = {}
        for p in c.base:
            if not isinstance(p, Poly): continue
            key = frozenset((m, v) for m, v in p.t.items() if m)
            if key not in best or pconst(p) < pconst(best[key]): best[key] = p
        c.base = list(best.values()) + [p for p in c.base if not isinstance(p, Poly)]
        kd = dict(getattr(cell, 'keepdefs', {})); kd.update(getattr(c, 'keepdefs', {})); c.keepdefs = kd
        c.reset(); c.defs.update(kd)
        c.cons = list(cell.cons) + list(a)
        if c.feasible():
            c.reset(); c.defs.update(kd); out.append(c)
    return out

def explore(cell, fn, maxcells=4000):
    """run fn(cell) on a partition of `cell` fine enough that every guard is decided.
    returns list of (cell, result)"""
    res = []; work = [cell]; n = 0
    while work:
        c = work.pop()
        c.reset(); c.defs.update(getattr(c, 'keepdefs', {}))
        n += 1
        if n > maxcells: raise Unknown('too many cells')
        try:
            r = fn(c)
        except Split as s:
            subs = subcells(c, s)
            if len(subs) == 1 and len(subs[0].base) >= len(c.base) and subs[0].base == c.base: raise Unknown('split does not progress')
            work.extend(reversed(subs))
            continue
        res.append((c, r))
    return res
