"""Abstract interpreter over exported LLVM IR.

Domain: integers are polynomials over symbols constrained by a polyhedral cell, reals are
uninterpreted/elementary value terms, memory is an update log per object whose entries are
generalised over loop iterations.  Loops with symbolic trip counts are never unrolled: one
generic iteration is interpreted and summarised.  A guard that the cell does not decide
raises Split; the driver partitions the cell (trace partitioning).  No solver is involved.
"""
import json, struct, sys, os, math, hashlib
from poly import *
from terms import *
sys.setrecursionlimit(20000)

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off=0): self.o, self.off = o, off
    def __repr__(self): return f'&{self.o.name}+{self.off!r}'
    def __eq__(self, b): return isinstance(b, Ptr) and self.o is b.o and self.off == b.off
    def __hash__(self): return hash((id(self.o), self.off))

class Parts:
    """a value assembled from narrower stores (struct copies with padding): low bytes first"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p            # ((offset, size, value), ...)
    def __repr__(self): return f'parts{self.p!r}'
    def __eq__(self, b): return isinstance(b, Parts) and self.p == b.p
    def __hash__(self): return hash(str(self.p))
    @staticmethod
    def join(ps):
        flat = []
        for o, s, v in ps:
            if isinstance(v, Parts): flat += [(o + o2, s2, v2) for o2, s2, v2 in v.p]
            else: flat.append((o, s, v))
        if all(v is UNDEF for _, _, v in flat): return UNDEF
        if all(isinstance(v, int) and not isinstance(v, bool) for _, _, v in flat):
            n = sum(s for _, s, _ in flat)
            b = b''.join((v & ((1 << 8 * s) - 1)).to_bytes(s, 'little') for _, s, v in flat)
            return int.from_bytes(b, 'little', signed=True)
        return Parts(tuple(flat))
    def take(self, c, n):
        out = [(o - c, s, v) for o, s, v in self.p if o >= c and o + s <= c + n]
        if sum(s for _, s, _ in out) != n: raise Unknown('partial read of an assembled value')
        return out[0][2] if len(out) == 1 else Parts.join(out)
class PartialOverlap(Unknown): pass

class Abort(Exception):
    """abnormal completion of the analysed program: throw / terminate / assertion / abort"""
    def __init__(self, kind, info='', loc=None): super().__init__(f'{kind}:{info}'); self.kind, self.info, self.loc = kind, info, loc
class NeedRec(Exception):
    def __init__(self, header): self.header = header

class Entry:
    __slots__ = ('kind', 'off', 'size', 'val', 'vars', 'guard', 'uid', 'loc')
    # kind: 'w' store, 's' memset, 'c' copy (val=(srcobj, srclen, srcoff)), 'h' havoc(val=name)
    def __init__(self, kind, off, size, val, vars=(), guard=None, loc=None):
        self.kind, self.off, self.size, self.val, self.vars, self.guard, self.loc = kind, off, size, val, vars, guard, loc
    def __repr__(self): return f'{self.kind}[{self.off!r}:{self.size!r}]={self.val!r} {self.vars!r}' + (f' if {self.guard!r}' if self.guard else '')

class Obj:
    _n = 0
    def __init__(self, kind, size, name):
        Obj._n += 1
        self.id = Obj._n
        self.kind, self.size, self.name = kind, size, f'{name}#{self.id}'
        self.log = []; self.freed = False; self.g = None; self.loc = None
    def __repr__(self): return self.name

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {}
        for f in d['functions']:
            F = Fn(f); self.fns[F.name] = F
        self.globals = d['globals']; self.bin = open(path + '.bin', 'rb').read()
        self.catch = d['catch']
        self.gobj = {}

class Fn:
    def __init__(self, f):
        self.name, self.dem, self.args = f['name'], f['dem'], f['args']
        self.file, self.line = f.get('file'), f.get('line')
        self.blocks = {b['n']: b['is'] for b in f['blocks']}
        self.order = [b['n'] for b in f['blocks']]
        self.entry = self.order[0]
        self.loops = {l['header']: l for l in f['loops']}
        for l in self.loops.values():
            l['bset'] = set(l['blocks'])
            l['defs'] = [i['i'] for b in l['blocks'] for i in self.blocks[b]]
        self.succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t['op'] == 'br': self.succ[b] = list(t['succ'])
            elif t['op'] == 'switch': self.succ[b] = [t['def']] + [c[1] for c in t['cases']]
            else: self.succ[b] = []
        # blocks that can reach a return
        rets = {b for b, ins in self.blocks.items() if ins[-1]['op'] == 'ret'}
        pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss: pred[s].append(b)
        live = set(rets); work = list(rets)
        while work:
            for p in pred[work.pop()]:
                if p not in live: live.add(p); work.append(p)
        self.live = live; self.pred = pred
        self._pdom = None
    def ipdom(self, b):
        if self._pdom is None:
            # iterative post-dominator sets restricted to live blocks
            L = [x for x in self.order if x in self.live]
            full = set(L); pd = {x: set(full) for x in L}
            for x in L:
                if self.blocks[x][-1]['op'] == 'ret': pd[x] = {x}
            ch = True
            while ch:
                ch = False
                for x in reversed(L):
                    ss = [s for s in self.succ[x] if s in self.live]
                    if not ss: continue
                    n = set.intersection(*[pd[s] for s in ss]) | {x}
                    if n != pd[x]: pd[x] = n; ch = True
            self._pdom = pd
        pd = self._pdom
        if b not in pd: return None
        cand = pd[b] - {b}
        for c in cand:
            if all(o == c or o in pd[c] for o in cand): return c
        return None

class Frame:
    __slots__ = ('f', 'env', 'active', 'allocas')
    def __init__(self, f): self.f, self.env, self.active, self.allocas = f, {}, [], []

MATH = {'cos': 1, 'sin': 1, 'tan': 1, 'acos': 1, 'atan': 1, 'sqrt': 1, 'log': 1, 'exp': 1, 'pow': 2, 'fabs': 1, 'log1p': 1, 'expm1': 1, 'log2': 1, 'log10': 1,
        'atan2': 2, 'cbrt': 1, 'hypot': 2, 'fma': 3}
UNROLL = 48

BOOLOPS = ('fcmp', 'icmp', 'not', 'and', 'or', 'true', 'false')
BYTES = {}      # symbols that are functions of one text byte: name -> (position symbol, its value for every byte -128..127)
def _ascii(f): return lambda c: ord(getattr(chr(c), f)()) if 0 <= c < 128 else c
BYTEFN = dict(u8=lambda c: c & 255, s8=lambda c: ((c + 128) & 255) - 128, toupper=_ascii('upper'), tolower=_ascii('lower'))
class Interp:
    unroll = None
    def __init__(self, mod, cell):
        self.m, self.cell = mod, cell
        self.objs = {}; self.sinks = []; self.side = []; self.uid = 0
        self.obl = []            # discharged in-bounds obligations
        self.oob = []            # failed ones
        self.loopstack = []      # active summarised loops
        self.externs = {}        # name -> handler(interp, args, inst)
        self.freshnames = {}
        self.calls = []
        self.steps = 0
        self.visited_fns = set()
        self.locs = set()
        self.maxsteps = 3_000_000
        self.atloop = None       # called on entry of every loop (may raise Abort to end an irrelevant path)
    # ------------------------------------------------------------ utilities
    def fresh(self, base):
        n = self.freshnames.get(base, 0); self.freshnames[base] = n + 1
        return f'{base}{n}' if n else base
    def loc(self, i):
        for f, l, fn in i.get('l', []) or []:
            if '/repo/' in f or 'integratorxx' in f: return f'{f}:{l} ({fn})'
        for f, l, fn in i.get('l', []) or []: return f'{f}:{l} ({fn})'
        return None
    def new(self, kind, size, name):
        o = Obj(kind, size, name); self.objs[o.id] = o
        return o
    def gptr(self, name, off):
        g = self.m.globals.get(name)
        if g and g['kind'] == 'alias': return self.gptr(g['to'], off)
        o = self.m.gobj.get(name)
        if o is None:
            o = Obj('global', g.get('size') if g else None, name); o.name = name; o.g = g
            self.m.gobj[name] = o
        self.objs[o.id] = o
        return Ptr(o, off)
    def val(self, op, env):
        k = op[0]
        if k == 'v':
            return env[op[1]]
        if k == 'c': return op[1]
        if k == 'f': return const(float.fromhex(op[1]) if op[1] not in ('nan', '-nan') else float('nan'))
        if k == 'n': return 0
        if k == 'g': return self.gptr(op[1], op[2])
        if k == 'u': return UNDEF
        if k == 'z': return ('zero',)
        if k == 'C': return int(op[1])
        if k == 'pti': return self.p2i(self.val(op[1], env))
        if k == 'sub': return psub(self.val(op[1], env), self.val(op[2], env))
        if k == 'vec': return tuple(self.val(x, env) for x in op[1:])
        raise Unknown(f'operand {op}')
    def subst(self, v, s):
        if self.cell.defs and not isinstance(v, (int, tuple)):
            sy = symbols(v) if isinstance(v, Poly) else tsyms(v) if isinstance(v, T) else symbols(v.off) if isinstance(v, Ptr) else ()
            s = self.fdclose(s, sy)
        if isinstance(v, Poly): return psubst(v, s)
        if isinstance(v, T): return tsubst(v, s)
        if isinstance(v, Ptr):
            return Ptr(v.o, psubst(v.off, s)) if isinstance(v.off, Poly) else v
        if isinstance(v, tuple): return tuple(self.subst(x, s) for x in v)
        return v
    def fdclose(self, s, names):
        """quotients whose operands mention a substituted symbol follow the substitution"""
        ext = None
        for x in names:
            if x in s or not x.startswith('fd(') or x not in self.cell.defs: continue
            num, den = self.cell.defs[x]
            on = symbols(num) | symbols(den)
            e = self.fdclose(s, on)
            if any(y in e for y in on):
                if ext is None: ext = dict(s)
                ext[x] = self.cell.floordiv(psubst(num, e), psubst(den, e))
        return ext if ext is not None else s
    def lazyable(self, o, n, depth=0):
        """does resolving a read of the first n log entries need a mixed-radix decomposition"""
        for e in o.log[:n]:
            if len(e.vars) >= 2: return True
            if e.kind == 'c' and depth < 4 and self.lazyable(e.val[0], e.val[1], depth + 1): return True
        return False
    def resolve(self, v):
        """replace deferred memory reads whose offset has become independent of the running loops"""
        if not isinstance(v, T): return v
        ms = [x for x in subterms(v) if x.op == 'mem']
        if not ms: return v
        rep = {}
        for x in ms:
            oid, n, off = x.a
            r = self.conv(self._scan(self.objs[oid], n, off, 8, 'd'), 'd')
            if r is UNDEF: r = T_('undef')
            if r is not x: rep[x] = self.resolve(r)
        return treplace(v, rep) if rep else v
    def repl(self, v, m):
        if isinstance(v, T): return treplace(v, m)
        if isinstance(v, tuple): return tuple(self.repl(x, m) for x in v)
        return v
    # ------------------------------------------------------------ conditions
    def truth(self, c, split=True):
        """decide an i1 value -> bool, or None if it depends on reals; Split if on integers"""
        if isinstance(c, bool): return c
        if isinstance(c, int): return bool(c)
        if c is TRUE: return True
        if c is FALSE: return False
        if isinstance(c, T):
            if c.op == 'not':
                r = self.truth(c.a[0], split); return None if r is None else not r
            if c.op == 'icmp':
                d = self.cell.decide_ge if c.a[0] == 'ge' else self.cell.decide_eq
                return d(c.a[1], split)
            if c.op in ('and', 'or'):
                und = False
                for x in c.a:
                    r = self.truth(x, False)
                    if r is (c.op == 'or'): return r
                    if r is None: und = True
                if not und: return c.op == 'and'
                # try to make progress by splitting integer parts
                for x in c.a:
                    r = self.truth(x, False)
                    if r is None and split:
                        r = self.truth(x, True)
                        if r is (c.op == 'or'): return r
                return None
            if c.op == 'fcmp':
                a, b = c.a[1], c.a[2]
                if a is b and c.a[0] in ('oeq', 'oge', 'ole', 'ueq', 'uge', 'ule'): return True if c.a[0][0] == 'u' else None
                if is_c(a) and is_c(b):
                    x, y = a.a[0], b.a[0]; p = c.a[0][1:]
                    if x == x and y == y: return {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y}.get(p)
                # both sides exact integer conversions: decide in the cell
                ia, ib = self.as_int(a), self.as_int(b)
                if ia is not None and ib is not None:
                    d = psub(ia, ib); p = c.a[0][1:]
                    cc = {'gt': ('ge', padd(d, -1)), 'ge': ('ge', d), 'lt': ('ge', padd(pneg(d), -1)), 'le': ('ge', pneg(d)), 'eq': ('eq', d)}.get(p)
                    if cc: return (self.cell.decide_ge if cc[0] == 'ge' else self.cell.decide_eq)(cc[1], split)
                return self.fdecide(c)
            return None
        if c is UNDEF: raise Unknown('branch on undef')
        raise Unknown(f'condition {c!r}')
    def as_int(self, t):
        if t.op == 'i': return t.a[0]
        if t.op == 'c' and t.a[0] == int(t.a[0]) if t.op == 'c' and abs(t.a[0]) < 2**53 else False: return int(t.a[0])
        return None
    def fdecide(self, c):
        return None
    def icmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if pa and pb:
                if a.o is b.o:
                    a, b = a.off, b.off
                else:
                    if pred == 'eq': return False
                    if pred == 'ne': return True
                    return self.icmp(pred, self.p2i(a), self.p2i(b))
            else:
                x = b if pa else a
                if x == 0:
                    if pred == 'eq': return False
                    if pred == 'ne': return True
                    if pred in ('ugt', 'uge'): return pa
                    if pred in ('ult', 'ule'): return pb
                raise Unknown('pointer/integer comparison')
        if isinstance(a, (bool, T)) or isinstance(b, (bool, T)):
            ca = a if isinstance(a, T) else (TRUE if a else FALSE); cb = b if isinstance(b, T) else (TRUE if b else FALSE)
            eq = cor(cand(ca, cb), cand(cnot(ca), cnot(cb)))
            if pred == 'eq': return eq
            if pred == 'ne': return cnot(eq)
            raise Unknown('i1 comparison')
        sa = [s for s in symbols(a) if s[0] == '@']; sb = [s for s in symbols(b) if s[0] == '@']
        uns = pred[0] == 'u' and pred != 'une'
        if not isinstance(a, Poly) and not isinstance(b, Poly):
            if uns: a &= (1 << 64) - 1; b &= (1 << 64) - 1
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred if pred in ('eq', 'ne') else pred[1:]]
        if sa or sb:
            d = psub(a, b)
            if any(s[0] == '@' for s in symbols(d)):
                if pred == 'eq': return False
                if pred == 'ne': return True
                if d == a and b == 0 and pred in ('ugt',): return True
                raise Unknown(f'comparison of unrelated addresses {a!r} {pred} {b!r}')
            a, b = d, 0
            uns = False
        if uns:
            # values are sizes: a negative python constant is a huge unsigned one
            for x, y, side in ((a, b, 'r'), (b, a, 'l')):
                if not isinstance(y, Poly) and (y < 0 or y >= 2**61):
                    # symbolic x vs huge constant
                    if self.nonneg(x):
                        lt = True  # x < huge
                        p = pred[1:]
                        if side == 'r': return p in ('lt', 'le')
                        return p in ('gt', 'ge')
            na, nb = self.nonneg(a), self.nonneg(b)
            if not (na and nb):
                # negative wraps to huge
                for x in (a, b):
                    if not self.nonneg(x):
                        if self.cell.decide_ge(x): continue
                        # x negative: x is huge
                        p = pred[1:]
                        if x is a and self.nonneg(b): return p in ('gt', 'ge')
                        if x is b and self.nonneg(a): return p in ('lt', 'le')
                        raise Unknown('unsigned comparison of negative values')
        d = psub(a, b)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if p == 'eq': return self.mkc('eq', d)
        if p == 'ne': return self.inv(self.mkc('eq', d))
        if p == 'ge': return self.mkc('ge', d)
        if p == 'gt': return self.mkc('ge', padd(d, -1))
        if p == 'le': return self.mkc('ge', pneg(d))
        if p == 'lt': return self.mkc('ge', padd(pneg(d), -1))
        raise Unknown(pred)
    def nonneg(self, x):
        if not isinstance(x, Poly): return x >= 0
        return self.cell.prove(x)
    def mkc(self, kind, d):
        if not isinstance(d, Poly): return d >= 0 if kind == 'ge' else d == 0
        r = (self.cell.decide_ge if kind == 'ge' else self.cell.decide_eq)(d, False)
        if r is not None: return r
        return T_('icmp', kind, d)
    def inv(self, c):
        return (not c) if isinstance(c, bool) else cnot(c)
    def to_int(self, c):
        if isinstance(c, T) and c.op in ('icmp', 'not', 'and', 'or', 'fcmp', 'true', 'false', 'sel'):
            r = self.truth(c)
            if r is None: return c     # stays a boolean term
            return int(r)
        return int(c) if isinstance(c, bool) else c
    def bytefn(self, f, x, lo, hi):
        """a function of a byte-sized symbolic value, kept as a structured symbol f(x) (bytes of uninterpreted text)"""
        if f in ('u8', 's8', 'toupper', 'tolower'):
            b = self.btab(x)
            if b: return self.bmk(b[0], [BYTEFN[f](v) for v in b[1]])
        if self.cell.prove(psub(x, lo)) and self.cell.prove(psub(hi, x)) and f in ('u8', 's8'): return x
        n = f'{f}({x!r})'
        if any(t.startswith('k:') for t in symbols(x)): raise Unknown('text transformed in a loop of symbolic length')
        return self.cell.add_root(n, lo, hi)
    def btab(self, v):
        """v as a function of one byte of the uninterpreted text: (position symbol, table of its 256 values); None if it is not"""
        if isinstance(v, bool) or isinstance(v, int): return (None, [int(v)] * 256)
        if isinstance(v, Poly):
            pos = None
            for s in symbols(v):
                q = s if s[:3] == 'ch(' else BYTES[s][0] if s in BYTES else None
                if q is None or q[:5] == 'ch(k:' or (pos is not None and q != pos): return None
                pos = q
            ss = [(s, BYTES[s][1] if s in BYTES else None) for s in symbols(v)]
            return (pos, [peval(v, {s: (t[k] if t else k - 128) for s, t in ss}) for k in range(256)])
        if isinstance(v, T):
            if v is TRUE or v is FALSE: return (None, [int(v is TRUE)] * 256)
            if v.op in ('icmp', 'not', 'and', 'or'):
                bs = [self.btab(x) for x in (v.a[1:] if v.op == 'icmp' else v.a)]
                if any(b is None for b in bs): return None
                ps = {b[0] for b in bs if b[0] is not None}
                if len(ps) > 1: return None
                f = {'icmp': lambda x: x[0] >= 0 if v.a[0] == 'ge' else x[0] == 0, 'not': lambda x: not x[0], 'and': all, 'or': any}[v.op]
                return (ps.pop() if ps else None, [int(bool(f([b[1][k] for b in bs]))) for k in range(256)])
        return None
    def bjoin(self, *vs):
        """common byte position of several values, or None (also when none of them depends on the text)"""
        for v in vs:
            if isinstance(v, Poly) and not any(s in BYTES or s[:3] == 'ch(' for s in symbols(v)): return None
        if not any(isinstance(v, (Poly, T)) for v in vs): return None
        bs = [self.btab(v) for v in vs]
        if any(b is None for b in bs): return None
        ps = {b[0] for b in bs if b[0] is not None}
        if len(ps) != 1: return None
        return ps.pop(), [b[1] for b in bs]
    def bmk(self, pos, tab):
        if len(set(tab)) == 1: return tab[0]
        if tab == list(range(-128, 128)): return sym(pos)
        n = f'b{hashlib.sha1(repr(tab).encode()).hexdigest()[:8]}({pos})'
        BYTES[n] = (pos, tab)
        return self.cell.add_root(n, min(tab), max(tab))
    def p2i(self, p):
        if isinstance(p, Ptr): return padd(sym(f'@{p.o.id}'), p.off)
        return p
    def i2p(self, v):
        if isinstance(v, Ptr): return v
        if isinstance(v, Poly):
            at = [s for s in symbols(v) if s[0] == '@']
            if len(at) == 1:
                o = self.objs[int(at[0][1:])]
                return Ptr(o, psub(v, sym(at[0])))
        if v == 0: return 0
        raise Unknown(f'inttoptr {v!r}')
    # ------------------------------------------------------------ memory
    def check(self, p, size, what, i):
        o = p.o
        if o.freed: self.oob.append((what + ' after free', str(o), repr(p.off), self.loc(i), None))
        if o.size is None: return
        a = psub(psub(o.size, p.off), size)
        ok = self.cell.prove(p.off) and self.cell.prove(a)
        l = self.loc(i)
        if ok: self.obl.append((what, l))
        else:
            # undecided -> partition further, so that a definite answer is reached
            if self.cell.decide_ge(p.off) and self.cell.decide_ge(a): self.obl.append((what, l)); return
            self.oob.append((what, str(o), repr(p.off), l, [repr(c) for c in self.cell.base]))
            raise Abort('oob', f'{what} of {size} bytes at offset {p.off!r} of {o.name} (size {o.size!r})', l)
    def store(self, p, size, v, i, leaves=None):
        if not isinstance(p, Ptr):
            if isinstance(p, int) and (p < 4096 or p > 2**64 - 4096): raise Abort('oob', 'store through null pointer', self.loc(i))
            raise Unknown(f'store to {p!r}', self.loc(i))
        self.check(p, size, 'store', i)
        if leaves:
            v = self.expand(v, leaves)
            for (o, s, t), x in zip(leaves, v): p.o.log.append(Entry('w', padd(p.off, o), s, x, loc=self.loc(i)))
            return
        p.o.log.append(Entry('w', p.off, size, v, loc=self.loc(i)))
    def expand(self, v, leaves):
        if v == ('zero',): return [const(0.0) if l[2] == 'd' else 0 for l in leaves]
        if v is UNDEF: return [UNDEF] * len(leaves)
        return list(v)
    def load(self, p, size, ty, i, leaves=None):
        if not isinstance(p, Ptr):
            if isinstance(p, int) and (p < 4096 or p > 2**64 - 4096): raise Abort('oob', 'load through null pointer', self.loc(i))
            raise Unknown(f'load from {p!r}', self.loc(i))
        if p.o.kind == 'global' and p.o.g and not p.o.g.get('const') and 'pos' not in p.o.g:
            if '__libc_single_threaded' in p.o.name: return 1
        self.check(p, size, 'load', i)
        if leaves: return tuple(self.read(p.o, padd(p.off, o), s, t) for o, s, t in leaves)
        return self.read(p.o, p.off, size, ty)
    def conv(self, v, ty, sub=0):
        """adapt a raw stored value to the type read"""
        if isinstance(v, tuple) and v and v[0] == 'zero': v = 0
        if ty == 'd':
            if isinstance(v, int) and not isinstance(v, bool):
                if v == 0: return const(0.0)
                return const(struct.unpack('<d', struct.pack('<q', v))[0])
            if isinstance(v, Poly): raise Unknown('integer bits read as double')
        elif ty[0] == 'i' and isinstance(v, T) and v.op == 'c':
            return struct.unpack('<q', struct.pack('<d', v.a[0]))[0]
        return v
    def gread(self, o, off, size, ty):
        g = o.g
        if g is None or 'pos' not in g: raise Unknown(f'read of external global {o.name}')
        if isinstance(off, Poly):
            if ty != 'd': raise Unknown(f'symbolic read of global {o.name} as {ty}')
            return T_('gl', o.name, off)
        for ro, rn, rv in g.get('rel', []):
            if ro == off:
                if rn == '?': raise Unknown('unrepresentable initialiser')
                return self.gptr(rn, rv)
        raw = self.m.bin[g['pos'] + off:g['pos'] + off + size]
        if ty == 'd': return const(struct.unpack('<d', raw)[0])
        if ty == 's': return const(struct.unpack('<f', raw)[0])
        if ty == 'p' and not any(raw): return 0
        return int.from_bytes(raw, 'little', signed=True)
    def read(self, o, off, size, ty, upto=None, record=True):
        if upto is None and self.loopstack:
            # record loop-carried reads for hazard checks
            pass
        n = len(o.log) if upto is None else upto
        v = self._scan(o, n, off, size, ty)
        return self.conv(v, ty)
    def gid(self, e):
        return e.vars[-1][0] if e.vars else None
    def _scan(self, o, n, off, size, ty):
        """value of [off,off+size) after the first n log entries"""
        i = n - 1
        lazy = None
        if self.loopstack and ty == 'd' and size == 8 and isinstance(off, Poly):
            ks = [L for L in self.loopstack if L['k'] in symbols(off)]
            if len(ks) == 1:
                ex = [L['start'][o.id] for L in self.loopstack if o.id in L['existing']]
                if ex and o.id in ks[0]['existing'] and self.lazyable(o, min(ex)): lazy = min(ex)
        while i >= 0:
            e = o.log[i]
            if lazy is not None and i < lazy:
                self.crossing(o, i + 1, off, size)
                return T_('mem', o.id, i + 1, off)
            # crossing the start of an active generic iteration: remember for hazard checking
            self.crossing(o, i + 1, off, size)
            g = self.gid(e)
            if g is None:
                try: r = self._match(e, off, size, ty)
                except PartialOverlap:
                    if not isinstance(size, int) or size < 2 or size % 2: raise
                    h = size // 2
                    return Parts.join([(0, h, self._scan(o, i + 1, off, h, 'raw')), (h, h, self._scan(o, i + 1, padd(off, h), h, 'raw'))])
                if r is not None: return self._guarded(e, r[0], o, i, off, size, ty)
                i -= 1
                continue
            # group of entries of the same summarised loop instance
            j = i
            while j >= 0 and self.gid(o.log[j]) == g: j -= 1
            hits = []
            for x in range(i, j, -1):
                r = self._match(o.log[x], off, size, ty)
                if r is not None: hits.append((x, r))
            if hits:
                best = hits[0]
                for h in hits[1:]:
                    if self._later(h[1][1], best[1][1]): best = h
                if o.log[best[0]].guard is not None and len(hits) > 1: raise Unknown('guarded overlapping writes')
                return self._guarded(o.log[best[0]], best[1][0], o, j + 1 if len(hits) == 1 else best[0], off, size, ty)
            i = j
        if self.loopstack:
            for L in self.loopstack:
                if L['start'].get(o.id, 0) == 0 and o.id in L['existing']:
                    L['reads'].append((o, off, size, [x['k'] for x in self.loopstack[self.loopstack.index(L) + 1:]], list(self.cell.cons)))
        if o.kind == 'global': return self.gread(o, off, size, ty)
        if o.kind == 'zero': return 0
        if o.kind == 'input': return o.g(self, off, size, ty)
        return UNDEF if o.kind in ('alloca', 'heap') else self._unk(o, off)
    def crossing(self, o, pos, off, size):
        for L in self.loopstack:
            if L['start'].get(o.id, 0) == pos and o.id in L['existing']:
                L['reads'].append((o, off, size, [x['k'] for x in self.loopstack[self.loopstack.index(L) + 1:]], list(self.cell.cons)))
    def _unk(self, o, off): raise Unknown(f'read of {o.name}+{off!r}')
    def _guarded(self, e, v, o, i, off, size, ty):
        if e.guard is None: return v
        prev = self._scan(o, i, off, size, ty)
        prev = self.conv(prev, ty); v = self.conv(v, ty)
        return self.selv(e.guard, v, prev)
    def selv(self, c, a, b):
        if a is b: return a
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and not isinstance(a, bool) and a == b: return a
        if isinstance(a, Ptr) and a == b: return a
        if isinstance(a, T) and isinstance(b, T): return sel(c, a, b)
        if isinstance(a, T) and a.op in BOOLOPS and isinstance(b, int) and b in (0, 1, -1): b = bool(b)
        if isinstance(b, T) and b.op in BOOLOPS and isinstance(a, int) and a in (0, 1, -1): a = bool(a)
        if isinstance(a, (bool, T)) and isinstance(b, (bool, T)):
            ca = a if isinstance(a, T) else (TRUE if a else FALSE); cb = b if isinstance(b, T) else (TRUE if b else FALSE)
            return cor(cand(c, ca), cand(cnot(c), cb))
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, int) and isinstance(b, int) and {a, b} == {0, 1}: return c if a == 1 else cnot(c)
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            bj = self.bjoin(c, a, b)
            if bj: return self.bmk(bj[0], [y if x else z for x, y, z in zip(*bj[1])])
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.selv(c, x, y) for x, y in zip(a, b))
        raise Unknown(f'real-valued condition selects between {a!r} and {b!r}')
    def _later(self, ka, kb):
        """is iteration vector ka (outermost first) strictly later than kb"""
        for (ua, a), (ub, b) in zip(ka, kb):
            if ua != ub: return False
            d = psub(a, b)
            if self.cell.decide_eq(d): continue
            return self.cell.decide_ge(d)
        return False
    def _match(self, e, off, size, ty):
        """None if the entry certainly does not define [off,off+size); else (value, itervec)"""
        D = psub(off, e.off)
        if e.kind == 'w' or (e.kind == 's' and not e.vars) or (e.kind in ('c', 'h') and not e.vars):
            if not e.vars:
                if e.kind == 'w':
                    c = self.pos(D, size, e.size)
                    if c is None: return None
                    return (self.sub(e.val, c, size, e.size, ty), ())
                # range entries
                if not self.cell.decide_ge(D): 
                    # might straddle
                    if self.cell.decide_ge(psub(pneg(D), size)): return None
                    raise Unknown('partial overlap with range write')
                room = psub(psub(e.size, D), size)
                if not self.cell.decide_ge(room):
                    if self.cell.decide_ge(psub(D, e.size)): return None
                    raise Unknown('partial overlap with range write')
                if e.kind == 's': return (self.bytefill(e.val, size), ())
                if e.kind == 'h': return (e.val(off), ())
                so, sl, soff = e.val
                return (self._scan_snapshot(so, sl, padd(soff, D), size, ty), ())
        sol = self.solve(e, D, size)
        if sol is None: return None
        env, c = sol
        vec = tuple((u, env[k]) for k, lo, hi, u in reversed(e.vars))
        v = self.resolve(self.subst(e.val, env)) if e.kind == 'w' else None
        if e.kind == 'w': return (self.sub(v, c, size, e.size, ty), vec)
        if e.kind == 's': return (self.bytefill(e.val, size), vec)
        if e.kind == 'c':
            so, sl, soff = e.val
            return (self._scan_snapshot(so, sl, padd(self.subst(soff, env), c), size, ty), vec)
        raise Unknown('entry kind')
    def _scan_snapshot(self, so, sl, off, size, ty):
        r = self._scan(so, sl, off, size, ty)
        return self.conv(r, ty)
    def bytefill(self, b, size):
        if b == 0: return 0
        if isinstance(b, int): return int.from_bytes(bytes([b & 255]) * size, 'little', signed=True)
        raise Unknown('symbolic memset')
    def pos(self, D, rsize, wsize):
        """offset of a read within a write of wsize at relative distance D; None if disjoint"""
        if not isinstance(D, Poly):
            if D >= wsize or D <= -rsize: return None
            if 0 <= D and D + rsize <= wsize: return D
            raise PartialOverlap(f'partial overlap (distance {D}, {rsize} vs {wsize})')
        g = 0
        for m, c in D.t.items():
            if m: g = __import__('math').gcd(g, abs(c))
        r = pconst(D) % g
        if r >= wsize and g - r >= rsize: return None
        if r == 0 and g >= max(wsize, rsize):
            if self.cell.decide_eq(D): return 0
            return None
        if 0 < r and r + rsize <= wsize and g >= wsize:
            if self.cell.decide_eq(psub(D, r)): return r
            return None
        if self.cell.prove(psub(D, wsize)) or self.cell.prove(psub(pneg(D), rsize)): return None
        if self.cell.decide_ge(psub(D, wsize)): return None
        if self.cell.decide_ge(psub(pneg(D), rsize)): return None
        raise Unknown(f'unaligned symbolic distance {D!r}')
    def sub(self, v, c, rsize, wsize, ty):
        if c == 0 and (rsize == wsize): return v
        if isinstance(v, Parts): return v.take(c, rsize)
        if v is UNDEF: return v
        if isinstance(v, int) and not isinstance(v, bool):
            b = (v & ((1 << (8 * wsize)) - 1)).to_bytes(wsize, 'little')[c:c + rsize]
            return int.from_bytes(b, 'little', signed=True)
        if c == 0 and isinstance(v, Poly) and rsize >= 4: return v
        raise Unknown(f'partial read of {v!r}')
    def solve(self, e, D, rsize):
        """find iteration variables with e.off(vars) covering the read; returns (env, pos) or None"""
        # D = off - e.off (e.off contains the vars)
        ks = [v[0] for v in e.vars]
        wsize = e.size
        lin = {}
        rest = D
        for k in ks:
            c = coef_of(rest, k)
            if c is None: raise Unknown('non-linear index')
            C, rest = c
            if any(x in symbols(C) for x in ks): raise Unknown('non-linear index')
            lin[k] = pneg(C)           # e.off = ... + lin[k]*k
        R = rest
        active = [v for v in e.vars if lin[v[0]] != 0]
        if active and isinstance(wsize, int) and isinstance(rsize, int):
            g = 0        # residue argument: all strides share a factor that the remainder rules out
            for p_ in [R] + [lin[v[0]] for v in active]:
                for m, c in terms(p_).items():
                    if m or p_ is not R: g = math.gcd(g, abs(c))
            if g:
                rg = pconst(R) % g
                if rg >= wsize and g - rg >= rsize: return None
        env = {}
        rng = {}
        for k, lo, hi, u in e.vars: rng[k] = (lo, hi)
        for k, lo, hi, u in e.vars:
            if lin[k] == 0: env[k] = hi   # invariant location: the last iteration wins
        if not active:
            c = self.pos(R, rsize, wsize)
            if c is None: return None
            # loop executed at least once?
            for k, lo, hi, u in e.vars:
                if not self.cell.decide_ge(psub(self.subst(hi, env), self.subst(lo, env))): return None
            return env, c
        if len(active) == 1:
            k, lo, hi, u = active[0]
            c = lin[k]
            lo_, hi_ = self.subst(lo, env), self.subst(hi, env)
            res = self.solve1(R, c, lo_, hi_, rsize, wsize)
            if res is None: return None
            env[k], p = res
            return env, p
        # mixed radix: process variables from the largest stride down
        def mag(v):
            c = lin[v[0]]; t = terms(c)
            m = max(t, key=lambda m: (len(m), abs(t[m])))
            return (len(m), abs(t[m]) if len(t) == 1 else max(abs(x) for x in t.values()))
        act = sorted(active, key=mag, reverse=True)
        # bring all strides positive by flipping
        cur = R
        for idx, (k, lo, hi, u) in enumerate(act):
            c = lin[k]
            inner = act[idx + 1:]
            lo_, hi_ = self.subst(lo, env), self.subst(hi, env)
            if not inner:
                res = self.solve1(cur, c, lo_, hi_, rsize, wsize)
                if res is None: return None
                env[k], p = res
                return env, p
            # range of the inner contribution
            imin = imax = 0
            for k2, lo2, hi2, u2 in inner:
                c2 = lin[k2]; lo2, hi2 = self.subst(lo2, env), self.subst(hi2, env)
                if any(s in symbols(lo2) or s in symbols(hi2) for s in ks): raise Unknown('triangular loop nest')
                if self.cell.decide_ge(c2): imin = padd(imin, pmul(c2, lo2)); imax = padd(imax, pmul(c2, hi2))
                else: imin = padd(imin, pmul(c2, hi2)); imax = padd(imax, pmul(c2, lo2))
            # cur = c*K + inner, imin<=inner<=imax ; need stride |c| > imax-imin
            ac = c if self.cell.decide_ge(c) else pneg(c)
            if not self.cell.decide_ge(psub(psub(ac, psub(imax, imin)), 1)): raise Unknown('overlapping loop nest strides')
            sh = imin
            if (isinstance(imin, Poly) or imin > 0) and self.cell.prove(imin) and self.cell.prove(psub(psub(ac, imax), 1)): sh = 0     # inner part lies in [0,stride)
            K = self.quot(psub(cur, sh), c, ac)
            if not (self.cell.decide_ge(psub(K, lo_)) and self.cell.decide_ge(psub(hi_, K))): return None
            env[k] = K
            cur = psub(cur, pmul(c, K))
        raise Unknown('unreachable')
    def quot(self, D, c, ac):
        """floor(D/ac) (c = +-ac) under the cell, for D that may be negative"""
        if isinstance(D, Poly) or isinstance(ac, Poly):
            q, r = pdivmod(D, ac)
            if self.cell.prove(r) and self.cell.prove(psub(psub(ac, r), 1)): K = q
            else:
                if self.cell.decide_ge(D): K = self.cell.floordiv(D, ac)
                else: K = -1
        else: K = D // ac
        return K if c == ac else pneg(K)
    def solve1(self, R, c, lo, hi, rsize, wsize):
        """R = c*K + p with 0<=p, p+rsize<=wsize, lo<=K<=hi"""
        if not isinstance(c, Poly):
            ac = abs(c)
            if wsize if isinstance(wsize, int) else None:
                pass
            if not isinstance(wsize, int): raise Unknown('range write in loop')
            if ac < wsize:
                raise Unknown('overlapping writes in loop')
            if not isinstance(R, Poly): r = R % ac; q = R // ac
            else:
                r = pconst(R) % ac
                q = None
                if all(v % ac == 0 for m, v in R.t.items() if m): q = pdiv_exact(psub(R, r), ac)
            if q is None:
                g = ac
                import math
                for m, v in R.t.items():
                    if m: g = math.gcd(g, abs(v))
                rg = pconst(R) % g
                if rg >= wsize and g - rg >= rsize: return None
                # need floor division
                if self.cell.decide_ge(R): q = self.cell.floordiv(R, ac); rr = psub(R, pmul(q, ac))
                else:
                    return None if self.cell.decide_ge(psub(pmul(lo, c), padd(R, rsize))) else self._bad('negative index')
                if self.cell.decide_eq(rr): r = 0
                elif self.cell.decide_ge(psub(rr, wsize)) and self.cell.decide_ge(psub(psub(ac, rsize), rr)): return None
                else: raise Unknown('strided partial overlap')
            if not (r + rsize <= wsize):
                if r >= wsize and r + rsize <= ac: return None
                raise Unknown('partial overlap in loop write')
            K = q if c > 0 else pneg(q)
            if c < 0 and r: raise Unknown('negative stride with offset')
        else:
            q, r = pdivmod(R, c)
            if r == 0: K, r = q, 0
            else:
                ac = c if self.cell.decide_ge(c) else pneg(c)
                if ac == c and q != 0 and self.cell.prove(padd(r, c)) and self.cell.prove(psub(psub(padd(c, c), r), 1)):
                    # remainder within one stride of [0,c): normalise it (a decision about the remainder only)
                    if not self.cell.decide_ge(r): q = padd(q, -1); r = padd(r, c)
                    elif self.cell.decide_ge(psub(r, c)): q = padd(q, 1); r = psub(r, c)
                    if not self.cell.decide_eq(r):
                        if self.cell.decide_ge(psub(r, wsize)): return None
                        raise Unknown('strided partial overlap')
                    if self.cell.decide_ge(psub(q, lo)) and self.cell.decide_ge(psub(hi, q)): return q, 0
                    return None
                if not self.cell.decide_ge(R): return None
                if self.cell.prove(r) and self.cell.prove(psub(psub(ac, r), 1)): pass
                else:
                    q = self.cell.floordiv(R, ac); r = psub(R, pmul(q, ac))
                if not self.cell.decide_eq(r):
                    if self.cell.decide_ge(psub(r, wsize)): return None
                    raise Unknown('strided partial overlap')
                K = q; r = 0
        if self.cell.decide_ge(psub(K, lo)) and self.cell.decide_ge(psub(hi, K)): return K, r
        return None
    def _bad(self, m): raise Unknown(m)
    def memcpy(self, d, s, n, i):
        if not isinstance(n, Poly) and n == 0: return
        if isinstance(n, Poly):
            if not self.cell.decide_ge(psub(n, 1)): return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Abort('oob', 'copy through null pointer', self.loc(i))
        self.check(d, n, 'copy to', i); self.check(s, n, 'copy from', i)
        if isinstance(n, int) and n <= 64 and s.o.kind != 'global' and not isinstance(s.off, Poly):
            pass
        # reading source inside a generic iteration: hazard bookkeeping for the whole range
        for L in self.loopstack:
            if s.o.id in L['existing']: L['rangereads'].append((s.o, s.off, n))
        d.o.log.append(Entry('c', d.off, n, (s.o, len(s.o.log), s.off), loc=self.loc(i)))
    # ------------------------------------------------------------ calls
    def call(self, name, args, i=None):
        if name in self.externs: return self.externs[name](self, args, i)
        f = self.m.fns.get(name)
        if f is None: return self.external(name, args, i)
        self.visited_fns.add(f.dem)
        fr = Frame(f)
        for (aid, ty), v in zip(f.args, args): fr.env[aid] = v
        if len(self.calls) > 200: raise Unknown('call depth')
        self.calls.append(f.name)
        try:
            r = self.run(fr, f.entry, None, lambda p, c: False)
        finally: self.calls.pop()
        assert r[0] == 'ret'
        for o in fr.allocas: o.freed = False
        return r[1]
    def external(self, name, a, i):
        intr = i.get('intr') if i else None
        nm = intr or name
        if nm.startswith('llvm.'):
            b = nm[5:]
            if b == 'expect': return a[0]
            if b in ('memcpy', 'memmove'): return self.memcpy(a[0], a[1], a[2], i)
            if b == 'memset':
                n = a[2]
                if (n == 0) if not isinstance(n, Poly) else not self.cell.decide_ge(psub(n, 1)): return None
                if not isinstance(a[0], Ptr): raise Abort('oob', 'memset through null', self.loc(i))
                self.check(a[0], n, 'memset', i)
                a[0].o.log.append(Entry('s', a[0].off, n, a[1], loc=self.loc(i))); return None
            if b == 'fabs': return fcall('abs', a[0])
            if b in MATH: return fcall(b, *a)
            if b == 'fmuladd': return fadd(fmul(a[0], a[1]), a[2])
            if b in ('maxnum', 'minnum', 'maximum', 'minimum'): return fcall(b[:3], *a)
            if b == 'powi': return fcall('pow', a[0], real(a[1]))
            if b in ('umax', 'smax', 'umin', 'smin'):
                if self.truth(self.icmp(b[0] + 'ge', a[0], a[1])): return a[0] if b[1:] == 'max' else a[1]
                return a[1] if b[1:] == 'max' else a[0]
            if b == 'usub.sat':
                if self.truth(self.icmp('uge', a[0], a[1])): return psub(a[0], a[1])
                return 0
            if b in ('umul.with.overflow', 'smul.with.overflow'):
                v = pmul(a[0], a[1])
                if not isinstance(v, Poly): return (v, not (0 <= v < 2**63))
                return (v, False)
            if b in ('uadd.with.overflow',):
                return (padd(a[0], a[1]), False)
            if b == 'abs':
                return a[0] if self.truth(self.icmp('sge', a[0], 0)) else pneg(a[0])
            if b in ('prefetch', 'donothing', 'invariant.start', 'sideeffect', 'va_start'): return None
            if b == 'is.constant': return False
            if b == 'objectsize': return -1
            if b == 'trap': raise Abort('trap', '', self.loc(i))
            if b in ('fshl', 'fshr') and not isinstance(a[2], Poly) and (a[0] is a[1] or a[0] == a[1]):
                w = int(i['ty'][1:]) if i.get('ty', 'i64')[1:].isdigit() else 64
                r = a[2] % w if b == 'fshr' else (w - a[2]) % w      # rotate right by r
                x = a[0]
                if not isinstance(x, Poly):
                    u = x & ((1 << w) - 1); u = ((u >> r) | (u << (w - r))) & ((1 << w) - 1)
                    return u - (1 << w) if u >> (w - 1) else u
                if r <= 8 and self.cell.decide_ge(x):
                    q = self.cell.floordiv(x, 1 << r)
                    if self.cell.decide_eq(psub(x, pmul(q, 1 << r))): return q
                # the value has high bits set: a fresh value above every small constant
                if r <= 8: return self.cell.add_root(f'rot({x!r},{r})', 1 << 50, 1 << 62)
                raise Unknown(f'intrinsic {nm}', self.loc(i))
            if b == 'fshl' or b == 'fshr' or b == 'ctlz' or b == 'cttz' or b == 'ctpop': raise Unknown(f'intrinsic {nm}', self.loc(i))
            raise Unknown(f'intrinsic {nm}', self.loc(i))
        if name in MATH: return fcall('abs' if name == 'fabs' else name, *a)
        if name in ('_Znwm', '_Znam', 'malloc'):
            if not isinstance(a[0], Poly) and (a[0] < 0 or a[0] > 2**40): raise Abort('throw', 'std::bad_alloc', self.loc(i))
            o = self.new('heap', a[0], 'heap'); o.loc = self.loc(i); return Ptr(o, 0)
        if name in ('_ZdlPvm', '_ZdlPv', '_ZdaPv', '_ZdaPvm', 'free'):
            if isinstance(a[0], Ptr):
                o = a[0].o
                if o.freed: self.oob.append(('double free', str(o), '', self.loc(i), None)); raise Abort('oob', 'double free', self.loc(i))
                if a[0].off != 0: raise Abort('oob', 'free of interior pointer', self.loc(i))
                if name in ('_ZdlPvm',) and o.size is not None and len(a) > 1 and a[1] != o.size:
                    pass
                o.freed = True
            return None
        if name == '__cxa_allocate_exception': return Ptr(self.new('heap', None, 'exception'), 0)
        if name == '__cxa_free_exception': return None
        if name == '__cxa_throw':
            ti = a[1].o.name if isinstance(a[1], Ptr) else '?'
            raise Abort('throw', ti, self.loc(i))
        if name.startswith('_ZSt') and '__throw' in name:
            raise Abort('throw', name, self.loc(i))
        if name == '__assert_fail': raise Abort('assert', self.cstr(a[0]), self.loc(i))
        if name in ('_ZSt9terminatev', 'abort', '__clang_call_terminate', '__cxa_bad_cast', '__cxa_pure_virtual', '__cxa_call_terminate'): raise Abort('throw' if name == '__cxa_bad_cast' else 'terminate', name, self.loc(i))
        if name.startswith('_ZNSt13runtime_errorC') or name.startswith('_ZNSt11logic_errorC') or name.startswith('_ZNSt12out_of_rangeC') or name.startswith('_ZNSt16invalid_argumentC') or name.startswith('_ZNSt12domain_errorC') or name.startswith('_ZNSt12length_errorC'): return None
        if name.startswith('sink_'):
            self.sinks.append((name, a, {o.id: len(o.log) for o in self.objs.values()}, i)); return None
        if name.startswith('uf_'): return T_('uf', name, *a)
        if name == 'ufi_ch': return self.bytefn('ch', a[0], -128, 127) if isinstance(a[0], Poly) else self.cell.add_root(f'ch({a[0]})', -128, 127)
        if name in ('toupper', 'tolower'):
            if not isinstance(a[0], Poly): return ord(chr(a[0]).upper() if name == 'toupper' else chr(a[0]).lower()) if 0 <= a[0] < 128 else a[0]
            return self.bytefn(name, a[0], -128, 255)
        if name.startswith('ufi_'):
            s = sym(name + '(' + ','.join(repr(x) for x in a) + ')'); 
            return s
        if name == '__dynamic_cast': return self.dyncast(*a)
        if name == 'memcmp' or name == 'bcmp': return self.memcmp(*a)
        if name == 'strlen': return len(self.cstr(a[0]))
        if name == '__gthread_active_p' : return 0
        raise Unknown(f'call to {self.m.globals.get(name, {}).get("dem", name)}', self.loc(i) if i else None)
    def cstr(self, p):
        if not isinstance(p, Ptr) or p.o.kind != 'global': return '?'
        g = p.o.g; raw = self.m.bin[g['pos'] + p.off:g['pos'] + g['size']]
        return raw.split(b'\0')[0].decode('latin1')
    def memcmp(self, a, b, n):
        if n == 0: return 0
        for k in range(n):
            x = self.read(a.o, padd(a.off, k), 1, 'i8'); y = self.read(b.o, padd(b.off, k), 1, 'i8')
            if isinstance(x, int) and isinstance(y, int):
                if x != y: return (x & 255) - (y & 255)
            elif isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)):
                if self.cell.decide_eq(psub(x, y)): continue
                return 1 if self.cell.decide_ge(psub(x, y)) else -1
            else: raise Unknown('symbolic memcmp')
        return 0
    # RTTI
    def typeinfo(self, p):
        v = self.read(p.o, p.off, 8, 'p')
        ti = self.read(v.o, v.off - 8, 8, 'p'); top = self.read(v.o, v.off - 16, 8, 'i64')
        return ti.o.name, top, v.o.name
    def bases(self, ti):
        g = self.m.globals.get(ti); out = [(ti, 0)]
        rel = {r[0]: r[1] for r in g.get('rel', [])}
        kind = rel.get(0, '')
        if 'si_class' in kind: out += self.bases(rel[16])
        elif 'vmi_class' in kind:
            raw = self.m.bin[g['pos']:g['pos'] + g['size']]
            n = struct.unpack_from('<i', raw, 20)[0]
            for k in range(n):
                fl = struct.unpack_from('<q', raw, 32 + 16 * k)[0]
                out += [(t, o + (fl >> 8)) for t, o in self.bases(rel[24 + 16 * k])]
        return out
    def dyncast(self, p, src, dst, hint):
        if not isinstance(p, Ptr): return 0
        ti, top, _ = self.typeinfo(p)
        for t, o in self.bases(ti):
            if t == dst.o.name: return Ptr(p.o, padd(p.off, top + o))
        return 0
    # ------------------------------------------------------------ execution
    def run(self, fr, cur, prev, stop):
        f = fr.f
        while True:
            if stop(prev, cur): return ('stop', prev, cur)
            L = f.loops.get(cur)
            if L is not None and cur not in fr.active:
                r = self.loop(fr, L, prev, stop)
                if r[0] == 'ret': return r
                _, prev, cur = r
                continue
            if L is None or True:
                pass
            r = self.block(fr, cur, prev)
            if r[0] == 'ret': return r
            if r[0] == 'fork':
                r = self.fork(fr, cur, r[1], r[2], r[3], stop)
                if r[0] == 'ret': return r
                _, prev, cur = r
                continue
            prev, cur = cur, r[1]
    def phis(self, fr, cur, prev):
        out = []
        for i in fr.f.blocks[cur]:
            if i['op'] != 'phi': break
            for b, op in i['in']:
                if b == prev: out.append((i['i'], self.val(op, fr.env))); break
            else: raise Unknown('phi without incoming edge')
        for k, v in out: fr.env[k] = v
    def block(self, fr, cur, prev, phi=True):
        if phi: self.phis(fr, cur, prev)
        env = fr.env
        for i in fr.f.blocks[cur]:
            op = i['op']
            if op == 'phi': continue
            self.steps += 1
            if self.steps > self.maxsteps: raise Unknown('step budget exhausted')
            if op == 'br':
                if len(i['succ']) == 1: return ('go', i['succ'][0])
                c = self.val(i['ops'][0], env)
                if isinstance(c, T) and self.truth(c, False) is None and (self.btab(c) or (None,))[0] and self.small_join(fr, cur, i['succ']): return ('fork', c, i['succ'][0], i['succ'][1])
                c = self.ctruth(c, i)
                if c is True: return ('go', i['succ'][0])
                if c is False: return ('go', i['succ'][1])
                return ('fork', c, i['succ'][0], i['succ'][1])
            if op == 'switch':
                v = self.val(i['ops'][0], env)
                if isinstance(v, Poly):
                    for c, b in i['cases']:
                        if self.cell.decide_eq(psub(v, c)): return ('go', b)
                    return ('go', i['def'])
                if not isinstance(v, int): raise Unknown('switch on ' + repr(v), self.loc(i))
                for c, b in i['cases']:
                    if c == v: return ('go', b)
                return ('go', i['def'])
            if op == 'ret': return ('ret', self.val(i['ops'][0], env) if i['ops'] else None)
            if op == 'unreachable': raise Abort('unreachable', fr.f.dem)
            self.inst(fr, i, op, env)
    def small_join(self, fr, cur, succ):
        """both arms are at most one plain block ending in the common join: such a choice is merged by value"""
        f = fr.f; J = f.ipdom(cur)
        for s in succ:
            if s == J: continue
            b = f.blocks[s]
            if b[-1]['op'] != 'br' or len(b[-1]['succ']) != 1 or b[-1]['succ'][0] != J or len(b) > 12 or any(x['op'] in ('call', 'invoke', 'phi') and 'llvm.' not in str(x.get('callee')) for x in b): return False
        return J is not None
    def ctruth(self, c, i):
        r = self.truth(c)
        return c if r is None else r
    def inst(self, fr, i, op, env):
        ty = i['ty']
        if op == 'load':
            env[i['i']] = self.load(self.val(i['ops'][0], env), i['sz'], ty, i, i.get('leaves')); return
        if op == 'store':
            self.store(self.val(i['ops'][1], env), i['sz'], self.val(i['ops'][0], env), i, i.get('leaves')); return
        if op == 'call':
            cal = i['callee']
            a = [self.val(x, env) if x[0] != 'md' else None for x in i['ops']]
            if cal[0] == 'g': name = cal[1]
            else:
                p = self.val(cal, env)
                if not isinstance(p, Ptr) or p.o.kind != 'global': raise Unknown(f'indirect call through {p!r}', self.loc(i))
                name = p.o.name
            g = self.m.globals.get(name)
            while g and g['kind'] == 'alias': name = g['to']; g = self.m.globals.get(name)
            self.curcall = i
            r = self.call(name, a, i)
            if ty != 'void': env[i['i']] = r
            return
        v = [self.val(x, env) for x in i['ops']]
        env[i['i']] = self.compute(fr, i, op, ty, v, env)
    def compute(self, fr, i, op, ty, v, env):
        if op == 'getelementptr':
            b = v[0]; off = i['off']
            for o, s in i['var']:
                x = self.val(o, env)
                if x is UNDEF: raise Unknown('address from undef', self.loc(i))
                off = padd(off, pmul(x, s))
            if isinstance(b, Ptr): return Ptr(b.o, padd(b.off, off))
            if b == 0:
                return off if isinstance(off, Poly) or off else 0
            raise Unknown(f'address of {b!r}')
        if ty[0] == 'v' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'add', 'sub', 'mul', 'fneg'):
            n = int(ty[1:-1] if ty[-1] in 'dps' else ty[1:].split('i')[0]); ety = 'd' if ty[-1] == 'd' else 'i64'
            vs = [self.expand(x, [(0, 0, ety)] * n) for x in v]
            return tuple(self.compute(fr, i, op, ety, [x[k] for x in vs], env) for k in range(n))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = v
            if a is UNDEF or b is UNDEF: return UNDEF
            return {'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv}[op](a, b)
        if op == 'fneg': return fneg(v[0]) if v[0] is not UNDEF else UNDEF
        if op == 'fcmp':
            a, b = v; p = i['pred']
            if p in ('true', 'false'): return p == 'true'
            if p in ('ord', 'uno'): return p == 'ord'
            if a is UNDEF or b is UNDEF: return UNDEF
            return self.fcmp(p, a, b)
        if op == 'icmp':
            if i.get('oty') == 'i8' and i['pred'][0] == 'u' and i['pred'] != 'une':
                b = self.bjoin(v[0], v[1])
                if b:
                    f = {'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y, 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y}[i['pred'][1:]]
                    r = self.bmk(b[0], [int(f(x & 255, y & 255)) for x, y in zip(*b[1])])
                    return bool(r) if isinstance(r, int) else self.mkc('ge', padd(r, -1))
            return self.icmp(i['pred'], v[0], v[1])
        if op in ('uitofp', 'sitofp'):
            return real(self.to_int(v[0])) if v[0] is not UNDEF else UNDEF
        if op in ('zext', 'sext'):
            x = v[0]
            if i['sty'] == 'i1':
                x = self.to_int(x)
                if isinstance(x, T): return x
                return -x if op == 'sext' else x
            if isinstance(x, int) and op == 'zext':
                return x & ((1 << int(i['sty'][1:])) - 1)
            if isinstance(x, Poly) and op == 'zext' and i['sty'] == 'i8': return self.bytefn('u8', x, 0, 255)
            return x
        if op == 'trunc':
            x = v[0]
            if isinstance(x, int):
                w = int(ty[1:]); x &= (1 << w) - 1
                if w == 1: return bool(x)
                return x - (1 << w) if x >> (w - 1) else x
            if isinstance(x, T): return x
            if x is UNDEF: return x
            if isinstance(x, Parts):
                w = int(ty[1:])
                if w % 8: raise Unknown('truncation of an assembled value')
                return x.take(0, w // 8)
            if ty == 'i1':
                q = self.cell.floordiv(x, 2); return self.inv(self.mkc('eq', psub(x, pmul(2, q))))
            w = int(ty[1:])
            if w == 8: return self.bytefn('s8', x, -128, 127)
            if w < 32: raise Unknown('narrow truncation of symbolic value')
            if self.cell.prove(psub(2**(w - 1) - 1, x)): return x
            if self.cell.decide_ge(psub(2**(w - 1) - 1, x)): return x
            q = self.cell.floordiv(padd(x, 2**(w - 1)), 2**w)      # the value modulo 2^w, as a signed number
            return psub(x, pmul(2**w, q))
        if op in ('fptrunc', 'fpext'): return v[0]
        if op in ('fptoui', 'fptosi'):
            x = v[0]
            if x.op == 'c': return int(x.a[0])
            if x.op == 'i': return x.a[0]
            raise Unknown('real to integer conversion', self.loc(i))
        if op == 'bitcast' or op == 'freeze' or op == 'addrspacecast':
            if op == 'bitcast' and isinstance(v[0], T) and ty[0] == 'i': return self.conv(v[0], ty) if v[0].op == 'c' else T_('bits', v[0])
            return v[0]
        if op == 'ptrtoint': return self.p2i(v[0])
        if op == 'inttoptr': return self.i2p(v[0])
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor'): return self.arith(op, ty, v[0], v[1], i)
        if op == 'select':
            c = v[0]
            r = self.truth(c, False) if not isinstance(c, tuple) else None
            if r is None and isinstance(c, T) and isinstance(v[1], (int, Poly)) and isinstance(v[2], (int, Poly)):
                b = self.bjoin(c, v[1], v[2])
                if b: return self.bmk(b[0], [y if x else z for x, y, z in zip(*b[1])])
            if r is None:
                if isinstance(v[1], T) and isinstance(v[2], T) and not isinstance(c, tuple):
                    c2 = c
                    if isinstance(c, T) and self.real_only(c): return sel(c, v[1], v[2])
                if ty == 'i1' and isinstance(c, T):
                    return self.selv(c, v[1], v[2])
                r = self.truth(c)
                if r is None: return self.selv(c, v[1], v[2])
            return v[1] if r else v[2]
        if op == 'alloca':
            n = v[0] if v else 1
            o = self.new('alloca', pmul(i['sz'], n), 'alloca'); fr.allocas.append(o)
            return Ptr(o, 0)
        if op == 'extractvalue':
            x = v[0]
            for k in i['idx']: x = x[k]
            return x
        if op == 'insertvalue':
            def ins(a, idx, y):
                a = list(a) if isinstance(a, tuple) and a != ('zero',) else []
                while len(a) <= idx[0]: a.append(UNDEF)
                a[idx[0]] = y if len(idx) == 1 else ins(a[idx[0]], idx[1:], y)
                return tuple(a)
            return ins(v[0], i['idx'], v[1])
        if op == 'extractelement':
            x = v[0]; return self.expand(x, [(0, 0, ty)] * (v[1] + 1))[v[1]]
        if op == 'insertelement':
            n = int(ty[1:-1] if ty[-1] in 'dps' else ty[1:].split('i')[0]); a = list(v[0]) if isinstance(v[0], tuple) and v[0] != ('zero',) else [UNDEF] * n
            a[v[2]] = v[1]; return tuple(a)
        if op == 'shufflevector':
            n = max([k for k in i['mask']] + [0]) + 1
            def vec(x, m):
                return list(x) if isinstance(x, tuple) and x != ('zero',) else [UNDEF if x is UNDEF else const(0.0)] * m
            a = vec(v[0], 2); b = vec(v[1], len(a)); c = a + b
            return tuple(c[k] if k >= 0 else UNDEF for k in i['mask'])
        if op == 'atomicrmw' or op == 'cmpxchg': raise Unknown(op, self.loc(i))
        raise Unknown(f'instruction {op}', self.loc(i))
    def real_only(self, c):
        if c.op == 'fcmp': return True
        if c.op in ('not', 'and', 'or'): return all(self.real_only(x) for x in c.a)
        return False
    def fcmp(self, p, a, b):
        # canonicalise unordered predicates: NaN-free real semantics
        p2 = {'u': 'o'}.get(p[0], p[0]) + p[1:]
        if p2 == 'one' : return cnot(T_('fcmp', 'oeq', a, b)) if not (is_c(a) and is_c(b)) else a.a[0] != b.a[0]
        c = T_('fcmp', p2, a, b)
        r = self.truth(c, False)
        return c if r is None else r
    def arith(self, op, ty, a, b, i):
        if a is UNDEF or b is UNDEF: return UNDEF
        w = int(ty[1:])
        if isinstance(a, Parts):
            if op in ('lshr', 'ashr') and isinstance(b, int) and b % 8 == 0: return a.take(b // 8, w // 8 - b // 8)
            if op == 'and' and b == 2**32 - 1: return a.take(0, 4)
            raise Unknown(f'integer {op} on an assembled value', self.loc(i))
        if ty == 'i1':
            if op in ('and', 'or', 'xor', 'add'):
                if isinstance(a, int): a = bool(a)
                if isinstance(b, int): b = bool(b)
                if op in ('xor', 'add'):
                    if isinstance(b, bool): return self.inv(a) if b else a
                    if isinstance(a, bool): return self.inv(b) if a else b
                    return cor(cand(a, cnot(b)), cand(cnot(a), b))
                if isinstance(a, bool): return (b if a else False) if op == 'and' else (True if a else b)
                if isinstance(b, bool): return (a if b else False) if op == 'and' else (True if b else a)
                return cand(a, b) if op == 'and' else cor(a, b)
        if isinstance(a, T) or isinstance(b, T):
            if op == 'xor' and b == 1: return cnot(a)
            if op == 'and' and b == 1: return a
            a = self.to_int(a) if isinstance(a, T) else a; b = self.to_int(b) if isinstance(b, T) else b
            if isinstance(a, T) or isinstance(b, T): raise Unknown(f'integer {op} on real condition', self.loc(i))
        conc = not isinstance(a, Poly) and not isinstance(b, Poly)
        if not conc and (w == 8 or op in ('and', 'or', 'xor')):
            b2 = self.bjoin(a, b)
            if b2:
                M = (1 << w) - 1; f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}.get(op)
                if f: return self.bmk(b2[0], [(r - (1 << w) if r >> (w - 1) else r) for r in (f(x & M, y & M) & M for x, y in zip(*b2[1]))])
        if conc:
            M = (1 << w) - 1; ua, ub = a & M, b & M
            r = None
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'shl': r = ua << ub
            elif op in ('udiv', 'urem'):
                if ub == 0: raise Abort('oob', 'division by zero', self.loc(i))
                r = ua // ub if op == 'udiv' else ua % ub
            elif op in ('sdiv', 'srem'):
                if b == 0: raise Abort('oob', 'division by zero', self.loc(i))
                q = abs(a) // abs(b); q = q if (a >= 0) == (b >= 0) else -q
                r = q if op == 'sdiv' else a - q * b
            elif op == 'lshr': r = ua >> ub
            elif op == 'ashr': r = a >> ub
            elif op == 'and': r = ua & ub
            elif op == 'or': r = ua | ub
            elif op == 'xor': r = ua ^ ub
            r &= M
            return r - (1 << w) if r >> (w - 1) else r
        if op == 'add': return padd(a, b)
        if op == 'sub': return psub(a, b)
        if op == 'mul': return pmul(a, b)
        if op == 'shl' and isinstance(b, int): return pmul(a, 1 << b)
        if op in ('lshr', 'ashr') and isinstance(b, int): return self.div(a, 1 << b, i)
        if op in ('udiv', 'sdiv'): return self.div(a, b, i)
        if op in ('urem', 'srem'): return psub(a, pmul(b, self.div(a, b, i)))
        if op == 'and' and isinstance(b, int):
            if b >= 0 and (b & (b + 1)) == 0:
                if b >= 2**32 - 1 and (b >= 2**61 or self.cell.decide_ge(psub(b, a))): return a
                return psub(a, pmul(b + 1, self.div(a, b + 1, i)))
            if b < 0 and ((-b) & (-b - 1)) == 0: return pmul(-b, self.div(a, -b, i))
            if b > 0 and b & (b - 1) == 0 and b < 2**62:
                q = self.div(a, b, i); return pmul(b, psub(q, pmul(2, self.div(q, 2, i))))
        if op == 'or' and isinstance(b, int) and b >= 0:
            # disjoint or: a multiple of a power of two larger than b
            p = 1
            while p <= b: p <<= 1
            if pdiv_exact(a, p) is not None: return padd(a, b)
        if op == 'xor' and b == -1: return psub(-1, a)
        raise Unknown(f'integer operation {op} {a!r} {b!r}', self.loc(i))
    def div(self, a, b, i):
        if isinstance(b, int) and b > 0:
            e = pdiv_exact(a, b)
            if e is not None: return e
        if isinstance(b, Poly):
            if not self.cell.decide_ge(padd(b, -1)):
                if self.cell.decide_eq(b): raise Abort('oob', 'division by zero', self.loc(i))
        if not self.nonneg(a):
            self.cell.decide_ge(a)
            if not self.cell.decide_ge(a): raise Unknown(f'division of negative {a!r}', self.loc(i))
        return self.cell.floordiv(a, b)
    # ------------------------------------------------------------ forks on real conditions
    def logs(self): return {o.id: len(o.log) for o in self.objs.values()}
    def rollback(self, marks, freed=None):
        for o in list(self.objs.values()):
            if o.id in marks: del o.log[marks[o.id]:]
            elif o.kind != 'global': del self.objs[o.id]
        if freed is not None:
            for o in self.objs.values(): o.freed = o.id in freed
    def freedset(self): return {o.id for o in self.objs.values() if o.freed}
    def fork(self, fr, cur, c, s1, s2, stop):
        f = fr.f
        l1, l2 = s1 in f.live, s2 in f.live
        if l1 != l2:
            # one side can only end abnormally: record it and continue with the other
            ab = s2 if l1 else s1
            self.side.append((cnot(c) if l1 else c, self.peek_abort(fr, ab, cur)))
            return ('go', cur, s1 if l1 else s2)
        J = f.ipdom(cur)
        for h in reversed(fr.active):
            if J is None or J not in f.loops[h]['bset'] or J == h:
                raise NeedRec(h)
            break
        if J is None: raise Unknown('no join for real-valued branch')
        marks = self.logs(); fz = self.freedset(); env0 = dict(fr.env); nsinks = len(self.sinks)
        outs = []
        for s, cc in ((s1, c), (s2, cnot(c))):
            fr.env = dict(env0)
            try:
                r = self.run(fr, s, cur, lambda p, q: q == J)
            except Abort as a:
                self.side.append((cc, a)); self.rollback(marks, fz); outs.append(None); continue
            if len(self.sinks) != nsinks: raise Unknown('sink under a real-valued condition')
            if r[0] == 'ret': raise Unknown('return inside fork')
            if r[1] is not None: self.phis(fr, J, r[1])
            new = {o.id: o.log[marks.get(o.id, 0):] for o in self.objs.values() if len(o.log) > marks.get(o.id, 0)}
            fresh = [o for o in self.objs.values() if o.id not in marks]
            outs.append((dict(fr.env), new, fresh, self.freedset()))
            self.rollback(marks, fz)
        if outs[0] is None and outs[1] is None: raise Abort('throw', 'both branches', None)
        if outs[0] is None or outs[1] is None:
            o = outs[0] or outs[1]
            fr.env = o[0]
            for x in o[2]: self.objs[x.id] = x
            for oid, es in o[1].items(): self.objs[oid].log.extend(es)
            for x in self.objs.values(): x.freed = x.id in o[3]
            return self.after_join(fr, J, stop)
        (e1, n1, f1, z1), (e2, n2, f2, z2) = outs
        for x in f1 + f2: self.objs[x.id] = x
        env = {}
        for k in set(e1) | set(e2):
            if k in env0 and k in e1 and k in e2 and e1[k] is env0[k] and e2[k] is env0[k]: env[k] = env0[k]
        phi_ids = [i['i'] for i in f.blocks[J] if i['op'] == 'phi']
        for k in phi_ids: env[k] = self.selv(c, e1[k], e2[k])
        for k in env0:
            if k not in env: env[k] = env0[k]
        fids = {x.id for x in f1 + f2}
        for oid in set(n1) | set(n2):
            o = self.objs[oid]
            if oid in fids:
                o.log.extend(n1.get(oid, []) + n2.get(oid, [])); continue
            a, b = n1.get(oid, []), n2.get(oid, [])
            if len(a) == len(b) and all(x.kind == 'w' and y.kind == 'w' and x.off == y.off and x.size == y.size and not x.vars and not y.vars and x.guard is None and y.guard is None for x, y in zip(a, b)):
                for x, y in zip(a, b): o.log.append(Entry('w', x.off, x.size, self.selv(c, x.val, y.val) if x.val is not y.val else x.val, loc=x.loc))
                continue
            if (self.btab(c) or (None,))[0] and len(a) + len(b) == 1 and (a + b)[0].kind == 'w' and not (a + b)[0].vars and (a + b)[0].guard is None and (a + b)[0].size == 1:
                x = (a + b)[0]; old = self.read(o, x.off, x.size, 'i8')
                o.log.append(Entry('w', x.off, x.size, self.selv(c, x.val, old) if a else self.selv(c, old, x.val), loc=x.loc)); continue
            for es, g in ((a, c), (b, cnot(c))):
                for x in es:
                    o.log.append(Entry(x.kind, x.off, x.size, x.val, x.vars, g if x.guard is None else cand(g, x.guard), x.loc))
        for x in self.objs.values(): x.freed = x.id in z1 and x.id in z2 or (x.id in fids and (x.id in z1 or x.id in z2))
        fr.env = env
        return self.after_join(fr, J, stop)
    def after_join(self, fr, J, stop):
        # phis of J already evaluated: execute J without phis, unless the caller stops there
        if stop(None, J): return ('stop', None, J)      # phis of J are already merged; an enclosing fork with the same join picks them up
        r = self.block(fr, J, None, phi=False)
        if r[0] == 'ret': return r
        if r[0] == 'fork': return self.fork(fr, J, r[1], r[2], r[3], stop)
        return ('go', J, r[1])
    def peek_abort(self, fr, b, prev):
        """describe how a never-returning block ends (without keeping its effects)"""
        marks = self.logs(); fz = self.freedset(); env0 = dict(fr.env)
        try:
            self.run(fr, b, prev, lambda p, q: False)
        except Abort as a: return a
        except Unknown as u: return Abort('throw?', str(u))
        finally:
            fr.env = env0; self.rollback(marks, fz)
        return Abort('?', '')
    # ------------------------------------------------------------ loops
    def scev(self, s, env):
        k = s[0]
        if k == 'c': return s[1]
        if k == 'u': return self.p2i(self.val(s[1], env))
        if k in ('zext', 'sext', 'trunc', 'pti'): 
            return self.p2i(self.scev(s[1], env)) if k == 'pti' else self.scev(s[1], env)
        if k == 'add':
            r = 0
            for x in s[1:]: r = padd(r, self.p2i(self.scev(x, env)))
            return r
        if k == 'mul':
            r = 1
            for x in s[1:]: r = pmul(r, self.scev(x, env))
            return r
        if k == 'udiv':
            a, b = self.scev(s[1], env), self.scev(s[2], env)
            if not isinstance(a, Poly) and not isinstance(b, Poly): return (a & ((1 << 64) - 1)) // b
            return self.div(a, b, {})
        if k in ('umax', 'smax', 'umin', 'smin'):
            v = [self.scev(x, env) for x in s[1:]]
            r = v[0]
            for x in v[1:]:
                ge = self.truth(self.icmp('sge' if k[0] == 's' else 'uge', x, r))
                r = (x if ge else r) if k[1:] == 'max' else (r if ge else x)
            return r
        raise Unknown(f'scev {k}')
    def loop(self, fr, L, prev, stop):
        if self.atloop: self.atloop()
        f = fr.f; h = L['header']
        btc = None
        latch = L.get('latch')
        live_exits = [e for e in L['exits'] if any(s in f.live and s not in L['bset'] for s in f.succ[e['b']])]
        try:
            if 'btc' in L and len(live_exits) == len(L['exits']): btc = self.scev(L['btc'], fr.env)
            elif len(live_exits) == 1 and 'cnt' in live_exits[0]: btc = self.scev(live_exits[0]['cnt'], fr.env)
        except KeyError: btc = None
        except Unknown: btc = None
        if isinstance(btc, int) and btc < 0: btc = None
        if btc is None or (isinstance(btc, int) and btc <= (self.unroll or UNROLL)):
            marks = self.logs(); fz = self.freedset(); env0 = dict(fr.env); ns = len(self.side)
            try: return self.step_loop(fr, L, prev, stop)
            except NeedRec as n:
                if n.header != h: raise
                fr.env = env0; self.rollback(marks, fz); del self.side[ns:]
                if h in fr.active: fr.active.remove(h)
            except StepLimit as sl:
                if sl.header != h: raise
                fr.env = env0; self.rollback(marks, fz); del self.side[ns:]
                if h in fr.active: fr.active.remove(h)
            return self.rec_loop(fr, L, prev, None)
        try:
            return self.summarise(fr, L, prev, btc)
        except NeedRec as n:
            if n.header != h: raise
            return self.rec_loop(fr, L, prev, btc)
    def step_loop(self, fr, L, prev, stop):
        h = L['header']; fr.active.append(h); cur = h; n = 0
        try:
            while True:
                r = self.run(fr, cur, prev, lambda p, q: q not in L['bset'] or (q == h and p in L['bset'] and p is not None and self._back(fr, L, p)))
                if r[0] == 'ret': return r
                _, prev, cur = r
                if cur not in L['bset']: return ('go', prev, cur)
                n += 1
                if n > max(400, self.unroll or 0): raise StepLimit(h)
                # take the backedge: execute the header explicitly
                r = self.block(fr, h, prev)
                if r[0] == 'ret': return r
                if r[0] == 'fork':
                    r = self.fork(fr, h, r[1], r[2], r[3], lambda p, q: q not in L['bset'])
                    if r[0] == 'ret': return r
                    _, prev, cur = r
                else: prev, cur = h, r[1]
                if cur == h: continue_back = True
                while cur == h:
                    n += 1
                    if n > max(400, self.unroll or 0): raise StepLimit(h)
                    r = self.block(fr, h, prev)
                    if r[0] == 'ret': return r
                    if r[0] == 'fork':
                        r = self.fork(fr, h, r[1], r[2], r[3], lambda p, q: q not in L['bset'])
                        if r[0] == 'ret': return r
                        _, prev, cur = r
                    else: prev, cur = h, r[1]
                if cur not in L['bset']: return ('go', prev, cur)
        finally:
            if h in fr.active: fr.active.remove(h)
    def _back(self, fr, L, p): return True
    def header_phis(self, fr, L):
        return [i for i in fr.f.blocks[L['header']] if i['op'] == 'phi']
    def incoming(self, i, prev, env):
        for b, op in i['in']:
            if b == prev: return self.val(op, env)
        raise Unknown('phi incoming')
    def summarise(self, fr, L, prev, btc):
        f = fr.f; h = L['header']; latch = L.get('latch')
        if latch is None: raise Unknown('loop without unique latch')
        live_ex = [e['b'] for e in L['exits'] if any(s in f.live and s not in L['bset'] for s in f.succ[e['b']])]
        if len(live_ex) != 1: raise NeedRec(h)
        dowhile = live_ex[0] == latch
        inits = {i['i']: self.incoming(i, prev, fr.env) for i in self.header_phis(fr, L)}
        env_in = dict(fr.env)
        if dowhile:
            self.ranges(fr, L, prev, inits, 0, btc, True, btc)
            ex = [s for s in f.succ[latch] if s not in L['bset']][0]
            return ('go', latch, ex)
        if live_ex[0] != h: raise NeedRec(h)
        # header-exiting loop: btc full iterations, then the header once more
        if self.truth(self.icmp('sge', btc, 1)): self.ranges(fr, L, prev, inits, 0, psub(btc, 1), False, btc)
        # final header execution with k = btc
        self.set_phis(fr, L, prev, inits, btc, None)
        r = self.block_exit(fr, h, L)
        return ('go', h, r)
    def block_exit(self, fr, h, L):
        r = self.block(fr, h, None, phi=False) if False else None
        env = fr.env
        for i in fr.f.blocks[h]:
            if i['op'] in ('phi', 'br', 'switch'): continue
            self.inst(fr, i, i['op'], env)
        return [s for s in fr.f.succ[h] if s not in L['bset']][0]
    def set_phis(self, fr, L, prev, inits, k, place):
        for i in self.header_phis(fr, L):
            init = inits[i['i']]
            if 'step' in i:
                st = self.scev(i['step'], fr.env)
                if isinstance(init, Ptr): fr.env[i['i']] = Ptr(init.o, padd(init.off, pmul(st, k)))
                elif init == 0 and i['ty'] == 'p': fr.env[i['i']] = pmul(st, k)
                else: fr.env[i['i']] = padd(self.to_int(init), pmul(st, k))
            elif place is not None: fr.env[i['i']] = place[i['i']]
            elif i['i'] in getattr(self, 'closed', {}): fr.env[i['i']] = self.closed_at(i['i'], k)
            else: raise Unknown('loop-carried value without closed form')
    def ranges(self, fr, L, prev, inits, lo, hi, dowhile, btc):
        """interpret generic iterations for k in [lo,hi], partitioning the range on demand"""
        work = [(lo, hi)]; guard = 0
        carried = [i for i in self.header_phis(fr, L) if 'step' not in i]
        state = {i['i']: inits[i['i']] for i in carried}   # values on entry of the current range
        while work:
            a, b = work.pop(0)
            guard += 1
            if guard > 64: raise Unknown(f'loop range partition too fine in {self.lkey(fr, L)} {fr.f.dem[:60]} at {(a, b)} of {work[:3]} cell {self.cell.base}')
            marks = self.logs(); fz = self.freedset(); env0 = dict(fr.env); ncons = self.cell.push(); ns = len(self.side); nob = len(self.obl); nstack = len(self.loopstack)
            try:
                state = self.generic(fr, L, prev, inits, state, a, b, dowhile, b == hi and not work)
                self.cell.pop(ncons)
            except Split as s:
                kname = getattr(self, 'kname', {}).get((id(L), len(self.loopstack)))
                ks = [x for x in symbols(s.p) if x.startswith(f"k:{self.lkey(fr, L)}:")]
                # predicate may involve floor symbols over k
                del self.loopstack[nstack:]
                self.cell.pop(ncons); self.rollback(marks, fz); fr.env = env0; del self.side[ns:]; del self.obl[nob:]
                if L['header'] in fr.active: fr.active.remove(L['header'])
                if not ks: raise
                k = ks[0]
                c = coef_of(s.p, k)
                if c is None: raise Unknown(f'loop guard {s.p!r} is not linear')
                C, R = c
                if isinstance(C, Poly) and not any(x.startswith('k:') for x in symbols(C)):
                    for t in (C, padd(C, -1), padd(pneg(C), -1), padd(R, -1), R): self.cell.decide_ge(t, not any(x.startswith('k:') for x in symbols(t)))
                if isinstance(C, Poly): raise Unknown(f"loop guard {s.p!r} has symbolic slope; C={C!r} R={R!r} cons {[c for c in self.cell.cons if symbols(c) & symbols(s.p)]}") from s
                if any(x.startswith('fd(') and k in x for x in symbols(s.p)): raise Unknown(f'loop guard depends on {s.p!r} modulo a constant')
                # C*k + R >= 0 (or == 0)
                if s.kind == 'ge':
                    if C > 0:   # k >= ceil(-R/C)
                        m = pneg(R) if C == 1 else self.cdiv(pneg(R), C)
                        parts = [(a, padd(m, -1)), (m, b)]
                    else:       # k <= floor(R/-C)
                        m = R if C == -1 else self.fdiv_any(R, -C)
                        parts = [(a, m), (padd(m, 1), b)]
                else:
                    if abs(C) == 1: m = pneg(R) if C == 1 else R
                    else:
                        m = pdiv_exact(pneg(R), C)
                        if m is None: raise Unknown('loop equality guard')
                    parts = [(a, padd(m, -1)), (m, m), (padd(m, 1), b)]
                new = []
                for x, y in parts:
                    # clip to [a,b] and drop empty parts (may Split on outer symbols)
                    if not self.cell.decide_ge(psub(b, x)): continue
                    if not self.cell.decide_ge(psub(y, a)): continue
                    if not self.cell.decide_ge(psub(x, a)): x = a
                    if not self.cell.decide_ge(psub(b, y)): y = b
                    if not self.cell.decide_ge(psub(y, x)): continue
                    new.append((x, y))
                work = new + work
        return
    def cdiv(self, p, c): return pneg(self.fdiv_any(pneg(p), c))
    def fdiv_any(self, p, c):
        if not isinstance(p, Poly): return p // c
        e = pdiv_exact(p, c)
        if e is not None: return e
        if self.cell.decide_ge(p): return self.cell.floordiv(p, c)
        # negative: shift
        raise Unknown('floor of negative symbolic value')
    def lkey(self, fr, L): return f"{L['header']}.{len(self.calls)}"
    def generic(self, fr, L, prev, inits, state, lo, hi, dowhile, last):
        f = fr.f; h = L['header']; latch = L['latch']
        self.uid += 1
        uid = self.uid
        kn = f"k:{self.lkey(fr, L)}:{uid}"
        k = sym(kn)
        single = (lo == hi)
        kk = lo if single else k
        if not single:
            self.cell.assume(psub(k, lo)); self.cell.assume(psub(hi, k))
        phis = self.header_phis(fr, L)
        carried = [i for i in phis if 'step' not in i]
        place = {}
        for i in carried:
            if single: place[i['i']] = state[i['i']]
            elif i['ty'] in ('d', 's'): place[i['i']] = T_('phi', f'{kn}.{i["i"]}')
            else: place[i['i']] = state[i['i']]     # optimistic: invariant, checked below
        start = self.logs()
        rec = {'uid': uid, 'k': kn, 'start': start, 'existing': set(start), 'reads': [], 'rangereads': [], 'lo': lo, 'hi': hi}
        env0 = dict(fr.env); nsinks = len(self.sinks)
        self.set_phis(fr, L, prev, inits, kk, place)
        self.loopstack.append(rec); fr.active.append(h)
        try:
            # run from header (phis already set) to the latch terminator
            r = self.iter_body(fr, L, dowhile)
        finally:
            if rec in self.loopstack: self.loopstack.remove(rec)
            if h in fr.active: fr.active.remove(h)
        if len(self.sinks) != nsinks: raise Unknown('sink inside loop')
        # loop-carried values
        nxt = {i['i']: self.incoming(i, latch, fr.env) for i in carried}
        newstate = dict(state); repl = {}
        if not single:
            cyc = []
            for i in carried:
                n, p = nxt[i['i']], place[i['i']]
                if i['ty'] in ('d', 's'):
                    if n is p: repl[p] = state[i['i']]
                    else: cyc.append(i)
                else:
                    if not self.same(n, p): raise Unknown(f'loop-carried {i["ty"]} value without closed form in {f.dem}')
            if cyc:
                phs = [place[i['i']] for i in cyc]
                ins = [state[i['i']] for i in cyc]
                nx = [treplace(nxt[i['i']], repl) for i in cyc]
                for j, i in enumerate(cyc):
                    # value at iteration k: `k - lo` applications of the update
                    repl[place[i['i']]] = T_('rec', j, psub(k, lo), kn, lo, len(cyc), *phs, *ins, *nx)
                    newstate[i['i']] = T_('rec', j, padd(psub(hi, lo), 1), kn, lo, len(cyc), *phs, *ins, *nx)
        else:
            for i in carried: newstate[i['i']] = nxt[i['i']]
        # hazards and generalisation of the memory log
        hik = {kn: hi}
        for o in list(self.objs.values()):
            s = start.get(o.id)
            if s is None: continue
            ents = o.log[s:]
            if not ents: continue
            if not single:
                self.hazards(o, ents, rec, kn, k, lo)
                new = []
                for e in ents:
                    v = self.repl(e.val, repl) if repl and e.kind == 'w' else e.val
                    if e.kind == 'c':
                        so, sl, soff = e.val
                        if so.id not in start:   # source local to the iteration
                            new.extend(self.inline_copy(e, so, sl, soff)); continue
                        if sl > start[so.id]: raise Unknown('copy of data modified in the same loop')
                    g = self.repl(e.guard, repl) if e.guard is not None and repl else e.guard
                    new.append(Entry(e.kind, e.off, e.size, v, e.vars, g, e.loc))
                # pointers to iteration-local objects must not escape
                for e in new:
                    for pt in self.ptrs_in(e.val):
                        if pt.o.id not in start and pt.o.kind != 'global': raise Unknown('iteration-local object escapes its loop')
                    if e.guard is not None and self.mentions(e.guard, kn) : pass
                for e in new: e.vars = tuple(e.vars) + ((kn, lo, hi, uid),)
                o.log[s:] = new
        # after the loop every loop-defined value has its last-iteration value
        if not single:
            for d in L['defs']:
                if d in fr.env:
                    v = fr.env[d]
                    if repl: v = self.repl(v, repl)
                    fr.env[d] = self.subst(v, hik)
            self.side = [(self.subst(self.repl(c, repl) if repl else c, {}), a) for c, a in self.side]
        return newstate
    def iter_body(self, fr, L, dowhile):
        f = fr.f; h = L['header']; latch = L['latch']
        cur, prev, first = h, None, True
        while True:
            if not first and cur in f.loops and cur not in fr.active:
                r = self.loop(fr, f.loops[cur], prev, lambda p, q: False)
                if r[0] == 'ret': raise Unknown('return inside loop')
                _, prev, cur = r
                if cur not in L['bset']: raise NeedRec(h)
                first = False
                if cur == h: return
                continue
            if cur == latch and dowhile:
                if not first: self.phis(fr, cur, prev)
                for i in f.blocks[cur]:
                    if i['op'] in ('phi', 'br', 'switch'): continue
                    self.inst(fr, i, i['op'], fr.env)
                return
            r = self.block(fr, cur, prev, phi=not first)
            first = False
            if r[0] == 'ret': raise Unknown('return inside loop')
            if r[0] == 'fork':
                r = self.fork_in(fr, L, cur, r, dowhile)
                if r == 'latch': return
                _, prev, cur = r
            else: prev, cur = cur, r[1]
            if cur == h: return
            if cur not in L['bset']:
                if cur not in f.live:
                    raise Unknown('loop iteration ends abnormally')
                raise NeedRec(h)
    def fork_in(self, fr, L, cur, r, dowhile):
        f = fr.f; latch = L['latch']
        J = f.ipdom(cur)
        if J == latch and dowhile:
            # join directly at the latch: evaluate latch body after the merge
            res = self.fork2(fr, cur, r[1], r[2], r[3], J)
            for i in f.blocks[latch]:
                if i['op'] in ('phi', 'br', 'switch'): continue
                self.inst(fr, i, i['op'], fr.env)
            return 'latch'
        return self.fork(fr, cur, r[1], r[2], r[3], lambda p, q: False)
    def fork2(self, fr, cur, c, s1, s2, J):
        saved = self.after_join
        try:
            self.after_join = lambda fr_, J_, stop: ('joined', J_, J_)
            return self.fork(fr, cur, c, s1, s2, lambda p, q: False)
        finally: self.after_join = saved
    def mentions(self, t, name): return name in tsyms(t) if isinstance(t, T) else name in symbols(t)
    def same(self, a, b):
        if a is b: return True
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)): return a == b
        return a == b
    def ptrs_in(self, v):
        if isinstance(v, Ptr): yield v
        elif isinstance(v, tuple):
            for x in v: yield from self.ptrs_in(x)
    def inline_copy(self, e, so, sl, soff):
        """copy from an iteration-local object: replace by the individual stores of its log"""
        if isinstance(e.size, Poly): raise Unknown('symbolic copy from iteration-local object')
        out = []
        for off in range(0, e.size, 8):
            n = min(8, e.size - off)
            v = self._scan(so, sl, padd(soff, off), n, 'raw')
            if isinstance(v, Parts):
                for o2, s2, v2 in v.p: out.append(Entry('w', padd(e.off, off + o2), s2, v2, e.vars, e.guard, e.loc))
            elif v is not UNDEF: out.append(Entry('w', padd(e.off, off), n, v, e.vars, e.guard, e.loc))
        return out
    def hazards(self, o, ents, rec, kn, k, lo):
        reads = [r for r in rec['reads'] if r[0] is o]
        for (ro, roff, rsz, inner, cons) in {(id(r[0]), r[1], r[2], tuple(r[3]), tuple(r[4])): r for r in reads}.values() if reads else []:
            for e in ents:
                if not self.no_alias(e, roff, rsz, kn, lo, cons): raise LoopCarried(o, roff, e)
        for (ro, roff, n) in rec['rangereads']:
            if ro is o:
                for e in ents:
                    if not self.no_alias(e, roff, n, kn, lo, ()): raise Unknown(f'range copy from object written in the same loop ({o.name})')
    def no_alias(self, e, roff, rsz, kn, lo, cons):
        """no earlier iteration k'<k of entry e writes the location read at iteration k"""
        save = self.cell.push()
        kp = kn + "'"
        ren = {kn: sym(kp)}
        vs = []
        try:
            for c in cons: self.cell.assume(c)
            self.cell.assume(psub(sym(kp), lo)); self.cell.assume(psub(psub(sym(kn), sym(kp)), 1))
            off = psubst(e.off, ren)
            for (v, l, h2, u) in e.vars:
                nv = v + "'"; off = psubst(off, {v: sym(nv)})
                l, h2 = psubst(l, ren), psubst(h2, ren)
                self.cell.assume(psub(sym(nv), l)); self.cell.assume(psub(h2, sym(nv))); vs.append(nv)
            D = psub(roff, off)
            sz = e.size
            # interval reasoning, then residues, then mixed radix
            if self.cell.prove(psub(D, sz)) or self.cell.prove(psub(pneg(D), rsz)): return True
            if isinstance(D, Poly) and isinstance(sz, int):
                import math
                g = 0
                for m, c in D.t.items():
                    if m: g = math.gcd(g, abs(c))
                r = pconst(D) % g
                if r >= sz and g - r >= rsz: return True
            if not isinstance(D, Poly): return D >= sz or D <= -rsz
            # mixed radix: some outer stride dominates the inner range
            c = coef_of(D, kp)
            if c is not None and isinstance(sz, int):
                C, rest = c
                q, r = pdivmod(D, C) if isinstance(C, Poly) or abs(C) > 1 else (None, None)
                # D = C*(kp - k) + inner difference; |inner difference| < |C| and kp != k -> D != 0
                cc = coef_of(D, kn)
                if cc is not None and cc[0] == pneg(C):
                    inner = mk({m: v for m, v in terms(psub(rest, pmul(cc[0], sym(kn)))).items()})
                    ac = pneg(C) if self.cell.prove(pneg(C)) else C
                    if self.cell.prove(psub(psub(ac, inner), sz)) and self.cell.prove(psub(padd(ac, inner), rsz)): return True
            return False
        finally:
            self.cell.pop(save)
    # loops whose exit depends on reals
    def rec_loop(self, fr, L, prev, btc):
        f = fr.f; h = L['header']
        self.uid += 1; uid = self.uid
        kn = f"k:{self.lkey(fr, L)}:{uid}"; k = sym(kn)
        ncons = self.cell.push()
        self.cell.assume(k)
        inits = {i['i']: self.incoming(i, prev, fr.env) for i in self.header_phis(fr, L)}
        place = {}; cyc = []
        for i in self.header_phis(fr, L):
            if 'step' in i: continue
            if i['ty'] in ('d', 's'): place[i['i']] = T_('phi', f'{kn}.{i["i"]}'); cyc.append(i)
            else: place[i['i']] = inits[i['i']]
        self.set_phis(fr, L, prev, inits, k, place)
        start = self.logs(); fz = self.freedset()
        exits, backs, aborts = [], [], []
        npaths = [0]
        fr.active.append(h)
        def walk(cur, prv, cond, first):
            npaths[0] += 1
            if npaths[0] > 200: raise Unknown('too many paths in loop body')
            while True:
                if not first:
                    if cur == h: backs.append((cond, prv, dict(fr.env))); return
                    if cur not in L['bset']: exits.append((cond, prv, cur, dict(fr.env))); return
                    if cur in f.loops and cur not in fr.active:
                        r = self.loop(fr, f.loops[cur], prv, lambda p, q: False)
                        if r[0] == 'ret': raise Unknown('return inside loop')
                        _, prv, cur = r
                        continue
                try:
                    if not first: self.phis(fr, cur, prv)
                    first = False
                    env = fr.env; nxt = None
                    for i in f.blocks[cur]:
                        if i['op'] == 'phi': continue
                        if i['op'] == 'br':
                            if len(i['succ']) == 1: nxt = i['succ'][0]; break
                            c = self.val(i['ops'][0], env)
                            try: t = self.truth(c)
                            except Split as s:
                                if kn not in symbols(s.p): raise
                                t = None
                            if t is None:
                                e0 = dict(fr.env)
                                for s, cc in ((i['succ'][0], c), (i['succ'][1], cnot(c))):
                                    fr.env = dict(e0)
                                    walk(s, cur, cand(cond, cc), False)
                                return
                            nxt = i['succ'][0 if t else 1]; break
                        if i['op'] in ('switch', 'ret'): raise Unknown(f'{i["op"]} inside data-dependent loop')
                        if i['op'] == 'unreachable': raise Abort('unreachable', f.dem)
                        self.inst(fr, i, i['op'], env)
                except Abort as a:
                    aborts.append((cond, a)); return
                prv, cur = cur, nxt
        try: walk(h, None, TRUE, True)
        finally:
            if h in fr.active: fr.active.remove(h)
        for o in self.objs.values():
            if len(o.log) > start.get(o.id, len(o.log) if o.kind in ('alloca', 'heap') and o.id not in start else 0):
                raise Unknown(f'memory updated inside a data-dependent loop in {f.dem}', None)
        self.cell.pop(ncons)
        live = [e for e in exits if e[2] in f.live]; dead = [e for e in exits if e[2] not in f.live]
        if not live: raise Unknown('data-dependent loop never exits normally')
        if len({(e[2]) for e in live}) != 1: raise Unknown('data-dependent loop with several exit targets')
        # update function on the back edge
        for i in self.header_phis(fr, L):
            if 'step' in i or i['ty'] in ('d', 's'): continue
            for c, p, e in backs:
                if not self.same(self.incoming(i, p, e), inits[i['i']]): raise Unknown('loop-carried non-real value in data-dependent loop')
        phs = [place[i['i']] for i in cyc]; ins = [inits[i['i']] for i in cyc]; nx = []
        for i in cyc:
            v = None
            for c, p, e in backs:
                x = self.incoming(i, p, e); v = x if v is None else sel(c, x, v)
            nx.append(v if v is not None else place[i['i']])
        cont = FALSE
        for c, p, e in backs: cont = cor(cont, c)
        exitc = FALSE
        for e in live: exitc = cor(exitc, e[0])
        def wrap(t):
            return T_('fix', t, kn, len(cyc), exitc, cont, *phs, *ins, *nx)
        # merge the live exits
        tgt = live[0][2]
        envs = live
        fr.env = dict(envs[0][3])
        phi_vals = {}
        for i in f.blocks[tgt]:
            if i['op'] != 'phi': break
            v = None
            for c, p, q, e in envs:
                fr.env = e
                x = self.incoming(i, p, e)
                v = x if v is None else self.selv(c, x, v)
            phi_vals[i['i']] = v
        fr.env = dict(envs[0][3])
        def w(v):
            if isinstance(v, T): return wrap(v)
            if isinstance(v, (bool, int)): return v
            if isinstance(v, Poly): return Poly(v.t) if kn not in symbols(v) else UNDEF
            if isinstance(v, Ptr): return v if kn not in symbols(v.off) else UNDEF
            if isinstance(v, tuple): return tuple(w(x) for x in v)
            return v
        for d in L['defs']:
            if d in fr.env: fr.env[d] = w(fr.env[d])
        for x, v in phi_vals.items(): fr.env[x] = w(v)
        for e in dead: self.side.append((wrap(e[0]) if isinstance(e[0], T) else TRUE, self.peek_abort(fr, e[2], e[1])))
        for c, a in aborts: self.side.append((wrap(c), a))
        if len(live) == 1: 
            # phis of the target re-evaluated by the caller from wrapped values
            return ('go', live[0][1], tgt)
        r = self.block(fr, tgt, None, phi=False)
        if r[0] == 'ret': return r
        if r[0] == 'fork': return self.fork(fr, tgt, r[1], r[2], r[3], lambda p, q: False)
        return ('go', tgt, r[1])

class StepLimit(Exception):
    def __init__(self, header): self.header = header
class LoopCarried(Unknown):
    def __init__(self, o, roff, e): super().__init__(f'loop-carried dependence through memory {o.name}[{roff!r}] / {e!r}', e.loc)
