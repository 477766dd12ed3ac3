from s2lib import *
C = Check('P02', rule='size(order), order(size) and next(order) as piecewise functions of an unbounded integer: mutual inverses on the supported pairs, negative elsewhere, next = least supported order >= request')
REF = json.load(open(os.path.join(ROOT, 'specs', 's2_orders.json')))
def where(I, c): return None
def run(C):
    mods = build(C)
    for f in FAM:
        mod = mods[f]
        ref = {int(o): n for o, n in REF[f].items()}
        P = {k: lookup(C, mod, f'drv_{k}_{f}') for k in ('size', 'order', 'next')}
        W = max(max(ref), max(ref.values())) + 500
        hdr = 'include/integratorxx/quadratures/' + FAM[f][0]
        T = {}
        for k in P:
            hi = W if k == 'order' else 1000
            T[k], tails = tabulate(C, f, k, P[k], -1000, hi)
            for side, v, c, I in tails:
                if isinstance(v, Abort): C.violation('signal', f'{f} {k} {side}', f'{f}: {k} look-up fails ({describe_abort(v)}) on {c.base} instead of returning a value', v.loc); continue
                if k != 'next':
                    if isinstance(v, Poly):
                        raise Unknown(f'{f} {k}: symbolic result {v!r} on unbounded piece')
                    if v >= 0: C.violation('signal', f'{f} {k} {side}', f'{f}: {k} look-up returns {v} for unsupported integers {c.base}', hdr)
                    else: C.ok()
                else:
                    if isinstance(v, Poly): C.violation('next', f'{f} next {side}', f'{f}: next-order look-up returns {v!r} for requests {side} the supported range', hdr)
                    elif side == 'below' and v != min(ref): C.violation('next', f'{f} next {side}', f'{f}: next-order look-up returns {v} for very low requests, expected {min(ref)}', hdr)
                    elif v not in ref and T['size'].get(v, -1) < 0: C.violation('next', f'{f} next {side}', f'{f}: next-order look-up returns unsupported order {v}', hdr)
                    else: C.ok()
        for k in T:
            for x, v in T[k].items():
                if isinstance(v, Abort): C.violation('signal', f'{f} {k}({x})', f'{f}: {k} look-up of {x} fails ({describe_abort(v)})', v.loc)
        size = {o: n for o, n in T['size'].items() if not isinstance(n, Abort) and n >= 0}
        order = {n: o for n, o in T['order'].items() if not isinstance(o, Abort) and o >= 0}
        for o, n in ref.items():
            if size.get(o) != n: C.violation('pairs', f'{f} size({o})', f'{f}: size look-up of supported order {o} gives {T["size"].get(o)}, expected {n}', hdr)
            elif order.get(n) != o: C.violation('pairs', f'{f} order({n})', f'{f}: order look-up of supported size {n} gives {T["order"].get(n)}, expected {o}', hdr)
            else: C.ok()
        for o, n in size.items():
            if order.get(n) != o: C.violation('inverse', f'{f} size({o})', f'{f}: size({o})={n} but order({n})={T["order"].get(n)}', hdr)
            else: C.ok()
        for n, o in order.items():
            if size.get(o) != n: C.violation('inverse', f'{f} order({n})', f'{f}: order({n})={o} but size({o})={T["size"].get(o)}', hdr)
            else: C.ok()
        built = set()
        for c, I, r in dispatch(C, mod, f):
            if not isinstance(r, Abort) and r['n'] and r['np'] : built.add(r['n'])
        for n in order:
            if n not in built: C.violation('constructible', f'{f} {n}', f'{f}: size {n} is advertised but not constructible as such', hdr)
            else: C.ok()
        so = sorted(size)
        for x, v in T['next'].items():
            if isinstance(v, Abort): continue
            if x <= so[-1]:
                exp = next(o for o in so if o >= x)
                if v != exp: C.violation('next', f'{f} next({x})', f'{f}: next-order look-up of {x} gives {v}, expected {exp}', hdr)
                else: C.ok()
            elif v not in size: C.violation('next', f'{f} next({x})', f'{f}: next-order look-up of {x} gives {v}, which is not a supported order', hdr)
            else: C.ok()
        C.cov.setdefault('families', {})[f] = dict(pairs=len(size), pieces={k: len(P[k]) for k in P})
        C.samples.append(f'{f}: ' + ', '.join(f'{o}->{size[o]}' for o in so[:6]) + f' ... {so[-1]}->{size[so[-1]]}')
    C.finish('The three look-ups of each family are turned by the abstract interpreter into exact piecewise functions of an unbounded signed integer (switch/if-chain cells), which are then compared as functions: mutual inverses, coverage of the published pairs, agreement with the sizes the dispatch can construct, and the rounding rule on every integer.')
if __name__ == '__main__': main(C, run)
