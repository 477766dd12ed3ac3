from lib import *
from complib import MOCK
import re, p04, p05, p06, p07, p08, p09, p16, p19
C = Check('P17', rule='every public header is a complete unit; header units define no strong symbol; library, header-only unit and users define each strong symbol once and leave no library symbol undefined; every library function has the same normalised IR in every unit and configuration')
USE = '''
#include <cstdio>
namespace { using namespace IntegratorXX;
template <class Q> double sum(const Q& q) { double s = 0; for(auto w : q.weights()) s += w; for(auto& p : q.points()) s += reinterpret_cast<const double&>(p); return s + q.npts(); }
template <class R> double grids(size_t n) { R r(n); LebedevLaikov<double> a(110), b(302); AhrensBeylkin<double> c(312); Delley<double> d(110); Womersley<double> e(64);
  SphericalQuadrature q(r, a); SphericalQuadrature q2(r, c); SphericalQuadrature q3(r, d); SphericalQuadrature q4(r, e); RadialGridPartition<LebedevLaikov<double>> g(r, 0, a, n / 2, b); PrunedSphericalQuadrature p(r, g);
  auto x = q.clone(); x->recenter({1., 2., 3.}); auto bt = make_batcher(10, q); auto bt2 = make_batcher(10, p); double s = sum(q) + sum(q2) + sum(q3) + sum(q4) + sum(p) + sum(*x);
  for(auto&& v : bt) { auto& [lo, up, pt, w] = v; s += lo[0] + up[1] + w.size() + pt.size(); } for(auto&& v : bt2) { auto& [lo, up, pt, w] = v; s += lo[0] + up[1] + w.size() + pt.size(); }
  return s; }
template <class R> double prim(size_t n) { R r(n); SubQuadrature<R> s(std::make_pair<size_t, size_t>(0, 1), r); return sum(r) + sum(s) + r.points(0) + r.weights(0); }
double use(size_t n, double lo, double up, const std::string& s) { double t = prim<GaussLegendre<double, double>>(n) + prim<GaussLobatto<double, double>>(n) + prim<GaussChebyshev1<double, double>>(n) + prim<GaussChebyshev2<double, double>>(n) + prim<GaussChebyshev2Modified<double, double>>(n) + prim<GaussChebyshev3<double, double>>(n) + sum(UniformTrapezoid<double, double>(n, lo, up));
  t += grids<Becke<double, double>>(n) + grids<MurrayHandyLaming<double, double>>(n) + grids<MuraKnowles<double, double>>(n) + grids<TreutlerAhlrichs<double, double>>(n);
  auto rq = radial_from_string(s); auto aq = angular_from_string(s); auto rt = make_radial_traits(rq, n, lo); auto ps = UnprunedSphericalGridSpecification(rq, *rt, aq, 110);
  t += sum(*RadialFactory::generate(rq, *rt)) + sum(*S2Factory::generate(aq, 302)); auto pr = create_pruned_spec(PruningScheme::Robust, ps); if(!(robust_psi4_pruning_scheme(ps) == treutler_pruning_scheme(ps))) t += 1; t += sum(*SphericalGridFactory::generate_grid(ps)) + sum(*SphericalGridFactory::generate_grid(pr)); return t; } }
'''
def hdr(h): return f'#include <integratorxx/{h}>\n'
def headers():
    base = os.path.join(REPO, 'include', 'integratorxx'); out = []
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(('.hpp', '.h')) and not re.search(r'_\d+\.hpp$', f): out.append(os.path.relpath(os.path.join(d, f), base))
    return sorted(out)
def isimpl(h): return '/impl/' in h
def heavy(h): return 's2' in h or isimpl(h) or h in ('quadratures/all.hpp',) or 'factory' in h
OURS = re.compile(r'12IntegratorXX')
def ours(n): return bool(OURS.search(n))
# ------------------------------------------------------------------ units
class Unit:
    """the symbols and the normalised function bodies of one unit"""
    def __init__(self, name, ll):
        self.name = name; self.strong, self.weak, self.undef, self.body = {}, set(), set(), {}
        strs = {}; cur = None; buf = []; types = {}
        lines = open(ll, errors='replace').read().split('\n')
        for l in lines:
            if l[:1] == '@':
                m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)', l)
                if not m: continue
                n, rest = m[1].strip('"'), m[2]
                if n.startswith(('.str', '__const.', 'switch.table', 'constinit')) or re.match(r'private ', rest): strs[n] = hashlib.sha256(re.sub(r', align \d+$', '', rest).encode()).hexdigest()[:10] if len(rest) > 60 else rest; continue
                attr = re.match(r'((?:external|dso_local|internal|linkonce_odr|weak_odr|linkonce|weak|common|private|available_externally|hidden|appending|unnamed_addr|local_unnamed_addr|thread_local(?:\([^)]*\))?|comdat) )*', rest)[0]
                if ' alias ' in ' ' + rest[:80]: attr += 'alias '
                if 'external' in attr.split(): self.undef.add(n)
                elif any(a in attr for a in ('linkonce', 'weak', 'available_externally', 'common')): self.weak.add(n)
                elif any(a in attr for a in ('internal', 'private', 'appending')): pass
                else: self.strong[n] = 'object'
                if ours(n) and 'external' not in attr: self.body[n] = re.sub(r'%"?(class|struct|union)\.([\w:.$<>, ]*?)\.\d+"?', r'%\1.\2', rest)
            elif l.startswith('%') and ' = type ' in l:
                t, d = l.split(' = type ', 1); types[t] = d
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l); self.undef.add(m[1].strip('"'))
            elif l.startswith('define'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l); cur = m[1].strip('"'); head = l[:m.start()]; buf = [l]
                if any(a in head for a in ('linkonce', 'weak', 'available_externally')): self.weak.add(cur)
                elif 'internal' in head or 'private' in head: pass
                else: self.strong[cur] = 'function'
            elif l == '}':
                if cur and (ours(cur) or cur in self.strong): self.body[cur] = buf
                cur = None
            elif cur: buf.append(l)
        # normalise: metadata, attribute groups, numbering of types and of private constants carry no meaning
        types = {k: v for k, v in types.items()}
        memo = {}
        def ty(m):
            t = re.sub(r'\.\d+(?="?$)', '', m[0]); return t
        def pv(m):
            n = m[1].strip('"')
            return '@<' + strs[n] + '>' if n in strs else m[0]
        for n, b in list(self.body.items()):
            if isinstance(b, str): continue
            t = '\n'.join(b)
            t = re.sub(r', ![\w.]+ !\d+', '', t); t = re.sub(r' #\d+', '', t); t = re.sub(r'!\d+', '', t)
            t = re.sub(r'@("[^"]+"|[\w.$]+)', pv, t); t = re.sub(r' comdat(\([^)]*\))?', '', t)
            t = re.sub(r'%"?(?:class|struct|union)\.(?:[^"\s,*)(]|(?<=")[^"])*"?', ty, t); t = re.sub(r'%"(?:class|struct|union)\.[^"]*"', lambda m: re.sub(r'\.\d+"$', '"', m[0]), t)
            t = re.sub(r'(anon|\$_|__cxx_global_var_init)\.?\d*', r'\1', t); t = re.sub(r'\s+; preds.*', '', t)
            self.body[n] = t
    def differs(self, other, n):
        a, b = self.body[n], other.body[n]
        if a == b: return None
        for x, y in zip(a.split('\n'), b.split('\n')):
            if x != y: k = max(0, next((k for k, (c, d) in enumerate(zip(x, y)) if c != d), 0) - 60); return f'{x.strip()[k:k + 200]}  /  {y.strip()[k:k + 200]}'
        return 'length'
def compile_(C, name, src, flags=(), path=None):
    ll = os.path.join(C.tmp, name + '.ll')
    if path is None:
        path = os.path.join(C.tmp, name + '.cxx')
        with open(path, 'w') as f: f.write(src)
    r = subprocess.run(['clang++', '-std=c++17', '-O0', '-w', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-Xclang', '-fignore-exceptions', '-I' + os.path.join(REPO, 'include'), *flags, '-S', '-emit-llvm', path, '-o', ll], capture_output=True, text=True)
    if r.returncode: return None, next((l.split('/include/')[-1] for l in r.stderr.split('\n') if 'error:' in l), 'error')[:300]
    u = Unit(name, ll); os.remove(ll); return u, None
def gxx(C, name, src):
    path = os.path.join(C.tmp, name + '.g.cxx')
    with open(path, 'w') as f: f.write(src)
    r = subprocess.run(['g++', '-std=c++17', '-w', '-fsyntax-only', '-I' + os.path.join(REPO, 'include'), path], capture_output=True, text=True)
    return next((l.split('/include/')[-1] for l in r.stderr.split('\n') if 'error:' in l), 'error')[:300] if r.returncode else None
def entries(C):
    """functions the non-implementation headers declare for the run-time unit to define"""
    src = os.path.join(C.tmp, 'entries.cxx')
    with open(src, 'w') as f: f.write(''.join(hdr(h) for h in headers() if not isimpl(h)))
    r = subprocess.run(['clang++', '-std=c++17', '-w', '-fsyntax-only', '-I' + os.path.join(REPO, 'include'), '-Xclang', '-load', '-Xclang', os.path.join(ROOT, 'build', 'astq.so'), '-Xclang', '-plugin', '-Xclang', 'astq', src], capture_output=True, text=True)
    if r.returncode: return []          # reported through the header units
    return [v for v in map(json.loads, r.stdout.splitlines()) if 'fn' in v]
def run(C):
    hs = headers()
    if len(hs) < 20: raise CheckError('headers not found')
    pub = [h for h in hs if not isimpl(h)]; impl = [h for h in hs if isimpl(h)]
    srcs = sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith(('.cxx', '.cpp', '.cc')))
    if not srcs: raise CheckError('no library sources')
    top = 'generators/impl/impl.hpp'
    if top not in impl: raise CheckError('implementation header not found')
    jobs = {}
    for k, h in enumerate(hs): jobs['header ' + h] = lambda k=k, h=h: compile_(C, f'h{k}', hdr(h) * 2)
    for k, h in enumerate(hs): jobs['gcc ' + h] = lambda k=k, h=h: gxx(C, f'h{k}', hdr(h) * 2)
    for f in srcs: jobs['lib ' + f] = lambda f=f: compile_(C, 'lib_' + f, '', path=os.path.join(REPO, 'src', f))
    jobs['header-only unit'] = lambda: compile_(C, 'honly', hdr(top))
    jobs['header-only user'] = lambda: compile_(C, 'honlyuse', hdr(top) + ''.join(map(hdr, pub)) + USE + 'extern "C" double uh(size_t n, double a, double b, const char* s) { return use(n, a, b, s); }\n')
    jobs['user forward'] = lambda: compile_(C, 'use1', PRE + ''.join(map(hdr, pub)) + USE + 'extern "C" double u1(size_t n, double a, double b, const char* s) { return use(n, a, b, s); }\n')
    jobs['user reverse'] = lambda: compile_(C, 'use2', ''.join(map(hdr, pub[::-1])) + USE + 'extern "C" double u2(size_t n, double a, double b, const char* s) { return use(n, a, b, s); }\n')
    for o, l in (('forward', pub), ('reverse', pub[::-1])): jobs['bare ' + o] = lambda o=o, l=l: gxx(C, 'bare' + o, ''.join(map(hdr, l)))
    light = ''.join(hdr(h) for h in pub if not heavy(h))
    for nm, m in (('primitive', p04.SRC), ('legendre', p05.SRC), ('radial', p06.SRC), ('product', p07.SRC), ('pruned', MOCK + p08.drv(2)), ('recentring', p09.SRC), ('bounds', p19.SRC), ('batching', p16.BATCH)):
        jobs[f'{nm} alone'] = lambda nm=nm, m=m: compile_(C, nm + 'a', '#include <cstdint>\n#include <cstddef>\n' + m)
        jobs[f'{nm} after all'] = lambda nm=nm, m=m: compile_(C, nm + 'b', PRE + light + m)
    jobs['entries'] = lambda: entries(C)
    order = sorted(jobs, key=lambda j: (j.split()[0] not in ('user', 'header-only', 'lib', 'entries', 'bare'), not heavy(j.split(' ', 1)[1]) if ' ' in j else False))
    res = dict(zip(order, C.parallel([jobs[j] for j in order])))
    if C.unk: raise Unknown(C.unk.pop())
    U = {}
    for h in hs:
        u, e = res['header ' + h]; g = res['gcc ' + h]
        if e: C.violation('self-contained', h, f'{h}: does not compile by itself: {e}', h)
        elif g: C.violation('self-contained', h, f'{h}: does not compile by itself with g++: {g}', h)
        else: C.ok()
        if u is None: continue
        C.cells += 1; U['header ' + h] = u
        if not isimpl(h):
            for n, k in sorted(u.strong.items()): C.violation('linkage', n, f'{h}: {k} {dem(n)} is defined in every unit that includes this header (multiply defined in a program with two of them)', h)
            C.ok()
    bare = {o: res['bare ' + o] for o in ('forward', 'reverse')}
    for o, e in bare.items():
        if e: C.violation('self-contained', o, f'the public headers do not compile together in {o} order: {e}')
        else: C.ok()
 
    for j, r in sorted(res.items(), key=lambda x: x[0] != 'header-only unit'):
        if j.startswith(('header ', 'gcc ', 'bare ')) and j not in ('header-only unit', 'header-only user') or j == 'entries': continue
        u, e = r
        if e:
            if j.startswith('user ') and bare[j.split()[1]] is None and all(res['user ' + o][1] for o in bare): raise CheckError(f'{j}: driver does not compile against the current headers: {e}')
            if j == 'header-only user' and 'header-only unit' in U and all(res['user ' + o][1] for o in bare): raise CheckError(f'{j}: driver does not compile against the current headers: {e}')
            if 'alone' in j and res[j.split()[0] + ' after all'][1]: raise CheckError(f'{j}: driver does not compile against the current headers: {e}')
            if 'after' in j and j.split()[0] + ' alone' not in U: continue
            C.violation('self-contained', j, f'{j}: does not compile: {e}', j)
        else: U[j] = u; C.cells += 1
    users = ['user forward', 'user reverse']
    conf = {'library': ['lib ' + f for f in srcs] + users, 'header-only': ['header-only user'] + users}
    for c, us in conf.items():
        us = [U[u] for u in us if u in U]; seen = {}
        defs = set().union(*[set(u.strong) | u.weak for u in us]) if us else set()
        for u in us:
            for n, k in u.strong.items():
                if n in seen and (ours(n) or not n.startswith('u')): C.violation('linkage', n, f'{c} configuration: {k} {dem(n)} is defined by {seen[n]} and by {u.name}', u.name)
                seen.setdefault(n, u.name); C.ok()
        for u in us:
            for n in u.undef:
                if ours(n) and n not in defs: C.violation('missing', n, f'{c} configuration: {dem(n)} is used by {u.name} but defined nowhere', u.name)
                elif ours(n): C.ok()
        for e in res['entries']:
            where = [u.name for u in us if e['fn'] in u.strong]; at = f"{e['file'].split('include/')[-1]}:{e['line']}"
            if len(where) != 1: C.violation('entry', f"{e['name']} {c}", f"{c} configuration: {e['name']} declared at {at} is defined by {len(where)} units", at)
            else: C.ok()
    C.cov['entry_points'] = [e['name'] for e in res['entries']]
    # one definition everywhere: the same function must mean the same in every unit
    groups = {}
    for u in U.values():
        for n in u.body: 
            if ours(n): groups.setdefault(n, []).append(u)
    comp = 0
    for n, us in groups.items():
        for v in us[1:]:
            d = us[0].differs(v, n); comp += 1
            if d: C.violation('meaning', n, f'{dem(n)} has a different body in {us[0].name} and {v.name}: {d}', f'{us[0].name}, {v.name}'); break
        else: C.ok()
        C.fns.add(dem(n)[:120] if len(C.fns) < 60 else n)
    C.cov['bodies_compared'] = comp; C.cov['functions_in_several_units'] = sum(len(u) > 1 for u in groups.values())
    C.finish('Every header (internal per-size tables excluded) compiled alone and twice with clang++ and g++, its definitions classified by linkage; the library configuration and the header-only configuration composed symbol by symbol with two users including all headers in opposite orders; every library function compared as normalised IR across all units that emit it.')
_dem = {}
def dem(n):
    if n not in _dem: _dem[n] = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()[:200]
    return _dem[n]
if __name__ == '__main__': main(C, run)
