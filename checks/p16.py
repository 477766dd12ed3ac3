from lib import *
import re, p03, p04, p05, p06, p07, p08, p09, p13, p19, s2lib
from complib import *
C = Check('P16', rule='no library variable of static or thread storage that can change or captures call-time values; every external function reachable from the library is a pure computation, an allocation or an error path; clock readings are unused')
BATCH = '''
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/quadratures/all.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
using namespace IntegratorXX;
extern "C" void sink_v(const double*, const double*, const double*, const double*, size_t); extern "C" void sink_n(size_t);
template <class V> static void show(const V& v) { auto& [lo, up, p, w] = v; sink_v(lo.data(), up.data(), (const double*)p.data(), w.data(), p.size()); }
template <class B> static void use(B& b) { for(auto v : b) show(v); const B& c = b; for(auto it = c.cbegin(); it != c.cend(); ++it) show(*it); show(b.at(0)); show(c.at(0)); sink_n(b.npts()); sink_n(b.nbatches()); sink_n(b.max_batch_size()); b.recenter({1., 2., 3.}); auto d = b.clone(); for(auto v : d) show(v); sink_n(d.quadrature().npts()); }
extern "C" void drv_batch(size_t n, size_t m) { SphericalQuadrature q(Becke<double,double>(n, 1.0), LebedevLaikov<double>(110)); auto b = make_batcher(m, q); use(b); auto c = make_batcher(m, std::move(q)); use(c); }
extern "C" void drv_pruned(size_t n, size_t m) { Becke<double,double> r(n, 1.0); LebedevLaikov<double> a(110), a2(302); RadialGridPartition<LebedevLaikov<double>> g(r, 0, a, n / 2, a2); PrunedSphericalQuadrature q(r, g); auto b = make_batcher(m, q); use(b); }
'''
ALL = ''.join(f'#include <integratorxx/{h}>\n' for h in ('generators/impl/impl.hpp', 'quadratures/all.hpp', 'batch/spherical_micro_batcher.hpp', 'util/bound_transform.hpp', 'composite_quadratures/spherical_quadrature.hpp', 'composite_quadratures/pruned_spherical_quadrature.hpp'))
# ---------------------------------------------------------------- what external code may be reached
MATH = 'sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh exp exp2 expm1 log log2 log10 log1p pow sqrt cbrt hypot fabs fmod remainder fmin fmax fdim fma floor ceil round trunc rint nearbyint lround llround lrint llrint ldexp frexp modf scalbn ilogb logb erf erfc tgamma lgamma_r copysign nan nextafter sincos sinpi cospi legendre assoc_legendre'.split()
OKC = set(m + s for m in MATH for s in ('', 'f', 'l')) | set('''memcpy memmove memset memcmp memchr bcmp strlen strcmp strncmp strchr strrchr strstr strnlen strcasecmp strncasecmp strcpy strncpy strcat stpcpy toupper tolower isalpha isdigit isspace isupper islower isalnum abs labs llabs qsort bsearch atoi atof strtol strtoul strtod
 snprintf vsnprintf malloc calloc realloc free aligned_alloc posix_memalign abort __assert_fail __gxx_personality_v0 _Unwind_Resume __clang_call_terminate __dynamic_cast __stack_chk_fail pthread_mutex_lock pthread_mutex_unlock __isoc23_strtol __isoc23_strtoul'''.split())
OKRE = [re.compile(x) for x in (r'_Zn[wa]', r'_Zd[la]', r'__cxa_(?!thread)', r'_ZSt\d*__throw_', r'_ZSt9terminatev', r'_ZNK?St\d+\w*error', r'_ZNSt\d+\w*error', r'_ZNK?St9exception', r'_ZNK?St9bad_\w+', r'_ZNSt8bad_cast', r'_ZNK?St9type_info', r'_ZNK?St7__cxx1112basic_string', r'_ZNK?St7__cxx11\d+basic_\w*stringstream', r'_ZNK?Ss', r'_ZNK?St7__cxx1115basic_stringbuf', r'_ZNSo', r'_ZStls', r'_ZNSt8ios_base[CD]', r'_ZNSt9basic_ios', r'_ZNSt6locale[CD]\dEv', r'_ZSt1[68]_?_?_Rb_tree', r'_ZSt18_Rb_tree', r'_ZSt20_Rb_tree', r'_ZSt28_Rb_tree', r'_ZSt29_Rb_tree', r'_ZNSt8__detail', r'_ZNKSt8__detail', r'_ZSt11_Hash_bytes', r'_ZSt16__ostream_insert', r'_ZNSt19_Sp_', r'_ZNKSt19_Sp_', r'_ZSt7nothrow', r'_ZSt17rethrow_exception', r'_ZSt17current_exception', r'_ZNSt15__exception_ptr', r'_ZSt\d+__\w*(sort|merge)', r'_ZNSt3pmr', r'_ZSt(floor|ceil|pow|sqrt)')]
BADC = set('''rand srand rand_r random srandom initstate drand48 erand48 lrand48 srand48 getenv secure_getenv setenv putenv unsetenv clearenv fopen freopen fclose fread fwrite fputs fputc putc puts putchar printf fprintf vfprintf vprintf fflush fscanf scanf fgets getc getchar gets open openat close read write lseek stat
 time clock gettimeofday clock_gettime times ftime localtime gmtime mktime strftime getpid gettid getppid getuid pthread_self pthread_create pthread_getspecific pthread_setspecific pthread_once sched_getcpu sched_yield setlocale localeconv uselocale newlocale fesetround fegetround fesetenv feholdexcept feupdateenv system popen strtok syscall sysconf getrandom getentropy __errno_location dlopen dlsym signal raise usleep nanosleep sleep lgamma lgammaf'''.split())
BADRE = [re.compile(x) for x in (r'_ZNKSt13random_device', r'_ZNSt13random_device', r'_ZNSt6thread', r'_ZNSt6locale6global', r'_ZNSt\d+basic_[io]?fstream', r'_ZNSt13basic_filebuf', r'_ZNSt10filesystem', r'_ZNSt6chrono', r'_ZNKSt6chrono', r'__cxa_thread', r'_ZNSt18condition_variable', r'_ZSt24__throw_out_of_range_NEVER')]
CLOCK = re.compile(r'_ZN\w*chrono\w*3nowEv$')
BADI = re.compile(r'llvm\.(x86\.(rd|sse\.(ld|st)mxcsr|rd)|readcyclecounter|readsteadycounter|returnaddress|frameaddress|addressofreturnaddress|get\.(rounding|fpenv|fpmode)|set\.(rounding|fpenv|fpmode)|reset\.fp|read_register|thread\.pointer)')
BADG = re.compile(r'^(_ZSt4cout|_ZSt4cerr|_ZSt4clog|_ZSt3cin|_ZSt5wcout|_ZSt5wcerr|stdout|stderr|stdin|environ|__environ|signgam|timezone|tzname|optarg)$')
def demangle(names):
    names = list(names)
    if not names: return {}
    r = subprocess.run(['llvm-cxxfilt-18'] if shutil.which('llvm-cxxfilt-18') else ['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))
class Unit:
    """optimised textual IR of one unit, kept line by line with its debug locations"""
    def __init__(self, C, name, src, flags=(), path=None):
        ll = os.path.join(C.tmp, name + '.ll')
        if path is None:
            path = os.path.join(C.tmp, name + '.cxx')
            with open(path, 'w') as f: f.write(PRE + src)
        r = subprocess.run(['clang++', '-std=c++17', '-g1', '-O2', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-I' + os.path.join(REPO, 'include'), *flags, '-S', '-emit-llvm', path, '-o', ll], capture_output=True, text=True)
        if r.returncode: raise CheckError(f'unit {name} does not compile against the current headers:\n' + r.stderr[-2000:])
        self.name = name; self.globals, self.decl, self.fns, self.calls = [], [], {}, []; self.md = {}; cur = None
        for line in open(ll, errors='replace'):
            c = line[0]
            if c == '@':
                m = re.match(r'@("[^"]+"|[\w.$]+) = ([^\[{]*?)\b(global|constant|alias)\b', line[:400])
                if m: self.globals.append((m[1].strip('"'), m[2], m[3]))
            elif line.startswith('define'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', line); cur = m[1].strip('"'); self.fns[cur] = []
                d = re.search(r'!dbg (!\d+)', line); self.fns[cur].append(line)
            elif c == '}': cur = None
            elif line.startswith('declare'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', line); self.decl.append(m[1].strip('"'))
            elif c == '!':
                m = re.match(r'(!\d+) = (.*)', line)
                if m and len(line) < 2000: self.md[m[1]] = m[2]
            elif cur: self.fns[cur].append(line)
        os.remove(ll)
    def where(self, line):
        m = re.search(r'!dbg (!\d+)', line); out = []
        loc = m and m[1]
        while loc and loc in self.md and len(out) < 12:
            t = self.md[loc]; ln = re.search(r'line: (\d+)', t); sc = re.search(r'scope: (!\d+)', t)
            sub = sc and sc[1]; k = 0
            while sub and 'DISubprogram' not in self.md.get(sub, '') and k < 20:
                n = re.search(r'scope: (!\d+)', self.md.get(sub, '')); sub = n and n[1]; k += 1
            t2 = self.md.get(sub, ''); nm = re.search(r'name: "([^"]*)"', t2); fi = re.search(r'file: (!\d+)', t2); fn = fi and re.search(r'filename: "([^"]*)"', self.md.get(fi[1], ''))
            out.append((fn[1] if fn else '', int(ln[1]) if ln else 0, nm[1] if nm else ''))
            ia = re.search(r'inlinedAt: (!\d+)', t); loc = ia and ia[1]
        return out
    def users(self, name):
        pat = re.compile(r'@"?' + re.escape(name) + r'"?(?![\w.$])')
        for f, lines in self.fns.items():
            for l in lines:
                if pat.search(l): yield f, l
def place(stack, f):
    for file, line, nm in stack:
        if 'integratorxx' in file or '/src/' in file: return f"{file.split('include/')[-1]}:{line} ({nm})"
    return f
def kind(n):
    if n.startswith('llvm.'): return 'bad' if BADI.match(n) else 'ok'
    if CLOCK.match(n): return 'clock'
    if n in BADC or any(r.match(n) for r in BADRE): return 'bad'
    if n in OKC or any(r.match(n) for r in OKRE) or re.match(r'(sink|uf|vf)_', n): return 'ok'
    return None
def analyse(C, name, src, flags=(), path=None):
    U = Unit(C, name, src, flags, path)
    for f, lines in U.fns.items(): C.fns.add(f)
    dm = demangle([n for n in U.decl if not n.startswith('llvm.')])
    for n in U.decl:
        k = kind(n)
        if k == 'ok': C.ok(); continue
        for f, l in U.users(n):
            if l.startswith('define'): continue
            at = place(U.where(l), f)
            if k == 'clock':
                m = re.match(r'\s*(%[\w.]+) = ', l)
                used = [x for x in U.fns[f] if m and re.search(re.escape(m[1]) + r'(?![\w.])', x) and x is not l]
                if m and used: C.violation('clock', at, f'{at}: the clock reading of {dm.get(n, n)} is used ({used[0].strip()[:120]})', at)
                else: C.ok()
            elif k == 'bad': C.violation('effects', f'{dm.get(n, n)} at {at}', f'{at}: reaches {dm.get(n, n)}, which depends on or changes state outside the arguments', at)
            else: raise Unknown(f'{at}: external function {dm.get(n, n)} is not classified')
    gd = demangle([n for n, a, k in U.globals])
    for n, attr, k in U.globals:
        if BADG.match(n):
            for f, l in U.users(n):
                at = place(U.where(l), f); C.violation('effects', f'{n} at {at}', f'{at}: uses {gd.get(n, n)}', at); break
        C.ok()
    for f, lines in U.fns.items():
        for l in lines:
            if re.search(r'\bcall\b.* asm ', l) and '"=r,0' not in l and 'asm sideeffect ""' not in l and 'asm ""' not in l:
                at = place(U.where(l), f); C.violation('effects', f'inline assembly at {at}', f'{at}: inline assembly', at)
        C.ok()
    C.samples.append(f'{name}: {len(U.fns)} functions, {len(U.decl)} external functions, {len(U.globals)} globals')
    return [(n, gd.get(n, n)) for n, attr, k in U.globals if k == 'global' and 'external' not in attr]
def variables(C):
    src = os.path.join(C.tmp, 'all.cxx')
    with open(src, 'w') as f: f.write(PRE + ALL)
    r = subprocess.run(['clang++', '-std=c++17', '-w', '-fsyntax-only', '-I' + os.path.join(REPO, 'include'), '-Xclang', '-load', '-Xclang', os.path.join(ROOT, 'build', 'astq.so'), '-Xclang', '-plugin', '-Xclang', 'astq', src], capture_output=True, text=True)
    if r.returncode: raise CheckError('the headers do not compile together:\n' + r.stderr[-1500:])
    vs = [v for v in map(json.loads, r.stdout.splitlines()) if 'fn' not in v]
    if len(vs) < 100: raise CheckError('constant tables not found')
    ok = set()
    for v in vs:
        at = f"{v['file'].split('include/')[-1]}:{v['line']}"; nm = v['name']
        if not v['const']: C.violation('state', f'{nm} ({at})', f"{at}: {nm} is modifiable and outlives the call ({'thread-local' if v['tls'] else 'static'})", at)
        elif v['depends']: C.violation('state', f'{nm} ({at})', f"{at}: {nm} keeps the value of {', '.join(v['depends'])} of the first call for all later calls", at)
        elif v['mut']: C.violation('state', f'{nm} ({at})', f'{at}: {nm} is constant but gives access to modifiable storage that outlives the call', at)
        else: C.ok(); ok.add(v['short'])
    C.cov['static_variables'] = len(vs)
    return ok
# ---------------------------------------------------------------- arguments stay as they were, a second construction gives the same
ARGS = MOCK + '''
#include <integratorxx/batch/spherical_micro_batcher.hpp>
extern "C" void sink_q(int, const double*, size_t, const double*, size_t);
template <class Q> static void show(int t, const Q& q) { sink_q(t, (const double*)q.points().data(), q.points().size(), q.weights().data(), q.weights().size()); }
extern "C" void drv_product(size_t n, size_t m, double x, double y, double z) { RQ r(1, n); AQ a(2, m); { SQ s(r, a, pt3{x, y, z}); s.recenter(pt3{z, y, x}); } show(0, r); show(1, a); SQ t(r, a, pt3{x, y, z}); show(2, t); show(0, r); show(1, a); }
extern "C" void drv_pruned(size_t n, size_t m, double x, double y, double z) { RQ r(1, n); AQ a(2, m); GP g(r, (size_t)0, a); { PQ s(r, g, pt3{x, y, z}); s.recenter(pt3{z, y, x}); } show(0, r); show(1, a); PQ t(r, g, pt3{x, y, z}); show(2, t); show(0, r); show(1, a); }
extern "C" void drv_copies(size_t n, size_t m, double x, double y, double z) { RQ r(1, n); AQ a(2, m); SQ s(r, a, pt3{x, y, z}); { SQ c(s); c.recenter(pt3{z, y, x}); auto d = s.clone(); d->recenter(pt3{z, y, x}); SphericalMicroBatcher<std::vector<pt3>, std::vector<double>> b(5, s, std::vector<size_t>{0, n * m}); b.recenter(pt3{z, y, x}); } show(0, r); show(1, a); show(2, s); }
'''
def arguments(C, mod, fn):
    lab = 'arguments of ' + fn[4:]
    def body(I, cell, S):
        I.call(fn, [S['n'], S['m']] + [T_('sym', c) for c in 'xyz'])
        n, m = S['n'], S['m']; size = {0: n, 1: m, 2: pmul(n, m)}; out = []
        i = cell.add_root('i', 0, psub(n, 1)); j = cell.add_root('j', 0, psub(m, 1)); slot = {0: i, 1: j, 2: padd(i, pmul(j, n))}
        for nm, a, snap, inst in I.sinks:
            t = a[0]; d = 1 if t == 0 else 3
            ok = cell.decide_eq(psub(a[2], size[t])) and cell.decide_eq(psub(a[4], size[t]))
            out.append((t, ok, ok and [read_at(I, a[1].o, snap, padd(a[1].off, padd(pmul(8*d, slot[t]), 8*x))) for x in range(d)] + [read_at(I, a[3].o, snap, padd(a[3].off, pmul(8, slot[t])))], locs_of(a[1].o)))
        return out
    for cell, I, r in C.explore(mod, fn, body, roots=[('n', 1, 2**20), ('m', 1, 2**20)]):
        if isinstance(r, Abort): C.violation('arguments', lab, f'{lab}: fails ({describe_abort(r)})', r.loc); continue
        re_ = renv_of('xyz')
        for k, (t, ok, v, loc) in enumerate(r):
            what = ('radial rule', 'angular rule', 'grid')[t]
            if not ok: C.violation('arguments', f'{lab} {what}', f'{lab}: the {what} changed its size (observation {k})', loc); continue
            def want(en, e, s, x):
                if t == 0: return (rp if x == 0 else rw)(1, en['i'], s)
                if t == 1: return ap(2, en['j'], s)[x] if x < 3 else aw(2, en['j'], s)
                if x == 3: return rw(1, en['i'], s) * aw(2, en['j'], s) * rp(1, en['i'], s)**2
                return e['xyz'[x]] + rp(1, en['i'], s) * ap(2, en['j'], s)[x]
            for x, term in enumerate(v): C.expect_term(term, lambda en, e, s: want(en, e, s, x), cell, f'{lab}: {what} (observation {k})', 'arguments', loc, renv=re_, samples=4, rtol=mp.mpf(10)**-20, atol=mp.mpf(10)**-20)
def run(C):
    amod = C.module('args', ARGS)
    units = [('fac', p03.FAC), ('prim', p04.SRC), ('gl', p05.SRC), ('rad', p06.SRC), ('prod', p07.SRC), ('pr', MOCK + p08.drv(2)), ('rec', p09.SRC), ('copies', p13.SRC), ('bound', p19.SRC), ('batch', BATCH)]
    units += [('s2' + f, s2lib.HEAD + s2lib.src_gen(f) + s2lib.src_look(f)) for f in s2lib.FAM]
    srcs = sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith(('.cxx', '.cpp', '.cc')))
    if not srcs: raise CheckError('no library sources')
    jobs = [lambda n=n, s=s: analyse(C, n, s) for n, s in units] + [lambda f=f: analyse(C, 'lib_' + f, '', path=os.path.join(REPO, 'src', f)) for f in srcs] + [lambda fn=fn: arguments(C, amod, fn) for fn in ('drv_product', 'drv_pruned', 'drv_copies')] + [lambda: variables(C)]
    res = C.parallel(jobs[::-1]); ok = res[0]
    for g in res[1:]:
        for n, d in g or []:
            if n.startswith(('_ZGV', '_ZStL8__ioinit', '__dso_handle', '_ZSt')) or n.startswith('llvm.') or '.' in d and not d.startswith('_'): continue
            if ok is not None and re.split(r'::|\[', d)[-1].strip('"') in ok: continue
            C.violation('state', d, f'{d}: modifiable data that outlives the call')
    C.finish('Every static or thread-storage variable of the headers and sources (templates as written) and every external function, global and inline assembly reachable in the optimised IR of the library sources and of drivers instantiating all rules, grids, factories, copies and batching; arguments and sources of copies re-read after use, sizes, slots and contents symbolic.')
if __name__ == '__main__': main(C, run)
