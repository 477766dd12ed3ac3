"""Common machinery of the checks: compile a driver unit against /repo's current headers, export its IR,
run the abstract interpreter, compare value terms with an oracle, write evidence, report."""
import os, sys, subprocess, tempfile, shutil, time, json, random, traceback, hashlib, atexit
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
import mpmath as mp
mp.mp.dps = 50
from interp import *
import interp as _interp
from concurrent.futures import ThreadPoolExecutor

PRE = '''#include <cmath>
#include <memory>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <cassert>
#include <tuple>
#include <limits>
#include <vector>
#include <array>
#include <string>
#include <utility>
#include <cstdint>
#include <cstddef>
'''
CXX = ['clang++', '-std=c++17', '-g1', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-w']

class CheckError(Exception): pass

class Check:
    def __init__(self, pid, level='other', rule=''):
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = os.environ.get('VERIF_TIER', 'quick'); self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(self.seed)
        self.t0 = time.time(); self.viol = []; self.known = []; self.unk = []
        self.cov = {}; self.nobl = 0; self.ndis = 0; self.samples = []; self.assumptions = []
        self.fns = set(); self.cells = 0; self.evals = 0; self.lines = set()
        self.tmp = tempfile.mkdtemp(prefix='verif-' + pid + '-')
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        try: self.findings = [f for f in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings'] if f['property'] == pid]
        except FileNotFoundError: self.findings = []
    # ------------------------------------------------------------------ building
    def bitcode(self, name, src, flags=(), pre=True):
        cxx = os.path.join(self.tmp, name + '.cxx'); bc = os.path.join(self.tmp, name + '.bc')
        with open(cxx, 'w') as f: f.write((PRE if pre else '') + src)
        r = subprocess.run(CXX + list(flags) + ['-I' + os.path.join(REPO, 'include'), '-c', '-emit-llvm', cxx, '-o', bc], capture_output=True, text=True)
        if r.returncode: raise CheckError(f'driver {name} does not compile against the current headers:\n' + r.stderr[-3000:])
        return bc
    def module(self, name, src, flags=(), keep=(), passes=None, entry=None, cap=None):
        out = os.path.join(self.tmp, name + '.json')
        dev = os.environ.get('VERIF_DEVCACHE')       # development only: reuse an exported unit while the sources are unchanged
        if dev:
            h = hashlib.sha256(repr((PRE, src, flags, keep, passes, entry, cap, CXX)).encode())
            h.update(open(os.path.join(ROOT, 'build', 'irx'), 'rb').read())
            for d, _, fs in sorted(os.walk(os.path.join(REPO, 'include'))):
                for f in sorted(fs): h.update(open(os.path.join(d, f), 'rb').read())
            os.makedirs(dev, exist_ok=True); out = os.path.join(dev, h.hexdigest()[:24] + '.json')
            if os.path.exists(out): return Module(out)
        bc = self.bitcode(name, src, flags)
        cmd = [os.path.join(ROOT, 'build', 'irx'), bc, out]
        for k in keep: cmd += ['--keep', k]
        if passes: cmd += ['--passes', passes]
        if cap: cmd += ['--cap', str(cap)]
        if entry: cmd += ['--entry', entry]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise CheckError('IR export failed: ' + r.stderr[-2000:])
        return Module(out)
    def compiles(self, head, wits, flags=()):
        """for each (name, code) None if it compiles, else the first error; `@` in the code is a unique suffix"""
        def one(tag, code, pre=True):
            cxx = os.path.join(self.tmp, tag + '.cxx')
            with open(cxx, 'w') as f: f.write((PRE if pre else '') + head + code)
            r = subprocess.run(['clang++', '-std=c++17', '-w', '-fsyntax-only', *flags, '-I' + os.path.join(REPO, 'include'), cxx], capture_output=True, text=True)
            if not r.returncode: return None
            return next((l.split('/include/')[-1] for l in r.stderr.split('\n') if 'error:' in l), 'error')[:300]
        if one('witness', '\n'.join(c.replace('@', f'_{k}') for k, (n, c) in enumerate(wits))) is None: return [None] * len(wits)
        e = one('witness-head', '')
        if e: raise CheckError(f'witness preamble does not compile: {e}')
        with ThreadPoolExecutor(8) as ex: return list(ex.map(lambda t: one(f'witness{t[0]}', t[1][1].replace('@', '')), enumerate(wits)))
    def modules(self, specs):
        with ThreadPoolExecutor(8) as ex:
            return dict(zip([s[0] for s in specs], ex.map(lambda s: self.module(*s[:2], **(s[2] if len(s) > 2 else {})), specs)))
    # ------------------------------------------------------------------ analysis
    def explore(self, mod, fn, body, roots=(), pre=(), maxcells=4000):
        """body(I, cell, syms) runs the driver; returns list of (cell, I, result)"""
        if fn not in mod.fns: raise CheckError(f'driver entry {fn} vanished')
        self.note_fn(mod, fn)
        def one(cell):
            I = Interp(mod, cell)
            S = {}
            for nm, lo, hi in roots: S[nm] = cell.add_root(nm, lo, hi)
            for p in pre: cell.assume(p(S))
            try: r = body(I, cell, S)
            except Abort as a: r = a
            return I, r
        out = []
        for c, (I, r) in explore(Cell(), one, maxcells=maxcells):
            self.cells += 1
            out.append((c, I, r))
        if not out: raise CheckError(f'{fn}: empty exploration')
        return out
    def note_fn(self, mod, fn):
        """source functions whose (inlined) instructions make up the analysed entry"""
        seen = getattr(mod, 'noted', set()); mod.noted = seen
        if fn in seen: return
        seen.add(fn); stack = [fn]
        while stack:
            f = mod.fns.get(stack.pop())
            if f is None: continue
            for b in f.blocks.values():
                for i in b:
                    for file, line, name in i.get('l') or ():
                        if 'integratorxx' in file: self.fns.add(f"{file.split('include/')[-1]}: {name}")
                    c = i.get('callee')
                    if c and c[0] == 'g' and c[1] in mod.fns and c[1] not in seen: seen.add(c[1]); stack.append(c[1])
    # ------------------------------------------------------------------ obligations
    def ok(self, n=1): self.nobl += n; self.ndis += n
    def violation(self, rule, instance, msg, loc=None):
        self.nobl += 1
        for f in self.findings:
            if f['rule'] == rule and f['instance'] == instance and not str(f.get('status', '')).startswith('fixed'):
                if f not in self.known: self.known.append(f)
                return
        key = (rule, instance)
        if any((v['rule'], v['instance']) == key for v in self.viol): return
        self.viol.append(dict(rule=rule, instance=instance, message=msg, where=str(loc) if loc is not None else None))
        if _JOBS is not None:
            with open(os.path.join(self.tmp, 'early'), 'a') as f: f.write(json.dumps(self.viol[-1]) + '\n')
    def unknown(self, what): self.unk.append(what)
    def expect_term(self, term, oracle, cell, what, rule, loc=None, samples=None, rtol=mp.mpf(10) ** -10, atol=mp.mpf(10) ** -13, renv=None, hooks=None, extra=(), nontriv=None):
        """the value term must equal the oracle at random integer points of the cell (random interpretation)"""
        n = samples or (40 if self.thorough else 8)
        seen = set(); tested = 0
        for k in range(n):
            env = cell.sample(self.rng, extra=extra, big=400)
            if env is None: continue
            re = renv(self.rng, env) if callable(renv) else (renv or {})
            key = (tuple(sorted((a, b) for a, b in env.items() if not a.startswith('@'))))
            if key in seen and not renv: continue
            seen.add(key); tested += 1; self.evals += 1
            if term is UNDEF:
                got = None
            else:
                t = real(term)
                got = Eval(env, re, seed=k, hooks=hooks)(t)
            exp = oracle(env, re, k)
            if got is None or mp.isnan(got) or abs(got - exp) > rtol * abs(exp) + atol:
                self.violation(rule, what, f'{what}: at {dict((a,b) for a,b in env.items() if not a.startswith("fd(") )} value {"uninitialised" if got is None else mp.nstr(got, 17)} differs from {mp.nstr(exp, 17)}; term {show(term) if isinstance(term, T) else term!r}'[:3000], loc)
                return False
        if not tested and cell.empty(): return True
        if not tested: raise Unknown(f'{what}: no sample point in cell {cell.base}')
        self.ok()
        return True
    def no_aborts(self, I, cell, label, renv=None, samples=None):
        """conditions on real values under which the entry fails must be false at every sampled admissible input"""
        for n, sd in enumerate(I.side):
            cond, a = sd[0], sd[1]
            for k in range(samples or (60 if self.thorough else 16)):
                env = cell.sample(self.rng, big=400)
                if env is None: break
                re = renv(self.rng, env) if callable(renv) else (renv or {})
                try: bad = cond is True or isinstance(cond, T) and Eval(env, re, seed=k).cond(cond)
                except (Unknown, KeyError, NoExit): break
                if bad:
                    self.violation('total', f'{label}: fails for admissible values', f'{label}: fails ({describe_abort(a)}) at {dict((x, y) for x, y in env.items() if not x.startswith("fd("))}, {dict((x, mp.nstr(y, 8)) for x, y in re.items())}', a.loc)
                    break
            else: self.ok()
    # ------------------------------------------------------------------ independent obligations in parallel
    def parallel(self, jobs):
        """run independent pieces of the analysis in forked processes and merge what they report"""
        import multiprocessing
        global _JOBS
        _JOBS = (self, list(jobs))
        w = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)
        with multiprocessing.get_context('fork').Pool(w) as pool:
            todo = [pool.apply_async(_job, (k,)) for k in range(len(_JOBS[1]))]; pool.close(); first = None
            while not all(t.ready() for t in todo):
                time.sleep(0.02); now = time.time()
                if first is None and os.path.exists(os.path.join(self.tmp, 'early')): first = now
                if now - self.t0 > (6 * 3600 if self.thorough else 780) or first and now - first > 180: break       # a violation is known, or no time is left: settle with what is decided
            blank = lambda: dict(viol=[], known=[], unk=['not decided within the time available'], samples=[], fns=set(), nobl=0, ndis=0, cells=0, evals=0, ret=None)
            res = [t.get() if t.ready() else blank() for t in todo]
            if os.path.exists(os.path.join(self.tmp, 'early')): res[-1]['viol'] = res[-1]['viol'] + [json.loads(l) for l in open(os.path.join(self.tmp, 'early')) if l.endswith('\n')]
            pool.terminate()
        for r in res:
            for v in r['viol']:
                if not any((x['rule'], x['instance']) == (v['rule'], v['instance']) for x in self.viol): self.viol.append(v)
            self.known += [f for f in r['known'] if f not in self.known]
            self.unk += r['unk']; self.samples += r['samples']; self.fns |= r['fns']
            for k in ('nobl', 'ndis', 'cells', 'evals'): setattr(self, k, getattr(self, k) + r[k])
        return [r['ret'] for r in res]
    # ------------------------------------------------------------------ finish
    def finish(self, explanation, **extra):
        wall = time.time() - self.t0
        cov = dict(explanation=explanation, rule=self.rule, functions_analysed=len(self.fns), cells=self.cells, obligations=self.nobl, discharged=self.ndis,
                   evaluations=self.evals, samples=self.samples[:12])
        cov['functions'] = sorted(f for f in self.fns)[:60]
        cov.update(self.cov); cov.update(extra)
        if self.unk: cov['undecided'] = [str(u)[:400] for u in self.unk[:20]]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.viol))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        for f in self.known: print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        if self.viol:
            rp = os.path.join('evidence', self.pid + '.violations.txt')
            with open(os.path.join(ROOT, rp), 'w') as f:
                for v in self.viol: f.write(f"rule {v['rule']}\n  where: {v['where']}\n  instance: {v['instance']}\n  {v['message']}\n\n")
            for v in self.viol[:10]: print(f"[{v['rule']}] {v['where'] or ''} {v['message'][:600]}")
            print(f'VIOLATION property={self.pid} replay={rp}')
            sys.exit(1)
        if self.unk:
            print(f'{self.pid}: NO ANSWER: ' + '; '.join(str(u)[:300] for u in self.unk[:5])); sys.exit(2)
        if self.nobl == 0: print(f'{self.pid}: NO ANSWER: nothing was analysed'); sys.exit(2)
        print(f'{self.pid}: held ({self.ndis}/{self.nobl} obligations, {self.cells} cells, {len(self.fns)} functions, {wall:.1f}s)')
        sys.exit(0)

_JOBS = None
def _job(k):
    C, jobs = _JOBS
    C.viol = []; C.known = []; C.unk = []; C.samples = []; C.fns = set(); C.nobl = C.ndis = C.cells = C.evals = 0
    C.rng = random.Random(f'{C.seed}/{k}'); ret = None
    try: ret = jobs[k]()
    except (Unknown, CheckError, StepLimit) as e:
        C.unk.append(f'{type(e).__name__}: {e}')
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    except Exception as e: traceback.print_exc(); C.unk.append(f'internal error {e!r}')
    return dict(viol=C.viol, known=C.known, unk=[str(u) for u in C.unk], samples=C.samples[:6], fns=C.fns, nobl=C.nobl, ndis=C.ndis, cells=C.cells, evals=C.evals, ret=ret)
def main(check, fn):
    try: fn(check)
    except (Unknown, CheckError, StepLimit) as e:
        check.unknown(f'{type(e).__name__}: {e}')
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        check.finish('analysis incomplete')
    except SystemExit: raise
    except Exception as e:
        traceback.print_exc(); check.unknown(f'internal error {e!r}'); check.finish('analysis incomplete')

def locs_of(o):
    out = []
    for e in o.log:
        if e.loc and e.loc not in out and ('integratorxx' in e.loc): out.append(e.loc)
    return '; '.join(out[-3:]) or None

def describe_abort(a): return f'{a.kind}: {a.info} at {a.loc}'
