from lib import *
C = Check('P12', rule='resolution of a name, as a function of its length and of every byte, accepts exactly the documented names in any case')
SRC = '''
#include <integratorxx/generators/impl/impl.hpp>
#include <integratorxx/quadratures/all.hpp>
using namespace IntegratorXX;
template class std::basic_string<char>;
extern "C" char ufi_ch(size_t); extern "C" void sink_r(int64_t);
static std::string text(size_t n){ std::string s(n, 'x'); for(size_t i = 0; i < n; ++i) s[i] = ufi_ch(i); return s; }
extern "C" void drv_radial(size_t n){ sink_r((int64_t)radial_from_string(text(n))); }
extern "C" void drv_angular(size_t n){ sink_r((int64_t)angular_from_string(text(n))); }
#define TY(NM, KIND, ...) extern "C" void drv_t_##NM(){ sink_r((int64_t)KIND<__VA_ARGS__>()); }
TY(becke, radial_from_type, Becke<double,double>) TY(mk, radial_from_type, MuraKnowles<double,double>) TY(mhl, radial_from_type, MurrayHandyLaming<double,double>) TY(ta, radial_from_type, TreutlerAhlrichs<double,double>)
TY(beckef, radial_from_type, Becke<float,float>) TY(mkf, radial_from_type, MuraKnowles<float,float>) TY(mhlf, radial_from_type, MurrayHandyLaming<float,float>) TY(taf, radial_from_type, TreutlerAhlrichs<float,float>)
TY(ab, angular_from_type, AhrensBeylkin<double>) TY(de, angular_from_type, Delley<double>) TY(ll, angular_from_type, LebedevLaikov<double>) TY(wo, angular_from_type, Womersley<double>)
TY(abf, angular_from_type, AhrensBeylkin<float>) TY(def, angular_from_type, Delley<float>) TY(llf, angular_from_type, LebedevLaikov<float>) TY(wof, angular_from_type, Womersley<float>)
TY(other, radial_from_type, GaussLegendre<double,double>) TY(otherang, radial_from_type, Womersley<double>) TY(other2, angular_from_type, GaussLegendre<double,double>) TY(otherrad, angular_from_type, Becke<double,double>)
#define EN(NM, V) extern "C" void drv_e_##NM(){ sink_r((int64_t)V); }
EN(becke, RadialQuad::Becke) EN(mk, RadialQuad::MuraKnowles) EN(mhl, RadialQuad::MurrayHandyLaming) EN(ta, RadialQuad::TreutlerAhlrichs)
EN(ab, AngularQuad::AhrensBeylkin) EN(de, AngularQuad::Delley) EN(ll, AngularQuad::LebedevLaikov) EN(wo, AngularQuad::Womersley)
'''
NAMES = {'radial': {'BECKE': 'becke', 'MURAKNOWLES': 'mk', 'MK': 'mk', 'MURRAYHANDYLAMING': 'mhl', 'MHL': 'mhl', 'TREUTLERAHLRICHS': 'ta', 'TA': 'ta'},
         'angular': {'AHRENSBEYLKIN': 'ab', 'AB': 'ab', 'DELLEY': 'de', 'LEBEDEVLAIKOV': 'll', 'LEBEDEV': 'll', 'LL': 'll', 'WOMERSLEY': 'wo'}}
TYPES = dict(becke='becke', mk='mk', mhl='mhl', ta='ta', beckef='becke', mkf='mk', mhlf='mhl', taf='ta', ab='ab', de='de', ll='ll', wo='wo', abf='ab', llf='ll', wof='wo', other=None, otherang=None, other2=None, otherrad=None)
TYPES['def'] = 'de'
def sets(I, cell, n):
    """bytes allowed at each position by the constraints of the path (the constraints are separable)"""
    out = [set(range(256)) for _ in range(n)]
    for c in cell.cons:
        b = I.btab(c)
        if b is None: raise Unknown(f'path condition {c!r} relates several bytes')
        if b[0] is None:
            if b[1][0] < 0: return None
            continue
        k = int(b[0][3:-1])
        out[k] &= {j for j in range(256) if b[1][j] >= 0}
    return None if any(not s for s in out) else out
def variants(name): return [{ord(c.upper()) + 128, ord(c.lower()) + 128} for c in name]
def text(ss):
    return ''.join(chr(min(s, key=lambda j: (not 0x20 <= j - 128 < 0x7f, j)) - 128) if any(0x20 <= j - 128 < 0x7f for j in s) else f'\\x{(min(s) - 128) & 255:02x}' for s in ss)
def run(C):
    mod = C.module('names', SRC)
    def const(fn):
        def body(I, cell, S):
            I.call(fn, [])
            if len(I.sinks) != 1: raise CheckError('result not observed')
            return I.sinks[0][1][0]
        rs = C.explore(mod, fn, body)
        if len(rs) != 1: raise Unknown(f'{fn}: {len(rs)} outcomes')
        return rs[0][2]
    ENUM = {k: const('drv_e_' + k) for k in ('becke', 'mk', 'mhl', 'ta', 'ab', 'de', 'll', 'wo')}
    for d in (('becke', 'mk', 'mhl', 'ta'), ('ab', 'de', 'll', 'wo')):
        if len({ENUM[k] for k in d}) != 4: C.violation('distinct', d[0], f'enumerators coincide: { {k: ENUM[k] for k in d} }')
        else: C.ok()
    for t, e in TYPES.items():
        r = const('drv_t_' + t)
        if e is None:
            if not isinstance(r, Abort): C.violation('type', t, f'from_type of a type that is no scheme of that kind ({t}) returns {r:#x} instead of throwing')
            else: C.ok()
        elif isinstance(r, Abort) or r != ENUM[e]: C.violation('type', t, f'from_type<{t}> gives {describe_abort(r) if isinstance(r, Abort) else hex(r)}, not {ENUM[e]:#x}')
        else: C.ok()
    top = 96 if C.thorough else 40
    for kind, names in NAMES.items():
        fn = 'drv_' + kind; hit = {}
        for n in range(0, top + 1):
            def body(I, cell, S):
                I.call(fn, [n])
                if len(I.sinks) != 1: raise CheckError('result not observed')
                return I.sinks[0][1][0]
            for cell, I, r in C.explore(mod, fn, body):
                ss = sets(I, cell, n)
                if ss is None: continue          # no text takes this path
                C.evals += 1
                ab = isinstance(r, Abort)
                if ab and r.kind != 'throw': C.violation('refusal', f'{kind}:{text(ss)!r}', f'{kind} name {text(ss)!r} is not refused by an exception: {describe_abort(r)}', r.loc); continue
                if not ab and not isinstance(r, int): raise Unknown(f'{fn}: result {r!r}')
                m = [s for s in names if len(s) == n and all(a & b for a, b in zip(ss, variants(s)))]
                if ab:
                    for s in m: C.violation('accept', f'{kind}:{s}', f'{kind} scheme name {text([a & b for a, b in zip(ss, variants(s))])!r} is refused ({describe_abort(r)})', r.loc)
                    if not m: C.ok()
                    continue
                if len(m) != 1 or not all(a <= b for a, b in zip(ss, variants(m[0]))):
                    w = [a - b if (a - b) else a for a, b in zip(ss, variants(m[0]))] if len(m) == 1 else ss
                    C.violation('refuse', f'{kind}:{text(w)!r}', f'{kind} scheme name {text(w)!r} is accepted as {r:#x}, but is not a documented name', mod_loc(mod, fn)); continue
                if r != ENUM[names[m[0]]]: C.violation('meaning', f'{kind}:{m[0]}', f'{kind} scheme name {m[0]} resolves to {r:#x} instead of {ENUM[names[m[0]]]:#x}', mod_loc(mod, fn)); continue
                tot = 1
                for a in ss: tot *= len(a)
                hit[m[0]] = hit.get(m[0], 0) + tot
                C.ok()
        for s in names:
            letters = 2 ** len(s)
            if hit.get(s, 0) != letters:
                C.violation('accept', f'{kind}:{s}', f'{kind} scheme name {s}: {hit.get(s, 0)} of its {letters} upper/lower case spellings are accepted', mod_loc(mod, fn))
            else: C.ok(); C.samples.append(f'{kind} {s}: all {letters} spellings -> {ENUM[names[s]]:#x}')
    C.assumptions.append('toupper/tolower behave as in the C locale (the library does not set a locale)')
    C.finish(f'Both resolution functions analysed for texts of every length 0..{top} with every byte symbolic (all 256 values): the paths partition the texts, accepting paths are compared with the documented names in every spelling, all other paths must throw. Resolution by type for all scheme types (double and float) and for types that are no scheme.', lengths=top, names=sorted(NAMES['radial']) + sorted(NAMES['angular']))
def mod_loc(mod, fn):
    for b in mod.fns[fn].blocks.values():
        for i in b:
            for file, line, nm in i.get('l') or ():
                if '_from_string' in nm: return f"{file.split('include/')[-1]}:{line} {nm}"
if __name__ == '__main__': main(C, run)
