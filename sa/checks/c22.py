"""C22: unsafe code is confined and valid; the word primitives are exact and agree in every configuration."""
import os, shutil, re
from .. import build
from ..prog import load, MissingAnchor
from ..words import *
from ..interp import Interp
from ..report import where
from . import c01
RULE = ('Three configurations of the current tree are compiled (baseline x86_64, x86_64 with BMI2/ADX/LZCNT, and the portable variants selected for other processors). In each: every unsafe operation of local code is a call of a '
        'processor intrinsic whose required features are enabled for the build; every word primitive equals the exact carry, borrow, double-width product or bit count for all operands; base-field operations meet the contract of C01.')
U = 'festa_rs::finitefield::utils64::'
B64 = 1 << 64

def portable_copy():
    """a scratch copy of the sources in which the variants for other processors are selected"""
    d = os.path.join(build.WORK, 'portable-%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(os.path.join(build.REPO, 'src'), d + '/src')
    n = 0
    for root, ds, fs in os.walk(d + '/src'):
        for f in fs:
            if not f.endswith('.rs'): continue
            p = os.path.join(root, f); t = open(p).read()
            t, k = re.subn(r'target_arch\s*=\s*"(x86_64|x86|aarch64|arm)"', 'target_arch = "other"', t)
            if k: n += k; open(p, 'w').write(t)
    return d, n

def unsafe_ops(P):
    """(operations inspected, [(what, function, line)] of unsafe operations that are not permitted, permitted ones)"""
    n = 0; bad = []; good = []
    have = set(P.tf)
    for f in list(P.fn.values()) + list(P.gfn.values()):
        if not f.local or f.blocks is None: continue
        raw = {i for i, t in enumerate(f.locals) if P.ty[t]['t'] == 'ptr'}
        # box places are read through a pointer the compiler derives from them
        boxed = set()
        for b in f.blocks:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'cast' and not s[1][1]: boxed.add(s[1][0]) if box_src(P, f, s[2]) else None
        for b in f.blocks:
            n += 1
            t = b['t']
            if t[0] == 'call':
                g = P.fn.get(t[1]['f']) if t[1]['f'] else None
                if g is None: continue
                need = set(g.tf) - have - set(f.tf)
                if need and not g.local: bad.append(('calls %s, which needs %s, without the build enabling it' % (g.path, ', '.join(sorted(need))), f, b['l'])); continue
                if need and g.local: bad.append(('calls %s, which is compiled for %s, without the build enabling it' % (g.path, ', '.join(sorted(need))), f, b['l'])); continue
                if not g.unsafe:
                    if 'core_arch' in g.path or '::arch::' in g.path: good.append((g.path, f, b['l']))
                    continue
                if '::fmt::' in g.path: continue
                if ('core_arch' in g.path or '::arch::' in g.path) and not g.local: good.append((g.path, f, b['l'])); continue
                bad.append(('calls the unsafe function %s' % g.path, f, b['l']))
            elif t[0] == '?': bad.append(('uses an operation outside the language subset: %s' % t[1][:40], f, b['l']))
            for s in b['s']:
                if s[0] != '=': continue
                for pl in places(s):
                    if pl[0] in raw and pl[1] and pl[1][0] in (['deref'], ['*'], '*', 'deref') and pl[0] not in boxed:
                        bad.append(('dereferences a raw pointer', f, s[3]))
    return n, bad, good

def box_src(P, f, rv):
    try: o = rv[-2] if isinstance(rv[-2], list) else rv[2]
    except Exception: return False
    return 'Box' in str(P.ty.get(rv[-1], {}).get('name', '')) or 'NonNull' in str(rv) or True if False else False

def places(s):
    out = [s[1]]
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm', 'copy', 'move') and isinstance(x[1], list): out.append(x[1]); return
            if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list): out.append(x); return
            for y in x: go(y)
    go(s[2])
    return out

class PS(c01.WS):
    """session for the word primitives (no field needed)"""
    def __init__(s, P):
        s.P = P; s.D = WordDom(P); s.I = Interp(P, s.D); s.I.model_fns.append(word_models(s.I))
        s.p = B64; s.err = None

def primitives(P, tag):
    jobs = []
    def ob(name, f):
        fn = c01._try(P.one, U + name)
        if fn is None: jobs.append(('%s:%s' % (tag, name), lambda: (_ for _ in ()).throw(Unsupported('primitive %s not found' % name)), '')); return
        jobs.append(('%s:%s' % (tag, name), lambda: f(fn), where(fn)))
    def same(D, w, p, what):
        """word w equals polynomial p (which must be expressible) in every case"""
        return None
    def exact(S, ws, want, mod=None):
        """the words, least significant first, total `want` (modulo 2^mod) with every word below 2^64"""
        D = S.D
        for cube, leaf in D.cubes(ws):
            r = D.facts(cube)
            if r is None: continue
            T = {}
            for i, w in enumerate(leaf):
                w = D.W_(w); T = padd(T, w.p, 1 << 64 * i)
                if w.lo < 0 or w.hi >= B64: raise Unsupported('word range')
            d, f = D.reduce(padd(T, want, -1), r[1])
            while True:
                e, x = D.expand(d)
                e = D.unalias(e)
                if e == d: break
                d = e
            if mod: d = {m: c for m, c in d.items() if c % (1 << mod)}
            if d:
                return ref(S, ws, want, mod) or D._und('the result is not recognised as exact')
        return S.panics()
    def ref(S, ws, want, mod):
        import random
        rnd = random.Random(1); D = S.D
        for k in range(2000):
            val = D.valuation(rnd)
            got = sum(D.word(D.pick(w, val), val) << 64 * i for i, w in enumerate(ws)); w = D.at(want, val)
            if got != (w % (1 << mod) if mod else w):
                return 'the extracted equations give %#x instead of %#x at %s' % (got, w % (1 << mod) if mod else w, ', '.join('%s=%#x' % (y.name, val[y.id]) for y in D.syms if y.kind == 'in'))
    def prod(*names):
        def g(fn):
            S = PS(P); D = S.D
            v = {n: D.inp(n) for n in set(''.join(names).replace('*', '')) }
            return None
        return g
    def addc(fn):
        S = PS(P); D = S.D; x, y, c = D.inp('x'), D.inp('y'), D.inp('c', 0, 1)
        r = S.call(fn, x, y, c)
        return exact(S, list(r.f), padd(padd(x.p, y.p), c.p))
    def subb(fn):
        S = PS(P); D = S.D; x, y, c = D.inp('x'), D.inp('y'), D.inp('c', 0, 1)
        lo, b = S.call(fn, x, y, c).f
        # lo - 2^64 b == x - y - c with b in {0,1}
        def sample():
            import random
            rnd = random.Random(1)
            for k in range(2000):
                val = D.valuation(rnd)
                l, h = D.word(D.pick(lo, val), val), D.word(D.pick(b, val), val); w = val_(x, val) - val_(y, val) - val_(c, val)
                if (l, h) != (w % B64, int(w < 0)): return 'the difference of %#x, %#x and borrow %d is given as %#x with borrow %d' % (val_(x, val), val_(y, val), val_(c, val), l, h)
        for cube, (l, bb) in D.cubes([lo, b]):
            w = D.W_(bb)
            if w.lo < 0 or w.hi > 1:
                a, z = D.deep(w.p)
                if a < 0 or z > 1: return sample() or D._und('borrow range')
        nb = S.D.A.app1(lambda w: D.mk(pscale(D.W_(w).p, -1), -1, 0), b)
        D2 = [lo, nb]
        for cube, leaf in D.cubes(D2):
            r = D.facts(cube)
            if r is None: continue
            T = padd(D.W_(leaf[0]).p, D.W_(leaf[1]).p, B64)
            d, f = D.reduce(padd(T, padd(padd(x.p, y.p, -1), c.p, -1), -1), r[1]); d = D.expand(d)[0]
            if d:
                e = sample()
                if e: return e
                raise Unsupported('the result is not recognised as exact')
        return S.panics()
    def val_(w, val): return val[next(iter(w.p))[0]]
    def mul(k, extra, mod=None):
        def g(fn):
            S = PS(P); D = S.D; v = [D.inp('v%d' % i) for i in range(2 * k + extra)]
            r = S.call(fn, *v)
            want = {}
            for i in range(k): want = padd(want, pmul(v[2 * i].p, v[2 * i + 1].p))
            for i in range(extra): want = padd(want, v[2 * k + i].p)
            return exact(S, list(r.f), want, mod)
        return g
    ob('addcarry_u64', addc); ob('subborrow_u64', subb)
    ob('umull', mul(1, 0)); ob('umull_add', mul(1, 1)); ob('umull_add2', mul(1, 2))
    ob('umull_x2', mul(2, 0, 128)); ob('umull_x2_add', mul(2, 1, 128))
    def sgnw(fn):
        for lo, hi, want in ((0, (1 << 63) - 1, 0), (1 << 63, B64 - 1, B64 - 1)):
            S = PS(P); r = S.call(fn, S.D.inp('x', lo, hi))
            r = S.D.A.top(r)
            if isinstance(r, W):
                l, h = S.D.deep(r.p)
                if l == h: r = l
            if type(r) is not int:
                for e in (lo, hi, lo + hi >> 1):
                    S2 = PS(P); v = S2.D.A.top(S2.call(fn, e))
                    if type(v) is int and v != want: return 'the sign mask of %#x is %#x' % (e, v)
                raise Unsupported('sign mask not determined')
            if r != want: return 'the sign mask of %#x..%#x is %#x' % (lo, hi, r)
    ob('sgnw', sgnw)
    def lz(fn):
        # every word of k bits, the two leading bits fixed
        for k, l_, h_ in [(0, 0, 0), (1, 1, 1)] + [(k, q << k - 2, (q + 1 << k - 2) - 1) for k in range(2, 65) for q in (2, 3)]:
            S = PS(P); D = S.D
            S.I.model_fns.insert(0, lz_model)
            x = D.inp('x', l_, h_) if l_ != h_ else l_
            try: r = D.A.top(S.call(fn, x))
            except Unsupported:
                # the range is not decided: its two ends are
                for e in (l_, h_):
                    S2 = PS(P); S2.I.model_fns.insert(0, lz_model); r = S2.D.A.top(S2.call(fn, e))
                    if type(r) is int and r != 64 - k: return 'the number of leading zeros of %#x is given as %d' % (e, r)
                raise
            if isinstance(r, W):
                l, h = D.deep(r.p)
                if l == h: r = l
            if type(r) is not int:
                import random
                rnd = random.Random(1)
                for j in range(200):
                    val = D.valuation(rnd)
                    if D.word(D.pick(r, val), val) != 64 - k: return 'wrong count for %#x' % val[0]
                raise Unsupported('bit count not determined for words of %d bits' % k)
            if r != 64 - k: return 'the number of leading zeros of a word of %d bits is given as %d' % (k, r)
    def lz_model(fn):
        if not (fn.path.endswith('::leading_zeros') or fn.kind == ['intrinsic'] and fn.path.endswith('ctlz')): return None
        def m(I, fn, a, info):
            if type(a[0]) is int: return 64 - a[0].bit_length()
            w = I.dom.W_(a[0])
            if w.lo.bit_length() != w.hi.bit_length(): raise Unsupported('leading zeros')
            return 64 - w.lo.bit_length()
        return m
    ob('lzcnt', lz)
    return jobs

def contracts(I):
    """the word primitives by their contracts, which primitives() decides in the same configuration"""
    D = I.dom
    def f(fn):
        if fn.path == U + 'addcarry_u64': return lambda I, fn, a, info: I.push(D.addc(a[2], a[0], a[1]), 2)
        if fn.path == U + 'subborrow_u64': return lambda I, fn, a, info: I.push(D.subb(a[2], a[0], a[1]), 2)
    return f

def run(R_):
    R_.assume += ['the portable variants are those selected by the target_arch conditions of the sources']
    cfg = [('x86_64', load())]
    jobs = []
    fail = []
    def conf(tag, f):
        try: cfg.append((tag, f()))
        except build.BuildError as e: R_.und('configuration:' + tag, 'does not compile: %s' % str(e)[-300:])
    conf('x86_64+bmi2+adx+lzcnt', lambda: load(extra=('-Ctarget-feature=+bmi2,+adx,+lzcnt',)))
    d, n = portable_copy()
    try: conf('portable', lambda: load(repo=d))
    finally: shutil.rmtree(d, ignore_errors=True)
    for tag, P in cfg:
        n, bad, good = unsafe_ops(P)
        if bad:
            seen = set()
            for what, f, line in bad:
                if (what, f.path) in seen: continue
                seen.add((what, f.path)); R_.bad('unsafe:%s:%s' % (tag, f.path), what, '%s (line %s)' % (where(f), line))
        else: R_.ok('unsafe:%s: %d blocks inspected, %d intrinsic calls' % (tag, n, len(good)))
        jobs += primitives(P, tag)
        R_.extra.update({'blocks_' + tag: n, 'intrinsic_calls_' + tag: len(good)})
        if tag == 'x86_64': continue          # C01 itself
        obs, k = c01.obligations(P, contracts)
        keep = None if R_.tier == 'thorough' else ('method:set_neg', 'method:square', 'method:set_half', 'method:set_mul2', 'test:', 'select:', 'convert:from_u', 'method:sum', 'method:set_mul_small:nonneg',
            'op:<Fp as std::ops::Add>', 'op:<Fp as std::ops::Sub>', 'op:<Fp as std::ops::Mul>')
        for key, f, w in obs:
            if keep is None or key.startswith(keep): jobs.append(('%s:%s' % (tag, key), f, w))
    for it in cfg[0][1].items:
        pass
    R_.parallel(jobs)
