"""C01: base-field arithmetic is exact modulo p and canonical, for all limb patterns."""
import random, time
from ..prog import load, MissingAnchor
from ..words import *
from ..interp import Interp
from ..ring import modulus, nlimbs
from ..report import where
from ..fieldmodels import UNIT
RULE = ('With limbs as indeterminates, every output limb is an integer polynomial in the inputs, carries and quotients; the multi-word total must be congruent modulo p to the defined operation '
        '(in Montgomery form) and lie in [0, p) in every case of the final conditional addition, by flattening the carry chain into the quotient of the multi-word total and bounding it.')
FE = 'festa_rs::fields::FpFESTA::'
FPT = FE + 'Fp'

class WS:
    """one analysis session"""
    def __init__(s, P):
        s.P = P; s.D = WordDom(P); s.I = Interp(P, s.D); s.I.model_fns.append(word_models(s.I))
        s.p = modulus(P); s.N = nlimbs(P); s.R = 1 << (64 * s.N)
        s.D.session = s; s.err = None
    def elem(s, name):
        ws, t = s.D.number(name, s.N, s.p - 1)
        return Agg('s', None, 0, (arr(ws),)), t
    def fresh(s, T):
        """a canonical element of which only the residue is known"""
        D = s.D; n = len(D.syms)
        ws, t = D.number('r%d' % n, s.N, s.p - 1)
        y = D.syms[next(iter(t))[0]]; y.kind = 'res'; y.T = D.modred(T, s.p)
        return Agg('s', None, 0, (arr(ws),))
    def ref(s, v): return s.I.ref(v)
    def limbs(s, v):
        v = s.D.A.top(v)
        if isinstance(v, Ite):
            a = s.limbs(v.t); b = s.limbs(v.e)
            return [s.D.A.mk(v.a, x, y) for x, y in zip(a, b)]
        return [x for x in v.f[0].f] if len(v.f) == 1 else list(v.f)
    def call(s, fn, *a): return s.I.exec_fn(fn, list(a))
    def panics(s):
        e = [x for x in s.I.events if x.kind == 'panic']
        return 'may panic: %r' % e[0] if e else None
    def res(s, v, want, num=1):
        return s.D.residue(s.limbs(v), want, num, s.p) or s.panics()

def run(R_):
    P = load()
    R_.assume += ['operands are canonical (the type invariant every constructor and operation establishes; decoding is C09)']
    jobs, nops = obligations(P)
    R_.floor('operator implementations', nops, 20)
    R_.parallel(jobs)
    R_.extra.update(functions_analysed=len(jobs))

def obligations(P, extra_models=None):
    def WS(P, C=globals()['WS']):
        S = C(P)
        if extra_models: S.I.model_fns.insert(0, extra_models(S.I))
        return S
    jobs = []
    def ob(key, fn, f):
        try: w = where(fn)
        except Exception: w = ''
        jobs.append((key, f, w))
    def meth(n): return P.one(FPT + '::' + n)
    BIN = {'add': lambda a, b: (padd(a, b), 1), 'sub': lambda a, b: (padd(a, b, -1), 1), 'mul': lambda a, b: (pmul(a, b), 0)}
    # ---- operators in every form
    ops = [f for f in P.fn.values() if f.path.startswith('<') and ' as std::ops::' in f.path and FPT in f.path.split(' as ')[0].replace('FpFESTAExt', '')]
    seen = {}
    for f in ops:
        selfty, tr = f.path[1:].split(' as std::ops::')
        if selfty.lstrip('&').split('::')[-1] != 'Fp' or 'FpFESTA::Fp' not in selfty: continue
        m = tr.rsplit('::', 1)[-1]
        if m.startswith('div'): continue
        base = m.replace('_assign', '')
        if base == 'neg':
            def g(f=f):
                S = WS(P); a, A = S.elem('a')
                return S.res(S.call(f, a if f.path[1] != '&' else S.ref(a)), pscale(A, -1))
        elif base in BIN:
            def g(f=f, m=m, base=base):
                S = WS(P); a, A = S.elem('a'); b, B = S.elem('b')
                want, one = BIN[base](A, B); num = 1 if one else S.R
                ra = S.ref(a)
                byref = [P.ty[f.locals[k]]['t'] == 'ref' for k in (1, 2)]
                r = S.call(f, ra if byref[0] else a, S.ref(b) if byref[1] else b)
                return S.res(S.I.load(ra) if m.endswith('_assign') else r, want, num)
        else: continue
        seen[base] = seen.get(base, 0) + 1
        ob('op:' + f.path.replace('festa_rs::fields::FpFESTA::', ''), f, g)
    # ---- methods taking &mut self and their by-value forms
    UN = {'neg': (lambda A: pscale(A, -1), 1), 'square': (lambda A: pmul(A, A), 0), 'half': (lambda A: A, 2),
          'mul2': (lambda A: pscale(A, 2), 1), 'mul3': (lambda A: pscale(A, 3), 1), 'mul4': (lambda A: pscale(A, 4), 1), 'mul8': (lambda A: pscale(A, 8), 1)}
    for n, (w, num) in UN.items():
        for pre in ('set_', ''):
            if n == 'neg' and not pre: continue
            def g(n=n, pre=pre, w=w, num=num):
                S = WS(P); a, A = S.elem('a'); ra = S.ref(a); f = meth(pre + n)
                if n in ('mul3', 'mul4', 'mul8'): contracts(S)
                r = S.call(f, ra if pre else a)
                return S.res(S.I.load(ra) if pre else r, w(A), num or S.R)
            ob('method:' + pre + n, _try(meth, pre + n), g)
    for base in BIN:
        def g(base=base):
            S = WS(P); a, A = S.elem('a'); b, B = S.elem('b'); ra = S.ref(a)
            want, one = BIN[base](A, B)
            S.call(meth('set_' + base), ra, S.ref(b))
            return S.res(S.I.load(ra), want, 1 if one else S.R)
        if _try(meth, 'set_' + base): ob('method:set_' + base, _try(meth, 'set_' + base), g)
    for n, sg in (('sum_of_products', 1), ('difference_of_products', -1)):
        def g(n=n, sg=sg):
            S = WS(P); e = [S.elem(x) for x in ('a1', 'b1', 'a2', 'b2')]; t = [x[1] for x in e]
            r = S.call(meth(n), *[S.ref(x[0]) for x in e])
            return S.res(r, padd(pmul(t[0], t[1]), pmul(t[2], t[3]), sg), S.R)
        ob('method:' + n, _try(meth, n), g)
    # ---- integers
    for n, bits, sg in (('from_u32', 32, 0), ('from_u64', 64, 0), ('from_i32', 32, 1), ('from_i64', 64, 1)):
        for part in (('nonneg', 'neg') if sg else ('nonneg',)):
            def g(n=n, bits=bits, sg=sg, part=part):
                S = WS(P); D = S.D; f = meth(n)
                x = D.inp('x', *((0, (1 << bits - sg) - 1) if part == 'nonneg' else (1, 1 << bits - 1)))
                if part == 'neg': x = W(pscale(x.p, -1), -x.hi, -x.lo)
                return S.res(S.call(f, x), pscale(x.p, S.R % S.p))
            ob('convert:%s:%s' % (n, part), _try(meth, n), g)
    for pre in ('set_', ''):
        for part in ('nonneg', 'neg'):
            def g(pre=pre, part=part):
                S = WS(P); D = S.D; f = meth(pre + 'mul_small'); a, A = S.elem('a'); ra = S.ref(a)
                k = D.inp('k', *((0, (1 << 31) - 1) if part == 'nonneg' else (1, 1 << 31)))
                if part == 'neg': k = W(pscale(k.p, -1), -k.hi, -k.lo)
                if not pre: contracts(S, only=('set_mul_small',))
                elif part == 'neg':
                    # the sign adjustment is decided by its own obligations; its operand must be the canonical product by |k|
                    def model(fn):
                        if fn.path != FPT + '::set_condneg': return None
                        def m(I, fn, v, info):
                            if v[1] != 0xFFFFFFFF: raise Unsupported('sign control')
                            e = D.residue(S.limbs(I.load(v[0])), pscale(pmul(A, k.p), -1), 1, S.p)
                            if e: S.err = e
                            I.store(v[0], S.fresh(pmul(A, k.p))); return UNIT
                        return m
                    S.I.model_fns.insert(0, model)
                r = S.call(f, ra if pre else a, k)
                return S.err or S.res(S.I.load(ra) if pre else r, pmul(A, k.p))
            ob('method:%smul_small:%s' % (pre, part), _try(meth, pre + 'mul_small'), g)
    # ---- tests and selections
    def zero_is(S, v, t):
        """v must be all-ones exactly when every word of t is zero"""
        if S.panics(): return S.panics()
        D = S.D; ok = all(D.A.desc[a] == ('allzero', t) for cube, leaf in D.A.leaves(v) for a, b in cube)
        if not ok:
            # the dependence is not literally the one prescribed: look for a point at which the extracted mask is wrong
            D.P_ = S.p; rnd = random.Random(1); num = [y for y in D.syms if y.kind == 'in' and y.num and y.num[1] == 0]
            for i in range(S.N):
                for d in (1, 1 << 31, 1 << 32, 1 << 63, rnd.randrange(1 << 64), 1 << 63 | 1 << 127, 1 | 1 << 64, 1 << 63 | 1 << 191, (1 << 64) - 1 | 1 << 64):
                    d = d << 64 * i
                    if d > S.p - 1: continue
                    for base in ((0,) if len(num) == 1 else (0, rnd.randrange(S.p - d), S.p - 1 - d)):
                        fix = dict(zip([y.id for y in num], [base + d, base]))
                        val = D.valuation(rnd, fix)
                        for w, want in ((val, 0), (D.valuation(rnd, {y.id: (base if len(num) > 1 else 0) for y in num}), 0xFFFFFFFF)):
                            if D.word(D.pick(v, w), w) & 0xFFFFFFFF != want: return 'the mask is not %#x at %s' % (want, ', '.join('%s=%#x' % (y.name, w[y.id]) for y in num))
            raise Unsupported('unexpected condition')
        for cube, leaf in D.A.leaves(v):
            if leaf != (0xFFFFFFFF if cube[0][1] else 0): return 'the mask is %r when the words are %szero' % (leaf, '' if cube[0][1] else 'not all ')
        if not isinstance(S.D.A.top(v), Ite): return 'the result does not depend on the value'
        return S.panics()
    def iszero():
        S = WS(P); a, A = S.elem('a')
        return zero_is(S, S.call(meth('iszero'), a), frozenset(a.f[0].f))
    ob('test:iszero', _try(meth, 'iszero'), iszero)
    def equals():
        S = WS(P); a, A = S.elem('a'); b, B = S.elem('b')
        return zero_is(S, S.call(meth('equals'), a, S.ref(b)), frozenset(Xo(frozenset([x, y])) for x, y in zip(a.f[0].f, b.f[0].f)))
    ob('test:equals', _try(meth, 'equals'), equals)
    for ctl in (0, 0xFFFFFFFF):
        def pick(S, v, want):
            for i, (x, y) in enumerate(zip(S.limbs(v), want.f[0].f)):
                if not (x == y): return 'limb %d is not the limb of the selected operand' % i
            return S.panics()
        def sel(ctl=ctl):
            S = WS(P); a, A = S.elem('a'); b, B = S.elem('b')
            return pick(S, S.call(meth('select'), S.ref(a), S.ref(b), ctl), b if ctl else a)
        ob('select:select:%x' % ctl, _try(meth, 'select'), sel)
        def ssel(ctl=ctl):
            S = WS(P); a, A = S.elem('a'); b, B = S.elem('b'); c, C = S.elem('c'); r = S.ref(c)
            S.call(meth('set_select'), r, S.ref(a), S.ref(b), ctl)
            return pick(S, S.I.load(r), b if ctl else a)
        ob('select:set_select:%x' % ctl, _try(meth, 'set_select'), ssel)
        def cond(ctl=ctl):
            S = WS(P); a, A = S.elem('a'); b, B = S.elem('b'); r = S.ref(a)
            S.call(meth('set_cond'), r, S.ref(b), ctl)
            return pick(S, S.I.load(r), b if ctl else a)
        ob('select:set_cond:%x' % ctl, _try(meth, 'set_cond'), cond)
        def swap(ctl=ctl):
            S = WS(P); a, A = S.elem('a'); b, B = S.elem('b'); r = S.ref(a); q = S.ref(b)
            S.call(meth('condswap'), r, q, ctl)
            return pick(S, S.I.load(r), b if ctl else a) or pick(S, S.I.load(q), a if ctl else b)
        ob('select:condswap:%x' % ctl, _try(meth, 'condswap'), swap)
        def cneg(ctl=ctl):
            S = WS(P); a, A = S.elem('a'); r = S.ref(a)
            S.call(meth('set_condneg'), r, ctl)
            return S.res(S.I.load(r), pscale(A, -1 if ctl else 1))
        ob('select:set_condneg:%x' % ctl, _try(meth, 'set_condneg'), cneg)
    def hashcode():
        S = WS(P); a, A = S.elem('a')
        r = S.call(meth('hashcode'), a)
        return None if any(r == x for x in a.f[0].f) else 'the hash code is not a function of the canonical limbs'
    ob('hashcode', _try(meth, 'hashcode'), hashcode)
    return jobs, sum(seen.values())

def _try(f, n):
    try: return f(n)
    except Exception: return None

def contracts(S, only=None):
    """replace the in-place operations, each decided by its own obligation, by their contract"""
    D = S.D; p = S.p
    inv = pow(S.R, -1, p)
    def tot(v):
        T = {}
        for i, w in enumerate(S.limbs(v)): T = padd(T, D.W_(w).p, 1 << 64 * i)
        return T
    fresh = S.fresh
    C = {'set_mul2': lambda a: pscale(a, 2), 'set_half': lambda a: pscale(a, pow(2, -1, p)), 'set_neg': lambda a: pscale(a, -1),
         'set_square': lambda a: pscale(pmul(a, a), inv),
         'set_add': lambda a, b: padd(a, b), 'set_sub': lambda a, b: padd(a, b, -1), 'set_mul': lambda a, b: pscale(pmul(a, b), inv)}
    def model(fn):
        b = fn.path.rsplit('::', 1)[-1]
        if fn.path == FPT + '::' + b and (only is None or b in only) and b in C:
            def m(I, fn, a, info):
                I.store(a[0], fresh(C[b](*[tot(I.load(x)) for x in a]))); return UNIT
            return m
        if fn.path == FPT + '::set_mul_small' and only and b in only:
            def m(I, fn, a, info):
                I.store(a[0], fresh(pmul(tot(I.load(a[0])), D.W_(a[1]).p))); return UNIT
            return m
    S.I.model_fns.insert(0, model)
