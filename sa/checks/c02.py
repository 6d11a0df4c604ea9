"""C02: the extension-field operations are the operations of F_p[i]/(i^2+1)."""
from ..prog import load
from ..harness import *
from ..report import where
RULE = ('Abstract interpretation of the MIR of every extension-field operation with base-field operands as indeterminates '
        '(base operations replaced by their C01 contracts); the resulting pair of rational functions must equal the defining one on every case of the '
        'zero/non-zero partition of the operands.')

def cmul(x, y): return (x[0]*y[0] - x[1]*y[1], x[0]*y[1] + x[1]*y[0])
def cadd(x, y): return (x[0]+y[0], x[1]+y[1])
def csub(x, y): return (x[0]-y[0], x[1]-y[1])
def cneg(x): return (-x[0], -x[1])
def cinv(x):
    n = (x[0]*x[0] + x[1]*x[1]).inv()
    return (x[0]*n, -(x[1]*n))
def cscale(k): return lambda x: (x[0].scale(k), x[1].scale(k))
Q = 'festa_rs::fields::FpFESTAExt::Fp2'

class S(Sess):
    def __init__(s, P):
        Sess.__init__(s, P, 'fp')
        s.ty = P.adt('FpFESTAExt::Fp2')
    def el(s, n): return (s.sym(n + '0'), s.sym(n + '1'))
    def agg(s, x): return Agg('s', s.ty, 0, (x[0], x[1]))
    def norm(s, x): return (x[0]*x[0] + x[1]*x[1])
    def nz(s, x): s.D.nonzero.append(s.norm(x).n)

def zero(s): return (s.c(0), s.c(0))
UN = {'neg': cneg, 'conj': lambda x: (x[0], -x[1]), 'square': lambda x: cmul(x, x), 'mul2': cscale(2), 'mul3': cscale(3), 'mul4': cscale(4), 'mul8': cscale(8)}

def run(Rp):
    P = load()
    Rp.assume.append('base-field contracts (C01), constants (C08)')
    def fns(): return [f for f in P.fn.values() if f.local and f.blocks and Q in f.path]
    nmeth = 0
    def m(name): return P.one('FpFESTAExt::Fp2::' + name)
    def have(name): return len(P.find('FpFESTAExt::Fp2::' + name)) == 1
    # constants
    def const_check():
        want = {'ZERO': (0, 0), 'ONE': (1, 0), 'TWO': (2, 0), 'THREE': (3, 0), 'FOUR': (4, 0), 'MINUS_ONE': (-1, 0), 'ZETA': (0, 1), 'MINUS_ZETA': (0, -1)}
        s = S(P)
        n = 0
        for k, (re, im) in want.items():
            c = P.consts.get(Q + '::' + k)
            if c is None: continue
            v = s.I.decode(c['ty'], c['a'], 0)
            n += 1
            e = s.equal(v, s.agg((s.c(re), s.c(im))), what=k)
            Rp.check(e is None, 'const:' + k, Q, e)
        Rp.floor('constants', n, 6)
    const_check()
    def value_fn(f, s, args):
        """run f; result is the returned value, or the first operand afterwards for in-place methods"""
        r = s.exec(f, *args)
        return r
    def inplace(f):
        t = P.ty[f.locals[0]]
        return t['t'] == 'tuple' and not t['f']
    # unary
    for k, ex in UN.items():
        for form in ('set_' + k, k):
            if not have(form):
                continue
            f = m(form); nmeth += 1
            def go():
                s = S(P); a = s.el('a')
                if P.ty[f.locals[1]]['t'] == 'ref':
                    r = s.ref(s.agg(a)); o = s.exec(f, r); v = s.load(r) if inplace(f) else o
                else: v = s.exec(f, s.agg(a))
                return s.equal(v, s.agg(ex(a)))
            Rp.attempt('identity:' + form, go, where(f))
    # half: twice the result is the operand
    for form in ('set_half', 'half'):
        f = m(form); nmeth += 1
        def go():
            s = S(P); a = s.el('a')
            r = s.ref(s.agg(a)); o = s.exec(f, r if inplace(f) else s.agg(a)); v = s.load(r) if inplace(f) else o
            return s.equal(v, s.agg(cscale(s.D.half)(a)))
        Rp.attempt('identity:' + form, go, where(f))
    # inversion, division
    def cases2(s, b):
        return None
    for form in ('set_invert', 'invert'):
        f = m(form); nmeth += 1
        for case in ('zero', 'nonzero', 'real', 'imag'):
            def go():
                s = S(P); a = {'zero': zero(s), 'nonzero': s.el('a'), 'real': (s.sym('a0'), s.c(0)), 'imag': (s.c(0), s.sym('a1'))}[case]
                if case != 'zero':
                    s.nz(a)
                r = s.ref(s.agg(a)); o = s.exec(f, r if inplace(f) else s.agg(a)); v = s.load(r) if inplace(f) else o
                return s.equal(v, s.agg(zero(s) if case == 'zero' else cinv(a)))
            Rp.attempt('identity:%s/%s' % (form, case), go, where(f))
    # binary methods
    BIN = {'add': cadd, 'sub': csub, 'mul': cmul}
    for form, op in (('set_add', 'add'), ('set_sub', 'sub'), ('set_mul', 'mul'), ('set_mul_old', 'mul'), ('mul_old', 'mul'), ('mul_new', 'mul')):
        if not have(form): continue
        f = m(form); nmeth += 1
        for alias in (0, 1):
            def go():
                s = S(P); a = s.el('a'); b = a if alias else s.el('b')
                args = []
                for i, t in enumerate(f.locals[1:1 + f.argc]):
                    v = s.agg(a if i == 0 else b)
                    args.append(s.ref(v) if P.ty[t]['t'] == 'ref' else v)
                o = s.exec(f, *args)
                v = s.load(args[0]) if inplace(f) else o
                return s.equal(v, s.agg(BIN[op](a, b)))
            Rp.attempt('identity:%s%s' % (form, '/same operand' if alias else ''), go, where(f))
    if have('set_div'):
        f = m('set_div'); nmeth += 1
        for case in ('zero', 'nonzero'):
            def go():
                s = S(P); a = s.el('a'); b = zero(s) if case == 'zero' else s.el('b')
                if case != 'zero': s.nz(b)
                r = s.ref(s.agg(a)); s.exec(f, r, s.ref(s.agg(b)))
                return s.equal(s.load(r), s.agg(zero(s) if case == 'zero' else cmul(a, cinv(b))))
            Rp.attempt('identity:set_div/%s' % case, go, where(f))
    # operators in all their forms
    nop = 0
    for f in fns():
        mm = __import__('re').match(r'^<(&?)%s as std::ops::(Add|Sub|Mul|Div|Neg)(Assign)?(?:<(&?)%s>)?>::\w+$' % (Q, Q), f.path)
        if not mm: continue
        nop += 1
        op = mm.group(2).lower()
        for case in (('zero', 'nonzero') if op == 'div' else ('',)):
            def go():
                s = S(P); a = s.el('a'); b = s.el('b')
                if case == 'zero': b = zero(s)
                if case == 'nonzero': s.nz(b)
                args = []
                for i, t in enumerate(f.locals[1:1 + f.argc]):
                    v = s.agg(a if i == 0 else b)
                    args.append(s.ref(v) if P.ty[t]['t'] == 'ref' else v)
                o = s.exec(f, *args)
                v = s.load(args[0]) if mm.group(3) else o
                e = {'add': lambda: cadd(a, b), 'sub': lambda: csub(a, b), 'mul': lambda: cmul(a, b), 'neg': lambda: cneg(a),
                     'div': lambda: zero(s) if case == 'zero' else cmul(a, cinv(b))}[op]()
                for i, t in enumerate(f.locals[1:1 + f.argc]):
                    if P.ty[t]['t'] == 'ref' and not (mm.group(3) and i == 0):
                        x = s.equal(s.load(args[i]), s.agg(a if i == 0 else b), what='operand %d' % i)
                        if x: return x
                return s.equal(v, s.agg(e))
            Rp.attempt('operator:%s%s' % (f.path.replace(Q, 'Fp2'), '/' + case if case else ''), go, where(f))
    Rp.floor('operators', nop, 25)
    # small integer multiples: the integer is an indeterminate
    for form in ('set_mul_small', 'mul_small'):
        f = m(form); nmeth += 1
        def go():
            s = S(P); a = s.el('a'); k = s.sym('k')
            r = s.ref(s.agg(a)); o = s.exec(f, r if inplace(f) else s.agg(a), SInt(k)); v = s.load(r) if inplace(f) else o
            return s.equal(v, s.agg((a[0]*k, a[1]*k)))
        Rp.attempt('identity:' + form, go, where(f))
    # comparisons and selections
    def mk(s, cond): return s.A.app1(lambda b: MASK1 if b else 0, cond)
    def go():
        f = m('iszero'); s = S(P); a = s.el('a'); v = s.exec(f, s.agg(a))
        e = s.A.ite(s.D.zero_cond(a[0]), mk(s, s.D.zero_cond(a[1])), 0)
        return s.equal(v, e)
    Rp.attempt('predicate:iszero', go, where(m('iszero')))
    def go():
        f = m('equals'); s = S(P); a = s.el('a'); b = s.el('b'); v = s.exec(f, s.agg(a), s.ref(s.agg(b)))
        e = s.A.ite(s.D.zero_cond(a[0] - b[0]), mk(s, s.D.zero_cond(a[1] - b[1])), 0)
        return s.equal(v, e)
    Rp.attempt('predicate:equals', go, where(m('equals')))
    for f in fns():
        if f.path.endswith('as std::cmp::PartialEq>::eq') and f.path.startswith('<' + Q):
            def go():
                s = S(P); a = s.el('a'); b = s.el('b'); v = s.exec(f, s.ref(s.agg(a)), s.ref(s.agg(b)))
                e = s.A.ite(s.D.zero_cond(a[0] - b[0]), s.D.zero_cond(a[1] - b[1]), 0)
                return s.equal(v, e)
            Rp.attempt('predicate:eq', go, where(f)); nmeth += 1
    for form in ('select', 'set_select', 'set_cond', 'set_condneg', 'condswap'):
        f = m(form); nmeth += 1
        for ctl in (0, 1):
            def go():
                s = S(P); a = s.el('a'); b = s.el('b'); A, B = s.agg(a), s.agg(b)
                k = MASK1 if ctl else 0
                if form == 'select': return s.equal(s.exec(f, s.ref(A), s.ref(B), k), B if ctl else A)
                if form == 'set_select':
                    r = s.ref(s.agg(s.el('x'))); s.exec(f, r, s.ref(A), s.ref(B), k); return s.equal(s.load(r), B if ctl else A)
                if form == 'set_cond':
                    r = s.ref(A); s.exec(f, r, s.ref(B), k); return s.equal(s.load(r), B if ctl else A)
                if form == 'set_condneg':
                    r = s.ref(A); s.exec(f, r, k); return s.equal(s.load(r), s.agg(cneg(a)) if ctl else A)
                r, q = s.ref(A), s.ref(B); s.exec(f, r, q, k)
                return s.equal(s.load(r), B if ctl else A) or s.equal(s.load(q), A if ctl else B)
            Rp.attempt('select:%s/%d' % (form, ctl), go, where(f))
    def go():
        f = m('legendre'); s = S(P); a = s.el('a'); seen = []
        def leg(I, fn, args, info):
            seen.append(s.D.fv(args[0])); return Opaque('legendre')
        s.FM.extra['legendre'] = leg
        v = s.exec(f, s.agg(a))
        if len(seen) != 1 or not isinstance(v, Opaque): raise Unsupported('not the symbol of the norm')
        # the norm up to a non-zero square factor
        return s.equal(seen[0], s.norm(a), what='argument of the base-field symbol')
    Rp.attempt('legendre: symbol of the norm', go, where(m('legendre'))); nmeth += 1
    Rp.floor('methods', nmeth, 25)
    # batch inversion
    f = m('batch_invert')
    full = Rp.tier == 'thorough'
    pats = []
    sizes = [0, 1, 2, 3, 5, 199, 200, 201, 202, 400, 401] + ([403, 601, 1000] if full else [])
    for n in sizes:
        pats.append((n, ()))
        if n: pats.append((n, tuple(range(n))))
        if n > 2: pats.append((n, (0, n - 1))); pats.append((n, (n // 2,)))
        if n >= 200: pats.append((n, tuple(range(0, n, 2)))); pats.append((n, (199,))); pats.append((n, (198, min(n-1, 200))))
    for n, zs in pats:
        Rp.attempt('batch_invert/n=%d/zero entries %s' % (n, zs if len(zs) < 4 else '%d of them' % len(zs)), lambda: batch(P, f, n, set(zs)), where(f))
        
class Mono:
    """product of powers of independent non-zero elements"""
    __slots__ = ('e',)
    def __init__(s, e): s.e = frozenset(e.items()) if isinstance(e, dict) else e
    def __eq__(s, o): return isinstance(o, Mono) and s.e == o.e
    def __hash__(s): return hash(s.e)
    def mul(s, o, k=1):
        d = dict(s.e)
        for i, x in o.e:
            v = d.get(i, 0) + k * x
            if v: d[i] = v
            else: d.pop(i, None)
        return Mono(d)
    def __repr__(s): return '*'.join('x%d^%d' % t for t in sorted(s.e)[:6]) or '1'
ONE = Mono({})
def batch(P, f, n, zs):
    """multiplicative-group domain: entries are independent units x_i or exact zeros"""
    from ..ring import Dom
    D = Dom(); D.P = P; D.level = 'fp2'
    ft = P.adt('FpFESTAExt::Fp2')
    p = modulus(P); mi = pow(1 << 64 * nlimbs(P), -1, p)
    def lift(T, v):
        if T['id'] != ft: return v
        c = [sum(x << 64 * k for k, x in enumerate(c.f[0].f)) * mi % p for c in v.f]
        if c == [0, 0]: return 'Z'
        if c == [1, 0]: return ONE
        raise Unsupported('constant')
    D.lift_const = lift; D.mkadt = lambda T, v: lift(T, v) if T['id'] == ft else v
    I = Interp(P, D, fuel=30000000)
    def fv(r):
        while isinstance(r, Ref): r = I.load(r)
        if r != 'Z' and not isinstance(r, Mono): raise Unsupported('value %r' % (r,))
        return r
    def mul(x, y, k=1):
        if x == 'Z' or y == 'Z': return 'Z'
        return x.mul(y, k)
    import re
    def mf(fn):
        p_ = fn.path
        if not p_.startswith(('festa_rs::fields::FpFESTAExt::Fp2::', '<festa_rs::fields::FpFESTAExt::Fp2 as', '<&festa_rs::fields::FpFESTAExt::Fp2 as')): return None
        k = p_.rsplit('::', 1)[1]
        if k in ('mul', 'mul_old', 'mul_new'): return lambda I, fn, a, i: mul(fv(a[0]), fv(a[1]))
        if k == 'div': return lambda I, fn, a, i: mul(fv(a[0]), fv(a[1]), -1)
        if k == 'square': return lambda I, fn, a, i: mul(fv(a[0]), fv(a[0]))
        if k == 'invert': return lambda I, fn, a, i: mul(ONE, fv(a[0]), -1)
        def st(g):
            def h(I, fn, a, i):
                I.store(a[0], g(*a)); return tup()
            return h
        if k == 'set_invert': return st(lambda x: mul(ONE, fv(x), -1))
        if k in ('mul_assign', 'set_mul'): return st(lambda x, y: mul(fv(x), fv(y)))
        if k in ('div_assign', 'set_div'): return st(lambda x, y: mul(fv(x), fv(y), -1))
        if k == 'iszero': return lambda I, fn, a, i: MASK1 if fv(a[0]) == 'Z' else 0
        if k == 'equals': return lambda I, fn, a, i: MASK1 if fv(a[0]) == fv(a[1]) else 0
        if k == 'eq': return lambda I, fn, a, i: int(fv(a[0]) == fv(a[1]))
        def sel(x, y, c):
            if type(c) is not int: raise Unsupported('mask')
            c &= MASK1
            if c not in (0, MASK1): raise Unsupported('mask value')
            return fv(y) if c else fv(x)
        if k == 'set_cond': return st(lambda x, y, c: sel(x, y, c))
        if k == 'select': return lambda I, fn, a, i: sel(*a)
        if k == 'set_select': return st(lambda r, x, y, c: sel(x, y, c))
        return None
    I.model_fns.append(mf)
    v = I.ref(vec(['Z' if i in zs else Mono({i: 1}) for i in range(n)]))
    I.exec_fn(f, [Ref(v.cell, (), (0, n))])
    out = I.mem[v.cell].f
    for i in range(n):
        w = 'Z' if i in zs else Mono({i: -1})
        if out[i] != w: return 'entry %d of %d becomes %r instead of %s' % (i, n, out[i], '0' if w == 'Z' else 'its inverse')
    return None
