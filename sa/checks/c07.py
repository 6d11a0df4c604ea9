"""C07: exponentiation, square roots and fourth roots."""
from ..prog import load, MissingAnchor
from ..harness import *
from ..report import where
from ..interp import wrap
from .c05 import BitsV
RULE = ('Exponentiation is interpreted in the domain of powers x^E, E an integer polynomial in indeterminate exponent bits (joins of x^E and x^F under a bit b give x^(F+b(E-F))): the result must be E = the exponent, for the listed lengths. '
        'Base-field roots are interpreted in the domain of signed powers, exponents being compared modulo the order of x for x zero, a non-zero square or a non-square, with parities of canonical representatives as atoms. '
        'Extension-field roots are interpreted over indeterminate coordinates with root symbols: on success the result raised to the power must be the operand modulo the defining relations, and for operands given as squares (fourth powers) success is required.')
M64 = (1 << 64) - 1

# ------------------------------------------------------------------ powers with an exponent polynomial
class Pw:
    """x^E; E: {frozenset of atoms: integer}"""
    __slots__ = ('e',)
    def __init__(s, e): s.e = {k: v for k, v in e.items() if v}
    def __eq__(s, o): return isinstance(o, Pw) and s.e == o.e
    def __hash__(s): return hash(frozenset(s.e.items()))
    def __mul__(s, o):
        r = dict(s.e)
        for k, v in o.e.items(): r[k] = r.get(k, 0) + v
        return Pw(r)
    def __repr__(s): return 'x^(%d terms)' % len(s.e)

class PwAtoms(Atoms):
    def mk(s, a, t, e):
        if isinstance(t, Pw) and isinstance(e, Pw) and a not in s.asm:
            r = dict(e.e)
            for k, v in t.e.items(): r[k | {a}] = r.get(k | {a}, 0) + v
            for k, v in e.e.items(): r[k | {a}] = r.get(k | {a}, 0) - v
            return Pw(r)
        return Atoms.mk(s, a, t, e)

class PwDom(RingDom):
    def __init__(s, P, level):
        RingDom.__init__(s, P, level); s.A = PwAtoms()
    def leaf(s, x):
        if isinstance(x, Pw): return x
        raise Unsupported('not a power: %r' % (x,))
    def lift_const(s, T, v):
        r = RingDom.lift_const(s, T, v)
        if isinstance(r, R):
            if r == R(s.R.const(1)): return Pw({})
            raise Unsupported('constant in an exponentiation')
        return r
    def c(s, k):
        if k == 1: return Pw({})
        raise Unsupported('constant in an exponentiation')
    def inverse(s, x): raise Unsupported('inversion')
    def zero_cond(s, v): raise Unsupported('zero test of a power')

def bits_ops(D, expand=3):
    """machine words by their bits; words with few undetermined bits become decision diagrams over integers"""
    def fin(b):
        b = list(b)
        u = [i for i, x in enumerate(b) if type(x) is not int]
        if len(u) <= expand:
            r = sum(x << i for i, x in enumerate(b) if type(x) is int)
            for i in u: r = D.A.app2(lambda p, q, i=i: p + (q << i), r, b[i])
            return r
        return BitsV(b)
    def lift(v, n):
        if isinstance(v, BitsV): return (list(v.b) + [0] * n)[:max(n, len(v.b))]
        if type(v) is int: return [(v >> i) & 1 for i in range(n)]
        raise Unsupported('bits of %r' % (v,))
    def binop(op, a, b, bits, signed):
        op = op.replace('Unchecked', '')
        if op == 'Shr' and type(b) is int: return fin((lift(a, bits) + [0] * bits)[b:b + bits])
        if op == 'Shl' and type(b) is int: return fin(([0] * b + lift(a, bits))[:bits])
        if op in ('BitAnd', 'BitOr', 'BitXor') and not signed:
            x, y = lift(a, bits), lift(b, bits)
            f = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q}[op]
            return fin([D.A.app2(f, p, q) for p, q in zip(x, y)])
        if op in ('Eq', 'Ne'):
            x, y = lift(a, bits), lift(b, bits); r = 1
            for p, q in zip(x, y): r = D.A.ite(D.A.app2(lambda u, v: int(u == v), p, q), r, 0)
            return r if op == 'Eq' else D.A.app1(lambda z: 1 - z, r)
        if op in ('Lt', 'Le', 'Gt', 'Ge') and not signed:
            x, y = lift(a, bits), lift(b, bits); strict = op in ('Lt', 'Gt')
            if op in ('Gt', 'Ge'): x, y = y, x
            r = int(not strict)
            for p, q in zip(x, y): r = D.A.ite(D.A.app2(lambda u, v: int(u == v), p, q), r, D.A.app1(lambda v: v, q))
            return r
        if op in ('Div', 'Rem') and type(b) is int and b > 0 and b & (b - 1) == 0 and not signed:
            k = b.bit_length() - 1
            return binop('Shr', a, k, bits, 0) if op == 'Div' else binop('BitAnd', a, b - 1, bits, 0)
        raise Unsupported('%s on bits' % op)
    D.binop = binop
    def checked(op, a, b, bits, sg):
        if op in ('Shl', 'Shr') and type(b) is int: return tup(binop(op, a, b, bits, sg), int(not 0 <= b < bits))
        raise Unsupported('%s on bits' % op)
    D.checked = checked
    D.cast = lambda x, ob, osg, bits, sg: fin(lift(x, max(ob, bits))[:bits])
    D.unop = lambda op, x, bits, sg: fin([D.A.app1(lambda z: 1 - z, q) for q in lift(x, bits)]) if op == 'Not' else D.no_unop(op, x)
    def switch(c, vals):
        def f(v):
            if not isinstance(v, BitsV): return v
            o = max(vals) + 1; r = o
            for k in vals: r = D.A.ite(binop('Eq', v, k, 64, 0), k, r)
            return r
        return D.A.app1(f, c)
    D.switch = switch
    D.bits_fin = fin; D.bits_lift = lift

class BigSym:
    def __init__(s, bits, n): s.bits = bits; s.n = n

def bit_models(D):
    """leading zeros and the conversions of a big integer given by its bits"""
    def top_known(bs):
        k = len(bs)
        while k and bs[k - 1] == 0: k -= 1
        if k and bs[k - 1] != 1: raise Unsupported('length of a word not determined')
        return k
    def f(fn):
        p = fn.path
        if p.endswith('::leading_zeros') or p.endswith('ctlz') or p.endswith('ctlz_nonzero'):
            def g(I, fn, a, info):
                T = I.P.ty[fn.locals[1]] if fn.locals and len(fn.locals) > 1 else None
                w = 64 if 'u64' in p or 'usize' in p else 32 if 'u32' in p else 8 if 'u8' in p else None
                def h(v):
                    if type(v) is int: return w - v.bit_length()
                    return w - top_known(D.bits_lift(v, w))
                if w is None: raise Unsupported('leading zeros')
                return D.A.app1(h, D.A.top(a[0]))
            return g
        if p.endswith('::to_le_bytes') or p.endswith('::to_be_bytes'):
            w = 8 if 'u64' in p or 'usize' in p else 4 if 'u32' in p else 2 if 'u16' in p else None
            if w is None: return None
            def g(I, fn, a, info):
                v = D.A.top(a[0])
                if type(v) is int: r = list(v.to_bytes(w, 'little'))
                else:
                    bs = lift_any(D, v, 8 * w); r = [D.bits_fin(bs[8*k:8*k+8]) for k in range(w)]
                return arr(r if p.endswith('le_bytes') else r[::-1])
            return g
        if 'biguint::BigUint' in p or 'BigUint::' in p:
            def sym(I, a):
                x = a
                while isinstance(x, Ref): x = I.load(x)
                return x if isinstance(x, BigSym) else None
            def wrapm(h):
                def g(I, fn, a, info):
                    x = sym(I, a[0])
                    if x is None:
                        raise Unsupported('big integer')
                    return h(I, x)
                return g
            if p.endswith('::to_bytes_le'):
                return wrapm(lambda I, x: vec([D.bits_fin((list(x.bits) + [0] * 8)[8*k:8*k+8]) for k in range(max(1, (x.n + 7) // 8))]))
            if p.endswith('BigUint::bits'): return wrapm(lambda I, x: x.n)
            if p.endswith('::bit') and 'bits' not in p.rsplit('::', 1)[-1]:
                def g(I, fn, a, info):
                    x = sym(I, a[0]); i = a[1]
                    if x is None or type(i) is not int: raise Unsupported('bit')
                    return x.bits[i] if i < x.n else 0
                return g
            if p.endswith('::clone'): return wrapm(lambda I, x: x)
        return None
    return f

def lift_any(D, v, n):
    if isinstance(v, Ite):
        return [D.A.app1(lambda x, i=i: (x >> i) & 1, v) for i in range(n)]
    return (D.bits_lift(v, n) + [0] * n)[:n]

class PowS(Sess):
    def __init__(s, P, level):
        D = PwDom(P, level)
        Sess.__init__(s, P, level, dom=D)
        for k in ('pow', 'pow_small', 'pow_u64', 'pow_u64_vartime', 'pow_big'): pass
        fm = s.FM; m0 = fm.method
        fm.method = lambda k: None if 'pow' in k else m0(k)
        bits_ops(D); s.I.model_fns.insert(0, bit_models(D))
        s.T = P.adt('FpFESTAExt::Fp2' if level == 'fp2' else 'FpFESTA::Fp')
        s.x = Pw({frozenset(): 1})
    def var(s, i): return s.A.var(('bit', i))
    def bytes(s, bs):
        bs = list(bs) + [0] * (-len(bs) % 8)
        return [s.D.bits_fin(bs[8*k:8*k+8]) for k in range(len(bs) // 8)]
    def slice(s, by):
        b = s.ref(arr(by)); return Ref(b.cell, (), (0, len(by)))
    def want(s, bs):
        """exponent polynomial of sum bs[i] 2^i"""
        e = {}
        for i, b in enumerate(bs):
            if type(b) is int:
                if b: e[frozenset()] = e.get(frozenset(), 0) + (1 << i)
            else: k = frozenset([b.a]); e[k] = e.get(k, 0) + (1 << i)
        return Pw(e)
    def finish(s, r, bs):
        r = s.A.top(r)
        if not isinstance(r, Pw): raise Unsupported('result %r' % (r,))
        for e in s.I.events:
            if e.kind == 'panic': return 'may panic: %r' % e
        w = s.want(bs)
        if r == w: return None
        # an exponent where the two differ
        d = Pw({k: v for k, v in (list(r.e.items()))})
        d = Pw({k: r.e.get(k, 0) - w.e.get(k, 0) for k in set(r.e) | set(w.e)})
        if any(s.A.desc[a][0] != 'bit' for k in d.e for a in k): raise Unsupported('the exponent depends on %r' % (s.A.desc[a],))
        k = min(d.e, key=lambda k: (len(k), sorted(k)))        # setting exactly these bits makes the difference non-zero
        on = {a for a in k}
        val = lambda p: sum(v for q, v in p.e.items() if q <= on)
        return 'for the exponent with set bits %s the result is x^%d instead of x^%d' % (sorted(s.A.desc[a][1] for a in on), val(r), val(w))

def run_pow(S, fn, args, bs):
    """by value, or in place on the first argument"""
    inplace = S.P.ty[fn.locals[1]]['t'] == 'ref' and fn.path.rsplit('::', 1)[-1].startswith('set_')
    a0 = S.ref(S.x) if S.P.ty[fn.locals[1]]['t'] == 'ref' else S.x
    r = S.exec(fn, a0, *args)
    return S.finish(S.load(a0) if inplace else r, bs)

def pow_jobs(P, tier):
    jobs = []
    lens = list(range(0, 72)) + [127, 128, 129, 255, 256, 257, 511, 512, 513, 633, 634, 635, 1023, 1024, 1025, 1269, 1270, 1271, 1272, 1273, 1280]
    if tier == 'thorough': lens = list(range(0, 700)) + list(range(1200, 1340))
    for level, base in (('fp', FP), ('fp2', FP2)): pow_level(P, tier, jobs, lens, level, base)
    return jobs

def pow_level(P, tier, jobs, lens, level, base):
    def method(n):
        try: return P.one(base + '::' + n)
        except (MissingAnchor, KeyError): return None
    def add(n, cases):
        fn = method(n)
        if fn is None: return
        for tag, f in cases: jobs.append(('%s::%s:%s' % (base.rsplit('::', 1)[-1], n, tag), f(fn), where(fn)))
    def plain(Ls):
        def mk(fn):
            def g():
                for L in Ls:
                    for extra in (0, 1):
                        S = PowS(P, level); bs = [S.var(i) for i in range(L)]
                        pad = [S.var(1000000 + i) for i in range(-L % 8 + 8 * extra)]      # bits beyond the length, to be ignored
                        e = run_pow(S, fn, [S.slice(S.bytes(bs + pad)), L], bs)
                        if e: return 'length %d: %s' % (L, e)
            return g
        return mk
    def ext(offs, Ls):
        def mk(fn):
            def g():
                for o in offs:
                    for L in Ls:
                        S = PowS(P, level); bs = [S.var(i) for i in range(L)]
                        pre = [S.var(2000000 + i) for i in range(o)]; post = [S.var(1000000 + i) for i in range(-(L + o) % 8)]
                        e = run_pow(S, fn, [S.slice(S.bytes(pre + bs + post)), o, L], bs)
                        if e: return 'offset %d, length %d: %s' % (o, L, e)
            return g
        return mk
    def big(Ls):
        def mk(fn):
            def g():
                for L in Ls:
                    S = PowS(P, level); bs = [S.var(i) for i in range(L - 1)] + [1] * (L > 0)
                    e = run_pow(S, fn, [S.ref(BigSym(bs, L))], bs)
                    if e: return 'exponent of %d bits: %s' % (L, e)
            return g
        return mk
    def word(w, top):
        def mk(fn):
            def g():
                for L in range(0, w + 1):
                    S = PowS(P, level)
                    bs = [S.var(i) for i in range(L - 1)] + [1] * (L > 0)
                    v = S.D.bits_fin(bs + [0] * (w - L))
                    e = run_pow(S, fn, [v], bs)
                    if e: return 'exponent of %d bits: %s' % (L, e)
            return g
        return mk
    def wordlen(fn):
        def g():
            for L in range(0, 65):
                S = PowS(P, level); bs = [S.var(i) for i in range(L)]
                e = run_pow(S, fn, [S.D.bits_fin(bs + [0] * (64 - L)), L], bs)
                if e: return 'length %d: %s' % (L, e)
        return g
    for n in ('set_pow', 'pow'):
        add(n, [('len %d..%d' % (c[0], c[-1]), plain(c)) for c in (lens[:30], lens[30:55], lens[55:72], lens[72:80], lens[80:86], lens[86:]) if c] if tier != 'thorough' else [('len %d..%d' % (c[0], c[-1]), plain(c)) for c in [lens[i:i + 60] for i in range(0, len(lens), 60)]])
    for n in ('set_pow_ext', 'pow_ext'):
        add(n, [('short', ext(range(0, 18), list(range(0, 12)) + [16, 17])), ('long', ext((0, 1, 7, 8, 9, 64, 100), (63, 64, 65, 130)))])
    add('pow_big', [('bits', big(lens))])
    add('pow_small', [('bits', word(32, True))])
    add('set_pow_u64_vartime', [('bits', word(64, True))]); add('pow_u64_vartime', [('bits', word(64, True))])
    add('set_pow_u64', [('bits', wordlen)]); add('pow_u64', [('bits', wordlen)])

# ------------------------------------------------------------------ base-field roots: signed powers of x by class
class Pv:
    """sg * x^e (sg 0: zero)"""
    __slots__ = ('sg', 'e')
    def __init__(s, sg, e): s.sg = sg; s.e = e if sg else 0
    def __eq__(s, o): return isinstance(o, Pv) and (s.sg, s.e) == (o.sg, o.e)
    def __hash__(s): return hash((s.sg, s.e))
    def __repr__(s): return '%sx^%s' % ({1: '', -1: '-', 0: '0*'}[s.sg], hex(s.e))
class FL:
    """limb i of a field element"""
    __slots__ = ('v', 'i')
    def __init__(s, v, i): s.v = v; s.i = i
    def __eq__(s, o): return isinstance(o, FL) and (s.v, s.i) == (o.v, o.i)
    def __hash__(s): return hash((s.v, s.i))

class RootDom(RingDom):
    """x is zero ('z'), a non-zero square ('s') or a non-square ('n')"""
    def __init__(s, P, cls):
        RingDom.__init__(s, P, 'fp'); s.cls = cls; s.m = (s.p - 1) // 2; s.N = nlimbs(P)
        assert s.m % 2 == 1
    def norm(s, v):
        if v.sg == 0: return v
        if s.cls == 'z': return Pv(0, 0) if v.e else v
        if s.cls == 's': return Pv(v.sg, v.e % s.m)
        e = v.e % (2 * s.m)
        return Pv(-v.sg, e - s.m) if e >= s.m else Pv(v.sg, e)      # x^m = -1
    def mul(s, a, b): return s.norm(Pv(a.sg * b.sg, a.e + b.e))
    def lift_const(s, T, v):
        r = RingDom.lift_const(s, T, v)
        if isinstance(r, R):
            k = r.n.constval()
            if k in (0, 1): return Pv(k, 0)
            if k == s.p - 1: return Pv(-1, 0)
            raise Unsupported('constant in a root')
        return r
    def c(s, k):
        if k in (0, 1): return Pv(k, 0)
        if k % s.p == s.p - 1: return Pv(-1, 0)
        raise Unsupported('constant in a root')
    def leaf(s, x):
        if isinstance(x, Pv): return x
        raise Unsupported('not a power: %r' % (x,))
    def atom(s, g):
        """a field element given by its limbs"""
        f = [s.A.top(x) for x in (g.f[0].f if len(g.f) == 1 and isinstance(g.f[0], Agg) else g.f)]
        for x in f:
            if isinstance(x, Ite):
                a = x.a; sp = lambda y, b: (y.t if b else y.e) if isinstance(y, Ite) and y.a == a else y
                return s.A.mk(a, s.atom(arr([sp(y, 1) for y in f])), s.atom(arr([sp(y, 0) for y in f])))
        if all(isinstance(x, FL) for x in f):
            if all(x.v == f[0].v and x.i == i for i, x in enumerate(f)): return f[0].v
        elif all(type(x) is int for x in f):
            k = sum(x << 64 * i for i, x in enumerate(f)) * s.mont_inv % s.p
            return s.c(k)
        raise Unsupported('limbs of different elements')
    def fv(s, r):
        v = RingDom.fv(s, r)
        return s.A.app1(lambda x: s.atom(x) if isinstance(x, Agg) else x, v)
    def limbs(s, v): return Agg('s', s.fty, 0, (arr([FL(v, i) for i in range(s.N)]) if v.sg else arr([0] * s.N),))
    def project(s, v, e):
        if isinstance(v, Pv): return s.limbs(v).f[e]
        raise Unsupported('projection')
    def update(s, v, path, nv):
        if isinstance(v, Pv): return s.I._set(s.limbs(v), path, nv)
        raise Unsupported('update')
    def word(s, op, x, y):
        if op == 'BitAnd':
            for a, b in ((x, y), (y, x)):
                if b == 0 and type(b) is int: return 0
                if b == M64 and type(b) is int: return a
        if op == 'BitOr':
            for a, b in ((x, y), (y, x)):
                if b == 0 and type(b) is int: return a
        return None
    def zero_cond(s, v): return int(s.norm(v).sg == 0)
    def eq_cond(s, a, b):
        a, b = s.norm(a), s.norm(b)
        if (a.sg == 0) != (b.sg == 0): return 0
        if a == b: return 1
        if s.cls == 'z': return int(a == b)
        # both non-zero: x^d = +-1, d = a.e - b.e
        d = (a.e - b.e) % s.m; sg = a.sg * b.sg
        if s.cls == 's':
            if sg < 0: return 0                       # -1 is not a square
            if d: return s.A.var(('eq', d))           # holds for x = 1, fails for a generator of the squares
            return 1
        # x = -y, y a square: x^d = (-1)^d y^d is a square exactly when d is even
        dd = a.e - b.e
        if (sg > 0) == (dd % 2 == 0):
            if d: return s.A.var(('eq', d))           # holds for x = -1, fails for minus a generator of the squares
            return 1
        return 0
    def neg(s, v): return s.norm(Pv(-v.sg, v.e))
    def odd(s, v):
        """parity of the canonical representative"""
        v = s.norm(v)
        if v.sg == 0: return 0
        if v.e == 0 and v.sg: return 1 if v.sg == 1 else 0       # 1 and p - 1
        a = s.A.var(('odd', v.e))
        return a if v.sg > 0 else s.A.app1(lambda b: 1 - b, a)
    def legendre(s, v):
        v = s.norm(v)
        if v.sg == 0: return 0
        return v.sg if s.cls == 's' else v.sg * (-1) ** v.e

class RootFM(FieldModels):
    def un(s, op, a):
        D = s.D; v = D.fv(a)
        if op == 'neg': return D.A.app1(lambda x: D.neg(D.leaf(x)), v)
        if op == 'square': return D.A.app1(lambda x: D.mul(D.leaf(x), D.leaf(x)), v)
        raise Unsupported(op)
    def bin(s, op, a, b):
        D = s.D
        if op == 'mul': return D.A.app2(lambda x, y: D.mul(D.leaf(x), D.leaf(y)), D.fv(a), D.fv(b))
        raise Unsupported(op)

class RS(Sess):
    def __init__(s, P, cls):
        D = RootDom(P, cls)
        Sess.__init__(s, P, 'fp', dom=D)
        fm = RootFM(D, FP); s.I.model_fns.remove(s.FM); s.FM = fm; s.I.model_fns.append(fm)
        bits_ops(D, 1); b0 = D.binop
        def low(v): return BitsV([s.A.var(('mont', v.v, v.i, j)) for j in range(64)]) if isinstance(v, FL) else v
        def bop(op, a, b, bits, sg):
            if isinstance(a, FL) or isinstance(b, FL):
                r = D.word(op, a, b)
                if r is not None: return r
            return b0(op, low(a), low(b), bits, sg)
        D.binop = bop
        c0 = D.cast; D.cast = lambda x, ob, osg, bits, sg: c0(low(x), ob, osg, bits, sg)
        n = FP + '::ENCODED_LENGTH'
        def enc(I, fn, a, info):
            v = D.fv(a[0])
            k = (D.p.bit_length() + 7) // 8
            def f(x):
                if D.norm(x).sg == 0: return arr([0] * k)
                return arr([BitsV([D.odd(x)] + [s.A.var(('enc', x.e, x.sg, j)) for j in range(1, 8)])] + [Opaque('encoding')] * (k - 1))
            return D.A.app1(f, v)
        fm.extra['encode'] = enc
        fm.extra['legendre'] = lambda I, fn, a, info: D.A.app1(D.legendre, D.fv(a[0]))

def fp_eval(S, D, allv, cls, deg):
    """evaluate the extracted result at points of the class"""
    import random
    rnd = random.Random(5); p = D.p; R64 = 1 << 64 * D.N
    for k in range(60):
        x = 0
        if cls != 'z':
            x = rnd.choice([rnd.randrange(1, p), rnd.randrange(1, 50)]) ** 2 % p
            if k == 0: x = 1
            if cls == 'n': x = p - x
        def num(v): return v.sg * pow(x, v.e, p) % p if v.e else v.sg % p
        def atom(d):
            if d[0] == 'odd': return pow(x, d[1], p) & 1
            if d[0] == 'eq': return int(pow(x if cls == 's' else -x % p, d[1], p) == 1)
            if d[0] == 'mont': return (num(d[1]) * R64 % p) >> (64 * d[2] + d[3]) & 1
            if d[0] == 'enc': return num(Pv(d[2], d[1])) >> d[3] & 1
            raise Unsupported('atom')
        v = allv
        while isinstance(v, Ite): v = v.t if atom(S.A.desc[v.a]) else v.e
        o, w = v.f; w = num(w); at = ' at %#x' % x
        if cls == 'n':
            if o: return 'the extracted result reports success for a non-square' + at
            if w: return 'the extracted result is not zero on failure' + at
        else:
            if not o: return 'the extracted result reports failure for a square' + at
            if pow(w, deg, p) != x: return 'the extracted result to the power %d is not the operand%s' % (deg, at)
            if w & 1: return 'the extracted root is odd' + at

def fp_root(P, fn, deg):
    """the root of degree deg (2 or 4) by class of the operand"""
    def g():
        for cls in 'zsn':
            S = RS(P, cls); D = S.D; x = D.norm(Pv(1, 1))
            inplace = P.ty[fn.locals[1]]['t'] == 'ref'
            if inplace:
                r = S.ref(x); ok = S.exec(fn, r); v = D.fv(r)
            else:
                o = S.I.push(S.exec(fn, x), 2); v, ok = D.fv(S.ref(o.f[0])) if isinstance(o.f[0], Agg) else D.fv(o.f[0]), o.f[1]
            for e in S.I.events:
                if e.kind == 'panic': return 'may panic: %r' % e
            allv = S.A.app2(lambda a, b: tup(a, b), ok, v)
            try: e = fp_judge(S, D, ok, v, x, cls, deg)
            except Unsupported:
                e = fp_eval(S, D, allv, cls, deg)
                if e is None: raise
            if e: return e
    return g

def fp_judge(S, D, ok, v, x, cls, deg):
    nm = {'z': 'zero', 's': 'a square', 'n': 'a non-square'}[cls]
    for cube, o in S.A.leaves(ok):
        if o not in (0, 0xFFFFFFFF): return 'the status is %r' % (o,)
        if any(S.A.desc[a][0] == 'odd' for a, b in cube): raise Unsupported('the status depends on a parity')
        if bool(o) == (cls == 'n'):
            if len(cube) > 1: raise Unsupported('the status depends on several equalities')
            return '%s is reported for %s operand which is %s' % ('success' if o else 'failure', 'an' if not cube else 'some', nm)
    for cube, l in S.A.leaves(S.A.app2(lambda a, b: tup(a, b), ok, v)):
        o, w = l.f; w = D.norm(D.leaf(w)); c = dict(cube)
        if o not in (0, 0xFFFFFFFF): return 'the status is %r' % (o,)
        if cls == 'n':
            if o: return 'success is reported for a non-square'
            if w.sg: return 'the result is not zero on failure'
            continue
        if not o: return 'failure is reported when the operand is ' + nm
        q = w
        for _ in range(deg // 2): q = D.mul(q, q)
        if deg not in (2, 4): raise Unsupported('degree')
        if len(c) and any(S.A.desc[a][0] == 'eq' for a in c): raise Unsupported('case not decided')
        if D.eq_cond(q, x) != 1: return 'the result to the power %d is not the operand when it is %s' % (deg, nm)
        p = D.odd(w)
        if isinstance(p, Ite): p = p.t if c.get(p.a) == 1 else p.e if c.get(p.a) == 0 else None
        if p is None: raise Unsupported('the root returned may be odd')
        if p: return 'the root returned is odd'

# ------------------------------------------------------------------ extension-field roots
def psqrt(f):
    """(c, q) with f = c*q^2, c constant, q monic; or None"""
    if f.iszero(): return None
    r = f.r
    f1 = f.monic(); m, c = f.lead()
    # monic: leading term of the root, then term by term
    from ..poly import Poly
    q = Poly(r, {m >> 1: 1}) if all(e % 2 == 0 for v, e in r.exps(m)) else None
    if q is None: return None
    for _ in range(200):
        d = f1 - q * q
        if d.iszero(): return c, q
        dm, dc = d.lead()
        lm, _ = q.lead()
        ex, el = dict(r.exps(dm)), dict(r.exps(lm))
        t = {}
        for v in set(ex) | set(el):
            k = ex.get(v, 0) - el.get(v, 0)
            if k < 0: return None
            if k: t[v] = k
        key = sum(k << (W * v) for v, k in t.items())
        q = q + Poly(r, {key: dc * pow(2, -1, r.p) % r.p})
        if q.lead()[0] != lm: return None
    return None

class QD(RingDom):
    """coordinates as polynomials; square classes, parities and root symbols"""
    def __init__(s, P):
        RingDom.__init__(s, P, 'fp'); s.rt = []; s.n = 0
        s.even = {}                                    # root symbols, whose canonical representative is even
        if s.p % 8 != 7: raise Unsupported('p is not 7 modulo 8')
    def isq(s, c): return pow(c, (s.p - 1) // 2, s.p) == 1
    def fnorm(s, f):
        """eliminate the root symbols from f: the norm"""
        for _ in range(8):
            vs = [v for v in f.vars() if v in s.R.rules]
            if not vs: return f
            v = max(vs); nm = s.R.names[v]; co = f.coeff_of(nm)
            a, b = co.get(0, s.R.zero), co.get(1, s.R.zero)
            if set(co) - {0, 1}: return f
            f = a * a - b * b * s.R.rules[v]
        return f
    def zero_cond(s, v):
        n = v.n if isinstance(v, R) else v
        n = s.normal(n)
        if not n.iszero():
            n1 = s.strip(n)
            if n1.isconst(): return 0
            f = s.fnorm(n1)
            if not f.iszero() and s.strip(f).isconst(): return 0
            if any(s.R.names[k] in s.even for k in n1.vars()) and len(n1.d) == 1:
                return 0 if all(s.R.names[k] in s.even for k in n1.vars()) else RingDom.zero_cond(s, n1)
        return RingDom.zero_cond(s, n)
    def whole(s, x):
        """x up to a square factor, as a polynomial"""
        return x.n if x.d.isconst() and x.d.constval() == 1 else x.n * x.d
    def legendre(s, x):
        """1, 0 or -1"""
        x = s.leaf(x); z = s.zero_cond(x)
        if z == 1: return 0
        return s.A.ite(z, 0, s.cls(x))
    def cls(s, x):
        """1 or -1, for x known not to be zero"""
        f = s.normal(s.whole(x))
        q = psqrt(f)
        if q is not None: return 1 if s.isq(q[0]) else -1
        m, c = f.lead(); f = f.monic(); r = 1 if s.isq(c) else -1
        g = f.content_monomial()
        if g:
            k = sum(e << (W * v) for v, e in g.items())
            from ..poly import Poly
            f = Poly(s.R, {a - k: b for a, b in f.d.items()})
            for v, e in g.items():
                if e % 2: r = s.A.app2(lambda a, b: a * b, r, s.pm(Poly(s.R, {1 << (W * v): 1})))
        if not f.isconst(): r = s.A.app2(lambda a, b: a * b, r, s.pm(f))
        return r
    def pm(s, f): return s.A.app1(lambda b: 1 if b else -1, s.A.var(('square', f)))
    def newroot(s, f):
        """even square root of the polynomial f (a square, not zero)"""
        for g, r in s.rt:
            if g == f: return r
        q = psqrt(f)
        if q is not None:
            c, q = q
            if not s.isq(c): raise Unsupported('root of a non-square')
            k = pow(c, (s.p + 1) // 4, s.p)
            v = R(q * k)
            r = s.A.ite(s.odd(v), -v, v)
        else:
            s.n += 1; nm = 'r%d' % s.n; r = s.sym(nm); s.R.rule(nm, f); s.even[nm] = 1
        s.rt.append((f, r)); return r
    def sqrt(s, x, ctx=()):
        """(root, status mask)"""
        x = s.leaf(x); z = s.zero_cond(x)
        if z == 1: return tup(s.c(0), 0xFFFFFFFF)
        k = s.cls(x)
        def f(c):
            if c < 0: return tup(s.c(0), 0)
            return None
        f_ = s.normal(x.n) * pow(x.d.constval(), -1, s.p) if x.d.isconst() else None
        if f_ is None: raise Unsupported('root of a fraction')
        r = s.newroot(f_) if k != -1 else s.c(0)
        pos = s.A.app1(lambda c: int(c > 0), k)
        v = s.A.ite(z, s.c(0), s.A.ite(pos, r, s.c(0)))
        return tup(v, s.mask(s.A.ite(z, 1, pos)))
    def root4(s, x):
        x = s.leaf(x); z = s.zero_cond(x)
        if z == 1: return tup(s.c(0), 0xFFFFFFFF)
        o = s.sqrt(x); v, ok = o.f
        # of the two square roots, the one that is a square
        def f(m):
            if m.iszero(): return m
            k = s.cls(m)
            def g(c):
                return s.sqrt(m if c > 0 else -m)
            up = s.sqroot(m) if k != -1 else s.c(0)
            dn = s.sqroot(-m) if k != 1 else s.c(0)
            return s.A.ite(s.A.app1(lambda c: int(c > 0), k), up, dn)
        return tup(s.A.app1(f, v), ok)
    def sqroot(s, m):
        if not m.d.isconst(): raise Unsupported('root of a fraction')
        return s.newroot(s.normal(m.n) * pow(m.d.constval(), -1, s.p))
    def odd(s, x):
        x = s.leaf(x); z = s.zero_cond(x)
        if z == 1: return 0
        return s.A.ite(z, 0, s.par(x))
    def par(s, x):
        f = s.normal(x.n)
        if x.d.isconst():
            f = f * pow(x.d.constval(), -1, s.p); den = s.R.one
        else:
            den = s.normal(x.d); k = den.lead()[1]; den = den.monic(); f = f * pow(k, -1, s.p)
        if f.isconst() and den.isconst(): return f.constval() & 1
        c = f.lead()[1]
        if den.isconst() and len(f.d) == 1 and f.vars() and len(f.vars()) == 1 and s.R.names[next(iter(f.vars()))] in s.even and c in (1, s.p - 1) and f.lead()[0] == 1 << (W * next(iter(f.vars()))):
            return 0 if c == 1 else 1
        if c > s.p - c: return s.A.app1(lambda b: 1 - b, s.A.var(('odd', (-f, den))))
        return s.A.var(('odd', (f, den)))

class QS(Sess):
    def __init__(s, P):
        D = QD(P)
        Sess.__init__(s, P, 'fp', dom=D)
        D.I = s.I
        bits_ops(D, 1)
        k8 = (D.p.bit_length() + 7) // 8
        def enc(I, fn, a, info):
            def f(x):
                if D.leaf(x).iszero(): return arr([0] * k8)
                key = len(s.A.desc)
                return arr([BitsV([D.odd(x)] + [s.A.var(('enc', key, j)) for j in range(1, 8)])] + [Opaque('encoding')] * (k8 - 1))
            return D.A.app1(f, D.fv(a[0]))
        def two(f):
            def g(I, fn, a, info):
                v = D.A.app1(f, D.fv(a[0]))
                return I.push(v, 2)
            return g
        def inp(f):
            def g(I, fn, a, info):
                o = I.push(D.A.app1(f, D.fv(a[0])), 2); I.store(a[0], o.f[0]); return o.f[1]
            return g
        s.FM.extra.update({'encode': enc, 'legendre': lambda I, fn, a, info: D.A.app1(D.legendre, D.fv(a[0])),
            'sqrt': two(D.sqrt), 'set_sqrt': inp(D.sqrt), 'fourth_root': two(D.root4), 'set_fourth_root': inp(D.root4)})
        s.ty = P.adt('FpFESTAExt::Fp2')

def cmul(x, y): return (x[0]*y[0] - x[1]*y[1], x[0]*y[1] + x[1]*y[0])

def fp2_root(P, fn, deg, complete, case):
    def g():
        S = QS(P); D = S.D
        if case == '00': y = (S.c(0), S.c(0))
        else:
            a = S.sym('a'); b = S.sym('b')
            y = {'a0': (a, S.c(0)), '0a': (S.c(0), a), 'aa': (a, a), 'a-a': (a, -a), 'ab': (a, b)}[case]
            D.nonzero.append(a.n)
            if case == 'ab':
                D.nonzero += [b.n, (a*a + b*b).n]
                if complete: D.nonzero += [(a - b).n, (a + b).n]
        x = y
        if complete:
            for _ in range(deg // 2): x = cmul(x, x)
        X = Agg('s', S.ty, 0, x)
        if P.ty[fn.locals[1]]['t'] == 'ref':
            r = S.ref(X); ok = S.exec(fn, r); v = S.load(r)
        else:
            o = S.I.push(S.exec(fn, X), 2); v, ok = o.f
        for e in S.I.events:
            if e.kind == 'panic': return 'may panic: %r' % e
        v = S.A.top(v)
        if isinstance(v, Ite): v = S.I.push(v, 2)
        n = 0
        allv = S.A.app2(lambda o, w: (o, w), ok, S.A.app2(lambda p, q: (p, q), S.A.top(v.f[0]), S.A.top(v.f[1])))
        try: return judge(S, allv, x, deg, complete)
        except Unsupported:
            e = refute(S, allv, x, deg, complete)
            if e: return e
            raise
    return g

def judge(S, allv, x, deg, complete):
    D = S.D; n = 0
    for cube, (o, w) in S.A.leaves(allv):
        Z, N, other = S.facts(cube)
        rs = S.solve(Z, N)
        if rs == 'infeasible': continue
        subs, un, ap = rs
        iz = lambda q: ap(D.normal(q)).iszero()
        n += 1; c = dict(cube)
        if o not in (0, 0xFFFFFFFF): return 'the status is %r' % (o,)
        if not o:
            if complete: return fail(S, cube, un, 'failure is reported for a %s' % ('square' if deg == 2 else 'fourth power'))
            if not (iz(w[0].n) and iz(w[1].n)): return fail(S, cube, un, 'the result is not zero on failure')
            continue
        q = w
        for _ in range(deg // 2): q = cmul(q, q)
        for k in (0, 1):
            d = q[k] - x[k]
            if not iz(d.n): return fail(S, cube, un, 'the result to the power %d is not the operand' % deg)
        # sign
        u = w[0] if not iz(w[0].n) else w[1]
        if iz(u.n): continue
        z = D.zero_cond(u)
        if isinstance(z, Ite): z = follow(z, c)
        if z == 1: u = w[1]
        elif z is None: raise Unsupported('the real part may be zero')
        if iz(u.n): continue
        p = follow(D.par(u), c)
        if p is None: raise Unsupported('the parity of the result is not determined')
        if p: return fail(S, cube, un, 'the root returned has sign 1')
    if not n: raise Unsupported('no feasible case')

def refute(S, allv, x, deg, complete):
    """evaluate the extracted result at points of the operand space"""
    import random
    rnd = random.Random(7); p = S.D.p; D = S.D; names = S.D.R.names
    def issq(v): return v % p == 0 or pow(v, (p - 1) // 2, p) == 1
    for k in range(150):
        val = {}
        def sym(nm):
            v = val.get(nm)
            if v is None:
                i = S.D.R.idx[nm]
                if i in S.D.R.rules:
                    f = ev(S.D.R.rules[i])
                    if not issq(f): raise KeyError(nm)
                    v = pow(f, (p + 1) // 4, p)
                    if v & 1: v = p - v
                else: v = rnd.choice([rnd.randrange(p), rnd.randrange(1, 9), p - rnd.randrange(1, 9)]) or 1
                val[nm] = v
            return v
        def ev(f):
            r = 0
            for m, c in f.d.items():
                for i, e in f.r.exps(m): c = c * pow(sym(names[i]), e, p) % p
                r += c
            return r % p
        def fr(w):
            d = ev(w.d)
            return ev(w.n) * pow(d, -1, p) % p if d else 0
        def atom(d):
            if d[0] == 'zero': return int(ev(d[1]) == 0)
            if d[0] == 'square': return int(issq(ev(d[1])))
            if d[0] == 'odd':
                q = ev(d[1][1])
                return ev(d[1][0]) * (pow(q, -1, p) if q else 0) % p & 1
            raise Unsupported('atom')
        for nm in ('a', 'b'):
            if nm in D.R.idx: sym(nm)
        try:
            if any(ev(f) == 0 for f in D.nonzero): continue
            v = allv
            while isinstance(v, Ite): v = v.t if atom(S.A.desc[v.a]) else v.e
            o, w = v; w = [fr(c) for c in w]; X = [fr(c) for c in x]
        except KeyError: continue
        q = w
        for _ in range(deg // 2): q = [(q[0] * q[0] - q[1] * q[1]) % p, 2 * q[0] * q[1] % p]
        at = ' at %s + i*%s' % (hex(X[0]), hex(X[1]))
        if not o:
            if complete: return 'the extracted result reports failure for a %s%s' % ('square' if deg == 2 else 'fourth power', at)
            if w != [0, 0]: return 'the extracted result is not zero on failure' + at
        else:
            if q != X: return 'the extracted result to the power %d is not the operand%s' % (deg, at)
            if (w[0] if w[0] else w[1]) & 1: return 'the extracted root has sign 1' + at

def follow(v, c):
    while isinstance(v, Ite):
        if v.a not in c: return None
        v = v.t if c[v.a] else v.e
    return v

def fail(S, cube, un, msg):
    if un: raise Unsupported('case %s not resolved' % S.show(cube))
    # classes of related polynomials are not independent: a case is definite only when no class atom of a compound polynomial occurs
    for a, b in cube:
        d = S.A.desc[a]
        if d[0] in ('square', 'odd') and not simple(S, d[1]): raise Unsupported('%s in case [%s], whose feasibility is not decided' % (msg, S.show(cube)))
    return '%s in case [%s]' % (msg, S.show(cube))
def simple(S, q):
    f = q[0] if isinstance(q, tuple) else q
    return len(f.vars()) <= 1 and len(f.d) == 1

def root_jobs(P):
    jobs = []
    for nm, deg in (('sqrt', 2), ('fourth_root', 4)):
        for pre in ('set_', ''):
            for base, lev in ((FP, 'fp'), (FP2, 'fp2')):
                try: fn = P.one(base + '::' + pre + nm)
                except (MissingAnchor, KeyError): continue
                k = '%s::%s%s' % (base.rsplit('::', 1)[-1], pre, nm)
                if lev == 'fp': jobs.append((k, fp_root(P, fn, deg), where(fn)))
                else:
                    for case in ('00', 'a0', '0a', 'ab'): jobs.append(('%s:sound:%s' % (k, case), fp2_root(P, fn, deg, False, case), where(fn)))
                    for case in ('a0', '0a', 'aa', 'a-a', 'ab'): jobs.append(('%s:complete:%s' % (k, case), fp2_root(P, fn, deg, True, case), where(fn)))
    return jobs

def run(R_):
    P = load()
    R_.assume += ['base-field arithmetic (C01), encoding parity (C09) and the base-field Legendre symbol', 'p = 7 modulo 8 and the constant tables are read from the compiled crate (C08)']
    jobs = pow_jobs(P, R_.tier) + root_jobs(P)
    R_.floor('entry points', len({k.split(':')[2] if False else k.rsplit(':', 1)[0] for k, f, w in jobs}), 15)
    R_.parallel(jobs)
    R_.extra['obligations_by_entry'] = len(jobs)
