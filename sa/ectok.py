"""Points as formal combinations of generators of known order on named curves; curve operations are the group operations."""
from math import gcd
from .vals import *
from .ring import R
from .grp import *
from .harness import MASK1
EC = 'festa_rs::ecFESTA::'

class Wrong(Exception): pass

class Pt:
    """sum of f[g] * g on the curve E; every generator has its order in ctx"""
    __slots__ = ('E', 'f', 'o')
    def __init__(s, E, f, o):
        s.E = E; s.o = o; d = {}
        for g, k in f.items():
            k = lin(k); n = o[g]
            if n: c, co = k.red(n); k = Lin(c, co, 0)
            if k.c or k.f: d[g] = k
        s.f = d
    def key(s): return (s.E, frozenset((g, k.key()) for g, k in s.f.items()))
    def __eq__(s, o): return isinstance(o, Pt) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def comb(s, t, k=1):
        f = dict(s.f)
        for g, c in t.f.items(): f[g] = f.get(g, lin(0)) + c.scale(k)
        return Pt(s.E if s.E is not None else t.E, f, s.o)
    def scale(s, k):
        k = lin(k)
        if k.isconst(): return Pt(s.E, {g: c.scale(k.c) for g, c in s.f.items()}, s.o)
        return Pt(s.E, {g: k.mulv(c) for g, c in s.f.items()}, s.o)
    def order(s):
        n = 1
        for g, k in s.f.items():
            if not k.isconst(): raise Unsupported('order of %r' % s)
            m = s.o[g] // gcd(s.o[g], k.c); n = n * m // gcd(n, m)
        return n
    def iszero(s):
        if not s.f: return True
        if any(k.isconst() for k in s.f.values()): return False
        raise Unsupported('whether %r vanishes' % s)
    def __repr__(s): return (' + '.join('%s*%s' % ('(%r)' % k if k.f else sh(k.c), g) for g, k in s.f.items()) or 'O') + ' on %s' % s.E
def sh(n): return str(n) if n.bit_length() < 40 else '<%d bits>' % n.bit_length()

class EcTok(GrpS):
    def __init__(s, P, N=0, orders=None, fuel=40000000):
        GrpS.__init__(s, P, N, fuel); s.o = orders or {}; s.wrong = None
        M = s.I.models; I = s.I
        def tok(v):
            v = s.A.top(v)
            while isinstance(v, Ref): v = s.A.top(I.load(v))
            if isinstance(v, Pt): return v
            if isinstance(v, Agg) and len(v.f) == 3:
                z = s.A.top(v.f[2])
                if s.FM.is_zero_const(z) if hasattr(s.FM, 'is_zero_const') else allzero(z, s): return Pt(None, {}, s.o)
            raise Unsupported('point %r' % (v,))
        s.tok = tok
        def cv(v):
            v = s.val(v)
            if not isinstance(v, str): raise Unsupported('curve %r' % (v,))
            return v
        s.cv = cv
        def chk(E, *ps):
            for p in ps:
                if p.E is not None and p.E != E: s.bad('%r is used on curve %s' % (p, E))
        def op(f, mode):
            def g(I_, fn, a, info):
                E = cv(a[0])
                if mode == 'ret': return f(E, *a[1:])
                if mode == 'into': I.store(a[1], f(E, *a[2:])); return tup()
                I.store(a[1], f(E, *a[1:])); return tup()
            return g
        def ad(k):
            def f(E, x, y):
                x, y = tok(x), tok(y); chk(E, x, y); r = x.comb(y, k); return Pt(E, r.f, r.o)
            return f
        def sc(k):
            def f(E, x, *r):
                x = tok(x); chk(E, x); return Pt(E, x.scale(k(*r)).f, x.o)
            return f
        def num(v):
            v = s.val(v)
            if type(v) is int or isinstance(v, Lin): return v
            raise Unsupported('multiplier %r' % (v,))
        def bits(n, l):
            b = s.val(n); l = num(l)
            if isinstance(b, (tuple, list)) and all(type(x) is int for x in b): return int.from_bytes(bytes(b), 'little') & ((1 << l) - 1)
            raise Unsupported('scalar %r' % (b,))
        for n, f in (('add', ad(1)), ('sub', ad(-1)), ('double', sc(lambda: 2)), ('mul', sc(bits)), ('mul_small', sc(num))):
            M[EC + 'Curve::' + n] = op(f, 'ret'); M[EC + 'Curve::%s_into' % n] = op(f, 'into')
        M[EC + 'Curve::mul_big'] = op(sc(num), 'ret')
        M[EC + 'Curve::addto'] = op(ad(1), 'acc'); M[EC + 'Curve::subfrom'] = op(ad(-1), 'acc'); M[EC + 'Curve::double_self'] = op(sc(lambda: 2), 'acc')
        def dbl(n):
            n = num(n)
            if type(n) is not int: raise Unsupported('number of doublings')
            return 1 << n
        M[EC + 'Curve::double_iter'] = op(sc(dbl), 'ret')
        neg = lambda I_, fn, a, info: tok(a[0]).scale(-1)
        for n in ('<festa_rs::ecFESTA::Point as std::ops::Neg>::neg', '<&festa_rs::ecFESTA::Point as std::ops::Neg>::neg'): M[n] = neg
        def setneg(I_, fn, a, info): I.store(a[0], tok(a[0]).scale(-1)); return tup()
        M[EC + 'Point::set_neg'] = setneg
        M['<festa_rs::ecFESTA::Point as std::clone::Clone>::clone'] = lambda I_, fn, a, info: tok(a[0])
        M['<festa_rs::ecFESTA::Curve as std::clone::Clone>::clone'] = lambda I_, fn, a, info: s.val(a[0])
        M[EC + 'Point::isinfinity'] = lambda I_, fn, a, info: MASK1 if tok(a[0]).iszero() else 0
        def eq(I_, fn, a, info):
            d = tok(a[0]).comb(tok(a[1]), -1); return MASK1 if d.iszero() else 0
        M[EC + 'Point::equals'] = eq
    def bad(s, m): s.wrong = m; raise Unsupported(m)
    def go(s, name, *args):
        """None when a contract was broken: the message is in s.wrong"""
        try: return s.exec(s.P.one(name), *args)
        except Unsupported:
            if s.wrong: return None
            raise

def allzero(z, s):
    if isinstance(z, R): return z.n.iszero()
    if isinstance(z, Agg): return all(allzero(s.A.top(x), s) for x in z.f)
    if type(z) is int: return z == 0
    if isinstance(z, Pw): return False
    return False
