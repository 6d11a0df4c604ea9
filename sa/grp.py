"""Discrete-log layer: integers as linear forms in indeterminates (exact or up to a modulus), field elements as powers of one
generator with such exponents."""
from math import gcd
from .vals import *
from .ring import RingDom, R
from .harness import Sess, MASK1

def mono(k): return ((k, 1),) if isinstance(k, str) else k
def kmul(a, b):
    d = dict(mono(a))
    for n, e in mono(b): d[n] = d.get(n, 0) + e
    t = tuple(sorted((n, e) for n, e in d.items() if e))
    if not t: return None
    return t[0][0] if len(t) == 1 and t[0][1] == 1 else t

class Lin:
    """c + sum k_x x; cong: 0 when exact, else the value is only known modulo cong; top: exclusive upper bound when known (and >= 0)"""
    __slots__ = ('c', 'f', 'cong', 'top')
    def __init__(s, c=0, f=(), cong=0, top=None):
        s.f = {k: v for k, v in dict(f).items() if v}; s.c = c; s.cong = cong; s.top = top
    def isconst(s): return not s.f and not s.cong
    def key(s): return (s.c, frozenset(s.f.items()), s.cong)
    def __eq__(s, o): return isinstance(o, Lin) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __add__(s, o):
        o = lin(o); f = dict(s.f)
        for k, v in o.f.items(): f[k] = f.get(k, 0) + v
        return Lin(s.c + o.c, f, gcd(s.cong, o.cong), s.top + o.top - 1 if s.top and o.top else None)
    def scale(s, k): return Lin(s.c * k, {x: v * k for x, v in s.f.items()}, s.cong * abs(k), (s.top - 1) * k + 1 if s.top and k >= 0 else None)
    def __sub__(s, o): return s + lin(o).scale(-1)
    def terms(s):
        if s.c: yield (), s.c
        yield from s.f.items()
    def mulv(s, o):
        """product; indeterminates may carry negative exponents"""
        if s.isconst(): return o.scale(s.c)
        if o.isconst(): return s.scale(o.c)
        f = {}; c = 0
        for k, v in s.terms():
            for l, w in o.terms():
                m = kmul(k, l)
                if m is None: c += v * w
                else: f[m] = f.get(m, 0) + v * w
        return Lin(c, f, gcd(s.cong, o.cong))
    def inverse(s, m):
        """inverse modulo m of a monomial with invertible coefficient"""
        c, f = s.red(m)
        if c and not f: k, v = (), c
        elif not c and len(f) == 1: k, v = next(iter(f.items()))
        else: raise Unsupported('inverse of %r' % s)
        if gcd(v, m) != 1: return None
        v = pow(v, -1, m)
        if k == (): return Lin(v, top=v + 1)
        return Lin(0, {kmul(tuple((n, -e) for n, e in mono(k)), ()): v}, m, m)
    def mod(s, m):
        if s.cong % m: m2 = gcd(s.cong, m)
        else: m2 = m
        return Lin(s.c % m2, {x: v % m2 for x, v in s.f.items()}, m2, m)
    def red(s, m):
        """the form modulo m (m must divide cong)"""
        if s.cong % m: raise Unsupported('value known only modulo %d' % s.cong)
        return s.c % m, {x: v % m for x, v in s.f.items() if v % m}
    def __repr__(s):
        t = ['%s%s' % ('' if v == 1 else '%d*' % v if abs(v) < 1 << 40 else '<%d bits>*' % v.bit_length(), k if isinstance(k, str) else '*'.join(n if e == 1 else '%s^%d' % (n, e) for n, e in k)) for k, v in list(s.f.items())[:6]]
        return ' + '.join(([str(s.c)] if s.c or not t else []) + t) + (' (mod %d)' % s.cong if s.cong else '')

def lin(x):
    if isinstance(x, Lin): return x
    if type(x) is int: return Lin(x, top=x + 1)
    raise Unsupported('not an integer: %r' % (x,))
def sym(n, top=None): return Lin(0, {n: 1}, 0, top)
def norm(x): return x.c if x.isconst() else x

class Pw:
    """g^e for the generator g of order N"""
    __slots__ = ('e', 'N')
    def __init__(s, e, N):
        s.N = N; e = lin(e); c, f = e.red(N) if N else (e.c, e.f); s.e = Lin(c, f)
    def __eq__(s, o): return isinstance(o, Pw) and s.e == o.e
    def __hash__(s): return hash(s.e)
    def __mul__(s, o): return Pw(s.e + o.e, s.N)
    def inv(s): return Pw(s.e.scale(-1), s.N)
    def __neg__(s): raise Unsupported('negation')
    def __add__(s, o): raise Unsupported('sum')
    __sub__ = __add__
    def __repr__(s): return 'g^(%r)' % s.e

class GrpDom(RingDom):
    def __init__(s, P, N): RingDom.__init__(s, P, 'fp2'); s.N = N
    def leaf(s, x):
        if isinstance(x, Pw): return x
        if isinstance(x, R) and x.n.isconst() and x.d.isconst() and x.n == x.d: return Pw(0, s.N)
        raise Unsupported('not a power of the generator: %r' % (x,))
    def inverse(s, x): return x.inv()
    def zero_cond(s, x): return 0
    def eq_cond(s, x, y):
        d = (x.e - y.e).red(s.N)
        if not d[1]: return int(d[0] == 0)
        raise Unsupported('comparison of %r with %r' % (x, y))
    def bigop(s, op, u, v):
        u, v = lin(u), lin(v)
        if op == 'add': return norm(u + v)
        if op == 'sub': return norm(u - v)
        if op == 'mul':
            if v.isconst(): return norm(u.scale(v.c))
            if u.isconst(): return norm(v.scale(u.c))
            return norm(u.mulv(v))
        if op == 'rem' and v.isconst():
            if u.top and u.top <= v.c: return norm(u)
            return norm(u.mod(v.c))
        raise Unsupported('integer operation %s on %r, %r' % (op, u, v))
    def binop(s, op, a, b, bits, signed):
        m = {'Add': 'add', 'Mul': 'mul', 'AddUnchecked': 'add', 'MulUnchecked': 'mul', 'Rem': 'rem'}
        if op in m: return s.bigop(m[op], a, b)
        raise Unsupported('integer operation %s on %r, %r' % (op, a, b))
    def cast(s, v, ob, osg, bits, sg): return v

class GrpS(Sess):
    def __init__(s, P, N, fuel=20000000):
        Sess.__init__(s, P, 'fp2', GrpDom(P, N)); s.N = N; s.I.fuel = fuel
        def power(v, e):
            e = s.A.top(e)
            def f(x):
                x = s.D.leaf(x); k = lin(e)
                if k.isconst(): return Pw(x.e.scale(k.c), N)
                if x.e.isconst(): return Pw(k.scale(x.e.c), N)
                raise Unsupported('power %r of %r' % (e, x))
            return s.A.app1(f, v)
        s.FM.power = power
    def val(s, v):
        v = s.A.top(v)
        while isinstance(v, Ref): v = s.A.top(s.I.load(v))
        if isinstance(v, Agg) and v.k in 'av': return tuple(s.val(x) for x in v.f)
        return v
    def panics(s):
        ev = [e for e in s.I.events if e.kind == 'panic']
        return 'can panic: %r' % ev[0] if ev else None
