"""Field-element domain: fractions of polynomials over F_p (with i^2=-1 and curve relations as rewrite rules)."""
from .vals import *
from .poly import *

class R:
    """field element n/d"""
    __slots__ = ('n', 'd')
    def __init__(s, n, d=None):
        s.n = n; s.d = d if d is not None else n.r.one
    def __eq__(s, o):
        if s is o: return True
        if not isinstance(o, R): return False
        if s.d == o.d: return s.n == o.n
        return (s.n * o.d - o.n * s.d).iszero()
    def __hash__(s): return 7 if not s.d.isconst() else hash(s.n)
    def __add__(s, o):
        if s.d == o.d: return R(s.n + o.n, s.d)
        return R(s.n * o.d + o.n * s.d, s.d * o.d)
    def __sub__(s, o):
        if s.d == o.d: return R(s.n - o.n, s.d)
        return R(s.n * o.d - o.n * s.d, s.d * o.d)
    def __mul__(s, o):
        if isinstance(o, int): return R(s.n * o, s.d)
        return R(s.n * o.n, s.d * o.d)
    def __neg__(s): return R(-s.n, s.d)
    def inv(s):
        if s.n.iszero(): return R(s.n)
        return R(s.d, s.n)
    def scale(s, k): return R(s.n * k, s.d)
    def iszero(s): return s.n.iszero()
    def __repr__(s): return '%r' % s.n if s.d == s.n.r.one else '(%r)/(%r)' % (s.n, s.d)

class Dom:
    """base domain: everything unsupported"""
    def __init__(s):
        s.A = Atoms(); s.I = None
    def __getattr__(s, name):
        if name.startswith('__'): raise AttributeError(name)
        def f(*a, **k): raise Unsupported('%s%r' % (name, tuple(type(x).__name__ for x in a)))
        return f
    def lift_const(s, T, v): return v
    def mkadt(s, T, v): return v
    def enter(s, a, bit): return True
    def leave(s, a, bit): pass
    def unresolved_call(s, info, args): return None
    def opaque_next(s, I, fn, a, info, it): return None
    def project(s, v, e): raise Unsupported('projection .%s of %r' % (e, v))
    def loop_bound(s, I, it, c): return c

class RingDom(Dom):
    """field = names of the field ADTs treated as atomic ring elements; level 'fp' or 'fp2'"""
    def __init__(s, prog, level):
        Dom.__init__(s)
        s.P = prog; s.level = level
        s.p = modulus(prog)
        s.R = PolyRing(s.p)
        if level == 'fp2':
            s.i = s.R.var('i'); s.R.rule('i', s.R.const(-1)); s.R.gauss = s.R.idx['i']
        s.mont_inv = pow(1 << (64 * nlimbs(prog)), -1, s.p)
        s.fty = prog.adt('FpFESTAExt::Fp2' if level == 'fp2' else 'FpFESTA::Fp')
        s.fp = prog.adt('FpFESTA::Fp')
        s.nonzero = []           # irreducible polynomials known to be nonzero
        s.zeros = []             # (varname, Poly): substitutions known to hold
        s.order = []
    def sym(s, name): return R(s.R.var(name))
    def c(s, k): return R(s.R.const(k))
    def lift_const(s, T, v):
        if T['id'] == s.fp and s.level == 'fp':
            limbs = v.f[0].f
            return R(s.R.const(sum(x << 64 * k for k, x in enumerate(limbs)) * s.mont_inv))
        if T['id'] == s.fty and s.level == 'fp2':
            f = [sum(x << 64 * k for k, x in enumerate(c.f[0].f)) * s.mont_inv % s.p for c in v.f]
            return R(s.R.const(f[0]) + s.i * f[1])
        return v
    def mkadt(s, T, v):
        if T['id'] == s.fty: return s.lift_const(T, v)
        return v
    half = property(lambda s: (s.p + 1) // 2)
    def inverse(s, x):
        c = s.zero_cond(x)
        return s.A.ite(c, s.c(0), x.inv())
    def eq_cond(s, x, y): return s.zero_cond(x - y)
    # zero tests -------------------------------------------------
    def normal(s, n):
        for nm, val in s.zeros: n = n.subs(nm, val) if nm in s.R.idx else n
        return n
    def strip(s, n):
        """divide out factors known to be nonzero"""
        if n.iszero(): return n
        ch = True
        while ch and not n.isconst():
            ch = False
            for f in s.nonzero:
                while True:
                    q = n.divexact(f)
                    if q is None: break
                    n = q; ch = True
                    if n.isconst(): break
        return n
    def zero_cond(s, v):
        """0/1 decision diagram for v == 0"""
        n = v.n if isinstance(v, R) else v
        n = s.normal(n)
        if n.iszero(): return 1
        n = s.strip(n)
        n = s.unit(n)
        if n.isconst(): return 0
        # split off monomial factors: x*f == 0 <=> x == 0 or f == 0
        g = n.content_monomial()
        parts = []
        if g:
            m = sum(e << (W * k) for k, e in g.items())
            n = Poly(s.R, {k - m: c for k, c in n.d.items()})
            for k in g: parts.append(Poly(s.R, {1 << (W * k): 1}))
        if not n.isconst(): parts.append(n)
        r = 0
        for q in parts:
            a = s.A.var(('zero', s.radical(q.monic())))
            r = s.A.ite(a, 1, r)
        return r
    def unit(s, n):
        """make the leading coefficient one in F_p(i)"""
        if s.R.gauss is None: return n
        sh = W * s.R.gauss
        top = max(m - (((m >> sh) & MASK) << sh) for m in n.d)
        a = n.d.get(top, 0); b = n.d.get(top + (1 << sh), 0)
        if not b: return n
        k = pow((a*a + b*b) % s.p, -1, s.p)
        return n * (s.R.const(a * k) - s.i * s.R.const(b * k))
    def radical(s, q):
        return q
    def mask(s, c): return s.A.app1(lambda b: 0xFFFFFFFF if b else 0, c)
    def bool_of_mask(s, m):
        def f(x):
            if type(x) is int:
                if x in (0, 0xFFFFFFFF, -1): return int(x != 0)
                raise Unsupported('mask value %r' % x)
            raise Unsupported('mask %r' % (x,))
        return s.A.app1(f, m)
    # field values ----------------------------------------------
    def fv(s, r):
        """field value from a value or reference"""
        v = s.A.top(r)
        while isinstance(v, Ref): v = s.A.top(s.I.load(v))
        return v
    def one(s, f, a): return s.A.app1(lambda x: f(s.leaf(x)), a)
    def two(s, f, a, b): return s.A.app2(lambda x, y: f(s.leaf(x), s.leaf(y)), a, b)
    def leaf(s, x):
        if isinstance(x, R): return x
        raise Unsupported('not a field element: %r' % (x,))
    def binop(s, op, a, b, bits, signed):
        raise Unsupported('integer op %s on %r, %r' % (op, a, b))
    def discr(s, x, T): raise Unsupported('discriminant of %r' % (x,))

def modulus(prog):
    c = prog.consts['festa_rs::fields::FpFESTA::MODULUS']
    b = bytes.fromhex(c['a']['b'])
    return int.from_bytes(b, 'little')
def nlimbs(prog):
    return int.from_bytes(bytes.fromhex(prog.consts['festa_rs::fields::FpFESTA::N']['a']['b']), 'little')
