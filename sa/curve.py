"""Curve-level analysis sessions: Montgomery curve with indeterminate coefficient, points by semantic class."""
from .harness import *

EC = 'festa_rs::ecFESTA::'
INF = 'inf'

class CurveS(Sess):
    def __init__(s, P, A=None):
        Sess.__init__(s, P, 'fp2')
        s.Av = s.sym('A') if A is None else A
        for k in (2, -2):
            d = (s.Av - s.c(k)).n
            if not d.isconst(): s.D.nonzero.append(d.monic())
        s.E = s.exec(EC + 'Curve::new', s.ref(s.Av))
        s.evs = len(s.I.events)
    def one(s, x): return s.P.one(x)
    def nz(s, *rs):
        for r in rs:
            for q in ((r.n, r.d) if isinstance(r, R) else (r,)):
                if not q.isconst(): s.D.nonzero.append(q.monic())
    def rhs(s, x): return (x*x + s.Av*x + s.c(1)) * x
    def generic(s, n):
        """affine generic point (x, y) with y^2 = x^3+Ax^2+x; y and x treated as non-zero only when stated"""
        x = s.sym('x' + n); y = s.sym('y' + n)
        r = s.rhs(x)
        assert r.d.isconst()
        s.D.R.rule('y' + n, r.n * pow(r.d.constval(), -1, s.D.p))
        return (x, y)
    def curve(s): return s.E
    def nz_y(s, p):
        """p is not a two-torsion point"""
        s.nz(p[1], p[0], p[0]*p[0] + s.Av*p[0] + s.c(1))
    def pt(s, p, scale=None):
        """library point for an affine pair (x,y) or a raw projective triple"""
        if len(p) == 3: x, y, z = p
        else:
            k = s.sym(scale) if scale else s.c(1)
            if scale: s.nz(k)
            x, y, z = p[0]*k, p[1]*k, k
        return s.exec(EC + 'Curve::point_xyz_nocheck', s.E, s.ref(x), s.ref(y), s.ref(z))
    def coords(s, P):
        t = s.exec(EC + 'Point::to_xyz', P)
        return t.f
    # reference group law
    def neg(s, p): return INF if p == INF else (p[0], -p[1])
    def add(s, p, q):
        if p == INF: return q
        if q == INF: return p
        if (p[0] - q[0]).iszero():
            if (p[1] + q[1]).iszero(): return INF
            l = (p[0]*p[0]*3 + s.Av*p[0]*2 + s.c(1)) * (p[1]*2).inv()
        else: l = (q[1] - p[1]) * (q[0] - p[0]).inv()
        x = l*l - s.Av - p[0] - q[0]
        y = l*(p[0] - x) - p[1]
        return (x, y)
    # verdicts
    def panics(s):
        ev = [e for e in s.I.events[s.evs:] if e.kind == 'panic']
        return 'can panic: %r' % ev[0] if ev else None
    def is_point(s, P, want, what='result'):
        """None when the library point equals `want` (affine pair or INF) in every feasible case"""
        X, Y, Z = s.coords(P)
        return s.is_proj((X, Y, Z), want, what)
    def is_proj(s, XYZ, want, what='result'):
        X, Y, Z = XYZ
        zc = s.A.app1(lambda v: s.D.zero_cond(s.D.leaf(v)), Z)
        e = s.equal(zc, 1 if want == INF else 0, what=what + ': at infinity')
        if e: return e
        if want == INF: return None
        for c, w, n in ((X, want[0], 'x'), (Y, want[1], 'y')):
            if w is None: continue
            e = s.equal(s.D.two(lambda a, b: a - b * w, c, Z), s.D.c(0), what='%s: %s-coordinate' % (what, n))
            if e: return e
        return None

class TorsionS(CurveS):
    """curve with A = -(t+1/t): (t,0) and (1/t,0) have order two"""
    def __init__(s, P):
        Sess.__init__(s, P, 'fp2')
        t = s.sym('t')
        s.t = t
        s.D.nonzero += [t.n, (t - s.c(1)).n, (t + s.c(1)).n]
        s.Av = -(t + t.inv())
        s.E = s.exec(EC + 'Curve::new', s.ref(s.Av))
        s.evs = len(s.I.events)
    def generic(s, n):
        x = s.sym('x' + n); w = s.sym('w' + n)
        # y^2 = x(x-t)(x-1/t); with y = w/t: w^2 = t x (x-t)(t x - 1)
        r = s.t * x * (x - s.t) * (s.t * x - s.c(1))
        s.D.R.rule('w' + n, r.n)
        return (x, w * s.t.inv())
