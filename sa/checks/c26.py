"""C26: isomorphisms between Montgomery models."""
from ..prog import load
from ..harness import *
from ..fieldmodels import Roots
from ..report import where
EC = 'festa_rs::ecFESTA::'
RULE = ('Pairs of isomorphic Montgomery curves are parametrised by a rational function (the three choices of the two-torsion point moved to the origin, both signs); the map built for such a pair is '
        'evaluated at a generic point of the domain and the image must satisfy the equation of the codomain identically; the point at infinity must be fixed and the scaling of the point must not matter.')

def run(R_):
    P = load()
    R_.assume += ['extension-field contracts (C02, C07); the scaling factor is a square, as for curves isomorphic over the field itself', 'an affine-linear map between elliptic curves fixing infinity is a homomorphism', 'the coefficients are not zero (j different from 1728) unless they are equal']
    jobs = []
    CI = EC + 'CurveIsomorphism::'
    def add(key, f, n):
        r = [x for x in P.find(CI + n) if x.blocks is not None]; jobs.append((key, f, where(r[0]) if r else n))
    def curves(s, case):
        c = s.c; t = s.sym('t')
        def div(x, y): return x * y.inv()
        D = s.D
        if case in ('equal', 'opposite', 'twice zero'):
            A = s.sym('A') if case != 'twice zero' else c(0)
            return A, (A if case != 'opposite' else -A)
        # the factors of the coefficients, of their sum and difference, and of A^2 - 3
        t2 = t*t; t4 = t2*t2
        nz(s, t, t + c(1), t - c(1), t2 + c(1), t4 + c(1), t4 + t2.scale(6) + c(1), t2 + t.scale(2) - c(1), t2 - t.scale(2) - c(1))
        for g in (1, -1): nz(s, t4 + (t2*t).scale(2*g) + t2.scale(2) - t.scale(2*g) + c(1))
        al = div(t*t + c(1), t.scale(2)); mu = div(t*t - c(1), t.scale(2))
        if case == 'first, minus': mu = -mu
        A2 = -(al + al.inv()); A1 = al * mu.inv() + mu * al.inv()
        if case == 'from the other root': A1, A2 = A2, A1
        if case == 'from the other root, minus': A1, A2 = A2, -A1
        return A2, A1
    def nz(s, *rs):
        for r in rs:
            for q in (r.n, r.d):
                if not q.isconst(): s.D.nonzero.append(q.monic())
    def setup(case):
        s = Sess(P, 'fp2'); ro = Roots(s.D, s.FM, [1] * 40)
        A2, A1 = curves(s, case)
        if case in ('equal', 'opposite'): nz(s, A2, A2*A2 - s.c(4))
        a = P.adt('ecFESTA::Curve'); i = P.fieldidx(a, 'A'); n = len(P.ty[a]['v'][0]['f'])
        def mk(A):
            f = [Opaque('A24')] * n; f[i] = A
            return Agg('s', None, 0, tuple(f))
        iso = s.exec(P.one(CI + 'new'), s.ref(mk(A2)), s.ref(mk(A1)))
        for x, q in ro.roots:
            if s.D.zero_cond(x) == 0: nz(s, q)   # the root of a non-zero element
        return s, A2, A1, iso
    def point(case, kind):
        def f():
            s, A2, A1, iso = setup(case); c = s.c; D = s.D
            if kind.startswith('infinity'):
                y = s.sym('y'); nz(s, y)
                if kind.endswith('one'): y = c(1)
                r = s.exec(P.one(CI + 'eval'), s.ref(iso), s.ref(Agg('s', None, 0, (c(0), y, c(0)))))
                z = s.D.leaf(s.A.top(r.f[2]))
                if not D.normal(z.n).iszero(): return 'the point at infinity is mapped to an affine point'
                return pan(s)
            x = s.sym('x'); k = s.sym('k'); nz(s, k); y = s.sym('y'); nz(s, x, y)
            rhs = (x*x + A2*x + c(1)) * x
            if kind == 'two-torsion origin': x = c(0); y = c(0)
            else:
                n = rhs.n * rhs.d; y = R(y.n, rhs.d)     # y = Y/d with Y^2 = n*d
                D.R.rule('y', n)
            r = s.exec(P.one(CI + 'eval'), s.ref(iso), s.ref(Agg('s', None, 0, (x*k, y*k, k))))
            X, Y, Z = r.f
            e = s.equal(s.FM.bin('mul', s.FM.un('square', Y), Z), s.FM.bin('mul', s.FM.bin('add', s.FM.un('square', X), s.FM.bin('add', s.FM.bin('mul', s.FM.bin('mul', A1, X), Z), s.FM.un('square', Z))), X), what='equation of the codomain')
            if e: return e
            e = s.equal(s.FM.zc(Z), 0, what='an affine point mapped to infinity')
            if e: return e
            if kind == 'generic':
                e = s.equal(s.FM.zc(Y), 0, what='the image of a point outside the two-torsion has order two')
                if e: return e
            return pan(s)
        return f
    def pan(s):
        ev = [e for e in s.I.events if e.kind == 'panic']
        return 'can panic: %r' % ev[0] if ev else None
    for case in ('equal', 'opposite', 'twice zero', 'first', 'first, minus', 'from the other root', 'from the other root, minus'):
        for kind in ('generic', 'two-torsion origin', 'infinity', 'infinity, coordinate one'): add('%s coefficients/%s' % (case, kind) if case in ('equal', 'opposite') else '%s/%s' % (case, kind), point(case, kind), 'eval')
    R_.parallel(jobs)
    R_.floor('obligations', len(jobs), 28)
    R_.extra['level'] = 'proof'
