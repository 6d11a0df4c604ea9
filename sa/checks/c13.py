"""C13: x-only isogenies of odd degree and their chains."""
from ..prog import load
from ..curve import *
from ..report import where
from ..fieldmodels import Roots
from ..terms import Term, TermS
from .c10 import lf
RULE = ('The codomain and evaluation formulas are interpreted with the multiples of the kernel point as indeterminate x-coordinates (a fresh projective scale at each use) and compared with the '
        'product formulas of the isogeny; chains are interpreted over tokens (multiple of a generator, curve) so that every kernel is checked to lie on the right curve and to have order exactly '
        'the prime handled; composition and the choice of sign by value numbering.')

class Mul:
    """multiple m of the kernel point"""
    __slots__ = ('m',)
    def __init__(s, m): s.m = m
    def __eq__(s, o): return isinstance(o, Mul) and s.m == o.m
    def __hash__(s): return hash(('Mul', s.m))
    def __repr__(s): return '%dK' % s.m

class IsoS(CurveS):
    """curve with symbolic points: the kernel point is a token of order d"""
    def __init__(s, P, d, opaque=False):
        CurveS.__init__(s, P)
        s.d = d; s.reads = []; s.opaque = opaque
        I = s.I
        def pv(r):
            v = s.A.top(r)
            while isinstance(v, Ref): v = s.A.top(I.load(v))
            if isinstance(v, Agg):
                X, Y, Z = s.coords(v)
                if isinstance(Z, R) and Z.iszero(): return Mul(0)
            if not isinstance(v, Mul): raise Unsupported('not a multiple of the kernel: %r' % (v,))
            return v
        s.pv = pv
        def op(f, mode='ret'):
            def g(I, fn, a, info):
                if mode == 'ret': return Mul(f(*a[1:]) % d)
                if mode == 'into': I.store(a[1], Mul(f(*a[2:]) % d)); return tup()
                I.store(a[1], Mul(f(*a[1:]) % d)); return tup()
            return g
        M = I.models
        addf = lambda x, y: pv(x).m + pv(y).m; subf = lambda x, y: pv(x).m - pv(y).m
        for n, f, mode in (('add', addf, 'ret'), ('sub', subf, 'ret'), ('add_into', addf, 'into'), ('sub_into', subf, 'into'), ('addto', addf, 'acc'), ('subfrom', subf, 'acc'),
                           ('double', lambda x: 2 * pv(x).m, 'ret'), ('double_into', lambda x: 2 * pv(x).m, 'into'), ('double_self', lambda x: 2 * pv(x).m, 'acc'),
                           ('mul_small', lambda x, k: pv(x).m * s.int(k), 'ret'), ('mul_big', lambda x, k: pv(x).m * s.int(k), 'ret'), ('double_iter', lambda x, k: pv(x).m << s.int(k), 'ret')):
            M[EC + 'Curve::' + n] = op(f, mode)
        def tok_or(name, f):
            fn = P.one(EC + 'Point::' + name)
            def g(I, fn_, a, info):
                v = s.A.top(a[0])
                while isinstance(v, Ref): v = s.A.top(I.load(v))
                return f(v) if isinstance(v, Mul) else I.exec_fn(fn, a)
            M[fn.path] = g
        def rd(v, y=False):
            if v.m == 0: return tup(*([s.c(0)] + ([s.c(1)] if y else []) + [s.c(0)]))
            j = min(v.m, d - v.m); s.reads.append(j)
            n = len(s.reads)
            k = s.sym('k%d' % n) if not s.opaque else s.c(1); s.nz(k)
            x = s.kx(j)
            return tup(x * k, s.sym('yk%d' % n), k) if y else tup(x * k, k)
        tok_or('to_xz', rd); tok_or('to_xyz', lambda v: rd(v, True)); tok_or('isinfinity', lambda v: MASK1 if v.m == 0 else 0)
    def int(s, k):
        k = s.A.top(k)
        while isinstance(k, Ref): k = s.A.top(s.I.load(k))
        if type(k) is not int: raise Unsupported('scalar %r' % (k,))
        return k
    def kx(s, j):
        x = s.sym('u%d' % j); s.nz(x, x - s.c(1), x + s.c(1)); return x
    def make(s):
        return s.exec(EC + 'KummerLineIsogeny::new', s.ref(s.E), s.ref(Mul(1)), s.d)

def codomain_spec(s):
    d = s.d; a, b = s.Av + s.c(2), s.Av - s.c(2)
    a2, b2 = s.c(1), s.c(1)
    for _ in range(d): a2 = a2 * a; b2 = b2 * b
    for j in range(1, (d - 1) // 2 + 1):
        p, m = s.kx(j) + s.c(1), s.kx(j) - s.c(1)
        for _ in range(8): a2 = a2 * p; b2 = b2 * m
    return a2, b2

def run(R_):
    P = load()
    R_.assume += ['extension-field, curve and square-root contracts (C02, C04, C05, C06)', 'the product formulas are those of the x-only isogeny (Costello-Hisil, Meyer-Reith); checked here for degree three from the definition',
                  'in degree comparison the pairing is the contract of C14']
    jobs = []
    KI = EC + 'KummerLineIsogeny::'
    def add(key, f, n):
        r = [x for x in P.find(EC + n) if x.blocks is not None]; jobs.append((key, f, where(r[0]) if r else n))
    def reference3():
        # y' = y * (dX/dx): with A from the three-division polynomial, the image satisfies the equation of the codomain up to a constant
        s = Sess(P, 'fp2'); u, x = s.sym('u'), s.sym('x'); c = s.c
        A = (c(1) - u*u*6 - u*u*u*u*3) * (u*u*u*4).inv()
        N = x * (x*u - c(1)) * (x*u - c(1)); D = (x - u) * (x - u)
        a, b = A + c(2), A - c(2)
        a2, b2 = a*a*a, b*b*b
        for _ in range(8): a2 = a2 * (u + c(1)); b2 = b2 * (u - c(1))
        A2 = (a2 + b2) * c(2) * (a2 - b2).inv()
        # derivative of N/D by the quotient rule
        dN = (x*u - c(1)) * (x*u - c(1)) + x * u * (x*u - c(1)) * 2; dD = (x - u) * 2
        W = dN * D - N * dD                         # X' = W/D^2
        f = x*x*x + A*x*x + x
        lhs = f * W * W                              # y^2 X'^2 * D^4
        rhs = (N*N*N + A2*N*N*D + N*D*D) * D         # f2(X) * D^4
        # lhs = const * rhs, const = leading coefficient ratio u^2
        return (lhs * u * u - rhs).iszero() or 'the reference formula is not an isogeny'
    jobs.append(('reference formula, degree 3', reference3, ''))
    # ---- codomain
    degs = (3, 5, 7) if R_.tier == 'quick' else (3, 5, 7, 9)
    def cod(d):
        def f():
            s = IsoS(P, d)
            a2, b2 = codomain_spec(s)
            s.nz(a2 - b2)
            for j in range(1, (d - 1) // 2 + 1): s.kx(j)
            # the new coefficient is taken where the codomain curve is built, in the form num/den
            got = []
            cn = P.one(EC + 'Curve::new')
            def mk(I, fn, a, info):
                v = s.A.top(s.D.fv(a[0])); got.append(v); return Agg('s', 'Curve', 0, (v,))
            s.I.models[cn.path] = mk
            s.exec(P.one(KI + 'new'), s.ref(s.E), s.ref(Mul(1)), d)
            if not got: raise Unsupported('no codomain curve is constructed')
            g = got[-1]
            w = R((a2 + b2).n * 2, (a2 - b2).n)
            for cube, x in s.A.leaves(g):
                x = s.D.leaf(x)
                # scales of the individual reads cancel; compare after removing common factors
                if x == w: continue
                n1, d1 = s.D.strip(x.n), s.D.strip(x.d)
                if (n1 * w.d - w.n * d1).iszero(): continue
                if (x.n * w.d - w.n * x.d).iszero(): continue
                if cube: raise Unsupported('case distinction in the codomain: %s' % s.show(cube))
                return 'the codomain coefficient is not that of the isogeny of degree %d' % d
            return s.panics()
        return f
    for d in degs: add('codomain/degree %d' % d, cod(d), 'KummerLineIsogeny::compute_codomain_constants')
    def get_cod():
        # the stored codomain is what the accessor returns, on the curve the coefficient belongs to
        s = IsoS(P, 3); a2, b2 = codomain_spec(s); s.nz(a2 - b2, a2, b2); nzA(s)
        phi = s.make(); E2 = s.exec(P.one(KI + 'get_codomain'), s.ref(phi))
        A2 = s.exec(P.one(EC + 'Curve::get_constant'), s.ref(E2))
        return s.equal(s.D.two(lambda x, y: x * (a2 - b2) - y, A2, (a2 + b2) * 2), s.c(0), what='codomain coefficient') or s.panics()
    add('codomain accessor', get_cod, 'KummerLineIsogeny::get_codomain')
    # ---- evaluation
    def ev(d, case):
        def f():
            s = IsoS(P, d); a2, b2 = codomain_spec(s) if d == 3 else (None, None)
            hide_codomain(s)
            phi = s.make()
            cap = []
            lp = P.one(EC + 'Curve::complete_pointX'); xz = P.one(EC + 'PointX::get_xz')
            X, Y, Z = s.sym('X'), s.sym('Y'), s.sym('Z')
            s.nz(Z)
            if case == 'origin': X = s.c(0); Y = s.c(0)
            if case == 'infinity': X = s.c(0); Z = s.c(0)
            if case == 'kernel': X = s.kx(1) * Z
            def lift(I, fn, a, info):
                q = s.exec(xz, a[1]).f; cap.append((s.A.top(a[0]), tuple(q)))
                return tup(s.pt((s.sym('r1'), s.sym('r2'), s.sym('r3'))), MASK1)
            s.I.models[lp.path] = lift
            r = s.exec(P.one(KI + 'evaluate_isogeny'), s.ref(phi), s.ref(s.pt((X, Y, Z))))
            if len(cap) != 1: raise Unsupported('%d lifts' % len(cap))
            E, (x, z) = cap[0]
            if E != s.codo: return 'the image is lifted on a curve other than the codomain'
            N, D = X, Z
            for j in range(1, (d - 1) // 2 + 1):
                u = s.kx(j)
                N = N * (X*u - Z) * (X*u - Z); D = D * (X - Z*u) * (X - Z*u)
            zx = s.A.app1(lambda v: s.D.zero_cond(s.D.leaf(v)), z)
            if case in ('infinity', 'kernel'):
                e = s.equal(zx, 1, what='z-coordinate of the image vanishes')
            else:
                e = s.equal(s.D.two(lambda p, q: p * D - q * N, x, z), s.c(0), what='image')
                if not e and not (lf(s, x).iszero() and case == 'generic') and lf(s, z).iszero(): e = 'image has z = 0'
                if not e and lf(s, z).iszero(): e = 'image has z = 0'
            if e: return e
            c = s.coords(r)
            return s.equal(tup(*c), tup(s.sym('r1'), s.sym('r2'), s.sym('r3')), what='returned point') or s.panics()
        return f
    for d in degs:
        for case in ('generic', 'origin', 'infinity', 'kernel'):
            if d > 5 and case != 'generic': continue
            add('evaluation/degree %d/%s' % (d, case), ev(d, case), 'KummerLineIsogeny::evaluate_isogeny')
    def inf_end():
        s = IsoS(P, 3); Roots(s.D, s.FM); hide_codomain(s); phi = s.make()
        r = s.exec(P.one(KI + 'evaluate_isogeny'), s.ref(phi), s.ref(s.pt((s.c(0), s.c(1), s.c(0)))))
        return s.is_point(r, INF) or s.panics()
    add('evaluation/point at infinity', inf_end, 'KummerLineIsogeny::evaluate_isogeny')
    # ---- number of multiples for the degrees in use
    def mults(d):
        def f():
            s = IsoS(P, d, True); hide_codomain(s)

            # field values are irrelevant here: products become opaque
            s.D.two = lambda f_, a, b: s.c(1)
            s.D.one = lambda f_, a: s.c(1)
            exps = []
            def power(v, e): exps.append(e); return s.c(1)
            s.FM.power = power
            s.make()
            want = set(range(1, (d - 1) // 2 + 1))
            got = sorted(s.reads)
            if set(got) != want: return 'kernel multiples used: %d different, expected %d' % (len(set(got)), len(want))
            if len(got) != len(want): raise Unsupported('multiples are read more than once')
            if [e for e in exps if type(e) is int and e != d]: return 'the curve constants are raised to the power %s' % exps
            return s.panics()
        return f
    big = degrees(P, R_)
    for d in big: add('kernel multiples/degree %d' % d, mults(d), 'KummerLineIsogeny::precompute_edwards_multiples')
    # ---- chains
    for k in list(range(0, 12)) + [20, 40, 64, 70, 130]: add('chain composition/%d steps' % k, chain(P, k), 'evaluate_isogeny_chain')
    for eq in (1, 0): add('basis images/%s' % ('degree-compatible' if eq else 'sign corrected'), basis(P, eq), 'evaluate_isogeny_chain_for_basis')
    lists = [[(3, 1)], [(3, 2)], [(3, 3)], [(5, 4)], [(3, 5)], [(3, 7)], [(3, 1), (5, 1)], [(5, 1), (3, 1)], [(3, 2), (5, 1), (7, 3)], [(59, 2), (6299, 1), (6719, 1), (9181, 1)], [(3, 10), (11, 1)], [(3, 17)], [(3, 17), (5, 2)], []] + [[(l, e)] for l in (3, 5) for e in range(2, 25)] + [[(3, 33)], [(3, 65)], [(5, 2), (3, e)] if 0 else [(7, 1), (3, 30), (5, 6)]] + [[(a, 2), (b, e)] for a, b in ((3, 7), (7, 3)) for e in range(1, 9)]
    for l in lists: add('factored chain/%s' % ' '.join('%d^%d' % x for x in l), factored(P, l), 'factored_kummer_isogeny')
    for nm, l in tables(P): add('factored chain/table %s' % nm, factored(P, l), 'factored_kummer_isogeny')
    R_.parallel(jobs)
    R_.floor('obligations', len(jobs), 40)
    R_.extra['degrees'] = big; R_.extra['level'] = 'proof'

def nzA(s):
    pass

def hide_codomain(s):
    """the codomain curve becomes an opaque curve with coefficient Ac"""
    cn = s.P.one(EC + 'Curve::new')
    s.Ac = s.sym('Ac'); s.nz(s.Ac - s.c(2), s.Ac + s.c(2))
    s.codo = s.I.exec_fn(cn, [s.ref(s.Ac)])
    s.I.models[cn.path] = lambda I, fn, a, info: s.codo

def tables(P):
    out = []
    for n, c in sorted(P.consts.items()):
        nm = n.split('::')[-1]
        if nm.endswith('_FACTORED') and 'a' in c:
            b = bytes.fromhex(c['a']['b'])
            if b and len(b) % 8 == 0:
                w = [int.from_bytes(b[i:i+4], 'little') for i in range(0, len(b), 4)]
                out.append((nm, list(zip(w[::2], w[1::2]))))
    return out

def degrees(P, R_):
    ds = set()
    for nm, l in tables(P): ds |= {p for p, e in l}
    ds = sorted(d for d in ds if d % 2 and d > 1)
    return ds

def point_ops(s):
    """group operations on points as terms"""
    def ng(t): return t.a[0] if isinstance(t, Term) and t.op == 'neg' else Term('neg', t)
    PN = 'std::ops::Neg>::neg'
    for n in ('<festa_rs::ecFESTA::Point as %s' % PN, '<&festa_rs::ecFESTA::Point as %s' % PN): s.I.models[n] = lambda I, fn, a, info: ng(s.val(a[0]))
    def sn(I, fn, a, info): I.store(a[0], ng(s.val(a[0]))); return tup()
    s.I.models[EC + 'Point::set_neg'] = sn
    for n in ('add', 'sub', 'double', 'double_iter', 'mul_small', 'mul_big'): s.uf(EC + 'Curve::' + n, n)

def chain(P, k):
    def f():
        s = TermS(P); T = Term
        s.uf(EC + 'KummerLineIsogeny::evaluate_isogeny', 'eval'); s.uf(EC + 'KummerLineIsogeny::get_codomain', 'cod')
        point_ops(s)
        ch = s.ref(vec([T('phi%d' % i) for i in range(k)]))
        r = s.exec(P.one(EC + 'evaluate_isogeny_chain'), s.ref(T('E')), s.ref(T('P')), ch)
        w = T('P')
        for i in range(k): w = T('eval', T('phi%d' % i), w)
        E = T('cod', T('phi%d' % (k - 1))) if k else T('E')
        got = [s.val(x) for x in r.f]
        if got[1] != w: return 'the point is %r' % (got[1],)
        if got[0] != E: return 'the curve is %r' % (got[0],)
        return s.panics()
    return f

def basis(P, eq):
    def f():
        s = TermS(P); T = Term; N, d = T('order'), T('degree')
        s.uf('festa_rs::pairing::weil_pairing', 'e')
        def ch(I, fn, a, info):
            e, p, c = [s.val(x) for x in a]
            return tup(T('codomain', e, T('chain')), T('img', e, p, T('chain')))
        ch_arg = s.ref(T('chain'))
        s.I.models[EC + 'evaluate_isogeny_chain'] = ch
        F2 = 'festa_rs::fields::FpFESTAExt::Fp2::'
        s.uf(F2 + 'pow_big', 'pow')
        for m in ('pow', 'invert', 'conj'): s.uf(F2 + m, m)
        A = s.A
        e0 = T('e', T('E'), T('P'), T('Q'), N); E2 = T('codomain', T('E'), T('chain'))
        iP, iQ = T('img', T('E'), T('P'), T('chain')), T('img', T('E'), T('Q'), T('chain'))
        e1 = T('e', E2, iP, iQ, N); good = frozenset([T('pow', e0, d), e1])
        seen = []
        def eqs(I, fn, a, info):
            x, y = s.val(a[0]), s.val(a[1])
            if frozenset([x, y]) != good: seen.append((x, y)); raise Unsupported('comparison of %r and %r' % (x, y))
            m = info and fn.path.endswith('::ne')
            return (MASK1 if eq else 0)
        s.I.models[F2 + 'equals'] = eqs
        pe = '<festa_rs::fields::FpFESTAExt::Fp2 as std::cmp::PartialEq>::'
        def cmpf(ne):
            def g(I, fn, a, info): return int(bool(eqs(I, fn, a, info)) != ne)
            return g
        s.I.models[pe + 'eq'] = cmpf(False); s.I.models[pe + 'ne'] = cmpf(True)
        neg = lambda I, fn, a, info: T('neg', s.val(a[0]))
        for n in ('<festa_rs::ecFESTA::Point as std::ops::Neg>::neg', '<&festa_rs::ecFESTA::Point as std::ops::Neg>::neg'): s.I.models[n] = neg
        def setneg(I, fn, a, info): I.store(a[0], T('neg', s.val(a[0]))); return tup()
        def condneg(I, fn, a, info):
            c = s.A.top(a[1])
            if c not in (0, MASK1, -1): raise Unsupported('mask')
            if c: I.store(a[0], T('neg', s.val(a[0])))
            return tup()
        s.I.models[EC + 'Point::set_neg'] = setneg; s.I.models[EC + 'Point::set_condneg'] = condneg
        try: r = s.exec(P.one(EC + 'evaluate_isogeny_chain_for_basis'), s.ref(T('E')), s.ref(tup(T('P'), T('Q'))), ch_arg, s.ref(N), s.ref(d))
        except Unsupported as ex:
            if seen: return 'the sign is decided by comparing %r with %r' % seen[0]
            raise
        got = [s.val(x) for x in r.f]
        pair = tuple(s.val(x) for x in (got[1].f if isinstance(got[1], Agg) else got[1]))
        if got[0] != E2: return 'the curve is %r' % (got[0],)
        n = lambda t: T('neg', t)
        ok = [(iP, iQ), (n(iP), n(iQ))] if eq else [(iP, n(iQ)), (n(iP), iQ)]
        if pair not in ok: return 'the images returned are %r' % (pair,)
        return s.panics()
    return f

class Cyc:
    """c times the image of the kernel generator on curve number E, where the generator has order N"""
    __slots__ = ('c', 'N', 'E')
    def __init__(s, c, N, E): s.c = c % N; s.N = N; s.E = E
    def __eq__(s, o): return isinstance(o, Cyc) and (s.c, s.N, s.E) == (o.c, o.N, o.E)
    def __hash__(s): return hash((s.c, s.N, s.E))
    def order(s):
        from math import gcd
        return s.N // gcd(s.c, s.N)
    def __repr__(s): return 'point of order %d on curve %s' % (s.order(), s.E)

class Wrong(Exception): pass

def factored(P, fac):
    def f():
        s = TermS(P, fuel=80000000); I = s.I; M = I.models
        N0 = 1
        for p, e in fac: N0 *= p ** e
        wrong = []
        def bad(m): wrong.append(m); raise Unsupported(m)
        class Phi:
            __slots__ = ('l', 'src', 'dst', 'N')
        n = [0]; made = []
        def new(I, fn, a, info):
            E, K, l = s.val(a[0]), s.val(a[1]), s.A.top(a[2])
            if K.E != E: bad('the kernel %r is given for curve %s' % (K, E))
            if K.order() != l: bad('step %d of degree %s: kernel of order %d' % (n[0], l, K.order()))
            p = Phi(); n[0] += 1; p.l = l; p.src = E; p.N = K.N // l; p.dst = 'E%d' % n[0]; made.append(p)
            return p
        def ev(I, fn, a, info):
            p, Q = s.val(a[0]), s.val(a[1])
            if Q.E != p.src: bad('%r pushed through an isogeny from %s' % (Q, p.src))
            return Cyc(Q.c, p.N, p.dst)
        def mul(I, fn, a, info):
            E, Q, k = s.val(a[0]), s.val(a[1]), s.val(a[2])
            if type(k) is not int: raise Unsupported('scalar')
            if Q.E != E: bad('multiplication on %s of %r' % (E, Q))
            return Cyc(Q.c * k, Q.N, Q.E)
        M[EC + 'KummerLineIsogeny::new'] = new; M[EC + 'KummerLineIsogeny::evaluate_isogeny'] = ev
        M[EC + 'KummerLineIsogeny::get_codomain'] = lambda I, fn, a, info: s.val(a[0]).dst
        M[EC + 'Curve::mul_small'] = mul; M[EC + 'Curve::mul_big'] = mul
        M[EC + 'Point::isinfinity'] = lambda I, fn, a, info: MASK1 if s.val(a[0]).c == 0 else 0
        cl = lambda I, fn, a, info: s.val(a[0])
        for t in ('Point', 'Curve'): M['<festa_rs::ecFESTA::%s as std::clone::Clone>::clone' % t] = cl
        flat = arr([tup(p, e) for p, e in fac]); buf = s.ref(flat); sl = Ref(buf.cell, (), (0, len(fac)))
        try: r = s.exec(P.one(EC + 'factored_kummer_isogeny'), s.ref('E0'), s.ref(Cyc(1, N0, 'E0')), sl)
        except Unsupported:
            if wrong: return wrong[0]
            raise
        got = s.val(r)
        if not isinstance(got, tuple): raise Unsupported('result %r' % (got,))
        at = 'E0'
        for i, p in enumerate(got):
            if p.src != at: return 'isogeny %d starts at %s, the previous one ends at %s' % (i, p.src, at)
            at = p.dst
        from collections import Counter
        want = Counter(); 
        for p, e in fac: want[p] += e
        have = Counter(p.l for p in got)
        if have != +want: return 'degrees of the chain: %s, expected %s' % (dict(have), dict(want))
        if got and got[-1].N != 1: return 'the kernel is not exhausted'
        return s.panics()
    return f
