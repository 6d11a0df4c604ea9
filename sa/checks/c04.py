"""C04: the point operations are the complete group law."""
from ..prog import load
from ..curve import *
from ..report import where
RULE = ('Abstract interpretation of the point operations with the operands in each semantic class (infinity in any representation, generic, equal, opposite, '
        'two-torsion; independent projective scales); the result must be the chord-and-tangent sum as a rational function modulo the curve equation, and the '
        'denominator must be provably non-zero exactly when the sum is not the point at infinity.')

def classes(P):
    """name -> callable building (session, p, q, scales) with p, q affine or INF triples"""
    def gen():
        s = CurveS(P); a = s.generic('1'); b = s.generic('2'); s.nz(a[0] - b[0]); return s, a, b
    def same():
        s = CurveS(P); a = s.generic('1'); s.nz_y(a); return s, a, a
    def opp():
        s = CurveS(P); a = s.generic('1'); s.nz_y(a); return s, a, s.neg(a)
    def t00():
        s = CurveS(P); z = (s.c(0), s.c(0)); return s, z, z
    def tt():
        s = TorsionS(P); z = (s.t, s.c(0)); return s, z, z
    def ttu():
        s = TorsionS(P); z = (s.t, s.c(0)); return s, z, (s.c(0), s.c(0))
    def ttv():
        s = TorsionS(P); return s, (s.t, s.c(0)), (s.t.inv(), s.c(0))
    def gent():
        s = TorsionS(P); a = s.generic('1'); s.nz(a[0] - s.t); return s, a, (s.t, s.c(0))
    def gen0():
        s = CurveS(P); a = s.generic('1'); s.nz(a[0]); return s, a, (s.c(0), s.c(0))
    def diff2():
        # Q = P + (0,0) = (1/x, -y/x^2): the difference has order two
        s = CurveS(P); a = s.generic('1'); s.nz_y(a); s.nz(a[0] - s.c(1), a[0] + s.c(1)); return s, a, (a[0].inv(), -(a[1] * (a[0]*a[0]).inv()))
    return dict(generic=gen, equal=same, opposite=opp, order2_origin=t00, order2_other=tt, order2_distinct=ttu, order2_distinct2=ttv, plus_order2=gent, plus_origin=gen0,
                differ_by_order2=diff2)

def run(R_):
    P = load()
    R_.assume += ['extension-field contracts (C02)', 'two elements are compared through the x/y quotients; a point with Z=0 is the point at infinity']
    cl = classes(P)
    infs = {'(0:Y:0)': lambda s: (s.c(0), s.sym('Yi'), s.c(0)), '(0:0:0)': lambda s: (s.c(0), s.c(0), s.c(0)), '(X:Y:0)': lambda s: (s.sym('Xi'), s.sym('Yi'), s.c(0))}
    ops = {
        'add': lambda s, p, q: s.exec(EC + 'Curve::add', s.E, s.ref(p), s.ref(q)),
        'sub': lambda s, p, q: s.exec(EC + 'Curve::sub', s.E, s.ref(p), s.ref(q)),
    }
    def inpl(name, acc):
        def f(s, p, q):
            r = s.ref(p if acc else s.pt((s.sym('u1'), s.sym('u2'), s.sym('u3'))))
            if acc: s.exec(EC + 'Curve::' + name, s.E, r, s.ref(q))
            else: s.exec(EC + 'Curve::' + name, s.E, r, s.ref(p), s.ref(q))
            return s.load(r)
        return f
    ops['add_into'] = inpl('add_into', 0); ops['addto'] = inpl('addto', 1); ops['sub_into'] = inpl('sub_into', 0); ops['subfrom'] = inpl('subfrom', 1)
    n = 0
    for op, f in ops.items():
        fn = P.one(EC + 'Curve::' + op)
        minus = op.startswith('sub')
        for cn, mk in cl.items():
            def go():
                s, a, b = mk()
                b2 = s.neg(b) if minus else b
                r = f(s, s.pt(a, 's1'), s.pt(b2, 's2'))
                return s.is_point(r, s.add(a, b)) or s.panics()
            R_.attempt('%s/%s' % (op, cn), go, where(fn)); n += 1
        for i1, m1 in infs.items():
            for side in (0, 1):
                def go():
                    s = CurveS(P); a = s.generic('1')
                    p, q = s.pt(m1(s)), s.pt(a, 's1')
                    if side: p, q = q, p
                    r = f(s, p, q)
                    return s.is_point(r, a if (side or not minus) else s.neg(a)) or s.panics()
                R_.attempt('%s/%s %s' % (op, 'P + ' if side else '', i1 + ('' if side else ' + P')), go, where(fn)); n += 1
            def go():
                s = CurveS(P)
                r = f(s, s.pt(m1(s)), s.pt((s.c(0), s.sym('Yj'), s.c(0))))
                return s.is_point(r, INF) or s.panics()
            R_.attempt('%s/%s + inf' % (op, i1), go, where(fn)); n += 1
    # doubling
    def dcl():
        def gen():
            s = CurveS(P); a = s.generic('1'); s.nz_y(a); return s, a
        def t00():
            s = CurveS(P); return s, (s.c(0), s.c(0))
        def tt():
            s = TorsionS(P); return s, (s.t, s.c(0))
        return {'generic': gen, 'order2_origin': t00, 'order2_other': tt}
    def d_double(s, p): return s.exec(EC + 'Curve::double', s.E, s.ref(p))
    def d_into(s, p):
        r = s.ref(s.pt((s.sym('u1'), s.sym('u2'), s.sym('u3')))); s.exec(EC + 'Curve::double_into', s.E, r, s.ref(p)); return s.load(r)
    def d_self(s, p):
        r = s.ref(p); s.exec(EC + 'Curve::double_self', s.E, r); return s.load(r)
    def d_coords(s, p):
        c = s.coords(p); t = s.exec(EC + 'Curve::double_from_coords', s.E, *[s.ref(x) for x in c]); return s.pt(tuple(t.f))
    def d_iter1(s, p): return s.exec(EC + 'Curve::double_iter', s.E, s.ref(p), 1)
    for dn, f in (('double', d_double), ('double_into', d_into), ('double_self', d_self), ('double_from_coords', d_coords), ('double_iter', d_iter1)):
        fn = P.one(EC + 'Curve::' + dn)
        for cn, mk in dcl().items():
            def go():
                s, a = mk(); r = f(s, s.pt(a, 's1')); return s.is_point(r, s.add(a, a)) or s.panics()
            R_.attempt('%s/%s' % (dn, cn), go, where(fn)); n += 1
        for i1, m1 in infs.items():
            def go():
                s = CurveS(P); r = f(s, s.pt(m1(s))); return s.is_point(r, INF) or s.panics()
            R_.attempt('%s/%s' % (dn, i1), go, where(fn)); n += 1
    fn = P.one(EC + 'Curve::double_iter')
    def o4(): # (1, y) with y^2 = A + 2 doubles to (0,0)
        s = CurveS(P); s.sym('y1'); s.D.R.rule('y1', (s.Av + s.c(2)).n); s.nz(s.sym('y1')); return s, (s.c(1), s.sym('y1'))
    for k, mk, cn in ((0, dcl()['generic'], 'generic'), (2, o4, 'order4'), (1, o4, 'order4'), (2, dcl()['order2_other'], 'order2_other'), (2, dcl()['order2_origin'], 'order2_origin')):
        def go():
            s, a = mk(); r = s.exec(fn, s.E, s.ref(s.pt(a, 's1')), k); w = a
            for _ in range(k): w = s.add(w, w)
            return s.is_point(r, w) or s.panics()
        R_.attempt('double_iter coordinates/%s n=%d' % (cn, k), go, where(fn)); n += 1
    def go():
        s, a = dcl()['generic'](); d = s.add(a, a); s.nz(d[1])
        f = a[0]*a[0] - s.c(1); s.nz(f, a[0] - s.c(1), a[0] + s.c(1))
        r = s.exec(fn, s.E, s.ref(s.pt(a, 's1')), 2)
        w = s.exec(P.one(EC + 'Curve::double'), s.E, s.ref(s.exec(P.one(EC + 'Curve::double'), s.E, s.ref(s.pt(a, 's1')))))
        return s.equal(proj_eq(s, s.coords(r), s.coords(w)), tup(s.c(0), s.c(0), s.c(0)), what='double_iter(2) against two doublings')
    R_.attempt('double_iter coordinates/generic n=2', go, where(fn)); n += 1
    # x-only doubling
    fn = P.one(EC + 'Curve::x_dbl_coords')
    for cn, mk in dcl().items():
        def go():
            s, a = mk(); k = s.sym('s1'); s.nz(k)
            t = s.exec(fn, s.E, s.ref(a[0]*k), s.ref(k))
            w = s.add(a, a)
            zc = s.A.app1(lambda v: s.D.zero_cond(s.D.leaf(v)), t.f[1])
            e = s.equal(zc, 1 if w == INF else 0, what='at infinity')
            if e or w == INF:
                if not e:
                    xc = s.A.app1(lambda v: s.D.zero_cond(s.D.leaf(v)), t.f[0]); return s.equal(xc, 0, what='both coordinates vanish')
                return e
            return s.equal(s.D.two(lambda p, q: p - q * w[0], t.f[0], t.f[1]), s.c(0), what='x-coordinate')
        R_.attempt('x_dbl_coords/%s' % cn, go, where(fn)); n += 1
    def go():
        s = CurveS(P); x = s.sym('Xi'); s.nz(x); t = s.exec(fn, s.E, s.ref(x), s.ref(s.c(0)))
        return s.equal(s.A.app1(lambda v: s.D.zero_cond(v), t.f[1]), 1, what='infinity') or s.equal(s.A.app1(lambda v: s.D.zero_cond(v), t.f[0]), 0, what='X of infinity')
    R_.attempt('x_dbl_coords/(X:0)', go, where(fn)); n += 1
    # repeated doubling: number of doublings (each call is one doubling step of a group token)
    count_doublings(R_, P)
    # negation
    def negs(): return [f for f in P.fn.values() if f.local and f.blocks and f.path in ('<festa_rs::ecFESTA::Point as std::ops::Neg>::neg', '<&festa_rs::ecFESTA::Point as std::ops::Neg>::neg')]
    for f in negs() + [P.one(EC + 'Point::set_neg')]:
        for cn in ('generic', 'inf'):
            def go():
                s = CurveS(P); a = s.generic('1'); p = s.pt(a, 's1') if cn == 'generic' else s.pt(infs['(0:Y:0)'](s))
                if 'set_neg' in f.path:
                    r = s.ref(p); s.exec(f, r); v = s.load(r)
                else: v = s.exec(f, s.ref(p) if P.ty[f.locals[1]]['t'] == 'ref' else p)
                return s.is_point(v, s.neg(a) if cn == 'generic' else INF)
            R_.attempt('neg:%s/%s' % (f.path.replace('festa_rs::ecFESTA::', ''), cn), go, where(f)); n += 1
    for ctl in (0, 1):
        def go():
            s = CurveS(P); a = s.generic('1'); r = s.ref(s.pt(a, 's1')); s.exec(EC + 'Point::set_condneg', r, MASK1 if ctl else 0)
            return s.is_point(s.load(r), s.neg(a) if ctl else a)
        R_.attempt('set_condneg/%d' % ctl, go, where(P.one(EC + 'Point::set_condneg'))); n += 1
        def go():
            s = CurveS(P); a = s.generic('1'); b = s.generic('2'); r = s.ref(s.pt(a, 's1')); s.exec(EC + 'Point::set_cond', r, s.ref(s.pt(b, 's2')), MASK1 if ctl else 0)
            return s.is_point(s.load(r), b if ctl else a)
        R_.attempt('set_cond/%d' % ctl, go, where(P.one(EC + 'Point::set_cond'))); n += 1
    # equality
    eqf = P.one(EC + 'Point::equals')
    EQ = {'generic': 0, 'equal': 1, 'opposite': 0, 'order2_origin': 1, 'order2_other': 1, 'order2_distinct': 0, 'plus_origin': 0, 'differ_by_order2': 0}
    for cn, w in EQ.items():
        def go():
            s, a, b = cl[cn]()
            return s.equal(s.exec(eqf, s.pt(a, 's1'), s.ref(s.pt(b, 's2'))), MASK1 if w else 0) or s.panics()
        R_.attempt('equals/%s' % cn, go, where(eqf)); n += 1
    for i1, m1 in infs.items():
        for i2, m2 in infs.items():
            def go():
                s = CurveS(P); p = s.pt(m1(s)); t = m2(s); q = s.pt(t)
                return s.equal(s.exec(eqf, p, s.ref(q)), MASK1)
            R_.attempt('equals/%s and %s' % (i1, i2), go, where(eqf)); n += 1
        for side in (0, 1):
            def go():
                s = CurveS(P); p = s.pt(m1(s)); q = s.pt(s.generic('1'), 's1')
                if side: p, q = q, p
                return s.equal(s.exec(eqf, p, s.ref(q)), 0)
            R_.attempt('equals/%s against P, side %d' % (i1, side), go, where(eqf)); n += 1
    # accessors
    for cn in ('generic', 'inf'):
        def go():
            s = CurveS(P); a = s.generic('1'); p = s.pt(a, 's1') if cn == 'generic' else s.pt(infs['(X:Y:0)'](s))
            e = s.equal(s.exec(EC + 'Point::isinfinity', p), 0 if cn == 'generic' else MASK1, what='isinfinity')
            if e: return e
            t = s.exec(EC + 'Point::to_xy', p)
            e = s.equal(t.f[0], a[0] if cn == 'generic' else s.c(0), what='to_xy.x') or s.equal(t.f[1], a[1] if cn == 'generic' else s.c(0), what='to_xy.y')
            if e: return e
            o = s.A.top(s.exec(EC + 'Point::to_xy_vartime', p))
            if isinstance(o, Ite): return 'to_xy_vartime undecided'
            if cn == 'inf': return None if o.var == 0 else 'to_xy_vartime of infinity is not None'
            if o.var != 1: return 'to_xy_vartime of a finite point is None'
            return s.equal(o.f[0], tup(*a), what='to_xy_vartime')
        R_.attempt('accessors/%s' % cn, go, where(P.one(EC + 'Point::to_xy'))); n += 1
    product(R_, P)
    R_.floor('point operation cases', n, 150)

def proj_eq(s, a, b):
    t = s.D.two
    c = lambda i, j: t(lambda x, y: x - y, t(lambda x, y: x * y, a[i], b[j]), t(lambda x, y: x * y, a[j], b[i]))
    return tup(c(0, 1), c(0, 2), c(1, 2))

class Tok:
    """group element c*P_i (linear form over independent points), tagged with the curve it lives on"""
    __slots__ = ('e', 'E')
    def __init__(s, e, E): s.e = frozenset((k, v) for k, v in dict(e).items() if v); s.E = E
    def __eq__(s, o): return isinstance(o, Tok) and s.e == o.e and s.E == o.E
    def __hash__(s): return hash((s.e, s.E))
    def __repr__(s): return '+'.join('%s*%s' % (v, k) for k, v in sorted(s.e)) or 'O'
    def lin(s, k, o=None, m=0):
        d = {a: v * k for a, v in s.e}
        if o is not None:
            for a, v in o.e: d[a] = d.get(a, 0) + m * v
        return Tok(d, s.E)

def group_models(s):
    """point operations replaced by the group law on linear forms (justified by the cases above)"""
    I = s.I
    def ptv(r):
        v = s.A.top(r)
        while isinstance(v, Ref): v = s.A.top(I.load(v))
        if isinstance(v, Agg): # the INFINITY constant
            return Tok({}, None)
        if not isinstance(v, Tok): raise Unsupported('not a point token: %r' % (v,))
        return v
    def crv(r):
        v = s.A.top(r)
        while isinstance(v, Ref): v = s.A.top(I.load(v))
        return v
    def chk(E, *ts):
        for t in ts:
            if t.E is not None and t.E != E: s.wrong.append('operation of curve %s applied to a point of %s' % (E, t.E))
    s.wrong = []
    def op2(k, m, mode):
        def f(I, fn, a, info):
            E = crv(a[0])
            if mode == 'ret': x, y = ptv(a[1]), ptv(a[2])
            elif mode == 'into': x, y = ptv(a[2]), ptv(a[3])
            else: x, y = ptv(a[1]), ptv(a[2])
            chk(E, x, y); r = x.lin(k, y, m); r = Tok(r.e, E)
            if mode == 'ret': return r
            I.store(a[1], r); return tup()
        return f
    M = I.models
    for n, k, m, mode in (('add', 1, 1, 'ret'), ('sub', 1, -1, 'ret'), ('add_into', 1, 1, 'into'), ('sub_into', 1, -1, 'into'), ('addto', 1, 1, 'acc'), ('subfrom', 1, -1, 'acc')):
        M[EC + 'Curve::' + n] = op2(k, m, mode)
    def dbl(mode):
        def f(I, fn, a, info):
            E = crv(a[0]); x = ptv(a[2] if mode == 'into' else a[1]); chk(E, x); r = Tok(x.lin(2).e, E)
            if mode == 'ret': return r
            I.store(a[1], r); return tup()
        return f
    M[EC + 'Curve::double'] = dbl('ret'); M[EC + 'Curve::double_into'] = dbl('into'); M[EC + 'Curve::double_self'] = dbl('self')
    return ptv

def tok_session(P):
    D = Dom(); D.level = 'tok'
    s = Sess.__new__(Sess); s.P = P; s.D = D; s.A = D.A; s.I = Interp(P, D, fuel=20000000); s.level = 'tok'
    return s

COUNTS = tuple(range(0, 35)) + (63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 631, 632, 633, 634, 635, 700, 1000, 1023, 1024, 1025, 1291, 2047, 2048, 2049, 4096, 4097, 65535, 65537)
def count_doublings(R_, P):
    fn = P.one(EC + 'Curve::double_iter')
    for n in COUNTS + ((5000, 70000, 131072) if R_.tier == 'thorough' else ()):
        def go():
            s = tok_session(P); group_models(s)
            E = 'E'; p = Tok({'P': 1}, E)
            r = s.I.exec_fn(fn, [E, s.I.ref(p), n])
            if isinstance(r, Ref): r = s.load(r)
            return r == Tok({'P': 1 << n}, E) or 'double_iter(%d) performs a different multiple: bit length %s' % (n, max([0] + [v.bit_length() - 1 for k, v in r.e]))
        R_.attempt('double_iter/n=%d' % n, go, where(fn))

def product(R_, P):
    mk = EC + 'EllipticProduct::new'; mc = EC + 'CouplePoint::new'
    def setup():
        s = tok_session(P); group_models(s)
        s.I.models[EC + 'Curve::double_iter'] = lambda I, fn, a, info: Tok({k: v << a[2] for k, v in (I.load(a[1]) if isinstance(a[1], Ref) else a[1]).e}, I.A.top(a[0]) if not isinstance(a[0], Ref) else I.load(a[0]))
        pr = s.I.exec_fn(P.one(mk), [s.I.ref('E1'), s.I.ref('E2')])
        cp = lambda a, b: s.I.exec_fn(P.one(mc), [s.I.ref(Tok({a: 1}, 'E1')), s.I.ref(Tok({b: 1}, 'E2'))])
        return s, pr, cp
    def pts(s, c):
        t = s.I.exec_fn(P.one(EC + 'CouplePoint::points'), [c]); return t.f
    for op in ('add', 'double', 'double_iter'):
        fn = P.one(EC + 'EllipticProduct::' + op)
        for n in ((3, 0, 11) + COUNTS[12:] if op == 'double_iter' else (0,)):
            def go():
                s, pr, cp = setup()
                a = cp('P', 'Q'); b = cp('R', 'S')
                args = {'add': [pr, s.I.ref(a), s.I.ref(b)], 'double': [pr, s.I.ref(a)], 'double_iter': [pr, s.I.ref(a), n]}[op]
                r = pts(s, s.I.exec_fn(fn, args))
                w = {'add': ({'P': 1, 'R': 1}, {'Q': 1, 'S': 1}), 'double': ({'P': 2}, {'Q': 2}), 'double_iter': ({'P': 1 << n}, {'Q': 1 << n})}[op]
                if s.wrong: return s.wrong[0]
                for i in (0, 1):
                    if r[i].e != Tok(w[i], None).e: return 'component %d is %r, expected %r' % (i + 1, r[i], Tok(w[i], None))
                    if r[i].E not in (None, 'E%d' % (i + 1)): return 'component %d on %s' % (i + 1, r[i].E)
            R_.attempt('product:%s%s' % (op, '/n=%d' % n if op == 'double_iter' else ''), go, where(fn))
    def go():
        s, pr, cp = setup(); t = s.I.exec_fn(P.one(EC + 'EllipticProduct::curves'), [pr])
        return list(t.f) == ['E1', 'E2'] or 'curves() = %r' % (t.f,)
    R_.attempt('product:curves', go)
