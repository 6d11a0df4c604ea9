"""C10: arithmetic and isogenies between theta structures."""
import itertools
from ..prog import load
from ..curve import *
from ..report import where
from ..terms import Term, TermS
RULE = ('The theta functions are interpreted over the field of rational functions in the coordinates of a theta null point and its points, with the dual null point '
        'given by square-root indeterminates; each result must be proportional to the coordinates prescribed by the duplication formulas.  The gluing base change is '
        'checked for every pair of two-torsion types against the action of the kernel by symmetric translations.')
TH = 'festa_rs::thetaFESTA::'

def had(v):
    a, b, c, d = v
    return (a+b+c+d, a-b+c-d, a+b-c-d, a-b-c+d)
def had_d(s, v):
    """Hadamard transform of abstract values"""
    ad = lambda x, y: s.D.two(lambda p, q: p + q, x, y); su = lambda x, y: s.D.two(lambda p, q: p - q, x, y)
    a, b, c, d = v; e, f, g, h = ad(a, b), su(a, b), ad(c, d), su(c, d)
    return (ad(e, g), ad(f, h), su(e, g), su(f, h))
def sq(v): return tuple(x*x for x in v)
def hs(v): return had(sq(v))
def pw(u, v): return tuple(x*y for x, y in zip(u, v))

class ThS(Sess):
    def __init__(s, P):
        Sess.__init__(s, P, 'fp2')
        s.FM.extra['batch_invert'] = s.binv
        s.evs = 0
    def binv(s, I, fn, a, info):
        r = a[0]
        v = s.A.top(I.load(r))
        if not isinstance(v, Agg): raise Unsupported('batch inversion of %r' % (v,))
        I.store(r, Agg(v.k, v.ty, v.var, tuple(s.D.one(s.D.inverse, x) for x in v.f)))
        return tup()
    def nz(s, *rs):
        for r in rs:
            for q in ((r.n, r.d) if isinstance(r, R) else (r,)):
                if not q.isconst(): s.D.nonzero.append(q.monic())
    def syms(s, names): return tuple(s.sym(n) for n in names)
    def root(s, name, r):
        """fresh symbol whose square is r"""
        x = s.sym(name)
        s.D.R.rule(name, r.n * pow(r.d.constval(), -1, s.D.p)); return x
    def tp(s, v): return s.exec(TH + 'ThetaPoint::new', *[s.ref(x) for x in v])
    def coords(s, p): return s.exec(TH + 'ThetaPoint::coords', p).f
    def structure(s, v): return s.exec(TH + 'ThetaStructure::new_from_coords', *[s.ref(x) for x in v])
    def null(s, st): return s.coords(s.exec(TH + 'ThetaStructure::null_point', st))
    def inv(s, v): return tuple(x.inv() for x in v)
    def generic_null(s):
        n = s.syms(['a', 'b', 'c', 'd']); s.nz(*n); s.nz(*hs(n)); return n
    def prop(s, got, want, what='point', nonzero=True):
        """None when got = scalar * want with a scalar that cannot vanish; want has a coordinate known to be non-zero"""
        k = None
        for j, w in enumerate(want):
            if s.D.zero_cond(w) == 0: k = j; break
        if k is None: raise Unsupported('no coordinate of the reference is known to be non-zero')
        for j in range(len(want)):
            if j == k: continue
            e = s.equal(s.D.two(lambda x, y: x * want[k] - y * want[j], got[j], got[k]), s.D.c(0), what='%s: coordinate %d relative to %d' % (what, j, k))
            if e: return e
        zc = s.A.app1(lambda v: s.D.zero_cond(s.D.leaf(v)), got[k])
        if zc == 0: return None
        if zc == 1: return '%s: all coordinates vanish' % what
        e = s.equal(zc, 0, what='%s: all coordinates vanish' % what)
        if e: raise Unsupported(e)
        return None
    def panics(s):
        ev = [e for e in s.I.events if e.kind == 'panic']
        return 'can panic: %r' % ev[0] if ev else None

def run(R_):
    P = load()
    R_.assume += ['extension-field and curve contracts (C02, C04)', 'the duplication formulas are the definition of the (2,2)-isogeny in level-two theta coordinates',
                  'null and dual null coordinates are non-zero except where the gluing or splitting step requires one zero; image points have z and t not both zero in the gluing step']
    jobs = []
    def job(key, f, fn): jobs.append((key, f, where(fn)))
    def fnof(n):
        r = [x for x in P.find(TH + n) if x.blocks is not None]
        return r[0] if len(r) == 1 else None
    def need(n):
        """private function; its absence leaves the obligation undecided"""
        f = fnof(n)
        if f is None: raise Unsupported('function %s is not there' % n)
        return f
    def loc(n):
        f = fnof(n)
        return where(f) if f else TH + n
    def add(key, f, n): jobs.append((key, f, loc(n)))
    # ---- transforms, doubling
    def tr(name, spec):
        def f():
            s = ThS(P); p = s.syms('xyzt'); s.nz(spec(p)[0])
            return s.prop(s.exec(P.one(TH + 'ThetaPoint::' + name), s.tp(p)).f, spec(p), name) or s.panics()
        return f
    add('hadamard', tr('hadamard', had), 'ThetaPoint::hadamard')
    add('squared_theta', tr('squared_theta', hs), 'ThetaPoint::squared_theta')
    for nm in ('new', 'from_coords'):
        def f(nm=nm):
            s = ThS(P); p = s.syms('xyzt'); t = s.exec(P.one(TH + 'ThetaPoint::' + nm), *[s.ref(x) for x in p])
            for v in (s.exec(P.one(TH + 'ThetaPoint::coords'), t), s.exec(P.one(TH + 'ThetaPoint::list'), t)):
                e = s.equal(v, Agg(v.k, v.ty, v.var, p), what=nm)
                if e: return e
            return s.panics()
        add('coordinates/' + nm, f, 'ThetaPoint::' + nm)
    for nm in ('new_from_coords', 'new_from_point'):
        def f(nm=nm):
            s = ThS(P); n = s.generic_null()
            st = s.structure(n) if nm == 'new_from_coords' else s.exec(P.one(TH + 'ThetaStructure::new_from_point'), s.ref(s.tp(n)))
            return s.prop(s.null(st), n, 'null point') or s.panics()
        add('null_point/' + nm, f, 'ThetaStructure::' + nm)
    def dbl(n, p):
        return pw(had(pw(sq(hs(p)), tuple(x.inv() for x in hs(n)))), tuple(x.inv() for x in n))
    def d_point(s, st, p): return s.exec(P.one(TH + 'ThetaStructure::double_point'), st, s.ref(p))
    def d_self(s, st, p):
        r = s.ref(p); s.exec(P.one(TH + 'ThetaStructure::set_double_self'), st, r); return s.load(r)
    def d_iter(k): return lambda s, st, p: s.exec(P.one(TH + 'ThetaStructure::double_iter'), st, s.ref(p), k)
    for nm, df in (('double_point', d_point), ('set_double_self', d_self), ('double_iter', d_iter(1))):
        for via in ('new_from_coords', 'new_from_point'):
            def f(df=df, via=via):
                s = ThS(P); n = s.generic_null(); p = s.syms('xyzt'); w = dbl(n, p); s.nz(w[0].n)
                st = s.structure(n) if via == 'new_from_coords' else s.exec(P.one(TH + 'ThetaStructure::new_from_point'), s.ref(s.tp(n)))
                return s.prop(s.coords(df(s, st, s.tp(p))), w, 'double') or s.panics()
            add('%s/%s' % (nm, via), f, 'ThetaStructure::' + nm)
        def f(df=df):
            s = ThS(P); n = s.generic_null()
            return s.prop(s.coords(df(s, s.structure(n), s.tp(n))), n, 'double of the neutral element') or s.panics()
        add(nm + '/neutral', f, 'ThetaStructure::' + nm)
    def it0():
        s = ThS(P); n = s.generic_null(); p = s.syms('xyzt'); s.nz(p[0])
        return s.prop(s.coords(d_iter(0)(s, s.structure(n), s.tp(p))), p, 'double_iter(0)') or s.panics()
    add('double_iter/n=0', it0, 'ThetaStructure::double_iter')
    def itk(k):
        def f():
            # the number of doublings, on opaque points
            s = ThS(P); n = s.generic_null(); st = s.structure(n); cnt = [0]
            r = P.one(TH + 'ThetaStructure::set_double_self')
            def m(I, fn, a, info):
                cnt[0] += 1; I.store(a[1], s.tp(s.syms(['%s%d' % (c, cnt[0]) for c in 'xyzt']))); return tup()
            s.I.models[r.path] = m
            def m2(I, fn, a, info):
                cnt[0] += 1; return s.tp(s.syms(['%s%d' % (c, cnt[0]) for c in 'xyzt']))
            s.I.models[TH + 'ThetaStructure::double_point'] = m2
            r = s.exec(P.one(TH + 'ThetaStructure::double_iter'), st, s.ref(s.tp(s.syms('xyzt'))), k)
            if cnt[0] == 0: raise Unsupported('doubling is not delegated')
            if cnt[0] != k: return '%d doublings performed for n=%d' % (cnt[0], k)
            w = s.syms(['%s%d' % (c, k) for c in 'xyzt']); s.nz(w[0])
            return s.prop(s.coords(r), w, 'result of the last doubling')
        return f
    for k in (2, 3, 17, 632): add('double_iter/count n=%d' % k, itk(k), 'ThetaStructure::double_iter')
    # ---- the general isogeny step
    def step(s, dual_domain=False):
        """a domain null point with dual square roots A,B,C,D and the two kernel generators, by their squared theta coordinates"""
        n = s.syms(['a', 'b', 'c', 'd']); s.nz(*n)
        h = hs(n); s.nz(*h)
        ABCD = tuple(s.root(nm, v) for nm, v in zip('ABCD', h)); s.nz(*ABCD)
        x, y, z, t = s.syms(['X1', 'Y1', 'Z1', 'T1']); s.nz(x, y, z, t)
        A, B, C, D = ABCD
        s1 = (x*A, x*B, y*C, y*D); s2 = (z*A, t*B, z*C, t*D)
        q = pow(4, -1, s.D.p)
        K = []
        for nm, v in (('k', s1), ('l', s2)):
            w = tuple(e.scale(q) for e in had(v))
            K.append(tuple(s.root(nm + str(i), e) for i, e in enumerate(w)))
        return n, ABCD, K
    def iso(hf, what):
        def f():
            s = ThS(P); n, ABCD, K = step(s)
            p = s.syms(['x', 'y', 'z', 't']); p2 = s.syms(['x_', 'y_', 'z_', 't_'])
            pts = s.ref(arr([s.tp(p), s.tp(p2), s.tp(n)])); sl = Ref(pts.cell, (), (0, 3))
            st = s.exec(need('two_isogeny'), s.ref(s.structure(n)), s.ref(s.tp(K[0])), s.ref(s.tp(K[1])), sl, arr([0, int(hf)]))
            H = had if hf else (lambda v: v)
            # the comparison is made before the last Hadamard transform (which is invertible)
            img = lambda v: pw(hs(v), s.inv(ABCD))
            back = lambda q: H(tuple(q)) if not hf else tuple(had_d(s, q))
            out = s.load(pts).f
            cod = ABCD
            if what == 'codomain': return s.prop(back(s.null(st)), cod, 'codomain null point') or s.panics()
            if what == 'neutral': return s.prop(back(s.coords(out[2])), cod, 'image of the neutral element') or s.panics()
            if what == 'double':
                # [2] is the isogeny followed by its dual
                o = [lf(s, x) for x in s.coords(out[0])]; w = sq(o); s.nz(hs(p)[0])
                g = s.coords(s.exec(P.one(TH + 'ThetaStructure::double_point'), s.structure(n), s.ref(s.tp(p))))
                g = had_d(s, [s.D.two(lambda x, y: x * y, x, y) for x, y in zip(g, n)])
                return s.prop(g, w, 'double against the isogeny and its dual') or s.panics()
            j, v = what
            w = img(v(p, p2)); s.nz(w[0].n)
            return s.prop(back(s.coords(out[j])), w, 'image of point %d' % j) or s.panics()
        return f
    for hf in (False, True):
        tag = 'two_isogeny[%s]/' % ('theta' if hf else 'dual')
        add(tag + 'codomain', iso(hf, 'codomain'), 'two_isogeny'); add(tag + 'neutral', iso(hf, 'neutral'), 'two_isogeny')
        add(tag + 'image', iso(hf, (0, lambda p, q: p)), 'two_isogeny'); add(tag + 'image2', iso(hf, (1, lambda p, q: q)), 'two_isogeny')
    if R_.tier == 'thorough': add('two_isogeny/double', iso(False, 'double'), 'two_isogeny')
    # ---- last step: inputs in dual coordinates
    def prod(what):
        def f():
            s = ThS(P); n, ABCD, K = step(s)
            q = pow(4, -1, s.D.p)
            dual = lambda v: tuple(e.scale(q) for e in had(v))
            p = s.syms(['x', 'y', 'z', 't']); p2 = s.syms(['x_', 'y_', 'z_', 't_'])
            pts = s.ref(arr([s.tp(p), s.tp(p2), s.tp(dual(n))])); sl = Ref(pts.cell, (), (0, 3))
            st = s.exec(need('two_isogeny_to_product'), s.ref(s.tp(dual(K[0]))), s.ref(s.tp(dual(K[1]))), sl)
            out = s.load(pts).f
            if what == 'codomain': return s.prop(s.null(st), ABCD, 'codomain null point') or s.panics()
            if what == 'neutral': return s.prop(s.coords(out[2]), ABCD, 'image of the neutral element') or s.panics()
            w = pw(hs(had((p, p2)[what])), s.inv(ABCD)); s.nz(w[0].n)
            return s.prop(s.coords(out[what]), w, 'image of point %d' % what) or s.panics()
        return f
    for what in ('codomain', 'neutral', 0, 1): add('two_isogeny_to_product/%s' % (what if type(what) is str else 'image%d' % what), prod(what), 'two_isogeny_to_product')
    # ---- gluing
    def glue(s, z):
        ABCD = list(s.syms('ABCD')); ABCD[z] = s.c(0)
        s.nz(*[v for i, v in enumerate(ABCD) if i != z])
        x, y, zz, t = s.syms(['X1', 'Y1', 'Z1', 'T1']); s.nz(x, y, zz, t)
        A, B, C, D = ABCD
        q = pow(4, -1, s.D.p); K = []
        for nm, v in (('k', (x*A, x*B, y*C, y*D)), ('l', (zz*A, t*B, zz*C, t*D))):
            K.append(tuple(s.root(nm + str(i), e.scale(q)) for i, e in enumerate(had(v))))
        s.nz(*had(ABCD)); s.nz(*[e for e in hs(had(ABCD)) if not e.iszero()])
        return tuple(ABCD), K
    def gl(z, what):
        def f():
            s = ThS(P); ABCD, K = glue(s, z)
            cod, inv, zi = s.exec(need('gluing_codomain'), s.ref(s.tp(K[0])), s.ref(s.tp(K[1]))).f
            if what == 'codomain':
                e = s.equal(zi, z, what='index of the zero coordinate')
                return e or s.prop(s.null(cod), had(ABCD), 'codomain null point') or s.panics()
            # image: dual coordinates (x,y,z,t) of the point, translated by the four-torsion point the pairs are swapped
            u = list(s.syms(['u0', 'u1', 'u2', 'u3'])); lam = s.sym('lam'); s.nz(lam, u[0])
            zp, tp_ = 2 ^ z, 3 ^ z            # the coordinates the scalar can be read from
            if what == 'z=0': u[zp] = s.c(0)
            else: s.nz(u[zp])
            if what == 't=0': u[tp_] = s.c(0)
            else: s.nz(u[tp_])
            A, B, C, D = ABCD
            T = (A*u[0], B*u[1], C*u[2], D*u[3]); Ts = (A*u[1]*lam, B*u[0]*lam, C*u[3]*lam, D*u[2]*lam)
            q = pow(4, -1, s.D.p); pts = []
            for nm, v in (('m', T), ('n', Ts)):
                pts.append(s.tp(tuple(s.root(nm + str(i), e.scale(q)) for i, e in enumerate(had(v)))))
            ai, bi = inv.f
            r = s.exec(need('gluing_image'), s.ref(pts[0]), s.ref(pts[1]), s.ref(ai), s.ref(bi), s.A.top(zi))
            w = had(u); s.nz(w[0].n)
            return s.prop(s.coords(r), w, 'image') or s.panics()
        return f
    for z in range(4):
        for what in ('codomain', 'generic', 'z=0', 't=0'):
            add('gluing/zero index %d/%s' % (z, what), gl(z, what), 'gluing_codomain' if what == 'codomain' else 'gluing_image')
    # couple point to theta coordinates, with identity base change and with a symbolic one
    def bc(case, mat):
        def f():
            s = ThS(P); C = CS(s)
            X1, X2, Z1, Z2 = s.syms(['X1', 'X2', 'Z1', 'Z2']); y1, y2 = s.syms(['y1', 'y2']); one, zero = s.c(1), s.c(0)
            inf = (zero, s.sym('yi'), zero); l1, l2 = (X1, Z1), (X2, Z2); p1, p2 = (X1, y1, Z1), (X2, y2, Z2)
            s.nz(Z1, Z2, s.sym('yi'))
            if case in ('inf1', 'both'): p1 = inf; l1 = (one, zero)
            if case in ('inf2', 'both'): p2 = inf; l2 = (one, zero)
            M = [s.sym('m%d' % k) for k in range(16)] if mat == 'general' else [one if k % 5 == 0 else zero for k in range(16)]
            th = (l1[0]*l2[0], l1[0]*l2[1], l1[1]*l2[0], l1[1]*l2[1])
            w = tuple(sum((M[4*i+j]*th[j] for j in range(1, 4)), M[4*i]*th[0]) for i in range(4))
            for e in w:
                if not e.iszero(): s.nz(e.n)
            r = s.exec(need('base_change_couple_point'), s.ref(C.couple(p1, p2)), arr(M))
            return s.prop(s.coords(r), w, 'theta coordinates') or s.panics()
        return f
    for case in ('generic', 'inf1', 'inf2', 'both'):
        for mat in ('identity', 'general'):
            add('couple to theta/%s/%s' % (case, mat), bc(case, mat), 'base_change_couple_point')
    # the base change itself
    R_.extra['base_change_cases'] = n0 = len(jobs)
    for t1 in itertools.permutations(range(3), 2):
        for t2 in itertools.permutations(range(3), 2):
            for sg in itertools.product((0, 1), repeat=4):
                if R_.tier == 'quick' and sum(sg) not in (0, 1): continue
                add('base change/types %s,%s signs %s' % (t1, t2, ''.join(map(str, sg))), basechange(P, need, t1, t2, sg), 'get_base_matrix')
    R_.extra['base_change_cases'] = len(jobs) - n0
    # composition inside the gluing step
    for k in (0, 1, 2, 5): add('gluing step composition/%d points' % k, composition(P, need, k), 'gluing_isogeny')
    R_.parallel(jobs)
    R_.floor('obligations', len(jobs), 200)
    R_.extra['level'] = 'proof'

class CS:
    """points and curves inside another session"""
    def __init__(c, s): c.s = s; c.A = s.sym('Acurve'); s.nz(c.A - s.c(2), c.A + s.c(2))
    def curve(c, A): return c.s.exec(EC + 'Curve::new', c.s.ref(A))
    def pt(c, E, p): return c.s.exec(EC + 'Curve::point_xyz_nocheck', E, *[c.s.ref(x) for x in p])
    def couple(c, p1, p2, E1=None, E2=None):
        s = c.s; E = c.curve(c.A)
        return s.exec(EC + 'CouplePoint::new', s.ref(c.pt(E1 or E, p1)), s.ref(c.pt(E2 or E, p2)))

def four_torsion(s, m, tag, typ, sg):
    """x of a four-torsion point above the two-torsion point number typ (0: alpha, 1: 1/alpha, 2: 0) of the curve with parameter m:
    alpha = (m^2+1)/(2m)"""
    i = R(s.D.i); one = s.c(1)
    if typ == 0: return m if not sg else m.inv()
    if typ == 1: return (i * (m - i)) * (m + i).inv() if not sg else (-(i * (m + i))) * (m - i).inv()
    return one if not sg else -one

def basechange(P, need, t1, t2, sg):
    def f():
        s = ThS(P); C = CS(s); i = R(s.D.i); one = s.c(1)
        cur = []; al = []
        for nm in ('m', 'n'):
            m = s.sym(nm); s.nz(m, m + one, m - one, m + i, m - i, m*m + one, m*m - one)
            a = (m*m + one) * (m*2).inv(); al.append(a)
            cur.append((m, -(a + a.inv())))
            for k in (2, -2): s.nz(cur[-1][1] + s.c(k))
            s.nz(m*m + m*2 - one, m*m - m*2 - one)
        pts = []
        for k, (nm, typ, sgn) in enumerate(((0, t1[0], sg[0]), (1, t2[0], sg[1]), (0, t1[1], sg[2]), (1, t2[1], sg[3]))):
            pts.append(four_torsion(s, cur[nm][0], 'k%d' % k, typ, sgn))
        E = [C.curve(c[1]) for c in cur]
        EE = s.exec(EC + 'EllipticProduct::new', s.ref(E[0]), s.ref(E[1]))
        mk = lambda k: C.pt(E[k & 1], (R(pts[k].n), s.sym('y%d' % k), R(pts[k].d)))
        cp = [s.exec(EC + 'CouplePoint::new', s.ref(mk(2*j)), s.ref(mk(2*j+1))) for j in range(2)]
        reduced(s)
        M = s.exec(need('get_base_matrix'), s.ref(EE), s.ref(cp[0]), s.ref(cp[1])).f
        M = [lf(s, x) for x in M]
        rows = [M[4*k:4*k+4] for k in range(4)]
        # symmetric translation by the double of a four-torsion point x, acting on functions: the coordinate vector of the point has eigenvalue -1
        def trans(nm, typ, x):
            a = (al[nm], al[nm].inv(), None)[typ]
            if a is None: g = ((s.c(0), one), (one, s.c(0)))          # (X:Z) -> (Z:X)
            else: g = ((a, -one), (one, -a))
            # eigenvalue on (x,1)
            u = g[0][0]*x + g[0][1]; v = g[1][0]*x + g[1][1]
            d = u - v*x
            if not d.iszero(): raise Unsupported('reference: not an eigenvector')
            k = -(v.inv())
            return tuple(tuple(e*k for e in r) for r in g)
        G1 = trans(0, t1[0], pts[0]); G2 = trans(1, t2[0], pts[1]); H1 = trans(0, t1[1], pts[2]); H2 = trans(1, t2[1], pts[3])
        I2 = ((one, s.c(0)), (s.c(0), one))
        def act(row, a, b):
            # row vector times a (x) b
            out = []
            for c in range(4):
                e = s.c(0)
                for r in range(4): e = e + row[r] * a[r >> 1][c >> 1] * b[r & 1][c & 1]
                out.append(e)
            return out
        def cmp(u, v, what, sign=False):
            for sgn in ((1, -1) if sign else (1,)):
                if all((x - y if sgn == 1 else x + y).iszero() for x, y in zip(u, v)): return None
            return '%s does not hold' % what
        if all(x.iszero() for x in rows[0]): return 'the base change has a zero row: it is not invertible'
        return (cmp(act(rows[0], G1, G2), rows[0], 'invariance of the first coordinate under the first kernel element')
                or cmp(act(rows[0], H1, H2), rows[0], 'invariance of the first coordinate under the second kernel element')
                or cmp(act(rows[0], I2, H2), rows[1], 'second coordinate as translate of the first', True)
                or cmp(act(rows[0], G1, I2), rows[2], 'third coordinate as translate of the first', True)
                or cmp(act(rows[0], G1, H2), rows[3], 'fourth coordinate as translate of the first', True)
                or s.panics())
    return f

def lf(s, x):
    x = s.A.top(x)
    if not isinstance(x, R): raise Unsupported('case distinction: %s' % '; '.join(repr(d[1]) for d in s.A.desc if d[0] == 'zero'))
    return x

def reduced(s):
    """keep fractions reduced with respect to the factors known to be non-zero"""
    D = s.D
    fs = [q for q in dict.fromkeys(D.nonzero)]
    def red(x):
        if not isinstance(x, R) or x.d.isconst(): return x
        n, d = x.n, x.d
        if n.iszero(): return R(n)
        for f in fs:
            while not d.isconst():
                b = d.divexact(f)
                if b is None: break
                a = n.divexact(f)
                if a is None: break
                n, d = a, b
        if d.isconst(): n = n * pow(d.constval(), -1, D.p); d = D.R.one
        return R(n, d)
    one, two = D.one, D.two
    D.one = lambda f, a: one(lambda x: red(f(x)), a)
    D.two = lambda f, a, b: two(lambda x, y: red(f(x, y)), a, b)
    return red

def composition(P, need, k):
    def f():
        s = TermS(P); T = Term
        for n in ('get_base_matrix', 'base_change_couple_point', 'gluing_codomain', 'gluing_image'): need(n)
        ep = EC + 'EllipticProduct::'
        s.uf(ep + 'double', 'dbl'); s.uf(ep + 'add', 'add')
        def it(I, fn, a, info):
            e, p, n = s.val(a[0]), s.val(a[1]), s.A.top(a[2])
            if type(n) is not int: raise Unsupported('symbolic count')
            for _ in range(n): p = T('dbl', e, p)
            return p
        s.I.models[ep + 'double_iter'] = it
        s.uf(TH + 'get_base_matrix', 'M'); s.uf(TH + 'base_change_couple_point', 'theta'); s.uf(TH + 'gluing_image', 'img')
        s.uf(TH + 'gluing_codomain', 'cod', into=lambda t: tup(t, tup(T('ai', t), T('bi', t)), T('zi', t)))
        E, K1, K2 = T('E'), T('K1'), T('K2'); pts = [T('P%d' % i) for i in range(k)]
        buf = s.ref(arr(pts)); sl = Ref(buf.cell, (), (0, k))
        r = s.exec(need('gluing_isogeny'), s.ref(E), s.ref(K1), s.ref(K2), sl)
        d1, d2 = T('dbl', E, K1), T('dbl', E, K2); M = T('M', E, d1, d2)
        cod = T('cod', T('theta', K1, M), T('theta', K2, M))
        got = [s.val(x) for x in r.f]
        if got[0] != cod: return 'codomain is %r' % (got[0],)
        if len(got[1]) != k: return '%d images for %d points' % (len(got[1]), k)
        for i, g in enumerate(got[1]):
            ok = [T('img', T('theta', pts[i], M), T('theta', sh, M), T('ai', cod), T('bi', cod), T('zi', cod)) for sh in (T('add', E, pts[i], d1), T('add', E, d1, pts[i]))]
            if g not in ok: return 'image of point %d is %r' % (i, g)
        return s.panics()
    return f
