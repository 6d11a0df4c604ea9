"""C11: splitting of a theta structure and the maps to Montgomery curves."""
from ..prog import load
from ..curve import *
from ..report import where
from ..terms import Term, TermS
from .c10 import ThS, TH, had, hs, pw, sq, lf, reduced, CS
RULE = ('For each even characteristic the null point is taken generic on the quadric where that constant vanishes; the change of basis actually applied is read off as a matrix over F_p(i) '
        'and must be invertible, normalise the Heisenberg group and carry the vanishing constant to the product position.  The one-dimensional maps are checked as rational-function identities '
        'against the duplication formulas of both models.')
EVEN = [(0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 2), (2, 0), (2, 1), (3, 0), (3, 3)]
dot = lambda a, b: bin(a & b).count('1') & 1

def U(s, v, chi, i):
    r = s.c(0)
    for t in range(4):
        m = v[t] * v[i ^ t]
        r = r - m if dot(chi, t) else r + m
    return r

def vanishing_null(s, chi, i):
    """generic null point with U_{chi,i} = 0"""
    n = list(s.syms('abcd')); s.nz(*n)
    if i == 0:
        # a sum of four signed squares: the square of the last coordinate is determined
        sg = [-1 if dot(chi, t) else 1 for t in range(4)]
        rest = sum((n[t] * n[t] * (sg[t] * -sg[3]) for t in range(1, 3)), n[0] * n[0] * (sg[0] * -sg[3]))
        s.D.R.rule('d', rest.n)
    else:
        # 2(+-x y +- z w): the last coordinate is determined
        t = [t for t in range(4) if 3 not in (t, t ^ i)][0]; o = 3 ^ i
        e = n[t] * n[t ^ i] * n[o].inv()
        s1 = -1 if dot(chi, t) else 1; s2 = -1 if dot(chi, o) else 1
        # both orders of the pair carry the same sign because the characteristic is even
        n[3] = e * (-s1 * s2)
        # the other constants then split into these factors
        for j in range(3):
            for k in range(j): s.nz(n[j] - n[k], n[j] + n[k], n[j]*n[j] + n[k]*n[k])
    if not U(s, n, chi, i).iszero(): raise Unsupported('reference null point')
    for c, j in EVEN:
        if (c, j) != (chi, i): s.nz(U(s, n, c, j))
    return tuple(n)

def det(s, m):
    n = len(m)
    if n == 1: return m[0][0]
    r = s.c(0)
    for j in range(n):
        x = m[0][j] * det(s, [row[:j] + row[j+1:] for row in m[1:]])
        r = r + x if j % 2 == 0 else r - x
    return r

def mul(s, a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(1, 4)), a[i][0] * b[0][j]) for j in range(4)] for i in range(4)]

def heis(s):
    """the 16 Heisenberg elements modulo scalars: translation by i and sign character chi"""
    r = {}
    for i in range(4):
        for c in range(4):
            r[i, c] = [[(s.c(-1) if dot(c, k) else s.c(1)) if k == (j ^ i) else s.c(0) for k in range(4)] for j in range(4)]
    return r

def propm(s, a, b):
    """matrices proportional"""
    fa = [x for r in a for x in r]; fb = [x for r in b for x in r]
    k = [i for i, x in enumerate(fb) if not x.iszero()][0]
    if fa[k].iszero(): return False
    return all((x * fb[k] - y * fa[k]).iszero() for x, y in zip(fa, fb))

def run(R_):
    P = load()
    R_.assume += ['extension-field contracts (C02), complete_pointX (C06)', 'exactly one even constant of the last null point vanishes (the structure is that of a product)']
    jobs = []
    def fnof(n):
        r = [x for x in P.find(TH + n) if x.blocks is not None]
        return r[0] if len(r) == 1 else None
    def need(n):
        f = fnof(n)
        if f is None: raise Unsupported('function %s is not there' % n)
        return f
    def add(key, f, n):
        x = fnof(n); jobs.append((key, f, where(x) if x else TH + n))
    # the change of basis, for each vanishing characteristic
    def split(chi, i, what):
        def f():
            s = ThS(P); n = vanishing_null(s, chi, i)
            st = s.structure(n)
            # the matrix applied is read off from the images of generic points
            x = s.syms(['x', 'y', 'z', 't']); x2 = s.syms(['x_', 'y_', 'z_', 't_'])
            buf = s.ref(arr([s.tp(x), s.tp(x2)])); sl = Ref(buf.cell, (), (0, 2))
            r = s.exec(need('splitting_isomorphism'), st, sl)
            out = s.load(buf).f
            img = [lf(s, e) for e in s.coords(out[0])]
            M = []
            for e in img:
                row = []
                if not e.d.isconst(): raise Unsupported('image is not linear')
                for nm in 'xyzt':
                    co = e.n.coeff_of(nm).get(1, s.D.R.zero)
                    row.append(R(co * pow(e.d.constval(), -1, s.D.p)))
                chk = sum((row[k] * x[k] for k in range(1, 4)), row[0] * x[0])
                if not (e - chk).iszero(): return 'the map applied to the points is not linear'
                M.append(row)
            if what == 'matrix':
                if det(s, M).iszero(): return 'the change of basis is singular'
                y = [sum((M[j][k] * x[k] for k in range(1, 4)), M[j][0] * x[0]) for j in range(4)]
                u, w = U(s, y, 3, 3), U(s, x, chi, i)
                if not propv(s, u, w): return 'the constant in the product position is not a multiple of the vanishing one'
                H = heis(s); inv = inverse(s, M)
                for g in ((1, 0), (2, 0), (0, 1), (0, 2)):
                    c = mul(s, mul(s, M, H[g]), inv)
                    if not any(propm(s, c, h) for h in H.values()): return 'the change of basis is not an automorphism of the theta structure (element %s)' % (g,)
                return s.panics()
            y = [sum((M[j][k] * x2[k] for k in range(1, 4)), M[j][0] * x2[0]) for j in range(4)]
            g = s.coords(out[1])
            e = s.equal(tup(*g), tup(*y), what='second point')
            if e: return e
            w = [sum((M[j][k] * n[k] for k in range(1, 4)), M[j][0] * n[0]) for j in range(4)]
            g = s.null(r)
            for j in range(4):
                for k in range(j):
                    e = s.equal(s.D.two(lambda p, q: p * w[k] - q * w[j], g[j], g[k]), s.c(0), what='null point, coordinates %d and %d' % (j, k))
                    if e: return e
            return s.panics()
        return f
    for chi, i in EVEN:
        for what in ('matrix', 'points'):
            add('splitting (%d,%d)/%s' % (chi, i, what), split(chi, i, what), 'compute_splitting_matrix' if what == 'matrix' else 'splitting_isomorphism')
    # reading off the two factors
    def spl():
        s = ThS(P); a, b, c, d = s.syms(['x1', 'y1', 'x2', 'y2']); s.nz(a, b, c, d)
        th = (a*c, b*c, a*d, b*d)
        r = s.exec(need('split_theta_point'), s.ref(s.tp(th)))
        for k, (u, v) in enumerate(((a, b), (c, d))):
            g = r.f[k].f
            e = s.prop(g, (u, v), 'factor %d' % k)
            if e: return e
        return s.panics()
    add('factors of a product point', spl, 'split_theta_point')
    # one-dimensional theta model -> Montgomery
    def one(s): # null point (a:b)
        a, b = s.syms('ab'); s.nz(a, b)
        T1, T2 = a*a + b*b, a*a - b*b
        s.nz(T1, T2, a - b, a + b); s.nz(T1*T1 - T2*T2, T1*T1 + T2*T2)
        return a, b, T1, T2
    def curve():
        s = ThS(P); a, b, T1, T2 = one(s)
        E = s.exec(need('null_point_to_montgomery_curve'), s.ref(tup(a, b)))
        A = s.exec(P.one(EC + 'Curve::get_constant'), s.ref(E))
        al = T1 * T2.inv()
        return s.equal(A, -(al + al.inv()), what='curve coefficient') or s.panics()
    add('null point to curve', curve, 'null_point_to_montgomery_curve')
    def mp(case):
        def f():
            s = ThS(P); a, b, T1, T2 = one(s); al = T1 * T2.inv()
            x, y = s.syms('xy')
            conv = lambda p: s.exec(P.one(EC + 'PointX::get_xz'), s.ref(s.exec(need('theta_point_to_montgomery_point'), s.ref(tup(a, b)), s.ref(tup(*p))))).f
            c1, c0 = s.c(1), s.c(0)
            if case == 'neutral': return s.prop(conv((a, b)), (c1, c0), case) or s.panics()
            if case == 'order two, origin': return s.prop(conv((a, -b)), (c0, c1), case) or s.panics()
            if case == 'order two, first': return s.prop(conv((b, a)), (T1, T2), case) or s.panics()
            if case == 'order two, second': return s.prop(conv((-b, a)), (T2, T1), case) or s.panics()
            if case == 'doubling':
                # theta doubling against x-only doubling on the curve with A = -(al + 1/al)
                h = lambda u, v: (u + v, u - v)
                P1 = h(x*x, y*y); N1 = (T1, T2)
                Q = h(P1[0]*P1[0]*N1[1], P1[1]*P1[1]*N1[0]); Q = (Q[0]*b, Q[1]*a)
                X, Z = [lf(s, e) for e in conv((x, y))]
                A = -(al + al.inv())
                D = ((X*X - Z*Z) * (X*X - Z*Z), X*Z*4 * (X*X + A*X*Z + Z*Z))
                g = [lf(s, e) for e in conv(Q)]
                return None if (g[0]*D[1] - g[1]*D[0]).iszero() else 'doubling does not commute with the map'
            # linear and invertible in the point
            g = [lf(s, e) for e in conv((x, y))]
            m = []
            for e in g:
                if not e.d.isconst(): raise Unsupported('not linear')
                cx, cy = e.n.coeff_of('x').get(1, s.D.R.zero), e.n.coeff_of('y').get(1, s.D.R.zero)
                if not (e - (R(cx)*x + R(cy)*y)).iszero(): return 'not linear in the point'
                m.append((R(cx), R(cy)))
            return None if not (m[0][0]*m[1][1] - m[0][1]*m[1][0]).iszero() else 'the map is not invertible'
        return f
    for c in ('neutral', 'order two, origin', 'order two, first', 'order two, second', 'doubling', 'linear'): add('theta to Montgomery/' + c, mp(c), 'theta_point_to_montgomery_point')
    # assembling the product
    for k, t in ASM: add('product assembly/%d of %d' % (t, k), asm(P, need, k, t), 'split_to_product')
    R_.parallel(jobs)
    R_.floor('obligations', len(jobs), 32)
    R_.extra['level'] = 'proof'

ASM = ((0, 0), (1, 0), (2, 0), (1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (6, 4), (5, 5), (40, 4), (40, 37))
def asm(P, need, k, take):
    def f():
        s = TermS(P); T = Term
        for n in ('split_theta_point', 'null_point_to_montgomery_curve', 'theta_point_to_montgomery_point'): need(n)
        pr = lambda t: tup(T('fst', t), T('snd', t))
        s.uf(TH + 'split_theta_point', 'split', into=pr)
        s.uf(TH + 'null_point_to_montgomery_curve', 'curve'); s.uf(TH + 'theta_point_to_montgomery_point', 'mont')
        s.uf(TH + 'ThetaStructure::null_point', 'null')
        s.uf(EC + 'Curve::complete_pointX', 'lift', into=lambda t: tup(t, T('ok', t)))
        s.uf(EC + 'EllipticProduct::new', 'prod'); s.uf(EC + 'CouplePoint::new', 'couple')
        pts = [T('P%d' % i) for i in range(k)]; buf = s.ref(arr(pts)); sl = Ref(buf.cell, (), (0, k)); st = T('St')
        r = s.exec(need('split_to_product'), s.ref(st), sl, take)
        O = T('split', T('null', st)); O = (T('fst', O), T('snd', O))
        E = [T('curve', o) for o in O]
        prod, out = [s.val(x) for x in r.f]
        if prod != T('prod', *E): return 'the product is %r' % (prod,)
        if len(out) != take: return '%d points returned for %d requested' % (len(out), take)
        for i, g in enumerate(out):
            S = T('split', pts[i]); S = (T('fst', S), T('snd', S))
            w = T('couple', *[T('lift', E[j], T('mont', O[j], S[j])) for j in range(2)])
            if g != w: return 'point %d is %r' % (i, g)
        return s.panics()
    return f

def propv(s, u, w):
    """u is a non-zero constant multiple of w"""
    if u.iszero() or w.iszero(): return False
    q = s.D.unit(u.n); r = s.D.unit(w.n)
    return q.monic() == r.monic()

def inverse(s, m):
    n = 4; a = [list(m[i]) + [s.c(1) if i == j else s.c(0) for j in range(n)] for i in range(n)]
    for c in range(n):
        k = [r for r in range(c, n) if not a[r][c].iszero()]
        if not k: raise Unsupported('singular')
        a[c], a[k[0]] = a[k[0]], a[c]
        v = gaussinv(s, a[c][c])
        a[c] = [x * v for x in a[c]]
        for r in range(n):
            if r != c and not a[r][c].iszero():
                f = a[r][c]; a[r] = [x - y * f for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]

def gaussinv(s, x):
    """inverse of a constant of F_p(i)"""
    co = x.n.coeff_of('i'); re = co.get(0, s.D.R.zero); im = co.get(1, s.D.R.zero)
    if not (re.isconst() and im.isconst() and x.d.isconst()): raise Unsupported('not a constant')
    a, b = re.constval(), im.constval(); k = pow((a*a + b*b) % s.D.p, -1, s.D.p) * x.d.constval()
    return R(s.D.R.const(a * k) - s.D.i * s.D.R.const(b * k))
