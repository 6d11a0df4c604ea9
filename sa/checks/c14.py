"""C14: Miller loops and the Weil quotient."""
import random
from ..prog import load
from ..curve import *
from ..report import where
from . import c13
PR = 'festa_rs::pairing::'
RULE = ('The line function is compared with the equations of tangent, chord and vertical for every class of pairs of points.  The Miller loop and the Weil quotient are interpreted in the group of '
        'monomials in lines: the result must be a monic function whose divisor, summed over the lines used, is n(P) - n(O), and the quotient must carry the sign (-1)^n; '
        'for dependent points a vanishing line must give the trivial pairing.')

class Mon:
    """c times a product of lines: key (point of evaluation, a, b) = line through the multiples a, b; (point, 'Z') = the line at infinity"""
    __slots__ = ('c', 'f')
    def __init__(s, c, f=()): s.c = c; s.f = dict(f) if c else {}
    def __mul__(s, o):
        f = dict(s.f)
        for k, e in o.f.items():
            e += f.get(k, 0)
            if e: f[k] = e
            else: f.pop(k, None)
        return Mon(s.c * o.c % Mon.p, f)
    def __neg__(s): return Mon(-s.c % Mon.p, s.f)
    def inv(s): return Mon(pow(s.c, -1, Mon.p), {k: -e for k, e in s.f.items()})
    def scale(s, k): return Mon(s.c * k % Mon.p, s.f)
    def __eq__(s, o): return isinstance(o, Mon) and s.c == o.c and s.f == o.f
    def __hash__(s): return hash((s.c, frozenset(s.f.items())))
    def __add__(s, o):
        if not s.c: return o
        if not o.c: return s
        if s.f == o.f: return Mon((s.c + o.c) % Mon.p, s.f)
        raise Unsupported('sum of products of lines')
    def __sub__(s, o): return s + (-o)
    def __repr__(s): return '%s * %d lines' % (s.c if s.c < Mon.p - 1 else -1, len(s.f))

class MonDom(RingDom):
    def __init__(s, P): RingDom.__init__(s, P, 'fp2'); Mon.p = s.p
    def leaf(s, x):
        if isinstance(x, Mon): return x
        if isinstance(x, R) and x.n.isconst() and x.d.isconst():
            return Mon(x.n.constval() * pow(x.d.constval(), -1, s.p) % s.p)
        raise Unsupported('not a product of lines: %r' % (x,))
    def inverse(s, x): return Mon(0) if not x.c else x.inv()
    def zero_cond(s, x): return int(not x.c)
    def eq_cond(s, x, y):
        if x == y: return 1
        if x.f == y.f or not x.c or not y.c: return 0
        raise Unsupported('comparison of products of lines')

class Mp:
    """m times the base point b, which has order n"""
    __slots__ = ('b', 'm', 'n')
    def __init__(s, b, m, n): s.b = b; s.m = m % n; s.n = n
    def __eq__(s, o): return isinstance(o, Mp) and (s.b, s.m) == (o.b, o.m)
    def __hash__(s): return hash((s.b, s.m))
    def __repr__(s): return '%d%s' % (s.m, s.b)

class Wrong(Exception): pass

class MillerS(Sess):
    def __init__(s, P):
        Sess.__init__(s, P, 'fp2', MonDom(P)); s.FM.model_level = 0
        s.wrong = None
        I = s.I; M = I.models
        def tok(v):
            v = s.A.top(v)
            while isinstance(v, Ref): v = s.A.top(I.load(v))
            if not isinstance(v, Mp): raise Unsupported('point %r' % (v,))
            return v
        s.tok = tok
        def comb(x, y, k):
            if x.b != y.b: s.bad('%r and %r are added' % (x, y))
            return Mp(x.b, x.m + k * y.m, x.n)
        E = s.E = 'E'
        def op(f, mode):
            def g(I_, fn, a, info):
                e = s.A.top(a[0])
                while isinstance(e, Ref): e = s.A.top(I.load(e))
                if e != 'E': raise Unsupported('curve %r' % (e,))
                if mode == 'ret': return f(*a[1:])
                if mode == 'into': I.store(a[1], f(*a[2:])); return tup()
                I.store(a[1], f(*a[1:])); return tup()
            return g
        ad = lambda x, y: comb(tok(x), tok(y), 1); sb = lambda x, y: comb(tok(x), tok(y), -1); db = lambda x: comb(tok(x), tok(x), 1)
        for n, f, m in (('add', ad, 'ret'), ('sub', sb, 'ret'), ('add_into', ad, 'into'), ('sub_into', sb, 'into'), ('addto', ad, 'acc'), ('subfrom', sb, 'acc'),
                        ('double', db, 'ret'), ('double_into', db, 'into'), ('double_self', db, 'acc')): M[EC + 'Curve::' + n] = op(f, m)
        neg = lambda I_, fn, a, info: Mp(tok(a[0]).b, -tok(a[0]).m, tok(a[0]).n)
        for n in ('<festa_rs::ecFESTA::Point as std::ops::Neg>::neg', '<&festa_rs::ecFESTA::Point as std::ops::Neg>::neg'): M[n] = neg
        def setneg(I_, fn, a, info): p = tok(a[0]); I.store(a[0], Mp(p.b, -p.m, p.n)); return tup()
        M[EC + 'Point::set_neg'] = setneg
        M['<festa_rs::ecFESTA::Point as std::clone::Clone>::clone'] = lambda I_, fn, a, info: tok(a[0])
        M[EC + 'Point::isinfinity'] = lambda I_, fn, a, info: MASK1 if tok(a[0]).m == 0 else 0
        M[EC + 'Point::equals'] = lambda I_, fn, a, info: MASK1 if tok(a[0]) == tok(a[1]) else 0
        line_inf = lambda x: Mon(1, {(x, 'Z'): 1}) if x.m else Mon(0)
        M[EC + 'Point::to_xyz'] = lambda I_, fn, a, info: tup(Opaque('X'), Opaque('Y'), line_inf(tok(a[0])))
        M[EC + 'Point::to_xz'] = lambda I_, fn, a, info: tup(Opaque('X'), line_inf(tok(a[0])))
        def line(I_, fn, a, info):
            p, q, r = tok(a[1]), tok(a[2]), tok(a[3])
            if p.m == 0 and q.m == 0: return line_inf(r)
            if p.b != q.b: s.bad('line through %r and %r' % (p, q))
            x, y = sorted((p.m, q.m))
            if r.b == p.b and r.m in (x, y, -(x + y) % p.n): return Mon(0)
            return Mon(1, {(r, p.b, p.n, x, y): 1})
        r = [f for f in P.find(PR + 'eval_line') if f.blocks is not None]
        if len(r) != 1: raise Unsupported('eval_line not found')
        M[r[0].path] = line
    def bad(s, m): s.wrong = m; raise Unsupported(m)
    def run(s, name, p, q, n):
        try: v = s.exec(s.P.one(PR + name), s.ref('E'), s.ref(p), s.ref(q), s.ref(n))
        except Unsupported:
            if s.wrong: return None
            raise
        return s.D.leaf(s.A.top(v))

def divisor(f, at, base, n):
    """divisor, on multiples of `base`, of the product of the factors evaluated at `at`; None when not homogeneous of degree 0"""
    D = {}; deg = 0
    for k, e in f.items():
        if k[0] != at: continue
        deg += e
        if k[1] == 'Z': D[0] = D.get(0, 0) + 3 * e; continue
        for m in (k[3], k[4], -(k[3] + k[4]) % k[2]): D[m] = D.get(m, 0) + e
    D = {m: e for m, e in D.items() if e}
    return D if deg == 0 else None

def run(R_):
    P = load()
    R_.assume += ['extension-field and curve contracts (C02, C04, C06)', 'a function is determined by its divisor and its leading coefficient at infinity; points have exactly the given order']
    jobs = []
    def add(key, f, n):
        r = [x for x in P.find(PR + n) if x.blocks is not None]; jobs.append((key, f, where(r[0]) if r else n))
    # ---- the line function
    def line(case, rk):
        def f():
            r = [x for x in P.find(PR + 'eval_line') if x.blocks is not None]
            if len(r) != 1: raise Unsupported('eval_line not found')
            if case in ('tangent at a two-torsion point', 'chord through a two-torsion point'): s = TorsionS(P)
            else: s = CurveS(P)
            c = s.c
            if case == 'tangent': p = s.generic('1'); s.nz_y(p); q = p
            elif case == 'tangent at the origin': p = (c(0), c(0)); q = p
            elif case == 'tangent at a two-torsion point': p = (s.t, c(0)); q = p
            elif case == 'first point infinite': p = None; q = s.generic('2')
            elif case == 'second point infinite': q = None; p = s.generic('1')
            elif case == 'both points infinite': p = q = None
            elif case == 'opposite': p = s.generic('1'); s.nz_y(p); q = s.neg(p)
            elif case == 'chord': p = s.generic('1'); q = s.generic('2'); s.nz(p[0] - q[0])
            elif case == 'chord through the origin': p = s.generic('1'); s.nz_y(p); q = (c(0), c(0))
            elif case == 'chord through a two-torsion point': p = (s.t, c(0)); q = s.generic('2'); s.nz(p[0] - q[0])
            pts = (s.sym('RX'), s.sym('RY'), s.sym('RZ'))
            if rk == 'finite': s.nz(pts[2])
            elif rk == 'infinite': pts = (c(0), s.sym('RY'), c(0))
            elif rk == 'at the first point': k = s.sym('k3'); s.nz(k); pts = (p[0]*k, p[1]*k, k) if p else (c(0), k, c(0))
            elif rk == 'at the second point': k = s.sym('k3'); s.nz(k); pts = (q[0]*k, q[1]*k, k) if q else (c(0), k, c(0))
            Rr = s.pt(pts)
            g = s.exec(r[0], s.ref(s.E), s.ref(pnt(s, p, 'k1')), s.ref(pnt(s, q, 'k2')), s.ref(Rr))
            X, Y, Z = pts
            if not p and not q: w = Z
            elif not p or not q: w = X - (p or q)[0] * Z
            elif (p[0] - q[0]).iszero() and (p[1] + q[1]).iszero(): w = X - p[0] * Z
            else:
                if (p[0] - q[0]).iszero(): l = (p[0]*p[0]*3 + s.Av*p[0]*2 + c(1)) * (p[1]*2).inv()
                else: l = (q[1] - p[1]) * (q[0] - p[0]).inv()
                w = Y - l * X + (l * p[0] - p[1]) * Z
            return s.equal(g, w, what='line') or s.panics()
        return f
    for case in ('tangent', 'tangent at the origin', 'tangent at a two-torsion point', 'opposite', 'chord', 'chord through the origin', 'chord through a two-torsion point', 'first point infinite', 'second point infinite', 'both points infinite'):
        for rk in ('finite', 'infinite', 'at the first point', 'at the second point'): add('line/%s/evaluation %s' % (case, rk), line(case, rk), 'eval_line')
    # ---- Miller loop and quotient
    def tate(ns):
        def f():
            for n in ns:
                s = MillerS(P); p, q = Mp('P', 1, n), Mp('Q', 1, n)
                v = s.run('tate_pairing', p, q, n)
                if v is None: return 'order %s: %s' % (show(n), s.wrong)
                e = good(v, q, p, n, 1)
                if e: return 'order %s: %s' % (show(n), e)
                if any(k[0] != q for k in v.f): return 'order %s: lines evaluated at another point' % show(n)
                if v.c != 1: return 'order %s: constant factor %r' % (show(n), v)
                e = panics(s)
                if e: return 'order %s: %s' % (show(n), e)
        return f
    def good(v, at, base, n, sg):
        if not v.c: return 'the value is zero'
        D = divisor(v.f, at, base, n)
        if D is None: return 'the value depends on the projective scaling of the point'
        b = base.m
        want = {b: sg * n, 0: -sg * n} if n > 1 and base.n > 1 else {}
        if D != want: return 'the divisor of the function evaluated is not %d(%r) - %d(O)' % (n, base, n)
    def weil(ns, dep=False):
        def f():
            for n in ns:
                ks = [None] if not dep else [k for k in range(1, n) if gcd(k, n) == 1]
                for k in ks:
                    s = MillerS(P); p = Mp('P', 1, n); q = Mp('Q', 1, n) if k is None else Mp('P', k, n)
                    v = s.run('weil_pairing', p, q, n)
                    tag = 'order %s%s: ' % (show(n), '' if k is None else ', Q = %dP' % k)
                    if v is None: return tag + s.wrong
                    e = panics(s)
                    if e: return tag + e
                    if not v.f:
                        if k is None: return tag + 'the value is constant'
                        if v.c != 1: return tag + 'the pairing of dependent points is %s instead of 1' % ('0' if not v.c else '-1' if v.c == Mon.p - 1 else v.c)
                        continue
                    if k == 1: return tag + 'the value is not 1'
                    e = good(v, q, p, n, 1) or good(v, p, q, n, -1)
                    if e: return tag + e
                    if v.c not in (1, Mon.p - 1): return tag + 'constant factor %s' % v.c
                    if v.c != (1 if n % 2 == 0 else Mon.p - 1): return tag + 'wrong sign'
        return f
    def tdiv(js):
        def f():
            for n, m in js:
                s = MillerS(P); p, q = Mp('P', 1, m), Mp('Q', 1, n); tag = 'order %d for a point of order %d: ' % (n, m)
                v = s.run('tate_pairing', p, q, n)
                if v is None: return tag + s.wrong
                e = good(v, q, p, n, 1) or panics(s)
                if e: return tag + e
                if v.c != 1 or any(k[0] != q for k in v.f): return tag + 'value %r' % v
        return f
    def wdiv(js):
        def f():
            for n, m in js:
                for sw in (0, 1):
                    s = MillerS(P); p, q = Mp('P', 1, m), Mp('Q', 1, n)
                    if sw: p, q = q, p
                    tag = 'order %d for points of orders %d and %d: ' % (n, p.n, q.n)
                    v = s.run('weil_pairing', p, q, n)
                    if v is None: return tag + s.wrong
                    e = panics(s)
                    if e: return tag + e
                    if m == 1:
                        if v != Mon(1): return tag + 'the pairing with the point at infinity is %r' % v
                        continue
                    e = good(v, q, p, n, 1) or good(v, p, q, n, -1)
                    if e: return tag + e
                    if v.c != (1 if n % 2 == 0 else Mon.p - 1): return tag + 'wrong sign'
                # dependent points of different orders
                for k in range(n):
                    for sw in (0, 1):
                        s = MillerS(P); p, q = Mp('P', n // m, n), Mp('P', k, n)
                        if sw: p, q = q, p
                        v = s.run('weil_pairing', p, q, n); tag = 'order %d, dependent points %r and %r: ' % (n, p, q)
                        if v is None: return tag + s.wrong
                        if v.f:
                            # no line vanishes: the value is the quotient of the two functions, which is 1 by the theory
                            e = good(v, q, p, n, 1) or good(v, p, q, n, -1) or panics(s)
                            if e: return tag + e
                            if v.c != (1 if n % 2 == 0 else Mon.p - 1): return tag + 'wrong sign'
                            continue
                        if v.c != 1: return tag + 'the pairing is %s instead of 1' % ('0' if not v.c else '-1' if v.c == Mon.p - 1 else v.c)
                        e = panics(s)
                        if e: return tag + e
        return f
    from math import gcd
    top = 64 if R_.tier == 'quick' else 400
    for a in range(2, top, 16):
        ns = list(range(a, min(a + 16, top)))
        add('Miller loop/orders %d-%d' % (ns[0], ns[-1]), tate(ns), 'tate_pairing'); add('quotient/orders %d-%d' % (ns[0], ns[-1]), weil(ns), 'weil_pairing')
    big = orders(P) + [(1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 65) - 1, 3 << 127, (1 << 634) + 1]
    rnd = random.Random(7)
    big += [rnd.getrandbits(b) | 1 << b for b in (31, 32, 33, 63, 64, 127, 128, 255, 256, 300, 700, 1000)]
    for i in range(0, len(big), 3):
        add('Miller loop/large orders %d' % (i // 3), tate(big[i:i+3]), 'tate_pairing'); add('quotient/large orders %d' % (i // 3), weil(big[i:i+3]), 'weil_pairing')
    for lo, hi in ((2, 12), (12, 17), (17, 22), (22, 26)): add('dependent points/orders %d-%d' % (lo, hi - 1), weil(range(lo, hi), True), 'weil_pairing')
    for i, js in enumerate(([(n, m) for n in range(2, 41) for m in range(1, n) if n % m == 0][j::6] for j in range(6))):
        add('Miller loop/order of the point properly divides, part %d' % i, tdiv(js), 'tate_pairing'); add('quotient/order of a point properly divides, part %d' % i, wdiv(js), 'weil_pairing')
    R_.parallel(jobs)
    R_.floor('obligations', len(jobs), 45)
    R_.extra['level'] = 'proof'; R_.extra['orders'] = [show(x) for x in big]

def pnt(s, p, k):
    if p: return s.pt(p, k)
    y = s.sym(k); s.nz(y); return s.pt((s.c(0), y, s.c(0)))

def show(n): return str(n) if n < 10**9 else '%d (%d bits)' % (n % 10**6, n.bit_length()) if False else '0x%x' % n if n.bit_length() <= 64 else 'of %d bits' % n.bit_length()
def panics(s):
    ev = [e for e in s.I.events if e.kind == 'panic']
    return 'can panic: %r' % ev[0] if ev else None

def orders(P):
    out = []
    for nm, l in c13.tables(P):
        n = 1
        for p, e in l: n *= p ** e
        out.append(n)
    L = [c for n, c in P.consts.items() if n.endswith('FpFESTAExt::L_POWER')]
    if L: out.append(1 << int.from_bytes(bytes.fromhex(L[0]['a']['b']), 'little'))
    return sorted(set(out))
