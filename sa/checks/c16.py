"""C16: order predicates, basis generation, canonical kernels."""
import itertools, random
from math import gcd, prod
from ..prog import load, MissingAnchor
from ..harness import *
from ..ectok import *
from ..report import where
from . import c13
SS = 'festa_rs::supersingular::'
RULE = ('Group elements are formal combinations of generators of known order: the order predicates are evaluated for one element of every order divisor class (full, one prime short, one prime too many, foreign primes), '
        'the generators for scripted candidates, and what they return must have exactly the order asked for. The entangled basis is checked as an identity over the base field with indeterminate curve coefficient.')

def val_of(P, name):
    c = [c for n, c in P.consts.items() if n.endswith('FpFESTAExt::' + name)]
    if not c or 'a' not in c[0]: raise Unsupported('constant %s not found' % name)
    return int.from_bytes(bytes.fromhex(c[0]['a']['b']), 'little')
def val2(n): return (n & -n).bit_length() - 1
def size(fac): return prod(p ** e for p, e in fac)
def nm(l): return ' '.join('%d^%d' % x for x in l) if len(l) < 8 else '%d primes from %d' % (len(l), l[0][0])
def facref(s, fac):
    b = s.ref(arr([tup(p, e) for p, e in fac])); return Ref(b.cell, (), (0, len(fac)))
def facval(s, v):
    v = s.val(v)
    return [tuple(s.val(y) for y in x.f) if isinstance(x, Agg) else tuple(x) for x in v]

SMALL = [(2, 3, 5), (3, 2, 7), (59, 6299, 71), (2, 59, 3), (5, 7, 11)]
PR = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67]
def lists():
    out = [[(2, 1)], [(3, 1)], [(3, 2)], [(2, 5)], [(71, 3)], [(3, 1), (5, 1)], [(2, 2), (3, 1)], [(5, 1), (3, 2)], [(59, 1), (3359, 1), (6299, 1)], [(2, 1), (3, 3), (7, 1)], [(3, 1), (5, 2), (7, 1), (11, 2)]]
    for k in range(5, 20): out.append([(p, 1 + (i * 7 + k) % 3) for i, p in enumerate(PR[:k])])
    return out

def orders(fac, full):
    """orders of group elements to be tried"""
    D = size(fac); ls = [p for p, e in fac]; q = 10007
    if full:
        rng = [range(0, e + 2) for p, e in fac]
        out = {prod(p ** k for (p, e), k in zip(fac, ks)) for ks in itertools.product(*rng)}
        return sorted(out | {D * q, q, D // ls[0] * q})
    out = {1, D, D * q, q}
    for p, e in fac:
        out |= {D // p, D // p ** e, D * p, D // p * q, p ** e, p, D // p ** e * q}
        for p2, e2 in fac:
            if p2 != p and len(fac) < 9: out |= {D // p * p2, D // (p * p2)}
    return sorted(out)

def pred(P, which, fac, full):
    def f():
        D = size(fac); ords = orders(fac, full)
        N = D * 10007 * prod(p for p, e in fac)
        for o in ords:
            for u in (1, 5) if full else (1,):
                k = N // o * (u if gcd(u, o) == 1 else 1)
                if which == 'point':
                    s = EcTok(P, 0, {'g': N}); r = s.go(SS + 'point_has_factored_order', s.ref('E'), s.ref(Pt('E', {'g': k}, s.o)), facref(s, fac))
                else:
                    s = EcTok(P, N); r = s.go(SS + 'has_factored_order', Pw(k, N), facref(s, fac))
                if s.wrong: return s.wrong
                r = s.val(r)
                if r not in (0, 1, True, False): raise Unsupported('result %r' % (r,))
                if bool(r) != (o == D): return 'element of order %s %s for %s' % (rel(o, fac), 'accepted' if r else 'refused', nm(fac))
                e = s.panics()
                if e: return 'element of order %s: %s' % (rel(o, fac), e)
    return f

def rel(o, fac):
    D = size(fac)
    if o == D: return 'D'
    g = gcd(o, D); t = 'D' if g == D else 'D/%d' % (D // g) if D // g < 10**9 else '%d' % o if o < 10**12 else 'D/(%d bits)' % (D // g).bit_length()
    return t + ('*%d' % (o // g) if o > g and not t.isdigit() else '')

def setup(P, s, script, D):
    """candidate points on E and the pairing"""
    I = s.I; M = I.models
    class It:
        pass
    s.used = 0
    def nxt(k):
        if k >= len(script): raise Over()
        return Pt('E', dict(zip(('g1', 'g2'), script[k])), s.o)
    def rp(I_, fn, a, info): r = nxt(s.used); s.used += 1; return r
    M[EC + 'Curve::rand_point'] = lambda I_, fn, a, info: rp(I_, fn, a, info)
    def srp(I_, fn, a, info): I.store(a[2], rp(I_, fn, a, info)); return tup()
    M[EC + 'Curve::set_rand_point'] = srp
    M[EC + 'Curve::iter'] = lambda I_, fn, a, info: tup('iter', 0)
    def itn(I_, fn, a, info):
        t = s.A.top(I.load(a[0])); k = s.A.top(t.f[1]); I.store(a[0], tup('iter', k + 1)); return Agg('s', None, 1, (nxt(k),))
    M[EC + 'CurveIter::new'] = lambda I_, fn, a, info: tup('iter', 0)
    def istep(t):
        if isinstance(t, Agg) and len(t.f) == 2 and t.f[0] == 'iter': return True, nxt(s.A.top(t.f[1])), tup('iter', s.A.top(t.f[1]) + 1)
    I.iter_step = istep
    M['<festa_rs::ecFESTA::CurveIter as std::iter::Iterator>::next'] = itn
    M['rand::thread_rng'] = lambda I_, fn, a, info: 'rng'
    s.D.rng = lambda fn, a, info: 'rng'
    M['festa_rs::pairing::weil_pairing'] = weil(s)

def weil(s):
    def f(I_, fn, a, info):
        E = s.cv(a[0]); x, y, n = s.tok(a[1]), s.tok(a[2]), s.val(a[3])
        if type(n) is not int: raise Unsupported('order %r' % (n,))
        B = s.N
        if any(k.c * n % s.o[g] or k.f for t in (x, y) for g, k in t.f.items()):
            return Pw(hash((x, y, n)) % B, B)   # not a pairing of points of that order: an arbitrary value
        g = lambda t, w: (t.f.get(w, lin(0)).c) * n // s.o[w]
        d = g(x, 'g1') * g(y, 'g2') - g(x, 'g2') * g(y, 'g1')
        return Pw(d % n * (B // n), B)
    return f
class Over(Exception): pass

def scripts(fac, B, basis):
    D = size(fac); ls = [p for p, e in fac]
    out = []
    l0, l1 = ls[0], ls[-1]
    units = [u for u in range(1, 400) if gcd(u, B) == 1]; u, v = units[1], units[-1]
    if not basis:
        out.append([(1, 0)]); out.append([(0, 0), (u, v)]); out.append([(l0, 0), (1, l0)]); out.append([(l1, l1), (u, 0)])
        out.append([(D, 0), (0, D), (D // l0, D // l1), (0, 1)]); out.append([(0, 0)] * 3 + [(l0 ** fac[0][1], l0)] * 2 + [(v, 1)])
        if len(ls) > 1: out.append([(l0, 0), (l1, 0), (l0 * l1, l0 * l1), (l0, l1)])
        return out
    a, b = (u, v), (v, u + 1 if gcd(v * v - u * (u + 1), B) == 1 else u)
    out.append([(1, 0), (0, 1)]); out.append([(0, 0), (1, 0), (0, 0), (0, 1)])
    out.append([(l0, l0), (1, 0), (l1, 0), (2 if l0 > 2 else 1, 0), (u, 0), (0, l0), (0, 1)])
    out.append([(1, 0), (1, l0), (1, l1), (u, D), (l0, 1), (1, 1)] if len(ls) > 1 or l0 > 1 else [(1, 0), (0, 1)])
    out.append([(0, 1), (l0, 1), (D // l1, 1), (1, l1), (u, v)])
    return out

def gen(P, name, fac, even, bad=()):
    basis = name == 'torsion_basis'
    def f():
        B = val_of(P, 'BASIS_ORDER'); D = size(fac)
        if B % D: raise Unsupported('%s does not divide the group order' % nm(fac))
        for sc in scripts(fac, B, basis):
            s = EcTok(P, B, {'g1': B, 'g2': B}, fuel=200000000); setup(P, s, sc, D)
            try: r = s.go(SS + name, s.ref('E'), facref(s, fac), even)
            except Over: return 'no candidate of %s is accepted although a suitable one is there' % (sc,)
            if s.wrong: return s.wrong
            e = s.panics()
            if e: return e
            pts = [s.tok(x) for x in r.f] if basis else [s.tok(r)]
            for i, p in enumerate(pts):
                if p.order() != D: return 'candidates %s: point %d returned has order %s instead of D = %s' % (sc, i, rel(p.order(), fac), nm(fac))
            if basis:
                w = weil(s)(s.I, None, ['E', pts[0], pts[1], D], None)
                k = w.e.c; o = B // gcd(B, k)
                if o != D: return 'candidates %s: the pairing of the points returned has order %s' % (sc, rel(o, fac))
    return f

def cofactor(P):
    def f():
        for even in (0, 1, 2, 5, 8, 63, 64, 632):
            for m in (1, 2, 3, 5, 12345, 1 << 64, (1 << 700) + 1):
                s = EcTok(P, 0, {'g': 0}); k = m << even
                r = s.tok(s.exec(P.one(SS + 'clear_cofactor'), s.ref('E'), s.ref(Pt('E', {'g': 1}, s.o)), s.ref(k), even))
                if r != Pt('E', {'g': k}, s.o): return 'cofactor %d with %d doublings: %r' % (m, even, r)
                e = s.panics()
                if e: return e
    return f

def kernel(P, fac, pairs, given):
    def f():
        D = size(fac)
        for x, y in pairs():
            s = EcTok(P, D, {'g1': D, 'g2': D}); M = s.I.models
            g1, g2 = Pt('E', {'g1': 1}, s.o), Pt('E', {'g2': 1}, s.o)
            M['festa_rs::pairing::weil_pairing'] = weil(s)
            def tb(I, fn, a, info):
                if s.cv(a[0]) != 'E' or facval(s, a[1]) != fac: s.bad('the basis is computed for another order')
                return tup(g1, g2)
            M[SS + 'torsion_basis'] = tb
            def bi(I, fn, a, info):
                R, p, q = s.tok(a[1]), s.tok(a[2]), s.tok(a[3])
                if s.cv(a[0]) != 'E' or sorted(facval(s, a[4])) != sorted(fac): s.bad('logarithm for another order or curve')
                if (p, q) == (g1, g2): a_, b_ = 'g1', 'g2'
                elif (p, q) == (g2, g1): a_, b_ = 'g2', 'g1'
                else: raise Unsupported('basis %r, %r' % (p, q))
                o = s.A.top(a[5])
                if o.var == 1:
                    w = s.D.leaf(s.val(o.f[0]))
                    if w != weil(s)(I, None, ['E', p, q, D], None): s.bad('the pairing given to the logarithm is not that of the basis')
                return tup(norm(R.f.get(a_, lin(0))), norm(R.f.get(b_, lin(0))))
            M['festa_rs::discrete_log::bidlp'] = bi
            def xg(I, fn, a, info):
                u, v = s.val(a[0]), s.val(a[1])
                if type(u) is not int or type(v) is not int: raise Unsupported('inverse of %r' % (u,))
                g = gcd(u, v); return pow(u // g, -1, v // g) if v // g > 1 else 0
            M['festa_rs::discrete_log::xgcd_big'] = xg
            sy = sym('s', D)
            im = [Pt('E', {'g1': k, 'g2': sy.scale(k)}, s.o) for k in (x, y)]
            opt = Agg('s', None, 1, (tup(g1, g2),)) if given else Agg('s', None, 0, ())
            r = s.go(SS + 'compute_canonical_kernel', s.ref('E'), s.ref(im[0]), s.ref(im[1]), facref(s, fac), opt)
            if s.wrong: return s.wrong
            r = lin(s.val(r))
            if r.cong % D: return 'multiples %d, %d: the scalar is known only modulo %d' % (x, y, r.cong)
            if r.red(D) != (0, {'s': 1}): return 'multiples %d, %d of the kernel point: the scalar returned is %s' % (x, y, r if D < 10**9 else 'wrong')
            e = s.panics()
            if e: return e
    return f

def randiso(P, fac, steps):
    def f():
        B = val_of(P, 'BASIS_ORDER'); D = size(fac); s = EcTok(P, 0, {}); M = s.I.models
        n = [0]
        def gr(I, fn, a, info):
            E = s.cv(a[0]); fs = facval(s, a[1]); even = s.val(a[2])
            d = size(fs)
            if B % d or even > val2(B // d): s.bad('the cofactor for order %s cannot be cleared with %d doublings' % (nm(fs), even))
            n[0] += 1; g = 'K%d' % n[0]; s.o[g] = d
            return Pt(E, {g: 1}, s.o)
        M[SS + 'generate_random_point_order_factored_D'] = gr
        fk(s, M)
        r = s.go(SS + 'random_isogeny_x_only', s.ref('E0'), facref(s, fac), steps)
        if s.wrong: return s.wrong
        return chain(s, r, fac * steps) or (None if n[0] == steps else '%d random points for %d steps' % (n[0], steps)) or s.panics()
    return f

class Phi:
    __slots__ = ('src', 'dst', 'l', 'ker')
    def __init__(t, src, dst, l, ker): t.src, t.dst, t.l, t.ker = src, dst, l, ker
def fk(s, M):
    s.chains = []
    def f(I, fn, a, info):
        E, K, fs = s.cv(a[0]), s.tok(a[1]), facval(s, a[2])
        if K.E != E: s.bad('the kernel %r is not on the domain %s' % (K, E))
        s.chains.append((E, K, fs))
        out = []; at = E; n = len(s.chains)
        steps = [p for p, e in fs for _ in range(e)]
        for i, l in enumerate(steps):
            to = 'E%d' % n if i == len(steps) - 1 else 'E%d.%d' % (n, i); out.append(Phi(at, to, l, K)); at = to
        return vec(out)
    M[EC + 'factored_kummer_isogeny'] = f
    M[EC + 'KummerLineIsogeny::get_codomain'] = lambda I, fn, a, info: s.val(a[0]).dst

def chain(s, r, fac):
    phi, cod = s.val(r.f[0]), s.val(r.f[1]); at = 'E0'; D = size(fac); d = 1
    for i, p in enumerate(phi):
        if p.src != at: return 'isogeny %d starts at %s, the previous one ends at %s' % (i, p.src, at)
        at = p.dst; d *= p.l
    if d != D: return 'the chain has not the degree asked for'
    if cod != at: return 'the curve returned is %s, the chain ends at %s' % (cod, at)
    for E, K, fs in s.chains:
        try: o = K.order()
        except Unsupported: continue
        if o != size(fs): return 'kernel of order %s for a chain of degree %s' % (sh(o), sh(size(fs)))

def scalar(P, fac, given):
    def f():
        D = size(fac); s = EcTok(P, 0, {'P': D, 'Q': D}); M = s.I.models
        g1, g2 = Pt('E0', {'P': 1}, s.o), Pt('E0', {'Q': 1}, s.o)
        def tb(I, fn, a, info):
            B = val_of(P, 'BASIS_ORDER')
            if s.cv(a[0]) != 'E0' or facval(s, a[1]) != fac: s.bad('the basis is computed for another order')
            if s.val(a[2]) > val2(B // D): s.bad('the cofactor cannot be cleared with %d doublings' % s.val(a[2]))
            return tup(g1, g2)
        M[SS + 'torsion_basis'] = tb
        fk(s, M)
        opt = Agg('s', None, 1, (tup(g1, g2),)) if given else Agg('s', None, 0, ())
        r = s.go(SS + 'isogeny_from_scalar_x_only', s.ref('E0'), facref(s, fac), s.ref(sym('m')), opt)
        if s.wrong: return s.wrong
        e = chain(s, r, fac) or s.panics()
        if e: return e
        if len(s.chains) != 1: raise Unsupported('%d chains' % len(s.chains))
        K = s.chains[0][1]; want = Pt('E0', {'P': 1, 'Q': sym('m')}, s.o)
        if K != want and K != want.scale(-1): return 'the kernel is generated by %r' % K
    return f

def entangled(P, chiA, found, sz):
    """chiA: class of A; found: number of table entries refused first; sz: whether (c+s)/2 is a square"""
    def f():
        s = Sess(P, 'fp'); D = s.D; A = s.A; I = s.I; p = D.p; I.fuel = 60000000
        a0, a1 = s.sym('a0'), s.sym('a1')
        FP_, FP2_ = 'festa_rs::fields::FpFESTA::Fp', 'festa_rs::fields::FpFESTAExt::Fp2'
        st = {'pow': [], 'leg': None}
        def cst(x): return x.n.constval() * pow(x.d.constval(), -1, p) % p if x.n.isconst() and x.d.isconst() else None
        def chi(v): return 0 if v % p == 0 else 1 if pow(v, (p - 1) // 2, p) == 1 else -1
        def leg(I_, fn, a, info):
            x = D.leaf(A.top(D.fv(a[0]))); v = cst(x)
            if v is not None: return chi(v)
            w = a0*a0 + a1*a1
            if not D.normal(x.n * w.d - w.n * x.d).iszero(): raise Unsupported('Legendre symbol of %r' % x)
            return chiA
        s.FM.extra['legendre'] = leg
        def power(v, e):
            def g(x):
                x = D.leaf(x); v = cst(x)
                if v is not None: return D.c(pow(v, e, p))
                if e != (p + 1) // 4: raise Unsupported('power')
                for y, r in st['pow']:
                    if y == x: return r
                if not x.d.isconst(): raise Unsupported('power of a fraction')
                k = len(st['pow']); ok = k == found or (k == found + 1 and sz)
                if k > found + 1: raise Unsupported('further powers')
                nm_ = 'rt%d' % k; r = s.sym(nm_)
                q = x.n * pow(x.d.constval(), -1, p)
                D.nonzero.append(q.monic()); D.nonzero.append(r.n.monic())
                D.R.rule(nm_, q if ok else q * -1); st['pow'].append((x, r)); return r
            return A.app1(g, v)
        s.FM.power = power
        def fp2(v):
            v = A.top(v)
            while isinstance(v, Ref): v = A.top(I.load(v))
            return D.leaf(A.top(v.f[0])), D.leaf(A.top(v.f[1]))
        mk = []
        def new_xy(I_, fn, a, info): mk.append((fp2(a[0]), fp2(a[1]))); return len(mk)
        I.models[EC + 'Point::new_xy'] = new_xy
        I.models[EC + 'Point::new_xyz'] = None; del I.models[EC + 'Point::new_xyz']
        def mul(I_, fn, a, info):
            k = a[1]
            while isinstance(k, Ref): k = A.top(I.load(k))
            c = a[2]
            while isinstance(c, Ref): c = A.top(I.load(c))
            return ('mul', k, c)
        I.models[EC + 'Curve::mul_big'] = mul
        I.models[FP2_ + '::sqrt'] = lambda I_, fn, a, info: tup(Opaque('root'), MASK1)
        ctor = Agg('s', None, 0, (a0, a1))
        E = mkcurve(s, P, ctor)
        r = s.exec(P.one(SS + 'entangled_torsion_basis'), s.ref(E), s.ref(12345))
        res = [A.top(x) for x in r.f]
        for x in res:
            if not (isinstance(x, tuple) and x[0] == 'mul' and type(x[1]) is int): raise Unsupported('result %r' % (x,))
            if x[2] != 12345: return 'the points are multiplied by %r instead of the cofactor' % (x[2],)
        pts = [mk[x[1] - 1] for x in res]
        def mulc(x, y): return x[0]*y[0] - x[1]*y[1], x[0]*y[1] + x[1]*y[0]
        def zero(x): return D.normal(x.n).iszero()
        Av = (a0, a1); kap = []
        for i, (x, y) in enumerate(pts):
            l = mulc(y, y); x2 = mulc(x, x); w = mulc(x2, x); t = mulc(Av, x2)
            if not all(zero(l[j] - w[j] - t[j] - x[j]) for j in (0, 1)): return 'point %d is not on the curve' % (i + 1)
            # x = kappa * A
            n, d = x[0].n, x[0].d
            if not d.isconst(): raise Unsupported('x-coordinate')
            co = lambda q, v: (q.n.coeff_of(v).get(1, D.R.zero))
            c0, c1 = co(x[0], 'a0'), co(x[0], 'a1')
            if not (c0.isconst() and c1.isconst()): raise Unsupported('x-coordinate is not linear')
            k0 = c0.constval() * pow(d.constval(), -1, p) % p; k1 = -c1.constval() * pow(d.constval(), -1, p) % p
            w = mulc((D.c(k0), D.c(k1)), Av)
            if not (zero(w[0] - x[0]) and zero(w[1] - x[1])): return 'the x-coordinate of point %d is not proportional to A' % (i + 1)
            kap.append((k0, k1))
        (p0, p1), (q0, q1) = kap
        if (p0 + q0 + 1) % p or (p1 + q1) % p: return 'the two x-coordinates do not add up to -A'
        for i, k in enumerate(kap):
            if chi(k[0]*k[0] + k[1]*k[1]) * chiA != -1: return 'the x-coordinate of point %d is a square' % (i + 1)
        iv = pow(p0*p0 + p1*p1, -1, p); t0 = (q0*p0 + q1*p1) * iv % p; t1 = (q1*p0 - q0*p1) * iv % p
        if t1 == 0 or chi(t0*t0 + t1*t1) != 1: return 'the ratio of the two x-coordinates is not the square of an element outside the base field'
        ev = [e for e in I.events if e.kind == 'panic']
        return 'can panic: %r' % ev[0] if ev else None
    return f

def mkcurve(s, P, Av):
    a = P.adt('ecFESTA::Curve')
    i = P.fieldidx(a, 'A'); n = len(P.ty[a]['v'][0]['f'])
    f = [Opaque('A24')] * n; f[i] = Av
    return Agg('s', None, 0, tuple(f))

def run(R_):
    P = load()
    R_.assume += ['curve arithmetic, scalar multiplication, pairing and logarithm contracts (C04, C05, C14, C15), isogeny chains (C13)', 'the rational points of the curve form (Z/BASIS_ORDER)^2',
                  'entangled bases: the generation theorem for x-coordinates that are non-squares with ratio the square of an element outside the base field; the degenerate case (c + s = 0) is left out']
    jobs = []
    def add(key, f, n):
        r = [x for x in P.find(SS + n) if x.blocks is not None]; jobs.append((key, f, where(r[0]) if r else n))
    tabs = c13.tables(P)
    for i, l in enumerate(lists()):
        full = prod(e + 2 for p, e in l) <= (130 if R_.tier == 'quick' else 3000)
        add('order test, points/%s' % nm(l), pred(P, 'point', l, full), 'point_has_factored_order')
        add('order test, field elements/%s' % nm(l), pred(P, 'field', l, full), 'has_factored_order')
    seen = []
    for t, l in tabs:
        if l in seen: continue
        seen.append(l)
        add('order test, points/%s' % t, pred(P, 'point', l, False), 'point_has_factored_order'); add('order test, field elements/%s' % t, pred(P, 'field', l, False), 'has_factored_order')
    add('cofactor', cofactor(P), 'clear_cofactor')
    try: B = val_of(P, 'BASIS_ORDER'); L = val2(B)
    except Unsupported: B = 0; L = 0
    ds = [('table ' + t, l, L) for t, l in tabs if B and B % size(l) == 0]
    ds += [(nm(l), l, e) for l, e in (([(2, L)], 0), ([(2, 5)], L - 5), ([(2, 5)], 3), ([(59, 1), (6299, 1)], L), ([(59, 1)], 7), ([(59, 2)], L), ([(2, 4), (59, 1)], L - 4), ([(2, 1)], 1)) if B and B % size(l) == 0]
    odd = [p for t, l in tabs for p, e in l if p % 2 and B and B % p == 0][:3]
    ds += [('%d' % p, [(p, 1)], L) for p in odd if [(p, 1)] not in [d[1] for d in ds]]
    for t, l, e in ds:
        for fn in ('generate_random_point_order_factored_D', 'generate_point_order_factored_D', 'torsion_basis'):
            add('generation/%s/%s, %d doublings' % (fn, t, e), gen(P, fn, l, e), fn)
    # ---- canonical kernel
    def allpairs(l):
        def g():
            D = size(l)
            for x in range(D):
                for y in range(D):
                    if all(x % p or y % p for p, e in l): yield x, y
        return g
    def some(l):
        def g():
            rnd = random.Random(5); D = size(l); yield 1, 0; yield 0, 1; yield 1, 1; yield D - 1, 2
            for p, e in l:
                for k in range(1, e + 1): yield p ** k % D, 1; yield 1, p ** k % D
            for _ in range(12):
                x, y = rnd.randrange(D), rnd.randrange(D)
                for p, e in l:
                    if x % p == 0 and y % p == 0: y += D // p ** e
                    if rnd.random() < .3 and y % p: x -= x % p ** e * pow(D // p ** e, -1, p ** e) * (D // p ** e); x %= D
                if all(x % p or y % p for p, e in l): yield x, y
        return g
    for l in ([(3, 1)], [(3, 2)], [(5, 1), (3, 1)], [(3, 2), (5, 1)][:2] if R_.tier != 'quick' else [(7, 1), (3, 1)]): add('canonical kernel/%s, all pairs of multiples' % nm(l), kernel(P, l, allpairs(l), 1), 'compute_canonical_kernel')
    for t, l in tabs:
        if size(l) % 2:
            for g in (0, 1): add('canonical kernel/table %s%s' % (t, ', basis given' if g else ''), kernel(P, l, some(l), g), 'compute_canonical_kernel')
    for l in ([(3, 2), (5, 1)], [(3, 3), (7, 2), (11, 1)]): add('canonical kernel/%s' % nm(l), kernel(P, l, some(l), 0), 'compute_canonical_kernel')
    # ---- isogenies
    for t, l in tabs:
        if B and B % size(l) == 0:
            for k in (1, 2): add('random isogeny/table %s, %d steps' % (t, k), randiso(P, l, k), 'random_isogeny_x_only')
            for g in (0, 1): add('isogeny from scalar/table %s%s' % (t, ', basis given' if g else ''), scalar(P, l, g), 'isogeny_from_scalar_x_only')
    for ch in (1, -1):
        for fo in (0, 1, 2, 5, 10):
            for sz in (1, 0): add('entangled basis/A %s, entry %d, %s' % ('square' if ch > 0 else 'non-square', fo, 'square' if sz else 'non-square'), entangled(P, ch, fo, sz), 'entangled_torsion_basis')
    R_.parallel(jobs)
    R_.floor('obligations', len(jobs), 120)
    R_.extra['level'] = 'proof'
