"""C17: key generation, evaluation and inversion of the trapdoor fit together."""
import itertools, random
from math import gcd, prod
from ..prog import load, MissingAnchor
from ..harness import *
from ..ectok import *
from ..report import where
from .c16 import val_of, val2, size, facref, facval, Phi
from . import c13, c12
FE = 'festa_rs::festa::'; CR = FE + 'FESTACrypto::'; SS = 'festa_rs::supersingular::'; DL = 'festa_rs::discrete_log::'
RULE = ('The protocol functions are interpreted over the group structure: points are combinations of named generators with Laurent-polynomial coefficients in the secret scalars, isogenies push generators, '
        'pairings are powers of named roots of unity, and every isogeny, pairing, logarithm, basis and two-dimensional chain is replaced by its contract, whose preconditions (order, degree, curve, kernel) are obligations. '
        'The published points, the masked images and the recovered input must be the stated ones for every choice of signs, models and codomain order.')

class Tok:
    """an opaque field element attached to a curve"""
    __slots__ = ('k', 'n')
    def __init__(s, k, n): s.k = k; s.n = n
    def __eq__(s, o): return isinstance(o, Tok) and (s.k, s.n) == (o.k, o.n)
    def __hash__(s): return hash((s.k, s.n))
    def __repr__(s): return '%s(%s)' % (s.k, s.n)

class PV:
    """product of powers of named roots of unity: label -> (exponent, order)"""
    __slots__ = ('e',)
    def __init__(s, e):
        d = {}
        for l, (k, n) in e.items():
            c, f = lin(k).red(n)
            if c or f: d[l] = (Lin(c, f), n)
        s.e = d
    def key(s): return frozenset((l, k.key()) for l, (k, n) in s.e.items())
    def __eq__(s, o): return isinstance(o, PV) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __mul__(s, o):
        e = dict(s.e)
        for l, (k, n) in o.e.items(): e[l] = (e[l][0] + k, n) if l in e else (k, n)
        return PV(e)
    def inv(s): return PV({l: (k.scale(-1), n) for l, (k, n) in s.e.items()})
    def pow(s, m): return PV({l: (lin(m).mulv(k), n) for l, (k, n) in s.e.items()})
    def __repr__(s): return ' '.join('%s^(%r)' % (l, k) for l, (k, n) in s.e.items()) or '1'

class ProtoDom(GrpDom):
    half = None
    def leaf(s, x):
        if isinstance(x, (Tok, PV)): return x
        if isinstance(x, R):
            if x.n.isconst() and x.d.isconst() and x.n == x.d and s.one_as_pv: return x
            return x
        raise Unsupported('field element %r' % (x,))
    one_as_pv = True
    def one(s, f, x): return s.A.app1(lambda v: f(s.leaf(v)), x)
    def two(s, f, x, y):
        def g(a, b):
            a, b = s.leaf(a), s.leaf(b)
            if isinstance(a, PV) != isinstance(b, PV):
                a, b = [PV({}) if isinstance(v, R) and v.n == v.d else v for v in (a, b)]
            if isinstance(a, R) != isinstance(b, R) or isinstance(a, Tok) or isinstance(b, Tok): raise Unsupported('arithmetic on %r, %r' % (a, b))
            return f(a, b)
        return s.A.app2(g, x, y)
    def inverse(s, x): return x.inv()
    def eq_cond(s, x, y):
        if isinstance(x, R) and isinstance(y, PV): x, y = y, x
        if isinstance(y, R) and isinstance(x, PV):
            if y.n != y.d: raise Unsupported('comparison with %r' % (y,))
            y = PV({})
        if type(x) is not type(y) or isinstance(x, Tok) and x.k != y.k: raise Unsupported('comparison of %r and %r' % (x, y))
        if isinstance(x, R): return RingDom.eq_cond(s, x, y)
        if x == y: return 1
        return 0
    def zero_cond(s, x): return 0 if not isinstance(x, R) else RingDom.zero_cond(s, x)
    def big_set_bit(s, v, k, b):
        if type(v) is Lin and k == 0 and b in (0, 1):
            if v.c == 0 and list(v.f.values()) == [1] and v.cong == 0:
                n = next(iter(v.f))
                if isinstance(n, str):
                    n = n.split(' ')[-1]
                    return Lin(0, {('odd ' if b else 'even ') + n: 1}, 0, v.top)
        raise Unsupported('setting bit %r of %r' % (k, v))
    def binop(s, op, a, b, bits=64, signed=0):
        if op in ('Gt', 'Lt', 'Ge', 'Le', 'Eq', 'Ne'): return s.cmp(op, a, b)
        if op == 'BitOr' : return s.big_set_bit(*((a, 0, 1) if b == 1 else (b, 0, 1) if a == 1 else (None, 0, 0)))
        return GrpDom.binop(s, op, a, b, bits, signed)
    def bigop(s, op, u, v):
        if op == 'bitor': return s.binop('BitOr', u, v)
        if op == 'shl' and type(v) is int: return norm(lin(u).scale(1 << v))
        r = GrpDom.bigop(s, op, u, v)
        if op == 'sub' and type(u) is int and isinstance(r, Lin) and lin(v).top and lin(v).top <= u + 1: r.top = u + 1
        if op == 'add' and isinstance(r, Lin) and r.cong == 0 and r.c % 2 and len(r.f) == 1:
            # 1 + 2r for a drawn r: an odd number about which nothing else is known
            (m, k), = r.f.items()
            if isinstance(m, str) and m[0] == 'r' and k % 2 == 0: return Lin(0, {'odd ' + m: 1}, 0, r.top)
        return r
    def cmp(s, op, a, b):
        a, b = lin(a), lin(b)
        if op in ('Eq', 'Ne'):
            if (a - b).isconst(): return int(((a - b).c == 0) == (op == 'Eq'))
            raise Unsupported('comparison of %r and %r' % (a, b))
        if op in ('Lt', 'Ge'): a, b = b, a; op = 'Gt' if op == 'Lt' else 'Le'
        # a > b ?
        r = s.greater(a, b)
        return r if op == 'Gt' else 1 - r
    def small(s, x):
        """b11, which is odd and below half of the modulus, or its opposite"""
        if x.f == {'b': 1} and x.c == 0: return 1
        if x.cong and x.c in (0, x.cong) and set(x.f) == {'b'} and (x.f['b'] + 1) % x.cong == 0: return -1
        return 0
    def greater(s, a, b):
        L = s.mod2
        for x, y, sg in ((a, b, 1), (b, a, 0)):
            if y.isconst():
                k = s.small(x)
                if k and y.c in (L // 2, L // 2 - 1) and (x.top or 0) <= L:
                    big = int(k < 0); return big if sg else 1 - big
                if y.c == 0: return sg and 1 if sg else 0
                if x.top and x.top <= y.c: return 0 if sg else 1
        # neither outcome is known: the result is compared in the end
        s.arbitrary = True; return 0
    arbitrary = False

class Ch:
    __slots__ = ('src', 'dst', 'deg', 'ker', 'name')
    def __init__(t, name, src, dst, deg, ker): t.name, t.src, t.dst, t.deg, t.ker = name, src, dst, deg, ker
    def __repr__(t): return 'isogeny %s: %s -> %s' % (t.name, t.src, t.dst)

class World(EcTok):
    def __init__(s, P, sc, seed=1):
        EcTok.__init__(s, P, 0, {}, fuel=200000000)
        D = ProtoDom(P, 0); s.D.__class__ = ProtoDom; s.D.__dict__.update({k: v for k, v in D.__dict__.items() if k not in s.D.__dict__})
        s.FM.power = lambda v, e: s.A.app1(lambda x: s.fpow(x, e), v)
        s.sc = sc; s.rnd = random.Random(seed); s.fam = {}; s.bases = {}; s.chains = []; s.imgs = {}; s.dual = {}; s.nsign = 0; s.nrand = 0; s.scal = []
        s.B = val_of(P, 'BASIS_ORDER'); s.L = val2(s.B); s.D.mod2 = 1 << s.L
        s.models()
    def fpow(s, x, e):
        x = s.D.leaf(x); e = s.A.top(e)
        if isinstance(x, PV): return x.pow(e)
        raise Unsupported('power')
    def agg(s, v):
        v = s.A.top(v)
        while isinstance(v, Ref): v = s.A.top(s.I.load(v))
        return v
    def sign(s):
        k = s.sc['signs'][s.nsign] if s.nsign < len(s.sc['signs']) else 1
        s.nsign += 1; return k
    # ---- generators
    def gen2(s, E, n, tag, fam, mult):
        g = ('%s1' % tag, '%s2' % tag)
        for i, x in enumerate(g): s.o[x] = n; s.fam[x] = (fam, i, mult, g)
        return tuple(Pt(E, {x: 1}, s.o) for x in g)
    def unit(s, n):
        while 1:
            k = s.rnd.randrange(1, n)
            if gcd(k, n) == 1: return k
    def matrix(s, n):
        while 1:
            m = [[s.rnd.randrange(n) for _ in range(2)] for _ in range(2)]
            if gcd(m[0][0] * m[1][1] - m[0][1] * m[1][0], n) == 1 and all(gcd(x, n) == 1 for r in m for x in r): return m
    def image(s, ch, p):
        """phi(p) for p on the domain"""
        if p.E is not None and p.E != ch.src: s.bad('%r is pushed through the %r' % (p, ch))
        out = Pt(ch.dst, {}, s.o)
        for g, k in p.f.items():
            if (ch.name, g) not in s.imgs:
                if gcd(s.o[g], ch.deg) != 1: raise Unsupported('image of a point of order dividing the degree')
                fam, i, mult, pair = s.fam[g]
                im = s.gen2(ch.dst, s.o[g], '%s(%s).' % (ch.name, '/'.join(pair)), fam, mult * ch.deg)
                for x, y in zip(pair, im): s.imgs[ch.name, x] = y
                for x, y in zip(pair, im): s.dual[ch.name, next(iter(y.f))] = Pt(ch.src, {x: ch.deg}, s.o)
            out = out.comb(s.imgs[ch.name, g].scale(k))
        return out
    def dualimage(s, ch, p):
        out = Pt(ch.src, {}, s.o)
        for g, k in p.f.items():
            if (ch.name, g) not in s.dual: raise Unsupported('dual image of %r' % p)
            out = out.comb(s.dual[ch.name, g].scale(k))
        return out
    def into(s, E): return [c for c in s.chains if c.dst == E]
    def basis(s, E, fac):
        n = size(fac); key = (E, tuple(sorted(fac)))
        if key in s.bases: return s.bases[key]
        inc = s.into(E)
        if not inc: r = s.gen2(E, n, 'T%d.' % len(s.bases), 'z%d' % len(s.bases), 1)
        else:
            ch = inc[0]
            if gcd(n, ch.deg) == 1:
                u = [s.image(ch, x) for x in s.basis(ch.src, fac)]; m = s.matrix(n)
                r = tuple(u[0].scale(a).comb(u[1].scale(b)) for a, b in m)
            elif ch.deg % n == 0 and ch.ker is not None and ch.deg == n:
                r = s.gen2(E, n, 'W%d.' % len(s.bases), 'w%d' % len(s.bases), 1)
                for i, x in enumerate(r): s.dual[ch.name, next(iter(x.f))] = ch.ker.scale(s.unit(n) if i != s.sc.get('y0') else size(fac) // fac[0][0] ** fac[0][1])
            else: r = s.gen2(E, n, 'T%d.' % len(s.bases), 'z%d' % len(s.bases), 1)
        s.bases[key] = r; return r
    # ---- pairing
    def pair(s, x, y, n):
        fams = {}
        for j, t in enumerate((x, y)):
            for g, k in t.f.items():
                N = s.o[g]
                if k.scale(n).red(N) != (0, {}): s.bad('pairing of order %s of %r' % (sh(n), t))
                fam, i, mult, pr = s.fam[g]
                fams.setdefault(fam, {}).setdefault((j, i), []).append((k, N, mult, pr))
        e = {}
        for fam, d in fams.items():
            z = {k: v for k, v in d.items()}
            if any(len(v) != 1 for v in z.values()) or len({(v[0][1], v[0][2], v[0][3]) for v in z.values()}) != 1: raise Unsupported('pairing of generators with several origins')
            _, N, mult, _ = next(iter(z.values()))[0]
            q = gcd(n, N); w = N // q
            def co(j, i):
                if (j, i) not in z: return lin(0)
                c, f = z[j, i][0][0].red(N)
                if c % w or any(v % w for v in f.values()): raise Unsupported('torsion')
                return Lin(c // w, {m: v // w for m, v in f.items()})
            det = co(0, 0).mulv(co(1, 1)) - co(0, 1).mulv(co(1, 0))
            e[fam] = (det.scale(n // q * w * mult), N)
        return PV(e)
    def log(s, v, base, n):
        """log of v to the given base of order n"""
        if not base.e or len(base.e) != 1: s.bad('the base of the logarithm is %r' % base)
        (fam, (k, N)), = base.e.items()
        if any(l != fam for l in v.e): s.bad('the pairing value is not a power of the base')
        w = N // n if N % n == 0 else 0
        if not w: s.bad('the base of the logarithm has not the order %s' % sh(n))
        c, f = k.red(N)
        if c % w or any(x % w for x in f.values()): s.bad('the base of the logarithm has not the order %s' % sh(n))
        iv = Lin(c // w, {m: x // w for m, x in f.items()}).inverse(n)
        if iv is None: s.bad('the base of the logarithm has not the order %s' % sh(n))
        if fam not in v.e: return 0
        c, f = v.e[fam][0].red(N)
        if c % w or any(x % w for x in f.values()): s.bad('the pairing value is not in the subgroup of order %s' % sh(n))
        r = Lin(c // w, {m: x // w for m, x in f.items()}).mulv(iv)
        c, f = (r.c % n, {m: x % n for m, x in r.f.items()})
        return norm(Lin(c, f, n, n)) if any(f.values()) else c
    # ---- contracts
    def models(s):
        I = s.I; M = I.models; P = s.P
        def num(v):
            v = s.val(v)
            if type(v) is int: return v
            raise Unsupported('integer %r' % (v,))
        def cnew(I_, fn, a, info):
            v = s.D.leaf(s.val(a[0]))
            if isinstance(v, Tok) and v.k == 'A': return v.n
            if isinstance(v, R) and v == s.c(6): return 'E0'
            raise Unsupported('curve with coefficient %r' % (v,))
        M[EC + 'Curve::new'] = cnew
        M[EC + 'Curve::get_constant'] = lambda I_, fn, a, info: Tok('A', s.cv(a[0]))
        M[EC + 'Curve::j_invariant'] = lambda I_, fn, a, info: Tok('j', s.cv(a[0]).rstrip("~"))
        def ent(I_, fn, a, info):
            E, k = s.cv(a[0]), num(a[1])
            if k == 0 or s.B % k: s.bad('the entangled basis is cleared by %s' % sh(k))
            n = s.B // k
            if n & (n - 1): s.bad('the points of the entangled basis have order %s' % sh(n))
            key = (E, 'ent', n)
            if key not in s.bases: s.bases[key] = s.gen2(E, n, 'B.', 'zB', 1)
            return tup(*s.bases[key])
        M[SS + 'entangled_torsion_basis'] = ent
        def tb(I_, fn, a, info):
            E, fs, ev = s.cv(a[0]), facval(s, a[1]), num(a[2]); n = size(fs)
            if s.B % n or ev > val2(s.B // n): s.bad('the cofactor of %s cannot be cleared with %d doublings' % (sh(n), ev))
            return tup(*s.basis(E, fs))
        M[SS + 'torsion_basis'] = tb
        def ri(I_, fn, a, info):
            E, fs, k = s.cv(a[0]), facval(s, a[1]), num(a[2])
            ch = Ch('phi%d' % (len(s.chains) + 1), E, 'E%d' % (len(s.chains) + 1), size(fs) ** k, None); s.chains.append(ch)
            return tup(vec([ch]), ch.dst)
        M[SS + 'random_isogeny_x_only'] = ri
        def fs_(I_, fn, a, info):
            E, fs, m = s.cv(a[0]), facval(s, a[1]), s.val(a[2])
            o = s.A.top(a[3])
            b = s.basis(E, fs) if o.var == 0 else tuple(s.tok(x) for x in s.agg(o.f[0]).f)
            if o.var != 0 and b != s.basis(E, fs): raise Unsupported('another basis')
            n = size(fs)
            ch = Ch('psi%d' % (len(s.chains) + 1), E, 'E%d' % (len(s.chains) + 1), n, b[0].comb(b[1].scale(m))); s.chains.append(ch)
            s.scal.append((E, m)); return tup(vec([ch]), ch.dst)
        M[SS + 'isogeny_from_scalar_x_only'] = fs_
        def ev(I_, fn, a, info):
            E = s.cv(a[0]); b = I.load(a[1]); p, q = [s.tok(x) for x in b.f]; ch = s.val(a[2])[0]; n, d = num(a[3]), num(a[4])
            for x in (p, q):
                if x.E != E: s.bad('%r is pushed through the %r' % (x, ch))
                if x.scale(n).f: s.bad('the images of a basis are oriented with a pairing of order %s, the points are %r' % (sh(n), x))
            w = s.pair(p, q, n)
            if w == PV({}): s.bad('the orientation of the images uses a trivial pairing')
            if not isinstance(ch, Ch) or ch.src != E: s.bad('isogeny %r applied on %s' % (ch, E))
            if w.pow(d) != w.pow(ch.deg): s.bad('the degree given for the %r is not that of the chain' % ch)
            # on every component of the order the sign must be visible
            k = s.sign()
            if w.pow(2 * d) == PV({}): s.bad('the orientation of the images uses a pairing of order two')
            return tup(ch.dst, tup(s.image(ch, p).scale(k), s.image(ch, q).scale(k)))
        M[EC + 'evaluate_isogeny_chain_for_basis'] = ev
        def we(I_, fn, a, info):
            E, x, y, n = s.cv(a[0]), s.tok(a[1]), s.tok(a[2]), num(a[3])
            for t in (x, y):
                if t.E is not None and t.E != E: s.bad('pairing on %s of %r' % (E, t))
            return s.pair(x, y, n)
        M['festa_rs::pairing::weil_pairing'] = we
        def bd(I_, fn, a, info):
            E, x, p, q = s.cv(a[0]), s.tok(a[1]), s.tok(a[2]), s.tok(a[3]); n = size(facval(s, a[4])); o = s.A.top(a[5])
            for t in (x, p, q):
                if t.E is not None and t.E != E: s.bad('logarithm on %s of %r' % (E, t))
            w = s.D.leaf(s.val(o.f[0])) if o.var == 1 else s.pair(p, q, n)
            if not isinstance(w, PV): raise Unsupported('pairing %r' % (w,))
            return tup(s.log(s.pair(x, q, n), w, n), s.log(s.pair(x, p.scale(-1), n), w, n))
        M[DL + 'bidlp'] = bd
        def xg(I_, fn, a, info):
            u, v = s.val(a[0]), s.val(a[1])
            if type(v) is not int: raise Unsupported('modulus %r' % (v,))
            if type(u) is int:
                g = gcd(u, v); return pow(u // g, -1, v // g) if v // g > 1 else 0
            u = lin(u)
            if v % 2 == 0 and all(x % 2 == 0 for x in u.f.values()):
                if u.c % 2: raise Unsupported('inverse of %r' % (u,))
                s.bad('inverse of %r, which is even' % u)
            for m in u.f:
                for nm, e in mono(m):
                    if v % 2 == 0 and not (nm.startswith('odd ') or nm == 'b'): s.bad('inverse of %r, which need not be invertible' % u)
            r = u.inverse(v)
            if r is None: s.bad('inverse of %r, which is not invertible' % u)
            return norm(r)
        M[DL + 'xgcd_big'] = xg
        def ck(I_, fn, a, info):
            E, x, y, fs, o = s.cv(a[0]), s.tok(a[1]), s.tok(a[2]), facval(s, a[3]), s.A.top(a[4]); n = size(fs)
            for t in (x, y):
                if t.E != E: s.bad('canonical kernel on %s of %r' % (E, t))
                if t.scale(n).f: s.bad('canonical kernel of order %s for %r' % (sh(n), t))
            p, q = s.basis(E, fs) if o.var == 0 else tuple(s.tok(z) for z in s.agg(o.f[0]).f)
            w = s.pair(p, q, n)
            A_ = [lin(s.log(s.pair(t, q, n), w, n)) for t in (x, y)]; B_ = [lin(s.log(s.pair(t, p.scale(-1), n), w, n)) for t in (x, y)]
            z = A_[0].mulv(B_[1]) - A_[1].mulv(B_[0])
            if z.red(n) != (0, {}): s.bad('the images given for the canonical kernel are not in one cyclic group')
            for i in (0, 1):
                if not A_[i].isconst() and not A_[i].f: continue
                iv = A_[i].inverse(n) if A_[i].c or A_[i].f else None
                if iv is not None: r = B_[i].mulv(iv); c, f = r.red(n); return norm(Lin(c, f, n, n))
            s.bad('the kernel given has not the form P + [s]Q')
        M[SS + 'compute_canonical_kernel'] = ck
        def ho(I_, fn, a, info):
            x, fs = s.tok(a[1]), facval(s, a[2]); n = size(fs)
            if x.scale(n).f: return 0
            for p, e in fs:
                y = x.scale(n // p)
                if not y.f: return 0
                if all(not k.isconst() and any(not (nm.startswith('odd ') or nm == 'b') for m in k.f for nm, _ in mono(m)) for k in y.f.values()):
                    if p == 2 and any(nm.split(' ')[-1][0] == 'r' for k in y.f.values() for m in k.f for nm, _ in mono(m)): s.bad('the point %r need not have the order %s' % (x, sh(n)))
                    raise Unsupported('order of %r' % x)
            return 1
        M[SS + 'point_has_factored_order'] = ho
        M['rand::thread_rng'] = lambda I_, fn, a, info: 'rng'
        def gb(I_, fn, a, info):
            k = num(a[1]); s.nrand += 1; return Lin(0, {'r%d' % s.nrand: 1}, 0, 1 << k)
        def gbb(I_, fn, a, info):
            k = num(a[1]); s.nrand += 1; return Lin(0, {'r%d' % s.nrand: 1}, 0, k)
        import re
        def rm(fn):
            if re.search(r'num_bigint::RandBigInt>?::gen_biguint$|RandBigInt.*::gen_biguint$', fn.path): return gb
            if re.search(r'RandBigInt.*::gen_biguint_below$', fn.path): return gbb
        I.model_fns.append(rm)
        def iso(I_, fn, a, info):
            x, y = s.cv(a[0]), s.cv(a[1])
            if x.rstrip('~') != y.rstrip('~'): s.bad('isomorphism between %s and %s' % (x, y))
            return tup('iso', x, y)
        M[EC + 'CurveIsomorphism::new'] = iso
        def isoev(I_, fn, a, info):
            i = I.load(a[0]); p = s.tok(a[1]); x, y = i.f[1], i.f[2]
            if p.E != x: s.bad('isomorphism from %s applied to %r' % (x, p))
            return Pt(y, p.f, s.o)
        M[EC + 'CurveIsomorphism::eval'] = isoev
        M['festa_rs::thetaFESTA::product_isogeny'] = s.product
    def product(s, I_, fn, a, info):
        P = s.P; I = s.I
        E1, E2 = [s.cv(x) for x in s.exec(P.one(EC + 'EllipticProduct::curves'), I.load(a[0])).f]
        cp = lambda v: [s.tok(x) for x in s.exec(P.one(EC + 'CouplePoint::points'), v).f]
        K = [cp(I.load(a[1])), cp(I.load(a[2]))]
        v = s.A.top(a[3])
        im = s.items(v); n = s.val(a[4])
        S = s.val(a[5]) if len(a) > 5 else None
        if S is not None and c12.wellformed(n, list(S)): s.bad('the strategy given is not well formed for %d steps' % n)
        M1, M2 = val_of(P, 'M1'), val_of(P, 'M2')
        # the chain E1 <- X -> EA' -> EA -> E2
        c1 = s.into(E1); c2 = s.into(E2)
        if len(c1) != 1 or len(c2) != 1: raise Unsupported('curves of the product')
        c1, c2 = c1[0], c2[0]
        b = s.into(c2.src)
        if not b: s.bad('the two factors are %s and %s' % (E1, E2))
        b = b[0]; c = s.into(b.src)
        if not c or c[0].src != c1.src: s.bad('the two factors are not connected as the construction needs')
        c = c[0]
        N1, N2 = M1 * M1 * c.deg * c1.deg, M2 * M2 * b.deg * c2.deg
        if N1 + N2 != 1 << n: s.bad('a chain of %d steps for degrees that do not add up to that power of two' % n)
        for i, (p, q) in enumerate(K):
            for t, e in ((p, E1), (q, E2)):
                if t.E != e: s.bad('kernel component %r on %s' % (t, e))
            if len(p.f) != 1 or len(q.f) != 1: s.bad('kernel point (%r, %r)' % (p, q))
            (g, u), = p.f.items(); (h, v), = q.f.items()
            if s.o[g] != 4 << n or s.o[h] != 4 << n: s.bad('kernel points of order %s for %d steps' % (sh(s.o[g]), n))
            for k in (u, v):
                for m in k.f:
                    for nm, _ in mono(m):
                        if not (nm.startswith('odd ') or nm == 'b'): s.bad('kernel point %r need not have full order' % (p,))
            w = s.image(c2, s.image(b, s.image(c, s.dualimage(c1, Pt(E1, {g: 1}, s.o)))))   # f(g) up to the factors M1, M2
            if set(w.f) != {h}: s.bad('the second component of the kernel point is not related to the first')
            # (p, q) = (u g, v h), f(g) = M1 M2 w, needed: v h proportional to M1 M2 w / N1 u
            z1 = lin(v).scale(N1); z2 = lin(u).mulv(w.f[h]).scale(M1 * M2)
            ok = [k for k in (1, -1) if (z1 - z2.scale(k)).red(1 << n) == (0, {})]
            if not ok: s.bad('the kernel of the two-dimensional isogeny is not the graph of the isogeny between the factors')
            if i == 0: sg, first = ok, g
            elif not set(ok) & set(sg): s.bad('the two kernel points are graphs with opposite signs')
            elif g == first: s.bad('the kernel points are dependent')
        # images: the component on the middle curve is [M1] c c1^ (A) + [M2] b^ c2^ (B) up to sign
        s1, s2 = s.sign(), s.sign(); mid = b.src + ('~' if s.sc.get('model') else '')
        out = []
        for A_, B_ in im:
            for t, e in ((A_, E1), (B_, E2)):
                if t.E is not None and t.E != e: s.bad('image point component %r on %s' % (t, e))
            x = s.image(c, s.dualimage(c1, A_)).scale(M1 * s1); y = s.dualimage(b, s.dualimage(c2, B_)).scale(M2 * s2)
            r = Pt(mid, x.comb(y).f, s.o); s.o.setdefault('F', 0)
            o = Pt('F', {'F': 1}, s.o)
            pr = (o, r) if s.sc.get('swap') else (r, o)
            out.append(s.exec(P.one(EC + 'CouplePoint::new'), s.ref(pr[0]), s.ref(pr[1])))
        cs = ('F', mid) if s.sc.get('swap') else (mid, 'F')
        return tup(s.exec(P.one(EC + 'EllipticProduct::new'), s.ref(cs[0]), s.ref(cs[1])), vec(out))
    def items(s, v):
        """couple points of a slice"""
        from ..natives import items
        return [[s.tok(x) for x in s.exec(s.P.one(EC + 'CouplePoint::points'), t).f] for t in items(s.I, v)]

def run(R_):
    P = load()
    R_.assume += ['contracts of curve arithmetic, isogenies, bases, pairings, logarithms and two-dimensional chains (C04, C05, C12 to C16, C26)', 'the theory of the construction: the image of a point under the two-dimensional isogeny with the given kernel',
                  'well-formed trapdoor inputs: s1 < d1, s2 < d2, second masking entry inverse of the first, first entry odd and below half of the modulus']
    jobs = []
    wn = lambda n: where([x for x in P.find(CR + n) if x.blocks is not None][0]) if [x for x in P.find(CR + n) if x.blocks is not None] else n
    def stage(sc, seed, what):
        def f():
            s = World(P, sc, seed)
            try: return body(s, what)
            except Unsupported:
                if s.wrong: return s.wrong
                raise
        return f
    def lv(s, v):
        return lin(s.val(v))
    def body(s, what):
        I = s.I; L = s.L; M2L = 1 << L
        cr = s.exec(P.one(CR + 'new')); me = s.ref(cr)
        kp = s.exec(P.one(CR + 'keygen'), me)
        nk = len(s.chains)
        pk, sk = kp.f
        if nk != 2: raise Unsupported('%d secret isogenies' % nk)
        EA, RA, SA = s.exec(P.one(FE + 'PublicKey::extract'), s.ref(pk)).f
        EA = s.cv(EA); RA, SA = s.tok(RA), s.tok(SA)
        fA, fB = s.chains
        if what == 'key':
            if EA != fB.dst: return 'the public curve is %s' % EA
            base = [b for k, b in s.bases.items() if k[1] == 'ent']
            if len(base) != 1: raise Unsupported('two-power bases')
            dA1, dA2 = val_of(P, 'DA1'), val_of(P, 'DA2')
            if (fA.deg, fB.deg) != (dA1, dA2) or fA.src != 'E0' or fB.src != fA.dst: return 'the secret isogenies have the wrong degrees or domains'
            w = [s.image(fB, s.image(fA, x)) for x in base[0]]
            ks = []
            for got, im in ((RA, w[0]), (SA, w[1])):
                if got.E != EA or set(got.f) != set(im.f): return 'the published point is %r' % got
                (g, k), = got.f.items()
                if s.o[g] != M2L: return 'the public basis has order %s' % sh(s.o[g])
                c, f = k.red(M2L)
                if c or len(f) != 1: return 'the published point is %r' % got
                (m, v), = f.items()
                if not isinstance(m, str) or not m.startswith('odd ') or v not in (1, M2L - 1): return 'the published point is %r times the image of the basis' % k
                ks.append((m, v))
            if ks[0][0] == ks[1][0]: return 'both masking entries are the same'
            if ks[0][1] != ks[1][1]: return 'the two published points carry different signs'
            d = s.exec(P.one(FE + 'SecretKey::extract'), s.ref(sk)).f
            dg = [lv(s, x) for x in d[3].f]
            for (m, v), x in zip(ks, dg):
                if x.f != {m: 1} or x.c: return 'the secret key stores %r, the public key was masked with %s' % (x, m)
            if s.cv(d[0]) != fA.dst: return 'the secret key stores the curve %s' % d[0]
            return s.panics()
        b = Lin(0, {'b': 1}, 0, M2L // 2); bi = lin(b.inverse(M2L)); d1, d2 = val_of(P, 'D1'), val_of(P, 'D2')
        s1, s2 = sym('s1', d1), sym('s2', d2)
        ti = s.exec(P.one(FE + 'TrapdoorInput::new'), s.ref(s1), s.ref(s2), s.ref(tup(b, bi)))
        to = s.exec(P.one(CR + 'trapdoor_eval'), me, s.ref(pk), s.ref(ti))
        if what == 'eval':
            e = [s.val(x) for x in s.exec(P.one(FE + 'TrapdoorOutput::extract'), s.ref(to)).f]
            cs = s.chains[nk:]
            if len(cs) != 2: raise Unsupported('%d isogenies in the evaluation' % len(cs))
            c1 = [c for c in cs if c.src == 'E0']; c2 = [c for c in cs if c.src == EA]
            if len(c1) != 1 or len(c2) != 1: return 'the isogenies of the evaluation start at %s' % ', '.join(c.src for c in cs)
            c1, c2 = c1[0], c2[0]
            if (c1.deg, c2.deg) != (d1, d2): return 'the isogenies of the evaluation have the wrong degrees'
            if dict(s.scal) != {'E0': s1, EA: s2}: return 'the kernels are built from %s' % s.scal
            if (e[0], e[3]) != (c1.dst, c2.dst): return 'the output curves are %s and %s' % (e[0], e[3])
            base = [v for k, v in s.bases.items() if k[1] == 'ent'][0]
            for nm, got, im, k in (('R1', e[1], s.image(c1, base[0]), b), ('S1', e[2], s.image(c1, base[1]), bi), ('R2', e[4], s.image(c2, RA), b), ('S2', e[5], s.image(c2, SA), bi)):
                w = im.scale(k)
                if got != w and got != w.scale(-1): return '%s is %r instead of +-%r' % (nm, got, w)
                sg = 1 if got == w else -1
                if nm[0] == 'R': keep = sg
                elif sg != keep: return 'the two points on one curve carry different signs'
            return s.panics()
        r = s.exec(P.one(CR + 'trapdoor_inverse'), me, s.ref(to), s.ref(sk))
        x, y, dg = s.exec(P.one(FE + 'TrapdoorInput::extract'), s.ref(r)).f
        x, y = lv(s, x), lv(s, y); u, v = [lv(s, t) for t in dg.f]
        for nm, got, want, m in (('s1', x, s1, d1), ('s2', y, s2, d2), ('the first masking entry', u, b, M2L), ('the second masking entry', v, bi, M2L)):
            if got.cong % m: return '%s is recovered only modulo %s' % (nm, sh(gcd(got.cong, m)))
            if got.red(m) != want.red(m): return '%s is recovered as %r' % (nm, got)
            if got.isconst(): continue
            if got.top is None: raise Unsupported('range of %r' % got)
            if got.top > m + 1: return '%s is not reduced: %r below %s' % (nm, got, sh(got.top))
        if s.D.arbitrary: raise Unsupported('a comparison of unknown outcome')
        return s.panics()
    combos = list(itertools.product((1, -1), repeat=6))
    rnd = random.Random(3)
    def sc(signs, **k): return dict(signs=list(signs), **k)
    for i, sg in enumerate(((1, 1, 1, 1, 1, 1), (-1, 1, 1, 1, 1, 1), (1, -1, 1, 1, 1, 1), (-1, -1, 1, 1, 1, 1))):
        jobs.append(('key generation/signs %d' % i, stage(sc(sg), i, 'key'), wn('keygen')))
    for i in range(4): jobs.append(('evaluation/signs %d' % i, stage(sc((1, -1, (-1) ** i, (-1) ** (i // 2), 1, 1)), i, 'eval'), wn('trapdoor_eval')))
    k = 0
    todo = [(sg, sw, mo) for sg in combos for sw in (0, 1) for mo in (0, 1)]
    if R_.tier == 'quick': rnd.shuffle(todo); todo = todo[:48]
    for sg, sw, mo in todo:
        jobs.append(('round trip/signs %s, %s, %s' % (''.join('+' if x > 0 else '-' for x in sg), 'middle curve second' if sw else 'middle curve first', 'isomorphic model' if mo else 'same model'),
                     stage(sc(sg, swap=sw, model=mo, y0=(None, 0, 1)[k % 3]), k, 'inverse'), wn('trapdoor_inverse'))); k += 1
    R_.parallel(jobs)
    R_.floor('obligations', len(jobs), 50)
    R_.extra['level'] = 'proof'
