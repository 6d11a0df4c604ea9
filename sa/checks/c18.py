"""C18: secret keys and trapdoor outputs survive serialisation; malformed encodings are refused in every profile."""
from ..prog import load, MissingAnchor
from ..harness import *
from ..curve import EC
from ..report import where
from .c17 import FE
FQ = 'festa_rs::fields::FpFESTAExt::Fp2'
RULE = ('Byte k of the encoding of component X is the token (X, k). The encoders are interpreted with indeterminate coordinates and masking entries of every byte length; the decoders are interpreted on the resulting bytes and must rebuild '
        'every component; on inputs of any other length, or with one non-canonical field element, no path may reach the return. Decoders are analysed in the debug and in the release configuration.')

class Bt:
    """byte k of the encoding of v; v = None: a byte of a non-canonical field element"""
    __slots__ = ('v', 'k')
    def __init__(s, v, k): s.v = v; s.k = k
    def __eq__(s, o): return isinstance(o, Bt) and s.k == o.k and (s.v is o.v or s.v == o.v)
    def __hash__(s): return hash(s.k)
    def __repr__(s): return 'byte %d of %r' % (s.k, s.v)
class Big:
    """a non-negative integer of n significant bytes"""
    __slots__ = ('name', 'n')
    def __init__(s, name, n): s.name = name; s.n = n
    def __repr__(s): return '%s (%d bytes)' % (s.name, s.n)

class EncDom(RingDom):
    def big_to_bytes(s, v):
        if isinstance(v, Big): return vec([Bt(v, k) for k in range(v.n)])
        raise Unsupported('bytes of %r' % (v,))
    def big_from_bytes(s, v):
        from ..natives import items
        xs = [s.A.top(x) for x in items(s.I_, v)]
        while xs and xs[-1] == 0: xs.pop()
        if not xs: return 0
        if all(isinstance(x, Bt) and isinstance(x.v, Big) and x.v is xs[0].v and x.k == i for i, x in enumerate(xs)) and len(xs) == xs[0].v.n: return xs[0].v
        return Mixed(tuple(xs))
    def big_bits(s, v):
        raise Unsupported('size of %r' % (v,))
class Mixed:
    """an integer read from bytes that belong to several components"""
    __slots__ = ('xs',)
    def __init__(s, xs): s.xs = xs
    def __repr__(s): return 'an integer of %s' % ', '.join(map(repr, s.xs[:3]))

class EncS(Sess):
    def __init__(s, P):
        Sess.__init__(s, P, 'fp2', EncDom(P, 'fp2')); s.D.I_ = s.I; s.n = 0; s.coef(s.sym('A')); s.coef(s.sym('B'))
        enc = P.one(FQ + '::encode'); s.EL = length(P)
        M = s.I.models
        def encode(I, fn, a, info):
            v = s.A.top(a[0])
            while isinstance(v, Ref): v = s.A.top(I.load(v))
            if not isinstance(v, R): raise Unsupported('encoding of %r' % (v,))
            return arr([Bt(v, k) for k in range(s.EL)])
        M[FQ + '::encode'] = encode
        def decode(I, fn, a, info):
            from ..natives import items
            xs = [s.A.top(x) for x in items(I, a[0])]
            no = tup(s.c(0), 0)
            if len(xs) != s.EL: return no
            if all(x == 0 for x in xs): return tup(s.c(0), MASK1)
            if not all(isinstance(x, Bt) for x in xs) or not all(x.k == i and x.v is xs[0].v for i, x in enumerate(xs)) or isinstance(xs[0].v, Big):
                s.n += 1; v = s.sym('mixed%d' % s.n); s.coef(v); return tup(v, MASK1)
            if xs[0].v is None: return no
            return tup(xs[0].v, MASK1)
        M[FQ + '::decode'] = decode
    def coef(s, v):
        for k in (2, -2): s.D.nonzero.append((v - s.c(k)).n.monic())
    def big(s, v):
        v = s.A.top(v)
        while isinstance(v, Ref): v = s.A.top(s.I.load(v))
        return v
    def pair(s, p):
        """affine coordinates of a point"""
        return [s.A.top(x) for x in s.exec(s.P.one(EC + 'Point::to_xy'), p).f]
    def point(s, n, proj):
        x, y = s.sym('x' + n), s.sym('y' + n)
        if not proj: return s.exec(s.P.one(EC + 'Point::new_xy'), s.ref(x), s.ref(y)), (x, y)
        z = s.sym('z' + n); s.D.nonzero.append(z.n)
        t = s.P.adt('ecFESTA::Point')
        p = s.exec(s.P.one(EC + 'Point::new_xy'), s.ref(x * z), s.ref(y * z))
        f = list(p.f); f[s.P.fieldidx(t, 'Z')] = z
        return Agg(p.k, p.ty, p.var, tuple(f)) if hasattr(p, 'ty') else p.__class__(*[getattr(p, a) if a != 'f' else tuple(f) for a in p.__slots__]), (x, y)
    def panics(s):
        ev = [e for e in s.I.events if e.kind == 'panic']
        return 'can panic: %r' % ev[0] if ev else None

def length(P):
    f = P.one(FQ + '::encode'); t = P.ty[f.locals[0]]
    if t['t'] != 'array': raise Unsupported('return type of the field encoding')
    return t.get('n') or t.get('len')

def run(R_):
    PD, PR = load(), load('release')
    R_.assume += ['field elements encode canonically and decode strictly (C09)', 'points are not the point at infinity', 'masking entries have at most 80 bytes (below 2^634)']
    th = R_.tier == 'thorough'
    jobs = []
    def wh(P, n):
        r = [x for x in P.find(n) if x.blocks is not None]
        return where(r[0]) if r else n
    def secret(S, la, lb, proj):
        P = S.P
        A = S.sym('A'); E = S.exec(P.one(EC + 'Curve::new'), S.ref(A))
        ps = [S.point(str(i), proj) for i in range(4)]
        a, b = Big('a11', la), Big('a22', lb)
        sk = S.exec(P.one(FE + 'SecretKey::new'), S.ref(E), S.ref(tup(ps[0][0], ps[1][0])), S.ref(tup(ps[2][0], ps[3][0])), S.ref(tup(a, b)))
        return sk, A, [p[1] for p in ps], (a, b)
    def output(S, proj):
        P = S.P; A = [S.sym('A'), S.sym('B')]
        E = [S.exec(P.one(EC + 'Curve::new'), S.ref(x)) for x in A]
        ps = [S.point(str(i), proj) for i in range(4)]
        r = [S.ref(x) for x in (E[0], ps[0][0], ps[1][0], E[1], ps[2][0], ps[3][0])]
        return S.exec(P.one(FE + 'TrapdoorOutput::new'), *r), A, [p[1] for p in ps]
    def same_points(S, got, want, names):
        for g, w, n in zip(got, want, names):
            for x, y, c in zip(S.pair(g), w, 'xy'):
                e = S.equal(x, y, what='%s of %s' % (c, n))
                if e: return e
    def chk_sk(S, sk, A, ps, ab):
        P = S.P; f = S.exec(P.one(FE + 'SecretKey::extract'), S.ref(sk)).f
        e = S.equal(S.exec(P.one(EC + 'Curve::get_constant'), curve_arg(S, f[0])), A, what='coefficient of the curve')
        if e: return e
        pts = list(f[1].f) + list(f[2].f)
        e = same_points(S, pts, ps, ['the first image on the d1 side', 'the second image on the d1 side', 'the first image on the d2 side', 'the second image on the d2 side'])
        if e: return e
        for x, w in zip(f[3].f, ab):
            x = S.big(x)
            if x is not w: return '%r comes back as %r' % (w, x)
    def curve_arg(S, E):
        f = S.P.one(EC + 'Curve::get_constant')
        return S.ref(E) if S.P.ty[f.locals[1]]['t'] == 'ref' else E
    def chk_out(S, o, A, ps):
        P = S.P; f = S.exec(P.one(FE + 'TrapdoorOutput::extract'), S.ref(o)).f
        for x, w, n in ((f[0], A[0], 'first'), (f[3], A[1], 'second')):
            e = S.equal(S.exec(P.one(EC + 'Curve::get_constant'), curve_arg(S, x)), w, what='coefficient of the %s curve' % n)
            if e: return e
        return same_points(S, [f[1], f[2], f[4], f[5]], ps, ['R1', 'S1', 'R2', 'S2'])
    def enc(S, T, v):
        from ..natives import items
        r = S.exec(S.P.one(FE + T + '::encode'), S.ref(v))
        return items(S.I, r)
    def dec(S, T, bs):
        f = S.P.one(FE + T + '::decode')
        return S.exec(f, S.ref(vec(bs)))
    lens = [(1, 1), (80, 80), (1, 80), (80, 1), (79, 80), (40, 3)] + ([(a, b) for a in range(1, 81) for b in (1, 17, 64, 79, 80)] if th else [(a, 80) for a in range(2, 80, 7)] + [(80, b) for b in range(2, 80, 7)])
    for prof, P in (('debug', PD), ('release', PR)):
        sizes = {}
        for la, lb in lens:
            for proj in (0, 1):
                if proj and (la, lb) != (80, 80): continue
                def f(P=P, la=la, lb=lb, proj=proj):
                    S = EncS(P); sk, A, ps, ab = secret(S, la, lb, proj)
                    bs = enc(S, 'SecretKey', sk)
                    S2 = EncS(P); ref = len(enc(S2, 'SecretKey', secret(S2, 80, 80, 0)[0]))
                    if len(bs) != ref: return 'the encoding has %d bytes for masking entries of %d and %d bytes, and %d bytes otherwise' % (len(bs), la, lb, ref)
                    return chk_sk(S, dec(S, 'SecretKey', bs), A, ps, ab) or S.panics()
                jobs.append(('%s/secret key/round trip/%d, %d%s' % (prof, la, lb, '/projective' if proj else ''), f, wh(P, FE + 'SecretKey::encode')))
        for proj in (0, 1):
            def f(P=P, proj=proj):
                S = EncS(P); o, A, ps = output(S, proj)
                return chk_out(S, dec(S, 'TrapdoorOutput', enc(S, 'TrapdoorOutput', o)), A, ps) or S.panics()
            jobs.append(('%s/output/round trip%s' % (prof, '/projective' if proj else ''), f, wh(P, FE + 'TrapdoorOutput::encode')))
        for T in ('SecretKey', 'TrapdoorOutput'):
            def full(P, T):
                S = EncS(P)
                return S, enc(S, T, secret(S, 80, 80, 0)[0] if T == 'SecretKey' else output(S, 0)[0])
            def refused(S, T, bs, what):
                try: r = dec(S, T, bs)
                except Diverge: return None
                r = S.A.top(r)
                return '%s is accepted' % what
            try: S0, b0 = full(P, T); N = len(b0); EL = S0.EL
            except (Unsupported, MissingAnchor): N, EL = 10 * 330, 330
            k = {0, 1, 2, N - 1, N - 2, N + 1, N + 2, 2 * N} | {N - 82, N - 164, N + 82, N + 164, N - 328} | {i * EL for i in range(0, 16)} | {i * EL + 1 for i in range(0, 13)} | {N - EL, N + EL}
            if th: k |= set(range(0, N + 400))
            for n in sorted(x for x in k if x >= 0 and x != N):
                def f(P=P, T=T, n=n):
                    S, bs = full(P, T)
                    if n == len(bs): return None
                    bs = bs[:n] if n < len(bs) else bs + [0] * (n - len(bs))
                    return refused(S, T, bs, 'an encoding of %d bytes instead of %d' % (n, N))
                jobs.append(('%s/%s/length %d' % (prof, T, n), f, wh(P, FE + T + '::decode')))
            for i in range(9 if T == 'SecretKey' else 10):
                def f(P=P, T=T, i=i):
                    S, bs = full(P, T)
                    at = [j for j, b in enumerate(bs) if isinstance(b, Bt) and b.k == 0 and isinstance(b.v, R)]
                    if i >= len(at): return None
                    bs = bs[:at[i]] + [Bt(None, k) for k in range(S.EL)] + bs[at[i] + S.EL:]
                    return refused(S, T, bs, 'an encoding whose field element number %d is not canonical' % i)
                jobs.append(('%s/%s/element %d' % (prof, T, i), f, wh(P, FE + T + '::decode')))
    R_.parallel(jobs)
    R_.floor('obligations', len(jobs), 150)
    R_.extra['level'] = 'proof'
