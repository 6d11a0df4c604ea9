"""C05: scalar multiplication."""
from ..prog import load
from ..curve import *
from ..report import where
from ..loops import headers
from .c04 import Tok, group_models, tok_session
RULE = ('The ladder of the scalar multiplication is analysed as an inductive invariant: at each visit of its loop head the two coordinate pairs must be the x-coordinates '
        'of kP and (k+1)P for the bits consumed so far (checked as rational-function identities, then replaced by fresh indeterminates), the bits being indeterminates '
        'of the scalar; the recovery of y and the exceptional cases are checked for every class of P (infinity, order 2, 3, 4, generic) and of kP (infinity, -P, -2P, P, order two, generic).  '
        'The small-integer, big-integer and byte-string entry points are checked in the group domain.')

class BitsV:
    """a machine word given by its bits (0/1 or decision diagrams)"""
    __slots__ = ('b',)
    def __init__(s, b): s.b = tuple(b)
    def __eq__(s, o): return isinstance(o, BitsV) and s.b == o.b
    def __hash__(s): return hash(s.b)
    def __repr__(s): return 'bits%r' % (s.b,)

def bits_ops(D):
    def fin(b):
        b = list(b)
        if all(type(x) is int for x in b): return sum(x << i for i, x in enumerate(b))
        if all(type(x) is int and x == 0 for x in b[1:]): return b[0]
        return BitsV(b)
    def lift(v, n):
        if isinstance(v, BitsV): return list(v.b) + [0] * (n - len(v.b))
        if type(v) is int: return [(v >> i) & 1 for i in range(n)]
        raise Unsupported('bits of %r' % (v,))
    def binop(op, a, b, bits, signed):
        if op == 'Shr' and type(b) is int: return fin((lift(a, bits) + [0] * bits)[b:b + bits])
        if op == 'Shl' and type(b) is int: return fin(([0] * b + lift(a, bits))[:bits])
        if op in ('BitAnd', 'BitOr', 'BitXor') and not signed:
            x, y = lift(a, bits), lift(b, bits)
            f = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q}[op]
            return fin([D.A.app2(f, p, q) for p, q in zip(x, y)])
        if op in ('Eq', 'Ne') :
            x, y = lift(a, bits), lift(b, bits); r = 1
            for p, q in zip(x, y): r = D.A.ite(D.A.app2(lambda u, v: int(u == v), p, q), r, 0)
            return r if op == 'Eq' else D.A.app1(lambda z: 1 - z, r)
        raise Unsupported('%s on bits' % op)
    D.binop = binop
    D.cast = lambda x, ob, osg, bits, sg: fin(lift(x, max(ob, bits))[:bits])
    D.unop = lambda op, x, bits, sg: fin([D.A.app1(lambda z: 1 - z, q) for q in lift(x, bits)]) if op == 'Not' else D.no_unop(op, x)

class NoMatch(Exception): pass
class Probe(Exception): pass

def rcells(s):
    """cells holding field values: {(cell, path): value}"""
    out = {}
    def walk(c, path, v):
        if isinstance(v, R): out[(c, path)] = v
        elif isinstance(v, Ite):
            x = v
            while isinstance(x, Ite): x = x.t
            if isinstance(x, R): out[(c, path)] = v
        elif isinstance(v, Agg):
            for i, y in enumerate(v.f): walk(c, path + (i,), y)
    for c, v in s.I.mem.items(): walk(c, (), v)
    return out

class Ladder:
    """one analysis of the multiplication with the loop invariant"""
    def __init__(z, P, mkP, L, bits, spec, want=None, mid=None, table=False):
        z.P = P; z.s, z.p = mkP(); z.L = L; z.spec = spec; z.want = want
        s = z.s; z.D = s.D; z.A = s.A; bits_ops(s.D)
        z.bv = [b if b is not None else s.A.var(('bit', i)) for i, b in enumerate(bits)]
        nby = max(1, (L + 7) // 8)
        full = z.bv + [1] * (8 * nby - L)          # bits beyond the length must be ignored
        def byte(k):
            b = full[8*k:8*k+8]
            return sum(x << i for i, x in enumerate(b)) if all(type(x) is int for x in b) else BitsV(b)
        buf = s.ref(arr([byte(k) for k in range(nby)])); z.buf = Ref(buf.cell, (), (0, nby))
        z.j = 0; z.hdr = None; z.n = 0; z.order = None; z.pool = {}
        z.k = 0; z.sym = None; z.final = None; z.pts = None; z.mid = mid; z.table = table; z.probe = False; z.idx = None
        if z.L and z.bv[z.L - 1] != 1:
            # a zero leading bit leaves the initial state as it is: locate the state with a leading one
            q = Ladder(P, mkP, L, [None] * (L - 1) + [1], spec, table=table); q.probe = True
            try: q.go()
            except Probe as e: z.idx = e.args[0]
    def fresh(z, nm):
        z.n += 1; return z.s.sym('%s_%d' % (nm, z.n))
    def hook(z, I, fn, fr, bb):
        if not fn.local or bb not in headers(fn): return None
        key = (fn.id, bb)
        cur = rcells(z.s)
        if z.hdr is None:
            z.hdr = key; z.frame = fr; z.first = list(cur); z.snap = cur; z.entered = False; return None
        if key != z.hdr or z.frame is not fr: return None
        ch = [c for c, v in cur.items() if c in z.first and not eqv(z.snap[c], v)]
        if z.idx is not None: ch = [z.first[i] for i in z.idx]
        if not ch:
            z.snap = cur; return None
        z.j += 1
        if z.j > z.L: raise Unsupported('more loop iterations than bits')
        z.step(cur, ch, z.bv[z.L - z.j])
        z.snap = rcells(z.s)
        return None
    def step(z, cur, live, b):
        cases = [((), b)] if type(b) is int else [(((b.a, 1),), 1), (((b.a, 0),), 0)]
        if z.order is None:
            if len(live) != 4:
                raise Unsupported('ladder state has %d coordinates' % len(live))
            import itertools
            orders = list(itertools.permutations(live))
        else:
            o = z.order; orders = [o, (o[2], o[3], o[0], o[1])]
        got = {}
        for cube, bit in cases:
            lo, hi = z.targets(bit)
            for o in orders:
                if z.isx(cube, cur[o[0]], cur[o[1]], lo) and z.isx(cube, cur[o[2]], cur[o[3]], hi):
                    got[bit] = o; break
            else: raise NoMatch('after %d of %d bits the two coordinate pairs are not x(kP) and x((k+1)P)' % (z.j, z.L))
        if z.order is None: z.order = next(iter(got.values()))
        if z.probe: raise Probe([z.first.index(c) for c in z.order])
        vals = z.canon(b)
        upd = {}
        for bit, o in got.items():
            for c, v in zip(o, vals): upd.setdefault(c, {})[bit] = v
        for c, d in upd.items():
            v = d[b] if type(b) is int else z.A.ite(b, d[1], d[0])
            z.s.I.mem[c[0]] = z.s.I._set(z.s.I.mem[c[0]], c[1], v)
    def under(z, cube, v):
        d = dict(cube); v = z.A.top(v)
        while isinstance(v, Ite) and v.a in d: v = v.t if d[v.a] else v.e
        return v
    def isx(z, cube, U, V, x):
        U, V = z.under(cube, U), z.under(cube, V); D = z.D
        if isinstance(U, Ite) or isinstance(V, Ite): return False
        if x is INF: return D.zero_cond(V) == 1 and D.zero_cond(U) == 0
        if D.zero_cond(V) != 0: return False
        return D.zero_cond(U - V * x) == 1
    def xk(z, k):
        q = z.spec(k)
        return None if q is None else INF if q == INF else q[0]
    def targets(z, bit):
        s = z.s
        if z.pts:
            q, r = z.pts; x = lambda p: p if p == INF else p[0]
            ad = lambda a, b: INF if a != INF and b != INF and (a[0] - b[0]).iszero() and (a[1] + b[1]).iszero() else s.add(a, b)
            return (x(ad(q, q)), x(ad(q, r))) if bit == 0 else (x(ad(q, r)), x(ad(r, r)))
        if z.sym is None:
            k2 = 2 * z.k + bit
            a, b = z.xk(k2), z.xk(k2 + 1)
            if a is not None and b is not None: return a, b
            u, v = z.xk(z.k), z.xk(z.k + 1)
        else: u, v = z.sym
        dbl = lambda x: (x*x - s.c(1)) * (x*x - s.c(1)) * ((x * (x*x + s.Av*x + s.c(1))) * 4).inv()
        w = (u*v - s.c(1)) * (u*v - s.c(1)) * ((u - v) * (u - v) * z.p[0]).inv()
        return (dbl(u), w) if bit == 0 else (w, dbl(v))
    def canon(z, b):
        s = z.s
        # the pairs of the iteration before last are dead (only the four live cells carry over), so their names are used again
        def again(n):
            q = z.pool.get((n, z.j & 1))
            if q is None: q = z.pool[n, z.j & 1] = z.fresh(n)
            return q
        k0, k1 = again('s0'), again('s1')
        if ('nz', z.j & 1) not in z.pool: z.pool['nz', z.j & 1] = 1; s.nz(k0, k1)
        def co(x, k): return (k, s.c(0)) if x is INF else (R(x.n) * k, R(x.d) * k)
        last = z.j == z.L
        if z.sym is None and type(b) is int and not (last and z.want):
            z.k = 2 * z.k + b
            lo, hi = z.spec(z.k), z.spec(z.k + 1)
            if z.k and not last and not z.table: lo = None
            if lo is not None and hi is not None:
                if last: z.final = lo
                return co(z.xk(z.k), k0) + co(z.xk(z.k + 1), k1)
        if last:
            q = z.want(s, z.p) if z.want else s.generic('q')
            if not z.want: s.nz(q[0] - z.p[0])
            r = s.add(q, z.p); z.final = q
            if not z.want:
                # the generic class excludes kP = -2P, which is a class of its own
                m = s.D.strip(s.D.normal((r[0] - z.p[0]).n))
                if not m.isconst(): s.D.nonzero.append(m.monic())
            return co(q if q == INF else q[0], k0) + co(r if r == INF else r[0], k1)
        z.pts = None
        if z.mid and z.sym is None:
            q = z.mid(s, z.p); r = s.add(q, z.p); z.pts = (q, r); z.sym = ()
            return co(q if q == INF else q[0], k0) + co(r if r == INF else r[0], k1)
        u, v = again('u'), again('v'); z.sym = (u, v); o = s.c(1)
        if ('nu', z.j & 1) in z.pool: return (u*k0, k0, v*k1, k1)
        z.pool['nu', z.j & 1] = 1
        s.nz(u, v, u - v, u*v - o, u*u + s.Av*u + o, v*v + s.Av*v + o)
        return (u*k0, k0, v*k1, k1)
    def go(z):
        s = z.s; P = z.P
        s.nz(s.sym('s1')); pt = s.pt(z.p, 's1')
        s.I.loop_hook = z.hook
        out = s.ref(s.pt((s.sym('o1'), s.sym('o2'), s.sym('o3'))))
        s.I.exec_fn(P.one(EC + 'Curve::mul_into'), [s.E, out, s.ref(pt), z.buf, z.L])
        if z.j != z.L: raise Unsupported('loop head seen %d times for %d bits' % (z.j, z.L))
        return s.is_point(s.load(out), z.final, what='product') or s.panics()

def ladder(*a, **k): return Ladder(*a, **k).go()

def mult_generic(s, p):
    def f(k):
        if k == 0: return INF
        if k == 1: return p
        if k == 2: return s.add(p, p)
        return None
    return f

def run(R_):
    P = load()
    R_.assume += ['extension-field contracts (C02)', 'group-law contracts of the point operations (C04) for the small and big integer entry points']
    fn = P.one(EC + 'Curve::mul_into')
    full = R_.tier == 'thorough'
    n = 0
    def attempt(key, f):
        def g():
            try: return f()
            except NoMatch as e: return str(e)
        R_.attempt(key, g, where(fn))
    holder = {}
    def mkgen():
        s = CurveS(P); a = s.generic('1'); s.nz_y(a)
        # 2P != infinity, P not of order 3 (P+P = -P)
        x = a[0]; s.nz(x*x*x*x*3 + s.Av*x*x*x*4 + x*x*6 - s.c(1))
        holder['s'] = s; holder['p'] = a
        return s, a
    spec = lambda k: mult_generic(holder['s'], holder['p'])(k)
    lens = list(range(1, 42)) + [63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 632, 633, 634, 635, 1023, 1024, 1025, 1292, 1293] + (list(range(42, 200)) + [2048, 2049, 4099] if full else [])
    for L in lens:
        for top in ('1', '0', '01'):
            if len(top) > L or L > 66 and top == '0': continue
            bits = [None] * L
            for i, c in enumerate(top): bits[L - 1 - i] = int(c)
            # make the prefix explicit up to the first one bit
            if top == '0': bits = [0] * L; bits[0] = 1 if L > 1 else 0
            attempt('ladder/generic P, %d bits, prefix %s' % (L, top if top != '0' else 'all zero but the last'), lambda: ladder(P, mkgen, L, bits, spec)); n += 1
    # exceptional final states, generic P
    def w_inf(s, p): return INF
    def w_neg(s, p): return s.neg(p)
    def w_neg2(s, p): return s.neg(s.add(p, p))
    def w_p(s, p): return p
    def w_zero(s, p):
        s.nz(p[0] - s.c(1), p[0] + s.c(1)); return (s.c(0), s.c(0))
    def w_mzero(s, p): # kP + P = (0,0)
        s.nz(p[0] - s.c(1), p[0] + s.c(1)); return (p[0].inv(), p[1] * (p[0]*p[0]).inv())
    for nm, w in (('inf', w_inf), ('-P', w_neg), ('-2P', w_neg2), ('P', w_p), ('(0,0)', w_zero), ('-P+(0,0)', w_mzero)):
        for L in (5, 22):
            bits = [None] * L; bits[L - 1] = 1
            def fin():
                return ladder(P, mkgen, L, bits, spec, want=w)
            attempt('recovery/kP = %s, %d bits' % (nm, L), fin); n += 1
    for nm, w in (('inf', w_inf), ('-P', w_neg), ('(0,0)', w_zero), ('-P+(0,0)', w_mzero)):
        for L in (6, 23):
            bits = [None] * L; bits[L - 1] = 1
            attempt('exceptional intermediate state kP = %s, %d bits' % (nm, L), lambda: ladder(P, mkgen, L, bits, spec, mid=w)); n += 1
    def w_tors(s, p): return (s.t, s.c(0))
    def mkt():
        s = TorsionS(P); a = s.generic('1'); s.nz(a[1], a[0], a[0] - s.t, s.t * a[0] - s.c(1), a[0]*a[0] + s.Av*a[0] + s.c(1))
        x = a[0]; s.nz(x*x*x*x*3 + s.Av*x*x*x*4 + x*x*6 - s.c(1)); s.nz((x*x - x*s.t*2 + s.c(1)))
        holder['s'] = s; holder['p'] = a; return s, a
    for L in (5, 22):
        bits = [None] * L; bits[L - 1] = 1
        attempt('recovery/kP of order two, %d bits' % L, lambda: ladder(P, mkt, L, bits, spec, want=w_tors)); n += 1
        attempt('exceptional intermediate state kP of order two, %d bits' % L, lambda: ladder(P, mkt, L, bits, spec, mid=w_tors)); n += 1
    # P of small order: exact tables of multiples
    def tab(mk):
        def m():
            s, t = mk(); holder['s'] = s; holder['t'] = t; return s, t[1 % len(t)]
        return m, (lambda k: holder['t'][k % len(holder['t'])])
    def o2a():
        s = CurveS(P); return s, [INF, (s.c(0), s.c(0))]
    def o2b():
        s = TorsionS(P); return s, [INF, (s.t, s.c(0))]
    def o3():
        tmp = Sess(P, 'fp2')
        s = CurveS.__new__(CurveS); Sess.__init__(s, P, 'fp2')
        v = s.sym('v'); o = s.c(1); v2 = v*v; v4 = v2*v2
        s.D.nonzero += [v.n, (v4 - o).n, (v2 - o).n, (v2 + o).n, (v - o).n, (v + o).n]
        s.Av = (o - v4*6 - v4*v4*3) * (v4*v2*4).inv()
        # A = +-2 only for 3v^4+1 = 0 or v^4 = 1
        for k in (2, -2):
            d = (s.Av - s.c(k)).n
            s.D.nonzero.append(d.monic())
        s.E = s.exec(EC + 'Curve::new', s.ref(s.Av)); s.evs = len(s.I.events)
        p = (v2, (v4 - o) * (v * 2).inv())
        return s, [INF, p, s.neg(p)]
    def o4(sign):
        def f():
            s = CurveS.__new__(CurveS); Sess.__init__(s, P, 'fp2')
            y = s.sym('y'); o = s.c(1)
            s.Av = y*y - o*2 if sign > 0 else y*y + o*2
            s.D.nonzero += [y.n, (y*y - o*4).n, (y - o*2).n, (y + o*2).n, (y*y + o*4).n]
            s.E = s.exec(EC + 'Curve::new', s.ref(s.Av)); s.evs = len(s.I.events)
            p = (o if sign > 0 else -o, y)
            return s, [INF, p, (s.c(0), s.c(0)), s.neg(p)]
        return f
    for nm, mk, r in (('order 2 (0,0)', o2a, 2), ('order 2', o2b, 2), ('order 3', o3, 3), ('order 4 x=1', o4(1), 4), ('order 4 x=-1', o4(-1), 4)):
        m, sp = tab(mk)
        for L in ((0,) if r == 2 else ()) + (1, 2, 3, 4, 22):
            ks = range(1 << L) if L < 4 else ([0, 5, 6, 7, 8, 11, 15] if L == 4 else [0, 1, 0x2aaaaa & 0x3fffff, 0x3fffff, 0x200003, 0x123456, 0x123457])
            for k in ks:
                bits = [(k >> i) & 1 for i in range(L)]
                if r == 2:
                    attempt('small order/%s, %d bits, n=%d' % (nm, L, k), lambda: direct(P, mk, L, bits, lambda s, t: t[k % 2])); n += 1
                else: attempt('small order/%s, %d bits, n=%d' % (nm, L, k), lambda: ladder(P, m, L, bits, sp, table=True)); n += 1
    infs = {'(0:Y:0)': lambda s: (s.c(0), s.sym('Yi'), s.c(0)), '(0:0:0)': lambda s: (s.c(0), s.c(0), s.c(0)), '(X:Y:0)': lambda s: (s.sym('Xi'), s.sym('Yi'), s.c(0))}
    for nm, mi in infs.items():
        for L, k in ((0, 0), (1, 1), (3, 5), (22, 0x2b3c4d & 0x3fffff)):
            def mk():
                s = CurveS(P); return s, [INF, mi(s)]
            attempt('infinity %s, %d bits' % (nm, L), lambda: direct(P, mk, L, [(k >> i) & 1 for i in range(L)], lambda s, t: INF)); n += 1
    def mkz():
        s, a = mkgen(); return s, [INF, a]
    attempt('zero length', lambda: direct(P, mkz, 0, [], lambda s, t: INF)); n += 1
    attempt('zero length, empty buffer', lambda: direct(P, mkz, 0, [], lambda s, t: INF, empty=True)); n += 1
    R_.floor('ladder cases', n, 60)
    entry_points(R_, P)

def direct(P, mk, L, bits, want, empty=False):
    """without invariants: coordinates of interest collapse (two-torsion, infinity); other field values are havocked at loop heads"""
    s, t = mk(); bits_ops(s.D)
    nby = 0 if empty else max(1, (L + 7) // 8)
    full = list(bits) + [1] * (8 * nby - L)
    buf = s.ref(arr([sum(x << i for i, x in enumerate(full[8*k:8*k+8])) for k in range(nby)])); buf = Ref(buf.cell, (), (0, nby))
    p = t[1]
    pt = s.pt(p, 's1') if len(p) == 2 else s.pt(p)
    st = {'snap': None, 'n': 0}
    def hook(I, fn, fr, bb):
        if not fn.local or bb not in headers(fn): return None
        cur = rcells(s)
        if st['snap'] is None: st['snap'] = cur; return None
        for c, v in cur.items():
            if c in st['snap'] and not eqv(st['snap'][c], v):
                st['n'] += 1
                s.I.mem[c[0]] = s.I._set(s.I.mem[c[0]], c[1], s.sym('h%d' % st['n']))
        st['snap'] = rcells(s)
    s.I.loop_hook = hook
    out = s.ref(s.pt((s.sym('o1'), s.sym('o2'), s.sym('o3'))))
    s.I.exec_fn(P.one(EC + 'Curve::mul_into'), [s.E, out, s.ref(pt), buf, L])
    return s.is_point(s.load(out), want(s, t), what='product') or s.panics()

def entry_points(R_, P):
    def sess():
        s = tok_session(P); ptv = group_models(s); I = s.I
        I.models['<festa_rs::ecFESTA::Point as std::ops::Neg>::neg'] = lambda I, fn, a, info: ptv(a[0]).lin(-1)
        def scal(b, L):
            from ..natives import items
            xs = items(I, b)
            v = sum(x << 8 * i for i, x in enumerate(xs))
            if not isinstance(L, int): raise Unsupported('length')
            if L > 8 * len(xs): s.wrong.append('length %d exceeds the buffer of %d bytes' % (L, len(xs)))
            return v & ((1 << L) - 1)
        def mul(I, fn, a, info): return ptv(a[1]).lin(scal(a[2], a[3]))
        def mul_into(I, fn, a, info): I.store(a[1], ptv(a[2]).lin(scal(a[3], a[4]))); return tup()
        return s, mul, mul_into
    def inf0(v): return Tok({}, None) if isinstance(v, Agg) else v
    T = {'mul': P.one(EC + 'Curve::mul'), 'mul_small': P.one(EC + 'Curve::mul_small'), 'mul_small_into': P.one(EC + 'Curve::mul_small_into'), 'mul_big': P.one(EC + 'Curve::mul_big')}
    smalls = list(range(0, 40)) + [63, 64, 65, 127, 128, 255, 256, 257, 65535, 65536, (1 << 20) - 1, 1 << 21, (1 << 22) + 1, (1 << 32) - 1, 1 << 32, (1 << 40) + 7, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
    for k in smalls:
        for nm in ('mul_small', 'mul_small_into'):
            def go():
                s, mul, mi = sess(); M = s.I.models; M[EC + 'Curve::mul'] = mul; M[EC + 'Curve::mul_into'] = mi
                p = s.ref(Tok({'P': 1}, 'E'))
                if nm == 'mul_small': r = s.I.exec_fn(T[nm], ['E', p, k])
                else:
                    o = s.ref(Tok({'old': 1}, 'E')); s.I.exec_fn(T[nm], ['E', o, p, k]); r = s.load(o)
                r = inf0(r)
                if s.wrong: return s.wrong[0]
                return r.e == Tok({'P': k}, 'E').e or '%s(%d) gives %r' % (nm, k, r)
            R_.attempt('entry:%s/%d' % (nm, k), go, where(T[nm]))
    for k in [0, 1, 2, 3, 5, 127, 128, 129, 255, 256, 257, 65535, 65536, (1 << 31) - 1, 1 << 32, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 127) + 12345, 3 ** 90, 1 << 632, (1 << 632) - 1, (1 << 1292) - 1, 5 ** 400]:
        def go():
            s, mul, mi = sess(); M = s.I.models; M[EC + 'Curve::mul'] = mul; M[EC + 'Curve::mul_into'] = mi
            r = inf0(s.I.exec_fn(T['mul_big'], ['E', s.ref(Tok({'P': 1}, 'E')), s.ref(k)]))
            if s.wrong: return s.wrong[0]
            return r.e == Tok({'P': k}, 'E').e or 'mul_big(%d bits) gives another multiple' % k.bit_length()
        R_.attempt('entry:mul_big/%d bits %s' % (k.bit_length(), hex(k)[:12]), go, where(T['mul_big']))
    for L, by in ((0, [255]), (3, [0x5d]), (8, [0xa7]), (12, [0x13, 0xf9]), (16, [0xff, 0x7f]), (64, [1, 2, 3, 4, 5, 6, 7, 0x80])):
        def go():
            s, mul, mi = sess(); s.I.models[EC + 'Curve::mul_into'] = mi
            b = s.ref(arr(by)); r = inf0(s.I.exec_fn(T['mul'], ['E', s.ref(Tok({'P': 1}, 'E')), Ref(b.cell, (), (0, len(by))), L]))
            k = int.from_bytes(bytes(by), 'little') & ((1 << L) - 1)
            return r.e == Tok({'P': k}, 'E').e or 'mul gives %r' % r
        R_.attempt('entry:mul/%d bits' % L, go, where(T['mul']))
