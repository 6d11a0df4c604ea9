"""C06: only points on the curve are accepted or produced."""
from ..prog import load, MissingAnchor
from ..curve import *
from ..report import where
from ..fieldmodels import Roots
RULE = ('With indeterminate coordinates, every acceptance condition must be the vanishing of the (projective) curve equation and nothing else, the produced point must have exactly the given '
        'coordinates on acceptance and be the neutral element otherwise; a completed or iterated or random point must satisfy the equation as a polynomial identity modulo r^2 = operand of the square root; '
        'the j-invariant must be 256(A^2-3)^3/(A^2-4).')

def run(R_):
    P = load()
    R_.assume += ['extension-field contracts (C02), square roots and Legendre symbol as in C07']
    one = lambda n: P.one(EC + n)
    n = 0
    def ob(key, fn, f):
        def g():
            return f()
        R_.attempt(key, g, where(one(fn)))
    # ---- affine setter
    def eq_aff(s, x, y): return y*y - s.rhs(x)
    def eq_proj(s, x, y, z): return y*y*z - (x*x + s.Av*x*z + z*z) * x
    def accept(s, cond, got_ok, pt, coords):
        """got_ok is a mask/bool diagram that must be cond; pt has the coordinates when cond, else infinity"""
        want = s.A.app1(lambda c: MASK1 if c else 0, cond)
        e = s.equal(got_ok, want, what='status')
        if e: return e
        X, Y, Z = s.coords(pt)
        zc = s.A.app1(lambda v: s.D.zero_cond(s.D.leaf(v)), Z)
        winf = s.A.ite(cond, s.D.zero_cond(coords[2]), 1)
        e = s.equal(zc, winf, what='neutral element')
        if e: return e
        for k, (c, w) in enumerate(((X, coords[0]), (Y, coords[1]))):
            d = s.D.two(lambda a, b: a * coords[2] - w * b, c, Z)
            d = s.A.ite(winf, s.c(0), d)
            e = s.equal(d, s.c(0), what='xy'[k] + '-coordinate')
            if e: return e
        return s.panics()
    def zc(s, q): return s.D.zero_cond(q)
    cases = {'generic': lambda s: (s.sym('x'), s.sym('y')), 'x=0': lambda s: (s.c(0), s.sym('y')), 'y=0': lambda s: (s.sym('x'), s.c(0)), '(0,0)': lambda s: (s.c(0), s.c(0))}
    def opt_point(s, v):
        """Option<Point> -> list of (cube, None|point)"""
        return list(s.A.leaves(v))
    def option(s, cond, r, coords):
        some = s.A.app1(lambda v: v.var, r)
        e = s.equal(some, cond, what='Some')
        if e: return e
        for cube, leaf in s.A.leaves(r):
            if leaf.var == 0: continue
            sv = s.A.asm; s.A.asm = dict(sv); s.A.asm.update(cube)
            try:
                X, Y, Z = s.coords(leaf.f[0])
                for c, w in ((X, coords[0]), (Y, coords[1])):
                    e = s.equal(s.D.two(lambda a, b: a * coords[2] - w * b, c, Z), s.c(0), what='coordinate')
                    if e: return e
                e = s.equal(zc1(s, Z), s.D.zero_cond(coords[2]), what='at infinity')
                if e: return e
            finally: s.A.asm = sv
        return s.panics()
    def zc1(s, Z): return s.A.app1(lambda v: s.D.zero_cond(s.D.leaf(v)), Z)
    for nm, mk in cases.items():
        def f():
            s = CurveS(P); x, y = mk(s); pt = s.ref(s.pt((s.sym('o1'), s.sym('o2'), s.sym('o3'))))
            r = s.I.exec_fn(one('Curve::set_xy'), [s.E, pt, s.ref(x), s.ref(y)])
            return accept(s, zc(s, eq_aff(s, x, y)), r, s.load(pt), (x, y, s.c(1)))
        ob('set_xy/' + nm, 'Curve::set_xy', f); n += 1
        def f():
            s = CurveS(P); x, y = mk(s)
            r = s.I.exec_fn(one('Curve::point_xy_vartime'), [s.E, s.ref(x), s.ref(y)])
            return option(s, zc(s, eq_aff(s, x, y)), r, (x, y, s.c(1)))
        ob('point_xy_vartime/' + nm, 'Curve::point_xy_vartime', f); n += 1
    pc = {'generic': lambda s: (s.sym('x'), s.sym('y'), s.sym('z')), 'z=0': lambda s: (s.sym('x'), s.sym('y'), s.c(0)), '(0:Y:0)': lambda s: (s.c(0), s.sym('y'), s.c(0)), '(0:0:0)': lambda s: (s.c(0), s.c(0), s.c(0)),
          'x=0': lambda s: (s.c(0), s.sym('y'), s.sym('z')), 'y=0': lambda s: (s.sym('x'), s.c(0), s.sym('z')), 'z=1': lambda s: (s.sym('x'), s.sym('y'), s.c(1))}
    for nm, mk in pc.items():
        def cond(s, x, y, z): return s.A.ite(s.D.zero_cond(z), 1, zc(s, eq_proj(s, x, y, z)))
        def f():
            s = CurveS(P); x, y, z = mk(s); pt = s.ref(s.pt((s.sym('o1'), s.sym('o2'), s.sym('o3'))))
            r = s.I.exec_fn(one('Curve::set_xyz'), [s.E, pt, s.ref(x), s.ref(y), s.ref(z)])
            return accept(s, cond(s, x, y, z), r, s.load(pt), (x, y, z))
        ob('set_xyz/' + nm, 'Curve::set_xyz', f); n += 1
        def f():
            s = CurveS(P); x, y, z = mk(s)
            r = s.I.exec_fn(one('Curve::point_xyz_vartime'), [s.E, s.ref(x), s.ref(y), s.ref(z)])
            return option(s, cond(s, x, y, z), r, (x, y, z))
        ob('point_xyz_vartime/' + nm, 'Curve::point_xyz_vartime', f); n += 1
        def f():
            s = CurveS(P); x, y, z = mk(s)
            r = s.I.exec_fn(one('Curve::on_curve'), [s.E, s.ref(s.pt((x, y, z)))])
            return s.equal(r, cond(s, x, y, z), what='on_curve') or s.panics()
        ob('on_curve/' + nm, 'Curve::on_curve', f); n += 1
        def f():
            # representation independence of the coordinate accessors
            s = CurveS(P); x, y, z = mk(s); k = s.sym('k'); s.nz(k)
            a = s.I.exec_fn(P.one(EC + 'Point::to_xy'), [s.pt((x, y, z))]); b = s.I.exec_fn(P.one(EC + 'Point::to_xy'), [s.pt((x*k, y*k, z*k))])
            iz = s.D.zero_cond(z)
            for u, v, c in zip(a.f, b.f, (x, y)):
                w = s.A.ite(iz, s.c(0), c * z.inv()) if iz != 1 else s.c(0)
                e = s.equal(u, w, what='to_xy') or s.equal(v, w, what='to_xy of a scaled representation')
                if e: return e
        ob('to_xy/' + nm, 'Point::to_xy', f); n += 1
        def f():
            s = CurveS(P); x, y, z = mk(s)
            r = s.I.exec_fn(P.one(EC + 'Point::to_xy_vartime'), [s.pt((x, y, z))])
            iz = s.D.zero_cond(z)
            e = s.equal(s.A.app1(lambda v: 1 - v.var, r), iz, what='None')
            if e or iz == 1: return e
            for cube, leaf in s.A.leaves(r):
                if leaf.var == 0: continue
                sv = s.A.asm; s.A.asm = dict(sv); s.A.asm.update(cube)
                try:
                    for u, c in zip(leaf.f[0].f, (x, y)):
                        e = s.equal(u, c * z.inv(), what='to_xy_vartime')
                        if e: return e
                finally: s.A.asm = sv
        ob('to_xy_vartime/' + nm, 'Point::to_xy_vartime', f); n += 1
    # ---- completion
    xs = {'generic': lambda s: (s.sym('X'), s.sym('Z')), 'Z=1': lambda s: (s.sym('X'), s.c(1)), 'X=0': lambda s: (s.c(0), s.sym('Z')), 'Z=0': lambda s: (s.sym('X'), s.c(0)), '0:0': lambda s: (s.c(0), s.c(0))}
    for nm, mk in xs.items():
        def f():
            s = CurveS(P); ro = Roots(s.D, s.FM); X, Z = mk(s)
            px = s.I.exec_fn(P.one(EC + 'PointX::new_xz'), [s.ref(X), s.ref(Z)])
            r = s.I.exec_fn(one('Curve::complete_pointX'), [s.E, s.ref(px)])
            pt, ok = r.f
            XX, YY, ZZ = s.coords(pt)
            iz = s.D.zero_cond(Z)
            # failure exactly when Z != 0 and x(x^2+Ax+1) is a non-square; the operand of the root must be that value times an even power of Z
            val = (X*X + s.Av*X*Z + Z*Z) * X * Z
            fail = s.A.app1(lambda m: 1 - (m & 1), ok)
            zr = s.A.app1(lambda v: s.D.zero_cond(s.D.leaf(v)), ZZ)
            e = s.equal(zr, s.A.ite(fail, 1, iz), what='neutral element')
            if e: return e
            for cube, leaf in s.A.leaves(fail):
                sq = [(s.A.desc[a][1], b) for a, b in cube if s.A.desc[a][0] == 'square']
                for q, b in sq:
                    # q/val must be a square: q*val is a perfect square; here q = val * (even monomial)
                    c = (q.n * val.n)
                    if not perfect_square_ratio(s, q, val): return 'root taken of another value: %r' % (q,)
                if leaf and not any(b == 0 for q, b in sq): return 'failure without a non-square'
            for cond in (0,):
                z0 = s.A.ite(zr, 1, 0)
                d = s.D.two(lambda a, b: a * Z - X * b, XX, ZZ)
                e = s.equal(s.A.ite(z0, s.c(0), d), s.c(0), what='x-coordinate')
                if e: return e
                t = s.D.A.app2(lambda a, b: tup(a, b), XX, YY)
                d = s.D.A.app2(lambda ab, c: eq_proj(s, ab.f[0], ab.f[1], c), t, ZZ)
                e = s.equal(s.A.ite(z0, s.c(0), d), s.c(0), what='curve equation')
                if e: return e
            return s.panics()
        ob('complete_pointX/' + nm, 'Curve::complete_pointX', f); n += 1
    # ---- iteration and random points
    def on(s, pt):
        X, Y, Z = s.coords(pt)
        e = s.equal(Z, s.c(1), what='Z')
        if e: return e
        t = s.D.A.app2(lambda a, b: tup(a, b), X, Y)
        return s.equal(s.D.A.app1(lambda ab: eq_aff(s, ab.f[0], ab.f[1]), t), s.c(0), what='curve equation')
    for sc in ([1], [-1, 1], [-1, -1, -1, 1]):
        def f():
            s = CurveS(P); ro = Roots(s.D, s.FM, sc + [1] * 0)
            it = s.ref(s.I.exec_fn(P.one(EC + 'CurveIter::new'), [s.Av]))
            nx = [x for x in P.fn.values() if x.local and x.path.endswith('CurveIter as std::iter::Iterator>::next')]
            if len(nx) != 1: raise MissingAnchor('CurveIter::next')
            r = s.I.exec_fn(nx[0], [it])
            if r.var != 1: return 'no point returned'
            e = on(s, r.f[0])
            if e: return e
            x1 = s.coords(r.f[0])[0]
            ro.script = [1]
            r2 = s.I.exec_fn(nx[0], [it]); e = on(s, r2.f[0])
            if e: return e
            x2 = s.coords(r2.f[0])[0]
            d = s.D.leaf(x1) - s.D.leaf(x2)
            return 'two successive points have the same x' if d.iszero() else s.panics()
        ob('iterator/%d rejected' % (len(sc) - 1), 'CurveIter::new', f); n += 1
        def f():
            s = CurveS(P); ro = Roots(s.D, s.FM, sc); k = [0]
            def rnd(I, fn, a, info):
                k[0] += 1; I.store(a[0], s.sym('rnd%d' % k[0])); return tup()
            s.FM.extra['set_rand'] = rnd
            def rr(I, fn, a, info): k[0] += 1; return s.sym('rnd%d' % k[0])
            s.FM.extra['rand'] = rr
            s.D.rng = lambda fn, a, info: rng_fill(s, fn, a)
            fns = [x for x in P.fn.values() if x.local and x.path == EC + 'Curve::rand_point' and x.blocks]
            if not fns: raise MissingAnchor('Curve::rand_point')
            for bit in (0, 1):
                s.coin = bit; ro.script = list(sc)
                r = s.I.exec_fn(fns[0], [s.E, s.ref(Opaque('rng'))])
                e = on(s, r)
                if e: return e
        ob('random point/%d rejected' % (len(sc) - 1), 'Curve::rand_point', f); n += 1
    def f():
        s = CurveS(P); A = s.Av
        j = s.I.exec_fn(one('Curve::j_invariant'), [s.ref(s.E)])
        t = A*A - s.c(3)
        return s.equal(j, t*t*t * 256 * (A*A - s.c(4)).inv(), what='j-invariant') or s.panics()
    ob('j_invariant', 'Curve::j_invariant', f); n += 1
    def f():
        s = CurveS(P)
        return s.equal(s.I.exec_fn(one('Curve::get_constant'), [s.ref(s.E)]), s.Av, what='curve constant')
    ob('get_constant', 'Curve::get_constant', f); n += 1
    for k, nm in ((2, '2'), (-2, '-2')):
        def f():
            s = Sess(P, 'fp2')
            try: s.exec(EC + 'Curve::new', s.ref(s.c(k)))
            except Diverge: return None
            return 'singular coefficient %d is accepted' % k
        ob('singular A=%s' % nm, 'Curve::new', f); n += 1
    R_.floor('obligations', n, 40)

def rng_fill(s, fn, a):
    nm = fn.path.rsplit('::', 1)[1]
    if nm == 'fill_bytes':
        from ..natives import items
        k = s.I.length(a[1])
        for i in range(k): s.I.store(s.I.elem(a[1], i), 0xA4 | s.coin)
        return tup()
    if nm == 'next_u32' or nm == 'next_u64': return 0xA4 | s.coin
    raise Unsupported('random generator method ' + nm)

def perfect_square_ratio(s, q, val):
    """q = val * c^2 * m^2 with a monomial m and a square constant c"""
    for a, b in ((q.n * q.d, val.n * val.d), (val.n * val.d, q.n * q.d)):
        r = a.divexact(b)
        if r is not None:
            if len(r.d) != 1: return False
            m, c = next(iter(r.d.items()))
            if any(e % 2 for e in r.content_monomial().values()): return False
            return True if c == 1 else pow(c, (s.D.p - 1) // 2, s.D.p) in (1, s.D.p - 1)
    return False
