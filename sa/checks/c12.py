"""C12: strategy-driven chains perform the naive chain."""
from ..prog import load, MissingAnchor
from ..curve import *
from ..report import where
from ..terms import Term, TermS
from .c10 import TH
from . import c13, c11
RULE = ('The strategy loops are interpreted over tokens (which point, how many doublings, how many steps applied, in which theta representation): every step must receive kernel points of order '
        'exactly eight on the current structure and every image point must receive every step once.  All well-formed strategies of the small lengths are enumerated; the embedded strategy is '
        'used with the embedded length.')

class Pt:
    """2^e times the image after k steps of the named point; rep: representation on the current structure"""
    __slots__ = ('n', 'e', 'k', 'rep')
    def __init__(s, n, e, k, rep): s.n = n; s.e = e; s.k = k; s.rep = rep
    def key(s): return (s.n, s.e, s.k, s.rep)
    def __eq__(s, o): return isinstance(o, Pt) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s): return '2^%d %s after %d steps' % (s.e, s.n, s.k)
class Cnt:
    """2^m times the point n on E"""
    __slots__ = ('E', 'n', 'm')
    def __init__(s, E, n, m): s.E = E; s.n = n; s.m = m
    def __eq__(s, o): return isinstance(o, Cnt) and (s.E, s.n, s.m) == (o.E, o.n, o.m)
    def __hash__(s): return hash((s.E, s.n, s.m))
    def __repr__(s): return '2^%d %s on %s' % (s.m, s.n, s.E)
class St:
    __slots__ = ('k', 'rep')
    def __init__(s, k, rep): s.k = k; s.rep = rep
    def __repr__(s): return 'structure %d (%s)' % (s.k, s.rep)

def strategies(n, memo={}):
    """all well-formed strategies with n leaves: b doublings, then the chain of n-b, then that of b"""
    if n == 1: return [[]]
    if n not in memo:
        memo[n] = [[b] + x + y for b in range(1, n) for x in strategies(n - b) for y in strategies(b)]
    return memo[n]

def wellformed(n, S):
    """reads S as a well-formed strategy with n leaves"""
    st = [n]; i = 0
    while st:
        m = st.pop()
        if m == 1: continue
        if i >= len(S): return 'it has %d entries, too few for %d steps' % (len(S), n)
        b = S[i]; i += 1
        if not 1 <= b < m: return 'entry %d is %d in a subtree with %d leaves' % (i - 1, b, m)
        st.append(b); st.append(m - b)
    return None if i == len(S) else 'it has %d unused entries' % (len(S) - i)

def run(R_):
    P = load()
    R_.assume += ['one isogeny step, the gluing, the splitting and the product map behave as analysed under C10 and C11', 'KummerLineIsogeny as analysed under C13']
    jobs = []
    def need(n):
        r = [x for x in P.find(TH + n) if x.blocks is not None]
        if len(r) != 1: raise Unsupported('%s not found' % n)
        return r[0]
    def add(key, f, fn):
        r = [x for x in P.find(fn) if x.blocks is not None]; jobs.append((key, f, where(r[0]) if r else fn))
    # ---- the embedded strategy
    def const(name):
        for n, c in P.consts.items():
            if n.endswith('::' + name): return bytes.fromhex(c['a']['b'])
        raise MissingAnchor(name)
    def emb():
        b = const('THETA_STRATEGY'); L = int.from_bytes(const('THETA_ISOGENY_LENGTH'), 'little')
        return [int.from_bytes(b[i:i+8], 'little') for i in range(0, len(b), 8)], L
    def embedded():
        S, L = emb()
        return wellformed(L, S)
    jobs.append(('embedded strategy is well formed for the embedded length', embedded, 'fields.rs THETA_STRATEGY'))
    def embrun(k):
        def f():
            S, L = emb()
            if wellformed(L, S): return 'the strategy is not well formed'
            return chain(P, need, L, S, k)
        return f
    PI = 'product_isogeny'
    for k in (0, 4): add('embedded strategy/%d image points' % k, embrun(k), TH + PI)
    top = 7 if R_.tier == 'quick' else 9
    tot = 0
    for n in range(3, top + 1):
        Ss = strategies(n); tot += len(Ss)
        for c in range(0, len(Ss), 60):
            def f(n=n, Ss=Ss[c:c + 60]):
                for S in Ss:
                    e = chain(P, need, n, S, len(S) % 3)
                    if e: return 'strategy %s: %s' % (S, e)
            add('every strategy of %d steps, part %d' % (n, c // 60), f, TH + PI)
    # long unbalanced shapes
    for n in (40, 101, 300):
        for nm, S in (('doublings first', [1] * 0 + lin(n, True)), ('images only', lin(n, False)), ('halving', half(n))):
            add('%s/%d steps' % (nm, n), lambda n=n, S=S: wellformed(n, S) or chain(P, need, n, S, 2), TH + PI)
    for n in (3, 4, 5, 8, 40): add('naive chain/%d steps' % n, lambda n=n: chain(P, need, n, None, 3), TH + 'product_isogeny_no_strategy')
    for k, t in c11.ASM: add('product assembly/%d of %d points' % (t, k), c11.asm(P, need, k, t), TH + 'split_to_product')
    # ---- doublings
    def counted(names, pre):
        """doubling as a counter: (curve or structure, point, number of doublings)"""
        s = TermS(P); I = s.I
        def db(e, p):
            e, p = s.val(e), s.val(p)
            if not isinstance(p, Cnt): raise Unsupported('doubling of %r' % (p,))
            if p.E != e: return Cnt('wrong curve', p.n, p.m + 1)
            return Cnt(p.E, p.n, p.m + 1)
        for n in names:
            if n.endswith('_self'): f = lambda I_, fn, a, info: (I.store(a[1], db(a[0], a[1])), tup())[1]
            elif n.endswith('_into'): f = lambda I_, fn, a, info: (I.store(a[1], db(a[0], a[2])), tup())[1]
            else: f = lambda I_, fn, a, info: db(a[0], a[1])
            I.models[pre + n] = f
        return s
    def dbl(m):
        def f():
            s = counted(('double', 'double_self', 'double_into'), EC + 'Curve::')
            E = s.exec(P.one(EC + 'EllipticProduct::new'), s.ref('E1'), s.ref('E2'))
            C = s.exec(P.one(EC + 'CouplePoint::new'), s.ref(Cnt('E1', 'P1', 0)), s.ref(Cnt('E2', 'P2', 0)))
            r = s.exec(P.one(EC + 'EllipticProduct::double_iter'), E, s.ref(C), m)
            got = s.exec(P.one(EC + 'CouplePoint::points'), r).f
            for i in (1, 2):
                g = s.val(got[i - 1])
                if g != Cnt('E%d' % i, 'P%d' % i, m): return 'component %d after %d doublings is %r' % (i, m, g)
            return s.panics()
        return f
    def tdbl(m):
        def f():
            need('ThetaStructure::set_double_self')
            s = counted(('double_point', 'set_double_self'), TH + 'ThetaStructure::')
            r = s.val(s.exec(P.one(TH + 'ThetaStructure::double_iter'), 'D', s.ref(Cnt('D', 'P', 0)), m))
            return ('after %d doublings: %r' % (m, r) if r != Cnt('D', 'P', m) else None) or s.panics()
        return f
    def cdbl(m):
        def f():
            s = counted(('double', 'double_self', 'double_into'), EC + 'Curve::')
            r = s.val(s.exec(P.one(EC + 'Curve::double_iter'), 'E', s.ref(Cnt('E', 'P', 0)), m))
            return ('after %d doublings: %r' % (m, r) if r != Cnt('E', 'P', m) else None) or s.panics()
        return f
    for m in (0, 1, 2, 3, 7, 233, 255, 256, 631, 1025, 66000):
        add('repeated doubling of points/%d' % m, cdbl(m), EC + 'Curve::double_iter')
        add('repeated doubling of couple points/%d' % m, dbl(m), EC + 'EllipticProduct::double_iter')
        add('repeated doubling of theta points/%d' % m, tdbl(m), TH + 'ThetaStructure::double_iter')
    # ---- one-dimensional chains
    for l in ([(3, 1)], [(3, 2)], [(3, 6)], [(5, 9)], [(3, 12), (5, 1)], [(59, 2), (6299, 1)], [(7, 2), (3, 17), (5, 2)]):
        add('factored chain/%s' % ' '.join('%d^%d' % x for x in l), c13.factored(P, l), EC + 'factored_kummer_isogeny')
    for nm, l in c13.tables(P): add('factored chain/table %s' % nm, c13.factored(P, l), EC + 'factored_kummer_isogeny')
    R_.parallel(jobs)
    R_.floor('obligations', len(jobs), 35)
    R_.extra['strategies'] = tot; R_.extra['level'] = 'proof'

def lin(n, first):
    """one doubling at a time / everything doubled at once"""
    out = []
    while n > 1:
        if first: out += [1]; n -= 1       # b = 1: subtree n-1 then 1
        else: out += [n - 1]; n -= 1       # b = n-1: subtree 1 then n-1
    return out
def half(n):
    if n == 1: return []
    b = n // 2
    return [b] + half(n - b) + half(b)

def chain(P, need, n, S, k):
    s = TermS(P, fuel=400000000); I = s.I; M = I.models
    wrong = []
    def bad(m): wrong.append(m); raise Unsupported(m)
    top = {'P': n + 2, 'Q': n + 2}
    def pt(v, what):
        v = s.val(v)
        if not isinstance(v, Pt): raise Unsupported('%s: %r' % (what, v))
        return v
    steps = []
    def ker(K1, K2, at, rep, what):
        for K, nm in ((K1, 'P'), (K2, 'Q')):
            if K.n != nm: bad('%s: kernel point %r' % (what, K))
            if K.k != at: bad('%s: kernel point %r on the structure after %d steps' % (what, K, at))
            o = n + 2 - K.k - K.e
            if o != 3: bad('%s: kernel point of order 2^%d' % (what, o))
            if K.rep != rep: bad('%s: kernel point in representation %s' % (what, K.rep))
    def seq(v):
        r = s.val(v)
        if not isinstance(r, tuple): raise Unsupported('sequence %r' % (r,))
        for x in r:
            if not isinstance(x, Pt): raise Unsupported('element %r' % (x,))
        return r
    def inplace(r, L):
        # write back through a slice or vector reference
        v = s.A.top(r)
        while isinstance(s.A.top(I.load(v)), Ref): v = s.A.top(I.load(v))
        for i, x in enumerate(L): I.store(I.elem(v, i), x)
    def push(p, at, rep, what, out):
        if p.k != at: bad('%s: %r is not on the structure after %d steps' % (what, p, at))
        if p.rep != rep: bad('%s: %r in representation %s' % (what, p, p.rep))
        return Pt(p.n, p.e, at + 1, out)
    def glue(I_, fn, a, info):
        if s.val(a[0]) != Term('E1E2'): bad('gluing of %r' % (s.val(a[0]),))
        ker(pt(a[1], 'gluing'), pt(a[2], 'gluing'), 0, 'product', 'gluing')
        steps.append('gluing')
        return tup(St(1, 'theta'), vec([push(p, 0, 'product', 'gluing', 'theta') for p in seq(a[3])]))
    def two(I_, fn, a, info):
        D = s.val(a[0]); what = 'step %d' % (D.k + 1)
        h = s.val(a[4])
        if any(type(x) is not int for x in h): raise Unsupported('flags %r' % (h,))
        if len(steps) != D.k: bad('%s performed on structure %d' % (what, D.k))
        ker(pt(a[1], what), pt(a[2], what), D.k, D.rep, what)
        if h[0] and D.rep == 'theta': bad('%s: points are taken as dual coordinates' % what)
        if h[0]: raise Unsupported('step with transformed input')
        if not h[0] and D.rep == 'dual': bad('%s: dual coordinates are not transformed back' % what)
        out = 'theta' if h[1] else 'dual'
        if out == 'theta' and D.k + 1 >= n - 1: bad('%s: the structure before the product has a vanishing null coordinate unless it is kept dual' % what)
        L = [push(p, D.k, D.rep, what, out) for p in seq(a[3])]
        inplace(a[3], L); steps.append('step')
        return St(D.k + 1, out)
    def last(I_, fn, a, info):
        K1, K2 = pt(a[0], 'last step'), pt(a[1], 'last step')
        if K1.k != n - 1: bad('the last step is performed after %d of %d steps' % (K1.k, n - 1))
        ker(K1, K2, n - 1, 'dual', 'last step')
        L = [push(p, n - 1, 'dual', 'last step', 'prod') for p in seq(a[2])]
        inplace(a[2], L); steps.append('last')
        return St(n, 'prod')
    def split(I_, fn, a, info):
        D = s.val(a[0])
        if D.rep != 'prod': bad('splitting of %r' % (D,))
        L = []
        for p in seq(a[1]):
            if p.k != n or p.rep != 'prod': bad('splitting: %r is on another structure' % (p,))
            L.append(Pt(p.n, p.e, p.k, 'split'))
        inplace(a[1], L)
        return St(D.k, 'split')
    def toprod(I_, fn, a, info):
        D = s.val(a[0]); L = seq(a[1]); m = s.A.top(a[2])
        if D.rep != 'split': bad('product map of %r' % (D,))
        if type(m) is not int: raise Unsupported('number of points')
        return tup(Term('E3E4'), vec([Pt(p.n, p.e, p.k, 'out' if p.rep == 'split' else 'wrong') for p in L[:m]]))
    def doubler(rep, cnt, mode):
        def g(I_, fn, a, info):
            D = s.val(a[0]); p = pt(a[1], 'doubling'); m = s.A.top(a[2]) if cnt is None else cnt
            while isinstance(m, Ref): m = s.A.top(I.load(m))
            if type(m) is not int: raise Unsupported('number of doublings')
            if rep == 'product':
                if D != Term('E1E2') or p.k != 0: bad('doubling of %r on %r' % (p, D))
            elif not isinstance(D, St) or p.k != D.k or p.rep != D.rep: bad('doubling of %r on %r' % (p, D))
            q = Pt(p.n, p.e + m, p.k, p.rep)
            if mode == 'self': I.store(a[1], q); return tup()
            return q
        return g
    for nm, f in (('gluing_isogeny', glue), ('two_isogeny', two), ('two_isogeny_to_product', last), ('splitting_isomorphism', split), ('split_to_product', toprod)):
        need(nm); M[TH + nm] = f
    EPp = EC + 'EllipticProduct::'; TS = TH + 'ThetaStructure::'
    M[EPp + 'double_iter'] = doubler('product', None, 'ret'); M[EPp + 'double'] = doubler('product', 1, 'ret')
    M[TS + 'double_iter'] = doubler('theta', None, 'ret'); M[TS + 'double_point'] = doubler('theta', 1, 'ret'); M[TS + 'set_double_self'] = doubler('theta', 1, 'self')
    cl = lambda I_, fn, a, info: s.val(a[0])
    for t in ('ecFESTA::CouplePoint', 'thetaFESTA::ThetaPoint', 'thetaFESTA::ThetaStructure'): M['<festa_rs::%s as std::clone::Clone>::clone' % t] = cl
    pts = [Pt('R%d' % i, 0, 0, 'product') for i in range(k)]
    buf = s.ref(arr(pts)); sl = Ref(buf.cell, (), (0, k))
    args = [s.ref(Term('E1E2')), s.ref(Pt('P', 0, 0, 'product')), s.ref(Pt('Q', 0, 0, 'product')), sl, n]
    if S is not None:
        b = s.ref(arr(S)); args.append(Ref(b.cell, (), (0, len(S))))
    fn = P.one(TH + ('product_isogeny' if S is not None else 'product_isogeny_no_strategy'))
    try: r = s.exec(fn, *args)
    except Unsupported:
        if wrong: return wrong[0]
        raise
    E, out = [s.val(x) for x in r.f]
    if E != Term('E3E4'): return 'the codomain is %r' % (E,)
    if len(steps) != n: return '%d steps performed instead of %d' % (len(steps), n)
    if len(out) != k: return '%d images returned for %d points' % (len(out), k)
    for i, p in enumerate(out):
        if p != Pt('R%d' % i, 0, n, 'out'): return 'image %d is %r' % (i, p)
    return s.panics()
