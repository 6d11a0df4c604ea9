"""C15: number-theoretic helpers."""
import itertools
from math import isqrt, gcd
from ..prog import load, MissingAnchor
from ..harness import *
from ..grp import *
from ..report import where
from ..terms import TermS, Term
from . import c13
DL = 'festa_rs::discrete_log::'
RULE = ('Euclid: operands and quotients are indeterminates, the coefficient returned must satisfy the Bezout relation as a polynomial identity. Recombination, digit extraction and the two-dimensional '
        'logarithm: residues, digits and logarithms are indeterminates, field elements are powers of a generator, and the result must be the linear form asked for. '
        'Integer root and table search: constant propagation for the arguments listed (a finite set).')

class ZP:
    """integer polynomial; m: known modulo the multiples of this polynomial name only; rng: 'any', 'neg', 'nonneg' after a remainder"""
    __slots__ = ('d', 'm', 'rng')
    def __init__(s, d, m=None, rng=None): s.d = {k: v for k, v in d.items() if v}; s.m = m; s.rng = rng
    @staticmethod
    def var(n): return ZP({(n,): 1})
    def __add__(s, o):
        o = zp(o); d = dict(s.d)
        for k, v in o.d.items(): d[k] = d.get(k, 0) + v
        return ZP(d, s.m or o.m)
    def __sub__(s, o): return s + zp(o) * -1
    def __mul__(s, o):
        o = zp(o); d = {}
        for k, v in s.d.items():
            for l, w in o.d.items():
                t = tuple(sorted(k + l)); d[t] = d.get(t, 0) + v * w
        return ZP(d, s.m or o.m)
    def iszero(s): return not s.d
    def __eq__(s, o): return isinstance(o, ZP) and s.d == o.d
    def __hash__(s): return hash(frozenset(s.d.items()))
    def isconst(s): return all(k == () for k in s.d) and not s.m
    def __repr__(s): return ' + '.join('%d*%s' % (v, '*'.join(k)) for k, v in list(s.d.items())[:5]) or '0'
def zp(x): return x if isinstance(x, ZP) else ZP({(): x})

def run(R_):
    P = load()
    R_.assume += ['extension-field contracts (C02, C07), pairing (C14)', 'big-integer operations of num-bigint', 'parameter factorisations have distinct primes and positive exponents']
    jobs = []
    def add(key, f, n):
        r = [x for x in P.find(DL + n) if x.blocks is not None]; jobs.append((key, f, where(r[0]) if r else n))
    # ---- Euclid
    for lt in (0, 1):
        for k in range(0, 12 if R_.tier == "quick" else 15):
            for neg in (0, 1): add('xgcd/%s, %d divisions, coefficient %s' % ('a < b' if lt else 'a >= b', k, 'negative' if neg else 'non-negative'), xgcd(P, lt, k, neg), 'xgcd_big')
    # ---- CRT
    lists = [[(3, 1)], [(3, 2), (5, 1)], [(5, 1), (3, 2), (7, 3)], [(59, 2), (6299, 1), (6719, 1), (9181, 1)], [(2, 5), (3, 1), (5, 2), (11, 1), (13, 4)], []] + [l for _, l in c13.tables(P)]
    for l in lists: add('recombination/%s' % nm(l), crt(P, l), 'compute_crt')
    many = more_lists()
    for i in range(0, len(many), 25): add('recombination/further factorisations, part %d' % (i // 25), each(many[i:i+25], lambda l: crt(P, l)), 'compute_crt')
    # ---- integer root
    vals = sorted(set(x for r in list(range(0, 40)) + [255, 256, 257, 4095, 32767, 32768, 46340, 46341, 65534, 65535] for x in (r*r - 1, r*r, r*r + 1, r*r + r, r*r + 2*r) if 0 <= x < 1 << 32) | {(1 << 32) - 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1})
    for i in range(0, len(vals), 60): add('integer root/constants %d-%d' % (vals[i], vals[min(i + 59, len(vals) - 1)]), root(P, vals[i:i + 60]), 'sqrt_floor')
    # ---- BSGS
    small = list(range(2, 66)) + [71, 80, 81, 82, 97, 100, 120, 121, 122]
    for n in small: add('table search/order %d, all logarithms' % n, bsgs(P, n, range(n)), 'bsgs')
    for n in c13.degrees(P, R_):
        m = isqrt(n) + 1
        if n not in small: add('table search/order %d, edges of the table' % n, bsgs(P, n, sorted({0, 1, m - 1, m, m + 1, n // 2 // m * m, n - 1} if R_.tier != 'quick' else {m, n - 1})), 'bsgs')
    # ---- Pohlig-Hellman
    pe = sorted(set(x for _, l in c13.tables(P) for x in l) | {(2, 1), (2, 2), (2, 7), (3, 1), (3, 2), (3, 5), (5, 3), (7, 4), (71, 3), (11, 6)} | {(l, e) for l in (2, 3, 5) for e in list(range(1, 14)) + [16, 17, 20]})
    for l, e in pe: add('digits/%d^%d' % (l, e), php(P, l, e), 'ph_dlp_power')
    for l in lists[:-1]:
        if l: add('logarithm/%s' % nm(l), ph(P, l), 'ph_dlp')
    for i in range(0, len(many), 25): add('logarithm/further factorisations, part %d' % (i // 25), each(many[i:i+25], lambda l: ph(P, l)), 'ph_dlp')
    for nm_, l in c13.tables(P): add('logarithm/table %s' % nm_, ph(P, l), 'ph_dlp')
    for given in (0, 1):
        for l in ([(3, 1)], [(3, 2), (5, 1)], [(2, 3)]): add('two-dimensional logarithm/%s%s' % (nm(l), ', pairing given' if given else ''), bid(P, l, given), 'bidlp')
    R_.parallel(jobs)
    R_.floor('obligations', len(jobs), 90)
    R_.extra['level'] = 'proof'

def more_lists():
    """factorisations of every small shape: pairs in both orders with exponents up to 12, one long prime power, many primes"""
    out = []
    for a, b in ((2, 3), (3, 2), (5, 3), (7, 11), (11, 5)):
        for e in (1, 2, 3, 4, 5, 6, 7, 8, 12):
            out.append([(a, e), (b, 1)]); out.append([(a, 1 + e % 3), (b, e)])
    for e in (16, 20, 31, 32, 33, 63, 64, 65, 127, 128, 130, 255, 257, 634): out += [[(2, e)], [(3, 2), (2, e)], [(2, e), (5, 1), (3, 3)]]
    pr = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89]
    for k in range(3, 25): out.append([(p, 1 + (i * 5 + k) % 4) for i, p in enumerate(pr[:k])]); out.append([(p, 1 + (i * 3 + k) % 5) for i, p in enumerate(reversed(pr[:k]))])
    return out

def each(ls, mk):
    def f():
        for l in ls:
            e = mk(l)()
            if e: return '%s: %s' % (nm(l), e)
    return f

def nm(l): return ' '.join('%d^%d' % x for x in l) or 'empty'

class XDom(GrpDom):
    def __init__(s, P): GrpDom.__init__(s, P, 0)
    def bigop(s, op, u, v):
        u, v = zp(u), zp(v)
        if op == 'add':
            r = u + v
            if u.rng == 'neg' and v == ZP.var('b'): r.rng = 'nonneg'
            if v.rng == 'neg' and u == ZP.var('b'): r.rng = 'nonneg'
            return r
        if op == 'sub': return u - v
        if op == 'mul': return u * v
        if op == 'div': s.pair(u, v); return s.q
        if op == 'rem':
            if v == ZP.var('b') and u != s.rs[-2]: return ZP(u.d, 'b', 'any')
            s.pair(u, v); return u - v * s.q
        raise Unsupported(op)
    def pair(s, u, v):
        """division of the current pair of remainders"""
        if len(s.rs) >= 2 and u == s.rs[-2] and v == s.rs[-1]:
            if s.done: raise Unsupported('division after the end')
            s.q = ZP.var('q%d' % len(s.rs)); return
        raise Unsupported('division of %r by %r' % (u, v))

def xgcd(P, lt, k, neg):
    """the remainder sequence has k divisions before it reaches zero"""
    def f():
        fn = P.one(DL + 'xgcd_big')
        D = XDom(P); s = Sess(P, 'fp2', D); A = s.A; I = s.I
        a, b = ZP.var('a'), ZP.var('b')
        seq = [b, a] if lt else [a, b]
        for i in range(k): seq.append(seq[-2] - seq[-1] * ZP.var('q%d' % (i + 2)))
        # seq[-1] is zero, seq[-2] the gcd
        D.rs = seq[:2]; D.done = False; D.at = 0
        def pair(u, v):
            for i in range(k):
                if u == seq[i] and v == seq[i + 1]: D.q = ZP.var('q%d' % (i + 2)); return
            raise Unsupported('division of %r by %r' % (u, v))
        D.pair = pair
        def binop(op, x, y, bits=64, sg=0):
            x, y = zp(x), zp(y)
            d = x - y
            if op in ('Eq', 'Ne'):
                if d.iszero(): r = 1
                else:
                    for i, t in enumerate(seq):
                        if d == t or d == t * -1:
                            r = int(i == k + 1); break
                    else:
                        if d.isconst(): r = 0
                        else: raise Unsupported('test of %r' % d)
                return r if op == 'Eq' else 1 - r
            if op in ('Lt', 'Gt', 'Le', 'Ge'):
                if op in ('Gt', 'Le'): x, y = y, x
                # x < y?
                if (x, y) == (a, b): r = lt
                elif (x, y) == (b, a):
                    if not lt: raise Unsupported('strictness')
                    r = 0
                elif x.rng and y.iszero(): r = int(sign(x) < 0)
                else: raise Unsupported('order of %r and %r' % (x, y))
                if op in ('Gt', 'Lt'): return r
                return 1 - r
            raise Unsupported(op)
        D.binop = binop
        def sign(x):
            if x.rng == 'any': x.rng = 'neg' if neg else 'nonneg'
            if x.rng is None: raise Unsupported('sign of %r' % x)
            return -1 if x.rng == 'neg' else 1
        D.big_sign = lambda x: Agg('s', None, 0 if sign(x) < 0 else 2, ())
        def tobu(x):
            if x.rng == 'any': sign(x)
            if x.rng == 'neg': return Agg('s', None, 0, ())
            return Agg('s', None, 1, (x,))
        D.to_biguint = tobu
        r = s.exec(fn, s.ref(a), s.ref(b))
        r = A.top(r)
        if isinstance(r, Ref): r = A.top(I.load(r))
        r = zp(r); g = seq[k]
        d = a * r - g
        if not all('b' in t for t in d.d):
            # with b = 0 allowed only for k = 0
            return 'a*r - gcd = %r is not a multiple of b' % d
        if r.rng == 'any': return 'the coefficient is not reduced to a non-negative value'
        return panics(s)
    return f

def panics(s):
    ev = [e for e in s.I.events if e.kind == 'panic']
    return 'can panic: %r' % ev[0] if ev else None

def inv_model(s):
    def m(I, fn, a, info):
        x, y = s.val(a[0]), s.val(a[1])
        if type(x) is not int or type(y) is not int: raise Unsupported('Bezout coefficient of %r' % (x,))
        if y == 0: raise Unsupported('modulus zero')
        g = gcd(x, y); return pow(x // g, -1, y // g) if y // g > 1 else 0
    s.I.models[DL + 'xgcd_big'] = m

def facref(s, fac):
    b = s.ref(arr([tup(p, e) for p, e in fac])); return Ref(b.cell, (), (0, len(fac)))

def crt(P, fac):
    def f():
        s = GrpS(P, 0); inv_model(s)
        M = 1
        for p, e in fac: M *= p ** e
        r = s.val(s.exec(P.one(DL + 'compute_crt'), s.ref(vec([sym('r%d' % i, p ** e) for i, (p, e) in enumerate(fac)])), facref(s, fac)))
        r = lin(r)
        if r.top is None or r.top > M: return 'the result is not reduced modulo the product'
        for j, (p, e) in enumerate(fac):
            m = p ** e
            if r.cong % m: return 'the result is known only modulo %d' % r.cong
            c, co = r.red(m)
            if c or co != {'r%d' % j: 1}: return 'modulo %d^%d the result is %r' % (p, e, Lin(c, co))
        return s.panics()
    return f

def cint(P, name, *args):
    s = GrpS(P, 0); return s, s.val(s.exec(P.one(DL + name), *args))

def root(P, vals):
    def f():
        for n in vals:
            try: s, r = cint(P, 'sqrt_floor', n)
            except Diverge: return 'panics for %d' % n
            if r != isqrt(n): return 'root of %d: %r instead of %d' % (n, r, isqrt(n))
            e = s.panics()
            if e: return 'for %d: %s' % (n, e)
    return f

def bsgs(P, n, ds):
    def f():
        for d in ds:
            s = GrpS(P, n, fuel=200000000)
            try: r = s.val(s.exec(P.one(DL + 'bsgs'), s.ref(Pw(d, n)), s.ref(Pw(1, n)), n))
            except Diverge: return 'no logarithm found for exponent %d of order %d' % (d, n)
            if r != d % n: return 'logarithm %d of order %d is returned as %r' % (d, n, r)
            e = s.panics()
            if e: return 'order %d: %s' % (n, e)
    return f

def php(P, l, e):
    def f():
        N = l ** e; s = GrpS(P, N)
        dig = [sym('x%d' % i, l) for i in range(e)]
        x = Lin(0)
        for i in range(e): x = x + dig[i].scale(l ** i)
        def bs(I, fn, a, info):
            h, g, o = s.D.leaf(s.val(a[0])), s.D.leaf(s.val(a[1])), s.val(a[2])
            if not g.e.isconst(): raise Unsupported('base %r' % g)
            ordg = N // gcd(g.e.c, N)
            if o != ordg: raise Bad('the order of the base is %d, not %r' % (ordg, o))
            q = N // o
            if any(v % q for v in h.e.f.values()) or h.e.c % q: raise Bad('element %r outside the subgroup' % h)
            k = pow(g.e.c // q, -1, o) if o > 1 else 0
            c = h.e.c // q * k % o; fx = {y: v // q * k % o for y, v in h.e.f.items() if v // q * k % o}
            if c == 0 and len(fx) == 1 and list(fx.values()) == [1]: return sym(next(iter(fx)), o)
            raise Bad('the digit extracted is %r modulo %d' % (Lin(c, fx), o))
        s.I.models[DL + 'bsgs'] = bs
        try: r = s.val(s.exec(P.one(DL + 'ph_dlp_power'), s.ref(Pw(x, N)), s.ref(Pw(1, N)), l, e))
        except Bad as b: return b.args[0]
        r = lin(r)
        if r.red(N) != x.red(N): return 'the logarithm returned is %r' % r
        return s.panics()
    return f
class Bad(Exception): pass

def ph(P, fac):
    def f():
        N = 1
        for p, e in fac: N *= p ** e
        s = GrpS(P, N)
        def pw(I, fn, a, info):
            h, g, l, e = s.D.leaf(s.val(a[0])), s.D.leaf(s.val(a[1])), s.val(a[2]), s.val(a[3])
            if not g.e.isconst(): raise Unsupported('base %r' % g)
            m = l ** e; o = N // gcd(g.e.c, N)
            if o != m: raise Bad('base of order %d given for %d^%d' % (o, l, e))
            q = N // m; k = pow(g.e.c // q, -1, m)
            c, fx = h.e.red(N)
            if c % q or any(v % q for v in fx.values()): raise Bad('element %r outside the subgroup' % h)
            c = c // q * k % m; fx = {y: v // q * k % m for y, v in fx.items() if v // q * k % m}
            return Lin(c, fx, m, m)
        s.I.models[DL + 'ph_dlp_power'] = pw
        def cr(I, fn, a, info):
            rs = s.val(a[0]); fs = s.val(a[1]); fs = [tuple(s.val(y) for y in x.f) if isinstance(x, Agg) else tuple(x) for x in fs]
            if len(rs) != len(fs): raise Bad('%d residues for %d moduli' % (len(rs), len(fs)))
            for r, (p, e) in zip(rs, fs):
                if lin(r).cong != p ** e: raise Bad('residue modulo %d recombined with %d^%d' % (lin(r).cong, p, e))
                if lin(r).red(p ** e) != (0, {'x': 1}): raise Bad('the residue modulo %d^%d is %r' % (p, e, r))
            M = 1
            for p, e in fs: M *= p ** e
            return Lin(0, {'x': 1}, M, M)
        s.I.models[DL + 'compute_crt'] = cr
        try: r = lin(s.val(s.exec(P.one(DL + 'ph_dlp'), s.ref(Pw(sym('x'), N)), s.ref(Pw(1, N)), facref(s, fac))))
        except Bad as b: return b.args[0]
        if r.cong % N or r.red(N) != (0, {'x': 1}): return 'the logarithm returned is %r' % r
        return s.panics()
    return f

def bid(P, fac, given):
    def f():
        N = 1
        for p, e in fac: N *= p ** e
        s = GrpS(P, N)
        class V:
            """u P + v Q"""
            def __init__(t, u, v): t.u = lin(u); t.v = lin(v)
        def pt(x):
            x = s.val(x)
            if not isinstance(x, V): raise Unsupported('point %r' % (x,))
            return x
        M = s.I.models
        for n in ('<festa_rs::ecFESTA::Point as std::ops::Neg>::neg', '<&festa_rs::ecFESTA::Point as std::ops::Neg>::neg'): M[n] = lambda I, fn, a, info: V(pt(a[0]).u.scale(-1), pt(a[0]).v.scale(-1))
        def pr(x, y):
            if x.isconst(): return y.scale(x.c)
            if y.isconst(): return x.scale(y.c)
            raise Unsupported('pairing of two indeterminate points')
        def weil(I, fn, a, info):
            if s.val(a[0]) != 'E': raise Unsupported('curve')
            if s.val(a[3]) != N: raise Bad('pairing of order %r instead of %d' % (s.val(a[3]), N))
            x, y = pt(a[1]), pt(a[2])
            return Pw(pr(x.u, y.v) - pr(x.v, y.u), N)
        M['festa_rs::pairing::weil_pairing'] = weil
        def dl(I, fn, a, info):
            h, g = s.D.leaf(s.val(a[0])), s.D.leaf(s.val(a[1])); fs = s.val(a[2]); fs = [tuple(s.val(y) for y in x.f) if isinstance(x, Agg) else tuple(x) for x in fs]
            if sorted(fs) != sorted(fac): raise Bad('logarithm for another order')
            if not g.e.isconst() or gcd(g.e.c, N) != 1: raise Bad('the base of the logarithm has not the full order')
            k = pow(g.e.c, -1, N); c, fx = h.e.scale(k).red(N)
            return Lin(c, fx, N, N)
        M[DL + 'ph_dlp'] = dl
        opt = some_(Pw(1, N)) if given else Agg('s', None, 0, ())
        try: r = s.exec(P.one(DL + 'bidlp'), s.ref('E'), s.ref(V(sym('a'), sym('b'))), s.ref(V(1, 0)), s.ref(V(0, 1)), facref(s, fac), opt)
        except Bad as b: return b.args[0]
        x, y = [lin(s.val(t)).red(N) for t in r.f]
        if x != (0, {'a': 1}): return 'the first coefficient is %r' % (Lin(*x),)
        if y != (0, {'b': 1}): return 'the second coefficient is %r' % (Lin(*y),)
        return s.panics()
    return f
def some_(v): return Agg('s', None, 1, (v,))
