"""Sparse polynomials over Z/p (or Z) with packed monomials and quadratic rewrite rules v^2 -> poly, and fractions."""
W = 14                      # bits per exponent
MASK = (1 << W) - 1

class PolyRing:
    def __init__(s, p=None):
        s.p = p; s.names = []; s.idx = {}; s.gauss = None; s.rules = {}   # var -> Poly replacing var^2
        s.zero = Poly(s, {}); s.one = Poly(s, {0: 1})
    def var(s, name):
        i = s.idx.get(name)
        if i is None:
            i = len(s.names); s.names.append(name); s.idx[name] = i
        return Poly(s, {1 << (W * i): 1})
    def const(s, c):
        if s.p: c %= s.p
        return Poly(s, {0: c} if c else {})
    def rule(s, name, poly):
        s.var(name); s.rules[s.idx[name]] = poly
    def exps(s, m):
        i = 0; r = []
        while m:
            e = m & MASK
            if e: r.append((i, e))
            m >>= W; i += 1
        return r

class Poly:
    __slots__ = ('r', 'd', '_h')
    def __init__(s, r, d): s.r = r; s.d = d; s._h = None
    def __hash__(s):
        if s._h is None: s._h = hash(frozenset(s.d.items()))
        return s._h
    def __eq__(s, o): return s is o or (isinstance(o, Poly) and s.d == o.d)
    def __ne__(s, o): return not s == o
    def iszero(s): return not s.d
    def isconst(s): return not s.d or (len(s.d) == 1 and 0 in s.d)
    def constval(s): return s.d.get(0, 0)
    def __add__(s, o):
        if isinstance(o, int): o = s.r.const(o)
        if not s.d: return o
        if not o.d: return s
        a, b = (s.d, o.d) if len(s.d) >= len(o.d) else (o.d, s.d)
        d = dict(a); p = s.r.p
        for m, c in b.items():
            v = d.get(m, 0) + c
            if p: v %= p
            if v: d[m] = v
            else: d.pop(m, None)
        return Poly(s.r, d)
    __radd__ = __add__
    def __neg__(s):
        p = s.r.p
        return Poly(s.r, {m: (p - c if p else -c) for m, c in s.d.items()})
    def __sub__(s, o):
        if isinstance(o, int): o = s.r.const(o)
        return s + (-o)
    def __rsub__(s, o): return s.r.const(o) - s
    def __mul__(s, o):
        if isinstance(o, int): o = s.r.const(o)
        if not s.d or not o.d: return s.r.zero
        p = s.r.p
        if len(o.d) == 1 and 0 in o.d:
            c = o.d[0]
            if c == 1: return s
            return Poly(s.r, {m: (v * c % p if p else v * c) for m, v in s.d.items()})
        if len(s.d) == 1 and 0 in s.d: return o * s
        a, b = (s.d, o.d) if len(s.d) <= len(o.d) else (o.d, s.d)
        d = {}
        bi = list(b.items())
        g = d.get
        for m1, c1 in a.items():
            for m2, c2 in bi:
                m = m1 + m2
                d[m] = g(m, 0) + c1 * c2
        if p: d = {m: v for m, v in ((m, c % p) for m, c in d.items()) if v}
        else: d = {m: c for m, c in d.items() if c}
        r = Poly(s.r, d)
        if s.r.rules: r = r.reduce()
        return r
    __rmul__ = __mul__
    def reduce(s):
        rules = s.r.rules
        d = s.d
        ch = False
        for v in rules:
            sh = W * v; two = 2 << sh
            for m in d:
                if (m >> sh) & MASK >= 2: ch = True; break
            if ch: break
        if not ch: return s
        out = Poly(s.r, {})
        keep = {}
        acc = {}
        for m, c in d.items():
            for v, rep in rules.items():
                sh = W * v
                e = (m >> sh) & MASK
                if e >= 2:
                    base = m - ((e - (e & 1)) << sh)
                    acc.setdefault((v, e >> 1), {}); x = acc[(v, e >> 1)]
                    x[base] = x.get(base, 0) + c
                    break
            else: keep[m] = c
        out = Poly(s.r, keep)
        for (v, k), x in acc.items():
            out = out + Poly(s.r, x) * (rules[v] ** k)
        return out.reduce()
    def __pow__(s, n):
        r = s.r.one; b = s
        while n:
            if n & 1: r = r * b
            n >>= 1
            if n: b = b * b
        return r
    def nterms(s): return len(s.d)
    def lead(s):
        m = max(s.d); return m, s.d[m]
    def monic(s):
        if not s.d or not s.r.p: return s
        m, c = s.lead()
        if c == 1: return s
        return s * pow(c, -1, s.r.p)
    def vars(s):
        r = set()
        for m in s.d:
            for i, e in s.r.exps(m): r.add(i)
        return r
    def divexact(s, o):
        """s / o if exact in the plain polynomial ring (no rules), else None"""
        if not o.d: return None
        p = s.r.p
        if s.r.gauss is not None and any((m >> (W * s.r.gauss)) & MASK for m in o.d): return s.divgauss(o)
        lm, lc = o.lead()
        if p: inv = pow(lc, -1, p)
        lex = s.r.exps(lm)
        rem = dict(s.d); q = {}
        ol = [(m, c) for m, c in o.d.items()]
        n = 0
        while rem:
            m = max(rem); c = rem[m]
            for i, e in lex:
                if (m >> (W * i)) & MASK < e: return None
            if p: k = c * inv % p
            else:
                if c % lc: return None
                k = c // lc
            t = m - lm
            q[t] = k
            for m2, c2 in ol:
                mm = m2 + t
                v = rem.get(mm, 0) - k * c2
                if p: v %= p
                if v: rem[mm] = v
                else: rem.pop(mm, None)
            n += 1
            if n > 20000: return None
        return Poly(s.r, q)
    def divgauss(s, o):
        """exact division with i (i^2 = -1) as a constant"""
        p = s.r.p; sh = W * s.r.gauss; one = 1 << sh
        def split(d):
            r = {}
            for m, c in d.items():
                e = (m >> sh) & MASK
                if e > 1: return None
                a, b = r.get(m - (e << sh), (0, 0))
                r[m - (e << sh)] = (a, c) if e else (c, b)
            return r
        g = split(o.d); rem = split(s.d)
        if g is None or rem is None: return None
        lm = max(g); la, lb = g[lm]
        n = (la*la + lb*lb) % p
        if n == 0: return None
        n = pow(n, -1, p); ia, ib = la * n % p, -lb * n % p
        lex = s.r.exps(lm); q = {}; k = 0
        gl = list(g.items())
        while rem:
            m = max(rem); ca, cb = rem[m]
            for i, e in lex:
                if (m >> (W * i)) & MASK < e: return None
            ka = (ca*ia - cb*ib) % p; kb = (ca*ib + cb*ia) % p
            t = m - lm
            if ka: q[t] = ka
            if kb: q[t + one] = kb
            for m2, (x, y) in gl:
                mm = m2 + t; a, b = rem.get(mm, (0, 0))
                a = (a - ka*x + kb*y) % p; b = (b - ka*y - kb*x) % p
                if a or b: rem[mm] = (a, b)
                else: rem.pop(mm, None)
            k += 1
            if k > 20000: return None
        return Poly(s.r, q)
    def content_monomial(s):
        """gcd of the monomials"""
        it = iter(s.d)
        g = dict(s.r.exps(next(it)))
        for m in it:
            e = dict(s.r.exps(m))
            g = {i: min(k, e[i]) for i, k in g.items() if i in e}
            if not g: break
        return g
    def subs(s, name, val):
        """substitute a polynomial for a variable"""
        i = s.r.idx[name]; sh = W * i
        by = {}
        for m, c in s.d.items():
            e = (m >> sh) & MASK
            by.setdefault(e, {})[m - (e << sh)] = c
        out = s.r.zero
        for e, d in by.items():
            out = out + Poly(s.r, d) * (val ** e)
        return out
    def coeff_of(s, name):
        """dict exponent -> Poly"""
        i = s.r.idx.get(name)
        if i is None: return {0: s}
        sh = W * i; by = {}
        for m, c in s.d.items():
            e = (m >> sh) & MASK
            by.setdefault(e, {})[m - (e << sh)] = c
        return {e: Poly(s.r, d) for e, d in by.items()}
    def __repr__(s):
        if not s.d: return '0'
        t = []
        for m in sorted(s.d, reverse=True)[:12]:
            c = s.d[m]
            if s.r.p and c > s.r.p // 2: c -= s.r.p
            mon = '*'.join(s.r.names[i] + ('^%d' % e if e > 1 else '') for i, e in s.r.exps(m))
            cs = str(c) if abs(c) < 10**6 else 'K'
            t.append(cs if not mon else mon if c == 1 else '-' + mon if c == -1 else cs + '*' + mon)
        return ' + '.join(t) + (' + ...(%d terms)' % len(s.d) if len(s.d) > 12 else '')
