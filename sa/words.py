"""Machine-word domain: a word is an integer polynomial over input words, carries and quotients together with an interval.
Truncation to 64 bits introduces quotient symbols floor(T / 2^k); nested quotients are flattened so that the carry out of a
whole carry chain is the quotient of the multi-word total, which is what bounds it.  No solver: intervals, congruences and
linear elimination only."""
from fractions import Fraction
from math import gcd
from .vals import *
from .ring import Dom

B64 = 1 << 64

# ---- polynomials: dict  monomial (sorted tuple of symbol ids) -> int
def padd(a, b, k=1):
    if not b or k == 0: return a
    if not a and k == 1: return b
    d = dict(a)
    for m, c in b.items():
        v = d.get(m, 0) + k * c
        if v: d[m] = v
        else: d.pop(m, None)
    return d
def pscale(a, k):
    if k == 1: return a
    if k == 0: return {}
    return {m: c * k for m, c in a.items()}
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if not a: return {}
    if len(a) == 1 and () in a: return pscale(b, a[()])
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2 if not m1 or not m2 or m1[-1] <= m2[0] else tuple(sorted(m1 + m2))
            v = d.get(m, 0) + c1 * c2
            if v: d[m] = v
            else: d.pop(m, None)
    return d
def pconst(c): return {(): c} if c else {}
def pkey(a): return frozenset(a.items())
def v2(n): return (n & -n).bit_length() - 1

class W:
    """a machine word: value == poly exactly, lo <= value <= hi"""
    __slots__ = ('p', 'lo', 'hi')
    def __init__(s, p, lo, hi): s.p = p; s.lo = lo; s.hi = hi
    def __eq__(s, o): return isinstance(o, W) and (s.p is o.p or s.p == o.p)
    def __hash__(s): return hash(pkey(s.p))
    def __repr__(s): return 'W[%d terms, %x..%x]' % (len(s.p), s.lo, s.hi)

class Xo:
    """exclusive or of words (only cancellation and zero tests are understood)"""
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    def __eq__(s, o): return isinstance(o, Xo) and s.t == o.t
    def __hash__(s): return hash(s.t)
class Oz:
    """a word that is zero exactly when all of the listed words are; kind: plain, its negation, or both or-ed"""
    __slots__ = ('t', 'kind')
    def __init__(s, t, kind='p'): s.t = t; s.kind = kind
    def __eq__(s, o): return isinstance(o, Oz) and s.t == o.t and s.kind == o.kind
    def __hash__(s): return hash((s.t, s.kind))
class By:
    """byte k of a word"""
    __slots__ = ('w', 'k')
    def __init__(s, w, k): s.w = w; s.k = k
    def __eq__(s, o): return isinstance(o, By) and s.w == o.w and s.k == o.k
    def __hash__(s): return hash((s.w, s.k))

class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'kind', 'T', 'k', 'c', 'num')
    def __init__(s, id, name, lo, hi, kind, T=None, k=0, c=0):
        s.id = id; s.name = name; s.lo = lo; s.hi = hi; s.kind = kind; s.T = T; s.k = k; s.c = c; s.num = None

class WordDom(Dom):
    strict = True      # arithmetic whose overflow is not excluded is not decided
    def __init__(s, P):
        Dom.__init__(s)
        s.P = P; s.syms = []; s.memo = {}; s._rng = {}; s.nums = {}
        s.stat = {'quot': 0, 'exact': 0, 'mod': 0, 'split': 0, 'resolved': 0}
    # ---- symbols
    def newsym(s, name, lo, hi, kind='in', **kw):
        y = Sym(len(s.syms), name, lo, hi, kind, **kw); s.syms.append(y); return y
    def inp(s, name, lo=0, hi=B64 - 1):
        y = s.newsym(name, lo, hi); return W({(y.id,): 1}, lo, hi)
    def number(s, name, n, hi, lo=0, bits=64):
        """n words whose total is a symbol in [lo, hi]"""
        tot = s.newsym(name, lo, hi)
        ws = []; rest = {(tot.id,): 1}; tot.num = (tot.id, 0); s.nums[tot.id] = (n, bits)
        for i in range(1, n):
            h = min((1 << bits) - 1, hi >> (bits * i))
            w = s.inp('%s[%d]' % (name, i), 0, h); ws.append(w); s.syms[-1].num = (tot.id, i)
            rest = padd(rest, w.p, -(1 << (bits * i)))
        return [W(rest, 0, (1 << bits) - 1)] + ws, {(tot.id,): 1}
    def W_(s, x):
        if isinstance(x, W): return x
        if type(x) is int: return W(pconst(x), x, x)
        if isinstance(x, (Oz, Xo)): return s.opaque(x)
        raise Unsupported('word operation on %r' % type(x).__name__)
    def opaque(s, x):
        """a word computed by bit operations that have no polynomial form: only its defining expression is kept"""
        y = s.memo.get(('fun', x))
        if y is None: y = s.memo[('fun', x)] = s.newsym('u', 0, B64 - 1, 'fun', T=x)
        return W({(y.id,): 1}, 0, B64 - 1)
    def word(s, x, val):
        if type(x) is int: return x
        if isinstance(x, W): return s.at(x.p, val)
        if isinstance(x, tuple): return getattr(int, x[0])(s.word(x[1], val), s.word(x[2], val))
        r = 0
        for t in x.t:
            v = s.word(t, val); r = r ^ v if isinstance(x, Xo) else r | v
        if isinstance(x, Oz) and x.kind != 'p':
            m = -r % B64; r = m if x.kind == 'n' else r | m
        return r
    def mk(s, p, lo, hi):
        if not p: return 0
        if len(p) == 1 and () in p: return p[()]
        if lo == hi: return lo
        return W(p, lo, hi)
    def alias(s, w):
        """name a compound word before it is multiplied"""
        if type(w) is int: return s.W_(w)
        if len(w.p) == 1: return w
        p = s.tighten(w.p)
        if p is not w.p:
            w = s.W_(s.mk(p, w.lo, w.hi))
            if len(w.p) <= 1: return w
        l, h = s.deep(p); w.lo = max(w.lo, l); w.hi = min(w.hi, h)
        key = ('alias', pkey(w.p)); y = s.memo.get(key)
        if y is None: y = s.memo[key] = s.newsym('f', w.lo, w.hi, 'alias', T=w.p)
        return W({(y.id,): 1}, w.lo, w.hi)
    def unalias(s, p, pure=False):
        while True:
            e = max((v for m in p for v in m if s.syms[v].kind == 'alias' and not (pure and any(s.syms[u].kind != 'in' for n in s.syms[v].T for u in n))), default=-1)
            if e < 0: return p
            p = s.subst(p, e, s.syms[e].T, 1)[0]
    # ---- intervals
    def mono(s, m):
        lo = hi = 1
        for v in m:
            y = s.syms[v]
            if lo >= 0 and y.lo >= 0: lo *= y.lo; hi *= y.hi
            else:
                c = (lo * y.lo, lo * y.hi, hi * y.lo, hi * y.hi); lo = min(c); hi = max(c)
        return lo, hi
    def interval(s, p):
        lo = hi = 0; N = {}
        for m in p:
            if len(m) == 1 and s.syms[m[0]].num: t, i = s.syms[m[0]].num; N.setdefault(t, {})[i] = p[m]
        l2 = h2 = 0; use = False
        for t, co in N.items():
            n, b = s.nums[t]
            if len(co) == 1: continue
            use = True; T = s.syms[t]; c0 = co.get(0, 0)
            cs = [co.get(i, 0) + (c0 << b * i) for i in range(n)]; cs[0] = c0
            i = n - 1
            while i >= 0:
                # longest run of digits weighted like a number
                k = i
                while k > 0 and cs[k] and cs[k - 1] << b == cs[k]: k -= 1
                if cs[k]:
                    if i == n - 1: a, z = T.lo >> b * k, T.hi >> b * k
                    else: a, z = 0, min((1 << b * (i - k + 1)) - 1, T.hi >> b * k)
                    if cs[k] > 0: l2 += cs[k] * a; h2 += cs[k] * z
                    else: l2 += cs[k] * z; h2 += cs[k] * a
                i = k - 1
        if use:
            q = {m: c for m, c in p.items() if not (len(m) == 1 and s.syms[m[0]].num and len(N[s.syms[m[0]].num[0]]) > 1)}
            a, b = s.interval(q); l2 += a; h2 += b
        for m, c in p.items():
            a, b = s.mono(m) if m else (1, 1)
            if c > 0: lo += c * a; hi += c * b
            else: lo += c * b; hi += c * a
        return (max(lo, l2), min(hi, h2)) if use else (lo, hi)
    def expand(s, p):
        """eliminate exact quotients: p == p' / 2^k"""
        k = 0
        while True:
            e = -1
            for m in p:
                for v in m:
                    if v > e and s.syms[v].kind == 'exact': e = v
            if e < 0: return p, k
            y = s.syms[e]
            co = {}; rest = {}
            for m, c in p.items():
                n = m.count(e)
                if n == 0: rest[m] = c
                elif n == 1:
                    l = list(m); l.remove(e); co[tuple(l)] = c
                else: raise Unsupported('power of an exact quotient')
            g = min(v2(c) for c in co.values()); g = min(g, y.k)
            sh = y.k - g
            co = {m: c >> g for m, c in co.items()}
            p = padd(pscale(rest, 1 << sh), pmul(co, padd(y.T, pconst(-y.c))))
            k += sh
    def fold(s, p):
        """use the name of a short compound where it occurs"""
        if len(p) > 8: return p
        for y in s.syms:
            if y.kind == 'alias' and 1 < len(y.T) <= 4 and all(m in p for m in y.T):
                m0 = next(iter(y.T)); c = p[m0] // y.T[m0]
                if c and all(p[m] == c * k for m, k in y.T.items()): p = padd(padd(p, y.T, -c), {(y.id,): 1}, c)
        return p
    def flat(s, p, k):
        """sequence of (Pre, k) with floor(p/2^k) == floor(Pre/2^k'), greedily flattening quotients of coefficient one"""
        while True:
            cand = [m[0] for m, c in p.items() if c == 1 and len(m) == 1 and s.syms[m[0]].kind == 'quot']
            if not cand: return
            best = None
            for v in cand[:6]:
                y = s.syms[v]
                q = dict(p); del q[(v,)]
                q = s.fold(padd(pscale(q, 1 << y.k), y.T))
                n = (len({x for m in q for x in m if s.syms[x].kind == 'quot'}), len(q) if len(q) < 8 else 8)
                if best is None or n < best[0]: best = (n, q, k + y.k)
            p, k = best[1], best[2]
            yield p, k
    def best(s, p):
        """the flattening of floor-valued p with the fewest quotients left: (poly, x, k) with p == floor(poly / 2^(x+k)), or None"""
        key = ('best', pkey(p))
        if key in s.memo: return s.memo[key]
        r = None; n = None
        for q, k in s.flat(p, 0):
            e, x = s.expand(q)
            c = len({v for m in e for v in m if s.syms[v].kind == 'quot'})
            if n is None or c < n: n = c; r = (e, x, k)
            if c == 0: break
        s.memo[key] = r
        return r
    def deep(s, p, facts=()):
        """the tightest interval found for an integer-valued polynomial"""
        key = (pkey(p), tuple(f[3] for f in facts))
        if key in s._rng: return s._rng[key]
        lo, hi = s.interval(p)
        def cut(l, h):
            nonlocal lo, hi
            lo = max(lo, l); hi = min(hi, h)
        def look(q, k):
            e, x = s.expand(q)
            a, b = s.interval(e)
            cut(a >> (k + x), b >> (k + x))
            if facts:
                l, h = s.real(e, 1 << (k + x), facts, 1, True); cut(l.__floor__(), h.__floor__())
        look(p, 0)
        for q, k in s.flat(p, 0): look(q, k)
        s._rng[key] = (lo, hi)
        return lo, hi
    def real(s, e, den, facts=(), depth=1, raw=False, goal=None, cut=False):
        """range of a value known to equal e/den, eliminating monomials with the facts (poly/2^x in [lo,hi]); integers unless raw"""
        best = [None, None]; ids = tuple(f[3] for f in facts)
        def put(l, h):
            best[0] = l if best[0] is None else max(best[0], l); best[1] = h if best[1] is None else min(best[1], h)
        def done(): return goal is not None and best[0] is not None and best[0].__ceil__() >= goal[0] and best[1].__floor__() <= goal[1]
        def go(e, den, lo, hi, d, used):
            a, b = s.interval(e); put(lo + Fraction(a, den), hi + Fraction(b, den))
            if d == 0 or done(): return
            if cut and len(e) <= 6:
                ms = [m for m in e if m]
                for u in ms:
                    for v in ms:
                        if u == v or abs(e[v]) <= abs(e[u]) or abs(e[u]) < B64: continue
                        q = abs(e[v]) // abs(e[u]) * (1 if (e[v] > 0) == (e[u] > 0) else -1)
                        key = ('cut', u, v, q, ids)
                        if key not in s.memo: s.memo[key] = s.real({u: 1, v: q}, 1, facts, 2)
                        l, h = s.memo[key]; c = Fraction(e[u], den)
                        r = padd(e, {u: 1, v: q}, -e[u]); a, b = s.interval(r)
                        x, y = (c * l, c * h) if c > 0 else (c * h, c * l)
                        put(lo + Fraction(a, den) + x, hi + Fraction(b, den) + y)
                        if done(): return
            def weight(m):
                a, b = s.mono(m); return abs(e[m]) * (b - a)
            top = sorted((m for m in e if m), key=weight, reverse=True)[:3]
            for i, (fp, fx, fr, id) in enumerate(facts):
                if i in used: continue
                tried = set()
                for m in top:
                    if m in fp:
                        c = Fraction(e[m] << fx, fp[m] * den)     # e/den - c*fp/2^fx has no m
                        if c in tried: continue
                        tried.add(c)
                        r = padd(pscale(e, c.denominator << fx), fp, -c.numerator * den); D = den * c.denominator << fx
                        l, h = (c * fr[0], c * fr[1]) if c > 0 else (c * fr[1], c * fr[0])
                        go(r, D, lo + l, hi + h, d - 1, used | {i})
                        if done(): return
        for d in range(1, depth + 1):
            go(e, den, Fraction(0), Fraction(0), d, frozenset())
            if done() or not facts: break
        if not facts: go(e, den, Fraction(0), Fraction(0), 0, frozenset())
        return tuple(best) if raw else (best[0].__ceil__(), best[1].__floor__())
    def near(s, p, lo, hi, goal):
        """range of a short polynomial using the definitions of the symbols in it"""
        if len(p) > 6: return lo, hi
        key = ('near', pkey(p)); r = s.memo.get(key)
        if r is None:
            F = []; seen = set(); todo = [(v, 0) for m in p for v in m]
            for y in s.syms:
                if y.kind == 'alias' and 1 < len(y.T) <= 4 and all(m in p for m in y.T): todo.append((y.id, 0))
            while todo:
                v, d = todo.pop(0)
                if v in seen: continue
                seen.add(v); y = s.syms[v]
                if y.kind not in ('alias', 'quot') or len(y.T) > 6: continue
                k = y.k if y.kind == 'quot' else 0
                F.append((padd(y.T, {(v,): 1}, -(1 << k)), 0, (0, (1 << k) - 1), ('def', v)))
                if d < 1: todo += [(w, d + 1) for m in y.T for w in m]
            r = s.memo[key] = s.real(p, 1, F, 3, goal=goal) if F else (lo, hi)
        return max(lo, r[0]), min(hi, r[1])
    def deffacts(s, e, have=()):
        """defining relations of the compound symbols of e"""
        out = []; seen = set(have); todo = [v for m in e for v in m]
        while todo and len(out) < 12:
            v = todo.pop()
            if v in seen: continue
            seen.add(v); y = s.syms[v]
            if y.kind == 'alias': b = s.best(y.T) or (y.T, 0, 0)
            elif y.kind == 'quot': b = s.best({(v,): 1})
            else: continue
            if b is None: continue
            q, x, k = b
            f = padd(q, {(v,): 1}, -(1 << (x + k)))
            out.append((f, x, (0, (1 << k) - 1), ('def', v)))
            if len(f) < 60: todo += [w for m in q for w in m]
        return out
    def ratio(s, lo, hi, mod):
        def r(v): return '%.4f' % (v * 10000 // mod / 10000) if abs(v) < mod << 100 else '2^%d' % (abs(v).bit_length() - mod.bit_length())
        return '%s..%s' % (r(lo), r(hi))
    def tighten(s, p):
        """shrink the ranges of the quotient symbols of p; substitute those that become constant"""
        ch = False
        for m in list(p):
            if len(m) == 1 and s.syms[m[0]].kind == 'quot':
                y = s.syms[m[0]]
                if y.lo == y.hi: ch = True; continue
                if (m[0], 't') in s.memo: continue
                s.memo[(m[0], 't')] = 1
                lo, hi = s.interval(s.expand(y.T)[0]) if False else (y.lo, y.hi)
                l, h = s.deep({m: 1})
                for q, k in s.flat({m: 1}, 0):
                    pass
                y.lo = max(y.lo, l); y.hi = min(y.hi, h)
                if y.lo == y.hi: ch = True; s.stat['resolved'] += 1
        for m in list(p):
            if len(m) == 1 and s.syms[m[0]].kind == 'quot':
                y = s.syms[m[0]]
                if y.lo == -1 and y.hi == 0 and (m[0], 'id') not in s.memo:
                    l, h = s.deep(y.T)
                    s.memo[(m[0], 'id')] = l >= -1 and h <= 0
                if s.memo.get((m[0], 'id')): p = padd({n: c for n, c in p.items() if n != m}, y.T, p[m])
        if ch:
            d = {}
            for m, c in p.items():
                if len(m) == 1 and s.syms[m[0]].kind == 'quot' and s.syms[m[0]].lo == s.syms[m[0]].hi:
                    c *= s.syms[m[0]].lo; m = ()
                v = d.get(m, 0) + c
                if v: d[m] = v
                else: d.pop(m, None)
            p = d
        return p
    # ---- quotients
    def quot(s, T, k, lo=None, hi=None):
        """polynomial equal to floor(T / 2^k)"""
        if lo is not None and -(1 << k) <= lo and hi < (1 << k):
            # only the sign matters: use the word-aligned width that holds the value
            w = (max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0) + 63) & ~63
            if 0 < w < k: k = w
        M = 1 << k
        U = {}; T0 = {}
        for m, c in T.items():
            if c % M == 0: U[m] = c >> k
            elif not m:
                r = c % M if abs(c) >= M else c
                if c - r: U[m] = (c - r) >> k
                T0[m] = r
            else: T0[m] = c
        if not T0: return U
        g = min(v2(c) for c in T0.values())
        if g: T0 = {m: c >> g for m, c in T0.items()}; k -= g
        if len(T0) == 1 and () in T0: return padd(U, pconst(T0[()] >> k))
        l, h = s.interval(T0)
        if not U and lo is not None:
            l = max(l, lo >> g); h = min(h, hi >> g)
        if l >> k == h >> k: return padd(U, pconst(l >> k))
        kk = 's' if -(1 << k) <= l and h < (1 << k) else k
        key = (pkey(T0), kk)
        y = s.memo.get(key)
        if y is None:
            y = s.memo[key] = s.newsym('q', l >> k, h >> k, 'quot', T=T0, k=k); s.stat['quot'] += 1
        else:
            y.lo = max(y.lo, l >> k); y.hi = min(y.hi, h >> k)
        return padd(U, {(y.id,): 1})
    def lowzero(s, T, bits):
        """constant c with T == c mod 2^bits, using the congruences of the wrapping products; None if not found"""
        M = 1 << bits
        if not any(s.syms[v].kind in ('mod', 'alias') for m in T for v in m): return None
        T = {m: c % M for m, c in T.items() if c % M}
        while True:
            e = -1
            for m in T:
                for v in m:
                    if v > e and s.syms[v].kind in ('mod', 'alias'): e = v
            if e < 0: break
            y = s.syms[e]; out = {}
            for m, c in T.items():
                if e in m:
                    if m.count(e) > 1: return None
                    l = list(m); l.remove(e)
                    for m2, c2 in y.T.items():
                        mm = tuple(sorted(tuple(l) + m2)); v = (out.get(mm, 0) + c * c2) % M
                        if v: out[mm] = v
                        else: out.pop(mm, None)
                else:
                    v = (out.get(m, 0) + c) % M
                    if v: out[m] = v
                    else: out.pop(m, None)
            T = out
        if not T: return 0
        if len(T) == 1 and () in T: return T[()]
        return None
    def divmod2(s, T, bits, lo, hi):
        """(low word, quotient polynomial, its range) of T"""
        if 0 <= lo and hi < (1 << bits): return s.mk(T, lo, hi), {}, (0, 0)
        key = ('dm', pkey(T), bits)
        r = s.memo.get(key)
        if r is None:
            c = s.lowzero(T, bits)
            if c is not None:
                y = s.newsym('h', (lo - c) >> bits, (hi - c) >> bits, 'exact', T=T, k=bits, c=c); s.stat['exact'] += 1
                r = (c, {(y.id,): 1})
            else:
                q = s.quot(T, bits, lo, hi)
                p = padd(T, q, -(1 << bits))
                r = (s.mk(p, 0, (1 << bits) - 1), q)
            s.memo[key] = r
        return r[0], r[1], (lo >> bits, hi >> bits)
    def norm(s, T, lo, hi, bits, signed):
        """value of T reduced into the type"""
        if signed:
            if -(1 << bits - 1) <= lo and hi < (1 << bits - 1): return s.mk(T, lo, hi)
        elif 0 <= lo and hi < (1 << bits): return s.mk(T, lo, hi)
        if hi - lo < 1 << bits + 32:
            T = s.tighten(T)
            l, h = s.deep(T); lo = max(lo, l); hi = min(hi, h)
            fit = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
            if lo < fit[0] or hi > fit[1]: lo, hi = s.near(T, lo, hi, fit)
        wrapc = lambda v: wrap_(v, bits, signed)
        off = (1 << bits - 1) if signed else 0
        if (lo + off) >> bits == (hi + off) >> bits:
            return s.mk(padd(T, pconst(-(((lo + off) >> bits) << bits))), wrapc(lo), wrapc(hi))
        if hi - lo == 1: return s.split(T, lo, wrapc)
        vs = [m for m in T if m]
        if hi - lo <= 3 and all(len(m) == 1 and s.syms[m[0]].hi - s.syms[m[0]].lo == 1 for m in vs):
            r = pconst(T.get((), 0)); r = T.get((), 0)
            for m in vs:
                y = s.syms[m[0]]
                r = s.A.app2(lambda a, b: a + b, r, s.split({m: 1}, y.lo, lambda v, c=T[m]: v * c))
            return s.A.app1(wrapc, r)
        r = s.two(T, wrapc)
        if r is not None: return r
        if signed: raise Unsupported('signed wrap')
        w, q, _ = s.divmod2(T, bits, lo, hi)
        return w
    def two(s, T, f):
        """decision on a value with two possibilities far apart"""
        co = [c for m, c in T.items() if m]
        g = 0
        for c in co: g = gcd(g, c)
        if g < 1 << 20:
            # a word T - 2^64*floor(T/2^64) whose carry chain is a sign
            return None
        U = {m: c // g for m, c in T.items() if m}; c0 = T.get((), 0)
        l, h = s.deep(U)
        if h - l == 1: return s.split(U, l, lambda v: f(c0 + g * v))
        return None
    def split(s, T, lo, f):
        """T in {lo, lo+1}: decision on which"""
        s.stat['split'] += 1
        vs = [m for m in T if m]
        if len(vs) == 1 and len(vs[0]) == 1 and T[vs[0]] in (1, -1) and s.syms[vs[0][0]].kind == 'quot':
            y = s.syms[vs[0][0]]
            if y.hi - y.lo == 1:
                a = s.A.get(('sym', y.id, y.lo, y.hi))
                up, dn = (f(lo + 1), f(lo)) if T[vs[0]] == 1 else (f(lo), f(lo + 1))
                return s.A.mk(a, up, dn)
        a = s.A.get(('poly', pkey(T), lo))
        return s.A.mk(a, f(lo + 1), f(lo))
    # ---- operations
    def binop(s, op, x, y, bits, signed):
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            op = op[:3]
            if type(y) is not int: raise Unsupported('symbolic shift')
            y %= bits
            if isinstance(x, Oz):
                if op == 'Shr' and x.kind == 'b' and y == bits - 1:
                    a = s.A.get(('allzero', x.t))
                    if signed: return s.A.mk(a, 0, -1)
                    return s.A.mk(a, 0, 1)
            if op == 'Shr' and not signed and y == bits - 1 and bits >= 32:
                # the top bit is the sign of the signed reading
                try: r = s.A.app1(lambda v: s.binop('Shr', v, y, bits, True), s.norm(s.W_(x).p, s.W_(x).lo, s.W_(x).hi, bits, True))
                except Unsupported: r = None
                if r is not None:
                    def neg(v):
                        if type(v) is int: return -v
                        return s.mk(pscale(v.p, -1), -v.hi, -v.lo)
                    return s.A.app1(neg, r)
            x = s.W_(x)
            if op == 'Shl': return s.norm(pscale(x.p, 1 << y), x.lo << y, x.hi << y, bits, signed)
            T = s.tighten(x.p) if x.hi - x.lo < 1 << y + 32 else x.p
            q = s.divmod2(T, y, x.lo, x.hi)[1]
            return s.mk(q, x.lo >> y, x.hi >> y)
        if op in ('BitXor', 'BitOr', 'BitAnd'): return s.bits(op, x, y, bits, signed)
        if isinstance(x, Oz) or isinstance(y, Oz):
            if op in ('Eq', 'Ne') and type(y) is int and y == 0 and x.kind == 'p':
                a = s.A.get(('allzero', x.t)); return s.A.mk(a, int(op == 'Eq'), int(op == 'Ne'))
            if op == 'Sub' and type(x) is int and x == 0 and y.kind == 'p': return Oz(y.t, 'n')
            raise Unsupported('arithmetic on a zero test')
        if isinstance(x, Xo) or isinstance(y, Xo):
            if op == 'Sub' and type(x) is int and x == 0: return Oz(frozenset([y]), 'n')
        x = s.W_(x); y = s.W_(y)
        if op in ('Add', 'AddUnchecked'): return s.norm(padd(x.p, y.p), x.lo + y.lo, x.hi + y.hi, bits, signed)
        if op in ('Sub', 'SubUnchecked'):
            if not signed and not x.p and len(y.p) > 1 and y.lo == 0 and y.hi >= (1 << bits) - 1:
                return Oz(frozenset([y]), 'n')
            return s.norm(padd(x.p, y.p, -1), x.lo - y.hi, x.hi - y.lo, bits, signed)
        if op in ('Mul', 'MulUnchecked'):
            if bits > 32 and x.hi * y.hi >= B64: x = s.alias(x); y = s.alias(y)
            c = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi); lo, hi = min(c), max(c)
            T = pmul(x.p, y.p)
            if not signed and not (0 <= lo and hi < (1 << bits)):
                M = 1 << bits
                T = {m: k % M for m, k in T.items() if k % M}
                # drop quotients that vanish modulo 2^bits already; keep the congruence
                key = ('mod', pkey(T), bits); z = s.memo.get(key)
                if z is None:
                    z = s.memo[key] = s.newsym('g', 0, M - 1, 'mod', T=T, k=bits); s.stat['mod'] += 1
                return W({(z.id,): 1}, 0, M - 1)
            return s.norm(T, lo, hi, bits, signed)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            d = padd(x.p, y.p, -1)
            lo, hi = x.lo - y.hi, x.hi - y.lo
            d = s.tighten(d); l, h = s.deep(d); lo = max(lo, l); hi = min(hi, h)
            if op in ('Eq', 'Ne'):
                if lo > 0 or hi < 0: return int(op == 'Ne')
                if lo == hi == 0: return int(op == 'Eq')
                if lo >= 0 or hi <= 0:
                    if hi - lo == 1:
                        return s.split(d, lo, lambda v: int((v == 0) == (op == 'Eq')))
                    return s.A.app1(lambda b: int(b == (op == 'Eq')), s.A.app1(lambda t: int(t == 0), s.sgn(d if lo >= 0 else pscale(d, -1), 1)))
                raise Unsupported('equality of words')
            if op == 'Lt': f = lambda v: int(v < 0); t = s.sgn(d, 0, lo, hi)
            elif op == 'Ge': t = s.A.app1(lambda b: 1 - b, s.sgn(d, 0, lo, hi))
            elif op == 'Gt': t = s.sgn(pscale(d, -1), 0, -hi, -lo)
            else: t = s.A.app1(lambda b: 1 - b, s.sgn(pscale(d, -1), 0, -hi, -lo))
            return t
        raise Unsupported('word op ' + op)
    def sgn(s, d, off, lo=None, hi=None):
        """1 iff d - off < 0"""
        d = padd(d, pconst(-off))
        if lo is None: lo, hi = s.deep(d)
        else: lo -= off; hi -= off
        if lo >= 0: return 0
        if hi < 0: return 1
        k = max(abs(lo), abs(hi)).bit_length() + 1
        q = s.quot(d, k, lo, hi)
        return s.split(q, -1, lambda v: int(v < 0))
    def bits(s, op, x, y, bits, signed):
        ones = (1 << bits) - 1 if not signed else -1
        if type(x) is int: x, y = y, x
        if op == 'BitAnd':
            if type(y) is int:
                if y == 0: return 0
                if y == ones: return x
                x = s.W_(x)
                if y > 0 and y & (y + 1) == 0:
                    k = y.bit_length()
                    q = s.quot(x.p, k, x.lo, x.hi); p = padd(x.p, q, -(1 << k))
                    return s.mk(p, max(0, s.interval(p)[0]), min(y, s.interval(p)[1]))
                if not signed and y > 0 and (ones - y) & (ones - y + 1) == 0:
                    k = (ones - y).bit_length()
                    q = s.quot(x.p, k, x.lo, x.hi)
                    return s.mk(pscale(q, 1 << k), (x.lo >> k) << k, (x.hi >> k) << k)
            elif x == y: return x
            elif isinstance(x, W) and isinstance(y, W):
                if x.lo >= 0 and y.lo >= 0 and x.hi <= 1 and y.hi <= 1:
                    f = lambda b: s.split(b.p, 0, lambda v: v)
                    return s.A.app2(lambda a, b: a & b, f(x), f(y))
            if not signed: return s.opaque(('__and__', s.W_(x), s.W_(y)))
            raise Unsupported('bitwise and')
        if op == 'BitXor':
            if type(y) is int:
                if y == 0: return x
                if y == ones and isinstance(x, W): return s.mk(padd(pconst(ones), x.p, -1), ones - x.hi, ones - x.lo)
                if not signed and isinstance(x, W): return s.opaque(('__xor__', x, s.W_(y)))
                raise Unsupported('xor with a constant')
            if x == y: return 0
            t = (x.t if isinstance(x, Xo) else frozenset([x])) ^ (y.t if isinstance(y, Xo) else frozenset([y]))
            if not t: return 0
            if len(t) == 1: return next(iter(t))
            return Xo(t)
        # BitOr
        if type(y) is int:
            if y == 0: return x
            if y == ones: return y
        if isinstance(x, W) and (isinstance(y, W) or type(y) is int):
            y_ = s.W_(y)
            for u, v in ((x, y_), (y_, x)):
                if v.lo >= 0 and u.lo >= 0:
                    k = v.hi.bit_length()
                    if all(c % (1 << k) == 0 for c in u.p.values()):
                        return s.mk(padd(u.p, v.p), u.lo + v.lo, u.hi + v.hi)
                    if (1 << k) > u.hi: pass
        if x == y: return x
        if isinstance(x, Oz) or isinstance(y, Oz) or type(x) is not int:
            def zs(v):
                if isinstance(v, Oz): return v.t, v.kind
                return frozenset([v]), 'p'
            (a, ka), (b, kb) = zs(x), zs(y)
            if ka == kb == 'p': return Oz(a | b, 'p')
            if {ka, kb} == {'p', 'n'} and a == b: return Oz(a, 'b')
        raise Unsupported('bitwise or')
    def unop(s, op, x, bits, signed):
        if isinstance(x, W):
            if op == 'Not': return s.mk(padd(pconst((1 << bits) - 1 if not signed else -1), x.p, -1), ((1 << bits) - 1 if not signed else -1) - x.hi, ((1 << bits) - 1 if not signed else -1) - x.lo)
            if op == 'Neg': return s.norm(pscale(x.p, -1), -x.hi, -x.lo, bits, signed)
        raise Unsupported('word unop')
    def checked(s, op, x, y, bits, sg):
        if op in ('Shl', 'Shr'):
            if type(y) is not int: raise Unsupported('symbolic shift')
            return tup(s.binop(op, x, y, bits, sg), int(not 0 <= y < bits))
        x = s.W_(x); y = s.W_(y)
        if op == 'Add': T = padd(x.p, y.p); lo, hi = x.lo + y.lo, x.hi + y.hi
        elif op == 'Sub': T = padd(x.p, y.p, -1); lo, hi = x.lo - y.hi, x.hi - y.lo
        else:
            if bits > 32 and x.hi * y.hi >= B64: x = s.alias(x); y = s.alias(y)
            T = pmul(x.p, y.p); c = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi); lo, hi = min(c), max(c)
        a, b = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
        if lo < a or hi > b:
            T = s.tighten(T); l, h = s.deep(T); lo = max(lo, l); hi = min(hi, h)
        if lo < a or hi > b:
            if sg: raise Unsupported('possible arithmetic overflow')
            w, q, r = s.divmod2(T, bits, lo, hi)
            l, h = s.deep(q); r = max(r[0], l), min(r[1], h)
            if r[0] == r[1]: return tup(w, int(r[0] != 0))
            if r[1] - r[0] != 1: raise Unsupported('possible arithmetic overflow')
            return s.A.app1(lambda v: tup(w, v), s.split(q, r[0], lambda v: int(v != 0)))
        return tup(s.mk(T, lo, hi), 0)
    def cast(s, x, ob, osg, bits, sg):
        if isinstance(x, (Oz, Xo)):
            if ob == bits: return x
            raise Unsupported('narrowing of a zero test')
        if isinstance(x, By): return x
        x = s.W_(x)
        return s.norm(x.p, x.lo, x.hi, bits, sg)
    def intfn(s, *a): raise Unsupported('integer function')
    def byte(s, x, k):
        if isinstance(x, W):
            if 8 * k > 0 and x.hi >> (8 * k) == 0: return 0
            return By(x, k)
        raise Unsupported('byte')
    def from_bytes(s, bs):
        p = {}; lo = hi = 0
        for k, b in enumerate(bs):
            b = s.W_(b); p = padd(p, b.p, 1 << (8 * k)); lo += b.lo << (8 * k); hi += b.hi << (8 * k)
        return s.mk(p, lo, hi)
    def boolean(s, c): return c
    # ---- processor intrinsics
    def bit_(s, c):
        """a carry, which must be 0 or 1"""
        c = s.W_(c)
        if c.lo < 0 or c.hi > 1:
            l, h = s.deep(c.p)
            if l < 0 or h > 1: raise Unsupported('carry outside 0 and 1')
            c = s.W_(s.mk(c.p, max(c.lo, 0), min(c.hi, 1)))
        return c
    def addc(s, c, x, y):
        def f(a, b):
            c_, x_ = a; x_ = s.W_(x_); y_ = s.W_(b); c_ = s.bit_(c_)
            T = padd(padd(x_.p, y_.p), c_.p)
            w, q, r = s.divmod2(T, 64, x_.lo + y_.lo + c_.lo, x_.hi + y_.hi + c_.hi)
            return tup(w, s.mk(q, max(r[0], 0), min(r[1], 1)))
        return s.A.app2(f, s.A.app2(lambda a, b: (a, b), c, x), y)
    def subb(s, c, x, y):
        def f(a, b):
            c_, x_ = a; x_ = s.W_(x_); y_ = s.W_(b); c_ = s.bit_(c_)
            T = padd(padd(x_.p, y_.p, -1), c_.p, -1)
            w, q, r = s.divmod2(T, 64, x_.lo - y_.hi - c_.hi, x_.hi - y_.lo - c_.lo)
            return tup(w, s.mk(pscale(q, -1), max(-r[1], 0), min(-r[0], 1)))
        return s.A.app2(f, s.A.app2(lambda a, b: (a, b), c, x), y)
    def mulx(s, x, y):
        def f(a, b):
            a = s.alias(a); b = s.alias(b)
            w, q, r = s.divmod2(pmul(a.p, b.p), 64, a.lo * b.lo, a.hi * b.hi)
            return tup(w, s.mk(q, *r))
        return s.A.app2(f, x, y)
    # ---- conclusions
    def cubes(s, ws, cube=()):
        ws = [s.A.top(w) for w in ws]
        it = [w.a for w in ws if isinstance(w, Ite)]
        if not it: yield cube, ws; return
        a = min(it)
        for bit in (1, 0):
            yield from s.cubes([(w.t if bit else w.e) if isinstance(w, Ite) and w.a == a else w for w in ws], cube + ((a, bit),))
    def facts(s, cube):
        """-> (list of facts (poly, k, (lo,hi), id), list of equalities poly == 0, dict of other atoms) or None when contradictory"""
        F = []; E = []; O = {}
        for a, b in cube:
            d = s.A.desc[a]
            if d[0] == 'sym':
                y = s.syms[d[1]]; v = d[3] if b else d[2]
                E.append((padd({(y.id,): 1}, pconst(-v)), y.id))
                e, x, k = s.best({(y.id,): 1})
                # 2^k v <= q <= 2^k (v+1) - 1 ; q = e/2^x
                F.append((e, x, (v << k, ((v + 1) << k) - 1), (a, b)))
                e2, x2 = s.expand(y.T)
                if e2 != e: F.append((e2, x2, (v << y.k, ((v + 1) << y.k) - 1), (a, b, 'r')))
            elif d[0] == 'poly':
                p = dict(d[1]); v = d[2] + b; E.append((padd(p, pconst(-v)), None))
                b_ = s.best(p)
                if b_:
                    e, x, k = b_
                    F.append((e, x, (v << k, ((v + 1) << k) - 1), (a, b)))
            else: O[d] = b
        for f in F:
            lo, hi = s.interval(f[0])
            if Fraction(hi, 1 << f[1]) < f[2][0] or Fraction(lo, 1 << f[1]) > f[2][1]: return None
        return F, E, O
    def contradict(s, FD):
        """some fact of the case cannot hold"""
        for f in FD:
            if f[3][0] in ('def', 'name'): continue
            lo, hi = s.real(f[0], 1 << f[1], [g for g in FD if g is not f], 4, goal=(f[2][0], f[2][1]), cut=True)
            if hi < f[2][0] or lo > f[2][1]: return True
        return False
    def subst(s, p, v, rhs, c):
        """eliminate symbol v using c*v == rhs; returns (poly, factor) with poly == factor * p"""
        by = {}
        for m, k in p.items():
            n = m.count(v)
            if n: m = tuple(x for x in m if x != v)
            by.setdefault(n, {})[m] = k
        d = max(by, default=0)
        if d == 0: return p, 1
        out = pscale(by.get(0, {}), c ** d); pw = pconst(1)
        for n in range(1, d + 1):
            pw = pmul(pw, rhs)
            if n in by: out = padd(out, pmul(by[n], pw), c ** (d - n))
        return out, c ** d
    def total(s, ws, bits=64):
        T = {}
        for i, w in enumerate(ws): T = padd(T, s.W_(w).p, 1 << (bits * i))
        return T
    def reduce(s, p, E):
        """apply the equalities; (poly, factor) with poly == factor*p"""
        f = 1; E = sorted(E, key=lambda e: e[1] is not None)
        for q, v in E:
            if v is None:
                vs = [(m[0], c) for m, c in q.items() if len(m) == 1 and s.syms[m[0]].kind == 'quot']
                if not vs: continue
                v, c = max(vs)
            else: c = 1
            rhs = pscale({m: k for m, k in q.items() if m != (v,)}, -1)
            if c < 0: c = -c; rhs = pscale(rhs, -1)
            p, k = s.subst(p, v, rhs, c); f *= k
        return p, f
    def simplify(s, p, F):
        """replace quotients whose value the facts determine"""
        while True:
            hit = False
            for m in list(p):
                if len(m) == 1 and s.syms[m[0]].kind == 'quot':
                    lo, hi = s.deep({m: 1}, F)
                    y = s.syms[m[0]]; lo = max(lo, y.lo); hi = min(hi, y.hi)
                    if lo == hi:
                        p = padd({k: c for k, c in p.items() if k != m}, pconst(p[m] * lo)); hit = True
            if not hit: return p
    def residue(s, ws, want, num, mod):
        """None if total(ws)*num == want (mod mod) in every case and 0 <= total < mod; else message; want, num: poly and int, or functions of the case"""
        bad = []
        for cube, leaf in s.cubes(ws):
            r = s.facts(cube)
            if r is None: continue
            F, E, O = r
            G = []
            for fp, fx, fr, id in F:
                g, f = s.reduce(fp, E)
                g, x = s.expand(g)
                if g != fp: G.append((g, fx + x, (fr[0] * f, fr[1] * f), id + ('e',)))
            F = F + G
            if any(Fraction(s.interval(f[0])[1], 1 << f[1]) < f[2][0] or Fraction(s.interval(f[0])[0], 1 << f[1]) > f[2][1] for f in G): continue
            V = s.total(leaf)
            V = s.simplify(V, F)
            V2, f = s.reduce(V, E)
            e, x = s.expand(V2)
            w = want(O) if callable(want) else want
            d = padd(pscale(e, num), w, -(f << x))
            d, f2 = s.reduce(d, E)
            while True:
                n = s.expand(s.unalias(d))
                n, d = n[0], d
                if n == d: break
                d = n
            d = s.modred(d, mod)
            s.last = d
            if d:
                if s.contradict(F + s.deffacts(e)): continue
                bad.append('not congruent to the prescribed value%s (%d terms differ)' % (s.showcube(cube), len(d))); continue
            lo, hi = s.deep(V, F)
            for g in (e, s.unalias(e, True)):
                l2, h2 = s.real(g, f << x, F); lo = max(lo, l2); hi = min(hi, h2)
            if (lo < 0 or hi >= mod) and len(e) < 200:
                FD = F + s.deffacts(e)
                if s.contradict(FD): continue
                for g in (e, s.unalias(e, True)):
                    l2, h2 = s.real(g, f << x, FD, 4, goal=(0, mod - 1), cut=True); lo = max(lo, l2); hi = min(hi, h2)
            if lo < 0 or hi >= mod:
                bad.append('range of the result not settled: %s p%s' % (s.ratio(lo, hi, mod), s.showcube(cube)))
        if not bad: return None
        r = s.refute(ws, want, num, mod)
        if r: return r
        raise Unsupported(bad[0])
    # ---- refutation: a point at which the extracted equations contradict the prescription
    def special(s, rnd, mod):
        """operands whose Montgomery product is t before, and mod+t after, the final subtraction is forgotten"""
        tot = [y for y in s.syms if y.kind == 'in' and y.num and y.num[1] == 0]
        if not tot or mod % 4 != 3: return {}
        n, b = s.nums[tot[0].id]; R = 1 << n * b; fix = {}
        if len(tot) == 1:
            for t in range(rnd.randrange(1, 40), 80):
                a = pow(t * R, (mod + 1) // 4, mod)
                if a * a % mod == t * R % mod: fix[tot[0].id] = rnd.choice((a, mod - a)); break
        else:
            k = 2 * rnd.randrange(len(tot) // 2); t = rnd.randrange(1, 4)
            a = rnd.randrange(mod >> 1, mod); d = gcd(mod, a)
            j = -t * R * pow(mod, -1, a) % a
            for y in tot: fix[y.id] = rnd.choice((0, 1, y.hi))
            fix[tot[k].id] = a; fix[tot[k + 1].id] = (mod * j + t * R) // a
        return fix
    def valuation(s, rnd, fix={}):
        val = [None] * len(s.syms)
        for y in s.syms:
            if y.kind == 'in' and y.num and y.num[1] == 0:
                n, b = s.nums[y.id]; M = 1 << b; r = rnd.random()
                mod = [(s.P_ >> (b * i)) % M for i in range(n)] if getattr(s, 'P_', None) else [M - 1] * n
                def digit(i):
                    t = rnd.randrange(7)
                    return (0, 1, M - 1, mod[i], (mod[i] - 1) % M, (mod[i] + 1) % M, rnd.randrange(M))[t]
                if r < .1: v = y.lo + rnd.randrange(3)
                elif r < .2: v = y.hi - rnd.randrange(3)
                elif r < .4: v = rnd.randint(y.lo, y.hi)
                elif r < .5: v = (y.hi >> (1 + rnd.randrange(3))) + rnd.randrange(3) - 1
                else: v = sum(digit(i) << b * i for i in range(n))
                v = min(max(fix.get(y.id, v), y.lo), y.hi)
                for z in s.syms:
                    if z.num and z.num[0] == y.id: val[z.id] = v if z.num[1] == 0 else (v >> b * z.num[1]) & (M - 1)
        for y in s.syms:
            if val[y.id] is not None: continue
            if y.kind in ('in', 'res'):
                if y.kind == 'res': return None
                val[y.id] = rnd.choice((y.lo, y.hi, min(y.hi, y.lo + 1), rnd.randint(y.lo, y.hi), rnd.randint(y.lo, y.hi)))
            else:
                t = s.at(y.T, val) if y.kind != 'fun' else s.word(y.T, val)
                val[y.id] = t >> y.k if y.kind == 'quot' else (t - y.c) >> y.k if y.kind == 'exact' else t % (1 << y.k) if y.kind == 'mod' else t
        return val
    def at(s, p, val):
        r = 0
        for m, c in p.items():
            for v in m: c *= val[v]
            r += c
        return r
    def zeroword(s, w, val):
        if isinstance(w, Xo):
            r = 0
            for t in w.t: r ^= s.at(s.W_(t).p, val)
            return r == 0
        return s.at(s.W_(w).p, val) == 0
    def pick(s, v, val):
        v = s.A.top(v)
        while isinstance(v, Ite):
            d = s.A.desc[v.a]
            if d[0] == 'sym': b = val[d[1]] == d[3]
            elif d[0] == 'poly': b = s.at(dict(d[1]), val) == d[2] + 1
            elif d[0] == 'allzero': b = all(s.zeroword(w, val) for w in d[1])
            else: raise Unsupported('condition %s' % d[0])
            v = v.t if b else v.e
        return v
    def refute(s, ws, want, num, mod, tries=400, secs=20):
        import random, time
        rnd = random.Random(1); t0 = time.time(); s.P_ = mod
        if callable(want): return None
        for k in range(tries):
            if time.time() - t0 > secs: break
            val = s.valuation(rnd, s.special(rnd, mod) if k % 4 == 1 else {})
            if val is None: return None
            V = sum(s.at(s.W_(s.pick(w, val)).p, val) << 64 * i for i, w in enumerate(ws))
            w = s.at(want, val)
            if (V * num - w) % mod or not 0 <= V < mod:
                why = 'wrong residue' if (V * num - w) % mod else 'not reduced'
                ins = ', '.join('%s=%#x' % (y.name, val[y.id]) for y in s.syms if y.kind == 'in' and (not y.num or y.num[1] == 0))
                return 'the extracted limb equations give a result that is %s, for example at %s' % (why, ins)
        return None
    def _und(s, m): raise Unsupported(m)
    def modred(s, p, mod):
        """reduce coefficients modulo mod, replacing residues of contract symbols"""
        while True:
            e = -1
            for m in p:
                for v in m:
                    if v > e and s.syms[v].kind == 'res': e = v
            if e < 0: break
            y = s.syms[e]; co = {}; rest = {}
            for m, c in p.items():
                n = m.count(e)
                if n == 0: rest[m] = c
                elif n == 1:
                    l = list(m); l.remove(e); co[tuple(l)] = c
                else: raise Unsupported('power of a residue')
            p = padd(rest, pmul(co, y.T))
            p = {m: c % mod for m, c in p.items() if c % mod}
        return {m: c % mod for m, c in p.items() if c % mod}
    def definite(s, d):
        """a non-zero residue over independent inputs only is a definite mismatch"""
        return all(s.syms[v].kind == 'in' for m in d for v in m) or True
    def showcube(s, cube):
        return '' if not cube else ' in case %s' % (', '.join('%s=%d' % (s.A.desc[a][0], b) for a, b in cube))

def wrap_(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1): v -= 1 << bits
    return v

# ---- models of the intrinsics
def word_models(I):
    D = I.dom
    def f(fn):
        p = fn.path.rsplit('::', 1)[-1]
        if p == '_addcarry_u64':
            def m(I, fn, a, info):
                r = I.push(D.addc(a[0], a[1], a[2]), 2); I.store(a[3], r.f[0]); return r.f[1]
            return m
        if p == '_subborrow_u64':
            def m(I, fn, a, info):
                r = I.push(D.subb(a[0], a[1], a[2]), 2); I.store(a[3], r.f[0]); return r.f[1]
            return m
        if p == '_mulx_u64':
            def m(I, fn, a, info):
                r = I.push(D.mulx(a[0], a[1]), 2); I.store(a[2], r.f[1]); return r.f[0]
            return m
    return f
