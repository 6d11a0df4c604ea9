"""Common set-up of an analysis: a domain, the contracts below the analysed layer, comparison of abstract values."""
from .vals import *
from .poly import *
from .ring import *
from .interp import Interp
from .fieldmodels import FieldModels, FP, FP2, SInt
from . import prog as progmod

MASK1 = 0xFFFFFFFF

class Sess:
    def __init__(s, P, level='fp2', dom=None):
        s.P = P
        s.D = dom or RingDom(P, level)
        s.A = s.D.A
        s.I = Interp(P, s.D)
        s.FM = FieldModels(s.D, FP if level == 'fp' else FP2)
        s.I.model_fns.append(s.FM)
        s.level = level
    def sym(s, n): return s.D.sym(n)
    def c(s, k): return s.D.c(k)
    def mask(s, name): return s.A.app1(lambda b: MASK1 if b else 0, s.A.var(('ctl', name)))
    def fn(s, suffix): return s.P.one(suffix)
    def call(s, fn, *args):
        if isinstance(fn, str): fn = s.fn(fn)
        return s.I.call(fn, list(args), None)
    def exec(s, fn, *args):
        if isinstance(fn, str): fn = s.fn(fn)
        return s.I.exec_fn(fn, list(args))
    def ref(s, v): return s.I.ref(v)
    def load(s, r): return s.I.load(r)
    # ---- comparison
    def facts(s, cube):
        Z = []; N = []; other = []
        for a, b in cube:
            d = s.A.desc[a]
            if d[0] == 'zero': (Z if b else N).append(d[1])
            else: other.append((d, b))
        return Z, N, other
    def solve(s, Z, N):
        """substitutions from Z; -> (list of (name,num,den)), 'infeasible' or None if not solved"""
        subs = []; Z = list(Z)
        R_ = s.D.R
        def ap(q):
            for nm, nu, de in subs: q = frac_subs(q, nm, nu, de)
            return q
        pend = Z; un = []
        while pend:
            q = ap(pend.pop(0))
            if q.iszero(): continue
            q = s.D.strip(q)
            if q.isconst(): return 'infeasible'
            done = False
            for v in sorted(q.vars(), reverse=True):
                nm = R_.names[v]
                if v in R_.rules: continue
                co = q.coeff_of(nm)
                if set(co) <= {0, 1} and co[1].isconst():
                    num = -(co.get(0, R_.zero)) * pow(co[1].constval(), -1, R_.p)
                    subs.append((nm, num, R_.one)); done = True; break
            if not done:
                for v in sorted(q.vars(), reverse=True):
                    nm = R_.names[v]
                    if v in R_.rules: continue
                    co = q.coeff_of(nm)
                    if set(co) <= {0, 1}:
                        # coefficient must be nonzero: add as case assumption only if implied by N or facts
                        if s.D.strip(co[1]).isconst() or any((ap(n)).divexact(co[1]) is not None or co[1].divexact(n) is not None for n in N):
                            subs.append((nm, -(co.get(0, R_.zero)), co[1])); done = True; break
            if not done: un.append(q)
        for n in N:
            if ap(n).iszero(): return 'infeasible'
        for f in s.D.nonzero:
            if ap(f).iszero(): return 'infeasible'
        return subs, un, ap
    def equal(s, x, y, feasible=None, what='value'):
        """None if equal on every feasible case; otherwise a message; Unsupported if it cannot be settled"""
        dif = s._diff(x, y)
        und = None
        for cube, msg in dif:
            Z, N, other = s.facts(tuple(s.A.asm.items()) + cube)
            if feasible is not None and not feasible(cube): continue
            r = s.solve(Z, N)
            if r == 'infeasible': continue
            subs, un, ap = r
            if isinstance(msg, tuple):
                d = ap(msg[1])
                if d.iszero(): continue
                d2 = s.D.strip(d)
                if un:
                    # unresolved relation: equal modulo it?
                    if any(d2.divexact(q) is not None for q in un): continue
                    und = 'case %s not resolved' % s.show(cube); continue
                return '%s: differs in case [%s]: difference %r' % (what, s.show(cube), d2)
            if un:
                und = 'case %s not resolved' % s.show(cube); continue
            return '%s: %s in case [%s]' % (what, msg, s.show(cube))
        if und: raise Unsupported(und)
        return None
    def show(s, cube):
        o = []
        for a, b in cube:
            d = s.A.desc[a]
            if d[0] == 'zero': o.append('%r %s 0' % (d[1], '=' if b else '!='))
            else: o.append('%s=%d' % (d, b))
        return ', '.join(o)
    def _diff(s, x, y, cube=()):
        x = s.A.top(x); y = s.A.top(y)
        if isinstance(x, Ite) or isinstance(y, Ite):
            a = min(v.a for v in (x, y) if isinstance(v, Ite))
            for bit in (1, 0):
                sp = lambda v: (v.t if bit else v.e) if isinstance(v, Ite) and v.a == a else v
                # consistent branch only
                if dict(cube).get(a, bit) != bit: continue
                yield from s._diff(sp(x), sp(y), cube + ((a, bit),))
            return
        if isinstance(x, Agg) and isinstance(y, Agg):
            if x.var != y.var or len(x.f) != len(y.f):
                yield cube, 'different shape'; return
            for u, v in zip(x.f, y.f): yield from s._diff(u, v, cube)
            return
        if isinstance(x, R) and isinstance(y, R):
            d = s.D.normal(x.n * y.d - y.n * x.d)
            if not d.iszero(): yield cube, ('diff', d)
            return
        if type(x) is int and type(y) is int:
            if x != y: yield cube, 'got %s, expected %s' % (hex(x), hex(y))
            return
        if x is y or eqv(x, y): return
        raise Unsupported('cannot compare %r with %r' % (type(x).__name__, type(y).__name__))

def frac_subs(q, nm, nu, de):
    """numerator of q with nm := nu/de"""
    i = q.r.idx.get(nm)
    if i is None or i not in q.vars(): return q
    co = q.coeff_of(nm); m = max(co)
    out = q.r.zero
    for e, cf in co.items(): out = out + cf * (nu ** e) * (de ** (m - e))
    return out
