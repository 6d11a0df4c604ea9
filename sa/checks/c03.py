"""C03: field arithmetic is constant time with respect to the operands' values."""
import re
from ..prog import load, MissingAnchor
from ..vals import *
from ..ring import Dom
from ..interp import Interp
from ..report import where
from ..fieldmodels import FP, FP2
from ..surface import in_surface
RULE = ('Taint analysis by abstract interpretation of the release MIR: every word of every operand is secret, every value computed from a secret is secret, and no branch, assertion, loop bound, slice length, memory index, '
        'division or allocation size in the function or anything it calls may be secret. Lengths and public exponents are concrete.')
class Leak(Exception): pass
class Sec:
    __slots__ = ()
    def __eq__(s, o): return isinstance(o, Sec)
    def __hash__(s): return 3
    def __repr__(s): return 'secret'
S = Sec()

class Taint(Dom):
    level = 'taint'
    def leak(s, what):
        fn, line = s.I.stack[-1] if s.I.stack else (None, 0)
        raise Leak('%s depends on a secret value in %s (%s:%s)' % (what, fn.path.replace('festa_rs::', ''), fn.span[0], line))
    def binop(s, op, a, b, bits, signed):
        if op in ('Div', 'Rem'): s.leak('a division')
        if op == 'Cmp': return S
        return S
    def unop(s, op, x, bits, sg): return S
    def cast(s, x, ob, osg, bits, sg): return S
    def checked(s, op, a, b, bits, sg): return tup(S, S)
    def carrying_add(s, a, b, c, w): return tup(S, S)
    def borrowing_sub(s, a, b, c, w): return tup(S, S)
    def intfn(s, k, x, b): return S
    def byte(s, y, k): return S
    def from_bytes(s, bs): return S
    def boolean(s, c): s.leak('a branch')
    def switch(s, c, vs): s.leak('a branch')
    def select(s, v, i): s.leak('a memory index')
    def index_ref(s, *a): s.leak('a memory index')
    def update(s, *a): s.leak('a memory index')
    def load(s, *a): raise Unsupported('load of a secret reference')
    def length(s, r): s.leak('a length')
    def sub_slice(s, *a): s.leak('a slice bound')
    def loop_bound(s, I, it, c):
        if isinstance(c, Sec): s.leak('a loop bound')
        return c
    def from_elem(s, *a): s.leak('an allocation size')
    def discr(s, x, T): s.leak('a branch')
    def cmp_agg(s, u, v):
        def any_(x): return isinstance(x, Sec) or isinstance(x, Agg) and any(any_(y) for y in x.f)
        if any_(u) or any_(v): s.leak('an early-exit comparison')
    def addc(s, a, b, c): return tup(S, S)
    subb = addc
    def mulx(s, a, b): return tup(S, S)

EXEMPT = re.compile(r'vartime|::fmt$|::rand|set_rand|::hash$')
# the exponent is public: its length decides the number of steps
PUBEXP = re.compile(r'::pow_small$|::pow_big$')

def run(R_):
    P = load('release')
    from ..words import word_models
    R_.assume += ['the compiler keeps branch-free MIR branch free', 'word additions, multiplications, shifts and logical operations take a time independent of their operands']
    fpt, fp2t = P.adt('FpFESTA::Fp'), P.adt('FpFESTAExt::Fp2')
    nl = P.ty[P.ty[fpt]['v'][0]['f'][0][1]]['n']; nl = int(nl)
    jobs = []
    def sec(t, n=None):
        T = P.ty[t]
        if t == fpt: return Agg('s', fpt, 0, (arr([S] * nl),))
        if t == fp2t: return Agg('s', fp2t, 0, tuple(sec(fpt) for _ in T['v'][0]['f']))
        if T['t'] in ('int', 'bool'): return S
        if T['t'] == 'array': return arr([sec(T['e'])] * int(T['n']))
        if T['t'] == 'tuple': return tup(*[sec(x) for x in T['f']])
        raise Unsupported('operand of type %s' % T['name'])
    def variants(f):
        """argument builders"""
        out = [[]]
        names = {i: n for n, i in (f.names or {}).items()} if isinstance(f.names, dict) else {}
        for k in range(1, f.argc + 1):
            t = f.locals[k]; T = P.ty[t]; nm = names.get(k, '')
            if T['t'] == 'ref':
                E = P.ty[T['e']]
                if E['t'] == 'slice':
                    ls = (0, 1, 5) if T['e'] and E['e'] in (fpt, fp2t) else None
                    if ls is None: ls = (1, 8, 162, 163, 178, 324, 400)
                    c = [('len %d' % n, lambda s, n=n, e=E['e']: (lambda b: Ref(b.cell, (), (0, n)))(s.ref(arr([sec(e)] * n)))) for n in ls]
                elif 'BigUint' in E['name']: c = [('exponent %d' % v, lambda s, v=v: s.ref(v)) for v in (0, 1, 6, 12345)]
                else: c = [('', lambda s, e=T['e']: s.ref(sec(e)))]
            elif T['t'] == 'int' and PUBEXP.search(f.path): c = [('exponent %d' % v, lambda s, v=v: v) for v in (0, 1, 6, 12345, (1 << 31) + 5)]
            elif T['t'] == 'int' and T['bits'] == 64 and T['name'] == 'usize': c = [('%s=%d' % (nm, v), lambda s, v=v: v) for v in (0, 1, 5, 8)]
            else: c = [('', lambda s, t=t: sec(t))]
            out = [o + [x] for o in out for x in c]
        return out
    def insecret(I, v):
        v = I.A.top(v)
        while isinstance(v, Ref): v = I.A.top(I.load(v))
        if isinstance(v, Agg): return any(insecret(I, x) for x in v.f)
        return isinstance(v, Sec)
    sums = {}
    def summary(f):
        """what the function does to secret operands: every result is secret.  Its own body is an obligation of its own, for all operands secret"""
        if f.id in sums: return sums[f.id]
        r = None
        try:
            if f.local and f.blocks is not None and root(f) and all(simple(t) for t in f.locals[1:1 + f.argc]):
                ret = sec(f.locals[0]) if not (P.ty[f.locals[0]]['t'] == 'tuple' and not P.ty[f.locals[0]]['f']) else tup()
                def r(I, fn, a, info):
                    if not any(insecret(I, x) for x in a): return I.exec_fn(fn, a)
                    for x, t in zip(a, fn.locals[1:1 + fn.argc]):
                        T = P.ty[t]
                        if T['t'] == 'ref' and T['mut']: I.store(x, sec(T['e']))
                    return ret
        except Unsupported: r = None
        sums[f.id] = r; return r
    def simple(t):
        T = P.ty[t]
        if T['t'] == 'ref': return simple(T['e'])
        return t in (fpt, fp2t) or T['t'] == 'int' and T['name'] != 'usize' or T['t'] == 'array' and simple(T['e'])
    # public operations stand for themselves; private helpers are followed where they are used
    def root(f): return in_surface(P, f) and not EXEMPT.search(f.path) and not PUBEXP.search(f.path)
    def job(f, args):
        def g():
            D = Taint(); I = Interp(P, D, fuel=30000000)
            I.model_fns.append(word_models(I))
            I.model_fns.append(lambda x: None if x is f else summary(x))
            try: I.exec_fn(f, [a(I) for _, a in args])
            except Leak as e: return str(e)
            except Diverge: return None
        return g
    n = 0
    for f in sorted((x for x in P.fn.values() if x.local and x.blocks is not None), key=lambda x: (x.path, x.id)):
        if not in_surface(P, f) or EXEMPT.search(f.path): continue
        n += 1
        for v in variants(f):
            lab = ', '.join(l for l, _ in v if l)
            jobs.append((f.path.replace('festa_rs::', '') + (' (%s)' % lab if lab else ''), job(f, v), where(f)))
    R_.parallel(jobs)
    R_.floor('functions', n, 140)
    R_.extra['level'] = 'proof'
