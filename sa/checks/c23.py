"""C23: debug and release builds behave alike; the field layer never panics."""
import re
from ..prog import load, MissingAnchor
from ..vals import *
from ..ring import Dom
from ..interp import Interp
from ..report import where, Report
from ..fieldmodels import FP, FP2
from ..surface import in_surface
from .c20 import Graph
RULE = ('(1) Every function compiled for the debug and for the release profile is normalised (overflow checks removed, dead temporaries dropped, locals renamed in order of first use) and compared: the only difference allowed is the constant '
        'cfg!(debug_assertions) deciding a branch. (2) The code such a branch adds in debug builds writes no variable used outside it, takes no mutable reference to one, does not return, and calls only functions without effects; the code it adds in '
        'release builds does the same. (3) Malformed encodings are refused in the release configuration (obligations of C18). (4) Interval analysis of every field operation, with all operand words unrestricted: no index, overflow, shift or conversion check can '
        'fail; and no obligation of C01, C02, C07, C09 meets a panic.')

# ------------------------------------------------------------------ (1) and (2)
PROFILE = ('Overflow', 'MisalignedPointerDereference', 'NullPointerDereference')
def is_local(x): return isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list)
def is_index(x): return isinstance(x, list) and len(x) == 2 and x[0] == 'i' and isinstance(x[1], int)

class Norm:
    """one profile's view of a function"""
    def __init__(s, P): s.P = P; s.memo = {}
    def tyname(s, t): return s.P.ty[t]['name'] if t in s.P.ty else '?'
    def alloc(s, i, depth=0):
        A = s.P.alloc.get(i)
        if A is None or depth > 6: return '?'
        if 'fn' in A: return ('fn', A['fn'])
        if 'static' in A: return ('static', A['static'])
        a = A.get('a')
        if isinstance(a, dict): return (s.bytes_(a), tuple(s.alloc(q, depth + 1) for o, q in a['p']))
        return str(a)
    def bytes_(s, a):
        b = a['b']
        if a['p']:                       # the bytes of a pointer are its offset
            return ('ptr', b)
        return b
    def const(s, k):
        a = k.get('a')
        t = s.tyname(k.get('ty'))
        if isinstance(a, dict): return ('const', t, s.bytes_(a), tuple(s.alloc(q) for o, q in a['p']))
        return ('const', t, re.sub(r'\bid: \d+', '', str({x: y for x, y in k.items() if x != 'ty'})))
    def body(s, f, merge=True):
        """merged blocks: list of (stmts, terminator, line), entry 0; None when the body is not understood"""
        bl = []
        cb = {}
        for b in f.blocks:
            st = [list(x) for x in b['s'] if x[0] not in ('sl', 'sx')]
            t = list(b['t'])
            if t[0] == 'assert' and t[3] in PROFILE: t = ['goto', t[4]]
            bl.append([st, t, b['l']])
            for x in st:
                if x[0] == '=' and x[2][0] == 'cbin' and not x[1][1]: cb[x[1][0]] = x[2]
        # a checked operation is the operation itself, done where its result is taken
        for st, t, l in bl:
            out = []
            for x in st:
                if x[0] == '=' and x[2][0] == 'cbin' and not x[1][1]: continue
                if x[0] == '=' and x[2][0] == 'use' and isinstance(x[2][1], dict):
                    o = x[2][1].get('m') or x[2][1].get('c')
                    if o and o[0] in cb and o[1] == [0]:
                        q = cb[o[0]]; x = ['=', x[1], ['bin'] + list(q[1:]), x[3]]
                out.append(x)
            st[:] = out
        # dead temporaries
        while True:
            used = set()
            def reads(x):
                if isinstance(x, dict):
                    for k, v in x.items():
                        if k in ('m', 'c') and is_local(v): used.add(v[0]); [reads(e) for e in v[1]]
                        elif k == 'k': pass
                        else: reads(v)
                elif is_index(x): used.add(x[1])
                elif is_local(x): used.add(x[0]); [reads(e) for e in x[1]]
                elif isinstance(x, list):
                    for v in x: reads(v)
            for st, t, l in bl:
                for x in st:
                    if x[0] == '=':
                        if x[1][1]: used.add(x[1][0]); reads(x[1][1])
                        reads(x[2][1:])
                    else: reads(x[1:])
                reads(t[1:])
            ch = 0
            for st, t, l in bl:
                n = [x for x in st if not (x[0] == '=' and not x[1][1] and x[1][0] not in used and x[1][0] != 0 and x[2][0] in ('use', 'cast', 'bin', 'un'))]
                if len(n) != len(st): ch = 1; st[:] = n
            if not ch: break
        if not merge: return bl
        # merge chains
        pred = {}
        for i, (st, t, l) in enumerate(bl):
            for y in s.succ(t): pred.setdefault(y, []).append(i)
        for i in range(len(bl)):
            while bl[i] is not None and bl[i][1][0] == 'goto' and len(pred.get(bl[i][1][1], [])) == 1 and bl[i][1][1] not in (i, 0):
                j = bl[i][1][1]
                if bl[j] is None: break
                bl[i] = [bl[i][0] + bl[j][0], bl[j][1], bl[j][2]]
                for y in s.succ(bl[j][1]): pred[y] = [i if z == j else z for z in pred[y]]
                bl[j] = None
        return bl
    @staticmethod
    def succ(t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [y[1] for y in t[2]] + [t[3]]
        if k == 'call': return [] if t[4] is None else [t[4]]
        if k == 'assert': return [t[4]]
        if k == 'drop': return [t[2]]
        return []

def constbool(P, st):
    """value of `local = const bool`"""
    if st[0] == '=' and not st[1][1] and st[2][0] == 'use' and isinstance(st[2][1], dict) and 'k' in st[2][1]:
        k = st[2][1]['k']; a = k.get('a')
        if P.ty.get(k.get('ty'), {}).get('t') == 'bool' and isinstance(a, dict): return a['b']

class Differ(Exception): pass
class Unclear(Exception): pass

def compare(ND, NR, fd, fr):
    """walks both bodies in step; returns the number of branches decided by cfg!(debug_assertions) and of statements matched"""
    bd, br = ND.body(fd), NR.body(fr)
    lm, rl = {}, {}
    seen = {}; work = [(0, 0)]; cfg = 0; n = 0
    def loc(a, b, line):
        if lm.setdefault(a, b) != b or rl.setdefault(b, a) != a: raise Differ('line %s uses different variables' % line)
    def same(x, y, line):
        if is_index(x) and is_index(y): loc(x[1], y[1], line); return
        if is_local(x) and is_local(y) and not isinstance(x, str):
            loc(x[0], y[0], line)
            if len(x[1]) != len(y[1]): raise Differ('line %s' % line)
            for u, v in zip(x[1], y[1]): same(u, v, line)
            return
        if isinstance(x, dict) and isinstance(y, dict):
            x = dict(x); y = dict(y)
            if 'm' in x: x = {'c': x['m']}
            if 'm' in y: y = {'c': y['m']}
            if set(x) != set(y): raise Differ('line %s' % line)
            if 'k' in x:
                if ND.const(x['k']) != NR.const(y['k']): raise Differ('line %s: the constant differs' % line)
                return
            for k in x: same(x[k], y[k], line)
            return
        if isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y): raise Differ('line %s' % line)
            for u, v in zip(x, y): same(u, v, line)
            return
        if type(x) is not type(y): raise Differ('line %s' % line)
        if x != y: raise Differ('line %s: %s and %s' % (line, x, y))
    def tysame(a, b, line):
        if ND.tyname(a) != NR.tyname(b): raise Differ('line %s: types %s and %s' % (line, ND.tyname(a), NR.tyname(b)))
    def rv(x, y, line):
        if x[0] != y[0]: raise Differ('line %s: %s and %s' % (line, x[0], y[0]))
        k = x[0]
        if k == 'cast':
            if x[1] != y[1]: raise Differ('line %s' % line)
            same(x[2], y[2], line); tysame(x[3], y[3], line)
        elif k == 'agg':
            a, b = x[1], y[1]
            if a[0] != b[0]: raise Differ('line %s: builds different values' % line)
            if a[0] in ('adt', 'closure'): tysame(a[1], b[1], line); same(list(a[2:]), list(b[2:]), line)
            same(x[2], y[2], line)
        elif k == 'un' or k == 'bin' or k == 'use' or k == 'ref' or k == 'discr': same(x[1:], y[1:], line)
        elif k == 'rep': same(x[1:], y[1:], line)
        else:
            if len(x) != len(y): raise Differ('line %s' % line)
    while work:
        i, j = work.pop()
        if i in seen:
            if seen[i] != j: raise Differ('the branches lead to different places')
            continue
        seen[i] = j
        sd, td, l = bd[i]; sr, tr, _ = br[j]
        flag = None
        if len(sd) != len(sr): raise Differ('line %s: %d and %d statements' % (l, len(sd), len(sr)))
        for x, y in zip(sd, sr):
            line = x[3] if x[0] == '=' else l
            if x[0] != y[0]: raise Differ('line %s' % line)
            n += 1
            if x[0] == '=':
                u, v = constbool(ND.P, x), constbool(NR.P, y)
                if u is not None and v is not None and u != v:
                    flag = (x[1][0], y[1][0]); loc(x[1][0], y[1][0], line); continue
                same(x[1], y[1], line); rv(x[2], y[2], line)
            else: same(x[1:], y[1:], line)
        if td[0] != tr[0]: raise Differ('line %s: %s and %s' % (l, td[0], tr[0]))
        k = td[0]; n += 1
        if k == 'switch':
            same(td[1], tr[1], l)
            o = td[1].get('m') or td[1].get('c')
            if flag and o and o[0] == flag[0]: cfg += 1; flag = None
            if [y[0] for y in td[2]] != [y[0] for y in tr[2]]: raise Differ('line %s: different cases' % l)
        elif k == 'call':
            a, b = td[1], tr[1]
            if (a.get('def'), a.get('res')) != (b.get('def'), b.get('res')): raise Differ('line %s: calls %s and %s' % (l, a.get('res') or a.get('def'), b.get('res') or b.get('def')))
            if a.get('f') != b.get('f'): raise Differ('line %s: calls different instances' % l)
            same(td[2], tr[2], l); same(td[3], tr[3], l)
            if (td[4] is None) != (tr[4] is None): raise Differ('line %s' % l)
        elif k == 'assert':
            same(td[1], tr[1], l)
            if td[2:4] != tr[2:4]: raise Differ('line %s' % l)
        elif k == 'drop': same(td[1], tr[1], l)
        if flag: raise Unclear('a stored cfg!(debug_assertions) at line %s' % l)
        work += list(zip(Norm.succ(td), Norm.succ(tr)))
    return cfg, n

class Regions:
    """the code a cfg!(debug_assertions) branch adds in one profile"""
    def __init__(s, P, other): s.P = P; s.other = other; s.G = Graph(P); s.memo = {}
    def pure(s, fid, stack=()):
        """why a call of the function has an effect, or None"""
        if fid in s.memo: return s.memo[fid]
        if fid in stack: return None
        f = s.P.fn.get(fid)
        r = None
        if f is not None and f.local and f.blocks is not None:
            succ, bad = s.G.analyse(f)
            if bad: r = '%s (%s)' % (bad[0][0], f.path)
            else:
                for g, line in succ:
                    r = s.pure(g, stack + (fid,))
                    if r: break
        s.memo[fid] = r
        return r
    def branches(s, f, g):
        """the switches of f decided by a constant that differs in g: (block, local, value here, value there)"""
        A = [(i, x[1][0], constbool(s.P, x)) for i, b in enumerate(f.blocks) for x in b['s'] if constbool(s.P, x) is not None]
        B = [(i, x[1][0], constbool(s.other, x)) for i, b in enumerate(g.blocks) for x in b['s'] if constbool(s.other, x) is not None]
        if len(A) != len(B): raise Unclear('different numbers of constant conditions')
        out = []
        for (i, l, v), (_, _, w) in zip(A, B):
            if v == w: continue
            t = f.blocks[i]['t']
            if t[0] != 'switch' or (t[1].get('m') or t[1].get('c') or [None])[0] != l: raise Unclear('a stored cfg!(debug_assertions)')
            out.append((i, l, int(v, 16), int(w, 16)))
        return out
    def target(s, t, v):
        for c, y in t[2]:
            if int(c) == v: return y
        return t[3]
    def region(s, f, i, v):
        t = f.blocks[i]['t']; start = s.target(t, v); join = f.pdom().get(i, -1)
        reg = set(); st = [start]
        if start == join: return reg
        while st:
            b = st.pop()
            if b in reg or b == join: continue
            reg.add(b); st += f.succ()[b]
        return reg
    def check(s, f, g):
        out = []; n = 0
        for i, l, v, w in s.branches(f, g):
            n += 1
            reg = s.region(f, i, v)
            shared = s.region(f, i, w) & reg
            out += s.effects(f, reg - shared, i)
        return n, out
    def effects(s, f, reg, at):
        P = s.P; bad = []
        outside = set(); inside = set()
        def reads(x, acc):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ('m', 'c') and is_local(v): acc.add(v[0]); [reads(e, acc) for e in v[1]]
                    elif k != 'k': reads(v, acc)
            elif is_index(x): acc.add(x[1])
            elif is_local(x): acc.add(x[0]); [reads(e, acc) for e in x[1]]
            elif isinstance(x, list):
                for v in x: reads(v, acc)
        for i, b in enumerate(f.blocks):
            if i in reg: continue
            for x in b['s']:
                if x[0] == '=':
                    if x[1][1]: outside.add(x[1][0])
                    reads(x[2][1:], outside)
                elif x[0] not in ('sl', 'sx'): reads(x[1:], outside)
            t = b['t']
            if t[0] == 'call': reads(t[2], outside); 
            elif t[0] in ('switch', 'assert', 'drop'): reads(t[1:2], outside)
        outside.add(0)
        for k in range(1, f.argc + 1): outside.add(k)
        def unit(l):
            T = P.ty[f.locals[l]]
            return T['t'] == 'tuple' and not T['f'] or T['name'] == '!' or T['t'] == 'never'
        def private(l): return l not in outside or unit(l)
        nm = {p[0]: n for n, p in (f.names or []) if is_local(p)}
        def name(l): return nm.get(l, 'a temporary')
        for i in sorted(reg):
            b = f.blocks[i]
            for x in b['s']:
                if x[0] == '=':
                    l = x[1][0]; line = x[3]
                    if '*' in x[1][1]: 
                        if not private(l): bad.append('line %s writes through %s' % (line, name(l)))
                    elif not private(l): bad.append('line %s writes %s' % (line, name(l)))
                    if x[2][0] == 'ref':
                        T = P.ty[f.locals[l]] if not x[1][1] else None
                        if T and T['t'] in ('ref', 'ptr') and T['mut'] and not private(x[2][1][0]): bad.append('line %s takes a mutable reference to %s' % (line, name(x[2][1][0])))
                    if x[2][0] == 'use' and isinstance(x[2][1], dict):
                        o = x[2][1].get('m')
                        if o and not private(o[0]) and P.ty[f.locals[o[0]]]['t'] == 'ref' and P.ty[f.locals[o[0]]]['mut']: bad.append('line %s hands on the mutable reference %s' % (line, name(o[0])))
                elif x[0] not in ('sl', 'sx'): bad.append('line %s' % b['l'])
            t = b['t']
            if t[0] == 'ret': bad.append('line %s returns' % b['l'])
            if t[0] == 'call':
                line = b['l']
                if t[4] is not None and t[3][0] in outside and not unit(t[3][0]): bad.append('line %s assigns %s' % (line, name(t[3][0])))
                if t[4] is None: continue                      # panics
                info = t[1]
                if info.get('f') is None and info.get('def') and re.search(r'^std::ops::Fn(Mut|Once)?::call', info['def']): continue
                if info.get('f'):
                    w = s.pure(info['f'])
                    if w: bad.append('line %s: %s' % (line, w))
        return bad

# ------------------------------------------------------------------ (4)
class V:
    """a word known to lie in an interval; free: it takes every value of the interval"""
    __slots__ = ('lo', 'hi', 'free')
    def __init__(s, lo, hi, free=False): s.lo = lo; s.hi = hi; s.free = free
    def __eq__(s, o): return isinstance(o, V) and (s.lo, s.hi, s.free) == (o.lo, o.hi, o.free)
    def __hash__(s): return hash((s.lo, s.hi))
    def __repr__(s): return '[%d, %d]' % (s.lo, s.hi)
class Fires(Exception): pass
class Ovf(V):
    __slots__ = ()

class Iv(Dom):
    soft = 1
    def __init__(s): Dom.__init__(s); s.maybe = []
    def iv(s, x):
        if type(x) is int: return V(x, x)
        if isinstance(x, V): return x
        raise Unsupported('interval of %s' % type(x).__name__)
    def full(s, bits, sg, free=False): return V(-(1 << bits - 1), (1 << bits - 1) - 1, free) if sg else V(0, (1 << bits) - 1, free)
    def mk(s, lo, hi, bits, sg, free=False):
        F = s.full(bits, sg, free)
        if lo < F.lo or hi > F.hi: return F
        return lo if lo == hi else V(lo, hi, free)
    def binop(s, op, x, y, bits, sg):
        op = op.replace('Unchecked', ''); a, b = s.iv(x), s.iv(y)
        fr = a.free or b.free
        if op == 'Add': return s.mk(a.lo + b.lo, a.hi + b.hi, bits, sg, fr)
        if op == 'Sub': return s.mk(a.lo - b.hi, a.hi - b.lo, bits, sg, fr)
        if op == 'Mul':
            c = [u * v for u in (a.lo, a.hi) for v in (b.lo, b.hi)]; return s.mk(min(c), max(c), bits, sg, a.free and b.free)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a.lo < 0 or b.lo < 0: return s.full(bits, sg)
            if op == 'BitAnd':
                m = min(a.hi, b.hi)
                return s.mk(0, m, bits, sg, (a.free and a.hi >= m and type(y) is int and y & (y + 1) == 0) or (b.free and b.hi >= m and type(x) is int and x & (x + 1) == 0))
            if op == 'BitXor' and (type(y) is int and y == 0): return x
            return s.mk(0, (1 << max(a.hi, b.hi).bit_length()) - 1, bits, sg)
        if op == 'Shl':
            if b.lo != b.hi: return s.full(bits, sg)
            k = b.lo % bits; return s.mk(a.lo << k, a.hi << k, bits, sg)
        if op == 'Shr':
            lo, hi = (b.lo, b.hi) if 0 <= b.lo and b.hi < bits else (0, bits - 1)
            c = [u >> k for u in (a.lo, a.hi) for k in (lo, hi)]
            return s.mk(min(c), max(c), bits, sg, a.free and lo == hi)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if op in ('Gt', 'Ge'): a, b = b, a; op = {'Gt': 'Lt', 'Ge': 'Le'}[op]
            if op == 'Lt':
                if a.hi < b.lo: return 1
                if a.lo >= b.hi: return 0
            elif op == 'Le':
                if a.hi <= b.lo: return 1
                if a.lo > b.hi: return 0
            elif a.hi < b.lo or b.hi < a.lo: return int(op == 'Ne')
            return V(0, 1)
        if op in ('Div', 'Rem') and b.lo == b.hi and b.lo > 0 and a.lo >= 0:
            if op == 'Div': return s.mk(a.lo // b.lo, a.hi // b.lo, bits, sg, a.free)
            return s.mk(0, min(a.hi, b.lo - 1), bits, sg)
        raise Unsupported('operation %s' % op)
    def checked(s, op, x, y, bits, sg):
        a, b = s.iv(x), s.iv(y)
        r = s.binop(op, x, y, bits, sg)
        if op in ('Shl', 'Shr'): return tup(r, 0 if 0 <= b.lo and b.hi < bits else V(0, 1))
        if op == 'Add': lo, hi = a.lo + b.lo, a.hi + b.hi
        elif op == 'Sub': lo, hi = a.lo - b.hi, a.hi - b.lo
        else:
            c = [u * v for u in (a.lo, a.hi) for v in (b.lo, b.hi)]; lo, hi = min(c), max(c)
        F = s.full(bits, sg)
        if F.lo <= lo and hi <= F.hi: return tup(r, 0)
        def ex(z): return type(z) is int or z.free
        return tup(r, Ovf(0, 1, ex(x) and ex(y) and x is not y))
    def unop(s, op, x, bits, sg):
        a = s.iv(x)
        if op == 'Not':
            if bits == 1: return V(0, 1)
            if sg: return V(-1 - a.hi, -1 - a.lo, a.free)
            m = (1 << bits) - 1; return s.mk(m - a.hi, m - a.lo, bits, sg, a.free)
        if op == 'Neg': return s.mk(-a.hi, -a.lo, bits, sg, a.free)
        raise Unsupported(op)
    def cast(s, x, ob, osg, bits, sg):
        a = s.iv(x); return s.mk(a.lo, a.hi, bits, sg, a.free)
    def intfn(s, k, x, b):
        if k in ('lz', 'tz', 'ones'): return V(0, b)
        return s.full(64, 0)
    def carrying_add(s, a, b, c, w): return tup(s.full(w, 0), V(0, 1))
    borrowing_sub = carrying_add
    def addc(s, a, b, c): return tup(s.full(64, 0, True), V(0, 1))
    subb = addc
    def mulx(s, a, b): return tup(s.full(64, 0, True), s.full(64, 0))
    def byte(s, y, k): return V(0, 255, True)
    def from_bytes(s, bs): return s.full(8 * len(bs), 0, True)
    def assertion(s, c, want, kind):
        fn, line = s.I.stack[-1]
        w = '%s can fire in %s (%s:%s)' % ({'Overflow': 'an overflow check', 'BoundsCheck': 'an index check'}.get(kind, 'a check'), fn.path.replace('festa_rs::', ''), fn.span[0], line)
        if isinstance(c, Ovf) and c.free: raise Fires(w)
        s.maybe.append(w)
        return want

EXEMPT = re.compile(r'vartime|::pow_small$|::fmt$|::rand|set_rand|::hash$|::div_assign$|::to_bigint|_big$')

def fieldjobs(P):
    from ..words import word_models
    fpt, fp2t = P.adt('FpFESTA::Fp'), P.adt('FpFESTAExt::Fp2')
    nl = int(P.ty[P.ty[fpt]['v'][0]['f'][0][1]]['n'])
    D0 = Iv()
    def sec(t, free=True):
        T = P.ty[t]
        if t == fpt: return Agg('s', fpt, 0, (arr([V(0, (1 << 64) - 1, True)] * nl),))
        if t == fp2t: return Agg('s', fp2t, 0, tuple(sec(fpt) for _ in T['v'][0]['f']))
        if T['t'] == 'int': return D0.full(T['bits'], T['s'] if 's' in T else T['name'].startswith('i'), False)
        if T['t'] == 'bool': return V(0, 1)
        if T['t'] == 'array': return arr([sec(T['e'])] * int(T['n']))
        if T['t'] == 'tuple': return tup(*[sec(x) for x in T['f']])
        raise Unsupported('operand of type %s' % T['name'])
    def variants(f):
        out = [[]]
        for k in range(1, f.argc + 1):
            t = f.locals[k]; T = P.ty[t]
            if T['t'] == 'ref' and P.ty[T['e']]['t'] == 'slice':
                e = P.ty[T['e']]['e']; el = e in (fpt, fp2t)
                ls = (0, 1, 5) if el else (0, 1, 8, 162, 163, 178, 324, 400)
                by = (lambda e=e: sec(e)) if el else (lambda: V(0, 255, True))
                c = [('len %d' % n, lambda s, n=n, by=by: (lambda b: Ref(b.cell, (), (0, n)))(s.ref(arr([by()] * n)))) for n in ls]
            elif T['t'] == 'ref': c = [('', lambda s, e=T['e']: s.ref(sec(e)))]
            elif T['t'] == 'int' and T['name'] == 'usize': c = [('length %d' % v, lambda s, v=v: v) for v in (0, 1, 5, 8)]
            else: c = [('', lambda s, t=t: sec(t))]
            out = [o + [x] for o in out for x in c]
        return out
    # public operations stand for themselves; private helpers are followed where they are used
    def fieldfn(f): return in_surface(P, f)
    def simple(t):
        T = P.ty[t]
        if T['t'] == 'ref': return simple(T['e'])
        return t in (fpt, fp2t) or T['t'] == 'int' and T['name'] != 'usize'
    sums = {}
    def summary(f):
        """a field operation called by another: arbitrary words; its own body is an obligation of its own"""
        if f.id in sums: return sums[f.id]
        r = None
        try:
            if f.local and f.blocks is not None and fieldfn(f) and not EXEMPT.search(f.path) and not (P.ty[f.locals[0]]['t'] == 'int' and P.ty[f.locals[0]]['bits'] == 64) and all(simple(t) for t in f.locals[1:1 + f.argc]) and not any(P.ty[t]['t'] == 'int' and P.ty[t]['bits'] == 64 for t in f.locals[1:1 + f.argc]):
                ret = sec(f.locals[0]) if not (P.ty[f.locals[0]]['t'] == 'tuple' and not P.ty[f.locals[0]]['f']) else tup()
                def r(I, fn, a, info):
                    for x, t in zip(a, fn.locals[1:1 + fn.argc]):
                        T = P.ty[t]
                        if T['t'] == 'ref' and T['mut']: I.store(x, sec(T['e']))
                    return ret
        except Unsupported: r = None
        sums[f.id] = r; return r
    def job(f, args):
        def g():
            D = Iv(); I = Interp(P, D, fuel=30000000); D.I = I
            I.model_fns.append(word_models(I))
            I.model_fns.append(lambda x: None if x is f else summary(x))
            # the argument is the leading word of a pair of integers one of which is odd
            I.model_fns.append(lambda x: (lambda I, fn, a, info: V(0, 63)) if x.path.endswith('utils64::lzcnt') else None)
            try: I.exec_fn(f, [a(I) for _, a in args])
            except Fires as e: return str(e)
            except Diverge: return None
            ev = [e for e in I.events if e.kind == 'panic']
            if ev: raise Unsupported('can panic: %r' % ev[0])
            if D.maybe: raise Unsupported(D.maybe[0])
        return g
    jobs = []; n = 0
    for f in sorted((x for x in P.fn.values() if x.local and x.blocks is not None and fieldfn(x) and not EXEMPT.search(x.path)), key=lambda x: (x.path, x.id)):
        n += 1
        for v in variants(f):
            lab = ', '.join(l for l, _ in v if l)
            jobs.append(('no panic: ' + f.path.replace('festa_rs::', '') + (' (%s)' % lab if lab else ''), job(f, v), where(f)))
    return jobs, n

def run(R_):
    D, R = load('debug'), load('release')
    R_.assume += ['the leading-zero count in division and Legendre symbol is taken of a non-zero word (one of the two integers of the gcd loop stays odd)', 'dependencies behave alike in both profiles']
    ND, NR = Norm(D), Norm(R)
    jobs = []
    ncfg = 0
    pairs = []
    for A, B, lab in ((D.fn, R.fn, ''), (D.gfn, R.gfn, ' (generic)')):
        for i in sorted(set(A) | set(B)):
            f, g = A.get(i), B.get(i)
            x = f or g
            if not x.local or x.blocks is None: continue
            if f is None or g is None or g.blocks is None: continue     # its callers differ, or it is called from debug-only code
            pairs.append((f, g, lab))
    RD, RR = Regions(D, R), Regions(R, D)
    def job(f, g):
        def r():
            try:
                try: cfg, n = compare(ND, NR, f, g)
                except Differ as e: return differs(D, R, f, g, str(e))
                k, bad = RD.check(f, g)
                if bad: return 'the code only debug builds run has an effect: ' + bad[0]
                k2, bad = RR.check(g, f)
                if bad: return 'the code only release builds run has an effect: ' + bad[0]
                if cfg != k or k2 != k: raise Unsupported('branches on cfg!(debug_assertions) not matched')
            except Unclear as e: raise Unsupported(str(e))
        return r
    for f, g, lab in pairs: jobs.append(('same in both profiles: ' + f.path.replace('festa_rs::', '') + lab, job(f, g), where(f)))
    fj, nf = fieldjobs(D)
    R_.parallel(jobs + fj)
    R_.floor('functions compared', len(pairs), 300)
    R_.floor('field functions', nf, 130)
    # (3) and the panic side of the value analyses
    from . import c18, c01, c02, c07, c09
    for m, keep in ((c18, lambda o: 'release' in o[1]), (c01, None), (c02, None), (c07, None), (c09, None)):
        sub = Report('C23', '', R_.tier)
        m.run(sub)
        nm = m.__name__.rsplit('.', 1)[1].upper()
        for st, key, w, det in sub.obs:
            if key.startswith('floor:'): continue
            if keep is not None:
                if keep(('', key)): R_.obs.append((st, '%s: %s' % (nm, key), w, det))
            elif st == 'ok': R_.obs.append((st, 'no panic in %s: %s' % (nm, key), w, det))
            elif st == 'bad' and re.search(r'panic|every path', str(det)): R_.obs.append((st, 'no panic in %s: %s' % (nm, key), w, det))
    R_.extra['level'] = 'proof'

def differs(D, R, f, g, why):
    """the two bodies differ by more than cfg!(debug_assertions) branches: conditional compilation"""
    def lines(P, h):
        N = Norm(P); out = {}
        def tok(x):
            if isinstance(x, dict):
                if 'k' in x: return N.const(x['k'])
                return tuple(sorted((('c' if k == 'm' else k), tok(v)) for k, v in x.items() if k not in ('f',)))
            if is_local(x): return 'L'
            if isinstance(x, list): return tuple(tok(v) for v in x)
            return x
        for b in N.body(h, merge=False):
            for x in b[0]:
                if x[0] == '=':
                    r = x[2]
                    if constbool(P, x) is not None: continue      # judged as a branch below
                    out.setdefault(x[3], []).append((r[0], tok(r[1:]) if r[0] not in ('cast', 'agg') else tok([r[1] if r[0] == 'cast' else r[1][0], r[2]])))
                else: out.setdefault(b[2], []).append(x[0])
            t = b[1]
            if t[0] in ('goto', 'resume', 'unreachable'): continue
            out.setdefault(b[2], []).append((t[0], (t[1].get('def'), tok(t[2])) if t[0] == 'call' else ''))
        return {l: sorted(map(str, v)) for l, v in out.items()}
    a, b = lines(D, f), lines(R, g)
    lo, hi = f.span[1], f.span[1] + 100000
    only_r = [l for l in b if l >= lo and l not in a]
    only_d = [l for l in a if l >= lo and l not in b]
    both = [l for l in a if l in b and a[l] != b[l] and l >= lo]
    if only_r or both: return 'compiled differently for debug and release: ' + why
    # statements only debug builds contain must not reach what follows
    S = set(only_d)
    blocks = [i for i, x in enumerate(f.blocks) if x['l'] in S and all(st[0] in ('sl', 'sx') or st[0] == '=' and st[3] in S for st in x['s'])]
    E = Regions(D, R); E2 = Regions(R, D)
    bad = E.check(f, g)[1] or E2.check(g, f)[1]
    if bad: return 'the code only one build runs has an effect: ' + bad[0]
    bad = E.effects(f, set(blocks), None)
    if bad: return 'debug builds run extra code with an effect: ' + bad[0]
    raise Unsupported('compiled differently for debug and release: ' + why)
