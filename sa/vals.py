"""Abstract values shared by all domains."""
class Unsupported(Exception):
    """the abstract interpreter cannot model a construct; the obligation is undecided"""
class Diverge(Exception):
    pass

class Agg:
    """structs, tuples, enum variants, closures ('s'), arrays ('a') and vectors ('v')"""
    __slots__ = ('k', 'ty', 'var', 'f')
    def __init__(s, k, ty, var, f):
        s.k = k; s.ty = ty; s.var = var; s.f = f
    def __repr__(s): return '%s%s%s' % (s.k, '' if s.var in (None, 0) else '#%d' % s.var, list(s.f))
    def __eq__(s, o):
        return s is o or (isinstance(o, Agg) and s.k == o.k and s.var == o.var and s.f == o.f)
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash((s.k, s.var, s.f))

def arr(items): return Agg('a', None, 0, tuple(items))
def vec(items): return Agg('v', None, 0, tuple(items))
def tup(*items): return Agg('s', None, 0, tuple(items))

class Ref:
    __slots__ = ('cell', 'path', 'win')
    def __init__(s, cell, path=(), win=None):
        s.cell = cell; s.path = path; s.win = win
    def __repr__(s): return '&%s%s%s' % (s.cell, list(s.path), '' if s.win is None else s.win)
    def __eq__(s, o): return isinstance(o, Ref) and (s.cell, s.path, s.win) == (o.cell, o.path, o.win)
    def __hash__(s): return hash((s.cell, s.path, s.win))

class FnV:
    """a function item used as a value"""
    __slots__ = ('id', 'ty')
    def __init__(s, id, ty): s.id = id; s.ty = ty
    def __eq__(s, o): return isinstance(o, FnV) and s.id == o.id
    def __hash__(s): return hash(s.id)

class It:
    """native iterator state (slice iterators, vector iterators)"""
    __slots__ = ('kind', 'ref', 'lo', 'hi', 'x')
    def __init__(s, kind, ref, lo, hi, x=None): s.kind = kind; s.ref = ref; s.lo = lo; s.hi = hi; s.x = x
    def __eq__(s, o): return isinstance(o, It) and (s.kind, s.ref, s.lo, s.hi, s.x) == (o.kind, o.ref, o.lo, o.hi, o.x)
    def __hash__(s): return hash((s.kind, s.lo, s.hi))

class Opaque:
    """a value nothing is known about; using it in a computation gives another opaque value"""
    __slots__ = ('tag',)
    def __init__(s, tag=''): s.tag = tag
    def __repr__(s): return '?' + str(s.tag)

class Str:
    __slots__ = ('s',)
    def __init__(s, x): s.s = x
    def __eq__(s, o): return isinstance(o, Str) and s.s == o.s
    def __hash__(s): return hash(s.s)

class Ite:
    """decision node over a registered atom; leaves are any non-Ite values.  Ordered by atom id, reduced."""
    __slots__ = ('a', 't', 'e')
    def __init__(s, a, t, e): s.a = a; s.t = t; s.e = e
    def __repr__(s): return '(a%d? %r : %r)' % (s.a, s.t, s.e)
    def __eq__(s, o): return s is o or (isinstance(o, Ite) and s.a == o.a and s.t == o.t and s.e == o.e)
    def __hash__(s): return hash((s.a, s.t, s.e))

class Atoms:
    """registry of boolean atoms plus the current assumptions (the branch being analysed)"""
    def __init__(s):
        s.desc = []; s.idx = {}; s.asm = {}
    def get(s, desc):
        i = s.idx.get(desc)
        if i is None:
            i = len(s.desc); s.desc.append(desc); s.idx[desc] = i
        return i
    def mk(s, a, t, e):
        if a in s.asm: return t if s.asm[a] else e
        if t is e or eqv(t, e): return t
        if isinstance(t, Ite) and t.a <= a or isinstance(e, Ite) and e.a <= a: return s.ite(Ite(a, 1, 0), t, e)
        return Ite(a, t, e)
    def var(s, desc):
        return s.mk(s.get(desc), 1, 0)
    def top(s, v):
        while isinstance(v, Ite) and v.a in s.asm:
            v = v.t if s.asm[v.a] else v.e
        return v
    def app1(s, f, v):
        v = s.top(v)
        if isinstance(v, Ite): return s.mk(v.a, s.app1(f, v.t), s.app1(f, v.e))
        return f(v)
    def app2(s, f, x, y):
        x = s.top(x); y = s.top(y)
        ix = isinstance(x, Ite); iy = isinstance(y, Ite)
        if not ix and not iy: return f(x, y)
        if ix and iy:
            a = min(x.a, y.a)
        else: a = x.a if ix else y.a
        xt, xe = (x.t, x.e) if ix and x.a == a else (x, x)
        yt, ye = (y.t, y.e) if iy and y.a == a else (y, y)
        return s.mk(a, s.app2(f, xt, yt), s.app2(f, xe, ye))
    def ite(s, c, t, e):
        """c: 0/1-valued decision diagram"""
        c = s.top(c)
        if isinstance(c, Ite):
            t = s.top(t); e = s.top(e)
            a = c.a
            if isinstance(t, Ite): a = min(a, t.a)
            if isinstance(e, Ite): a = min(a, e.a)
            sp = lambda v, w: (v.t if w else v.e) if isinstance(v, Ite) and v.a == a else v
            return s.mk(a, s.ite(sp(c, 1), sp(t, 1), sp(e, 1)), s.ite(sp(c, 0), sp(t, 0), sp(e, 0)))
        return t if c else e
    def leaves(s, v, pc=()):
        """iterate over (cube, leaf)"""
        v = s.top(v)
        if isinstance(v, Ite):
            yield from s.leaves(v.t, pc + ((v.a, 1),))
            yield from s.leaves(v.e, pc + ((v.a, 0),))
        else: yield pc, v

def eqv(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    try: return bool(a == b)
    except Unsupported: return False
