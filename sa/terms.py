"""Uninterpreted terms: value numbering of compositions of already analysed operations."""
from .vals import *
from .ring import Dom
from .interp import Interp
from .harness import Sess

class Term:
    __slots__ = ('op', 'a', '_h')
    def __init__(s, op, *a): s.op = op; s.a = a; s._h = hash((op, a))
    def __eq__(s, o): return s is o or (isinstance(o, Term) and s._h == o._h and s.op == o.op and s.a == o.a)
    def __hash__(s): return s._h
    def __repr__(s): return s.op if not s.a else '%s(%s)' % (s.op, ', '.join(map(repr, s.a)))

class TermS(Sess):
    def __init__(s, P, fuel=20000000):
        D = Dom(); D.level = 'term'
        s.P = P; s.D = D; s.A = D.A; s.I = Interp(P, D, fuel=fuel); s.level = 'term'
    def val(s, v):
        v = s.A.top(v)
        while isinstance(v, Ref):
            r = v; v = s.A.top(s.I.load(v))
        if isinstance(v, Agg) and v.k in 'av': return tuple(s.val(x) for x in v.f)
        return v
    def uf(s, path, op, arity=None, into=None):
        """model `path` as the uninterpreted operation op of its (dereferenced) arguments"""
        def m(I, fn, a, info):
            t = Term(op, *[s.val(x) for x in (a if arity is None else a[:arity])])
            return t if into is None else into(t)
        s.I.models[path] = m
    def panics(s):
        ev = [e for e in s.I.events if e.kind == 'panic']
        return 'can panic: %r' % ev[0] if ev else None
