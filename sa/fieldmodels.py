"""Contracts of the field operations (established by C01 for the base field and C02 for the extension), used as
transfer functions when the layers above are analysed."""
import re
from .vals import *
from .ring import R
UNIT = tup()

class SInt:
    """a symbolic machine integer entering a field multiplication"""
    __slots__ = ('r',)
    def __init__(s, r): s.r = r
    def __eq__(s, o): return isinstance(o, SInt) and s.r == o.r
    def __hash__(s): return hash(s.r)

class FieldModels:
    def __init__(s, dom, tyname):
        s.D = dom
        s.base = tyname                       # e.g. festa_rs::fields::FpFESTA::Fp
        t = re.escape(tyname)
        s.rx_m = re.compile(r'^%s::(\w+)$' % t)
        s.rx_o = re.compile(r'^<(&?)%s as std::ops::(Add|Sub|Mul|Div)(?:<(&?)%s>)?>::(add|sub|mul|div)$' % (t, t))
        s.rx_a = re.compile(r'^<%s as std::ops::(Add|Sub|Mul|Div)Assign(?:<(&?)%s>)?>::\w+$' % (t, t))
        s.rx_n = re.compile(r'^<(&?)%s as std::ops::Neg>::neg$' % t)
        s.rx_e = re.compile(r'^<%s as std::cmp::PartialEq>::(eq|ne)$' % t)
        s.rx_c = re.compile(r'^<%s as std::clone::Clone>::clone$' % t)
        s.skip = set()                        # methods not to model (they are the subject of the analysis)
        s.extra = {}
    def __call__(s, fn):
        p = fn.path
        if p in s.skip: return None
        m = s.rx_o.match(p)
        if m:
            op = m.group(4)
            return lambda I, fn, a, info: s.bin(op, a[0], a[1])
        m = s.rx_a.match(p)
        if m:
            op = m.group(1).lower()
            def f(I, fn, a, info):
                I.store(a[0], s.bin(op, a[0], a[1])); return UNIT
            return f
        m = s.rx_n.match(p)
        if m: return lambda I, fn, a, info: s.un('neg', a[0])
        m = s.rx_e.match(p)
        if m:
            ne = m.group(1) == 'ne'
            def f(I, fn, a, info):
                c = s.eqc(a[0], a[1])
                return I.A.app1(lambda z: 1 - z, c) if ne else c
            return f
        if s.rx_c.match(p): return lambda I, fn, a, info: s.D.fv(a[0])
        m = s.rx_m.match(p)
        if m: return s.method(m.group(1))
        return None
    UN = ('neg', 'square', 'half', 'mul2', 'mul3', 'mul4', 'mul8', 'invert', 'conj')
    def method(s, k):
        D = s.D
        if k in s.extra: return s.extra[k]
        if k.startswith('set_') and k[4:] in s.UN:
            if k[4:] == 'conj' and not hasattr(D, 'conj'): return None
            def f(I, fn, a, info):
                I.store(a[0], s.un(k[4:], a[0])); return UNIT
            return f
        if k in s.UN:
            if k == 'conj' and not hasattr(D, 'conj'): return None
            return lambda I, fn, a, info: s.un(k, a[0])
        if k in ('set_add', 'set_sub', 'set_mul', 'set_div', 'set_mul_old'):
            op = k.split('_')[1]
            def f(I, fn, a, info):
                I.store(a[0], s.bin(op, a[0], a[1])); return UNIT
            return f
        if k in ('mul_old', 'mul_new'):
            return lambda I, fn, a, info: s.bin('mul', a[0], a[1])
        if k == 'set_mul_small':
            def f(I, fn, a, info):
                I.store(a[0], s.small(a[0], a[1])); return UNIT
            return f
        if k == 'mul_small': return lambda I, fn, a, info: s.small(a[0], a[1])
        if k == 'iszero': return lambda I, fn, a, info: D.mask(s.zc(a[0]))
        if k == 'equals': return lambda I, fn, a, info: D.mask(s.eqc(a[0], a[1]))
        if k == 'select': return lambda I, fn, a, info: s.sel(a[0], a[1], a[2])
        if k == 'set_select':
            def f(I, fn, a, info):
                I.store(a[0], s.sel(a[1], a[2], a[3])); return UNIT
            return f
        if k == 'set_cond':
            def f(I, fn, a, info):
                I.store(a[0], s.sel(a[0], a[1], a[2])); return UNIT
            return f
        if k == 'set_condneg':
            def f(I, fn, a, info):
                I.store(a[0], s.sel(a[0], s.un('neg', a[0]), a[1])); return UNIT
            return f
        if k == 'condswap':
            def f(I, fn, a, info):
                x, y = D.fv(a[0]), D.fv(a[1])
                I.store(a[0], s.sel(x, y, a[2])); I.store(a[1], s.sel(y, x, a[2])); return UNIT
            return f
        if k in ('sum_of_products', 'difference_of_products'):
            def f(I, fn, a, info):
                x = s.bin('mul', a[0], a[1]); y = s.bin('mul', a[2], a[3])
                return s.bin('add' if k[0] == 's' else 'sub', x, y)
            return f
        if k in ('from_i32', 'from_i64', 'from_u32', 'from_u64'):
            return lambda I, fn, a, info: D.A.app1(s.ofint, D.A.top(a[0]))
        if k in ('pow_small', 'pow_u64', 'pow_u64_vartime', 'pow_big', 'pow'):
            def f(I, fn, a, info):
                e = I.A.top(a[1])
                while isinstance(e, Ref):
                    r = e; e = I.A.top(I.load(e))
                if isinstance(e, Agg) and e.k in 'av':
                    if not all(type(x) is int for x in e.f): raise Unsupported('symbolic exponent')
                    e = sum(x << 8 * i for i, x in enumerate(e.f))
                if len(a) > 2:
                    if type(a[2]) is not int: raise Unsupported('symbolic exponent length')
                    e &= (1 << a[2]) - 1 if type(e) is int else 0
                return s.power(D.fv(a[0]), e)
            return f
        if k == 'new' and D.level == 'fp2':
            def f(I, fn, a, info):
                x = I.A.top(I.load(a[0])); y = I.A.top(I.load(a[1]))
                if isinstance(x, R) or isinstance(y, R): raise Unsupported('Fp2::new')
                raise Unsupported('Fp2::new')
            return f
        return None
    def power(s, v, e):
        if type(e) is not int or e > 512: raise Unsupported('power with exponent %r' % (e,))
        D = s.D
        def f(x):
            r = D.c(1)
            for c in bin(e)[2:]:
                r = r * r
                if c == '1': r = r * x
            return r
        return D.one(f, v)
    def ofint(s, k):
        if type(k) is int: return s.D.c(k)
        if isinstance(k, SInt): return k.r
        raise Unsupported('from int %r' % (k,))
    def sel(s, x, y, ctl):
        D = s.D
        return D.A.ite(D.bool_of_mask(ctl), D.fv(y), D.fv(x))
    def zc(s, a):
        D = s.D
        return D.A.app1(lambda v: D.zero_cond(D.leaf(v)), D.fv(a))
    def eqc(s, a, b):
        D = s.D
        return D.A.app2(lambda x, y: D.eq_cond(D.leaf(x), D.leaf(y)), D.fv(a), D.fv(b))
    def un(s, op, a):
        D = s.D; v = D.fv(a)
        if op == 'neg': return D.one(lambda x: -x, v)
        if op == 'square': return D.one(lambda x: x * x, v)
        if op == 'half': return D.one(lambda x: x.scale(D.half), v)
        if op[:3] == 'mul': return D.one(lambda x: x.scale(int(op[3:])), v)
        if op == 'invert': return D.one(D.inverse, v)
        if op == 'conj': return D.one(D.conj, v)
        raise Unsupported(op)
    def bin(s, op, a, b):
        D = s.D; x, y = D.fv(a), D.fv(b)
        if op == 'add': return D.two(lambda p, q: p + q, x, y)
        if op == 'sub': return D.two(lambda p, q: p - q, x, y)
        if op == 'mul': return D.two(lambda p, q: p * q, x, y)
        if op == 'div':
            iy = D.one(D.inverse, y)
            return D.two(lambda p, q: p * q, x, iy)
        raise Unsupported(op)
    def small(s, a, k):
        D = s.D
        def f(x, k):
            if type(k) is int: return D.leaf(x).scale(k)
            if isinstance(k, SInt): return D.leaf(x) * k.r
            raise Unsupported('mul_small')
        return D.A.app2(f, D.fv(a), D.A.top(k))

class Roots:
    """contracts of the Legendre symbol and the square root: the operand is zero, a square (a fresh root r with
    r^2 = operand), or a non-square; `script` fixes the successive Legendre outcomes of a rejection loop"""
    def __init__(s, dom, fm, script=None):
        s.D = dom; s.n = 0; s.script = list(script) if script is not None else None; s.roots = []; s.seen = {}
        fm.extra.update({'legendre': s.legendre, 'sqrt': s.sqrt, 'set_sqrt': s.set_sqrt})
    def cls(s, v):
        """1 / 0 / -1 diagram for the class of v"""
        D = s.D
        def f(x):
            x = D.leaf(x)
            for y, c in s.seen.items():
                if y == x: return c
            z = D.zero_cond(x)
            if s.script is not None and z != 1:
                if not s.script: raise Unsupported('more Legendre symbols than expected')
                c = s.script.pop(0)
                if c == 0: raise Unsupported('scripted zero')
            else: c = D.A.ite(z, 0, D.A.ite(D.A.var(('square', x)), 1, -1)) if z != 1 else 0
            s.seen[x] = c
            return c
        return D.A.app1(f, v)
    def root(s, v):
        D = s.D
        def f(x):
            x = D.leaf(x)
            for y, r in s.roots:
                if y == x: return r
            s.n += 1; nm = 'rt%d' % s.n
            r = D.sym(nm)
            n = x.n
            if not x.d.isconst():
                # root of n/d as root of n*d over d
                n = x.n * x.d; q = R(r.n, x.d)
            else: n = n * pow(x.d.constval(), -1, D.p); q = r
            D.R.rule(nm, n)
            s.roots.append((x, q))
            return q
        return D.A.app1(f, v)
    def both(s, v):
        D = s.D; c = s.cls(v)
        ok = D.A.app1(lambda k: int(k >= 0), c)
        pos = D.A.app1(lambda k: int(k == 1), c)
        r = D.A.ite(pos, s.root(v), D.c(0)) if pos != 0 else D.c(0)
        return r, D.mask(ok)
    def legendre(s, I, fn, a, info): return s.cls(s.D.fv(a[0]))
    def sqrt(s, I, fn, a, info):
        r, ok = s.both(s.D.fv(a[0])); return tup(r, ok)
    def set_sqrt(s, I, fn, a, info):
        r, ok = s.both(s.D.fv(a[0])); I.store(a[0], r); return ok

FP = 'festa_rs::fields::FpFESTA::Fp'
FP2 = 'festa_rs::fields::FpFESTAExt::Fp2'
