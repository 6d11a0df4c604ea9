"""Abstract interpreter over MIR: forward dataflow with join at the immediate post-dominator of every branch
that the abstract state does not decide.  Scalars live in a pluggable domain; aggregates, references, closures and
the std containers are modelled structurally."""
import re, sys
from .vals import *
sys.setrecursionlimit(200000)

def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1): v -= 1 << bits
    return v

class Event:
    __slots__ = ('kind', 'fn', 'line', 'asm', 'msg')
    def __init__(s, kind, fn, line, asm, msg): s.kind = kind; s.fn = fn; s.line = line; s.asm = asm; s.msg = msg
    def __repr__(s): return '%s at %s:%s in %s %s' % (s.kind, s.fn.span[0], s.line, s.fn.path, s.msg)

class Interp:
    def __init__(s, prog, dom, models=None, fuel=3000000):
        s.P = prog; s.dom = dom; s.A = dom.A; dom.I = s
        s.mem = {}; s.ncell = 0
        s.models = models or {}          # path -> callable(interp, fn, args, call) -> value
        s.model_fns = []                 # callables(fn) -> callable or None
        s.events = []; s.stack = []; s.fuel = fuel; s.constcells = {}
        s.called = {}                    # path -> number of interpreted activations
        s.loop_hook = None
        s.iter_step = None               # steps of iterators the caller models
        s.stats = {'blocks': 0, 'calls': 0, 'joins': 0, 'native': 0}
        from . import natives
        s.natives = natives
    # ---- memory
    def new(s, v):
        s.ncell += 1; s.mem[s.ncell] = v; return s.ncell
    def ref(s, v): return Ref(s.new(v))
    def _get(s, v, path):
        for i, e in enumerate(path):
            v = s.A.top(v)
            if isinstance(v, Ite):
                rest = path[i:]
                return s.A.mk(v.a, s._get(v.t, rest), s._get(v.e, rest))
            if isinstance(v, Agg):
                if isinstance(e, Ite) or not isinstance(e, int): return s._sel(v, e, path[i + 1:])
                if e >= len(v.f): raise Unsupported('projection out of range')
                v = v.f[e]
            elif isinstance(v, Ref) and e == 0: pass    # Box { 0: Unique { 0: NonNull { 0: pointer } } }
            else:
                v = s.dom.project(v, e)
        return v
    def _sel(s, v, idx, rest):
        def leaf(i):
            if not isinstance(i, int): return s.dom.select(v, i)
            if i < 0 or i >= len(v.f): raise Unsupported('index out of range')
            return s._get(v.f[i], rest)
        return s.A.app1(leaf, idx)
    def _set(s, v, path, nv):
        if not path: return nv
        v = s.A.top(v)
        e = path[0]
        if isinstance(v, Ite):
            return s.A.mk(v.a, s._set(v.t, path, nv), s._set(v.e, path, nv))
        if v is None:
            raise Unsupported('write into uninitialised aggregate')
        if not isinstance(v, Agg): return s.dom.update(v, path, nv)
        if not isinstance(e, int):
            f = list(v.f)
            for i in range(len(f)):
                hit = s.A.app1(lambda k, i=i: 1 if k == i else 0, e)
                if hit == 0: continue
                f[i] = s.ite(hit, s._set(f[i], path[1:], nv), f[i])
            return Agg(v.k, v.ty, v.var, tuple(f))
        f = v.f
        if e >= len(f): raise Unsupported('store out of range')
        return Agg(v.k, v.ty, v.var, f[:e] + (s._set(f[e], path[1:], nv),) + f[e + 1:])
    def load(s, r):
        r = s.A.top(r)
        if isinstance(r, Ite): return s.A.mk(r.a, s.load(r.t), s.load(r.e))
        if not isinstance(r, Ref): return s.dom.load(r)
        v = s._get(s.mem[r.cell], r.path)
        if r.win is not None:
            o, l = r.win
            if isinstance(v, Agg) and isinstance(o, int) and isinstance(l, int): return arr(v.f[o:o + l])
        return v
    def store(s, r, v):
        r = s.A.top(r)
        if isinstance(r, Ite):
            for br, bit in ((r.t, 1), (r.e, 0)):
                old = s.load(br)
                s.store(br, s.A.mk(r.a, v, old) if bit else s.A.mk(r.a, old, v))
            return
        if not isinstance(r, Ref): raise Unsupported('store through %r' % (r,))
        if r.win is not None:
            o, l = r.win
            cur = s._get(s.mem[r.cell], r.path)
            v = Agg(cur.k, cur.ty, cur.var, cur.f[:o] + tuple(v.f) + cur.f[o + l:])
        s.mem[r.cell] = s._set(s.mem[r.cell], r.path, v)
    def elem(s, r, i):
        """reference to element i of the container r points to"""
        r = s.A.top(r)
        if isinstance(r, Ite): return s.A.mk(r.a, s.elem(r.t, i), s.elem(r.e, i))
        o = r.win[0] if r.win is not None else 0
        if isinstance(i, int): return Ref(r.cell, r.path + (i + o,), None)
        return Ref(r.cell, r.path + (s.A.app1(lambda k: k + o, i) if o else i,), None)
    def length(s, r):
        r = s.A.top(r)
        if isinstance(r, Ite): return s.A.mk(r.a, s.length(r.t), s.length(r.e))
        if isinstance(r, Ref):
            if r.win is not None: return r.win[1]
            v = s._get(s.mem[r.cell], r.path)
            return s.A.app1(lambda x: len(x.f) if isinstance(x, Agg) and x.k in 'av' else s.dom.length(x), v)
        return s.dom.length(r)
    def slice(s, r, a=0, b=None):
        """sub-slice reference"""
        r = s.A.top(r)
        n = s.length(r)
        if b is None: b = n
        o = r.win[0] if r.win is not None else 0
        if not all(isinstance(x, int) for x in (a, b, n)):
            raise Unsupported('symbolic slice bounds')
        if a > b or b > n:
            s.event('panic', 'slice index out of range'); raise Diverge()
        return Ref(r.cell, r.path, (o + a, b - a))
    # ---- conditions
    def ite(s, c, t, e):
        c = s.A.top(c)
        if not isinstance(c, Ite): return t if c else e
        return s.merge(c, t, e)
    def merge(s, c, a, b):
        if a is b: return a
        if a is None or b is None: return a if b is None else b
        ta, tb = s.A.top(a), s.A.top(b)
        if isinstance(ta, Agg) and isinstance(tb, Agg) and ta.k == tb.k and ta.var == tb.var and len(ta.f) == len(tb.f):
            if all(x is y for x, y in zip(ta.f, tb.f)): return ta
            return Agg(ta.k, ta.ty if ta.ty is not None else tb.ty, ta.var, tuple(s.merge(c, x, y) for x, y in zip(ta.f, tb.f)))
        return s.A.ite(c, ta, tb)
    def event(s, kind, msg=''):
        fn, line = s.stack[-1] if s.stack else (None, 0)
        if fn is not None: s.events.append(Event(kind, fn, line, dict(s.A.asm), msg))
    # ---- types
    def pty(s, fn, place):
        key = (place[0], len(place[1]), str(place[1])) if place[1] else place[0]
        r = fn._pty.get(key)
        if r is None:
            t = fn.locals[place[0]]; var = 0
            for e in place[1]:
                T = s.P.ty[t]
                if e == '*':
                    t = T['e'] if 'e' in T else s._boxed(T)
                elif isinstance(e, int):
                    if T['t'] == 'tuple': t = T['f'][e]
                    elif T['t'] == 'adt': t = T['v'][var]['f'][e][1]
                    else: t = None; break
                elif e[0] in ('i', 'c'): t = T['e']
                elif e[0] == 'd': var = e[1]; continue
                elif e[0] == 's': pass
                var = 0
            r = fn._pty[key] = (-1 if t is None else t)
        return None if r == -1 else r
    def _boxed(s, T): return T['args'][0]
    # ---- places
    def place(s, fr, pl):
        """-> Ref (or Ite of Refs)"""
        cell = fr[pl[0]]; path = (); win = None
        if not pl[1]: return Ref(cell)
        cur = Ref(cell)
        for e in pl[1]: cur = s.A.app1(lambda c, e=e: s._step(fr, c, e), cur)
        return cur
    def _step(s, fr, c, e):
        if e == '*':
            v = s.A.top(s.load(c)) if isinstance(c, Ref) else c
            return s.A.app1(lambda x: x if isinstance(x, Ref) else s.dom.deref(x), v)
        if isinstance(e, int): return Ref(c.cell, c.path + (e,), None)
        k = e[0]
        if k == 'd': return c
        if k == 'i':
            i = s.mem[fr[e[1]]]
            return s.elem(c, s.A.top(i))
        if k == 'c':
            n = s.length(c) if e[2] else 0
            return s.elem(c, n - e[1] if e[2] else e[1])
        if k == 's':
            n = s.length(c)
            return s.slice(c, e[1], n - e[2] if e[3] else e[2])
        raise Unsupported('projection %r' % (e,))
    def read(s, fr, pl):
        if not pl[1]: return s.mem[fr[pl[0]]]
        r = s.place(fr, pl)
        return s.load(r)
    def write(s, fr, pl, v):
        if not pl[1]: s.mem[fr[pl[0]]] = v
        else:
            # creating a struct/array field by field is allowed for uninitialised locals
            if '*' not in pl[1] and s.mem[fr[pl[0]]] is None:
                t = s.P.ty[s.curfn.locals[pl[0]]]
                n = len(t['f']) if t['t'] == 'tuple' else len(t['v'][0]['f']) if t['t'] == 'adt' else t.get('n')
                if n is None: raise Unsupported('partial init')
                s.mem[fr[pl[0]]] = Agg('a' if t['t'] == 'array' else 's', None, 0, (None,) * n)
            s.store(s.place(fr, pl), v)
    # ---- constants
    def const(s, k):
        t = k['ty']; T = s.P.ty[t]
        if 'z' in k: return s.zst(t)
        if 'u' in k: return int(k['u'])
        if 'a' in k: return s.decode(t, k['a'], 0)
        raise Unsupported('constant %s' % k.get('x'))
    def zst(s, t):
        T = s.P.ty[t]
        if T['t'] == 'fndef': return FnV(T['inst'], t)
        if T['t'] == 'tuple': return Agg('s', t, 0, tuple(s.zst(x) for x in T['f']))
        if T['t'] == 'adt':
            if T['def'] == 'std::vec::Vec': return vec(())
            return Agg('s', t, 0, tuple(s.zst(f[1]) for f in T['v'][0]['f']))
        if T['t'] == 'closure': return Agg('s', t, 0, ())
        if T['t'] == 'array': return arr(())
        return Opaque('zst')
    def decode(s, t, a, off):
        T = s.P.ty[t]; k = T['t']
        def num(o, n):
            b = a['b'][2 * o:2 * (o + n)]
            if '_' in b: return None
            return int.from_bytes(bytes.fromhex(b), 'little')
        if k == 'int':
            v = num(off, T['bits'] // 8)
            return None if v is None else wrap(v, T['bits'], T['s'])
        if k == 'bool': return num(off, 1)
        if k == 'char': return num(off, 4)
        if k == 'tuple':
            lay = T['lay']
            return Agg('s', t, 0, tuple(s.decode(f, a, off + o) for f, o in zip(T['f'], lay['f'] or [])))
        if k == 'array':
            e = T['e']; sz = s.P.ty[e]['lay']['size']
            return Agg('a', t, 0, tuple(s.decode(e, a, off + i * sz) for i in range(T['n'])))
        if k == 'adt':
            vs = T['lay']['vs']
            if T['def'] in ('std::vec::Vec',): return vec(())
            if T['kind'] == 'struct':
                offs = T['lay']['f']
                if len(T['v'][0]['f']) == 0: return Agg('s', t, 0, ())
                r = Agg('s', t, 0, tuple(s.decode(f[1], a, off + o) for f, o in zip(T['v'][0]['f'], offs)))
                return s.dom.lift_const(T, r)
            if T['kind'] == 'enum' and vs:
                m = re.search(r'length: I(\d+)', vs['tag']); tsz = int(m.group(1)) // 8 if m else 8
                to = off + T['lay']['f'][vs['tf']] if T['lay']['f'] not in (None, 'union') else off
                tag = num(to, tsz)
                ptr = None
                if not m:
                    ptr = [p for p in a['p'] if p[0] == to]
                if vs['enc'] == 'direct':
                    var = [i for i, v in enumerate(T['v']) if int(v['d']) & ((1 << 8 * tsz) - 1) == tag][0]
                else:
                    un, lo, hi, st = vs['enc']; st = int(st)
                    if ptr: var = un
                    else:
                        rel = (tag - st) & ((1 << 8 * tsz) - 1)
                        var = lo + rel if rel <= hi - lo else un
                return Agg('s', t, var, tuple(s.decode(f[1], a, off + o) for f, o in zip(T['v'][var]['f'], vs['v'][var])))
            if T['kind'] == 'enum':
                return Agg('s', t, 0, tuple(s.decode(f[1], a, off + o) for f, o in zip(T['v'][0]['f'], T['lay']['f'])))
            raise Unsupported('const of %s' % T['name'])
        if k in ('ref', 'ptr'):
            pr = [p for p in a['p'] if p[0] == off]
            E = s.P.ty[T['e']]
            if not pr: return Opaque('dangling')
            aid = pr[0][1]; base = num(off, 8)
            n = num(off + 8, 8) if E['t'] in ('slice', 'str') else None
            key = (aid, base, T['e'], n)
            if key not in s.constcells:
                al = s.P.alloc[aid]
                if 'fn' in al: return FnV(al['fn'], None)
                aa = al.get('a')
                if aa is None: return Opaque('alloc')
                if E['t'] == 'slice':
                    sz = s.P.ty[E['e']]['lay']['size']
                    v = arr(s.decode(E['e'], aa, base + i * sz) for i in range(n))
                elif E['t'] == 'str': v = Str(bytes.fromhex(aa['b'][2 * base:2 * (base + n)]).decode('utf8', 'replace'))
                else: v = s.decode(T['e'], aa, base)
                s.constcells[key] = (s.new(v), v)
            c, v = s.constcells[key]
            s.mem[c] = v
            return Ref(c, (), (0, n) if E['t'] == 'slice' else None)
        if k == 'fndef' or k == 'closure': return s.zst(t)
        if T['lay'] and T['lay']['size'] == 0: return s.zst(t)
        if k == 'fnptr':
            pr = [p for p in a['p'] if p[0] == off]
            if pr: return FnV(s.P.alloc[pr[0][1]].get('fn'), None)
        raise Unsupported('const of type %s' % T['name'])
    # ---- operands and rvalues
    def operand(s, fr, o):
        if 'c' in o: return s.read(fr, o['c'])
        if 'm' in o: return s.read(fr, o['m'])
        if 'k' in o:
            k = o['k']
            v = k.get('_v')
            if v is None:
                v = s.const(k)
                if isinstance(v, int): k['_v'] = v
            return v
        if 'RuntimeChecks' in o.get('x', '') or 'UbChecks' in o.get('x', ''): return 0
        raise Unsupported('operand %s' % o.get('x'))
    def oty(s, fn, o):
        if 'c' in o: return s.pty(fn, o['c'])
        if 'm' in o: return s.pty(fn, o['m'])
        if 'k' in o: return o['k']['ty']
        return None
    def binop(s, op, a, b, bits, signed, ty=None):
        if type(a) is int and type(b) is int: return s.cbin(op, a, b, bits, signed)
        return s.A.app2(lambda x, y: s.cbin(op, x, y, bits, signed) if type(x) is int and type(y) is int else s.dom.binop(op, x, y, bits, signed), a, b)
    def cbin(s, op, a, b, bits, signed):
        if op in ('Add', 'AddUnchecked'): return wrap(a + b, bits, signed)
        if op in ('Sub', 'SubUnchecked'): return wrap(a - b, bits, signed)
        if op in ('Mul', 'MulUnchecked'): return wrap(a * b, bits, signed)
        if op == 'BitAnd': return a & b
        if op == 'BitOr': return a | b
        if op == 'BitXor': return a ^ b
        if op in ('Shl', 'ShlUnchecked'): return wrap(a << (b % bits), bits, signed)
        if op in ('Shr', 'ShrUnchecked'): return wrap(a >> (b % bits), bits, signed)
        if op == 'Eq': return int(a == b)
        if op == 'Ne': return int(a != b)
        if op == 'Lt': return int(a < b)
        if op == 'Le': return int(a <= b)
        if op == 'Gt': return int(a > b)
        if op == 'Ge': return int(a >= b)
        if op == 'Div':
            if b == 0: raise Diverge()
            q = abs(a) // abs(b)
            return wrap(q if (a < 0) == (b < 0) else -q, bits, signed)
        if op == 'Rem':
            if b == 0: raise Diverge()
            r = abs(a) % abs(b)
            return -r if a < 0 else r
        if op == 'Cmp': return wrap((a > b) - (a < b), 8, 1)
        raise Unsupported('binop ' + op)
    def ity(s, tid):
        T = s.P.ty[tid]
        if T['t'] == 'int': return T['bits'], T['s']
        if T['t'] == 'bool': return 1, 0
        if T['t'] == 'char': return 32, 0
        return 64, 0
    def rvalue(s, fn, fr, r, dst):
        k = r[0]
        if k == 'use': return s.operand(fr, r[1])
        if k == 'ref':
            pl = r[1]
            if not pl[1]: return Ref(fr[pl[0]])
            # reborrow `&*x` keeps the pointer
            return s.place(fr, pl)
        if k in ('bin', 'cbin'):
            op = r[1]; a = s.operand(fr, r[2]); b = s.operand(fr, r[3])
            ta = s.oty(fn, r[2])
            bits, sg = s.ity(ta) if ta is not None else (64, 0)
            if op == 'Offset': raise Unsupported('pointer arithmetic')
            if op.endswith('WithOverflow') or k == 'cbin':
                op = op.replace('WithOverflow', '')
                return s.checked(op, a, b, bits, sg)
            return s.binop(op, a, b, bits, sg)
        if k == 'un':
            a = s.operand(fr, r[2])
            if r[1] == 'PtrMetadata':
                return s.length(a)
            bits, sg = s.ity(s.oty(fn, r[2]))
            def un(x):
                if type(x) is int:
                    if r[1] == 'Not': return (1 - x) if bits == 1 else wrap(~x, bits, sg)
                    if r[1] == 'Neg': return wrap(-x, bits, sg)
                return s.dom.unop(r[1], x, bits, sg)
            return s.A.app1(un, a)
        if k == 'agg':
            ak = r[1]; f = tuple(s.operand(fr, o) for o in r[2])
            if ak[0] == 'array': return arr(f)
            if ak[0] == 'tuple': return Agg('s', None, 0, f)
            if ak[0] == 'adt':
                T = s.P.ty[ak[1]]
                return s.dom.mkadt(T, Agg('s', ak[1], ak[2], f))
            if ak[0] == 'closure': return Agg('s', ak[1], 0, f)
            if ak[0] == 'rawptr':
                if isinstance(f[0], Ref) and isinstance(f[1], int): return Ref(f[0].cell, f[0].path, (f[0].win[0] if f[0].win else 0, f[1]))
            raise Unsupported('aggregate %r' % (ak,))
        if k == 'rep':
            v = s.operand(fr, r[1]); return arr((v,) * int(r[2]))
        if k == 'cast': return s.cast(fn, fr, r)
        if k == 'discr':
            v = s.read(fr, r[1]); t = s.pty(fn, r[1]); T = s.P.ty[t]
            def d(x):
                if isinstance(x, Agg): return wrap(int(T['v'][x.var]['d']), 64, 1 if int(T['v'][x.var]['d']) >> 63 else 0) if T['t'] == 'adt' else 0
                if type(x) is int: return x
                return s.dom.discr(x, T)
            return s.A.app1(d, v)
        if k == 'len':
            return s.length(s.place(fr, r[1]))
        raise Unsupported('rvalue %s' % (r[1] if len(r) > 1 else r,))
    def checked(s, op, a, b, bits, sg):
        if type(a) is int and type(b) is int:
            e = {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'Shl': a << (b % bits) if op == 'Shl' else 0, 'Shr': a >> (b % bits) if op == 'Shr' else 0}[op]
            if op in ('Shl', 'Shr'): return tup(wrap(e, bits, sg), int(not 0 <= b < bits))
            w = wrap(e, bits, sg)
            return tup(w, int(w != e))
        def f(x, y):
            if type(x) is int and type(y) is int: return s.checked(op, x, y, bits, sg)
            return s.dom.checked(op, x, y, bits, sg)
        r = s.A.app2(f, a, b)
        return s.push(r, 2)
    def push(s, v, n):
        """turn an Ite of n-tuples into a tuple of Ites"""
        v = s.A.top(v)
        if isinstance(v, Agg): return v
        return tup(*[s.A.app1(lambda x, i=i: x.f[i], v) for i in range(n)])
    def cast(s, fn, fr, r):
        kind = r[1]; v = s.operand(fr, r[2]); T = s.P.ty[r[3]]
        ot = s.oty(fn, r[2])
        if kind.startswith('IntToInt'):
            bits, sg = s.ity(r[3]); ob, osg = s.ity(ot)
            return s.A.app1(lambda x: wrap(x, bits, sg) if type(x) is int else s.dom.cast(x, ob, osg, bits, sg), v)
        if 'Unsize' in kind:
            def us(x):
                if isinstance(x, Ref) and 'e' in T and s.P.ty[T['e']]['t'] == 'slice' and x.win is None:
                    return Ref(x.cell, x.path, (0, s.length(x)))
                return x
            return s.A.app1(us, v)
        if 'PtrToPtr' in kind or 'Transmute' in kind or 'Pointer' in kind:
            if kind == 'Transmute' and isinstance(v, Ref) and s.P.ty[r[3]]['t'] == 'int': return 1 << 20   # compiler-inserted alignment and null tests of valid references
            if 'Transmute' in kind and not isinstance(v, (Ref, FnV)):
                To = s.P.ty[r[3]]
                if type(v) is int and To['t'] in ('int', 'bool'): return wrap(v, *s.ity(r[3]))
                if isinstance(v, Agg) and len(v.f) == 1: return v.f[0]
                raise Unsupported('transmute')
            return v
        raise Unsupported('cast ' + kind)
    # ---- execution
    def call(s, fn, args, info=None):
        m = s.lookup_model(fn)
        if m is not None:
            s.stats['native'] += 1
            return m(s, fn, args, info)
        if fn.blocks is None:
            raise Unsupported('no body for %s' % fn.name)
        return s.exec_fn(fn, args)
    def lookup_model(s, fn):
        if fn._native != 0 and fn._native[0] is s: return fn._native[1]
        m = s.models.get(fn.path)
        if m is None:
            for mf in s.model_fns:
                m = mf(fn)
                if m is not None: break
        if m is None and not fn.local:
            m = s.natives.lookup(fn)
        fn._native = (s, m)
        return m
    def exec_fn(s, fn, args):
        s.stats['calls'] += 1
        if fn.local: s.called[fn.path] = s.called.get(fn.path, 0) + 1
        if len(s.stack) > 400: raise Unsupported('recursion too deep')
        fr = {}
        for i in range(len(fn.locals)):
            s.ncell += 1; fr[i] = s.ncell; s.mem[s.ncell] = None
        if fn.spread is not None:
            n = fn.argc - 1
            if len(args) != fn.argc: args = list(args[:n]) + [tup(*args[n:])]
        elif len(args) != fn.argc:
            if len(args) >= 1 and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == fn.argc:
                args = list(args[:-1]) + list(args[-1].f)
            else: raise Unsupported('arity of %s' % fn.name)
        for i, a in enumerate(args): s.mem[fr[i + 1]] = a
        s.stack.append((fn, fn.span[1]))
        s_cur = getattr(s, 'curfn', None); s.curfn = fn
        depth = len(s.stack)
        try:
            st = s.run(fn, fr, 0, None)
        finally:
            del s.stack[depth - 1:]; s.curfn = s_cur
        if st == 'div': raise Diverge()
        rv = s.mem[fr[0]]
        if rv is None and s.P.ty[fn.locals[0]]['t'] == 'tuple' and not s.P.ty[fn.locals[0]]['f']: rv = tup()
        for c in fr.values(): s.mem.pop(c, None)
        return rv
    def run(s, fn, fr, bb, stop):
        """execute from bb until `stop` or return; -> 'stop' | 'ret' | 'div'"""
        while True:
            if bb == stop: return 'stop'
            if s.loop_hook is not None:
                h = s.loop_hook(s, fn, fr, bb)
                if h is not None:
                    bb = h; continue
            s.fuel -= 1
            if s.fuel < 0: raise Unsupported('iteration budget exhausted')
            s.stats['blocks'] += 1
            B = fn.blocks[bb]
            for st in B['s']:
                k = st[0]
                if k == '=':
                    s.stack[-1] = (fn, st[3])
                    s.write(fr, st[1], s.rvalue(fn, fr, st[2], st[1]))
                elif k == 'sd':
                    v = s.read(fr, st[1])
                    s.write(fr, st[1], Agg('s', v.ty if isinstance(v, Agg) else None, st[2], v.f if isinstance(v, Agg) else ()))
                elif k == 'cno': raise Unsupported('raw memory copy')
            t = B['t']; k = t[0]
            s.stack[-1] = (fn, B['l'])
            if k == 'goto': bb = t[1]
            elif k == 'drop': bb = t[2]
            elif k == 'ret': return 'ret'
            elif k == 'unreachable': return 'div'
            elif k == 'assert':
                c = s.A.top(s.operand(fr, t[1]))
                if isinstance(c, Ite) or type(c) is not int:
                    c = s.dom.assertion(c, t[2], t[3]) if hasattr(type(s.dom), 'soft') else s.dom.boolean(c)
                if isinstance(c, int):
                    if bool(c) != bool(t[2]):
                        s.event('panic', t[3]); return 'div'
                    bb = t[4]
                else:
                    if t[3] == 'Overflow' and not s.definite(c, t[2]): raise Unsupported('possible arithmetic overflow')
                    # the failing side diverges
                    with_fail = s.A.app1(lambda x: int(bool(x) != bool(t[2])), c)
                    s.cond_event('panic', with_fail, t[3])
                    s.assume(with_fail, 0)
                    bb = t[4]
            elif k == 'call':
                info = t[1]
                args = [s.operand(fr, o) for o in t[2]]
                try:
                    f = info['f']
                    if f is None:
                        fv = s.operand(fr, info['ptr']) if 'ptr' in info else None
                        if isinstance(fv, FnV) and fv.id in s.P.fn: callee = s.P.fn[fv.id]
                        else:
                            v = s.dom.unresolved_call(info, args)
                            if v is None: raise Unsupported('unresolved call %s' % info.get('def'))
                            callee = None
                    else: callee = s.P.fn[f]
                    if callee is not None:
                        if callee.path.endswith('}') and len(args) == 2 == callee.argc and '{closure#' in callee.path.rsplit('::', 1)[1]:
                            a1 = s.A.top(args[1])      # the argument tuple of a one-argument closure
                            if isinstance(a1, Agg) and len(a1.f) == 1 and (info.get('def') or '').startswith(('std::ops::Fn', 'core::ops::Fn', 'std::ops::function', 'core::ops::function')): args = [args[0], a1.f[0]]
                        info = dict(info, fn=fn, line=B['l'], dst=s.pty(fn, t[3]))
                        v = s.call(callee, args, info)
                except Diverge:
                    return 'div'
                if t[4] is None:
                    s.event('panic', info.get('res', '')); return 'div'
                s.write(fr, t[3], v)
                bb = t[4]
            elif k == 'switch':
                c = s.A.top(s.operand(fr, t[1]))
                if type(c) is not int and not isinstance(c, Ite):
                    c = s.A.top(s.dom.switch(c, [int(x[0]) for x in t[2]]))
                if type(c) is int:
                    ot = s.oty(fn, t[1]); bits, sg = s.ity(ot)
                    key = c & ((1 << bits) - 1)
                    nb = t[3]
                    for v, tg in t[2]:
                        if int(v) & ((1 << bits) - 1) == key: nb = tg; break
                    bb = nb
                else:
                    r = s.branch(fn, fr, bb, t, c, stop)
                    if isinstance(r, str): return r
                    bb = r
            elif k in ('resume', 'abort'): return 'div'
            else: raise Unsupported('terminator %s' % k)
    def assume(s, c, val):
        """refine the current assumptions with c == val when c is a single atom"""
        c = s.A.top(c)
        if isinstance(c, Ite) and type(c.t) is int and type(c.e) is int:
            s.A.asm = dict(s.A.asm); s.A.asm[c.a] = 1 if bool(c.t) == bool(val) else 0
    def cond_event(s, kind, c, msg):
        c = s.A.top(c)
        for cube, leaf in s.A.leaves(c):
            if leaf:
                sv = s.A.asm; s.A.asm = dict(sv); s.A.asm.update(cube)
                s.event(kind, msg); s.A.asm = sv
    def definite(s, c, want):
        """the overflow is real when it depends only on whether a word of the operands is zero"""
        if s.A.asm: return False
        for cube, leaf in s.A.leaves(c):
            if bool(leaf) != bool(want):
                d = [s.A.desc[a] for a, b in cube]
                if len(d) == 1 and isinstance(d[0], tuple) and d[0][0] == 'allzero': return True
        return False
    def branch(s, fn, fr, bb, t, c, stop):
        pd = fn.pdom()
        join = pd.get(bb)
        if join is None:
            join = -1
        ot = s.oty(fn, t[1]); bits, sg = s.ity(ot)
        m = (1 << bits) - 1
        def tgt(x):
            if type(x) is not int: raise Unsupported('switch on %r' % (x,))
            for v, tg in t[2]:
                if int(v) & m == x & m: return tg
            return t[3]
        tg = s.A.app1(tgt, c)
        if type(tg) is int: return tg
        s.stats['joins'] += 1
        # partition by target: decide on the top atom, recursively
        return s.branch_rec(fn, fr, tg, -2 if join == -1 else join, stop)
    def branch_rec(s, fn, fr, tg, join, stop):
        tg = s.A.top(tg)
        outer = stop
        if type(tg) is int:
            st = s.run(fn, fr, tg, join)
            return st
        a = tg.a
        sv_asm = s.A.asm; mem0 = s.mem
        outs = []
        for bit, sub in ((1, tg.t), (0, tg.e)):
            s.A.asm = dict(sv_asm); s.A.asm[a] = bit
            s.mem = dict(mem0)
            ok = s.dom.enter(a, bit)
            if not ok: continue
            if type(s.A.top(sub)) is int: st = s.run(fn, fr, s.A.top(sub), join)
            else: st = s.branch_rec_status(fn, fr, sub, join)
            s.dom.leave(a, bit)
            if st != 'div': outs.append((bit, s.mem, st, s.A.asm))
        s.A.asm = sv_asm
        if not outs:
            s.mem = mem0; return 'div'
        if len(outs) == 1:
            bit, s.mem, st, asm = outs[0]
            s.A.asm = dict(sv_asm); s.A.asm[a] = bit      # the other side diverged
        else:
            if outs[0][2] != outs[1][2]: raise Unsupported('irregular join')
            st = outs[0][2]
            m1, m0 = outs[0][1], outs[1][1]
            c = Ite(a, 1, 0)
            mem = {}
            for k, v in m1.items():
                if k in m0:
                    w = m0[k]
                    mem[k] = v if v is w else s.merge(c, v, w)
                else: mem[k] = v
            for k, v in m0.items():
                if k not in mem: mem[k] = v
            s.mem = mem
        if st == 'stop': return join if join != -2 else 'ret'
        return st
    def branch_rec_status(s, fn, fr, tg, join):
        r = s.branch_rec(fn, fr, tg, join, None)
        return 'stop' if r == join else r
    # ---- closures / function values
    def call_value(s, f, args):
        """call a closure or function value"""
        f = s.A.top(f)
        r = None
        while isinstance(f, Ref):
            r = f; f = s.A.top(s.load(f))
        if isinstance(f, FnV):
            fn = s.P.fn[f.id]
            return s.call(fn, list(args), None)
        if isinstance(f, Agg) and f.ty is not None and s.P.ty[f.ty]['t'] == 'closure':
            fn = s.P.fn[s.P.ty[f.ty]['inst']]
            t1 = s.P.ty[fn.locals[1]]['t']
            a0 = (r if r is not None else s.ref(f)) if t1 == 'ref' else f
            if len(args) + 1 != fn.argc: raise Unsupported('closure arity')
            return s.exec_fn(fn, [a0] + list(args))
        raise Unsupported('call of %r' % (f,))
