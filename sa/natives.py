"""Models of the std / num-bigint functions the crate uses.  Anything not listed falls back to the std MIR body."""
import re
from .vals import *

EXACT = {}
PATS = []
def nat(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d
def pat(rx):
    def d(f):
        PATS.append((re.compile(rx), f)); return f
    return d
_cache = {}
def lookup(fn):
    p = fn.path
    if p in _cache: return _cache[p]
    m = EXACT.get(p)
    if m is None:
        for rx, f in PATS:
            if rx.search(p): m = f; break
    _cache[p] = m
    return m

UNIT = tup()
def opt(I, info_ty, v):
    return Agg('s', info_ty, 1, (v,))
def none(ty): return Agg('s', ty, 0, ())
def some(v): return Agg('s', None, 1, (v,))
NONE = Agg('s', None, 0, ())
def isint(*a): return all(type(x) is int for x in a)
def val(I, r):
    """value behind any number of references"""
    r = I.A.top(r)
    while isinstance(r, Ref): r = I.A.top(I.load(r))
    return r
def need(I, x):
    x = I.A.top(x)
    if type(x) is not int:
        if hasattr(type(I.dom), 'leak'): I.dom.leak('an index or a size')
        raise Unsupported('symbolic value where a constant is needed')
    return x
def items(I, r):
    """list of element values of a slice/array/vec value or reference"""
    v = I.A.top(r)
    while isinstance(v, Ref): v = I.A.top(I.load(v))
    if isinstance(v, Agg) and v.k in 'av': return list(v.f)
    if isinstance(v, Ite):
        ls = [x for _, x in I.A.leaves(v)]
        if all(isinstance(x, Agg) and x.k in 'av' and len(x.f) == len(ls[0].f) for x in ls):
            return [I.A.app1(lambda x, k=k: x.f[k], v) for k in range(len(ls[0].f))]
    raise Unsupported('elements of %r' % (v,))

# ---------- panics
@pat(r'panicking::|unwrap_failed|expect_failed|slice_index_fail|len_mismatch_fail|handle_error|handle_alloc_error')
def n_panic(I, fn, args, info):
    I.event('panic', fn.path); raise Diverge()
@pat(r'precondition_check$|assert_unchecked$|cold_path$')
def n_skip(I, fn, args, info): return UNIT
@pat(r'fmt::|::to_string$|std::io::')
def n_fmt(I, fn, args, info): return Opaque('fmt')

# ---------- memory
@nat('std::mem::swap', 'core::mem::swap')
def n_swap(I, fn, a, info):
    x, y = I.load(a[0]), I.load(a[1]); I.store(a[0], y); I.store(a[1], x); return UNIT
@nat('std::mem::replace')
def n_replace(I, fn, a, info):
    x = I.load(a[0]); I.store(a[0], a[1]); return x
@nat('std::mem::take')
def n_take(I, fn, a, info):
    x = I.load(a[0])
    if isinstance(x, Agg) and x.k == 'v': I.store(a[0], vec(()))
    elif isint(x): I.store(a[0], 0)
    else: raise Unsupported('mem::take')
    return x
@nat('std::mem::drop', 'std::mem::forget')
def n_drop(I, fn, a, info): return UNIT
@pat(r'^(<.* as )?std::clone::Clone(>)?::clone$|::to_owned$|Clone>::clone$|Clone for .*>::clone$|::to_vec$|::into_vec$|Cow.*into_owned$')
def n_clone(I, fn, a, info):
    v = val(I, a[0])
    if fn.path.endswith(('to_vec', 'to_owned', 'into_vec')): return vec(items(I, a[0]))
    return v
@pat(r'^<T as std::convert::Into<U>>::into$|^<T as std::convert::From<T>>::from$|std::convert::identity|^<I as std::iter::IntoIterator>::into_iter$|Iterator>::into_iter$')
def n_ident(I, fn, a, info):
    if fn.path.endswith('Into<U>>::into'):
        T = I.P.ty[info['dst']] if info else None
        if T is not None and T['t'] == 'array' and isinstance(a[0], Agg): return arr(a[0].f)
        if isinstance(I.A.top(a[0]), (Agg, Opaque)) or T is None or T['t'] != 'int':
            pass
        if T is not None and T['t'] == 'int': return a[0]
        if T is not None and T['t'] == 'tuple': return tup(*a[0].f)
        if fn.args and len(fn.args) == 2 and fn.args[0] != fn.args[1]:
            # find the From impl in the dump
            raise Unsupported('Into::into between distinct types')
    return a[0]
@pat(r'core::tuple::<impl std::convert::From<.*> for \[')
def n_t2a(I, fn, a, info): return arr(a[0].f)
@pat(r'std::boxed::.*::new$')
def n_boxnew(I, fn, a, info): return I.ref(a[0])
@pat(r'std::boxed::.*new_uninit$')
def n_boxun(I, fn, a, info): return I.ref(Agg('s', 'MaybeUninit', 0, (None, Agg('s', 'ManuallyDrop', 0, (None,)))))
@pat(r'box_assume_init_into_vec_unsafe$')
def n_boxvec(I, fn, a, info):
    v = I.load(a[0])
    if isinstance(v, Agg) and v.ty == 'MaybeUninit': v = v.f[1].f[0]
    return vec(items(I, v))

# ---------- integers
IP = r'core::num::<impl [ui](8|16|32|64|128|size)>::'
def bits_of(fn):
    m = re.search(r'<impl ([ui])(8|16|32|64|128|size)>', fn.path)
    b = 64 if m.group(2) == 'size' else int(m.group(2))
    return b, int(m.group(1) == 'i')
@pat(IP + r'(wrapping|unchecked)_(add|sub|mul|neg|shl|shr)$')
def n_wrapping(I, fn, a, info):
    b, sg = bits_of(fn); op = fn.path.rsplit('_', 1)[1]
    if op == 'neg': return I.binop('Sub', 0, a[0], b, sg)
    return I.binop({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'shl': 'Shl', 'shr': 'Shr'}[op], a[0], a[1], b, sg)
@pat(IP + r'overflowing_(add|sub|mul)$')
def n_overf(I, fn, a, info):
    b, sg = bits_of(fn); return I.checked({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[fn.path.rsplit('_', 1)[1]], a[0], a[1], b, sg)
@pat(IP + r'carrying_add$')
def n_cadd(I, fn, a, info): return I.dom.carrying_add(a[0], a[1], a[2], 64)
@pat(IP + r'borrowing_sub$')
def n_bsub(I, fn, a, info): return I.dom.borrowing_sub(a[0], a[1], a[2], 64)
@pat(IP + r'leading_zeros$')
def n_lz(I, fn, a, info):
    b, sg = bits_of(fn)
    return I.A.app1(lambda x: b - (x & ((1 << b) - 1)).bit_length() if isint(x) else I.dom.intfn('lz', x, b), a[0])
@pat(IP + r'trailing_zeros$')
def n_tz(I, fn, a, info):
    b, sg = bits_of(fn)
    return I.A.app1(lambda x: ((x & -x).bit_length() - 1 if x else b) if isint(x) else I.dom.intfn('tz', x, b), a[0])
@pat(IP + r'count_ones$')
def n_ones(I, fn, a, info):
    b, sg = bits_of(fn)
    return I.A.app1(lambda x: bin(x & ((1 << b) - 1)).count('1') if isint(x) else I.dom.intfn('ones', x, b), a[0])
@pat(IP + r'abs_diff$')
def n_absdiff(I, fn, a, info):
    return I.A.app2(lambda x, y: abs(x - y) if isint(x, y) else I.dom.intfn('absdiff', (x, y), 0), a[0], a[1])
@pat(IP + r'pow$')
def n_pow(I, fn, a, info):
    b, sg = bits_of(fn); x, y = need(I, a[0]), need(I, a[1]); return x ** y
@pat(IP + r'div_ceil$')
def n_divc(I, fn, a, info): return -(-need(I, a[0]) // need(I, a[1]))
@pat(IP + r'is_power_of_two$')
def n_pow2(I, fn, a, info):
    x = need(I, a[0]); return int(x > 0 and x & (x - 1) == 0)
@pat(IP + r'(saturating_sub)$')
def n_satsub(I, fn, a, info):
    x, y = need(I, a[0]), need(I, a[1]); return max(0, x - y)
@pat(IP + r'(min|max)_value$')
def n_minmaxv(I, fn, a, info):
    b, sg = bits_of(fn)
    if fn.path.endswith('min_value'): return -(1 << b - 1) if sg else 0
    return (1 << (b - sg)) - 1
@pat(IP + r'to_(le|be|ne)_bytes$')
def n_tob(I, fn, a, info):
    b, sg = bits_of(fn)
    n = b // 8
    x = I.A.top(a[0])
    if isint(x): r = list((x & ((1 << b) - 1)).to_bytes(n, 'little'))
    else: r = [I.A.app1(lambda y, k=k: ((y >> 8 * k) & 255) if isint(y) else I.dom.byte(y, k), x) for k in range(n)]
    if fn.path.endswith('be_bytes'): r.reverse()
    return arr(r)
@pat(IP + r'from_(le|be|ne)_bytes$')
def n_fromb(I, fn, a, info):
    bs = items(I, a[0])
    if fn.path.endswith('from_be_bytes'): bs.reverse()
    if all(isint(x) for x in bs):
        b, sg = bits_of(fn)
        v = int.from_bytes(bytes(bs), 'little')
        return v - (1 << b) if sg and v >> (b - 1) else v
    return I.dom.from_bytes(bs)
@nat('std::cmp::min', 'std::cmp::max', 'std::cmp::Ord::min', 'std::cmp::Ord::max')
def n_min(I, fn, a, info):
    x, y = I.A.top(a[0]), I.A.top(a[1]); mn = fn.path.endswith('min')
    if isint(x, y): return min(x, y) if mn else max(x, y)
    c = I.binop('Lt' if mn else 'Ge', x, y, 64, 0)
    return I.ite(c, x, y)
@pat(r'cmp::impls::<impl std::cmp::(Ord|PartialOrd|PartialEq) for .*>::(min|max|lt|le|gt|ge|eq|ne|cmp)$')
def n_cmp(I, fn, a, info):
    op = fn.path.rsplit('::', 1)[1]
    if op in ('min', 'max'): return n_min(I, fn, a, info)
    x, y = val(I, a[0]), val(I, a[1])
    if op == 'cmp':
        c = I.binop('Cmp', x, y, 64, 1)
        return I.A.app1(lambda k: Agg('s', info['dst'] if info else None, k + 1, ()), c)
    return compare(I, op, x, y)
def compare(I, op, x, y):
    x = I.A.top(x); y = I.A.top(y)
    while isinstance(x, Ref): x = I.A.top(I.load(x))
    while isinstance(y, Ref): y = I.A.top(I.load(y))
    def leaf(u, v):
        if isinstance(u, Agg) and isinstance(v, Agg):
            if hasattr(type(I.dom), 'leak'): I.dom.cmp_agg(u, v)
            if op not in ('eq', 'ne'): raise Unsupported('ordering of aggregates')
            if u.var != v.var or len(u.f) != len(v.f): r = 0
            else:
                r = 1
                for p, q in zip(u.f, v.f): r = I.A.ite(compare(I, 'eq', p, q), r, 0)
            return r if op == 'eq' else I.A.app1(lambda z: 1 - z, r)
        if isint(u, v): return I.cbin({'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[op], u, v, 64, 0)
        return I.dom.binop({'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[op], u, v, 64, 0)
    return I.A.app2(leaf, x, y)
@pat(r'^std::cmp::Partial(Ord|Eq)::(lt|le|gt|ge|ne|eq)$|num_bigint::.*Partial(Ord|Eq).*::(eq|ne|lt|le|gt|ge)$|array::equality.*::(eq|ne)$|^(<.*> as )?.*slice::cmp.*::(eq|ne)$|core::tuple::.*Partial.*::(eq|ne)$|std::vec::partial_eq.*::(eq|ne)$|<std::option::Option<T> as std::cmp::PartialEq>::(eq|ne)$|<num_bigint::.*PartialEq>::(eq|ne)$')
def n_pcmp(I, fn, a, info): return compare(I, fn.path.rsplit('::', 1)[1], a[0], a[1])
@pat(r'<.* as std::cmp::PartialOrd>::partial_cmp$|<.* as std::cmp::Ord>::cmp$')
def n_partial(I, fn, a, info):
    x, y = val(I, a[0]), val(I, a[1])
    c = I.binop('Cmp', x, y, 64, 1)
    o = I.A.app1(lambda k: Agg('s', None, k + 1, ()), c)
    if fn.path.endswith('partial_cmp'): return I.A.app1(some, o)
    return o
@pat(r'^<&?\'?a? ?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize) as std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)<.*>>::\w+$|^<&usize as std::ops::BitXor<usize>>::bitxor$')
def n_refop(I, fn, a, info):
    m = re.search(r'as std::ops::(\w+)<', fn.path); op = m.group(1)
    t = re.search(r'(u|i)(8|16|32|64|128|size)', fn.path); b = 64 if t.group(2) == 'size' else int(t.group(2)); sg = int(t.group(1) == 'i')
    x, y = val(I, a[0]), val(I, a[1])
    if op in ('Add', 'Sub', 'Mul'):
        r = I.checked(op, x, y, b, sg)
        if r.f[1] == 1: I.event('panic', 'Overflow'); raise Diverge()
        return r.f[0]
    return I.binop(op, x, y, b, sg)

# ---------- slices, arrays, vectors
@pat(r'^(std::vec::Vec::<T.*>|core::slice::<impl \[T\]>|core::str::<impl str>|std::vec::Vec::<T, A>)::len$')
def n_len(I, fn, a, info): return I.length(a[0])
@pat(r'::is_empty$')
def n_empty(I, fn, a, info):
    v = I.A.top(a[0])
    return I.binop('Eq', I.length(v), 0, 64, 0)
@pat(r'<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|Vec.*::as_(mut_)?slice$|<impl \[T; N\]>::as_(mut_)?slice$|AsRef<\[T\]>.*::as_ref$|AsMut<\[T\]>.*::as_mut$|Borrow<\[T\]>.*::borrow$')
def n_deref(I, fn, a, info):
    def f(r):
        if not isinstance(r, Ref): return I.dom.deref_slice(r)
        return Ref(r.cell, r.path, (r.win[0] if r.win else 0, I.length(r)))
    r = I.A.top(a[0])
    if isinstance(r, Ref):
        v = I.A.top(I._get(I.mem[r.cell], r.path))
        if isinstance(v, Ite): # vector known up to a branch: keep the length if both agree
            n = I.length(r)
            if not isint(n): raise Unsupported('vector of branch-dependent length')
            return Ref(r.cell, r.path, (0, n))
        if isinstance(v, Ref): return n_deref(I, fn, [v], info)
    return I.A.app1(f, r)
@pat(r'std::ops::Index(Mut)?<I>.*>::index(_mut)?$|slice::index::<impl .*Index(Mut)?<I> for \[T\]>::index(_mut)?$|SliceIndex<\[T\]>.*::index(_mut)?$')
def n_index(I, fn, a, info):
    r, ix = a[0], a[1]
    if 'SliceIndex' in fn.path: r, ix = a[1], a[0]
    r = I.A.top(r); ix = I.A.top(ix)
    if isinstance(r, Ref):
        v = I.A.top(I._get(I.mem[r.cell], r.path))
        if isinstance(v, Ref): r = v
    if isinstance(ix, Agg):
        return range_slice(I, r, ix, fn)
    n = I.length(r)
    if isint(ix, n):
        if not 0 <= ix < n: I.event('panic', 'index out of range'); raise Diverge()
    elif isinstance(r, Ref) and not isinstance(ix, Ite):
        return I.dom.index_ref(r, ix, n)
    return I.elem(r, ix)
def range_bounds(I, ix, n):
    T = I.P.ty[ix.ty] if ix.ty is not None else None
    d = T['def'] if T else ''
    if d.endswith('RangeFull') or (len(ix.f) == 0): return 0, n
    if d.endswith('RangeFrom'): return ix.f[0], n
    if d.endswith('RangeToInclusive'): return 0, I.binop('Add', ix.f[0], 1, 64, 0)
    if d.endswith('RangeTo'): return 0, ix.f[0]
    if d.endswith('RangeInclusive'): return ix.f[0], I.binop('Add', ix.f[1], 1, 64, 0)
    if len(ix.f) == 2: return ix.f[0], ix.f[1]
    raise Unsupported('range type ' + d)
def range_slice(I, r, ix, fn=None):
    if ix.ty is None and len(ix.f) == 1:
        # type erased one-field range: recover from the instance arguments
        t = [I.P.ty[x]['def'] for x in fn.args if isinstance(x, int) and I.P.ty[x]['t'] == 'adt' and 'Range' in I.P.ty[x]['def']]
        ty = [x for x in fn.args if isinstance(x, int) and I.P.ty[x]['t'] == 'adt' and 'Range' in I.P.ty[x]['def']]
        ix = Agg('s', ty[0], 0, ix.f)
    n = I.length(r)
    a, b = range_bounds(I, ix, n)
    a = I.A.top(a); b = I.A.top(b)
    if not isint(a, b, n): return I.dom.sub_slice(r, a, b, n)
    return I.slice(r, a, b)
@pat(r'^core::slice::<impl \[T\]>::(get|get_mut)$')
def n_get(I, fn, a, info):
    r, ix = I.A.top(a[0]), I.A.top(a[1]); n = I.length(r)
    if isinstance(ix, Agg):
        lo, hi = range_bounds(I, ix, n); lo, hi = need(I, lo), need(I, hi)
        return some(I.slice(r, lo, hi)) if lo <= hi <= need(I, n) else NONE
    ix = need(I, ix)
    return some(I.elem(r, ix)) if ix < need(I, n) else NONE
@pat(r'^core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$')
def n_first(I, fn, a, info):
    n = need(I, I.length(a[0]))
    if n == 0: return NONE
    return some(I.elem(a[0], 0 if 'first' in fn.path else n - 1))
@pat(r'^core::slice::<impl \[T\]>::(copy|clone)_from_slice$|copy_from_slice_impl')
def n_copy(I, fn, a, info):
    d, s_ = a[0], a[1]; n = I.A.top(I.length(d)); m = I.A.top(I.length(s_))
    if not isint(n, m): return I.dom.copy_slices(d, s_, n, m)
    if n != m: I.event('panic', 'copy_from_slice length mismatch'); raise Diverge()
    I.store(d, arr(items(I, s_))); return UNIT
@pat(r'^core::slice::<impl \[T\]>::(fill)$')
def n_fill(I, fn, a, info):
    n = need(I, I.length(a[0])); I.store(a[0], arr([a[1]] * n)); return UNIT
@pat(r'^core::slice::<impl \[T\]>::contains$')
def n_contains(I, fn, a, info):
    x = val(I, a[1]); acc = 0
    for y in items(I, a[0]): acc = I.A.ite(I.A.top(tobool(I, compare(I, 'eq', y, x))), 1, acc)
    return acc
@pat(r'^core::slice::<impl \[T\]>::rotate_(left|right)$')
def n_rotate(I, fn, a, info):
    n = need(I, I.length(a[0])); k = need(I, a[1])
    if k > n: I.event('panic', 'rotate'); raise Diverge()
    xs = [I.load(I.elem(a[0], i)) for i in range(n)]
    if fn.path.endswith('right'): k = n - k
    for i in range(n): I.store(I.elem(a[0], i), xs[(i + k) % n])
    return UNIT
@pat(r'^std::iter::Peekable::<I>::peek(_mut)?$')
def n_peek(I, fn, a, info):
    it = I.A.top(I.load(a[0]))
    if it.n is None:
        h, x, n = step(I, it.src); it = Adapt('peekable', n, None, (h, x)); I.store(a[0], it)
    return some(I.ref(it.n[1])) if it.n[0] else NONE
@pat(r'^core::slice::<impl \[T\]>::(reverse)$')
def n_rev(I, fn, a, info):
    x = items(I, a[0]); x.reverse(); I.store(a[0], arr(x)); return UNIT
@pat(r'^core::slice::<impl \[T\]>::(swap)$')
def n_sswap(I, fn, a, info):
    p, q = I.elem(a[0], need(I, a[1])), I.elem(a[0], need(I, a[2]))
    x, y = I.load(p), I.load(q); I.store(p, y); I.store(q, x); return UNIT
@pat(r'^core::slice::<impl \[T\]>::split_at(_mut)?$')
def n_split(I, fn, a, info):
    k = need(I, a[1]); return tup(I.slice(a[0], 0, k), I.slice(a[0], k))
@pat(r'^core::slice::<impl \[T\]>::split_(first|last)(_mut)?$')
def n_splitf(I, fn, a, info):
    n = need(I, I.length(a[0]))
    if n == 0: return NONE
    if 'split_first' in fn.path: return some(tup(I.elem(a[0], 0), I.slice(a[0], 1)))
    return some(tup(I.elem(a[0], n - 1), I.slice(a[0], 0, n - 1)))
@pat(r'TryFrom<&.*\[T\]> for (&.*)?\[T; N\]>::try_from$')
def n_tryfrom(I, fn, a, info):
    N = int(fn.args[-1].split(':')[1]); n = need(I, I.length(a[0]))
    if n != N: return Agg('s', None, 1, (Opaque('err'),))
    byref = 'for &' in fn.path
    return Agg('s', None, 0, (Ref(a[0].cell, a[0].path + (), a[0].win) if byref else arr(items(I, a[0])),))
@pat(r'^<T as std::convert::TryInto<U>>::try_into$')
def n_tryinto(I, fn, a, info):
    v = I.A.top(a[0])
    T = I.P.ty[info['dst']]
    okt = I.P.ty[T['args'][0]]
    if isinstance(v, Ref):
        if okt['t'] == 'ref': N = I.P.ty[okt['e']]['n']
        else: N = okt['n']
        n = need(I, I.length(v))
        if n != N: return Agg('s', None, 1, (Opaque('err'),))
        return Agg('s', None, 0, (v if okt['t'] == 'ref' else arr(items(I, v)),))
    if okt['t'] == 'array':
        it = items(I, v)
        return Agg('s', None, 0, (arr(it),)) if len(it) == okt['n'] else Agg('s', None, 1, (v,))
    if okt['t'] == 'int' and isint(v):
        lo = -(1 << okt['bits'] - 1) if okt['s'] else 0; hi = (1 << okt['bits'] - okt['s']) - 1
        return Agg('s', None, 0, (v,)) if lo <= v <= hi else Agg('s', None, 1, (Opaque('err'),))
    raise Unsupported('try_into')
@pat(r'^std::vec::Vec::<T>::(new|with_capacity)$')
def n_vnew(I, fn, a, info): return vec(())
@pat(r'^std::vec::from_elem$')
def n_vfe(I, fn, a, info):
    n = I.A.top(a[1])
    if not isint(n): return I.dom.from_elem(a[0], n)
    return vec([a[0]] * n)
def vecval(I, r):
    v = I.A.top(I.load(r))
    if isinstance(v, Agg) and v.k in 'va': return v
    raise Unsupported('vector is %r' % (v,))
@pat(r'^std::vec::Vec::<T, A>::(push|push_mut)$')
def n_push(I, fn, a, info):
    I.store(a[0], I.A.app1(lambda v: I.dom.vpush(v, a[1]) if not isinstance(v, Agg) else vec(v.f + (a[1],)), I.load(a[0])))
    if fn.path.endswith('push_mut'): return I.elem(a[0], len(vecval(I, a[0]).f) - 1)
    return UNIT
@pat(r'^std::vec::Vec::<T, A>::pop$')
def n_pop(I, fn, a, info):
    v = vecval(I, a[0])
    if not v.f: return NONE
    I.store(a[0], vec(v.f[:-1])); return some(v.f[-1])
@pat(r'^std::vec::Vec::<T, A>::(remove|swap_remove)$')
def n_remove(I, fn, a, info):
    v = vecval(I, a[0]); k = need(I, a[1])
    if k >= len(v.f): I.event('panic', 'remove'); raise Diverge()
    if fn.path.endswith('swap_remove'):
        l = list(v.f); x = l[k]; l[k] = l[-1]; l.pop(); I.store(a[0], vec(l)); return x
    I.store(a[0], vec(v.f[:k] + v.f[k + 1:])); return v.f[k]
@pat(r'^std::vec::Vec::<T, A>::insert$')
def n_insert(I, fn, a, info):
    v = vecval(I, a[0]); k = need(I, a[1]); I.store(a[0], vec(v.f[:k] + (a[2],) + v.f[k:])); return UNIT
@pat(r'^std::vec::Vec::<T, A>::append$')
def n_append(I, fn, a, info):
    v, w = vecval(I, a[0]), vecval(I, a[1]); I.store(a[0], vec(v.f + w.f)); I.store(a[1], vec(())); return UNIT
@pat(r'^std::vec::Vec::<T, A>::extend_from_slice$|as std::iter::Extend<.*>>::extend$')
def n_extend(I, fn, a, info):
    v = I.A.top(I.load(a[0]))
    w = I.A.top(a[1])
    x = w
    while isinstance(x, Ref) and x.win is None: x = I.A.top(I.load(x))
    if not isinstance(v, Agg) or not isinstance(x, (Ref, It, Adapt, Agg)):
        I.store(a[0], I.dom.vextend(v, x)); return UNIT
    if isinstance(x, (It, Adapt)) or (isinstance(x, Agg) and x.k == 's'): xs = drain(I, x)
    else: xs = items(I, x)
    if 'Extend<&' in fn.path: xs = [val(I, y) for y in xs]
    I.store(a[0], vec(v.f + tuple(xs))); return UNIT
@pat(r'^std::vec::Vec::<T, A>::(drain|split_off)$')
def n_vdrain(I, fn, a, info):
    v = vecval(I, a[0]); n = len(v.f)
    if fn.path.endswith('split_off'):
        k = need(I, a[1])
        if k > n: I.event('panic', 'split_off'); raise Diverge()
        I.store(a[0], vec(v.f[:k])); return vec(v.f[k:])
    ix = a[1]
    if ix.ty is None:
        ty = [x for x in fn.args if isinstance(x, int) and I.P.ty[x]['t'] == 'adt' and 'Range' in I.P.ty[x]['def']]
        ix = Agg('s', ty[0] if ty else None, 0, ix.f)
    lo, hi = range_bounds(I, ix, n); lo, hi = need(I, lo), need(I, hi)
    if not lo <= hi <= n: I.event('panic', 'drain'); raise Diverge()
    I.store(a[0], vec(v.f[:lo] + v.f[hi:])); return It('val', None, 0, hi - lo, v.f[lo:hi])
@pat(r'^std::vec::Vec::<T, A>::(retain|dedup)$')
def n_vretain(I, fn, a, info):
    if fn.path.endswith('dedup'): raise Unsupported('dedup')
    v = vecval(I, a[0]); r = []
    for x in v.f:
        c = tobool(I, I.call_value(a[1], [I.ref(x)]))
        if not isint(c): raise Unsupported('data dependent retain')
        if c: r.append(x)
    I.store(a[0], vec(r)); return UNIT
@pat(r'^std::vec::Vec::<T, A>::(truncate|clear|resize|reserve|shrink_to_fit|reserve_exact)$')
def n_trunc(I, fn, a, info):
    if 'reserve' in fn.path or 'shrink' in fn.path: return UNIT
    v = vecval(I, a[0])
    if fn.path.endswith('clear'): I.store(a[0], vec(())); return UNIT
    k = need(I, a[1])
    if fn.path.endswith('truncate'): I.store(a[0], vec(v.f[:k]))
    else: I.store(a[0], vec(v.f[:k] + (a[2],) * (k - len(v.f))))
    return UNIT
@pat(r'::concat$')
def n_concat(I, fn, a, info):
    r = []
    for x in items(I, a[0]): r += items(I, x)
    return vec(r)

# ---------- iterators
@pat(r'^core::slice::<impl \[T\]>::(iter|iter_mut)$|^std::slice::iter::.*IntoIterator for &.*\[T\]>::into_iter$|IntoIterator for &.*>::into_iter$|^<&.* as std::iter::IntoIterator>::into_iter$')
def n_iter(I, fn, a, info):
    r = I.A.top(a[0])
    while isinstance(r, Ref) and r.win is None and isinstance(I.A.top(I._get(I.mem[r.cell], r.path)), Ref): r = I.A.top(I.load(r))
    n = I.length(r)
    if not isint(n): return I.dom.iter_opaque(r)
    return It('ref', Ref(r.cell, r.path, (r.win[0] if r.win else 0, n)), 0, n)
@pat(r'^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|^<\[T; N\] as std::iter::IntoIterator>::into_iter$|IntoIterator for \[T; N\]>::into_iter$')
def n_into(I, fn, a, info):
    f = tuple(items(I, a[0])); return It('val', None, 0, len(f), f)
@pat(r'^core::slice::<impl \[T\]>::(chunks|chunks_exact|windows|chunks_mut|chunks_exact_mut)$')
def n_chunks(I, fn, a, info):
    n = need(I, I.length(a[0])); k = need(I, a[1]); r = a[0]
    if 'windows' in fn.path: L = [I.slice(r, i, i + k) for i in range(n - k + 1)]
    elif 'exact' in fn.path: L = [I.slice(r, i, i + k) for i in range(0, n - k + 1, k)]
    else: L = [I.slice(r, i, min(n, i + k)) for i in range(0, n, k)]
    return It('val', None, 0, len(L), tuple(L))

def fld(I, v, name):
    T = I.P.ty[v.ty]
    for i, f in enumerate(T['v'][0]['f']):
        if f[0] == name: return i
    raise Unsupported('iterator field %s of %s' % (name, T['name']))
def tdef(I, v):
    if isinstance(v, Agg) and v.ty is not None and I.P.ty[v.ty]['t'] == 'adt': return I.P.ty[v.ty]['def']
    return ''
class Adapt:
    """native adapter chain"""
    __slots__ = ('kind', 'src', 'f', 'n')
    def __init__(s, kind, src, f=None, n=None): s.kind = kind; s.src = src; s.f = f; s.n = n
    def __eq__(s, o): return isinstance(o, Adapt) and (s.kind, s.src, s.f, s.n) == (o.kind, o.src, o.f, o.n)
    def __hash__(s): return hash(s.kind)

def tobool(I, c):
    c = I.A.top(c)
    if type(c) is not int and not isinstance(c, Ite): c = I.A.top(I.dom.boolean(c))
    return c
def step(I, it, back=False):
    """-> (has, item, new iterator); `has` must be decided"""
    it = I.A.top(it)
    if isinstance(it, It):
        if it.lo >= it.hi: return False, None, it
        i = it.hi - 1 if back else it.lo
        nx = It(it.kind, it.ref, it.lo, it.hi - 1, it.x) if back else It(it.kind, it.ref, it.lo + 1, it.hi, it.x)
        return True, (I.elem(it.ref, i) if it.kind == 'ref' else it.x[i]), nx
    if isinstance(it, Ref):
        h, x, n = step(I, I.load(it), back); I.store(it, n); return h, x, it
    if isinstance(it, Adapt):
        k = it.kind
        if k == 'rev':
            h, x, n = step(I, it.src, not back); return h, x, Adapt('rev', n)
        if k == 'map':
            h, x, n = step(I, it.src, back)
            if not h: return h, None, Adapt(k, n, it.f)
            return True, I.call_value(it.f, [x]), Adapt(k, n, it.f)
        if k in ('copied', 'cloned'):
            h, x, n = step(I, it.src, back); return h, (I.load(x) if h else None), Adapt(k, n)
        if k == 'enumerate':
            if back:
                n0 = len(drain(I, it.src))
                h, x, n = step(I, it.src, True); return h, (tup(it.n + n0 - 1, x) if h else None), Adapt(k, n, None, it.n)
            h, x, n = step(I, it.src); return h, (tup(it.n, x) if h else None), Adapt(k, n, None, it.n + (1 if h else 0))
        if k == 'zip':
            a, b = it.src
            if back:
                la, lb = count(I, a), count(I, b)
                while la > lb: _, _, a = step(I, a, True); la -= 1
                while lb > la: _, _, b = step(I, b, True); lb -= 1
            h1, x, a2 = step(I, a, back)
            if not h1: return False, None, Adapt(k, (a2, b))
            h2, y, b2 = step(I, b, back)
            return h2, (tup(x, y) if h2 else None), Adapt(k, (a2, b2))
        if k == 'repeat': return True, it.src, it
        if k == 'from_fn':
            o = I.A.top(I.call_value(it.src, []))
            if not isinstance(o, Agg): raise Unsupported('data dependent from_fn')
            return (True, o.f[0], it) if o.var == 1 else (False, None, it)
        if k == 'successors':
            o = I.A.top(it.src)
            if not isinstance(o, Agg): raise Unsupported('data dependent successors')
            if o.var != 1: return False, None, it
            return True, o.f[0], Adapt(k, I.call_value(it.f, [I.ref(o.f[0])]), it.f)
        if k == 'peekable':
            if it.n is not None: return it.n[0], it.n[1], Adapt(k, it.src)
            h, x, n = step(I, it.src, back); return h, x, Adapt(k, n)
        if k == 'filter_map':
            src = it.src
            while True:
                h, x, src = step(I, src, back)
                if not h: return False, None, Adapt(k, src, it.f)
                o = I.A.top(I.call_value(it.f, [x]))
                if not isinstance(o, Agg): raise Unsupported('data dependent filter_map')
                if o.var == 1: return True, o.f[0], Adapt(k, src, it.f)
        if k == 'inspect':
            h, x, n = step(I, it.src, back)
            if h: I.call_value(it.f, [I.ref(x)])
            return h, x, Adapt(k, n, it.f)
        if k == 'scan':
            h, x, n = step(I, it.src)
            if not h: return False, None, Adapt(k, n, it.f, it.n)
            o = I.A.top(I.call_value(it.f, [it.n, x]))
            if not isinstance(o, Agg): raise Unsupported('data dependent scan')
            return (True, o.f[0], Adapt(k, n, it.f, it.n)) if o.var == 1 else (False, None, Adapt('take', n, None, 0))
        if k == 'skip_while':
            src = it.src
            while True:
                h, x, src = step(I, src)
                if not h: return False, None, Adapt('skip', src, None, 0)
                c = tobool(I, I.call_value(it.f, [I.ref(x)]))
                if not isint(c): raise Unsupported('data dependent skip_while')
                if not c: return True, x, Adapt('skip', src, None, 0)
        if k == 'take':
            if it.n == 0: return False, None, it
            if back: raise Unsupported('take.rev')
            h, x, n = step(I, it.src); return h, x, Adapt(k, n, None, it.n - 1)
        if k == 'skip':
            src = it.src
            if back:
                if count(I, src) <= it.n: return False, None, it
                h, x, n = step(I, src, True); return h, x, Adapt(k, n, None, it.n)
            for _ in range(it.n):
                h, _x, src = step(I, src)
                if not h: return False, None, Adapt(k, src, None, 0)
            h, x, n = step(I, src); return h, x, Adapt(k, n, None, 0)
        if k == 'step_by':
            if back: raise Unsupported('step_by.rev')
            h, x, src = step(I, it.src)
            if not h: return False, None, it
            for _ in range(it.n - 1): _, _, src = step(I, src)
            return True, x, Adapt(k, src, None, it.n)
        if k == 'chain':
            a, b = it.src
            if back:
                h, x, b2 = step(I, b, True)
                if h: return h, x, Adapt(k, (a, b2))
                h, x, a2 = step(I, a, True); return h, x, Adapt(k, (a2, b2))
            h, x, a2 = step(I, a)
            if h: return h, x, Adapt(k, (a2, b))
            h, x, b2 = step(I, b); return h, x, Adapt(k, (a2, b2))
        if k == 'filter':
            src = it.src
            while True:
                h, x, src = step(I, src, back)
                if not h: return False, None, Adapt(k, src, it.f)
                c = tobool(I, I.call_value(it.f, [I.ref(x)]))
                if not isint(c): raise Unsupported('data dependent filter')
                if c: return True, x, Adapt(k, src, it.f)
        if k == 'take_while':
            h, x, src = step(I, it.src)
            if not h: return False, None, it
            c = tobool(I, I.call_value(it.f, [I.ref(x)]))
            if not isint(c): raise Unsupported('data dependent take_while')
            return (True, x, Adapt(k, src, it.f)) if c else (False, None, Adapt('take', src, None, 0))
        if k == 'flat_map' or k == 'flatten':
            if back: raise Unsupported('flat_map.rev')
            cur = it.n
            src = it.src
            while True:
                if cur is not None:
                    h, x, cur = step(I, cur)
                    if h: return True, x, Adapt(k, src, it.f, cur)
                h, y, src = step(I, src)
                if not h: return False, None, Adapt(k, src, it.f, None)
                cur = as_iter(I, I.call_value(it.f, [y]) if k == 'flat_map' else y)
    d = tdef(I, it)
    if d.endswith('ops::Range'):
        s_, e = I.A.top(it.f[0]), I.A.top(it.f[1])
        c = I.binop('Lt', s_, e, 64, 0)
        if not isint(c):
            c = I.dom.loop_bound(I, it, c)
        if not isint(c): raise Unsupported('data dependent range')
        if not c: return False, None, it
        if back: return True, I.binop('Sub', e, 1, 64, 0), Agg('s', it.ty, 0, (s_, I.binop('Sub', e, 1, 64, 0)))
        bits, sg = I.ity(I.P.ty[it.ty]['args'][0])
        return True, s_, Agg('s', it.ty, 0, (I.binop('Add', s_, 1, 128, 1), e))
    if d.endswith('ops::RangeInclusive'):
        s_, e, x = need(I, it.f[0]), need(I, it.f[1]), it.f[2]
        if x or s_ > e: return False, None, it
        if s_ == e: return True, s_, Agg('s', it.ty, 0, (s_, e, 1))
        return (True, e, Agg('s', it.ty, 0, (s_, e - 1, 0))) if back else (True, s_, Agg('s', it.ty, 0, (s_ + 1, e, 0)))
    if d.endswith('ops::RangeFrom'):
        return True, it.f[0], Agg('s', it.ty, 0, (I.binop('Add', it.f[0], 1, 64, 0),))
    if isinstance(it, Agg) and d:
        # a user-defined iterator: interpret its next()
        c = [f for f in I.P.fn.values() if f.local and f.blocks and f.path.endswith('as std::iter::Iterator>::next') and I.P.ty[f.locals[1]].get('e') == it.ty]
        if len(c) == 1 and not back:
            cell = I.ref(it); o = I.A.top(I.call(c[0], [cell], None))
            if isinstance(o, Agg): return o.var == 1, (o.f[0] if o.var == 1 else None), I.load(cell)
    if I.iter_step is not None:
        r = I.iter_step(it)
        if r is not None: return r
    raise Unsupported('iterator %r' % (it,))
def count(I, it): return len(drain(I, it))
def as_iter(I, v):
    v = I.A.top(v)
    if isinstance(v, Agg) and v.k in 'av': return It('val', None, 0, len(v.f), v.f)
    if isinstance(v, Ref):
        n = need(I, I.length(v)); return It('ref', Ref(v.cell, v.path, (v.win[0] if v.win else 0, n)), 0, n)
    return v
def drain(I, it):
    r = []
    it = as_iter(I, it) if not isinstance(it, Ref) else it
    while True:
        h, x, it = step(I, it)
        if not h: return r
        r.append(x)
        if len(r) > 200000: raise Unsupported('unbounded iterator')

@pat(r'Iterator for .*>::next$|as std::iter::Iterator>::next$|^std::iter::Iterator::next$|DoubleEndedIterator(>| for .*>)::next_back$')
def n_next(I, fn, a, info):
    try:
        it = I.A.top(I.load(a[0]))
        if isinstance(it, Ite) or isinstance(it, Opaque): r = I.dom.opaque_next(I, fn, a, info, it)
        else: r = None
        if r is not None: return r
        h, x, nx = step(I, it, fn.path.endswith('next_back'))
    except NoIter:
        return I.exec_fn(fn, a)
    I.store(a[0], nx)
    return some(x) if h else NONE
class NoIter(Exception): pass
ADAPT = {'rev': 'rev', 'map': 'map', 'enumerate': 'enumerate', 'zip': 'zip', 'take': 'take', 'skip': 'skip', 'step_by': 'step_by', 'chain': 'chain',
         'copied': 'copied', 'cloned': 'cloned', 'filter': 'filter', 'take_while': 'take_while', 'flat_map': 'flat_map', 'flatten': 'flatten'}
@nat('std::iter::repeat')
def n_repeat(I, fn, a, info): return Adapt('repeat', a[0])
@nat('std::iter::repeat_n')
def n_repeatn(I, fn, a, info): return Adapt('take', Adapt('repeat', a[0]), None, need(I, a[1]))
@nat('std::iter::once')
def n_once(I, fn, a, info): return It('val', None, 0, 1, (a[0],))
@nat('std::iter::empty')
def n_iempty(I, fn, a, info): return It('val', None, 0, 0, ())
@nat('std::iter::from_fn')
def n_ifromfn(I, fn, a, info): return Adapt('from_fn', I.ref(a[0]))
@nat('std::iter::successors')
def n_succ(I, fn, a, info): return Adapt('successors', a[0], a[1])
@pat(r'^(std::iter::Iterator|<.* as std::iter::Iterator>|std::iter::range::<impl std::iter::Iterator for .*>)::(rev|map|enumerate|zip|take|skip|step_by|chain|copied|cloned|filter|take_while|flat_map|flatten|by_ref|filter_map|inspect|skip_while|scan|peekable|fuse)$')
def n_adapt(I, fn, a, info):
    k = fn.path.rsplit('::', 1)[1]
    if k == 'by_ref': return a[0]
    if k == 'fuse': return a[0]
    src = a[0]
    if isinstance(I.A.top(src), Opaque): return src
    if k in ('zip', 'chain'): return Adapt(k, (src, as_iter(I, a[1])))
    if k in ('take', 'skip', 'step_by'): return Adapt(k, src, None, need(I, a[1]))
    if k == 'enumerate': return Adapt(k, src, None, 0)
    if k in ('map', 'filter', 'take_while', 'flat_map', 'filter_map', 'inspect', 'skip_while'): return Adapt(k, src, a[1])
    if k == 'scan': return Adapt(k, src, a[2], I.ref(a[1]))
    return Adapt(k, src)
@nat('std::iter::zip')
def n_zipf(I, fn, a, info): return Adapt('zip', (as_iter(I, a[0]), as_iter(I, a[1])))
@pat(r'::(fold|for_each|sum|product|all|any|find|position|count|last|collect|max|min|nth|unzip|rposition|reduce|try_fold|eq|find_map|len|partition|max_by_key|min_by_key|rev_fold|rfold|try_for_each|is_sorted|cmp|ne)$')
def n_consume(I, fn, a, info):
    if 'Iterator' not in fn.path and 'FromIterator' not in fn.path: return I.exec_fn(fn, a) if fn.blocks else bad(fn)
    k = fn.path.rsplit('::', 1)[1]
    it = a[0]
    if k == 'len': return count(I, I.load(it))
    if k == 'fold':
        acc = a[1]
        for x in drain_lazy(I, it): acc = I.call_value(a[2], [acc, x])
        return acc
    if k == 'reduce':
        acc = None; first = True
        for x in drain_lazy(I, it):
            acc = x if first else I.call_value(a[1], [acc, x]); first = False
        return NONE if first else some(acc)
    if k == 'for_each':
        for x in drain_lazy(I, it): I.call_value(a[1], [x])
        return UNIT
    if k in ('sum', 'product'):
        acc = 0 if k == 'sum' else 1
        bits, sg = I.ity(info['dst']) if info and info.get('dst') is not None else (64, 0)
        big = info and I.P.ty[info['dst']]['t'] != 'int'
        for x in drain_lazy(I, it):
            x = val(I, x)
            if big and isint(x, acc): acc = acc + x if k == 'sum' else acc * x
            else: acc = I.binop('Add' if k == 'sum' else 'Mul', acc, x, bits, sg)
        return acc
    if k in ('all', 'any'):
        acc = 1 if k == 'all' else 0
        for x in drain_lazy(I, it):
            c = tobool(I, I.call_value(a[1], [x]))
            acc = I.A.ite(c, acc, 0) if k == 'all' else I.A.ite(c, 1, acc)
            if acc == (0 if k == 'all' else 1) and isint(acc): break
        return acc
    if k in ('find', 'position'):
        i = 0
        for x in drain_lazy(I, it):
            c = tobool(I, I.call_value(a[1], [I.ref(x) if k == 'find' else x]))
            if not isint(c): raise Unsupported('data dependent ' + k)
            if c: return some(x if k == 'find' else i)
            i += 1
        return NONE
    if k == 'find_map':
        for x in drain_lazy(I, it):
            o = I.A.top(I.call_value(a[1], [x]))
            if not isinstance(o, Agg): raise Unsupported('data dependent find_map')
            if o.var == 1: return o
        return NONE
    if k == 'rposition':
        xs = drain(I, I.load(it) if isinstance(I.A.top(it), Ref) else it)
        for i in range(len(xs) - 1, -1, -1):
            c = tobool(I, I.call_value(a[1], [xs[i]]))
            if not isint(c): raise Unsupported('data dependent rposition')
            if c: return some(i)
        return NONE
    if k == 'rfold':
        acc = a[1]
        for x in drain(I, it)[::-1]: acc = I.call_value(a[2], [acc, x])
        return acc
    if k == 'try_fold':
        acc = a[1]; last = None
        for x in drain_lazy(I, it):
            o = I.A.top(I.call_value(a[2], [acc, x])); last = o
            if not isinstance(o, Agg): raise Unsupported('data dependent try_fold')
            d = I.P.ty[info['dst']].get('def', '') if info and info.get('dst') is not None else ''
            good = 1 if d.endswith('Option') else 0
            if o.var != good: return o
            acc = o.f[0]
        d = I.P.ty[info['dst']].get('def', '') if info and info.get('dst') is not None else ''
        if not d.endswith(('Option', 'Result')): raise Unsupported('try_fold')
        return some(acc) if d.endswith('Option') else Agg('s', None, 0, (acc,))
    if k == 'partition':
        t, f_ = [], []
        for x in drain_lazy(I, it):
            c = tobool(I, I.call_value(a[1], [I.ref(x)]))
            if not isint(c): raise Unsupported('data dependent partition')
            (t if c else f_).append(x)
        return tup(vec(t), vec(f_))
    if k in ('max_by_key', 'min_by_key'):
        xs = drain(I, it)
        if not xs: return NONE
        ks = [val(I, I.call_value(a[1], [I.ref(x)])) for x in xs]
        if not isint(*ks): raise Unsupported(k)
        return some(xs[max(range(len(ks)), key=lambda j: (ks[j], j)) if k == 'max_by_key' else min(range(len(ks)), key=lambda j: (ks[j], j))])
    if k == 'count': return count(I, it)
    if k == 'last':
        r = NONE
        for x in drain_lazy(I, it): r = some(x)
        return r
    if k == 'nth':
        n = need(I, a[1]); cur = I.load(it)
        for _ in range(n + 1):
            h, x, cur = step(I, cur)
            if not h: break
        I.store(it, cur); return some(x) if h else NONE
    if k in ('max', 'min'):
        xs = drain(I, it)
        if not xs: return NONE
        vs = [val(I, x) for x in xs]
        if not isint(*vs): raise Unsupported('max of symbolic')
        return some(xs[max(range(len(vs)), key=lambda j: (vs[j], j)) if k == 'max' else min(range(len(vs)), key=lambda j: (vs[j], j))])
    if k == 'collect':
        xs = drain(I, it)
        T = I.P.ty[info['dst']]
        if T['t'] == 'adt' and T['def'] == 'std::vec::Vec': return vec(xs)
    if k == 'unzip':
        xs = drain(I, it); return tup(vec([x.f[0] for x in xs]), vec([x.f[1] for x in xs]))
    raise Unsupported('iterator method ' + k)
def bad(fn): raise Unsupported('no model for ' + fn.path)
def drain_lazy(I, it):
    n = 0
    it = it if isinstance(I.A.top(it), Ref) else as_iter(I, it)
    while True:
        h, x, it = step(I, it)
        if not h: return
        yield x
        n += 1
        if n > 200000: raise Unsupported('unbounded iterator')
@pat(r'FromIterator<T>.*::from_iter$')
def n_fromiter(I, fn, a, info): return vec(drain(I, a[0]))
@nat('std::array::from_fn', 'core::array::from_fn')
def n_fromfn(I, fn, a, info):
    N = int([x for x in fn.args if isinstance(x, str)][0].split(':')[1])
    return arr([I.call_value(I.ref(a[0]), [i]) if False else I.call_value(a[0], [i]) for i in range(N)])
@pat(r'<impl \[T; N\]>::map$')
def n_arrmap(I, fn, a, info): return arr([I.call_value(a[1], [x]) for x in items(I, a[0])])

# ---------- closures called through the Fn traits
@pat(r'std::ops::Fn(Once|Mut)?::call(_once|_mut)?$')
def n_fncall(I, fn, a, info):
    f = a[0]
    return I.call_value(f, list(a[1].f))

# ---------- Option / Result
@pat(r'Option::<T>::(unwrap_or|unwrap_or_default)$')
def n_uor(I, fn, a, info):
    def f(x):
        if x.var == 1: return x.f[0]
        return a[1] if len(a) > 1 else 0
    return I.A.app1(f, a[0])

# ---------- big integers (num-bigint): python ints when constant
def bigop(op):
    def f(I, x, y):
        def leaf(u, v):
            if isint(u, v):
                if op == 'add': return u + v
                if op == 'sub': return u - v
                if op == 'mul': return u * v
                if op == 'div':
                    if v == 0: raise Diverge()
                    q = abs(u) // abs(v); return q if (u < 0) == (v < 0) else -q
                if op == 'rem':
                    if v == 0: raise Diverge()
                    r = abs(u) % abs(v); return -r if u < 0 else r
                if op == 'shr': return u >> v
                if op == 'shl': return u << v
                if op == 'bitand': return u & v
                if op == 'bitor': return u | v
                if op == 'bitxor': return u ^ v
            return I.dom.bigop(op, u, v)
        return I.A.app2(leaf, x, y)
    return f
@pat(r'^num_bigint::.*<impl std::ops::(Add|Sub|Mul|Div|Rem|Shr|Shl|BitAnd|BitOr|BitXor)(<.*>)? for .*>::(add|sub|mul|div|rem|shr|shl|bitand|bitor|bitxor)$|^<&?.*num_bigint::Big.* as std::ops::(Add|Sub|Mul|Div|Rem|Shr|Shl).*>::(add|sub|mul|div|rem|shr|shl)$')
def n_big(I, fn, a, info):
    op = fn.path.rsplit('::', 1)[1]
    x, y = val(I, a[0]), val(I, a[1])
    r = bigop(op)(I, x, y)
    if op == 'sub' and 'biguint' in fn.path and isint(r) and r < 0:
        I.event('panic', 'BigUint subtraction underflow'); raise Diverge()
    return r
@pat(r'^num_bigint::.*<impl std::ops::(Add|Sub|Mul|Div|Rem|Shr|Shl|BitAnd|BitOr|BitXor)Assign(<.*>)? for .*>::\w+_assign$')
def n_biga(I, fn, a, info):
    op = fn.path.rsplit('::', 1)[1].replace('_assign', '')
    I.store(a[0], bigop(op)(I, I.load(a[0]), val(I, a[1]))); return UNIT
@pat(r'^num_bigint::.*<impl std::ops::Neg for .*>::neg$')
def n_bneg(I, fn, a, info): return bigop('sub')(I, 0, val(I, a[0]))
@pat(r'^num_bigint::.*convert::<impl .*(From<[ui].*>|From<num_bigint::BigUint>).*>::from$|num_bigint::.*(to_biguint|to_bigint)$|<impl num_bigint::To(BigInt|BigUint) for .*>::|num_bigint::.*convert::<impl std::convert::From<.*')
def n_bfrom(I, fn, a, info):
    v = val(I, a[0]); nm = fn.path.rsplit('::', 1)[1]
    if nm in ('to_bigint',): return I.A.app1(some, v)
    if nm == 'to_biguint': return I.A.app1(lambda x: (some(x) if x >= 0 else NONE) if isint(x) else I.dom.to_biguint(x), v)
    return v
@nat('num_bigint::BigUint::from_slice', 'num_bigint::BigUint::new')
def n_bslice(I, fn, a, info):
    xs = items(I, a[0])
    if not isint(*xs): return I.dom.big_from_words(xs)
    return sum(x << 32 * i for i, x in enumerate(xs))
@nat('num_bigint::BigUint::from_bytes_le', 'num_bigint::BigUint::from_bytes_be')
def n_bbytes(I, fn, a, info):
    v = I.A.top(a[0])
    try: xs = items(I, v)
    except Unsupported: return I.dom.big_from_bytes(v)
    if fn.path.endswith('be'): xs.reverse()
    if not isint(*xs): return I.dom.big_from_bytes(vec(xs) if fn.path.endswith('be') else v)
    return int.from_bytes(bytes(xs), 'little')
@nat('num_bigint::BigUint::to_bytes_le', 'num_bigint::BigUint::to_bytes_be')
def n_btob(I, fn, a, info):
    v = val(I, a[0]); be = fn.path.endswith('be')
    if not isint(v):
        r = I.dom.big_to_bytes(v)
        return vec(items(I, r)[::-1]) if be else r
    return vec(v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big' if be else 'little'))
@nat('num_bigint::BigUint::to_u32_digits', 'num_bigint::BigUint::to_u64_digits')
def n_bdig(I, fn, a, info):
    v = val(I, a[0]); w = 32 if 'u32' in fn.path else 64
    if not isint(v): return I.dom.big_unk(fn, a)
    r = []
    while v: r.append(v & ((1 << w) - 1)); v >>= w
    return vec(r)
@nat('num_bigint::BigUint::bits', 'num_bigint::BigInt::bits')
def n_bbits(I, fn, a, info):
    v = val(I, a[0])
    return I.A.app1(lambda x: abs(x).bit_length() if isint(x) else I.dom.big_bits(x), v)
@nat('num_bigint::BigUint::bit')
def n_bbit(I, fn, a, info):
    v, k = val(I, a[0]), I.A.top(a[1])
    return I.A.app2(lambda x, j: (x >> j) & 1 if isint(x, j) else I.dom.big_bit(x, j), v, k)
@nat('num_bigint::BigUint::set_bit')
def n_bset(I, fn, a, info):
    v, k, b = I.load(a[0]), I.A.top(a[1]), I.A.top(a[2])
    if isint(v, k, b): r = v | (1 << k) if b else v & ~(1 << k)
    else: r = I.dom.big_set_bit(v, k, b)
    I.store(a[0], r); return UNIT
@nat('num_bigint::BigUint::pow', 'num_bigint::BigInt::pow')
def n_bpow(I, fn, a, info):
    v, k = val(I, a[0]), I.A.top(a[1])
    if isint(v, k): return v ** k
    return I.dom.bigop('pow', v, k)
@nat('num_bigint::BigUint::modpow', 'num_bigint::BigInt::modpow')
def n_bmp(I, fn, a, info):
    v, k, m = val(I, a[0]), val(I, a[1]), val(I, a[2])
    if isint(v, k, m): return pow(v, k, m)
    return I.dom.big_unk(fn, a)
@nat('num_bigint::BigInt::sign')
def n_bsign(I, fn, a, info):
    v = val(I, a[0])
    return I.A.app1(lambda x: Agg('s', info['dst'] if info else None, 0 if x < 0 else 1 if x == 0 else 2, ()) if isint(x) else I.dom.big_sign(x), v)
@nat('num_bigint::BigInt::from_bytes_le')
def n_bib(I, fn, a, info):
    sg = I.A.top(a[0])
    v = n_bbytes(I, fn, [a[1]], info)
    if isinstance(sg, Agg) and isint(v): return -v if sg.var == 0 else 0 if sg.var == 1 else v
    return I.dom.big_signed(sg, v)
@pat(r'num_traits::(identities::)?(Zero|One)::(zero|one|is_zero|is_one)$|<num_bigint::Big\w+ as num_traits::.*::(zero|one|is_zero|is_one)$|num_bigint::.*(Zero|One).*::(zero|one|is_zero|is_one)$')
def n_zo(I, fn, a, info):
    k = fn.path.rsplit('::', 1)[1]
    if k in ('zero', 'one'): return int(k == 'one')
    return compare(I, 'eq', val(I, a[0]), int(k == 'is_one'))
@pat(r'rand::|ThreadRng|RngCore|CryptoRng|RandBigInt')
def n_rng(I, fn, a, info): return I.dom.rng(fn, a, info)

# ---- further inherent operations of num-bigint, on known values
def _known(I, fn, a, f):
    vs = [val(I, x) for x in a]
    def leaf(*v):
        if isint(*v): return f(*v)
        return I.dom.big_unk(fn, a)
    if len(vs) == 1: return I.A.app1(leaf, vs[0])
    if len(vs) == 2: return I.A.app2(leaf, vs[0], vs[1])
    return leaf(*vs)
def _tz(x): return (x & -x).bit_length() - 1
@nat('num_bigint::BigUint::trailing_zeros', 'num_bigint::BigInt::trailing_zeros')
def n_btz(I, fn, a, info): return _known(I, fn, a, lambda x: some(_tz(abs(x))) if x else NONE)
@nat('num_bigint::BigUint::trailing_ones')
def n_bto(I, fn, a, info): return _known(I, fn, a, lambda x: _tz(x + 1))
@nat('num_bigint::BigUint::count_ones')
def n_bco(I, fn, a, info): return _known(I, fn, a, lambda x: bin(x).count('1'))
@nat('num_bigint::BigUint::sqrt')
def n_bsq(I, fn, a, info):
    from math import isqrt
    return _known(I, fn, a, lambda x: isqrt(x))
@nat('num_bigint::BigUint::modinv', 'num_bigint::BigInt::modinv')
def n_bmi(I, fn, a, info):
    from math import gcd
    return _known(I, fn, a, lambda x, m: some(pow(x, -1, m) if m > 1 else 0) if gcd(x, m) == 1 else NONE)
@nat('num_bigint::BigInt::magnitude')
def n_bmag(I, fn, a, info): return _known(I, fn, a, lambda x: abs(x))
@nat('num_bigint::BigUint::checked_sub')
def n_bcs(I, fn, a, info): return _known(I, fn, a, lambda x, y: some(x - y) if x >= y else NONE)
@nat('num_bigint::BigUint::checked_div')
def n_bcd(I, fn, a, info): return _known(I, fn, a, lambda x, y: some(x // y) if y else NONE)
@pat(r'^num_bigint::.*<impl std::convert::TryFrom<&?num_bigint::Big.*> for [ui](8|16|32|64|128|size)>::try_from$')
def n_btry(I, fn, a, info):
    import re as _re
    m = _re.search(r' for ([ui])(\d+|size)>::try_from', fn.path); w = 64 if m[2] == 'size' else int(m[2])
    lo, hi = (0, 1 << w) if m[1] == 'u' else (-(1 << w - 1), 1 << w - 1)
    return _known(I, fn, a[:1], lambda x: Agg('s', info['dst'] if info else None, 0, (x,)) if lo <= x < hi else Agg('s', info['dst'] if info else None, 1, (Opaque('conversion error'),)))
