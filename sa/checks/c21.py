"""C21: the by-value, by-reference, assigning, in-place and returning forms of each operation agree; equality and hashing are consistent."""
import re
from ..prog import load, MissingAnchor
from ..harness import *
from ..terms import Term, TermS
from ..grp import Lin
from ..report import Report, where
from . import c01, c02, c04
FPT, FP2T, EC = 'festa_rs::fields::FpFESTA::Fp', 'festa_rs::fields::FpFESTAExt::Fp2', 'festa_rs::ecFESTA::'
RULE = ('Value numbering: every form of an operation is interpreted with opaque operands, all other operations of the catalogue being replaced by one uninterpreted operation each (the same for all forms); its result must be that operation of its '
        'operands, whatever the previous contents of the destination. A form that is composed of other operations is evaluated in the field, or in the free abelian group of points; a form that computes on coordinates or limbs itself is '
        'decided semantically by the obligations of C01, C02 and C04 on its body. No operand type has interior mutability.')
# (operation, [(method, mode)]): acc: first argument is operand and destination; ret: returned; into: the first &mut argument is the destination only
def pairs(names): return [(n, [('set_' + n, 'acc'), (n, 'ret')]) for n in names]
FIELD = pairs(['half', 'mul2', 'mul3', 'mul4', 'mul8', 'square', 'invert', 'sqrt', 'fourth_root', 'mul_small', 'pow', 'pow_ext'])
FORMS = {
 FPT: FIELD + [('select', [('set_select', 'into'), ('select', 'ret')]), ('decode_reduce', [('set_decode_reduce', 'into'), ('decode_reduce', 'ret')]),
               ('montylin', [('set_montylin', 'into'), ('montylin', 'ret')]), ('lindiv31abs', [('set_lindiv31abs', 'into'), ('lindiv31abs', 'ret')])],
 FP2T: FIELD + pairs(['conj', 'mul_old', 'pow_u64', 'pow_u64_vartime']) + [('select', [('set_select', 'into'), ('select', 'ret')])],
 EC + 'Curve': [('add', [('add_into', 'into'), ('addto', 'acc'), ('add', 'ret')]), ('sub', [('sub_into', 'into'), ('subfrom', 'acc'), ('sub', 'ret')]),
           ('double', [('double_into', 'into'), ('double_self', 'acc'), ('double', 'ret')]), ('mul', [('mul_into', 'into'), ('mul', 'ret')]),
           ('mul_small', [('mul_small_into', 'into'), ('mul_small', 'ret')]), ('complete_pointX', [('complete_pointX_into', 'into'), ('complete_pointX', 'ret')]),
           ('set_xy', [('set_xy', 'into'), ('point_xy_vartime', 'opt')]), ('set_xyz', [('set_xyz', 'into'), ('point_xyz_vartime', 'opt')]),
           ('xy_nocheck', [('set_xy_nocheck', 'into'), ('point_xy_nocheck', 'ret')]), ('xyz_nocheck', [('set_xyz_nocheck', 'into'), ('point_xyz_nocheck', 'ret')]),
           ('rand_point', [('set_rand_point', 'into'), ('rand_point', 'ret')])],
}
OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Neg': 'neg'}

class Form:
    def __init__(s, fn, op, mode): s.fn = fn; s.op = op; s.mode = mode

def catalogue(P):
    """operation -> forms, for every operand type"""
    G = {}; missing = []
    def add(T, op, fn, mode): G.setdefault((T, op), []).append(Form(fn, op, mode))
    for T, ops in FORMS.items():
        for op, fs in ops:
            for n, mode in fs:
                f = [x for x in P.find(T + '::' + n) if x.blocks is not None and x.path == T + '::' + n]
                if len(f) == 1: add(T, op, f[0], mode)
                else: missing.append(T + '::' + n)
    nops = 0
    for T in (FPT, FP2T, EC + 'Point'):
        for o in ('add', 'sub', 'mul', 'div', 'neg'):
            f = [x for x in P.fn.values() if x.path == T + '::set_' + o and x.blocks is not None]
            if len(f) == 1: add(T, o, f[0], 'acc')
        for f in P.fn.values():
            m = re.match(r'^<(&?)%s as std::ops::(Add|Sub|Mul|Div|Neg)(Assign)?(?:<(&?)%s>)?>::\w+$' % (T, T), f.path)
            if m and f.blocks is not None: add(T, OPS[m.group(2)], f, 'acc' if m.group(3) else 'ret'); nops += 1
    return G, missing, nops

def shape(P, form):
    """indices of the destination (or None) and of the operands"""
    f = form.fn; n = f.argc
    ismut = [P.ty[t]['t'] == 'ref' and P.ty[t].get('mut') for t in f.locals[1:1 + n]]
    if form.mode in ('ret', 'opt'): return None, list(range(n))
    # the random generator is an operand although it is mutable: destinations are of the operand types
    d = [i for i in range(n) if ismut[i] and pointee(P, f.locals[1 + i])]
    if not d: raise Unsupported('no destination in %s' % f.path)
    return d[0], [i for i in range(n) if i != d[0] or form.mode == 'acc']
def pointee(P, t):
    t = P.ty[t]
    e = P.ty[t.get('e', t.get('to', t.get('ty')))]
    return e['t'] == 'adt' and re.search(r'::(Fp|Fp2|Point)$', e.get('name', '')) is not None

class FormS(TermS):
    def __init__(s, P, G, but):
        TermS.__init__(s, P, fuel=2000000)
        s.called = set()
        from ..ring import modulus, nlimbs
        fp, fp2 = P.adt('FpFESTA::Fp'), P.adt('FpFESTAExt::Fp2'); p = modulus(P); mi = pow(1 << 64 * nlimbs(P), -1, p)
        def lift(T, v):
            if T['id'] == fp and all(type(x) is int for x in v.f[0].f): return Term('K', sum(x << 64 * k for k, x in enumerate(v.f[0].f)) * mi % p)
            if T['id'] == fp2 and all(isinstance(x, Term) and x.op == 'K' for x in v.f): return Term('K', v.f[0].a[0], v.f[1].a[0])
            return v
        s.D.lift_const = lift
        for (T, op), fs in G.items():
            for f in fs: s.I.models[f.fn.path] = s.model(T, f)
        s.but = but
    def ins(s, P, form, a):
        d, idx = shape(P, form)
        xs = [s.val(a[i]) for i in idx]
        if form.op in ('rand_point',): xs = sorted(xs, key=lambda x: 'rng' in repr(x))
        return d, tuple(xs)
    def model(s, T, form):
        name = T.rsplit('::', 1)[1] + '.' + form.op
        def m(I, fn, a, info):
            d, xs = s.ins(s.P, form, a)
            s.called.add(form.fn.path)
            t = Term(name, *xs); extra = Term(name + '#', *xs)
            rt = s.P.ty[form.fn.locals[0]]
            if form.mode == 'opt': raise Unsupported('optional form used')
            if d is None:
                if rt['t'] == 'tuple' and rt['f']: return tup(t, extra)
                return t
            I.store(a[d], t)
            return UNIT if rt['t'] == 'tuple' and not rt['f'] else extra
        return m

UNIT = tup()
IVALS = [0, 1, 2, 3, 4, 5, 7, 255, 256, 65537, (1 << 31) - 1, -1, -2, -(1 << 31), (1 << 32) + 3, (1 << 63) + 5, (1 << 64) - 1]
def intvals(P, form):
    """values tried for the integer operands of a form when opaque ones do not decide it"""
    ts = [P.ty[t] for t in form.fn.locals[1:1 + form.fn.argc] if P.ty[t]['t'] == 'int']
    if len(ts) != 1: return []
    b, sg = ts[0]['bits'], ts[0]['s']
    return [v for v in IVALS if (-(1 << b - 1) <= v < 1 << b - 1 if sg else 0 <= v < 1 << b)]
def operands(s, P, form, iv=None):
    """opaque operands; a: the first, b: the second, ..."""
    f = form.fn; d, idx = shape(P, form); args = []; k = 0
    for i in range(f.argc):
        t = P.ty[f.locals[1 + i]]
        if i == d and i not in idx: args.append(s.ref(Term('junk'))); continue
        rng = 'Rng' in str(t.get('name', '')) or (t['t'] == 'ref' and P.ty[t.get('e', t.get('to', t.get('ty')))]['t'] in ('param',) or 'ThreadRng' in str(P.ty[t.get('e', t.get('to', t.get('ty')))].get('name', '')) if t['t'] == 'ref' else False)
        v = Term('rng') if rng else Term('abcdefg'[k]); 
        if not rng: k += 1
        if t['t'] == 'int' and iv is not None: args.append(iv); continue
        if t['t'] == 'ref':
            e = P.ty[t.get('e', t.get('to', t.get('ty')))]
            if e['t'] == 'slice':
                r = s.ref(arr([Term('%r%d' % (v, j)) for j in range(4)])); args.append(Ref(r.cell, r.path, (0, 4)))
            else: args.append(s.ref(v))
        else: args.append(v)
    return d, args

def outcome(s, P, form, iv=None):
    """(value, extra value, operands) after running the body of the form"""
    d, args = operands(s, P, form, iv)
    xs = s.ins(P, form, args)[1]
    M = s.I.models.pop(form.fn.path)
    r = s.A.top(s.exec(form.fn, *args))
    for i in range(form.fn.argc):
        t = P.ty[form.fn.locals[1 + i]]
        if i != d and t['t'] == 'ref' and not t.get('mut'):
            v = s.val(args[i]); w = operands(s, P, form, iv)[1][i]
            if v != s.val(w): raise Changed('the operand %d passed by reference is changed' % i)
    if d is None:
        if isinstance(r, Agg) and P.ty[form.fn.locals[0]]['t'] == 'tuple' and len(r.f) == 2: return s.val(r.f[0]), s.val(r.f[1]), xs
        return r, None, xs
    return s.val(args[d]), (None if isinstance(r, Agg) and not r.f else r), xs
class Changed(Exception): pass

# ---- evaluation of composed forms
def subterms(t):
    if isinstance(t, Term):
        yield t
        for x in t.a: yield from subterms(x)
def evaluate(P, T, t, env):
    if not isinstance(t, Term): raise Unsupported('value %r' % (t,))
    if t.op == 'K':
        c = env(None).c
        return c(t.a[0]) if len(t.a) == 1 else c(t.a[0]) + R(env(None).D.i) * c(t.a[1])
    if not t.a: return env(t.op)
    own, op = t.op.split('.', 1)
    if T == EC + 'Curve' or T == EC + 'Point':
        z = [x for x in t.a]
        if own == 'Curve':
            if z[0] != Term('a'): raise Unsupported('another curve')
            z = z[1:]
        if own not in ('Curve', 'Point'): raise Unsupported('operation %s' % t.op)
        if op == 'mul_small' and type(z[1]) is int: return evaluate(P, T, z[0], env).scale(z[1])
        if not z: return Lin(0)
        xs = [evaluate(P, T, x, env) for x in z if op not in ('mul', 'mul_small')]
        if op == 'add': return xs[0] + xs[1]
        if op == 'sub': return xs[0] - xs[1]
        if op == 'neg': return xs[0].scale(-1)
        if op == 'double': return xs[0].scale(2)
        raise Unsupported('operation %s' % t.op)
    if own != T.rsplit('::', 1)[1]: raise Unsupported('operation %s' % t.op)
    if op == 'mul_small' and type(t.a[1]) is int: return evaluate(P, T, t.a[0], env).scale(t.a[1])
    if op == 'mul_small': raise Unsupported('operation %s' % t.op)
    xs = [evaluate(P, T, x, env) for x in t.a]
    f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'mul_old': lambda a, b: a * b, 'neg': lambda a: -a, 'square': lambda a: a * a,
         'half': lambda a: a.scale((P_half(P))), 'mul2': lambda a: a.scale(2), 'mul3': lambda a: a.scale(3), 'mul4': lambda a: a.scale(4), 'mul8': lambda a: a.scale(8),
         'div': lambda a, b: a * b.inv(), 'invert': lambda a: a.inv()}.get(op)
    if f is None: raise Unsupported('operation %s' % t.op)
    return f(*xs)
def P_half(P):
    from ..ring import modulus
    return pow(2, -1, modulus(P))

def agree(P, G, T, form, semantic):
    try: return agree1(P, G, T, form, semantic)
    except Unsupported:
        vs = intvals(P, form)
        if not vs: raise
        for v in vs:
            e = agree1(P, G, T, form, lambda f: None, v)
            if e: return 'for the integer %d: %s' % (v, e)
        form.how += ' (integers %s)' % vs
        return None

def agree1(P, G, T, form, semantic, iv=None):
    """None when the form is its operation of its operands; otherwise a message"""
    want = T.rsplit('::', 1)[1] + '.' + form.op
    try:
        s = FormS(P, G, form)
        if form.mode == 'opt': return optional(s, P, T, form, want)
        v, extra, xs = outcome(s, P, form, iv)
    except Changed as e: return str(e)
    except Diverge: return 'no path returns'
    except Unsupported as e:
        r = coordinates(P, T, form)
        if r is not NotImplemented: form.how = 'coordinates'; return r
        # the form computes on limbs or coordinates itself
        st = semantic(form)
        if st is None: raise Unsupported('computes itself (%s) and is not covered by C01, C02 or C04' % e)
        bad = [x for x in st if x[0] == 'bad']; un = [x for x in st if x[0] == 'undecided']
        if bad: return '%s: %s' % (bad[0][1], bad[0][3])
        if un: raise Unsupported('%s: %s' % (un[0][1], un[0][3]))
        form.how = 'body decided by %d semantic obligations' % len(st)
        return None
    w = Term(want, *xs)
    if s.panics(): return s.panics()
    if v == w:
        if extra is not None and extra != Term(want + '#', *xs):
            return 'the status returned is %r instead of that of %s' % (extra, form.op)
        form.how = 'is %r' % (v,)
        return None
    if any(x.op == 'junk' for x in subterms(v)): return 'the result %r depends on the previous contents of the destination' % (v,)
    # composed of other operations: evaluate
    d = {}
    try:
        if T in (FPT, FP2T):
            D = Sess(P, 'fp' if T == FPT else 'fp2')
            def env(n):
                if n is None: return D
                if n not in d: d[n] = D.sym(n); D.D.nonzero.append(d[n].n)
                return d[n]
            x, y = evaluate(P, T, v, env), evaluate(P, T, w, env)
            e = D.equal(x, y)
            if e: return 'is %r: %s' % (v, e)
        else:
            def env(n): return Lin(0, {n: 1})
            x, y = evaluate(P, T, v, env), evaluate(P, T, w, env)
            if x != y: return 'is %r, that is %r instead of %r' % (v, x, y)
        form.how = 'composed: %r' % (v,)
        return None
    except Unsupported as ex:
        r = coordinates(P, T, form)
        if r is not NotImplemented: form.how = 'coordinates'; return r
        if isinstance(v, Term) and v.op == want and set(map(repr, v.a)) <= {repr(x) for x in xs}: return 'is %r instead of %r' % (v, w)
        if isinstance(v, Term) and not v.a: return 'is %r instead of %r' % (v, w)
        raise Unsupported('composed as %r: %s' % (v, ex))

def coordinates(P, T, form):
    """constructors from coordinates without a check"""
    if form.op not in ('xy_nocheck', 'xyz_nocheck'): return NotImplemented
    s = Sess(P, 'fp2'); d, idx = shape(P, form); args = []; xs = []; t = P.adt('ecFESTA::Point')
    E = s.exec(P.one(EC + 'Curve::new'), s.ref(s.sym('A')))
    for i in range(form.fn.argc):
        if i == 0: args.append(E if P.ty[form.fn.locals[1]]['t'] != 'ref' else s.ref(E))
        elif i == d: args.append(s.ref(Agg('s', t, 0, tuple(s.sym('junk%d' % j) for j in range(3)))))
        else: v = s.sym('xyz'[len(xs)]); xs.append(v); args.append(s.ref(v))
    r = s.exec(form.fn, *args); v = s.load(args[d]) if d is not None else r
    x, y, z = [s.A.top(v.f[P.fieldidx(t, n)]) for n in 'XYZ']
    if len(xs) == 2: xs.append(s.c(1))
    return s.equal(tup(x, y, z), tup(*xs), what='coordinates')

def optional(s, P, T, form, want):
    """Some(result) exactly when the checked form reports success"""
    from ..vals import Ite
    for ok in (0, MASK1):
        s = FormS(P, {k: v for k, v in FORMG.items()}, form)
        base = [f for f in FORMG[(T, form.op)] if f.mode == 'into'][0]
        seen = []
        def m(I, fn, a, info):
            d, xs = s.ins(P, base, a); seen.append(xs); I.store(a[d], Term(want, *xs)); return ok
        s.I.models[base.fn.path] = m; s.I.models.pop(form.fn.path, None)
        d, args = operands(s, P, form); xs = s.ins(P, form, args)[1]
        r = s.A.top(s.exec(form.fn, *args))
        if not seen: raise Unsupported('does not use %s' % base.fn.path)
        if not isinstance(r, Agg): raise Unsupported('result %r' % (r,))
        if ok == 0 and r.f: return 'gives a point although %s reports failure' % form.op
        if ok and not r.f: return 'gives no point although %s reports success' % form.op
        if ok and s.val(r.f[0]) != Term(want, *xs): return 'gives %r instead of %r' % (s.val(r.f[0]), Term(want, *xs))
    form.how = 'optional form'
    return None
FORMG = None

def run(R_):
    global FORMG
    P = load()
    G, missing, nops = catalogue(P); FORMG = G
    R_.assume += ['the semantic obligations of the bodies that compute on limbs and coordinates are those of C01, C02, C04 (their assumptions apply)']
    # semantic obligations of the bodies
    c01jobs, _ = c01.obligations(P)
    c01j = {k: (k, f, w) for k, f, w in c01jobs if k.split(':')[0] in ('op', 'method', 'select', 'test', 'hashcode')}
    sub = Report('C21', '')
    c02.run(sub); r04 = Report('C21', ''); c04.run(r04)
    def keyed(obs, pred): return [o for o in obs if pred(o[1])]
    # the word-level obligations run in parallel, only for the forms that need them
    need = {}
    def names01(form):
        p = form.fn.path; n = p.rsplit('::', 1)[-1]
        if p.startswith('<'): return [k for k in c01j if k == 'op:' + p.replace('festa_rs::fields::FpFESTA::', '')]
        return [k for k in c01j if re.match(r'(method|select|test):%s(:.*)?$' % n, k)]
    res01 = {}
    def semantic(form):
        p = form.fn.path; n = p.rsplit('::', 1)[-1]
        if 'FpFESTA::Fp' in p and 'FpFESTAExt' not in p:
            ks = names01(form)
            if not ks: return None
            if ks[0] not in res01 and PASS == 0: NEED.update(ks); return []
            return [res01[k] for k in ks]
        if 'Fp2' in p:
            if p.startswith('<'): r = keyed(sub.obs, lambda k: k.split('/')[0] == 'operator:' + p.replace(FP2T, 'Fp2'))
            else: r = keyed(sub.obs, lambda k: re.match(r'(identity|predicate|select):%s(/.*)?$' % n, k))
            return r or None
        if 'ecFESTA' in p:
            if p.startswith('<') or n == 'set_neg': r = keyed(r04.obs, lambda k: k.startswith('neg:' + p.replace(EC, '')))
            else: r = keyed(r04.obs, lambda k: k.split('/')[0] == n)
            return r or None
    NEED = set(); PASS = 0
    allforms = [(T, f) for (T, op), fs in G.items() for f in fs]
    for T, f in allforms:
        try: agree(P, G, T, f, semantic)
        except Exception: pass
    if NEED:
        w = Report('C21', ''); w.parallel([c01j[k] for k in sorted(NEED)])
        res01.update({o[1]: o for o in w.obs})
    PASS = 1
    own = 0
    for (T, op), fs in sorted(G.items()):
        direct = 0
        for f in fs:
            f.how = ''
            key = '%s:%s' % (T.rsplit('::', 1)[1], f.fn.path.replace('festa_rs::fields::', '').replace('festa_rs::', ''))
            # forms without a body of their own that could be decided: roots of C07, C05, ... are the definition of their group
            def go(T=T, f=f): return agree(P, G, T, f, semantic)
            roots = [x for x in fs if x.mode in ('acc', 'into')]
            if f is definition(P, G, T, fs): R_.ok(key, where(f.fn), 'definition of the group; the other forms are compared with it'); own += 1; continue
            R_.attempt(key, go, where(f.fn))
    R_.floor('forms', len(allforms), 115)
    R_.floor('operator implementations', nops, 54)
    # ---- equality and hashing
    for T, n in ((FPT, 'Fp'), (FP2T, 'Fp2')):
        for k, r in [(o[1], o) for o in sub.obs if n == 'Fp2' and o[1] in ('predicate:eq', 'predicate:equals', 'predicate:iszero')]: R_.obs.append((r[0], '%s %s' % (n, k), r[2], r[3]))
    w = Report('C21', ''); w.parallel([c01j[k] for k in ('test:equals', 'test:iszero', 'hashcode') if k in c01j])
    for o in w.obs: R_.obs.append((o[0], 'Fp ' + o[1], o[2], o[3]))
    hashes(R_, P)
    inputs_eq(R_, P)
    immutability(R_, P, allforms)
    R_.extra.update(level='proof', forms=[('%s' % f.fn.path, f.op, f.mode, f.how) for T, f in allforms], absent=missing)

def definition(P, G, T, fs):
    """the one form of a group without semantic coverage elsewhere that is not defined by another form"""
    op = fs[0].op
    if op in ('add', 'sub', 'mul', 'neg', 'double', 'square', 'half', 'mul2', 'mul3', 'mul4', 'mul8', 'select', 'mul_small', 'conj', 'invert', 'mul_old', 'div') and not (T == EC + 'Curve' and op in ('mul', 'mul_small')) \
        and not (T == FPT and op in ('invert', 'div')): return None
    own = [(f, selfmade(P, G, T, f)) for f in fs]
    own = [f for f, k in own if k == 2] or [f for f, k in own if k]
    return own[0] if len(own) == 1 else None
def selfmade(P, G, T, f):
    """0: the form goes through another form of its own group; 1: it is composed of other operations; 2: it computes itself"""
    if f.mode == 'opt': return False
    paths = {x.fn.path for x in G[(T, f.op)]}
    k = 1
    for iv in [None] + intvals(P, f):
        s = FormS(P, G, f)
        try: outcome(s, P, f, iv)
        except Changed: pass
        except Exception: k = 2
        if s.called & paths: return 0
    return k

def hashes(R_, P):
    """equal elements hash alike: the hash input is a function of the canonical value"""
    fs = [f for f in P.fn.values() if f.path == '<%s as std::hash::Hash>::hash' % FPT and f.blocks is not None]
    for f in fs:
        def go(f=f):
            S = c01.WS(P); a, A = S.elem('a'); fed = []
            def unres(info, args):
                n = str(info.get('def'))
                if 'std::hash::' not in n: return None
                if n.endswith('write_length_prefix'): return UNIT
                x = S.D.A.top(args[0] if n.endswith('Hash::hash') else args[1])
                while isinstance(x, Ref): x = S.D.A.top(S.I.load(x))
                fed.append(x); return UNIT
            S.D.unresolved_call = unres
            def hs(I, fn, v, info):
                from ..natives import items
                fed.extend(S.D.A.top(x) for x in items(I, v[0])); return UNIT
            S.I.model_fns.insert(0, lambda fn: hs if re.search(r'impl std::hash::Hash for .*::hash_slice$', fn.path) else None)
            S.call(f, S.ref(a), S.ref(Term('state')))
            limbs = S.limbs(a)
            def leaves(x): return [y for z in x.f for y in leaves(z)] if isinstance(x, Agg) else [x]
            got = [y for x in fed for y in leaves(x)]
            if not got: return 'nothing is hashed'
            for y in got:
                if not any(y == l for l in limbs): raise Unsupported('hash of %r' % (y,))
        R_.attempt('hash is a function of the canonical limbs', go, where(f))
    f = P.find(FP2T + '::hashcode')
    if f and f[0].blocks is not None:
        def go():
            s = TermS(P); t = P.adt('FpFESTAExt::Fp2'); s.uf(FPT + '::hashcode', 'h')
            s.D.binop = lambda op, a, b, bits, sg: Term(op, a, b)
            v = s.exec(f[0], Agg('s', t, 0, (Term('x0'), Term('x1'))))
            v = s.val(v)
            if not isinstance(v, Term): raise Unsupported('hash %r' % (v,))
            def walk(y):
                if isinstance(y, Term) and y.op == 'h': return
                if isinstance(y, Term) and not y.a: raise Unsupported('hash %r' % (v,))
                for z in (y.a if isinstance(y, Term) else ()): walk(z)
            walk(v)
        R_.attempt('Fp2 hash code is a function of the coordinates', go, where(f[0]))

def inputs_eq(R_, P):
    fs = [f for f in P.fn.values() if f.path == '<festa_rs::festa::TrapdoorInput as std::cmp::PartialEq>::eq' and f.blocks is not None]
    if not fs: R_.und('TrapdoorInput equality', '', 'not decided: no implementation'); return
    f = fs[0]
    for mask in range(16):
        def go(mask=mask):
            s = TermS(P); new = P.one('festa_rs::festa::TrapdoorInput::new')
            a = [11, 22, 33, 44]; b = [x + 100 if mask >> i & 1 else x for i, x in enumerate(a)]
            mk = lambda v: s.exec(new, s.ref(v[0]), s.ref(v[1]), s.ref(tup(v[2], v[3])))
            r = s.A.top(s.exec(f, s.ref(mk(a)), s.ref(mk(b)))); q = s.A.top(s.exec(f, s.ref(mk(b)), s.ref(mk(a))))
            if bool(r) != (mask == 0) or bool(q) != (mask == 0): return 'inputs differing in components %s compare as %s' % ([n for i, n in enumerate(('s1', 's2', 'b11', 'b22')) if mask >> i & 1], 'equal' if mask else 'different')
        R_.attempt('TrapdoorInput equality/%d' % mask, go, where(f))
    def swapped():
        s = TermS(P); new = P.one('festa_rs::festa::TrapdoorInput::new')
        mk = lambda v: s.exec(new, s.ref(v[0]), s.ref(v[1]), s.ref(tup(v[2], v[3])))
        for v in ([22, 11, 33, 44], [11, 22, 44, 33], [33, 22, 11, 44], [11, 33, 22, 44]):
            if s.A.top(s.exec(f, s.ref(mk([11, 22, 33, 44])), s.ref(mk(v)))): return 'inputs with exchanged components compare as equal'
    R_.attempt('TrapdoorInput equality/exchanged', swapped, where(f))

def immutability(R_, P, allforms):
    """no operand type contains a cell, so shared references cannot change what they refer to (unsafe code: C22)"""
    def bad(t, seen):
        if t in seen: return None
        seen.add(t); T = P.ty[t]
        n = T.get('name', '')
        if re.search(r'UnsafeCell|cell::(Ref)?Cell|OnceCell|Mutex|RwLock|Atomic|OnceLock|LazyLock', n): return n
        if T['t'] == 'adt' and T.get('local'):
            for v in T.get('v', T.get('variants', [])):
                for f in v.get('f', []) if isinstance(v, dict) else []:
                    r = bad(f if isinstance(f, int) else f.get('ty'), seen)
                    if r: return r
        if T['t'] in ('tuple',):
            for f in T['f']:
                r = bad(f, seen)
                if r: return r
        if T['t'] in ('array', 'slice', 'ref', 'ptr'):
            e = T.get('e', T.get('to', T.get('ty')))
            return bad(e, seen) if isinstance(e, int) else None
    n = 0
    for T, f in allforms:
        for i in range(f.fn.argc):
            t = f.fn.locals[1 + i]
            if P.ty[t]['t'] == 'ref' and not P.ty[t].get('mut'):
                r = bad(t, set()); n += 1
                if r: R_.bad('cell in operand %d of %s' % (i, f.fn.path), where(f.fn), 'the operand type contains %s' % r)
    R_.ok('%d shared operands without interior mutability' % n)
    R_.floor('shared operands', n, 60)
