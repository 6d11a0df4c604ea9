"""C19: secrets are drawn from the cryptographic generator over their full range."""
import re
from ..prog import load, MissingAnchor
from ..curve import *
from ..report import where
from ..fieldmodels import Roots, FP, FP2
from ..terms import Term, TermS
from ..ring import modulus, Dom
from ..natives import items
from .c17 import World, FE, CR
from .c16 import val_of, val2, size, facref, facval, setup, Over
from ..ectok import EcTok, Pt
from .c13 import tables
SS = 'festa_rs::supersingular::'
RULE = ('Values drawn from a generator are fresh tokens: their flow into field elements (every byte of a long enough contiguous range must be a distinct unmodified draw), coordinates (two separate draws), points (the drawn abscissa itself and a '
        'separately drawn sign that selects either root for exactly half of the byte values), isogenies (a fresh random point per step) and matrix entries (two separate full-range draws with only the lowest bit forced) is tracked; '
        'the call graph and the generic bounds must admit only cryptographic generators without fixed seeds.')
GOOD = re.compile(r'ThreadRng|OsRng|StdRng|ChaCha(8|12|20)(Rng|Core)|ReseedingRng|^T$|^R$|^&mut R$|^[A-Z]\w?$')
BAD = re.compile(r'SmallRng|StepRng|mock::|[Pp]cg\d|Lcg\d|Mcg\d|[Xx]or[Ss]hift|[Xx]oshiro|[Xx]oroshiro|SplitMix|fastrand|WyRand')
SEED = re.compile(r'::(seed_from_u64|from_seed)$')
ENTROPY = re.compile(r'thread_rng|OsRng|from_entropy|getrandom|from_os_rng')

class Byte:
    """a fresh uniform byte"""
    __slots__ = ('src', 'k')
    def __init__(s, src, k): s.src = src; s.k = k
    def __eq__(s, o): return isinstance(o, Byte) and (s.src, s.k) == (o.src, o.k)
    def __hash__(s): return hash((s.src, s.k))
    def __repr__(s): return 'draw%d[%d]' % (s.src, s.k)
class Word:
    __slots__ = ('src', 'n')
    def __init__(s, src, n): s.src = src; s.n = n
    def __eq__(s, o): return isinstance(o, Word) and s.src == o.src
    def __hash__(s): return hash(s.src)
class Dirty:
    """a value computed from draws that is not itself a fresh draw"""
    def __eq__(s, o): return isinstance(o, Dirty)
    def __hash__(s): return 5
    def __repr__(s): return 'derived value'

class RndDom(Dom):
    level = 'rnd'
    def __init__(s): Dom.__init__(s); s.n = 0
    def fresh(s): s.n += 1; return s.n
    def rng(s, fn, a, info): return s.draw(fn.path.rsplit('::', 1)[1], a, info)
    def unresolved_call(s, info, a):
        d = info.get('def') or ''
        if re.search(r'RngCore::|Rng::', d): return s.draw(d.rsplit('::', 1)[1], a, info)
        return None
    def draw(s, nm, a, info):
        I = s.I
        if nm in ('fill_bytes', 'try_fill_bytes'):
            k = s.fresh()
            for i in range(I.length(a[1])): I.store(I.elem(a[1], i), Byte(k, i))
            return tup() if nm == 'fill_bytes' else Agg('s', None, 0, (tup(),))
        if nm in ('next_u32', 'next_u64'): return Word(s.fresh(), 4 if nm == 'next_u32' else 8)
        if nm == 'thread_rng': return Opaque('rng')
        raise Unsupported('generator method ' + nm)
    def byte(s, y, k): return Byte(y.src, k) if isinstance(y, Word) else y if isinstance(y, Byte) else Dirty()
    def cast(s, x, ob, osg, bits, sg):
        if isinstance(x, Word) and bits == 8: return Byte(x.src, 0)
        if isinstance(x, Byte) and bits >= 8: return x
        if isinstance(x, Word) and bits >= 8 * x.n: return x
        return Dirty()
    def binop(s, op, a, b, bits, signed):
        if op == 'Shr' and isinstance(a, Word) and type(b) is int and b % 8 == 0 and b // 8 == a.n - 1: return Byte(a.src, a.n - 1)
        if op == 'BitXor' and isinstance(a, (Byte, Word)) and type(b) is int: return a
        if op == 'BitXor' and isinstance(b, (Byte, Word)) and type(a) is int: return b
        if op == 'BitAnd' and isinstance(a, (Byte, Word)) and type(b) is int and b == (1 << bits) - 1: return a
        return Dirty()
    def from_bytes(s, bs): return Dirty()
    def checked(s, op, a, b, bits, signed): return tup(s.binop(op, a, b, bits, signed), 0)
    def unop(s, op, x, bits, sg): return x if op == 'Not' else Dirty()

class RndS(TermS):
    def __init__(s, P):
        TermS.__init__(s, P); D = RndDom(); s.D = D; s.A = D.A
        from ..interp import Interp
        s.I = Interp(P, D, fuel=20000000)

def longest(bs):
    """length of the longest contiguous range of distinct fresh bytes"""
    best = 0; lo = 0; seen = {}
    for i, b in enumerate(bs):
        if not isinstance(b, Byte): lo = i + 1; continue
        if b in seen and seen[b] >= lo: lo = seen[b] + 1
        seen[b] = i; best = max(best, i + 1 - lo)
    return best

def run(R_):
    P = load(); p = modulus(P); jobs = []
    R_.assume += ['the generators of the rand crates named by the rule are cryptographically secure and independently seeded', 'reducing a little-endian string that contains 64 more uniform bits than the modulus has bias at most 2^-64',
                  'contracts of the field and curve layers (C01, C02, C07, C16)']
    def inst(path):
        r = [x for x in P.fn.values() if x.local and x.path == path and x.blocks]
        c = [x for x in r if not any(isinstance(a, int) and P.ty[a]['t'] == 'param' for a in x.args)]; r = c or r
        if not r: raise MissingAnchor(path)
        return r
    def W(path):
        try: return where(inst(path)[0])
        except MissingAnchor: return path
    n0 = 0
    # ---- A. base field
    def fp_one(f, out):
        s = RndS(P); M = s.I.models
        class Dec:
            __slots__ = ('b',)
            def __init__(t, b): t.b = b
        def rd(I, fn, a, info): return Dec(tuple(I.A.top(x) for x in items(I, a[-1])))
        def srd(I, fn, a, info): I.store(a[0], rd(I, fn, a, info)); return tup()
        M[FP + '::set_decode_reduce'] = srd; M[FP + '::decode_reduce'] = rd
        x = s.ref(Opaque('old'))
        r = s.I.exec_fn(f, ([x] if out else []) + [s.ref(Opaque('rng'))])
        v = s.A.top(s.I.load(x)) if out else s.A.top(r)
        if isinstance(v, Opaque) and out: return 'the element is not assigned'
        if isinstance(v, Agg): return 'the element is not drawn' if all(type(t) is int for t in v.f[0].f) else und('element %r' % v)
        if not isinstance(v, Dec): raise Unsupported('element %r' % (v,))
        k = longest(v.b)
        if 8 * k < p.bit_length() + 64: return 'only %d of %d bytes are a contiguous range of fresh draws, %d are needed' % (k, len(v.b), -(-(p.bit_length() + 64) // 8))
        return s.panics()
    def und(m): raise Unsupported(m)
    def over(path, g):
        def f():
            for x in inst(path):
                e = g(x)
                if e: return e
        return f
    jobs.append(('base field: fresh bytes', over(FP + '::set_rand', lambda x: fp_one(x, 1)), W(FP + '::set_rand')))
    jobs.append(('base field: fresh bytes, returning form', over(FP + '::rand', lambda x: fp_one(x, 0)), W(FP + '::rand')))
    # ---- B. extension field
    def fp2_one(f, out):
        s = RndS(P); M = s.I.models
        g = s.ref(Opaque('rng')); wrong = []
        def same(r):
            r = s.A.top(r)
            while isinstance(r, Ref):
                if r.cell == g.cell: return
                r = s.A.top(s.I.load(r))
            if isinstance(r, Opaque): return
            wrong.append('another generator is used')
        def rd(I, fn, a, info): same(a[-1]); return Term('draw', s.D.fresh())
        def srd(I, fn, a, info): I.store(a[0], rd(I, fn, a, info)); return tup()
        M[FP + '::set_rand'] = srd; M[FP + '::rand'] = rd
        x = s.ref(tup(Opaque('old0'), Opaque('old1')))
        r = s.I.exec_fn(f, ([x] if out else []) + [g])
        v = s.A.top(s.I.load(x) if out else r)
        if wrong: return wrong[0]
        if not isinstance(v, Agg) or len(v.f) != 2: raise Unsupported('element %r' % (v,))
        a, b = [s.A.top(t) for t in v.f]
        for t, nm in ((a, 'x0'), (b, 'x1')):
            if not (isinstance(t, Term) and t.op == 'draw'):
                if isinstance(t, (Opaque, Agg)): return 'coordinate %s is not drawn: %r' % (nm, t)
                raise Unsupported('coordinate %r' % (t,))
        if a == b: return 'both coordinates are the same draw'
        return s.panics()
    jobs.append(('extension field: two draws', over(FP2 + '::set_rand', lambda x: fp2_one(x, 1)), W(FP2 + '::set_rand')))
    jobs.append(('extension field: two draws, returning form', over(FP2 + '::rand', lambda x: fp2_one(x, 0)), W(FP2 + '::rand')))
    # ---- C. random non-squares
    def nonsq(f, zeros, out):
        s = Sess(P, 'fp2'); k = [0]
        def dr():
            k[0] += 1
            if k[0] <= zeros: return s.c(0)
            v = s.sym('rnd%d' % k[0]); s.D.nonzero.append(v.n); return v
        def rnd(I, fn, a, info): I.store(a[0], dr()); return tup()
        s.FM.extra['set_rand'] = rnd; s.FM.extra['rand'] = lambda I, fn, a, info: dr()
        g = s.ref(Opaque('rng')); x = s.ref(s.sym('old'))
        if out: s.I.exec_fn(f, [x, g]); v = s.load(x)
        else: v = s.I.exec_fn(f, [s.c(1), g] if f.argc == 2 else [g])
        v = s.D.leaf(s.A.top(v))
        if zeros == 0 and k[0] == 0: return 'nothing is drawn'
        r = s.sym('rnd%d' % k[0]) if k[0] > zeros else None
        if v.iszero(): return 'the result can be zero'
        if r is None: return 'the result does not depend on the draw'
        q = s.D.normal(v.n).divexact(s.D.normal((r * r).n))
        if q is None or not v.d.isconst(): return 'the result is %r' % v
        q = q * pow(v.d.constval(), -1, p)
        if set(q.vars()) - {s.D.R.idx['i']}: return 'the result is %r' % v
        c = q.coeff_of('i'); a, b = [c[e].constval() if e in c else 0 for e in (0, 1)]
        if pow((a * a + b * b) % p, (p - 1) // 2, p) != p - 1: return 'the fixed factor is a square'
    for z in (0, 1, 2):
        jobs.append(('random non-square, %d zero draws' % z, over(FP2 + '::set_rand_nonsquare', lambda x, z=z: nonsq(x, z, 1)), W(FP2 + '::set_rand_nonsquare')))
    jobs.append(('random non-square, returning form', over(FP2 + '::rand_nonsquare', lambda x: nonsq(x, 1, 0)), W(FP2 + '::rand_nonsquare')))
    # ---- E. points
    def point(f, rej, out):
        # whatever is computed from the words of a coordinate is a fixed value: the sign must be balanced for each
        for h in (0, (1 << 64) - 1):
            e = point_(f, rej, out, h)
            if e: return e
    def point_(f, rej, out, h):
        cnt = {}
        for pos in ('low', 'high'):
            neg = 0
            for c in range(256):
                s = CurveS(P); ro = Roots(s.D, s.FM, [-1] * rej + [1]); log = []
                def dr():
                    log.append('x'); return s.sym('rnd%d' % log.count('x'))
                def rnd(I, fn, a, info): I.store(a[0], dr()); return tup()
                s.FM.extra['set_rand'] = rnd; s.FM.extra['rand'] = lambda I, fn, a, info: dr()
                def draw(nm, a):
                    log.append('s')
                    if nm == 'fill_bytes':
                        for i in range(s.I.length(a[1])): s.I.store(s.I.elem(a[1], i), c)
                        return tup()
                    if nm in ('next_u32', 'next_u64'): return c if pos == 'low' else c << (24 if nm == 'next_u32' else 56)
                    if nm == 'thread_rng': return Opaque('rng')
                    raise Unsupported('generator method ' + nm)
                s.D.rng = lambda fn, a, info: draw(fn.path.rsplit('::', 1)[1], a)
                def unres(info, a):
                    d = info.get('def') or ''
                    return draw(d.rsplit('::', 1)[1], a) if re.search(r'RngCore::|Rng::', d) else None
                s.D.unresolved_call = unres
                for b_ in (FP, FP2):
                    s.I.models[b_ + '::hashcode'] = lambda I, fn, a, info: h
                    for m_ in ('encode',): s.I.models[b_ + '::' + m_] = lambda I, fn, a, info, b_=b_: arr([h & 255] * (P.ty[fn.locals[0]].get('n') and int(P.ty[fn.locals[0]]['n']) or 1))
                g = s.ref(Opaque('rng')); pt = s.ref(s.pt((s.sym('o1'), s.sym('o2'), s.sym('o3'))))
                if out: s.I.exec_fn(f, [s.E, g, pt]); v = s.load(pt)
                else: v = s.I.exec_fn(f, [s.E, g])
                X, Y, Z = s.coords(v)
                X, Y, Z = [s.D.leaf(s.A.top(t)) for t in (X, Y, Z)]
                if log.count('x') == 0: return 'no abscissa is drawn'
                if Z.n != Z.d: raise Unsupported('Z = %r' % Z)
                if X != s.sym('rnd%d' % (rej + 1)):
                    if any(X == s.sym('rnd%d' % j) for j in range(1, rej + 1)): return 'a rejected abscissa is used again'
                    return 'the abscissa is %r instead of the draw' % X
                if log.count('x') != rej + 1: return '%d abscissas are drawn for %d rejections' % (log.count('x'), rej)
                if c == 0: y0 = Y
                elif Y == -y0: neg += 1
                elif Y != y0: raise Unsupported('ordinate %r' % Y)
                if rej and c == 1 and out != 1: pass
            cnt[pos] = neg
            if neg == 128: return None
        if log.count('s') == 0: return 'the sign of the ordinate is fixed'
        if set(cnt.values()) == {0}: return 'the sign of the ordinate does not depend on the draw'
        if 's' in log and cnt['low'] == cnt['high']: return 'the ordinate is negated for %d of 256 draws' % cnt['low']
        raise Unsupported('sign of the ordinate')
    for rej in (0, 1, 3):
        jobs.append(('random point, %d rejected' % rej, over(EC + 'Curve::set_rand_point', lambda x, r=rej: point(x, r, 1)), W(EC + 'Curve::set_rand_point')))
    jobs.append(('random point, returning form', over(EC + 'Curve::rand_point', lambda x: point(x, 1, 0)), W(EC + 'Curve::rand_point')))
    # ---- H. torsion points and isogenies
    def tors(name, script):
        def f():
            fac = dict(tables(P))[name]; B = val_of(P, 'BASIS_ORDER'); D = size(fac)
            s = EcTok(P, B, {'g1': B, 'g2': B}); s.N = B
            setup(P, s, script(fac, B), D)
            base = s.I.models[EC + 'Curve::rand_point']; got = []; gens = []
            def rp(I, fn, a, info):
                gens.append(s.A.top(a[1])); v = base(I, fn, a, info); got.append(v); return v
            s.I.models[EC + 'Curve::rand_point'] = rp
            def srp(I, fn, a, info): I.store(a[2], rp(I, fn, a, info)); return tup()
            s.I.models[EC + 'Curve::set_rand_point'] = srp
            s.I.models[EC + 'Curve::iter'] = lambda I, fn, a, info: (_ for _ in ()).throw(Det('points are taken from the deterministic sequence'))
            s.I.models[EC + 'CurveIter::new'] = s.I.models[EC + 'Curve::iter']
            try: r = s.exec(P.one(SS + 'generate_random_point_order_factored_D'), s.ref('E'), facref(s, fac), val2(B))
            except Det as e: return str(e)
            except Over: raise Unsupported('more points than scripted')
            r = s.tok(r)
            if not got: return 'no random point is drawn'
            w = got[-1].scale(B // D)
            if r != w: 
                if any(r == t.scale(B // D) for t in got[:-1]): return 'not the last drawn point'
                raise Unsupported('result %r' % r)
            return s.panics()
        return f
    class Det(Exception): pass
    for name in ('DA1_FACTORED', 'DA2_FACTORED'):
        jobs.append(('torsion point/%s' % name, tors(name, lambda fac, B: [(1, 0)]), W(SS + 'generate_random_point_order_factored_D')))
        jobs.append(('torsion point after rejections/%s' % name, tors(name, lambda fac, B: [(0, 0), (fac[0][0], 0), (3, 1)]), W(SS + 'generate_random_point_order_factored_D')))
    def walk(steps, two):
        def f():
            s = TermS(P); M = s.I.models; n = [0]; wrong = []; phis = []
            fac = vec([tup(3, 4), tup(5, 1)])
            def gp(I, fn, a, info):
                n[0] += 1; return Term('random point', n[0], s.val(a[0]), s.val(a[1]))
            M[SS + 'generate_random_point_order_factored_D'] = gp
            M[SS + 'generate_point_order_factored_D'] = lambda I, fn, a, info: Term('fixed point', s.val(a[0]))
            M[SS + 'torsion_basis'] = lambda I, fn, a, info: tup(Term('fixed point', s.val(a[0])), Term('fixed point', s.val(a[0]), 2))
            def fk(I, fn, a, info):
                t = Term('phi', s.val(a[0]), s.val(a[1]), s.val(a[2])); phis.append(t)
                return vec([Term('part', t, 0), Term('part', t, 1)][:1 + two])
            for pth in ('festa_rs::ecFESTA::factored_kummer_isogeny', 'festa_rs::isogeny::factored_kummer_isogeny'): M[pth] = fk
            M[EC + 'KummerLineIsogeny::get_codomain'] = lambda I, fn, a, info: Term('codomain', s.val(a[0]))
            M['<festa_rs::ecFESTA::Curve as std::clone::Clone>::clone'] = lambda I, fn, a, info: s.val(a[0])
            E = Term('E')
            r = s.exec(P.one(SS + 'random_isogeny_x_only'), s.ref(E), s.ref(fac), steps)
            l = s.val(r.f[0]); cod = s.val(r.f[1])
            if len(phis) != steps: return '%d isogenies are computed for %d steps' % (len(phis), steps)
            want = []; cur = E; ks = []
            for i, t in enumerate(phis):
                if t.a[0] != cur: return 'step %d starts at %r' % (i + 1, t.a[0])
                k = t.a[1]
                if not isinstance(k, Term): raise Unsupported('kernel %r' % (k,))
                if k.op == 'fixed point': return 'the kernel of step %d is not random' % (i + 1)
                if k.op != 'random point': raise Unsupported('kernel %r' % (k,))
                if k in ks or k.a[0] in [x.a[0] for x in ks]: return 'the draw of an earlier step is used again'
                if k.a[1] != cur: return 'the kernel of step %d is drawn on another curve' % (i + 1)
                ks.append(k); ps = [Term('part', t, 0), Term('part', t, 1)][:1 + two]
                want += ps; cur = Term('codomain', ps[-1])
            if tuple(l) != tuple(want): return 'the list returned is not the sequence of all steps'
            if cod != cur: return 'the curve returned is %r' % (cod,)
            return s.panics()
        return f
    for st in (1, 2, 3, 4):
        for two in (0, 1): jobs.append(('random isogeny of %d steps of %d parts' % (st, 1 + two), walk(st, two), W(SS + 'random_isogeny_x_only')))
    # ---- G. key generation
    def key():
        s = World(P, {'signs': []}, 1)
        try:
            L = s.L
            ff = tuple(val_of(P, n) for n in ('DA1', 'DA2'))
            cr = s.exec(P.one(CR + 'new')); n0 = len(s.chains)
            pk, sk = s.exec(P.one(CR + 'keygen'), s.ref(cr)).f
            fixed = [c for c in s.chains[n0:] if not c.name.startswith('phi')]
            if fixed: return 'the secret %r is not drawn at random' % fixed[0]
            ph = s.chains[n0:]
            if len(ph) != 2: return '%d random isogenies are drawn' % len(ph)
            if sorted(c.deg for c in ph) != sorted(ff): return 'the random isogenies have the wrong degrees'
            d = s.exec(P.one(FE + 'SecretKey::extract'), s.ref(sk)).f
            dg = [s.val(x) for x in d[3].f]; seen = []
            def base(x):
                from ..grp import mono
                return {nm.split(' ')[-1] for m in x.f for nm, _ in mono(m)} if type(x) is not int else set()
            if len(dg) == 2 and base(dg[0]) and base(dg[0]) == base(dg[1]): return 'both matrix entries come from one draw'
            for i, x in enumerate(dg):
                if type(x) is int: return 'matrix entry %d is the constant %d' % (i + 1, x)
                if x.c or len(x.f) != 1: raise Unsupported('matrix entry %r' % x)
                (m, k), = x.f.items()
                if not isinstance(m, str) or not re.fullmatch(r'odd r\d+', m) or k != 1: return 'matrix entry %d is %r' % (i + 1, x)
                if m in seen: return 'both matrix entries come from one draw'
                seen.append(m)
                if x.top is None: raise Unsupported('range of the matrix entries')
                if x.top < 1 << L: return 'matrix entry %d is drawn below 2^%d instead of 2^%d' % (i + 1, (x.top - 1).bit_length(), L)
            if s.wrong: return s.wrong
        except Unsupported:
            if s.wrong: return s.wrong
            raise
    jobs.append(('key generation: matrix and isogenies', key, W(CR + 'keygen')))
    R_.parallel(jobs)
    # ---- F. generators
    calls = 0
    for f in sorted((x for x in P.fn.values() if x.local and x.blocks is not None), key=lambda x: (x.path, x.id)):
        names = [(b['t'][1], b['l']) for b in f.blocks if b['t'][0] == 'call']
        ent = any(ENTROPY.search(i.get('res') or i.get('def') or '') or any(isinstance(a, int) and ENTROPY.search(P.ty[a]['name']) for a in i.get('args', [])) for i, _ in names)
        bad = []; und_ = []; k = 0
        for info, line in names:
            pth = info.get('res') or info.get('def') or ''; d = info.get('def') or ''
            targs = [P.ty[a]['name'] for a in info.get('args', []) if isinstance(a, int) and a in P.ty]
            if re.search(r'rand|Rng', pth + d): k += 1
            if BAD.search(pth) or any(BAD.search(t) for t in targs): bad.append(('a generator that is not cryptographic is used: %s' % pth, line))
            elif SEED.search(pth) and re.search(r'rand|Rng', pth + d):
                if pth.endswith('seed_from_u64') or not ent: bad.append(('a generator is built from a fixed or short seed: %s' % pth, line))
                else: und_.append(('origin of the seed', line))
            elif re.search(r'as rand(_core)?::(RngCore|Rng)|rand(_core)?::(RngCore|Rng)::|RandBigInt', pth) and targs and re.search(r'^festa_rs::', targs[0]): und_.append(('local generator %s' % targs[0], line))
        calls += k
        if not k: continue
        key_ = 'generators: ' + f.path.replace('festa_rs::', '') + ('' if not f.args else '<%s>' % ', '.join(P.ty[a]['name'] if isinstance(a, int) else str(a) for a in f.args))
        if bad: R_.bad(key_, where(f, bad[0][1]), bad[0][0])
        elif und_: R_.und(key_, where(f, und_[0][1]), und_[0][0])
        else: R_.ok(key_, where(f), '%d calls' % k)
    R_.floor('calls that consume randomness', calls, 8)
    for x in P.fn.values():
        if x.local and re.match(r'<festa_rs::.* as rand(_core)?::(RngCore|CryptoRng)>', x.path): R_.und('local generator ' + x.path, where(x), 'a generator is implemented locally')
    # ---- I. bounds
    nb = 0
    for nme, g in sorted(P.gfn.items()):
        gen = sorted({q.split(':')[0] for q in g.preds if re.search(r': rand(_core)?::RngCore|: rand(_core)?::Rng\b', q)})
        for t in gen:
            nb += 1
            R_.check(any(re.match(re.escape(t) + r': rand(_core)?::CryptoRng', q) for q in g.preds), 'bound: %s<%s>' % (nme.replace('festa_rs::', ''), t), where(g), 'accepts a generator that is not cryptographic')
    R_.floor('generic functions', nb, 6)
    R_.extra['level'] = 'proof'
