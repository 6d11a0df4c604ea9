"""C09: canonical encoding, strict decoding, reducing decoding."""
from ..prog import load
from ..words import *
from ..report import where
from ..ring import modulus
from .c01 import WS, FPT, contracts, _try
FP2T = 'festa_rs::fields::FpFESTAExt::Fp2'
RULE = ('With the limbs (or the input bytes) as indeterminates: the words written by encode total the Montgomery residue of the element and lie below p, byte k of word i goes to offset 8i+k and no non-zero byte '
        'is dropped; decode succeeds exactly below p and at the exact length, in every other case the result is zero with a zero mask; the reducing form is congruent to the little-endian integer of the input.')

def limbs_of_bytes(S, bs):
    """regroup output bytes into the words they were taken from; message when they cannot be"""
    D = S.D; ws = []
    n = (len(bs) + 7) // 8
    for i in range(n):
        part = [D.A.top(b) for b in bs[8 * i: 8 * i + 8]]
        if all(isinstance(b, By) for b in part) and all(b.w == part[0].w and b.k == k for k, b in enumerate(part)):
            w = part[0].w
            if len(part) < 8:
                lo, hi = D.deep(w.p)
                if hi >> 8 * len(part): return None, 'the bytes of word %d above offset %d are dropped although they can be non-zero' % (i, len(part))
            ws.append(w)
        elif all(type(b) is int for b in part): ws.append(sum(b << 8 * k for k, b in enumerate(part)))
        else:
            ws.append(('bytes', part))
    return ws, None

def refute_bytes(S, bs, A, tries=300):
    """a point at which the extracted bytes are not the little-endian canonical integer"""
    import random
    D = S.D; rnd = random.Random(1); D.P_ = S.p; Ri = pow(S.R, -1, S.p)
    def byte(b, val):
        b = D.pick(b, val)
        if isinstance(b, By): return D.word(b.w, val) >> 8 * b.k & 255
        return D.word(b, val)
    for k in range(tries):
        val = D.valuation(rnd)
        if val is None: return None
        want = D.at(A, val) * Ri % S.p
        got = sum(byte(b, val) << 8 * i for i, b in enumerate(bs))
        if got != want: return 'the extracted bytes are not the canonical encoding, for example of the element with representation %#x' % D.at(A, val)

def run(R_):
    P = load(); p = modulus(P)
    R_.assume += ['operands are canonical (C01); the operations used by the reducing form are those decided by C01']
    thorough = R_.tier == 'thorough'
    LEN = (p.bit_length() + 7) // 8
    jobs = []
    def ob(key, fn, f):
        try: w = where(fn)
        except Exception: w = ''
        jobs.append((key, f, w))
    def meth(n): return P.one(FPT + '::' + n)
    def meth2(n): return P.one(FP2T + '::' + n)
    # ---- encode
    def enc():
        S = WS(P); a, A = S.elem('a')
        r = S.call(meth('encode'), a); bs = list(r.f)
        if len(bs) != LEN: return 'the encoding has %d bytes, not %d' % (len(bs), LEN)
        ws, e = limbs_of_bytes(S, bs)
        if e: return refute_bytes(S, bs, A) or S.D._und(e)
        if any(isinstance(w, tuple) for w in ws):
            return refute_bytes(S, bs, A) or S.D._und('the bytes of a word are not written in order')
        return S.D.residue(ws, A, S.R, p) or S.panics()
    ob('encode', _try(meth, 'encode'), enc)
    # ---- decode
    def buf(S, n, lo=0, hi=None):
        ws, t = S.D.number('b', n, (1 << 8 * n) - 1 if hi is None else hi, lo, 8)
        return ws, t, S.I.ref(arr(ws))
    def dec(lo, hi, ok):
        S = WS(P); ws, t, rb = buf(S, LEN, lo, hi)
        r = S.call(meth('decode'), slice_(S, rb, LEN))
        v, m = r.f
        m = S.D.A.top(m)
        if isinstance(m, Ite) or type(m) is not int:
            # a point at which the mask is wrong, or undecided
            import random
            rnd = random.Random(1); S.D.P_ = p
            y = S.D.syms[next(iter(t))[0]]
            for k in range(200):
                val = S.D.valuation(rnd, {y.id: rnd.choice((lo, hi, p - 1, p, p + 1, p - (1 << 64), p + (1 << 64), rnd.randint(lo, hi)))})
                if S.D.word(S.D.pick(m, val), val) & 0xFFFFFFFF != (0xFFFFFFFF if ok else 0):
                    return 'the integer %#x is %s' % (val[y.id], 'refused' if ok else 'accepted')
            raise Unsupported('the success mask is not determined')
        if m != (0xFFFFFFFF if ok else 0): return 'the success mask is %#x for every integer in %#x..%#x' % (m, lo, hi)
        if not ok:
            S.D.P_ = p
            if any(S.D.A.top(w) != 0 for w in S.limbs(v)): return S.D.residue(S.limbs(v), {}, 1, p) or 'the element returned on failure is not zero'
            return S.panics()
        return S.res(v, pscale(t, S.R % p))
    def slice_(S, r, n): return S.I.slice(r, 0, n)
    ob('decode:canonical', _try(meth, 'decode'), lambda: dec(0, p - 1, 1))
    ob('decode:not-canonical', _try(meth, 'decode'), lambda: dec(p, (1 << 8 * LEN) - 1, 0))
    for n in [x for x in range(0, 2 * LEN + 8) if x != LEN]:
        def g(n=n):
            S = WS(P); ws, t, rb = buf(S, n) if n else ([], {}, S.I.ref(arr([])))
            r = S.call(meth('decode'), slice_(S, rb, n))
            if r.f[1] != 0: return 'a buffer of %d bytes is accepted' % n
            if any(S.D.A.top(w) != 0 for w in S.limbs(r.f[0])): return 'the element returned on failure is not zero'
            return S.panics()
        ob('decode:length:%d' % n, _try(meth, 'decode'), g)
    # ---- reducing decoding
    top = 2000 if thorough else 660
    for n in range(top + 1):
        for m in ('decode_reduce', 'set_decode_reduce'):
            if m == 'decode_reduce' and n not in (0, 1, 7, 8, 159, 160, 161, 162, 163, 320, 321): continue
            def g(n=n, m=m):
                S = WS(P); contracts(S)
                ws, t, rb = buf(S, n) if n else ([], {}, S.I.ref(arr([])))
                sl = slice_(S, rb, n)
                if m == 'decode_reduce': v = S.call(meth(m), sl)
                else:
                    a, A = S.elem('a'); ra = S.ref(a); S.call(meth(m), ra, sl); v = S.I.load(ra)
                return S.res(v, pscale(t, S.R % p))
            ob('%s:length:%d' % (m, n), _try(meth, m), g)
    # ---- extension field
    def enc2():
        S = WS(P); calls = []
        def model(fn):
            if fn.path != FPT + '::encode': return None
            def m(I, fn, a, info):
                calls.append(a[0]); k = len(calls) - 1
                return arr([By(S.D.inp('e%d' % k), j) for j in range(LEN)])
            return m
        S.I.model_fns.insert(0, model)
        a0, A0 = S.elem('a0'); a1, A1 = S.elem('a1')
        x = mk2(S, a0, a1)
        r = S.call(meth2('encode'), x); bs = list(r.f)
        if len(bs) != 2 * LEN: return 'the encoding has %d bytes, not %d' % (len(bs), 2 * LEN)
        for i, b in enumerate(bs):
            if not isinstance(b, By): return 'byte %d is not a byte of the encoding of a coordinate' % i
            if b.k != i % LEN: return 'byte %d is byte %d of the encoding of a coordinate' % (i, b.k)
            n = S.D.syms[next(iter(b.w.p))[0]].name
            if not calls[int(n[1:])] == (a0 if i < LEN else a1): return 'byte %d belongs to the other coordinate' % i
        return S.panics()
    def mk2(S, a, b):
        return S.call(meth2('new'), S.ref(a), S.ref(b))
    ob('encode:extension', _try(meth2, 'encode'), enc2)
    def dec2(ok0, ok1, n):
        S = WS(P); seen = []
        contracts(S)
        def model(fn):
            if fn.path != FPT + '::decode': return None
            def m(I, fn, a, info):
                data = slice_vals(S, a[0])
                seen.append(data); k = len(seen) - 1
                okk = (ok0, ok1)[0 if data and data[0] == ws[0] else 1]
                v, T = S.elem('d%d' % (0 if data and data[0] == ws[0] else 1)) if okk else (Agg('s', None, 0, (arr([0] * S.N),)), None)
                res[0 if data and data[0] == ws[0] else 1] = v
                return tup(v, 0xFFFFFFFF if okk else 0)
            return m
        S.I.model_fns.insert(0, model)
        res = {}
        ws = [S.D.inp('b%d' % i, 0, 255) for i in range(n)]
        rb = S.I.ref(arr(ws))
        r = S.call(meth2('decode'), slice_(S, rb, n))
        v, m = r.f; ok = ok0 and ok1 and n == 2 * LEN
        if S.D.A.top(m) != (0xFFFFFFFF if ok else 0): return 'the success mask is %r' % (m,)
        v = list(v.f)
        if not ok:
            for x in v:
                if any(S.D.A.top(w) != 0 for w in S.limbs(x)): return 'the element returned on failure is not zero'
            return S.panics()
        for j, d in ((0, ws[:LEN]), (1, ws[LEN:])):
            if d not in seen: return 'the bytes of coordinate %d are not decoded' % j
        for k, (x, y) in enumerate(zip(v, mk2(S, res[0], res[1]).f)):
            if not (S.limbs(x) == S.limbs(y)): return 'a coordinate is not the decoded value'
        return S.panics()
    def slice_vals(S, r):
        n = S.I.length(r)
        return [S.I.load(S.I.elem(r, i)) for i in range(n)]
    for ok0 in (0, 1):
        for ok1 in (0, 1):
            ob('decode:extension:%d%d' % (ok0, ok1), _try(meth2, 'decode'), lambda ok0=ok0, ok1=ok1: dec2(ok0, ok1, 2 * LEN))
    for n in list(range(0, 4 * LEN + 4)):
        if n == 2 * LEN or not thorough and n % 27 and abs(n - 2 * LEN) > 3 and n > 3: continue
        ob('decode:extension:length:%d' % n, _try(meth2, 'decode'), lambda n=n: dec2(1, 1, n))
    R_.parallel(jobs)
    R_.extra.update(functions_analysed=6)
