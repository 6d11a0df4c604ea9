"""C08: precomputed constants, evaluated by the compiler, against their definitions."""
import math
from ..prog import load, MissingAnchor
RULE = ('Every constant is taken as the compiler evaluated it from the current source and compared with its definition over the integers: the modulus is proved prime by an n+1 test on the '
        'factorisation of p+1 embedded in the degree tables; each Montgomery constant is its definition modulo p; degree tables multiply out to their products; divisibility, coprimality and norm equation hold exactly.')
F = 'festa_rs::fields::FpFESTA::'; X = 'festa_rs::fields::FpFESTAExt::'
le = lambda b: int.from_bytes(b, 'little')

def consts(P):
    def K(n):
        c = P.consts.get(n)
        if c is None or 'a' not in c: raise KeyError(n)
        return bytes.fromhex(c['a']['b'])
    return K

def is_prime_small(n):
    return n > 1 and all(n % d for d in range(2, math.isqrt(n) + 1))

def prove_prime(n, primes):
    """n+1 test (Morrison): exists for each q | F a norm-one element of Z_n[i] of order divisible by q^e; needs F > sqrt(n)+1, n = 3 mod 4"""
    if n % 4 != 3: return False
    Fq = 1; parts = []
    m = n + 1
    for q in primes:
        e = 0
        while m % q == 0: m //= q; e += 1
        if e: Fq *= q ** e; parts.append(q)
    if Fq <= math.isqrt(n) + 2: return False
    def mul(a, b): return ((a[0]*b[0] - a[1]*b[1]) % n, (a[0]*b[1] + a[1]*b[0]) % n)
    def pw(a, e):
        r = (1, 0)
        for bit in bin(e)[2:]:
            r = mul(r, r)
            if bit == '1': r = mul(r, a)
        return r
    for q in parts:
        for t in range(1, 60):
            # (t+i)/(t-i) = (t+i)^2/(t^2+1)
            d = t*t + 1
            if math.gcd(d, n) != 1: return False
            di = pow(d, -1, n); a = ((t*t - 1) * di % n, 2*t*di % n)
            b = pw(a, (n + 1) // q)
            if math.gcd(math.gcd(b[0] - 1, n), b[1]) != 1 : continue   # still trivial modulo some factor
            if pw(b, q) != (1, 0): return False
            break
        else: return False
    return True

def run(R):
    P = load(); K = consts(P)
    R.assume += ['the constants are compared as values; that the algorithms use the right one is C01, C05, C07, C09']
    def loc(n):
        c = P.consts.get(n)
        return '%s:%s' % tuple(c['span'][:2]) if c and c.get('span') else ''
    def public(n):
        if n not in P.consts: R.bad('anchor:' + n, '', 'public constant %s is gone' % n); return False
        return True
    def ob(key, names, f):
        """names: constants needed; a missing private one leaves the obligation undecided"""
        miss = [n for n in names if n not in P.consts]
        if miss: R.und(key, '', 'not decided: no constant %s' % ', '.join(miss)); return
        R.attempt(key, f, loc(names[0]))
    if not public(F + 'Fp::MODULUS') or not public(F + 'Fp::N') or not public(F + 'Fp::BIT_LENGTH'): return
    p = le(K(F + 'Fp::MODULUS')); N = le(K(F + 'Fp::N')); bl = le(K(F + 'Fp::BIT_LENGTH'))
    Rm = 1 << (64 * N)
    eq = lambda n, want: (lambda: True if le(K(n)) == want else 'is %#x, expected %#x' % (le(K(n)), want))
    ob('modulus word count', [F + 'Fp::N'], lambda: N == len(K(F + 'Fp::MODULUS')) // 8 and (N - 1) * 64 < bl <= N * 64)
    ob('modulus bit length', [F + 'Fp::BIT_LENGTH'], lambda: bl == p.bit_length())
    ob('modulus = 7 mod 8', [F + 'Fp::MODULUS'], lambda: p % 8 == 7)
    table = lambda n: [(le(K(X + n)[i:i+4]), le(K(X + n)[i+4:i+8])) for i in range(0, len(K(X + n)), 8)]
    tabs = ['D1_FACTORED', 'D2_FACTORED', 'DA_FACTORED', 'DA1_FACTORED', 'DA2_FACTORED']
    def prime():
        ps = {2} | {q for t in tabs for q, e in table(t)}
        if any(not is_prime_small(q) for q in ps): return 'a listed prime factor is composite: %r' % [q for q in ps if not is_prime_small(q)]
        return True if prove_prime(p, sorted(ps)) else 'the modulus is not proved prime by the n+1 test'
    ob('modulus is prime', [X + t for t in tabs], prime)
    for n, w in (('MODULUS', p), ('HALF_MODULUS', (p + 1) // 2), ('R_VAL', Rm % p), ('MINUS_R_VAL', -Rm % p), ('DR_VAL', 2*Rm % p), ('TR_VAL', 3*Rm % p), ('QR_VAL', 4*Rm % p),
                 ('R2_VAL', Rm*Rm % p), ('P0I', -pow(p, -1, 1 << 64) % (1 << 64)), ('TDEC_VAL', pow(2, 64*(2*N - 1), p)), ('BITLEN', bl), ('N', N),
                 ('Fp::ZERO', 0), ('Fp::ONE', Rm % p), ('Fp::MINUS_ONE', -Rm % p), ('Fp::TWO', 2*Rm % p), ('Fp::THREE', 3*Rm % p), ('Fp::FOUR', 4*Rm % p),
                 ('Fp::R2', Rm*Rm % p), ('Fp::TDEC', pow(2, 64*(2*N - 1), p)), ('Fp::ENCODED_LENGTH', (bl + 7)//8)):
        ob(n, [F + n], eq(F + n, w))
    n1 = (2*bl - 34)//31; n2 = 2*bl - 31*n1 - 2
    for n in ('TFIXDIV_VAL', 'Fp::TFIXDIV'): ob(n, [F + n], eq(F + n, pow(2, 33*n1 + 64 - n2 + 2*64*N, p)))
    ob('P1', [F + 'P1'], eq(F + 'P1', p >> (bl - 32)))
    if F + 'P1' in P.consts:
        P1 = le(K(F + 'P1')); ob('P1DIV_M', [F + 'P1DIV_M'], eq(F + 'P1DIV_M', 1 + ((1 << 32) - P1) * (1 << 64) // P1 if P1 else -1))
    def root(eh, el, e, wl=5):
        def f():
            d = K(F + eh); s = le(K(F + el))
            if any(b >= 1 << wl for b in d): return 'a digit does not fit the window'
            v = sum(b << (wl * i) for i, b in enumerate(d)) << (wl * s)
            return True if v == e else 'the encoded exponent is not the root exponent'
        return f
    ob('SQRT exponent', [F + 'SQRT_EH', F + 'SQRT_EL'], root('SQRT_EH', 'SQRT_EL', (p + 1)//4))
    ob('FOURTH_ROOT exponent', [F + 'FOURTH_ROOT_EH', F + 'FOURTH_ROOT_EL'], root('FOURTH_ROOT_EH', 'FOURTH_ROOT_EL', (p + 1)//8))
    ob('window length', [F + 'WIN_LEN'], lambda: le(K(F + 'WIN_LEN')) == 5)
    # ---- extension field
    val = lambda b: le(b) * pow(Rm, -1, p) % p
    def fp2(n):
        b = K(n); h = len(b)//2; return (val(b[:h]), val(b[h:]))
    reduced = lambda b: all(le(b[i:i+8*N]) < p for i in range(0, len(b), 8*N))
    for n, w in (('ZERO', (0, 0)), ('ONE', (1, 0)), ('MINUS_ONE', (p-1, 0)), ('TWO', (2, 0)), ('THREE', (3, 0)), ('FOUR', (4, 0)), ('ZETA', (0, 1)), ('MINUS_ZETA', (0, p-1))):
        nn = X + 'Fp2::' + n
        ob('Fp2::' + n, [nn], lambda nn=nn, w=w: reduced(K(nn)) and fp2(nn) == w)
    ob('Fp2::ENCODED_LENGTH', [X + 'Fp2::ENCODED_LENGTH'], eq(X + 'Fp2::ENCODED_LENGTH', 2*((bl + 7)//8)))
    def nqr():
        a, b = fp2(X + 'Fp2::NQR')
        if not reduced(K(X + 'Fp2::NQR')): return 'not reduced'
        return True if pow(a*a + b*b, (p-1)//2, p) == p - 1 else 'is a square'
    ob('Fp2::NQR is a non-square', [X + 'Fp2::NQR'], nqr)
    # ---- base points
    def on_curve(x, y, A=6):
        def f():
            bx, by = K(X + x), K(X + y)
            if not reduced(bx + by): return 'not reduced'
            vx, vy = val(bx), val(by)
            return True if (vy*vy - (vx**3 + A*vx*vx + vx)) % p == 0 else 'not on y^2 = x^3 + 6x^2 + x'
        return f
    for q in ('P0', 'Q0'):
        ob('%s lies on E0' % q, [X + q + 'x', X + q + 'y'], on_curve(q + 'x', q + 'y'))
    # ---- degrees
    pub = ['D1', 'D2', 'DA', 'DA1', 'DA2', 'M1', 'M2', 'BASIS_ORDER', 'BIGUINT_MODULUS', 'L_POWER', 'THETA_ISOGENY_LENGTH', 'THETA_STRATEGY'] + tabs
    if not all([public(X + n) for n in pub]): return
    v = {n: le(K(X + n)) for n in ('D1', 'D2', 'DA', 'DA1', 'DA2', 'M1', 'M2', 'BASIS_ORDER', 'BIGUINT_MODULUS', 'L_POWER', 'THETA_ISOGENY_LENGTH')}
    B = v['BASIS_ORDER']
    prod = lambda t: math.prod(q**e for q, e in table(t))
    ob('BASIS_ORDER = p + 1', [X + 'BASIS_ORDER'], lambda: B == p + 1)
    ob('BIGUINT_MODULUS = p', [X + 'BIGUINT_MODULUS'], lambda: v['BIGUINT_MODULUS'] == p)
    for n, t, k in (('D1', 'D1_FACTORED', 1), ('D2', 'D2_FACTORED', 1), ('DA', 'DA_FACTORED', 1), ('DA1', 'DA1_FACTORED', 2), ('DA2', 'DA2_FACTORED', 2)):
        ob('%s is the %sproduct of its factors' % (n, 'squared ' if k == 2 else ''), [X + n, X + t], lambda n=n, t=t, k=k: v[n] == prod(t)**k)
        ob('%s: distinct primes, ascending exponents >= 1' % t, [X + t], lambda t=t: len({q for q, e in table(t)}) == len(table(t)) and all(is_prime_small(q) and e >= 1 for q, e in table(t)))
    ob('DA = DA1 * DA2', [X + 'DA'], lambda: v['DA'] == v['DA1'] * v['DA2'])
    co = ['D1', 'D2', 'DA1', 'DA2']
    for i, a in enumerate(co):
        ob('%s is odd' % a, [X + a], lambda a=a: v[a] % 2 == 1)
        for b in co[i+1:]: ob('gcd(%s, %s) = 1' % (a, b), [X + a, X + b], lambda a=a, b=b: math.gcd(v[a], v[b]) == 1)
    lb = 1 << v['L_POWER']
    ob('2^L_POWER * D1 * D2 divides BASIS_ORDER', [X + 'L_POWER'], lambda: B % (lb * v['D1'] * v['D2']) == 0)
    for t in ('DA1_FACTORED', 'DA2_FACTORED'): ob('2^L_POWER * product of %s divides BASIS_ORDER' % t, [X + t], lambda t=t: B % (lb * prod(t)) == 0)
    ob('cofactor of 2^L_POWER in BASIS_ORDER is odd', [X + 'L_POWER'], lambda: (B // lb) % 2 == 1)
    ob('norm equation M1^2 D1 DA1 + M2^2 D2 DA2 = 2^THETA_ISOGENY_LENGTH', [X + 'M1', X + 'M2'],
       lambda: v['M1']**2 * v['D1'] * v['DA1'] + v['M2']**2 * v['D2'] * v['DA2'] == 1 << v['THETA_ISOGENY_LENGTH'])
    ob('two extra bits of torsion for the theta chain', [X + 'L_POWER'], lambda: v['L_POWER'] == v['THETA_ISOGENY_LENGTH'] + 2)
    ob('strategy has one entry per inner node', [X + 'THETA_STRATEGY'], lambda: len(K(X + 'THETA_STRATEGY')) // 8 == v['THETA_ISOGENY_LENGTH'] - 1)
    ob('M1, M2 invertible modulo 2^L_POWER', [X + 'M1'], lambda: v['M1'] % 2 == 1 and v['M2'] % 2 == 1)
    R.floor('constants', len(R.obs), 75)
    R.extra['level'] = 'proof'
