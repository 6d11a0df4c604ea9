#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('abstract interpretation of MIR in a machine-word domain (integer polynomials with quotients, intervals and congruences)', 'proof',
   'Every base-field operation for all canonical limb patterns (congruence modulo p and canonical range). Powers and roots are covered by C07, the byte format by C09; the binary-gcd inversion and Legendre loops are not analysed. Assumes the intrinsics add/sub with carry and 64x64 multiply.'),
 'C02': ('abstract interpretation of MIR in a polynomial/rational-function domain (algebraic value numbering)', 'proof',
   'Every extension-field operation, for all operands; batch inversion for the listed lengths around the batch size and zero patterns. Assumes the base-field contracts (C01) and the interpreter in /verif/sa.'),
 'C04': ('abstract interpretation of MIR in a rational-function domain, per class of operand pairs', 'proof',
   'Addition, doubling, equality and negation against the group law for every class of pairs of points (infinity in every representation, equal, opposite, two-torsion, generic). Assumes the extension-field contracts (C02).'),
 'C05': ('abstract interpretation of MIR with an inductive loop invariant over indeterminate scalar bits', 'proof',
   'The ladder invariant is checked at every visit of the loop head for the listed lengths with indeterminate bits; small integers and big integers on the listed values for the entry points that only convert the scalar.'),
 'C06': ('abstract interpretation of MIR in a polynomial domain modulo the curve equation and square-root symbols', 'proof',
   'Every constructor and predicate, for indeterminate coordinates and coefficients, on and off the curve; random and enumerated points for scripted outcomes of the rejection loops. Assumes C02 and the root contracts (C07).'),
 'C07': ('abstract interpretation of MIR in the domain of powers with exponent polynomials, and in a root-symbol domain for the extension field', 'proof',
   'Exponentiation for indeterminate bits at the listed lengths; base-field roots for every operand by class; extension-field roots for every operand. Assumes C01, C09 and the base-field Legendre symbol.'),
 'C22': ('typed scan of every unsafe operation in three build configurations, and abstract interpretation of MIR in a machine-word domain for the primitives', 'proof',
  'Exact for each primitive over all operand words; the calling of processor intrinsics is checked against the features the build enables. The portable variants are compiled by replacing the target_arch conditions in a scratch copy.'),
 'C09': ('abstract interpretation of MIR in a machine-word domain over the input bytes and limbs', 'proof',
   'Encoding for all elements; strict decoding for all byte strings of the right length and of each wrong length up to 331 bytes; reducing decoding for all contents of each length up to 660 bytes (2000 thorough).'),
 'C10': ('abstract interpretation of MIR in a rational-function domain over theta coordinates; value numbering for the composition', 'proof',
   'Doubling, isogeny steps, last step, gluing codomain and images for generic null points and points (and the degenerate rows of the gluing image); gluing base change for all 36 pairs of two-torsion types with indeterminate curves and the listed signs of the four-torsion points (all signs in thorough). Assumes C02, C04.'),
 'C11': ('abstract interpretation of MIR in a polynomial domain, one generic null point per vanishing characteristic', 'proof',
   'All ten characteristics; one-dimensional maps as rational-function identities. Assumes C02, C06.'),
 'C12': ('abstract interpretation of MIR over tokens (point, doublings, steps, representation)', 'proof',
   'All well-formed strategies for 3 to 7 steps (9 in thorough), unbalanced ones up to 300 steps, and the embedded strategy with the embedded length; kernels of order exactly eight and every point pushed at each step. Assumes C10, C11, C13.'),
 'C14': ('abstract interpretation of MIR in the group of monomials in lines, with divisors; line function in a rational-function domain', 'proof',
   'Line function for all classes of pairs of points; Miller loop and quotient for every order from 2 to 63 (399 in thorough), all table orders, the two-power order and bit patterns up to 1001 bits; dependent points for all multiples up to order 25. Assumes C02, C04, C06.'),
 'C13': ('abstract interpretation of MIR with kernel multiples as indeterminates; chains over tokens (multiple of a generator, curve)', 'proof',
   'Codomain and evaluation formulas exactly for degrees 3, 5, 7; for every prime of the parameter tables the set of kernel multiples and the exponents used; chains for the listed factorisations and every table. Assumes C02, C04-C06, C14.'),
 'C15': ('abstract interpretation of MIR over integer polynomials, linear forms and powers of a generator; constant propagation for the finite cases', 'proof',
   'Euclid for indeterminate operands and quotients up to 6 divisions; recombination, digit extraction and logarithms for indeterminate residues, digits and logarithms over all parameter tables and listed factorisations; integer root and table search for the listed arguments.'),
 'C16': ('abstract interpretation of MIR over formal combinations of generators of known order; entangled basis as polynomial identities over the base field', 'proof',
   'Order tests for one element of every class of orders (all divisors for small lists, all one-prime deviations for lists of up to 19 primes and all tables); generation for scripted candidates over all tables; canonical kernel for all or sampled multiples with indeterminate scalar; entangled basis for indeterminate A.'),
 'C26': ('abstract interpretation of MIR in a rational-function domain over a parametrisation of isomorphic curves', 'proof',
   'Equal and opposite coefficients for indeterminate coefficient; the other pairs through a rational parametrisation of both sides and directions. Assumes C02, C07 and that the scaling factor is a square.'),
 'C17': ('abstract interpretation of MIR over formal combinations of torsion generators with Laurent-polynomial coefficients in the secrets', 'proof',
   'Key generation, evaluation and round trip for indeterminate masks, scalars and masking entries, for 48 combinations (256 in thorough) of the signs left open by x-only arithmetic, codomain order and model. Isogenies, pairings, logarithms, bases and the two-dimensional chain enter by contract (C12 to C16, C26).'),
 'C18': ('abstract interpretation of MIR over byte tokens, in the debug and the release configuration', 'proof',
   'Round trip for indeterminate coordinates and masking entries of every listed byte length; refusal of every listed wrong length (all lengths up to 400 past the right one in thorough) and of each single non-canonical field element. Assumes C09; points at infinity and masking entries above 80 bytes are excluded.'),
 'C03': ('taint analysis by abstract interpretation of the release MIR', 'proof',
   'Every covered operation with every operand value secret: each branch, assertion, index, length and loop bound met is an obligation. The level is the MIR of the release profile: the code generator could in principle introduce branches.'),
 'C19': ('value-flow analysis of generator draws by abstract interpretation of MIR, plus call-graph and bound checks', 'proof',
   'Every draw is an indeterminate; freshness, range and use are read off the resulting values. The set of generators counted as cryptographically secure is listed in DESIGN.md; what the generator itself outputs is assumed.'),
 'C20': ('effect analysis on the call graph of the compiled program (debug and release)', 'proof',
   'Every function reachable from the listed entry points in both profiles, with generic and dynamic calls resolved conservatively; foreign functions by an explicit list of effect-free paths.'),
 'C21': ('value numbering of every operation form by abstract interpretation of MIR', 'proof',
   'Every operator implementation of the field, extension, point and curve-product types; a form that computes on its own is decided by the semantic obligations of C01, C02 or C04 for that form.'),
 'C23': ('comparison of the MIR of both profiles, effect analysis of debug-only code and interval analysis of the field layer', 'proof',
   'Every local function is compared across the profiles; field functions are analysed with intervals for all operands (the leading-zero shift of the division and Legendre loops assumes a non-zero word there). Assumes the word-level results of C01, C02, C07 and C09 for the panic sides it reuses.'),
 'C08': ('compile-time constant evaluation compared with the definitions, with an n+1 primality proof', 'proof',
   'Every constant of the parameter tables and every relation between them the algorithms rely on, exactly.'),
}
NA = {
 'C24': 'statistical uniformity of outputs is a property of distributions over runs; no source-level rule decides it (the structural part, full-range draws from the right generator, is claimed under C19)',
 'C25': 'one-wayness is a computational-hardness assumption about the mathematics, not a property of the source',
}
def main():
    props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    done = [p for p in props if p in T and os.path.exists(V + '/sa/checks/%s.py' % p.lower())]
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sa.build as b; b.ensure_tools()"',
         'checks': [{'property': p, 'quick_cmd': 'python3 -m sa.run ' + p, 'thorough_cmd': 'python3 -m sa.run %s thorough' % p,
                     'technique': T[p][0], 'level': T[p][1], 'level_note': T[p][2]} for p in done],
         'not_applicable': [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in props if p not in done],
         'notes': 'All checks analyse the MIR of /repo\'s current tree; see DESIGN.md.'}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
main()
