#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the long texts stay reviewable).
import json
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
FP="src/finitefield/fp_gen.rs";FP2="src/finitefield/fp2_gen.rs";UT="src/finitefield/utils64.rs";FI="src/fields.rs";EC="src/eccore.rs";IS="src/isogeny.rs";PA="src/pairing.rs";DL="src/discrete_log.rs";SS="src/supersingular.rs";TH="src/theta.rs";FE="src/festa.rs"
p("C01","Base-field arithmetic is exact modulo p and results are canonical",
 "Addition, subtraction, negation, multiplication, squaring, halving, doubling and the small-constant multiples, multiplication by a small integer, sums and differences of products, and conversion from machine integers return, for every pair of field elements, exactly the residue the mathematical operation defines. The stored result is always the unique reduced representative, so that equality, zero tests and hashing agree with mathematical equality. Carries, borrows and the final conditional subtraction are handled for every limb pattern, including values next to 0, p and the word boundaries.",
 ["inputs"],"all limb patterns of all operands of every base-field operation",
 "fp tests sample 300 hash-derived values; a lost carry or a missing final reduction shows up for a ~2^-64 fraction of inputs, and the sampled values never sit at those boundaries.",
 [FP,UT,FI],[("Montgomery multiplication / reduction and conditional subtraction",FP),("carry and borrow primitives",UT)],["every value built on the field"])
p("C02","Quadratic-extension arithmetic obeys the field identities for all inputs",
 "Every operation of the quadratic extension (with i^2 = -1): addition, subtraction, negation, conjugation, all multiplication and squaring variants, multiplication by a small integer and by small constants, halving, division, inversion, batch inversion, Legendre symbol and conditional selection: equals the corresponding operation of F_p[i]/(i^2+1) on all operands, in place or not. Division by zero and inversion of zero return zero, and batch inversion of a list of any length gives the same result as inverting each entry on its own, leaving zero entries zero.",
 ["inputs"],"all operand values, including zero, pure real, pure imaginary and aliased operands, and all list lengths and zero positions for batch inversion",
 "The extension-field tests are commented out; the remaining tests only pass random non-special elements through a few of the operations.",
 [FP2,FP],[("extension field formulas",FP2)],["all curve and theta arithmetic"])
p("C03","Arithmetic runs in constant time with respect to the operands' values",
 "In the compiled functions of the base field and its quadratic extension, no branch, loop bound, assertion, table or memory index of an arithmetic operation depends on the value of a field element, not even through results computed from it; bit lengths, slice lengths and element counts, and the length and value of the exponents of pow_small and pow_big, are public. Selections and conditional operations are done with masks whatever the operand. Random generation, formatting, hashing, conversions to big integers and functions documented as variable time are not covered.",
 ["inputs"],"all values of all operands, over every path of every covered field operation",
 "Tests compare results only; a value-dependent branch gives the same results.",
 [FP,FP2,UT],[("mask-based selection instead of branches",FP)],["control flow of the compiled functions"])
p("C04","Curve arithmetic is the complete elliptic-curve group law",
 "Point addition, subtraction, negation, doubling, repeated doubling and equality on a Montgomery curve implement the group law for every pair of points, including the point at infinity in any projective representation, equal points, opposite points and points of order two. The x-only doubling agrees with the full doubling. The operations on products of two curves act componentwise.",
 ["inputs"],"all pairs of points on all curves and all their projective representations, including all exceptional pairs",
 "Tests add a handful of random points and never reach the exceptional cases of the formulas on unusual representations.",
 [EC],[("addition formulas with mask-selected exceptional cases",EC)],["Point values"])
p("C05","Scalar multiplication equals repeated addition for every scalar and length",
 "Multiplying a point by an unsigned little-endian scalar gives the same point as repeated addition, whatever the scalar (zero, even, odd, with leading zero bits) and whatever the claimed bit length up to the buffer size; bits beyond the claimed length are ignored. The big-integer, small-integer and byte-string entry points agree with each other. Multiplying the point at infinity or a point of order two gives the right multiple as well.",
 ["inputs"],"all points, all scalars, all bit lengths",
 "Tests multiply random points by random full-length odd or even scalars only; short, zero and padded scalars and low-order points are not reached.",
 [EC],[("Montgomery ladder with y-recovery",EC),("scalar to byte conversion",EC)],["Point values"])
p("C06","Only points that satisfy the curve equation are accepted or produced",
 "Setting a point from affine or projective coordinates yields that point and reports success exactly when the coordinates satisfy the curve equation, and otherwise yields the neutral element and reports failure. Completing a point from its x-coordinate yields a point with that x on the curve, or reports failure exactly when none is rational. The j-invariant and the on-curve test depend only on the curve and the point, not on their representation.",
 ["inputs"],"all coordinate tuples, on and off the curve, and all curve coefficients",
 "Tests construct valid points only.",
 [EC],[("validation of coordinates",EC)],["Point constructors"])
p("C07","Exponentiation, square and fourth roots are correct for all exponents and inputs",
 "Raising to a power gives x^e for every exponent length and value (including zero, leading zeros and window-boundary patterns) in every exponentiation entry point of both fields. In both fields a square root is reported with success exactly for squares, squares back to the operand and has the documented sign; the same holds for fourth roots and fourth powers; on failure the result is zero. The fixed exponents used are the ones that make these statements true for this prime.",
 ["inputs"],"all field elements and all exponents",
 "Tests run a few random exponents and operands; the extension-field root tests are commented out.",
 [FP,FP2,FI],[("window exponentiation tables and exponents",FP),("extension-field root formulas",FP2)],["power and root results"])
p("C08","Field and curve constants are consistent with one another",
 "Every precomputed constant is the value its definition prescribes for the modulus: Montgomery one, minus one, two, three, four and the squared radix, the word inverse, the division-scaling and decoding factors, the root exponents, the non-residue and the base points, which lie on the starting curve. The degree constants agree with their stated factorisations, are coprime to one another and to two, match the order of the basis, and satisfy the two-square norm equation with the two-power isogeny length.",
 ["configurations"],"every constant and every relation between constants that the algorithms rely on",
 "A wrong constant used only on rare paths (roots, division scaling, decoding of long inputs) is not exercised by the tests; relations between constants are never asserted.",
 [FI],[("precomputed parameter tables",FI)],["constants"])
p("C09","Field elements encode canonically and decode strictly",
 "Encoding a base-field or extension-field element writes its unique little-endian representative of fixed length, and decoding is its exact inverse. Decoding reports success exactly for inputs of the right length that encode a value below the modulus, and otherwise returns zero with failure. Decoding with reduction interprets an input of any length as a little-endian integer reduced modulo p.",
 ["inputs"],"all byte strings of all lengths and all field elements",
 "Tests decode random strings and one or two lengths; values at p and p-1, short and long inputs and partial trailing words are not reached.",
 [FP,FP2],[("byte/limb conversion with range check",FP)],["encode/decode results"])
p("C10","Theta-structure arithmetic implements the (2,2)-isogeny formulas",
 "Hadamard transform, squared coordinates, theta doubling, gluing, each (2,2)-isogeny step (in every Hadamard variant) and the final step to a product compute the projective coordinates that the theta relations prescribe, for every theta null point and every point at which those relations are defined. Doubling agrees with the isogeny followed by its dual, and every image has the correct null point as image of the neutral element.",
 ["inputs"],"all theta null points, all theta points, all kernel points",
 "Only one fixed chain is executed by the tests and the theta test itself is not reliable; whole branches of the splitting table are never taken.",
 [TH],[("theta formulas",TH)],["ThetaPoint values"])
p("C11","Splitting and maps between theta and Montgomery models are right in every case",
 "For each of the ten even theta characteristics, the change of basis chosen when that characteristic's constant vanishes is an invertible map that moves the vanishing constant to the position where the product structure is read off. The vanishing characteristic is identified correctly whichever of the ten it is. The conversions from couples of Montgomery points to theta points and back are consistent with each other on both components.",
 ["inputs"],"all ten even characteristics and all product theta structures",
 "A given chain meets only one of the ten cases; the tests reach one or two.",
 [TH],[("table of splitting matrices",TH),("even-index identification",TH)],["split_to_product results"])
p("C12","Optimised isogeny-chain strategies compute the same chain as naive evaluation",
 "For every chain length with a well-formed strategy, the strategy-driven two-dimensional chain performs exactly one isogeny per step, each with a kernel of the correct order obtained by the correct number of doublings, and pushes every evaluation point through every step, so that its result is that of the naive chain. The embedded strategy is well formed for the embedded chain length. The one-dimensional factored chain likewise computes one isogeny per prime factor, with kernel generators of exactly the remaining order.",
 ["inputs","configurations"],"all strategies and chain lengths, all lists of evaluation points and all factorisations",
 "Tests run one length with one strategy.",
 [TH,IS,FI],[("strategy loops",TH),("sparse strategy for factored degree",IS)],["list of doublings and isogenies performed"])
p("C13","x-only isogenies have the right codomain and images, for every odd degree",
 "For every odd prime degree and kernel generator, the computed codomain coefficient is that of the isogeny with this kernel, and evaluation maps each x-coordinate to that of its image, in projective coordinates, whatever the projective scaling of the inputs. Chains are composed in order and checked to be composable, and the sign of the y-coordinates chosen when a whole basis is pushed is the one that makes the pairing compatible with the degree.",
 ["inputs"],"all odd degrees, kernels, points and projective scalings; all chains",
 "Tests evaluate fixed degrees on one curve.",
 [IS],[("codomain from kernel multiples",IS),("image evaluation",IS)],["codomain and image points"])
p("C14","Pairings are computed on the right lines and combined with the right sign",
 "The Tate pairing's Miller loop evaluates tangent and chord lines, with vertical lines, at the second argument, for every bit of the order, treating vanishing and infinite cases without producing wrong values. The Weil pairing is the quotient of the two Tate evaluations with the sign prescribed by the parity of the order, for every pair of points whose orders divide the given order, including the point at infinity, and is one for linearly dependent points.",
 ["inputs"],"all pairs of points and all orders",
 "Tests check bilinearity on one basis.",
 [PA],[("Miller loop and quotient",PA)],["pairing values"])
p("C15","Number-theoretic helpers compute what they claim for every input",
 "For b at least one, the extended gcd returns a non-negative coefficient r with a*r congruent to gcd(a, b) modulo b. Chinese remaindering over distinct prime powers returns the value below the modulus congruent to every given residue, the integer square root is rounded down exactly on all inputs, and baby-step giant-step, the Pohlig-Hellman solvers and the two-dimensional discrete logarithm return the logarithm whenever one exists.",
 ["inputs"],"all integers, all moduli lists and all group elements of the stated order",
 "Tests run a few fixed values; boundary values (perfect squares, largest words, zero residues, exponent greater than one) are not reached.",
 [DL],[("gcd loop invariant",DL),("recombination",DL)],["returned integers"])
p("C16","Order predicates and basis generation accept only elements of the exact order",
 "The order tests accept a point or a root of unity exactly when its order is the given factored integer. A random point of order D is produced by clearing exactly the complementary cofactor and checked to have order D, and a torsion basis consists of two points of order D whose pairing has order D. The canonical kernel and the random x-only isogeny have the requested degree.",
 ["inputs","histories"],"all points, factored orders, curves and random choices",
 "A point of wrong order is drawn only with small probability; tests draw a few.",
 [SS],[("cofactor multiplication and exact-order test",SS)],["generated points and bases"])
p("C17","Key generation, evaluation and inversion fit together as the trapdoor requires",
 "Key generation publishes the image of the public two-power basis under the secret isogeny scaled by a diagonal matrix with entries invertible modulo that power. Evaluation applies isogenies of exactly the degrees that the inversion expects, to the public basis and to the published points, and masks both images with the same diagonal matrix given as input. Inversion undoes exactly these steps, so that for every key pair and every trapdoor input, inverting the evaluation returns the input. (A trapdoor input has scalars below the two kernel orders d1 and d2, an odd first masking entry below half of the two-power, and its inverse as second entry.)",
 ["inputs","histories"],"all key pairs and all trapdoor inputs",
 "The end-to-end tests only print the recovered values and do not compare them.",
 [FE],[("keygen / trapdoor_eval / trapdoor_inverse",FE)],["TrapdoorInput round trip"])
p("C18","Keys and outputs survive serialisation and malformed encodings are rejected",
 "Encoding a secret key or a trapdoor output writes every component once, at the offset where decoding reads it, in a fixed total length, so that decoding an encoding gives back an equal value. Decoding an encoding of the wrong length, or containing a non-canonical field element, is refused in every build profile instead of yielding a key with silently altered components.",
 ["inputs","configurations"],"all keys, all trapdoor outputs, all byte strings, debug and release builds",
 "The tests round-trip one random key and one output in the debug profile.",
 [FE],[("encode/decode layouts",FE)],["encode/decode results"])
p("C19","Secrets are drawn from the cryptographic generator over their full range",
 "Every random field element, point, scalar and isogeny used by key generation comes from a cryptographically secure generator, without fixed seeds, constants or reuse of a draw for two purposes. A random field element is the reduction of generator bytes that are all freshly drawn and number at least 64 bits more than the modulus, independently for both coordinates; random points take a fresh abscissa and a fresh sign at every attempt, and every step of a random isogeny a fresh kernel point. Secret matrix entries are drawn over the full two-power range and made invertible without otherwise restricting them.",
 ["inputs","histories"],"all calls that consume randomness",
 "A biased or repeated draw yields valid keys; tests cannot notice.",
 [FP,FP2,EC,SS,FE],[("thread_rng / CryptoRng-bounded draws",FE)],["values flowing from the generator"])
p("C20","Evaluation, inversion and decoding are deterministic and free of side effects",
 "Trapdoor evaluation and inversion, all isogeny, pairing and discrete-logarithm computations, and encoding and decoding depend only on their arguments: they consult no random generator, clock, environment, file or mutable global state, and write nothing but their results. Functions taking shared references never modify what they point to. The library itself never prints, and the secret key type has no formatting implementation.",
 ["inputs","histories"],"all call histories and environments",
 "A test sees one run; hidden state or hidden randomness gives equal results in it.",
 [FE,IS,TH,PA,DL,FP],[("absence of effects in the call graph",FE)],["call graph"])
p("C21","By-value, by-reference, assigning and in-place forms of each operation agree",
 "For every operator of the field, extension-field and point types, the forms taking values or references on either side, the compound-assignment form, the in-place method and the returning method give the same result, and operands passed by reference are left unchanged. Equality holds exactly for equal values (for trapdoor inputs: when all four components are equal), and equal values hash equally.",
 ["inputs","programs"],"all operand values and all operator forms",
 "Tests use whichever form the code needs; the others are compiled but never run.",
 [FP,FP2,EC],[("operator trait implementations",FP)],["operator results"])
p("C22","Unsafe code is confined and valid on every supported processor",
 "Unsafe code is confined to the word-arithmetic primitives; each primitive computes the exact carry, borrow or double-width product for all operands and has the same result on every target. Instructions outside the target's baseline feature set are used only when the build enables them.",
 ["inputs","configurations"],"all operand words, all build targets",
 "The tests run on one processor that has all the extensions, on sampled words.",
 [UT],[("carry, borrow and wide multiplication primitives",UT)],["primitive results"])
p("C23","Debug and release builds behave alike and the field layer never panics",
 "No result depends on whether debug assertions are compiled in: the debug and the release build execute the same operations apart from the evaluation of assertion conditions, and these conditions have no side effects. A condition on caller-supplied data that is checked only in debug builds is never the sole guard of a later use; in particular malformed encodings are refused in release builds too. Base-field and extension-field operations perform no out-of-range index, arithmetic overflow, over-wide shift or failing conversion for any operand, in either profile, so that the presence of overflow checks changes nothing there. (Overflow checks outside the field layer are not covered.)",
 ["inputs","configurations"],"all inputs in both build profiles",
 "Tests run in one profile on well-formed inputs.",
 [FP,FP2,EC,FE],[("debug assertions",FE),("fixed loop bounds",FP)],["assertion sites"])
p("C24","Random field elements and keys are statistically uniform",
 "The distribution of every random field element, point and scalar produced is statistically indistinguishable from uniform on its range. No secret-dependent skew is observable in any number of samples. Resampling loops preserve the distribution.",
 ["inputs"],"the distribution of outputs over the generator's randomness",
 "A distribution is not visible in a handful of samples.",
 [FP,SS,FE],[("rejection-free wide reduction",FP)],["samples"])
p("C25","Inverting the public function without the secret key is infeasible",
 "No efficient algorithm recovers the trapdoor input from a public key and an output. The parameters reach the claimed 128-bit security level. The masked torsion images reveal nothing usable about the secret isogeny.",
 ["inputs"],"all efficient adversaries",
 "A computational hardness assumption cannot be tested.",
 [FE,FI],[("parameter choice",FI)],[])
p("C26","Isomorphisms between Montgomery models map points to the right points",
 "The isomorphism built for two isomorphic Montgomery curves sends every affine point of the domain to a point of the codomain by one affine change of coordinates that is not constant, and the point at infinity to the point at infinity, whatever the projective scaling of the input. This holds in particular when the two coefficients are equal or opposite; only pairs where exactly one coefficient is zero are excluded.",
 ["inputs"],"all pairs of isomorphic curves and all points",
 "The test uses one pair of curves and one point.",
 [EC,FE],[("isomorphism coefficients and evaluation",EC)],["image points"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
