TECH = "runtime monitoring: generated hostile workloads on the real code under checkptr, online oracle against "
NOTE = "Holds on every execution explored (seeded by VERIF_SEED); says nothing about inputs outside the generated domain. Trusts the math/big / float64 references in /verif/harness and the Go runtime's instrumentation. "

PROPS = [
 dict(id="R01", title="Scalar modular arithmetic returns the exact residue",
  statement="Every scalar modular-arithmetic primitive (Montgomery and Barrett reduction and multiplication, conversion into and out of Montgomery form, exponentiation, conditional reduction, rounded big-integer division) returns the mathematically exact result for every odd prime modulus below 2^61 and every operand in its documented range. Variants documented as returning a value in [0,2q-1] return a value below 2q congruent to the exact result. Operands passed by reference are not modified.",
  over=["inputs"], text="all odd prime moduli of 5 to 61 bits, all operands in the documented range, including 0, 1, q-1, 2q-1, 2^64-1 and multiples of q; for rounded division all big integers of either sign including ties",
  why="the existing tests check a few fixed moduli and a handful of operands; the corner cases (conditional subtraction taken or not, carries) depend on modulus and operand together",
  files=["ring/modular_reduction.go","ring/int.go","ring/utils.go"],
  mech=[("Barrett and Montgomery reduction with precomputed constants","ring/modular_reduction.go"),("rounded division","ring/int.go DivRound")],
  technique=TECH+"math/big", note=NOTE),
 dict(id="R02", title="Ring polynomial arithmetic is exact modulo every modulus, at every level",
  statement="Every coefficient-wise, scalar, big-integer and conversion operation of the polynomial ring computes, in every residue channel up to the requested level, the value its definition gives modulo that channel's modulus, with non-lazy variants fully reduced. It writes only its receiver and only up to the level, leaves its operands unmodified unless receiver and operand coincide, and gives the same result when they do coincide. Conversions to and from big integers, strings and signed integers agree with the Chinese-remainder value of the coefficients.",
  over=["inputs","configurations"], text="all rings (degree, moduli, type), levels, operands over their whole documented range, receivers fresh, dirty or aliased to an operand",
  why="tests use a few parameter sets, the maximum level, and fresh receivers; errors tied to a level, a modulus size, aliasing or an extreme coefficient are not sampled",
  files=["ring/ring_operations.go","ring/ring_vector_ops.go","ring/ring.go","ring/ring_poly.go"],
  mech=[("unrolled vector kernels","ring/ring_vector_ops.go"),("per-level loops","ring/ring_operations.go"),("CRT reconstruction","ring/ring.go PolyToBigintLvl")],
  technique=TECH+"math/big per residue channel", note=NOTE),
 dict(id="R03", title="The number-theoretic transform evaluates, inverts and multiplies correctly",
  statement="For every ring the forward transform maps a polynomial to its values at the roots of the ring's defining polynomial, the inverse transform undoes it exactly, and the inverse transform of the point-wise product is the product in the ring, for standard and conjugate-invariant rings alike. Single-channel, level-limited, lazy and in-place variants agree with the plain one (lazy ones up to reduction).",
  over=["inputs","configurations"], text="all rings (degree, moduli up to 60 bits, both types), levels, polynomials and transform variants, inputs reduced or in the range left by lazy operations",
  why="tests compare a few precomputed vectors and round trips on random polynomials at one level; unrolled kernels take different paths per degree and a wrong lazy bound shows only for extreme coefficients",
  files=["ring/ring_ntt.go","ring/ring_ntt_interface.go","ring/ring.go"],
  mech=[("butterfly network","ring/ring_ntt.go"),("transform selection","ring/ring_ntt_interface.go"),("roots of unity","ring/ring.go genNTTParams")],
  technique=TECH+"direct evaluation and schoolbook multiplication", note=NOTE),
 dict(id="R04", title="Prime generation and ring construction accept and return only valid moduli",
  statement="Primality testing gives the right answer on every 64-bit integer; prime generation returns the requested number of distinct primes of the requested size congruent to 1 modulo the requested root order, or reports an error. A ring is constructed exactly when its degree is an admissible power of two and its moduli are distinct primes compatible with the transform, and its precomputed constants describe those moduli; otherwise an error is returned.",
  over=["inputs","configurations"], text="all 64-bit candidates (including strong pseudoprimes, Carmichael numbers and prime squares), bit sizes, root orders and counts; all lists of moduli, valid or not",
  why="tests construct rings from known good prime lists only",
  files=["ring/primes.go","ring/ring.go"],
  mech=[("primality test and prime search","ring/primes.go"),("parameter validation","ring/ring.go setParameters, genNTTParams")],
  technique=TECH+"math/big ProbablyPrime and an independent prime search", note=NOTE),
 dict(id="R05", title="Automorphisms, monomial products, shifts and rotations match their definition",
  statement="Applying the automorphism X->X^g gives, in the coefficient and in the transformed representation, the polynomial obtained by substituting X^g, for every admissible g, and automorphisms compose. Multiplying by a monomial of any integer degree, shifting and rotating by any amount, mapping between ring degrees and folding or unfolding between a conjugate-invariant ring and its standard ring give the polynomial their definitions prescribe. Only the receiver is written.",
  over=["inputs","configurations"], text="all rings, levels, polynomials, odd exponents, degrees and shifts including 0, negative and beyond the ring degree",
  why="tests try a few exponents at the maximum level",
  files=["ring/ring_automorphism.go","ring/ring_operations.go","ring/conjugate_invariant.go","utils/utils.go"],
  mech=[("index permutation","ring/ring_automorphism.go"),("folding","ring/conjugate_invariant.go")],
  technique=TECH+"coefficient-by-coefficient substitution", note=NOTE),
 dict(id="R06", title="RNS basis extension, base reduction and gadget decomposition are exact",
  statement="Extending a polynomial from one modulus basis to another returns residues of the same integer (the representative in [0,Q); only within a 2^-38 fraction of a boundary may it be a neighbouring multiple away, and then consistently in every residue). Reducing a polynomial from basis QP to Q or to P returns the integer quotient by the removed modulus, in either representation, and decomposing returns, in every residue channel, the residues of each block's value. Operands are unmodified and nothing is written above the requested level.",
  over=["inputs","configurations"], text="all pairs of disjoint bases, all levels of each, all blocks, all coefficient values including those at and next to 0, Q/2, Q and multiples of the divisor",
  why="tests use random coefficients at the maximum level, where a boundary case or a level mismatch never appears",
  files=["ring/ring_basis_extension.go"],
  mech=[("floating-point corrected CRT reconstruction","ring/ring_basis_extension.go reconstructRNS, multSum"),("division by P","ring/ring_basis_extension.go ModDown*"),("block decomposition","ring/ring_basis_extension.go DecomposeAndSplit")],
  technique=TECH+"math/big CRT", note=NOTE),
 dict(id="R07", title="Division by moduli and plaintext scaling round exactly as specified",
  statement="Dividing a polynomial by its last modulus, once or repeatedly, returns in every remaining residue channel the floor (floored variants) or the nearest integer (rounded variants) of the exact quotient, in either representation and at every level. Scaling by t/Q returns the nearest integer reduced modulo t. Operands other than the receiver and the scratch argument are not modified.",
  over=["inputs","configurations"], text="all rings, levels, numbers of divisions, plaintext moduli and coefficient values including exact multiples, ties and values next to rounding boundaries",
  why="tests use random coefficients, for which off-by-one errors at rounding boundaries have negligible probability",
  files=["ring/ring_scaling.go"],
  mech=[("division kernels","ring/ring_scaling.go DivFloor*, DivRound*"),("scalers","ring/ring_scaling.go RNSScaler, SimpleScaler")],
  technique=TECH+"math/big floor and nearest integer", note=NOTE),
 dict(id="R08", title="Samplers stay in their support, agree across residues and follow their law",
  statement="Every polynomial read from a sampler has coefficients in the sampler's support (uniform below each modulus; Gaussian within the bound; ternary in {-1,0,1}, with exactly the requested Hamming weight where one is given), small coefficients being the same integer in every residue channel, and nothing above the requested level is written. Frequencies follow the stated distribution, and coefficients (and successive polynomials) are independent.",
  over=["inputs","configurations","histories"], text="all rings, levels, distribution parameters (standard deviation, bound, probability, Hamming weight, Montgomery form) and random streams, over successive reads of one sampler",
  why="tests read one polynomial per sampler and check at most its range; agreement across residues, frequencies and independence are statements about histories of reads",
  files=["ring/ring_sampler_gaussian.go","ring/ring_sampler_ternary.go","ring/ring_sampler_uniform.go"],
  mech=[("ziggurat with rejection","ring/ring_sampler_gaussian.go"),("Knuth-Yao walk and sparse sampling","ring/ring_sampler_ternary.go"),("masked rejection","ring/ring_sampler_uniform.go")],
  technique=TECH+"support predicates and 7-sigma statistical tests", note=NOTE),
 dict(id="R09", title="The keyed random generator is a deterministic, resettable stream of its key",
  statement="Two generators with the same key and the same sequence of requests return identical bytes, different keys give different streams, and generators created without a key are all different. The clock counts requests; moving it forward skips exactly the corresponding outputs, and moving it backward is refused with an error and changes nothing.",
  over=["inputs","histories"], text="all keys of 0 to 64 bytes and all interleavings of requests of all sizes and clock settings",
  why="tests run one fixed sequence with one buffer size",
  files=["utils/prng.go"],
  mech=[("BLAKE2b extendable output and a clock counter","utils/prng.go")],
  technique=TECH+"a second generator and the BLAKE2b XOF", note=NOTE),
 dict(id="B01", title="Slice, arithmetic and byte-buffer helpers meet their definitions",
  statement="Rotations of slices return a new slice with the elements rotated, whatever the amount and length; equality, membership, maximum, distinctness, bit-reversal and Hamming-weight helpers agree with their naive definitions, slices of different lengths being unequal. Values written to a byte buffer read back unchanged, in order and as big-endian bytes.",
  over=["inputs"], text="all slices (including empty), rotation amounts of either sign, integers and sequences of buffer writes",
  why="tests cover one slice per helper and no buffer sequence",
  files=["utils/utils.go","utils/buffer.go"],
  mech=[("helpers","utils/utils.go"),("buffer","utils/buffer.go")],
  technique=TECH+"naive definitions", note=NOTE),
 dict(id="R10", title="Operations over the extended ring QP act on both parts at their levels",
  statement="Every operation of the extended ring applies the ring operation of the same name to the Q part and to the P part, each up to its own level, and does nothing to a part that is absent. Small polynomials extended from Q to P represent the same centred integers in every residue. Operands are unmodified and nothing above the levels is written.",
  over=["inputs","configurations"], text="all parameter sets with and without P, all pairs of levels, all operations, fresh, dirty and aliased receivers",
  why="no test calls these operations directly; key generation and key switching exercise them at the maximum levels only",
  files=["rlwe/ring_qp.go"],
  mech=[("per-part dispatch","rlwe/ring_qp.go"),("extension of small polynomials","rlwe/ring_qp.go ExtendBasisSmallNormAndCenter")],
  technique=TECH+"per-channel integer arithmetic", note=NOTE),
 dict(id="S01", title="Serialized objects read back identical, and sizes are exact",
  statement="Every object that can be written (polynomials, rings, keys, ciphertexts, plaintexts, parameters) reads back equal to what was written, flags, levels, scales and precomputed data included, whatever the buffer or the receiver held before. The announced size is the number of bytes written, and writing does not modify the object.",
  over=["inputs","configurations","histories"], text="all objects over all parameter sets, levels, flags and contents; fresh and dirty buffers and receivers, successive objects in one buffer",
  why="tests write and read one object of each kind into fresh memory at the maximum level",
  files=["ring/ring_poly.go","ring/ring.go","rlwe/marshaler.go","rlwe/params.go","rlwe/ring_qp.go","ckks/ciphertext.go","ckks/params.go"],
  mech=[("polynomial encoding","ring/ring_poly.go WriteTo, DecodePoly*"),("key and ciphertext encoding","rlwe/marshaler.go"),("parameters","rlwe/params.go, ckks/params.go MarshalBinary, MarshalJSON")],
  technique=TECH+"deep comparison after write and read", note=NOTE+"JSON of parameters is claimed for non-zero Hamming weight, deviation and slots (zero means default there)."),
 dict(id="S02", title="Malformed bytes are refused with an error, never a crash or a partial object",
  statement="Decoding a truncated, extended or corrupted encoding of any object either returns an error or yields an object that is well formed; it never panics and never reads or writes out of bounds. Truncated encodings and encodings followed by further bytes are refused.",
  over=["inputs","fault_sequences"], text="all truncations, extensions, bit flips, byte overwrites and splices of valid encodings of every object, and arbitrary bytes",
  why="tests decode valid encodings only",
  files=["ring/ring_poly.go","ring/ring.go","rlwe/marshaler.go","rlwe/params.go","rlwe/ring_qp.go","ckks/ciphertext.go","ckks/params.go"],
  mech=[("length checks of the decoders","rlwe/marshaler.go UnmarshalBinary"),("parameter validation on decoding","rlwe/params.go, ckks/params.go")],
  technique=TECH+"fault injection on encodings", note=NOTE+"Headers that announce astronomically large objects are not explored."),
 dict(id="K01", title="Keys satisfy their defining equations with fresh bounded noise",
  statement="Secret keys have the requested distribution and represent one small polynomial in every residue of Q and P. Public, relinearization, rotation, generic, ring-degree and ring-type switching keys open under their output secret to the scaled input secret in exactly the right residue blocks, up to a fresh non-zero Gaussian noise within its bound; masks and noises are never reused. Key sets hold exactly the requested Galois elements and generating a key never modifies its inputs.",
  over=["inputs","configurations","histories"], text="all parameter sets (degrees, moduli, ring types, secret densities, deviations), all key kinds, levels of the input and output keys, rotations of either sign and any size, and sequences of generations by one generator",
  why="tests check the noise of one key of each kind per parameter set at the maximum level, against a loose logarithmic bound",
  files=["rlwe/keygen.go","rlwe/keys.go","rlwe/params.go"],
  mech=[("secret and public key generation","rlwe/keygen.go genSecretKeyFromSampler, GenPublicKey"),("switching-key gadget","rlwe/keygen.go genSwitchingKey"),("Galois elements","rlwe/params.go")],
  technique=TECH+"opening every key with the secret by schoolbook arithmetic", note=NOTE),
 dict(id="K02", title="Encryption hides and decryption recovers the message, at every level and domain",
  statement="A fresh encryption under a public or a secret key, or from a given common reference polynomial, has the smaller of the two levels and the receiver's domain, and opens to the plaintext up to a fresh noise within the bound of its method. Decryption evaluates a ciphertext of any degree at the secret exactly, at the smaller level and in the plaintext's domain. Plaintexts, ciphertexts and keys that are inputs are never modified, encryptions never share mask or noise, and keys of another ring degree are refused.",
  over=["inputs","configurations","histories"], text="all parameter sets with or without P, all key kinds, plaintext and ciphertext levels and domains, ciphertext degrees 0 to 17, dirty receivers, and histories of shallow copies and key changes",
  why="tests encrypt zero-like messages at two levels and check a logarithmic noise bound; degrees above two and mixed levels are not decrypted",
  files=["rlwe/encryptor.go","rlwe/decryptor.go","rlwe/elements.go"],
  mech=[("encryption over QP and rounding by P","rlwe/encryptor.go"),("Horner evaluation","rlwe/decryptor.go")],
  technique=TECH+"schoolbook evaluation at the secret", note=NOTE),
 dict(id="K03", title="Key switching re-encrypts a product under the output key with bounded noise",
  statement="Switching a polynomial with a key from s to s' yields a pair that opens under s' to the polynomial times s, up to the noise bound of the gadget, at every level not above the key's, in the domain of the polynomial, for keys with all or fewer moduli. Hoisted and non-hoisted variants agree exactly before the division by P, and decomposition digits are small and congruent to the operand. The operand and the key are unmodified, nothing above the level is written, and the result depends on the arguments only, not on earlier calls.",
  over=["inputs","configurations","histories"], text="all parameter sets, levels, key levels, operands (uniform and extremal) in either domain, dirty receivers, and histories of calls on one switcher and its copies",
  why="tests switch random polynomials at the maximum level once per parameter set",
  files=["rlwe/keyswitch.go","ring/ring_basis_extension.go","rlwe/ring_qp.go"],
  mech=[("gadget product with lazy reduction","rlwe/keyswitch.go SwitchKeysInPlaceNoModDown"),("hoisted product","rlwe/keyswitch.go KeyswitchHoisted*")],
  technique=TECH+"schoolbook opening with the noise bound", note=NOTE+"The noise bound is 14 sigma for uniform operands and the worst case otherwise."),
 dict(id="K04", title="Ciphertexts move between ring degrees and types with their message intact",
  statement="Mapping a ciphertext to a larger ring degree places its coefficients at the multiples of the degree ratio, mapping to a smaller degree takes those, in the coefficient and in the transformed domain, at every level, writing only the receiver. Keys generated for a change of degree or of ring type open to the embedded secret, and a ciphertext carried through such a key and map decrypts to the mapped message within the noise bound.",
  over=["inputs","configurations"], text="all pairs of degrees, levels, domains, ciphertext degrees and parameter sets; both directions; both ring types",
  why="tests carry one ciphertext between two fixed degrees at one level",
  files=["rlwe/elements.go","rlwe/keygen.go","ring/ring_operations.go"],
  mech=[("degree maps","rlwe/elements.go SwitchCiphertextRingDegree*"),("keys across degrees and types","rlwe/keygen.go GenSwitchingKey, GenSwitchingKeysForRingSwap")],
  technique=TECH+"coefficient maps and schoolbook opening", note=NOTE),
 dict(id="F01", title="Fast switching keys and the fast key switch are correct at every level",
  statement="Fast relinearization and rotation keys, rebuilt from their integer blocks over T, are switching keys over QP that open under their output secret to the scaled input secret with fresh bounded noise. Switching a polynomial with them gives a reduced pair that opens to the polynomial times the input secret within the noise bound of the gadget, at every level, whatever calls came before. Operands and keys are unmodified and nothing above the level is written.",
  over=["inputs","configurations","histories"], text="all parameter sets (degrees, moduli of Q, P and T, block lengths, numbers of digits, secret densities), key kinds and rotations, levels, operands and histories of calls on one switcher",
  why="tests measure one switch per parameter set at the maximum level against a loose logarithmic bound",
  files=["frlwe/keygen.go","frlwe/keyswitch.go","frlwe/params.go","frlwe/keys.go"],
  mech=[("block keys over T","frlwe/keygen.go"),("external product over T","frlwe/keyswitch.go SwitchKey"),("lazy reduction margin","frlwe/keyswitch.go TiOverflow")],
  technique=TECH+"rebuilding keys over QP and schoolbook opening", note=NOTE+"Q and T must satisfy the size condition of the scheme."),
 dict(id="F02", title="The fast CKKS scheme computes the same integers as exact arithmetic",
  statement="Fresh encryptions of messages open to the encoding of the message up to fresh noise; addition, subtraction, relinearized multiplication, rotation and key switching open to exactly the integer result, up to the key-switching noise bound, with the right level, scale, degree and domain, whatever the receiver held. Decryption returns the slots of the opened polynomial whatever was decrypted before. Operands and keys are unmodified.",
  over=["inputs","configurations","histories"], text="all parameter sets, messages, levels, receivers (new, dirty, aliased) and sequences of operations on one encryptor, decryptor and evaluator",
  why="its tests are few, run fixed parameters at the top level and only print or compare a precision",
  files=["fckks/evaluator.go","fckks/encryptor.go","fckks/decryptor.go","fckks/elements.go","fckks/keygen.go","fckks/params.go"],
  mech=[("operations","fckks/evaluator.go"),("encryption of messages","fckks/encryptor.go"),("decryption to messages","fckks/decryptor.go")],
  technique=TECH+"opening ciphertexts with the secret and exact integer arithmetic", note=NOTE),
 dict(id="C01", title="Encoding and decoding follow the canonical embedding within rounding",
  statement="Encoding a vector of slots, in either ring type, at any level, scale and number of slots, yields the polynomial whose canonical embedding is the scaled vector up to rounding, in the requested domain with every coefficient reduced; decoding evaluates the embedding, and the two are inverse within floating-point precision. Coefficient encoding is exact rounding, the high-precision encoder agrees with the other one within its own precision, and public decoding adds noise within its bound. Results never depend on what the plaintext, the output or the encoder held before, and inputs are unmodified.",
  over=["inputs","configurations","histories"], text="all ring types, degrees, slot counts, levels, scales, vector lengths and magnitudes, clean and dirty plaintexts, single- and high-precision encoders and their copies",
  why="tests encode uniform values at the maximum level and scale and print a precision",
  files=["ckks/encoder.go","ckks/utils.go","ckks/plaintext.go"],
  mech=[("embedding transforms","ckks/encoder.go fft, invfft and the unrolled variants"),("scaling to integers","ckks/utils.go scaleUp*"),("decoding","ckks/encoder.go decodePublic, plaintextToComplex")],
  technique=TECH+"direct evaluation of the canonical embedding", note=NOTE+"Decoding of values beyond half of the modulus is excluded."),
 dict(id="C02", title="Homomorphic arithmetic without keys is exact on the component polynomials",
  statement="Addition, subtraction, negation, multiplication without relinearization, products by constants, by Gaussian integers, by i and by powers of two, with their accumulating variants, compute exactly the polynomial formula on the components, with the scales brought together by the integer part of their ratio (the nearest integer when products accumulate) when they differ. The result has the smaller level of operands and receiver, the right degree and scale, and is reduced; it does not depend on what the receiver held, and operands that are not the receiver are unmodified.",
  over=["inputs","configurations","histories"], text="all ring types and moduli, operand kinds (plaintext, ciphertext of degree 0 to 2), levels, scales and integer scale ratios, aliasing of operands and receiver, dirty receivers, all constant types, and sequences on one evaluator",
  why="tests combine fresh ciphertexts of equal level and scale and compare slots to a few bits",
  files=["ckks/evaluator.go","ckks/plaintext.go","ckks/ciphertext.go"],
  mech=[("binary operations","ckks/evaluator.go evaluateInPlace, mulRelin, mulRelinAndAdd"),("constants","ckks/evaluator.go getConstAndScale, AddConst, MultByConst*")],
  technique=TECH+"schoolbook polynomial arithmetic on the components", note=NOTE+"Zero may be represented by the modulus after a negation; scale ratios are integers."),
 dict(id="C03", title="Rescaling, scale changes and level drops are exact and keep the scale honest",
  statement="Rescaling divides by exactly the moduli that keep the scale at least half of the minimum, never beyond level zero, rounding every coefficient to nearest, and divides the scale by the same moduli; setting a scale multiplies the coefficients by the ratio of the scales within rounding, and dropping levels keeps the residues. Refused calls modify nothing, copies are independent, and operands that are not the receiver are unmodified.",
  over=["inputs","configurations","histories"], text="all ring types, moduli, levels, scales and minimum scales, degrees, receivers and aliasing",
  why="tests rescale fresh products at two levels and compare slots to a few bits",
  files=["ckks/evaluator.go","ring/ring_scaling.go"],
  mech=[("rescaling loop","ckks/evaluator.go Rescale"),("SetScale, DropLevel","ckks/evaluator.go")],
  technique=TECH+"exact integer rounding of the reconstructed coefficients", note=NOTE),
 dict(id="C04", title="Relinearization, rotation, conjugation and key switching preserve the message",
  statement="Relinearization, relinearized products and their accumulation, rotation by any amount, conjugation and key switching, hoisted or not, yield a degree-one ciphertext at the right level and scale that opens, under the right secret, to exactly the product, the rotated, conjugated or unchanged polynomial, up to the key-switching noise bound. This holds for every level, domain, receiver and aliasing, whatever calls came before; operands and keys are unmodified, and a rotation without its key is refused.",
  over=["inputs","configurations","histories"], text="all ring types, moduli, secret densities, levels, rotation amounts of either sign, receivers, aliasing and sequences of operations on one evaluator",
  why="tests apply each operation once on a fresh ciphertext at the top level and compare slots to a few bits",
  files=["ckks/evaluator.go","rlwe/keyswitch.go","rlwe/params.go"],
  mech=[("relinearization","ckks/evaluator.go mulRelin, mulRelinAndAdd, Relinearize"),("automorphisms","ckks/evaluator.go permuteNTT, PermuteNTTHoisted*, Rotate, Conjugate")],
  technique=TECH+"opening results with the secret against exact polynomials", note=NOTE),
 dict(id="P01", title="Parameters are accepted exactly when valid and describe one scheme",
  statement="Parameters are accepted when, and only when, the degree, the counts, the primality, distinctness and residues of the moduli, the ring type and the slots are valid; refused ones give an error and empty parameters. Sizes give distinct NTT primes of those sizes, and omitted values their documented defaults. Every getter, derived ring, rotation list and Galois element agrees with its definition, equality and copies are exact, nothing is shared with the caller, and all default sets are valid.",
  over=["inputs","configurations"], text="all degrees, chains of moduli given by values or by sizes, ring types, distributions, slots and scales, with at most one defect each, for the four packages; every default set",
  why="tests build a few valid sets and check none of the refusals, defaults or derived values",
  files=["rlwe/params.go","ckks/params.go","frlwe/params.go","fckks/params.go","ring/primes.go"],
  mech=[("validation","rlwe/params.go NewParameters, CheckModuli, checkSizeParams"),("literals and defaults","rlwe/params.go, ckks/params.go NewParametersFromLiteral, GenModuli"),("derived values","rlwe/params.go, ckks/params.go getters")],
  technique=TECH+"definitions of every derived value", note=NOTE+"Sizes with too few primes, the weight of the secret and the sizes of the moduli of T are not validated by the library and not claimed."),
 dict(id="E01", title="Equality is exact and copies are exact, complete and independent",
  statement="Polynomials and keys of every kind are equal exactly when all of their residues, parts and shapes are, in both directions, and absent objects are handled. Copies equal their source with flags and scale, share no memory with it, and copies into existing objects write exactly the common levels. Resizing keeps the components and adds zero ones; new objects are zero, of the right shape and domain, with independent components; key-set inclusion and look-up are exact.",
  over=["inputs","configurations"], text="objects of every kind with arbitrary contents, levels, flags and numbers of parts; single-word and shape differences at any place",
  why="tests compare equal objects and never look for shared memory or missed differences",
  files=["ring/ring_poly.go","rlwe/ring_qp.go","rlwe/keys.go","rlwe/elements.go","ckks/ciphertext.go","ckks/plaintext.go","frlwe/keys.go","fckks/elements.go"],
  mech=[("equality","rlwe/keys.go, rlwe/ring_qp.go, ring/ring_poly.go Equals"),("copies","CopyNew, Copy, CopyValues, CopyLvl"),("allocation and resizing","rlwe/elements.go, rlwe/keys.go")],
  technique=TECH+"reflection over all coefficients and their addresses", note=NOTE),
 dict(id="T01", title="Shallow copies and separately built objects can be used concurrently",
  statement="Encryptors, decryptors, encoders, arbitrary-precision encoders, key switchers and basis extenders can be used at the same time as their shallow copies, re-keyed copies and copies of copies, and evaluators, key generators, samplers and fast-variant objects built separately over the same parameters, rings, keys and ciphertexts can work at the same time. There is no data race, every result is the one obtained by working alone, shared keys, plaintexts and ciphertexts are unmodified, and concurrent encryptions have independent randomness.",
  over=["schedules","inputs","configurations"], text="all interleavings of two or more goroutines, each working on its own copy or separately built object, over all ring types and parameters",
  why="no test runs two goroutines; a buffer or sampler shared by a copy gives right results whenever the copies are used one after the other",
  files=["rlwe/encryptor.go","rlwe/decryptor.go","rlwe/keyswitch.go","ckks/encoder.go","ckks/encryptor.go","ckks/decryptor.go","ring/ring_basis_extension.go","fckks/evaluator.go","frlwe/keyswitch.go","ckks/evaluator.go"],
  mech=[("ShallowCopy and WithKey","rlwe/encryptor.go, rlwe/decryptor.go, rlwe/keyswitch.go, ckks/encoder.go, ring/ring_basis_extension.go"),("per-object buffers","newEncryptorBuffers, newKeySwitcherBuffer, newEvaluatorBuffers")],
  technique="runtime monitoring: Go race detector over stress workloads with injected yields and sleeps, results compared with solitary runs", note="The race detector reports every pair of unsynchronized conflicting accesses of the executions explored, in whatever order they happened; nothing is said about code these executions do not reach. "),
 dict(id="B02", title="Arbitrary-precision arithmetic and statistics are accurate and stateless",
  statement="Sums, differences, products and quotients of arbitrary-precision complex numbers have the precision of their operands and receiver, whatever the precisions mixed, the receiver's aliasing and what the multiplier was used for before; constructors and copies are exact and share no memory, and the cosine is accurate to the precision of its argument. Division of big integers rounds to nearest with ties away from zero, whichever operand receives the result; standard deviation and bit reversal agree with their definitions.",
  over=["inputs","histories"], text="all precisions from 24 to 624 bits, mixed in one history, values of either sign including zero, aliased receivers, ties in the division",
  why="tests use these helpers only through one encoder at one precision",
  files=["ring/complex128.go","ring/int.go","ckks/utils.go"],
  mech=[("complex arithmetic","ring/complex128.go Complex, ComplexMultiplier"),("cosine","ring/complex128.go Cos"),("rounded division","ring/int.go DivRound"),("statistics","ckks/utils.go StandardDeviation, SliceBitReverseInPlace*")],
  technique=TECH+"exact rationals and a Taylor series", note=NOTE),
 dict(id="H01", title="A pipeline of encrypted operations computes on the slots, within its error bound",
  statement="Encoding, encrypting, applying any history of homomorphic operations and then decrypting and decoding yields the values the same operations give in the clear, within an error bounded by the fresh noise, the key-switching noise and the rounding that the operations' definitions allow, as long as the values fit the modulus. This holds at every step of the history, for public-key, secret-key and common-reference encryption, for results written in place, into used receivers of any level or into new ones, with one set of encoder, encryptor, evaluator and decryptor objects reused throughout, in the standard and the conjugate-invariant ring, with full or sparse slots, and for the standard as well as the fast scheme; the level of every result is the one its definition gives.",
  over=["histories","inputs","configurations"], text="all histories of additions, subtractions, multiplications by ciphertexts, plaintexts and constants, rotations, conjugations, rescalings, level drops, scale changes and key switches; all parameters, levels, scales and slot counts whose values fit the modulus",
  why="the CKKS package has no tests here and the fast scheme's example runs one short circuit; state left by one operation in a reused object or receiver shows only in a later operation of a particular history",
  files=["ckks/evaluator.go","ckks/encoder.go","ckks/encryptor.go","ckks/decryptor.go","fckks/evaluator.go","rlwe/encryptor.go","rlwe/keyswitch.go"],
  mech=[("homomorphic operations","ckks/evaluator.go"),("fast homomorphic operations","fckks/evaluator.go"),("encoding","ckks/encoder.go"),("encryption and decryption","rlwe/encryptor.go, rlwe/decryptor.go")],
  technique=TECH+"slot values computed in the clear, with a worst-case error bound tracked through the history", note=NOTE),
 dict(id="X01", title="Calls outside an operation's domain are refused and leave operands intact",
  statement="A call that an operation cannot carry out - a missing operand, two plaintexts, an operand outside the transformed domain, an operand or receiver of an unsupported degree, an absent rotation, conjugation or relinearization key, a constant or value of an unsupported type, too many values or slots, a key of another degree or type, a common reference polynomial with a public key, a key-switching key without auxiliary moduli, an operation its ring type does not have, a buffer that is too small, an inadmissible degree or modulus - panics or returns an error instead of returning a wrong result or not returning. Operands and keys keep their value, and the object that refused computes the same results afterwards as a new one.",
  over=["inputs","histories"], text="all the listed kinds of misuse of every operation that documents or checks its domain, at all levels and parameters",
  why="no test makes an invalid call; a dropped or weakened check shows only as a silently wrong result",
  files=["ckks/evaluator.go","ckks/encoder.go","rlwe/encryptor.go","rlwe/decryptor.go","rlwe/keygen.go","ring/ring.go","ring/primes.go","ring/ring_poly.go","ring/conjugate_invariant.go","frlwe/keyswitch.go"],
  mech=[("operand checks","ckks/evaluator.go checkBinary"),("value and slot checks","ckks/encoder.go Embed"),("key checks","rlwe/encryptor.go setKey")],
  technique=TECH+"panic interception and snapshots of operands and keys", note=NOTE),
]
NOT_APPLICABLE = []
NOTES = "No hooks in /repo: every monitor observes the public API. Built with -d=checkptr (all) or -race (T01)."
