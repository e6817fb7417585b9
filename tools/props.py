"""Property texts.  id: (title, statement, quantifier text, quantifier over, why tests cannot, files, [(mechanism, where)], technique, level note)."""
I, H, C = "inputs", "histories", "configurations"
DATA = {}
ORDER = []


def p(id, title, statement, qt, why, files, mech, note, over=(I,), observe=(), state=(), tech=None):
    DATA[id] = dict(title=title, statement=statement, qt=qt, over=list(over), why=why, files=files, mech=mech, note=note, observe=list(observe), state=list(state),
                    tech=tech or "symbolic execution of the LLVM IR of the current sources; SMT (z3) over 2^w arithmetic")
    ORDER.append(id)


p("A01", "64-bit prime-field arithmetic is exact",
  "Addition, subtraction, multiplication, powers, inverses of powers of two and multiplication by any power of two in the 64-bit prime field give the residue of the exact integer result for every pair of operands. The compound forms agree with the plain ones.",
  "all operand pairs, all shift amounts below 192", "The tests draw random operands; carries and borrows out of the reduction happen for about one operand in 2^32, which sampling practically never meets.",
  ["include/INTorus.hpp"], [("special-form reduction", "include/INTorus.hpp operators"), ("shift cases", "include/INTorus.hpp operator<<")],
  "every operand of the stated width; exponents of Pow bounded")
p("A02", "64-bit number-theoretic transform multiplies polynomials exactly",
  "Transforming a polynomial forth and back returns it, and pointwise multiplication between the transforms gives the negacyclic product modulo the prime. Converting between torus words and residues rounds to the nearest value.",
  "all coefficient values of polynomials of the stated dimensions", "Tests multiply a few random polynomials; a wrong twiddle or a carry case only shows for particular coefficients.",
  ["include/cuhe++.hpp", "include/mulfft.hpp"], [("butterflies and twiddles", "include/cuhe++.hpp"), ("torus/residue conversion", "include/cuhe++.hpp TwistINTTlvl1/TwistINTT")],
  "coefficients symbolic at shipped dimensions for the round trip; full products to dimension 128; field operations by the contract A01 shows")
p("A03", "31-bit modular arithmetic with signed residues is exact",
  "Every reduction, addition, subtraction and product of the signed 31-bit prime arithmetic gives a representative of the exact result modulo the prime, inside the stated range, for every operand it accepts. Converting torus words to residues and back rounds to within two units and keeps zero.",
  "all operands of the stated ranges", "The tests multiply random polynomials; a wrong correction at the edge of a range needs operands that occur about once in a billion.",
  ["include/raintt.hpp"], [("signed Montgomery reduction", "include/raintt.hpp SREDC, REDC"), ("conditional corrections", "include/raintt.hpp AddMod, SubMod"), ("torus/residue conversion", "include/raintt.hpp TwistMulInvert, TwistMulDirect")],
  "every operand; exponents of PowREDC to 3")
p("A04", "31-bit number-theoretic transform multiplies polynomials exactly",
  "Multiplying two polynomials through the transform over the 31-bit prime gives their negacyclic product modulo the prime, canonically represented, for every pair of polynomials, and no intermediate value leaves the range its next operation accepts.",
  "all coefficient values of polynomials of the stated dimensions", "Tests multiply a few random polynomials; lazily reduced intermediate values overflow only for particular coefficients.",
  ["include/raintt.hpp"], [("radix-8 butterflies with deferred scaling", "include/raintt.hpp INTTradixButterfly, NTTradixButterfly"), ("twists and remainder stages", "include/raintt.hpp TwistINTT, TwistNTT, PolyMullvl1")],
  "full products to dimension 128, one-term second factors at 256 to 1024; reductions by the contract A03 shows")
p("A06", "Monomial multiplication and substitution act exactly",
  "Multiplying a polynomial by a power of X, by a power of X minus one, and substituting X by an odd power of X give exactly the polynomial defined in the negacyclic ring, for every exponent in range and every polynomial.",
  "all polynomials, all exponents up to twice the dimension", "Tests use one random exponent per run; wrap-around and sign mistakes at the boundary exponents 0, N and 2N-1 are missed.",
  ["include/utils.hpp", "include/trlwe.hpp"], [("index and sign split at the wrap point", "include/utils.hpp PolynomialMulByXai*"), ("index map", "include/utils.hpp Automorphism")],
  "dimensions 16/32 with every exponent, shipped dimension with selected exponents")
p("B01", "Gadget decomposition is balanced and recomposes",
  "Every digit of the decomposition of a torus polynomial lies in the balanced range of its base, and the digits weighted by the gadget differ from the coefficient by at most half a unit of the last digit. Coefficients do not influence each other.",
  "all coefficient values; shipped and other digit layouts", "Carries between digits happen on special bit patterns that random coefficients rarely produce.",
  ["include/trgsw.hpp"], [("rounding offset and digit masks", "include/trgsw.hpp DecompositionPolynomial")],
  "all values of three coefficients at shipped dimension; nine other layouts at small dimension", over=(I, C))
p("B02", "Integers survive encoding, bounded error and decoding",
  "For every level, an integer of the message range that is encoded, disturbed by any error below half a step and decoded comes back unchanged: a scalar as its centred representative, every coefficient of a ring message as a number below the message modulus. Encoding and decoding use the same step.",
  "all messages, all errors below the stated fraction of a step, every level", "Tests encrypt with tiny noise and small moduli; rounding at the edge of a step and the sign of the upper half are untested, and one level pair disagreed about the step.",
  ["include/tlwe.hpp", "include/trlwe.hpp", "include/lweParams.hpp", "include/params/128bit.hpp"], [("scale and rounding", "include/tlwe.hpp tlweSymIntEncrypt, tlweSymIntDecrypt")],
  "every message and every error below 31/64 of a step, all five levels", over=(I, C))
p("B03", "Extracting a coefficient and embedding it back keep the phase",
  "The scalar ciphertext extracted at an index decrypts, under the flattened ring key, to that coefficient of the ring ciphertext's phase. Embedding a scalar ciphertext as a ring ciphertext puts its phase at the requested coefficient.",
  "all ciphertexts, keys and indices", "Tests extract a few indices of fresh ciphertexts; sign errors cancel for many key values.",
  ["include/trlwe.hpp"], [("reversed, negated mask order", "include/trlwe.hpp SampleExtractIndex, InvSampleExtractIndex")], "all indices for dimensions 4..16, one to three mask polynomials")
p("C01", "Scalar encryption hides the message in exactly message plus noise",
  "The phase of a fresh scalar ciphertext is the message plus the drawn noise and nothing else, for every key, mask and noise; decrypting a bit returns it whenever the noise stays below a quarter of the torus, and when encrypting a vector of bits any nonzero byte counts as a one. Every mask word is drawn.",
  "all keys, masks, messages and noise values, every level", "Tests decrypt a few hundred ciphertexts with one key; mistakes that depend on the key value or the noise sign average out.",
  ["include/tlwe.hpp"], [("mask times key accumulated into the body", "include/tlwe.hpp tlweSymEncrypt"), ("phase and sign", "include/tlwe.hpp tlweSymPhase, tlweSymDecrypt")], "vector lengths up to 5 and the shipped length 636")
p("C02", "Ring encryption and decryption are inverse and linear",
  "The phase of a fresh ring ciphertext is exactly its message polynomial plus noise under the key it was made with, decryption of bits returns every bit, and adding ciphertexts adds phases.",
  "all ring keys, masks and messages", "Tests use one random key per run and only look at bits, so an error in one coefficient or one mask polynomial can hide.",
  ["include/trlwe.hpp"], [("sum of mask times key", "include/trlwe.hpp trlweSymEncrypt, trlwePhase")], "dimension 4, one and two mask polynomials, exact transform model")
p("C03", "External product multiplies the phase by the encrypted factor",
  "The phase of the external product of a gadget ciphertext of m and a ring ciphertext is m times the ring ciphertext's phase, up to the decomposition rounding; the same holds for the half form and for the products through either prime field. Gadget rows encrypt the scaled factor in the right positions, and the separate entry points that convert digits or a whole gadget ciphertext hand out the same transforms, in the documented order.",
  "all keys, masks, plaintext factors and ring ciphertexts on the gadget grid", "Tests multiply by a constant 1 with one key; wrong rows or mask positions can decrypt right for special factors.",
  ["include/trgsw.hpp"], [("digits times rows", "include/trgsw.hpp trgswfftExternalProduct"), ("gadget rows", "include/trgsw.hpp trgswSymEncrypt")], "dimension 4, exact transform model, operands on the gadget grid")
p("C04", "Selection by an encrypted bit returns the chosen branch",
  "Selecting between two ring ciphertexts with an encrypted bit yields the phase of the first branch for bit one and of the second for bit zero. This also holds when the result overwrites the first branch.",
  "all branches, keys, masks and both bits", "Tests compare decrypted bits of fresh branches; aliasing of result and operands and non-binary phases are not covered.",
  ["include/trgsw.hpp", "include/cmuxmem.hpp", "include/detwfa.hpp"], [("difference, product, sum", "include/detwfa.hpp CMUXFFT")], "dimension 4, exact transform model")
p("C05", "Key switching preserves the phase up to digit rounding",
  "The phase after switching a scalar ciphertext to another key is the body minus the sum, over the old key, of the mask words rounded to the switching digits, converted to the target word; the batched and the subset forms do the same.",
  "all keys, masks and ciphertexts, every shipped level pair", "Tests decrypt bits, whose margin hides a wrong rounding offset, a dropped digit or a carry lost between digits.",
  ["include/keyswitch.hpp", "include/cloudkey.hpp", "src/cloudkey.cpp"], [("rounding offset, signed digits, table lookup", "include/keyswitch.hpp IdentityKeySwitch, CatIdentityKeySwitch, SubsetIdentityKeySwitch"), ("table of key multiples", "include/cloudkey.hpp ikskgen, subikskgen")],
  "all values of every word at vector lengths 2..4", over=(I, C))
p("C06", "Private key switching applies the secret function to the phase",
  "Switching with a key made for a secret polynomial gives a ring ciphertext whose phase is that polynomial times the input phase, with every input word rounded to the switching digits; the subset form agrees.",
  "all keys, secret polynomials, masks and ciphertexts", "Tests only use it inside circuit bootstrapping with one random key, where an error at low digits disappears in the noise margin.",
  ["include/keyswitch.hpp", "include/cloudkey.hpp"], [("signed digits over mask and body", "include/keyswitch.hpp PrivKeySwitch, SubsetPrivKeySwitch"), ("table of function multiples", "include/cloudkey.hpp privkskgen, subprivkskgen")], "all values of every word at vector lengths 2..4; ring dimension 2")
p("C07", "Packing puts every scalar message in its slot",
  "Packing scalar ciphertexts into one ring ciphertext yields a phase that holds each message at its documented coefficient, for any number of ciphertexts including one and non-powers of two.",
  "all ciphertexts and keys; several counts", "Tests pack a full power of two of random bits; odd counts and per-slot phase errors are not examined.",
  ["include/keyswitch.hpp"], [("halving butterfly with substitutions", "include/keyswitch.hpp PackLWEs, PackLWEsLSB, TLWE2TRLWEChengsPacking, TLWE2TRLWEPacking"), ("trivial-body switch", "include/keyswitch.hpp TLWE2TRLWEIKS")],
  "dimensions up to 16, counts 1..16; automorphism step by its contract, plus full runs at dimension 2")
p("C08", "Homomorphic substitution and annihilation transform the phase exactly",
  "Evaluating X->X^d on a ciphertext substitutes in its phase, for every odd d. Annihilating keeps the constant coefficient and removes every other one.",
  "all ciphertexts, keys and odd exponents", "Tests try one exponent or look only at the sign of the constant coefficient.",
  ["include/keyswitch.hpp", "include/cloudkey.hpp"], [("substituted key as half gadget ciphertext", "include/cloudkey.hpp evalautokeygen"), ("trace loop", "include/keyswitch.hpp AnnihilateKeySwitching")],
  "dimension 4 with every odd exponent; annihilation to dimension 64 by contract, 4 in full")
p("C16", "Rotate-or-keep step rotates exactly when the encrypted bit is one",
  "Multiplying an accumulator by X^a under an encrypted bit leaves the phase unchanged for bit zero and rotates it by a for bit one, for every a. Under an encrypted ternary digit (one indicator per nonzero value) it rotates by a times the digit.",
  "all accumulators, keys, bits and exponents", "Tests use fixed exponents and bits on fresh ciphertexts.",
  ["include/detwfa.hpp", "include/gatebootstrapping.hpp"], [("product with X^a-1", "include/detwfa.hpp CMUXFFTwithPolynomialMulByXaiMinusOne")], "dimension 4, every exponent")
NA = {}


def na(id, title, statement, qt, why, files, mech, reason, over=(I,)):
    p(id, title, statement, qt, why, files, mech, "", over=over)
    NA[id] = reason


na("N01", "Transform rounding stays below the decryption margin",
   "For every input of the allowed magnitude the floating-point transform multiplication differs from the exact product by less than the margin the noise analysis grants.",
   "all polynomials of the shipped dimensions", "Tests compare a few random products with a tolerance.",
   ["thirdparties/spqlios", "include/mulfft.hpp"], [("double-precision kernels", "thirdparties/spqlios/*.s")],
   "the kernels are hand-written AVX assembly over 1024..2048 doubles: there is no IR to lower, and an error bound over floating point at that size is far beyond an SMT solver's floating-point theory")
na("N02", "Noise growth keeps the failure probability negligible",
   "With the shipped parameters, gates and bootstraps decrypt wrongly with at most the documented probability, and fresh keys and ciphertexts are indistinguishable at the stated security level.",
   "all keys and all draws, as a probability", "A test samples a handful of ciphertexts; it cannot see a 2^-40 event.",
   ["include/params/128bit.hpp", "include/utils.hpp"], [("parameter choice", "include/params/128bit.hpp")],
   "a statistical statement about distributions, not a claim about every value; a solver over all noise values would always find the (improbable) failing draw", over=(I, C))
p("C09", "Bootstrapping looks up the input's phase in the table",
  "Blind rotation returns the lookup table rotated by the rounded phase of the input, and bootstrapping returns that entry as a scalar ciphertext, whatever the input's noise was. All level pairs, transform back ends and plain or encrypted tables behave alike.",
  "all keys, lookup tables and input ciphertexts", "Tests bootstrap random bits with a constant table, so an entry off by one, a wrong sign past the half torus or a rounding at a step boundary stays invisible.",
  ["include/gatebootstrapping.hpp", "include/blindrotate.hpp", "include/detwfa.hpp", "include/bootstrapping_key.hpp"],
  [("phase rounding and rotation", "include/gatebootstrapping.hpp BlindRotate"), ("one step per key word", "include/detwfa.hpp CMUXFFTwithPolynomialMulByXaiMinusOne")],
  "dimension 4..16, one to three mask words; the step by the contract C16 shows except in the full units")
p("C10", "Bootstrapping several tables at once gives every table's entry",
  "Bootstrapping with an interleaved test vector returns one scalar ciphertext per table, each carrying its own table's entry at the input's phase. Outputs do not mix.",
  "all keys, tables and input ciphertexts", "Tests use one message position and few tables; a neighbouring table's entry is often equal.",
  ["include/gatebootstrapping.hpp"], [("coarser rounding keeps tables aligned", "include/gatebootstrapping.hpp BlindRotate num_out"), ("one extraction per table", "include/gatebootstrapping.hpp GateBootstrappingManyLUT")],
  "dimension 4..16, two to four tables, one or two mask words")
p("C11", "Gates compute their truth tables with refreshed noise",
  "Every binary and unary gate, in both orders of key switching and bootstrapping, returns an encryption of its truth-table value whose error is again within what a gate accepts. The result may be stored over an operand, and the gate uses the keys of its own levels.",
  "all input bits, all input errors up to 1/64 of the torus, all keys", "Tests run a few hundred random bits at tiny noise; a wrong offset that only fails near the decision boundary passes them.",
  ["include/gate.hpp", "include/gatebootstrapping.hpp", "src/gate.cpp"], [("signs and offset per gate", "include/gate.hpp HomGate")],
  "key switching and blind rotation by their contracts with bounded error; dimension 4..8")
p("C12", "Multiplexers return the selected bit",
  "Every multiplexer form returns an encryption of the first input when the selector is one and of the second otherwise, with or without key switching and extraction, at every level pair, also when the result is stored over an operand.",
  "all input bits, all input errors up to 1/64 of the torus, all keys", "Only one form is tested with the default dimensions; forms for other levels or several mask polynomials were wrong.",
  ["include/gate.hpp", "src/gate.cpp"], [("two half-sums and their offsets", "include/gate.hpp HomMUX, HomMUXwoSE, HomMUXwoIKSandSE"), ("extract first", "src/gate.cpp ExtractSwitchAndHomMUX")],
  "key switching and blind rotation by their contracts with bounded error; dimension 4..8, one to three mask polynomials", over=(I, C))
p("C15", "Encrypted memories read and write exactly the addressed cell",
  "A memory read over an encrypted address returns the content of that address, through the vertical tree and through the horizontal rotation alike, with every word of a packed ring ciphertext extracted in order. A write replaces the addressed cell and leaves every other cell's content as it was.",
  "all addresses, memory contents, keys and indices", "Tests read or write one address with random bits in cells of one bit each, and never with several mask polynomials.",
  ["include/cmuxmem.hpp"], [("selection tree and inverted address", "include/cmuxmem.hpp RAMUX, UROMUX"), ("rotation by address bits, then extraction", "include/cmuxmem.hpp LROMUX"), ("write back when addressed", "include/cmuxmem.hpp RAMwriteBar")],
  "2 to 4 address bits (6 in the thorough tier), dimension 4 and 8; selection by its contract", over=(I, C))
p("C13", "Circuit bootstrapping turns a bit into a ring gadget ciphertext",
  "Circuit bootstrapping an encryption of a bit yields a gadget ciphertext of that bit: every row carries the gadget value times its block's part of the secret key for a one, and nothing for a zero. The inverted and paired forms carry the complement, and the forms with and without key switching, subset keys and transformation agree.",
  "all bits, all input errors up to 1/64 of the torus, all keys", "Tests bootstrap ones and multiply with one message; a row that is wrong in a low digit, a mask block or the complement stays hidden.",
  ["include/circuitbootstrapping.hpp", "include/cloudkey.hpp"], [("test vector and offset per digit", "include/circuitbootstrapping.hpp CBtestvector, CircuitBootstrapping"), ("key per block", "include/cloudkey.hpp emplaceprivksk4cb, emplacesubprivksk4cb"), ("complement", "include/circuitbootstrapping.hpp CircuitBootstrappingFFTInv, CircuitBootstrappingFFTwithInv")],
  "middle ring of dimension 16 and 32, target dimension 2 (16 without transforms), one to three mask polynomials; key switching and rotation by their contracts", over=(I, C))
p("C14", "Homomorphic decomposition yields the digits of the message",
  "Decomposing a high-precision ciphertext returns one ciphertext per digit, lowest digit first, each decrypting to the corresponding bits of the message with an error below half a unit.",
  "all messages and keys, input errors up to an eighth of the lowest digit, every error of the intermediate steps within its bound", "The test decomposes ten random words with one digit size; borrow mistakes need neighbouring digits on a boundary.",
  ["include/homdecomp.hpp"], [("lower digit removed by bootstrapping its fraction", "include/homdecomp.hpp HomDecomp, subtractpolygen")],
  "digits of 1 to 4 bits, 2 to 4 digits; key switching and rotation by their contracts", over=(I, C))

p("D01", "Fresh secret keys draw every word of every level from its range",
  "A fresh secret key has every word of every level drawn independently from the range the parameters give that level, and each level's key is what the library hands out for that level.",
  "all outcomes of all draws", "Tests use whatever key they get; a level left at zero or drawn from a neighbour's range still decrypts correctly.",
  ["src/key.cpp", "include/key.hpp"], [("one generator per level", "src/key.cpp lweKey"), ("selection by level", "include/key.hpp lweKey::get")],
  "dimension 2 to 16 per level (64 to 256 thorough); uniformity itself is the generator's")
p("D02", "Evaluation keys hold what their name and level pair promise",
  "After storing bootstrapping and key switching keys of several kinds and level pairs in one evaluation key, each read returns the key of exactly that kind, level pair and name, made from the two levels' secret keys and the given function; storing again under the same name replaces what was there. A bootstrapping key converted to a transform domain equals the stored one element by element. The generators of scalar-to-ring and substitution keys that take the whole secret key use the right parts of it.",
  "all secret keys, masks and functions", "Tests fill one or two slots and use them at once; a slot sharing another's storage, a wrong level's secret or an unconverted element is only visible with all present.",
  ["include/cloudkey.hpp", "src/cloudkey.cpp"], [("slot per parameter type", "include/cloudkey.hpp EvalKey::emplace*, get*"), ("key generators", "include/cloudkey.hpp bkgen, ikskgen, privkskgen")],
  "dimension 2 to 8 per level, one or two mask polynomials; switching keys through probing ciphertexts", over=(I, H, C))
p("D03", "Saving and loading returns the same keys, parameters and packets",
  "Loading what was saved from a secret key, evaluation key, parameter description or packet yields an object equal to it in every member, whichever members were present, and replaces whatever the target held before.",
  "all stored words, every single missing member", "Tests save one key and use a few members of the loaded one; a forgotten member loads as absent or as an old value without any error.",
  ["include/cloudkey.hpp", "include/key.hpp", "include/lweParams.hpp", "include/io-packet.hpp"],
  [("list of members", "include/cloudkey.hpp EvalKey::serialize, include/io-packet.hpp IOpacket::serialize"), ("list of fields", "include/lweParams.hpp lweParams::serialize, include/key.hpp SecretKey::serialize")],
  "dimension 2 to 8 per level; a recording archive in place of cereal's", over=(I, H))
p("D04", "Parameter descriptions match the compiled constants",
  "A fresh parameter description holds exactly the constants the library was compiled with, every field initialised, and two descriptions compare equal exactly when all their fields are equal.",
  "all pairs of parameter descriptions", "No test compares descriptions; an uninitialised or forgotten field goes unnoticed until incompatible keys are mixed.",
  ["include/lweParams.hpp"], [("constructors from the parameter structs", "include/lweParams.hpp portable*param"), ("comparison", "include/lweParams.hpp operator==")],
  "shipped parameters and one other set; every value of every field", over=(I, C))
p("D05", "Parallel loops give the sequential result for every schedule of threads",
  "Vector encryption and decryption, key generation and digit extraction run their loops in parallel. No two iterations of such a loop touch the same memory while one of them writes it, except for state that each thread owns, so the outcome does not depend on thread count or schedule and equals that of running the iterations one by one.",
  "all pairs of iterations, all values; hence all schedules and thread counts", "A test runs one schedule; a race corrupts a key row or repeats randomness only now and then.",
  ["include/tlwe.hpp", "include/cloudkey.hpp", "include/homdecomp.hpp", "include/utils.hpp", "thirdparties/spqlios/fft_processor_spqlios.cpp"],
  [("parallel loops", "include/tlwe.hpp bootsSymEncrypt, bootsSymDecrypt; include/cloudkey.hpp bkrainttgen, privkskgen, subprivkskgen; include/homdecomp.hpp HomDecomp"), ("per-thread generator and transform objects", "include/utils.hpp generator, thirdparties/spqlios/fft_processor_spqlios.cpp fftplvl1")],
  "dimension 2 to 8 per level, 3 to 280 iterations; one thread per iteration", over=("schedules", I))
p("D06", "Noise samplers return the scaled draw on the torus",
  "A noise sample differs from its centre by the drawn deviation scaled to the torus, with the right sign and for every word width, modulo one. A centered binomial sample counts each random bit once, so it stays in its range and can reach both ends.",
  "all centres and all values of the underlying draws", "Decryption tests tolerate any small noise, so one-sided, missing or clipped noise passes them all while security is gone.",
  ["include/utils.hpp"], [("scaling and sign per word width", "include/utils.hpp ModularGaussian"), ("bits consumed per sample", "include/utils.hpp CenteredBinomial")],
  "draws moving the word by up to 2 turns (1024 thorough); half a turn for 64-bit words; 60 to 120 binomial samples in a row", over=(I, H))
p("D07", "Every ciphertext and key row has mask words and noise of its own",
  "Encryption and key generation draw every mask word and every noise value for one word alone, never reuse or skip one, and draw noise with the deviation of the level or the one the caller asked for. Each row's phase is its promised message plus exactly that noise.",
  "all keys, messages and private functions", "Reused masks or missing noise decrypt perfectly, so no functional test notices; the scheme's security rests on it.",
  ["include/tlwe.hpp", "include/trlwe.hpp", "include/trgsw.hpp", "include/cloudkey.hpp"],
  [("fresh mask and noise per ciphertext", "include/tlwe.hpp tlweSymEncrypt, include/trlwe.hpp trlweSymEncryptZero"), ("one encryption per row", "include/trgsw.hpp trgswSymEncrypt"), ("one encryption per key element", "include/cloudkey.hpp ikskgen, privkskgen, subprivkskgen, bkgen, annihilatekeygen")],
  "dimension 2 to 8 per level, one to two mask polynomials", over=(I, C))
p("A05", "Nussbaumer transform is linear and its inverse undoes it up to the dimension",
  "The Nussbaumer transform and its inverse are linear over the word ring, and applying one after the other multiplies every coefficient by the dimension, exactly, for every supported power-of-two dimension and word size.",
  "all coefficient vectors", "The test ignores errors of one unit after dividing by the dimension and samples 32-bit values in 64-bit words at one dimension.",
  ["include/nussbaumer.hpp"], [("butterflies and twists", "include/nussbaumer.hpp NussbaumerButterfly, InverseNussbaumerButterfly"), ("reordering and recursion", "include/nussbaumer.hpp NussbaumerTransform, InverseNussbaumerTransform")],
  "dimension 2 to 1024 (4096 thorough)")
p("A07", "Ring product routines compute the negacyclic product",
  "Every polynomial product the library offers, schoolbook, through the frequency domain and through the number-theoretic transform, equals the product modulo X^n+1, also when the result is written over a factor. Pointwise multiply and multiply-add in the frequency domain correspond to ring product and ring product plus addend, and leave their factors unchanged.",
  "all pairs of factors", "Tests multiply small digits with random words out of place and accept rounding errors, so wrong signs of rare terms and aliasing mistakes in seldom used forms are not excluded.",
  ["include/mulfft.hpp"], [("frequency domain product", "include/mulfft.hpp PolyMul, MulInFD, FMAInFD"), ("64-bit product over the prime field", "include/mulfft.hpp PolyMul"), ("schoolbook product", "include/mulfft.hpp PolyMulNaive")],
  "dimension 2 to 32 (128 thorough); transform kernels by their exact model")
p("C17", "Multiplying ring ciphertexts multiplies their phases",
  "The product of two ring ciphertexts is the quadratic whose parts are the integer products of the operands' parts divided by the message scale, and relinearising it keeps its value at the secret key. Multiplying scalar ciphertexts returns the constant coefficient of the product of their ring forms.",
  "all pairs of ciphertexts and keys", "Tests multiply random plaintexts at one scale and check decryptions, which tolerate errors in low parts.",
  ["include/bfv++.hpp", "include/cloudkey.hpp", "include/mulfft.hpp"], [("quadratic from two linear forms", "include/bfv++.hpp TRLWEMultWithoutRelinerization"), ("key switch of the square term", "include/bfv++.hpp relinKeySwitch, Relinearization"), ("key for the squared secret", "include/cloudkey.hpp relinKeygen")],
  "dimension 2 and 4, one mask polynomial; exact transform model", over=(I, C))
