from registry_text import *


def register(P, U, S):
    M2 = ["-redirect", "void TFHEpp::PolyMul<TFHEpp::lvl2param>(=m_polymul2"]
    AP = ["-redirect", "14ApplyNTT2trgswINS_9lvl1param=m_apply1", "-redirect", "14ApplyNTT2trgswINS_9lvl2param=m_apply2"]
    D = {"lvl0param.n": 2, "lvlhalfparam.n": 3, "lvl1param.nbit": 1, "lvl2param.nbit": 1, "lvl3param.nbit": 1}
    K2 = {**D, "lvl0param.k": 2, "lvlhalfparam.k": 2, "lvl1param.k": 2}
    TERN = {**D, "lvlhalfparam.key_value_min": -1}

    def b(over):
        return ", ".join(f"{k}={v}" for k, v in over.items())

    def key(name, over, **kw):
        return U(name, "eval.cpp", over=over, defs=["PART_KEY"], extra=["src/key.cpp"], args=["-redirect", "uniform_int_distribution<int>::operator()=m_draw"],
                 bounds=b(over) + "; every value of every draw", **kw)
    P["D01"] = S([key("draw", D), key("draw_k2", K2), key("draw_ternary", {**D, "lvl0param.key_value_min": -1, "lvl1param.key_value_min": 0, "lvl3param.key_value_max": 0}),
                  key("draw_n8", {"lvl0param.n": 9, "lvlhalfparam.n": 12, "lvl1param.nbit": 3, "lvl2param.nbit": 4, "lvl3param.nbit": 5}),
                  key("draw_n64", {"lvl0param.n": 60, "lvlhalfparam.n": 70, "lvl1param.nbit": 6, "lvl2param.nbit": 7, "lvl3param.nbit": 8}, thorough=True)],
                 "the key constructor is executed with every uniform draw an arbitrary value of its own range; each word of each level's key lies in that level's range. A second execution numbers the draws: every word of every level's key is a draw of its own. What each level hands out is its own key, word for word",
                 assumptions=[MINI])

    def bk(name, part, over=D, defs=(), **kw):
        return U(name, "eval.cpp", over=over, defs=["MODEL_POLYMUL2", f"PART_BK={part}"] + list(defs), extra=["src/key.cpp"], args=M2 + AP, bounds=b(over) + "; every key and mask", **kw)

    def ks(name, part, over=D, **kw):
        return U(name, "eval.cpp", over=over, defs=["MODEL_POLYMUL2", f"PART_KS={part}"], extra=["src/key.cpp"], args=M2, bounds=b(over) + "; every key and mask; probing ciphertexts with fixed mask words", **kw)
    N1 = {**D, "lvl1param.nbit": 2, "lvl2param.nbit": 2}
    T0 = {**D, "lvl0param.key_value_min": -1}
    N2 = {"lvl0param.n": 3, "lvlhalfparam.n": 2, "lvl1param.nbit": 2, "lvl2param.nbit": 3, "lvl3param.nbit": 2}
    P["D02"] = S([bk("bk", 0), bk("bkfft", 1), bk("bkntt", 2), bk("bk2bkfft", 3), bk("bk2bkntt", 3, defs=["TONTT"]), bk("bk_k2", 0, K2), bk("bkfft_k2", 1, K2), bk("bk2bkfft_k2", 3, K2), bk("bk2bkntt_k2", 3, K2, ["TONTT"]),
                  bk("bk_ternary", 0, TERN), bk("bkfft_ternary", 1, TERN), bk("bk2bkfft_ternary", 3, T0), ks("iksk", 0), ks("privksk", 1), ks("ring_keys", 2, N1), ks("ring_keys_k2", 2, {**K2, "lvl2param.nbit": 2}), ks("iksk_k2", 0, {**K2, "lvl2param.nbit": 3}), ks("privksk_k2", 1, {**D, "lvl1param.k": 2, "lvl2param.nbit": 2}),
                  bk("bk_n4", 0, N2, thorough=True), bk("bkfft_n4", 1, {**N2, "lvl1param.nbit": 1, "lvl2param.nbit": 1, "lvl0param.n": 7}, thorough=True), ks("iksk_n4", 0, N2, thorough=True), ks("privksk_n4", 1, N2, thorough=True)],
                 "all keys of an evaluation key are stored through its own interface and read back through it; every row of every bootstrapping key element has the phase gadget value times key word (its indicator for ternary keys), and every switching key turns a probing ciphertext into the value its name and level pair promise",
                 assumptions=[MINI, FFT_MODEL, RNG_MODEL, "the 64-bit ring product in key generation is exact; conversion of a bootstrapping key to the transform domain by its contract"])

    def ser(name, part, over=D, defs=(), reach=("end",), **kw):
        return U(name, "ser.cpp", over=over, defs=[f"PART_{part}"] + list(defs), extra=["src/key.cpp"], reach=reach, bounds=(b(over) or "shipped parameters") + "; every stored word", **kw)
    MISC = {**D, "lvl0param.n": 5, "lvl1param.nbit": 2, "lvl2param.nbit": 3, "lvl1param.l": 2, "lvl2param.l": 3}
    P["D03"] = S([ser("secret", "SK"), ser("secret_k2", "SK", K2), ser("packet", "IO"), ser("packet_k2", "IO", {**K2, "lvl2param.k": 2}), ser("eval_full", "EK"), ser("eval_empty", "EK", defs=["WHICH=0", "OVER=0xffffff"]),
                  ser("eval_absent", "EK", defs=["ABSENT", "OVER=0xffffff"]), ser("eval_absent_n4", "EK", MISC, ["ABSENT"], thorough=True), ser("eval_k2", "EK", {**D, "lvl1param.k": 2, "lvl2param.nbit": 3}, thorough=True)],
                 "the serialize functions of keys, parameters and packets drive a recording archive over objects with arbitrary content; loading the record into another object, also one holding stale content or with any one member missing, gives every member back word for word, in storage of its own, and consumes exactly the record",
                 outside="cereal's own archives and container support (third party): the archive in the harness stands for them; longer containers",
                 assumptions=[MINI, "cereal reproduces scalars, arrays, shared pointers, vectors, strings and hash maps"])
    P["D04"] = S([ser("describe", "PARAM", {}, reach=("equal", "different")), ser("describe_other", "PARAM", {**MISC, "lvl10param.t": 4, "lvl20param.t": 5, "lvl21param.t": 6, "lvl22param.t": 3, "lvl10param.basebit": 3, "lvl20param.basebit": 1, "lvl21param.basebit": 2, "lvl22param.basebit": 5, "lvl2param.Bgbit": 7}, reach=("equal", "different"))],
                 "a fresh parameter description is compared with the compiled constants field by field; two arbitrary descriptions (any bit pattern in any field) compare equal exactly when every field is equal",
                 assumptions=[])

    def ga(name, lv, bound, **kw):
        return U(name, "noise.cpp", defs=["PART_GAUSS", f"LV={lv}", f"BOUND={bound}", f"SD={lv}::α"], bounds=f"{lv}; every centre, every normal draw moving the word by up to {bound} turns" if lv != "lvl2param" else f"{lv}; every centre, every normal draw moving the word by up to half a turn", **kw)

    def cb(name, lv, form, calls=60, eta=3, **kw):
        return U(name, "noise.cpp", defs=["PART_CB", f"LV={lv}", f"FORM={form}", f"CALLS={calls}", f"ETA={eta}"], bounds=f"{lv}; {calls} samples in a row with parameter {eta}, " + ("every draw" if form == 0 else "all-ones draws" if form == 1 else "all-zeros draws"), **kw)
    P["D06"] = S([ga("gauss_lvl0", "lvl0param", 2), ga("gauss_lvlhalf", "lvlhalfparam", 2), ga("gauss_lvl1", "lvl1param", 2), ga("gauss_lvl2", "lvl2param", 1),
                  cb("binomial_range", "lvl1param", 0), cb("binomial_max", "lvl1param", 1), cb("binomial_min", "lvl1param", 2), cb("binomial_range_64", "lvl2param", 0), cb("binomial_max_64", "lvl2param", 1), cb("binomial_min_64", "lvl2param", 2),
                  ga("gauss_lvl1_wide", "lvl1param", 1024, thorough=True), ga("gauss_lvl0_wide", "lvl0param", 64, thorough=True), cb("binomial_range_eta5", "lvl1param", 0, 120, 5, thorough=True), cb("binomial_max_eta5", "lvl1param", 1, 120, 5, thorough=True)],
                 "the noise samplers are executed with the underlying generators' values arbitrary: the word returned differs from the centre by exactly the rounded, scaled draw modulo the torus, for both signs; binomial samples stay in their range for any draws and reach both ends of it for constant ones, across refills of the drawn bits",
                 outside="the distribution of std::normal_distribution and of the random generator; draws beyond the stated number of turns",
                 assumptions=["the normal generator returns any double within the stated bound; IEEE arithmetic as the compiled code performs it"])
    G = []
    for lv, w in (("9lvl0param", 16), ("12lvlhalfparam", 32), ("9lvl1param", 32), ("9lvl2param", 64), ("9lvl3param", 64)):
        G += ["-redirect", f"15ModularGaussianINS_{lv}=m_g{w}"]

    def fr(name, defs, over=D, **kw):
        return U(name, "fresh.cpp", over=over, defs=["MODEL_POLYMUL2"] + list(defs), args=M2 + G, bounds=b(over) + "; every key, message and function", **kw)
    enc = lambda name, lv, ring=True, over=D, **kw: fr("enc_" + name, ["PART_ENC", f"LV={lv}"] + (["RING"] if ring else []), over, **kw)
    key_ = lambda name, ks, kind, over=D, **kw: fr(name, ["PART_KEY", f"KS={ks}", f"KIND={kind}"], over, **kw)
    bkk = lambda name, bp, over=D, **kw: fr(name, ["PART_BK", f"BP={bp}"], over, **kw)
    K2B = {**D, "lvl1param.k": 2, "lvl2param.nbit": 3}
    P["D07"] = S([enc("lvl0", "lvl0param", False), enc("lvlhalf", "lvlhalfparam", False), enc("lvl1", "lvl1param"), enc("lvl2", "lvl2param"), enc("lvl3", "lvl3param", False), enc("lvl1_k2", "lvl1param", True, K2), enc("lvl0_k2", "lvl0param", False, K2),
                  key_("iksk", "lvl10param", 0), key_("iksk_lvl20", "lvl20param", 0), key_("subset", "lvl21param", 1, {**D, "lvl2param.nbit": 2}), key_("priv", "lvl22param", 2), key_("priv_lvl21", "lvl21param", 2), key_("subset_priv", "lvl21param", 3, {**D, "lvl2param.nbit": 2}), key_("subset_k2", "lvl21param", 1, K2B), key_("subset_priv_k2", "lvl21param", 3, K2B), key_("priv_k2", "lvl11param", 2, K2), key_("to_ring", "lvl11param", 4), key_("to_ring_k2", "lvl11param", 4, K2),
                  bkk("bk", "lvl01param"), bkk("bk_lvl02", "lvl02param"), bkk("bk_k2", "lvl01param", K2), bkk("bk_ternary", "lvlh1param", TERN),
                  fr("automorphism", ["PART_AUTO", "LV=lvl1param"]), fr("automorphism_lvl2", ["PART_AUTO", "LV=lvl2param"]),
                  key_("iksk_n4", "lvl10param", 0, N2, thorough=True), key_("priv_n4", "lvl21param", 2, N2, thorough=True), bkk("bk_n7", "lvl01param", {**D, "lvl0param.n": 7}, thorough=True)],
                 "encryption and key generation run with arbitrary keys, messages and functions and with draws that return their own number. Every mask word of every ciphertext and key row is then a draw no other word uses, every word's phase is the wanted message plus one noise draw no other word uses, and each noise draw asked for the deviation of the level or the one the caller gave",
                 outside="the generators themselves (C++ library, randen); larger dimensions",
                 assumptions=[FFT_MODEL, "draw numbers stand for values: the code under check does not branch on them", "the 64-bit ring product in key generation is exact"])

    P["A05"] = S([U(f"trip{1 << n}_{w}", "nuss.cpp", defs=[f"PART_TRIP={n}", f"W=uint{w}_t"], bounds=f"dimension {1 << n}, every coefficient any {w}-bit word") for n, w in ((1, 64), (2, 64), (3, 32), (4, 64), (5, 64), (7, 64), (10, 64), (10, 32))] +
                 [U(f"linear{1 << n}_{w}", "nuss.cpp", defs=[f"PART_LIN={n}", f"W=uint{w}_t"], bounds=f"dimension {1 << n}, every pair of {w}-bit polynomials and factor") for n, w in ((4, 64), (6, 32))] +
                 [U(f"trip{1 << n}_64", "nuss.cpp", defs=[f"PART_TRIP={n}", "W=uint64_t"], bounds=f"dimension {1 << n}, every coefficient any 64-bit word", thorough=True) for n in (6, 8, 9, 11, 12)],
                 "both transforms are executed on symbolic words; every output is a linear form over the inputs and equalities are decided on that normal form, modulo the word size")
    FO = []
    for op, t in [("operator+(", "m_add"), ("operator-(", "m_sub"), ("operator*(", "m_mul"), ("operator+=(", "m_addeq"), ("operator-=(", "m_subeq"), ("operator*=(", "m_muleq"), ("operator<<(", "m_shl"), ("Pow(", "m_pow")]:
        FO += ["-redirect", f"cuHEpp::INTorus::{op}={t}"]
    FO += ["-redirect", "14TwistMulInvert=m_inv_sw", "-redirect", "14TwistMulDirect=m_dir_sw"]

    def mu(name, defs, over, bounds, args=(), **kw):
        return U(name, "mul.cpp", over=over, defs=defs, args=list(args), bounds=b(over) + "; " + bounds, **kw)
    any2 = "every pair of factors"
    P["A07"] = S([mu("poly_n4", ["PART_MUL"], {"lvl1param.nbit": 2}, any2), mu("poly_n2", ["PART_MUL"], {"lvl1param.nbit": 1}, any2), mu("naive_lvl0", ["PART_MUL", "NAIVE", "LVL=lvl0param"], {"lvl0param.n": 5}, any2), mu("naive_lvl2", ["PART_MUL", "NAIVE", "NOPOLYMUL", "LVL=lvl2param"], {"lvl2param.nbit": 4}, any2),
                  mu("naive_n16", ["PART_MUL", "NAIVE", "NOPOLYMUL"], {"lvl1param.nbit": 4}, any2), mu("pointwise_n4", ["PART_FD"], {"lvl1param.nbit": 2}, "every three polynomials"), mu("pointwise_n2", ["PART_FD"], {"lvl1param.nbit": 1}, "every three polynomials"), mu("pointwise_lvl2", ["PART_FD", "LVL=lvl2param"], {"lvl2param.nbit": 2}, "every three polynomials"),
                  mu("poly_lvl2_n32", ["PART_NTT", "LVL=lvl2param"], {"lvl2param.nbit": 5}, any2, FO), mu("poly_lvl2_inplace", ["PART_NTT", "INPLACE", "LVL=lvl2param"], {"lvl2param.nbit": 4}, any2, FO), mu("poly_lvl2_n128", ["PART_NTT", "LVL=lvl2param"], {"lvl2param.nbit": 7}, any2, FO, thorough=True),
                  mu("naive_lvl2_n32", ["PART_MUL", "NAIVE", "NOPOLYMUL", "LVL=lvl2param"], {"lvl2param.nbit": 5}, any2, thorough=True)],
                 "every product routine is executed on arbitrary polynomials, with the result apart from and over its factors; pointwise routines through the transform model; results are compared with the schoolbook product in normal form, for the 64-bit ring modulo its prime",
                 outside="rounding of the assembly transforms; conversion between 64-bit torus words and residues (A02)", assumptions=[FFT_MODEL, "field operations behave as A01 establishes"])
    L1 = {"lvl1param.nbit": 2}
    P["C17"] = S([mu("multiply", ["PART_BFV"], L1, "every pair of ciphertexts"), mu("multiply_n2", ["PART_BFV"], {"lvl1param.nbit": 1}, "every pair of ciphertexts"), mu("rescaled", ["PART_RESCALE"], L1, any2), mu("relinearize", ["PART_RELIN", "SYMBOLIC2=1"], L1, "every key, mask and quadratic with its last part on the gadget's grid"), mu("relinearize_n2", ["PART_RELIN", "SYMBOLIC2=1"], {"lvl1param.nbit": 1}, "every key, mask and quadratic with its last part on the gadget's grid"),
                  mu("relinearize_l4", ["PART_RELIN", "SYMBOLIC2=1"], {"lvl1param.nbit": 1, "lvl1param.l": 4, "lvl1param.Bgbit": 5}, "every key, mask and quadratic with its last part on the gadget's grid"),
                  mu("relinearize_lvl2", ["PART_RELIN", "SYMBOLIC2=1", "LVL=lvl2param", "MODEL_POLYMUL2"], {"lvl2param.nbit": 2}, "every key, mask and quadratic with its last part on the gadget's grid", M2),
                  mu("compose", ["PART_COMPOSE"], {"lvl1param.nbit": 1}, "every pair of ciphertexts on a grid, every key row"), mu("scalar", ["PART_TLWE"], {"lvl1param.nbit": 1}, "every pair of ciphertexts, every pair moved into the ring", ["-redirect", "13PrivKeySwitch=m_priv"]),
                  mu("multiply_scale", ["PART_BFV"], {**L1, "lvl1param.plain_modulus": 16}, "every pair of ciphertexts", thorough=True)],
                 "multiplication of ring ciphertexts is executed on arbitrary operands: each part of the quadratic is the exact integer product divided by the message scale. Relinearisation with a key generated by the library keeps the quadratic's value at the secret key, and the composed functions are those two steps, also with the result written over an operand",
                 outside="more than one mask polynomial (the library defines multiplication for one); noise growth; rounding of the assembly transforms",
                 assumptions=[FFT_MODEL, RNG_MODEL, "moving a scalar ciphertext into the ring behaves as C06 establishes"])
    RDF = []
    for q, t in [("reverse_int", "m_rev_int"), ("reverse_torus32", "m_rev_int"), ("reverse_uint", "m_rev_uint"), ("reverse_torus64", "m_rev_64"), ("direct_torus32(", "m_dir_32"), ("direct_torus64(", "m_dir_64")]:
        RDF += ["-redirect", f"FFT_Processor_Spqlios::execute_{q}={t}"]

    def par(name, defs, over, args=(), **kw):
        return U(name, "par.cpp", over=over, defs=defs, extra=["thirdparties/spqlios/fft_processor_spqlios.cpp"], args=RDF + list(args), cflags=["-fopenmp"], engine_only=True,
                 bounds=b(over) + "; every pair of iterations, one thread each, both orders; every value", **kw)
    PB = lambda l: [f"PART_BITS", f"LVL={l}param", "NB=4"]
    RB = ["-redirect", "15trgswSymEncryptI=m_enc", "-redirect", "17ApplyRAINTT2trgsw=m_apply"]
    HB = ["-redirect", "29GateBootstrappingTLWE2TLWEFFTI=m_boot", "-redirect", "17IdentityKeySwitchINS_10lvl1hparamE=m_iks2"]
    P["D05"] = S([par("bits_lvl0", PB("lvl0"), {"lvl0param.n": 3}), par("bits_lvlhalf", PB("lvlhalf"), {"lvlhalfparam.n": 2}), par("bits_lvl1", PB("lvl1"), {"lvl1param.nbit": 2}), par("bits_lvl1_k2", PB("lvl1"), {"lvl1param.nbit": 1, "lvl1param.k": 2}),
                  par("bits_lvl2", PB("lvl2"), {"lvl2param.nbit": 2}),
                  par("privksk_21", ["PART_PRIV", "KS=lvl21param"], {"lvl1param.nbit": 2, "lvl2param.nbit": 2}), par("privksk_11_k2", ["PART_PRIV", "KS=lvl11param"], {"lvl1param.nbit": 1, "lvl1param.k": 2}),
                  par("subprivksk_21", ["PART_PRIV", "KS=lvl21param", "SUBSET"], {"lvl1param.nbit": 2, "lvl2param.nbit": 3}),
                  par("bkraintt", ["PART_RAINTT", "BR=lvl01param"], {"lvl1param.nbit": 3, "lvl0param.n": 4}, RB), par("bkraintt_k2", ["PART_RAINTT", "BR=lvlh1param"], {"lvl1param.nbit": 3, "lvl1param.k": 2, "lvlhalfparam.n": 3}, RB),
                  par("homdecomp", ["PART_HOM"], {"lvl1param.nbit": 2, "lvl3param.nbit": 2, "lvlhalfparam.n": 2}, HB),
                  par("privksk_21_n8", ["PART_PRIV", "KS=lvl21param"], {"lvl1param.nbit": 2, "lvl2param.nbit": 3}, thorough=True)],
                 "the parallel loops are executed as the compiler lowers them for OpenMP, one iteration per thread; two iterations touching the same byte, one of them writing, is reported, and since none do, every schedule has the sequential outcome, which is compared with the specification for both orders of the iterations",
                 outside="loops over more iterations than the reduced parameters give; binomial noise (its bit buffer is shared between threads), which no shipped level of the default parameters uses; the key-bundle build",
                 assumptions=[MINI, FFT_MODEL, "a transform writes into its own object and a draw into its generator; the OpenMP runtime gives every iteration to exactly one thread"])
