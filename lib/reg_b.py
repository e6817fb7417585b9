from registry_text import *


def extntt(U, part):
    """Gadget products, rotate-or-keep steps and key elements over the two prime fields."""
    F = []
    for op, t in [("operator+(", "m_add"), ("operator-(", "m_sub"), ("operator*(", "m_mul"), ("operator+=(", "m_addeq"), ("operator-=(", "m_subeq"), ("operator*=(", "m_muleq"), ("operator<<(", "m_shl"), ("Pow(", "m_pow")]:
        F += ["-redirect", f"cuHEpp::INTorus::{op}={t}"]
    r = []

    def one(name, lvl, nb, k=1, rain=False, defs=(), args=(), **kw):
        over = {f"{lvl}.nbit": nb}
        if k != 1:
            over[f"{lvl}.k"] = k
        over.update(kw.pop("over", {}))
        r.append(U(name, "extntt.cpp", over=over, defs=[f"LVL={lvl}"] + (["RAIN"] if rain else []) + list(defs), args=list(args), bounds=f"dimension {1 << nb}, {k} mask polynomial(s), " + kw.pop("b"), **kw))
    if part == "PROD":
        for name, lvl, nb, k, rain, d in [("ntt_lvl1", "lvl1param", 6, 1, False, ()), ("ntt_lvl1_k2", "lvl1param", 4, 2, False, ("INPLACE",)), ("ntt_lvl2", "lvl2param", 4, 1, False, ()),
                                          ("raintt_lvl1", "lvl1param", 5, 1, True, ("INPLACE",)), ("raintt_lvl1_k2", "lvl1param", 4, 2, True, ())]:
            a = ["-redirect", "13Decomposition=m_decomp"]
            if rain:
                for q, t in [("raintt::SREDC(", "m_sredc"), ("raintt::MulSREDC(", "m_mulsredc"), ("raintt::AddMod(", "m_addmod"), ("raintt::SubMod(", "m_submod"), (f"TwistMulInvertIjLj{nb}ELb1E", "m_inv_sw"), (f"TwistMulDirectIjLj{nb}ELb1E", "m_dir_sw")]:
                    a += ["-redirect", f"{q}={t}"]
            else:
                a += F + ["-redirect", "14TwistMulInvert=m_inv_sw", "-redirect", "14TwistMulDirect=m_dir_sw"]
            if "k2" in name or "lvl2" in name:
                one("form_" + name, lvl, 3, k, rain, ["PART_FORM"], [x.replace(f"ILj{nb}E", "ILj3E").replace(f"IjLj{nb}E", "IjLj3E") for x in a], b="the stand-alone digit conversion and the reordered gadget ciphertext, every word")
            one(name, lvl, nb, k, rain, d, a, b="every digit word and every row word; conversions and field operations by contract (A01 to A04)")
    if part == "STEP":
        a = ["-redirect", "trgswnttExternalProduct=m_prod", "-redirect", "trgswrainttExternalProduct=m_prod"]
        for name, lvl, k, rain in [("step_ntt", "lvl1param", 1, False), ("step_raintt", "lvl1param", 1, True), ("step_ntt_lvl2_k2", "lvl2param", 2, False)]:
            one(name, lvl, 3, k, rain, ["PART_STEP"], a, b="every exponent 1..15, every accumulator; the product is an arbitrary result (C03 decides it)")
    if part == "KEY":
        a = ["-redirect", "15trgswSymEncryptI=m_enc", "-redirect", "14ApplyNTT2trgsw=m_apply", "-redirect", "17ApplyRAINTT2trgsw=m_apply"]
        for name, lvl, k, rain, d in [("key_ntt", "lvl1param", 1, False, ()), ("key_raintt", "lvl1param", 1, True, ()), ("key_ntt_lvl2", "lvl2param", 2, False, ("BR=lvl02param",))]:
            one(name, lvl, 3, k, rain, ["PART_BK"] + list(d), a, over={"lvl0param.n": 5}, b="every key; encryption hands out its plaintext (C03 decides it)")
    return r


def register(P, U, S):
    lv = ["lvl0param", "lvlhalfparam", "lvl1param", "lvl2param", "lvl3param"]
    # A06 monomials and substitutions
    u = []
    for k in (1, 2):
        u.append(U(f"xai_lvl1_k{k}", "poly.cpp", over={"lvl1param.nbit": 5, "lvl1param.k": k}, defs=["PART_ROT", "A0=0", "A1=65", "AS=1"], bounds="dimension 32, every exponent 0..64, every polynomial"))
    u.append(U("xai_lvl2", "poly.cpp", over={"lvl2param.nbit": 4}, defs=["PART_ROT", "LVL=lvl2param", "A0=0", "A1=33", "AS=1"], bounds="dimension 16, every exponent 0..32, every polynomial"))
    u.append(U("xai_shipped1", "poly.cpp", defs=["PART_ROT", "A0=0", "A1=2049", "AS=341"], bounds="shipped dimension 1024, exponents 0,341,..,2046", wall=400))
    u.append(U("xai_shipped1b", "poly.cpp", defs=["PART_ROT", "A0=1024", "A1=2049", "AS=1024"], bounds="shipped dimension 1024, exponents N and 2N"))
    u.append(U("auto_lvl1", "poly.cpp", over={"lvl1param.nbit": 5}, defs=["PART_AUTO", "A0=1", "A1=64", "AS=2"], bounds="dimension 32, every odd exponent below 64"))
    u.append(U("auto_lvl2", "poly.cpp", over={"lvl2param.nbit": 4}, defs=["PART_AUTO", "LVL=lvl2param", "A0=1", "A1=32", "AS=2"], bounds="dimension 16, every odd exponent below 32"))
    u.append(U("auto_shipped1", "poly.cpp", defs=["PART_AUTO", "A0=3", "A1=2048", "AS=510"], bounds="shipped dimension 1024, exponents 3,513,1023,1533,2043"))
    P["A06"] = S(u, "multiplication by X^a, by X^a-1 and the substitution X->X^d are executed on arbitrary polynomials and compared coefficient by coefficient with the definition in Z[X]/(X^N+1)")
    # B01 gadget decomposition
    u = [U("dec_lvl1", "poly.cpp", defs=["PART_DEC"], bounds="shipped dimension and digits; three arbitrary coefficients (first, middle, last), the others zero"),
         U("dec_lvl2", "poly.cpp", defs=["PART_DEC", "LVL=lvl2param"], bounds="shipped dimension and digits; three arbitrary coefficients")]
    for l, b in ((1, 10), (2, 8), (4, 5), (5, 6), (8, 4), (2, 16), (1, 32)):
        if l * b < 32:
            u.append(U(f"dec_l{l}b{b}", "poly.cpp", over={"lvl1param.nbit": 4, "lvl1param.l": l, "lvl1param.Bgbit": b, "lvl1param.Bg": 1 << b}, defs=["PART_DEC"], bounds=f"{l} digits of {b} bits on 32-bit words", thorough=l in (5, 8)))
    for l, b in ((3, 12), (7, 8), (1, 23)):
        u.append(U(f"dec2_l{l}b{b}", "poly.cpp", over={"lvl2param.nbit": 4, "lvl2param.l": l, "lvl2param.Bgbit": b, "lvl2param.Bg": f"1ULL<<{b}"}, defs=["PART_DEC", "LVL=lvl2param"], bounds=f"{l} digits of {b} bits on 64-bit words", thorough=l == 7))
    P["B01"] = S(u, "the decomposition is executed on arbitrary coefficients; the solver shows the digits balanced and the recomposition error at most half a unit of the last digit")
    # B02 integers
    dim = lambda l: {f"{l}.{'n' if l in lv[:2] else 'nbit'}": 2}
    u = [U(f"int_{l[:-5]}", "tlwe.cpp", over=dim(l), defs=["PART_INT", f"LVL={l}"], bounds="every message, every noise below 31/64 of a step") for l in lv]
    u += [U(f"mod_{l[:-5]}_{m}", "tlwe.cpp", over=dim(l), defs=["PART_INT", f"LVL={l}", f"PM={m}"], bounds=f"explicit modulus {m}: every message, every noise below 31/64 of a step") for l, m in (("lvl1param", 2), ("lvl1param", 8), ("lvl1param", 1024), ("lvl2param", 32), ("lvl2param", 1 << 30), ("lvl3param", 1 << 20), ("lvl0param", 4), ("lvlhalfparam", 16))]
    u += [U(f"ring_{l[:4]}", "rlwe.cpp", over={f"{l}.nbit": 1}, args=a, defs=["PART_INT", f"LVL={l}"] + (["MODEL_POLYMUL2"] if a else []), bounds="dimension 2, every coefficient, every message, every noise below 31/64 of a step") for l, a in (("lvl1param", []), ("lvl2param", ["-redirect", "void TFHEpp::PolyMul<TFHEpp::lvl2param>(=m_polymul2"]))]
    P["B02"] = S(u, "encoding, an arbitrary bounded error and decoding are executed symbolically; the solver shows the centred message comes back")
    u = [U(f"ext_{n}", "poly.cpp", over=o, defs=["PART_SE", f"LVL={l}"], bounds=b) for n, l, o, b in (
        ("lvl1", "lvl1param", {"lvl1param.nbit": 4}, "dimension 16, every coefficient index, every ciphertext and key"),
        ("lvl1_k2", "lvl1param", {"lvl1param.nbit": 3, "lvl1param.k": 2}, "dimension 8, two mask polynomials"),
        ("lvl1_k3", "lvl1param", {"lvl1param.nbit": 2, "lvl1param.k": 3}, "dimension 4, three mask polynomials"),
        ("lvl2", "lvl2param", {"lvl2param.nbit": 3}, "dimension 8, 64-bit words"))]
    P["B03"] = S(u, "extraction of every coefficient and the embedding back are executed on arbitrary ciphertexts; phases are compared as polynomials over ciphertext and key", outside="larger dimensions (the loops are over the dimension)")
    # C01 scalar ciphertexts
    u = []
    for l in lv:
        d = 5 if l in lv[:2] else 2
        f = "n" if l in lv[:2] else "nbit"
        rd = ["-redirect", f"TFHEpp::{l}::T TFHEpp::ModularGaussian<TFHEpp::{l}>(=m_noise"]
        u.append(U(f"enc_{l[:-5]}", "tlwe.cpp", over={f"{l}.{f}": d}, defs=["PART_ENC", f"LVL={l}", "NOISE"], args=rd, bounds="vector length 4..5, every key, mask, message and noise"))
        u.append(U(f"bit_{l[:-5]}", "tlwe.cpp", over={f"{l}.{f}": d}, defs=["PART_BIT", f"LVL={l}"], bounds="vectors of three bits; every ciphertext"))
    u.append(U("enc_k2", "tlwe.cpp", over={"lvl1param.nbit": 2, "lvl1param.k": 2}, defs=["PART_ENC", "NOISE"], args=["-redirect", "TFHEpp::lvl1param::T TFHEpp::ModularGaussian<TFHEpp::lvl1param>(=m_noise"], bounds="two mask polynomials"))
    u.append(U("enc_shipped0", "tlwe.cpp", defs=["PART_ENC", "LVL=lvl0param", "NOISE"], args=["-redirect", "TFHEpp::lvl0param::T TFHEpp::ModularGaussian<TFHEpp::lvl0param>(=m_noise"], bounds="shipped length 636"))
    P["C01"] = S(u, "encryption, phase and decryption are executed with an arbitrary key, arbitrary mask draws and an arbitrary noise draw; the phase is shown to be message plus noise", assumptions=[RNG_MODEL, MINI])


    def rl(name, part, lvl, k=1, nb=2, **kw):
        o = {f"{lvl}.nbit": nb}
        if k != 1:
            o[f"{lvl}.k"] = k
        g = "14" if lvl == "lvl1param" else "28"
        defs = [f"PART_{part}", f"LVL={lvl}", f"GRID={g}", "BKP=" + ("lvl01param" if lvl == "lvl1param" else "lvl02param")]
        args = []
        if lvl == "lvl2param":
            defs.append("MODEL_POLYMUL2")
            args = ["-redirect", "void TFHEpp::PolyMul<TFHEpp::lvl2param>(=m_polymul2"]
        return U(name, "rlwe.cpp", over=o, defs=defs, args=args, bounds=kw.pop("bounds", f"dimension {1<<nb}, {k} mask polynomial(s), every key, mask and message"), **kw)
    def rott(lvl, k=1):
        u = rl(f"rot_ternary_{lvl[:4]}" + ("_k2" if k == 2 else ""), "ROTT", lvl, k, bounds="dimension 4, every exponent 0..7, digit -1, 0 and 1, every accumulator")
        u.over["lvlhalfparam.key_value_min"] = -1
        u.defs = [d.replace("BKP=lvl01param", "BKP=lvlh1param").replace("BKP=lvl02param", "BKP=lvlh2param") for d in u.defs]
        return u
    two = ("lvl1param", "lvl2param")
    A = [FFT_MODEL, RNG_MODEL, MINI]
    P["C02"] = S([rl(f"{p.lower()}_{l[:4]}{'' if k == 1 else '_k2'}", p, l, k) for p in ("ENC", "BITDEC") for l in two for k in (1, 2) if not (k == 2 and l == "lvl2param")] + [rott("lvl1param"), rott("lvl1param", 2), rott("lvl2param")],
                 "ring encryption, phase, decryption and their linearity are executed with arbitrary keys, masks and messages", assumptions=A)
    P["C03"] = S([rl(f"{p.lower()}_{l[:4]}{'' if k == 1 else '_k2'}", p, l, k) for p in ("GSW", "EXT", "HALF") for l in two for k in (1, 2) if not (k == 2 and l == "lvl2param")],
                 "gadget encryption and the external product are executed symbolically on operands lying on the gadget's grid; the phase of the product is the product of the phases, exactly", assumptions=A,
                 outside="rounding of operands off the gadget's grid (bounded by B01) and the numerical error of the transform")
    P["C04"] = S([rl(f"{p.lower()}_{l[:4]}{'' if k == 1 else '_k2'}", p, l, k) for p in ("CMUX",) for l in two for k in (1, 2) if not (k == 2 and l == "lvl2param")],
                 "selection with an encrypted bit is executed on arbitrary branches, also with the result written over an operand", assumptions=A)
    P["C03"].units += extntt(U, "PROD")
    P["C16"] = S(extntt(U, "STEP") + [rl(f"rot_{l[:4]}{'' if k == 1 else '_k2'}", "ROT", l, k, bounds=f"dimension 4, every exponent 0..7, every accumulator") for l in two for k in (1, 2) if not (k == 2 and l == "lvl2param")] + [rott("lvl1param"), rott("lvl1param", 2), rott("lvl2param")],
                 "the rotate-or-keep step is executed for every exponent on arbitrary accumulators", assumptions=A)
