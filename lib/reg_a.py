def register(P, U, S):
    fld = "all operands below the modulus (full 64-bit range for raw words)"
    P["A01"] = S([
        U("addsub", "field.cpp", defs=["PART_ADD"], bounds=fld),
        U("mul", "field.cpp", defs=["PART_MUL"], bounds=fld),
        U("pow", "field.cpp", defs=["PART_POW"], bounds="exponents 0..5, inverses of 2^1..2^31, every base"),
        U("shift_lo", "field.cpp", defs=["LO=0", "HI=96"], bounds="every element, every shift 0..95"),
        U("shift_hi", "field.cpp", defs=["LO=96", "HI=192"], bounds="every element, every shift 96..191"),
    ], "every operation of the 64-bit prime field is executed on symbolic operands and compared with its value in the integers modulo p",
        outside="exponents above 5 (the loop body is the same multiplication)", par=5)

    R = []
    for op, t in [("operator+(", "m_add"), ("operator-(", "m_sub"), ("operator*(", "m_mul"), ("operator+=(", "m_addeq"), ("operator-=(", "m_subeq"), ("operator*=(", "m_muleq"), ("operator<<(", "m_shl"), ("Pow(", "m_pow")]:
        R += ["-redirect", f"cuHEpp::INTorus::{op}={t}"]
    PASS = ["-redirect", "cuHEpp::INTorus::operator*(=m_pass"]
    P["A02"] = S([
        U("rt1024", "cuhe.cpp", defs=["PART_RT=10"], args=R, bounds="dimension 1024, every coefficient any 64-bit word"),
        U("rt2048", "cuhe.cpp", defs=["PART_RT=11"], args=R, bounds="dimension 2048, every coefficient any 64-bit word"),
        U("mul16", "cuhe.cpp", defs=["PART_MUL=4"], args=R, bounds="dimension 16, both factors arbitrary"),
        U("mul128", "cuhe.cpp", defs=["PART_MUL=7"], args=R, bounds="dimension 128 (two radix stages), both factors arbitrary"),
        U("mono1024", "cuhe.cpp", defs=["PART_MONO=10", "DEG=513"], args=R, bounds="dimension 1024, arbitrary factor times b*X^513"),
        U("switch", "cuhe.cpp", defs=["PART_SWITCH"], args=PASS, bounds="every 64-bit word, every residue"),
    ], "the transform code is executed on symbolic coefficients; field operations are replaced by their contract, each result being a polynomial over the inputs modulo p in normal form; congruences are decided on that normal form",
        outside="products of two full polynomials in dimension above 128", assumptions=["field operations behave as A01 establishes"])
    RP = ["-redirect", "raintt::MulSREDC(=m_pass"]
    P["A03"] = S([
        U("sredc", "rain.cpp", defs=["PART_ARITH=0"], bounds="every 64-bit word of the reduction's domain"),
        U("redc", "rain.cpp", defs=["PART_ARITH=1"], bounds="every word below p*2^32"),
        U("addsub", "rain.cpp", defs=["PART_ARITH=2"], bounds="every operand pair between -p and p"),
        U("mul", "rain.cpp", defs=["PART_ARITH=3"], bounds="every operand pair; exponents 0..3"),
    ] + [U("switch%d" % i, "rain.cpp", defs=["PART_SWITCH=%d" % i], args=RP, bounds="every torus word; a quarter of the residues") for i in (1, 2, 3, 4)],
        "the signed Montgomery arithmetic is executed on symbolic words; the defining equation of each reduction and its range are decided over all of them",
        outside="exponents above 3", par=4)
    RR = ["-redirect", "raintt::SREDC(=m_sredc", "-redirect", "raintt::MulSREDC(=m_mulsredc", "-redirect", "raintt::AddMod(=m_addmod", "-redirect", "raintt::SubMod(=m_submod", "-redirect", "raintt::TwistMulDirect<=m_direct"]
    P["A04"] = S(
        [U("mul%d" % (1 << i), "rain.cpp", defs=["PART_MUL=%d" % i], args=RR, bounds="dimension %d, both factors arbitrary words" % (1 << i)) for i in (4, 5, 6, 7)] +
        [U("mono1024", "rain.cpp", defs=["PART_MUL=10", "DEG=513"], args=RR, bounds="dimension 1024, arbitrary factor times b*X^513"),
         U("mono512", "rain.cpp", defs=["PART_MUL=9", "DEG=1"], args=RR, bounds="dimension 512, arbitrary factor times b*X"),
         U("mono256", "rain.cpp", defs=["PART_MUL=8", "DEG=255"], args=RR, bounds="dimension 256, arbitrary factor times b*X^255"),
         U("mono1024b", "rain.cpp", defs=["PART_MUL=10", "DEG=7"], args=RR, bounds="dimension 1024, arbitrary factor times b*X^7", thorough=True)],
        "the transforms and the pointwise product run on symbolic words; reductions are replaced by the contract A03 establishes, whose preconditions are asserted at every call; the product is compared modulo p in normal form",
        outside="products of two full polynomials in dimension above 128", assumptions=["the modular operations behave as A03 establishes"], par=4)
