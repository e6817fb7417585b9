from registry_text import *


def register(P, U, S):
    A = [FFT_MODEL, RNG_MODEL, MINI]
    CT = "in the units marked 'contract' one rotate-or-keep step is replaced by its contract (fresh masks, phase rotated as the key word says), which C16 establishes"
    RD = {"fft": "void TFHEpp::CMUXFFTwithPolynomialMulByXaiMinusOne<=m_step", "ntt": "void TFHEpp::CMUXNTTwithPolynomialMulByXaiMinusOne<=m_stepntt",
          "raintt": "void TFHEpp::CMUXRAINTTwithPolynomialMulByXaiMinusOne<=m_stepraintt"}

    def bt(name, part, br, over, mode="fft", contract=True, nout=1, extra=(), **kw):
        g = 28 if br.endswith("2param") else 14
        d = [f"PART_{part}", f"BR={br}", f"GRID={g}"] + (["CONTRACT"] if contract else []) + ([f"NOUT={nout}"] if nout > 1 else []) + {"fft": [], "ntt": ["USENTT"], "raintt": ["USERAINTT"]}[mode] + list(extra)
        if mode != "fft" and "CONTRACT" not in d:
            d.append("CONTRACT")
        return U(name, "boot.cpp", over=over, defs=d, args=["-redirect", RD[mode]] if contract else [], wall=600,
                 bounds=", ".join(f"{k}={v}" for k, v in over.items()) + ("; contract of the step" if contract else "; key generation and steps executed") + "; every key, table and input phase", **kw)
    m = {"lvl1param.nbit": 2}
    P["C09"] = S([bt("gb_full_n1", "GB", "lvl01param", {**m, "lvl0param.n": 1}, contract=False), bt("gb_n2", "GB", "lvl01param", {**m, "lvl0param.n": 2}),
                  bt("br_full_table", "BR", "lvl01param", {**m, "lvl0param.n": 1}, contract=False, extra=["TRLWETV"]), bt("br_n2", "BR", "lvl01param", {**m, "lvl0param.n": 2}),
                  bt("br_n2_k2", "BR", "lvl01param", {**m, "lvl0param.n": 2, "lvl1param.k": 2}),
                  bt("br_lvl02", "BR", "lvl02param", {"lvl2param.nbit": 2, "lvl0param.n": 2}), bt("gb_lvl02", "GB", "lvl02param", {"lvl2param.nbit": 3, "lvl0param.n": 1}),
                  bt("gb_lvlh1", "GB", "lvlh1param", {**m, "lvlhalfparam.n": 1}), bt("gb_lvlh2", "GB", "lvlh2param", {"lvl2param.nbit": 2, "lvlhalfparam.n": 1}),
                  bt("gb_ternary", "GB", "lvl01param", {**m, "lvl0param.n": 1, "lvl0param.key_value_min": -1, "lvl0param.T": "uint32_t"}, contract=False),
                  bt("gb_ntt", "GB", "lvl01param", {**m, "lvl0param.n": 2}, mode="ntt"), bt("gb_raintt", "GB", "lvl01param", {**m, "lvl0param.n": 2}, mode="raintt"), bt("br_table_n2", "BR", "lvl01param", {**m, "lvl0param.n": 2}, extra=["TRLWETV"]),
                  bt("gb_n3", "GB", "lvl01param", {**m, "lvl0param.n": 3}, thorough=True), bt("br_nbit4", "BR", "lvl01param", {"lvl1param.nbit": 4, "lvl0param.n": 2}, thorough=True)],
                 "blind rotation and bootstrapping are executed on arbitrary keys, lookup tables and inputs (mask and body words split by rotation step, low bits symbolic); the output phase is the table rotated by the input's rounded phase",
                 assumptions=A + [CT], outside="longer vectors (the loop over mask words repeats the step) and transform rounding")
    from reg_b import extntt
    P["C09"].units += extntt(U, "KEY")
    P["C10"] = S([bt("many2_n2", "MANY", "lvl01param", {**m, "lvl0param.n": 2}, nout=2), bt("many4_n1", "MANY", "lvl01param", {"lvl1param.nbit": 4, "lvl0param.n": 1}, nout=4),
                  bt("many2_nbit3", "MANY", "lvl01param", {"lvl1param.nbit": 3, "lvl0param.n": 1}, nout=2), bt("many2_lvl02", "MANY", "lvl02param", {"lvl2param.nbit": 3, "lvl0param.n": 1}, nout=2),
                  bt("br_many_table", "BR", "lvl01param", {**m, "lvl0param.n": 2}, nout=2, extra=["TRLWETV"]), bt("br_many_table4", "BR", "lvl01param", {"lvl1param.nbit": 4, "lvl0param.n": 1}, nout=4, extra=["TRLWETV"]),
                  bt("br_many_ntt", "BR", "lvl01param", {**m, "lvl0param.n": 1}, nout=2, mode="ntt"), bt("br_many_raintt", "BR", "lvl01param", {**m, "lvl0param.n": 1}, nout=2, mode="raintt"),
                  bt("many3_n1", "MANY", "lvl01param", {"lvl1param.nbit": 4, "lvl0param.n": 1}, nout=3),
                  bt("many4_n2", "MANY", "lvl01param", {"lvl1param.nbit": 3, "lvl0param.n": 2}, nout=4, thorough=True)],
                 "bootstrapping with several tables is executed on arbitrary inputs and tables; every output's phase is its own table's entry", assumptions=A + [CT])
    GR = ["-redirect", "17IdentityKeySwitchI=m_iks", "-redirect", "11BlindRotateI=m_blind"]
    GA = "key switching and blind rotation are replaced by their contracts (fresh masks, phase as C05 and C09 say, plus any error below 2^-8 of the torus); C05 and C09 establish the exact part"

    def ga(name, part, over, defs=(), **kw):
        return U(name, "gate.cpp", over=over, defs=[f"PART_{part}"] + list(defs), args=GR, bounds=", ".join(f"{k}={v}" for k, v in over.items()) + "; every input bit and input error up to 1/64 of the torus, every key and mask", **kw)
    g2, g3 = {**m, "lvl0param.n": 2}, {"lvl2param.nbit": 3, "lvl0param.n": 2}
    P["C11"] = S([ga("gate_ks_first", "GATE", g2), ga("gate_br_first", "GATE", g2, ["BRFIRST"]), ga("gate_ks_first_lvl2", "GATE", g3, ["IKS=lvl20param", "BR=lvl02param"]),
                  ga("gate_br_first_lvl2", "GATE", g3, ["BRFIRST", "IKS=lvl20param", "BR=lvl02param"]), ga("gate_lvlhalf", "GATE", {**m, "lvlhalfparam.n": 2}, ["IKS=lvl1hparam", "BR=lvlh1param"]),
                  ga("gate_k2", "GATE", {**g2, "lvl1param.k": 2}), ga("gate_n8", "GATE", {"lvl1param.nbit": 3, "lvl0param.n": 2})],
                 "every gate is executed on encryptions of every bit with every error; the output is an encryption of the truth-table value that the next gate accepts", assumptions=[GA, MINI])
    P["C12"] = S([ga("mux_lvl1", "MUX", g2), ga("mux_lvl0", "MUX", g2, ["BRFIRST"]), ga("mux_k2", "MUX", {**g2, "lvl1param.k": 2}),
                  ga("se_br", "MUXSE", g2, ["MUXSE=0"]), ga("se_br_k2", "MUXSE", {**g2, "lvl1param.k": 2}, ["MUXSE=0"]), ga("se_ks", "MUXSE", g2, ["MUXSE=1"]), ga("se_ks_k3", "MUXSE", {**g2, "lvl1param.k": 3}, ["MUXSE=1"]),
                  ga("se_ks_10_02", "MUXSE", {**g3, **m}, ["MUXSE=1", "IKS=lvl10param", "BR=lvl02param"]), ga("se_ks_20_01", "MUXSE", {**g3, **m}, ["MUXSE=1", "IKS=lvl20param", "BR=lvl01param"]), ga("se_ks_20_02", "MUXSE", g3, ["MUXSE=1", "IKS=lvl20param", "BR=lvl02param"]),
                  ga("noiks", "MUXSE", g2, ["MUXSE=2"]), ga("noiks_k2", "MUXSE", {**g2, "lvl1param.k": 2}, ["MUXSE=2"]), ga("noiks_lvlhalf", "MUXSE", {**m, "lvl0param.n": 2, "lvlhalfparam.n": 3}, ["MUXSE=2", "BR=lvlh1param", "IKS=lvl1hparam"]),
                  ga("extract", "MUXSE", g2, ["MUXSE=3"], extra=["src/gate.cpp"]), ga("extract_k2", "MUXSE", {**g2, "lvl1param.k": 2}, ["MUXSE=3"], extra=["src/gate.cpp"])],
                 "every multiplexer form is executed on encryptions of every bit with every error, including the result stored over an operand; the output encrypts the selected bit", assumptions=[GA, MINI])
