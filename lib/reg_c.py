from registry_text import *


def register(P, U, S):
    A = [FFT_MODEL, RNG_MODEL, MINI]

    def ks(name, part, k, over, **kw):
        return U(name, "ks.cpp", over=over, defs=[f"PART_{part}", f"KS={k}"] + kw.pop("defs", []), bounds=kw.pop("bounds", "shipped digits and words, vector lengths 2..4; every key, mask and ciphertext"), **kw)
    n0, nh, n1, n2, n3 = {"lvl0param.n": 2}, {"lvlhalfparam.n": 2}, {"lvl1param.nbit": 1}, {"lvl2param.nbit": 1}, {"lvl3param.nbit": 1}
    dims = {"lvl10param": {**n0, **n1}, "lvl1hparam": {**nh, **n1}, "lvl20param": {**n0, **n2}, "lvl2hparam": {**nh, **n2}, "lvl21param": {**n1, **n2}, "lvl22param": n2, "lvl31param": {**n1, **n3}, "lvl11param": n1}
    P["C05"] = S([ks(f"iks_{k[:-5]}", "IKS", k, o) for k, o in dims.items()]
                 + [ks("iks_lvl10_k2", "IKS", "lvl10param", {**n0, **n1, "lvl1param.k": 2}), ks("cat_lvl10", "CAT", "lvl10param", dims["lvl10param"]),
                    ks("iks_lvl1h_full", "IKS", "lvl1hparam", {**nh, **n1, "lvl1hparam.t": 8, "lvl1hparam.basebit": 4}, bounds="digits covering the whole 32-bit word, vector lengths 2"), ks("iks_lvl20_b5", "IKS", "lvl20param", {**n0, **n2, "lvl20param.t": 3, "lvl20param.basebit": 5}, bounds="three 5-bit digits, vector lengths 2"),
                    ks("sub_lvl21", "SUB", "lvl21param", {"lvl1param.nbit": 1, "lvl2param.nbit": 2}), ks("sub_lvl21_k2", "SUB", "lvl21param", {"lvl1param.nbit": 1, "lvl2param.nbit": 3, "lvl1param.k": 2})],
                 "key generation and key switching are executed on arbitrary keys and ciphertexts; the output phase is shown equal to body minus the sum of independently rounded mask words times key", assumptions=A,
                 outside="longer vectors (every loop runs over the length)")
    M2 = ["-redirect", "void TFHEpp::PolyMul<TFHEpp::lvl2param>(=m_polymul2"]
    P["C06"] = S([ks("priv_lvl11", "PRIV", "lvl11param", n1), ks("priv_lvl21", "PRIV", "lvl21param", {**n1, **n2}), ks("priv_lvl22", "PRIV", "lvl22param", n2, defs=["MODEL_POLYMUL2"], args=M2),
                  ks("subpriv_lvl21", "SUBPRIV", "lvl21param", {"lvl1param.nbit": 1, "lvl2param.nbit": 2}), ks("priv_lvl11_k2", "PRIV", "lvl11param", {**n1, "lvl1param.k": 2}),
                  ks("subpriv_lvl21_k2", "SUBPRIV", "lvl21param", {"lvl1param.nbit": 1, "lvl2param.nbit": 3, "lvl1param.k": 2})],
                 "key generation for a secret function and the switch are executed on arbitrary keys, functions and ciphertexts; the output phase is the function times the (digit-rounded) input phase", assumptions=A,
                 outside="longer vectors (every loop runs over the length)")
    R = ["-redirect", "void TFHEpp::EvalAuto<=m_evalauto"]
    AB = FFT_MODEL + "; in the units marked 'contract' one automorphism evaluation is replaced by its contract (fresh mask, substituted phase), which C08 establishes"

    def au(name, part, nb, k=1, lvl="lvl1param", ab=True, count=0, **kw):
        o = {f"{lvl}.nbit": nb}
        if k > 1:
            o[f"{lvl}.k"] = k
        g = 14 if lvl == "lvl1param" else 28
        m2 = not ab and lvl == "lvl2param"
        return U(name, "auto.cpp", over=o, defs=(["MODEL_POLYMUL2"] if m2 else []) + [f"PART_{part}", f"LVL={lvl}", f"GRID={g}"] + (["ABSTRACT"] if ab else []) + ([f"COUNT={count}"] if count else []), args=R if ab else M2 if m2 else [],
                 bounds=f"dimension {1<<nb}, {k} mask polynomial(s)" + (f", {count} messages" if count else "") + (", contract of the automorphism step" if ab else ", key generation and automorphism executed") + "; every key and ciphertext", **kw)
    P["C07"] = S([ks("t2r_lvl11", "T2R", "lvl11param", n1), ks("t2r_lvl21", "T2R", "lvl21param", {**n1, **n2}), ks("t2r_lvl11_k2", "T2R", "lvl11param", {**n1, "lvl1param.k": 2})]
                 + [au(f"cheng_{c}", "CHENG", 4, count=c) for c in (1, 2, 3, 5, 8, 16)] + [au(f"pack_{c}", "PACK", 4, count=c) for c in (1, 2, 3, 9, 16)]
                 + [au("cheng_lvl2", "CHENG", 3, lvl="lvl2param", count=3), au("pack_lvl2", "PACK", 3, lvl="lvl2param", count=5), au("cheng_k2", "CHENG", 3, k=2, count=4), au("pack_k2", "PACK", 3, k=2, count=6),
                    au("cheng_full", "CHENG", 1, ab=False, count=2), au("pack_full", "PACK", 1, ab=False, count=2)],
                 "packing of scalar ciphertexts is executed on arbitrary ciphertexts; every message is shown to sit in its slot of the output phase", assumptions=[AB, RNG_MODEL, MINI])
    P["C08"] = S([au(f"eval_{n}", "EVAL", 2, k=k, ab=False, lvl=l) for n, k, l in (("lvl1", 1, "lvl1param"), ("k2", 2, "lvl1param"), ("lvl2", 1, "lvl2param"))]
                 + [au("ann_n16", "ANN", 4), au("ann_n64", "ANN", 6, thorough=True), au("ann_k2", "ANN", 3, k=2), au("ann_lvl2", "ANN", 4, lvl="lvl2param"), au("ann_full1", "ANN", 1, ab=False), au("ann_full2", "ANN", 2, ab=False)],
                 "substitution keys, substitution and coefficient annihilation are executed on arbitrary keys and ciphertexts; phases are compared with the definition", assumptions=[AB, RNG_MODEL, MINI])
