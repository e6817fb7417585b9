from registry_text import *


def register(P, U, S):
    A = [MINI, "key switching and blind rotation are replaced by their contracts (fresh masks; phase as C05, C06, C09 and C10 say, key switching with any error below 2^-8 of the torus); those properties establish the exact part"]
    RC = sum([["-redirect", r] for r in ("17IdentityKeySwitchI=m_iks", "11BlindRotateI=m_blind", "10privkskgenI=m_pkgen", "13PrivKeySwitchI=m_priv")], [])
    RS = RC + sum([["-redirect", r] for r in ("13subprivkskgenI=m_subpkgen", "19SubsetPrivKeySwitchI=m_subpriv", "23SubsetIdentityKeySwitchI=m_sub")], [])
    o = {"lvl1param.nbit": 1, "lvl0param.n": 2, "lvl2param.nbit": 4}

    def cb(name, form, over=o, defs=(), **kw):
        sub = form in (2, 5)
        return U(name, "cb.cpp", over=over, defs=[f"FORM={form}"] + (["SUBV"] if sub else []) + list(defs), args=RS if sub else RC, extra=["src/key.cpp"],
                 bounds=", ".join(f"{k}={v}" for k, v in over.items()) + "; every input bit, input error up to 1/64 of the torus, every key and mask", **kw)
    names = ["cb", "cb_iks", "sub", "fft", "fft_iks", "subfft", "fftinv", "fftinv_iks", "withinv", "withinv_iks"]
    k2 = {**o, "lvl1param.k": 2}
    P["C13"] = S([cb(names[f], f) for f in range(10)] + [cb(names[f] + "_k2", f, k2) for f in (1, 5, 7, 8, 9)] +
                 [cb("withinv_l4_drift", 9, {**o, "lvl2param.nbit": 5, "lvl1param.l": 4}, ["DRIFT"]), cb("cb_lvl11", 1, {"lvl1param.nbit": 4, "lvl0param.n": 2}, ["BKP=lvl01param", "PVP=lvl11param"]),
                  cb("cb_lvl22", 1, {"lvl2param.nbit": 4, "lvl0param.n": 2, "lvl1param.nbit": 1}, ["PVP=lvl22param"]), cb("withinv_lvlhalf", 9, {"lvl2param.nbit": 4, "lvlhalfparam.n": 2, "lvl1param.nbit": 1}, ["BKP=lvlh2param", "IKP=lvl1hparam"]),
                  cb("withinv_k3_drift", 9, {**o, "lvl1param.k": 3, "lvl2param.nbit": 5}, ["DRIFT"], thorough=True), cb("cb_lvl11_n64", 1, {"lvl1param.nbit": 6, "lvl0param.n": 3}, ["BKP=lvl01param", "PVP=lvl11param", "DRIFT"], thorough=True)],
                 "key emplacement and circuit bootstrapping are executed on encryptions of both bits with every error; the phase of every row of the resulting ring ciphertext is the gadget value times the block's secret polynomial for a one and zero for a zero, in every form",
                 assumptions=A + [FFT_MODEL])
    def de(name, bb, nd, over, lv=("lvl31param", "lvl1hparam", "lvlh1param"), **kw):
        return U(name, "decomp.cpp", over=over, defs=[f"BB={bb}", f"ND={nd}", f"H2M={lv[0]}", f"M2L={lv[1]}", f"BRP={lv[2]}"], wall=600,
                 args=sum([["-redirect", r] for r in (f"17IdentityKeySwitchINS_10{lv[0]}=m_h2m", f"17IdentityKeySwitchINS_{len(lv[1])}{lv[1]}=m_m2l", "11BlindRotateI=m_blind")], []),
                 bounds=f"{nd} digits of {bb} bits, " + ", ".join(f"{k}={v}" for k, v in over.items()) + "; every message, input error up to an eighth of the lowest digit, error of every step below 2^-%d" % (bb + 6), **kw)
    h = {"lvl3param.nbit": 1, "lvlhalfparam.n": 2}
    P["C14"] = S([de("b2_d3", 2, 3, {"lvl1param.nbit": 4, **h}), de("b3_d2", 3, 2, {"lvl1param.nbit": 5, **h}), de("b4_d2", 4, 2, {"lvl1param.nbit": 6, **h}, thorough=True), de("b2_d2_k2", 2, 2, {"lvl1param.nbit": 4, "lvl1param.k": 2, **h}),
                  de("b2_d3_lvl21", 2, 3, {"lvl1param.nbit": 4, "lvl2param.nbit": 1, "lvl0param.n": 2}, ("lvl21param", "lvl10param", "lvl01param")), de("b1_d4", 1, 4, {"lvl1param.nbit": 3, **h}),
                  de("b2_d4", 2, 4, {"lvl1param.nbit": 4, **h}, thorough=True), de("b3_d3", 3, 3, {"lvl1param.nbit": 5, **h}, thorough=True)],
                 "the decomposition is executed for every message with every small error; the phase of each output is within three eighths of a unit of its digit, so it decrypts to it",
                 assumptions=A)
