from registry_text import *


def register(P, U, S):
    RM = ["-redirect", "void TFHEpp::CMUXFFT<=m_cmux", "-redirect", "void TFHEpp::trgswfftExternalProduct<=m_ext"]
    CT = "selection and external product are replaced by their contracts (fresh masks, phase as C03 and C04 say), which C03 and C04 establish"
    m, m3, m4 = {"lvl1param.nbit": 2}, {"lvl1param.nbit": 3}, {"lvl1param.nbit": 4}

    def me(name, part, over, ab, wb=1, defs=(), **kw):
        return U(name, "mem.cpp", over=over, defs=[f"PART_{part}", f"AB={ab}", f"WB={wb}"] + list(defs), args=RM,
                 bounds=", ".join(f"{k}={v}" for k, v in over.items()) + f"; {ab} address bits" + (f", word of {wb} bits" if part in ("UROM", "LROM") else "") + "; every address, content and key", **kw)
    k2 = {**m, "lvl1param.k": 2}
    P["C15"] = S([me("ramux_a2", "RAM", m, 2), me("ramux_a4", "RAM", m, 4), me("ramux_k2", "RAM", k2, 3), me("ramux_lvl2", "RAM", {"lvl2param.nbit": 2}, 3, defs=["LVL=lvl2param"]),
                  me("uromux_a4_w2", "UROM", m, 4, 2), me("uromux_a4_w1", "UROM", m, 4, 1), me("uromux_a6_w1", "UROM", m, 6, 1), me("uromux_k2", "UROM", k2, 4, 1),
                  me("lromux_w1", "LROM", m3, 3, 1), me("lromux_w2", "LROM", m3, 4, 2), me("lromux_k2", "LROM", {**m3, "lvl1param.k": 2}, 3, 2), me("lromux_lvl2", "LROM", {"lvl2param.nbit": 3}, 3, 2, defs=["LVL=lvl2param"]),
                  me("write_a2", "WRITE", m, 2), me("write_a4", "WRITE", m, 4), me("write_k2", "WRITE", k2, 3),
                  me("ramux_a6", "RAM", m, 6, thorough=True), me("lromux_w3_n16", "LROM", m4, 5, 3, thorough=True), me("write_a6", "WRITE", m, 6, thorough=True)],
                 "memory reads and writes are executed for every encrypted address, starting from arbitrary contents; the read returns the addressed word's phase and a write changes exactly the addressed cell", assumptions=[CT, MINI])
