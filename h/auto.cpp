// Automorphism evaluation, annihilation of coefficients, packing.
#include "scheme.hpp"
#ifndef LVL
#define LVL lvl1param
#endif
using P = LVL;
using T = typename P::T;
static Key<P> KEY;
// contract of one automorphism evaluation (established by PART_EVAL): fresh mask, substituted phase
extern "C" void m_evalauto(TRLWE<P>& res, const TRLWE<P>& c, const int d, const EvalAutoKey<P>& ak)
{
    // the key material handed in is checked by value: its first word carries the exponent
    sym_assert(*(const int*)&ak == d, "substitution key belongs to the exponent");
    auto ph = sch::refauto<P>(sch::refphase<P>(c, KEY), (uint64_t)d);
    TRLWE<P> t = {};
    for (uint32_t q = 0; q < P::k; q++) t[q] = sch::poly<P>("m", P::nbit);
    auto as = sch::refphase<P>(t, KEY);
    for (uint32_t i = 0; i < P::n; i++) t[P::k][i] = (T)(ph[i] - as[i]);
    res = t;
}
extern "C" void harness()
{
    auto key = sch::key<P>("key");
    KEY = key;
    sch::set_grid<T>(GRID + P::nbit);  // halving below must stay on the gadget grid
#if defined(PART_EVAL)
    auto c = sch::rawtrlwe<P>("c", GRID);
    auto pc = sch::refphase<P>(c, key);
    for (uint32_t d = 1; d < 2 * P::n; d += 2) {
        EvalAutoKey<P> ak;
        evalautokeygen<P>(ak, d, key);
        TRLWE<P> r;
        EvalAuto<P>(r, c, (int)d, ak);
        sch::eqpoly<P>(sch::refphase<P>(r, key), sch::refauto<P>(pc, d), "substitution applied to the phase");
    }
#else
    static AnnihilateKey<P> ahk;
#ifdef ABSTRACT
    for (int i = 0; i < P::nbit; i++) *(int*)&ahk[i] = (1 << (P::nbit - i)) + 1;
    constexpr unsigned G = P::nbit;
#else
    annihilatekeygen<P>(ahk, key);
    constexpr unsigned G = GRID + P::nbit;
#endif
#if defined(PART_ANN)
    auto c = sch::rawtrlwe<P>("c", G);
    T want = sch::refphase<P>(c, key)[0];
    TRLWE<P> r;
    AnnihilateKeySwitching<P>(r, c, ahk);
    auto ph = sch::refphase<P>(r, key);
    sym_eq_exact<T>(ph[0], want, "constant coefficient is kept");
#ifdef ABSTRACT
    for (uint32_t j = 1; j < P::n; j++) sym_eq_exact<T>(ph[j], (T)0, "every other coefficient is removed");
#endif
#elif defined(PART_CHENG)
    std::vector<TLWE<P>> v(COUNT);
    for (auto& t : v) t = sch::rawtlwe<P>("t", G);
    T want[COUNT];
    for (int i = 0; i < COUNT; i++) want[i] = sch::refphase<P>(v[i], key);
    TRLWE<P> r;
    TLWE2TRLWEChengsPacking<P>(r, v, ahk);
    auto ph = sch::refphase<P>(r, key);
    const unsigned slots = std::bit_ceil((unsigned)COUNT);
    for (int i = 0; i < COUNT; i++) sym_eq_exact<T>(ph[i * (P::n / slots)], want[i], "packed message in its slot");
    for (uint32_t j = 0; j < P::n; j++)
        if (j % (P::n / slots) || j / (P::n / slots) >= COUNT) sym_eq_exact<T>(ph[j], (T)0, "nothing outside the packed slots");
#elif defined(PART_PACK)
    std::vector<TLWE<P>> v(COUNT);
    for (auto& t : v) t = sch::rawtlwe<P>("t", G);
    T want[COUNT];
    for (int i = 0; i < COUNT; i++) want[i] = sch::refphase<P>(v[i], key);
    TRLWE<P> r;
    TLWE2TRLWEPacking<P>(r, v, ahk);
    auto ph = sch::refphase<P>(r, key);
    for (int i = 0; i < COUNT; i++) sym_eq_exact<T>(ph[i], want[i], "packed message in its slot");
    for (uint32_t i = COUNT; i < P::n; i++) sym_eq_exact<T>(ph[i], (T)0, "nothing outside the packed slots");
#endif
#endif
    sym_reach("end");
}
