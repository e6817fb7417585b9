// Polynomial building blocks and the gadget decomposition.
#include "scheme.hpp"
#ifndef LVL
#define LVL lvl1param
#endif
using P = LVL;
using T = typename P::T;
extern "C" void harness()
{
    const unsigned W = std::numeric_limits<T>::digits;
#if defined(PART_ROT)
    auto p = sch::poly<P>("p");
    for (uint32_t a = A0; a < A1; a += AS) {
        Polynomial<P> r, q;
        PolynomialMulByXai<P>(r, p, (T)a);
        auto w = sch::refrot<P>(p, a);
        sch::eqpoly<P>(r, w, "multiplication by X^a");
        PolynomialMulByXaiMinusOne<P>(q, p, (T)a);
        for (uint32_t i = 0; i < P::n; i++) sym_eq_exact<T>(q[i], (T)(w[i] - p[i]), "multiplication by X^a - 1");
    }
#elif defined(PART_AUTO)
    auto p = sch::poly<P>("p");
    for (uint32_t d = A0 | 1; d < A1; d += AS) {
        Polynomial<P> r;
        Automorphism<P>(r, p, d);
        sch::eqpoly<P>(r, sch::refauto<P>(p, d), "substitution X -> X^d");
    }
#elif defined(PART_DEC)
    static Polynomial<P> p;
    static DecomposedPolynomial<P> d;
    p = {};
    const uint32_t idx[3] = {0, P::n / 2 + 1, P::n - 1};
    for (auto i : idx) p[i] = sym<T>("p");
    Decomposition<P>(d, p);
    typedef __int128 W2;
    const T half = (T)1 << (P::Bgbit - 1);
    for (auto i : idx) {
        T sum = 0;
        for (uint32_t l = 0; l < P::l; l++) {
            SYM_ASSERT((T)(d[l][i] + half) < (T)((T)1 << P::Bgbit), "digit in the balanced range");
            sum = (T)(sum + (T)(d[l][i] << (W - (l + 1) * P::Bgbit)));
        }
        // distance to the input at most half a unit of the last digit
        const T ulp = (T)1 << (W - P::l * P::Bgbit);
        T e = (T)(p[i] - sum + ulp / 2);
        SYM_ASSERT(e <= ulp, "recomposition within half a unit of the last digit");
    }
    for (uint32_t i = 0; i < P::n; i++) if (i != idx[0] && i != idx[1] && i != idx[2])
        for (uint32_t l = 0; l < P::l; l++) SYM_ASSERT(d[l][i] == 0, "zero decomposes into zeros");
#elif defined(PART_SE)
    auto key = sch::key<P>("key");
    auto c = sch::rawtrlwe<P>("c");
    auto ph = sch::refphase<P>(c, key);
    for (uint32_t i = 0; i < P::n; i++) {
        TLWE<P> t;
        SampleExtractIndex<P>(t, c, (int)i);
        sym_eq_exact<T>(sch::refphase<P>(t, key), ph[i], "extracted coefficient");
    }
    auto t = sch::rawtlwe<P>("t");
    auto pt = sch::refphase<P>(t, key);
    for (uint32_t i = 0; i < P::n; i++) {
        TRLWE<P> r;
        InvSampleExtractIndex<P>(r, t, (int)i);
        auto pr = sch::refphase<P>(r, key);
        sym_eq_exact<T>(pr[i], pt, "coefficient of an embedded scalar ciphertext");
        for (uint32_t j = 0; j < P::n; j++) if (j != i) SYM_ASSERT(r[P::k][j] == 0, "other coefficients carry no body");
        TLWE<P> back;
        SampleExtractIndex<P>(back, r, (int)i);
        for (uint32_t j = 0; j <= P::k * P::n; j++) sym_eq_exact<T>(back[j], t[j], "embedding then extracting");
    }
#endif
    sym_reach("end");
}
