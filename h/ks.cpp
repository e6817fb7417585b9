// Key switching.
#include "scheme.hpp"
#ifndef KS
#define KS lvl10param
#endif
using P = KS;
using D = typename P::domainP;
using R = typename P::targetP;
using TD = typename D::T;
using TR = typename R::T;
constexpr unsigned WD = std::numeric_limits<TD>::digits, WR = std::numeric_limits<TR>::digits;
constexpr unsigned DIG = P::t * P::basebit;
// reference: a word of W bits rounded to its first DIG bits, on the target's scale
template <class T> static TR rounded(T x, unsigned W)
{
    const T r = DIG < W ? (T)((T)(x + ((T)1 << (W - DIG - 1))) >> (W - DIG)) : x;
    const unsigned keep = DIG < W ? DIG : W;
    return WR >= keep ? (TR)((TR)r << (WR - keep)) : (TR)(r >> (keep - WR));
}
// reference: the body, converted to the target's width by rounding
static TR body(TD x)
{
    if constexpr (WD == WR) return (TR)x;
    else if constexpr (WD > WR) return (TR)((TD)(x + ((TD)1 << (WD - WR - 1))) >> (WD - WR));
    else return (TR)((TR)x << (WR - WD));
}
extern "C" void harness()
{
    auto kd = sch::key<D>("kd");
    auto kr = sch::key<R>("kr");
    constexpr uint32_t ND = D::k * D::n, NR = R::k * R::n;
#if defined(PART_IKS) || defined(PART_CAT)
    static KeySwitchingKey<P> ksk;
    ikskgen<P>(ksk, kd, kr);
#if defined(PART_IKS)
    constexpr int CATS = 1;
    TLWE<D> c = sch::rawtlwe<D>("c");
    TLWE<R> r;
    sym_merge(2);
    IdentityKeySwitch<P>(r, c, ksk);
    sym_merge(0);
#else
    constexpr int CATS = 2;
    std::array<TLWE<D>, CATS> cs; std::array<TLWE<R>, CATS> rs;
    for (auto& x : cs) x = sch::rawtlwe<D>("c");
    sym_merge(2);
    CatIdentityKeySwitch<P, CATS>(rs, cs, ksk);
    sym_merge(0);
#endif
    for (int q = 0; q < CATS; q++) {
#if defined(PART_CAT)
        auto& c = cs[q]; auto& r = rs[q];
#endif
        TR want = body(c[ND]);
        for (uint32_t i = 0; i < ND; i++) want = (TR)(want - (TR)kd[i] * rounded<TD>(c[i], WD));
        sym_eq_exact<TR>(sch::refphase<R>(r, kr), want, "phase after key switching");
    }
#elif defined(PART_SUB)
    // the target key is the beginning of the domain key
    static SubsetKeySwitchingKey<P> ksk;
    subikskgen<P>(ksk, kd);
    for (uint32_t i = 0; i < NR; i++) kr[i] = (TR)kd[i];
    auto c = sch::rawtlwe<D>("c");
    TLWE<R> r;
    sym_merge(2);
    SubsetIdentityKeySwitch<P>(r, c, ksk);
    sym_merge(0);
    TR want = body(c[ND]);
    for (uint32_t i = 0; i < NR; i++) want = (TR)(want - (TR)kd[i] * body(c[i]));
    for (uint32_t i = NR; i < ND; i++) want = (TR)(want - (TR)kd[i] * rounded<TD>(c[i], WD));
    sym_eq_exact<TR>(sch::refphase<R>(r, kr), want, "phase after key switching to a part of the key");
#elif defined(PART_T2R)
    static TLWE2TRLWEIKSKey<P> ksk;
    tlwe2trlweikskgen<P>(ksk, kd, kr);
    auto c = sch::rawtlwe<D>("c");
    TRLWE<R> r;
    sym_merge(2);
    TLWE2TRLWEIKS<P>(r, c, ksk);
    sym_merge(0);
    auto ph = sch::refphase<R>(r, kr);
    TR want = body(c[ND]);
    for (uint32_t i = 0; i < ND; i++) want = (TR)(want - (TR)kd[i] * rounded<TD>(c[i], WD));
    sym_eq_exact<TR>(ph[0], want, "scalar message lands in the constant coefficient");
    for (uint32_t i = 1; i < R::n; i++) sym_eq_exact<TR>(ph[i], (TR)0, "other coefficients stay empty");
#elif defined(PART_PRIV)
    static PrivateKeySwitchingKey<P> ksk;
    auto f = sch::poly<R>("f");
    privkskgen<P>(ksk, f, kd, kr);
    auto c = sch::rawtlwe<D>("c");
    TRLWE<R> r;
    sym_merge(2);
    PrivKeySwitch<P>(r, c, ksk);
    sym_merge(0);
    auto ph = sch::refphase<R>(r, kr);
    TR m = rounded<TD>(c[ND], WD);
    for (uint32_t i = 0; i < ND; i++) m = (TR)(m - (TR)kd[i] * rounded<TD>(c[i], WD));
    for (uint32_t i = 0; i < R::n; i++) sym_eq_exact<TR>(ph[i], (TR)(m * f[i]), "phase is the secret function times the message");
#elif defined(PART_SUBPRIV)
    static SubsetPrivateKeySwitchingKey<P> ksk;
    auto f = sch::poly<R>("f");
    subprivkskgen<P>(ksk, f, kd, kr);
    auto c = sch::rawtlwe<R>("c");
    TRLWE<R> r;
    sym_merge(2);
    SubsetPrivKeySwitch<P>(r, c, ksk);
    sym_merge(0);
    auto ph = sch::refphase<R>(r, kr);
    TR m = rounded<TR>(c[NR], WR);
    for (uint32_t i = 0; i < NR; i++) m = (TR)(m - (TR)kd[i] * rounded<TR>(c[i], WR));
    for (uint32_t i = 0; i < R::n; i++) sym_eq_exact<TR>(ph[i], (TR)(m * f[i]), "phase is the secret function times the message");
#endif
    sym_reach("end");
}
