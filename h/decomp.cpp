// Homomorphic digit decomposition over key switching and blind rotation taken by their contracts (C05, C09).
#include "scheme.hpp"
#ifndef H2M
#define H2M lvl31param
#endif
#ifndef M2L
#define M2L lvl1hparam
#endif
#ifndef BRP
#define BRP lvlh1param
#endif
#ifndef BB
#define BB 2
#endif
#ifndef ND
#define ND 3
#endif
using H = H2M;
using M = M2L;
using B = BRP;
template <class T> constexpr unsigned W = std::numeric_limits<T>::digits;
template <class P> struct sk { static inline Key<P> key; };
template <class T> static T err(unsigned q) { return (T)((T)sym_int(W<T> - q + 1, "err") - ((T)1 << (W<T> - q))); }
template <class P> static TLWE<P> make(typename P::T phase)
{
    auto c = sch::rawtlwe<P>("a");
    c[P::k * P::n] = 0;
    c[P::k * P::n] = (typename P::T)(phase - sch::refphase<P>(c, sk<P>::key));
    return c;
}
template <class TR, class TD> static TR conv(TD x)
{
    if constexpr (W<TD> > W<TR>) return (TR)((TD)(x + ((TD)1 << (W<TD> - W<TR> - 1))) >> (W<TD> - W<TR>));
    else return (TR)((TR)x << (W<TR> - W<TD>));
}
static const void *K1, *K2, *K3;
template <class K> static void iks(TLWE<typename K::targetP>& res, const TLWE<typename K::domainP>& c, const void* k, const void* want)
{
    sym_assert(k == want, "the switching key given for this step is used");
    using TR = typename K::targetP::T;
    const auto ph = sch::refphase<typename K::domainP>(c, sk<typename K::domainP>::key);
    res = make<typename K::targetP>((TR)(conv<TR>(ph) + err<TR>(BB + 6)));
}
extern "C" void m_h2m(TLWE<typename H::targetP>& res, const TLWE<typename H::domainP>& c, const KeySwitchingKey<H>& k) { iks<H>(res, c, &k, K1); }
extern "C" void m_m2l(TLWE<typename M::targetP>& res, const TLWE<typename M::domainP>& c, const KeySwitchingKey<M>& k) { iks<M>(res, c, &k, K2); }
using D = typename B::domainP;
using R = typename B::targetP;
extern "C" void m_blind(TRLWE<R>& res, const TLWE<D>& c, const BootstrappingKeyFFT<B>& bk, const Polynomial<R>& tv)
{
    using TD = typename D::T;
    sym_assert((const void*)&bk == K3, "the bootstrapping key given is used");
    const TD ph = sch::refphase<D>(c, sk<D>::key);
    const unsigned SH = W<TD> - 1 - R::nbit;
    const uint64_t E = sym_concretize((uint64_t)(TD)((TD)(ph + ((TD)1 << (SH - 1))) >> SH));
    auto want = sch::refrot<R>(tv, -(int64_t)E);
    TRLWE<R> t = {};
    for (uint32_t q = 0; q < R::k; q++) t[q] = sch::poly<R>("m");
    auto as = sch::refphase<R>(t, sk<R>::key);
    for (uint32_t j = 0; j < R::n; j++) t[R::k][j] = (typename R::T)(want[j] - as[j] + err<typename R::T>(BB + 6));
    res = t;
}
extern "C" void harness()
{
    using Hi = typename H::domainP;
    using Mid = typename H::targetP;
    using TH = typename Hi::T;
    using TM = typename Mid::T;
    sk<Hi>::key = sch::key<Hi>("kh");
    sk<Mid>::key = sch::key<Mid>("km");
    sk<D>::key = sch::key<D>("kl");
    static KeySwitchingKey<H> kh;
    static KeySwitchingKey<M> km;
    static BootstrappingKeyFFT<B> bk;
    K1 = &kh; K2 = &km; K3 = &bk;
    constexpr unsigned PM = BB * ND;
    const uint64_t m = sym_concretize(sym_int(PM, "message"));
    // the message in the top bits, any error below an eighth of the lowest digit
    TH ph = (TH)((TH)m << (W<TH> - PM));
    if constexpr (PM < W<TH>) ph = (TH)(ph + err<TH>(PM + 3));
    auto cin = make<Hi>(ph);
    std::array<TLWE<Mid>, ND> out;
    HomDecomp<H, M, B, BB, ND>(out, cin, kh, km, bk);
    for (unsigned j = 0; j < ND; j++) {
        const TM digit = (TM)((m >> (BB * j)) & ((1u << BB) - 1));
        const TM p = sch::refphase<Mid>(out[j], sk<Mid>::key);
        const TM d = (TM)(p - (TM)(digit << (W<TM> - BB)));
        sym_assert((TM)(d + ((TM)3 << (W<TM> - BB - 3))) <= (TM)((TM)3 << (W<TM> - BB - 2)), "digit within three eighths of a unit of its value");
    }
    sym_reach("end");
}
