// Circuit bootstrapping over bootstrapping and key switching taken by their contracts.
#include "stdstub.hpp"
#include "scheme.hpp"
#ifndef BKP
#define BKP lvl02param
#endif
#ifndef IKP
#define IKP lvl10param
#endif
#ifndef PVP
#define PVP lvl21param
#endif
using B = BKP;
using I = IKP;
using V = PVP;
using D0 = typename B::domainP;
using D2 = typename B::targetP;
using R = typename V::targetP;
template <class T> constexpr unsigned W = std::numeric_limits<T>::digits;
template <class P> struct sk { static inline Key<P> key; };
template <class T> static T err(unsigned q) { return (T)((T)sym_int(W<T> - q + 1, "err") - ((T)1 << (W<T> - q))); }
template <class P> static TLWE<P> make(typename P::T phase)
{
    auto c = sch::rawtlwe<P>("a");
    c[P::k * P::n] = 0;
    c[P::k * P::n] = (typename P::T)(phase - sch::refphase<P>(c, sk<P>::key));
    return c;
}
template <class P> static TRLWE<P> makeR(const Polynomial<P>& ph)
{
    TRLWE<P> t = {};
    for (uint32_t q = 0; q < P::k; q++) t[q] = sch::poly<P>("m");
    auto as = sch::refphase<P>(t, sk<P>::key);
    for (uint32_t j = 0; j < P::n; j++) t[P::k][j] = (typename P::T)(ph[j] - as[j]);
    return t;
}
static const void *KSK, *BKF, *SUB;
template <class TR, class TD> static TR conv(TD x)
{
    if constexpr (W<TD> > W<TR>) return (TR)((TD)(x + ((TD)1 << (W<TD> - W<TR> - 1))) >> (W<TD> - W<TR>));
    else return (TR)((TR)x << (W<TR> - W<TD>));
}
// C05
extern "C" void m_iks(TLWE<typename I::targetP>& res, const TLWE<typename I::domainP>& c, const KeySwitchingKey<I>& k)
{
    using TR = typename I::targetP::T;
    sym_assert((const void*)&k == KSK, "the evaluation key's switching key is used");
    const auto ph = sch::refphase<typename I::domainP>(c, sk<typename I::domainP>::key);
    res = make<typename I::targetP>((TR)(conv<TR>(ph) + err<TR>(8)));
}
// C09, C10: rotation by the rounded phase, in steps that keep the tables apart
constexpr uint32_t BW = bits_needed<R::l - 1>();
extern "C" void m_blind(TRLWE<D2>& res, const TLWE<D0>& c, const BootstrappingKeyFFT<B>& bk, const Polynomial<D2>& tv)
{
    using TD = typename D0::T;
    sym_assert((const void*)&bk == BKF, "the evaluation key's bootstrapping key is used");
    const TD ph = sch::refphase<D0>(c, sk<D0>::key);
    const unsigned SH = W<TD> - 1 - D2::nbit + BW;
    const uint64_t E = sym_concretize((uint64_t)(TD)((TD)(ph + ((TD)1 << (SH - 1))) >> SH)) << BW;
#ifdef DRIFT
    const int64_t d = (int64_t)sym_concretize(sym_int(1, "drift")) - (int64_t)sym_concretize(sym_int(1, "drift"));
#else
    const int64_t d = 0;
#endif
    res = makeR<D2>(sch::refrot<D2>(tv, -((int64_t)E + (d << BW))));
}
// C06: phase times the function the key was made for
struct Fn { const void* k; const Polynomial<R>* f; };
static Fn FN[8];
static int NFN;
static Polynomial<R> FP[8];
static void learn(const void* k, const Polynomial<R>& f) { FP[NFN] = f; FN[NFN] = {k, &FP[NFN]}; NFN++; }
static const Polynomial<R>& known(const void* k)
{
    for (int i = 0; i < NFN; i++)
        if (FN[i].k == k) return *FN[i].f;
    sym_assert(false, "a private switching key of the evaluation key is used");
    return FP[0];
}
static TRLWE<R> switched(typename R::T m, const void* k)
{
    Polynomial<R> p;
    auto& f = known(k);
    for (uint32_t i = 0; i < R::n; i++) p[i] = (typename R::T)(m * f[i]);
    return makeR<R>(p);
}
extern "C" void m_pkgen(PrivateKeySwitchingKey<V>& k, const Polynomial<R>& f) { learn(&k, f); }
extern "C" void m_priv(TRLWE<R>& res, const TLWE<typename V::domainP>& c, const PrivateKeySwitchingKey<V>& k)
{
    res = switched(conv<typename R::T>(sch::refphase<typename V::domainP>(c, sk<typename V::domainP>::key)), &k);
}
template <int N> static Key<R> prefix()
{
    Key<R> k;
    for (uint32_t i = 0; i < R::k * R::n; i++) k[i] = (typename R::T)sk<typename V::domainP>::key[i];
    return k;
}
#ifdef SUBV
extern "C" void m_subpkgen(SubsetPrivateKeySwitchingKey<V>& k, const Polynomial<R>& f) { learn(&k, f); }
extern "C" void m_sub(TLWE<R>& res, const TLWE<typename V::domainP>& c, const SubsetKeySwitchingKey<V>& k)
{
    sym_assert((const void*)&k == SUB, "the evaluation key's subset switching key is used");
    auto ph = conv<typename R::T>(sch::refphase<typename V::domainP>(c, sk<typename V::domainP>::key));
    res = sch::rawtlwe<R>("s");
    res[R::k * R::n] = 0;
    res[R::k * R::n] = (typename R::T)(ph - sch::refphase<R>(res, prefix<0>()));
}
extern "C" void m_subpriv(TRLWE<R>& res, const TLWE<R>& c, const SubsetPrivateKeySwitchingKey<V>& k) { res = switched(sch::refphase<R>(c, prefix<0>()), &k); }
#endif
template <class P> static TLWE<P> bit(int b)
{
    using T = typename P::T;
    return make<P>((T)(((T)(2 * b) - 1) * (T)((T)1 << (W<T> - 3)) + err<T>(6)));
}
template <class BB> static void putbk(EvalKey& e, std::shared_ptr<BootstrappingKeyFFT<BB>> p)
{
    if constexpr (std::is_same_v<BB, lvl01param>) e.bkfftlvl01 = p;
    else if constexpr (std::is_same_v<BB, lvlh1param>) e.bkfftlvlh1 = p;
    else if constexpr (std::is_same_v<BB, lvl02param>) e.bkfftlvl02 = p;
    else e.bkfftlvlh2 = p;
}
template <class K> static void putks(EvalKey& e, std::shared_ptr<KeySwitchingKey<K>> p)
{
    if constexpr (std::is_same_v<K, lvl10param>) e.iksklvl10 = p;
    else if constexpr (std::is_same_v<K, lvl1hparam>) e.iksklvl1h = p;
    else if constexpr (std::is_same_v<K, lvl20param>) e.iksklvl20 = p;
    else e.iksklvl2h = p;
}
// every row carries the gadget times the secret polynomial of its block, for a one
static void check(const TRGSW<R>& g, int b, const char* m)
{
    using T = typename R::T;
    const auto& s = sk<R>::key;
    for (uint32_t q = 0; q <= R::k; q++)
        for (uint32_t i = 0; i < R::l; i++) {
            auto ph = sch::refphase<R>(g[i + q * R::l], s);
            const T h = (T)((T)1 << (W<T> - (i + 1) * R::Bgbit));
            for (uint32_t j = 0; j < R::n; j++) {
                const T f = q < R::k ? (T)-s[q * R::n + j] : (T)(j == 0);
                sym_eq<T>(ph[j], b ? (T)(f * h) : (T)0, m);
            }
        }
}
static TRGSW<R> back(const TRGSWFFT<R>& f)
{
    TRGSW<R> g;
    for (uint32_t i = 0; i < (R::k + 1) * R::l; i++)
        for (uint32_t j = 0; j <= R::k; j++) {
            auto t = f[i][j];
            TwistFFT<R>(g[i][j], t);
        }
    return g;
}
template <class = void> static void body()
{
    SecretKey* sec = (SecretKey*)::operator new(sizeof(SecretKey), std::align_val_t(64));
    sk<D0>::key = sch::key<D0>("k0");
    sk<D2>::key = sch::key<D2>("k2");
    if constexpr (!std::is_same_v<R, D2>) sk<R>::key = sch::key<R>("k1");
    if constexpr (!std::is_same_v<typename I::domainP, D2> && !std::is_same_v<typename I::domainP, R>) sk<typename I::domainP>::key = sch::key<typename I::domainP>("ki");
    for (uint32_t i = 0; i < R::k * R::n; i++)
        if constexpr (std::is_same_v<R, lvl1param>) sec->key.lvl1[i] = sk<R>::key[i];
        else sec->key.lvl2[i] = sk<R>::key[i];
    EvalKey ek;
    auto bk = std::make_shared<BootstrappingKeyFFT<B>>();
    auto ks = std::make_shared<KeySwitchingKey<I>>();
    putbk<B>(ek, bk);
    putks<I>(ek, ks);
    BKF = bk.get(); KSK = ks.get();
#ifdef SUBV
    auto sb = std::make_shared<SubsetKeySwitchingKey<V>>();
    ek.subiksklvl21 = sb;
    SUB = sb.get();
    ek.emplacesubprivksk4cb<V>(*sec);
#else
    ek.emplaceprivksk4cb<V>(*sec);
#endif
    const int b = (int)sym_concretize(sym_int(1, "bit"));
    static TRGSW<R> g;
    static TRGSWFFT<R> f, fi;
    auto cd = bit<D0>(b);
    auto ci = bit<typename I::domainP>(b);
#if FORM == 0
    CircuitBootstrapping<B, V>(g, cd, ek);
    check(g, b, "rows of the ring ciphertext");
#elif FORM == 1
    CircuitBootstrapping<I, B, V>(g, ci, ek);
    check(g, b, "rows of the ring ciphertext");
#elif FORM == 2
    CircuitBootstrappingSub<I, B, V>(g, ci, ek);
    check(g, b, "rows of the ring ciphertext");
#elif FORM == 3
    CircuitBootstrappingFFT<B, V>(f, cd, ek);
    check(back(f), b, "rows of the transformed ciphertext");
#elif FORM == 4
    CircuitBootstrappingFFT<I, B, V>(f, ci, ek);
    check(back(f), b, "rows of the transformed ciphertext");
#elif FORM == 5
    CircuitBootstrappingSubFFT<I, B, V>(f, ci, ek);
    check(back(f), b, "rows of the transformed ciphertext");
#elif FORM == 6
    CircuitBootstrappingFFTInv<B, V>(f, cd, ek);
    check(back(f), 1 - b, "rows of the inverted ciphertext");
#elif FORM == 7
    CircuitBootstrappingFFTInv<I, B, V>(f, ci, ek);
    check(back(f), 1 - b, "rows of the inverted ciphertext");
#elif FORM == 8
    CircuitBootstrappingFFTwithInv<B, V>(f, fi, cd, ek);
    check(back(f), b, "rows of the transformed ciphertext");
    check(back(fi), 1 - b, "rows of the inverted ciphertext");
#elif FORM == 9
    CircuitBootstrappingFFTwithInv<I, B, V>(f, fi, ci, ek);
    check(back(f), b, "rows of the transformed ciphertext");
    check(back(fi), 1 - b, "rows of the inverted ciphertext");
#endif
    sym_reach("end");
}
extern "C" void harness() { body<>(); }
