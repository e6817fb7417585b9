// Gates over bootstrapping and key switching taken by their contracts.
#include "scheme.hpp"
#ifndef BR
#define BR lvl01param
#endif
#ifndef IKS
#define IKS lvl10param
#endif
using BP = BR;
using KP = IKS;
using D = typename BP::domainP;
using R = typename BP::targetP;
template <class T> constexpr unsigned W = std::numeric_limits<T>::digits;
template <class P> struct sk { static inline Key<P> key; };
// an error of magnitude below 2^(w-q) of the torus
template <class T> static T err(unsigned q)
{
    T e = (T)((T)sym_int(W<T> - q + 1, "err") - ((T)1 << (W<T> - q)));
    return e;
}
template <class P> static TLWE<P> make(typename P::T phase)
{
    auto c = sch::rawtlwe<P>("a");
    c[P::k * P::n] = 0;
    c[P::k * P::n] = (typename P::T)(phase - sch::refphase<P>(c, sk<P>::key));
    return c;
}
static const void *KSK, *BKF;
// C05: fresh vector, phase carried over to the target word with a small error
template <class K> static void iks(TLWE<typename K::targetP>& res, const TLWE<typename K::domainP>& c, const KeySwitchingKey<K>& k)
{
    using TD = typename K::domainP::T;
    using TR = typename K::targetP::T;
    sym_assert((const void*)&k == KSK, "gate uses the evaluation key's switching key");
    const TD ph = sch::refphase<typename K::domainP>(c, sk<typename K::domainP>::key);
    TR p = W<TD> >= W<TR> ? (TR)(ph >> (W<TD> - W<TR>)) : (TR)((TR)ph << (W<TR> > W<TD> ? W<TR> - W<TD> : 0));
    res = make<typename K::targetP>((TR)(p + err<TR>(8)));
}
// C09: the table rotated by the input phase to the nearest step
static void blind(TRLWE<R>& res, const TLWE<D>& c, const void* bk, const Polynomial<R>& tv)
{
    using TD = typename D::T;
    sym_assert(bk == BKF, "gate uses the evaluation key's bootstrapping key");
    const TD ph = sch::refphase<D>(c, sk<D>::key);
    const unsigned SH = W<TD> - 1 - R::nbit;
    const uint64_t E = sym_concretize((uint64_t)(TD)((TD)(ph + ((TD)1 << (SH - 1))) >> SH));
    auto want = sch::refrot<R>(tv, -(int64_t)E);
    TRLWE<R> t = {};
    for (uint32_t q = 0; q < R::k; q++) t[q] = sch::poly<R>("m");
    auto as = sch::refphase<R>(t, sk<R>::key);
    for (uint32_t j = 0; j < R::n; j++) t[R::k][j] = (typename R::T)(want[j] - as[j] + err<typename R::T>(8));
    res = t;
}
extern "C" void m_iks(TLWE<typename KP::targetP>& res, const TLWE<typename KP::domainP>& c, const KeySwitchingKey<KP>& k) { iks<KP>(res, c, k); }
extern "C" void m_blind(TRLWE<R>& res, const TLWE<D>& c, const BootstrappingKeyFFT<BP>& bk, const Polynomial<R>& tv) { blind(res, c, &bk, tv); }
extern "C" void m_blindntt(TRLWE<R>& res, const TLWE<D>& c, const BootstrappingKeyNTT<BP>& bk, const Polynomial<R>& tv) { blind(res, c, &bk, tv); }
template <class P> static TLWE<P> bit(int b)
{
    using T = typename P::T;
    return make<P>((T)(((T)(2 * b) - 1) * (T)((T)1 << (W<T> - 3)) + err<T>(6)));
}
template <class P> static void expect(typename P::T ph, int b, const char* m)
{
    using T = typename P::T;
    T d = (T)(ph - ((T)(2 * b) - 1) * (T)((T)1 << (W<T> - 3)));
    sym_assert((T)(d + ((T)1 << (W<T> - 6))) <= (T)((T)1 << (W<T> - 5)), m);
}
#ifdef BRFIRST
#define G(name) TFHEpp::Hom##name<BP, R::μ, KP>
#define SAMEG(name) TFHEpp::Hom##name<BP, R::μ, KP>
using In = D;
using Out = typename KP::targetP;
#else
#define G(name) TFHEpp::Hom##name<KP, BP, R::μ>
#define SAMEG G
using In = typename KP::domainP;
using Out = R;
#endif
template <class B> static void putbk(EvalKey& e, std::shared_ptr<BootstrappingKeyFFT<B>> p)
{
    if constexpr (std::is_same_v<B, lvl01param>) e.bkfftlvl01 = p;
    else if constexpr (std::is_same_v<B, lvlh1param>) e.bkfftlvlh1 = p;
    else if constexpr (std::is_same_v<B, lvl02param>) e.bkfftlvl02 = p;
    else e.bkfftlvlh2 = p;
}
template <class K> static void putks(EvalKey& e, std::shared_ptr<KeySwitchingKey<K>> p)
{
    if constexpr (std::is_same_v<K, lvl10param>) e.iksklvl10 = p;
    else if constexpr (std::is_same_v<K, lvl1hparam>) e.iksklvl1h = p;
    else if constexpr (std::is_same_v<K, lvl20param>) e.iksklvl20 = p;
    else e.iksklvl2h = p;
}
// forms that need operand and result of one type
template <class A, class B> static bool same(B& r, int& want, const TLWE<A>& ca, const TLWE<A>& cb, int a, int b, int g, const EvalKey& ek)
{
    if constexpr (std::is_same_v<TLWE<A>, B>) {
        if (g == 10) { r = ca; SAMEG(NAND)(r, r, cb, ek); want = 1 - a * b; }
        else if (g == 11) { r = cb; SAMEG(ANDNY)(r, ca, r, ek); want = (1 - a) * b; }
        else if (g == 12) { HomNOT<A>(r, ca); want = 1 - a; }
        else { HomCOPY<A>(r, ca); want = a; }
        return true;
    }
    return false;
}
extern "C" void harness()
{
    sk<D>::key = sch::key<D>("kd");
    sk<R>::key = sch::key<R>("kr");
    if constexpr (!std::is_same_v<typename KP::domainP, R>) sk<typename KP::domainP>::key = sch::key<typename KP::domainP>("kk");
    EvalKey ek;
    auto kf = std::make_shared<BootstrappingKeyFFT<BP>>();
    auto kk = std::make_shared<KeySwitchingKey<KP>>();
    BKF = kf.get(); KSK = kk.get();
    putbk<BP>(ek, kf);
    putks<KP>(ek, kk);
#if defined(PART_GATE)
    const int a = (int)sym_int(1, "x"), b = (int)sym_int(1, "y");
    auto ca = bit<In>(a), cb = bit<In>(b);
    const int g = (int)sym_concretize(sym_int(4, "gate"));
    int want = 0;
    TLWE<Out> r;
    switch (g) {
    case 0: G(NAND)(r, ca, cb, ek); want = 1 - a * b; break;
    case 1: G(NOR)(r, ca, cb, ek); want = (1 - a) * (1 - b); break;
    case 2: G(XNOR)(r, ca, cb, ek); want = 1 - (a ^ b); break;
    case 3: G(AND)(r, ca, cb, ek); want = a * b; break;
    case 4: G(OR)(r, ca, cb, ek); want = a | b; break;
    case 5: G(XOR)(r, ca, cb, ek); want = a ^ b; break;
    case 6: G(ANDNY)(r, ca, cb, ek); want = (1 - a) * b; break;
    case 7: G(ANDYN)(r, ca, cb, ek); want = a * (1 - b); break;
    case 8: G(ORNY)(r, ca, cb, ek); want = (1 - a) | b; break;
    case 9: G(ORYN)(r, ca, cb, ek); want = a | (1 - b); break;
    case 10: case 11: case 12: case 13: if (!same<In>(r, want, ca, cb, a, b, g, ek)) return; break;
    case 14: HomCONSTANTONE<Out>(r); want = 1; break;
    case 15: HomCONSTANTZERO<Out>(r); want = 0; break;
    }
    expect<Out>(sch::refphase<Out>(r, sk<Out>::key), want, "gate's output is its truth table, within the error it accepts as input");
#elif defined(PART_MUX)
    const int s = (int)sym_int(1, "s"), a = (int)sym_int(1, "x"), b = (int)sym_int(1, "y");
    auto cs = bit<In>(s), c1 = bit<In>(a), c0 = bit<In>(b);
    const int want = s * a + (1 - s) * b;
    TLWE<In> r;
    const int v = (int)sym_concretize(sym_int(3, "form"));
    switch (v) {
    case 0: HomMUX<In>(r, cs, c1, c0, ek); expect<In>(sch::refphase<In>(r, sk<In>::key), want, "selected bit"); break;
    case 1: HomNMUX<In>(r, cs, c1, c0, ek); expect<In>(sch::refphase<In>(r, sk<In>::key), 1 - want, "negated selected bit"); break;
    case 2: { auto t = cs; HomMUX<In>(t, t, c1, c0, ek); expect<In>(sch::refphase<In>(t, sk<In>::key), want, "selected bit, result over the selector"); break; }
    case 3: { auto t = c1; HomMUX<In>(t, cs, t, c0, ek); expect<In>(sch::refphase<In>(t, sk<In>::key), want, "selected bit, result over the first input"); break; }
    case 4: { auto t = c0; HomMUX<In>(t, cs, c1, t, ek); expect<In>(sch::refphase<In>(t, sk<In>::key), want, "selected bit, result over the second input"); break; }
    default: return;
    }
#elif defined(PART_MUXSE)
    const int s = (int)sym_int(1, "s"), a = (int)sym_int(1, "x"), b = (int)sym_int(1, "y");
    const int want = s * a + (1 - s) * b;
    TRLWE<R> r;
#if MUXSE == 0
    auto cs = bit<D>(s), c1 = bit<D>(a), c0 = bit<D>(b);
    HomMUXwoSE<BP>(r, cs, c1, c0, ek);
#elif MUXSE == 1
    using I = typename KP::domainP;
    auto cs = bit<I>(s), c1 = bit<I>(a), c0 = bit<I>(b);
    HomMUXwoSE<KP, BP>(r, cs, c1, c0, ek);
#elif MUXSE == 2
    auto cs = bit<D>(s), c1 = bit<D>(a), c0 = bit<D>(b);
    HomMUXwoIKSandSE<BP>(r, cs, c1, c0, ek);
#else
    TRLWE<lvl1param> rs[3];
    const int bits[3] = {s, a, b};
    for (int q = 0; q < 3; q++) {
        auto c = sch::rawtrlwe<lvl1param>("rc");
        c[lvl1param::k] = {};
        auto ph = sch::refphase<lvl1param>(c, sk<lvl1param>::key);
        for (uint32_t i = 0; i < lvl1param::n; i++) c[lvl1param::k][i] = i ? (uint32_t)sym_int(32, "other") : (uint32_t)(((uint32_t)(2 * bits[q]) - 1) * (1u << 29) + err<uint32_t>(6) - ph[0]);
        rs[q] = c;
    }
    ExtractSwitchAndHomMUX(r, rs[0], rs[1], rs[2], ek);
#endif
    expect<R>(sch::refphase<R>(r, sk<R>::key)[0], want, "constant coefficient is the selected bit");
#endif
    sym_reach("end");
}
