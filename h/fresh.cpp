// Every mask word and every noise value of a fresh ciphertext or key element is drawn for it alone.
// Draws return their number, so a word tells which draw it is; keys and messages are arbitrary.
#include "scheme.hpp"
using namespace TFHEpp;
template <class T> constexpr unsigned W = std::numeric_limits<T>::digits;
static uint64_t noises;
static double want_sd;
static uint64_t gauss(uint64_t center, double sd)
{
    SYM_ASSERT(sd == want_sd, "noise has the level's deviation (or the one asked for)");
    return center + ++noises;
}
extern "C" uint16_t m_g16(uint16_t c, double s) { return (uint16_t)gauss(c, s); }
extern "C" uint32_t m_g32(uint32_t c, double s) { return (uint32_t)gauss(c, s); }
extern "C" uint64_t m_g64(uint64_t c, double s) { return gauss(c, s); }
static bool seen_n[1 << 16], seen_m[1 << 16];
template <class T> constexpr unsigned G = sizeof(T) == 2 ? 0 : sizeof(T) == 4 ? 14 : 28;
template <class T> static void mask(T x)
{
    const T t = (T)(x >> G<T>);
    SYM_ASSERT((T)(t << G<T>) == x && t >= 1 && t <= rngmodel::draws, "mask word is a draw");
    SYM_ASSERT(!seen_m[t], "mask word is drawn for this ciphertext alone");
    seen_m[t] = true;
}
template <class T> static void noise(T x)
{
    SYM_ASSERT(x >= 1 && x <= noises, "phase is the message plus a noise draw");
    SYM_ASSERT(!seen_n[x], "noise is drawn for this word alone");
    seen_n[x] = true;
}
template <class R> static void scalar(const TLWE<R>& c, typename R::T m, const Key<R>& k)
{
    for (uint32_t i = 0; i < R::k * R::n; i++) mask(c[i]);
    noise((typename R::T)(sch::refphase<R>(c, k) - m));
}
// at: block whose first word carries mask's gadget term (none: R::k + 1)
template <class R> static void ring(TRLWE<R> c, const Polynomial<R>& m, const Key<R>& k)
{
    for (uint32_t a = 0; a < R::k; a++) for (uint32_t i = 0; i < R::n; i++) mask(c[a][i]);
    auto ph = sch::refphase<R>(c, k);
    for (uint32_t i = 0; i < R::n; i++) noise((typename R::T)(ph[i] - m[i]));
}
template <class R> constexpr typename R::T gad(uint32_t i) { return (typename R::T)((typename R::T)1 << (W<typename R::T> - (i + 1) * R::Bgbit)); }
template <class R> static void gadget(TRGSW<R> g, const Polynomial<R>& p, const Key<R>& k)
{
    using T = typename R::T;
    for (uint32_t b = 0; b <= R::k; b++)
        for (uint32_t i = 0; i < R::l; i++) {
            auto& c = g[b * R::l + i];
            for (uint32_t j = 0; j < R::n; j++) c[b][j] = (T)(c[b][j] - (T)(p[j] * gad<R>(i)));
            ring<R>(c, Polynomial<R>{}, k);
        }
}
template <class R> static TRGSW<R> back(const TRGSWFFT<R>& f)
{
    TRGSW<R> g;
    for (uint32_t i = 0; i < (R::k + 1) * R::l; i++) for (uint32_t k = 0; k <= R::k; k++) TwistFFT<R>(g[i][k], f[i][k]);
    return g;
}
template <class R> static HalfTRGSW<R> halfback(const HalfTRGSWFFT<R>& f)
{
    HalfTRGSW<R> g;
    for (uint32_t i = 0; i < R::l; i++) for (uint32_t k = 0; k <= R::k; k++) TwistFFT<R>(g[i][k], f[i][k]);
    return g;
}
template <class R> static void half(const HalfTRGSW<R>& h, const Polynomial<R>& s, const Key<R>& k)
{
    using T = typename R::T;
    for (uint32_t i = 0; i < R::l; i++) { Polynomial<R> e; for (uint32_t j = 0; j < R::n; j++) e[j] = (T)(s[j] * gad<R>(i)); ring<R>(h[i], e, k); }
}
extern "C" void harness()
{
    rngmodel::pinned = 3;
    sch::set_grid<uint32_t>(14); sch::set_grid<uint64_t>(28);
#if defined(PART_ENC)
    using R = LV; using T = R::T;
    auto k = sch::key<R>("k");
    want_sd = R::α;
    for (int q = 0; q < 2; q++) {
        T m = (T)sym_int(W<T>, "m");
        if (q) { want_sd = 0.25; scalar<R>(tlweSymEncrypt<R>(m, want_sd, k), m, k); want_sd = R::α; } else scalar<R>(tlweSymEncrypt<R>(m, k), m, k);
#ifdef RING
        auto p = sch::poly<R>("p", G<T>);
        auto s = sch::poly<R>("s", W<T> - 2); for (auto& x : s) x = (T)(x >> (W<T> - 2));
        Polynomial<R> z = {};
        if (q) {
            want_sd = 0.125;
            ring<R>(trlweSymEncryptZero<R>(want_sd, k), z, k); ring<R>(trlweSymEncrypt<R>(p, want_sd, k), p, k);
            gadget<R>(trgswSymEncrypt<R>(s, want_sd, k), s, k);
            gadget<R>(back<R>(trgswfftSymEncrypt<R>(s, want_sd, k)), s, k);
            half<R>(halftrgswSymEncrypt<R>(s, want_sd, k), s, k);
            half<R>(halfback<R>(halftrgswfftSymEncrypt<R>(s, want_sd, k)), s, k);
            want_sd = R::α;
        }
        else {
            ring<R>(trlweSymEncryptZero<R>(k), z, k); ring<R>(trlweSymEncrypt<R>(p, k), p, k);
            gadget<R>(trgswSymEncrypt<R>(s, k), s, k);
            gadget<R>(back<R>(trgswfftSymEncrypt<R>(s, k)), s, k);
            half<R>(halftrgswSymEncrypt<R>(s, k), s, k);
            half<R>(halfback<R>(halftrgswfftSymEncrypt<R>(s, k)), s, k);
        }
#endif
    }
#elif defined(PART_KEY)
    using K = KS; using D = K::domainP; using R = K::targetP; using TR = R::T;
    auto kd = sch::key<D>("kd"); auto kr = std::is_same_v<D, R> ? *(Key<R>*)&kd : sch::key<R>("kr");
    want_sd = R::α;
    auto step = [](uint32_t j) { return (TR)((TR)1 << (W<TR> - (j + 1) * K::basebit)); };
#if KIND == 0
    static KeySwitchingKey<K> ksk;
    ikskgen<K>(ksk, kd, kr);
    for (uint32_t i = 0; i < D::k * D::n; i++) for (uint32_t j = 0; j < K::t; j++) for (uint32_t u = 0; u < ksk[i][j].size(); u++) scalar<R>(ksk[i][j][u], (TR)((TR)((TR)kd[i] * (TR)(u + 1)) * step(j)), kr);
#elif KIND == 1
    static SubsetKeySwitchingKey<K> ksk;
    subikskgen<K>(ksk, kd);
    for (uint32_t i = 0; i < R::k * R::n; i++) kr[i] = (TR)kd[i];
    for (uint32_t i = 0; i < ksk.size(); i++) for (uint32_t j = 0; j < K::t; j++) for (uint32_t u = 0; u < ksk[i][j].size(); u++) scalar<R>(ksk[i][j][u], (TR)((TR)((TR)kd[R::k * R::n + i] * (TR)(u + 1)) * step(j)), kr);
#elif KIND == 2 || KIND == 3
    auto f = sch::poly<R>("f");
#if KIND == 2
    static PrivateKeySwitchingKey<K> ksk;
    privkskgen<K>(ksk, f, kd, kr);
    constexpr uint32_t N = D::k * D::n;
#else
    static SubsetPrivateKeySwitchingKey<K> ksk;
    subprivkskgen<K>(ksk, f, kd, kr);
    constexpr uint32_t N = R::k * R::n;
#endif
    for (uint32_t i = 0; i <= N; i++) for (uint32_t j = 0; j < K::t; j++) for (uint32_t u = 0; u < ksk[i][j].size(); u++) {
        Polynomial<R> m;
        for (uint32_t q = 0; q < R::n; q++) m[q] = (TR)((TR)((TR)((TR)(u + 1) * f[q]) * (i == N ? (TR)-1 : (TR)kd[i])) * step(j));
        ring<R>(ksk[i][j][u], m, kr);
    }
#else
    static TLWE2TRLWEIKSKey<K> ksk;
    tlwe2trlweikskgen<K>(ksk, kd, kr);
    for (uint32_t i = 0; i < D::k * D::n; i++) for (uint32_t j = 0; j < K::t; j++) for (uint32_t u = 0; u < ksk[i][j].size(); u++) { Polynomial<R> m = {}; m[0] = (TR)((TR)((TR)kd[i] * (TR)(u + 1)) * step(j)); ring<R>(ksk[i][j][u], m, kr); }
#endif
#elif defined(PART_BK)
    using B = BP; using D = B::domainP; using R = B::targetP; using T = R::T;
    auto kd = sch::key<D>("kd"); auto kr = sch::key<R>("kr");
    want_sd = R::α;
    static BootstrappingKey<B> bk; static BootstrappingKeyFFT<B> bkfft;
    bkgen<B>(bk, kd, kr); bkfftgen<B>(bkfft, kd, kr);
    for (uint32_t i = 0; i < D::k * D::n; i++) {
        int c = 0;
        for (int v = D::key_value_min; v <= (int)D::key_value_max; v++) if (v) {
            Polynomial<R> p = {};
            p[0] = D::key_value_min == 0 ? (T)kd[i] : (T)sym_ite(kd[i] == (D::T)v, 1, 0);
            gadget<R>(bk[i][c], p, kr); gadget<R>(back<R>(bkfft[i][c]), p, kr);
            c++;
        }
    }
#elif defined(PART_AUTO)
    using R = LV; using T = R::T;
    auto k = sch::key<R>("k");
    want_sd = R::α;
    static AnnihilateKey<R> ahk;
    annihilatekeygen<R>(ahk, k);
    for (uint32_t s = 0; s < R::nbit; s++) for (uint32_t a = 0; a < R::k; a++) for (uint32_t i = 0; i < R::l; i++) {
        TRLWE<R> c;
        for (uint32_t b = 0; b <= R::k; b++) TwistFFT<R>(c[b], ahk[s][a][i][b]);
        Polynomial<R> part;
        for (uint32_t j = 0; j < R::n; j++) part[j] = k[a * R::n + j];
        auto m = sch::refauto<R>(part, (1u << (R::nbit - s)) + 1);
        for (auto& x : m) x = (T)(x * gad<R>(i));
        ring<R>(c, m, k);
    }
    auto rk = relinKeygen<R>(k);
    Polynomial<R> part;
    for (uint32_t j = 0; j < R::n; j++) part[j] = k[j];
    auto sq = sch::refmul<R>(part, part);
    for (uint32_t i = 0; i < R::l; i++) { auto m = sq; for (auto& x : m) x = (T)(x * gad<R>(i)); ring<R>(rk[i], m, k); }
#endif
    sym_reach("end");
}
