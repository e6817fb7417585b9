// Parallel loops: every iteration is a thread of its own (see ompCall in the executor);
// two iterations touching the same byte, one of them writing, is a violation.  The loops
// run in either order and their results are compared with the sequential meaning.
#define PARLOOP
#include "scheme.hpp"
using namespace TFHEpp;
#if defined(PART_RAINTT)
using RP = BR::targetP;
extern "C" {
// encryption hands out its plaintext and draws from the generator
void m_enc(TRGSW<RP>* out, const Polynomial<RP>* q, double, const Key<RP>*)
{
    for (auto& r : *out) for (auto& c : r) for (uint32_t i = 0; i < RP::n; i++) c[i] = (*q)[i];
    RNG_TOUCH(generator);
}
void m_apply(raintt::DoubleSWord* out, const TRGSW<RP>* in) { for (auto& r : *in) for (auto& c : r) for (auto x : c) *out++ = (raintt::DoubleSWord)x; }
}
#endif
#if defined(PART_HOM)
extern "C" {
void m_boot(TLWE<lvl1param>* r, const TLWE<lvlhalfparam>*, const void*, const void*) { *r = {}; }
void m_iks2(TLWE<lvlhalfparam>* r, const TLWE<lvl1param>*, const void*) { *r = {}; }
}
#endif
extern "C" void harness()
{
#if defined(PART_BITS)
    using P = LVL; using T = P::T;
    auto key = sch::key<P>("key");
    std::vector<uint8_t> m(NB);
    for (auto& x : m) x = (uint8_t)sym_int(8, "m");
    auto c = bootsSymEncrypt<P>(m, key);
    SYM_ASSERT(c.size() == NB, "one ciphertext per bit");
    for (int i = 0; i < NB; i++) sym_eq_exact<T>(sch::refphase<P>(c[i], key), (T)(m[i] ? P::μ : -P::μ), "every order: encoding of a bit");
    auto r = bootsSymDecrypt<P>(c, key);
    SYM_ASSERT(r.size() == NB, "one bit per ciphertext");
    for (int i = 0; i < NB; i++) SYM_ASSERT(r[i] == (m[i] != 0), "every order: decryption of an encrypted bit");
#elif defined(PART_RAINTT)
    using P = BR; using D = P::domainP; using R = P::targetP;
    static BootstrappingKeyRAINTT<P> bk;
    auto dk = sch::key<D>("dkey"); auto tk = sch::key<R>("tkey");
    bkrainttgen<P>(bk, dk, tk);
    for (uint32_t i = 0; i < D::k * D::n; i++)
        for (auto& r : bk[i]) for (auto& c : r) for (uint32_t j = 0; j < R::n; j++)
            sym_eq_exact<uint64_t>((uint64_t)c[j], j == 0 ? (uint64_t)(raintt::DoubleSWord)(typename R::T)dk[i] : 0, "every order: element encrypts its key word");
#elif defined(PART_PRIV)
    using P = KS; using D = P::domainP; using R = P::targetP; using T = R::T;
    auto dk = sch::key<D>("dkey"); auto tk = sch::key<R>("tkey");
    auto f = sch::poly<R>("f");
    constexpr uint32_t digits = std::numeric_limits<T>::digits;
#ifdef SUBSET
    static SubsetPrivateKeySwitchingKey<P> k;
    subprivkskgen<P>(k, f, dk, tk);
    constexpr uint32_t rows = R::k * R::n, us = (1u << P::basebit) - 1;
#else
    static PrivateKeySwitchingKey<P> k;
    privkskgen<P>(k, f, dk, tk);
    constexpr uint32_t rows = D::k * D::n, us = 1u << (P::basebit - 1);
#endif
    for (uint32_t i = 0; i <= rows; i++)
        for (uint32_t j = 0; j < P::t; j++)
            for (uint32_t u = 0; u < us; u++) {
                auto ph = sch::refphase<R>(k[i][j][u], tk);
                const T kv = i == rows ? (T)-1 : (T)(typename D::T)dk[i];
                for (uint32_t q = 0; q < R::n; q++) sym_eq_exact<T>(ph[q], (T)((T)((T)((T)(u + 1) * f[q]) * kv) << (digits - (j + 1) * P::basebit)), "every order: entry of a private switching key");
            }
#elif defined(PART_HOM)
    using P = lvl31param; using D = P::domainP; using R = P::targetP; using T = R::T;
    constexpr uint basebit = 2, nd = 3;
    static KeySwitchingKey<P> ks; static KeySwitchingKey<lvl1hparam> ks2; static BootstrappingKeyFFT<lvlh1param> bk;
    auto dk = sch::key<D>("dkey"); auto rk = sch::key<R>("rkey");
    ikskgen<P>(ks, dk, rk);
    TLWE<D> c;  // the masks are fixed (key switching branches on their digits), the body is arbitrary
    { uint64_t x = 0x9e3779b97f4a7c15u; for (auto& v : c) { x = x * 6364136223846793005u + 1442695040888963407u; v = x; } }
    c[D::k * D::n] = sym<D::T>("body");
    std::array<TLWE<R>, nd> out;
    HomDecomp<P, lvl1hparam, lvlh1param, basebit, nd>(out, c, ks, ks2, bk);
    for (uint d = 1; d <= nd; d++) {
        TLWE<D> s; TLWE<R> want;
        for (uint32_t i = 0; i <= D::k * D::n; i++) s[i] = c[i] << (basebit * nd - basebit * d);
        IdentityKeySwitch<P>(want, s, ks);
        if (d > 1) want[R::k * R::n] -= (T)1 << (std::numeric_limits<T>::digits - basebit - 1);
        for (uint32_t i = 0; i <= R::k * R::n; i++) sym_eq_exact<T>(out[d - 1][i], want[i], "every order: digit before correction");
    }
#endif
    sym_reach("end");
}
