// Scalar ciphertexts.
#include "scheme.hpp"
#ifndef LVL
#define LVL lvl1param
#endif
using P = LVL;
using T = typename P::T;
#ifdef NOISE
static T noise_sum = 0; static unsigned noises = 0;
// one noise draw: any value around the centre
extern "C" T m_noise(T center, double) { T e = (T)sym_int(sizeof(T) * 8, "e"); noise_sum = (T)(noise_sum + e); noises++; return (T)(center + e); }
#endif
extern "C" void harness()
{
    auto key = sch::key<P>("key");
    const uint32_t N = P::k * P::n;
#if defined(PART_ENC)
    T mu = sch::torus<T>("mu");
    auto c = tlweSymEncrypt<P>(mu, key);
    T ph = tlweSymPhase<P>(c, key);
    T s = 0;
    for (uint32_t i = 0; i < N; i++) s = (T)(s + c[i]);
    SYM_ASSERT(rngmodel::full == N, "one full-range draw per mask word");
    sym_eq_exact<T>(s, (T)rngmodel::sum, "mask words are the draws");
#ifdef NOISE
    SYM_ASSERT(noises == 1, "one noise draw per ciphertext");
    sym_eq_exact<T>(ph, (T)(mu + noise_sum), "phase is message plus noise");
#else
    sym_eq_exact<T>(ph, mu, "phase of a fresh encryption");
#endif
    auto d = sch::rawtlwe<P>("d");
    sym_eq_exact<T>(tlweSymPhase<P>(d, key), sch::refphase<P>(d, key), "phase of an arbitrary ciphertext");
#elif defined(PART_BIT)
    std::vector<uint8_t> m(3);
    for (auto& x : m) x = (uint8_t)sym_int(8, "m");
    auto c = bootsSymEncrypt<P>(m, key);
    SYM_ASSERT(c.size() == 3, "one ciphertext per bit");
    auto r = bootsSymDecrypt<P>(c, key);
    SYM_ASSERT(r.size() == 3, "one bit per ciphertext");
    for (int i = 0; i < 3; i++) { SYM_ASSERT(r[i] == (m[i] != 0), "decryption of an encrypted bit"); sym_eq_exact<T>(sch::refphase<P>(c[i], key), (T)(m[i] ? P::μ : -P::μ), "encoding of a bit"); }
    // any ciphertext: the bit is the sign of the phase, so noise below the encoding amplitude is removed
    auto d = sch::rawtlwe<P>("d");
    T ph = sch::refphase<P>(d, key);
    SYM_ASSERT(tlweSymDecrypt<P>(d, key) == ((std::make_signed_t<T>)ph > 0), "bit is the sign of the phase");
#elif defined(PART_INT)
    // decoding of any phase within half a step of an encoded value (noise included), no mask
    Key<P> zero = {};
    TLWE<P> c = {};
    T m = (T)sym_int(sizeof(T) * 8, "m");
#ifdef PM
    constexpr uint64_t M = PM;  // explicit modulus: the whole torus is divided
    const T step = (T)((T)1 << (std::numeric_limits<T>::digits - std::countr_zero(M)));
    sym_assume(m < (T)M);
    c[N] = (T)(m * step);
#else
    constexpr uint64_t M = P::plain_modulus;
    const T step = (T)P::Δ;
    sym_assume(m < (T)M);
    c[N] = tlweSymIntEncrypt<P>(m, zero)[N];
#endif
    T e = (T)sym_int(sizeof(T) * 8, "e");
    const T lim = (T)(step / 2 - step / 64);
    sym_assume((T)(e + lim) <= (T)(2 * lim));
    c[N] = (T)(c[N] + e);
#ifdef PM
    T d = tlweSymIntDecrypt<P, PM>(c, zero);
#else
    T d = tlweSymIntDecrypt<P>(c, zero);
#endif
    T want = (T)sym_ite(m >= (T)(M / 2), (T)(m - (T)M), m);
    SYM_ASSERT(d == want, "decoded integer");
#endif
    sym_reach("end");
}
