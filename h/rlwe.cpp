// Ring ciphertexts: encryption, phase, decryption, gadget products, selection.
#include "scheme.hpp"
#ifndef LVL
#define LVL lvl1param
#endif
using P = LVL;
using T = typename P::T;
extern "C" void harness()
{
    auto key = sch::key<P>("key");
#if defined(PART_ENC)
    auto mu = sch::poly<P>("mu");
    auto c = trlweSymEncrypt<P>(mu, key);
    sch::eqpoly<P>(trlwePhase<P>(c, key), mu, "phase of a fresh encryption");
    sch::eqpoly<P>(sch::refphase<P>(c, key), mu, "ciphertext is b = a*s + m");
    sch::eqpoly<P>(sch::refphase<P>(trlweSymEncryptZero<P>(key), key), Polynomial<P>{}, "encryption of zero");
    auto d = sch::rawtrlwe<P>("c");
    sch::eqpoly<P>(trlwePhase<P>(d, key), sch::refphase<P>(d, key), "phase of an arbitrary ciphertext");
    // linearity: sums of ciphertexts
    TRLWE<P> e;
    for (uint32_t k = 0; k <= P::k; k++) for (uint32_t i = 0; i < P::n; i++) e[k][i] = (T)(c[k][i] - d[k][i]);
    auto pd = trlwePhase<P>(d, key), pe = trlwePhase<P>(e, key);
    for (uint32_t i = 0; i < P::n; i++) sym_eq<T>(pe[i], (T)(mu[i] - pd[i]), "phase is linear");
#elif defined(PART_INT)
    // integers: any message, any noise below half a step, in every coefficient; no mask
    rngmodel::pinned = 2;
    const Key<P> zero = {};
    Polynomial<P> m;
    const T step = (T)P::Δ, lim = (T)(step / 2 - step / 64);
    for (auto& x : m) { x = (T)sym_int(sizeof(T) * 8, "m"); sym_assume(x < (T)P::plain_modulus); }
    TRLWE<P> c = {};
    const auto fresh = trlweSymIntEncrypt<P>(m, zero);
    for (uint32_t i = 0; i < P::n; i++) {
        T e = (T)sym_int(sizeof(T) * 8, "e");
        sym_assume((T)(e + lim) <= (T)(2 * lim));
        c[P::k][i] = (T)(fresh[P::k][i] + e);
    }
    const auto d = trlweSymIntDecrypt<P>(c, zero);
    for (uint32_t i = 0; i < P::n; i++) SYM_ASSERT(d[i] == m[i], "decoded coefficient");
#elif defined(PART_BITDEC)
    auto d = sch::rawtrlwe<P>("c");
    auto ph = trlwePhase<P>(d, key);
    auto b = trlweSymDecrypt<P>(d, key);
    for (uint32_t i = 0; i < P::n; i++) SYM_ASSERT(b[i] == ((std::make_signed_t<T>)ph[i] > 0), "bit of a ciphertext is the sign of its phase");
#elif defined(PART_EXT)
    // c of any phase on the gadget's grid, g an encryption of any polynomial
    sch::set_grid<T>(GRID);
    Polynomial<P> m;
    for (auto& x : m) x = (T)(sym_int(2, "m") - 1);
    auto c = sch::rawtrlwe<P>("c", GRID);
    auto pc = sch::refphase<P>(c, key);
    auto g = trgswSymEncrypt<P>(m, key);
    auto want = sch::refmul<P>(pc, m);
    TRLWE<P> r;
    auto gf = ApplyFFT2trgsw<P>(g);
    trgswfftExternalProduct<P>(r, c, gf);
    sch::eqpoly<P>(sch::refphase<P>(r, key), want, "product with an encrypted polynomial");
    auto r2 = c;
    trgswfftExternalProduct<P>(r2, r2, gf);  // result over its own operand
    sch::eqpoly<P>(r2[0], r[0], "in-place product"); sch::eqpoly<P>(r2[P::k], r[P::k], "in-place product");
#elif defined(PART_HALF)
    sch::set_grid<T>(GRID);
    Polynomial<P> m;
    for (auto& x : m) x = (T)(sym_int(2, "m") - 1);
    auto q = sch::poly<P>("q", GRID);
    auto g = halftrgswfftSymEncrypt<P>(m, key);
    TRLWE<P> r;
    halftrgswfftExternalProduct<P>(r, q, g);
    sch::eqpoly<P>(sch::refphase<P>(r, key), sch::refmul<P>(q, m), "product of a plain polynomial with an encrypted one");
#elif defined(PART_GSW)
    sch::set_grid<T>(GRID);
    Polynomial<P> m;
    for (auto& x : m) x = (T)(sym_int(2, "m") - 1);
    auto g = trgswSymEncrypt<P>(m, key);
    for (uint32_t k = 0; k <= P::k; k++)
        for (uint32_t i = 0; i < P::l; i++) {
            Polynomial<P> unit = {}, w;
            const T h = (T)((T)1 << (std::numeric_limits<T>::digits - (i + 1) * P::Bgbit));
            for (uint32_t j = 0; j < P::n; j++) w[j] = (T)(m[j] * h);
            if (k < P::k) {
                Polynomial<P> s;
                for (uint32_t j = 0; j < P::n; j++) s[j] = key[k * P::n + j];
                w = sch::refmul<P>(w, s);
                for (auto& x : w) x = (T)-x;
            }
            sch::eqpoly<P>(sch::refphase<P>(g[i + k * P::l], key), w, "gadget row");
        }
#elif defined(PART_CMUX)
    sch::set_grid<T>(GRID);
    T b = (T)sym_int(1, "b");
    Polynomial<P> m = {};
    m[0] = b;
    auto g = trgswfftSymEncrypt<P>(m, key);
    auto c1 = sch::rawtrlwe<P>("c1", GRID), c0 = sch::rawtrlwe<P>("c0", GRID);
    auto p1 = sch::refphase<P>(c1, key), p0 = sch::refphase<P>(c0, key);
    TRLWE<P> r;
    CMUXFFT<P>(r, g, c1, c0);
    auto pr = sch::refphase<P>(r, key);
    for (uint32_t i = 0; i < P::n; i++) sym_eq<T>(pr[i], (T)(b * p1[i] + (T)(1 - b) * p0[i]), "selection");
    // result over the first branch
    auto r1 = c1;
    CMUXFFT<P>(r1, g, r1, c0);
    for (uint32_t k = 0; k <= P::k; k++) sch::eqpoly<P>(r1[k], r[k], "result written over the selected branch");
#elif defined(PART_ROT)
    // acc <- acc * X^(a*b) for an encrypted bit b
    using bk = BKP;
    sch::set_grid<T>(GRID);
    T b = (T)sym_int(1, "b");
    Polynomial<P> m = {};
    m[0] = b;
    auto acc = sch::rawtrlwe<P>("acc", GRID);
    auto pa = sch::refphase<P>(acc, key);
    BootstrappingKeyElementFFT<bk> g;
    g[0] = trgswfftSymEncrypt<P>(m, key);
    uint64_t a = sym_concretize(sym_int(16, "a") & (2 * P::n - 1));
    CMUXFFTwithPolynomialMulByXaiMinusOne<bk>(acc, g, (int)a);
    auto pr = sch::refphase<P>(acc, key);
    auto w = sch::refrot<P>(pa, a);
    for (uint32_t i = 0; i < P::n; i++) sym_eq<T>(pr[i], (T)(b * w[i] + (T)(1 - b) * pa[i]), "rotation selected by an encrypted bit");
#elif defined(PART_ROTT)
    // acc <- acc * X^(a*s) for an encrypted s of -1, 0, 1 (one indicator ciphertext per nonzero value)
    using bk = BKP;
    static_assert(bk::domainP::key_value_min == -1 && bk::domainP::key_value_max == 1);
    sch::set_grid<T>(GRID);
    const int s = (int)sym_concretize(sym_int(2, "s") % 3) - 1;
    auto acc = sch::rawtrlwe<P>("acc", GRID);
    auto pa = sch::refphase<P>(acc, key);
    BootstrappingKeyElementFFT<bk> g;
    int c = 0;
    for (int v : {-1, 1}) {
        Polynomial<P> m = {};
        m[0] = s == v;
        g[c++] = trgswfftSymEncrypt<P>(m, key);
    }
    uint64_t a = sym_concretize(sym_int(16, "a") & (2 * P::n - 1));
    CMUXFFTwithPolynomialMulByXaiMinusOne<bk>(acc, g, (int)a);
    auto pr = sch::refphase<P>(acc, key);
    auto w = sch::refrot<P>(pa, (a * (uint64_t)(s + (int)(2 * P::n))) % (2 * P::n));
    for (uint32_t i = 0; i < P::n; i++) sym_eq<T>(pr[i], w[i], "rotation by an encrypted ternary digit");
#endif
    sym_reach("end");
}
