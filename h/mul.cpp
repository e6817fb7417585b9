// Products in the ring and multiplication of ring ciphertexts.
#ifndef PART_NTT
#include "scheme.hpp"
#include "bfv++.hpp"
#else
#include "sym.hpp"
#include "model.hpp"
#endif
using namespace TFHEpp;
#ifndef LVL
#define LVL lvl1param
#endif
using P = LVL;
using T = typename P::T;
#ifdef PART_NTT
static const uint64_t p = cuHEpp::P;
static uint64_t outv[P::n];
extern "C" {
uint64_t m_add(const cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { return sym_res(1, a->value, b->value, 1, p, 0, (int64_t)(p - 1), 1); }
uint64_t m_sub(const cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { return sym_res(2, a->value, b->value, 1, p, 0, (int64_t)(p - 1), 1); }
uint64_t m_mul(const cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { return sym_res(3, a->value, b->value, 1, p, 0, (int64_t)(p - 1), 1); }
cuHEpp::INTorus* m_addeq(cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { a->value = m_add(a, b); return a; }
uint64_t m_subeq(cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { a->value = m_sub(a, b); return a->value; }
uint64_t m_muleq(cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { a->value = m_mul(a, b); return a->value; }
uint64_t m_pow(const cuHEpp::INTorus* a, uint64_t e)
{
    uint64_t r = 1, b = a->value;
    for (; e; e >>= 1, b = sym_res(3, b, b, 1, p, 0, (int64_t)(p - 1), 1)) if (e & 1) r = sym_res(3, r, b, 1, p, 0, (int64_t)(p - 1), 1);
    return r;
}
uint64_t m_shl(const cuHEpp::INTorus* a, uint32_t l)
{
    uint64_t c = 1;
    for (uint32_t i = 0; i < l; i++) c = (uint64_t)(((unsigned __int128)c * 2) % p);
    return sym_res(0, a->value, 0, c, p, 0, (int64_t)(p - 1), 1);
}
// conversion of torus words: any residue stands for the converted word
void m_inv_sw(uint64_t* res, const T* a, const uint64_t* twist)
{
    for (uint32_t i = 0; i < P::n; i++) res[i] = sym_res(3, (uint64_t)a[i], twist[i], 1, p, 0, (int64_t)(p - 1), 1);
}
void m_dir_sw(T* res, const uint64_t* a, const uint64_t* twist)
{
    uint64_t in = 1;
    for (uint32_t i = 0; i < P::nbit; i++) in = (in & 1 ? (uint64_t)(((unsigned __int128)in + p) >> 1) : in >> 1);
    for (uint32_t i = 0; i < P::n; i++) {
        outv[i] = sym_res(0, sym_res(3, a[i], twist[i], 1, p, 0, (int64_t)(p - 1), 1), 0, in, p, 0, (int64_t)(p - 1), 1);
        res[i] = 77;
    }
}
}
#endif
typedef __int128 I;
constexpr unsigned W = std::numeric_limits<T>::digits;
#ifdef PART_TLWE
static PrivateKeySwitchingKey<lvl11param> ksk;
static TLWE<P> ta, tb;
static TRLWE<P> ra, rb;
static int seen;
extern "C" void m_priv(TRLWE<P>& res, const TLWE<P>& in, const PrivateKeySwitchingKey<lvl11param>& key)
{
    SYM_ASSERT(&key == &ksk, "the caller's key");
    const bool first = sym_concretize(in[0]) == 0x12345678;
    const TLWE<P>& w = first ? ta : tb;
    for (uint32_t i = 0; i <= P::k * P::n; i++) sym_eq<T>(in[i], w[i], "an operand");
    seen |= first ? 1 : 2;
    res = first ? ra : rb;
}
#endif
template <class R> static std::array<I, R::n> wide(const Polynomial<R>& a, const Polynomial<R>& b)
{
    std::array<I, R::n> r;
    for (uint32_t i = 0; i < R::n; i++) {
        r[i] = 0;
        for (uint32_t j = 0; j < R::n; j++) {
            const I t = (I)a[j] * (I)b[(i + R::n - j) % R::n];
            if (j <= i) r[i] += t; else r[i] -= t;
        }
    }
    return r;
}
extern "C" void harness()
{
#if defined(PART_NTT)
    static Polynomial<P> a, b, r;
    for (auto& x : a) x = sym<T>("a");
    for (auto& x : b) x = sym<T>("b");
    const auto a0 = a, b0 = b;
#ifdef INPLACE
    PolyMul<P>(a, a, b); r = a;
#else
    PolyMul<P>(r, a, b);
    for (uint32_t i = 0; i < P::n; i++) SYM_ASSERT(a[i] == a0[i], "operand unchanged");
#endif
    for (uint32_t i = 0; i < P::n; i++) {
        SYM_ASSERT(r[i] == 77, "converted back");
        uint64_t w = 0;
        for (uint32_t j = 0; j < P::n; j++) {
            const uint64_t z = sym_res(3, a0[j], b0[(i + P::n - j) % P::n], 1, p, 0, (int64_t)(p - 1), 1);
            w = sym_res(j <= i ? 1 : 2, w, z, 1, p, 0, (int64_t)(p - 1), 1);
        }
        sym_assert_cong(outv[i], w, p, 1, "negacyclic product");
    }
#elif defined(PART_MUL)
    auto a = sch::poly<P>("a"), b = sch::poly<P>("b");
    const auto w = sch::refmul<P>(a, b);
    Polynomial<P> r;
    PolyMulNaive<P>(r, a, b);
    sch::eqpoly<P>(r, w, "schoolbook product");
#ifndef NAIVE
    PolyMul<P>(r, a, b);
    sch::eqpoly<P>(r, w, "product");
    r = a; PolyMul<P>(r, r, b);
    sch::eqpoly<P>(r, w, "product written over the first factor");
    r = b; PolyMul<P>(r, a, r);
    sch::eqpoly<P>(r, w, "product written over the second factor");
    r = a; PolyMul<P>(r, r, r);
    sch::eqpoly<P>(r, sch::refmul<P>(a, a), "square in place");
#elif !defined(NOPOLYMUL)
    PolyMul<P>(r, a, b);
    sch::eqpoly<P>(r, w, "product");
#endif
#elif defined(PART_FD)
    auto a = sch::poly<P>("a"), b = sch::poly<P>("b"), c = sch::poly<P>("c");
    PolynomialInFD<P> fa, fb, fc, fr;
    TwistIFFT<P>(fa, a); TwistIFFT<P>(fb, b); TwistIFFT<P>(fc, c);
    Polynomial<P> r;
    auto ab = sch::refmul<P>(a, b);
    fr = fa; MulInFD<P::n>(fr, fb); TwistFFT<P>(r, fr);
    sch::eqpoly<P>(r, ab, "pointwise product in place");
    MulInFD<P::n>(fr, fa, fb); TwistFFT<P>(r, fr);
    sch::eqpoly<P>(r, ab, "pointwise product");
    fr = fc; FMAInFD<P::n>(fr, fa, fb); TwistFFT<P>(r, fr);
    for (uint32_t i = 0; i < P::n; i++) ab[i] = (T)(ab[i] + c[i]);
    sch::eqpoly<P>(r, ab, "pointwise product added");
    TwistFFT<P>(r, fa); sch::eqpoly<P>(r, a, "first factor unchanged");
    TwistFFT<P>(r, fb); sch::eqpoly<P>(r, b, "second factor unchanged");
#elif defined(PART_RESCALE)
    const auto a = sch::poly<P>("a"), b = sch::poly<P>("b");
    const auto w = wide<P>(a, b);
    Polynomial<P> r;
#ifdef NAIVE
    PolyMulNaieveRescaleUnsigned<P>(r, a, b);
    for (uint32_t i = 0; i < P::n; i++) sym_eq_exact<T>(r[i], (T)(w[i] >> 29), "scaled schoolbook product");
#else
    PolyMulRescaleUnsigned<P>(r, a, b);
    for (uint32_t i = 0; i < P::n; i++) sym_eq<T>(r[i], (T)(w[i] / (I)P::Δ), "scaled product");
#endif
#elif defined(PART_BFV)
    const auto a = sch::rawtrlwe<P>("a"), b = sch::rawtrlwe<P>("b");
    TRLWE3<P> r;
    TRLWEMultWithoutRelinerization<P>(r, a, b);
    const auto x = wide<P>(a[0], b[1]), y = wide<P>(a[1], b[0]), s = wide<P>(a[0], b[0]), t = wide<P>(a[1], b[1]);
    for (uint32_t i = 0; i < P::n; i++) {
        sym_eq<T>(r[0][i], (T)((x[i] + y[i]) / (I)P::Δ), "linear part");
        sym_eq<T>(r[1][i], (T)(t[i] / (I)P::Δ), "constant part");
        sym_eq<T>(r[2][i], (T)(s[i] / (I)P::Δ), "quadratic part");
    }
#elif defined(PART_RELIN)
    // words on the gadget's grid: the digits recompose exactly
    sch::set_grid<T>(sch::gadget_grid<P>());
    const auto k = sch::key<P>("k");
    const auto rk = relinKeyFFTgen<P>(k);
    Polynomial<P> s;
    for (uint32_t i = 0; i < P::n; i++) s[i] = k[i];
    const auto s2 = sch::refmul<P>(s, s);
    TRLWE3<P> m = {sch::poly<P>("m0"), sch::poly<P>("m1"), {}};
    for (uint32_t i = 0; i < P::n; i++) m[2][i] = SYMBOLIC2 ? sch::torus<T>("m2", sch::gadget_grid<P>()) : (T)((i * 2 + 1) * 0x35a7b1c3u + 0x1357u) >> sch::gadget_grid<P>() << sch::gadget_grid<P>();
    TRLWE<P> r, q;
    Relinearization<P>(r, m, rk);
    relinKeySwitch<P>(q, m[2], rk);
    const auto u = sch::refmul<P>(m[0], s), v = sch::refmul<P>(m[2], s2);
    const auto pr = sch::refphase<P>(r, k), pq = sch::refphase<P>(q, k);
    for (uint32_t i = 0; i < P::n; i++) {
        sym_eq<T>(pq[i], v[i], "key switched quadratic term has the phase c2*s^2");
        sym_eq<T>(pr[i], (T)(m[1][i] - u[i] + v[i]), "phase is the quadratic's value at the secret");
    }
#elif defined(PART_COMPOSE) || defined(PART_TLWE)
    relinKeyFFT<P> rk;
    for (auto& x : rk) for (auto& y : x) { const auto q = sch::poly<P>("rk", W - 8); TwistIFFT<P>(y, q); }
    const auto a = sch::rawtrlwe<P>("a", 16), b = sch::rawtrlwe<P>("b", 16);
    TRLWE3<P> m;
    TRLWEMultWithoutRelinerization<P>(m, a, b);
    TRLWE<P> w;
    Relinearization<P>(w, m, rk);
#ifdef PART_TLWE
    using K = lvl11param;
    for (auto& x : ta) x = sym<T>("ta");
    for (auto& x : tb) x = sym<T>("tb");
    ta[0] = 0x12345678; tb[0] = 0x87654321;  // tell the operands apart
    ra = a; rb = b;
    TLWE<P> r;
    TLWEMult<K>(r, ta, tb, rk, ksk);
    SYM_ASSERT(seen == 3, "both operands are moved into the ring");
    for (uint32_t i = 0; i < P::k * P::n; i++) sym_eq<T>(r[i], i == 0 ? w[0][0] : (T)-w[0][P::n - i], "constant coefficient of the product");
    sym_eq<T>(r[P::k * P::n], w[P::k][0], "constant coefficient of the product");
#else
    TRLWE<P> r, x = a, y = b;
    TRLWEMult<P>(r, a, b, rk); TRLWEMult<P>(x, x, b, rk); TRLWEMult<P>(y, a, y, rk);
    for (uint32_t q = 0; q <= P::k; q++) { sch::eqpoly<P>(r[q], w[q], "relinearised product"); sch::eqpoly<P>(x[q], w[q], "written over the first operand"); sch::eqpoly<P>(y[q], w[q], "written over the second operand"); }
#endif
#endif
    sym_reach("end");
}
