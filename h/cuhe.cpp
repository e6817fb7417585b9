// Negacyclic number-theoretic transform over the 64-bit prime field.
// The field operations are replaced by their contract (checked on their own code by A01).
#include "sym.hpp"
#include "cuhe++.hpp"
using namespace cuHEpp;
typedef unsigned long long T;  // full words, no modulus switching
static const uint64_t p = P;
extern "C" {
uint64_t m_add(const INTorus* a, const INTorus* b) { return sym_res(1, a->value, b->value, 1, p, 0, (int64_t)(p - 1), 1); }
uint64_t m_sub(const INTorus* a, const INTorus* b) { return sym_res(2, a->value, b->value, 1, p, 0, (int64_t)(p - 1), 1); }
uint64_t m_mul(const INTorus* a, const INTorus* b) { return sym_res(3, a->value, b->value, 1, p, 0, (int64_t)(p - 1), 1); }
uint64_t m_pass(const INTorus* a, const INTorus* b) { return a->value; }
INTorus* m_addeq(INTorus* a, const INTorus* b) { a->value = m_add(a, b); return a; }
uint64_t m_subeq(INTorus* a, const INTorus* b) { a->value = m_sub(a, b); return a->value; }
uint64_t m_muleq(INTorus* a, const INTorus* b) { a->value = m_mul(a, b); return a->value; }
uint64_t m_pow(const INTorus* a, uint64_t e)
{
    uint64_t r = 1, b = a->value;
    for (; e; e >>= 1, b = sym_res(3, b, b, 1, p, 0, (int64_t)(p - 1), 1)) if (e & 1) r = sym_res(3, r, b, 1, p, 0, (int64_t)(p - 1), 1);
    return r;
}
uint64_t m_shl(const INTorus* a, uint32_t l)
{
    uint64_t c = 1;
    for (uint32_t i = 0; i < l; i++) c = (uint64_t)(((unsigned __int128)c * 2) % p);
    return sym_res(0, a->value, 0, c, p, 0, (int64_t)(p - 1), 1);
}
}
extern "C" void harness()
{
#if defined(PART_RT)
    constexpr uint32_t NB = PART_RT, N = 1u << NB;
    auto table = TableGen<NB>();
    auto twist = TwistGen<NB>();
    static std::array<T, N> a, r;
    static std::array<INTorus, N> f;
    for (auto& x : a) x = sym<uint64_t>("a");
    TwistINTT<T, NB>(f, a, (*table)[1], (*twist)[1]);
    TwistNTT<T, NB>(r, f, (*table)[0], (*twist)[0]);
    for (uint32_t i = 0; i < N; i++) sym_assert_cong(r[i], a[i], p, 1, "inverse transform of the transform");
#elif defined(PART_MUL)
    constexpr uint32_t NB = PART_MUL, N = 1u << NB;
    auto table = TableGen<NB>();
    auto twist = TwistGen<NB>();
    static std::array<T, N> a, b, r;
    for (auto& x : a) x = sym<uint64_t>("a");
    for (auto& x : b) x = sym<uint64_t>("b");
    PolyMullvl1<T, NB>(r, a, b, *table, *twist);
    for (uint32_t i = 0; i < N; i++) {
        uint64_t w = 0;
        for (uint32_t j = 0; j < N; j++) {
            INTorus x(a[j], false), y(b[(i - j + N) % N], false);
            INTorus z = x * y, acc(w, false);
            w = (j <= i ? acc + z : acc - z).value;
        }
        sym_assert_cong(r[i], w, p, 1, "negacyclic product");
    }
#elif defined(PART_MONO)
    constexpr uint32_t NB = PART_MONO, N = 1u << NB;
    auto table = TableGen<NB>();
    auto twist = TwistGen<NB>();
    static std::array<T, N> a, b, r;
    for (auto& x : a) x = sym<uint64_t>("a");
    b[DEG] = sym<uint64_t>("b");
    PolyMullvl1<T, NB>(r, a, b, *table, *twist);
    INTorus beta(b[DEG], false);
    for (uint32_t i = 0; i < N; i++) {
        INTorus z = INTorus(a[(i + N - DEG) % N], false) * beta;
        if (i < DEG) z = INTorus(0) - z;
        sym_assert_cong(r[i], z.value, p, 1, "product with a monomial");
    }
#else  // modulus switching between 2^64 and p, twist factors taken as 1
    typedef __int128 i128;
    std::array<uint64_t, 2> a, r;
    std::array<INTorus, 2> f, one = {INTorus(1), INTorus(1)};
    a[0] = sym<uint64_t>("a"); a[1] = 0;
    TwistMulInvert<uint64_t, 1>(f, a, one);
    uint64_t y = f[0].value;
    SYM_ASSERT(y < p, "switched value below the modulus");
    // |y 2^64 - a p| <= 2^63
    i128 d = (i128)(((unsigned __int128)y << 64) - (unsigned __int128)a[0] * p);
    SYM_ASSERT(sym_and(d <= ((i128)1 << 63), d >= -((i128)1 << 63)), "switch to p rounds to nearest");
    f[1] = INTorus(0);
    uint64_t v = sym<uint64_t>("v");
    sym_assume(v < p);
    f[0].value = v;
    TwistMulDirect<uint64_t, 1>(r, f, one);
    d = (i128)(((unsigned __int128)r[0] - v) * 1);
    // |r p - v 2^64| <= 2p, evaluated modulo 2^128 (a wrap of r past 2^64 is a legal torus value)
    i128 e = (i128)((unsigned __int128)r[0] * p - ((unsigned __int128)v << 64));
    i128 e2 = (i128)((((unsigned __int128)1 << 64) + r[0]) * p - ((unsigned __int128)v << 64));
    SYM_ASSERT(sym_or(sym_and(e <= 2 * (i128)p, e >= -2 * (i128)p), sym_and(e2 <= 2 * (i128)p, e2 >= -2 * (i128)p)), "switch back is within two units");
#endif
    sym_reach("end");
}
