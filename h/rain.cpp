// Signed Montgomery arithmetic modulo the 30-bit prime and the transform built on it.
#include "sym.hpp"
#include "raintt.hpp"
using namespace raintt;
typedef __int128 i128;
static const int64_t p = P;
#ifndef PART_MUL
#define PART_MUL 1
#define NOMUL
#endif
#if !defined(PART_ARITH)
constexpr uint64_t rinv()  // 2^-32 = 2^-1 to the 32nd
{
    uint64_t r = 1;
    for (int i = 0; i < 32; i++) r = (r & 1 ? r + (uint64_t)P : r) >> 1;
    return r;
}
static constexpr uint64_t RINV = rinv();
// contracts of the reductions (established on their code by A03)
extern "C" {
static inline int64_t inr(int64_t a, int64_t lo, int64_t hi, const char* m) { sym_assert(sym_and(a >= lo, a <= hi), m); return a; }
int32_t m_pass(int32_t a, int32_t b) { return a; }
int32_t m_sredc(int64_t a) { inr(a, -((int64_t)p << 31), ((int64_t)p << 31) - 1, "argument of the reduction in range"); return (int32_t)sym_res(0, (uint64_t)a, 0, RINV, p, -p, p, 0); }
int32_t m_mulsredc(int32_t a, int32_t b)
{
    const int64_t x = a, y = b;
    // either factor below p keeps the product within the reduction's domain
    if (!sym_fork(sym_and(y >= -p, y <= p))) inr(x, -p, p, "factor of a product in range");
    return (int32_t)sym_res(3, (uint64_t)x, (uint64_t)y, RINV, p, -p, p, 0);
}
// canonical coefficients (PART_SWITCH decides the conversion on its own code)
void m_direct(uint32_t* res, const int64_t* a, const int32_t* twist)
{
    for (uint32_t i = 0; i < (1u << PART_MUL); i++) {
        inr(a[i], -p, p, "coefficient in range");
        res[i] = (uint32_t)sym_res(3, (uint64_t)a[i], (uint64_t)(int64_t)twist[i], RINV, p, 0, p, 0);
    }
}
int32_t m_addmod(int64_t a, int64_t b) { inr(a + b, -2 * p, 2 * p, "argument of the addition in range"); return (int32_t)sym_res(1, (uint64_t)a, (uint64_t)b, 1, p, -p, p, 0); }
int32_t m_submod(int64_t a, int64_t b) { inr(a - b, -2 * p, 2 * p, "argument of the subtraction in range"); return (int32_t)sym_res(2, (uint64_t)a, (uint64_t)b, 1, p, -p, p, 0); }
}
#endif
extern "C" void harness()
{
#if defined(PART_ARITH)
    SYM_ASSERT((((uint64_t)R << 0) - ((((uint64_t)1) << 32) % (uint64_t)P)) == 0, "R is 2^32");
    {
        unsigned __int128 r = 1;
        for (int i = 0; i < 32; i++) r = r * 2 % P;
        SYM_ASSERT((uint64_t)R == (uint64_t)r, "R");
        SYM_ASSERT((uint64_t)R2 == (uint64_t)(r * r % P), "R2");
        SYM_ASSERT((uint64_t)R3 == (uint64_t)(r * r % P * r % P), "R3");
        SYM_ASSERT((uint64_t)R4 == (uint64_t)(r * r % P * r % P * r % P), "R4");
        uint64_t w = W;  // W has exact order 2^shiftamount
        unsigned __int128 x = w;
        for (unsigned i = 0; i + 1 < shiftamount; i++) x = x * x % P;
        SYM_ASSERT((uint64_t)x == (uint64_t)P - 1, "order of the root of unity");
    }
    uint32_t inv = 1;
    for (int i = 0; i < 5; i++) inv *= 2 - (uint32_t)P * inv;
    SYM_ASSERT((uint32_t)(inv * (uint32_t)P) == 1, "inverse modulo the word");
    // signed reduction: 2^32 r = a - m p up to a multiple of p 2^32
    const int64_t a = (int64_t)sym_int(64, "a");
    sym_assume(sym_and(a >= -((int64_t)P << 31), a < ((int64_t)P << 31)));
#if PART_ARITH == 0
    {
        const int64_t r = SREDC(a);
        const int64_t m = (int32_t)((uint32_t)a * inv);
        const int64_t d = (int64_t)(((uint64_t)r << 32) - (uint64_t)a + (uint64_t)(m * p));
        SYM_ASSERT(sym_or(d == 0, sym_or(d == (p << 32), d == -(p << 32))), "signed reduction is exact");
        SYM_ASSERT(sym_and(r >= -p, r <= p), "signed reduction is in range");
    }
#elif PART_ARITH == 1
    {
        const uint64_t t = sym_int(64, "t");
        sym_assume(t < ((uint64_t)P << 32));
        const int64_t r = REDC(t);
        const uint64_t m = (uint32_t)(0u - (uint32_t)t * inv);
        const i128 d = ((i128)r << 32) - (i128)t - (i128)m * p;
        SYM_ASSERT(sym_or(d == 0, d == -((i128)p << 32)), "unsigned reduction is exact");
        SYM_ASSERT(sym_and(r >= 0, r <= p), "unsigned reduction is in range");
    }
#elif PART_ARITH == 2
    {
        const int64_t x = (int64_t)sym_int(64, "x"), y = (int64_t)sym_int(64, "y");
        sym_assume(sym_and(sym_and(x >= -p, x <= p), sym_and(y >= -p, y <= p)));
        const int64_t s = AddMod(x, y), d = SubMod(x, y);
        SYM_ASSERT(sym_or(s == x + y, sym_or(s == x + y - p, s == x + y + p)), "addition");
        SYM_ASSERT(sym_and(s >= -p, s <= p), "addition in range");
        SYM_ASSERT(sym_or(d == x - y, sym_or(d == x - y - p, d == x - y + p)), "subtraction");
        SYM_ASSERT(sym_and(d >= -p, d <= p), "subtraction in range");
    }
#elif PART_ARITH == 3
    {
        // products go through the reduction unchanged
        const int32_t x = (int32_t)sym_int(32, "x"), y = (int32_t)sym_int(32, "y");
        sym_assume(sym_and(sym_and(x >= -p, x <= p), sym_and(y >= -p, y <= p)));
        SYM_ASSERT(MulSREDC(x, y) == SREDC((int64_t)x * y), "signed product");
        const uint32_t u = (uint32_t)sym_int(32, "u"), v = (uint32_t)sym_int(32, "v");
        SYM_ASSERT(MulREDC(u, v) == REDC((uint64_t)u * v), "unsigned product");
        uint32_t q = 1;
        for (unsigned e = 0; e < 4; e++) {
            SYM_ASSERT(PowREDC(u, e) == q, "power");
            q = REDC((uint64_t)q * REDC((uint64_t)R2 * u));
        }
    }
#endif
#elif !defined(NOMUL)
    constexpr uint32_t NB = PART_MUL, N = 1u << NB;
    auto table = TableGen<NB>();
    auto twist = TwistGen<NB, 3>();
    static std::array<uint32_t, N> a, b, r;
#ifdef DEG
    b[DEG] = sym<uint32_t>("b");
#else
    for (auto& x : b) x = sym<uint32_t>("b");
#endif
    for (auto& x : a) x = sym<uint32_t>("a");
    PolyMullvl1<uint32_t, NB, false, false>(r, a, b, *table, *twist);
    for (uint32_t i = 0; i < N; i++) {
        uint64_t w = 0;
        for (uint32_t j = 0; j < N; j++) {
            const uint32_t bj = (i - j + N) % N;
#ifdef DEG
            if (bj != DEG) continue;
#endif
            const uint64_t z = sym_res(3, (uint64_t)(int64_t)(int32_t)a[j], (uint64_t)(int64_t)(int32_t)b[bj], 1, p, -p, p, 0);
            w = sym_res(j <= i ? 1 : 2, w, z, 1, p, -p, p, 0);
        }
        sym_assert_cong(r[i], w, p, 0, "negacyclic product");
    }
#endif
#if defined(PART_SWITCH)  // products replaced by their first factor
    std::array<uint32_t, 2> a, r;
    std::array<DoubleSWord, 2> f;
    std::array<SWord, 2> one = {1, 1};
    a[0] = sym<uint32_t>("a"); a[1] = 0;
    TwistMulInvert<uint32_t, 1, true>(f, a, one);
    int64_t d = (int64_t)(((uint64_t)f[0] << 32) - (uint64_t)a[0] * (uint64_t)p);
    SYM_ASSERT(sym_and(d <= ((int64_t)1 << 31), d >= -((int64_t)1 << 31)), "switch to p rounds to nearest");
    SYM_ASSERT(sym_and(f[0] >= 0, f[0] <= p), "switched value in range");
    TwistMulInvert<uint32_t, 1, false>(f, a, one);
    SYM_ASSERT(f[0] == (int64_t)(int32_t)a[0], "plain words are taken as signed");
    // -2 p <= r p - c 2^32 <= p for the representative c of v in [0, p); c = p is zero
    f[0] = p; f[1] = 0;
    TwistMulDirect<uint32_t, 1, true>(r, f, one);
    SYM_ASSERT(r[0] == 0, "p switches back to zero");
    // four overlapping ranges of 2^29 values cover [-p, p)
    const int64_t w = (int64_t)(uint64_t)sym_int(29, "w");
    const int64_t v = PART_SWITCH == 1 ? w : PART_SWITCH == 2 ? p - 1 - w : PART_SWITCH == 3 ? -1 - w : w - p;
    const int64_t c = PART_SWITCH < 3 ? v : v + p;
    f[0] = v;
    TwistMulDirect<uint32_t, 1, true>(r, f, one);
    const int64_t e = (int64_t)r[0] * p - (c << 32);
    SYM_ASSERT(e <= p, "switch back is within one unit (above)");
    SYM_ASSERT(e >= -2 * p, "switch back is within two units (below)");
    TwistMulDirect<uint32_t, 1, false>(r, f, one);
    SYM_ASSERT((int64_t)r[0] == c, "plain words are canonical");
#endif
    sym_reach("end");
}
