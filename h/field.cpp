// Arithmetic of the 64-bit prime field (p = 2^64 - 2^32 + 1).
#include "sym.hpp"
#include "INTorus.hpp"
using namespace cuHEpp;
typedef unsigned __int128 u128;
typedef __int128 i128;
static const i128 p = ((i128)1 << 64) - ((i128)1 << 32) + 1;
static INTorus elem(const char* n)
{
    uint64_t v = sym<uint64_t>(n);
    sym_assume(v < (uint64_t)p);
    return INTorus(v, false);
}
// r is the canonical representative of the integer s, -p (-2p for shifts) <= s < 3p
typedef signed _BitInt(72) I72;
__attribute__((always_inline)) static inline void canon(uint64_t r, I72 s, const char* m)
{
    const I72 q = (I72)p;
    s = s < 0 ? (I72)(s + q) : s;
#ifdef LO
    s = s < 0 ? (I72)(s + q) : s;
#endif
    s = s >= q ? (I72)(s - q) : s;
    s = s >= q ? (I72)(s - q) : s;
    SYM_ASSERT(r == (uint64_t)s, m);
}
// small residue of w0 + w1 2^32 + w2 2^64 + w3 2^96 + ... + w7 2^224 modulo p
__attribute__((always_inline)) static inline I72 fold(const uint64_t* w, int n)
{
    // 2^64 = 2^32 - 1, 2^96 = -1, 2^128 = -2^32, 2^160 = 1 - 2^32, 2^192 = 1, 2^224 = 2^32
    const I72 c[8] = {1, (I72)1 << 32, ((I72)1 << 32) - 1, -1, -((I72)1 << 32), 1 - ((I72)1 << 32), 1, (I72)1 << 32};
    I72 s = 0;
    for (int i = 0; i < n; i++) s += (I72)w[i] * c[i];
    return s;
}
extern "C" void harness()
{
    // the folding constants used by the reference
    {
        i128 t = 1;
        const i128 c[8] = {1, (i128)1 << 32, ((i128)1 << 32) - 1, -1, -((i128)1 << 32), 1 - ((i128)1 << 32), 1, (i128)1 << 32};
        for (int i = 0; i < 8; i++) { SYM_ASSERT(((t - c[i]) % p) == 0, "folding constant"); t = (t * (((i128)1) << 32)) % p; }
    }
    SYM_ASSERT((i128)P == p, "modulus");
#if defined(PART_ADD)
    INTorus a = elem("a"), b = elem("b");
    canon((a + b).value, (I72)a.value + b.value, "addition");
    canon((a - b).value, (I72)a.value - b.value, "subtraction");
    INTorus c = a; c += b; canon(c.value, (I72)a.value + b.value, "in-place addition");
    INTorus d = a; d -= b; canon(d.value, (I72)a.value - b.value, "in-place subtraction");
    uint64_t raw = sym<uint64_t>("raw");
    canon(INTorus(raw).value, (I72)raw, "reduction of a raw word");
    SYM_ASSERT(INTorus().value == 0, "default value");
#elif defined(PART_MUL)
    INTorus a = elem("a"), b = elem("b");
    u128 t = (u128)a.value * b.value;
    sym_assume(t <= (u128)(p - 1) * (u128)(p - 1));  // a, b < p
    uint64_t w[4] = {(uint32_t)t, (uint32_t)(t >> 32), (uint32_t)(t >> 64), (uint32_t)(t >> 96)};
    I72 s = fold(w, 4);
    INTorus r = a * b;
    canon(r.value, s, "multiplication");
    INTorus c = a; c *= b;
    SYM_ASSERT(c.value == r.value, "in-place multiplication");
#elif defined(PART_POW)
    INTorus a = elem("a");
    INTorus want(1, false);
    for (int e = 0; e < 6; e++) { SYM_ASSERT(a.Pow(e).value == want.value, "power"); want = want * a; }
    for (int n = 1; n < 32; n++) {
        INTorus i = InvPow2(n);
        SYM_ASSERT((i << n).value == 1, "inverse of a power of two");
        SYM_ASSERT((i * INTorus(1ull << n)).value == 1, "inverse of a power of two (product)");
    }
#else
    // shifts: one path per amount
    uint32_t l = (uint32_t)sym_int(8, "l");
    sym_assume(sym_and(l >= LO, l < HI));
    l = (uint32_t)sym_concretize(l);
    INTorus a = elem("a");
    // a * 2^l as 32-bit words
    uint64_t w[8] = {};
    int q = l / 32, r = l % 32;
    u128 t = (u128)a.value << r;
    w[q] = (uint32_t)t; w[q + 1] = (uint32_t)(t >> 32); w[q + 2] = (uint32_t)(t >> 64);
    canon((a << l).value, fold(w, 8), "shift");
#endif
    sym_reach("end");
}
