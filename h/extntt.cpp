// Gadget products over the two prime fields.  Decomposition hands out arbitrary digit words (B01 decides the real
// digits); field operations are replaced by their contracts (A01, A03), torus/residue conversions by the identity
// (A02, A03 decide them); transforms, twists and accumulation are the real code.
#include "sym.hpp"
#include "model.hpp"
using namespace TFHEpp;
#ifndef LVL
#define LVL lvl1param
#endif
using P = LVL;
using T = typename P::T;
constexpr uint32_t ROWS = (P::k + 1) * P::l;
static T dig[P::k + 1][P::l][P::n];
static uint64_t outv[P::k + 1][P::n];
static uint32_t nout, ndec;
#ifdef RAIN
static const int64_t p = raintt::P;
constexpr uint64_t rinv() { uint64_t r = 1; for (int i = 0; i < 32; i++) r = (r & 1 ? r + (uint64_t)raintt::P : r) >> 1; return r; }
static constexpr uint64_t RINV = rinv();
#else
static const uint64_t p = cuHEpp::P;
#endif
extern "C" {
void m_decomp(T* out, const T* poly, T randbits)
{
    const uint64_t k = sym_concretize(poly[0]);
    SYM_ASSERT(k <= P::k, "one of the operand's polynomials is decomposed");
    ndec++;
    for (uint32_t i = 0; i < P::l; i++) for (uint32_t j = 0; j < P::n; j++) out[i * P::n + j] = dig[k][i][j];
}
#ifdef RAIN
static inline int64_t inr(int64_t a, int64_t lo, int64_t hi, const char* m) { sym_assert(sym_and(a >= lo, a <= hi), m); return a; }
int32_t m_sredc(int64_t a) { inr(a, -((int64_t)p << 31), ((int64_t)p << 31) - 1, "argument of the reduction in range"); return (int32_t)sym_res(0, (uint64_t)a, 0, RINV, p, -p, p, 0); }
int32_t m_mulsredc(int32_t a, int32_t b)
{
    const int64_t x = a, y = b;
    if (!sym_fork(sym_and(y >= -p, y <= p))) inr(x, -p, p, "factor of a product in range");
    return (int32_t)sym_res(3, (uint64_t)x, (uint64_t)y, RINV, p, -p, p, 0);
}
int32_t m_addmod(int64_t a, int64_t b) { inr(a + b, -2 * p, 2 * p, "argument of the addition in range"); return (int32_t)sym_res(1, (uint64_t)a, (uint64_t)b, 1, p, -p, p, 0); }
int32_t m_submod(int64_t a, int64_t b) { inr(a - b, -2 * p, 2 * p, "argument of the subtraction in range"); return (int32_t)sym_res(2, (uint64_t)a, (uint64_t)b, 1, p, -p, p, 0); }
// conversion of torus words: any residue stands for the converted word
void m_inv_sw(int64_t* res, const uint32_t* a, const int32_t* twist)
{
    for (uint32_t i = 0; i < P::n; i++) {
        const uint64_t r = sym_res(0, (uint64_t)(int64_t)(int32_t)a[i], 0, 1, p, 0, p, 0);
        res[i] = (int64_t)(int32_t)sym_res(3, r, (uint64_t)(int64_t)twist[i], RINV, p, -p, p, 0);
    }
}
void m_dir_sw(uint32_t* res, const int64_t* a, const int32_t* twist)
{
    for (uint32_t i = 0; i < P::n; i++) {
        inr(a[i], -p, p, "coefficient in range");
        outv[nout][i] = sym_res(3, (uint64_t)a[i], (uint64_t)(int64_t)twist[i], RINV, p, 0, p, 0);
        res[i] = 77 + nout;
    }
    nout++;
}
#else
uint64_t m_add(const cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { return sym_res(1, a->value, b->value, 1, p, 0, (int64_t)(p - 1), 1); }
uint64_t m_sub(const cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { return sym_res(2, a->value, b->value, 1, p, 0, (int64_t)(p - 1), 1); }
uint64_t m_mul(const cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { return sym_res(3, a->value, b->value, 1, p, 0, (int64_t)(p - 1), 1); }
cuHEpp::INTorus* m_addeq(cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { a->value = m_add(a, b); return a; }
uint64_t m_subeq(cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { a->value = m_sub(a, b); return a->value; }
uint64_t m_muleq(cuHEpp::INTorus* a, const cuHEpp::INTorus* b) { a->value = m_mul(a, b); return a->value; }
uint64_t m_pow(const cuHEpp::INTorus* a, uint64_t e)
{
    uint64_t r = 1, b = a->value;
    for (; e; e >>= 1, b = sym_res(3, b, b, 1, p, 0, (int64_t)(p - 1), 1)) if (e & 1) r = sym_res(3, r, b, 1, p, 0, (int64_t)(p - 1), 1);
    return r;
}
uint64_t m_shl(const cuHEpp::INTorus* a, uint32_t l)
{
    uint64_t c = 1;
    for (uint32_t i = 0; i < l; i++) c = (uint64_t)(((unsigned __int128)c * 2) % p);
    return sym_res(0, a->value, 0, c, p, 0, (int64_t)(p - 1), 1);
}
void m_inv_sw(uint64_t* res, const T* a, const uint64_t* twist)
{
    for (uint32_t i = 0; i < P::n; i++) res[i] = sym_res(3, (uint64_t)a[i], twist[i], 1, p, 0, (int64_t)(p - 1), 1);
}
void m_dir_sw(T* res, const uint64_t* a, const uint64_t* twist)
{
    uint64_t in = 1;
    for (uint32_t i = 0; i < P::nbit; i++) in = (in & 1 ? (uint64_t)(((unsigned __int128)in + p) >> 1) : in >> 1);
    for (uint32_t i = 0; i < P::n; i++) {
        outv[nout][i] = sym_res(0, sym_res(3, a[i], twist[i], 1, p, 0, (int64_t)(p - 1), 1), 0, in, p, 0, (int64_t)(p - 1), 1);
        res[i] = 77 + nout;
    }
    nout++;
}
#endif
}
static uint64_t mac(uint64_t w, uint64_t x, uint64_t y, bool neg)
{
#ifdef RAIN
    const uint64_t z = sym_res(3, (uint64_t)(int64_t)(int32_t)x, (uint64_t)(int64_t)(int32_t)y, 1, p, -p, p, 0);
    return sym_res(neg ? 2 : 1, w, z, 1, p, -p, p, 0);
#else
    const uint64_t z = sym_res(3, x, y, 1, p, 0, (int64_t)(p - 1), 1);
    return sym_res(neg ? 2 : 1, w, z, 1, p, 0, (int64_t)(p - 1), 1);
#endif
}
#ifdef PART_STEP
static TRLWE<P> seen, given;
static uint32_t calls;
extern "C" void m_prod(TRLWE<P>& res, const TRLWE<P>& in, const void*) { seen = in; res = given; calls++; }
extern "C" void harness()
{
    for (auto& c : given) for (auto& x : c) x = sym<T>("f");
    TRLWE<P> acc, old;
    for (auto& c : old) for (auto& x : c) x = sym<T>("c");
    for (uint32_t a = 1; a < 2 * P::n; a++) {
        acc = old; calls = 0;
#ifdef RAIN
        static TRGSWRAINTT<P> cs;
        CMUXRAINTTwithPolynomialMulByXaiMinusOne<P>(acc, cs, a);
#else
        static TRGSWNTT<P> cs;
        CMUXNTTwithPolynomialMulByXaiMinusOne<P>(acc, cs, a);
#endif
        SYM_ASSERT(calls == 1, "one product");
        for (uint32_t k = 0; k <= P::k; k++)
            for (uint32_t i = 0; i < P::n; i++) {
                // X^a c: the coefficient arriving at i
                const uint32_t s = (i + 2 * P::n - a) % (2 * P::n);
                const T r = s < P::n ? old[k][s] : (T)(0 - old[k][s - P::n]);
                sym_eq_exact<T>(seen[k][i], (T)(r - old[k][i]), "operand is the rotated difference");
                sym_eq_exact<T>(acc[k][i], (T)(old[k][i] + given[k][i]), "product is added");
            }
    }
    sym_reach("end");
}
#elif defined(PART_BK)
#ifndef BR
#define BR lvl01param
#endif
using B = BR;
using D = typename B::domainP;
static Key<D> kd;
static Key<P> kt;
extern "C" {
// encryption hands out its plaintext and a fresh word, so that the element can be traced
static uint32_t enc;
void m_enc(TRGSW<P>* out, const Polynomial<P>* q, double, const Key<P>* key)
{
    for (uint32_t i = 0; i < P::k * P::n; i++) sym_eq_exact<T>((*key)[i], kt[i], "encrypted under the target key");
    for (auto& r : *out) for (auto& c : r) for (uint32_t i = 0; i < P::n; i++) c[i] = (*q)[i];
    enc++;
}
#ifdef RAIN
typedef raintt::DoubleSWord W;
#else
typedef uint64_t W;
#endif
void m_apply(W* out, const TRGSW<P>* in) { for (auto& r : *in) for (auto& c : r) for (auto x : c) *out++ = (W)x; }
}
extern "C" void harness()
{
    for (auto& x : kd) x = (typename D::T)sym_int(std::numeric_limits<typename D::T>::digits, "kd");
    for (auto& x : kt) x = sym<T>("kt");
#ifdef RAIN
    static BootstrappingKeyRAINTT<B> bk;
    bkrainttgen<B>(bk, kd, kt);
#else
    static BootstrappingKeyNTT<B> bk;
    bknttgen<B>(bk, kd, kt);
#endif
    SYM_ASSERT(enc == D::k * D::n, "one encryption per key word");
    for (uint32_t i = 0; i < D::k * D::n; i++)
        for (auto& r : bk[i]) for (auto& c : r) for (uint32_t j = 0; j < P::n; j++)
#ifdef RAIN
            sym_eq_exact<uint64_t>((uint64_t)c[j], j == 0 ? (uint64_t)(W)(T)kd[i] : 0, "element encrypts its key word");
#else
            sym_eq_exact<uint64_t>(c[j].value, j == 0 ? (uint64_t)(T)kd[i] : 0, "element encrypts its key word");
#endif
    sym_reach("end");
}
#elif defined(PART_FORM)
// separate entry points: digits of one polynomial in the transform domain, and the reordered gadget ciphertext
extern "C" void harness()
{
    for (auto& a : dig) for (auto& b : a) for (auto& x : b) x = sym<T>("d");
    for (uint32_t k = 0; k <= P::k; k++) {
        Polynomial<P> c{}; c[0] = k;
#ifdef RAIN
        DecomposedPolynomialRAINTT<P> d; DecompositionRAINTT<P>(d, c);
#else
        DecomposedPolynomialNTT<P> d; DecompositionNTT<P>(d, c);
#endif
        for (uint32_t l = 0; l < P::l; l++) {
            Polynomial<P> one;
            for (uint32_t j = 0; j < P::n; j++) one[j] = dig[k][l][j];
#ifdef RAIN
            PolynomialRAINTT<P> t; raintt::TwistINTT<T, P::nbit, false>(t, one, (*raintttable)[1], (*raintttwist)[1]);
            for (uint32_t j = 0; j < P::n; j++) sym_assert_cong((uint64_t)d[l][j], (uint64_t)t[j], p, 0, "digit l transformed");
#else
            PolynomialNTT<P> t; TwistINTT<P>(t, one);
            for (uint32_t j = 0; j < P::n; j++) sym_assert_cong(d[l][j].value, t[j].value, p, 1, "digit l transformed");
#endif
        }
    }
#ifndef RAIN
    static TRGSW<P> g;
    for (auto& r : g) for (auto& c : r) for (auto& x : c) x = sym<T>("g");
    const auto f = TRGSW2NTT<P>(g);
    for (uint32_t i = 0; i < ROWS; i++) for (uint32_t k = 0; k <= P::k; k++) {
        PolynomialNTT<P> t; TwistINTT<P>(t, g[i][k]);
        for (uint32_t j = 0; j < P::n; j++) {
            uint32_t rev = 0;
            for (uint32_t b = 0; b < P::nbit; b++) rev |= (j >> b & 1) << (P::nbit - 1 - b);
            sym_assert_cong(f[i][k][j].value, t[rev].value, p, 1, "row transformed, in natural order");
        }
    }
#endif
    sym_reach("end");
}
#else
extern "C" void harness()
{
    for (auto& a : dig) for (auto& b : a) for (auto& x : b) x = sym<T>("d");
    static TRGSW<P> g;
    for (auto& r : g) for (auto& c : r) for (auto& x : c) x = sym<T>("g");
    TRLWE<P> c{}, r;
    for (uint32_t k = 0; k <= P::k; k++) c[k][0] = k;
#ifdef INPLACE
#define OUT c
#else
#define OUT r
#endif
#ifdef RAIN
    auto gf = ApplyRAINTT2trgsw<P>(g);
    trgswrainttExternalProduct<P>(OUT, c, gf);
#else
    auto gf = ApplyNTT2trgsw<P>(g);
    trgswnttExternalProduct<P>(OUT, c, gf);
#endif
    SYM_ASSERT(nout == P::k + 1, "every polynomial of the result is written");
    for (uint32_t m = 0; m <= P::k; m++) {
        const uint32_t o = (uint32_t)OUT[m][0] - 77;
        SYM_ASSERT(o <= P::k, "every polynomial of the result is written");
        for (uint32_t i = 0; i < P::n; i++) {
            uint64_t w = 0;
            for (uint32_t k = 0; k <= P::k; k++)
                for (uint32_t l = 0; l < P::l; l++)
                    for (uint32_t j = 0; j < P::n; j++) w = mac(w, dig[k][l][j], g[k * P::l + l][m][(i - j + P::n) % P::n], j > i);
            sym_assert_cong(outv[o][i], w, p,
#ifdef RAIN
                            0,
#else
                            1,
#endif
                            "digits times rows");
        }
    }
    sym_reach("end");
}
#endif
