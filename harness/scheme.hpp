// Helpers for harnesses over the scheme.
#pragma once
#include "model.hpp"
namespace sch {
using namespace TFHEpp;
// a secret key of the level's declared range, built from solver bits
template <class P> inline Key<P> key(const char* nm)
{
    Key<P> k;
    for (auto& x : k) {
        x = (typename P::T)sym_int(1, nm);
        if constexpr (P::key_value_min < 0) x = (typename P::T)(x - (typename P::T)sym_int(1, "keyneg"));
    }
    return k;
}
template <class T> inline void set_grid(unsigned g)
{
    if constexpr (sizeof(T) == 2) rngmodel::grid16 = g;
    else if constexpr (sizeof(T) == 4) rngmodel::grid32 = g;
    else rngmodel::grid64 = g;
}
template <class T> inline T torus(const char* nm, unsigned g = 0) { return (T)((T)sym_int(sizeof(T) * 8, nm) >> g << g); }
template <class P> inline Polynomial<P> poly(const char* nm, unsigned g = 0)
{
    Polynomial<P> p;
    for (auto& x : p) x = torus<typename P::T>(nm, g);
    return p;
}
template <class P> inline TRLWE<P> rawtrlwe(const char* nm, unsigned g = 0)
{
    TRLWE<P> c;
    for (auto& q : c) q = poly<P>(nm, g);
    return c;
}
template <class P> inline TLWE<P> rawtlwe(const char* nm, unsigned g = 0)
{
    TLWE<P> c;
    for (auto& x : c) x = torus<typename P::T>(nm, g);
    return c;
}
// grid on which the gadget decomposition of P is exact
template <class P> constexpr unsigned gadget_grid() { return std::numeric_limits<typename P::T>::digits - P::l * P::Bgbit; }
// independent reference: negacyclic product and phases, on plain integers modulo 2^digits
template <class P> inline Polynomial<P> refmul(const Polynomial<P>& a, const Polynomial<P>& b)
{
    Polynomial<P> r = {};
    for (uint32_t i = 0; i < P::n; i++)
        for (uint32_t j = 0; j < P::n; j++) {
            const uint32_t e = i + j;
            const typename P::T t = (typename P::T)(a[i] * b[j]);
            if (e < P::n) r[e] = (typename P::T)(r[e] + t);
            else r[e - P::n] = (typename P::T)(r[e - P::n] - t);
        }
    return r;
}
template <class P> inline Polynomial<P> refphase(const TRLWE<P>& c, const Key<P>& key)
{
    Polynomial<P> r = c[P::k];
    for (uint32_t k = 0; k < P::k; k++) {
        Polynomial<P> s;
        for (uint32_t i = 0; i < P::n; i++) s[i] = key[k * P::n + i];
        auto t = refmul<P>(c[k], s);
        for (uint32_t i = 0; i < P::n; i++) r[i] = (typename P::T)(r[i] - t[i]);
    }
    return r;
}
template <class P> inline typename P::T refphase(const TLWE<P>& c, const Key<P>& key)
{
    typename P::T r = c[P::k * P::n];
    for (uint32_t i = 0; i < P::k * P::n; i++) r = (typename P::T)(r - (typename P::T)(c[i] * key[i]));
    return r;
}
// multiplication by X^a, any integer a
template <class P> inline Polynomial<P> refrot(const Polynomial<P>& p, int64_t a)
{
    Polynomial<P> r;
    const int64_t N2 = 2 * (int64_t)P::n;
    a = ((a % N2) + N2) % N2;
    for (int64_t i = 0; i < (int64_t)P::n; i++) {
        const int64_t e = (i + a) % N2;
        if (e < (int64_t)P::n) r[e] = p[i];
        else r[e - P::n] = (typename P::T)-p[i];
    }
    return r;
}
template <class P> inline Polynomial<P> refauto(const Polynomial<P>& p, uint64_t d)
{
    Polynomial<P> r = {};
    for (uint64_t i = 0; i < P::n; i++) {
        const uint64_t e = (i * d) % (2 * P::n);
        if (e < P::n) r[e] = (typename P::T)(r[e] + p[i]);
        else r[e - P::n] = (typename P::T)(r[e - P::n] - p[i]);
    }
    return r;
}
template <class P> inline void eqpoly(const Polynomial<P>& a, const Polynomial<P>& b, const char* m)
{
    for (uint32_t i = 0; i < P::n; i++) sym_eq<typename P::T>(a[i], b[i], m);
}
}  // namespace sch
using namespace TFHEpp;
#ifdef MODEL_POLYMUL2
// 64-bit ring product (in the library: a number-theoretic transform that rounds), exact here
extern "C" void m_polymul2(Polynomial<lvl2param>& res, const Polynomial<lvl2param>& a, const Polynomial<lvl2param>& b) { res = sch::refmul<lvl2param>(a, b); }
#endif
