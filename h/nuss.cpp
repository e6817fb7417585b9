// The Nussbaumer transform and its inverse, on arbitrary words.
#include <array>
#include <algorithm>
#include <cstdint>
#include <span>
typedef unsigned int uint;
#include "sym.hpp"
#include "nussbaumer.hpp"
template <class T, unsigned NB> static void trip()
{
    constexpr size_t N = (size_t)1 << NB;
    static std::array<T, N> a, r;
    for (auto& x : a) x = sym<T>("a");
    r = a;
    Nussbaumer::NussbaumerTransform<T, NB>(std::span<T, N>{r});
    // the first word of the transform adds up every coefficient
    T s = 0;
    for (auto& x : a) s += x;
    sym_eq_exact<T>(r[0], s, "first word is the sum of the coefficients");
    Nussbaumer::InverseNussbaumerTransform<T, NB>(std::span<T, N>{r});
    for (size_t i = 0; i < N; i++) sym_eq_exact<T>(r[i], (T)(a[i] * (T)N), "inverse of the transform is the dimension times the input");
}
template <class T, unsigned NB> static void linear()
{
    constexpr size_t N = (size_t)1 << NB;
    static std::array<T, N> a, b, c;
    const T u = sym<T>("u");
    for (size_t i = 0; i < N; i++) { a[i] = sym<T>("a"); b[i] = sym<T>("b"); c[i] = a[i] + u * b[i]; }
    for (auto x : {&a, &b, &c}) Nussbaumer::NussbaumerTransform<T, NB>(std::span<T, N>{*x});
    for (size_t i = 0; i < N; i++) sym_eq_exact<T>(c[i], (T)(a[i] + u * b[i]), "transform of a combination");
    for (auto x : {&a, &b, &c}) Nussbaumer::InverseNussbaumerTransform<T, NB>(std::span<T, N>{*x});
    for (size_t i = 0; i < N; i++) sym_eq_exact<T>(c[i], (T)(a[i] + u * b[i]), "inverse transform of a combination");
}
extern "C" void harness()
{
#if defined(PART_TRIP)
    trip<W, PART_TRIP>();
#else
    linear<W, PART_LIN>();
#endif
    sym_reach("end");
}
