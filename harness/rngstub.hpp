// Randomness as solver inputs: every uniform draw is an arbitrary value of its
// range, every Gaussian draw is whatever sym_noise() says (default: none).
#pragma once
#include "sym.hpp"
#include <random>
#include <randen.h>
#ifdef PARLOOP  // per thread, as the generator must be; a draw changes the generator
#define RNG_STATE inline thread_local
#define RNG_TOUCH(g) *(volatile unsigned char*)&g = 0
#else
#define RNG_STATE inline
#define RNG_TOUCH(g) (void)0
#endif
namespace rngmodel {
RNG_STATE unsigned grid16 = 0, grid32 = 0, grid64 = 0;  // low zero bits of uniform torus draws (the torus is a grid)
RNG_STATE unsigned grid_small = 0;
RNG_STATE int noise_on = 0, pinned = 0;  // pinned: every uniform draw is its largest (1) or smallest (2) value, or its number (3)
RNG_STATE double gauss_bound = 0, gauss_last = 0;  // bound on the magnitude of a Gaussian draw (0: none), the last draw
RNG_STATE uint64_t draws = 0, full = 0, sum = 0;  // number of draws, of full-range draws, sum of the full-range draws
RNG_STATE const char* name = "rnd";
}  // namespace rngmodel
#define RNG_UNIFORM(T, GRID)                                                                                   \
    template <> template <> inline T std::uniform_int_distribution<T>::operator()(randen::Randen<uint64_t>& g) \
    {                                                                                                          \
        RNG_TOUCH(g);                                                                                          \
        if (rngmodel::pinned) { rngmodel::draws++; return rngmodel::pinned == 3 ? (T)((T)rngmodel::draws << (GRID)) : rngmodel::pinned == 1 ? this->b() : this->a(); } \
        T v = (T)sym_int(sizeof(T) * 8, rngmodel::name);                                                       \
        rngmodel::draws++;                                                                                     \
        if (this->a() == 0 && this->b() == std::numeric_limits<T>::max())                                      \
            { v = (T)((T)(v >> (GRID)) << (GRID)); rngmodel::full++; rngmodel::sum += v; return v; }                                                            \
        sym_assume(sym_and(v >= this->a(), v <= this->b()));                                                   \
        return v;                                                                                              \
    }
RNG_UNIFORM(uint16_t, rngmodel::grid16)
RNG_UNIFORM(uint32_t, rngmodel::grid32)
RNG_UNIFORM(uint64_t, rngmodel::grid64)
template <> template <> inline int32_t std::uniform_int_distribution<int32_t>::operator()(randen::Randen<uint64_t>& g)
{
    RNG_TOUCH(g);
    int32_t v = (int32_t)sym_int(32, rngmodel::name);
    rngmodel::draws++;
    sym_assume(sym_and(v >= this->a(), v <= this->b()));
    return v;
}
template <> template <> inline double std::normal_distribution<double>::operator()(randen::Randen<uint64_t>& g)
{
    RNG_TOUCH(g);
    if (!rngmodel::noise_on) return 0.0;
    // a standard draw, scaled and moved as the library's distribution does
    const double v = sym_double("gauss");
    if (rngmodel::gauss_bound > 0) sym_assume(sym_and(v < rngmodel::gauss_bound, v > -rngmodel::gauss_bound));
    rngmodel::gauss_last = v;
    return v * this->stddev() + this->mean();
}
inline void randen::Internal::Absorb(const void*, void*) {}
inline void randen::Internal::Generate(void*) {}
