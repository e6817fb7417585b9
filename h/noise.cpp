// Sampling of encryption noise, for every value the underlying generators return.
#include "scheme.hpp"
using namespace TFHEpp;
template <class T> constexpr unsigned W = std::numeric_limits<T>::digits;
extern "C" void harness()
{
#if defined(PART_GAUSS)
    using P = LV; using T = P::T;
    rngmodel::noise_on = 1;
    // standard draws that move the word by less than BOUND turns (less than half a turn for 64-bit words); two
    // deviations, so that nothing of the first sample stays behind
    const double sds[] = {SD, 0.0625};
    for (double sd : sds) {
        rngmodel::gauss_bound = (W<T> == 64 ? 0.5 : (double)(BOUND)) / sd;
        const T center = (T)sym_int(W<T>, "center");
        const T r = ModularGaussian<P>(center, sd);
        const double x = rngmodel::gauss_last * sd * (W<T> == 64 ? 18446744073709551616.0 : W<T> == 32 ? 4294967296.0 : 65536.0);
        const T d = (T)(r - (T)(center + (T)(int64_t)x));
        SYM_ASSERT((T)(d + 1) <= 2, "the word moves by the scaled draw, rounded, modulo the torus");
    }
#else
    using P = LV; using T = P::T;
    rngmodel::name = "draw";
    rngmodel::pinned = FORM;
    for (int i = 0; i < CALLS; i++) {
        const T v = CenteredBinomial<P>(ETA);
        const std::make_signed_t<T> e = (std::make_signed_t<T>)v;
#if FORM == 0
        SYM_ASSERT(sym_and(e >= -(int)ETA, e <= (int)ETA), "sample in range");
#elif FORM == 1
        SYM_ASSERT(e == (int)ETA, "all ones give the largest sample");
#elif FORM == 2
        SYM_ASSERT(e == -(int)ETA, "all zeros give the smallest sample");
#endif
    }
#endif
    sym_reach("end");
}
