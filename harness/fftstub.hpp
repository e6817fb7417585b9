// Model of the frequency-domain transform for rings of dimension 2 or 4.
//
// The assembly kernels behind FFT_Processor_Spqlios are replaced by the exact
// evaluation of a polynomial at X = w, -w (w^2 = i), i.e. by the ring isomorphism
// the kernels approximate.  Values are exact numbers (P + Q*sqrt(1/2)) / 2^k, so
// every pointwise routine of the library (MulInFD, FMAInFD, ...) is executed as
// written and the inverse transform is exact.
#pragma once
#include "sym.hpp"
#include <fft_processor_spqlios.h>
#include "params.hpp"
namespace fftmodel {
inline double mul_s(double x) { return sym_real_mul_s(x); }
inline void reverse(double* r, int n)
{
    if (n == 2) return;  // X = i : re = a0, im = a1
    // layout: re[0..n/2) im[n/2..n)
    const double a0 = r[0], a1 = r[1], a2 = r[2], a3 = r[3];
    const double vr = mul_s(a1 - a3), vi = mul_s(a1 + a3);
    r[0] = a0 + vr; r[1] = a0 - vr; r[2] = a2 + vi; r[3] = a2 - vi;
}
inline void direct(double* o, const double* r, int n)
{
    if (n == 2) { o[0] = r[0]; o[1] = r[1]; return; }
    o[0] = sym_real_half(r[0] + r[1]);
    o[2] = sym_real_half(r[2] + r[3]);
    const double vr = sym_real_half(r[0] - r[1]), vi = sym_real_half(r[2] - r[3]);
    o[1] = mul_s(vi + vr);
    o[3] = mul_s(vi - vr);
}
}  // namespace fftmodel
#ifdef PARLOOP
// The transform objects are the library's own; their methods are redirected here.
// A transform works in a buffer of its object, so it counts as a write to the object.
extern "C" {
void* new_fft_table(int32_t) { return nullptr; }
void* new_ifft_table(int32_t) { return nullptr; }
double* fft_table_get_buffer(const void*) { return nullptr; }
double* ifft_table_get_buffer(const void*) { return nullptr; }
void fft(const void*, double*) {}
void ifft(const void*, double*) {}
#define FFT_PLAN(p) *(volatile unsigned char*)&p->reva = 0; const int N = p->N
void m_rev_int(FFT_Processor_Spqlios* p, double* res, const int32_t* a) { FFT_PLAN(p); for (int i = 0; i < N; i++) res[i] = sym_real_i64(a[i]); fftmodel::reverse(res, N); }
void m_rev_uint(FFT_Processor_Spqlios* p, double* res, const uint32_t* a) { FFT_PLAN(p); for (int i = 0; i < N; i++) res[i] = sym_real_u64(a[i]); fftmodel::reverse(res, N); }
void m_rev_64(FFT_Processor_Spqlios* p, double* res, const uint64_t* a) { FFT_PLAN(p); for (int i = 0; i < N; i++) res[i] = sym_real_i64((int64_t)a[i]); fftmodel::reverse(res, N); }
void m_dir_32(FFT_Processor_Spqlios* p, uint32_t* res, const double* a) { FFT_PLAN(p); double t[8]; fftmodel::direct(t, a, N); for (int i = 0; i < N; i++) res[i] = (uint32_t)sym_real_low(t[i]); }
void m_dir_64(FFT_Processor_Spqlios* p, uint64_t* res, const double* a) { FFT_PLAN(p); double t[8]; fftmodel::direct(t, a, N); for (int i = 0; i < N; i++) res[i] = sym_real_low(t[i]); }
}
#else
inline FFT_Processor_Spqlios::FFT_Processor_Spqlios(const int32_t N_) : _2N(2 * N_), N(N_), Ns2(N_ / 2) {}
inline FFT_Processor_Spqlios::~FFT_Processor_Spqlios() {}
inline void FFT_Processor_Spqlios::execute_reverse_int(double* res, const int32_t* a)
{
    for (int i = 0; i < N; i++) res[i] = sym_real_i64(a[i]);
    fftmodel::reverse(res, N);
}
inline void FFT_Processor_Spqlios::execute_reverse_uint(double* res, const uint32_t* a)
{
    for (int i = 0; i < N; i++) res[i] = sym_real_u64(a[i]);
    fftmodel::reverse(res, N);
}
inline void FFT_Processor_Spqlios::execute_reverse_torus32(double* res, const uint32_t* a) { execute_reverse_int(res, (const int32_t*)a); }
inline void FFT_Processor_Spqlios::execute_reverse_torus64(double* res, const uint64_t* a)
{
    for (int i = 0; i < N; i++) res[i] = sym_real_i64((int64_t)a[i]);
    fftmodel::reverse(res, N);
}
inline void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t* res, const double* a)
{
    double t[8];
    fftmodel::direct(t, a, N);
    for (int i = 0; i < N; i++) res[i] = (uint32_t)sym_real_low(t[i]);
}
inline void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double* a)
{
    double t[8];
    fftmodel::direct(t, a, N);
    for (int i = 0; i < N; i++) res[i] = sym_real_low(t[i]);
}
inline void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t* res, const double* a, const double D)
{
    double t[8];
    fftmodel::direct(t, a, N);
    for (int i = 0; i < N; i++) res[i] = (uint32_t)sym_real_divtrunc(t[i], (uint64_t)D);
}
inline void FFT_Processor_Spqlios::execute_direct_torus64_rescale(uint64_t* res, const double* a, const double D)
{
    double t[8];
    fftmodel::direct(t, a, N);
    for (int i = 0; i < N; i++) res[i] = sym_real_divround(t[i], (uint64_t)D);
}
inline void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t*, const double*, const uint32_t) {}
thread_local FFT_Processor_Spqlios fftplvl1(TFHEpp::lvl1param::n);
thread_local FFT_Processor_Spqlios fftplvl2(TFHEpp::lvl2param::n);
#endif
