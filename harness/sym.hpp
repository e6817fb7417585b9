// Harness API.  The same harness runs in two ways: inside the symbolic executor
// (these functions are then primitives of the engine) and natively, linked with
// native.cpp, to replay a counterexample on the compiled code.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_int(unsigned bits, const char* name);
double sym_double(const char* name);
void sym_assume(int c);
void sym_assert(int c, const char* msg);
// exact equality in the solver; the native replay of rounded arithmetic allows `tol`
void sym_assert_eq(uint64_t a, uint64_t b, unsigned bits, uint64_t tol, const char* msg);
void sym_reach(const char* label);
uint64_t sym_concretize(uint64_t v);
int sym_is_engine(void);
int sym_merge(int on);
int sym_fork(int c);
int sym_and(int a, int b);
int sym_or(int a, int b);
int sym_implies(int a, int b);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
void sym_log(const char* m, uint64_t v);
int sym_is_symbolic(uint64_t v);
// residues modulo a prime (engine/residue.hpp): a value in [lo, hi] congruent to mult * (a op b), op: 0 a, 1 +, 2 -, 3 *
uint64_t sym_res(unsigned op, uint64_t a, uint64_t b, uint64_t mult, uint64_t mod, int64_t lo, int64_t hi, int uns);
void sym_assert_cong(uint64_t a, uint64_t b, uint64_t mod, int uns, const char* msg);
// exact numbers travelling through double-typed storage (model of the frequency domain)
double sym_real_i64(int64_t v);
double sym_real_u64(uint64_t v);
uint64_t sym_real_low(double r);
double sym_real_mul_s(double r);
double sym_real_half(double r);
uint64_t sym_real_divtrunc(double r, uint64_t d);
uint64_t sym_real_divround(double r, uint64_t d);
}
template <class T> inline T sym(const char* name) { return (T)sym_int(sizeof(T) * 8, name); }
#define SYM_ASSERT(c, m) sym_assert((int)(c), m)
template <class T> inline void sym_eq(T a, T b, const char* m)
{
    sym_assert_eq((uint64_t)a, (uint64_t)b, sizeof(T) * 8, sizeof(T) == 8 ? (uint64_t)1 << 40 : 0, m);
}
template <class T> inline void sym_eq_exact(T a, T b, const char* m) { sym_assert_eq((uint64_t)a, (uint64_t)b, sizeof(T) * 8, 0, m); }
