// Native run time of the harness API: replays one assignment (lines "in name width value").
#include "sym.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
static std::map<std::string, uint64_t> vals; static std::map<std::string, int> occ; static bool loaded = false;
static void load()
{
    if (loaded) return; loaded = true;
    const char* f = getenv("SYM_INPUTS"); if (!f) return;
    FILE* p = fopen(f, "r"); if (!p) return;
    char line[4096], nm[2048]; unsigned w; unsigned long long v;
    while (fgets(line, sizeof line, p)) if (sscanf(line, "in %2000s %u %llu", nm, &w, &v) == 3) vals[nm] = v;
    fclose(p);
}
extern "C" {
uint64_t sym_int(unsigned bits, const char* name)
{
    load(); std::string n = std::string(name) + "." + std::to_string(occ[name]++);
    uint64_t v = vals.count(n) ? vals[n] : 0; return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
double sym_double(const char* name) { uint64_t v = sym_int(64, name); double d; memcpy(&d, &v, 8); return d; }
void sym_assume(int c) { if (!c) { printf("REPLAY assumption not met\n"); fflush(stdout); _Exit(3); } }
void sym_assert(int c, const char* msg) { if (!c) { printf("REPLAY FAILED: %s\n", msg); fflush(stdout); _Exit(10); } }
void sym_assert_eq(uint64_t a, uint64_t b, unsigned bits, uint64_t tol, const char* msg)
{
    uint64_t d = a - b; int64_t s = (int64_t)(d << (64 - bits)) >> (64 - bits); if (s < 0) s = -s;
    if ((uint64_t)s > tol) { printf("REPLAY FAILED: %s (got %llx, expected %llx)\n", msg, (unsigned long long)a, (unsigned long long)b); fflush(stdout); _Exit(10); }
}
void sym_reach(const char*) {}
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_engine(void) { return 0; }
int sym_merge(int) { return 0; }
int sym_fork(int c) { return c; }
int sym_and(int a, int b) { return a && b; }
int sym_or(int a, int b) { return a || b; }
int sym_implies(int a, int b) { return !a || b; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void sym_log(const char* m, uint64_t v) { printf("%s %llx\n", m, (unsigned long long)v); }
int sym_is_symbolic(uint64_t) { return 0; }
double sym_real_i64(int64_t v) { return (double)v; }
double sym_real_u64(uint64_t v) { return (double)v; }
uint64_t sym_real_low(double r) { long double x = roundl((long double)r); x = fmodl(x, 18446744073709551616.0L); if (x < 0) x += 18446744073709551616.0L; return (uint64_t)x; }
double sym_real_mul_s(double r) { return r * 0.70710678118654752440; }
double sym_real_half(double r) { return r * 0.5; }
uint64_t sym_real_divtrunc(double r, uint64_t d) { return (uint64_t)(int64_t)(round(r) / (double)d); }
uint64_t sym_real_divround(double r, uint64_t d) { return (uint64_t)(int64_t)round(r / (double)d); }
static uint64_t rm(__int128 v, uint64_t p) { __int128 r = v % (__int128)p; if (r < 0) r += p; return (uint64_t)r; }
uint64_t sym_res(unsigned, uint64_t, uint64_t, uint64_t, uint64_t, int64_t, int64_t, int) { printf("sym_res outside the solver\n"); _Exit(4); }
void sym_assert_cong(uint64_t a, uint64_t b, uint64_t p, int uns, const char* msg)
{
    uint64_t x = uns ? a % p : rm((int64_t)a, p), y = uns ? b % p : rm((int64_t)b, p);
    if (x != y) { printf("REPLAY FAILED: %s (got %llx, expected %llx mod p)\n", msg, (unsigned long long)x, (unsigned long long)y); fflush(stdout); _Exit(10); }
}
void sym_polymul(double* res, const double* a, const double* b, uint64_t n, int acc) {}
void harness(void);
}
int main() { printf("REPLAY STARTED\n"); fflush(stdout); harness(); printf("REPLAY passed\n"); return 0; }
