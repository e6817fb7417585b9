// Memory lookups over selections and external products taken by their contracts (C03, C04).
#include "scheme.hpp"
#ifndef LVL
#define LVL lvl1param
#endif
#ifndef AB
#define AB 3
#endif
#ifndef WB
#define WB 1
#endif
using P = LVL;
using T = typename P::T;
static Key<P> KEY;
// the control ciphertexts known to the harness and the bits they encrypt
struct Ctl { const void* p; int bit; };
static Ctl CTL[2 * AB];
static int NCTL;
static int ctl(const void* p)
{
    for (int i = 0; i < NCTL; i++)
        if (CTL[i].p == p) return CTL[i].bit;
    sym_assert(false, "control input is one of the given address ciphertexts");
    return 0;
}
static void fresh(TRLWE<P>& res, const Polynomial<P>& ph)
{
    TRLWE<P> t = {};
    for (uint32_t q = 0; q < P::k; q++) t[q] = sch::poly<P>("m");
    auto as = sch::refphase<P>(t, KEY);
    for (uint32_t j = 0; j < P::n; j++) t[P::k][j] = (T)(ph[j] - as[j]);
    res = t;
}
extern "C" void m_cmux(TRLWE<P>& res, const TRGSWFFT<P>& cs, const TRLWE<P>& c1, const TRLWE<P>& c0)
{
    sym_assert(&res != &c0, "selection is not stored over its second branch");
    fresh(res, sch::refphase<P>(ctl(&cs) ? c1 : c0, KEY));
}
extern "C" void m_ext(TRLWE<P>& res, const TRLWE<P>& c, const TRGSWFFT<P>& cs)
{
    Polynomial<P> z = {};
    fresh(res, ctl(&cs) ? sch::refphase<P>(c, KEY) : z);
}
// everything the library reads must have been written: start from arbitrary words
template <class A> static void junk(A& a) { for (auto& c : a) c = sch::rawtrlwe<P>("junk"); }
extern "C" void harness()
{
    KEY = sch::key<P>("k");
    int bit[AB];
    uint32_t addr = 0;
    for (int i = 0; i < AB; i++) { bit[i] = (int)sym_concretize(sym_int(1, "addr")); addr |= (uint32_t)bit[i] << i; }
#if defined(PART_RAM) || defined(PART_UROM)
    static std::array<TRGSWFFT<P>, AB> inv;
    for (int i = 0; i < AB; i++) CTL[NCTL++] = {&inv[i], 1 - bit[i]};
#if defined(PART_RAM)
    constexpr int M = 1 << AB;
    const uint32_t word = addr;
#else
    constexpr int M = 1 << (AB - WB);
    const uint32_t word = addr >> WB;
#endif
    static std::array<TRLWE<P>, M> data;
    for (auto& d : data) d = sch::rawtrlwe<P>("d");
    TRLWE<P> r;
#if defined(PART_RAM)
    RAMUX<P, AB>(r, inv, data);
#else
    UROMUX<P, AB, WB>(r, inv, data);
#endif
    sch::eqpoly<P>(sch::refphase<P>(r, KEY), sch::refphase<P>(data[word], KEY), "the word at the encrypted address");
#elif defined(PART_LROM)
    static std::array<TRGSWFFT<P>, AB> ad;
    for (int i = 0; i < AB; i++) CTL[NCTL++] = {&ad[i], bit[i]};
    auto data = sch::rawtrlwe<P>("d");
    constexpr uint32_t W = P::n >> WB;
    std::vector<TLWE<P>> r(W);
    LROMUX<P, AB, WB>(r, ad, data);
    auto ph = sch::refphase<P>(data, KEY);
    const uint32_t low = addr & ((1u << WB) - 1);
    for (uint32_t i = 0; i < W; i++) sym_eq<T>(sch::refphase<P>(r[i], KEY), ph[low * W + i], "the bits of the word at the encrypted low address");
#elif defined(PART_WRITE)
    static std::array<std::array<TRGSWFFT<P>, AB>, 2> ad;
    for (int i = 0; i < AB; i++) { CTL[NCTL++] = {&ad[1][i], bit[i]}; CTL[NCTL++] = {&ad[0][i], 1 - bit[i]}; }
    auto w = sch::rawtrlwe<P>("w"), mem = sch::rawtrlwe<P>("mem");
    const int index = (int)sym_concretize(sym_int(AB, "index"));
    TRLWE<P> r;
    RAMwriteBar<P, AB>(r, w, mem, index, ad);
    sch::eqpoly<P>(sch::refphase<P>(r, KEY), sch::refphase<P>((uint32_t)index == addr ? w : mem, KEY), "a cell takes the written value exactly when it is addressed");
#endif
    sym_reach("end");
}
