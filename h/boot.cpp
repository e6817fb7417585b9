// Blind rotation and bootstrapping through a lookup table.
#include "scheme.hpp"
#ifndef BR
#define BR lvl01param
#endif
#ifndef NOUT
#define NOUT 1
#endif
using P = BR;
using D = typename P::domainP;
using R = typename P::targetP;
using TD = typename D::T;
using T = typename R::T;
constexpr unsigned WD = std::numeric_limits<TD>::digits;
constexpr uint32_t ND = D::k * D::n;
static Key<D> KD;
static Key<R> KR;
// rotation of the phase by a when the key word is 1, by -a when it is -1
static Polynomial<R> select(const Polynomial<R>& p, TD s, int64_t a)
{
    auto up = sch::refrot<R>(p, a), dn = sch::refrot<R>(p, -a);
    const TD pos = D::key_value_min < 0 ? (TD)(s & 1) & (TD)~(s >> (WD - 1)) & 1 : (TD)s, neg = D::key_value_min < 0 ? (TD)(s >> (WD - 1)) : (TD)0;
    Polynomial<R> r;
    for (uint32_t i = 0; i < R::n; i++) r[i] = (T)(p[i] + (T)pos * (T)(up[i] - p[i]) + (T)neg * (T)(dn[i] - p[i]));
    return r;
}
static const char* KEYBASE;
static size_t KEYSTEP;
// contract of one rotate-or-keep step (established by C16): fresh masks, phase rotated as the key word says
static void step(TRLWE<R>& acc, const void* cs, int64_t a)
{
    const size_t i = ((const char*)cs - KEYBASE) / KEYSTEP;
    a = (int64_t)sym_concretize((uint64_t)a);
    sym_assert(i < ND, "step uses an element of the bootstrapping key");
    auto ph = select(sch::refphase<R>(acc, KR), KD[i], a);
    TRLWE<R> t = {};
    for (uint32_t q = 0; q < R::k; q++) t[q] = sch::poly<R>("m");
    auto as = sch::refphase<R>(t, KR);
    for (uint32_t j = 0; j < R::n; j++) t[R::k][j] = (T)(ph[j] - as[j]);
    acc = t;
}
extern "C" void m_step(TRLWE<R>& acc, const BootstrappingKeyElementFFT<P>& cs, const int a) { step(acc, &cs, a); }
extern "C" void m_stepntt(TRLWE<R>& acc, const TRGSWNTT<R>& cs, const T a) { step(acc, &cs, (int64_t)a); }
extern "C" void m_stepraintt(TRLWE<R>& acc, const TRGSWRAINTT<R>& cs, const T a) { step(acc, &cs, (int64_t)a); }
extern "C" void harness()
{
    KD = sch::key<D>("kd");
    if constexpr (D::key_value_min < 0)
        for (auto& x : KD) x = (TD)(int64_t)(sym_concretize(sym_int(2, "kt")) % 3 - 1);  // case split
    KR = sch::key<R>("kr");
    sch::set_grid<T>(GRID);
#if defined(USENTT)
    static BootstrappingKeyNTT<P> bk;
#elif defined(USERAINTT)
    static BootstrappingKeyRAINTT<P> bk;
#else
    static BootstrappingKeyFFT<P> bk;
#ifndef CONTRACT
    bkfftgen<P>(bk, KD, KR);
#endif
#endif
    KEYBASE = (const char*)&bk; KEYSTEP = sizeof(bk[0]);
    // the input: each word is a chosen half-step of the rotation plus anything below it
    constexpr unsigned bw = NOUT <= 1 ? 0 : NOUT <= 2 ? 1 : 2;
    constexpr unsigned SH = WD - 1 - R::nbit + bw;  // one rotation step is 2^SH
    TLWE<D> c;
    int64_t rot[ND + 1];
    const unsigned HB = R::nbit + 2 - bw;
    for (uint32_t i = 0; i <= ND; i++) {
        const uint64_t t = sym_concretize(sym_int(HB, "half"));
        c[i] = (TD)((TD)((TD)t << (SH - 1)) + (TD)(sym_int(WD, "low") & (((uint64_t)1 << (SH - 1)) - 1)));
        rot[i] = (int64_t)((i < ND ? (t + 1) / 2 : t / 2) << bw);
    }
#if defined(TRLWETV)
    auto tv = sch::rawtrlwe<R>("tv", GRID);
    Polynomial<R> want = sch::refphase<R>(tv, KR);
#else
    auto tv = sch::poly<R>("tv", GRID);
    Polynomial<R> want = tv;
#endif
    want = sch::refrot<R>(want, -rot[ND]);
    for (uint32_t i = 0; i < ND; i++) want = select(want, KD[i], rot[i]);
#if defined(PART_BR)
    TRLWE<R> res;
    BlindRotate<P, NOUT>(res, c, bk, tv);
    sch::eqpoly<R>(sch::refphase<R>(res, KR), want, "phase is the table rotated by the rounded input");
#elif defined(PART_GB)
    TLWE<R> res;
#if defined(USENTT)
    GateBootstrappingTLWE2TLWENTT<P>(res, c, bk, tv);
#elif defined(USERAINTT)
    GateBootstrappingTLWE2TLWERAINTT<P>(res, c, bk, tv);
#else
    GateBootstrappingTLWE2TLWEFFT<P>(res, c, bk, tv);
#endif
    sym_eq<T>(sch::refphase<R>(res, KR), want[0], "bootstrapped phase is the table entry");
#elif defined(PART_MANY)
    std::array<TLWE<R>, NOUT> res;
    GateBootstrappingManyLUT<P, NOUT>(res, c, bk, tv);
    for (int i = 0; i < NOUT; i++) sym_eq<T>(sch::refphase<R>(res[i], KR), want[i], "output i is the table's entry i");
#endif
    sym_reach("end");
}
