// Secret and evaluation keys: what is generated, where it is stored, what is handed out.
#include "stdstub.hpp"
#include "scheme.hpp"
using namespace TFHEpp;
template <class T> constexpr unsigned W = std::numeric_limits<T>::digits;
static SecretKey* SK;
static uint64_t cnt;
#if defined(PART_KEY)
// first pass: any value of the requested range; second pass: the number of the draw
static int pass;
extern "C" int32_t m_draw(const std::uniform_int_distribution<int32_t>* d, void*)
{
    cnt++;
    if (pass) return (int32_t)cnt;
    const int32_t v = (int32_t)sym_int(32, "draw");
    sym_assume(sym_and(v >= d->a(), v <= d->b()));
    return v;
}
template <class P, class A> static void range(const A& key)
{
    for (auto x : key) {
        const auto v = (std::make_signed_t<typename P::T>)x;
        SYM_ASSERT(sym_and(v >= P::key_value_min, v <= P::key_value_max), "key word inside its level's range");
    }
}
template <class A> static void words(const A& key, bool* seen, uint64_t total)
{
    for (auto x : key) {
        SYM_ASSERT(x >= 1 && x <= total, "every key word is drawn");
        SYM_ASSERT(!seen[x], "key words are drawn independently");
        seen[x] = true;
    }
}
template <class P, class A> static void got(const lweKey& k, const A& key)
{
    const auto g = k.get<P>();
    for (uint32_t i = 0; i < P::k * P::n; i++) sym_eq_exact<typename P::T>(g[i], key[i], "each level's key is handed out");
}
extern "C" void harness()
{
    {
        static lweKey a;
        range<lvl0param>(a.lvl0); range<lvlhalfparam>(a.lvlhalf); range<lvl1param>(a.lvl1); range<lvl2param>(a.lvl2); range<lvl3param>(a.lvl3);
        got<lvl0param>(a, a.lvl0); got<lvlhalfparam>(a, a.lvlhalf); got<lvl1param>(a, a.lvl1); got<lvl2param>(a, a.lvl2); got<lvl3param>(a, a.lvl3);
    }
    pass = 1; cnt = 0;
    static lweKey k;
    const uint64_t total = cnt;
    static bool seen[4096];
    words(k.lvl0, seen, total); words(k.lvlhalf, seen, total); words(k.lvl1, seen, total); words(k.lvl2, seen, total); words(k.lvl3, seen, total);
    sym_reach("end");
}
#else
template <class P> static Key<P> skey() { return SK->key.get<P>(); }
// a key emplaced again, for another secret key, replaces the one stored before
static SecretKey* stale()
{
    auto* s = (SecretKey*)operator new(sizeof(SecretKey));
    new (&s->params) lweParams();
    for (auto& v : s->key.lvl0) v = 1;
    for (auto& v : s->key.lvlhalf) v = 1;
    for (auto& v : s->key.lvl1) v = 1;
    for (auto& v : s->key.lvl2) v = 1;
    for (auto& v : s->key.lvl3) v = 1;
    return s;
}
static void secret()
{
    SK = (SecretKey*)operator new(sizeof(SecretKey));
    new (&SK->params) lweParams();
    SK->key.lvl0 = sch::key<lvl0param>("k0");
    SK->key.lvlhalf = sch::key<lvlhalfparam>("kh");
    SK->key.lvl1 = sch::key<lvl1param>("k1");
    SK->key.lvl2 = sch::key<lvl2param>("k2");
    SK->key.lvl3 = sch::key<lvl3param>("k3");
    sch::set_grid<uint32_t>(14); sch::set_grid<uint64_t>(28);
}
// rows of a gadget encryption of the scalar m
template <class R, class G> static void rows(const G& g, typename R::T m, const Key<R>& key)
{
    using T = typename R::T;
    for (uint32_t k = 0; k <= R::k; k++)
        for (uint32_t i = 0; i < R::l; i++) {
            auto ph = sch::refphase<R>(g[k * R::l + i], key);
            const T h = (T)((T)1 << (W<T> - (i + 1) * R::Bgbit));
            for (uint32_t j = 0; j < R::n; j++) {
                T want = k == R::k ? (j == 0 ? (T)(m * h) : (T)0) : (T)(0 - (T)(m * (T)(h * (T)key[k * R::n + j])));
                sym_eq_exact<T>(ph[j], want, "row of a bootstrapping key element");
            }
        }
}
// 1 where the key word has the value v (a binary key word is its own indicator)
template <class D, class T> static T unit(typename D::T x, int v) { return D::key_value_min == 0 && D::key_value_max == 1 ? (T)x : (T)sym_ite(x == (typename D::T)v, 1, 0); }
#if defined(PART_BK)
extern "C" void m_apply1(uint64_t* out, const TRGSW<lvl1param>* in) { for (auto& r : *in) for (auto& c : r) for (auto x : c) *out++ = x; }
extern "C" void m_apply2(uint64_t* out, const TRGSW<lvl2param>* in) { for (auto& r : *in) for (auto& c : r) for (auto x : c) *out++ = x; }
template <class B> static void bk(const BootstrappingKey<B>& k)
{
    using D = typename B::domainP; using R = typename B::targetP;
    auto kd = skey<D>(); auto kr = skey<R>();
    for (uint32_t i = 0; i < D::k * D::n; i++) {
        int c = 0;
        for (int v = D::key_value_min; v <= (int)D::key_value_max; v++)
            if (v != 0) rows<R>(k[i][c++], unit<D, typename R::T>(kd[i], v), kr);
    }
}
template <class R> static TRGSW<R> back(const TRGSWFFT<R>& f)
{
    TRGSW<R> g;
    for (uint32_t i = 0; i < (R::k + 1) * R::l; i++) for (uint32_t k = 0; k <= R::k; k++) TwistFFT<R>(g[i][k], f[i][k]);
    return g;
}
template <class B> static void bkfft(const BootstrappingKeyFFT<B>& k)
{
    using D = typename B::domainP; using R = typename B::targetP;
    auto kd = skey<D>(); auto kr = skey<R>();
    for (uint32_t i = 0; i < D::k * D::n; i++) {
        int c = 0;
        for (int v = D::key_value_min; v <= (int)D::key_value_max; v++)
            if (v != 0) { rows<R>(back<R>(k[i][c]), unit<D, typename R::T>(kd[i], v), kr); c++; }
    }
}
template <class B> static void bkntt(const BootstrappingKeyNTT<B>& k)
{
    using D = typename B::domainP; using R = typename B::targetP;
    auto kd = skey<D>(); auto kr = skey<R>();
    for (uint32_t i = 0; i < D::k * D::n; i++) {
        TRGSW<R> g;
        for (uint32_t a = 0; a < (R::k + 1) * R::l; a++) for (uint32_t b = 0; b <= R::k; b++) for (uint32_t j = 0; j < R::n; j++) g[a][b][j] = (typename R::T)k[i][a][b][j].value;
        rows<R>(g, (typename R::T)kd[i], kr);
    }
}
// after conversion: exactly the stored key, element by element
template <class B> static void same(const EvalKey& ek)
{
    using D = typename B::domainP; using R = typename B::targetP;
    auto& k = ek.getbk<B>();
    for (uint32_t i = 0; i < D::k * D::n; i++) {
        int c = 0;
        for (int v = D::key_value_min; v <= (int)D::key_value_max; v++)
            if (v != 0) {
#ifdef TONTT
                auto& f = ek.getbkntt<B>()[i];
#else
                auto f = back<R>(ek.getbkfft<B>()[i][c]);
#endif
                for (uint32_t a = 0; a < (R::k + 1) * R::l; a++) for (uint32_t b = 0; b <= R::k; b++) for (uint32_t j = 0; j < R::n; j++)
#ifdef TONTT
                    sym_eq_exact<typename R::T>((typename R::T)f[a][b][j].value, k[i][c][a][b][j], "converted key");
#else
                    sym_eq_exact<typename R::T>(f[a][b][j], k[i][c][a][b][j], "converted key");
#endif
                c++;
            }
    }
}
#define ALL(F) F<lvl01param>(); F<lvlh1param>(); F<lvl02param>(); F<lvlh2param>()
extern "C" void harness()
{
    secret();
    EvalKey ek(*SK);
    auto* ST = stale();
    for (auto* sk : {ST, SK}) {
#if PART_BK == 0
    ek.emplacebk<lvl01param>(*sk); ek.emplacebk<lvlh1param>(*sk); ek.emplacebk<lvl02param>(*sk); ek.emplacebk<lvlh2param>(*sk);
#elif PART_BK == 1
    ek.emplacebkfft<lvl01param>(*sk); ek.emplacebkfft<lvlh1param>(*sk); ek.emplacebkfft<lvl02param>(*sk); ek.emplacebkfft<lvlh2param>(*sk);
#elif PART_BK == 2
    ek.emplacebkntt<lvl01param>(*sk); ek.emplacebkntt<lvlh1param>(*sk); ek.emplacebkntt<lvl02param>(*sk); ek.emplacebkntt<lvlh2param>(*sk);
#else
    ek.emplacebk<lvl01param>(*sk); ek.emplacebk<lvlh1param>(*sk); ek.emplacebk<lvl02param>(*sk); ek.emplacebk<lvlh2param>(*sk);
#ifdef TONTT
    ek.emplacebk2bkntt<lvl01param>(); ek.emplacebk2bkntt<lvlh1param>(); ek.emplacebk2bkntt<lvl02param>(); ek.emplacebk2bkntt<lvlh2param>();
#else
    ek.emplacebk2bkfft<lvl01param>(); ek.emplacebk2bkfft<lvlh1param>(); ek.emplacebk2bkfft<lvl02param>(); ek.emplacebk2bkfft<lvlh2param>();
#endif
#endif
    }
#if PART_BK == 0
    bk<lvl01param>(ek.getbk<lvl01param>()); bk<lvlh1param>(ek.getbk<lvlh1param>()); bk<lvl02param>(ek.getbk<lvl02param>()); bk<lvlh2param>(ek.getbk<lvlh2param>());
#elif PART_BK == 1
    bkfft<lvl01param>(ek.getbkfft<lvl01param>()); bkfft<lvlh1param>(ek.getbkfft<lvlh1param>()); bkfft<lvl02param>(ek.getbkfft<lvl02param>()); bkfft<lvlh2param>(ek.getbkfft<lvlh2param>());
#elif PART_BK == 2
    bkntt<lvl01param>(ek.getbkntt<lvl01param>()); bkntt<lvlh1param>(ek.getbkntt<lvlh1param>()); bkntt<lvl02param>(ek.getbkntt<lvl02param>()); bkntt<lvlh2param>(ek.getbkntt<lvlh2param>());
#else
    same<lvl01param>(ek); same<lvlh1param>(ek); same<lvl02param>(ek); same<lvlh2param>(ek);
#endif
    sym_reach("end");
}
#elif defined(PART_KS)
// a word reduced to the first DIG bits of W, on the target's scale
template <class P, class T> static typename P::targetP::T rounded(T x)
{
    using TR = typename P::targetP::T;
    constexpr unsigned D = P::t * P::basebit, w = W<T>, WR = W<TR>;
    const T r = D < w ? (T)((T)(x + ((T)1 << (w - D - 1))) >> (w - D)) : x;
    constexpr unsigned keep = D < w ? D : w;
    return WR >= keep ? (TR)((TR)r << (WR - keep)) : (TR)(r >> (keep - WR));
}
// mask words that exercise every digit value of every position
template <class P> static TLWE<P> probe(uint64_t s)
{
    TLWE<P> c;
    uint64_t x = s;
    for (auto& v : c) { x = x * 6364136223846793005u + 1442695040888963407u; v = (typename P::T)(x >> (64 - W<typename P::T>)); }
    c[P::k * P::n] = 0;
    return c;
}
template <class P> static void iks(const EvalKey& ek)
{
    using D = typename P::domainP; using R = typename P::targetP; using TR = typename R::T;
    auto kd = skey<D>(); auto kr = skey<R>();
    for (int q = 1; q < 4; q++) {
        auto c = probe<D>(q);
        TLWE<R> r;
        IdentityKeySwitch<P>(r, c, ek.getiksk<P>());
        TR want = 0;
        for (uint32_t i = 0; i < D::k * D::n; i++) want = (TR)(want - (TR)((TR)kd[i] * rounded<P>(c[i])));
        sym_eq_exact<TR>(sch::refphase<R>(r, kr), want, "switching key of this level pair");
    }
}
template <class P> static void priv(const PrivateKeySwitchingKey<P>& k, const Polynomial<typename P::targetP>& f)
{
    using D = typename P::domainP; using R = typename P::targetP; using TR = typename R::T;
    auto kd = skey<D>(); auto kr = skey<R>();
    auto c = probe<D>(5);
    TRLWE<R> r;
    PrivKeySwitch<P>(r, c, k);
    TR m = rounded<P>(c[D::k * D::n]);
    for (uint32_t i = 0; i < D::k * D::n; i++) m = (TR)(m - (TR)((TR)kd[i] * rounded<P>(c[i])));
    auto ph = sch::refphase<R>(r, kr);
    for (uint32_t i = 0; i < R::n; i++) sym_eq_exact<TR>(ph[i], (TR)(m * f[i]), "private switching key of this name and level pair");
}
// the forms taking the whole secret key: scalar-to-ring and substitution keys
template <class P> static void toring()
{
    using D = typename P::domainP; using R = typename P::targetP; using TR = typename R::T;
    auto kd = skey<D>(); auto kr = skey<R>();
    static TLWE2TRLWEIKSKey<P> k;
    tlwe2trlweikskgen<P>(k, *SK);
    for (uint32_t i = 0; i < D::k * D::n; i++) for (uint32_t j = 0; j < P::t; j++) for (uint32_t u = 0; u < k[i][j].size(); u++) {
        auto ph = sch::refphase<R>(k[i][j][u], kr);
        const TR m = (TR)((TR)((TR)kd[i] * (TR)(u + 1)) * (TR)((TR)1 << (W<TR> - (j + 1) * P::basebit)));
        for (uint32_t q = 0; q < R::n; q++) sym_eq_exact<TR>(ph[q], q ? (TR)0 : m, "row of a scalar-to-ring key");
    }
}
template <class R> static void annihilate()
{
    using T = typename R::T;
    auto key = skey<R>();
    static AnnihilateKey<R> a;
    annihilatekeygen<R>(a, *SK);
    for (uint32_t s = 0; s < R::nbit; s++) for (uint32_t b = 0; b < R::k; b++) {
        Polynomial<R> part;
        for (uint32_t j = 0; j < R::n; j++) part[j] = key[b * R::n + j];
        auto m = sch::refauto<R>(part, (1u << (R::nbit - s)) + 1);
        for (uint32_t i = 0; i < R::l; i++) {
            TRLWE<R> c;
            for (uint32_t q = 0; q <= R::k; q++) TwistFFT<R>(c[q], a[s][b][i][q]);
            auto ph = sch::refphase<R>(c, key);
            for (uint32_t j = 0; j < R::n; j++) sym_eq_exact<T>(ph[j], (T)(m[j] * (T)((T)1 << (W<T> - (i + 1) * R::Bgbit))), "row of a substitution key");
        }
    }
}
extern "C" void harness()
{
    secret();
    EvalKey ek(*SK);
    [[maybe_unused]] auto* ST = stale();
#if PART_KS == 2
    toring<lvl11param>(); toring<lvl22param>();
    annihilate<lvl1param>(); annihilate<lvl2param>();
#elif PART_KS == 0
    for (auto* sk : {ST, SK}) {
        ek.emplaceiksk<lvl10param>(*sk); ek.emplaceiksk<lvl1hparam>(*sk); ek.emplaceiksk<lvl20param>(*sk); ek.emplaceiksk<lvl2hparam>(*sk);
        ek.emplaceiksk<lvl21param>(*sk); ek.emplaceiksk<lvl22param>(*sk); ek.emplaceiksk<lvl31param>(*sk); ek.emplacesubiksk<lvl21param>(*sk);
    }
    iks<lvl10param>(ek); iks<lvl1hparam>(ek); iks<lvl20param>(ek); iks<lvl2hparam>(ek); iks<lvl21param>(ek); iks<lvl22param>(ek); iks<lvl31param>(ek);
    {
        using P = lvl21param; using D = lvl2param; using R = lvl1param; using TR = R::T;
        auto kd = skey<D>();
        Key<R> kr;
        for (uint32_t i = 0; i < R::k * R::n; i++) kr[i] = (TR)kd[i];
        auto c = probe<D>(7);
        TLWE<R> r;
        SubsetIdentityKeySwitch<P>(r, c, ek.getsubiksk<P>());
        TR want = 0;
        for (uint32_t i = 0; i < D::k * D::n; i++) {
            const D::T x = c[i];
            want = (TR)(want - (TR)((TR)kd[i] * (i < R::k * R::n ? (TR)((x + ((D::T)1 << 31)) >> 32) : rounded<P>(x))));
        }
        sym_eq_exact<TR>(sch::refphase<R>(r, kr), want, "subset switching key");
    }
#else
    auto f = sch::poly<lvl1param>("f"), g = sch::poly<lvl1param>("g"), h = sch::poly<lvl1param>("h"), s = sch::poly<lvl1param>("s");
    auto e = sch::poly<lvl2param>("e");
    Polynomial<lvl1param> z1{}; Polynomial<lvl2param> z2{};
    ek.emplaceprivksk<lvl11param>("one", z1, *ST); ek.emplaceprivksk<lvl21param>("one", z1, *ST); ek.emplaceprivksk<lvl22param>("one", z2, *ST); ek.emplacesubprivksk<lvl21param>("one", z1, *ST);
    ek.emplaceprivksk<lvl11param>("one", f, *SK);
    ek.emplaceprivksk<lvl21param>("one", g, *SK);
    ek.emplaceprivksk<lvl21param>("two", h, *SK);
    ek.emplaceprivksk<lvl22param>("one", e, *SK);
    ek.emplacesubprivksk<lvl21param>("one", s, *SK);
    priv<lvl11param>(ek.getprivksk<lvl11param>("one"), f);
    priv<lvl21param>(ek.getprivksk<lvl21param>("one"), g);
    priv<lvl21param>(ek.getprivksk<lvl21param>("two"), h);
    priv<lvl22param>(ek.getprivksk<lvl22param>("one"), e);
    {
        using P = lvl21param; using R = lvl1param; using TR = R::T;
        auto kd = skey<lvl2param>(); auto kr = skey<R>();
        auto c = probe<R>(9);
        TRLWE<R> r;
        SubsetPrivKeySwitch<P>(r, c, ek.getsubprivksk<P>("one"));
        TR m = rounded<P>(c[R::k * R::n]);
        for (uint32_t i = 0; i < R::k * R::n; i++) m = (TR)(m - (TR)((TR)kd[i] * rounded<P>(c[i])));
        auto ph = sch::refphase<R>(r, kr);
        for (uint32_t i = 0; i < R::n; i++) sym_eq_exact<TR>(ph[i], (TR)(m * s[i]), "subset private switching key");
    }
#endif
    sym_reach("end");
}
#endif
#endif
