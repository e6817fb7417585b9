// What is saved is what is loaded: the library's serialize functions drive a recording
// archive, whose record is then loaded into another object.
#include "stdstub.hpp"
#include "scheme.hpp"
#include <io-packet.hpp>
using namespace TFHEpp;
template <class T> constexpr uint32_t W = std::numeric_limits<T>::digits;
static uint64_t buf[1 << 18];
static uint32_t wr, rd;
template <class T> struct isarr : std::false_type {};
template <class T, size_t N> struct isarr<std::array<T, N>> : std::true_type {};
template <class T, size_t N> struct isarr<TFHEpp::aligned_array<T, N>> : std::true_type {};
template <class T> struct is_sptr : std::false_type {};
template <class T> struct is_sptr<std::shared_ptr<T>> : std::true_type {};
template <class T> struct is_vec : std::false_type {};
template <class T, class A> struct is_vec<std::vector<T, A>> : std::true_type {};
template <class T> struct is_map : std::false_type {};
template <class K, class V> struct is_map<std::unordered_map<K, V>> : std::true_type {};
template <class T> constexpr bool is_ntt = std::is_same_v<T, cuHEpp::INTorus>;
template <class T> static uint64_t bits(T v) { uint64_t b = 0; __builtin_memcpy(&b, &v, sizeof v); return b; }
template <class T> static T unbits(uint64_t b) { T v; __builtin_memcpy(&v, &b, sizeof v); return v; }

struct Save {
    template <class... A> void operator()(A&... a) { (one(a), ...); }
    template <class T> void one(T& x)
    {
        if constexpr (std::is_arithmetic_v<T>) buf[wr++] = bits(x);
        else if constexpr (isarr<T>::value) { for (auto& y : x) one(y); }
        else if constexpr (is_sptr<T>::value) { buf[wr++] = x ? 1 : 0; if (x) one(*x); }
        else if constexpr (is_vec<T>::value || std::is_same_v<T, std::string>) { buf[wr++] = x.size(); for (auto& y : x) one(y); }
        else if constexpr (is_map<T>::value) { buf[wr++] = x.size(); for (auto& [k, v] : x) { std::string n = k; one(n); one(v); } }
        else x.serialize(*this);
    }
};
struct Load {
    template <class... A> void operator()(A&... a) { (one(a), ...); }
    template <class T> void one(T& x)
    {
        if constexpr (std::is_arithmetic_v<T>) x = unbits<T>(buf[rd++]);
        else if constexpr (isarr<T>::value) { for (auto& y : x) one(y); }
        else if constexpr (is_sptr<T>::value) { if (buf[rd++]) { x = std::shared_ptr<typename T::element_type>((typename T::element_type*)operator new(sizeof(typename T::element_type), std::align_val_t(64)), [](auto*) {}); one(*x); } else x.reset(); }
        else if constexpr (is_vec<T>::value || std::is_same_v<T, std::string>) { x.resize(buf[rd++]); for (auto& y : x) one(y); }
        else if constexpr (is_map<T>::value) { const uint64_t n = buf[rd++]; x.clear(); for (uint64_t i = 0; i < n; i++) { std::string s; one(s); one(x[s]); } }
        else x.serialize(*this);
    }
};
// fills an object with arbitrary content
template <class T> static void any(T& x)
{
    if constexpr (std::is_floating_point_v<T>) x = sym_double("word");
    else if constexpr (std::is_arithmetic_v<T>) x = (T)sym_int(sizeof(T) * 8, "word");
    else if constexpr (isarr<T>::value) { for (auto& y : x) any(y); }
    else x.value = sym_int(64, "word");
}
template <class T> static void same(const T& a, const T& b, const char* what)
{
    if constexpr (std::is_arithmetic_v<T>) sym_eq_exact<uint64_t>(bits(a), bits(b), what);
    else if constexpr (isarr<T>::value) { for (size_t i = 0; i < a.size(); i++) same(a[i], b[i], what); }
    else if constexpr (is_ntt<T>) same(a.value, b.value, what);
    else if constexpr (is_sptr<T>::value) { SYM_ASSERT((bool)a == (bool)b, what); if (a) { SYM_ASSERT(a.get() != b.get(), what); same(*a, *b, what); } }
    else if constexpr (is_vec<T>::value) { SYM_ASSERT(a.size() == b.size(), what); for (size_t i = 0; i < a.size(); i++) same(a[i], b[i], what); }
    else { SYM_ASSERT(a.size() == b.size(), what); for (auto& [k, v] : a) { auto it = b.find(k); SYM_ASSERT(it != b.end(), what); same(v, it->second, what); } }
}
template <class T> static T* fresh() { return (T*)operator new(sizeof(T), std::align_val_t(64)); }
template <class T> static void put(std::shared_ptr<T>& s, bool on) { if (on) { s = std::shared_ptr<T>(fresh<T>(), [](auto*) {}); any(*s); } }
static void anyparams(lweParams& p)
{
    any(p.lvl0.n); any(p.lvl0.α); any(p.lvl0.approx_bit);
    any(p.lvl1.nbit); any(p.lvl1.n); any(p.lvl1.l); any(p.lvl1.Bgbit); any(p.lvl1.Bg); any(p.lvl1.α); any(p.lvl1.approx_bit);
    any(p.lvl2.nbit); any(p.lvl2.n); any(p.lvl2.l); any(p.lvl2.Bgbit); any(p.lvl2.Bg); any(p.lvl2.approx_bit);
    any(p.lvl10.t); any(p.lvl10.basebit); any(p.lvl10.α); any(p.lvl20.t); any(p.lvl20.basebit); any(p.lvl20.α);
    any(p.lvl21.t); any(p.lvl21.basebit); any(p.lvl22.t); any(p.lvl22.basebit);
}
static void sameparams(const lweParams& a, const lweParams& b)
{
    const char* w = "parameters";
    same(a.lvl0.n, b.lvl0.n, w); same(a.lvl0.α, b.lvl0.α, w); same(a.lvl0.approx_bit, b.lvl0.approx_bit, w);
    same(a.lvl1.nbit, b.lvl1.nbit, w); same(a.lvl1.n, b.lvl1.n, w); same(a.lvl1.l, b.lvl1.l, w); same(a.lvl1.Bgbit, b.lvl1.Bgbit, w); same(a.lvl1.Bg, b.lvl1.Bg, w); same(a.lvl1.α, b.lvl1.α, w); same(a.lvl1.approx_bit, b.lvl1.approx_bit, w);
    same(a.lvl2.nbit, b.lvl2.nbit, w); same(a.lvl2.n, b.lvl2.n, w); same(a.lvl2.l, b.lvl2.l, w); same(a.lvl2.Bgbit, b.lvl2.Bgbit, w); same(a.lvl2.Bg, b.lvl2.Bg, w); same(a.lvl2.approx_bit, b.lvl2.approx_bit, w);
    same(a.lvl10.t, b.lvl10.t, w); same(a.lvl10.basebit, b.lvl10.basebit, w); same(a.lvl10.α, b.lvl10.α, w);
    same(a.lvl20.t, b.lvl20.t, w); same(a.lvl20.basebit, b.lvl20.basebit, w); same(a.lvl20.α, b.lvl20.α, w);
    same(a.lvl21.t, b.lvl21.t, w); same(a.lvl21.basebit, b.lvl21.basebit, w); same(a.lvl22.t, b.lvl22.t, w); same(a.lvl22.basebit, b.lvl22.basebit, w);
}
template <class T> static void trip(T& a, T& b)
{
    Save s; a.serialize(s);
    Load l; b.serialize(l);
    SYM_ASSERT(wr == rd, "loading consumes exactly what was saved");
}
#if defined(PART_EK)
#ifndef WHICH
#define WHICH 0xffffff
#endif
static void fill(EvalKey& k, uint32_t m)
{
    anyparams(k.params);
    int i = 0;
    auto on = [&] { return m >> i++ & 1; };
    put(k.bklvl01, on()); put(k.bklvlh1, on()); put(k.bklvl02, on()); put(k.bklvlh2, on());
    put(k.bkfftlvl01, on()); put(k.bkfftlvlh1, on()); put(k.bkfftlvl02, on()); put(k.bkfftlvlh2, on());
    put(k.bknttlvl01, on()); put(k.bknttlvlh1, on()); put(k.bknttlvl02, on()); put(k.bknttlvlh2, on());
    put(k.iksklvl10, on()); put(k.iksklvl1h, on()); put(k.iksklvl20, on()); put(k.iksklvl2h, on()); put(k.iksklvl21, on()); put(k.iksklvl22, on()); put(k.iksklvl31, on());
    put(k.subiksklvl21, on());
    if (on()) { put(k.privksklvl11["identity"], true); put(k.privksklvl11["a name longer than the short string buffer"], true); }
    if (on()) { put(k.privksklvl21["identity"], true); put(k.privksklvl21["privksk4cb_0"], true); put(k.privksklvl21["privksk4cb_1"], true); }
    if (on()) put(k.privksklvl22["privksk4cb_0"], true);
    if (on()) { put(k.subprivksklvl21["subprivksk4cb_0"], true); put(k.subprivksklvl21["identity"], true); }
}
extern "C" void harness()
{
    EvalKey a, b;
#ifdef ABSENT
    // any one member is missing
    const uint32_t gone = (uint32_t)sym_int(5, "gone");
    sym_assume(gone < 24);
    fill(a, WHICH & ~(1u << gone));
#else
    fill(a, WHICH);
#endif
#ifdef OVER
    fill(b, OVER);
#endif
    trip(a, b);
    sameparams(a.params, b.params);
#define SAME(f) same(a.f, b.f, "evaluation key member " #f)
    SAME(bklvl01); SAME(bklvlh1); SAME(bklvl02); SAME(bklvlh2); SAME(bkfftlvl01); SAME(bkfftlvlh1); SAME(bkfftlvl02); SAME(bkfftlvlh2);
    SAME(bknttlvl01); SAME(bknttlvlh1); SAME(bknttlvl02); SAME(bknttlvlh2);
    SAME(iksklvl10); SAME(iksklvl1h); SAME(iksklvl20); SAME(iksklvl2h); SAME(iksklvl21); SAME(iksklvl22); SAME(iksklvl31); SAME(subiksklvl21);
    SAME(privksklvl11); SAME(privksklvl21); SAME(privksklvl22); SAME(subprivksklvl21);
    sym_reach("end");
}
#elif defined(PART_SK)
extern "C" void harness()
{
    SecretKey &a = *fresh<SecretKey>(), &b = *fresh<SecretKey>();
    new (&a.params) lweParams(); new (&b.params) lweParams();
    any(a.key.lvl0); any(a.key.lvlhalf); any(a.key.lvl1); any(a.key.lvl2); any(a.key.lvl3); anyparams(a.params);
    {
        // the parts of the parameters can also be saved one by one
        static lweParams p, q;
        anyparams(p); q.lvl22 = p.lvl22;
        trip(p.lvl0, q.lvl0); trip(p.lvl1, q.lvl1); trip(p.lvl2, q.lvl2); trip(p.lvl10, q.lvl10); trip(p.lvl20, q.lvl20); trip(p.lvl21, q.lvl21);
        sameparams(p, q);
    }
    trip(a, b);
    const char* w = "secret key";
    same(a.key.lvl0, b.key.lvl0, w); same(a.key.lvlhalf, b.key.lvlhalf, w); same(a.key.lvl1, b.key.lvl1, w); same(a.key.lvl2, b.key.lvl2, w); same(a.key.lvl3, b.key.lvl3, w);
    sameparams(a.params, b.params);
    sym_reach("end");
}
#elif defined(PART_IO)
extern "C" void harness()
{
    IOpacket a, b;
    const char* names[] = {"io", "in", "a port name longer than the short string buffer"};
    for (int i = 0; i < 3; i++) {
        a.tlwelvl0ports[names[i]].resize(i); a.tlwelvl1ports[names[i]].resize(2 - i); a.trlwelvl2ports[names[i]].resize(1); if (i) a.trgswlvl2ports[names[i]].resize(i);
    }
    for (auto& [k, v] : a.tlwelvl0ports) for (auto& x : v) any(x);
    for (auto& [k, v] : a.tlwelvl1ports) for (auto& x : v) any(x);
    for (auto& [k, v] : a.trlwelvl2ports) for (auto& x : v) any(x);
    for (auto& [k, v] : a.trgswlvl2ports) for (auto& x : v) any(x);
    any(a.numCycles);
    b.tlwelvl0ports["stale"].resize(1); b.trlwelvl2ports["in"].resize(3);
    trip(a, b);
    same(a.tlwelvl0ports, b.tlwelvl0ports, "level 0 ports"); same(a.tlwelvl1ports, b.tlwelvl1ports, "level 1 ports");
    same(a.trlwelvl2ports, b.trlwelvl2ports, "ring ports"); same(a.trgswlvl2ports, b.trgswlvl2ports, "gadget ports"); same(a.numCycles, b.numCycles, "cycle count");
    sym_reach("end");
}
#elif defined(PART_PARAM)
extern "C" void harness()
{
    const char* w = "description of the compiled parameters";
    static lweParams d;
#define IS(f, v) SYM_ASSERT(d.f == (v), w)
    IS(lvl0.n, lvl0param::n); IS(lvl0.α, lvl0param::α); IS(lvl0.approx_bit, W<lvl0param::T>);
    IS(lvl1.nbit, lvl1param::nbit); IS(lvl1.n, lvl1param::n); IS(lvl1.l, lvl1param::l); IS(lvl1.Bgbit, lvl1param::Bgbit); IS(lvl1.Bg, lvl1param::Bg); IS(lvl1.α, lvl1param::α); IS(lvl1.approx_bit, W<lvl1param::T>);
    IS(lvl2.nbit, lvl2param::nbit); IS(lvl2.n, lvl2param::n); IS(lvl2.l, lvl2param::l); IS(lvl2.Bgbit, lvl2param::Bgbit); IS(lvl2.Bg, lvl2param::Bg); IS(lvl2.approx_bit, W<lvl2param::T>);
    IS(lvl10.t, lvl10param::t); IS(lvl10.basebit, lvl10param::basebit); IS(lvl10.α, lvl0param::α); IS(lvl20.t, lvl20param::t); IS(lvl20.basebit, lvl20param::basebit); IS(lvl20.α, lvl0param::α);
    IS(lvl21.t, lvl21param::t); IS(lvl21.basebit, lvl21param::basebit); IS(lvl22.t, lvl22param::t); IS(lvl22.basebit, lvl22param::basebit);
    // equal exactly when every field is
    static lweParams a, b;
    anyparams(a); anyparams(b);
    int all = 1;
#define EQ(f) all = sym_and(all, a.f == b.f)
    EQ(lvl0.n); EQ(lvl0.α); EQ(lvl0.approx_bit); EQ(lvl1.nbit); EQ(lvl1.n); EQ(lvl1.l); EQ(lvl1.Bgbit); EQ(lvl1.Bg); EQ(lvl1.α); EQ(lvl1.approx_bit);
    EQ(lvl2.nbit); EQ(lvl2.n); EQ(lvl2.l); EQ(lvl2.Bgbit); EQ(lvl2.Bg); EQ(lvl2.approx_bit); EQ(lvl10.t); EQ(lvl10.basebit); EQ(lvl10.α); EQ(lvl20.t); EQ(lvl20.basebit); EQ(lvl20.α);
    EQ(lvl21.t); EQ(lvl21.basebit); EQ(lvl22.t); EQ(lvl22.basebit);
    const bool eq = a == b;
    SYM_ASSERT(all == (int)eq, "parameter sets compare equal exactly when every field is equal");
    if (eq) sym_reach("equal"); else sym_reach("different");
}
#endif
