// Residues: values known only modulo a prime and up to a range, with a ghost
// definition as a polynomial over the inputs modulo that prime.  Contracts of
// modular-arithmetic routines (proved separately on their code) introduce them;
// congruences between them are decided on the polynomial normal form.
#pragma once
struct RPoly { std::vector<std::pair<std::vector<uint32_t>, u64>> t; };  // sorted monomials (sorted expr ids), coef mod p
static std::unordered_map<uint32_t, RPoly> RESDEF;                       // derived var id -> polynomial
static u64 rmod(i128 v, u64 p) { i128 r = v % (i128)p; if (r < 0) r += p; return (u64)r; }
static RPoly rAdd(const RPoly& a, const RPoly& b, u64 cb, u64 p)
{
    RPoly r; r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        int c = i >= a.t.size() ? 1 : j >= b.t.size() ? -1 : a.t[i].first < b.t[j].first ? -1 : b.t[j].first < a.t[i].first ? 1 : 0;
        if (c < 0) r.t.push_back(a.t[i++]);
        else if (c > 0) { u64 k = (u64)((u128)b.t[j].second * cb % p); if (k) r.t.push_back({b.t[j].first, k}); j++; }
        else { u64 k = (u64)(((u128)b.t[j].second * cb + a.t[i].second) % p); if (k) r.t.push_back({a.t[i].first, k}); i++; j++; }
    }
    return r;
}
static RPoly rScale(const RPoly& a, u64 c, u64 p) { RPoly z; return rAdd(z, a, c, p); }
static RPoly rConst(u64 c, u64 p) { RPoly r; if (c % p) r.t.push_back({{}, c % p}); return r; }
static RPoly rMulP(const RPoly& a, const RPoly& b, u64 p)
{
    std::map<std::vector<uint32_t>, u64> m;
    for (auto& x : a.t) for (auto& y : b.t) {
        std::vector<uint32_t> k(x.first.size() + y.first.size());
        std::merge(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), k.begin());
        u64& c = m[k]; c = (u64)(((u128)x.second * y.second + c) % p);
    }
    RPoly r; for (auto& kv : m) if (kv.second) r.t.push_back(kv);
    return r;
}
static RPoly rOf(Expr* a, u64 p)
{
    Expr* y = a;
    while (y->op == O_FIELD && fieldLo(y) == 0) {
        i128 lo, hi;
        if (fieldLen(y) != y->k[0].e->w && !(urange(y->k[0].e, lo, hi) && hi < ((i128)1 << fieldLen(y)))) break;
        y = y->k[0].e;
    }
    auto it = RESDEF.find(y->id);
    if (it != RESDEF.end()) return it->second;
    RPoly r; r.t.push_back({{a->id}, 1 % p});
    return r;
}
// integer range of a sum whose sign-extended atoms are read as signed, as rEval does
static bool rSumRange(const Expr* e, i128& lo, i128& hi)
{
    if (e->w > 64) return false;
    i128 L = sx(e->cst, e->w), H = L;
    for (auto& t : e->t) {
        i128 a, b;
        if (t.a->op == O_SEXT ? !srange(Val(t.a), e->w, a, b) : !urange(t.a, a, b)) return false;
        i128 c = sx(t.c, e->w);
        if (a < -((i128)1 << 64) || b > ((i128)1 << 64) || c > ((i128)1 << 60) || c < -((i128)1 << 60)) return false;
        i128 x = c * a, y = c * b; if (x > y) std::swap(x, y);
        L += x; H += y;
        if (L < -((i128)1 << 122) || H > ((i128)1 << 122)) return false;
    }
    lo = L; hi = H; return true;
}
static RPoly rFrom(Val v, bool uns, u64 p)
{
    if (!v.e) return rConst(uns ? (u64)((u64)v.c % p) : rmod((i128)(i64)(u64)v.c, p), p);
    if (v.e->op == O_SUM) {
        i128 lo, hi;
        if (!rSumRange(v.e, lo, hi) || lo < -((i128)1 << 63) || hi >= ((i128)1 << 63)) { fail("residue of a word whose arithmetic may wrap: %s", show(v, 3).substr(0, 1500).c_str()); }
        RPoly r = rConst(rmod(sx(v.e->cst, 64), p), p);
        for (auto& t : v.e->t) r = rAdd(r, rOf(t.a, p), rmod(sx(t.c, 64), p), p);
        return r;
    }
    if (v.e->op == O_MUL) {
        RPoly r = rConst(1, p);
        for (auto& k : v.e->k) r = rMulP(r, rOf(k.e, p), p);
        return r;
    }
    if (v.e->op == O_ITE) {  // both branches the same residue
        RPoly a = rFrom(v.e->k[1], uns, p), b = rFrom(v.e->k[2], uns, p);
        if (rAdd(a, b, p - 1, p).t.empty()) return a;
    }
    if (getenv("TFSYM_RES")) fprintf(stderr, "residue atom %s\n", show(v, 4).c_str());
    return rOf(v.e, p);
}
static u64 rEval(const RPoly& a, Evaluator& ev, u64 p)
{
    u64 s = 0;
    for (auto& t : a.t) {
        u64 c = t.second;
        for (auto id : t.first) { Expr* e = allExprs()[id]; u128 x = ev.ev(e); u64 q = e->op == O_SEXT ? rmod(sx(x, e->w), p) : (u64)(x % p); c = (u64)((u128)c * q % p); }
        s = (u64)(((u128)s + c) % p);
    }
    return s;
}
static std::unordered_map<uint32_t, u64> RESMOD;
static Val resFresh(RPoly&& d, u64 p, i128 lo, i128 hi)
{
    if (d.t.empty() || (d.t.size() == 1 && d.t[0].first.empty())) {
        i128 v = d.t.empty() ? 0 : d.t[0].second;
        while (v > hi) v -= p;
        while (v < lo) v += p;
        return Val((u128)v & maskw(64));
    }
    u128 span = (u128)(hi - lo); unsigned k = 0; while (k < 64 && (span >> k)) k++;
    Expr* v = newVar("res", k);
    v->rng = true; v->lo = 0; v->hi = (i128)span;
    RESDEF[v->id] = std::move(d); RESMOD[v->id] = p;
    Val u = vZext(Val(v), k, 64);
    return lo == 0 ? u : vAdd(u, Val((u128)lo & maskw(64)), 64);
}
