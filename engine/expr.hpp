// Term DAG for the symbolic executor: hash-consed bit-vector terms (width <= 128)
// with a polynomial normal form for +,-,* modulo 2^w.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }
inline i128 sx(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    v &= maskw(w);
    if ((v >> (w - 1)) & 1) v |= ~maskw(w);
    return (i128)v;
}

enum Op : uint8_t {
    O_VAR,
    O_SUM,    // cst + sum coef*atom
    O_MUL,    // product of >=2 atoms
    O_FIELD,  // zext(extract(kid, lo, len)) ; aux = lo | len<<32
    O_SEXT,
    O_AND, O_OR, O_XOR, O_NOT /*w=1*/,
    O_SHL, O_LSHR, O_ASHR,
    O_UDIV, O_SDIV, O_UREM, O_SREM,
    O_CONCAT,  // kids high..low
    O_ITE,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    O_REAL,  // w=64 register holding an exact integer (kid, w=128) in a double
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FROUND, O_FFLOOR, O_FCEIL, O_FTRUNC, O_FRINT, O_FSQRT, O_FFMA,
    O_FEQ, O_FLT, O_FLE, O_FUNO,
    O_SITOFP, O_UITOFP, O_SITOF32, O_UITOF32, O_FRND32, O_FPTOSI, O_FPTOUI,
    O_F32,  // w=32 register holding single precision; the kid is the same number as a double
    O_UF
};
static const char* opname[] = {"var","sum","mul","field","sext","and","or","xor","not","shl","lshr","ashr","udiv","sdiv","urem","srem","concat","ite","eq","ult","ule","slt","sle","real","fadd","fsub","fmul","fdiv","fneg","fabs","fround","ffloor","fceil","ftrunc","frint","fsqrt","ffma","feq","flt","fle","funo","sitofp","uitofp","sitof32","uitof32","frnd32","fptosi","fptoui","f32","uf"};

struct Expr;
struct Val {
    u128 c;
    Expr* e;
    Val() : c(0), e(nullptr) {}
    Val(u128 x) : c(x), e(nullptr) {}
    Val(Expr* x) : c(0), e(x) {}
    bool isC() const { return !e; }
};
struct Term { Expr* a; u128 c; };
struct Expr {
    Op op;
    uint16_t w;
    uint32_t id;
    u64 aux;
    u64 h;
    u128 cst;                // SUM constant
    std::vector<Val> k;      // kids
    std::vector<Term> t;     // SUM terms
    bool rng; i128 lo, hi;   // cached unsigned range
    std::string name;
};

struct ExprHash { size_t operator()(const Expr* e) const { return e->h; } };
struct ExprEq {
    bool operator()(const Expr* a, const Expr* b) const
    {
        if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->cst != b->cst || a->k.size() != b->k.size() || a->t.size() != b->t.size()) return false;
        if (a->op == O_VAR) return a == b;
        for (size_t i = 0; i < a->k.size(); i++) if (a->k[i].e != b->k[i].e || a->k[i].c != b->k[i].c) return false;
        for (size_t i = 0; i < a->t.size(); i++) if (a->t[i].a != b->t[i].a || a->t[i].c != b->t[i].c) return false;
        return true;
    }
};
#include <unordered_set>
inline std::unordered_set<Expr*, ExprHash, ExprEq>& uniq() { static std::unordered_set<Expr*, ExprHash, ExprEq> s; return s; }
inline std::vector<Expr*>& allExprs() { static std::vector<Expr*> v; return v; }
inline std::vector<Expr*>& allVars() { static std::vector<Expr*> v; return v; }

inline u64 hmix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline Expr* intern(Expr&& x)
{
    u64 h = hmix(x.op * 131 + x.w, x.aux);
    h = hmix(h, (u64)x.cst); h = hmix(h, (u64)(x.cst >> 64));
    for (auto& v : x.k) { h = hmix(h, v.e ? v.e->id + 1 : 0); if (!v.e) { h = hmix(h, (u64)v.c); h = hmix(h, (u64)(v.c >> 64)); } }
    for (auto& t : x.t) { h = hmix(h, t.a->id); h = hmix(h, (u64)t.c); h = hmix(h, (u64)(t.c >> 64)); }
    x.h = h;
    auto it = uniq().find(&x);
    if (it != uniq().end()) return *it;
    Expr* e = new Expr(std::move(x));
    e->id = allExprs().size();
    e->rng = false;
    allExprs().push_back(e);
    uniq().insert(e);
    return e;
}
inline Expr* newVar(const std::string& name, unsigned w)
{
    Expr* e = new Expr();
    e->op = O_VAR; e->w = w; e->aux = 0; e->cst = 0; e->name = name; e->rng = false;
    e->id = allExprs().size(); e->h = hmix(e->id, 77);
    allExprs().push_back(e); allVars().push_back(e);
    uniq().insert(e);
    return e;
}
inline Expr* mk(Op op, unsigned w, std::vector<Val> k, u64 aux = 0)
{
    Expr x; x.op = op; x.w = w; x.aux = aux; x.cst = 0; x.k = std::move(k); x.id = 0; x.rng = false;
    return intern(std::move(x));
}

inline unsigned fieldLo(const Expr* e) { return (uint32_t)e->aux; }
inline unsigned fieldLen(const Expr* e) { return (uint32_t)(e->aux >> 32); }

Val vTrunc(Val v, unsigned from, unsigned to);
Val vBit(Op op, Val a, Val b, unsigned w);
Val vNot(Val b);
Val vExtract(Val v, unsigned w, unsigned lo, unsigned len);  // width len result
Val vField(Val v, unsigned w, unsigned lo, unsigned len, unsigned to);
Val vZext(Val v, unsigned from, unsigned to);
Val vSext(Val v, unsigned from, unsigned to);
Val vIte(Val c, Val a, Val b, unsigned w);
Val vAdd(Val a, Val b, unsigned w);
Val vMul(Val a, Val b, unsigned w);
Val vMulC(Val a, u128 c, unsigned w);

// exact unsigned range; returns lo,hi in [0,2^w-1], only for w<=64 (else full)
inline bool urange(Expr* e, i128& lo, i128& hi);
inline bool sumRange(const Expr* e, i128& lo, i128& hi)
{
    // integer range of the sum with coefficients read as signed; false if too big
    if (e->w > 64) return false;
    i128 L = sx(e->cst, e->w), H = L;
    for (auto& t : e->t) {
        i128 a, b;
        if (!urange(t.a, a, b)) return false;
        i128 c = sx(t.c, e->w);
        // guard overflow: |c| < 2^64, b < 2^64
        if (c > ((i128)1 << 60) || c < -((i128)1 << 60) || b > ((i128)1 << 60)) {
            if (!(b <= 1 || (c <= 1 && c >= -1))) return false;
        }
        i128 x = c * a, y = c * b;
        if (x > y) std::swap(x, y);
        L += x; H += y;
        if (L < -((i128)1 << 122) || H > ((i128)1 << 122)) return false;
    }
    lo = L; hi = H;
    return true;
}
inline bool urange(Expr* e, i128& lo, i128& hi)
{
    if (e->w > 64) return false;
    if (e->rng) { lo = e->lo; hi = e->hi; return true; }
    lo = 0; hi = (i128)maskw(e->w);
    switch (e->op) {
    case O_FIELD: {
        unsigned len = fieldLen(e);
        hi = (i128)maskw(len);
        Expr* y = e->k[0].e;
        i128 a, b;
        if (fieldLo(e) == 0 && urange(y, a, b) && b <= hi) { lo = a; hi = b; }
        else if (y->w <= 64 && urange(y, a, b) && (a >> (fieldLo(e) + len)) == (b >> (fieldLo(e) + len))) { i128 m = (i128)maskw(len); lo = (a >> fieldLo(e)) & m; hi = (b >> fieldLo(e)) & m; }
        break; }
    case O_SUM: {
        i128 a, b;
        if (sumRange(e, a, b)) {
            i128 M = (i128)1 << e->w;
            if (a >= 0 && b < M) { lo = a; hi = b; }
            else if (a < 0 && b < 0 && a >= -M) { lo = a + M; hi = b + M; }
        }
        break; }
    case O_ITE: {
        i128 a, b, c, d; bool ok = true;
        if (e->k[1].e) ok = urange(e->k[1].e, a, b); else a = b = (i128)e->k[1].c;
        if (ok) { if (e->k[2].e) ok = urange(e->k[2].e, c, d); else c = d = (i128)e->k[2].c; }
        if (ok) { lo = std::min(a, c); hi = std::max(b, d); }
        break; }
    case O_UREM: if (!e->k[1].e && e->k[1].c) hi = (i128)e->k[1].c - 1; break;
    case O_UDIV: if (!e->k[1].e && e->k[1].c && e->k[0].e) { i128 a, b; if (urange(e->k[0].e, a, b)) { lo = a / (i128)e->k[1].c; hi = b / (i128)e->k[1].c; } } break;
    case O_AND: for (auto& v : e->k) { i128 a, b; if (!v.e) { if ((i128)v.c < hi) hi = (i128)v.c; } else if (urange(v.e, a, b) && b < hi) hi = b; } break;
    default: break;
    }
    e->rng = true; e->lo = lo; e->hi = hi;
    return true;
}
inline bool vrange(Val v, unsigned w, i128& lo, i128& hi)
{
    if (!v.e) { if (w > 64) return false; lo = hi = (i128)(v.c & maskw(w)); return true; }
    return urange(v.e, lo, hi);
}
// signed range
inline bool srange(Val v, unsigned w, i128& lo, i128& hi)
{
    if (!v.e) { lo = hi = sx(v.c, w); return true; }
    if (w > 64) return false;
    if (v.e->op == O_SUM) {
        i128 a, b;
        if (sumRange(v.e, a, b) && a >= -((i128)1 << (w - 1)) && b < ((i128)1 << (w - 1))) { lo = a; hi = b; return true; }
    }
    if (v.e->op == O_SEXT) { if (srange(v.e->k[0], v.e->k[0].e->w, lo, hi)) return true; }
    if (v.e->op == O_ITE) { i128 a,b,c,d; if (srange(v.e->k[1], w, a, b) && srange(v.e->k[2], w, c, d)) { lo = std::min(a,c); hi = std::max(b,d); return true; } }
    i128 a, b;
    if (urange(v.e, a, b)) {
        i128 H = (i128)1 << (w - 1);
        if (b < H) { lo = a; hi = b; return true; }
        if (a >= H) { lo = a - 2 * H; hi = b - 2 * H; return true; }
    }
    lo = -((i128)1 << (w - 1)); hi = ((i128)1 << (w - 1)) - 1;
    return true;
}

// --- sums ---------------------------------------------------------------
Val finishSum(u128 cst, std::vector<Term>&& t, unsigned w)
{
    u128 m = maskw(w);
    cst &= m;
    // merge adjacent slices of the same word
    bool two = false;
    if (t.size() >= 2) {
        // look for FIELD atoms with the same kid
        static thread_local std::unordered_map<Expr*, int> cnt;
        cnt.clear();
        for (auto& x : t) if (x.a->op == O_FIELD) { if (++cnt[x.a->k[0].e] > 1) { two = true; } }
        // whole-word terms combined with fields of the same word
        if (!cnt.empty() && !two) for (auto& x : t) if (x.a->op != O_FIELD && x.a->w == w && cnt.count(x.a)) { two = true; break; }
    }
    if (two) {
        bool again = true;
        while (again) {
            again = false;
            std::unordered_map<Expr*, std::vector<size_t>> g;
            for (size_t i = 0; i < t.size(); i++) {
                if (t[i].a->op == O_FIELD) g[t[i].a->k[0].e].push_back(i);
            }
            for (size_t i = 0; i < t.size(); i++) { if (t[i].a->op != O_FIELD) { auto it = g.find(t[i].a); if (it != g.end()) it->second.push_back(i); } }
            for (auto& kv : g) {
                if (kv.second.size() < 2 || again) continue;
                Expr* y = kv.first;
                auto LO = [&](size_t i) { return t[i].a == y ? 0u : fieldLo(t[i].a); };
                auto LEN = [&](size_t i) { return t[i].a == y ? (unsigned)y->w : fieldLen(t[i].a); };
                for (size_t p : kv.second) {
                    for (size_t q : kv.second) {
                        if (p == q) continue;
                        unsigned lp = LO(p), np = LEN(p), lq = LO(q), nq = LEN(q);
                        u128 nc; unsigned nlo, nlen; bool hit = false;
                        if (lq == lp + np && np < 128 && ((t[p].c << np) & m) == t[q].c) { nc = t[p].c; nlo = lp; nlen = np + nq; hit = true; }
                        // big(p) contains q aligned at an end, coef cancels: c*F(l,n) - c*2^(lq-lp)*F(lq,nq)
                        else if (nq < np && lq >= lp && lq + nq <= lp + np && ((((t[p].c << (lq - lp)) + t[q].c) & m) == 0)) {
                            if (lq == lp) { nlo = lp + nq; nlen = np - nq; nc = (t[p].c << nq) & m; hit = true; }
                            else if (lq + nq == lp + np) { nlo = lp; nlen = np - nq; nc = t[p].c; hit = true; }
                        }
                        if (hit) {
                            Val f = vField(Val(y), y->w, nlo, nlen, w);
                            std::vector<Term> r;
                            for (size_t i = 0; i < t.size(); i++) if (i != p && i != q) r.push_back(t[i]);
                            // add nc*f
                            if (nc) {
                                Val base = finishSum(cst, std::move(r), w);
                                return vAdd(base, vMulC(f, nc, w), w);
                            }
                            t = std::move(r);
                            again = true;
                            break;
                        }
                    }
                    if (again) break;
                }
            }
        }
    }
    if (t.empty()) return Val(cst);
    if (t.size() == 1 && cst == 0 && t[0].c == 1) return Val(t[0].a);
    Expr x; x.op = O_SUM; x.w = w; x.aux = 0; x.cst = cst; x.t = std::move(t); x.id = 0; x.rng = false;
    return Val(intern(std::move(x)));
}
Val vAdd2(Val a, Val b, u128 cb, unsigned w)  // a + cb*b
{
    u128 m = maskw(w);
    cb &= m;
    if (!a.e && !b.e) return Val((a.c + cb * b.c) & m);
    if (cb == 0) return a;
    Term ta{nullptr, 1}, tb{nullptr, 1};
    const Term *pa = nullptr, *pb = nullptr; size_t na = 0, nb = 0; u128 c = 0;
    if (a.e) { if (a.e->op == O_SUM) { pa = a.e->t.data(); na = a.e->t.size(); c += a.e->cst; } else { ta.a = a.e; pa = &ta; na = 1; } } else c += a.c;
    if (b.e) { if (b.e->op == O_SUM) { pb = b.e->t.data(); nb = b.e->t.size(); c += b.e->cst * cb; } else { tb.a = b.e; pb = &tb; nb = 1; } } else c += b.c * cb;
    std::vector<Term> r; r.reserve(na + nb);
    size_t i = 0, j = 0;
    while (i < na || j < nb) {
        if (j >= nb || (i < na && pa[i].a->id < pb[j].a->id)) r.push_back(pa[i++]);
        else if (i >= na || pb[j].a->id < pa[i].a->id) { u128 q = (pb[j].c * cb) & m; if (q) r.push_back({pb[j].a, q}); j++; }
        else { u128 q = (pa[i].c + pb[j].c * cb) & m; if (q) r.push_back({pa[i].a, q}); i++; j++; }
    }
    return finishSum(c, std::move(r), w);
}
Val vAdd(Val a, Val b, unsigned w) { return vAdd2(a, b, 1, w); }
Val vSub(Val a, Val b, unsigned w) { return vAdd2(a, b, ~(u128)0, w); }
Val vMulC(Val a, u128 c, unsigned w) { if (!a.e) return Val((a.c * c) & maskw(w)); if ((c & maskw(w)) == 1) return a; return vAdd2(Val((u128)0), a, c, w); }
Val vNeg(Val a, unsigned w) { return vMulC(a, ~(u128)0, w); }
Val mulAtoms(Expr* a, Expr* b, unsigned w)
{
    std::vector<Val> k;
    auto add = [&](Expr* x) { if (x->op == O_MUL) for (auto& v : x->k) k.push_back(v); else k.push_back(Val(x)); };
    add(a); add(b);
    std::sort(k.begin(), k.end(), [](const Val& x, const Val& y) { return x.e->id < y.e->id; });
    // single-bit fields are idempotent
    std::vector<Val> r;
    for (auto& v : k) { if (!r.empty() && r.back().e == v.e && v.e->op == O_FIELD && fieldLen(v.e) == 1) continue; r.push_back(v); }
    if (r.size() == 1) return r[0];
    return Val(mk(O_MUL, w, std::move(r)));
}
static size_t g_mulLimit = 20000;
Val vMul(Val a, Val b, unsigned w)
{
    if (!a.e) { if (!b.e) return Val((a.c * b.c) & maskw(w)); std::swap(a, b); }
    if (!b.e) return vMulC(a, b.c, w);
    size_t na = a.e->op == O_SUM ? a.e->t.size() + 1 : 1, nb = b.e->op == O_SUM ? b.e->t.size() + 1 : 1;
    if (na == 1 && nb == 1) return mulAtoms(a.e, b.e, w);
    if (na * nb > g_mulLimit) return Val(mk(O_MUL, w, a.e->id < b.e->id ? std::vector<Val>{a, b} : std::vector<Val>{b, a}));
    Term ta{a.e, 1}, tb{b.e, 1};
    const Term* pa = na == 1 ? &ta : a.e->t.data(); const Term* pb = nb == 1 ? &tb : b.e->t.data();
    size_t ca = na == 1 ? 1 : na - 1, cb = nb == 1 ? 1 : nb - 1;
    u128 ka = na == 1 ? 0 : a.e->cst, kb = nb == 1 ? 0 : b.e->cst, m = maskw(w);
    std::unordered_map<Expr*, u128> acc;
    for (size_t i = 0; i < ca; i++) {
        acc[pa[i].a] += pa[i].c * kb;
        for (size_t j = 0; j < cb; j++) { Val p = mulAtoms(pa[i].a, pb[j].a, w); acc[p.e] += pa[i].c * pb[j].c; }
    }
    for (size_t j = 0; j < cb; j++) acc[pb[j].a] += pb[j].c * ka;
    std::vector<Term> r;
    for (auto& kv : acc) if (kv.second & m) r.push_back({kv.first, kv.second & m});
    std::sort(r.begin(), r.end(), [](const Term& x, const Term& y) { return x.a->id < y.a->id; });
    return finishSum((ka * kb) & m, std::move(r), w);
}

struct TK { Expr* e; u64 k; bool operator==(const TK& o) const { return e == o.e && k == o.k; } };
struct TKH { size_t operator()(const TK& t) const { return hmix((u64)t.e, t.k); } };
inline std::unordered_map<TK, Val, TKH>& fieldMemo() { static std::unordered_map<TK, Val, TKH> m; return m; }

// merge slices of one word that appear multiplied by a common cofactor:
//   c*R*F(y,l,n) + c*2^n*R*F(y,l+n,m)  ->  c*R*F(y,l,n+m)
// applied where it matters (equalities, opaque fields), memoised
// some word of width `to` congruent to v modulo 2^from (used under a coefficient that kills the rest)
Val vLift(Val v, unsigned from, unsigned to)
{
    if (from >= to || !v.e) return v;
    Expr* e = v.e;
    TK key{e, (u64)to << 40 | 7};
    auto it = fieldMemo().find(key); if (it != fieldMemo().end()) return it->second;
    Val r;
    switch (e->op) {
    case O_SUM: r = Val(e->cst); for (auto& t : e->t) r = vAdd2(r, vLift(Val(t.a), from, to), t.c, to); break;
    case O_MUL: r = vLift(e->k[0], from, to); for (size_t i = 1; i < e->k.size(); i++) r = vMul(r, vLift(e->k[i], from, to), to); break;
    case O_SEXT: r = vSext(e->k[0], e->k[0].e->w, to); break;
    case O_ITE: r = vIte(e->k[0], vLift(e->k[1], from, to), vLift(e->k[2], from, to), to); break;
    default: r = vZext(v, from, to);
    }
    fieldMemo()[key] = r;
    return r;
}
inline bool liftable(Expr* a, u128 c, unsigned w)
{
    if (a->op != O_FIELD) return false;
    Expr* y = a->k[0].e;
    unsigned lo = fieldLo(a), len = fieldLen(a);
    if (len >= 128 || ((c << len) & maskw(w)) != 0) return false;
    if (lo + len < y->w && len < w) return true;
    return lo == 0 && y->w == len && (y->op == O_SUM || y->op == O_MUL || y->op == O_ITE);
}
Val vLiftField(Expr* a, unsigned w)
{
    Expr* y = a->k[0].e; unsigned lo = fieldLo(a), len = fieldLen(a);
    if (lo + len < y->w && len < w) return vField(Val(y), y->w, lo, std::min(y->w - lo, w), w);
    return vLift(Val(y), len, w);
}
inline std::unordered_map<Expr*, Val>& cofMemo() { static std::unordered_map<Expr*, Val> m; return m; }
Val mergeCof(Val v, unsigned w)
{
    if (!v.e || v.e->op != O_SUM || v.e->t.size() < 2) return v;
    auto itm = cofMemo().find(v.e);
    if (itm != cofMemo().end()) return itm->second;
    Expr* orig = v.e;
    u128 m = maskw(w);
    for (int iter = 0; iter < 64; iter++) {
        if (!v.e || v.e->op != O_SUM) break;
        {   // distribute extensions whose upper part is killed by the coefficient
            Val base(v.e->cst); bool ch = false; std::vector<Term> keep; Val ext((u128)0);
            for (auto& x : v.e->t) {
                if (liftable(x.a, x.c, w)) { ch = true; ext = vAdd2(ext, vLiftField(x.a, w), x.c, w); continue; }
                if (x.a->op == O_MUL) {
                    bool any = false; for (auto& f : x.a->k) if (f.e && liftable(f.e, x.c, w)) any = true;
                    if (any) { ch = true; Val r((u128)1); for (auto& f : x.a->k) r = vMul(r, f.e && liftable(f.e, x.c, w) ? vLiftField(f.e, w) : f, w); ext = vAdd2(ext, r, x.c, w); continue; }
                }
                keep.push_back(x);
            }
            if (ch) { v = vAdd2(finishSum(v.e->cst, std::move(keep), w), ext, 1, w); continue; }
        }
        struct It { size_t i; unsigned lo, len; int f; };
        struct GK { Expr* y; u64 h; bool operator==(const GK& o) const { return y == o.y && h == o.h; } };
        struct GKH { size_t operator()(const GK& t) const { return hmix((u64)t.y, t.h); } };
        std::unordered_map<GK, std::vector<It>, GKH> g;
        auto& t = v.e->t;
        bool any = false;
        for (size_t i = 0; i < t.size(); i++) {
            Expr* a = t[i].a;
            if (a->op == O_FIELD) { auto& q = g[{a->k[0].e, 0}]; q.push_back({i, fieldLo(a), fieldLen(a), -1}); if (q.size() > 1) any = true; }
            else if (a->op == O_MUL) {
                for (size_t f = 0; f < a->k.size(); f++) {
                    Expr* x = a->k[f].e; if (!x || x->op != O_FIELD) continue;
                    if (x->k[0].e->w == 1) continue;
                    u64 h = 1; for (size_t q = 0; q < a->k.size(); q++) if (q != f) h = hmix(h, a->k[q].e ? a->k[q].e->id + 1 : 0);
                    auto& q = g[{x->k[0].e, h}]; q.push_back({i, fieldLo(x), fieldLen(x), (int)f}); if (q.size() > 1) any = true;
                }
            }
        }
        {   // low slices that were truncated into words of their own
            std::unordered_map<GK, std::pair<size_t, int>, GKH> at;
            for (size_t i = 0; i < t.size(); i++) {
                Expr* a = t[i].a;
                at[{a, 0}] = {i, -1};
                if (a->op == O_MUL) for (size_t f = 0; f < a->k.size(); f++) { if (!a->k[f].e) continue; u64 h = 1; for (size_t q = 0; q < a->k.size(); q++) if (q != f) h = hmix(h, a->k[q].e ? a->k[q].e->id + 1 : 0); at[{a->k[f].e, h}] = {i, (int)f}; }
            }
            for (auto& kv : g) {
                unsigned mn = 1000; for (auto& x : kv.second) mn = std::min(mn, x.lo);
                if (mn == 0 || mn == 1000) continue;
                Expr* y = kv.first.y;
                Val T = vTrunc(Val(y), y->w, mn);
                if (!T.e) continue;
                Val L = vZext(T, mn, w);
                if (!L.e || L.e->op == O_SUM) continue;
                if (L.e->op == O_FIELD && L.e->k[0].e == y) continue;
                auto it = at.find({L.e, kv.first.h});
                if (it != at.end()) { kv.second.push_back({it->second.first, 0, mn, it->second.second}); any = true; }
            }
        }
        if (!any) break;
        for (size_t i = 0; i < t.size(); i++) {
            Expr* a = t[i].a;
            if (a->op == O_FIELD) continue;
            auto it = g.find({a, 0}); if (it != g.end() && a->w == w) it->second.push_back({i, 0, w, -1});
            if (a->op == O_MUL) for (size_t f = 0; f < a->k.size(); f++) {
                Expr* x = a->k[f].e; if (!x || x->op == O_FIELD || x->w != w) continue;
                u64 h = 1; for (size_t q = 0; q < a->k.size(); q++) if (q != f) h = hmix(h, a->k[q].e ? a->k[q].e->id + 1 : 0);
                auto it2 = g.find({x, h}); if (it2 != g.end()) it2->second.push_back({i, 0, w, (int)f});
            }
        }
        std::vector<char> used(t.size(), 0);
        Val add((u128)0); bool changed = false;
        for (auto& kv : g) {
            auto& its = kv.second; if (its.size() < 2) continue;
            for (size_t p = 0; p < its.size(); p++) for (size_t q = 0; q < its.size(); q++) {
                if (p == q) continue;
                auto &P = its[p], &Q = its[q];
                if (P.i == Q.i || used[P.i] || used[Q.i]) continue;
                u128 cp = t[P.i].c, cq = t[Q.i].c, nc = 0; unsigned nlo = 0, nlen = 0; bool hit = false;
                if (Q.lo == P.lo + P.len && P.len < 128 && ((cp << P.len) & m) == cq) { nc = cp; nlo = P.lo; nlen = P.len + Q.len; hit = true; }
                else if (Q.len < P.len && Q.lo >= P.lo && Q.lo + Q.len <= P.lo + P.len && ((((cp << (Q.lo - P.lo)) + cq) & m) == 0)) {
                    if (Q.lo == P.lo) { nlo = P.lo + Q.len; nlen = P.len - Q.len; nc = (cp << Q.len) & m; hit = true; }
                    else if (Q.lo + Q.len == P.lo + P.len) { nlo = P.lo; nlen = P.len - Q.len; nc = cp; hit = true; }
                }
                if (!hit) continue;
                used[P.i] = used[Q.i] = 1; changed = true;
                Val r = vField(Val(kv.first.y), kv.first.y->w, nlo, nlen, w);
                if (P.f >= 0) { Expr* a = t[P.i].a; for (size_t z = 0; z < a->k.size(); z++) if ((int)z != P.f) r = vMul(r, a->k[z], w); }
                add = vAdd2(add, r, nc, w);
            }
        }
        if (!changed) break;
        std::vector<Term> rest; for (size_t i = 0; i < t.size(); i++) if (!used[i]) rest.push_back(t[i]);
        v = vAdd2(finishSum(v.e->cst, std::move(rest), w), add, 1, w);
    }
    cofMemo()[orig] = v;
    return v;
}

// --- structure ------------------------------------------------------------
Val vTrunc(Val v, unsigned from, unsigned to)
{
    if (from == to) return v;
    if (!v.e) return Val(v.c & maskw(to));
    Expr* e = v.e;
    TK key{e, (u64)to << 40 | 1};
    switch (e->op) {
    case O_FIELD: { unsigned lo = fieldLo(e), len = fieldLen(e); return vField(e->k[0], e->k[0].e->w, lo, std::min(len, to), to); }
    case O_SEXT: { unsigned wy = e->k[0].e->w; if (to <= wy) return vTrunc(e->k[0], wy, to); return vSext(e->k[0], wy, to); }
    case O_SUM: case O_MUL: case O_ITE: case O_AND: case O_OR: case O_XOR: {
        auto it = fieldMemo().find(key);
        if (it != fieldMemo().end()) return it->second;
        Val r;
        if (e->op == O_SUM) {
            if (e->t.size() <= 4) { r = Val(e->cst & maskw(to)); for (auto& t : e->t) r = vAdd2(r, vTrunc(Val(t.a), from, to), t.c, to); }
            else {
                // balanced accumulation through a map
                std::unordered_map<Expr*, u128> acc; u128 c = e->cst;
                for (auto& t : e->t) {
                    Val x = vTrunc(Val(t.a), from, to);
                    if (!x.e) c += t.c * x.c;
                    else if (x.e->op == O_SUM) { c += t.c * x.e->cst; for (auto& y : x.e->t) acc[y.a] += t.c * y.c; }
                    else acc[x.e] += t.c;
                }
                std::vector<Term> q; for (auto& kv : acc) if (kv.second & maskw(to)) q.push_back({kv.first, kv.second & maskw(to)});
                std::sort(q.begin(), q.end(), [](const Term& x, const Term& y) { return x.a->id < y.a->id; });
                r = finishSum(c, std::move(q), to);
            }
        }
        else if (e->op == O_MUL) { r = vTrunc(e->k[0], from, to); for (size_t i = 1; i < e->k.size(); i++) r = vMul(r, vTrunc(e->k[i], from, to), to); }
        else if (e->op == O_ITE) r = vIte(e->k[0], vTrunc(e->k[1], from, to), vTrunc(e->k[2], from, to), to);
        else {
            Val a = vTrunc(e->k[0], from, to), b = vTrunc(e->k[1], from, to);
            r = vBit(e->op, a, b, to);
        }
        fieldMemo()[key] = r;
        return r; }
    default: break;
    }
    return Val(mk(O_FIELD, to, {v}, (u64)to << 32));
}
// zext(extract(v, lo, len)) to width `to`
Val vField(Val v, unsigned w, unsigned lo, unsigned len, unsigned to)
{
    if (len > to) len = to;
    if (lo >= w || len == 0) return Val((u128)0);
    if (lo + len > w) len = w - lo;
    if (!v.e) return Val((v.c >> lo) & maskw(len));
    Expr* e = v.e;
    if (lo == 0 && len == w && to == w) return v;
    switch (e->op) {
    case O_FIELD: {
        unsigned l2 = fieldLo(e), n2 = fieldLen(e);
        if (lo >= n2) return Val((u128)0);
        return vField(e->k[0], e->k[0].e->w, l2 + lo, std::min(len, n2 - lo), to); }
    case O_SEXT: { unsigned wy = e->k[0].e->w; if (lo + len <= wy) return vField(e->k[0], wy, lo, len, to); break; }
    case O_CONCAT: {
        // kids high..low ; find a single kid containing the range
        unsigned pos = 0;
        for (size_t i = e->k.size(); i-- > 0;) {
            unsigned kw = (e->aux >> (8 * i)) & 0xff;  // widths packed
            if (lo >= pos && lo + len <= pos + kw) return vField(e->k[i], kw, lo - pos, len, to);
            pos += kw;
        }
        break; }
    case O_ITE:
        if (!e->k[1].e || !e->k[2].e || lo == 0) {
            TK key{e, ((u64)to << 40) | ((u64)len << 20) | ((u64)lo << 4) | 2};
            auto it = fieldMemo().find(key); if (it != fieldMemo().end()) return it->second;
            Val r = vIte(e->k[0], vField(e->k[1], w, lo, len, to), vField(e->k[2], w, lo, len, to), to);
            fieldMemo()[key] = r; return r;
        }
        break;
    default: break;
    }
    if (lo == 0 && len == w && to > w && e->op == O_SUM) return vZext(v, w, to);
    if (lo == 0 && len < w) {
        Val t = vTrunc(v, w, len);
        if (to == len) return t;
        if (!(t.e && t.e->op == O_FIELD && t.e->k[0].e == e && fieldLo(t.e) == 0 && fieldLen(t.e) == len)) return vZext(t, len, to);
    }
    if (lo > 0 && e->op == O_SUM) {
        // common power of two of the terms: the low bits of the constant cannot carry
        unsigned z = lo;
        for (auto& t : e->t) { unsigned q = 0; while (q < z && !((t.c >> q) & 1)) q++; z = std::min(z, q); }
        if (z > 0) {
            unsigned nw = w - z;
            Val r((e->cst >> z) & maskw(nw));
            for (auto& t : e->t) r = vAdd2(r, vTrunc(Val(t.a), w, nw), t.c >> z, nw);
            return vField(r, nw, lo - z, len, to);
        }
    }
    if (lo > 0 && e->op == O_SUM) {
        // drop low part that cannot carry: sum = H*2^lo + L with 0 <= L < 2^lo
        u128 lowm = maskw(lo);
        // split terms: coef multiple of 2^lo -> H ; others must be small nonnegative
        i128 L = (i128)(e->cst & lowm); bool ok = w <= 64; bool anyH = false;
        for (auto& t : e->t) {
            if ((t.c & lowm) == 0) { anyH = true; continue; }
            i128 a, b; if (!ok || !urange(t.a, a, b) || t.c > (lowm) || b > (i128)lowm) { ok = false; break; }
            L += (i128)t.c * b; if (L > (i128)lowm) { ok = false; break; }
        }
        if (ok && anyH) {
            unsigned nw = w - lo;
            Val r((e->cst >> lo) & maskw(nw));
            for (auto& t : e->t) if ((t.c & lowm) == 0) r = vAdd2(r, vTrunc(Val(t.a), w, nw), t.c >> lo, nw);
            return vField(r, nw, 0, len, to);
        }
    }
    i128 a, b;
    if (urange(e, a, b)) {
        if (b <= (i128)maskw(lo)) return Val((u128)0);
        if ((a >> lo) == (b >> lo)) return Val((u128)(a >> lo) & maskw(len));
        // high bits known zero: shorten
        unsigned bits = 0; while (bits < 64 && (b >> bits)) bits++;
        if (lo + len > bits) len = bits - lo;
        if (lo == 0 && len == w && to == w) return v;
    }
    if (e->op == O_SUM) { Val q = mergeCof(v, w); if (q.e != e) return vField(q, w, lo, len, to); }
    return Val(mk(O_FIELD, to, {v}, (u64)len << 32 | lo));
}
Val vExtract(Val v, unsigned w, unsigned lo, unsigned len) { return vField(v, w, lo, len, len); }
Val vZext(Val v, unsigned from, unsigned to)
{
    if (from == to) return v;
    if (!v.e) return Val(v.c & maskw(from));
    Expr* e = v.e;
    if (e->op == O_FIELD) return vField(e->k[0], e->k[0].e->w, fieldLo(e), fieldLen(e), to);
    if (e->op == O_ITE && !e->k[1].e && !e->k[2].e) return vIte(e->k[0], Val(e->k[1].c & maskw(from)), Val(e->k[2].c & maskw(from)), to);
    if (e->op == O_SUM) {
        i128 a, b;
        bool okr = sumRange(e, a, b); u128 wrap = 0;
        // the constant's other representative
        if (okr && a < 0 && a >= -((i128)1 << from) && from < 64) { wrap = (u128)1 << from; a += (i128)wrap; b += (i128)wrap; }
        if (okr && a >= 0 && b <= (i128)maskw(from)) {
            Val r(((u128)sx(e->cst, from) + wrap) & maskw(to));
            for (auto& t : e->t) r = vAdd2(r, vZext(Val(t.a), from, to), (u128)sx(t.c, from), to);
            return r;
        }
        // common power of two of the terms: the low bits are the constant's
        unsigned z = from;
        for (auto& t : e->t) { unsigned q = 0; while (q < z && !((t.c >> q) & 1)) q++; z = std::min(z, q); }
        if (z > 0 && z < from) {
            unsigned nw = from - z;
            Val r((e->cst >> z) & maskw(nw));
            for (auto& t : e->t) r = vAdd2(r, vTrunc(Val(t.a), from, nw), t.c >> z, nw);
            return vAdd2(Val(e->cst & maskw(z)), vZext(r, nw, to), (u128)1 << z, to);
        }
    }
    return Val(mk(O_FIELD, to, {v}, (u64)from << 32));
}
Val vSext(Val v, unsigned from, unsigned to)
{
    if (from == to) return v;
    if (!v.e) return Val((u128)sx(v.c, from) & maskw(to));
    Expr* e = v.e;
    if (e->op == O_SEXT) return vSext(e->k[0], e->k[0].e->w, to);
    i128 a, b;
    if (from > 1 && urange(e, a, b) && b < ((i128)1 << (from - 1))) return vZext(v, from, to);
    if (e->op == O_ITE && !e->k[1].e && !e->k[2].e) return vIte(e->k[0], vSext(e->k[1], from, to), vSext(e->k[2], from, to), to);
    if (e->op == O_SUM && from <= 64) {
        if (sumRange(e, a, b) && a >= -((i128)1 << (from - 1)) && b < ((i128)1 << (from - 1))) {
            Val r((u128)sx(e->cst, from) & maskw(to));
            for (auto& t : e->t) r = vAdd2(r, vZext(Val(t.a), from, to), (u128)sx(t.c, from), to);
            return r;
        }
    }
    if (from == 1) return vNeg(vZext(v, 1, to), to);
    return Val(mk(O_SEXT, to, {v}));
}
Val vIte(Val c, Val a, Val b, unsigned w)
{
    if (!c.e) return (c.c & 1) ? a : b;
    if (a.e == b.e && a.c == b.c) return a;
    if (c.e->op == O_NOT) { return vIte(c.e->k[0], b, a, w); }
    if (w == 1) {
        if (!a.e && !b.e) return a.c ? c : vNot(c);
        if (!a.e) return a.c ? vBit(O_OR, c, b, 1) : vBit(O_AND, vNot(c), b, 1);
        if (!b.e) return b.c ? vBit(O_OR, vNot(c), a, 1) : vBit(O_AND, c, a, 1);
    }
    if (w > 1 && (a.e || b.e)) {
        // factor the common part of two sums: ite(c, X+p, X+q) = X + ite(c,p,q)
        bool sa = a.e && a.e->op == O_SUM, sb = b.e && b.e->op == O_SUM;
        bool isreal = (a.e && a.e->op == O_REAL) || (b.e && b.e->op == O_REAL);
        if ((sa || sb) && !isreal) {
            Val d = vSub(a, b, w);
            size_t nd = d.e ? (d.e->op == O_SUM ? d.e->t.size() : 1) : 0;
            size_t nA = a.e ? (sa ? a.e->t.size() : 1) : 0;
            size_t nB = b.e ? (sb ? b.e->t.size() : 1) : 0;
            if (nd < nA || nd < nB) {
                // b + ite(c,d,0)
                Val i = d.e || d.c ? Val(mk(O_ITE, w, {c, d, Val((u128)0)})) : Val((u128)0);
                return vAdd(b, i, w);
            }
        }
    }
    return Val(mk(O_ITE, w, {c, a, b}));
}
Val vNot(Val b)
{
    if (!b.e) return Val((u128)(!(b.c & 1)));
    if (b.e->op == O_NOT) return b.e->k[0];
    return Val(mk(O_NOT, 1, {b}));
}
Val vAndMask(Val a, u128 m, unsigned w)
{
    // sum of the fields selected by the mask
    Val r((u128)0);
    unsigned i = 0;
    while (i < w) {
        if (!((m >> i) & 1)) { i++; continue; }
        unsigned j = i; while (j < w && ((m >> j) & 1)) j++;
        r = vAdd2(r, vField(a, w, i, j - i, w), (u128)1 << i, w);
        i = j;
    }
    return r;
}
inline unsigned runs(u128 m, unsigned w) { unsigned n = 0; bool p = false; for (unsigned i = 0; i < w; i++) { bool b = (m >> i) & 1; if (b && !p) n++; p = b; } return n; }
Val vBit(Op op, Val a, Val b, unsigned w)
{
    u128 m = maskw(w);
    if (!a.e && !b.e) { u128 r = op == O_AND ? a.c & b.c : op == O_OR ? a.c | b.c : a.c ^ b.c; return Val(r & m); }
    if (!a.e) std::swap(a, b);
    if (w == 1) {
        if (!b.e) {
            if (op == O_AND) return b.c ? a : Val((u128)0);
            if (op == O_OR) return b.c ? Val((u128)1) : a;
            return b.c ? vNot(a) : a;
        }
        if (a.e == b.e) return op == O_XOR ? Val((u128)0) : a;
        if (a.e->op == O_NOT && a.e->k[0].e == b.e) return op == O_AND ? Val((u128)0) : Val((u128)1);
        if (b.e->op == O_NOT && b.e->k[0].e == a.e) return op == O_AND ? Val((u128)0) : Val((u128)1);
    }
    else {
        if (a.e && b.e && a.e == b.e) return op == O_XOR ? Val((u128)0) : a;
        if (!b.e) {
            u128 c = b.c & m;
            if (op == O_AND) { if (c == 0) return Val((u128)0); if (c == m) return a; if (runs(c, w) <= 4) return vAndMask(a, c, w); }
            else if (op == O_OR) { if (c == 0) return a; if (c == m) return Val(m); if (runs(~c & m, w) <= 4) return vAdd(vAndMask(a, ~c & m, w), Val(c), w); }
            else { if (c == 0) return a; if (c == m) return vSub(Val(m), a, w); if (c == ((u128)1 << (w - 1))) return vAdd(a, Val(c), w);
                // xor on a run of bits: a - field + (mask - field)
                if (runs(c, w) <= 2) { Val f = vAndMask(a, c, w); return vAdd(vSub(a, vMulC(f, 2, w), w), Val(c), w); } }
        }
        else if (op == O_OR || op == O_XOR) {
            // disjoint ranges -> addition
            i128 l1, h1, l2, h2;
            if (vrange(a, w, l1, h1) && vrange(b, w, l2, h2)) {
                auto low0 = [&](Val v) -> unsigned { // number of known-zero low bits
                    if (v.e->op != O_SUM) return 0; u128 o = v.e->cst; for (auto& t : v.e->t) o |= t.c; unsigned n = 0; while (n < w && !((o >> n) & 1)) n++; return n; };
                unsigned za = low0(a), zb = low0(b);
                if ((za && h2 < ((i128)1 << za)) || (zb && h1 < ((i128)1 << zb))) return vAdd(a, b, w);
            }
        }
    }
    if (a.e && b.e && a.e->id > b.e->id) std::swap(a, b);
    return Val(mk(op, w, {a, b}));
}
Val vShl(Val a, Val b, unsigned w)
{
    if (!b.e) { u64 s = (u64)b.c; if (s >= w) return Val((u128)0); return vMulC(a, (u128)1 << s, w); }
    return Val(mk(O_SHL, w, {a, b}));
}
Val vLshr(Val a, Val b, unsigned w)
{
    if (!b.e) { u64 s = (u64)b.c; if (s >= w) return Val((u128)0); return vField(a, w, s, w - s, w); }
    return Val(mk(O_LSHR, w, {a, b}));
}
Val vAshr(Val a, Val b, unsigned w)
{
    if (!b.e) {
        u64 s = (u64)b.c; if (s >= w) s = w - 1;
        if (!a.e) return Val((u128)(sx(a.c, w) >> s) & maskw(w));
        if (s == 0) return a;
        i128 x, y;
        if (urange(a.e, x, y) && y < ((i128)1 << (w - 1))) return vLshr(a, b, w);
        return vSext(vExtract(a, w, s, w - s), w - s, w);
    }
    return Val(mk(O_ASHR, w, {a, b}));
}
Val vEq(Val a, Val b, unsigned w)
{
    if (!a.e && !b.e) return Val((u128)(((a.c ^ b.c) & maskw(w)) == 0));
    if (w == 1) { if (!a.e) std::swap(a, b); if (!b.e) return (b.c & 1) ? a : vNot(a); return vNot(vBit(O_XOR, a, b, 1)); }
    if (a.e == b.e) return Val((u128)1);
    if ((a.e && a.e->op == O_REAL) || (b.e && b.e->op == O_REAL)) return Val(mk(O_EQ, 1, {a, b}));
    i128 l1, h1, l2, h2;
    if (vrange(a, w, l1, h1) && vrange(b, w, l2, h2) && (h1 < l2 || h2 < l1)) return Val((u128)0);
    if (!a.e) std::swap(a, b);
    if (!b.e && a.e->op == O_ITE) {
        Val x = a.e->k[1], y = a.e->k[2];
        if (!x.e && !y.e) { bool p = ((x.c ^ b.c) & maskw(w)) == 0, q = ((y.c ^ b.c) & maskw(w)) == 0; if (p && q) return Val((u128)1); if (!p && !q) return Val((u128)0); return p ? a.e->k[0] : vNot(a.e->k[0]); }
    }
    Val d = mergeCof(vSub(a, b, w), w);
    if (!d.e) return Val((u128)(d.c == 0));
    // single atom with odd coefficient
    if (d.e->op == O_SUM) {
        i128 lo, hi;
        if (sumRange(d.e, lo, hi)) {
            i128 M = (i128)1 << w;
            if (lo > -M && hi < M && (lo > 0 || hi < 0)) return Val((u128)0);
        }
        if (d.e->t.size() == 1 && d.e->t[0].c == 1) {
            u128 v = (~d.e->cst + 1) & maskw(w);
            Expr* at = d.e->t[0].a;
            if (at->op == O_FIELD) { unsigned len = fieldLen(at); if (v > maskw(len)) return Val((u128)0); if (len == 1) { Val bit = vExtract(at->k[0], at->k[0].e->w, fieldLo(at), 1); return v ? bit : vNot(bit); } }
            return Val(mk(O_EQ, 1, {Val(at), Val(v)}));
        }
        Val cst((~d.e->cst + 1) & maskw(w));
        Val rest = finishSum(0, std::vector<Term>(d.e->t), w);
        // gcd of coefficients a power of two: shrink
        return Val(mk(O_EQ, 1, {rest, cst}));
    }
    if (d.e->op == O_FIELD && fieldLen(d.e) == 1) return vNot(vExtract(d.e->k[0], d.e->k[0].e->w, fieldLo(d.e), 1));
    return Val(mk(O_EQ, 1, {d, Val((u128)0)}));
}
Val vUlt(Val a, Val b, unsigned w)
{
    if (!a.e && !b.e) return Val((u128)((a.c & maskw(w)) < (b.c & maskw(w))));
    i128 l1, h1, l2, h2;
    if (vrange(a, w, l1, h1) && vrange(b, w, l2, h2)) { if (h1 < l2) return Val((u128)1); if (l1 >= h2) return Val((u128)0); }
    if (a.e && a.e == b.e) return Val((u128)0);
    if (!b.e && b.c == 1) return vEq(a, Val((u128)0), w);
    if (!a.e && a.c == 0) return vNot(vEq(b, Val((u128)0), w));
    return Val(mk(O_ULT, 1, {a, b}));
}
Val vUle(Val a, Val b, unsigned w) { return vNot(vUlt(b, a, w)); }
Val vSlt(Val a, Val b, unsigned w)
{
    if (!a.e && !b.e) return Val((u128)(sx(a.c, w) < sx(b.c, w)));
    i128 l1, h1, l2, h2;
    if (srange(a, w, l1, h1) && srange(b, w, l2, h2)) { if (h1 < l2) return Val((u128)1); if (l1 >= h2) return Val((u128)0); 
        // both non-negative: use unsigned
        if (l1 >= 0 && l2 >= 0) return vUlt(a, b, w); }
    if (a.e && a.e == b.e) return Val((u128)0);
    return Val(mk(O_SLT, 1, {a, b}));
}
Val vSle(Val a, Val b, unsigned w) { return vNot(vSlt(b, a, w)); }
Val vDiv(Op op, Val a, Val b, unsigned w)
{
    u128 m = maskw(w);
    if (!a.e && !b.e) {
        if ((b.c & m) == 0) return Val((u128)0);
        switch (op) {
        case O_UDIV: return Val((a.c & m) / (b.c & m));
        case O_UREM: return Val((a.c & m) % (b.c & m));
        case O_SDIV: { i128 x = sx(a.c, w), y = sx(b.c, w); if (y == -1) return Val((u128)(-x) & m); return Val((u128)(x / y) & m); }
        default: { i128 x = sx(a.c, w), y = sx(b.c, w); if (y == -1) return Val((u128)0); return Val((u128)(x % y) & m); }
        }
    }
    if (!b.e) {
        u128 c = b.c & m;
        if (c && (c & (c - 1)) == 0) {
            unsigned s = 0; while ((c >> s) != 1) s++;
            if (op == O_UDIV) return vLshr(a, Val((u128)s), w);
            if (op == O_UREM) return s == 0 ? Val((u128)0) : vField(a, w, 0, s, w);
            i128 x, y;
            if (srange(a, w, x, y) && x >= 0) return vDiv(op == O_SDIV ? O_UDIV : O_UREM, a, b, w);
        }
        i128 x, y;
        if ((op == O_UREM) && vrange(a, w, x, y) && y < (i128)c) return a;
        if ((op == O_UDIV) && vrange(a, w, x, y) && y < (i128)c) return Val((u128)0);
    }
    return Val(mk(op, w, {a, b}));
}
// concat high, low
Val vConcat(Val hi, unsigned wh, Val lo, unsigned wl)
{
    unsigned w = wh + wl;
    return vAdd(vMulC(vZext(hi, wh, w), (u128)1 << wl, w), vZext(lo, wl, w), w);
}

inline std::string show(Val v, int depth = 4)
{
    char b[64];
    auto hex = [&](u128 c) { if (c >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(c >> 64), (unsigned long long)c); else snprintf(b, 64, "0x%llx", (unsigned long long)c); return std::string(b); };
    if (!v.e) return hex(v.c);
    Expr* e = v.e;
    if (e->op == O_VAR) return e->name;
    if (depth <= 0) { snprintf(b, 64, "@%u", e->id); return b; }
    std::string r;
    if (e->op == O_SUM) { r = "("; if (e->cst) r += hex(e->cst); int n = 0; for (auto& t : e->t) { if (++n > 40) { r += " + ..."; break; } r += " + "; if (t.c != 1) r += hex(t.c) + "*"; r += show(Val(t.a), depth - 1); } return r + ")"; }
    if (e->op == O_FIELD) { snprintf(b, 64, ":%u[%u+%u]", e->w, fieldLo(e), fieldLen(e)); std::string s(b); return show(e->k[0], depth - 1) + s; }
    r = opname[e->op]; snprintf(b, 64, ":%u(", e->w); r += b;
    for (size_t i = 0; i < e->k.size(); i++) { if (i) r += ", "; r += show(e->k[i], depth - 1); }
    return r + ")";
}
// --- concrete evaluation ---------------------------------------------------
typedef std::unordered_map<uint32_t, u128> Model;  // var id -> value
struct Evaluator;
static bool (*g_varEval)(Evaluator&, Expr*, u128&) = nullptr;
struct Evaluator {
    const Model& m;
    std::unordered_map<uint32_t, u128> memo;
    bool fail = false;
    Evaluator(const Model& mm) : m(mm) {}
    static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
    static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
    u128 ev(Val v, unsigned w) { return v.e ? ev(v.e) : v.c & maskw(w); }
    u128 ev(Expr* e)
    {
        if (e->op == O_VAR) { u128 o; if (e->rng && g_varEval && !m.count(e->id) && g_varEval(*this, e, o)) return o & maskw(e->w); auto it = m.find(e->id); return it == m.end() ? 0 : it->second & maskw(e->w); }
        auto it = memo.find(e->id);
        if (it != memo.end()) return it->second;
        unsigned w = e->w; u128 M = maskw(w), r = 0;
        auto K = [&](int i, unsigned kw) { return ev(e->k[i], kw); };
        auto kw = [&](int i) -> unsigned { return e->k[i].e ? e->k[i].e->w : (e->k[1 - i].e ? e->k[1 - i].e->w : w); };
        switch (e->op) {
        case O_SUM: r = e->cst; for (auto& t : e->t) r += t.c * ev(t.a); break;
        case O_MUL: r = 1; for (auto& v : e->k) r *= ev(v, w); break;
        case O_FIELD: r = (ev(e->k[0].e) >> fieldLo(e)) & maskw(fieldLen(e)); break;
        case O_SEXT: r = (u128)sx(ev(e->k[0].e), e->k[0].e->w); break;
        case O_AND: r = K(0, w) & K(1, w); break;
        case O_OR: r = K(0, w) | K(1, w); break;
        case O_XOR: r = K(0, w) ^ K(1, w); break;
        case O_NOT: r = !K(0, 1); break;
        case O_SHL: { u128 s = K(1, w); r = s >= w ? 0 : K(0, w) << (unsigned)s; break; }
        case O_LSHR: { u128 s = K(1, w); r = s >= w ? 0 : K(0, w) >> (unsigned)s; break; }
        case O_ASHR: { u128 s = K(1, w); r = (u128)(sx(K(0, w), w) >> (s >= w ? w - 1 : (unsigned)s)); break; }
        case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: { u128 b = K(1, w); if (!b) { r = e->op == O_UDIV ? M : e->op==O_SDIV ? (sx(K(0,w),w)<0?1:M) : K(0, w); } else r = vDiv(e->op, Val(K(0, w)), Val(b), w).c; break; }
        case O_ITE: r = K(0, 1) ? K(1, w) : K(2, w); break;
        case O_EQ: r = ev(e->k[0], kw(0)) == ev(e->k[1], kw(1)); break;
        case O_ULT: r = ev(e->k[0], kw(0)) < ev(e->k[1], kw(1)); break;
        case O_SLT: { unsigned q = kw(0); r = sx(ev(e->k[0], q), q) < sx(ev(e->k[1], q), q); break; }
        case O_FADD: r = fromD(asD(K(0, 64)) + asD(K(1, 64))); break;
        case O_FSUB: r = fromD(asD(K(0, 64)) - asD(K(1, 64))); break;
        case O_FMUL: r = fromD(asD(K(0, 64)) * asD(K(1, 64))); break;
        case O_FDIV: r = fromD(asD(K(0, 64)) / asD(K(1, 64))); break;
        case O_FNEG: r = fromD(-asD(K(0, 64))); break;
        case O_FABS: r = fromD(__builtin_fabs(asD(K(0, 64)))); break;
        case O_FROUND: r = fromD(__builtin_round(asD(K(0, 64)))); break;
        case O_FFLOOR: r = fromD(__builtin_floor(asD(K(0, 64)))); break;
        case O_FCEIL: r = fromD(__builtin_ceil(asD(K(0, 64)))); break;
        case O_FTRUNC: r = fromD(__builtin_trunc(asD(K(0, 64)))); break;
        case O_FRINT: r = fromD(__builtin_rint(asD(K(0, 64)))); break;
        case O_FSQRT: r = fromD(__builtin_sqrt(asD(K(0, 64)))); break;
        case O_FFMA: r = fromD(__builtin_fma(asD(K(0, 64)), asD(K(1, 64)), asD(K(2, 64)))); break;
        case O_FEQ: r = asD(K(0, 64)) == asD(K(1, 64)); break;
        case O_FLT: r = asD(K(0, 64)) < asD(K(1, 64)); break;
        case O_FLE: r = asD(K(0, 64)) <= asD(K(1, 64)); break;
        case O_FUNO: { double a = asD(K(0, 64)), b = asD(K(1, 64)); r = (a != a) || (b != b); break; }
        case O_SITOFP: { unsigned q = e->k[0].e->w; r = fromD((double)(i64)sx(ev(e->k[0].e), q)); break; }
        case O_UITOFP: r = fromD((double)(u64)ev(e->k[0].e)); break;
        case O_SITOF32: { unsigned q = e->k[0].e->w; r = fromD((double)(float)(i64)sx(ev(e->k[0].e), q)); break; }
        case O_UITOF32: r = fromD((double)(float)(u64)ev(e->k[0].e)); break;
        case O_FRND32: r = fromD((double)(float)asD(K(0, 64))); break;
        case O_F32: { float f = (float)asD(K(0, 64)); uint32_t b; memcpy(&b, &f, 4); r = b; break; }
        case O_FPTOSI: { double d = asD(K(0, 64)); if (!(d > -9.3e18 && d < 9.3e18)) { r = 0; } else r = (u128)(i128)(i64)d; break; }
        case O_FPTOUI: { double d = asD(K(0, 64)); if (!(d > -1 && d < 1.85e19)) { r = 0; } else r = (u128)(u64)d; break; }
        case O_REAL: r = fromD(((double)(i128)ev(e->k[0], 128) + (double)(i128)ev(e->k[1], 128) * 0.70710678118654752440) / (double)((u128)1 << e->aux)); break;
        default: fail = true; r = 0; break;
        }
        r &= M;
        memo[e->id] = r;
        return r;
    }
};
