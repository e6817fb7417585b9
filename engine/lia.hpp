// Linear-integer view of a bit-vector query: words become integers, wrap-around
// becomes an explicit bounded quotient.  Products and bit-wise operations become
// unknown words, so only "unsat" is used.
#pragma once
struct Lia {
    Z3_context c; Z3_solver s; Z3_sort I; int fresh = 0; bool giveUp = false;
    std::unordered_map<uint32_t, Z3_ast> iv, bo;
    struct R { double lo, hi; };
    std::unordered_map<uint32_t, R> rg;
    std::unordered_map<std::string, Z3_ast> byname;
    Lia(Z3_context cc, Z3_solver ss) : c(cc), s(ss) { I = Z3_mk_int_sort(c); }
    Z3_ast num(i128 v)
    {
        char b[64]; int i = 63; b[i] = 0; bool ng = v < 0; u128 u = ng ? (u128)(-(v + 1)) + 1 : (u128)v;
        if (!u) b[--i] = '0'; while (u) { b[--i] = '0' + (int)(u % 10); u /= 10; } if (ng) b[--i] = '-';
        return Z3_mk_numeral(c, b + i, I);
    }
    Z3_ast unum(u128 u) { char b[64]; int i = 63; b[i] = 0; if (!u) b[--i] = '0'; while (u) { b[--i] = '0' + (int)(u % 10); u /= 10; } return Z3_mk_numeral(c, b + i, I); }
    Z3_ast pow2(unsigned n) { if (n < 127) return unum((u128)1 << n); Z3_ast a[2] = {unum((u128)1 << 64), unum((u128)1 << (n - 64))}; return Z3_mk_mul(c, 2, a); }
    Z3_ast var(const std::string& nm) { auto it = byname.find(nm); if (it != byname.end()) return it->second; Z3_ast r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), I); Z3_inc_ref(c, r); byname[nm] = r; return r; }
    Z3_ast freshVar(const char* p) { return var(std::string(p) + "!" + std::to_string(fresh++)); }
    void add(Z3_ast a) { Z3_solver_assert(c, s, a); }
    void bound(Z3_ast v, Z3_ast lo, Z3_ast hiEx) { add(Z3_mk_le(c, lo, v)); add(Z3_mk_lt(c, v, hiEx)); }
    Z3_ast mul(Z3_ast k, Z3_ast x) { Z3_ast a[2] = {k, x}; return Z3_mk_mul(c, 2, a); }
    Z3_ast plus(Z3_ast x, Z3_ast y) { Z3_ast a[2] = {x, y}; return Z3_mk_add(c, 2, a); }
    Z3_ast minus(Z3_ast x, Z3_ast y) { Z3_ast a[2] = {x, y}; return Z3_mk_sub(c, 2, a); }
    static double p2(unsigned n) { return __builtin_ldexp(1.0, n); }
    R range(Val v, unsigned w) { if (!v.e) return {(double)v.c, (double)v.c}; T(v.e); return rg[v.e->id]; }
    Z3_ast word(const std::string& nm, unsigned w, uint32_t id) { Z3_ast r = var(nm); bound(r, num(0), pow2(w)); rg[id] = {0, p2(w)}; return r; }
    Z3_ast T(Val v) { return v.e ? T(v.e) : unum(v.c); }
    Z3_ast T(Expr* e)
    {
        auto it = iv.find(e->id);
        if (it != iv.end()) return it->second;
        unsigned w = e->w; Z3_ast r = nullptr;
        switch (e->op) {
        case O_VAR: r = word("v#" + std::to_string(e->id), w, e->id); if (e->rng) { add(Z3_mk_le(c, r, num(e->hi))); add(Z3_mk_le(c, num(e->lo), r)); rg[e->id] = {(double)e->lo, (double)e->hi}; } break;
        case O_SUM: {
            std::vector<Z3_ast> as; double lo, hi; i128 k0 = sx(e->cst, w); lo = hi = (double)k0; if (k0) as.push_back(num(k0));
            for (auto& t : e->t) {
                i128 k = sx(t.c, w); Z3_ast a = T(t.a); R q = rg[t.a->id];
                as.push_back(k == 1 ? a : mul(num(k), a));
                double x = (double)k * q.lo, y = (double)k * q.hi; if (x > y) std::swap(x, y); lo += x; hi += y;
            }
            Z3_ast sum = as.size() == 1 ? as[0] : Z3_mk_add(c, as.size(), as.data());
            double M = p2(w), sl = 1e-9;
            double kl = __builtin_floor(lo / M - sl), kh = __builtin_floor(hi / M + sl);
            if (hi <= M - 1 && w <= 53) kh = __builtin_floor(hi / M);
            if (lo >= 0) kl = 0;
            if (kl == 0 && kh == 0) { r = sum; rg[e->id] = {std::max(0.0, lo), std::min(hi, M)}; }
            else if (kl == kh) { r = minus(sum, mul(num((i128)kl), pow2(w))); rg[e->id] = {0, M}; add(Z3_mk_le(c, num(0), r)); add(Z3_mk_lt(c, r, pow2(w))); }
            else {
                Z3_ast q = freshVar("q"); add(Z3_mk_le(c, num((i128)kl), q)); add(Z3_mk_le(c, q, num((i128)kh)));
                r = freshVar("s"); bound(r, num(0), pow2(w));
                add(Z3_mk_eq(c, r, minus(sum, mul(pow2(w), q))));
                rg[e->id] = {0, M};
            }
            break; }
        case O_MUL: {
            std::vector<uint32_t> ids;
            for (auto& v : e->k) { Expr* y = v.e; if (y->op == O_FIELD && fieldLo(y) == 0 && (fieldLen(y) == y->k[0].e->w || fieldLen(y) >= w)) y = y->k[0].e; ids.push_back(y->id); }
            std::sort(ids.begin(), ids.end());
            std::string nm = "mul"; for (auto i : ids) nm += "#" + std::to_string(i);
            if (w == 128) { r = word(nm, 128, e->id); break; }
            Z3_ast full = var(nm); bound(full, num(0), pow2(128));
            Z3_ast hi = freshVar("h"); r = word("lo" + std::to_string(w) + nm, w, e->id); bound(hi, num(0), pow2(128 - w));
            add(Z3_mk_eq(c, full, plus(mul(pow2(w), hi), r)));
            break; }
        case O_FIELD: {
            Expr* y = e->k[0].e; unsigned lo = fieldLo(e), len = fieldLen(e), wy = y->w;
            if (lo == 0 && len == wy) { r = T(y); rg[e->id] = rg[y->id]; break; }
            Z3_ast Y = T(y); R q = rg[y->id];
            r = word("f#" + std::to_string(y->id) + "." + std::to_string(lo) + "." + std::to_string(len), len, e->id);
            Z3_ast sum = lo ? mul(pow2(lo), r) : r;
            if (lo) { Z3_ast b = word("f#" + std::to_string(y->id) + ".0." + std::to_string(lo), lo, 0xffffffff); sum = plus(sum, b); }
            if (lo + len < wy && q.hi >= p2(lo + len)) { Z3_ast h = word("f#" + std::to_string(y->id) + "." + std::to_string(lo + len) + "." + std::to_string(wy - lo - len), wy - lo - len, 0xffffffff); sum = plus(sum, mul(pow2(lo + len), h)); }
            add(Z3_mk_eq(c, Y, sum));
            break; }
        case O_SEXT: { Expr* y = e->k[0].e; Z3_ast Y = T(y); unsigned wy = y->w; Z3_ast cnd = Z3_mk_lt(c, Y, pow2(wy - 1)); r = Z3_mk_ite(c, cnd, Y, plus(Y, minus(pow2(w), pow2(wy)))); rg[e->id] = {0, p2(w)}; if (rg[y->id].hi < p2(wy - 1)) rg[e->id] = rg[y->id]; break; }
        case O_ITE: if (w > 1) { R x = range(e->k[1], w), y = range(e->k[2], w); r = Z3_mk_ite(c, B(e->k[0]), T(e->k[1]), T(e->k[2])); rg[e->id] = {std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; } break;
        case O_UDIV: case O_UREM:
            if (!e->k[1].e && e->k[1].c && e->k[0].e) {
                std::string base = "d#" + std::to_string(e->k[0].e->id) + "#" + std::to_string((u64)e->k[1].c);
                Z3_ast q = var(base + "q"), m = var(base + "r"); bound(q, num(0), pow2(w)); bound(m, num(0), unum(e->k[1].c));
                add(Z3_mk_eq(c, T(e->k[0]), plus(mul(unum(e->k[1].c), q), m)));
                r = e->op == O_UDIV ? q : m; rg[e->id] = {0, e->op == O_UDIV ? p2(w) / (double)e->k[1].c : (double)e->k[1].c};
                break;
            }
            r = word("o#" + std::to_string(e->id), w, e->id); break;
        default: break;
        }
        if (!r) {
            if (w == 1) { r = Z3_mk_ite(c, B(Val(e)), num(1), num(0)); rg[e->id] = {0, 1}; }
            else r = word("o#" + std::to_string(e->id), w, e->id);
        }
        Z3_inc_ref(c, r);
        iv[e->id] = r;
        return r;
    }
    Z3_ast B(Val v) { return v.e ? B(v.e) : ((v.c & 1) ? Z3_mk_true(c) : Z3_mk_false(c)); }
    Z3_ast sgn(Val v, unsigned w) { Z3_ast x = T(v); return Z3_mk_ite(c, Z3_mk_lt(c, x, pow2(w - 1)), x, minus(x, pow2(w))); }
    Z3_ast B(Expr* e)
    {
        auto it = bo.find(e->id);
        if (it != bo.end()) return it->second;
        Z3_ast r;
        auto kwid = [&]() -> unsigned { for (auto& v : e->k) if (v.e) return v.e->w; return 64; };
        switch (e->op) {
        case O_NOT: r = Z3_mk_not(c, B(e->k[0])); break;
        case O_AND: { Z3_ast a[2] = {B(e->k[0]), B(e->k[1])}; r = Z3_mk_and(c, 2, a); break; }
        case O_OR: { Z3_ast a[2] = {B(e->k[0]), B(e->k[1])}; r = Z3_mk_or(c, 2, a); break; }
        case O_XOR: r = Z3_mk_xor(c, B(e->k[0]), B(e->k[1])); break;
        case O_ITE: r = Z3_mk_ite(c, B(e->k[0]), B(e->k[1]), B(e->k[2])); break;
        case O_EQ: r = kwid() == 1 ? Z3_mk_iff(c, B(e->k[0]), B(e->k[1])) : Z3_mk_eq(c, T(e->k[0]), T(e->k[1])); break;
        case O_ULT: r = Z3_mk_lt(c, T(e->k[0]), T(e->k[1])); break;
        case O_SLT: r = Z3_mk_lt(c, sgn(e->k[0], kwid()), sgn(e->k[1], kwid())); break;
        case O_VAR: case O_FIELD: case O_SUM: r = Z3_mk_eq(c, T(e), num(1)); break;
        default: r = Z3_mk_const(c, Z3_mk_string_symbol(c, ("b#" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(c)); break;
        }
        Z3_inc_ref(c, r);
        bo[e->id] = r;
        return r;
    }
};
