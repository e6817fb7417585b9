// Z3 back end.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <atomic>

struct Stats {  // shared between the processes of one run
    std::atomic<u64> paths, killed, queries, sat, unsat, unknown, asserts, asserts_const, forks, insts, solver_us, assumes, merges, maxdepth;
    std::atomic<int> tokens;
    std::atomic<int> violated;
    std::atomic<int> error;
    std::atomic<int> inconclusive;
    char viol[1 << 20];
    char err[4096];
    struct { char name[64]; std::atomic<u64> n; } reach[256];
    std::atomic<int> nreach;
    std::atomic<u64> fn[1 << 16];
};
static Stats* ST;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

#include "lia.hpp"
struct Solver {
    Z3_context c;
    std::unordered_map<uint32_t, Z3_ast> bv, bo, fp;
    Z3_sort fps;
    Z3_ast rne;
    unsigned timeout_ms = 60000;
    std::string dumpdir;
    Z3_string last_reason = "";
    Solver()
    {
        Z3_config g = Z3_mk_config();
        c = Z3_mk_context(g);
        Z3_del_config(g);
        Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
        fps = Z3_mk_fpa_sort_64(c);
        rne = Z3_mk_fpa_rne(c);
    }
    Z3_sort S(unsigned w) { return Z3_mk_bv_sort(c, w); }
    Z3_ast num(u128 v, unsigned w)
    {
        v &= maskw(w);
        if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, S(w));
        char b[64]; int i = 63; b[i] = 0; if (!v) b[--i] = '0'; while (v) { b[--i] = '0' + (int)(v % 10); v /= 10; }
        return Z3_mk_numeral(c, b + i, S(w));
    }
    Z3_ast BV(Val v, unsigned w) { return v.e ? BV(v.e) : num(v.c, w); }
    Z3_ast BO(Val v) { return v.e ? BO(v.e) : ((v.c & 1) ? Z3_mk_true(c) : Z3_mk_false(c)); }
    unsigned kwid(Expr* e, int i, int n) { for (int j = 0; j < n; j++) if (e->k[j].e) return e->k[j].e->w; return 64; }
    Z3_ast FP(Val v)
    {
        if (!v.e) { double d; u64 x = (u64)v.c; memcpy(&d, &x, 8); return Z3_mk_fpa_numeral_double(c, d, fps); }
        Expr* e = v.e;
        auto it = fp.find(e->id);
        if (it != fp.end()) return it->second;
        Z3_ast r;
        switch (e->op) {
        case O_FADD: r = Z3_mk_fpa_add(c, rne, FP(e->k[0]), FP(e->k[1])); break;
        case O_FSUB: r = Z3_mk_fpa_sub(c, rne, FP(e->k[0]), FP(e->k[1])); break;
        case O_FMUL: r = Z3_mk_fpa_mul(c, rne, FP(e->k[0]), FP(e->k[1])); break;
        case O_FDIV: r = Z3_mk_fpa_div(c, rne, FP(e->k[0]), FP(e->k[1])); break;
        case O_FFMA: r = Z3_mk_fpa_fma(c, rne, FP(e->k[0]), FP(e->k[1]), FP(e->k[2])); break;
        case O_FNEG: r = Z3_mk_fpa_neg(c, FP(e->k[0])); break;
        case O_FABS: r = Z3_mk_fpa_abs(c, FP(e->k[0])); break;
        case O_FSQRT: r = Z3_mk_fpa_sqrt(c, rne, FP(e->k[0])); break;
        case O_FROUND: r = Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), FP(e->k[0])); break;
        case O_FFLOOR: r = Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), FP(e->k[0])); break;
        case O_FCEIL: r = Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), FP(e->k[0])); break;
        case O_FTRUNC: r = Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), FP(e->k[0])); break;
        case O_FRINT: r = Z3_mk_fpa_round_to_integral(c, rne, FP(e->k[0])); break;
        case O_SITOFP: r = Z3_mk_fpa_to_fp_signed(c, rne, BV(e->k[0].e), fps); break;
        case O_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(c, rne, BV(e->k[0].e), fps); break;
        case O_SITOF32: case O_UITOF32: { auto f = e->op == O_SITOF32 ? Z3_mk_fpa_to_fp_signed : Z3_mk_fpa_to_fp_unsigned; r = Z3_mk_fpa_to_fp_float(c, rne, f(c, rne, BV(e->k[0].e), Z3_mk_fpa_sort_32(c)), fps); break; }
        case O_FRND32: r = Z3_mk_fpa_to_fp_float(c, rne, Z3_mk_fpa_to_fp_float(c, rne, FP(e->k[0]), Z3_mk_fpa_sort_32(c)), fps); break;
        case O_ITE: r = Z3_mk_ite(c, BO(e->k[0]), FP(e->k[1]), FP(e->k[2])); break;
        default: r = Z3_mk_fpa_to_fp_bv(c, BV(e), fps); break;
        }
        Z3_inc_ref(c, r);
        fp[e->id] = r;
        return r;
    }
    Z3_ast BO(Expr* e)
    {
        auto it = bo.find(e->id);
        if (it != bo.end()) return it->second;
        Z3_ast r;
        switch (e->op) {
        case O_NOT: r = Z3_mk_not(c, BO(e->k[0])); break;
        case O_AND: { Z3_ast a[2] = {BO(e->k[0]), BO(e->k[1])}; r = Z3_mk_and(c, 2, a); break; }
        case O_OR: { Z3_ast a[2] = {BO(e->k[0]), BO(e->k[1])}; r = Z3_mk_or(c, 2, a); break; }
        case O_XOR: r = Z3_mk_xor(c, BO(e->k[0]), BO(e->k[1])); break;
        case O_ITE: r = Z3_mk_ite(c, BO(e->k[0]), BO(e->k[1]), BO(e->k[2])); break;
        case O_EQ: { unsigned w = kwid(e, 0, 2); r = w == 1 ? Z3_mk_iff(c, BO(e->k[0]), BO(e->k[1])) : Z3_mk_eq(c, BV(e->k[0], w), BV(e->k[1], w)); break; }
        case O_ULT: { unsigned w = kwid(e, 0, 2); r = Z3_mk_bvult(c, BV(e->k[0], w), BV(e->k[1], w)); break; }
        case O_SLT: { unsigned w = kwid(e, 0, 2); r = Z3_mk_bvslt(c, BV(e->k[0], w), BV(e->k[1], w)); break; }
        case O_FEQ: r = Z3_mk_fpa_eq(c, FP(e->k[0]), FP(e->k[1])); break;
        case O_FLT: r = Z3_mk_fpa_lt(c, FP(e->k[0]), FP(e->k[1])); break;
        case O_FLE: r = Z3_mk_fpa_leq(c, FP(e->k[0]), FP(e->k[1])); break;
        case O_FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(c, FP(e->k[0])), Z3_mk_fpa_is_nan(c, FP(e->k[1]))}; r = Z3_mk_or(c, 2, a); break; }
        default: r = Z3_mk_eq(c, BV(e), num(1, 1)); break;
        }
        Z3_inc_ref(c, r);
        bo[e->id] = r;
        return r;
    }
    Z3_ast shlConst(Z3_ast a, unsigned s, unsigned w)
    {
        if (s == 0) return a;
        if (s >= w) return num(0, w);
        return Z3_mk_concat(c, Z3_mk_extract(c, w - s - 1, 0, a), num(0, s));
    }
    Z3_ast mulConst(Z3_ast a, u128 cc, unsigned w)
    {
        if (cc == 1) return a;
        unsigned lo = 0; while (!((cc >> lo) & 1)) lo++;
        u128 o = cc >> lo;
        if (o == 1) return shlConst(a, lo, w);
        if ((o & (o + 1)) == 0) { unsigned n = 0; while (n < 128 && ((o >> n) & 1)) n++; return Z3_mk_bvsub(c, shlConst(a, lo + n, w), shlConst(a, lo, w)); }
        if (((o - 1) & (o - 2)) == 0) { unsigned n = 0; while (((o - 1) >> n) != 1) n++; return Z3_mk_bvadd(c, shlConst(a, lo + n, w), shlConst(a, lo, w)); }
        return Z3_mk_bvmul(c, num(cc, w), a);
    }
    Z3_ast BV(Expr* e)
    {
        auto it = bv.find(e->id);
        if (it != bv.end()) return it->second;
        unsigned w = e->w;
        Z3_ast r = nullptr;
        auto K = [&](int i) { return BV(e->k[i], w); };
        switch (e->op) {
        case O_VAR: r = Z3_mk_const(c, Z3_mk_string_symbol(c, (e->name + "#" + std::to_string(e->id)).c_str()), S(w)); break;
        case O_SUM: {
            for (auto& t : e->t) {
                Z3_ast a = BV(t.a);
                i128 s = sx(t.c, w);
                bool neg = s < 0 && w < 128 && s != -((i128)1 << (w - 1));
                u128 cc = neg ? (u128)(-s) : t.c;
                Z3_ast m = mulConst(a, cc, w);
                if (!r) r = neg ? Z3_mk_bvneg(c, m) : m;
                else r = neg ? Z3_mk_bvsub(c, r, m) : Z3_mk_bvadd(c, r, m);
            }
            if (e->cst) r = Z3_mk_bvadd(c, r, num(e->cst, w));
            break; }
        case O_MUL: if (absMul && hardMul(e)) {
                // one 128-bit word per product of zero-extended words; narrower products are its low bits
                std::vector<uint32_t> ids;
                for (auto& v : e->k) { Expr* y = v.e; if (y->op == O_FIELD && fieldLo(y) == 0 && (fieldLen(y) == y->k[0].e->w || fieldLen(y) >= w)) y = y->k[0].e; ids.push_back(y->id); }
                std::sort(ids.begin(), ids.end());
                std::string nm = "mul"; for (auto i : ids) nm += "#" + std::to_string(i);
                r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), S(128));
                if (w < 128) r = Z3_mk_extract(c, w - 1, 0, r);
                break; }
            r = K(0); for (size_t i = 1; i < e->k.size(); i++) r = Z3_mk_bvmul(c, r, K(i)); break;
        case O_FIELD: {
            Z3_ast a = BV(e->k[0].e); unsigned lo = fieldLo(e), len = fieldLen(e);
            if (!(lo == 0 && len == e->k[0].e->w)) a = Z3_mk_extract(c, lo + len - 1, lo, a);
            if (w > len) a = Z3_mk_zero_ext(c, w - len, a);
            r = a; break; }
        case O_SEXT: r = Z3_mk_sign_ext(c, w - e->k[0].e->w, BV(e->k[0].e)); break;
        case O_AND: if (w > 1) r = Z3_mk_bvand(c, K(0), K(1)); break;
        case O_OR: if (w > 1) r = Z3_mk_bvor(c, K(0), K(1)); break;
        case O_XOR: if (w > 1) r = Z3_mk_bvxor(c, K(0), K(1)); break;
        case O_SHL: r = Z3_mk_bvshl(c, K(0), K(1)); break;
        case O_LSHR: r = Z3_mk_bvlshr(c, K(0), K(1)); break;
        case O_ASHR: r = Z3_mk_bvashr(c, K(0), K(1)); break;
        case O_UDIV: r = Z3_mk_bvudiv(c, K(0), K(1)); break;
        case O_SDIV: r = Z3_mk_bvsdiv(c, K(0), K(1)); break;
        case O_UREM: r = Z3_mk_bvurem(c, K(0), K(1)); break;
        case O_SREM: r = Z3_mk_bvsrem(c, K(0), K(1)); break;
        case O_ITE: if (w > 1) r = Z3_mk_ite(c, BO(e->k[0]), K(1), K(2)); break;
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FNEG: case O_FABS: case O_FROUND: case O_FFLOOR: case O_FCEIL: case O_FTRUNC: case O_FRINT: case O_FSQRT: case O_FFMA: case O_SITOFP: case O_UITOFP: case O_SITOF32: case O_UITOF32: case O_FRND32:
            r = Z3_mk_fpa_to_ieee_bv(c, FP(Val(e))); break;
        case O_F32: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, FP(e->k[0]), Z3_mk_fpa_sort_32(c))); break;
        case O_FPTOSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), FP(e->k[0]), w); break;
        case O_FPTOUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), FP(e->k[0]), w); break;
        case O_UF: {
            std::vector<Z3_sort> ss; std::vector<Z3_ast> as;
            for (auto& v : e->k) { unsigned q = v.e ? v.e->w : 64; ss.push_back(S(q)); as.push_back(BV(v, q)); }
            Z3_func_decl f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, ("uf" + std::to_string(e->aux)).c_str()), ss.size(), ss.data(), S(w));
            r = Z3_mk_app(c, f, as.size(), as.data()); break; }
        default: break;
        }
        if (!r) {
            if (w != 1) { fprintf(stderr, "cannot translate op %s\n", opname[e->op]); abort(); }
            r = Z3_mk_ite(c, BO(e), num(1, 1), num(0, 1));
        }
        Z3_inc_ref(c, r);
        bv[e->id] = r;
        return r;
    }
    // variables of a term (memoised)
    std::unordered_map<uint32_t, std::vector<uint32_t>> vars_;
    const std::vector<uint32_t>& vars(Expr* e)
    {
        auto it = vars_.find(e->id);
        if (it != vars_.end()) return it->second;
        std::vector<uint32_t> r;
        if (e->op == O_VAR) r.push_back(e->id);
        else {
            for (auto& v : e->k) if (v.e) { auto& q = vars(v.e); r.insert(r.end(), q.begin(), q.end()); if (r.size() > 100000) { std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); } }
            for (auto& t : e->t) { auto& q = vars(t.a); r.insert(r.end(), q.begin(), q.end()); }
            std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
        }
        return vars_[e->id] = std::move(r);
    }
    bool isFP(Expr* e, std::unordered_set<uint32_t>& seen)
    {
        if (!seen.insert(e->id).second) return false;
        if (e->op >= O_FADD && e->op <= O_F32) return true;
        for (auto& v : e->k) if (v.e && isFP(v.e, seen)) return true;
        for (auto& t : e->t) if (isFP(t.a, seen)) return true;
        return false;
    }
    // products of words: first treated as unknown words (an over-approximation, so only its
    // "unsat" is used), then exactly
    bool absMul = false;
    std::unordered_map<uint32_t, Z3_ast> bv2, bo2, fp2;
    static bool hardMul(Expr* e)
    {
        int n = 0;
        for (auto& v : e->k) { if (v.e->op == O_FIELD && fieldLen(v.e) == 1) continue; if (v.e->w == 1) continue; n++; }
        return n >= 2;
    }
    std::unordered_map<uint32_t, char> hm_;
    bool hasHard(Expr* e)
    {
        auto it = hm_.find(e->id);
        if (it != hm_.end()) return it->second;
        bool r = e->op == O_MUL && hardMul(e);
        for (auto& v : e->k) if (!r && v.e) r = hasHard(v.e);
        for (auto& t : e->t) if (!r) r = hasHard(t.a);
        return hm_[e->id] = r;
    }
    void swapCaches() { std::swap(bv, bv2); std::swap(bo, bo2); std::swap(fp, fp2); }
    u64 gs = 88172645463325252ull;
    u64 grnd() { gs ^= gs << 13; gs ^= gs >> 7; gs ^= gs << 17; return gs; }
    // evaluation as a model finder for formulas with products
    bool guess(const std::vector<Expr*>& cs, const Model& base, Model* out, int tries)
    {
        std::vector<uint32_t> vs;
        for (auto* e : cs) for (auto v : vars(e)) vs.push_back(v);
        std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
        double t0 = now();
        for (int i = 0; i < tries; i++) {
            Model q = base;
            if (i) for (auto v : vs) {
                unsigned mode = i < tries / 2 ? (grnd() % 8 ? 3 : grnd() % 3) : grnd() % 4;
                unsigned w = allExprs()[v]->w;
                if (mode == 0) q[v] = grnd(); else if (mode == 1) q[v] = grnd() % 4; else if (mode == 2) q[v] = (u128)0 - grnd() % 4; else continue;
                q[v] &= maskw(w);
            }
            Evaluator ev(q);
            bool ok = true;
            for (auto* p : cs) if (!ev.ev(p)) { ok = false; break; }
            if (ok && !ev.fail) { if (out) *out = std::move(q); return true; }
            if (now() - t0 > 2.0) break;
        }
        return false;
    }
    int check(const std::vector<Expr*>& cs, Model* out)
    {
        bool hard = false;
        for (auto* e : cs) if (hasHard(e)) { hard = true; break; }
        bool f = false; { std::unordered_set<uint32_t> seen; for (auto* e : cs) if (isFP(e, seen)) f = true; }
        unsigned t = timeout_ms; Model base = out ? *out : Model();
        if (f) return check1(cs, out, false);
        {   // first: a short attempt (products abstracted)
            timeout_ms = std::min(t, 3000u);
            Model am; int r;
            if (hard) { absMul = true; swapCaches(); r = check1(cs, &am, true); swapCaches(); absMul = false; }
            else r = check1(cs, out, true);
            timeout_ms = t;
            if (r == 0) return 0;
            if (!hard && r == 1) { ST->sat++; return 1; }
            if (hard) {
                if (r == 1) { Model b2 = base; for (auto& kv : am) b2[kv.first] = kv.second; if (guess(cs, b2, out, 50)) { ST->sat++; return 1; } }
                if (guess(cs, base, out, 400)) { ST->sat++; return 1; }
            }
        }
        if (checkLia(cs, std::min(t / 2, 20000u)) == 0) return 0;
        if (hard) {
            timeout_ms = std::max(2000u, t / 4); Model am;
            absMul = true; swapCaches(); int r = check1(cs, &am, true); swapCaches(); absMul = false; timeout_ms = t;
            if (r == 0) return 0;
        }
        else if (guess(cs, base, out, 400)) { ST->sat++; return 1; }
        return check1(cs, out, false);
    }
    int checkLia(const std::vector<Expr*>& cs, unsigned ms)
    {
        double t0 = now();
        Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_LIA"));
        Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms);
        Z3_solver_set_params(c, s, p);
        Lia L(c, s);
        for (auto* e : cs) Z3_solver_assert(c, s, L.B(e));
        if (getenv("TFSYM_KEEP")) { std::string fn = std::string(getenv("TFSYM_KEEP")) + "." + std::to_string(getpid()) + "." + std::to_string(ST->queries.load()) + "lia.smt2"; FILE* f = fopen(fn.c_str(), "w"); if (f) { fprintf(f, "(set-logic QF_LIA)\n%s(check-sat)\n", Z3_solver_to_string(c, s)); fclose(f); } }
        Z3_lbool r = Z3_solver_check(c, s);
        Z3_params_dec_ref(c, p);
        Z3_solver_dec_ref(c, s);
        ST->queries++;
        ST->solver_us += (u64)((now() - t0) * 1e6);
        if (r == Z3_L_FALSE) { ST->unsat++; return 0; }
        return -1;
    }
    // 1 sat, 0 unsat, -1 unknown
    int check1(const std::vector<Expr*>& cs, Model* out, bool abs)
    {
        double t0 = now();
        std::unordered_set<uint32_t> seen; bool f = false;
        for (auto* e : cs) if (isFP(e, seen)) f = true;
        Z3_solver s = f ? Z3_mk_solver(c) : Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
        Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeout_ms);
        Z3_solver_set_params(c, s, p);
        for (auto* e : cs) Z3_solver_assert(c, s, BO(e));
        { std::unordered_set<uint32_t> vs; for (auto* e : cs) for (auto v : vars(e)) vs.insert(v); for (auto v : vs) { Expr* x = allExprs()[v]; if (x->rng && (u128)x->hi < maskw(x->w)) Z3_solver_assert(c, s, Z3_mk_bvule(c, BV(x), num((u128)x->hi, x->w))); } }
        if (getenv("TFSYM_KEEP")) { std::string fn = std::string(getenv("TFSYM_KEEP")) + "." + std::to_string(getpid()) + "." + std::to_string(ST->queries.load()) + (abs ? "a" : "") + ".smt2"; FILE* f = fopen(fn.c_str(), "w"); if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(c, s)); fclose(f); } }
        Z3_lbool r = Z3_solver_check(c, s);
        int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (res == 1 && out) {
            Z3_model m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            std::unordered_set<uint32_t> vs;
            for (auto* e : cs) for (auto v : vars(e)) vs.insert(v);
            for (auto v : vs) {
                Z3_ast val = nullptr;
                Expr* ve = allExprs()[v];
                if (Z3_model_eval(c, m, BV(ve), true, &val) && val) {
                    Z3_string q = Z3_get_numeral_string(c, val);
                    u128 x = 0; for (const char* z = q; *z; z++) x = x * 10 + (*z - '0');
                    (*out)[v] = x;
                }
            }
            Z3_model_dec_ref(c, m);
        }
        if (res == -1 && !abs) res = external(s, cs, out);
        Z3_params_dec_ref(c, p);
        Z3_solver_dec_ref(c, s);
        ST->queries++;
        if (res == 0) ST->unsat++; else if (!abs) { if (res == 1) ST->sat++; else ST->unknown++; }
        ST->solver_us += (u64)((now() - t0) * 1e6);
        return res;
    }
    int external(Z3_solver s, const std::vector<Expr*>& cs, Model* out)
    {
        // second opinion for a query z3's library did not finish: cvc5
        char fn[128]; snprintf(fn, sizeof fn, "/tmp/tfsym.%d.%u.smt2", (int)getpid(), (unsigned)ST->queries.load());
        FILE* f = fopen(fn, "w");
        if (!f) return -1;
        Z3_string t = Z3_solver_to_string(c, s);
        fprintf(f, "(set-option :produce-models true)\n(set-logic ALL)\n%s\n(check-sat)\n", t);
        std::vector<uint32_t> vs;
        for (auto* e : cs) for (auto v : vars(e)) vs.push_back(v);
        std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
        for (auto v : vs) fprintf(f, "(get-value (|%s#%u|))\n", allExprs()[v]->name.c_str(), v);
        fclose(f);
        if (getenv("TFSYM_KEEP") && 0) { std::string cp = std::string("cp ") + fn + " /tmp/tfsym_keep_" + std::to_string(getpid()) + "_" + std::to_string(ST->queries.load()) + ".smt2"; if (system(cp.c_str())) {} }
        char cmd[512]; snprintf(cmd, sizeof cmd, "timeout %u cvc5 --lang smt2 --tlimit=%u %s 2>/dev/null", timeout_ms / 1000 + 2, timeout_ms, fn);
        FILE* q = popen(cmd, "r");
        int res = -1; char line[4096];
        if (q) {
            size_t vi = 0;
            while (fgets(line, sizeof line, q)) {
                if (!strncmp(line, "sat", 3)) res = 1;
                else if (!strncmp(line, "unsat", 5)) { res = 0; break; }
                else if (res == 1 && out && vi < vs.size()) {
                    const char* b = strrchr(line, '#');
                    if (b && b[1] == 'b') { u128 x = 0; for (b += 2; *b == '0' || *b == '1'; b++) x = x * 2 + (*b - '0'); (*out)[vs[vi]] = x; }
                    vi++;
                }
            }
            pclose(q);
        }
        unlink(fn);
        return res;
    }
};
