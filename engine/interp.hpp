// Symbolic interpreter for LLVM IR.  Paths are explored by fork().
#pragma once
#include "solver.hpp"
#include <cmath>
#include <cstdarg>
#include <map>

struct PathEnd { int kind; };  // 0 normal, 1 assumption/infeasible, 2 violation, 3 error
static Solver* SV;
static std::vector<Expr*> PC;
struct Input { std::string name; unsigned w; Val v; };
static std::vector<Input> INPUTS;
static std::map<std::string, int> OCC;
static Model curModel;   // satisfies PC (if curModelOk)
static bool curModelOk = true;
static double deadline = 1e300;
static int mergeDepth = 0;
static bool mergeOn = false;
static bool uninitError = false;
static bool strictUB = false;
static bool quietUninit = false;
static std::vector<std::string> CALLS;
static bool g_replay = false;
static std::map<std::string, u128> REPLAY;

[[noreturn]] static void fail(const char* fmt, ...)
{
    char b[3500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    std::string s = b;
    s += "\n  call stack:";
    for (size_t i = CALLS.size(); i-- > 0 && s.size() < 3800;) s += "\n    " + CALLS[i].substr(0, 200);
    int z = 0;
    if (ST->error.compare_exchange_strong(z, 1)) snprintf(ST->err, sizeof ST->err, "%s", s.c_str());
    throw PathEnd{3};
}

static u64 evalBool(Expr* e, const Model& m) { Evaluator ev(m); return (u64)ev.ev(e); }
// constraints of PC that share variables (transitively) with e
static std::vector<Expr*> slice(Expr* e)
{
    std::unordered_set<uint32_t> vs;
    for (auto v : SV->vars(e)) vs.insert(v);
    std::vector<Expr*> r; std::vector<char> in(PC.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < PC.size(); i++) {
            if (in[i]) continue;
            auto& pv = SV->vars(PC[i]);
            bool hit = false;
            for (auto v : pv) if (vs.count(v)) { hit = true; break; }
            if (hit) { in[i] = 1; ch = true; r.push_back(PC[i]); for (auto v : pv) vs.insert(v); }
        }
    }
    return r;
}
static void addPC(Val v)
{
    if (!v.e) return;
    if (v.e->op == O_AND) { addPC(v.e->k[0]); addPC(v.e->k[1]); return; }
    PC.push_back(v.e);
}
// is PC && v satisfiable?  (PC is known satisfiable)  1/0/-1
static int feasible(Val v, Model* out)
{
    if (!v.e) return (int)(v.c & 1);
    auto cs = slice(v.e);
    cs.push_back(v.e);
    Model m = curModel;
    int r = SV->check(cs, &m);
    if (r == 1 && out) *out = std::move(m);
    return r;
}
static std::string cexText(const Model& m, const std::string& why)
{
    std::string s = "why " + why + "\n";
    Evaluator ev(m);
    for (auto& i : INPUTS) {
        u128 x = ev.ev(i.v, i.w);
        char b[64]; snprintf(b, sizeof b, " %u %llu", i.w, (unsigned long long)(u64)x);
        s += "in " + i.name + b + "\n";
    }
    for (size_t i = CALLS.size(); i-- > 0 && s.size() < 900000;) s += "at " + CALLS[i].substr(0, 300) + "\n";
    return s;
}
static void report(const Model& m, const std::string& why)
{
    int z = 0;
    if (ST->violated.compare_exchange_strong(z, 1)) {
        std::string s = cexText(m, why);
        snprintf(ST->viol, sizeof ST->viol, "%s", s.c_str());
        ST->violated = 2;
    }
    throw PathEnd{2};
}
static std::vector<pid_t> kids;
static void reap(bool all)
{
    for (size_t i = 0; i < kids.size();) {
        int st; pid_t p = waitpid(kids[i], &st, all ? 0 : WNOHANG);
        if (p == kids[i]) { if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { int z = 0; if (ST->error.compare_exchange_strong(z, 1)) snprintf(ST->err, sizeof ST->err, "a worker process died (status %d)", st); } kids.erase(kids.begin() + i); }
        else i++;
    }
}
static bool holdsToken = false;
static void checkStop()
{
    if (ST->violated.load() || ST->error.load()) throw PathEnd{1};
    if (now() > deadline) { ST->inconclusive = 1; throw PathEnd{1}; }
}
// returns true in the child
static bool doFork()
{
    checkStop();
    fflush(stdout); fflush(stderr);
    ST->forks++;
    if (getenv("TFSYM_FORKS")) { fprintf(stderr, "fork in"); for (size_t i = CALLS.size(), n = 0; i-- > 0 && n < 4; n++) fprintf(stderr, " <- %s", CALLS[i].substr(0, 90).c_str()); fprintf(stderr, "\n"); }
    reap(false);
    bool par = false;
    int t = ST->tokens.load();
    while (t > 0) if (ST->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
    pid_t p = fork();
    if (p < 0) fail("fork failed");
    if (p == 0) { kids.clear(); holdsToken = par; return true; }
    if (par) kids.push_back(p);
    else {
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) fail("a worker process died (status %d)", st);
        checkStop();
    }
    return false;
}
// decide a symbolic condition, forking when both outcomes are possible
static bool decide(Val c)
{
    if (!c.e) return c.c & 1;
    checkStop();
    bool cur = evalBool(c.e, curModel);
    Val other = cur ? vNot(c) : c;
    Model m;
    int r = feasible(other, &m);
    if (r == 0) { return cur; }
    if (r < 0) { ST->inconclusive = 1; fprintf(stderr, "warning: undecided branch condition\n"); addPC(cur ? c : vNot(c)); return cur; }
    if (getenv("TFSYM_FORKS")) fprintf(stderr, "on %s\n", show(c.e, 4).substr(0, 400).c_str());
    if (doFork()) { addPC(other); curModel = std::move(m); return !cur; }
    addPC(cur ? c : vNot(c));
    return cur;
}
static u128 concretize(Val v, unsigned w)
{
    while (v.e) {
        if (v.e->op == O_ITE) { bool t = decide(v.e->k[0]); v = t ? v.e->k[1] : v.e->k[2]; continue; }
        Evaluator ev(curModel);
        u128 x = ev.ev(v.e);
        Val is = vEq(v, Val(x), w);
        if (decide(is)) return x;
    }
    return v.c;
}
static void assume(Val c)
{
    ST->assumes++;
    if (!c.e) { if (!(c.c & 1)) throw PathEnd{1}; return; }
    if (evalBool(c.e, curModel)) { addPC(c); return; }
    Model m;
    int r = feasible(c, &m);
    if (r == 0) throw PathEnd{1};
    if (r < 0) { ST->inconclusive = 1; throw PathEnd{1}; }
    addPC(c); curModel = std::move(m);
}
static u64 rngState = 88172645463325252ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static void doAssert(Val c, const std::string& msg)
{
    ST->asserts++;
    if (!c.e) {
        ST->asserts_const++;
        if (!(c.c & 1)) report(curModel, msg);
        return;
    }
    checkStop();
    if (!evalBool(c.e, curModel)) report(curModel, msg);
    Model m;
    int r = feasible(vNot(c), &m);
    if (r == 1) report(m, msg);
    if (r < 0) {
        // undecided: look for a witness by evaluation before giving up
        auto& vs = SV->vars(c.e);
        for (int i = 0; i < 20000; i++) {
            Model q = curModel;
            for (auto v : vs) { unsigned mode = rnd() % 4; q[v] = mode == 0 ? rnd() : mode == 1 ? rnd() % 4 : mode == 2 ? (u128)0 - rnd() % 4 : (u128)(curModel.count(v) ? (u64)curModel[v] : 0); q[v] &= maskw(allExprs()[v]->w); }
            bool ok = true;
            Evaluator ev(q);
            for (auto* p : PC) if (!ev.ev(p)) { ok = false; break; }
            if (ok && !ev.ev(c.e)) report(q, msg);
        }
        ST->inconclusive = 1;
        fprintf(stderr, "undecided assertion: %s\n", msg.c_str());
    }
}

// ------------------------------------------------------------------ memory
struct Cell { Expr* e; uint8_t idx, n; };
struct Obj {
    u64 size; uint8_t* d; uint8_t* st; Cell* sym; bool freed; bool heap; const char* what;
    uint8_t own = 0;  // 1: belongs to one thread, 2: shared whenever it was created (globals)
};
static std::vector<Obj*> OBJ;
// Parallel loops: every iteration runs as a thread of its own; each byte of memory
// that outlives an iteration remembers who wrote it and who read it.
struct ParLoop {
    int iter = -1, quiet = 0; size_t base = 0; bool inited = false, dispatched = false; u64 trip = 0; i128 dlo = 0, dinc = 0;
    struct Sh { int w = -1, r = -1; };
    std::unordered_map<u64, std::vector<Sh>> sh;
};
static ParLoop* PAR = nullptr;
static int TLSINIT = 0, GUARD = 0;
static void parAccess(Obj* o, u64 a, u64 n, bool w);
struct JEnt { uint32_t id; uint32_t off; std::vector<uint8_t> d, st; std::vector<Cell> c; };
static std::vector<JEnt>* JRN = nullptr;

static u64 newObj(u64 size, bool uninit, bool heap, const char* what)
{
    Obj* o = new Obj();
    o->size = size; o->d = (uint8_t*)calloc(1, size ? size : 1);
    o->st = nullptr; o->sym = nullptr; o->freed = false; o->heap = heap; o->what = what;
    if (uninit && size) { o->st = (uint8_t*)malloc(size); memset(o->st, 2, size); }
    if (OBJ.empty()) OBJ.push_back(nullptr);
    OBJ.push_back(o);
    o->own = TLSINIT ? 1 : GUARD ? 2 : 0;
    if (size > 0xfffffff0ull) fail("object too large");
    return (u64)(OBJ.size() - 1) << 32;
}
static void freeObj(Obj* o)
{
    o->freed = true;
    free(o->d); free(o->st); free(o->sym); o->d = nullptr; o->st = nullptr; o->sym = nullptr;
}
static Obj* resolve(u64 a, u64 n, const char* what)
{
    u64 id = a >> 32, off = a & 0xffffffffu;
    if (id == 0 || id >= OBJ.size()) {
        char b[200]; snprintf(b, sizeof b, "memory error: %s of %llu bytes at invalid address %llx", what, (unsigned long long)n, (unsigned long long)a);
        report(curModel, b);
    }
    Obj* o = OBJ[id];
    if (o->freed || off + n > o->size) {
        char b[300]; snprintf(b, sizeof b, "memory error: %s of %llu bytes at offset %lld of %s object '%s' of size %llu", what, (unsigned long long)n, (long long)(int32_t)off, o->freed ? "freed" : "live", o->what ? o->what : "?", (unsigned long long)o->size);
        report(curModel, b);
    }
    return o;
}
static void parAccess(Obj* o, u64 a, u64 n, bool w)
{
    if (PAR->iter < 0 || PAR->quiet || TLSINIT || GUARD || o->own == 1) return;
    u64 id = a >> 32; uint32_t off = (uint32_t)a;
    if (id >= PAR->base && o->own != 2) return;
    auto& v = PAR->sh[id]; if (v.size() < o->size) v.resize(o->size);
    for (u64 i = 0; i < n; i++) {
        auto& s = v[off + i];
        int other = -1; const char* how = "";
        if (s.w >= 0 && s.w != PAR->iter) { other = s.w; how = "written"; }
        else if (w && s.r != -1 && s.r != PAR->iter) { other = s.r; how = "read"; }
        if (other != -1) {
            char b[300];
            snprintf(b, sizeof b, "data race: iteration %d of a parallel loop %s byte %llu of '%s', %s by iteration %d%s", PAR->iter, w ? "writes" : "reads", (unsigned long long)(off + i), o->what ? o->what : "?", how, other < 0 ? 0 : other, other < 0 ? " and others" : "");
            report(curModel, b);
        }
        if (w) s.w = PAR->iter; else if (s.r == -1) s.r = PAR->iter; else if (s.r != PAR->iter) s.r = -2;
    }
}
static void ensureSym(Obj* o)
{
    if (!o->st) o->st = (uint8_t*)calloc(1, o->size);
    if (!o->sym) o->sym = (Cell*)calloc(o->size, sizeof(Cell));
}
static void journal(Obj* o, u64 a, u64 n)
{
    if (!JRN || !n) return;
    JEnt j; j.id = a >> 32; j.off = (uint32_t)a;
    j.d.assign(o->d + j.off, o->d + j.off + n);
    if (o->st) j.st.assign(o->st + j.off, o->st + j.off + n); else j.st.assign(n, 0);
    bool s = false; for (auto x : j.st) if (x == 1) s = true;
    if (s) j.c.assign(o->sym + j.off, o->sym + j.off + n);
    JRN->push_back(std::move(j));
}
static unsigned exprW(Val v) { return v.e ? v.e->w : 0; }
static void memStoreRaw(Obj* o, uint32_t off, Val v, unsigned bytes)
{
    if (!v.e) {
        u128 x = v.c;
        memcpy(o->d + off, &x, bytes);
        if (o->st) memset(o->st + off, 0, bytes);
    } else {
        ensureSym(o);
        memset(o->st + off, 1, bytes);
        for (unsigned i = 0; i < bytes; i++) o->sym[off + i] = Cell{v.e, (uint8_t)i, (uint8_t)bytes};
    }
}
static void memStore(u64 a, Val v, unsigned w)
{
    unsigned bytes = (w + 7) / 8;
    Obj* o = resolve(a, bytes, "store");
    if (PAR) parAccess(o, a, bytes, true);
    journal(o, a, bytes);
    if (v.e && w % 8) v = vZext(v, w, bytes * 8);
    memStoreRaw(o, (uint32_t)a, v, bytes);
}
static Val memLoadRaw(Obj* o, uint32_t off, unsigned bytes)
{
    if (!o->st) { u128 x = 0; memcpy(&x, o->d + off, bytes); return Val(x); }
    bool conc = true, un = false;
    for (unsigned i = 0; i < bytes; i++) { if (o->st[off + i]) conc = false; if (o->st[off + i] == 2) un = true; }
    if (conc) { u128 x = 0; memcpy(&x, o->d + off, bytes); return Val(x); }
    if (un) {
        // each uninitialised run becomes an arbitrary value
        for (unsigned i = 0; i < bytes;) {
            if (o->st[off + i] != 2) { i++; continue; }
            unsigned j = i; while (j < bytes && o->st[off + j] == 2) j++;
            std::string nm = "uninit"; int k = OCC[nm]++;
            if (g_replay) { auto it = REPLAY.find(nm + "." + std::to_string(k)); memStoreRaw(o, off + i, Val(it == REPLAY.end() ? (u128)0 : it->second), j - i); i = j; continue; }
            Expr* v = newVar(nm + "." + std::to_string(k), 8 * (j - i));
            if (!quietUninit) INPUTS.push_back({nm + "." + std::to_string(k), 8 * (j - i), Val(v)});
            ensureSym(o);
            memStoreRaw(o, off + i, Val(v), j - i);
            i = j;
        }
    }
    Cell& c = o->sym[off];
    if (o->st[off] == 1 && c.idx == 0 && c.n == bytes) {
        bool same = true;
        for (unsigned i = 1; i < bytes; i++) if (o->st[off + i] != 1 || o->sym[off + i].e != c.e || o->sym[off + i].idx != i) { same = false; break; }
        if (same) return Val(c.e);
    }
    Val r((u128)0); unsigned W = bytes * 8;
    for (unsigned i = 0; i < bytes;) {
        if (o->st[off + i] == 0) { r = vAdd(r, Val((u128)o->d[off + i] << (8 * i)), W); i++; continue; }
        Cell& k = o->sym[off + i];
        unsigned j = i + 1;
        while (j < bytes && o->st[off + j] == 1 && o->sym[off + j].e == k.e && o->sym[off + j].idx == k.idx + (j - i)) j++;
        if (k.e->op == O_REAL) fail("partial read of an abstract real");
        // pieces of one wider word stored separately: put the word back together
        if (k.idx == 0 && i > 0 && j - i == k.n && k.e->op == O_FIELD && fieldLo(k.e) == 8 * i && r.e) {
            Expr* S = k.e->k[0].e; unsigned len = fieldLen(k.e);
            if (len <= 8 * (j - i)) {
                Val low = vField(Val(S), S->w, 0, 8 * i, W);
                if (low.e == r.e) { r = vField(Val(S), S->w, 0, 8 * i + len, W); i = j; continue; }
            }
        }
        Val p = vField(Val(k.e), k.e->w, 8 * k.idx, 8 * (j - i), W);
        r = vAdd(r, vMulC(p, (u128)1 << (8 * i), W), W);
        i = j;
    }
    return r;
}
static Val memLoad(u64 a, unsigned w)
{
    unsigned bytes = (w + 7) / 8;
    Obj* o = resolve(a, bytes, "load");
    if (PAR) parAccess(o, a, bytes, false);
    Val v = memLoadRaw(o, (uint32_t)a, bytes);
    if (w % 8) v = vTrunc(v, bytes * 8, w);
    return v;
}
static void memCopy(u64 dst, u64 src, u64 n)
{
    if (!n) return;
    Obj* s = resolve(src, n, "copy-read"); Obj* o = resolve(dst, n, "copy-write");
    if (PAR) { parAccess(s, src, n, false); parAccess(o, dst, n, true); }
    journal(o, dst, n);
    uint32_t so = (uint32_t)src, d = (uint32_t)dst;
    bool ss = false, su = false;
    if (s->st) for (u64 i = 0; i < n; i++) { if (s->st[so + i] == 1) { ss = true; break; } if (s->st[so + i] == 2) su = true; }
    if (ss) { ensureSym(o); memmove(o->sym + d, s->sym + so, n * sizeof(Cell)); }
    if (ss || su) { if (!o->st) o->st = (uint8_t*)calloc(1, o->size); memmove(o->st + d, s->st + so, n); }
    else if (o->st) { if (s->st && o == s) memmove(o->st + d, s->st + so, n); else memset(o->st + d, 0, n); }
    memmove(o->d + d, s->d + so, n);
}
static std::string cstr(u64 a)
{
    std::string s;
    while (true) { Val v = memLoad(a++, 8); if (v.e) fail("symbolic string"); if (!v.c) break; s += (char)v.c; }
    return s;
}
static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static bool isReal(Val v) { return v.e && v.e->op == O_REAL; }
// Exact numbers travelling through double registers: (P + Q*s) / 2^k with s = sqrt(1/2).
// They model the frequency domain of an N=4 (or smaller) ring without rounding.
struct Rl { Val P, Q; unsigned k; };
static Rl real(Val v)
{
    if (isReal(v)) return {v.e->k[0], v.e->k[1], (unsigned)v.e->aux};
    if (v.e) fail("symbolic double where an exact number was expected");
    double d = asD(v.c);
    unsigned k = 0;
    while (k < 60 && d != std::floor(d)) { d *= 2; k++; }
    if (d != std::floor(d) || std::fabs(d) > 1e37) fail("inexact double %g mixed with exact numbers", asD(v.c));
    return {Val((u128)(i128)d), Val((u128)0), k};
}
static Val mkReal(Rl r)
{
    if (!r.P.e && !r.Q.e && !r.Q.c) {
        i128 x = (i128)r.P.c; unsigned k = r.k;
        if (!x) return Val(fromD(0.0));
        while (k && !(x & 1)) { x >>= 1; k--; }
        double d = (double)x; if ((i128)d == x) return Val(fromD(std::ldexp(d, -(int)k)));
    }
    return Val(mk(O_REAL, 64, {r.P, r.Q}, r.k));
}
static void alignReal(Rl& a, Rl& b)
{
    if (a.k < b.k) { u128 f = (u128)1 << (b.k - a.k); a.P = vMulC(a.P, f, 128); a.Q = vMulC(a.Q, f, 128); a.k = b.k; }
    else if (b.k < a.k) { u128 f = (u128)1 << (a.k - b.k); b.P = vMulC(b.P, f, 128); b.Q = vMulC(b.Q, f, 128); b.k = a.k; }
}
static Rl addReal(Rl a, Rl b) { alignReal(a, b); return {vAdd(a.P, b.P, 128), vAdd(a.Q, b.Q, 128), a.k}; }
static Rl negReal(Rl a) { return {vNeg(a.P, 128), vNeg(a.Q, 128), a.k}; }
static Rl mulReal(Rl a, Rl b)
{
    Val pp = vMul(a.P, b.P, 128), qq = vMul(a.Q, b.Q, 128), x = vAdd(vMul(a.P, b.Q, 128), vMul(a.Q, b.P, 128), 128);
    if (!qq.e && !qq.c) return {pp, x, a.k + b.k};
    return {vAdd(vMulC(pp, 2, 128), qq, 128), vMulC(x, 2, 128), a.k + b.k + 1};
}
static bool divisible(Val v, unsigned k)
{
    u128 m = maskw(k);
    if (!v.e) return !(v.c & m);
    if (v.e->op != O_SUM) return k == 0;
    if (v.e->cst & m) return false;
    for (auto& t : v.e->t) if (t.c & m) return false;
    return true;
}
// exact integer value (128 bits, modulo 2^(128-k))
static Val realInt(Val v)
{
    Rl r = real(v);
    if (r.Q.e || r.Q.c) doAssert(vEq(r.Q, Val((u128)0), 128), "a value read back from the frequency domain is not the image of an integer polynomial");
    if (!r.k) return r.P;
    if (divisible(r.P, r.k)) {
        if (!r.P.e) return Val((u128)((i128)r.P.c >> r.k));
        Val q((u128)((i128)r.P.e->cst >> r.k));
        for (auto& t : r.P.e->t) q = vAdd2(q, Val(t.a), (u128)((i128)t.c >> r.k), 128);
        return q;
    }
    doAssert(vEq(vField(r.P, 128, 0, r.k, 128), Val((u128)0), 128), "a value read back from the frequency domain is not the image of an integer polynomial");
    return vAshr(r.P, Val((u128)r.k), 128);
}
// a condition on a few adjacent bits of one word as the multilinear polynomial of those bits
// does the word contain a variable other than through slices?
static bool rawVar(Expr* e)
{
    static std::unordered_map<uint32_t, bool> memo;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    bool r = e->op == O_VAR || e->op == O_UF;
    if (e->op != O_FIELD) { for (auto& v : e->k) if (!r && v.e) r = rawVar(v.e); for (auto& t : e->t) if (!r) r = rawVar(t.a); }
    return memo[e->id] = r;
}
static Val boolPoly(Val c, unsigned w)
{
    static std::unordered_map<u64, Val> memo;
    u64 key = (u64)c.e->id << 8 | w;
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    std::vector<Expr*> fields, cmps, st{c.e}; std::unordered_set<Expr*> seen; Expr* y = nullptr; unsigned lo = ~0u, hi = 0; bool ok = true;
    while (ok && !st.empty()) {
        Expr* e = st.back(); st.pop_back();
        if (!seen.insert(e).second) continue;
        if (seen.size() > 200) ok = false;
        bool inner = e->op == O_FIELD && !rawVar(e->k[0].e);
        if (e->op == O_FIELD && !inner) { if (y && y != e->k[0].e) ok = false; y = e->k[0].e; lo = std::min(lo, fieldLo(e)); hi = std::max(hi, fieldLo(e) + fieldLen(e)); fields.push_back(e); continue; }
        if ((e->op == O_ULT || e->op == O_SLT) && (!e->k[0].e || !e->k[1].e)) {
            // comparison of a word with a constant that only looks at its top bits
            bool left = !e->k[0].e; Expr* z = left ? e->k[1].e : e->k[0].e; u128 c = (left ? e->k[0].c + 1 : e->k[1].c) & maskw(z->w);
            unsigned m = c ? __builtin_ctzll((u64)c) : z->w - 1;
            if (z->w <= 64 && z->w > 6 && (c || e->op == O_SLT) && z->w - std::min<unsigned>(m, z->w - 1) <= 6 && rawVar(z)) {
                m = std::min<unsigned>(m, z->w - 1);
                if (y && y != z) ok = false;
                y = z; lo = std::min(lo, m); hi = std::max<unsigned>(hi, z->w); cmps.push_back(e);
                continue;
            }
        }
        if (e->op == O_VAR || e->op == O_UF || (e->op >= O_REAL && e->op <= O_F32)) { ok = false; break; }
        for (auto& v : e->k) if (v.e) st.push_back(v.e);
        for (auto& t : e->t) st.push_back(t.a);
    }
    if (!ok || !y || hi - lo > 6) return memo[key] = vZext(c, 1, w);
    unsigned n = hi - lo; std::vector<i64> f(1u << n);
    static Model none;
    for (unsigned v = 0; v < (1u << n); v++) {
        Evaluator ev(none);
        for (auto* e : fields) ev.memo[e->id] = (v >> (fieldLo(e) - lo)) & maskw(fieldLen(e));
        for (auto* e : cmps) {
            u128 x = (u128)v << lo; unsigned W = y->w;  // the bits below do not matter
            bool left = !e->k[0].e; u128 p = left ? e->k[0].c & maskw(W) : x, q = left ? x : e->k[1].c & maskw(W);
            ev.memo[e->id] = e->op == O_ULT ? p < q : sx(p, W) < sx(q, W);
        }
        f[v] = (i64)ev.ev(c.e);
    }
    for (unsigned b = 0; b < n; b++) for (unsigned v = 0; v < (1u << n); v++) if (v >> b & 1) f[v] -= f[v ^ (1u << b)];
    Val r((u128)0);
    for (unsigned v = 0; v < (1u << n); v++) if (f[v]) {
        Val p((u128)1);
        for (unsigned b = 0; b < n; b++) if (v >> b & 1) p = vMul(p, vField(Val(y), y->w, lo + b, 1, w), w);
        r = vAdd2(r, p, (u128)(i128)f[v], w);
    }
    return memo[key] = r;
}
static bool polyIte = false;  // merged words as b + [c]*(a-b): linear contents stay polynomials
static Val pIte(Val c, Val a, Val b, unsigned w)
{
    if (!polyIte || w < 8 || !c.e) return vIte(c, a, b, w);
    return vAdd(b, vMul(boolPoly(c, w), vSub(a, b, w), w), w);
}
static Val mergeVal(Val c, Val a, Val b, unsigned w)
{
    if (a.e == b.e && a.c == b.c) return a;
    if (isReal(a) || isReal(b)) { Rl x = real(a), y = real(b); alignReal(x, y); return mkReal({pIte(c, x.P, y.P, 128), pIte(c, x.Q, y.Q, 128), x.k}); }
    return pIte(c, a, b, w);
}
