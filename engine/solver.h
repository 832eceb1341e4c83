// Query layer: constraint slicing, model cache, z3 back end.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <set>

typedef std::unordered_map<uint32_t, uint64_t> Model;   // var index -> value (absent = 0)

static inline double now_s() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct Eval {
    const Model& m;
    std::unordered_map<uint32_t, u128> memo;
    Eval(const Model& m) : m(m) {}
    u128 ev(Expr* e) {
        if (e->k == K::Const) return e->v;
        if (e->k == K::Var) { auto it = m.find((uint32_t)e->v); return it == m.end() ? 0 : (u128)it->second & maskw(e->w); }
        auto it = memo.find(e->id);
        if (it != memo.end()) return it->second;
        u128 r = 0;
        switch (e->k) {
        case K::Concat: r = (ev(e->a) << e->b->w) | ev(e->b); break;
        case K::Extract: r = (ev(e->a) >> (unsigned)e->v) & maskw(e->w); break;
        case K::ZExt: r = ev(e->a); break;
        case K::SExt: r = (u128)sext128(ev(e->a), e->a->w) & maskw(e->w); break;
        case K::Ite: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
        default:
            if (e->k >= K::FAdd) { ExprCtx::evalFPv(e->k, ev(e->a), e->a->w, e->b ? ev(e->b) : 0, e->w, (unsigned)e->v, r); r &= maskw(e->w); }
            else ExprCtx::evalBin(e->k, e->a->w, ev(e->a), ev(e->b), r);
        }
        memo[e->id] = r;
        return r;
    }
};

struct Solver {
    ExprCtx& X;
    Z3_context ctx;
    std::unordered_map<uint32_t, Z3_ast> memo;
    uint64_t queries = 0, cacheHits = 0, unknowns = 0, sats = 0, unsats = 0, modelHits = 0;
    double time = 0, maxTime = 0;
    unsigned timeoutMs = 20000;
    std::unordered_map<std::string, int> cache;    // key -> 0 unsat, 1 sat
    std::unordered_map<std::string, Model> cacheModel;

    Solver(ExprCtx& X) : X(X) {
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
    }
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
    Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
    Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1))); }
    Z3_ast constBV(u128 v, unsigned w) {
        if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(w));
        Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), bv(w - 64));
        Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(64));
        return Z3_mk_concat(ctx, hi, lo);
    }
    Z3_ast tf(Z3_ast bvv, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, bvv, fps(w)); }
    bool usesFP = false;
    // A sum of small terms is computed in as few bits as it needs, and sign-extended.
    bool wide = false;
    Z3_ast narrowSum(Expr* e) {
        if (wide) return nullptr;
        ExprCtx::Lin l; if (!X.gather(e, 1, l)) return nullptr;
        unsigned w = e->w; i128 lo = sext128(l.c & (uint64_t)maskw(w), w), hi = lo;
        for (auto& kv : l.t) {
            u128 a, b; X.urange(kv.second.first, a, b); i128 q = sext128((u128)kv.second.second & maskw(w), w);
            if (b > ((u128)1 << 50) || q > 4096 || q < -4096) return nullptr;
            lo += q > 0 ? q * (i128)a : q * (i128)b; hi += q > 0 ? q * (i128)b : q * (i128)a;
        }
        unsigned m = 2; while (m < w && !(lo >= -((i128)1 << (m - 1)) && hi < ((i128)1 << (m - 1)))) m++;
        if (m + 6 > w) return nullptr;
        Z3_ast r = constBV(l.c & (uint64_t)maskw(m), m);
        for (auto& kv : l.t) {
            i128 q = sext128((u128)kv.second.second & maskw(w), w); Z3_ast t = tr(X.extract(kv.second.first, 0, m)); if (q == 0) continue;
            r = q == 1 ? Z3_mk_bvadd(ctx, r, t) : q == -1 ? Z3_mk_bvsub(ctx, r, t) : Z3_mk_bvadd(ctx, r, Z3_mk_bvmul(ctx, constBV((u128)q & maskw(m), m), t));
        }
        return lo >= 0 ? Z3_mk_zero_ext(ctx, w - m, r) : Z3_mk_sign_ext(ctx, w - m, r);
    }
    Z3_ast tr(Expr* e) {
        auto it = memo.find(e->id);
        if (it != memo.end()) return it->second;
        Z3_ast r = nullptr, a = nullptr, b = nullptr, c = nullptr;
        if ((e->k == K::Add || e->k == K::Sub) && e->w >= 32 && e->w <= 64) if (Z3_ast n = narrowSum(e)) { Z3_inc_ref(ctx, n); memo[e->id] = n; return n; }
        if (e->a) a = tr(e->a);
        if (e->b) b = tr(e->b);
        if (e->c) c = tr(e->c);
        Z3_ast one1 = Z3_mk_unsigned_int64(ctx, 1, bv(1));
        switch (e->k) {
        case K::Const: r = constBV(e->v, e->w); break;
        case K::Var: { char n[32]; snprintf(n, sizeof n, "v%u", (unsigned)e->v); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), bv(e->w)); break; }
        case K::Add: r = Z3_mk_bvadd(ctx, a, b); break;
        case K::Sub: r = Z3_mk_bvsub(ctx, a, b); break;
        case K::Mul: r = Z3_mk_bvmul(ctx, a, b); break;
        case K::UDiv: r = Z3_mk_bvudiv(ctx, a, b); break;
        case K::SDiv: r = Z3_mk_bvsdiv(ctx, a, b); break;
        case K::URem: r = Z3_mk_bvurem(ctx, a, b); break;
        case K::SRem: r = Z3_mk_bvsrem(ctx, a, b); break;
        case K::And: r = Z3_mk_bvand(ctx, a, b); break;
        case K::Or: r = Z3_mk_bvor(ctx, a, b); break;
        case K::Xor: r = Z3_mk_bvxor(ctx, a, b); break;
        case K::Shl: r = Z3_mk_bvshl(ctx, a, b); break;
        case K::LShr: r = Z3_mk_bvlshr(ctx, a, b); break;
        case K::AShr: r = Z3_mk_bvashr(ctx, a, b); break;
        case K::Concat: r = Z3_mk_concat(ctx, a, b); break;
        case K::Extract: r = Z3_mk_extract(ctx, (unsigned)e->v + e->w - 1, (unsigned)e->v, a); break;
        case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, a); break;
        case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, a); break;
        case K::Eq: r = b2bv(Z3_mk_eq(ctx, a, b)); break;
        case K::Ult: r = b2bv(Z3_mk_bvult(ctx, a, b)); break;
        case K::Ule: r = b2bv(Z3_mk_bvule(ctx, a, b)); break;
        case K::Slt: r = b2bv(Z3_mk_bvslt(ctx, a, b)); break;
        case K::Sle: r = b2bv(Z3_mk_bvsle(ctx, a, b)); break;
        case K::Ite: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, a, one1), b, c); break;
        default: {
            usesFP = true;
            Z3_ast rm = Z3_mk_fpa_rne(ctx), rtz = Z3_mk_fpa_rtz(ctx);
            unsigned aw = e->a->w;
            switch (e->k) {
            case K::FAdd: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rm, tf(a, aw), tf(b, aw))); break;
            case K::FSub: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rm, tf(a, aw), tf(b, aw))); break;
            case K::FMul: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rm, tf(a, aw), tf(b, aw))); break;
            case K::FDiv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rm, tf(a, aw), tf(b, aw))); break;
            case K::FCmp: {
                Z3_ast x = tf(a, aw), y = tf(b, aw), q;
                Z3_ast un2[2] = {Z3_mk_fpa_is_nan(ctx, x), Z3_mk_fpa_is_nan(ctx, y)};
                Z3_ast un = Z3_mk_or(ctx, 2, un2);
                switch ((unsigned)e->v & 7) {
                case 1: q = Z3_mk_fpa_eq(ctx, x, y); break;
                case 2: q = Z3_mk_fpa_gt(ctx, x, y); break;
                case 3: q = Z3_mk_fpa_geq(ctx, x, y); break;
                case 4: q = Z3_mk_fpa_lt(ctx, x, y); break;
                case 5: q = Z3_mk_fpa_leq(ctx, x, y); break;
                case 6: { Z3_ast t[2] = {Z3_mk_not(ctx, Z3_mk_fpa_eq(ctx, x, y)), Z3_mk_not(ctx, un)}; q = Z3_mk_and(ctx, 2, t); break; }
                case 7: q = Z3_mk_not(ctx, un); break;
                default: q = Z3_mk_false(ctx);
                }
                if ((unsigned)e->v & 8) { if ((unsigned)e->v == 15) q = Z3_mk_true(ctx); else if ((unsigned)e->v == 8) q = un; else { Z3_ast t[2] = {q, un}; q = Z3_mk_or(ctx, 2, t); } }
                r = b2bv(q); break; }
            case K::SIToFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rm, a, fps(e->w))); break;
            case K::UIToFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rm, a, fps(e->w))); break;
            case K::FPToSI: r = Z3_mk_fpa_to_sbv(ctx, rtz, tf(a, aw), e->w); break;
            case K::FPToUI: r = Z3_mk_fpa_to_ubv(ctx, rtz, tf(a, aw), e->w); break;
            case K::FPExt: case K::FPTrunc: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rm, tf(a, aw), fps(e->w))); break;
            case K::FRound: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, e->v == 0 ? Z3_mk_fpa_rtn(ctx) : e->v == 1 ? Z3_mk_fpa_rtp(ctx) : e->v == 3 ? rm : e->v == 4 ? Z3_mk_fpa_rna(ctx) : rtz, tf(a, aw))); break;
            default: fprintf(stderr, "tr: bad kind %d\n", (int)e->k); abort();
            } }
        }
        Z3_inc_ref(ctx, r);
        memo[e->id] = r;
        return r;
    }
    // ---- linear integer view of a query (exact: unsigned values of the terms), tried first with --lia
    bool lia = false; uint64_t liaUsed = 0;
    Z3_sort ints() { return Z3_mk_int_sort(ctx); }
    Z3_ast num(i128 v) { char b[64]; bool n = v < 0; u128 u = n ? (u128)-v : (u128)v; int i = 63; b[i] = 0; do { b[--i] = '0' + (int)(u % 10); u /= 10; } while (u); if (n) b[--i] = '-'; return Z3_mk_numeral(ctx, b + i, ints()); }
    Z3_ast add2(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_add(ctx, 2, t); }
    Z3_ast and2(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_and(ctx, 2, t); }
    bool toInt(Expr* e, Z3_ast& r, i128& lo, i128& hi, std::set<uint32_t>& vs) {
        if (e->w > 64) return false;
        i128 W = (i128)1 << e->w;
        switch (e->k) {
        case K::Const: lo = hi = (i128)e->v; r = num(lo); return true;
        case K::Var: { char n[32]; snprintf(n, sizeof n, "i%u", (unsigned)e->v); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), ints()); lo = 0; hi = W - 1; vs.insert((uint32_t)e->v); return true; }
        case K::ZExt: return toInt(e->a, r, lo, hi, vs);
        case K::SExt: { if (!toInt(e->a, r, lo, hi, vs)) return false; i128 h = (i128)1 << (e->a->w - 1), d = W - 2 * h; if (hi < h) return true; r = Z3_mk_ite(ctx, Z3_mk_ge(ctx, r, num(h)), add2(r, num(d)), r); if (hi >= h) hi += d; return true; }
        case K::Concat: { Z3_ast x, y; i128 l2, h2; if (e->w > 63 || !toInt(e->a, x, lo, hi, vs) || !toInt(e->b, y, l2, h2, vs)) return false; i128 f = (i128)1 << e->b->w; Z3_ast m[2] = {num(f), x}; r = add2(Z3_mk_mul(ctx, 2, m), y); lo = lo * f + l2; hi = hi * f + h2; return true; }
        case K::Ite: { Z3_ast c, x, y; i128 l2, h2; if (!toBool(e->a, c, vs) || !toInt(e->b, x, lo, hi, vs) || !toInt(e->c, y, l2, h2, vs)) return false; r = Z3_mk_ite(ctx, c, x, y); lo = std::min(lo, l2); hi = std::max(hi, h2); return true; }
        case K::Add: case K::Sub: {
            ExprCtx::Lin l; if (!X.gather(e, 1, l)) return false;
            i128 k = sext128(l.c & (uint64_t)maskw(e->w), e->w); lo = hi = k; std::vector<Z3_ast> ts{num(k)};
            for (auto& kv : l.t) {
                i128 q = sext128((u128)kv.second.second & maskw(e->w), e->w), a, b; Z3_ast t; if (!q) continue;
                if (!toInt(kv.second.first, t, a, b, vs) || q > 4096 || q < -4096) return false;
                lo += q > 0 ? q * a : q * b; hi += q > 0 ? q * b : q * a;
                Z3_ast m[2] = {num(q), t}; ts.push_back(q == 1 ? t : Z3_mk_mul(ctx, 2, m));
            }
            if (lo <= -W || hi >= 2 * W) return false;
            r = Z3_mk_add(ctx, ts.size(), ts.data());
            Z3_ast s0 = r;
            if (hi >= W) { r = Z3_mk_ite(ctx, Z3_mk_ge(ctx, s0, num(W)), add2(s0, num(-W)), r); }
            if (lo < 0) { r = Z3_mk_ite(ctx, Z3_mk_lt(ctx, s0, num(0)), add2(s0, num(W)), r); }
            if (lo < 0 || hi >= W) { lo = 0; hi = W - 1; }
            return true; }
        default: return false;
        }
    }
    bool toBool(Expr* e, Z3_ast& r, std::set<uint32_t>& vs) {
        if (e->w != 1) return false;
        Z3_ast x, y; i128 a, b, c, d;
        switch (e->k) {
        case K::Const: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); return true;
        case K::And: case K::Or: case K::Xor: { if (!toBool(e->a, x, vs) || !toBool(e->b, y, vs)) return false; Z3_ast t[2] = {x, y}; r = e->k == K::And ? Z3_mk_and(ctx, 2, t) : e->k == K::Or ? Z3_mk_or(ctx, 2, t) : Z3_mk_xor(ctx, x, y); return true; }
        case K::Ite: { Z3_ast z; if (!toBool(e->a, x, vs) || !toBool(e->b, y, vs) || !toBool(e->c, z, vs)) return false; r = Z3_mk_ite(ctx, x, y, z); return true; }
        case K::Eq: if (e->a->w == 1) { if (!toBool(e->a, x, vs) || !toBool(e->b, y, vs)) return false; r = Z3_mk_iff(ctx, x, y); return true; }
            if (!toInt(e->a, x, a, b, vs) || !toInt(e->b, y, c, d, vs)) return false; r = Z3_mk_eq(ctx, x, y); return true;
        case K::Ult: case K::Ule: case K::Slt: case K::Sle: {
            if (!toInt(e->a, x, a, b, vs) || !toInt(e->b, y, c, d, vs)) return false;
            if (e->k == K::Slt || e->k == K::Sle) { i128 h = (i128)1 << (e->a->w - 1); if (b >= h) x = Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, num(h)), add2(x, num(-2 * h)), x); if (d >= h) y = Z3_mk_ite(ctx, Z3_mk_ge(ctx, y, num(h)), add2(y, num(-2 * h)), y); }
            r = e->k == K::Ult || e->k == K::Slt ? Z3_mk_lt(ctx, x, y) : Z3_mk_le(ctx, x, y); return true; }
        default: return false;
        }
    }
    // 1 sat, 0 unsat, -1 not applicable or unknown
    int checkLIA(const std::vector<Expr*>& s, Expr* q, Model& mm) {
        std::vector<Z3_ast> as; std::set<uint32_t> vs; Z3_ast t;
        for (Expr* e : s) { if (!toBool(e, t, vs)) return -1; as.push_back(t); }
        if (!toBool(q, t, vs)) return -1;
        as.push_back(t);
        Z3_solver sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LIA")); Z3_solver_inc_ref(ctx, sol);
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 5000); Z3_solver_set_params(ctx, sol, p); Z3_params_dec_ref(ctx, p);
        auto iv = [&](uint32_t v) { char n[32]; snprintf(n, sizeof n, "i%u", v); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), ints()); };
        for (uint32_t v : vs) Z3_solver_assert(ctx, sol, and2(Z3_mk_ge(ctx, iv(v), num(0)), Z3_mk_le(ctx, iv(v), num(((i128)1 << X.vars[v].w) - 1))));
        for (Z3_ast a : as) Z3_solver_assert(ctx, sol, a);
        Z3_lbool res = Z3_solver_check(ctx, sol);
        if (res == Z3_L_TRUE) {
            Z3_model m = Z3_solver_get_model(ctx, sol); Z3_model_inc_ref(ctx, m);
            for (uint32_t v : vs) { Z3_ast val; uint64_t u = 0; if (Z3_model_eval(ctx, m, iv(v), true, &val)) Z3_get_numeral_uint64(ctx, val, &u); mm[v] = u; }
            Z3_model_dec_ref(ctx, m);
        }
        Z3_solver_dec_ref(ctx, sol);
        if (res != Z3_L_UNDEF) liaUsed++;
        return res == Z3_L_TRUE ? 1 : res == Z3_L_FALSE ? 0 : -1;
    }
    // constraints relevant to q
    std::vector<Expr*> slice(const std::vector<Expr*>& pc, Expr* q) {
        std::unordered_set<uint32_t> rel(q->vars->begin(), q->vars->end());
        std::vector<Expr*> out;
        std::vector<char> used(pc.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
                bool hit = false;
                for (uint32_t v : *pc[i]->vars) if (rel.count(v)) { hit = true; break; }
                if (hit) { used[i] = 1; ch = true; for (uint32_t v : *pc[i]->vars) rel.insert(v); }
            }
        }
        for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
        return out;
    }
    // 1 sat (model filled for the slice's variables), 0 unsat, -1 unknown
    int check(const std::vector<Expr*>& pc, Expr* q, Model* out, const Model* base = nullptr) {
        if (q->isConst() && !q->v) return 0;
        std::vector<Expr*> s = slice(pc, q);
        std::string key;
        {
            std::vector<uint32_t> ids; for (Expr* e : s) ids.push_back(e->id);
            std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
            ids.push_back(q->id);
            key.assign((const char*)ids.data(), ids.size() * 4);
        }
        auto it = cache.find(key);
        if (it != cache.end()) {
            cacheHits++;
            if (it->second == 1 && out) { if (base) *out = *base; for (auto& kv : cacheModel[key]) (*out)[kv.first] = kv.second; }
            return it->second;
        }
        double t0 = now_s();
        queries++;
        if (memo.size() > 400000) { // bound z3 memory
            memo.clear(); proxies.clear(); isol = nullptr; Z3_del_context(ctx); Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
        }
        if (lia) {
            Model mm; int r = checkLIA(s, q, mm);
            if (r >= 0) {
                double dt = now_s() - t0; time += dt; maxTime = std::max(maxTime, dt); cache[key] = r; (r ? sats : unsats)++;
                if (r == 1) { cacheModel[key] = mm; if (out) { if (base) *out = *base; for (auto& kv : mm) (*out)[kv.first] = kv.second; } }
                return r;
            }
        }
        Z3_ast one1 = Z3_mk_unsigned_int64(ctx, 1, bv(1));
        bool fp = false;
        Z3_solver sol;
        usesFP = false;
        std::vector<Z3_ast> as;
        for (Expr* e : s) as.push_back(tr(e));
        as.push_back(tr(q));
        for (Expr* e : s) fp |= hasFP(e);
        fp |= hasFP(q);
        Z3_lbool res;
        if (!fp && inc) {
            if (isol && proxies.size() > 4000) { Z3_solver_dec_ref(ctx, isol); isol = nullptr; proxies.clear(); }
            if (!isol) {
                isol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, isol);
                Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
                Z3_solver_set_params(ctx, isol, p); Z3_params_dec_ref(ctx, p);
            }
            std::vector<Z3_ast> asm_;
            for (size_t i = 0; i < as.size(); i++) {
                Expr* e = i < s.size() ? s[i] : q;
                auto it = proxies.find(e->id);
                if (it == proxies.end()) {
                    char n[32]; snprintf(n, sizeof n, "p%u", e->id);
                    Z3_ast pr = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bool_sort(ctx));
                    Z3_inc_ref(ctx, pr);
                    Z3_solver_assert(ctx, isol, Z3_mk_implies(ctx, pr, Z3_mk_eq(ctx, as[i], one1)));
                    it = proxies.emplace(e->id, pr).first;
                }
                asm_.push_back(it->second);
            }
            res = Z3_solver_check_assumptions(ctx, isol, asm_.size(), asm_.data());
            sol = isol;
        } else {
        sol = fp ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"))
                 : Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, sol);
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), fp ? timeoutMs : 1500);
        Z3_solver_set_params(ctx, sol, p);
        for (Z3_ast a : as) Z3_solver_assert(ctx, sol, Z3_mk_eq(ctx, a, one1));
        res = Z3_solver_check(ctx, sol);
        if (res == Z3_L_UNDEF && !fp) {      // second opinion: the bit-blasting strategy
            Z3_solver_dec_ref(ctx, sol); retries++;
            sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, sol);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
            Z3_solver_set_params(ctx, sol, p);
            for (Z3_ast a : as) Z3_solver_assert(ctx, sol, Z3_mk_eq(ctx, a, one1));
            res = Z3_solver_check(ctx, sol);
        }
        Z3_params_dec_ref(ctx, p);
        }
        int r = res == Z3_L_TRUE ? 1 : res == Z3_L_FALSE ? 0 : -1;
        Model mm;
        if (r == 1) {
            sats++;
            Z3_model m = Z3_solver_get_model(ctx, sol); Z3_model_inc_ref(ctx, m);
            std::set<uint32_t> vs(q->vars->begin(), q->vars->end());
            for (Expr* e : s) vs.insert(e->vars->begin(), e->vars->end());
            for (uint32_t v : vs) {
                Z3_ast val; if (!Z3_model_eval(ctx, m, tr(X.varExprs[v]), true, &val)) continue;
                uint64_t u = 0; Z3_get_numeral_uint64(ctx, val, &u);
                mm[v] = u;
            }
            Z3_model_dec_ref(ctx, m);
        } else if (r == 0) unsats++;
        else unknowns++;
        if (sol != isol) Z3_solver_dec_ref(ctx, sol);
        double dt = now_s() - t0; time += dt; maxTime = std::max(maxTime, dt);
        if (dumpSlow && dt > dumpSlow) { fprintf(stderr, "[slow query %.2fs res=%d constraints=%zu]\n", dt, r, s.size()); }
        if (dumpSlow && dt > dumpSlow && getenv("SYMX_DUMPQ")) { for (size_t i = 0; i < as.size(); i++) fprintf(stderr, "%s %s\n", i + 1 == as.size() ? "QUERY" : "  pc", Z3_ast_to_string(ctx, Z3_simplify(ctx, as[i]))); }
        if (r >= 0) { cache[key] = r; if (r == 1) cacheModel[key] = mm; }
        if (r == 1 && out) { if (base) *out = *base; for (auto& kv : mm) (*out)[kv.first] = kv.second; }
        return r;
    }
    double dumpSlow = 0; bool inc = getenv("SYMX_INC"); uint64_t retries = 0; Z3_solver isol = nullptr; std::unordered_map<uint32_t, Z3_ast> proxies;
    std::unordered_map<uint32_t, char> fpMemo;
    bool hasFP(Expr* e) {
        if (e->k <= K::Var) return false;
        auto it = fpMemo.find(e->id); if (it != fpMemo.end()) return it->second;
        bool r = e->k >= K::FAdd || (e->a && hasFP(e->a)) || (e->b && hasFP(e->b)) || (e->c && hasFP(e->c));
        fpMemo[e->id] = r; return r;
    }
};
