// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cassert>
#include <cstdio>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <memory>
#include <algorithm>
#include <cmath>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor,
    Shl, LShr, AShr, Concat, Extract, ZExt, SExt, Eq, Ult, Ule, Slt, Sle, Ite,
    // floating point; operands/results are IEEE bit patterns (32 or 64 bits wide)
    FAdd, FSub, FMul, FDiv, FCmp, SIToFP, UIToFP, FPToSI, FPToUI, FPExt, FPTrunc, FRound
};

struct VarSet;   // sorted unique variable ids

struct Expr {
    K k; uint16_t w; uint32_t id; uint64_t h;
    Expr *a, *b, *c;
    u128 v;                 // Const value; Extract: low bit; Var: index; FCmp: predicate
    const std::vector<uint32_t>* vars;
    bool isConst() const { return k == K::Const; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sext128(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 s = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ s) - s);
}

struct VarInfo { std::string name; unsigned w; };

struct ExprCtx {
    std::unordered_multimap<uint64_t, Expr*> tab;
    std::vector<VarInfo> vars;
    std::vector<Expr*> varExprs;
    std::vector<Expr*> all;
    std::vector<uint32_t> emptyVars;
    char* pool = nullptr; size_t poolLeft = 0;

    Expr* allocE() {
        if (poolLeft < sizeof(Expr)) { poolLeft = 1 << 20; pool = (char*)malloc(poolLeft); }
        Expr* e = (Expr*)pool; pool += sizeof(Expr); poolLeft -= sizeof(Expr);
        return e;
    }
    static uint64_t mix(uint64_t h, uint64_t v) {
        h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        return h * 0xff51afd7ed558ccdULL;
    }
    Expr* intern(K k, unsigned w, Expr* a, Expr* b, Expr* c, u128 v) {
        uint64_t h = mix((uint64_t)k * 131 + w, a ? a->id + 1 : 0);
        h = mix(h, b ? b->id + 1 : 0); h = mix(h, c ? c->id + 1 : 0);
        h = mix(h, (uint64_t)v); h = mix(h, (uint64_t)(v >> 64));
        auto r = tab.equal_range(h);
        for (auto it = r.first; it != r.second; ++it) {
            Expr* e = it->second;
            if (e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->v == v) return e;
        }
        Expr* e = allocE();
        e->k = k; e->w = w; e->a = a; e->b = b; e->c = c; e->v = v; e->h = h;
        e->id = (uint32_t)all.size(); all.push_back(e);
        // variable set
        if (k == K::Var) { e->vars = new std::vector<uint32_t>{(uint32_t)v}; }
        else {
            const std::vector<uint32_t>* s[3]; int n = 0;
            for (Expr* x : {a, b, c}) if (x && !x->vars->empty()) s[n++] = x->vars;
            if (n == 0) e->vars = &emptyVars;
            else {
                const std::vector<uint32_t>* best = s[0];
                for (int i = 1; i < n; i++) best = uni(best, s[i]);
                e->vars = best;
            }
        }
        tab.emplace(h, e);
        return e;
    }
    std::map<std::pair<const void*, const void*>, const std::vector<uint32_t>*> uniCache;
    const std::vector<uint32_t>* uni(const std::vector<uint32_t>* x, const std::vector<uint32_t>* y) {
        if (x == y) return x;
        if (x->size() < y->size()) std::swap(x, y);
        if (std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
        auto key = std::make_pair((const void*)x, (const void*)y);
        auto it = uniCache.find(key);
        if (it != uniCache.end()) return it->second;
        auto* r = new std::vector<uint32_t>();
        std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(*r));
        uniCache[key] = r;
        return r;
    }

    Expr* c(u128 v, unsigned w) { return intern(K::Const, w, nullptr, nullptr, nullptr, v & maskw(w)); }
    Expr* var(const std::string& name, unsigned w) {
        uint32_t i = vars.size();
        vars.push_back({name, w});
        Expr* e = intern(K::Var, w, nullptr, nullptr, nullptr, i);
        varExprs.push_back(e);
        return e;
    }
    Expr* tru() { return c(1, 1); }
    Expr* fls() { return c(0, 1); }

    Expr* notE(Expr* x) {              // boolean (w==1) or bitwise
        return bin(K::Xor, x, c(maskw(x->w), x->w));
    }
    static bool evalBin(K k, unsigned w, u128 x, u128 y, u128& r) {
        i128 sx = sext128(x, w), sy = sext128(y, w);
        switch (k) {
        case K::Add: r = x + y; break;
        case K::Sub: r = x - y; break;
        case K::Mul: r = x * y; break;
        case K::UDiv: if (!y) { r = maskw(w); break; } r = x / y; break;
        case K::URem: if (!y) { r = x; break; } r = x % y; break;
        case K::SDiv: if (!sy) { r = sx < 0 ? 1 : maskw(w); break; } if (sy == -1) r = (u128)0 - (u128)sx; else r = (u128)(sx / sy); break;
        case K::SRem: if (!sy) { r = x; break; } if (sy == -1) r = 0; else r = (u128)(sx % sy); break;
        case K::And: r = x & y; break;
        case K::Or: r = x | y; break;
        case K::Xor: r = x ^ y; break;
        case K::Shl: r = y >= w ? 0 : x << (unsigned)y; break;
        case K::LShr: r = y >= w ? 0 : x >> (unsigned)y; break;
        case K::AShr: r = (u128)(sx >> (y >= w ? w - 1 : (unsigned)y)); break;
        case K::Eq: r = x == y; return true;
        case K::Ult: r = x < y; return true;
        case K::Ule: r = x <= y; return true;
        case K::Slt: r = sx < sy; return true;
        case K::Sle: r = sx <= sy; return true;
        default: return false;
        }
        r &= maskw(w);
        return true;
    }
    static bool isCmp(K k) { return k >= K::Eq && k <= K::Sle; }

    Expr* extract(Expr* x, unsigned lo, unsigned w) {
        if (lo == 0 && w == x->w) return x;
        assert(lo + w <= x->w);
        switch (x->k) {
        case K::Const: return c(x->v >> lo, w);
        case K::Extract: return extract(x->a, lo + (unsigned)x->v, w);
        case K::Concat: {
            unsigned bw = x->b->w;
            if (lo + w <= bw) return extract(x->b, lo, w);
            if (lo >= bw) return extract(x->a, lo - bw, w);
            return concat(extract(x->a, 0, lo + w - bw), extract(x->b, lo, bw - lo));
        }
        case K::ZExt:
            if (lo >= x->a->w) return c(0, w);
            if (lo + w <= x->a->w) return extract(x->a, lo, w);
            return zext(extract(x->a, lo, x->a->w - lo), w);
        case K::SExt:
            if (lo + w <= x->a->w) return extract(x->a, lo, w);
            break;
        case K::And: case K::Or: case K::Xor:
            return bin(x->k, extract(x->a, lo, w), extract(x->b, lo, w));
        case K::Add: case K::Sub: case K::Mul:
            if (lo == 0) return bin(x->k, extract(x->a, 0, w), extract(x->b, 0, w));
            break;
        case K::Ite:
            if (x->b->isConst() || x->c->isConst() || w <= 8)
                return ite(x->a, extract(x->b, lo, w), extract(x->c, lo, w));
            break;
        default: break;
        }
        return intern(K::Extract, w, x, nullptr, nullptr, lo);
    }
    Expr* concat(Expr* hi, Expr* lo) {
        unsigned w = hi->w + lo->w;
        assert(w <= 128);
        if (hi->isConst() && lo->isConst()) return c((hi->v << lo->w) | lo->v, w);
        if (hi->isConst() && hi->v == 0) return zext(lo, w);
        if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && (unsigned)hi->v == (unsigned)lo->v + lo->w)
            return extract(hi->a, (unsigned)lo->v, w);
        if (hi->k == K::Extract && hi->a == lo && (unsigned)hi->v == lo->w) { Expr* r = extract(hi->a, 0, w); return r; }
        // re-associate so that adjacent extracts meet
        if (lo->k == K::Concat && lo->a->k == K::Extract && hi->k == K::Extract && lo->a->a == hi->a &&
            (unsigned)hi->v == (unsigned)lo->a->v + lo->a->w)
            return concat(extract(hi->a, (unsigned)lo->a->v, hi->w + lo->a->w), lo->b);
        if (hi->k == K::Concat) { // right-leaning normal form
            return concat(hi->a, concat(hi->b, lo));
        }
        if (hi->k == K::ZExt) return zext(concat(hi->a, lo), w);
        if (hi->isConst() && lo->k == K::Concat && lo->a->isConst())
            return concat(concat(hi, lo->a), lo->b);
        // ite(c,a,b) ++ ite(c,d,e)
        if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a)
            return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
        return intern(K::Concat, w, hi, lo, nullptr, 0);
    }
    Expr* zext(Expr* x, unsigned w) {
        if (w == x->w) return x;
        assert(w > x->w);
        if (x->isConst()) return c(x->v, w);
        if (x->k == K::ZExt) return zext(x->a, w);
        if (x->k == K::Ite && x->b->isConst() && x->c->isConst() ) return ite(x->a, zext(x->b, w), zext(x->c, w));
        return intern(K::ZExt, w, x, nullptr, nullptr, 0);
    }
    Expr* sext(Expr* x, unsigned w) {
        if (w == x->w) return x;
        assert(w > x->w);
        if (x->isConst()) return c((u128)sext128(x->v, x->w), w);
        if (x->k == K::ZExt) return zext(x->a, w);
        if (x->k == K::SExt) return sext(x->a, w);
        if (x->k == K::Ite && x->b->isConst() && x->c->isConst()) return ite(x->a, sext(x->b, w), sext(x->c, w));
        return intern(K::SExt, w, x, nullptr, nullptr, 0);
    }
    Expr* ite(Expr* cnd, Expr* t, Expr* f) {
        if (cnd->isConst()) return cnd->v ? t : f;
        if (t == f) return t;
        if (t->w == 1) {
            if (t->isConst() && f->isConst()) return t->v ? cnd : notE(cnd);
            if (t->isConst()) return t->v ? bin(K::Or, cnd, f) : bin(K::And, notE(cnd), f);
            if (f->isConst()) return f->v ? bin(K::Or, notE(cnd), t) : bin(K::And, cnd, t);
        }
        if (cnd->k == K::Xor && cnd->b->isConst() && cnd->b->v == 1) return ite(cnd->a, f, t);
        if (t->k == K::Ite && t->a == cnd) return ite(cnd, t->b, f);
        if (f->k == K::Ite && f->a == cnd) return ite(cnd, t, f->c);
        return intern(K::Ite, t->w, cnd, t, f, 0);
    }
    // unsigned upper bound / lower bound (cheap, local)
    void urange(Expr* e, u128& lo, u128& hi, int depth = 6) {
        lo = 0; hi = maskw(e->w);
        if (e->isConst()) { lo = hi = e->v; return; }
        if (depth == 0) return;
        u128 l1, h1, l2, h2;
        switch (e->k) {
        case K::ZExt: urange(e->a, lo, hi, depth - 1); return;
        case K::And: urange(e->b, l2, h2, depth - 1); urange(e->a, l1, h1, depth - 1); hi = std::min(h1, h2); return;
        case K::Ite: urange(e->b, l1, h1, depth - 1); urange(e->c, l2, h2, depth - 1); lo = std::min(l1, l2); hi = std::max(h1, h2); return;
        case K::Add: urange(e->a, l1, h1, depth - 1); urange(e->b, l2, h2, depth - 1);
            if (e->w < 127 && h1 + h2 <= maskw(e->w)) { lo = l1 + l2; hi = h1 + h2; } return;
        case K::Mul: urange(e->a, l1, h1, depth - 1); urange(e->b, l2, h2, depth - 1);
            if (e->w <= 64 && h1 <= 0xffffffffu && h2 <= 0xffffffffu && h1 * h2 <= maskw(e->w)) { lo = l1 * l2; hi = h1 * h2; } return;
        case K::Concat: if (e->a->isConst()) { urange(e->b, l2, h2, depth - 1); lo = (e->a->v << e->b->w) | l2; hi = (e->a->v << e->b->w) | h2; }
            else { urange(e->a, l1, h1, depth - 1); urange(e->b, l2, h2, depth - 1); lo = (l1 << e->b->w) | l2; hi = (h1 << e->b->w) | h2; } return;
        case K::URem: if (e->b->isConst() && e->b->v) { hi = e->b->v - 1; } return;
        case K::UDiv: if (e->b->isConst() && e->b->v) { urange(e->a, l1, h1, depth - 1); lo = l1 / e->b->v; hi = h1 / e->b->v; } return;
        case K::LShr: if (e->b->isConst() && e->b->v < e->w) { urange(e->a, l1, h1, depth - 1); lo = l1 >> (unsigned)e->b->v; hi = h1 >> (unsigned)e->b->v; } return;
        default: return;
        }
    }
    Expr* bin(K k, Expr* a, Expr* b) {
        unsigned w = a->w;
        assert(a->w == b->w);
        bool cmp = isCmp(k);
        u128 r;
        if (a->isConst() && b->isConst() && evalBin(k, w, a->v, b->v, r)) return c(r, cmp ? 1 : w);
        // canonical: constants on the right for commutative ops
        bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
        if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
        switch (k) {
        case K::Add:
            if (b->isConst() && b->v == 0) return a;
            if (b->isConst() && a->k == K::Add && a->b->isConst()) return bin(K::Add, a->a, c(a->b->v + b->v, w));
            if (a->k == K::Add && a->b->isConst() && !b->isConst()) return bin(K::Add, bin(K::Add, a->a, b), a->b);
            if (b->k == K::Add && b->b->isConst()) return bin(K::Add, bin(K::Add, a, b->a), b->b);
            if (a->k == K::Sub && a->b == b) return a->a;
            if (b->k == K::Sub && b->b == a) return b->a;
            if (b->isConst() && a->k == K::Ite && a->b->isConst() && a->c->isConst())
                return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
            break;
        case K::Sub:
            if (a == b) return c(0, w);
            if (b->isConst()) return bin(K::Add, a, c((u128)0 - b->v, w));
            if (a->k == K::Add && a->a == b) return a->b;
            if (a->k == K::Add && a->b == b) return a->a;
            if (a->k == K::Add && a->b->isConst()) return bin(K::Add, bin(K::Sub, a->a, b), a->b);
            if (b->k == K::Add && b->b->isConst()) return bin(K::Add, bin(K::Sub, a, b->a), c((u128)0 - b->b->v, w));
            if (b->k == K::Add && b->a == a) return bin(K::Sub, c(0, w), b->b);
            if (b->k == K::Add && b->b == a) return bin(K::Sub, c(0, w), b->a);
            if (a->k == K::Add && b->k == K::Add) {
                if (a->a == b->a) return bin(K::Sub, a->b, b->b);
                if (a->a == b->b) return bin(K::Sub, a->b, b->a);
                if (a->b == b->a) return bin(K::Sub, a->a, b->b);
                if (a->b == b->b) return bin(K::Sub, a->a, b->a);
            }
            break;
        case K::Mul:
            if (b->isConst()) {
                if (b->v == 0) return b;
                if (b->v == 1) return a;
                if ((b->v & (b->v - 1)) == 0) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return bin(K::Shl, a, c(s, w)); }
            }
            break;
        case K::UDiv:
            if (b->isConst() && b->v && (b->v & (b->v - 1)) == 0) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return bin(K::LShr, a, c(s, w)); }
            break;
        case K::URem:
            if (b->isConst() && b->v && (b->v & (b->v - 1)) == 0) return bin(K::And, a, c(b->v - 1, w));
            break;
        case K::And:
            if (a == b) return a;
            if (b->isConst()) {
                if (b->v == 0) return b;
                if (b->v == maskw(w)) return a;
                if (a->k == K::And && a->b->isConst()) return bin(K::And, a->a, c(a->b->v & b->v, w));
                // low mask
                if ((b->v & (b->v + 1)) == 0) { unsigned n = 0; while ((b->v >> n) & 1) n++; return zext(extract(a, 0, n), w); }
                if (a->k == K::ZExt) { unsigned aw = a->a->w; return zext(bin(K::And, a->a, c(b->v & maskw(aw), aw)), w); }
                // high mask: ~low
                { u128 inv = ~b->v & maskw(w); if ((inv & (inv + 1)) == 0) { unsigned n = 0; while ((inv >> n) & 1) n++; return concat(extract(a, n, w - n), c(0, n)); } }
                if (a->k == K::Concat) { unsigned bw = a->b->w; return concat(bin(K::And, a->a, c(b->v >> bw, w - bw)), bin(K::And, a->b, c(b->v & maskw(bw), bw))); }
            }
            if (a->k == K::ZExt && b->k == K::ZExt) { unsigned m = std::max(a->a->w, b->a->w); return zext(bin(K::And, zext(a->a, m), zext(b->a, m)), w); }
            if (w == 1 && (a == notE1(b) || b == notE1(a))) return c(0, 1);
            break;
        case K::Or:
            if (a == b) return a;
            if (b->isConst()) {
                if (b->v == 0) return a;
                if (b->v == maskw(w)) return b;
                if (a->k == K::Concat) { unsigned bw = a->b->w; return concat(bin(K::Or, a->a, c(b->v >> bw, w - bw)), bin(K::Or, a->b, c(b->v & maskw(bw), bw))); }
                if (a->k == K::ZExt) { unsigned aw = a->a->w; return concat(c(b->v >> aw, w - aw), bin(K::Or, a->a, c(b->v & maskw(aw), aw))); }
            }
            { // disjoint pieces
                unsigned sp = 0;
                if (a->k == K::ZExt) sp = a->a->w; else if (b->k == K::ZExt) sp = b->a->w;
                if (sp && sp < w && (a->k == K::Concat || b->k == K::Concat || (a->k == K::ZExt && b->k == K::ZExt)))
                    if (splittable(a, sp) && splittable(b, sp))
                        return concat(bin(K::Or, extract(a, sp, w - sp), extract(b, sp, w - sp)), bin(K::Or, extract(a, 0, sp), extract(b, 0, sp)));
            }
            if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w)
                return concat(bin(K::Or, a->a, b->a), bin(K::Or, a->b, b->b));
            if (w == 1 && (a == notE1(b) || b == notE1(a))) return c(1, 1);
            break;
        case K::Xor:
            if (a == b) return c(0, w);
            if (b->isConst()) {
                if (b->v == 0) return a;
                if (a->k == K::Xor && a->b->isConst()) return bin(K::Xor, a->a, c(a->b->v ^ b->v, w));
                if (w == 1 && b->v == 1) {
                    // negate comparisons
                    if (a->k == K::Ult) return bin(K::Ule, a->b, a->a);
                    if (a->k == K::Ule) return bin(K::Ult, a->b, a->a);
                    if (a->k == K::Slt) return bin(K::Sle, a->b, a->a);
                    if (a->k == K::Sle) return bin(K::Slt, a->b, a->a);
                }
            }
            break;
        case K::Shl:
            if (b->isConst()) {
                unsigned s = (unsigned)std::min<u128>(b->v, 1000);
                if (s == 0) return a;
                if (s >= w) return c(0, w);
                return concat(extract(a, 0, w - s), c(0, s));
            }
            break;
        case K::LShr:
            if (b->isConst()) {
                unsigned s = (unsigned)std::min<u128>(b->v, 1000);
                if (s == 0) return a;
                if (s >= w) return c(0, w);
                return zext(extract(a, s, w - s), w);
            }
            break;
        case K::AShr:
            if (b->isConst()) {
                unsigned s = (unsigned)std::min<u128>(b->v, 1000);
                if (s == 0) return a;
                if (s >= w) s = w - 1;
                return sext(extract(a, s, w - s), w);
            }
            break;
        case K::Eq:
            if (a == b) return c(1, 1);
            if (w == 1) {
                if (b->isConst()) return b->v ? a : notE(a);
            }
            if (b->isConst()) {
                switch (a->k) {
                case K::ZExt:
                    if (b->v > maskw(a->a->w)) return c(0, 1);
                    return bin(K::Eq, a->a, c(b->v, a->a->w));
                case K::SExt: {
                    Expr* t = c(b->v, a->a->w);
                    if (((u128)sext128(t->v, t->w) & maskw(w)) != b->v) return c(0, 1);
                    return bin(K::Eq, a->a, t);
                }
                case K::Concat: {
                    unsigned bw = a->b->w;
                    Expr* x = bin(K::Eq, a->a, c(b->v >> bw, a->a->w));
                    if (x->isConst() && !x->v) return x;
                    return bin(K::And, x, bin(K::Eq, a->b, c(b->v, bw)));
                }
                case K::Add: if (a->b->isConst()) return bin(K::Eq, a->a, c(b->v - a->b->v, w)); break;
                case K::Xor: if (a->b->isConst()) return bin(K::Eq, a->a, c(b->v ^ a->b->v, w)); break;
                case K::Sub: if (b->v == 0) return bin(K::Eq, a->a, a->b); break;
                case K::Ite:
                    if (a->b->isConst() || a->c->isConst())
                        return ite(a->a, bin(K::Eq, a->b, b), bin(K::Eq, a->c, b));
                    break;
                default: break;
                }
                u128 lo, hi; urange(a, lo, hi);
                if (b->v < lo || b->v > hi) return c(0, 1);
            } else {
                if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return bin(K::Eq, a->a, b->a);
                if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return bin(K::Eq, a->a, b->a);
                if (a->k == K::Add && b->k == K::Add && a->b == b->b) return bin(K::Eq, a->a, b->a);
                if (a->k == K::Add && a->a == b) return bin(K::Eq, a->b, c(0, w));
                if (a->k == K::Add && a->b == b) return bin(K::Eq, a->a, c(0, w));
                if (b->k == K::Add && b->a == a) return bin(K::Eq, b->b, c(0, w));
                if (b->k == K::Add && b->b == a) return bin(K::Eq, b->a, c(0, w));
                if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w)
                    return bin(K::And, bin(K::Eq, a->a, b->a), bin(K::Eq, a->b, b->b));
            }
            break;
        case K::Ult: case K::Ule: {
            if (a == b) return c(k == K::Ule, 1);
            u128 l1, h1, l2, h2;
            urange(a, l1, h1); urange(b, l2, h2);
            if (k == K::Ult) { if (h1 < l2) return c(1, 1); if (l1 >= h2) return c(0, 1); }
            else { if (h1 <= l2) return c(1, 1); if (l1 > h2) return c(0, 1); }
            if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
            if (a->k == K::ZExt && b->isConst()) return bin(k, a->a, c(b->v, a->a->w)); // in range by urange
            if (b->k == K::ZExt && a->isConst()) return bin(k, c(a->v, b->a->w), b->a);
            if (b->isConst() && k == K::Ult && b->v == 1) return bin(K::Eq, a, c(0, w));
            if (a->k == K::Ite && a->b->isConst() && a->c->isConst() && b->isConst()) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
            break;
        }
        case K::Slt: case K::Sle: {
            if (a == b) return c(k == K::Sle, 1);
            // both known non-negative -> unsigned
            u128 l1, h1, l2, h2; urange(a, l1, h1); urange(b, l2, h2);
            u128 sm = maskw(w) >> 1;
            if (h1 <= sm && h2 <= sm) return bin(k == K::Slt ? K::Ult : K::Ule, a, b);
            if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
            if (a->k == K::SExt && b->isConst()) {
                i128 bv = sext128(b->v, w); unsigned aw = a->a->w;
                i128 mn = sext128((u128)1 << (aw - 1), aw), mx = (i128)(maskw(aw) >> 1);
                if (bv > mx) return c(1, 1);
                if (bv < mn) return c(0, 1);
                return bin(k, a->a, c((u128)bv, aw));
            }
            if (b->k == K::SExt && a->isConst()) {
                i128 av = sext128(a->v, w); unsigned bw = b->a->w;
                i128 mn = sext128((u128)1 << (bw - 1), bw), mx = (i128)(maskw(bw) >> 1);
                if (av < mn) return c(1, 1);
                if (av > mx) return c(0, 1);
                return bin(k, c((u128)av, bw), b->a);
            }
            if (a->k == K::Ite && a->b->isConst() && a->c->isConst() && b->isConst()) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
            break;
        }
        default: break;
        }
        if (w >= 16 && w <= 64 && (k == K::Add || k == K::Sub || k == K::Eq || k == K::Ult || k == K::Ule) && (isLin(a) || isLin(b)))
            if (Expr* x = linear(k, a, b, w)) return x;
        return intern(k, cmp ? 1 : w, a, b, nullptr, 0);
    }
    // Sums: cancels terms that occur on both sides.
    static bool isLin(Expr* e) { return e->k == K::Add || e->k == K::Sub; }
    struct Lin { std::map<uint32_t, std::pair<Expr*, uint64_t>> t; uint64_t c = 0; int n = 0; };
    bool gather(Expr* e, uint64_t coef, Lin& l) {
        if (e->isConst()) { l.c += coef * (uint64_t)e->v; return true; }
        if (isLin(e)) return gather(e->a, coef, l) && gather(e->b, e->k == K::Sub ? (uint64_t)0 - coef : coef, l);
        if (++l.n > 24) return false;
        auto& p = l.t[e->id]; p.first = e; p.second += coef; return true;
    }
    Expr* sum(const Lin& l, unsigned w, int sign) {      // terms of that sign, without the constant
        Expr* r = nullptr;
        for (auto& kv : l.t) { int64_t q = (int64_t)(kv.second.second << (64 - w)) >> (64 - w); if (sign < 0) q = -q; if (q <= 0) continue;
            Expr* x = q == 1 ? kv.second.first : bin(K::Mul, kv.second.first, c((u128)q, w)); r = r ? bin(K::Add, r, x) : x; }
        return r;
    }
    void trim(Lin& l, unsigned w) { for (auto it = l.t.begin(); it != l.t.end();) if (!((u128)it->second.second & maskw(w))) it = l.t.erase(it); else ++it; }
    Expr* linear(K k, Expr* a, Expr* b, unsigned w) {
        if (k == K::Add || k == K::Sub || k == K::Eq) {
            Lin l; if (!gather(a, 1, l) || !gather(b, k == K::Add ? 1 : (uint64_t)-1, l)) return nullptr;
            trim(l, w); if ((int)l.t.size() >= l.n) return nullptr;
            Expr* p = sum(l, w, 1); Expr* m = sum(l, w, -1); Expr* kc = c(l.c, w);
            if (k == K::Eq) return bin(K::Eq, p ? (l.c & (uint64_t)maskw(w) ? bin(K::Add, p, kc) : p) : kc, m ? m : c(0, w));
            Expr* r = p ? p : c(0, w); if (m) r = bin(K::Sub, r, m);
            return bin(K::Add, r, kc);
        }
        Lin x, y; if (!gather(a, 1, x) || !gather(b, 1, y)) return nullptr;
        auto fits = [&](Lin& l) { u128 tot = (u128)(l.c & (uint64_t)maskw(w)); for (auto& kv : l.t) { if (kv.second.second > 1024) return false; u128 lo, hi; urange(kv.second.first, lo, hi); tot += hi * kv.second.second; } return tot <= maskw(w); };
        if (!fits(x) || !fits(y)) return nullptr;
        bool ch = false; x.c &= (uint64_t)maskw(w); y.c &= (uint64_t)maskw(w);
        uint64_t mc = std::min(x.c, y.c); if (mc) { x.c -= mc; y.c -= mc; ch = true; }
        for (auto& kv : x.t) { auto it = y.t.find(kv.first); if (it == y.t.end()) continue; uint64_t m = std::min(kv.second.second, it->second.second); if (!m) continue; kv.second.second -= m; it->second.second -= m; ch = true; }
        if (!ch) return nullptr;
        trim(x, w); trim(y, w);
        auto mk = [&](Lin& l) { Expr* p = sum(l, w, 1); return p ? bin(K::Add, p, c(l.c, w)) : c(l.c, w); };
        return bin(k, mk(x), mk(y));
    }
    Expr* notE1(Expr* x) { // does not create comparisons; only for pattern test
        if (x->k == K::Xor && x->b->isConst() && x->b->v == 1) return x->a;
        return nullptr;
    }
    static bool splittable(Expr* e, unsigned at) {
        if (e->isConst()) return true;
        if (e->k == K::ZExt) return e->a->w <= at || splittable(e->a, at);
        if (e->k == K::Concat) { unsigned bw = e->b->w; if (bw == at) return true; return at < bw ? splittable(e->b, at) : splittable(e->a, at - bw); }
        return false;
    }
    Expr* fp(K k, Expr* a, Expr* b, unsigned w, unsigned extra = 0) {
        if (a->isConst() && (!b || b->isConst())) {
            u128 r; if (evalFP(k, a, b, w, extra, r)) return c(r, w);
        }
        return intern(k, w, a, b, nullptr, extra);
    }
    static double tod(u128 v, unsigned w) { if (w == 32) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; } uint64_t u = (uint64_t)v; double d; memcpy(&d, &u, 8); return d; }
    static u128 fromd(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
    static bool evalFP(K k, Expr* a, Expr* b, unsigned w, unsigned extra, u128& r) {
        return evalFPv(k, a->v, a->w, b ? b->v : 0, w, extra, r);
    }
    static bool evalFPv(K k, u128 av, unsigned aw, u128 bv, unsigned w, unsigned extra, u128& r) {
        switch (k) {
        case K::FAdd: if (w == 32) r = fromd((float)tod(av, aw) + (float)tod(bv, aw), w); else r = fromd(tod(av, aw) + tod(bv, aw), w); break;
        case K::FSub: if (w == 32) r = fromd((float)tod(av, aw) - (float)tod(bv, aw), w); else r = fromd(tod(av, aw) - tod(bv, aw), w); break;
        case K::FMul: if (w == 32) r = fromd((float)tod(av, aw) * (float)tod(bv, aw), w); else r = fromd(tod(av, aw) * tod(bv, aw), w); break;
        case K::FDiv: if (w == 32) r = fromd((float)tod(av, aw) / (float)tod(bv, aw), w); else r = fromd(tod(av, aw) / tod(bv, aw), w); break;
        case K::FCmp: {
            double x = tod(av, aw), y = tod(bv, aw); bool un = std::isnan(x) || std::isnan(y);
            bool res = false;
            switch (extra & 7) { case 1: res = x == y; break; case 2: res = x > y; break; case 3: res = x >= y; break;
                case 4: res = x < y; break; case 5: res = x <= y; break; case 6: res = x != y && !un; break; case 7: res = !un; break; case 0: res = false; break; }
            if (extra & 8) res = (extra == 15) ? true : (res || un) ; // unordered variants
            if (extra == 8) res = un;
            r = res; break; }
        case K::SIToFP: if (w == 32) { float f = (float)(int64_t)sext128(av, aw); r = fromd(f, 32); } else r = fromd((double)(int64_t)sext128(av, aw), w); break;
        case K::UIToFP: if (w == 32) { float f = (float)(uint64_t)av; r = fromd(f, 32); } else r = fromd((double)(uint64_t)av, w); break;
        case K::FPToSI: { double x = tod(av, aw); if (!(x > -9.3e18 && x < 9.3e18)) { r = (u128)1 << (w - 1); } else r = (u128)(i128)x & maskw(w); break; }
        case K::FPToUI: { double x = tod(av, aw); if (!(x > -1 && x < 1.9e19)) { r = 0; } else r = (u128)x & maskw(w); break; }
        case K::FPExt: case K::FPTrunc: r = fromd(tod(av, aw), w); break;
        case K::FRound: { double x = tod(av, aw); r = fromd(extra == 0 ? std::floor(x) : extra == 1 ? std::ceil(x) : extra == 3 ? std::nearbyint(x) : extra == 4 ? std::round(x) : std::trunc(x), w); break; }
        default: return false;
        }
        return true;
    }
};
