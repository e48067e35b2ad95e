// Runtime of the symbolic executor: expressions, shadow memory, path exploration, SMT queries.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <csignal>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <z3.h>
#include "ops.h"
#include "sym.h"

typedef int64_t i64; typedef uint64_t u64; typedef uint8_t u8;
typedef __int128 i128;

// The runtime's own allocations must not come from the arena of the program.
template<class T> struct RawAlloc {
    typedef T value_type;
    RawAlloc() {}
    template<class U> RawAlloc(RawAlloc<U> const&) {}
    T* allocate(size_t n) { return static_cast<T*>(::malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { ::free(p); }
    bool operator==(RawAlloc const&) const { return true; }
    bool operator!=(RawAlloc const&) const { return false; }
};
template<class T> using Vec = std::vector<T, RawAlloc<T>>;
typedef std::basic_string<char, std::char_traits<char>, RawAlloc<char>> Str;
template<class K, class V> using Map = std::map<K, V, std::less<K>, RawAlloc<std::pair<K const, V>>>;
template<class K> using USet = std::unordered_set<K, std::hash<K>, std::equal_to<K>, RawAlloc<K>>;

struct Expr {
    u8 op; u8 w; unsigned id;
    Expr* k[3];
    u64 c;          // constant, extract offset, scale, variable index
    u64 val;        // value under the inputs of this path
    i64 lo, hi;     // signed interval (w <= 64, not for fp bits)
    Z3_ast z;
    bool fp;        // contains floating point theory
    u8 fr;          // has bounds as a floating point number which is never NaN: 0 not computed, 1 yes, 2 no
    double flo, fhi;
};

static u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static i64 smin_(unsigned w) { return w >= 64 ? INT64_MIN : -(1ll << (w - 1)); }
static i64 smax_(unsigned w) { return w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; }

static bool g_active = false;     // inside a path
static double bits2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 d2bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float bits2f(u64 b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
static u64 f2bits(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static double getfp(u64 b, unsigned w) { return w == 32 ? (double)bits2f(b) : bits2d(b); }

// ---------------------------------------------------------------- statistics
struct Stats { u64 exprs, engineMismatch, staleDropped, concretised, fpQueries; } st;
static Map<Str, u64>* extUsed;      // externals which made us concretise
static bool debugOn = false;

// ---------------------------------------------------------------- expressions
struct Key { u8 op, w; Expr* a; Expr* b; Expr* c; u64 k;
    bool operator==(Key const& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && k == o.k; } };
struct KeyHash { size_t operator()(Key const& k) const {
    u64 h = k.op * 1315423911u + k.w; auto mix = [&](u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
    mix((u64)k.a); mix((u64)k.b); mix((u64)k.c); mix(k.k); return h; } };
static std::unordered_map<Key, Expr*, KeyHash, std::equal_to<Key>, RawAlloc<std::pair<Key const, Expr*>>>* table;
static Vec<Expr*>* allExprs;

static u64 foldOp(int op, unsigned w, u64 a, u64 b, u64 c, unsigned aw, u64 k);
static void interval(Expr* e);

static Expr* mkRaw(int op, unsigned w, Expr* a, Expr* b, Expr* c, u64 k) {
    Key key{(u8)op, (u8)w, a, b, c, k};
    auto it = table->find(key);
    if (it != table->end()) return it->second;
    Expr* e = (Expr*)::malloc(sizeof(Expr));
    e->op = op; e->w = w; e->id = (unsigned)allExprs->size(); e->k[0] = a; e->k[1] = b; e->k[2] = c; e->c = k; e->z = nullptr; e->fr = 0;
    e->fp = (op >= O_DY && op <= O_FTRUNC);
    for (auto* x : e->k) if (x && x->fp && op != O_DY) e->fp = true;
    e->val = (op == O_CONST) ? (k & mask(w)) : (op == O_VAR) ? 0 :
        foldOp(op, w, a ? a->val : 0, b ? b->val : 0, c ? c->val : 0, a ? a->w : 0, k);
    interval(e);
    allExprs->push_back(e);
    (*table)[key] = e;
    ++st.exprs;
    return e;
}
static Expr* K(u64 v, unsigned w) { return mkRaw(O_CONST, w, 0, 0, 0, v & mask(w)); }
static bool isK(Expr* e) { return e->op == O_CONST; }

// exact value k * 2^-s of a floating point number, when it has one of moderate size
static bool dyadic(u64 bits, unsigned w, i64& k, unsigned& s) {
    double d = getfp(bits, w);
    if (!std::isfinite(d)) return false;
    if (d == 0) { k = 0; s = 0; return true; }
    int e; double m = frexp(d, &e);             // d = m * 2^e
    i64 mi = (i64)ldexp(m, 53); int ex = e - 53;
    while ((mi & 1) == 0) { mi >>= 1; ++ex; }
    if (ex > 0) { if (ex > 40 || std::llabs(mi) > (1ll << (52 - ex > 0 ? 52 - ex : 0))) return false; mi *= (1ll << ex); ex = 0; }
    if (ex < -40) return false;
    k = mi; s = -ex; return true;
}
static u64 fpbits(double d, unsigned w) { return w == 32 ? f2bits((float)d) : d2bits(d); }

static u64 foldOp(int op, unsigned w, u64 a, u64 b, u64 c, unsigned aw, u64 k) {
    u64 m = mask(w);
    switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m; case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return (x >= 0 ? m : 1); if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
    case O_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : (a >> b) & m;
    case O_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sx(a, aw) < sx(b, aw); case O_SLE: return sx(a, aw) <= sx(b, aw);
    case O_ITE: return a ? b : c;
    case O_CONCAT: return ((a << (w - aw)) | b) & m;       // a high
    case O_EXTRACT: return (a >> k) & m;
    case O_ZEXT: return a; case O_SEXT: return (u64)sx(a, aw) & m;
    case O_DY: return fpbits(ldexp((double)sx(a, aw), -(int)k), w);
    case O_FADD: return w == 32 ? f2bits(bits2f(a) + bits2f(b)) : d2bits(bits2d(a) + bits2d(b));
    case O_FSUB: return w == 32 ? f2bits(bits2f(a) - bits2f(b)) : d2bits(bits2d(a) - bits2d(b));
    case O_FMUL: return w == 32 ? f2bits(bits2f(a) * bits2f(b)) : d2bits(bits2d(a) * bits2d(b));
    case O_FDIV: return w == 32 ? f2bits(bits2f(a) / bits2f(b)) : d2bits(bits2d(a) / bits2d(b));
    case O_FNEG: return a ^ (1ull << (w - 1)); case O_FABS: return a & (mask(w) >> 1);
    case O_FSQRT: return w == 32 ? f2bits(sqrtf(bits2f(a))) : d2bits(sqrt(bits2d(a)));
    case O_FFLOOR: return fpbits(floor(getfp(a, w)), w); case O_FCEIL: return fpbits(ceil(getfp(a, w)), w);
    case O_FRTZ: return fpbits(trunc(getfp(a, w)), w); case O_FROUND: return fpbits(round(getfp(a, w)), w);
    case O_FRNE: return fpbits(nearbyint(getfp(a, w)), w);
    case O_FEQ: return getfp(a, aw) == getfp(b, aw); case O_FLT: return getfp(a, aw) < getfp(b, aw);
    case O_FLE: return getfp(a, aw) <= getfp(b, aw); case O_FUNO: return std::isnan(getfp(a, aw)) || std::isnan(getfp(b, aw));
    case O_F2SI: return (u64)(i64)getfp(a, aw) & m; case O_F2UI: return (u64)getfp(a, aw) & m;
    case O_SI2F: return w == 32 ? f2bits((float)sx(a, aw)) : d2bits((double)sx(a, aw));
    case O_UI2F: return w == 32 ? f2bits((float)a) : d2bits((double)a);
    case O_FEXT: return d2bits((double)bits2f(a)); case O_FTRUNC: return f2bits((float)bits2d(a));
    }
    return 0;
}

static void clampI(Expr* e, i128 lo, i128 hi) {
    if (lo < smin_(e->w) || hi > smax_(e->w)) { e->lo = smin_(e->w); e->hi = smax_(e->w); }
    else { e->lo = (i64)lo; e->hi = (i64)hi; }
}
static void interval(Expr* e) {
    e->lo = smin_(e->w); e->hi = smax_(e->w);
    Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
    case O_CONST: e->lo = e->hi = sx(e->c, e->w); break;
    case O_ADD: clampI(e, (i128)a->lo + b->lo, (i128)a->hi + b->hi); break;
    case O_SUB: clampI(e, (i128)a->lo - b->hi, (i128)a->hi - b->lo); break;
    case O_MUL: {
        if (a == b) { i128 l = (i128)a->lo * a->lo, h = (i128)a->hi * a->hi; clampI(e, a->lo <= 0 && a->hi >= 0 ? 0 : std::min(l, h), std::max(l, h)); break; }
        i128 p[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi};
        clampI(e, *std::min_element(p, p + 4), *std::max_element(p, p + 4)); break; }
    case O_SEXT: e->lo = a->lo; e->hi = a->hi; break;
    case O_ZEXT: if (a->lo >= 0) { e->lo = a->lo; e->hi = a->hi; } else { e->lo = 0; e->hi = (i64)mask(a->w); } break;
    case O_EXTRACT: if (e->c == 0 && a->lo >= smin_(e->w) && a->hi <= smax_(e->w)) { e->lo = a->lo; e->hi = a->hi; }
        else if (e->c == 0 && a->op == O_ZEXT && a->k[0]->w <= e->w) { e->lo = smin_(e->w); e->hi = smax_(e->w); } break;
    case O_ITE: e->lo = std::min(b->lo, e->k[2]->lo); e->hi = std::max(b->hi, e->k[2]->hi); break;
    case O_AND: if (b->op == O_CONST && b->lo >= 0) { e->lo = 0; e->hi = b->hi; } else if (a->lo >= 0 && b->lo >= 0) { e->lo = 0; e->hi = std::min(a->hi, b->hi); } break;
    case O_UDIV: case O_SDIV: if (b->op == O_CONST && b->lo > 0 && a->lo >= 0) { e->lo = a->lo / b->lo; e->hi = a->hi / b->lo; }
        else if (e->op == O_SDIV && b->op == O_CONST && b->lo > 0) { e->lo = a->lo / b->lo; e->hi = a->hi / b->lo; } break;
    case O_UREM: if (b->op == O_CONST && b->lo > 0) { e->lo = 0; e->hi = b->lo - 1; } break;
    case O_SREM: if (b->op == O_CONST && b->lo > 0) { e->lo = a->lo >= 0 ? 0 : -(b->lo - 1); e->hi = b->lo - 1; } break;
    case O_LSHR: if (b->op == O_CONST && a->lo >= 0 && b->c < e->w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } break;
    case O_ASHR: if (b->op == O_CONST && b->c < e->w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } break;
    case O_SHL: if (b->op == O_CONST && b->c < 62) clampI(e, (i128)a->lo << b->c, (i128)a->hi << b->c); break;
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: break;
    default: break;
    }
}

static Expr* mk(int op, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u64 k = 0);
static Expr* extract(Expr* a, unsigned lo, unsigned w) { return mk(O_EXTRACT, w, a, nullptr, nullptr, lo); }
static Expr* resizeS(Expr* e, unsigned w) {         // the interval of e fits both widths
    if (w == e->w) return e;
    if (w > e->w) return mk(O_SEXT, w, e);
    return extract(e, 0, w);
}
static Expr* notb(Expr* e) { return mk(O_XOR, 1, e, K(1, 1)); }
static unsigned bitsFor(i64 lo, i64 hi) { unsigned w = 1; while (w < 64 && (lo < smin_(w) || hi > smax_(w))) ++w; return w; }

static Expr* mk(int op, unsigned w, Expr* a, Expr* b, Expr* c, u64 k) {
    bool allK = a && isK(a) && (!b || isK(b)) && (!c || isK(c));
    if (allK) return K(foldOp(op, w, a->c, b ? b->c : 0, c ? c->c : 0, a->w, k), w);
    switch (op) {
    case O_ADD: if (isK(a)) std::swap(a, b);
        if (isK(b)) { if (!b->c) return a; if (a->op == O_ADD && isK(a->k[1])) return mk(O_ADD, w, a->k[0], K(a->k[1]->c + b->c, w)); } break;
    case O_SUB: if (isK(b)) return mk(O_ADD, w, a, K(0 - b->c, w)); if (a == b) return K(0, w); break;
    case O_MUL: if (isK(a)) std::swap(a, b); if (isK(b)) { if (b->c == 0) return b; if (b->c == 1) return a; } break;
    case O_AND: if (isK(a)) std::swap(a, b); if (isK(b)) { if (!b->c) return b; if (b->c == mask(w)) return a;
            if ((b->c & (b->c + 1)) == 0) { unsigned n = 0; while ((b->c >> n) & 1) ++n; return mk(O_ZEXT, w, extract(a, 0, n)); } }
        if (a == b) return a; break;
    case O_OR: if (isK(a)) std::swap(a, b); if (isK(b)) { if (!b->c) return a; if (b->c == mask(w)) return b; } if (a == b) return a;
        break;
    case O_XOR: if (isK(a)) std::swap(a, b); if (isK(b) && !b->c) return a; if (a == b) return K(0, w);
        if (isK(b) && a->op == O_XOR && isK(a->k[1])) return mk(O_XOR, w, a->k[0], K(a->k[1]->c ^ b->c, w)); break;
    case O_SHL: if (isK(b)) { if (!b->c) return a; if (b->c >= w) return K(0, w);
            if (b->c < 62 && a->lo >= smin_(w) / (1ll << b->c) && a->hi <= smax_(w) / (1ll << b->c)) return mk(O_MUL, w, a, K(1ull << b->c, w));
            return mk(O_CONCAT, w, extract(a, 0, w - b->c), K(0, b->c)); } break;
    case O_LSHR: if (isK(b)) { if (!b->c) return a; if (b->c >= w) return K(0, w); return mk(O_ZEXT, w, extract(a, b->c, w - b->c)); } break;
    case O_ASHR: if (isK(b) && !b->c) return a; break;
    case O_UDIV: if (isK(b) && b->c == 1) return a;
        if (isK(b) && b->c && !(b->c & (b->c - 1))) return mk(O_LSHR, w, a, K(__builtin_ctzll(b->c), w)); break;
    case O_UREM: if (isK(b) && b->c && !(b->c & (b->c - 1))) return mk(O_AND, w, a, K(b->c - 1, w)); break;
    case O_SDIV: if (isK(b) && b->c == 1) return a;
        if (isK(b) && sx(b->c, w) > 0 && a->op == O_MUL && isK(a->k[1]) && a->k[1]->c == b->c && a->lo > smin_(w) + 1 &&
            (i128)a->k[0]->lo * sx(b->c, w) >= smin_(w) && (i128)a->k[0]->hi * sx(b->c, w) <= smax_(w)) return a->k[0];
        break;
    case O_EQ:
        if (a == b) return K(1, 1);
        if (isK(a)) std::swap(a, b);
        if (a->hi < b->lo || b->hi < a->lo) return K(0, 1);
        if (isK(b)) {
            if (a->w == 1) return b->c ? a : notb(a);
            if (a->op == O_ZEXT) { if (b->c > mask(a->k[0]->w)) return K(0, 1); return mk(O_EQ, 1, a->k[0], K(b->c, a->k[0]->w)); }
            if (a->op == O_SEXT) return mk(O_EQ, 1, a->k[0], K(b->c, a->k[0]->w)); // interval test above excludes the rest
            if (a->op == O_ADD && isK(a->k[1])) return mk(O_EQ, 1, a->k[0], K(b->c - a->k[1]->c, a->w));
            if (a->op == O_MUL && isK(a->k[1])) {
                Expr* x = a->k[0]; i64 m = sx(a->k[1]->c, a->w), v = sx(b->c, a->w);
                if (m && (i128)x->lo * m >= smin_(a->w) && (i128)x->lo * m <= smax_(a->w) && (i128)x->hi * m >= smin_(a->w) && (i128)x->hi * m <= smax_(a->w)) {
                    if (v % m) return K(0, 1);
                    return mk(O_EQ, 1, x, K((u64)(v / m), a->w));
                }
            }
            if (a->op == O_ITE && isK(a->k[1]) && isK(a->k[2])) {
                bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
                if (t && f) return K(1, 1); if (t) return a->k[0]; if (f) return notb(a->k[0]); return K(0, 1);
            }
            if (a->op == O_DY) {
                i64 kk; unsigned s; double d = getfp(b->c, b->w);
                if (d == 0 && std::signbit(d)) break;
                if (!dyadic(b->c, b->w, kk, s)) return K(0, 1);
                if (s > a->c) return K(0, 1);
                i128 t = (i128)kk << (a->c - s);
                if (t < a->k[0]->lo || t > a->k[0]->hi) return K(0, 1);
                return mk(O_EQ, 1, a->k[0], K((u64)(i64)t, a->k[0]->w));
            }
        }
        if (a->op == O_ADD && b->op == O_ADD && isK(a->k[1]) && isK(b->k[1]) && a->k[1] == b->k[1]) return mk(O_EQ, 1, a->k[0], b->k[0]);
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mk(O_EQ, 1, a->k[0], b->k[0]);
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mk(O_EQ, 1, a->k[0], b->k[0]);
        if (a->op == O_DY && b->op == O_DY && a->w == b->w) {
            unsigned s = std::max(a->c, b->c);
            i128 l1 = (i128)a->k[0]->lo << (s - a->c), h1 = (i128)a->k[0]->hi << (s - a->c);
            i128 l2 = (i128)b->k[0]->lo << (s - b->c), h2 = (i128)b->k[0]->hi << (s - b->c);
            if (std::min(l1, l2) > INT64_MIN / 4 && std::max(h1, h2) < INT64_MAX / 4) {
                unsigned ww = bitsFor((i64)std::min(l1, l2), (i64)std::max(h1, h2));
                ww = std::max(ww, std::max((unsigned)a->k[0]->w, (unsigned)b->k[0]->w)); if (ww > 64) ww = 64;
                Expr* x = mk(O_MUL, ww, resizeS(a->k[0], ww), K(1ull << (s - a->c), ww));
                Expr* y = mk(O_MUL, ww, resizeS(b->k[0], ww), K(1ull << (s - b->c), ww));
                return mk(O_EQ, 1, x, y);
            }
        }
        if (a->id > b->id && !isK(b)) std::swap(a, b);
        break;
    case O_SLT:
        if (a == b) return K(0, 1);
        if (a->hi < b->lo) return K(1, 1); if (a->lo >= b->hi) return K(0, 1);
        break;
    case O_SLE:
        if (a == b) return K(1, 1);
        if (a->hi <= b->lo) return K(1, 1); if (a->lo > b->hi) return K(0, 1);
        break;
    case O_ULT: case O_ULE:
        if (a == b) return K(op == O_ULE, 1);
        if (a->lo >= 0 && b->lo >= 0) return mk(op == O_ULT ? O_SLT : O_SLE, 1, a, b);
        break;
    case O_ITE:
        if (isK(a)) return a->c ? b : c;
        if (b == c) return b;
        if (w == 1 && isK(b) && isK(c)) return b->c ? a : notb(a);
        break;
    case O_CONCAT:
        if (isK(a) && a->c == 0) return mk(O_ZEXT, w, b);
        if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->k[0] == b->k[0] && a->c == b->c + b->w) return extract(a->k[0], b->c, w);
        if (a->op == O_EXTRACT && b->op == O_CONCAT && b->k[0]->op == O_EXTRACT && a->k[0] == b->k[0]->k[0] && a->c == b->k[0]->c + b->k[0]->w)
            return mk(O_CONCAT, w, extract(a->k[0], b->k[0]->c, a->w + b->k[0]->w), b->k[1]);
        break;
    case O_EXTRACT:
        if (k == 0 && w == a->w) return a;
        if (a->op == O_EXTRACT) return extract(a->k[0], a->c + k, w);
        if (a->op == O_CONCAT) { unsigned bw = a->k[1]->w;
            if (k + w <= bw) return extract(a->k[1], k, w);
            if (k >= bw) return extract(a->k[0], k - bw, w); }
        if (a->op == O_ZEXT || a->op == O_SEXT) {
            unsigned iw = a->k[0]->w;
            if (k + w <= iw) return extract(a->k[0], k, w);
            if (k >= iw && a->op == O_ZEXT) return K(0, w);
            if (k == 0) return mk(a->op, w, a->k[0]);
        }
        if (a->op == O_ITE && (isK(a->k[1]) || isK(a->k[2]))) return mk(O_ITE, w, a->k[0], extract(a->k[1], k, w), extract(a->k[2], k, w));
        if (k == 0 && (a->op == O_AND || a->op == O_OR || a->op == O_XOR)) return mk(a->op, w, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
        if (k == 0 && (a->op == O_ADD || a->op == O_MUL)) return mk(a->op, w, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
        break;
    case O_ZEXT: case O_SEXT:
        if (w == a->w) return a;
        if (a->op == O_ZEXT) return mk(O_ZEXT, w, a->k[0]);
        if (a->op == O_SEXT && op == O_SEXT) return mk(O_SEXT, w, a->k[0]);
        if (op == O_SEXT && a->op == O_EXTRACT && a->c == 0 && a->k[0]->w == w &&
            a->k[0]->lo >= smin_(a->w) && a->k[0]->hi <= smax_(a->w)) return a->k[0];
        if (op == O_ZEXT && a->op == O_EXTRACT && a->c == 0 && a->k[0]->w == w && a->k[0]->lo >= 0 && (u64)a->k[0]->hi <= mask(a->w)) return a->k[0];
        if (op == O_ZEXT && a->lo >= 0 && a->op != O_EXTRACT) return mk(O_SEXT, w, a);
        break;
    case O_DY: {
        break; }
    default: break;
    }
    return mkRaw(op, w, a, b, c, k);
}
static bool isDy(Expr* e) {
    if (e->op == O_DY) return true;
    if (isK(e)) { i64 k; unsigned s; double d = getfp(e->c, e->w); (void)d; return dyadic(e->c, e->w, k, s); }
    return false;
}
static void dyParts(Expr* e, Expr*& k, unsigned& s) {
    if (e->op == O_DY) { k = e->k[0]; s = e->c; return; }
    i64 v; dyadic(e->c, e->w, v, s); k = K((u64)v, 64);
}
static Expr* mkDy(Expr* k, unsigned s, unsigned w) {      // nullptr: not exact
    while (s > 0 && k->op == O_MUL && isK(k->k[1]) && !(k->k[1]->c & 1) && sx(k->k[1]->c, k->w) > 0 &&
           (i128)k->k[0]->lo * sx(k->k[1]->c, k->w) == k->lo && (i128)k->k[0]->hi * sx(k->k[1]->c, k->w) == k->hi) {
        k = mk(O_MUL, k->w, k->k[0], K(k->k[1]->c >> 1, k->w)); --s;
    }
    i64 lim = w == 32 ? (1ll << 24) : (1ll << 53);
    if (k->lo < -lim || k->hi > lim || s > 60) return nullptr;
    if (isK(k)) return K(fpbits(ldexp((double)sx(k->c, k->w), -(int)s), w), w);
    unsigned nw = bitsFor(k->lo, k->hi); nw = nw <= 8 ? 8 : nw <= 16 ? 16 : nw <= 32 ? 32 : 64;
    if (nw < k->w) k = resizeS(k, nw);
    return mk(O_DY, w, k, nullptr, nullptr, s);
}
static bool align(Expr* a, Expr* b, Expr*& x, Expr*& y, unsigned& s, int extra = 1) {
    unsigned sa, sb; dyParts(a, x, sa); dyParts(b, y, sb);
    s = std::max(sa, sb);
    if (s - sa > 50 || s - sb > 50) return false;
    i128 l1 = (i128)x->lo << (s - sa), h1 = (i128)x->hi << (s - sa), l2 = (i128)y->lo << (s - sb), h2 = (i128)y->hi << (s - sb);
    i128 lo = std::min(l1, l2) * 2, hi = std::max(h1, h2) * 2; (void)extra;
    if (lo < -(1ll << 58) || hi > (1ll << 58)) return false;
    unsigned w = bitsFor((i64)lo, (i64)hi); w = w <= 8 ? 8 : w <= 16 ? 16 : w <= 32 ? 32 : 64;
    if (s != sa) { x = resizeS(x, w); x = mk(O_MUL, w, x, K(1ull << (s - sa), w)); } else x = resizeS(x, w);
    if (s != sb) { y = resizeS(y, w); y = mk(O_MUL, w, y, K(1ull << (s - sb), w)); } else y = resizeS(y, w);
    return true;
}
static Expr* fpArith(int op, unsigned w, Expr* a, Expr* b) {
    if (isK(a) && isK(b)) return K(foldOp(op, w, a->c, b->c, 0, w, 0), w);
    if (isDy(a) && isDy(b)) {
        Expr *x, *y; unsigned s;
        if (op == O_FADD || op == O_FSUB) {
            if (align(a, b, x, y, s)) {
                Expr* r = mkDy(mk(op == O_FADD ? O_ADD : O_SUB, x->w, x, y), s, w);
                if (r) return r;
            }
        } else if (op == O_FMUL) {
            unsigned sa, sb; dyParts(a, x, sa); dyParts(b, y, sb);
            i128 p[4] = {(i128)x->lo * y->lo, (i128)x->lo * y->hi, (i128)x->hi * y->lo, (i128)x->hi * y->hi};
            i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
            i64 lim = w == 32 ? (1ll << 24) : (1ll << 53);
            if (lo >= -lim && hi <= lim) {
                unsigned ww = bitsFor((i64)lo, (i64)hi);
                ww = std::max(ww, std::max(bitsFor(x->lo, x->hi), bitsFor(y->lo, y->hi)));
                ww = ww <= 8 ? 8 : ww <= 16 ? 16 : ww <= 32 ? 32 : 64;
                Expr* r = mkDy(mk(O_MUL, ww, resizeS(x, ww), resizeS(y, ww)), sa + sb, w);
                if (r) return r;
            }
        } else if (op == O_FDIV && isK(b)) {
            double d = getfp(b->c, w); int e; double m = std::frexp(d, &e);
            if (std::fabs(m) == 0.5) {          // +-2^(e-1)
                Expr* inv = K(fpbits(1.0 / d, w), w);
                return fpArith(O_FMUL, w, a, inv);
            }
        }
    }
    return mk(op, w, a, b);
}
static bool w32(Expr* e) { return e->w == 32; }
// bounds of a floating point expression which cannot be NaN; false: unknown
static bool fpRange1(Expr* e, double& lo, double& hi, int depth);
static bool fpRange(Expr* e, double& lo, double& hi, int depth = 2000) {
    if (!depth) return false;
    if (!e->fr) e->fr = fpRange1(e, e->flo, e->fhi, depth) ? 1 : 2;
    lo = e->flo; hi = e->fhi;
    return e->fr == 1;
}
static bool fpRange1(Expr* e, double& lo, double& hi, int depth) {
    if (isK(e)) { lo = hi = getfp(e->c, e->w); return std::isfinite(lo); }
    auto out = [&] { lo = std::nextafter(w32(e) ? (double)std::nextafterf((float)lo, -INFINITY) : lo, -INFINITY);
                     hi = std::nextafter(w32(e) ? (double)std::nextafterf((float)hi, INFINITY) : hi, INFINITY);
                     return std::isfinite(lo) && std::isfinite(hi) && (!w32(e) || (std::fabs(lo) < 1e38 && std::fabs(hi) < 1e38)); };
    double a, b, c, d;
    switch (e->op) {
    case O_DY: lo = ldexp((double)e->k[0]->lo, -(int)e->c); hi = ldexp((double)e->k[0]->hi, -(int)e->c); return std::fabs(lo) < 1e30 && std::fabs(hi) < 1e30;
    case O_FSQRT: if (!fpRange(e->k[0], a, b, depth - 1) || a < 0) return false; lo = sqrt(a); hi = sqrt(b); if (lo > 0 || hi > 0) { bool z = lo == 0; bool r = out(); if (z) lo = 0; return r; } return true;
    case O_FEXT: return fpRange(e->k[0], lo, hi, depth - 1);
    case O_FTRUNC: if (!fpRange(e->k[0], lo, hi, depth - 1)) return false; return out();
    case O_FNEG: if (!fpRange(e->k[0], a, b, depth - 1)) return false; lo = -b; hi = -a; return true;
    case O_FABS: if (!fpRange(e->k[0], a, b, depth - 1)) return false; lo = a <= 0 && b >= 0 ? 0 : std::min(std::fabs(a), std::fabs(b)); hi = std::max(std::fabs(a), std::fabs(b)); return true;
    case O_ITE: if (!fpRange(e->k[1], a, b, depth - 1) || !fpRange(e->k[2], c, d, depth - 1)) return false; lo = std::min(a, c); hi = std::max(b, d); return true;
    case O_FDIV:
        if (!fpRange(e->k[0], a, b, depth - 1) || !fpRange(e->k[1], c, d, depth - 1) || (c <= 0 && d >= 0)) return false;
        lo = std::min(std::min(a / c, a / d), std::min(b / c, b / d)); hi = std::max(std::max(a / c, a / d), std::max(b / c, b / d));
        return out();
    case O_SI2F: lo = (double)e->k[0]->lo; hi = (double)e->k[0]->hi; return out();
    case O_FADD: case O_FSUB: case O_FMUL:
        if (!fpRange(e->k[0], a, b, depth - 1) || !fpRange(e->k[1], c, d, depth - 1)) return false;
        if (e->op == O_FADD) { lo = a + c; hi = b + d; return out(); }
        if (e->op == O_FSUB) { lo = a - d; hi = b - c; return out(); }
        lo = std::min(std::min(a * c, a * d), std::min(b * c, b * d)); hi = std::max(std::max(a * c, a * d), std::max(b * c, b * d));
        { bool nn = lo >= 0; bool r = out(); if (nn && lo < 0) lo = 0; return r; }
    }
    return false;
}
static Expr* fpCmp(int op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isK(a) && isK(b)) return K(foldOp(op, 1, a->c, b->c, 0, w, 0), 1);
    auto isNan = [&](Expr* e) { return isK(e) && std::isnan(getfp(e->c, w)); };
    if (op == O_FUNO) { if (isNan(a) || isNan(b)) return K(1, 1); auto num = [](Expr* e) { return isDy(e) || isK(e) || (e->op == O_FSQRT && e->k[0]->op == O_DY && e->k[0]->k[0]->lo >= 0); };
        bool da = num(a), db = num(b); if (da && db) return K(0, 1);
        double l, h; if ((da || fpRange(a, l, h)) && (db || fpRange(b, l, h))) return K(0, 1); return mk(op, 1, a, b); }
    if (isNan(a) || isNan(b)) return K(0, 1);
    if (a->op == O_DY && isK(b) && std::isinf(getfp(b->c, w))) { bool pos = getfp(b->c, w) > 0; return K(op == O_FEQ ? 0 : pos, 1); }
    if (b->op == O_DY && isK(a) && std::isinf(getfp(a->c, w))) { bool pos = getfp(a->c, w) > 0; return K(op == O_FEQ ? 0 : !pos, 1); }
    if (isDy(a) && isDy(b)) {
        Expr *x, *y; unsigned s;
        if (align(a, b, x, y, s)) return mk(op == O_FEQ ? O_EQ : op == O_FLT ? O_SLT : O_SLE, 1, x, y);
    }
    // a dyadic against any constant: compare exactly through the nearest grid points
    auto cmpConst = [&](Expr* d, double c, bool dLeft) -> Expr* {
        double t = ldexp(c, (int)d->c);                             // exact
        if (std::fabs(t) > 1e17) { bool dl = t > 0; return K(op == O_FEQ ? 0 : (dLeft ? dl : !dl), 1); }
        double f = std::floor(t); bool integer = f == t; Expr* k = d->k[0];
        i64 fi = (i64)f;
        if (fi < k->lo - 1) fi = k->lo - 2; if (fi > k->hi + 1) fi = k->hi + 1;
        unsigned ww = k->w < 64 ? k->w + 1 > 32 ? 64 : 32 : 64;
        Expr* kk = resizeS(k, ww);
        if (op == O_FEQ) return integer ? mk(O_EQ, 1, kk, K((u64)fi, ww)) : K(0, 1);
        if (dLeft) {    // k < t  /  k <= t
            if (op == O_FLT && integer) return mk(O_SLT, 1, kk, K((u64)fi, ww));
            return mk(O_SLE, 1, kk, K((u64)fi, ww));
        }
        // t < k / t <= k
        if (op == O_FLE && integer) return mk(O_SLE, 1, K((u64)fi, ww), kk);
        return mk(O_SLT, 1, K((u64)fi, ww), kk);
    };
    // square roots of exact non-negative values: monotone, so the comparison is one on the radicand
    auto root = [&](Expr* e) { return e->op == O_FSQRT && e->k[0]->op == O_DY && e->k[0]->k[0]->lo >= 0; };
    auto rootAt = [&](Expr* e, i64 k) { double d = ldexp((double)k, -(int)e->k[0]->c); return w == 32 ? (double)sqrtf((float)d) : sqrt(d); };
    auto rootConst = [&](Expr* e, double c, bool strict) -> Expr* {     // root(k) < c, or <= c
        Expr* k = e->k[0]->k[0]; i64 lo = k->lo - 1, hi = k->hi;        // largest k for which it holds; lo: none
        while (lo < hi) { i64 m = lo + (hi - lo + 1) / 2; double r = rootAt(e, m); if (strict ? r < c : r <= c) lo = m; else hi = m - 1; }
        if (lo < k->lo) return K(0, 1); if (lo >= k->hi) return K(1, 1);
        unsigned ww = 64; return mk(O_SLE, 1, resizeS(k, ww), K((u64)lo, ww));
    };
    auto conj = [&](Expr* x, Expr* y) { return mk(O_AND, 1, x, y); };
    if (root(a) && isK(b)) { double c = getfp(b->c, w);
        if (op == O_FLT) return rootConst(a, c, true); if (op == O_FLE) return rootConst(a, c, false);
        return conj(rootConst(a, c, false), notb(rootConst(a, c, true))); }
    if (root(b) && isK(a)) { double c = getfp(a->c, w);
        if (op == O_FLT) return notb(rootConst(b, c, false)); if (op == O_FLE) return notb(rootConst(b, c, true));
        return conj(rootConst(b, c, false), notb(rootConst(b, c, true))); }
    if (root(a) && root(b)) {
        i64 lim = w == 32 ? (1ll << 21) : (1ll << 50);                  // distinct radicands have distinct roots
        Expr *x, *y; unsigned s;
        if (align(a->k[0], b->k[0], x, y, s) && x->hi < lim && y->hi < lim) return mk(op == O_FEQ ? O_EQ : op == O_FLT ? O_SLT : O_SLE, 1, x, y);
    }
    if (a->op == O_DY && isK(b)) return cmpConst(a, getfp(b->c, w), true);
    if (b->op == O_DY && isK(a)) return cmpConst(b, getfp(a->c, w), false);
    double al, ah, bl, bh;
    if (fpRange(a, al, ah) && fpRange(b, bl, bh)) {
        if (op == O_FUNO) return K(0, 1);
        if (op == O_FLT) { if (ah < bl) return K(1, 1); if (al >= bh) return K(0, 1); }
        if (op == O_FLE) { if (ah <= bl) return K(1, 1); if (al > bh) return K(0, 1); }
        if (op == O_FEQ && (ah < bl || bh < al)) return K(0, 1);
    }
    return mk(op, 1, a, b);
}

// ---------------------------------------------------------------- path state
struct Input { Str name; i64 lo, hi; unsigned w; Expr* var; bool raw; };
struct Con { Expr* c; bool taken; bool flip; u8 kind; unsigned site; Str* msg; };   // kind 0 branch, 1 conc, 2 assume, 3 assert
static Vec<u64>* inVals;            // values chosen for this path
static Vec<Input>* inputs;
static Vec<Con>* cons;
static std::unordered_map<Expr*, bool, std::hash<Expr*>, std::equal_to<Expr*>, RawAlloc<std::pair<Expr* const, bool>>>* known;
static Map<Str, double>* notes;
static Vec<Str>* reached;
static Map<Str, int>* fnsEntered;
static u64 maxCons = 200000;

// shared by all the processes of a run
struct Shared {
    u64 paths, flipsSat, flipsUnsat, flipsUnknown, assertQueries, assertDischarged, assertConcrete, assertUnknown, mismatches,
        divergences, stale, concretised, branches, infeasibleAssume, fpQueries, solverMicros, exprs, maxCons, uniqueVars;
    char const* fns[1 << 14];
};
static Shared* S;
#define SADD(f, n) __atomic_fetch_add(&S->f, (u64)(n), __ATOMIC_RELAXED)

struct Work { Vec<u64> vals; unsigned bound; u64 hash; Vec<std::pair<unsigned, u64>> excl; };
static Work* cur;
static unsigned bound0; static u64 hash0, runHash; static bool diverged;
static int outFd = -1;
static bool finishing = false;
static int tier = 0;
static unsigned queryMs = 5000;
static char const* violMsg = nullptr;
static Str* violText;

static void outStr(char const* p, size_t n) { while (n) { ssize_t r = ::write(outFd, p, n); if (r <= 0) { if (errno == EINTR) continue; return; } p += r; n -= r; } }
static void finishPath(char const* why);

static bool sameVal(Expr* e, u64 v) {
    if (e->val == v) return true;
    if (e->op == O_CONCAT) { unsigned bw = e->k[1]->w; return sameVal(e->k[0], v >> bw) && sameVal(e->k[1], v & mask(bw)); }
    // the exact domain does not distinguish the zeros: a zero may carry a sign at run time
    if (e->op == O_ZEXT && e->w == 64 && e->k[0]->w == 32) return ((v >> 32) == 0x80000000u || (v >> 32) == 0) && sameVal(e->k[0], v & mask(32));
    if ((e->w == 32 || e->w == 64) && (e->val << (65 - e->w)) == 0 && (v << (65 - e->w)) == 0) return true;
    if (e->op == O_DY || (e->op >= O_FADD && e->op <= O_FRNE) || (e->op >= O_F2SI) || e->op == O_ITE || e->op == O_EXTRACT) {
        if (e->w == 32 || e->w == 64) {
            double a = getfp(e->val, e->w), b = getfp(v, e->w);
            if (a == 0 && b == 0) return true;
            if (std::isnan(a) && std::isnan(b)) return true;
        }
    }
    return false;
}
static void dumpExpr(Expr* e, int depth) {
    if (isK(e)) { fprintf(stderr, "%llx:%d", (unsigned long long)e->c, e->w); return; }
    fprintf(stderr, "(%d:%d/%llx=%llx", e->op, e->w, (unsigned long long)e->c, (unsigned long long)e->val);
    if (depth) for (auto* k : e->k) if (k) { fprintf(stderr, " "); dumpExpr(k, depth - 1); }
    fprintf(stderr, ")");
}
static void mismatch(char const* where, Expr* e, u64 v) {
    SADD(mismatches, 1);
    if (debugOn) { dumpExpr(e, 6); fprintf(stderr, "\n"); }
    if (debugOn) fprintf(stderr, "ENGINE MISMATCH at %s: op %d w %d val %llx real %llx\n", where, e->op, e->w, (unsigned long long)e->val, (unsigned long long)v);
}

static void addCon(Expr* c, bool taken, bool flip, u8 kind, unsigned site, Str* msg = nullptr) {
    while (c->op == O_XOR && isK(c->k[1])) { if (c->k[1]->c) taken = !taken; c = c->k[0]; }
    if (isK(c)) return;
    auto it = known->find(c);
    if (it != known->end()) return;
    (*known)[c] = taken;
    unsigned idx = cons->size();
    runHash = (runHash ^ (site * 2654435761u + taken + kind * 7 + 1)) * 1099511628211ull;
    cons->push_back({c, taken, flip, kind, site, msg});
    if (idx + 1 == bound0 && runHash != hash0) { diverged = true; SADD(divergences, 1); if (debugOn) fprintf(stderr, "DIVERGENCE\n"); }
    if (cons->size() > maxCons) finishPath("too many constraints");
}
static std::unordered_map<unsigned, u64, std::hash<unsigned>, std::equal_to<unsigned>, RawAlloc<std::pair<unsigned const, u64>>>* concVal;
static void concretize(Expr* e) {
    if (isK(e)) return;
    SADD(concretised, 1);
    if (e->w == 1) { addCon(e, e->val, true, 0, 7); return; }
    for (;;) {                                   // values which earlier paths took here
        unsigned n = cons->size(); bool any = false;
        for (auto& x : cur->excl) if (x.first == n) {
            Expr* c = mk(O_EQ, 1, e, K(x.second, e->w));
            if (isK(c)) break;
            addCon(c, false, false, 0, 11); any = cons->size() > n; break;
        }
        if (!any) break;
    }
    Expr* c = mk(O_EQ, 1, e, K(e->val, e->w));
    if (isK(c)) return;
    unsigned n = cons->size();
    addCon(c, true, true, 1, 11);
    if (cons->size() > n) (*concVal)[n] = e->val;       // excluded when this constraint is negated
}

// ---------------------------------------------------------------- arena
static char* const ARENA = (char*)0x200000000000ull; static size_t const ARENA_SIZE = 8ull << 30;
static u8* const ASTATE = (u8*)0x210000000000ull;          // one byte per 8 bytes
static char* arenaTop = nullptr;
static void arenaInit() {
    if (arenaTop) return;
    void* a = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* b = mmap(ASTATE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != (void*)ARENA || b != (void*)ASTATE) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
    arenaTop = ARENA + 64;
}
static bool inArena(void const* p) { return (char*)p >= ARENA && (char*)p < ARENA + ARENA_SIZE; }
static void* arenaAlloc(size_t n, size_t al = 16) {
    arenaInit();
    if (al < 16) al = 16;
    if (n > (1ull << 31)) return nullptr;
    char* p = (char*)(((u64)arenaTop + 32 + al - 1) & ~(u64)(al - 1));
    if (p + n + 64 > ARENA + ARENA_SIZE) return nullptr;
    ((u64*)p)[-1] = n; ((u64*)p)[-2] = 0xA110CA7EDull;
    u8* s = ASTATE + (p - ARENA) / 8;
    memset(s, 8, n / 8);
    if (n % 8) s[n / 8] = n % 8;
    if (n == 0) s[0] = 0;
    arenaTop = p + ((n + 15) & ~15ull) + 16;
    return p;
}
static void arenaFree(void* p) {
    if (!p) return;
    if (!inArena(p)) { ::free(p); return; }
    u64* h = (u64*)p;
    if (h[-2] != 0xA110CA7EDull) { if (g_active && !finishing) { violMsg = "invalid or double free"; finishPath(violMsg); } return; }
    h[-2] = 0xDEAD;
    memset(ASTATE + ((char*)p - ARENA) / 8, 0, (h[-1] + 7) / 8);
}
static void arenaCheck(void const* p, u64 n, bool store) {
    if (!inArena(p) || !n) return;
    u64 a = (char*)p - ARENA, e = a + n;
    bool ok = true;
    for (u64 g = a / 8; g <= (e - 1) / 8; ++g) {
        u8 s = ASTATE[g]; u64 last = std::min(e - 1, g * 8 + 7) - g * 8;
        if (s == 0 || last >= s) { ok = false; break; }
    }
    if (!ok && g_active && !finishing) {
        violMsg = store ? "heap write outside an allocated block" : "heap read outside an allocated block";
        finishPath(violMsg);
    }
}
extern "C" {
void* __sym_malloc(size_t n) { return arenaAlloc(n); }
void __sym_free(void* p) { arenaFree(p); }
void* __sym_calloc(size_t a, size_t b) { void* p = arenaAlloc(a * b); if (p) memset(p, 0, a * b); return p; }
int __sym_posix_memalign(void** r, size_t al, size_t n) { *r = arenaAlloc(n, al); return *r ? 0 : ENOMEM; }
void* __sym_aligned_alloc(size_t al, size_t n) { return arenaAlloc(n, al); }
void __sym_copyshadow(void* d, void const* s, u64 n);
void* __sym_realloc(void* p, size_t n) {
    void* q = arenaAlloc(n);
    if (p && q) { size_t o = inArena(p) ? ((u64*)p)[-1] : n; size_t m = o < n ? o : n; memcpy(q, p, m); __sym_copyshadow(q, p, m); arenaFree(p); }
    return q;
}
}
void* operator new(size_t n) { void* p = arenaAlloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = arenaAlloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return arenaAlloc(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return arenaAlloc(n); }
void operator delete(void* p) noexcept { arenaFree(p); }
void operator delete[](void* p) noexcept { arenaFree(p); }
void operator delete(void* p, size_t) noexcept { arenaFree(p); }
void operator delete[](void* p, size_t) noexcept { arenaFree(p); }

// ---------------------------------------------------------------- shadow memory
struct Page { Expr* e[4096]; u8 idx[4096]; };
static std::unordered_map<u64, Page*, std::hash<u64>, std::equal_to<u64>, RawAlloc<std::pair<u64 const, Page*>>>* pages;
static u64 bloom[1 << 14];      // 2^20 bits
static u64 bh(u64 pg) { return (pg * 0x9E3779B97F4A7C15ull) >> 44; }
static u64 lastPg = ~0ull; static Page* lastPage = nullptr;
static inline Page* page(u64 a) {
    u64 pg = a >> 12;
    if (pg == lastPg) return lastPage;
    u64 h = bh(pg);
    if (!(bloom[h >> 6] >> (h & 63) & 1)) return nullptr;
    auto it = pages->find(pg);
    if (it == pages->end()) return nullptr;
    lastPg = pg; lastPage = it->second;
    return it->second;
}
static Page* pageMk(u64 a) {
    Page* p = page(a);
    if (p) return p;
    u64 pg = a >> 12;
    p = (Page*)::calloc(1, sizeof(Page));
    (*pages)[pg] = p;
    u64 h = bh(pg); bloom[h >> 6] |= 1ull << (h & 63);
    lastPg = pg; lastPage = p;
    return p;
}
static void clearMem(u64 a, u64 n) {
    while (n) {
        u64 off = a & 4095, m = std::min<u64>(n, 4096 - off);
        if (Page* p = page(a)) memset(p->e + off, 0, m * sizeof(Expr*));
        a += m; n -= m;
    }
}
static bool anySym(u64 a, u64 n) {
    for (u64 i = 0; i < n; ++i) { Page* p = page(a + i); if (p && p->e[(a + i) & 4095]) return true; }
    return false;
}
static Expr* loadMem(u64 a, unsigned n) {        // expression of n bytes, or null
    u64 off = a & 4095;
    Page* p = page(a);
    if (off + n <= 4096) {
        if (!p) return nullptr;
        Expr* e = p->e[off];
        if (e && p->idx[off] == 0 && e->w == 8 * n) {
            bool same = true;
            for (unsigned i = 1; i < n; ++i) if (p->e[off + i] != e || p->idx[off + i] != i) { same = false; break; }
            if (same) {
                u64 v = 0; memcpy(&v, (void*)a, n);
                if (sameVal(e, v)) return e;
                SADD(stale, 1); clearMem(a, n); return nullptr;
            }
        } else if (!e) {
            bool any = false;
            for (unsigned i = 1; i < n; ++i) if (p->e[off + i]) { any = true; break; }
            if (!any) return nullptr;
        }
    } else if (!anySym(a, n)) return nullptr;
    Expr* r = nullptr; bool any = false;
    for (unsigned i = 0; i < n; ++i) {
        Page* q = page(a + i); u64 o = (a + i) & 4095;
        u8 real = *(u8*)(a + i);
        Expr* b = q ? q->e[o] : nullptr;
        if (b) {
            Expr* x = extract(b, 8 * q->idx[o], 8);
            u64 ev = (b->val >> (8 * q->idx[o])) & 255;
            unsigned end = q->idx[o] * 8u + 8;      // the sign of a zero does not matter (of one of a pair neither)
            bool zero = (ev & 127) == (real & 127) && ((end == b->w && (ev < 128 || !(b->val & mask(b->w - 1)))) || (end == 32 && b->w == 64 && b->op == O_CONCAT && !(b->val & mask(31))));
            if (ev != real && !zero) { SADD(stale, 1); q->e[o] = nullptr; x = K(real, 8); } else any = true;
            b = x;
        } else b = K(real, 8);
        r = r ? mk(O_CONCAT, r->w + 8, b, r) : b;
    }
    return any && !isK(r) ? r : nullptr;
}
static void storeMem(u64 a, Expr* e, unsigned n) {
    if (e->w < 8 * n) e = mk(O_ZEXT, 8 * n, e);
    if (isK(e)) { clearMem(a, n); return; }
    for (unsigned i = 0; i < n; ++i) { Page* p = pageMk(a + i); p->e[(a + i) & 4095] = e; p->idx[(a + i) & 4095] = i; }
}

static Expr* E(Expr* e, u64 v, unsigned w) {
    if (e) { if (!sameVal(e, v & mask(w))) mismatch("operand", e, v & mask(w)); return e; }
    return K(v, w);
}
static Expr* R(Expr* e) { return e && !isK(e) ? e : nullptr; }

extern "C" {
Expr* __sym_params[256]; Expr* __sym_rets[64]; void* __sym_callee; void* __sym_retfn;

Expr* __sym_bin(int op, int w, Expr* a, Expr* b, u64 va, u64 vb) {
    if (!a && !b) return nullptr;
    a = E(a, va, w); b = E(b, vb, w);
    switch (op) {
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: return R(fpArith(op, w, a, b));
    case O_SMAX: return R(mk(O_ITE, w, mk(O_SLT, 1, a, b), b, a));
    case O_SMIN: return R(mk(O_ITE, w, mk(O_SLT, 1, a, b), a, b));
    case O_UMAX: return R(mk(O_ITE, w, mk(O_ULT, 1, a, b), b, a));
    case O_UMIN: return R(mk(O_ITE, w, mk(O_ULT, 1, a, b), a, b));
    case O_USUBSAT: return R(mk(O_ITE, w, mk(O_ULT, 1, a, b), K(0, w), mk(O_SUB, w, a, b)));
    case O_UADDSAT: { Expr* s = mk(O_ADD, w, a, b); return R(mk(O_ITE, w, mk(O_ULT, 1, s, a), K(mask(w), w), s)); }
    }
    return R(mk(op, w, a, b));
}
Expr* __sym_un(int op, int sw, int dw, Expr* a, u64 va) {
    if (!a) return nullptr;
    a = E(a, va, sw);
    switch (op) {
    case O_TRN: return R(extract(a, 0, dw));
    case O_ABS: return R(mk(O_ITE, dw, mk(O_SLT, 1, a, K(0, dw)), mk(O_SUB, dw, K(0, dw), a), a));
    case O_ZEXT: case O_SEXT: return R(mk(op, dw, a));
    case O_SI2F: { i64 lim = dw == 32 ? (1ll << 24) : (1ll << 53);
        if (a->lo >= -lim && a->hi <= lim) return R(mkDy(a, 0, dw)); return R(mk(op, dw, a)); }
    case O_UI2F: { i64 lim = dw == 32 ? (1ll << 24) : (1ll << 53);
        if (a->lo >= 0 && a->hi <= lim) return R(mkDy(a, 0, dw)); return R(mk(op, dw, a)); }
    case O_F2SI: case O_F2UI:
        if (a->op == O_DY) {
            Expr* k = a->k[0];
            if (a->c) { unsigned ww = 64; k = mk(O_SDIV, ww, resizeS(k, ww), K(1ull << a->c, ww)); }
            if (k->lo >= smin_(dw) && k->hi <= smax_(dw)) return R(resizeS(k, dw));
        }
        return R(mk(op, dw, a));
    case O_FEXT: if (a->op == O_DY) return R(mk(O_DY, dw, a->k[0], 0, 0, a->c)); return R(mk(op, dw, a));
    case O_FTRUNC: if (a->op == O_DY) { Expr* r = mkDy(a->k[0], a->c, 32); if (r) return R(r); } return R(mk(op, dw, a));
    case O_FNEG: if (a->op == O_DY) { Expr* k = a->k[0]; unsigned ww = k->w < 64 ? k->w * 2 : 64; Expr* r = mkDy(mk(O_SUB, ww, K(0, ww), resizeS(k, ww)), a->c, dw); if (r) return R(r); }
        return R(mk(op, dw, a));
    case O_FABS: if (a->op == O_DY) { Expr* k = a->k[0]; unsigned ww = k->w < 64 ? k->w * 2 : 64; k = resizeS(k, ww);
            if (k->lo >= 0) return R(a);
            Expr* m = mk(O_ITE, ww, mk(O_SLT, 1, k, K(0, ww)), mk(O_SUB, ww, K(0, ww), k), k);
            Expr* r = mkDy(m, a->c, dw); if (r) return R(r); }
        return R(mk(op, dw, a));
    case O_FFLOOR: case O_FCEIL: case O_FRTZ: case O_FROUND: case O_FRNE:
        if (a->op == O_DY) {
            if (a->c == 0) return R(a);
            Expr* k = a->k[0]; unsigned s = a->c;
            if (op == O_FFLOOR) { Expr* r = mkDy(mk(O_ASHR, k->w, k, K(s, k->w)), 0, dw); if (s < k->w && r) return R(r); }
            if (op == O_FRTZ) { unsigned ww = 64; Expr* r = mkDy(mk(O_SDIV, ww, resizeS(k, ww), K(1ull << s, ww)), 0, dw); if (r) return R(r); }
            if (op == O_FCEIL) { unsigned ww = 64; Expr* t = mk(O_ADD, ww, resizeS(k, ww), K((1ull << s) - 1, ww)); Expr* r = mkDy(mk(O_ASHR, ww, t, K(s, ww)), 0, dw); if (r) return R(r); }
        }
        return R(mk(op, dw, a));
    }
    return R(mk(op, dw, a));
}
Expr* __sym_cmp(int pred, int w, Expr* a, Expr* b, u64 va, u64 vb) {
    if (!a && !b) return nullptr;
    a = E(a, va, w); b = E(b, vb, w);
    auto O = [](Expr* x, Expr* y) { return mk(O_OR, 1, x, y); };
    auto A = [](Expr* x, Expr* y) { return mk(O_AND, 1, x, y); };
    switch (pred) {
    case 32: return R(mk(O_EQ, 1, a, b)); case 33: return R(notb(mk(O_EQ, 1, a, b)));
    case 34: return R(mk(O_ULT, 1, b, a)); case 35: return R(mk(O_ULE, 1, b, a));
    case 36: return R(mk(O_ULT, 1, a, b)); case 37: return R(mk(O_ULE, 1, a, b));
    case 38: return R(mk(O_SLT, 1, b, a)); case 39: return R(mk(O_SLE, 1, b, a));
    case 40: return R(mk(O_SLT, 1, a, b)); case 41: return R(mk(O_SLE, 1, a, b));
    case 0: return nullptr; case 15: return nullptr;
    case 1: return R(fpCmp(O_FEQ, a, b)); case 2: return R(fpCmp(O_FLT, b, a)); case 3: return R(fpCmp(O_FLE, b, a));
    case 4: return R(fpCmp(O_FLT, a, b)); case 5: return R(fpCmp(O_FLE, a, b));
    case 6: return R(A(notb(fpCmp(O_FEQ, a, b)), notb(fpCmp(O_FUNO, a, b))));
    case 7: return R(notb(fpCmp(O_FUNO, a, b))); case 8: return R(fpCmp(O_FUNO, a, b));
    case 9: return R(O(fpCmp(O_FUNO, a, b), fpCmp(O_FEQ, a, b)));
    case 10: return R(notb(fpCmp(O_FLE, a, b))); case 11: return R(notb(fpCmp(O_FLT, a, b)));
    case 12: return R(notb(fpCmp(O_FLE, b, a))); case 13: return R(notb(fpCmp(O_FLT, b, a)));
    case 14: return R(notb(fpCmp(O_FEQ, a, b)));
    }
    return nullptr;
}
Expr* __sym_select(int w, Expr* c, u64 vc, Expr* a, Expr* b, u64 va, u64 vb) {
    if (!c) { return (vc & 1) ? a : b; }
    if (!a && !b && (va & mask(w)) == (vb & mask(w))) return nullptr;
    Expr *x = E(a, va, w), *y = E(b, vb, w);
    // floating point values stay exact when both sides are
    if ((x->op == O_DY || y->op == O_DY) && isDy(x) && isDy(y)) {
        Expr *p, *q; unsigned s;
        if (align(x, y, p, q, s)) { Expr* r = mkDy(mk(O_ITE, p->w, c, p, q), s, w); if (r) return R(r); }
    }
    return R(mk(O_ITE, w, c, x, y));
}
Expr* __sym_concat(int hw, int lw, Expr* h, Expr* l, u64 vh, u64 vl) {
    if (!h && !l) return nullptr;
    return R(mk(O_CONCAT, hw + lw, E(h, vh, hw), E(l, vl, lw)));
}
Expr* __sym_extract(Expr* e, int lo, int w) { return e ? R(extract(e, lo, w)) : nullptr; }
Expr* __sym_ovf(int op, int w, Expr* a, Expr* b, u64 va, u64 vb) {
    if (!a && !b) return nullptr;
    a = E(a, va, w); b = E(b, vb, w);
    Expr* r;
    switch (op) {
    case 0: r = mk(O_ADD, w, a, b); return R(mk(O_ULT, 1, r, a));
    case 1: return R(mk(O_ULT, 1, a, b));
    case 2: case 3: { i128 lo = op == 2 ? (i128)a->lo + b->lo : (i128)a->lo - b->hi, hi = op == 2 ? (i128)a->hi + b->hi : (i128)a->hi - b->lo;
        if (lo >= smin_(w) && hi <= smax_(w)) return nullptr;
        r = mk(op == 2 ? O_ADD : O_SUB, w, a, b); Expr* z = K(0, w);
        Expr* t = op == 2 ? mk(O_AND, w, mk(O_XOR, w, a, r), mk(O_XOR, w, b, r)) : mk(O_AND, w, mk(O_XOR, w, a, b), mk(O_XOR, w, a, r));
        return R(mk(O_SLT, 1, t, z)); }
    default: {
        i128 p[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi};
        i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
        if (op == 4 && a->lo >= 0 && b->lo >= 0 && (w == 64 || hi <= (i128)mask(w))) return nullptr;
        if (op == 5 && lo >= smin_(w) && hi <= smax_(w)) return nullptr;
        concretize(a); concretize(b); return nullptr; }
    }
}
void __sym_access(void* p, Expr* s, u64 n, int store) {
    if (!g_active) return;
    if (s) { if (s->val != (u64)p) mismatch("address", s, (u64)p); else concretize(s); }
    arenaCheck(p, n, store);
}
Expr* __sym_load(void* p, int w) {
    if (!g_active) return nullptr;
    Expr* e = loadMem((u64)p, (w + 7) / 8);
    if (e && (unsigned)w < e->w) e = extract(e, 0, w);
    return e ? R(e) : nullptr;
}
void __sym_store(void* p, Expr* e, u64 v, int w) {
    if (!g_active) return;
    unsigned n = (w + 7) / 8;
    if (!e) { clearMem((u64)p, n); return; }
    if (!sameVal(e, v & mask(w))) { mismatch("store", e, v & mask(w)); clearMem((u64)p, n); return; }
    storeMem((u64)p, e, n);
}
void __sym_clear(void* p, u64 n) { if (g_active) clearMem((u64)p, n); }
void __sym_alloca(void* p, u64 n) { if (g_active) clearMem((u64)p, n); }
void __sym_copyshadow(void* d, void const* s, u64 n) {
    if (!g_active || d == s || !n) return;
    if (!anySym((u64)s, n)) { clearMem((u64)d, n); return; }
    Expr** t = (Expr**)::malloc(n * sizeof(Expr*)); u8* x = (u8*)::malloc(n);
    for (u64 i = 0; i < n; ++i) { u64 a = (u64)s + i; Page* p = page(a); t[i] = p ? p->e[a & 4095] : nullptr; x[i] = p ? p->idx[a & 4095] : 0; }
    for (u64 i = 0; i < n; ++i) {
        u64 a = (u64)d + i;
        if (t[i]) { Page* p = pageMk(a); p->e[a & 4095] = t[i]; p->idx[a & 4095] = x[i]; }
        else if (Page* p = page(a)) p->e[a & 4095] = nullptr;
    }
    ::free(t); ::free(x);
}
void __sym_byval(void* dst, void* src, u64 n) { if (!g_active) return; if (src) __sym_copyshadow(dst, src, n); else clearMem((u64)dst, n); }
void __sym_memcpy(void* d, void* s, u64 n, Expr* ds, Expr* ss, Expr* ns) {
    if (!g_active) return;
    if (ds) concretize(ds); if (ss) concretize(ss); if (ns) concretize(ns);
    arenaCheck(s, n, false); arenaCheck(d, n, true);
    __sym_copyshadow(d, s, n);
}
void __sym_memset(void* d, u64 v, u64 n, Expr* ds, Expr* vs, Expr* ns) {
    if (!g_active) return;
    if (ds) concretize(ds); if (vs) concretize(vs); if (ns) concretize(ns);
    (void)v;
    arenaCheck(d, n, true); clearMem((u64)d, n);
}
void __sym_branch(unsigned site, Expr* c, u64 taken) {
    if (!c) return;
    if (c->val != (taken & 1)) { mismatch("branch", c, taken); return; }
    addCon(c, taken & 1, true, 0, site);
}
void __sym_switch(unsigned site, Expr* c, u64 v, int w, u64* cases, int n) {
    if (!c) return;
    v &= mask(w);
    if (c->val != v) { mismatch("switch", c, v); return; }
    for (int i = 0; i < n; ++i) {
        bool t = (cases[i] & mask(w)) == v;
        addCon(mk(O_EQ, 1, c, K(cases[i], w)), t, true, 0, site + i);
        if (t) break;
    }
}
void __sym_conc(Expr* e, u64 v, int w) { if (!e) return; if (!sameVal(e, v & mask(w))) mismatch("conc", e, v); else concretize(e); }
void __sym_concmem(void* p, u64 n) {
    if (!g_active || !anySym((u64)p, n)) return;
    for (u64 i = 0; i < n; ++i) if (Expr* e = loadMem((u64)p + i, 1)) concretize(e);
    clearMem((u64)p, n);
}
void __sym_fresh(void* p, u64 n) { if (g_active) clearMem((u64)p, n); }
static void noteExt(char const* name) { ++(*extUsed)[name]; if (debugOn) fprintf(stderr, "EXT %s\n", name); }
void __sym_ext_val(char const* name, Expr* e, u64 v, int w) {
    if (!e || !g_active) return;
    (void)v; (void)w;
    noteExt(name); concretize(e);
}
static bool sink(char const* n) {
    static char const* const pre[] = {"__sym_", "_Zdl", "_Zda", "__cxa_", "_Unwind", "_ZSt18_Rb_tree", "_ZSt29_Rb_tree", "_ZSt28_Rb_tree",
        "_ZNSt8__detail15_List_node", "_ZNKSt8__detail20_Prime", "_ZSt20__throw", "_ZSt19__throw", "_ZSt17__throw", "_ZSt2", "_ZN3fmt", "_ZNK3fmt",
        "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt16invalid_arg", "_ZNSt9exception", "_ZNSt6chrono", "__dynamic_cast", "pthread_",
        "_ZNKSt9type_info", "_ZNSt12out_of_range", "_ZSt9terminate", "__clang_call_terminate", "__gxx"};
    for (auto* p : pre) if (!strncmp(n, p, strlen(p))) return true;
    return false;
}
void __sym_ext_ptr(char const* name, void* p, Expr* s) {
    if (!g_active) return;
    if (s) concretize(s);
    if (!p || sink(name)) return;
    u64 a = (u64)p, n = 64;
    // std::string objects; texts are never symbolic
    if (!strncmp(name, "_ZNSt7__cxx1112basic_string", 27) || !strncmp(name, "_ZNKSt7__cxx1112basic_string", 28)) n = 32;
    if (!strcmp(name, "_ZSt11_Hash_bytesPKvmm")) n = 1;
    for (u64 i = 0; i < n; ++i) {
        Page* q = page(a + i);
        if (!q || !q->e[(a + i) & 4095]) continue;
        if (inArena((void*)(a + i)) && ASTATE[(a + i - (u64)ARENA) / 8] == 0) break;
        if (Expr* e = loadMem(a + i, 1)) {
            Expr* whole = q->e[(a + i) & 4095]; (void)e;
            noteExt(name); if (whole) concretize(whole);
        }
    }
}
extern void* __start_symfns[]; extern void* __stop_symfns[];
static USet<void*>* fnSet;
void __sym_icall(void* f) { (void)f; }
void __sym_icall_args(void* f, int n) {
    if (!g_active) return;
    if (!fnSet) { fnSet = new (::malloc(sizeof(USet<void*>))) USet<void*>; for (void** p = __start_symfns; p != __stop_symfns; ++p) fnSet->insert(*p); }
    if (fnSet->count(f)) return;
    for (int i = 0; i < n && i < 256; ++i) {
        Expr* e = __sym_params[i];
        bool isExpr = e && std::binary_search(allExprs->begin(), allExprs->end(), e, [](Expr* a, Expr* b) { return a < b; });
        (void)isExpr;
        if (e) { noteExt("indirect"); concretize(e); }
    }
    __sym_callee = nullptr;
}
void __sym_enter(char const* name) {
    static char const* last = nullptr;
    if (!g_active || name == last) return;
    last = name;
    unsigned h = ((u64)name >> 2) * 2654435761u >> 18;
    for (unsigned i = 0; i < 64; ++i) {
        char const** s = &S->fns[(h + i) & ((1 << 14) - 1)];
        if (*s == name) return;
        char const* z = nullptr;
        if (!*s && __atomic_compare_exchange_n(s, &z, name, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return;
        if (*s == name) return;
    }
}

// ---- what the harness calls. Shadows of arguments come by the call protocol.
static Expr* arg(int i, void* self) { return __sym_callee == self ? __sym_params[i] : nullptr; }
static void ret(void* self, Expr* e) { __sym_rets[0] = e; __sym_retfn = e ? self : nullptr; }

static u64 newInput(char const* name, i64 lo, i64 hi, unsigned w, bool raw, Expr*& e) {
    unsigned i = inputs->size();
    u64 v = i < inVals->size() ? (*inVals)[i] : (u64)lo;
    if (!raw && ((i64)v < lo || (i64)v > hi)) v = (u64)lo;
    if (i < inVals->size()) (*inVals)[i] = v; else inVals->push_back(v);
    unsigned vw = raw ? w : bitsFor(lo, hi);
    Expr* x = mkRaw(O_VAR, vw, nullptr, nullptr, nullptr, i);
    x->val = v & mask(vw);
    if (!raw) { x->lo = lo; x->hi = hi; }
    inputs->push_back({Str(name), lo, hi, vw, x, raw});
    e = raw ? x : (lo == hi ? K((u64)lo, w) : mk(O_SEXT, w, x));
    return v;
}
int sym_int_(char const* name, int lo, int hi) {
    if (!g_active) return lo;
    Expr* e; u64 v = newInput(name, lo, hi, 32, false, e);
    ret((void*)&sym_int_, R(e));
    return (int)(i64)v;
}
double sym_f64_(char const* name) {
    Expr* e; u64 v = newInput(name, 0, 0, 64, true, e);
    ret((void*)&sym_f64_, R(e));
    return bits2d(v);
}
float sym_f32_(char const* name) {
    Expr* e; u64 v = newInput(name, 0, 0, 32, true, e);
    ret((void*)&sym_f32_, R(e));
    return bits2f(v);
}
static Expr* condOf(Expr* e) { return e ? notb(mk(O_EQ, 1, e, K(0, e->w))) : nullptr; }
void sym_assume_(int c) {
    Expr* e = condOf(arg(0, (void*)&sym_assume_)); __sym_callee = nullptr;
    __sym_retfn = nullptr;
    if (!e || isK(e)) { if (!c) { SADD(infeasibleAssume, 1); finishPath("assume"); } return; }
    if (c) { addCon(e, true, false, 2, 21); return; }
    addCon(e, false, true, 2, 21);
    SADD(infeasibleAssume, 1);
    finishPath("assume");
}
void sym_assert_(int c, char const* msg) {
    Expr* e = condOf(arg(0, (void*)&sym_assert_)); __sym_callee = nullptr;
    if (!c) { violMsg = msg; finishPath(msg); }
    if (!e || isK(e)) { SADD(assertConcrete, 1); return; }
    Str* m = new (::malloc(sizeof(Str))) Str(msg);
    bool t = true;
    while (e->op == O_XOR && isK(e->k[1])) { if (e->k[1]->c) t = !t; e = e->k[0]; }
    if (known->count(e)) { SADD(assertConcrete, 1); return; }
    cons->push_back({e, t, false, 3, 0, m});
    runHash = (runHash ^ 77) * 1099511628211ull;
    if (cons->size() == bound0 && runHash != hash0) { diverged = true; SADD(divergences, 1); }
}
void sym_close_(double a, double b, double tol, char const* msg) {
    void* self = (void*)&sym_close_; Expr *x = arg(0, self), *y = arg(1, self); __sym_callee = nullptr; __sym_retfn = nullptr;
    if (!(std::fabs(a - b) <= tol)) { violMsg = msg; finishPath(msg); }
    if ((!x || isK(x)) && (!y || isK(y))) { SADD(assertConcrete, 1); return; }
    if (!x) x = K(d2bits(a), 64); if (!y) y = K(d2bits(b), 64);
    if (x == y) { SADD(assertConcrete, 1); return; }
    Expr* e = mkRaw(O_FLE, 1, mkRaw(O_FABS, 64, mkRaw(O_FSUB, 64, x, y, 0, 0), 0, 0, 0), K(d2bits(tol), 64), 0, 0);
    Str* m = new (::malloc(sizeof(Str))) Str(msg);
    cons->push_back({e, true, false, 4, 0, m});
    runHash = (runHash ^ 79) * 1099511628211ull;
    if (cons->size() == bound0 && runHash != hash0) { diverged = true; SADD(divergences, 1); }
}
void sym_reach_(char const* w) { reached->push_back(Str(w)); }
void sym_note_(char const* w, double v) { (*notes)[w] = v; }
int sym_pin_(int v) {
    Expr* e = arg(0, (void*)&sym_pin_); __sym_callee = nullptr;
    if (e) concretize(e);
    __sym_retfn = nullptr;
    return v;
}
int sym_tier_() { __sym_retfn = nullptr; return tier; }
void* sym_memcpy(void* d, void const* s, size_t n) {
    void* self = (void*)&sym_memcpy; Expr *a = arg(0, self), *b = arg(1, self), *c = arg(2, self); __sym_callee = nullptr; __sym_retfn = nullptr;
    __sym_memcpy(d, (void*)s, n, a, b, c); return memcpy(d, s, n);
}
void* sym_memmove(void* d, void const* s, size_t n) {
    void* self = (void*)&sym_memmove; Expr *a = arg(0, self), *b = arg(1, self), *c = arg(2, self); __sym_callee = nullptr; __sym_retfn = nullptr;
    __sym_memcpy(d, (void*)s, n, a, b, c); return memmove(d, s, n);
}
void* sym_memset(void* d, int v, size_t n) {
    void* self = (void*)&sym_memset; Expr *a = arg(0, self), *b = arg(1, self), *c = arg(2, self); __sym_callee = nullptr; __sym_retfn = nullptr;
    __sym_memset(d, v, n, a, b, c); return memset(d, v, n);
}
} // extern "C"

// ---------------------------------------------------------------- SMT
static Z3_context Z;
static Z3_ast zbv(Expr* e);
static Z3_ast zbool(Expr* e);
static Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static Z3_ast zfp(Expr* e);
static Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, w)); }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(Z, b, num(1, 1), num(0, 1)); }
static std::unordered_map<Expr*, Z3_ast, std::hash<Expr*>, std::equal_to<Expr*>, RawAlloc<std::pair<Expr* const, Z3_ast>>>*fpCache, *boolCache;
static Z3_ast zfp(Expr* e) {
    auto it = fpCache->find(e);
    if (it != fpCache->end()) return it->second;
    Z3_ast r; Z3_ast rne = Z3_mk_fpa_rne(Z);
    Z3_sort s = fpSort(e->w);
    auto A = [&] { return zfp(e->k[0]); }; auto B = [&] { return zfp(e->k[1]); };
    switch (e->op) {
    case O_FADD: r = Z3_mk_fpa_add(Z, rne, A(), B()); break; case O_FSUB: r = Z3_mk_fpa_sub(Z, rne, A(), B()); break;
    case O_FMUL: r = Z3_mk_fpa_mul(Z, rne, A(), B()); break; case O_FDIV: r = Z3_mk_fpa_div(Z, rne, A(), B()); break;
    case O_FNEG: r = Z3_mk_fpa_neg(Z, A()); break; case O_FABS: r = Z3_mk_fpa_abs(Z, A()); break;
    case O_FSQRT: r = Z3_mk_fpa_sqrt(Z, rne, A()); break;
    case O_FFLOOR: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtn(Z), A()); break;
    case O_FCEIL: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtp(Z), A()); break;
    case O_FRTZ: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtz(Z), A()); break;
    case O_FROUND: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rna(Z), A()); break;
    case O_FRNE: r = Z3_mk_fpa_round_to_integral(Z, rne, A()); break;
    case O_SI2F: r = Z3_mk_fpa_to_fp_signed(Z, rne, zbv(e->k[0]), s); break;
    case O_UI2F: r = Z3_mk_fpa_to_fp_unsigned(Z, rne, zbv(e->k[0]), s); break;
    case O_FEXT: case O_FTRUNC: r = Z3_mk_fpa_to_fp_float(Z, rne, zfp(e->k[0]), s); break;
    case O_DY: {
        r = Z3_mk_fpa_to_fp_signed(Z, rne, zbv(e->k[0]), s);
        if (e->c) { Z3_ast f = Z3_mk_fpa_to_fp_bv(Z, num(fpbits(ldexp(1.0, -(int)e->c), e->w), e->w), s); r = Z3_mk_fpa_mul(Z, rne, r, f); }
        break; }
    default: r = Z3_mk_fpa_to_fp_bv(Z, zbv(e), s);
    }
    (*fpCache)[e] = r;
    return r;
}
static Z3_ast zbool(Expr* e) {
    auto it = boolCache->find(e);
    if (it != boolCache->end()) return it->second;
    Z3_ast r;
    Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
    case O_EQ: r = a->w == 1 ? Z3_mk_iff(Z, zbool(a), zbool(b)) : Z3_mk_eq(Z, zbv(a), zbv(b)); break;
    case O_ULT: r = Z3_mk_bvult(Z, zbv(a), zbv(b)); break; case O_ULE: r = Z3_mk_bvule(Z, zbv(a), zbv(b)); break;
    case O_SLT: r = Z3_mk_bvslt(Z, zbv(a), zbv(b)); break; case O_SLE: r = Z3_mk_bvsle(Z, zbv(a), zbv(b)); break;
    case O_AND: { Z3_ast x[2] = {zbool(a), zbool(b)}; r = Z3_mk_and(Z, 2, x); break; }
    case O_OR: { Z3_ast x[2] = {zbool(a), zbool(b)}; r = Z3_mk_or(Z, 2, x); break; }
    case O_XOR: r = Z3_mk_xor(Z, zbool(a), zbool(b)); break;
    case O_ITE: r = Z3_mk_ite(Z, zbool(a), zbool(b), zbool(e->k[2])); break;
    case O_CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case O_FEQ: r = Z3_mk_fpa_eq(Z, zfp(a), zfp(b)); break; case O_FLT: r = Z3_mk_fpa_lt(Z, zfp(a), zfp(b)); break;
    case O_FLE: r = Z3_mk_fpa_leq(Z, zfp(a), zfp(b)); break;
    case O_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(Z, zfp(a)), Z3_mk_fpa_is_nan(Z, zfp(b))}; r = Z3_mk_or(Z, 2, x); break; }
    default: r = Z3_mk_eq(Z, zbv(e), num(1, 1));
    }
    (*boolCache)[e] = r;
    return r;
}
static Z3_ast zbv(Expr* e) {
    if (e->z) return e->z;
    Z3_ast r; Expr *a = e->k[0], *b = e->k[1]; unsigned w = e->w;
    if (w == 1) switch (e->op) {
        case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_AND: case O_OR: case O_XOR: case O_ITE:
        case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: return e->z = b2v(zbool(e));
    }
    switch (e->op) {
    case O_CONST: r = num(e->c, w); break;
    case O_VAR: { char n[32]; snprintf(n, sizeof n, "v%llu", (unsigned long long)e->c); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), Z3_mk_bv_sort(Z, w)); break; }
    case O_ADD: r = Z3_mk_bvadd(Z, zbv(a), zbv(b)); break; case O_SUB: r = Z3_mk_bvsub(Z, zbv(a), zbv(b)); break;
    case O_MUL: r = Z3_mk_bvmul(Z, zbv(a), zbv(b)); break; case O_UDIV: r = Z3_mk_bvudiv(Z, zbv(a), zbv(b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(Z, zbv(a), zbv(b)); break; case O_UREM: r = Z3_mk_bvurem(Z, zbv(a), zbv(b)); break;
    case O_SREM: r = Z3_mk_bvsrem(Z, zbv(a), zbv(b)); break; case O_SHL: r = Z3_mk_bvshl(Z, zbv(a), zbv(b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(Z, zbv(a), zbv(b)); break; case O_ASHR: r = Z3_mk_bvashr(Z, zbv(a), zbv(b)); break;
    case O_AND: r = Z3_mk_bvand(Z, zbv(a), zbv(b)); break; case O_OR: r = Z3_mk_bvor(Z, zbv(a), zbv(b)); break;
    case O_XOR: r = Z3_mk_bvxor(Z, zbv(a), zbv(b)); break;
    case O_ITE: r = Z3_mk_ite(Z, zbool(a), zbv(b), zbv(e->k[2])); break;
    case O_CONCAT: r = Z3_mk_concat(Z, zbv(a), zbv(b)); break;
    case O_EXTRACT: r = Z3_mk_extract(Z, e->c + w - 1, e->c, zbv(a)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(Z, w - a->w, zbv(a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(Z, w - a->w, zbv(a)); break;
    case O_F2SI: r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), zfp(a), w); break;
    case O_F2UI: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), zfp(a), w); break;
    case O_FNEG: r = Z3_mk_bvxor(Z, zbv(a), num(1ull << (w - 1), w)); break;
    case O_FABS: r = Z3_mk_bvand(Z, zbv(a), num(mask(w) >> 1, w)); break;
    default: r = Z3_mk_fpa_to_ieee_bv(Z, zfp(e)); break;
    }
    return e->z = r;
}
static bool hasFp(Expr* e, USet<Expr*>& seen) {
    if (!e || !seen.insert(e).second) return false;
    // a dyadic leaf under an integer comparison never shows up; every fp op does
    if (e->op >= O_DY) return true;
    return hasFp(e->k[0], seen) || hasFp(e->k[1], seen) || hasFp(e->k[2], seen);
}
static u64 nowUs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }
static bool fpMode = false;
static Z3_lbool check(Z3_solver s) {
    u64 t = nowUs();
    Z3_lbool r = Z3_solver_check(Z, s);
    SADD(solverMicros, nowUs() - t);
    if (fpMode) SADD(fpQueries, 1);
    return r;
}
static void modelVals(Z3_solver s, Vec<u64>& out) {
    Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
    out = *inVals;
    for (unsigned i = 0; i < inputs->size(); ++i) {
        Z3_ast v; uint64_t x = 0;
        if (Z3_model_eval(Z, m, zbv((*inputs)[i].var), false, &v) && Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST) {
            Z3_get_numeral_uint64(Z, v, &x);
            out[i] = (*inputs)[i].raw ? x : (u64)sx(x, (*inputs)[i].w);
        }
    }
    Z3_model_dec_ref(Z, m);
}
static void emitVals(Str& o, Vec<u64> const& v) {
    char b[32]; snprintf(b, sizeof b, " %zu", v.size()); o += b;
    for (auto x : v) { snprintf(b, sizeof b, " %lld", (long long)x); o += b; }
}
static void emitViolation(Str const& msg, Vec<u64> const& v) {
    Str o = "V"; emitVals(o, v); o += " | ";
    for (unsigned i = 0; i < v.size() && i < inputs->size(); ++i) { o += (*inputs)[i].name; o += ","; }
    o += " | "; for (char c : msg) o += (c == '\n' ? ' ' : c); o += "\n";
    outStr(o.data(), o.size());
}


// Equalities between polynomials of the inputs (products of matrices and vectors) are hopeless as bit vectors
// and immediate over the reals: integer terms whose intervals exclude overflow are translated to real
// arithmetic, everything else becomes a free variable. Unsatisfiable there means it holds here.
static std::unordered_map<Expr*, Z3_ast, std::hash<Expr*>, std::equal_to<Expr*>, RawAlloc<std::pair<Expr* const, Z3_ast>>>* realCache;
static bool fits(i128 lo, i128 hi, unsigned w) { return lo >= smin_(w) && hi <= smax_(w); }
static Z3_ast zreal(Expr* e) {
    auto it = realCache->find(e);
    if (it != realCache->end()) return it->second;
    Expr *a = e->k[0], *b = e->k[1]; Z3_ast r = nullptr;
    auto bin = [&](Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[])) { Z3_ast x[2] = {zreal(a), zreal(b)}; return f(Z, 2, x); };
    switch (e->op) {
    case O_CONST: { char n[32]; snprintf(n, sizeof n, "%lld", (long long)sx(e->c, e->w)); r = Z3_mk_numeral(Z, n, Z3_mk_real_sort(Z)); break; }
    case O_ADD: if (fits((i128)a->lo + b->lo, (i128)a->hi + b->hi, e->w)) r = bin(Z3_mk_add); break;
    case O_SUB: if (fits((i128)a->lo - b->hi, (i128)a->hi - b->lo, e->w)) r = bin(Z3_mk_sub); break;
    case O_MUL: {
        i128 p[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi};
        if (fits(*std::min_element(p, p + 4), *std::max_element(p, p + 4), e->w)) r = bin(Z3_mk_mul);
        break; }
    case O_SEXT: r = zreal(a); break;
    case O_ZEXT: if (a->lo >= 0) r = zreal(a); break;
    case O_EXTRACT: if (e->c == 0 && fits(a->lo, a->hi, e->w)) r = zreal(a); break;
    }
    if (!r && debugOn && e->op != O_VAR) fprintf(stderr, "FREE op %d w %d [%lld %lld]\n", e->op, e->w, (long long)e->lo, (long long)e->hi);
    if (!r) { char n[32]; snprintf(n, sizeof n, "t%u", e->id); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), Z3_mk_real_sort(Z)); }
    (*realCache)[e] = r;
    return r;
}
// Floating point terms over the reals, every operation exact: what remains of them up to rounding, which the
// tolerance of sym_close has to cover. A term without a translation is a free variable.
static bool realExact;
static Vec<std::pair<Expr*, Z3_ast>>* realFree;
static std::unordered_map<Expr*, Z3_ast, std::hash<Expr*>, std::equal_to<Expr*>, RawAlloc<std::pair<Expr* const, Z3_ast>>>* realFpCache;
static Z3_ast realNum(double d) {
    int e; double m = std::frexp(d, &e); char n[64];
    snprintf(n, sizeof n, "%lld", (long long)std::ldexp(m, 53)); e -= 53;
    Z3_ast r = Z3_mk_numeral(Z, n, Z3_mk_real_sort(Z));
    while (e) {     // scaled by powers of two which fit
        int k = std::min(std::abs(e), 60);
        snprintf(n, sizeof n, "%lld", 1ll << k);
        Z3_ast f = Z3_mk_numeral(Z, n, Z3_mk_real_sort(Z)); Z3_ast x[2] = {r, f};
        r = Z3_simplify(Z, e > 0 ? Z3_mk_mul(Z, 2, x) : Z3_mk_div(Z, r, f));
        e += e > 0 ? -k : k;
    }
    return r;
}
static void freeInts(Expr* e, USet<Expr*>& seen) {      // the free integer terms below, with their bounds
    if (!e || !seen.insert(e).second) return;
    auto it = realCache->find(e);
    if (it != realCache->end() && Z3_get_ast_kind(Z, it->second) == Z3_APP_AST && Z3_get_app_num_args(Z, Z3_to_app(Z, it->second)) == 0 && !isK(e)) {
        realFree->push_back({e, it->second});
        if (e->op != O_VAR) realExact = false;
        return;
    }
    for (auto* k : e->k) freeInts(k, seen);
}
static Z3_ast zrealFp(Expr* e) {
    auto it = realFpCache->find(e);
    if (it != realFpCache->end()) return it->second;
    Z3_ast r = nullptr;
    auto bin = [&](Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[])) { Z3_ast x[2] = {zrealFp(e->k[0]), zrealFp(e->k[1])}; return f(Z, 2, x); };
    switch (e->op) {
    case O_CONST: if (std::isfinite(getfp(e->c, e->w))) r = realNum(getfp(e->c, e->w)); break;
    case O_DY: { Z3_ast x[2] = {zreal(e->k[0]), realNum(std::ldexp(1.0, -(int)e->c))}; r = Z3_mk_mul(Z, 2, x); break; }
    case O_SI2F: r = zreal(e->k[0]); break;
    case O_FADD: r = bin(Z3_mk_add); break; case O_FSUB: r = bin(Z3_mk_sub); break; case O_FMUL: r = bin(Z3_mk_mul); break;
    case O_FDIV: if (isK(e->k[1]) && getfp(e->k[1]->c, e->w) != 0) { Z3_ast one = realNum(1); Z3_ast x[2] = {zrealFp(e->k[0]), Z3_simplify(Z, Z3_mk_div(Z, one, zrealFp(e->k[1])))}; r = Z3_mk_mul(Z, 2, x); }
                 else r = Z3_mk_div(Z, zrealFp(e->k[0]), zrealFp(e->k[1])); break;
    case O_FNEG: r = Z3_mk_unary_minus(Z, zrealFp(e->k[0])); break;
    case O_FEXT: case O_FTRUNC: r = zrealFp(e->k[0]); break;
    }
    if (!r) {
        if (debugOn) fprintf(stderr, "FREEFP op %d\n", e->op);
        realExact = false; char n[32]; snprintf(n, sizeof n, "f%u", e->id); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), Z3_mk_real_sort(Z));
    }
    (*realFpCache)[e] = r;
    return r;
}
static void modelVals(Z3_solver s, Vec<u64>& out);
static void proveClose(Con& c) {
    Expr *x = c.c->k[0]->k[0]->k[0], *y = c.c->k[0]->k[0]->k[1]; double tol = getfp(c.c->k[1]->c, 64);
    realExact = true;
    Z3_ast two[2] = {zrealFp(x), zrealFp(y)};
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_bool(Z, p, Z3_mk_string_symbol(Z, "som"), true);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "som_blowup"), 1000000);
    Z3_ast d = Z3_mk_sub(Z, 2, two);
    for (int pass = 0; pass < 6; ++pass) { Z3_ast n = Z3_simplify_ex(Z, d, p); if (n == d) break; d = n; }
    Z3_params_dec_ref(Z, p);
    Z3_solver s = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, s);
    p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), queryMs * 2);
    Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
    realFree->clear();
    USet<Expr*> seen; freeInts(x, seen); freeInts(y, seen);
    for (auto& f : *realFree) {
        Z3_ast lo = realNum((double)f.first->lo), hi = realNum((double)f.first->hi);
        Z3_solver_assert(Z, s, Z3_mk_ge(Z, f.second, lo)); Z3_solver_assert(Z, s, Z3_mk_le(Z, f.second, hi));
    }
    Z3_ast t = realNum(tol), n = Z3_mk_unary_minus(Z, t);
    Z3_ast out[2] = {Z3_mk_gt(Z, d, t), Z3_mk_lt(Z, d, n)};
    Z3_solver_assert(Z, s, Z3_mk_or(Z, 2, out));
    fpMode = false;
    Z3_lbool r = check(s); SADD(assertQueries, 1);
    if (debugOn && r != Z3_L_FALSE) fprintf(stderr, "NOTCLOSE %d exact %d %.500s\n", (int)r, (int)realExact, Z3_ast_to_string(Z, d));
    if (r == Z3_L_FALSE) SADD(assertDischarged, 1);
    else if (r == Z3_L_TRUE && realExact) {
        // the nearest integers: a candidate, confirmed (or not) by running it
        Vec<u64> v = *inVals;
        Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
        for (auto& f : *realFree) {
            Z3_ast a; i64 num, den;
            if (f.first->c < v.size() && Z3_model_eval(Z, m, f.second, true, &a) && Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST && Z3_get_numeral_rational_int64(Z, a, (int64_t*)&num, (int64_t*)&den))
                v[f.first->c] = (u64)std::min<i64>(f.first->hi, std::max<i64>(f.first->lo, (i64)std::llround((double)num / (double)den)));
        }
        Z3_model_dec_ref(Z, m);
        emitViolation(*c.msg, v);
    } else SADD(assertUnknown, 1);
    Z3_solver_dec_ref(Z, s);
}

static bool provePoly(Expr* e) {
    if (e->op == O_CONST) return e->c != 0;
    if (e->op == O_AND && e->w == 1) return provePoly(e->k[0]) && provePoly(e->k[1]);
    if (e->op == O_ITE && e->w == 1 && isK(e->k[2]) && !e->k[2]->c) return provePoly(e->k[0]) && provePoly(e->k[1]);
    if (e->op != O_EQ || e->k[0]->fp || e->k[1]->fp || e->k[0]->w == 1) { if (debugOn) { fprintf(stderr, "NOPOLY "); dumpExpr(e, 5); fprintf(stderr, "\n"); } return false; }
    Z3_ast x[2] = {zreal(e->k[0]), zreal(e->k[1])};
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_bool(Z, p, Z3_mk_string_symbol(Z, "som"), true);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "som_blowup"), 1000000);
    Z3_ast d = Z3_mk_sub(Z, 2, x);      // one pass leaves nested negations in products, later ones collect them
    for (int pass = 0; pass < 6; ++pass) {
        Z3_ast n = Z3_simplify_ex(Z, d, p);
        if (n == d || Z3_get_ast_kind(Z, n) == Z3_NUMERAL_AST) { d = n; break; }
        d = n;
    }
    Z3_params_dec_ref(Z, p);
    if (debugOn && Z3_get_ast_kind(Z, d) != Z3_NUMERAL_AST) fprintf(stderr, "NOPOLY %.600s\n", Z3_ast_to_string(Z, d));
    if (Z3_get_ast_kind(Z, d) != Z3_NUMERAL_AST) return false;   // not an identity: left to the bit vectors
    Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_NRA")); Z3_solver_inc_ref(Z, s);
    Z3_solver_assert(Z, s, Z3_mk_not(Z, Z3_mk_eq(Z, d, Z3_mk_real(Z, 0, 1))));
    bool ok = check(s) == Z3_L_FALSE;
    Z3_solver_dec_ref(Z, s);
    return ok;
}

static void solvePath() {
    USet<Expr*> seen; fpMode = false;
    for (auto& c : *cons) if (c.kind != 4 && hasFp(c.c, seen)) { fpMode = true; break; }
    Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, fpMode ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(Z, s);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), queryMs);
    Z3_solver_set_params(Z, s, p);
    for (auto& in : *inputs) if (!in.raw) {
        if (in.lo == in.hi) continue;
        if (in.lo > smin_(in.w)) Z3_solver_assert(Z, s, Z3_mk_bvsge(Z, zbv(in.var), num((u64)in.lo & mask(in.w), in.w)));
        if (in.hi < smax_(in.w)) Z3_solver_assert(Z, s, Z3_mk_bvsle(Z, zbv(in.var), num((u64)in.hi & mask(in.w), in.w)));
    }
    u64 h = 14695981039346656037ull;
    for (unsigned i = 0; i < cons->size(); ++i) {
        Con& c = (*cons)[i];
        if (c.kind == 4) {
            if (i >= bound0) proveClose(c);
            h = (h ^ 79) * 1099511628211ull;
            continue;
        }
        if (c.kind == 3) {
            unsigned j = i; Vec<Z3_ast> neg;
            while (j < cons->size() && (*cons)[j].kind == 3) {
                if (j >= bound0) {
                    if ((*cons)[j].taken && provePoly((*cons)[j].c)) { SADD(assertQueries, 1); SADD(assertDischarged, 1); }
                    else { Z3_ast b = zbool((*cons)[j].c); neg.push_back((*cons)[j].taken ? Z3_mk_not(Z, b) : b); }
                }
                h = (h ^ 77) * 1099511628211ull;
                ++j;
            }
            if (!neg.empty()) {
                Z3_solver_push(Z, s);
                Z3_solver_assert(Z, s, neg.size() == 1 ? neg[0] : Z3_mk_or(Z, neg.size(), neg.data()));
                Z3_lbool r = check(s); SADD(assertQueries, 1);
                if (r == Z3_L_FALSE) SADD(assertDischarged, neg.size());
                else if (r == Z3_L_UNDEF) SADD(assertUnknown, neg.size());
                else {
                    Vec<u64> v; modelVals(s, v);
                    Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
                    Str msg = "?";
                    for (unsigned q = i; q < j; ++q) if (q >= bound0) {
                        Z3_ast r2; Z3_ast b = zbool((*cons)[q].c);
                        if (Z3_model_eval(Z, m, (*cons)[q].taken ? b : Z3_mk_not(Z, b), true, &r2) && Z3_get_bool_value(Z, r2) == Z3_L_FALSE) { msg = *(*cons)[q].msg; break; }
                    }
                    Z3_model_dec_ref(Z, m);
                    emitViolation(msg, v);
                }
                Z3_solver_pop(Z, s, 1);
            }
            i = j - 1;
            continue;
        }
        u64 hp = h;             // hash of the constraints before this one
        h = (h ^ (c.site * 2654435761u + c.taken + c.kind * 7 + 1)) * 1099511628211ull;
        Z3_ast b = zbool(c.c);
        if (c.flip && i >= bound0) {
            Z3_solver_push(Z, s);
            Z3_solver_assert(Z, s, c.taken ? Z3_mk_not(Z, b) : b);
            Z3_lbool r = check(s);
            if (r == Z3_L_TRUE) {
                SADD(flipsSat, 1);
                Vec<u64> v; modelVals(s, v);
                // hash which the new path must have after its constraint i
                bool conc = c.kind == 1;
                u8 nk = conc ? 0 : c.kind;
                hp = (hp ^ (c.site * 2654435761u + !c.taken + nk * 7 + 1)) * 1099511628211ull;
                char buf[64]; snprintf(buf, sizeof buf, "N %u %llu", i + 1, (unsigned long long)hp);
                Str o = buf; emitVals(o, v);
                Vec<std::pair<unsigned, u64>> ex;
                for (auto& x : cur->excl) if (x.first < i) ex.push_back(x);
                if (conc) ex.push_back({i, (*concVal)[i]});
                snprintf(buf, sizeof buf, " %zu", ex.size()); o += buf;
                for (auto& x : ex) { snprintf(buf, sizeof buf, " %u %llu", x.first, (unsigned long long)x.second); o += buf; }
                o += "\n"; outStr(o.data(), o.size());
            } else if (r == Z3_L_FALSE) SADD(flipsUnsat, 1);
            else SADD(flipsUnknown, 1);
            Z3_solver_pop(Z, s, 1);
        }
        Z3_solver_assert(Z, s, c.taken ? b : Z3_mk_not(Z, b));
    }
}

static void finishPath(char const* why) {
    if (finishing) _exit(0);
    finishing = true; g_active = false;
    alarm(0); signal(SIGVTALRM, SIG_DFL);
    itimerval off{}; setitimer(ITIMER_VIRTUAL, &off, nullptr);
    if (violMsg) emitViolation(Str(violMsg), *inVals);
    bool assumeFailed = !strcmp(why, "assume");
    if (!assumeFailed) SADD(paths, 1);
    SADD(branches, cons->size()); SADD(exprs, allExprs->size());
    if (cons->size() > S->maxCons) S->maxCons = cons->size();
    if (!assumeFailed && !violMsg) {
        Str o;
        for (auto& r : *reached) { o += "R "; o += r; o += "\n"; }
        for (auto& n : *notes) { char b[64]; snprintf(b, sizeof b, " %.17g\n", n.second); o += "T "; o += n.first; o += b; }
        o += "P"; emitVals(o, *inVals); o += " | ";
        for (auto& in : *inputs) { o += in.name; o += ","; }
        o += "\n";
        outStr(o.data(), o.size());
    }
    for (auto& x : *extUsed) { Str o = "X "; o += x.first; o += "\n"; outStr(o.data(), o.size()); }
    solvePath();
    outStr("END\n", 4);
    _exit(0);
}

// ---------------------------------------------------------------- driver
static SymHarness* harnesses;
SymHarness::SymHarness(char const* n, void (*f)()) : name(n), fn(f), next(harnesses) { harnesses = this; }

static void onCrash(int sig) {
    if (finishing) { outStr("E crash while solving\n", 22); _exit(1); }
    static char b[64]; snprintf(b, sizeof b, sig == SIGVTALRM ? "does not terminate (15 s of processor time)" : "crash: signal %d", sig);
    violMsg = b; finishPath(b);
}
template<class T> static T* raw() { return new (::malloc(sizeof(T))) T; }

static void onTerminate() {
    violMsg = "std::terminate called"; finishPath(violMsg);
}
static void child(SymHarness* h, Work& w, int fd) {
    outFd = fd; cur = &w; bound0 = w.bound; hash0 = w.hash; runHash = 14695981039346656037ull;
    *inVals = w.vals;
    static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
    itimerval tv{}; tv.it_value.tv_sec = 15; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    std::set_terminate(onTerminate);
    g_active = true;
    try { __sym_callee = nullptr; h->fn(); }
    catch (std::exception& e) {
        g_active = false;
        *violText = "uncaught exception: "; violText->append(e.what()); violMsg = violText->c_str(); finishPath(violMsg);
    } catch (...) { g_active = false; violMsg = "uncaught exception"; finishPath(violMsg); }
    finishPath("done");
}

struct Slot { pid_t pid; int fd; Str buf; };
static Str jstr(Str const& s) { Str o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += ' '; else o += c; } return o + "\""; }

int main(int argc, char** argv) {
    char const* name = nullptr; double limit = 60; unsigned jobs = 8; char const* out = nullptr; u64 maxPaths = ~0ull; unsigned maxViol = 10; u64 sampleEvery = 50;
    for (int i = 1; i < argc; ++i) {
        Str a = argv[i];
        if (a == "--time") limit = atof(argv[++i]); else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i]; else if (a == "--tier") tier = !strcmp(argv[++i], "thorough");
        else if (a == "--max-paths") maxPaths = atoll(argv[++i]); else if (a == "--query-ms") queryMs = atoi(argv[++i]);
        else if (a == "--debug") debugOn = true; else if (a == "--max-viol") maxViol = atoi(argv[++i]);
        else if (a == "--list") { for (auto* h = harnesses; h; h = h->next) printf("%s\n", h->name); return 0; }
        else name = argv[i];
    }
    arenaInit();
    table = raw<std::remove_pointer<decltype(table)>::type>(); allExprs = raw<Vec<Expr*>>();
    inVals = raw<Vec<u64>>(); inputs = raw<Vec<Input>>(); cons = raw<Vec<Con>>(); known = raw<std::remove_pointer<decltype(known)>::type>();
    notes = raw<Map<Str, double>>(); reached = raw<Vec<Str>>(); extUsed = raw<Map<Str, u64>>(); concVal = raw<std::remove_pointer<decltype(concVal)>::type>();
    pages = raw<std::remove_pointer<decltype(pages)>::type>(); realCache = raw<std::remove_pointer<decltype(realCache)>::type>(); realFpCache = raw<std::remove_pointer<decltype(realFpCache)>::type>(); realFree = raw<std::remove_pointer<decltype(realFree)>::type>(); fpCache = raw<std::remove_pointer<decltype(fpCache)>::type>();
    boolCache = raw<std::remove_pointer<decltype(boolCache)>::type>(); violText = raw<Str>();
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg);
    SymHarness* h = harnesses;
    while (h && name && strcmp(h->name, name)) h = h->next;
    if (!h) { fprintf(stderr, "no harness %s\n", name ? name : "?"); return 2; }
    { struct rlimit rl{}; rl.rlim_cur = rl.rlim_max = 64 << 20; (void)rl; }

    Vec<Work> queue; queue.push_back({{}, 0, 0, {}});
    Vec<Slot> slots;
    Map<Str, u64> reach; Map<Str, u64> ext; Map<Str, Str> viol; Map<Str, std::pair<double, double>> noteRange; Vec<Str> samples; u64 lost = 0, launched = 0; Vec<Str> paths;
    u64 t0 = nowUs(); bool timedOut = false; bool stop = false; u64 pathNo = 0;
    while ((!queue.empty() && !stop) || !slots.empty()) {
        while (!stop && !queue.empty() && slots.size() < jobs) {
            if ((nowUs() - t0) / 1e6 > limit || launched >= maxPaths) { timedOut = true; stop = true; break; }
            static Work w; w = queue.back(); queue.pop_back();
            int p[2]; if (pipe(p)) return 3;
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid < 0) { close(p[0]); close(p[1]); queue.push_back(w); if (slots.empty()) usleep(1000); break; }
            if (pid == 0) { close(p[0]); for (auto& s : slots) close(s.fd); child(h, w, p[1]); _exit(0); }
            close(p[1]); ++launched;
            slots.push_back({pid, p[0], Str()});
        }
        if (slots.empty()) break;
        Vec<pollfd> pf; for (auto& s : slots) pf.push_back({s.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        if ((nowUs() - t0) / 1e6 > limit + 20) { for (auto& s : slots) kill(s.pid, SIGKILL); timedOut = true; stop = true; }
        else if ((nowUs() - t0) / 1e6 > limit) { timedOut = timedOut || !queue.empty(); stop = true; }
        for (unsigned i = 0; i < slots.size(); ++i) {
            if (!(pf.size() > i && pf[i].revents)) continue;
            char b[65536]; ssize_t n = read(slots[i].fd, b, sizeof b);
            if (n > 0) { slots[i].buf.append(b, n); continue; }
            close(slots[i].fd); int stt; waitpid(slots[i].pid, &stt, 0);
            Str buf; buf.swap(slots[i].buf);
            slots.erase(slots.begin() + i); pf.erase(pf.begin() + i); --i;
            bool ended = false; size_t pos = 0;
            while (pos < buf.size()) {
                size_t e = buf.find('\n', pos); if (e == Str::npos) break;
                Str l = buf.substr(pos, e - pos); pos = e + 1;
                char* c = &l[0];
                if (l == "END") ended = true;
                else if (l[0] == 'N') {
                    Work w; c += 1; w.bound = strtoul(c, &c, 10); w.hash = strtoull(c, &c, 10);
                    size_t k = strtoull(c, &c, 10); while (k--) w.vals.push_back(strtoll(c, &c, 10));
                    k = strtoull(c, &c, 10); while (k--) { unsigned x = strtoul(c, &c, 10); u64 y = strtoull(c, &c, 10); w.excl.push_back({x, y}); }
                    queue.push_back(w);
                } else if (l[0] == 'V') {
                    size_t bar = l.rfind(" | "); Str msg = l.substr(bar + 3); Str rest = l.substr(2, bar - 2);
                    if (!viol.count(msg)) viol[msg] = rest;
                    if (viol.size() >= maxViol) stop = true;
                } else if (l[0] == 'R') ++reach[l.substr(2)];
                else if (l[0] == 'X') ++ext[l.substr(2)];
                else if (l[0] == 'T') { size_t sp = l.rfind(' '); double v = atof(l.c_str() + sp); Str k = l.substr(2, sp - 2);
                    auto it = noteRange.find(k); if (it == noteRange.end()) noteRange[k] = {v, v}; else { it->second.first = std::min(it->second.first, v); it->second.second = std::max(it->second.second, v); } }
                else if (l[0] == 'P') { if (pathNo++ % sampleEvery == 0 && samples.size() < 200) samples.push_back(l.substr(2)); }
                else if (l[0] == 'E') ++lost;
            }
            if (!ended) ++lost;
        }
    }
    for (auto& s : slots) { kill(s.pid, SIGKILL); close(s.fd); waitpid(s.pid, nullptr, 0); }
    double wall = (nowUs() - t0) / 1e6;
    bool complete = !timedOut && !stop && queue.empty() && !lost && !S->flipsUnknown && !S->assertUnknown && !S->mismatches && !S->divergences;
    FILE* f = out ? fopen(out, "w") : stdout;
    fprintf(f, "{\"harness\":\"%s\",\"complete\":%s,\"paths\":%llu,\"left\":%zu,\"lost\":%llu", h->name, complete ? "true" : "false", (unsigned long long)S->paths, queue.size(), (unsigned long long)lost);
#define J(x) fprintf(f, ",\"%s\":%llu", #x, (unsigned long long)S->x)
    J(flipsSat); J(flipsUnsat); J(flipsUnknown); J(assertQueries); J(assertDischarged); J(assertConcrete); J(assertUnknown); J(mismatches); J(divergences);
    J(stale); J(concretised); J(branches); J(infeasibleAssume); J(fpQueries); J(solverMicros); J(exprs); J(maxCons);
    fprintf(f, ",\"wall\":%.3f,\"reached\":{", wall);
    { bool first = true; for (auto& r : reach) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(r.first).c_str(), (unsigned long long)r.second); first = false; } }
    fprintf(f, "},\"externals\":{");
    { bool first = true; for (auto& r : ext) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(r.first).c_str(), (unsigned long long)r.second); first = false; } }
    fprintf(f, "},\"notes\":{");
    { bool first = true; for (auto& r : noteRange) { fprintf(f, "%s%s:[%.17g,%.17g]", first ? "" : ",", jstr(r.first).c_str(), r.second.first, r.second.second); first = false; } }
    fprintf(f, "},\"violations\":[");
    { bool first = true; for (auto& r : viol) { fprintf(f, "%s{\"msg\":%s,\"in\":%s}", first ? "" : ",", jstr(r.first).c_str(), jstr(r.second).c_str()); first = false; } }
    fprintf(f, "],\"samples\":[");
    { bool first = true; for (auto& r : samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(r).c_str()); first = false; } }
    fprintf(f, "],\"functions\":[");
    { bool first = true; for (auto* n : S->fns) if (n && (strstr(n, "3cpb"))) { fprintf(f, "%s\"%s\"", first ? "" : ",", n); first = false; } }
    fprintf(f, "]}\n");
    if (out) fclose(f);
    return 0;
}
