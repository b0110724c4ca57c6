// symx: a path-wise symbolic executor for LLVM 18 IR, deciding every branch,
// memory access and assertion with Z3 (QF_BV).
//
//   symx MODULE.bc --out RESULT.json [--jobs N] [--max-time S] [--max-steps N]
//        [--samples N] [--no-undef]
//
// Entry point: `void harness_body(void)` of the module.  Environment functions the
// module may call are listed in callExternal().
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <iostream>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using namespace llvm;
typedef std::chrono::steady_clock Clock;

// ---------------------------------------------------------------- expressions

enum Op : uint8_t {
    VAR, CONST_, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND_, OR_, XOR_, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT, UMULO, SMULO
};

struct Node {
    Op op;
    uint8_t undef;     // depends on uninitialised memory
    uint16_t w;        // width in bits, 1..64
    uint32_t lo;       // EXTRACT low bit; VAR index
    uint64_t c;        // CONST_
    Node *k[3];
    uint64_t stamp = 0, ev = 0;
    Z3_ast z = nullptr;
    std::vector<uint32_t> *sup = nullptr;   // variables it depends on (sorted), lazily
    std::vector<std::pair<Node *, uint8_t>> *bits = nullptr;    // where each bit comes from, lazily
};

static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static int64_t sx(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ULL << (w - 1);
    return (int64_t)(((v & maskw(w)) ^ m) - m);
}

struct Key {
    Op op; uint16_t w; uint32_t lo; uint64_t c; Node *a, *b, *d;
    bool operator==(const Key &o) const {
        return op == o.op && w == o.w && lo == o.lo && c == o.c && a == o.a && b == o.b && d == o.d;
    }
};
struct KeyHash {
    size_t operator()(const Key &k) const {
        uint64_t h = k.op * 0x9E3779B97F4A7C15ULL;
        auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); };
        mix(k.w); mix(k.lo); mix(k.c); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.d);
        return h;
    }
};
static std::unordered_map<Key, Node *, KeyHash> interned;

static Node *intern(Op op, unsigned w, Node *a = nullptr, Node *b = nullptr, Node *d = nullptr,
                    uint32_t lo = 0, uint64_t c = 0) {
    Key key{op, (uint16_t)w, lo, c, a, b, d};
    auto it = interned.find(key);
    if (it != interned.end()) return it->second;
    Node *n = new Node();
    n->op = op; n->w = w; n->lo = lo; n->c = c; n->k[0] = a; n->k[1] = b; n->k[2] = d;
    n->undef = (a && a->undef) || (b && b->undef) || (d && d->undef);
    interned.emplace(key, n);
    return n;
}

struct Val {             // a value of width w: concrete c, or symbolic n
    Node *n = nullptr;
    uint64_t c = 0;
    uint32_t w = 0;
    bool conc() const { return n == nullptr; }
};
static Val cv(uint64_t c, unsigned w) { Val v; v.c = c & maskw(w); v.w = w; return v; }
static Val nv(Node *n) {
    if (n->op == CONST_) return cv(n->c, n->w);
    Val v; v.n = n; v.w = n->w; return v;
}
static Node *tn(const Val &v) {
    if (v.n) return v.n;
    return intern(CONST_, v.w, nullptr, nullptr, nullptr, 0, v.c);
}

static uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w, bool &ok) {
    ok = true;
    uint64_t m = maskw(w);
    switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: if (!b) { ok = false; return m; } return a / b;
    case UREM: if (!b) { ok = false; return a; } return a % b;
    case SDIV: { if (!b) { ok = false; return 0; } int64_t x = sx(a, w), y = sx(b, w);
                 if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case SREM: { if (!b) { ok = false; return a; } int64_t x = sx(a, w), y = sx(b, w);
                 if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case AND_: return a & b;
    case OR_: return a | b;
    case XOR_: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: { int64_t x = sx(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sx(a, w) < sx(b, w);
    case SLE: return sx(a, w) <= sx(b, w);
    case UMULO: return ((unsigned __int128)a * b) > m;
    case SMULO: { __int128 p = (__int128)sx(a, w) * sx(b, w);
                  __int128 hi = ((__int128)1 << (w - 1)) - 1, lo = -((__int128)1 << (w - 1));
                  return p > hi || p < lo; }
    default: abort();
    }
}

static Val mkExtract(Val a, unsigned lo, unsigned w);
static Val mkNot(Val a);
static Val mkBin(Op op, Val a, Val b);

static bool isCmp(Op op) { return op >= EQ && op <= SLE; }

// Upper bound on the unsigned value, cheap.
static uint64_t ubound(Node *n) {
    switch (n->op) {
    case CONST_: return n->c;
    case ZEXT: return ubound(n->k[0]);
    case AND_: return std::min(ubound(n->k[0]), ubound(n->k[1]));
    case LSHR: if (n->k[1]->op == CONST_ && n->k[1]->c < 64) return ubound(n->k[0]) >> n->k[1]->c; break;
    case UREM: if (n->k[1]->op == CONST_ && n->k[1]->c) return n->k[1]->c - 1; break;
    case ITE: return std::max(ubound(n->k[1]), ubound(n->k[2]));
    case OR_: case XOR_: {
        uint64_t u = ubound(n->k[0]) | ubound(n->k[1]);
        u |= u >> 1; u |= u >> 2; u |= u >> 4; u |= u >> 8; u |= u >> 16; u |= u >> 32;
        return u & maskw(n->w);
    }
    case SHL: if (n->k[1]->op == CONST_ && n->k[1]->c < n->w) {
        uint64_t u = ubound(n->k[0]);
        if (u <= (maskw(n->w) >> n->k[1]->c)) return u << n->k[1]->c;
        }
        break;
    case ADD: {
        uint64_t x = ubound(n->k[0]), y = ubound(n->k[1]);
        if (x <= maskw(n->w) - y) return x + y;
        break;
    }
    case CONCAT: return n->k[0]->w + n->k[1]->w <= 64
        ? (ubound(n->k[0]) << n->k[1]->w) | maskw(n->k[1]->w) : maskw(n->w);
    default: break;
    }
    return maskw(n->w);
}

// Bit provenance: bit i of a node is a constant (first == null) or a bit of
// another node that is no mere rearrangement of bits.
typedef std::pair<Node *, uint8_t> Bit;
typedef std::vector<Bit> Bits;

static const Bits &bitsOf(Node *n) {
    if (n->bits) return *n->bits;
    Bits *r = new Bits(n->w);
    auto self = [&](unsigned i) { return Bit(n, (uint8_t)i); };
    auto conc = [](int v) { return Bit(nullptr, (uint8_t)v); };
    unsigned w = n->w;
    switch (n->op) {
    case CONST_: for (unsigned i = 0; i < w; i++) (*r)[i] = conc(n->c >> i & 1); break;
    case ZEXT: case SEXT: {
        const Bits &a = bitsOf(n->k[0]);
        for (unsigned i = 0; i < w; i++)
            (*r)[i] = i < a.size() ? a[i] : n->op == ZEXT ? conc(0) : a.back();
        break;
    }
    case EXTRACT: { const Bits &a = bitsOf(n->k[0]); for (unsigned i = 0; i < w; i++) (*r)[i] = a[n->lo + i]; break; }
    case CONCAT: {
        const Bits &h = bitsOf(n->k[0]), &l = bitsOf(n->k[1]);
        for (unsigned i = 0; i < w; i++) (*r)[i] = i < l.size() ? l[i] : h[i - l.size()];
        break;
    }
    case SHL: case LSHR:
        if (n->k[1]->op == CONST_ && n->k[1]->c < w) {
            const Bits &a = bitsOf(n->k[0]);
            unsigned k = (unsigned)n->k[1]->c;
            for (unsigned i = 0; i < w; i++)
                (*r)[i] = n->op == SHL ? (i >= k ? a[i - k] : conc(0)) : (i + k < w ? a[i + k] : conc(0));
            break;
        }
        for (unsigned i = 0; i < w; i++) (*r)[i] = self(i);
        break;
    case AND_: case OR_: case XOR_: {
        const Bits &a = bitsOf(n->k[0]), &b = bitsOf(n->k[1]);
        for (unsigned i = 0; i < w; i++) {
            Bit x = a[i], y = b[i], o = self(i);
            if (x.first && !y.first) std::swap(x, y);
            if (!x.first) {
                if (n->op == AND_) o = x.second ? y : conc(0);
                else if (n->op == OR_) o = x.second ? conc(1) : y;
                else if (!x.second) o = y;
                else if (!y.first) o = conc(!y.second);
            } else if (x == y) o = n->op == XOR_ ? conc(0) : x;
            (*r)[i] = o;
        }
        break;
    }
    case ITE: {
        const Bits &c = bitsOf(n->k[0]), &a = bitsOf(n->k[1]), &b = bitsOf(n->k[2]);
        for (unsigned i = 0; i < w; i++) {
            if (a[i] == b[i]) (*r)[i] = a[i];
            else if (!a[i].first && !b[i].first && a[i].second) (*r)[i] = c[0];
            else (*r)[i] = self(i);
        }
        break;
    }
    default: for (unsigned i = 0; i < w; i++) (*r)[i] = self(i);
    }
    n->bits = r;
    return *r;
}

// The simplest form of a rearrangement of bits.
static Val norm(Val v) {
    if (v.conc() || v.n->op == VAR) return v;
    const Bits &b = bitsOf(v.n);
    unsigned w = v.w, k = 0;
    if (!b[0].first) {                  // possibly all constant
        uint64_t c = 0;
        for (unsigned i = 0; i < w; i++) { if (b[i].first) return v; c |= (uint64_t)b[i].second << i; }
        return cv(c, w);
    }
    if (b[0].first == v.n) return v;
    while (k < w && b[k].first == b[0].first && b[k].second == b[0].second + k) k++;
    for (unsigned i = k; i < w; i++) if (b[i].first || b[i].second) return v;
    Node *src = b[0].first;
    if (b[0].second == 0 && k == src->w && k == w) return nv(src);
    Node *ex = b[0].second == 0 && k == src->w ? src : intern(EXTRACT, k, src, nullptr, nullptr, b[0].second);
    return nv(k == w ? ex : intern(ZEXT, w, ex));
}

static Val mkIte(Val c, Val a, Val b) {
    if (c.conc()) return c.c ? a : b;
    if (a.conc() && b.conc() && a.c == b.c) return a;
    if (!a.conc() && a.n == b.n) return a;
    if (a.w == 1 && a.conc() && b.conc()) return a.c ? c : mkNot(c);
    return norm(nv(intern(ITE, a.w, c.n, tn(a), tn(b))));
}

static Val mkBin(Op op, Val a, Val b) {
    unsigned w = a.w, rw = (isCmp(op) || op == UMULO || op == SMULO) ? 1 : w;
    if (a.conc() && b.conc()) {
        bool ok; return cv(foldBin(op, a.c, b.c, w, ok), rw);
    }
    // constants to the right for commutative operations
    if (a.conc() && (op == ADD || op == MUL || op == AND_ || op == OR_ || op == XOR_ || op == EQ || op == UMULO || op == SMULO)) std::swap(a, b);
    if (b.conc()) {
        uint64_t c = b.c;
        switch (op) {
        case ADD: case SUB: case OR_: case XOR_: case SHL: case LSHR: case ASHR:
            if (c == 0) return a;
            break;
        default: break;
        }
        if (op == AND_) { if (c == 0) return cv(0, w); if (c == maskw(w)) return a;
            if ((c & (c + 1)) == 0 && a.n) {         // low mask
                unsigned bits = __builtin_popcountll(c);
                if (a.n->op == ZEXT && a.n->k[0]->w <= bits) return a;
            } }
        if (op == OR_ && c == maskw(w)) return b;
        if (op == MUL) {
            if (c == 0) return b;
            if (c == 1) return a;
            if (c == maskw(w)) return mkBin(SUB, cv(0, w), a);
            if ((c & (c - 1)) == 0) return mkBin(SHL, a, cv(__builtin_ctzll(c), w));
        }
        if (op == UMULO) { if (c == 0) return cv(0, 1); return mkBin(ULT, cv(maskw(w) / c, w), a); }
        if (op == SMULO) {
            if (c == 0 || c == 1) return cv(0, 1);
            int64_t sc = sx(c, w), mx = sx(maskw(w) >> 1, w), mn = -mx - 1;
            int64_t lo, hi;           // lo <= x <= hi is safe
            if (sc == -1) { lo = -mx; hi = mx; }
            else if (sc > 0) { lo = mn / sc; hi = mx / sc; }
            else { lo = mx / sc; hi = mn / sc; }
            return mkBin(OR_, mkBin(SLT, a, cv((uint64_t)lo, w)), mkBin(SLT, cv((uint64_t)hi, w), a));
        }
        if (op == UDIV && (c & (c - 1)) == 0 && c) return mkBin(LSHR, a, cv(__builtin_ctzll(c), w));
        if (op == UREM && (c & (c - 1)) == 0 && c) return mkBin(AND_, a, cv(c - 1, w));
        if (op == UDIV && c == 1) return a;
        if (op == SUB) { b = cv(0 - c, w); op = ADD; c = b.c; }
        if (op == ADD && a.n->op == ADD && a.n->k[1]->op == CONST_)
            return mkBin(ADD, nv(a.n->k[0]), cv(a.n->k[1]->c + c, w));
        if (op == XOR_ && w == 1) {                     // not
            if (a.n->op == XOR_ && a.n->k[1]->op == CONST_) return nv(a.n->k[0]);
        }
        if (op == EQ) {
            if (w == 1) return c ? a : mkNot(a);
            Node *n = a.n;
            if (n->op == ZEXT) {
                if (c > maskw(n->k[0]->w)) return cv(0, 1);
                return mkBin(EQ, nv(n->k[0]), cv(c, n->k[0]->w));
            }
            if (n->op == SEXT) {
                unsigned iw = n->k[0]->w;
                if ((uint64_t)(sx(c, iw)) != (uint64_t)sx(c, w)) return cv(0, 1);
                return mkBin(EQ, nv(n->k[0]), cv(c, iw));
            }
            if (n->op == ITE && n->k[1]->op == CONST_ && n->k[2]->op == CONST_) {
                bool x = n->k[1]->c == c, y = n->k[2]->c == c;
                if (x && y) return cv(1, 1);
                if (!x && !y) return cv(0, 1);
                return x ? nv(n->k[0]) : mkNot(nv(n->k[0]));
            }
            if (n->op == ADD && n->k[1]->op == CONST_)
                return mkBin(EQ, nv(n->k[0]), cv(c - n->k[1]->c, w));
            if (c > ubound(n)) return cv(0, 1);
            if (n->op == AND_ || n->op == OR_ || n->op == SHL || n->op == CONCAT || n->op == LSHR || n->op == XOR_) {
                const Bits &bs = bitsOf(n);
                Bit one(nullptr, 0);
                unsigned syms = 0, at = 0;
                for (unsigned i = 0; i < w; i++) {
                    if (bs[i].first) { syms++; one = bs[i]; at = i; }
                    else if (bs[i].second != (c >> i & 1)) return cv(0, 1);
                }
                if (syms == 0) return cv(1, 1);
                if (syms == 1 && one.first != n) {
                    Val bit = mkExtract(nv(one.first), one.second, 1);
                    return c >> at & 1 ? bit : mkNot(bit);
                }
            }
        }
        if (op == ULT) {
            if (c == 0) return cv(0, 1);
            if (ubound(a.n) < c) return cv(1, 1);
            if (a.n->op == ZEXT && c <= maskw(a.n->k[0]->w)) return mkBin(ULT, nv(a.n->k[0]), cv(c, a.n->k[0]->w));
        }
        if (op == ULE) { if (ubound(a.n) <= c) return cv(1, 1);
            if (a.n->op == ZEXT && c <= maskw(a.n->k[0]->w)) return mkBin(ULE, nv(a.n->k[0]), cv(c, a.n->k[0]->w)); }
        if (op == SLT || op == SLE) {
            uint64_t half = 1ULL << (w - 1);
            if (ubound(a.n) < half) {                   // a >= 0
                if (c >= half) return cv(0, 1);
                return mkBin(op == SLT ? ULT : ULE, a, b);
            }
        }
    }
    if (a.conc() && !b.conc()) {
        uint64_t c = a.c;
        if (op == ULT) { if (ubound(b.n) <= c) return cv(0, 1);
            if (b.n->op == ZEXT && c <= maskw(b.n->k[0]->w)) return mkBin(ULT, cv(c, b.n->k[0]->w), nv(b.n->k[0])); }
        if (op == ULE) { if (c == 0) return cv(1, 1); if (ubound(b.n) < c) return cv(0, 1);
            if (b.n->op == ZEXT && c <= maskw(b.n->k[0]->w)) return mkBin(ULE, cv(c, b.n->k[0]->w), nv(b.n->k[0])); }
        if ((op == SLT || op == SLE) && ubound(b.n) < (1ULL << (w - 1))) {
            if (c >= (1ULL << (w - 1))) return cv(1, 1);
            return mkBin(op == SLT ? ULT : ULE, a, b);
        }
        if (op == SHL && c == 0) return a;
        if (op == LSHR && c == 0) return a;
        if (op == UDIV && c == 0) return a;
    }
    if (a.n && a.n == b.n) {
        switch (op) {
        case EQ: case ULE: case SLE: return cv(1, 1);
        case ULT: case SLT: return cv(0, 1);
        case SUB: case XOR_: return cv(0, w);
        case AND_: case OR_: return a;
        default: break;
        }
    }
    if (a.n && b.n && (op == ADD || op == MUL || op == AND_ || op == OR_ || op == XOR_ || op == EQ) && a.n > b.n)
        std::swap(a, b);
    Val r = nv(intern(op, rw, tn(a), tn(b)));
    if (op == AND_ || op == OR_ || op == XOR_ || op == SHL || op == LSHR) return norm(r);
    return r;
}
static Val mkNot(Val a) {
    if (a.conc()) return cv(!a.c, 1);
    if (a.n->op == ULT) return mkBin(ULE, nv(a.n->k[1]), nv(a.n->k[0]));
    if (a.n->op == ULE) return mkBin(ULT, nv(a.n->k[1]), nv(a.n->k[0]));
    if (a.n->op == SLT) return mkBin(SLE, nv(a.n->k[1]), nv(a.n->k[0]));
    if (a.n->op == SLE) return mkBin(SLT, nv(a.n->k[1]), nv(a.n->k[0]));
    return mkBin(XOR_, a, cv(1, 1));
}
static Val mkZext(Val a, unsigned w) {
    if (a.w == w) return a;
    if (a.conc()) return cv(a.c, w);
    if (a.n->op == ZEXT) return mkZext(nv(a.n->k[0]), w);
    if (a.n->op == ITE && a.n->k[1]->op == CONST_ && a.n->k[2]->op == CONST_)
        return mkIte(nv(a.n->k[0]), cv(a.n->k[1]->c, w), cv(a.n->k[2]->c, w));
    return nv(intern(ZEXT, w, a.n));
}
static Val mkSext(Val a, unsigned w) {
    if (a.w == w) return a;
    if (a.conc()) return cv((uint64_t)sx(a.c, a.w), w);
    if (a.n->op == ZEXT) return mkZext(nv(a.n->k[0]), w);
    if (ubound(a.n) < (1ULL << (a.w - 1))) return mkZext(a, w);
    if (a.n->op == SEXT) return mkSext(nv(a.n->k[0]), w);
    return nv(intern(SEXT, w, a.n));
}
static Val mkExtract(Val a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a.w) return a;
    if (a.conc()) return cv(a.c >> lo, w);
    Node *n = a.n;
    if (n->op == EXTRACT) return mkExtract(nv(n->k[0]), n->lo + lo, w);
    if (n->op == ZEXT || n->op == SEXT) {
        unsigned iw = n->k[0]->w;
        if (lo + w <= iw) return mkExtract(nv(n->k[0]), lo, w);
        if (n->op == ZEXT) {
            if (lo >= iw) return cv(0, w);
            return mkZext(mkExtract(nv(n->k[0]), lo, iw - lo), w);
        }
    }
    if (n->op == CONCAT) {
        unsigned lw = n->k[1]->w;
        if (lo + w <= lw) return mkExtract(nv(n->k[1]), lo, w);
        if (lo >= lw) return mkExtract(nv(n->k[0]), lo - lw, w);
    }
    if (lo == 0 && (n->op == ADD || n->op == SUB || n->op == MUL || n->op == AND_ || n->op == OR_ || n->op == XOR_))
        return mkBin(n->op, mkExtract(nv(n->k[0]), 0, w), mkExtract(nv(n->k[1]), 0, w));
    if (n->op == AND_ || n->op == OR_ || n->op == XOR_)
        return mkBin(n->op, mkExtract(nv(n->k[0]), lo, w), mkExtract(nv(n->k[1]), lo, w));
    if (n->op == ITE && (n->k[1]->op == CONST_ || n->k[2]->op == CONST_))
        return mkIte(nv(n->k[0]), mkExtract(nv(n->k[1]), lo, w), mkExtract(nv(n->k[2]), lo, w));
    if (n->op == LSHR && n->k[1]->op == CONST_ && n->k[1]->c + lo + w <= n->w)
        return mkExtract(nv(n->k[0]), lo + n->k[1]->c, w);
    return norm(nv(intern(EXTRACT, w, n, nullptr, nullptr, lo)));
}
// For storing to memory: keeps the stored expression whole, so that a later load gets it back.
static Val mkExtractRaw(Val a, unsigned lo, unsigned w) {
    if (a.conc() || (lo == 0 && w == a.w)) return mkExtract(a, lo, w);
    Op op = a.n->op;
    if (op == EXTRACT || op == CONCAT || op == ZEXT) return mkExtract(a, lo, w);
    return nv(intern(EXTRACT, w, a.n, nullptr, nullptr, lo));
}
static Val mkConcat(Val hi, Val lo) {
    unsigned w = hi.w + lo.w;
    if (hi.conc() && lo.conc()) return cv((hi.c << lo.w) | lo.c, w);
    if (hi.conc() && hi.c == 0) return mkZext(lo, w);
    auto base = [](const Val &v, Node *&b, unsigned &l) {
        if (v.n && v.n->op == EXTRACT) { b = v.n->k[0]; l = v.n->lo; } else { b = v.n; l = 0; }
    };
    if (hi.n && lo.n) {
        Node *hb, *lb; unsigned hl, ll;
        base(hi, hb, hl); base(lo, lb, ll);
        if (hb == lb && hl == ll + lo.w && hi.n->op == EXTRACT) return mkExtractRaw(nv(hb), ll, w);
    }
    if (lo.n && lo.n->op == ZEXT && false) {}
    return nv(intern(CONCAT, w, tn(hi), tn(lo)));
}

// ---------------------------------------------------------------- models and solver

static z3::context *zc;
static z3::solver *solver;
static std::vector<Node *> solverPath;
static uint64_t nQueries, nSat, nUnsat, nUnknown;
static double solverTime;

struct Model { std::vector<uint8_t> v; };
static std::vector<Node *> vars;     // all 8-bit variables, index = Node::lo
static uint64_t evalStamp = 1;

static Node *varNode(uint32_t idx, bool undef) {
    while (vars.size() <= idx) {
        Node *n = intern(VAR, 8, nullptr, nullptr, nullptr, (uint32_t)vars.size(), 0);
        vars.push_back(n);
    }
    if (undef) vars[idx]->undef = 1;
    return vars[idx];
}

static uint64_t evalN(Node *n, const Model &m) {
    if (n->op == CONST_) return n->c;
    if (n->stamp == evalStamp) return n->ev;
    uint64_t r = 0;
    switch (n->op) {
    case VAR: r = n->lo < m.v.size() ? m.v[n->lo] : 0; break;
    case ITE: r = evalN(n->k[0], m) ? evalN(n->k[1], m) : evalN(n->k[2], m); break;
    case ZEXT: r = evalN(n->k[0], m); break;
    case SEXT: r = (uint64_t)sx(evalN(n->k[0], m), n->k[0]->w) & maskw(n->w); break;
    case EXTRACT: r = (evalN(n->k[0], m) >> n->lo) & maskw(n->w); break;
    case CONCAT: r = (evalN(n->k[0], m) << n->k[1]->w) | evalN(n->k[1], m); break;
    default: {
        bool ok;
        r = foldBin(n->op, evalN(n->k[0], m), evalN(n->k[1], m), n->k[0]->w, ok);
        // SMT-LIB division by zero
        if (!ok && n->op == SDIV) r = sx(evalN(n->k[0], m), n->w) < 0 ? 1 : maskw(n->w);
    }
    }
    n->stamp = evalStamp; n->ev = r;
    return r;
}

static const std::vector<uint32_t> &supportOf(Node *n) {
    if (n->sup) return *n->sup;
    auto *r = new std::vector<uint32_t>();
    if (n->op == VAR) r->push_back(n->lo);
    for (int i = 0; i < 3; i++) if (n->k[i]) {
        auto &q = supportOf(n->k[i]);
        std::vector<uint32_t> t;
        std::set_union(r->begin(), r->end(), q.begin(), q.end(), std::back_inserter(t));
        r->swap(t);
    }
    n->sup = r;
    return *r;
}
static Z3_ast zof(Node *n) {
    if (n->z) return n->z;
    Z3_context c = *zc;
    Z3_ast r;
    auto b2v = [&](Z3_ast b) {
        Z3_inc_ref(c, b);
        Z3_sort s1 = Z3_mk_bv_sort(c, 1);
        return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1));
    };
    auto A = [&]() { return zof(n->k[0]); };
    auto B = [&]() { return zof(n->k[1]); };
    switch (n->op) {
    case VAR: r = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)n->lo), Z3_mk_bv_sort(c, 8)); break;
    case CONST_: r = Z3_mk_unsigned_int64(c, n->c, Z3_mk_bv_sort(c, n->w)); break;
    case ADD: r = Z3_mk_bvadd(c, A(), B()); break;
    case SUB: r = Z3_mk_bvsub(c, A(), B()); break;
    case MUL: r = Z3_mk_bvmul(c, A(), B()); break;
    case UDIV: r = Z3_mk_bvudiv(c, A(), B()); break;
    case SDIV: r = Z3_mk_bvsdiv(c, A(), B()); break;
    case UREM: r = Z3_mk_bvurem(c, A(), B()); break;
    case SREM: r = Z3_mk_bvsrem(c, A(), B()); break;
    case AND_: r = Z3_mk_bvand(c, A(), B()); break;
    case OR_: r = Z3_mk_bvor(c, A(), B()); break;
    case XOR_: r = Z3_mk_bvxor(c, A(), B()); break;
    case SHL: r = Z3_mk_bvshl(c, A(), B()); break;
    case LSHR: r = Z3_mk_bvlshr(c, A(), B()); break;
    case ASHR: r = Z3_mk_bvashr(c, A(), B()); break;
    case EQ: r = b2v(Z3_mk_eq(c, A(), B())); break;
    case ULT: r = b2v(Z3_mk_bvult(c, A(), B())); break;
    case ULE: r = b2v(Z3_mk_bvule(c, A(), B())); break;
    case SLT: r = b2v(Z3_mk_bvslt(c, A(), B())); break;
    case SLE: r = b2v(Z3_mk_bvsle(c, A(), B())); break;
    case UMULO: { Z3_ast ok = Z3_mk_bvmul_no_overflow(c, A(), B(), false); Z3_inc_ref(c, ok);
                  r = b2v(Z3_mk_not(c, ok)); break; }
    case SMULO: { Z3_ast p = Z3_mk_bvmul_no_overflow(c, A(), B(), true); Z3_inc_ref(c, p);
                  Z3_ast q = Z3_mk_bvmul_no_underflow(c, A(), B()); Z3_inc_ref(c, q);
                  Z3_ast both[2] = {p, q}; Z3_ast an = Z3_mk_and(c, 2, both); Z3_inc_ref(c, an);
                  r = b2v(Z3_mk_not(c, an)); break; }
    case ITE: { Z3_ast one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)); Z3_inc_ref(c, one);
                Z3_ast cond = Z3_mk_eq(c, A(), one); Z3_inc_ref(c, cond);
                Z3_ast t = B(); Z3_ast e = zof(n->k[2]);
                r = Z3_mk_ite(c, cond, t, e); break; }
    case ZEXT: r = Z3_mk_zero_ext(c, n->w - n->k[0]->w, A()); break;
    case SEXT: r = Z3_mk_sign_ext(c, n->w - n->k[0]->w, A()); break;
    case EXTRACT: r = Z3_mk_extract(c, n->lo + n->w - 1, n->lo, A()); break;
    case CONCAT: r = Z3_mk_concat(c, A(), B()); break;
    default: abort();
    }
    Z3_inc_ref(c, r);
    n->z = r;
    return r;
}
static z3::expr zbool(Node *n) {
    return z3::expr(*zc, zof(n)) == zc->bv_val(1, 1);
}

static void die(const std::string &msg);

// Is path AND cond satisfiable?  On sat fills m.
enum Res { SAT, UNSAT };
struct PathEnd { };
static bool exhausted = true;

static Res query(const std::vector<Node *> &path, Node *cond, Model *m) {
    size_t common = 0;
    while (common < path.size() && common < solverPath.size() && path[common] == solverPath[common]) common++;
    if (common < solverPath.size()) {
        solver->pop((unsigned)(solverPath.size() - common));
        solverPath.resize(common);
    }
    while (solverPath.size() < path.size()) {
        solver->push();
        solver->add(zbool(path[solverPath.size()]));
        solverPath.push_back(path[solverPath.size()]);
    }
    auto t0 = Clock::now();
    solver->push();
    solver->add(zbool(cond));
    z3::check_result r = solver->check();
    nQueries++;
    if (getenv("SYMX_SLOW")) { double d = std::chrono::duration<double>(Clock::now() - t0).count();
        if (d > 0.004) std::cerr << d << " path " << path.size() << " cond " << zbool(cond).simplify() << "\n"; }
    if (r == z3::unknown) { nUnknown++; solver->pop(); exhausted = false; throw PathEnd(); }
    if (r == z3::sat && m) {
        z3::model zm = solver->get_model();
        m->v.resize(vars.size(), 0);
        for (unsigned i = 0; i < zm.num_consts(); i++) {
            z3::func_decl d = zm.get_const_decl(i);
            if (d.name().kind() != Z3_INT_SYMBOL) continue;
            uint64_t v = 0;
            z3::expr e = zm.get_const_interp(d);
            if (e.is_numeral_u64(v)) m->v[d.name().to_int()] = (uint8_t)v;
        }
    }
    solver->pop();
    solverTime += std::chrono::duration<double>(Clock::now() - t0).count();
    if (r == z3::sat) { nSat++; return SAT; }
    nUnsat++;
    return UNSAT;
}

// ---------------------------------------------------------------- state

struct Byte { Node *n = nullptr; uint8_t c = 0; bool undef = true; };

struct Obj {
    uint32_t id; uint64_t size; uint8_t kind;    // 0 global, 1 stack, 2 heap
    bool ro = false;
    std::vector<Byte> b;
};
typedef std::shared_ptr<Obj> ObjP;
static uint64_t baseOf(uint32_t id) { return (uint64_t)id << 32; }

struct Frame {
    Function *f = nullptr;
    BasicBlock *bb = nullptr, *prev = nullptr;
    BasicBlock::iterator pc;
    std::vector<Val> regs;
    std::map<unsigned, std::vector<Val>> agg;
    std::vector<uint32_t> allocas;
    CallBase *call = nullptr;      // the caller's call instruction
};

struct State {
    std::vector<Frame> fr;
    std::vector<std::pair<uint32_t, ObjP>> mem;     // sorted by id
    uint32_t nextId = 0;
    std::vector<Node *> path;
    std::shared_ptr<Model> model;
    uint32_t nIn = 0;                               // input bytes drawn so far
    std::vector<uint32_t> inVars;                   // input stream: var indices
    std::vector<Val> obs;
    uint64_t steps = 0;
    uint32_t depth = 0;
};

static LLVMContext llctx;
static std::unique_ptr<Module> mod;
static const DataLayout *DL;
static std::unordered_map<const Value *, unsigned> regIdx;
static std::unordered_map<const Function *, unsigned> nRegs;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint32_t, Function *> fnById;
static std::vector<std::pair<uint32_t, ObjP>> roGlobals; // constants, shared by all states
static std::unordered_map<uint32_t, ObjP> roMap;
static bool optUndef = true;
static uint64_t maxSteps = 20000000;
static double maxTime = 600;
static unsigned nSamples = 3;
static int maxJobs = 1;
static Clock::time_point tStart;
static std::string outPath;

struct Shared { volatile int active; volatile int stop; volatile int frag; volatile long long paths; };
static Shared *sh;

static uint64_t nPaths, nForks, nSteps, nAssumeCut, nBranches;
static std::map<std::string, uint64_t> assertChecks;
struct Finding { std::string kind, msg, loc, stack; std::string in; };
static std::vector<Finding> findings;
static std::map<std::string, int> findingKeys;
static std::map<std::string, std::string> witnesses;
struct Sample { std::string in; std::string obs; };
static std::vector<Sample> samples;
static std::set<const Function *> fnsRun;
static std::set<const Instruction *> instrRun;
static std::string limitReason;

static std::string jesc(const std::string &s) {
    std::string r;
    for (char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if ((unsigned char)ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r;
}
static void writeOut(const std::string &path, const std::string &err);
static void die(const std::string &msg) {
    fprintf(stderr, "symx: %s\n", msg.c_str());
    sh->stop = 2;
    char p[64]; int k = __sync_fetch_and_add(&sh->frag, 1);
    snprintf(p, sizeof p, ".%d", k);
    writeOut(outPath + p, msg);
    _exit(3);
}

static std::string locOf(const Instruction *I) {
    std::string r = I->getFunction()->getName().str();
    if (auto &dl = I->getDebugLoc()) {
        auto *sc = cast<DIScope>(dl.getScope());
        std::string f = sc->getFilename().str();
        auto p = f.rfind('/');
        if (p != std::string::npos) f = f.substr(p + 1);
        r = f + ":" + std::to_string(dl.getLine()) + " (" + r + ")";
    }
    return r;
}

static ObjP *findObj(State &s, uint32_t id) {
    auto it = std::lower_bound(s.mem.begin(), s.mem.end(), id,
        [](const std::pair<uint32_t, ObjP> &a, uint32_t b) { return a.first < b; });
    if (it != s.mem.end() && it->first == id) return &it->second;
    return nullptr;
}
static Obj *getObj(State &s, uint32_t id) {
    auto it = roMap.find(id);
    if (it != roMap.end()) return it->second.get();
    ObjP *p = findObj(s, id);
    return p ? p->get() : nullptr;
}
static Obj *getObjW(State &s, uint32_t id) {
    ObjP *p = findObj(s, id);
    if (!p) return nullptr;
    if (p->use_count() > 1) *p = std::make_shared<Obj>(**p);
    return p->get();
}
static uint64_t newObj(State &s, uint64_t size, uint8_t kind) {
    auto o = std::make_shared<Obj>();
    o->id = s.nextId++; o->size = size; o->kind = kind;
    o->b.resize(size);
    s.mem.emplace_back(o->id, o);
    return baseOf(o->id);
}
static void dropObj(State &s, uint32_t id) {
    auto it = std::lower_bound(s.mem.begin(), s.mem.end(), id,
        [](const std::pair<uint32_t, ObjP> &a, uint32_t b) { return a.first < b; });
    if (it != s.mem.end() && it->first == id) s.mem.erase(it);
}

static std::string inputHex(State &s, const Model &m) {
    std::string r; char b[4];
    for (uint32_t v : s.inVars) { snprintf(b, 4, "%02x", v < m.v.size() ? m.v[v] : 0); r += b; }
    return r;
}

static uint32_t undefCounter = 0;
static Node *freshUndef() {
    // undef variables live at high indices so that they never clash with inputs
    uint32_t idx = 60000 + undefCounter++;
    if (undefCounter > 400000) die("too many uninitialised reads");
    return varNode(idx, true);
}

static void report(State &s, const std::string &kind, const std::string &msg, const Model &m) {
    const Instruction *I = s.fr.empty() ? nullptr : &*s.fr.back().pc;
    std::string loc = I ? locOf(I) : "?";
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : loc);
    if (findingKeys[key]++ >= 2) return;
    std::string st;
    for (auto it = s.fr.rbegin(); it != s.fr.rend(); ++it) {
        if (!st.empty()) st += " < ";
        st += it->f->getName().str();
    }
    findings.push_back({kind, msg, loc, st, inputHex(s, m)});
}

static std::vector<State *> work;

static uint64_t evalV(const Val &v, const Model &m) {
    if (v.conc()) return v.c;
    evalStamp++;
    return evalN(v.n, m);
}

static void addPath(State &s, Node *n) { s.path.push_back(n); }
static void addConstraint(State &s, Val c) {
    if (c.conc()) return;
    addPath(s, c.n);
}
static Res ask(State &s, Node *cond, Model *m) { return query(s.path, cond, m); }

static double elapsed() { return std::chrono::duration<double>(Clock::now() - tStart).count(); }
static Clock::time_point lastFork;
static bool isChild = false;

// Take over `other` (a feasible sibling): in a new process if a slot is free.
static void spawn(State *other) {
    nForks++;
    if (maxJobs > 1 && sh->active < maxJobs &&
        std::chrono::duration<double>(Clock::now() - lastFork).count() > 0.02) {
        int now = __sync_add_and_fetch(&sh->active, 1);
        if (now > maxJobs) { __sync_sub_and_fetch(&sh->active, 1); }
        else {
            lastFork = Clock::now();
            pid_t pid = fork();
            if (pid == 0) {
                isChild = true;
                for (auto *w : work) delete w;
                work.clear();
                work.push_back(other);
                nPaths = nForks = nSteps = nAssumeCut = nBranches = 0;
                nQueries = nSat = nUnsat = nUnknown = 0; solverTime = 0;
                assertChecks.clear(); findings.clear(); witnesses.clear(); samples.clear();
                throw PathEnd();         // abandon the current state in the child
            }
            if (pid > 0) { delete other; return; }
            __sync_sub_and_fetch(&sh->active, 1);
        }
    }
    work.push_back(other);
}

// Decide a condition: forks when both sides are feasible.  Returns the side
// the current state continues on.
static bool decide(State &s, Val c, bool isUser = true) {
    if (c.conc()) return c.c != 0;
    nBranches++;
    if (c.n->undef && optUndef && isUser) {
        report(s, "uninitialised", "control flow depends on uninitialised memory", *s.model);
        throw PathEnd();
    }
    bool side = evalV(c, *s.model) != 0;
    Val other = side ? mkNot(c) : c;
    Val mine = side ? c : mkNot(c);
    auto m = std::make_shared<Model>(*s.model);
    if (ask(s, tn(other), m.get()) == SAT) {
        State *o = new State(s);
        o->model = m;
        addPath(*o, tn(other));
        o->depth++;
        addPath(s, tn(mine));
        s.depth++;
        spawn(o);
    }
    return side;
}

// Make a value concrete, forking over its other feasible values.
static uint64_t concretize(State &s, Val v) {
    if (v.conc()) return v.c;
    uint64_t c = evalV(v, *s.model);
    Val eq = mkBin(EQ, v, cv(c, v.w));
    if (eq.conc()) return c;
    bool r = decide(s, eq, true);
    if (!r) die("concretize: model disagrees");
    return c;
}

// ---------------------------------------------------------------- constants

static Val constVal(const Constant *C);
static unsigned bitsOf(Type *t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    std::string n; raw_string_ostream os(n); t->print(os);
    die("unsupported type " + os.str());
    return 0;
}
static bool isScalar(Type *t) { return t->isPointerTy() || t->isIntegerTy(); }

static Val constVal(const Constant *C) {
    if (auto *ci = dyn_cast<ConstantInt>(C)) {
        if (ci->getBitWidth() > 64) die("wide constant");
        return cv(ci->getZExtValue(), ci->getBitWidth());
    }
    if (isa<ConstantPointerNull>(C)) return cv(0, 64);
    if (auto *g = dyn_cast<GlobalValue>(C)) {
        if (auto *ga = dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee());
        auto it = gaddr.find(g);
        if (it == gaddr.end()) die("no address for global " + g->getName().str());
        return cv(it->second, 64);
    }
    if (isa<UndefValue>(C)) {         // undef and poison
        unsigned w = bitsOf(C->getType());
        Val r; bool first = true;
        for (unsigned i = 0; i < (w + 7) / 8; i++) {
            Val b = nv(freshUndef());
            r = first ? b : mkConcat(b, r); first = false;
        }
        return mkExtract(r, 0, w);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto *g = cast<GEPOperator>(ce);
            if (!g->accumulateConstantOffset(*DL, off)) die("constant gep");
            return mkBin(ADD, constVal(cast<Constant>(g->getPointerOperand())), cv(off.getZExtValue(), 64));
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Val v = constVal(ce->getOperand(0)); unsigned w = bitsOf(ce->getType());
            return w <= v.w ? mkExtract(v, 0, w) : mkZext(v, w);
        }
        case Instruction::Sub: return mkBin(SUB, constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
        case Instruction::Add: return mkBin(ADD, constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
        case Instruction::Trunc: return mkExtract(constVal(ce->getOperand(0)), 0, bitsOf(ce->getType()));
        case Instruction::ICmp: {
            Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
            if (ce->getPredicate() == CmpInst::ICMP_EQ) return mkBin(EQ, a, b);
            if (ce->getPredicate() == CmpInst::ICMP_NE) return mkNot(mkBin(EQ, a, b));
            break;
        }
        default: break;
        }
        std::string n; raw_string_ostream os(n); ce->print(os);
        die("unsupported constant expression " + os.str());
    }
    if (C->isNullValue() && isScalar(C->getType())) return cv(0, bitsOf(C->getType()));
    std::string n; raw_string_ostream os(n); C->print(os);
    die("unsupported constant " + os.str());
    return Val();
}

static void initBytes(Obj &o, uint64_t off, const Constant *C) {
    Type *t = C->getType();
    uint64_t sz = DL->getTypeAllocSize(t);
    if (isa<UndefValue>(C)) return;
    if (isa<ConstantAggregateZero>(C)) {
        for (uint64_t i = 0; i < sz; i++) { o.b[off + i] = Byte(); o.b[off + i].undef = false; }
        return;
    }
    if (auto *cds = dyn_cast<ConstantDataSequential>(C)) {
        uint64_t es = DL->getTypeAllocSize(cds->getElementType());
        for (unsigned i = 0; i < cds->getNumElements(); i++) initBytes(o, off + i * es, cds->getElementAsConstant(i));
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(C)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(o, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(C)) {
        auto *sl = DL->getStructLayout(cs->getType());
        for (uint64_t i = 0; i < sz; i++) if (o.b[off + i].undef) { o.b[off + i] = Byte(); o.b[off + i].undef = false; }
        for (unsigned i = 0; i < cs->getNumOperands(); i++)
            initBytes(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (t->isFloatingPointTy()) {
        if (auto *cf = dyn_cast<ConstantFP>(C)) {
            uint64_t bits = cf->getValueAPF().bitcastToAPInt().getZExtValue();
            for (uint64_t i = 0; i < sz; i++) { Byte b; b.undef = false; b.c = (uint8_t)(bits >> (8 * i)); o.b[off + i] = b; }
            return;
        }
    }
    Val v = constVal(C);
    for (uint64_t i = 0; i < sz; i++) {
        Byte b; b.undef = false;
        if (i * 8 < v.w) b.c = (uint8_t)(v.c >> (8 * i));
        o.b[off + i] = b;
    }
}

// ---------------------------------------------------------------- memory access

// Resolve a possibly symbolic address to an object that holds [addr, addr+n).
// Reports out-of-bounds accesses; ends the path when none is left.
static Obj *resolve(State &s, Val &addr, uint64_t n, bool write, const char *what) {
    if (addr.conc()) {
        uint32_t id = (uint32_t)(addr.c >> 32);
        uint64_t off = addr.c & 0xffffffffu;
        Obj *o = getObj(s, id);
        if (!o || off + n > o->size || (o->ro && write)) {
            std::string m = std::string(what) + (o ? (o->ro && write ? " to read-only memory" : " out of bounds") :
                (id == 0 ? " through a null pointer" : " of freed or invalid memory"));
            report(s, "memory", m, *s.model);
            throw PathEnd();
        }
        return o;
    }
    if (addr.n->undef && optUndef)
        report(s, "uninitialised", "address depends on uninitialised memory", *s.model);
    uint64_t a0 = evalV(addr, *s.model);
    uint32_t id = (uint32_t)(a0 >> 32);
    Obj *o = getObj(s, id);
    if (!o || (a0 & 0xffffffffu) + n > o->size || (o->ro && write)) {
        report(s, "memory", std::string(what) + " out of bounds", *s.model);
        // continue with the in-bounds addresses of some other model, if any
        throw PathEnd();
    }
    // in bounds of o?
    Val in = mkBin(ULE, mkBin(SUB, addr, cv(baseOf(id), 64)), cv(o->size - n, 64));
    if (!in.conc()) {
        bool r = decide(s, in, false);
        if (!r) die("resolve: model disagrees");
    }
    return o;
}

static Val loadBytes(State &s, Obj *o, uint64_t off, unsigned n, bool raw) {
    // concrete fast path
    if (n <= 8) {
        uint64_t c = 0; bool ok = true;
        for (unsigned i = 0; i < n; i++) {
            const Byte &b = o->b[off + i];
            if (b.n || b.undef) { ok = false; break; }
            c |= (uint64_t)b.c << (8 * i);
        }
        if (ok) return cv(c, n * 8);
    }
    Val r;
    for (unsigned i = 0; i < n; i++) {
        Byte b = o->b[off + i];
        Val v;
        if (b.undef) {
            Node *u = freshUndef();
            v = nv(u);
            if (!o->ro) {
                Obj *ow = getObjW(s, o->id);
                o = ow;
                ow->b[off + i].n = u; ow->b[off + i].undef = false;
            }
        } else if (b.n) v = nv(b.n);
        else v = cv(b.c, 8);
        r = i == 0 ? v : mkConcat(v, r);
    }
    return r;
}

static void storeBytes(Obj *o, uint64_t off, Val v, unsigned n) {
    for (unsigned i = 0; i < n; i++) {
        Byte &b = o->b[off + i];
        b.undef = false;
        if (v.conc()) { b.n = nullptr; b.c = (uint8_t)(i * 8 >= 64 ? 0 : v.c >> (8 * i)); }
        else {
            Val e = mkExtractRaw(v, i * 8, 8);
            if (e.conc()) { b.n = nullptr; b.c = (uint8_t)e.c; }
            else { b.n = e.n; b.c = 0; }
        }
    }
}

static Val doLoad(State &s, Val addr, Type *t) {
    unsigned w = bitsOf(t);
    unsigned n = (w + 7) / 8;
    Obj *o = resolve(s, addr, n, false, "read");
    Val r;
    if (addr.conc()) r = loadBytes(s, o, addr.c & 0xffffffffu, n, false);
    else {
        // symbolic offset: an if-then-else over every offset of the object that n-aligned access allows
        uint64_t base = baseOf(o->id);
        Val off = mkBin(SUB, addr, cv(base, 64));
        uint64_t cnt = o->size - n + 1;
        if (cnt > 4200) { uint64_t c = concretize(s, addr); o = getObj(s, o->id);
            r = loadBytes(s, o, c & 0xffffffffu, n, false); }
        else {
            uint64_t ub = off.n ? ubound(off.n) : off.c;
            uint64_t first = 0;
            bool have = false;
            // step: alignment of the offset expression
            uint64_t step = 1;
            if (off.n) {
                Node *x = off.n;
                if (x->op == MUL && x->k[1]->op == CONST_) step = x->k[1]->c & -x->k[1]->c;
                if (x->op == SHL && x->k[1]->op == CONST_) step = 1ULL << x->k[1]->c;
                if (x->op == ADD && x->k[1]->op == CONST_) {
                    Node *y = x->k[0]; uint64_t st = 1;
                    if (y->op == MUL && y->k[1]->op == CONST_) st = y->k[1]->c & -y->k[1]->c;
                    if (y->op == SHL && y->k[1]->op == CONST_) st = 1ULL << y->k[1]->c;
                    first = x->k[1]->c % st; step = st;
                }
            }
            uint32_t oid = o->id;
            for (uint64_t i = first; i < cnt && i <= ub; i += step) {
                o = getObj(s, oid);
                Val v = loadBytes(s, o, i, n, false);
                r = have ? mkIte(mkBin(EQ, off, cv(i, 64)), v, r) : v;
                have = true;
            }
        }
    }
    return mkExtract(r, 0, w);
}

static void doStore(State &s, Val addr, Val v) {
    unsigned n = (v.w + 7) / 8;
    if (v.w != n * 8) v = mkZext(v, n * 8);
    Obj *o = resolve(s, addr, n, true, "write");
    uint64_t a = concretize(s, addr);
    o = getObjW(s, (uint32_t)(a >> 32));
    storeBytes(o, a & 0xffffffffu, v, n);
}

// ---------------------------------------------------------------- interpreter

static void numberFunction(Function &F) {
    unsigned n = 0;
    for (auto &a : F.args()) regIdx[&a] = n++;
    for (auto &bb : F) for (auto &I : bb) if (!I.getType()->isVoidTy()) regIdx[&I] = n++;
    nRegs[&F] = n;
}

static Val opv(State &s, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
    return s.fr.back().regs[regIdx[v]];
}
static void setReg(State &s, const Value *v, Val x) { s.fr.back().regs[regIdx[v]] = x; }

static void flatten(State &s, const Value *v, std::vector<Val> &out) {
    Type *t = v->getType();
    if (isScalar(t)) { out.push_back(opv(s, v)); return; }
    if (auto *c = dyn_cast<Constant>(v)) {
        unsigned n = isa<StructType>(t) ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) flatten(s, c->getAggregateElement(i), out);
        return;
    }
    auto &a = s.fr.back().agg[regIdx[v]];
    out.insert(out.end(), a.begin(), a.end());
}
static unsigned flatCount(Type *t) {
    if (isScalar(t)) return 1;
    unsigned r = 0;
    if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) r += flatCount(e); return r; }
    if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * flatCount(at->getElementType());
    return bitsOf(t) ? 1 : 1;
}
static unsigned flatIndex(Type *t, ArrayRef<unsigned> idx, Type **out) {
    unsigned r = 0;
    for (unsigned i : idx) {
        if (auto *st = dyn_cast<StructType>(t)) {
            for (unsigned k = 0; k < i; k++) r += flatCount(st->getElementType(k));
            t = st->getElementType(i);
        } else {
            auto *at = cast<ArrayType>(t);
            r += i * flatCount(at->getElementType());
            t = at->getElementType();
        }
    }
    *out = t;
    return r;
}

static void pushFrame(State &s, Function *f, CallBase *call, const std::vector<Val> &args) {
    if (s.fr.size() > 300) { report(s, "recursion", "call depth over 300", *s.model); throw PathEnd(); }
    Frame fr;
    fr.f = f; fr.bb = &f->getEntryBlock(); fr.pc = fr.bb->begin(); fr.call = call;
    fr.regs.resize(nRegs[f]);
    unsigned i = 0;
    for (auto &a : f->args()) { fr.regs[regIdx[&a]] = args[i++]; }
    s.fr.push_back(std::move(fr));
    fnsRun.insert(f);
}

static std::string readStr(State &s, Val p) {
    std::string r;
    uint64_t a = concretize(s, p);
    for (int i = 0; i < 4096; i++) {
        Val ad = cv(a + i, 64);
        Obj *o = resolve(s, ad, 1, false, "string read");
        Val v = loadBytes(s, o, ad.c & 0xffffffffu, 1, false);
        char ch = (char)concretize(s, v);
        if (!ch) break;
        r += ch;
    }
    return r;
}

static void copyMem(State &s, Val dst, Val src, uint64_t n, bool overlapOk) {
    if (n == 0) return;
    uint64_t d = concretize(s, dst), sr = concretize(s, src);
    Val dv = cv(d, 64), sv = cv(sr, 64);
    resolve(s, sv, n, false, "memory copy: read");
    resolve(s, dv, n, true, "memory copy: write");
    if (!overlapOk && d != sr && d < sr + n && sr < d + n) {
        report(s, "memory", "memcpy of overlapping areas", *s.model);
        throw PathEnd();
    }
    std::vector<Byte> tmp(n);
    Obj *so = getObj(s, (uint32_t)(sr >> 32));
    for (uint64_t i = 0; i < n; i++) tmp[i] = so->b[(sr & 0xffffffffu) + i];
    Obj *o = getObjW(s, (uint32_t)(d >> 32));
    for (uint64_t i = 0; i < n; i++) o->b[(d & 0xffffffffu) + i] = tmp[i];
}

static void doAssert(State &s, Val cond, const std::string &msg) {
    assertChecks[msg]++;
    if (cond.conc()) {
        if (!cond.c) { report(s, "assert", msg, *s.model); throw PathEnd(); }
        return;
    }
    if (cond.n->undef && optUndef)
        report(s, "uninitialised", "asserted value depends on uninitialised memory: " + msg, *s.model);
    bool now = evalV(cond, *s.model) != 0;
    if (!now) {
        report(s, "assert", msg, *s.model);
        auto m = std::make_shared<Model>(*s.model);
        if (query(s.path, tn(cond), m.get()) == UNSAT) throw PathEnd();
        s.model = m;
        addConstraint(s, cond);
        return;
    }
    auto m = std::make_shared<Model>(*s.model);
    if (query(s.path, tn(mkNot(cond)), m.get()) == SAT) {
        report(s, "assert", msg, *m);
        addConstraint(s, cond);
    }
}

static void doAssume(State &s, Val cond) {
    if (cond.conc()) { if (!cond.c) { nAssumeCut++; throw PathEnd(); } return; }
    if (evalV(cond, *s.model)) { addPath(s, cond.n); return; }
    auto m = std::make_shared<Model>(*s.model);
    if (query(s.path, cond.n, m.get()) == UNSAT) { nAssumeCut++; throw PathEnd(); }
    s.model = m;
    addPath(s, cond.n);
}

struct Finished { };   // exit()

// External functions.  Returns true if handled; result in `res`.
static bool callExternal(State &s, const std::string &name, CallBase &cb, Val &res) {
    auto A = [&](unsigned i) { return opv(s, cb.getArgOperand(i)); };
    unsigned rw = isScalar(cb.getType()) ? bitsOf(cb.getType()) : 32;
    res = cv(0, rw);
    if (name == "symx_assert") { std::string m = readStr(s, A(1)); doAssert(s, mkNot(mkBin(EQ, A(0), cv(0, A(0).w))), m); return true; }
    if (name == "symx_assume") { doAssume(s, mkNot(mkBin(EQ, A(0), cv(0, A(0).w)))); return true; }
    if (name == "symx_witness") {
        std::string m = readStr(s, A(0));
        if (!witnesses.count(m)) witnesses[m] = inputHex(s, *s.model);
        return true;
    }
    if (name == "symx_bytes") {
        uint64_t p = concretize(s, A(0)), n = concretize(s, A(1));
        Val pv = cv(p, 64);
        if (n) {
            resolve(s, pv, n, true, "symx_bytes");
            Obj *o = getObjW(s, (uint32_t)(p >> 32));
            for (uint64_t i = 0; i < n; i++) {
                if (s.nIn >= 59000) die("too many inputs");
                Node *v = varNode(s.nIn, false);
                s.inVars.push_back(s.nIn++);
                Byte &b = o->b[(p & 0xffffffffu) + i];
                b.n = v; b.undef = false; b.c = 0;
            }
        }
        return true;
    }
    if (name == "symx_observe") { s.obs.push_back(mkZext(A(0), 64)); return true; }
    if (name == "symx_concretize") { res = cv(concretize(s, A(0)), rw); return true; }
    if (name == "symx_and" || name == "symx_or") {    // no fork on && / ||
        Val a = mkNot(mkBin(EQ, A(0), cv(0, A(0).w))), b = mkNot(mkBin(EQ, A(1), cv(0, A(1).w)));
        res = mkZext(mkBin(name == "symx_and" ? AND_ : OR_, a, b), rw);
        return true;
    }
    if (name == "symx_poison") {                     // mark memory uninitialised
        uint64_t p = concretize(s, A(0)), n = concretize(s, A(1));
        Val pv = cv(p, 64);
        if (n) {
            resolve(s, pv, n, true, "symx_poison");
            Obj *o = getObjW(s, (uint32_t)(p >> 32));
            for (uint64_t i = 0; i < n; i++) o->b[(p & 0xffffffffu) + i] = Byte();
        }
        return true;
    }
    if (name == "malloc" || name == "calloc" || name == "__real_malloc" || name == "__real_calloc" ||
        name == "PyMem_Malloc_raw") {
        bool z = name == "calloc" || name == "__real_calloc";
        uint64_t n = concretize(s, A(0));
        if (z) n *= concretize(s, A(1));
        if (n > (1u << 28)) { res = cv(0, 64); return true; }
        uint64_t p = newObj(s, n, 2);
        if (z) { Obj *o = getObjW(s, (uint32_t)(p >> 32)); for (auto &b : o->b) { b = Byte(); b.undef = false; } }
        res = cv(p, 64);
        return true;
    }
    if (name == "realloc" || name == "__real_realloc") {
        uint64_t p = concretize(s, A(0)), n = concretize(s, A(1));
        uint64_t q = newObj(s, n, 2);
        if (p) {
            Obj *o = getObj(s, (uint32_t)(p >> 32));
            if (!o || o->kind != 2 || (p & 0xffffffffu)) { report(s, "memory", "realloc of an invalid pointer", *s.model); throw PathEnd(); }
            uint64_t k = std::min(n, o->size);
            copyMem(s, cv(q, 64), cv(p, 64), k, true);
            dropObj(s, (uint32_t)(p >> 32));
        }
        res = cv(q, 64);
        return true;
    }
    if (name == "free" || name == "__real_free") {
        uint64_t p = concretize(s, A(0));
        if (p) {
            Obj *o = getObj(s, (uint32_t)(p >> 32));
            if (!o || o->kind != 2 || (p & 0xffffffffu)) {
                report(s, "memory", "free of an invalid or already freed pointer", *s.model); throw PathEnd();
            }
            dropObj(s, (uint32_t)(p >> 32));
        }
        return true;
    }
    if (name == "symx_end_path") throw Finished();
    if (name == "symx_live_heap") {
        uint64_t n = 0;
        for (auto &m : s.mem) if (m.second->kind == 2) n++;
        res = cv(n, rw);
        return true;
    }
    if (name == "memcpy" || name == "memmove") { copyMem(s, A(0), A(1), concretize(s, A(2)), name == "memmove"); res = A(0); return true; }
    if (name == "memset") {
        uint64_t n = concretize(s, A(2)), p = concretize(s, A(0));
        Val pv = cv(p, 64);
        if (n) {
            resolve(s, pv, n, true, "memset");
            Val v = mkExtract(A(1), 0, 8);
            Obj *o = getObjW(s, (uint32_t)(p >> 32));
            for (uint64_t i = 0; i < n; i++) storeBytes(o, (p & 0xffffffffu) + i, v, 1);
        }
        res = A(0);
        return true;
    }
    if (name == "memcmp" || name == "bcmp") {
        uint64_t n = concretize(s, A(2)), p = concretize(s, A(0)), q = concretize(s, A(1));
        Val r = cv(0, 32);
        for (uint64_t i = n; i-- > 0;) {
            Val pa = cv(p + i, 64), qa = cv(q + i, 64);
            Val a = loadBytes(s, resolve(s, pa, 1, false, "memcmp"), pa.c & 0xffffffffu, 1, false);
            Val b = loadBytes(s, resolve(s, qa, 1, false, "memcmp"), qa.c & 0xffffffffu, 1, false);
            r = mkIte(mkBin(EQ, a, b), r, mkBin(SUB, mkZext(a, 32), mkZext(b, 32)));
        }
        res = r;
        return true;
    }
    if (name == "strlen") { res = cv(readStr(s, A(0)).size(), 64); return true; }
    if (name == "strcmp" || name == "strncmp") {
        std::string a = readStr(s, A(0)), b = readStr(s, A(1));
        if (name == "strncmp") { uint64_t n = concretize(s, A(2)); a = a.substr(0, n); b = b.substr(0, n); }
        res = cv((uint32_t)a.compare(b), 32);
        return true;
    }
    if (name == "printf" || name == "puts" || name == "putchar" || name == "fprintf" || name == "fputs" ||
        name == "fflush" || name == "perror" || name == "fwrite_log" || name == "vprintf") return true;
    if (name == "abort" || name == "__assert_fail") {
        report(s, "abort", name == "abort" ? "abort() reached" : "assert() failed", *s.model);
        throw PathEnd();
    }
    if (name == "exit" || name == "_exit") throw Finished();
    return false;
}

static void execCall(State &s, CallBase &cb) {
    Frame &fr = s.fr.back();
    Function *f = cb.getCalledFunction();
    if (!f) {
        Value *cv_ = cb.getCalledOperand()->stripPointerCasts();
        f = dyn_cast<Function>(cv_);
        if (!f) {
            uint64_t a = concretize(s, opv(s, cb.getCalledOperand()));
            auto it = fnById.find((uint32_t)(a >> 32));
            if (it == fnById.end() || (a & 0xffffffffu)) {
                report(s, "memory", a == 0 ? "call through a null pointer" : "call through an invalid pointer", *s.model);
                throw PathEnd();
            }
            f = it->second;
        }
    }
    if (f->isIntrinsic()) {
        auto A = [&](unsigned i) { return opv(s, cb.getArgOperand(i)); };
        switch (f->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: break;
        case Intrinsic::memcpy: case Intrinsic::memmove:
            copyMem(s, A(0), A(1), concretize(s, A(2)), f->getIntrinsicID() == Intrinsic::memmove); break;
        case Intrinsic::memset: {
            Val r; callExternal(s, "memset", cb, r); break;
        }
        case Intrinsic::ubsantrap: {
            static const char *names[] = {"integer addition overflow", "builtin unreachable", "cfi", "integer division",
                "dynamic type cache", "load of invalid value", "function type mismatch", "implicit conversion",
                "invalid builtin", "invalid objc cast", "integer multiplication overflow (negate)", "missing return",
                "integer multiplication overflow", "negation overflow", "null argument", "null return", "array index out of bounds",
                "pointer overflow", "shift out of bounds", "integer subtraction overflow", "type mismatch / null / misaligned",
                "alignment", "vla bound"};
            uint64_t k = A(0).c;
            std::string m = "undefined behaviour";
            m += " (ubsan check " + std::to_string(k) + (k < sizeof names / sizeof *names ? std::string("): ") + names[k] : std::string(")"));
            report(s, "ub", m, *s.model);
            throw PathEnd();
        }
        case Intrinsic::trap: report(s, "ub", "trap", *s.model); throw PathEnd();
        case Intrinsic::expect: setReg(s, &cb, A(0)); break;
        case Intrinsic::is_constant: setReg(s, &cb, cv(0, 1)); break;
        case Intrinsic::objectsize: setReg(s, &cb, cv(~0ULL, bitsOf(cb.getType()))); break;
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
            Val a = A(0), b = A(1); auto id = f->getIntrinsicID();
            Val lt = mkBin(id == Intrinsic::umax || id == Intrinsic::umin ? ULT : SLT, a, b);
            bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
            setReg(s, &cb, mn ? mkIte(lt, a, b) : mkIte(lt, b, a)); break;
        }
        case Intrinsic::abs: { Val a = A(0); Val neg = mkBin(SUB, cv(0, a.w), a);
            setReg(s, &cb, mkIte(mkBin(SLT, a, cv(0, a.w)), neg, a)); break; }
        case Intrinsic::bswap: { Val a = A(0); Val r; for (unsigned i = 0; i < a.w / 8; i++) {
            Val b = mkExtract(a, i * 8, 8); r = i == 0 ? b : mkConcat(r, b); } setReg(s, &cb, r); break; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            Val a = A(0), b = A(1), c = A(2);
            if (!c.conc()) die("symbolic funnel shift");
            unsigned sh_ = c.c % a.w;
            bool l = f->getIntrinsicID() == Intrinsic::fshl;
            Val r;
            if (sh_ == 0) r = l ? a : b;
            else if (l) r = mkBin(OR_, mkBin(SHL, a, cv(sh_, a.w)), mkBin(LSHR, b, cv(a.w - sh_, a.w)));
            else r = mkBin(OR_, mkBin(SHL, a, cv(a.w - sh_, a.w)), mkBin(LSHR, b, cv(sh_, a.w)));
            setReg(s, &cb, r); break;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow:
        case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            Val a = A(0), b = A(1), r, o;
            unsigned w = a.w;
            Val z = cv(0, w);
            switch (f->getIntrinsicID()) {
            case Intrinsic::uadd_with_overflow: r = mkBin(ADD, a, b); o = mkBin(ULT, r, a); break;
            case Intrinsic::usub_with_overflow: r = mkBin(SUB, a, b); o = mkBin(ULT, a, b); break;
            case Intrinsic::sadd_with_overflow: {
                r = mkBin(ADD, a, b);
                if (a.conc() && b.conc()) { __int128 t = (__int128)sx(a.c, w) + sx(b.c, w); o = cv(t != sx(r.c, w), 1); break; }
                Val an = mkBin(SLT, a, z), bn = mkBin(SLT, b, z), rn = mkBin(SLT, r, z);
                o = mkBin(AND_, mkBin(EQ, an, bn), mkBin(XOR_, an, rn)); break; }
            case Intrinsic::ssub_with_overflow: {
                r = mkBin(SUB, a, b);
                if (a.conc() && b.conc()) { __int128 t = (__int128)sx(a.c, w) - sx(b.c, w); o = cv(t != sx(r.c, w), 1); break; }
                Val an = mkBin(SLT, a, z), bn = mkBin(SLT, b, z), rn = mkBin(SLT, r, z);
                o = mkBin(AND_, mkBin(XOR_, an, bn), mkBin(XOR_, an, rn)); break; }
            case Intrinsic::umul_with_overflow: r = mkBin(MUL, a, b); o = mkBin(UMULO, a, b); break;
            default: r = mkBin(MUL, a, b); o = mkBin(SMULO, a, b); break;
            }
            fr.agg[regIdx[&cb]] = {r, o};
            break;
        }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            Val a = A(0);
            if (!a.conc()) a = cv(concretize(s, a), a.w);
            uint64_t r = 0;
            if (f->getIntrinsicID() == Intrinsic::ctpop) r = __builtin_popcountll(a.c);
            else if (f->getIntrinsicID() == Intrinsic::cttz) r = a.c ? __builtin_ctzll(a.c) : a.w;
            else r = a.c ? __builtin_clzll(a.c) - (64 - a.w) : a.w;
            setReg(s, &cb, cv(r, a.w)); break;
        }
        case Intrinsic::usub_sat: { Val a = A(0), b = A(1);
            setReg(s, &cb, mkIte(mkBin(ULT, a, b), cv(0, a.w), mkBin(SUB, a, b))); break; }
        case Intrinsic::stacksave: setReg(s, &cb, cv(0, 64)); break;
        case Intrinsic::stackrestore: break;
        default: die("unsupported intrinsic " + f->getName().str());
        }
        ++s.fr.back().pc;
        return;
    }
    std::string name = f->getName().str();
    // __wrap_X convention: harness replacements for libc functions
    if (Function *wf = mod->getFunction("__wrap_" + name))
        if (!wf->isDeclaration() && fr.f != wf) { f = wf; name = wf->getName().str(); }
    if (f->isDeclaration()) {
        if (name.rfind("__real_", 0) == 0) {
            Function *rf = mod->getFunction(name.substr(7));
            if (rf && !rf->isDeclaration()) f = rf;
        }
    }
    if (f->isDeclaration()) {
        Val r;
        if (!callExternal(s, name, cb, r)) die("call of undefined function " + name + " at " + locOf(&cb));
        if (!cb.getType()->isVoidTy()) setReg(s, &cb, r);
        ++s.fr.back().pc;
        return;
    }
    std::vector<Val> args;
    for (unsigned i = 0; i < f->arg_size(); i++) {
        if (i >= cb.arg_size()) die("too few arguments to " + name);
        Val v = opv(s, cb.getArgOperand(i));
        if (cb.isByValArgument(i)) {
            uint64_t n = DL->getTypeAllocSize(cb.getParamByValType(i));
            uint64_t p = newObj(s, n, 1);
            copyMem(s, cv(p, 64), v, n, true);
            v = cv(p, 64);
        }
        args.push_back(v);
    }
    pushFrame(s, f, &cb, args);
}

static void popAllocas(State &s, Frame &fr) {
    for (uint32_t id : fr.allocas) dropObj(s, id);
}

static void jump(State &s, BasicBlock *to) {
    Frame &fr = s.fr.back();
    fr.prev = fr.bb; fr.bb = to;
    // phis in parallel
    std::vector<std::pair<const Value *, Val>> vals;
    std::vector<std::pair<const Value *, std::vector<Val>>> aggs;
    auto it = to->begin();
    for (; it != to->end() && isa<PHINode>(&*it); ++it) {
        auto *p = cast<PHINode>(&*it);
        Value *in = p->getIncomingValueForBlock(fr.prev);
        if (isScalar(p->getType())) vals.emplace_back(p, opv(s, in));
        else { std::vector<Val> f; flatten(s, in, f); aggs.emplace_back(p, f); }
    }
    for (auto &v : vals) setReg(s, v.first, v.second);
    for (auto &v : aggs) fr.agg[regIdx[v.first]] = v.second;
    fr.pc = it;
}

static void step(State &s) {
    Frame &fr = s.fr.back();
    Instruction &I = *fr.pc;
    s.steps++; nSteps++;
    instrRun.insert(&I);
    switch (I.getOpcode()) {
    case Instruction::Ret: {
        auto &ri = cast<ReturnInst>(I);
        Val rv; std::vector<Val> ra;
        bool agg = false;
        if (ri.getReturnValue()) {
            if (isScalar(ri.getReturnValue()->getType())) rv = opv(s, ri.getReturnValue());
            else { agg = true; flatten(s, ri.getReturnValue(), ra); }
        }
        CallBase *cb = fr.call;
        popAllocas(s, fr);
        s.fr.pop_back();
        if (s.fr.empty()) throw Finished();
        if (ri.getReturnValue() && !cb->getType()->isVoidTy()) {
            if (agg) s.fr.back().agg[regIdx[cb]] = ra; else setReg(s, cb, rv);
        }
        if (auto *inv = dyn_cast<InvokeInst>(cb)) { jump(s, inv->getNormalDest()); return; }
        ++s.fr.back().pc;
        return;
    }
    case Instruction::Br: {
        auto &b = cast<BranchInst>(I);
        if (b.isUnconditional()) { jump(s, b.getSuccessor(0)); return; }
        bool t = decide(s, opv(s, b.getCondition()));
        jump(s, b.getSuccessor(t ? 0 : 1));
        return;
    }
    case Instruction::Switch: {
        auto &sw = cast<SwitchInst>(I);
        Val v = opv(s, sw.getCondition());
        if (v.conc()) {
            BasicBlock *to = sw.getDefaultDest();
            for (auto &c : sw.cases()) if (c.getCaseValue()->getZExtValue() == v.c) { to = c.getCaseSuccessor(); break; }
            jump(s, to);
            return;
        }
        uint64_t c0 = evalV(v, *s.model);
        BasicBlock *to = sw.getDefaultDest();
        for (auto &c : sw.cases()) if (c.getCaseValue()->getZExtValue() == c0) { to = c.getCaseSuccessor(); break; }
        Val cond;
        if (to == sw.getDefaultDest()) {
            cond = cv(1, 1);
            for (auto &c : sw.cases()) if (c.getCaseSuccessor() != to)
                cond = mkBin(AND_, cond, mkNot(mkBin(EQ, v, cv(c.getCaseValue()->getZExtValue(), v.w))));
        } else {
            cond = cv(0, 1);
            for (auto &c : sw.cases()) if (c.getCaseSuccessor() == to)
                cond = mkBin(OR_, cond, mkBin(EQ, v, cv(c.getCaseValue()->getZExtValue(), v.w)));
        }
        bool r = decide(s, cond);
        if (!r) die("switch: model disagrees");
        jump(s, to);
        return;
    }
    case Instruction::Unreachable:
        report(s, "ub", "unreachable code reached", *s.model);
        throw PathEnd();
    case Instruction::Call: execCall(s, cast<CallBase>(I)); return;
    case Instruction::Alloca: {
        auto &a = cast<AllocaInst>(I);
        uint64_t n = DL->getTypeAllocSize(a.getAllocatedType());
        if (a.isArrayAllocation()) n *= concretize(s, opv(s, a.getArraySize()));
        uint64_t p = newObj(s, n, 1);
        s.fr.back().allocas.push_back((uint32_t)(p >> 32));
        setReg(s, &I, cv(p, 64));
        break;
    }
    case Instruction::Load: {
        auto &l = cast<LoadInst>(I);
        if (!isScalar(l.getType())) {
            std::function<void(Type *, uint64_t, std::vector<Val> &)> rec;
            Val base = opv(s, l.getPointerOperand());
            rec = [&](Type *t, uint64_t off, std::vector<Val> &out) {
                if (isScalar(t)) { out.push_back(doLoad(s, mkBin(ADD, base, cv(off, 64)), t)); return; }
                if (auto *st = dyn_cast<StructType>(t)) {
                    auto *sl = DL->getStructLayout(st);
                    for (unsigned i = 0; i < st->getNumElements(); i++) rec(st->getElementType(i), off + sl->getElementOffset(i), out);
                    return;
                }
                if (auto *at = dyn_cast<ArrayType>(t)) {
                    uint64_t es = DL->getTypeAllocSize(at->getElementType());
                    for (unsigned i = 0; i < at->getNumElements(); i++) rec(at->getElementType(), off + i * es, out);
                    return;
                }
                bitsOf(t);
            };
            std::vector<Val> out; rec(l.getType(), 0, out);
            s.fr.back().agg[regIdx[&I]] = out;
            break;
        }
        Val r = doLoad(s, opv(s, l.getPointerOperand()), l.getType());
        setReg(s, &I, r);
        break;
    }
    case Instruction::Store: {
        auto &st = cast<StoreInst>(I);
        if (!isScalar(st.getValueOperand()->getType())) {
            std::vector<Val> vals; flatten(s, st.getValueOperand(), vals);
            Val base = opv(s, st.getPointerOperand());
            unsigned k = 0;
            std::function<void(Type *, uint64_t)> rec = [&](Type *t, uint64_t off) {
                if (isScalar(t)) { doStore(s, mkBin(ADD, base, cv(off, 64)), vals[k++]); return; }
                if (auto *sty = dyn_cast<StructType>(t)) {
                    auto *sl = DL->getStructLayout(sty);
                    for (unsigned i = 0; i < sty->getNumElements(); i++) rec(sty->getElementType(i), off + sl->getElementOffset(i));
                    return;
                }
                auto *at = cast<ArrayType>(t);
                uint64_t es = DL->getTypeAllocSize(at->getElementType());
                for (unsigned i = 0; i < at->getNumElements(); i++) rec(at->getElementType(), off + i * es);
            };
            rec(st.getValueOperand()->getType(), 0);
            break;
        }
        doStore(s, opv(s, st.getPointerOperand()), opv(s, st.getValueOperand()));
        break;
    }
    case Instruction::GetElementPtr: {
        auto &g = cast<GetElementPtrInst>(I);
        Val p = opv(s, g.getPointerOperand());
        for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
            if (StructType *st = gi.getStructTypeOrNull()) {
                unsigned f = cast<ConstantInt>(gi.getOperand())->getZExtValue();
                p = mkBin(ADD, p, cv(DL->getStructLayout(st)->getElementOffset(f), 64));
            } else {
                uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
                Val ix = mkSext(opv(s, gi.getOperand()), 64);
                p = mkBin(ADD, p, mkBin(MUL, ix, cv(es, 64)));
            }
        }
        setReg(s, &I, p);
        break;
    }
    case Instruction::ICmp: {
        auto &c = cast<ICmpInst>(I);
        Val a = opv(s, c.getOperand(0)), b = opv(s, c.getOperand(1)), r;
        switch (c.getPredicate()) {
        case CmpInst::ICMP_EQ: r = mkBin(EQ, a, b); break;
        case CmpInst::ICMP_NE: r = mkNot(mkBin(EQ, a, b)); break;
        case CmpInst::ICMP_ULT: r = mkBin(ULT, a, b); break;
        case CmpInst::ICMP_ULE: r = mkBin(ULE, a, b); break;
        case CmpInst::ICMP_UGT: r = mkBin(ULT, b, a); break;
        case CmpInst::ICMP_UGE: r = mkBin(ULE, b, a); break;
        case CmpInst::ICMP_SLT: r = mkBin(SLT, a, b); break;
        case CmpInst::ICMP_SLE: r = mkBin(SLE, a, b); break;
        case CmpInst::ICMP_SGT: r = mkBin(SLT, b, a); break;
        case CmpInst::ICMP_SGE: r = mkBin(SLE, b, a); break;
        default: die("icmp predicate");
        }
        setReg(s, &I, r);
        break;
    }
    case Instruction::Select: {
        if (!isScalar(I.getType())) {
            bool t = decide(s, opv(s, I.getOperand(0)));
            std::vector<Val> f; flatten(s, I.getOperand(t ? 1 : 2), f);
            s.fr.back().agg[regIdx[&I]] = f;
            break;
        }
        Val c = opv(s, I.getOperand(0));
        Val a = opv(s, I.getOperand(1)), b = opv(s, I.getOperand(2));
        if (!c.conc() && I.getType()->isPointerTy()) { bool t = decide(s, c); setReg(s, &I, t ? a : b); break; }
        setReg(s, &I, mkIte(c, a, b));
        break;
    }
    case Instruction::ZExt: setReg(s, &I, mkZext(opv(s, I.getOperand(0)), bitsOf(I.getType()))); break;
    case Instruction::SExt: setReg(s, &I, mkSext(opv(s, I.getOperand(0)), bitsOf(I.getType()))); break;
    case Instruction::Trunc: setReg(s, &I, mkExtract(opv(s, I.getOperand(0)), 0, bitsOf(I.getType()))); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
        Val v = opv(s, I.getOperand(0)); unsigned w = bitsOf(I.getType());
        setReg(s, &I, w < v.w ? mkExtract(v, 0, w) : mkZext(v, w));
        break;
    }
    case Instruction::Freeze: setReg(s, &I, opv(s, I.getOperand(0))); break;
    case Instruction::ExtractValue: {
        auto &e = cast<ExtractValueInst>(I);
        std::vector<Val> f; flatten(s, e.getAggregateOperand(), f);
        Type *t; unsigned k = flatIndex(e.getAggregateOperand()->getType(), e.getIndices(), &t);
        if (isScalar(t)) setReg(s, &I, f[k]);
        else s.fr.back().agg[regIdx[&I]] = std::vector<Val>(f.begin() + k, f.begin() + k + flatCount(t));
        break;
    }
    case Instruction::InsertValue: {
        auto &e = cast<InsertValueInst>(I);
        std::vector<Val> f; flatten(s, e.getAggregateOperand(), f);
        Type *t; unsigned k = flatIndex(e.getAggregateOperand()->getType(), e.getIndices(), &t);
        std::vector<Val> x; flatten(s, e.getInsertedValueOperand(), x);
        for (unsigned i = 0; i < x.size(); i++) f[k + i] = x[i];
        s.fr.back().agg[regIdx[&I]] = f;
        break;
    }
    case Instruction::Fence: break;
    default:
        if (I.isBinaryOp()) {
            Val a = opv(s, I.getOperand(0)), b = opv(s, I.getOperand(1));
            Op op;
            switch (I.getOpcode()) {
            case Instruction::Add: op = ADD; break;
            case Instruction::Sub: op = SUB; break;
            case Instruction::Mul: op = MUL; break;
            case Instruction::UDiv: op = UDIV; break;
            case Instruction::SDiv: op = SDIV; break;
            case Instruction::URem: op = UREM; break;
            case Instruction::SRem: op = SREM; break;
            case Instruction::And: op = AND_; break;
            case Instruction::Or: op = OR_; break;
            case Instruction::Xor: op = XOR_; break;
            case Instruction::Shl: op = SHL; break;
            case Instruction::LShr: op = LSHR; break;
            case Instruction::AShr: op = ASHR; break;
            default: die(std::string("unsupported operation ") + I.getOpcodeName() + " at " + locOf(&I));
            }
            if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
                Val nz = mkNot(mkBin(EQ, b, cv(0, b.w)));
                if (!decide(s, nz, true)) { report(s, "ub", "division by zero", *s.model); throw PathEnd(); }
            }
            setReg(s, &I, mkBin(op, a, b));
            break;
        }
        die(std::string("unsupported instruction ") + I.getOpcodeName() + " at " + locOf(&I));
    }
    ++s.fr.back().pc;
}

static uint64_t sampleSkip = 1, sampleCount = 0;
static void endPath(State &s) {
    nPaths++;
    __sync_add_and_fetch(&sh->paths, 1);
    // keep a spread of paths as samples
    sampleCount++;
    if (samples.size() < nSamples || sampleCount % (sampleSkip * 2) == 0) {
        std::string o; char b[20];
        for (auto &v : s.obs) { snprintf(b, 20, "%llx,", (unsigned long long)evalV(v, *s.model)); o += b; }
        Sample sm{inputHex(s, *s.model), o};
        if (samples.size() < nSamples) samples.push_back(sm);
        else { samples[(sampleCount / (sampleSkip * 2)) % nSamples] = sm; if (sampleCount > sampleSkip * 2 * nSamples) sampleSkip *= 2; }
    }
}

static void writeOut(const std::string &path, const std::string &err) {
    std::ofstream o(path);
    o << "{\n\"error\": \"" << jesc(err) << "\",\n";
    o << "\"exhausted\": " << (exhausted && err.empty() ? "true" : "false") << ",\n";
    o << "\"limit\": \"" << jesc(limitReason) << "\",\n";
    o << "\"paths\": " << nPaths << ", \"forks\": " << nForks << ", \"steps\": " << nSteps
      << ", \"assume_cut\": " << nAssumeCut << ", \"branches\": " << nBranches << ",\n";
    o << "\"queries\": " << nQueries << ", \"sat\": " << nSat << ", \"unsat\": " << nUnsat << ", \"unknown\": " << nUnknown
      << ", \"solver_s\": " << solverTime << ",\n";
    o << "\"asserts\": {";
    bool f = true;
    for (auto &a : assertChecks) { o << (f ? "" : ", ") << "\"" << jesc(a.first) << "\": " << a.second; f = false; }
    o << "},\n\"witnesses\": {";
    f = true;
    for (auto &a : witnesses) { o << (f ? "" : ", ") << "\"" << jesc(a.first) << "\": \"" << a.second << "\""; f = false; }
    o << "},\n\"findings\": [";
    f = true;
    for (auto &a : findings) {
        o << (f ? "" : ",\n ") << "{\"kind\": \"" << jesc(a.kind) << "\", \"msg\": \"" << jesc(a.msg) << "\", \"loc\": \"" << jesc(a.loc)
          << "\", \"stack\": \"" << jesc(a.stack) << "\", \"in\": \"" << a.in << "\"}";
        f = false;
    }
    o << "],\n\"samples\": [";
    f = true;
    for (auto &a : samples) { o << (f ? "" : ",\n ") << "{\"in\": \"" << a.in << "\", \"obs\": \"" << a.obs << "\"}"; f = false; }
    o << "],\n\"functions\": {";
    f = true;
    std::map<std::string, std::pair<unsigned, unsigned>> cov;
    std::map<std::string, std::string> files;
    for (auto *fn : fnsRun) {
        unsigned tot = 0, run = 0;
        for (auto &bb : *fn) for (auto &I : bb) { tot++; if (instrRun.count(&I)) run++; }
        std::string file;
        if (auto *sp = fn->getSubprogram()) file = sp->getFilename().str();
        cov[fn->getName().str()] = {run, tot};
        files[fn->getName().str()] = file;
    }
    for (auto &c : cov) {
        o << (f ? "" : ", ") << "\"" << jesc(c.first) << "\": [\"" << jesc(files[c.first]) << "\", " << c.second.first << ", " << c.second.second << "]";
        f = false;
    }
    o << "}\n}\n";
}

int main(int argc, char **argv) {
    std::string in;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") outPath = argv[++i];
        else if (a == "--jobs") maxJobs = atoi(argv[++i]);
        else if (a == "--max-time") maxTime = atof(argv[++i]);
        else if (a == "--max-steps") maxSteps = strtoull(argv[++i], 0, 10);
        else if (a == "--samples") nSamples = atoi(argv[++i]);
        else if (a == "--no-undef") optUndef = false;
        else in = a;
    }
    tStart = Clock::now(); lastFork = tStart;
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->active = 1;
    SMDiagnostic err;
    mod = parseIRFile(in, err, llctx);
    if (!mod) { err.print("symx", errs()); return 3; }
    DL = &mod->getDataLayout();
    zc = new z3::context();
    solver = new z3::solver(*zc, z3::solver::simple());
    { z3::params p(*zc); p.set("timeout", 20000u); solver->set(p); }
    State *s0 = new State();
    s0->nextId = 16;
    for (auto &F : *mod) {
        numberFunction(F);
        gaddr[&F] = baseOf(s0->nextId);
        fnById[s0->nextId] = &F;
        s0->nextId++;
    }
    for (auto &g : mod->globals()) {
        auto o = std::make_shared<Obj>();
        o->id = s0->nextId++; o->kind = 0;
        o->size = DL->getTypeAllocSize(g.getValueType());
        o->b.resize(o->size);
        gaddr[&g] = baseOf(o->id);
        if (g.isConstant()) { o->ro = true; roMap[o->id] = o; }
        else s0->mem.emplace_back(o->id, o);
    }
    s0->model = std::make_shared<Model>();
    s0->model->v.resize(64, 0);
    for (auto &g : mod->globals()) {
        if (!g.hasInitializer()) continue;
        uint32_t id = (uint32_t)(gaddr[&g] >> 32);
        Obj *o = g.isConstant() ? roMap[id].get() : getObjW(*s0, id);
        initBytes(*o, 0, g.getInitializer());
    }
    Function *entry = mod->getFunction("harness_body");
    if (!entry || entry->isDeclaration()) { fprintf(stderr, "symx: no harness_body\n"); return 3; }
    pushFrame(*s0, entry, nullptr, {});
    work.push_back(s0);
    State *cur = nullptr;
    bool timeUp = false;
    while (!work.empty()) {
        cur = work.back(); work.pop_back();
        try {
            uint32_t k = 0;
            while (true) {
                step(*cur);
                if ((++k & 63) == 0) {
                    if (elapsed() > maxTime) { timeUp = true; throw PathEnd(); }
                    if (sh->stop) { timeUp = true; throw PathEnd(); }
                    if (cur->steps > maxSteps) {
                        report(*cur, "nontermination", "more than " + std::to_string(maxSteps) + " steps on one path", *cur->model);
                        throw PathEnd();
                    }
                }
            }
        } catch (Finished &) {
            endPath(*cur);
        } catch (PathEnd &) { }
        delete cur;
        if (timeUp || elapsed() > maxTime || sh->stop) {
            exhausted = false; limitReason = "time limit";
            break;
        }
    }
    __sync_sub_and_fetch(&sh->active, 1);
    char p[64]; int k = __sync_fetch_and_add(&sh->frag, 1);
    snprintf(p, sizeof p, ".%d", k);
    writeOut(outPath + p, "");
    while (wait(nullptr) > 0 || errno == EINTR) { }
    if (!isChild) {
        FILE *f = fopen((outPath + ".count").c_str(), "w");
        fprintf(f, "%d\n", sh->frag);
        fclose(f);
    }
    _exit(0);
}
