// Hash-consed value numbers with local simplification.
#include "core.h"

static std::vector<Term> tab;
struct TH {
    size_t operator()(const Term& t) const {
        u64 h = t.op * 1000003ull + t.w;
        h = h * 1099511628211ull ^ t.a[0];
        h = h * 1099511628211ull ^ t.a[1];
        h = h * 1099511628211ull ^ t.a[2];
        h = h * 1099511628211ull ^ t.c;
        h = h * 1099511628211ull ^ t.labels;
        h ^= h >> 29;
        h *= 0x9E3779B97F4A7C15ull;
        return h >> 32;
    }
};
// open-addressing table of term ids
static std::vector<T> tslot(1 << 16, NOTERM);
static std::vector<u32> thash;
static std::vector<Data> dtab;
static std::map<Data, u32> dix;
static std::vector<std::string> strs;
static std::unordered_map<std::string, u32> strix;
static std::unordered_map<std::string, u32> genix;
static std::vector<u64> genlab;
static std::vector<ObjInfo> objs;
static std::unordered_map<std::string, u32> objix;
static std::unordered_map<std::string, u64> symix;
static std::vector<std::string> symnames;

u32 internStr(const std::string& s) {
    auto it = strix.find(s);
    if (it != strix.end()) return it->second;
    strs.push_back(s);
    return strix[s] = (u32) strs.size() - 1;
}
const std::string& strOf(u32 i) { return strs[i]; }
u32 newGen(const std::string& key, u64 labels) {
    std::string k = key + "#" + std::to_string(labels);
    auto it = genix.find(k);
    if (it != genix.end()) return it->second;
    genlab.push_back(labels);
    return genix[k] = (u32) genlab.size() - 1;
}
u64 genLabels(u32 g) { return genlab[g]; }
u32 internObj(const std::string& key, ObjKind k, u32 size, int global) {
    auto it = objix.find(key);
    if (it != objix.end()) {
        if (objs[it->second].size < size) objs[it->second].size = size;
        return it->second;
    }
    ObjInfo oi;
    oi.name = key;
    oi.kind = k;
    oi.size = size;
    oi.global = global;
    objs.push_back(oi);
    return objix[key] = (u32) objs.size() - 1;
}
ObjInfo& objInfo(u32 id) { return objs[id]; }
const Term& TT(T t) { return tab[t]; }

static std::vector<Range> rtab;
struct RH {
    size_t operator()(const Range& r) const {
        u64 h = (u64) r.n;
        for (int i = 0; i < r.n; i++) h = (h * 1099511628211ull ^ r.iv[i].first) * 1099511628211ull ^ r.iv[i].second;
        return h ^ (h >> 31);
    }
};
static std::unordered_map<Range, u32, RH> rix;
u32 internRange(const Range& r) {
    auto it = rix.find(r);
    if (it != rix.end()) return it->second;
    rtab.push_back(r);
    return rix[r] = (u32) rtab.size() - 1;
}
const Range& rangeAt(u32 i) { return rtab[i]; }

static T intern(const Term& t) {
    u32 h = (u32) TH()(t);
    size_t m = tslot.size() - 1;
    size_t i = h & m;
    for (; tslot[i] != NOTERM; i = (i + 1) & m)
        if (thash[tslot[i]] == h && tab[tslot[i]] == t) return tslot[i];
    T id = (T) tab.size();
    tab.push_back(t);
    thash.push_back(h);
    tslot[i] = id;
    if (tab.size() * 2 > tslot.size()) {
        std::vector<T> n(tslot.size() * 2, NOTERM);
        m = n.size() - 1;
        for (T k = 0; k < (T) tab.size(); k++) {
            size_t j = thash[k] & m;
            while (n[j] != NOTERM) j = (j + 1) & m;
            n[j] = k;
        }
        tslot.swap(n);
    }
    return id;
}
T mkConst(unsigned w, u64 v) {
    Term t{O_CONST, (u8) w, {0, 0, 0}, v & maskw(w), 0};
    return intern(t);
}
T mkSymI(unsigned w, u64 id, u64 labels) {
    Term t{O_SYM, (u8) w, {0, 0, 0}, id, labels};
    return intern(t);
}
T mkSym(unsigned w, const std::string& name, u64 labels) {
    auto it = symix.find(name);
    u64 id;
    if (it == symix.end()) {
        id = symnames.size();
        symnames.push_back(name);
        symix[name] = id;
    } else
        id = it->second;
    return mkSymI(w, id, labels);
}
T mkFresh(unsigned w, const std::string& hint, u64 labels) {
    u64 id = symnames.size();
    symnames.push_back(hint);
    return mkSymI(w, id, labels);
}
u32 mkFreshGen(u64 labels) {
    genlab.push_back(labels);
    return (u32) genlab.size() - 1;
}
std::string symName(u64 id) { return id < symnames.size() ? (symix.count(symnames[id]) ? symnames[id] : symnames[id] + "#" + std::to_string(id)) : std::to_string(id); }
T mkPtr(u32 obj, T off) {
    Term t{O_PTR, 32, {off, 0, 0}, obj, 0};
    t.labels = TT(off).labels;
    return intern(t);
}
T mkMem(u32 gen, u32 off, u32 size) {
    Term t{O_MEM, (u8) (size <= 8 ? size * 8 : 0), {gen, off, 0}, size, genlab[gen]};
    return intern(t);
}
T mkData(const Data& d) {
    auto it = dix.find(d);
    u32 i;
    u64 lab = 0;
    if (it == dix.end()) {
        dtab.push_back(d);
        i = dix[d] = (u32) dtab.size() - 1;
    } else
        i = it->second;
    for (auto& p : d.parts) lab |= TT(p.t).labels;
    Term t{O_DATA, 32, {0, 0, 0}, i, lab};
    return intern(t);
}
const Data& dataOf(T t) { return dtab[tab[t].c]; }

static i64 sx(u64 v, unsigned w) {
    if (w >= 64) return (i64) v;
    u64 s = 1ull << (w - 1);
    return (i64) ((v ^ s) - s);
}
static u64 foldBin(Op op, unsigned w, u64 x, u64 y, bool& ok) {
    ok = true;
    switch (op) {
        case O_ADD: return x + y;
        case O_SUB: return x - y;
        case O_MUL: return x * y;
        case O_UDIV: if (!y) break; return x / y;
        case O_UREM: if (!y) break; return x % y;
        case O_SDIV: if (!y) break; return (u64) (sx(x, w) / sx(y, w));
        case O_SREM: if (!y) break; return (u64) (sx(x, w) % sx(y, w));
        case O_AND: return x & y;
        case O_OR: return x | y;
        case O_XOR: return x ^ y;
        case O_SHL: return y >= w ? 0 : x << y;
        case O_LSHR: return y >= w ? 0 : x >> y;
        case O_ASHR: return y >= w ? (sx(x, w) < 0 ? ~0ull : 0) : (u64) (sx(x, w) >> y);
        case O_EQ: return x == y;
        case O_ULT: return x < y;
        case O_SLT: return sx(x, w) < sx(y, w);
        default: break;
    }
    ok = false;
    return 0;
}
static T raw(Op op, unsigned w, T a, T b, T c3, u64 c, u64 labels) {
    Term t{op, (u8) w, {a, b, c3}, c, labels};
    return intern(t);
}

static bool selPtr(T t) {  // every leaf of the choice is an address or a constant
    const Term x = tab[t];
    if (x.op == O_SELECT) return selPtr(x.a[1]) && selPtr(x.a[2]);
    return x.op == O_PTR || x.op == O_FUNC || x.op == O_CONST;
}
// flags: comparisons take the operand width from their operands
// linear form of a sum: leaves with coefficients, plus a constant
static bool sumLeaves(T t, i64 k, std::vector<std::pair<T, i64>>& v, u64& c, int& budget) {
    if (--budget < 0) return false;
    const Term x = tab[t];
    if (x.op == O_CONST) {
        c += (u64) k * x.c;
        return true;
    }
    if (x.op == O_ADD || x.op == O_SUB)
        return sumLeaves(x.a[0], k, v, c, budget) && sumLeaves(x.a[1], x.op == O_ADD ? k : -k, v, c, budget);
    for (auto& p : v)
        if (p.first == t) {
            p.second += k;
            return true;
        }
    v.push_back({t, k});
    return true;
}
// rebuilds op(a,b) when leaves cancel
static bool cancelSum(Op op, unsigned w, T a, T b, T& out) {
    std::vector<std::pair<T, i64>> v;
    u64 c = 0;
    int budget = 24;
    if (!sumLeaves(a, 1, v, c, budget) || !sumLeaves(b, op == O_ADD ? 1 : -1, v, c, budget)) return false;
    bool zero = false;
    for (auto& p : v) {
        if (p.second == 0) zero = true;
        else if (p.second != 1 && p.second != -1) return false;
    }
    if (!zero) return false;
    std::sort(v.begin(), v.end());
    T r = NOTERM;
    for (auto& p : v)
        if (p.second == 1) r = r == NOTERM ? p.first : mk(O_ADD, w, r, p.first);
    for (auto& p : v)
        if (p.second == -1) r = mk(O_SUB, w, r == NOTERM ? mkConst(w, 0) : r, p.first);
    out = r == NOTERM ? mkConst(w, c) : mk(O_ADD, w, r, mkConst(w, c));
    return true;
}
T mk(Op op, unsigned w, T a, T b, T c3, u64 c, u64 lab) {
    auto L = [&](T x) { return tab[x].labels; };
    switch (op) {
        case O_FUNC: return raw(op, 32, 0, 0, 0, c, 0);
        case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND:
        case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: {
            const Term x = tab[a], y = tab[b];
            if (x.op == O_CONST && y.op == O_CONST) {
                bool ok;
                u64 v = foldBin(op, w, x.c, y.c, ok);
                if (ok) return mkConst(w, v);
            }
            if ((op == O_ADD || op == O_SUB) && (x.op == O_PTR || y.op == O_PTR)) {
                if (op == O_SUB && x.op == O_PTR && y.op == O_PTR && x.c == y.c)
                    return mk(O_SUB, w, x.a[0], y.a[0]);
                if (x.op == O_PTR && y.op != O_PTR) return mkPtr((u32) x.c, mk(op, 32, x.a[0], b));
                if (op == O_ADD && y.op == O_PTR && x.op != O_PTR) return mkPtr((u32) y.c, mk(op, 32, y.a[0], a));
            }
            bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR;
            if (comm && x.op == O_CONST) return mk(op, w, b, a);
            if (comm && y.op != O_CONST && a > b) return mk(op, w, b, a);
            if (y.op == O_CONST) {
                if (op == O_SUB) return mk(O_ADD, w, a, mkConst(w, 0 - y.c));
                if (y.c == 0 && (op == O_ADD || op == O_OR || op == O_XOR || op == O_SHL || op == O_LSHR || op == O_ASHR)) return a;
                if (y.c == 0 && (op == O_AND || op == O_MUL)) return b;
                if (y.c == 1 && (op == O_MUL || op == O_UDIV)) return a;
                if (op == O_AND && y.c == maskw(w)) return a;
                if (op == O_ADD && x.op == O_ADD && tab[x.a[1]].op == O_CONST)
                    return mk(O_ADD, w, x.a[0], mkConst(w, tab[x.a[1]].c + y.c));
                if (op == O_SHL && y.c < w) return mk(O_MUL, w, a, mkConst(w, 1ull << y.c));
                if (op == O_LSHR && y.c < w) return mk(O_UDIV, w, a, mkConst(w, 1ull << y.c));
                if (op == O_UREM && y.c && !(y.c & (y.c - 1))) return mk(O_AND, w, a, mkConst(w, y.c - 1));
                if (op == O_XOR && w == 1) return mk(O_NOT, 1, a);
                if (op == O_AND && x.op == O_AND && tab[x.a[1]].op == O_CONST)
                    return mk(O_AND, w, x.a[0], mkConst(w, tab[x.a[1]].c & y.c));
                // low-byte masks are extractions
                if (op == O_AND && (y.c == 0xff || y.c == 0xffff || y.c == 0xffffffff) && w > 8) {
                    unsigned nw = y.c == 0xff ? 8 : y.c == 0xffff ? 16 : 32;
                    if (nw < w) return mk(O_ZEXT, w, mk(O_TRUNC, nw, a));
                }
                if (op == O_UDIV && x.op == O_ZEXT && tab[x.a[0]].w < 64 && y.c >= (1ull << tab[x.a[0]].w)) return mkConst(w, 0);
            }
            if (a == b) {
                if (op == O_SUB || op == O_XOR) return mkConst(w, 0);
                if (op == O_AND || op == O_OR) return a;
            }
            if (op == O_SUB && x.op == O_ADD) {  // (p+q)-q
                if (x.a[0] == b) return x.a[1];
                if (x.a[1] == b) return x.a[0];
            }
            if (op == O_ADD && x.op == O_SUB && x.a[1] == b) return x.a[0];
            if (op == O_ADD && y.op == O_SUB && y.a[1] == a) return y.a[0];
            if ((op == O_ADD || op == O_SUB) && (x.op == O_ADD || x.op == O_SUB || y.op == O_ADD || y.op == O_SUB)) {
                T r;
                if (cancelSum(op, w, a, b, r)) return r;
            }
            return raw(op, w, a, b, 0, 0, x.labels | y.labels);
        }
        case O_EQ: case O_ULT: case O_SLT: {
            const Term x = tab[a], y = tab[b];
            if (a == b) return mkConst(1, op == O_EQ);
            if (x.op == O_CONST && y.op == O_CONST) {
                bool ok;
                return mkConst(1, foldBin(op, x.w, x.c, y.c, ok));
            }
            if (op == O_EQ) {
                if (x.op == O_CONST) return mk(op, 1, b, a);
                if (y.op != O_CONST && a > b) return mk(op, 1, b, a);
                if ((x.op == O_PTR || x.op == O_FUNC) && y.op == O_CONST) return mkConst(1, 0);
                if (x.op == O_PTR && y.op == O_PTR) {
                    if (x.c == y.c) return mk(O_EQ, 1, x.a[0], y.a[0]);
                    return mkConst(1, 0);
                }
                if (x.op == O_FUNC && y.op == O_FUNC) return mkConst(1, x.c == y.c);
                if ((x.op == O_FUNC && y.op == O_PTR) || (x.op == O_PTR && y.op == O_FUNC)) return mkConst(1, 0);
                // a choice of addresses compared with an address or a constant: the choice decides
                if (x.op == O_SELECT && selPtr(a) && (y.op == O_CONST || y.op == O_PTR || y.op == O_FUNC))
                    return mk(O_SELECT, 1, x.a[0], mk(O_EQ, 1, x.a[1], b), mk(O_EQ, 1, x.a[2], b));
                if (y.op == O_SELECT && selPtr(b) && (x.op == O_CONST || x.op == O_PTR || x.op == O_FUNC))
                    return mk(O_SELECT, 1, y.a[0], mk(O_EQ, 1, a, y.a[1]), mk(O_EQ, 1, a, y.a[2]));
                if (x.op == O_ZEXT && y.op == O_CONST) {
                    unsigned sw = tab[x.a[0]].w;
                    if (y.c > maskw(sw)) return mkConst(1, 0);
                    return mk(O_EQ, 1, x.a[0], mkConst(sw, y.c));
                }
                if (x.op == O_ZEXT && y.op == O_ZEXT && tab[x.a[0]].w == tab[y.a[0]].w)
                    return mk(O_EQ, 1, x.a[0], y.a[0]);
                if (x.w == 1 && y.op == O_CONST) return y.c ? a : mk(O_NOT, 1, a);
                if (x.op == O_ADD && y.op == O_CONST && tab[x.a[1]].op == O_CONST)
                    return mk(O_EQ, 1, x.a[0], mkConst(x.w, y.c - tab[x.a[1]].c));
                if (x.op == O_BSWAP && y.op == O_BSWAP) return mk(O_EQ, 1, x.a[0], y.a[0]);
            } else {
                if (x.op == O_PTR && y.op == O_PTR && x.c == y.c) return mk(O_ULT, 1, x.a[0], y.a[0]);
                if (op == O_ULT && y.op == O_CONST && y.c == 0) return mkConst(1, 0);
                if (op == O_ULT && y.op == O_CONST && y.c == 1) return mk(O_EQ, 1, a, mkConst(x.w, 0));
                if (op == O_ULT && x.op == O_CONST && x.c == maskw(x.w)) return mkConst(1, 0);
                if (op == O_ULT && x.op == O_CONST && x.c == 0) return mk(O_NOT, 1, mk(O_EQ, 1, b, a));
                // the ways to ask whether a sum of amounts wraps are one
                if (op == O_ULT && x.w == 64) {
                    if (x.op == O_SUB && tab[x.a[0]].op == O_CONST && tab[x.a[0]].c == ~0ull) return mk(O_UADDO, 1, x.a[1], b);
                    if (x.op == O_XOR && tab[x.a[1]].op == O_CONST && tab[x.a[1]].c == ~0ull) return mk(O_UADDO, 1, x.a[0], b);
                    if (x.op == O_ADD && (x.a[0] == b || x.a[1] == b)) return mk(O_UADDO, 1, x.a[0], x.a[1]);
                }
                bool xz = x.op == O_ZEXT, yz = y.op == O_ZEXT;
                if (xz && yz && tab[x.a[0]].w == tab[y.a[0]].w) return mk(O_ULT, 1, x.a[0], y.a[0]);
                if (xz && y.op == O_CONST) {
                    unsigned sw = tab[x.a[0]].w;
                    if (op == O_SLT && sx(y.c, y.w) <= 0) return mkConst(1, 0);
                    if (y.c > maskw(sw)) return mkConst(1, 1);
                    return mk(O_ULT, 1, x.a[0], mkConst(sw, y.c));
                }
                if (yz && x.op == O_CONST) {
                    unsigned sw = tab[y.a[0]].w;
                    if (op == O_SLT && sx(x.c, x.w) < 0) return mkConst(1, 1);
                    if (x.c >= maskw(sw)) return mkConst(1, 0);
                    return mk(O_ULT, 1, mkConst(sw, x.c), y.a[0]);
                }
                if (op == O_SLT && xz && yz) return mk(O_ULT, 1, a, b);
            }
            return raw(op, 1, a, b, 0, 0, x.labels | y.labels);
        }
        case O_NOT: {
            const Term x = tab[a];
            if (x.op == O_CONST) return mkConst(1, !x.c);
            if (x.op == O_NOT) return x.a[0];
            return raw(op, 1, a, 0, 0, 0, x.labels);
        }
        case O_ZEXT: case O_SEXT: {
            const Term x = tab[a];
            if (x.w == w) return a;
            if (x.op == O_CONST) return mkConst(w, op == O_ZEXT ? x.c : (u64) sx(x.c, x.w));
            if (x.op == O_ZEXT) return mk(O_ZEXT, w, x.a[0]);
            return raw(op, w, a, 0, 0, 0, x.labels);
        }
        case O_TRUNC: {
            const Term x = tab[a];
            if (x.w == w) return a;
            if (x.op == O_CONST) return mkConst(w, x.c);
            if (x.op == O_ZEXT || x.op == O_SEXT) {
                unsigned sw = tab[x.a[0]].w;
                if (sw == w) return x.a[0];
                if (sw > w) return mk(O_TRUNC, w, x.a[0]);
                return mk(x.op, w, x.a[0]);
            }
            if (x.op == O_TRUNC) return mk(O_TRUNC, w, x.a[0]);
            if (w % 8 == 0 && (x.op == O_MEM || x.op == O_EXTRACT || x.op == O_BSWAP || x.op == O_CONCAT || x.op == O_DERIVE))
                return mk(O_EXTRACT, w, a, 0);
            return raw(op, w, a, 0, 0, 0, x.labels);
        }
        case O_SELECT: {
            const Term x = tab[a];
            if (x.op == O_CONST) return x.c ? b : c3;
            if (b == c3) return b;
            if (w == 1 && tab[b].op == O_CONST && tab[c3].op == O_CONST) return tab[b].c ? a : mk(O_NOT, 1, a);
            return raw(op, w, a, b, c3, 0, x.labels | L(b) | L(c3));
        }
        case O_EXTRACT: {  // bytes [b, b+w/8) of a ; b is a plain byte offset, not a term
            const Term x = tab[a];
            if (b == 0 && x.w == w) return a;
            if (x.op == O_CONST) return mkConst(w, b >= 8 ? 0 : x.c >> (8 * b));
            if (x.op == O_MEM) return mkMem(x.a[0], x.a[1] + b, w / 8);
            if (x.op == O_DERIVE) return raw(O_DERIVE, w, x.a[0] + b, 0, 0, x.c, x.labels);
            if (x.op == O_EXTRACT) return mk(O_EXTRACT, w, x.a[0], x.a[1] + b);
            if (x.op == O_ZEXT) {
                unsigned sw = tab[x.a[0]].w;
                if (sw % 8 == 0) {
                    if (b * 8 >= sw) return mkConst(w, 0);
                    if (b * 8 + w <= sw) return mk(O_EXTRACT, w, x.a[0], b);
                } else if (b > 0)
                    return mkConst(w, 0);
            }
            if (x.op == O_BSWAP && w == 8) return mk(O_EXTRACT, 8, x.a[0], x.w / 8 - 1 - b);
            if (x.op == O_CONCAT) {
                unsigned lw = tab[x.a[0]].w;
                if (b * 8 + w <= lw) return mk(O_EXTRACT, w, x.a[0], b);
                if (b * 8 >= lw) return mk(O_EXTRACT, w, x.a[1], b - lw / 8);
            }
            return raw(op, w, a, b, 0, 0, x.labels);
        }
        case O_CONCAT: {
            const Term x = tab[a], y = tab[b];
            if (x.op == O_CONST && y.op == O_CONST) return mkConst(w, x.c | (y.c << x.w));
            if (x.op == O_MEM && y.op == O_MEM && x.a[0] == y.a[0] && x.a[1] + x.c == y.a[1])
                return mkMem(x.a[0], x.a[1], (u32) (x.c + y.c));
            if (x.op == O_DERIVE && y.op == O_DERIVE && x.c == y.c && x.a[0] + x.w / 8 == y.a[0])
                return raw(O_DERIVE, w, x.a[0], 0, 0, x.c, x.labels);
            // pieces of the same value
            T bx = x.op == O_EXTRACT ? x.a[0] : (x.op == O_TRUNC ? x.a[0] : NOTERM);
            u32 bo = x.op == O_EXTRACT ? x.a[1] : 0;
            if (bx != NOTERM && y.op == O_EXTRACT && y.a[0] == bx && y.a[1] == bo + x.w / 8) {
                if (bo == 0 && tab[bx].w == w) return bx;
                return mk(O_EXTRACT, w, bx, bo);
            }
            if (y.op == O_CONST && y.c == 0 ) return mk(O_ZEXT, w, a);
            return raw(op, w, a, b, 0, 0, x.labels | y.labels);
        }
        case O_BSWAP: {
            const Term x = tab[a];
            if (x.op == O_CONST) {
                u64 v = 0;
                for (unsigned i = 0; i < w / 8; i++) v = (v << 8) | ((x.c >> (8 * i)) & 0xff);
                return mkConst(w, v);
            }
            if (x.op == O_BSWAP) return x.a[0];
            return raw(op, w, a, 0, 0, 0, x.labels);
        }
        case O_AGG: return raw(op, 0, a, b, 0, 0, L(a) | L(b));
        case O_UADDO: case O_USUBO: case O_UMULO: case O_SADDO: case O_SSUBO: case O_SMULO: {
            const Term x = tab[a], y = tab[b];
            unsigned ww = x.w;
            if (x.op == O_CONST && y.op == O_CONST) {
                bool r = false;
                i128 sa = sx(x.c, ww), sb = sx(y.c, ww);
                u128 ua = x.c, ub = y.c;
                i128 smin = -((i128) 1 << (ww - 1)), smax = ((i128) 1 << (ww - 1)) - 1;
                i128 s = 0;
                switch (op) {
                    case O_UADDO: r = ua + ub > maskw(ww); break;
                    case O_USUBO: r = ub > ua; break;
                    case O_UMULO: r = ua * ub > maskw(ww); break;
                    case O_SADDO: s = sa + sb; r = s < smin || s > smax; break;
                    case O_SSUBO: s = sa - sb; r = s < smin || s > smax; break;
                    default: s = sa * sb; r = s < smin || s > smax;
                }
                return mkConst(1, r);
            }
            if (op == O_USUBO) return mk(O_ULT, 1, a, b);
            if ((op == O_UADDO || op == O_SADDO) && a > b) return raw(op, 1, b, a, 0, 0, x.labels | y.labels);
            return raw(op, 1, a, b, 0, 0, x.labels | y.labels);
        }
        case O_MEMCMP: {
            if (a == b) return mkConst(32, 0);
            if (a > b) std::swap(a, b);
            return raw(op, 32, a, b, 0, 0, L(a) | L(b));
        }
        case O_DERIVE: return raw(op, w, a, 0, 0, c, lab);
        case O_PTRINT: return raw(op, 32, a, 0, 0, 0, L(a));
        default: break;
    }
    fprintf(stderr, "engine: mk(%d)\n", op);
    abort();
}

static const char* opn[] = {"const", "sym", "ptr", "func", "mem", "+", "-", "*", "/", "s/", "%", "s%", "&", "|", "^",
                            "<<", ">>", "s>>", "==", "<", "s<", "!", "zext", "sext", "trunc", "select", "extract",
                            "concat", "bswap", "agg", "uaddo", "usubo", "umulo", "saddo", "ssubo", "smulo", "data",
                            "memcmp", "derive", "ptrint"};
std::string termStr(T t, int d) {
    const Term& x = tab[t];
    char b[96];
    switch (x.op) {
        case O_CONST: snprintf(b, sizeof b, x.c > 4096 ? "0x%llx" : "%llu", (unsigned long long) x.c); return b;
        case O_SYM: return "$" + symName(x.c);
        case O_PTR: return "&" + objs[x.c].name + "+" + termStr(x.a[0], d - 1);
        case O_FUNC: return "fn:" + M.funcs[x.c]->name;
        case O_MEM: snprintf(b, sizeof b, "mem%u[%u:%llu]", x.a[0], x.a[1], (unsigned long long) x.c); return b;
        case O_DATA: {
            if (d <= 0) return "data";
            std::string s = "data<";
            int k = 0;
            for (auto& p : dtab[x.c].parts) {
                if (k++ > 6) { s += ".."; break; }
                s += termStr(p.t, d - 1) + " ";
            }
            return s + ">";
        }
        case O_DERIVE: return "derive" + std::to_string(x.c) + "[" + std::to_string(x.a[0]) + "]";
        default: break;
    }
    if (d <= 0) return "..";
    std::string s = std::string("(") + opn[x.op] + " " + termStr(x.a[0], d - 1);
    if (x.op == O_EXTRACT) return s + " @" + std::to_string(x.a[1]) + ")";
    bool two = (x.op >= O_ADD && x.op <= O_SLT) || x.op == O_CONCAT || x.op == O_SELECT || (x.op >= O_AGG && x.op <= O_SMULO) || x.op == O_MEMCMP;
    if (two) s += " " + termStr(x.a[1], d - 1);
    if (x.op == O_SELECT) s += " " + termStr(x.a[2], d - 1);
    return s + ")";
}
