// Abstract semantics of library functions, LLVM intrinsics and the analysis intrinsics (va_*).
#include "interp.h"

using NFn = std::function<void(const Inst&, std::vector<T>&, State, std::vector<Out>&)>;
static std::unordered_map<std::string, NFn> tab;

static void ret(std::vector<Out>& o, State st, T r = NOTERM) {
    Out x;
    x.ret = r;
    x.st = std::move(st);
    o.push_back(std::move(x));
}
struct Loc {
    bool ok = false;
    u32 obj = 0;
    T off = NOTERM;
    bool isC = false;
    u32 c = 0;
    u32 size = 0;
    u32 endMax = ~0u;  // bound of the end of the access
};
// resolves [p, p+n) with n up to `max`
// `len`, when given, is the exact length: a length correlated with the offset bounds the end
static Loc locate(State& st, T p, u32 n, bool write, T len = NOTERM) {
    Loc l;
    p = normT(p, st);
    if (n == 0) return l;
    l.endMax = ~0u;
    if (len != NOTERM && !isConst(len) && TT(p).op == O_PTR && !isConst(TT(p).a[0])) {
        const Obj* o = peekObj(st, (u32) TT(p).c);
        T off = normT(TT(p).a[0], st);
        Range ro = rangeOf(off, *st.facts), re = rangeOf(mk(O_ADD, 32, off, len), *st.facts);
        if (o && !ro.isEmpty() && !re.isEmpty() && ro.hi() < o->size && re.hi() <= o->size) {
            l.ok = checkAccess(st, p, 1, write, l.obj, l.off);
            l.size = o->size;
            l.endMax = (u32) re.hi();
            return l;
        }
    }
    if (TT(p).op == O_SELECT) note("library access through a selected pointer in " + curWhere());
    l.ok = checkAccess(st, p, n, write, l.obj, l.off);
    if (l.ok) {
        l.isC = isConst(l.off);
        if (l.isC) l.c = (u32) cval(l.off);
        l.size = peekObj(st, l.obj)->size;
    }
    return l;
}
static bool forkPtr(const Inst& in, std::vector<T>& a, State& st, std::vector<Out>& outs, const std::string& name,
                    std::initializer_list<int> idx) {
    for (int i : idx) {
        a[i] = normT(a[i], st);
        const Term x = TT(a[i]);
        if (x.op != O_SELECT) continue;
        State s2 = st;
        std::vector<T> b = a;
        if (assumeT(x.a[0], true, editFacts(st))) {
            a[i] = x.a[1];
            runNative(name, in, a, st, outs);
        }
        if (assumeT(x.a[0], false, editFacts(s2))) {
            b[i] = x.a[2];
            runNative(name, in, b, s2, outs);
        }
        return true;
    }
    return false;
}
static u64 labelsAt(State& st, T p, u32 n) {
    p = normT(p, st);
    const Term x = TT(p);
    if (x.op != O_PTR) return x.labels;
    const Obj* o = peekObj(st, (u32) x.c);
    if (!o || !n) return 0;
    Range r = rangeOf(x.a[0], *st.facts);
    u32 lo = (u32) std::min<u64>(r.lo(), o->size), hi = (u32) std::min<u64>(r.hi() + n, o->size);
    return lo < hi ? labelsOf(*o, lo, hi - lo) : 0;
}
// content of [p, p+len) as a data term; len may be symbolic
static T contentOf(State& st, T p, T len) {
    p = normT(p, st);
    len = normT(len, st);
    const Term x = TT(p);
    if (isConst(len) && cval(len) == 0) return mkData(Data{});
    if (x.op != O_PTR) return mkData(Data{{{p, 4}}, NOTERM, len});
    const Obj* o = peekObj(st, (u32) x.c);
    if (!o) return mkData(Data{{{p, 4}}, NOTERM, len});
    T off = normT(x.a[0], st);
    Range ro = rangeOf(off, *st.facts), rl = rangeOf(len, *st.facts);
    if (isConst(off) && isConst(len)) {
        u32 n = (u32) std::min<u64>(cval(len), o->size > cval(off) ? o->size - cval(off) : 0);
        return dataTerm(*o, (u32) cval(off), n);
    }
    u32 lo = (u32) std::min<u64>(ro.lo(), o->size), hi = (u32) std::min<u64>(ro.hi() + rl.hi(), o->size);
    if (hi < lo) hi = lo;
    Data d;
    d.parts = readParts(*o, lo, hi - lo);
    d.off = isConst(off) ? NOTERM : mk(O_ADD, 32, off, mkConst(32, 0 - (u64) lo));
    d.len = len;
    return mkData(d);
}
// two contents are provably equal
static bool sameData(const State& st, T x, T y) {
    bool eq = x == y;
    if (!eq) {  // a comparison on the path established equality
        T c = mk(O_MEMCMP, 32, x, y);
        eq = evalBool(mk(O_EQ, 1, c, mkConst(32, 0)), *st.facts) == 1;
    }
    if (!eq) {
        const Data dx = dataOf(x), dy = dataOf(y);
        if (dx.off == NOTERM && dy.off == NOTERM && dx.parts.size() == dy.parts.size()) {
            eq = true;
            for (size_t i = 0; i < dx.parts.size() && eq; i++) {
                if (dx.parts[i] == dy.parts[i]) continue;
                if (dx.parts[i].size != dy.parts[i].size || dx.parts[i].size > 8) eq = false;
                else {
                    T p = dx.parts[i].t, q = dy.parts[i].t;
                    if (TT(p).w != TT(q).w || !TT(p).w) eq = false;
                    else if (evalBool(mk(O_EQ, 1, p, q), *st.facts) != 1) {
                        Range rp = rangeOf(p, *st.facts), rq = rangeOf(q, *st.facts);
                        if (!(rp.isSingle() && rq.isSingle() && rp.lo() == rq.lo())) eq = false;
                    }
                }
            }
        }
    }
    return eq;
}
static void havocRange(State& st, const Loc& l, u32 maxn, u32 gen, bool weak) {
    // writes the bytes of gen at the location
    Obj* o = editObj(st, l.obj);
    if (l.isC && !weak) {
        u32 hi = std::min(l.c + maxn, o->size);
        setBg(*o, l.c, hi, B_SYM, gen, -(int) l.c);
        return;
    }
    Range r = rangeOf(l.off, *st.facts);
    u32 lo = (u32) r.lo(), hi = (u32) std::min<u64>(std::min<u64>(r.hi() + maxn, l.endMax), o->size);
    u64 lab = labelsOf(*o, lo, hi - lo) | genLabels(gen);
    T d = dataTerm(*o, lo, hi - lo);
    u32 g = newGen("HV:" + std::to_string(gen) + ":" + std::to_string(d) + ":" + std::to_string(l.off) + ":" + std::to_string(lo), lab);
    setBg(*o, lo, hi, B_SYM, g, -(int) lo);
}

static void doMemcpy(const Inst& in, std::vector<T>& a, State st, std::vector<Out>& outs, T retv) {
    T n = normT(a[2], st);
    if (TT(n).w > 32) n = mk(O_TRUNC, 32, n);
    Range r = rangeOf(n, *st.facts);
    u32 mx = r.isEmpty() ? 0 : (u32) std::min<u64>(r.hi(), 1u << 20);
    if (mx == 0) {
        ret(outs, st, retv);
        return;
    }
    a[0] = normT(a[0], st);
    a[1] = normT(a[1], st);
    if (a[0] == a[1]) {
        ret(outs, st, retv);
        return;
    }
    // object bounds apply to the largest length
    Loc s = locate(st, a[1], mx, false, n), d = locate(st, a[0], mx, true, n);
    if (!d.ok) {
        ret(outs, st, retv);
        return;
    }
    if (!s.ok) {
        havocRange(st, d, mx, freshGen("cpyunk", 0), !isConst(n));
        ret(outs, st, retv);
        return;
    }
    if (isConst(n) && s.isC && d.isC) {
        copyRegion(st, d.obj, d.c, s.obj, s.c, mx);
    } else {
        T c = contentOf(st, a[1], n);
        u32 g = newGen("CPY:" + std::to_string(c), TT(c).labels);
        havocRange(st, d, mx, g, !isConst(n));
    }
    ret(outs, st, retv);
}
static void doMemset(const Inst& in, std::vector<T>& a, State st, std::vector<Out>& outs, T retv) {
    T n = normT(a[2], st), v = normT(a[1], st);
    if (TT(n).w > 32) n = mk(O_TRUNC, 32, n);
    Range r = rangeOf(n, *st.facts);
    u32 mx = r.isEmpty() ? 0 : (u32) std::min<u64>(r.hi(), 1u << 20);
    if (mx) {
        Loc d = locate(st, a[0], mx, true, n);
        if (d.ok) {
            if (TT(v).w != 8) v = mk(O_TRUNC, 8, v);
            if (d.isC && isConst(n)) {
                Obj* o = editObj(st, d.obj);
                if (isConst(v) && cval(v) == 0) setBg(*o, d.c, d.c + mx, B_ZERO, 0, 0);
                else if (mx <= 64)
                    for (u32 i = 0; i < mx; i++) storeAt(*o, d.c + i, 1, v, false);
                else setBg(*o, d.c, d.c + mx, B_SYM, newGen("SET:" + std::to_string(v), TT(v).labels), -(int) d.c);
            } else
                havocRange(st, d, mx, newGen("SET:" + std::to_string(v), TT(v).labels), true);
        }
    }
    ret(outs, st, retv);
}
std::string readCStr(const State& s, T p) {
    p = normT(p, s);
    const Term x = TT(p);
    std::string r;
    if (x.op != O_PTR || !isConst(x.a[0])) return "?";
    const Obj* o = peekObj(s, (u32) x.c);
    if (!o) return "?";
    for (u32 i = (u32) cval(x.a[0]); i < o->size; i++) {
        T b = loadAt(*o, i, 1);
        if (!isConst(b)) return r + "?";
        if (!cval(b)) return r;
        r += (char) cval(b);
    }
    return r + "?";
}
// length of a string when it is known: -1 otherwise
static i64 knownLen(const State& s, T p) {
    std::string t = readCStr(s, p);
    if (!t.empty() && t.back() == '?') return -1;
    return (i64) t.size();
}
static T argc(const std::vector<T>& a, size_t i) { return i < a.size() ? a[i] : mkConst(32, 0); }
static u64 cArg(State& st, T t) {
    T n = normT(t, st);
    if (!isConst(n)) {
        note("intrinsic argument is not constant in " + curWhere());
        return 0;
    }
    return cval(n);
}

// log2 of a constant power of two, else -1
static int log2Of(T t) {
    if (!isConst(t) || !cval(t) || (cval(t) & (cval(t) - 1))) return -1;
    return __builtin_ctzll(cval(t));
}
// a value bit by bit: every bit is known, or bit i of a term that cannot be taken apart any further
struct Bit {
    T t;
    u32 i;
    bool neg = false;   // the opposite of it
    bool zero() const { return t == NOTERM && !i; }
    bool known() const { return t == NOTERM; }
    Bit operator!() const { return known() ? Bit{t, !i} : Bit{t, i, !neg}; }
    bool operator==(const Bit& b) const { return t == b.t && i == b.i && neg == b.neg; }
};
struct Bits {
    const State& st;
    std::unordered_map<T, std::vector<Bit>> memo;
    std::vector<Bit> of(T t) {
        auto it = memo.find(t);
        if (it != memo.end()) return it->second;
        std::vector<Bit> r = make(t);
        Range g = rangeOf(t, *st.facts);
        if (!g.isEmpty()) {
            u64 lo = g.lo(), hi = g.hi();   // what they begin with is known
            for (u32 i = 0; i < r.size() && i < 64; i++)
                if (lo >> i == hi >> i) r[i] = {NOTERM, (u32) (lo >> i & 1)};
        }
        memo[t] = r;
        return r;
    }
    std::vector<Bit> leaf(T t) {
        u32 w = TT(t).w;
        std::vector<Bit> r(w);
        for (u32 i = 0; i < w; i++) r[i] = {t, i};
        if (w % 8 == 0 && w > 8)
            for (u32 k = 0; k < w / 8; k++) {
                T b = mk(O_EXTRACT, 8, t, k);
                bool mine = TT(b).op == O_EXTRACT && TT(b).a[0] == t;
                std::vector<Bit> s;
                if (!mine) s = of(normT(b, st));
                for (u32 i = 0; i < 8; i++) r[8 * k + i] = mine ? Bit{b, i} : s[i];
            }
        return r;
    }
    std::vector<Bit> make(T t) {
        const Term x = TT(t);
        u32 w = x.w;
        std::vector<Bit> r(w, Bit{NOTERM, 0});
        if (w > 64) return leaf(t);
        auto arg = [&](int i) { return of(normT(x.a[i], st)); };
        switch (x.op) {
            case O_CONST:
                for (u32 i = 0; i < w; i++) r[i].i = x.c >> i & 1;
                return r;
            case O_ZEXT: case O_SEXT: case O_TRUNC: {
                const Term y = TT(normT(x.a[0], st));
                if (x.op == O_TRUNC && (y.op == O_ADD || y.op == O_SUB || y.op == O_MUL)) {  // narrow sums are sums of narrow values
                    T p = mk(O_TRUNC, w, normT(y.a[0], st)), q = mk(O_TRUNC, w, normT(y.a[1], st));
                    return of(mk(y.op, w, p, q));
                }
                std::vector<Bit> a = arg(0);
                for (u32 i = 0; i < w; i++)
                    if (i < a.size()) r[i] = a[i];
                    else if (x.op == O_SEXT) r[i] = a.back();
                return r;
            }
            case O_AND: case O_OR: case O_XOR: case O_ADD: case O_SUB: {
                std::vector<Bit> a = arg(0), b = arg(1);
                auto all = [&](const std::vector<Bit>& v, u64& c) {
                    c = 0;
                    for (u32 i = 0; i < w; i++)
                        if (!v[i].known()) return false;
                        else c |= (u64) v[i].i << i;
                    return true;
                };
                u64 p, q;
                if (x.op == O_SUB || x.op == O_ADD) {
                    if (all(a, p) && all(b, q)) {
                        p = x.op == O_SUB ? p - q : p + q;
                        for (u32 i = 0; i < w; i++) r[i].i = p >> i & 1;
                        return r;
                    }
                    if (x.op == O_SUB) return leaf(t);
                }
                for (u32 i = 0; i < w; i++) {
                    bool az = a[i].zero(), bz = b[i].zero(), a1 = a[i].known() && !az, b1 = b[i].known() && !bz;
                    if (x.op == O_ADD) {
                        if (!az && !bz) return leaf(t);
                        r[i] = az ? b[i] : a[i];
                    } else if (x.op == O_AND) {
                        if (az || bz) continue;
                        if (a1) r[i] = b[i];
                        else if (b1 || a[i] == b[i]) r[i] = a[i];
                        else r[i] = {t, i};
                    } else if (x.op == O_OR) {
                        if (a1 || b1) r[i].i = 1;
                        else if (az) r[i] = b[i];
                        else if (bz || a[i] == b[i]) r[i] = a[i];
                        else r[i] = {t, i};
                    } else {
                        if (az) r[i] = b[i];
                        else if (bz) r[i] = a[i];
                        else if (a[i] == b[i]) continue;
                        else if (a1) r[i] = !b[i];
                        else if (b1) r[i] = !a[i];
                        else r[i] = {t, i};
                    }
                }
                return r;
            }
            case O_ASHR: {
                T by = normT(x.a[1], st);
                if (!isConst(by)) return leaf(t);
                std::vector<Bit> a = arg(0);
                for (u32 i = 0; i < w; i++) r[i] = a[std::min<u64>(i + std::min<u64>(cval(by), 64), w - 1)];
                return r;
            }
            case O_MUL: case O_SHL: {
                T by = normT(x.a[1], st), val = x.a[0];
                int k = x.op == O_SHL ? (isConst(by) ? (int) std::min<u64>(cval(by), 64) : -1) : log2Of(by);
                if (x.op == O_MUL && k < 0) k = log2Of(normT(x.a[0], st)), val = x.a[1];
                if (k < 0) return leaf(t);
                std::vector<Bit> a = of(normT(val, st));
                for (u32 i = (u32) k; i < w; i++) r[i] = a[i - k];
                return r;
            }
            case O_UDIV: case O_LSHR: case O_UREM: {
                T by = normT(x.a[1], st);
                int k = x.op == O_LSHR ? (isConst(by) ? (int) std::min<u64>(cval(by), 64) : -1) : log2Of(by);
                if (k < 0) return leaf(t);
                std::vector<Bit> a = arg(0);
                if (x.op == O_UREM) for (u32 i = 0; i < w && i < (u32) k; i++) r[i] = a[i];
                else for (u32 i = 0; i + k < w; i++) r[i] = a[i + k];
                return r;
            }
            case O_EXTRACT: {
                if (TT(x.a[0]).w > 64 || TT(x.a[0]).op == O_MEM) return leaf(t);
                std::vector<Bit> a = arg(0);
                for (u32 i = 0; i < w; i++) r[i] = 8 * x.a[1] + i < a.size() ? a[8 * x.a[1] + i] : Bit{t, i};
                return r;
            }
            case O_CONCAT: {
                std::vector<Bit> a = arg(0), b = arg(1);
                for (u32 i = 0; i < w; i++) r[i] = i < a.size() ? a[i] : b[i - a.size()];
                return r;
            }
            case O_BSWAP: {
                std::vector<Bit> a = arg(0);
                for (u32 i = 0; i < w; i++) r[i] = a[w - 8 - i / 8 * 8 + i % 8];
                return r;
            }
            case O_SELECT: {
                std::vector<Bit> a = arg(1), b = arg(2);
                for (u32 i = 0; i < w; i++) r[i] = a[i] == b[i] ? a[i] : Bit{t, i};
                return r;
            }
            default: return leaf(t);
        }
    }
    bool same(T p, T q) {
        p = normT(p, st), q = normT(q, st);
        if (p == q) return true;
        if (TT(p).w == TT(q).w && evalBool(mk(O_EQ, 1, p, q), *st.facts) == 1) return true;
        if (TT(p).w > 64 || TT(q).w > 64 || !TT(p).w || !TT(q).w || TT(p).op == O_PTR || TT(q).op == O_PTR) return false;
        std::vector<Bit> a = of(p), b = of(q);
        for (size_t i = 0; i < std::max(a.size(), b.size()); i++)
            if (!((i < a.size() ? a[i] : Bit{NOTERM, 0}) == (i < b.size() ? b[i] : Bit{NOTERM, 0}))) return false;
        return true;
    }
};
// a comparison decided on the bits known of both sides: 0, 1, or -1
int bitsBool(T c, const State& st) {
    c = normT(c, st);
    const Term x = TT(c);
    if (x.op == O_NOT && x.w == 1) {
        int k = bitsBool(x.a[0], st);
        return k < 0 ? k : !k;
    }
    Bits bits{st, {}};
    if (x.op != O_EQ && x.op != O_ULT && x.op != O_SLT) {
        if (x.w != 1) return -1;
        std::vector<Bit> b = bits.of(c);
        return b.size() == 1 && b[0].known() ? (int) b[0].i : -1;
    }
    T p = normT(x.a[0], st), q = normT(x.a[1], st);
    u32 w = TT(p).w;
    if (!w || w > 64 || TT(q).w != w || TT(p).op == O_PTR || TT(q).op == O_PTR) return -1;
    std::vector<Bit> a = bits.of(p), b = bits.of(q);
    if (x.op == O_SLT) std::swap(a[w - 1], b[w - 1]);   // below zero is less
    if (x.op != O_EQ) {
        u64 lo[2] = {0, 0}, hi[2] = {0, 0};   // the least and the greatest they can be
        for (u32 i = 0; i < w; i++)
            for (int k = 0; k < 2; k++) {
                const Bit& t = k ? b[i] : a[i];
                lo[k] |= (u64) (t.known() && t.i) << i;
                hi[k] |= (u64) !t.zero() << i;
            }
        if (hi[0] < lo[1]) return 1;
        if (lo[0] >= hi[1]) return 0;
    }
    for (u32 i = w; i-- > 0;) {
        if (a[i] == b[i]) continue;
        if (a[i] == !b[i]) {
            if (x.op == O_EQ) return 0;
            if (a[i].known()) return a[i].zero();
        }
        if (x.op != O_EQ) return -1;
        for (u32 j = i; j-- > 0;)
            if (a[j] == !b[j]) return 0;
        return -1;
    }
    return x.op == O_EQ;
}
static void nondet(unsigned w, const char* dflt) {
    tab["va_nondet_" + std::string(dflt)] = [w](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        std::string nm = a.empty() ? "nd" : readCStr(st, a[0]);
        T s = freshSym(w, nm, 0);
        if (w == 8 && in.w == 1) s = freshSym(1, nm, 0);
        ret(o, st, s);
    };
}
static void init();
bool isNative(const std::string& n) {
    if (tab.empty()) init();
    if (tab.count(n)) return true;
    return n.rfind("llvm.", 0) == 0;
}
static void llvmIntrinsic(const std::string& n, const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
    auto has = [&](const char* p) { return n.rfind(p, 0) == 0; };
    if (has("llvm.memcpy.") || has("llvm.memmove.")) {
        if (forkPtr(in, a, st, o, n, {0, 1})) return;
        return doMemcpy(in, a, st, o, NOTERM);
    }
    if (has("llvm.memset.")) {
        if (forkPtr(in, a, st, o, n, {0})) return;
        return doMemset(in, a, st, o, NOTERM);
    }
    if (has("llvm.bswap.")) return ret(o, st, mk(O_BSWAP, in.w, a[0]));
    static const struct { const char* p; Op f, v; } ov[] = {{"llvm.uadd.with", O_UADDO, O_ADD}, {"llvm.usub.with", O_USUBO, O_SUB},
        {"llvm.umul.with", O_UMULO, O_MUL}, {"llvm.sadd.with", O_SADDO, O_ADD}, {"llvm.ssub.with", O_SSUBO, O_SUB},
        {"llvm.smul.with", O_SMULO, O_MUL}};
    for (auto& e : ov)
        if (has(e.p)) {
            unsigned w = TT(a[0]).w;
            return ret(o, st, mk(O_AGG, 0, mk(e.v, w, a[0], a[1]), mk(e.f, 1, a[0], a[1])));
        }
    if (has("llvm.expect.")) return ret(o, st, a[0]);
    if (has("llvm.umin.") || has("llvm.umax.") || has("llvm.smin.") || has("llvm.smax.")) {
        T c = mk(n[5] == 'u' ? O_ULT : O_SLT, 1, a[0], a[1]);
        bool mn = n.compare(6, 3, "min") == 0;
        return ret(o, st, mk(O_SELECT, in.w, c, mn ? a[0] : a[1], mn ? a[1] : a[0]));
    }
    if (has("llvm.trap") || has("llvm.debugtrap")) return;
    if (has("llvm.stacksave")) return ret(o, st, mkConst(32, 0));
    if (has("llvm.stackrestore")) return ret(o, st);
    if (has("llvm.objectsize")) return ret(o, st, mkConst(in.w, maskw(in.w)));
    note("unmodelled intrinsic " + n);
    ret(o, st, in.w ? freshSym(in.w, n, 0) : NOTERM);
}
void runNative(const std::string& name, const Inst& in, std::vector<T>& args, State st, std::vector<Out>& outs) {
    auto it = tab.find(name);
    if (it != tab.end()) it->second(in, args, std::move(st), outs);
    else llvmIntrinsic(name, in, args, std::move(st), outs);
}
static Range addrRange(State& st, T n) { return rangeOf(n, *st.facts); }

static void init() {
    tab["memcpy"] = tab["memmove"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "memcpy", {0, 1})) return;
        T r = a[0];
        doMemcpy(in, a, st, o, r);
    };
    tab["memset"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "memset", {0})) return;
        T r = a[0];
        doMemset(in, a, st, o, r);
    };
    tab["explicit_bzero"] = tab["bzero"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "explicit_bzero", {0})) return;
        std::vector<T> b = {a[0], mkConst(32, 0), a[1]};
        doMemset(in, b, st, o, NOTERM);
    };
    tab["memcmp"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "memcmp", {0, 1})) return;
        T n = normT(a[2], st);
        Range r = addrRange(st, n);
        u32 mx = r.isEmpty() ? 0 : (u32) std::min<u64>(r.hi(), 1u << 20);
        if (!mx) return ret(o, st, mkConst(32, 0));
        locate(st, a[0], mx, false);
        locate(st, a[1], mx, false);
        T x = contentOf(st, a[0], n), y = contentOf(st, a[1], n);
        if (x != y && isConst(n) && cval(n) <= 64) {  // what is known of the words compared may decide
            u32 len = (u32) cval(n), step = len % 4 ? 1 : 4;
            const Term pa = TT(normT(a[0], st)), pb = TT(normT(a[1], st));
            if (pa.op == O_PTR && pb.op == O_PTR) {
                T fa = normT(pa.a[0], st), fb = normT(pb.a[0], st);
                const Obj *oa = peekObj(st, (u32) pa.c), *ob = peekObj(st, (u32) pb.c);
                if (oa && ob && isConst(fa) && isConst(fb) && cval(fa) + len <= oa->size && cval(fb) + len <= ob->size) {
                    if (cval(fa) % 4 || cval(fb) % 4) step = 1;
                    bool all = true, differ = false;
                    for (u32 k = 0; k < len && !differ; k += step) {
                        T u = loadAt(*oa, (u32) cval(fa) + k, step), v = loadAt(*ob, (u32) cval(fb) + k, step);
                        int e = evalBool(mk(O_EQ, 1, u, v), *st.facts);
                        if (e < 0 && step == 4) {  // compared byte by byte before?
                            bool same = true;
                            for (u32 j = 0; j < 4 && e < 0; j++) {
                                int q = evalBool(mk(O_EQ, 1, loadAt(*oa, (u32) cval(fa) + k + j, 1), loadAt(*ob, (u32) cval(fb) + k + j, 1)), *st.facts);
                                if (q == 0) e = 0;
                                if (q != 1) same = false;
                            }
                            if (e < 0 && same) e = 1;
                        }
                        if (e == 0) differ = true;
                        if (e != 1) all = false;
                    }
                    if (differ) {
                        T c = mk(O_MEMCMP, 32, x, y);
                        if (!assumeT(mk(O_EQ, 1, c, mkConst(32, 0)), false, editFacts(st))) return;
                        return ret(o, st, c);
                    }
                    if (all) return ret(o, st, mkConst(32, 0));
                }
            }
        }
        T c = mk(O_MEMCMP, 32, x, y);
        // the sign is not modelled: only equality with zero carries information
        ret(o, st, c);
    };
    tab["va_room"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "va_room", {0})) return;
        const Term x = TT(normT(a[0], st));
        u64 n = 0;
        if (x.op == O_PTR && !objInfo((u32) x.c).constant) {
            Range r = rangeOf(x.a[0], *st.facts);
            const Obj* ob = peekObj(st, (u32) x.c);
            if (ob && !r.isEmpty() && r.hi() <= ob->size) n = ob->size - r.hi();
        }
        ret(o, st, mkConst(32, n));
    };
    tab["strlen"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "strlen", {0})) return;
        i64 k = knownLen(st, a[0]);
        if (k >= 0) return ret(o, st, mkConst(32, (u64) k));
        T p = normT(a[0], st);
        const Term x = TT(p);
        T s;
        if (x.op == O_PTR && peekObj(st, (u32) x.c)) {
            const Obj* ob = peekObj(st, (u32) x.c);
            Range r = rangeOf(x.a[0], *st.facts);
            u32 lo = (u32) std::min<u64>(r.lo(), ob->size);
            s = mk(O_ZEXT, 32, mkMem(newGen("strlen:" + std::to_string(contentOf(st, p, mkConst(32, ob->size - lo))), labelsOf(*ob, lo, ob->size - lo)), 0, 2));
            refineT(s, Range::interval(0, ob->size - lo), editFacts(st));
        } else
            s = freshSym(32, "strlen", 0);
        ret(o, st, s);
    };
    tab["strnlen"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T s = freshSym(32, "strnlen", 0);
        Range r = addrRange(st, a[1]);
        refineT(s, Range::interval(0, r.isEmpty() ? 0 : r.hi()), editFacts(st));
        ret(o, st, s);
    };
    tab["strcmp"] = tab["strncmp"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        ret(o, st, freshSym(32, "strcmp", 0));
    };
    auto strcp = [](const std::string& nm) {
        return [nm](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
            if (forkPtr(in, a, st, o, nm, {0, 1})) return;
            T rv = nm == "strlcpy" ? freshSym(32, "strlcpy", 0) : a[0];
            T n = normT(a[2], st);
            Range r = addrRange(st, n);
            u32 mx = r.isEmpty() ? 0 : (u32) std::min<u64>(r.hi(), 1u << 16);
            if (!mx) return ret(o, st, rv);
            Loc d = locate(st, a[0], mx, true, n);
            if (!d.ok) return ret(o, st, rv);
            i64 k = knownLen(st, a[1]);
            if (k >= 0 && isConst(n) && d.isC) {
                Obj* ob = editObj(st, d.obj);
                std::string s = readCStr(st, a[1]);
                if (nm == "strlcpy" && k >= (i64) mx) s = s.substr(0, mx - 1), k = mx - 1;
                setBg(*ob, d.c, d.c + (nm == "strlcpy" ? (u32) std::min<u64>(mx, k + 1) : mx), B_ZERO, 0, 0);
                for (u32 i = 0; i < mx && i < (u32) k; i++) storeAt(*ob, d.c + i, 1, mkConst(8, (u8) s[i]), true);
            } else {
                T p = normT(a[1], st);
                u64 lab = labelsAt(st, p, 64);
                u32 g = newGen("STR:" + std::to_string(contentOf(st, p, mkConst(32, 64))), lab);
                havocRange(st, d, mx, g, !isConst(n));
            }
            ret(o, st, rv);
        };
    };
    tab["strncpy"] = strcp("strncpy");
    tab["strlcpy"] = strcp("strlcpy");
    tab["snprintf"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "snprintf", {0})) return;
        T n = normT(a[1], st);
        Range r = addrRange(st, n);
        u32 mx = r.isEmpty() ? 0 : (u32) std::min<u64>(r.hi(), 1u << 16);
        std::string key = "FMT:" + readCStr(st, a[2]);
        u64 lab = 0;
        for (size_t i = 3; i < a.size(); i++) {
            T v = normT(a[i], st);
            std::string s = TT(v).op == O_PTR ? readCStr(st, v) : "";
            key += "|" + (s.empty() || s == "?" ? std::to_string(v) : "\"" + s);
            lab |= TT(v).labels;
        }
        u32 g = newGen(key, lab);
        i64 total = -1;   // the length of the text, when known
        if (mx) {
            Loc d = locate(st, a[0], mx, true, n);
            if (d.ok) havocRange(st, d, mx, g, !isConst(n));
            // literals, constants and hexadecimal numbers of a fixed width are written as they come
            std::string f = readCStr(st, a[2]);
            if (d.ok && d.isC && isConst(n)) {
                struct Piece { bool hex; u8 c; u32 g, at; };
                std::vector<Piece> out;
                bool ok = true;
                size_t arg = 3;
                for (size_t i = 0; ok && i < f.size(); i++) {
                    if (f[i] != '%') { out.push_back({false, (u8) f[i], 0, 0}); continue; }
                    std::string spec = "%";
                    while (++i < f.size() && strchr("0123456789", f[i])) spec += f[i];
                    if (i >= f.size() || arg >= a.size()) { ok = false; break; }
                    char conv = f[i];
                    spec += conv;
                    T v = normT(a[arg++], st);
                    Range vr = addrRange(st, v);
                    i64 c = isConst(v) ? (i64) (cval(v) & 0xFFFFFFFF) : !vr.isEmpty() && vr.lo() == vr.hi() ? (i64) vr.lo() : -1;
                    if (TT(v).w == 32 && (conv == 'd' || conv == 'i' || conv == 'u' || conv == 'x') && c >= 0) {
                        char tmp[64];
                        if (spec.size() > 4) { ok = false; break; }
                        snprintf(tmp, sizeof tmp, spec.c_str(), (int) (u32) c);
                        for (char* t = tmp; *t; t++) out.push_back({false, (u8) *t, 0, 0});
                    } else if (TT(v).w == 32 && spec == "%08x") {
                        u32 hg = newGen("HEX8:" + std::to_string(v), TT(v).labels);
                        for (u32 k = 0; k < 8; k++) out.push_back({true, 0, hg, k});
                    } else ok = false;
                }
                Obj* ob = editObj(st, d.obj);
                for (size_t i = 0; i < out.size() && i + 1 < mx; i++)
                    storeAt(*ob, d.c + (u32) i, 1, out[i].hex ? mkMem(out[i].g, out[i].at, 1) : mkConst(8, out[i].c), true);
                if (ok) {
                    total = (i64) out.size();
                    storeAt(*ob, d.c + (u32) std::min<u64>(out.size(), mx - 1), 1, mkConst(8, 0), true);
                }
            }
        }
        if (total >= 0) {
            ret(o, st, mkConst(32, (u64) total));
            return;
        }
        T s = mkMem(newGen("LEN" + key, lab), 0, 4);
        refineT(s, Range::interval(0, 4096), editFacts(st));
        ret(o, st, s);
    };
    tab["abort"] = tab["va_ledger_assert_fail"] = tab["va_end_path"] = [](const Inst&, std::vector<T>&, State, std::vector<Out>&) {
        stats["assert_paths"]++;
    };
    nondet(8, "u8");
    nondet(16, "u16");
    nondet(32, "u32");
    nondet(64, "u64");
    tab["va_nondet_bool"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T s = freshSym(1, a.empty() ? "nb" : readCStr(st, a[0]), 0);
        ret(o, st, in.w == 1 ? s : mk(O_ZEXT, in.w, s));
    };
    tab["va_nondet_range"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T s = freshSym(32, readCStr(st, argc(a, 2)), 0);
        editFacts(st).set(s, Range::interval(cArg(st, a[0]), cArg(st, a[1])));
        ret(o, st, s);
    };
    tab["va_assume"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T c = TT(a[0]).w == 1 ? a[0] : mk(O_NOT, 1, mk(O_EQ, 1, a[0], mkConst(TT(a[0]).w, 0)));
        if (assumeT(c, true, editFacts(st))) ret(o, st);
    };
    // va_assert(cond, "Pxx: message")
    tab["va_assert"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T c = TT(a[0]).w == 1 ? a[0] : mk(O_NOT, 1, mk(O_EQ, 1, a[0], mkConst(TT(a[0]).w, 0)));
        std::string m = readCStr(st, a[1]);
        std::string prop = m.substr(0, m.find(':'));
        std::string msg = m.size() > prop.size() + 2 ? m.substr(prop.size() + 2) : m;
        obligations.insert(prop + "|" + msg + "|" + curWhere());
        int k = evalBool(c, *st.facts);
        if (k < 0 && cfg.bits) k = bitsBool(c, st);
        if (k != 1) {
            if (getenv("VA_DEBUG")) fprintf(stderr, "assert %s: %s = %d\n", m.c_str(), termStr(c, 6).c_str(), k);
            report(prop, msg, st);
            if (!assumeT(c, true, editFacts(st))) return;
        }
        ret(o, st);
    };
    // va_require(prop..): like va_assert but an anchor: counts as an analysed instance of the rule only
    tab["va_reached"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        std::string m = readCStr(st, a[0]);
        obligations.insert("REACH|" + m);
        ret(o, st);
    };
    tab["va_must"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T c = TT(a[0]).w == 1 ? a[0] : mk(O_NOT, 1, mk(O_EQ, 1, a[0], mkConst(TT(a[0]).w, 0)));
        T r = mkConst(in.w, evalBool(c, *st.facts) == 1);
        ret(o, st, r);
    };
    tab["va_may"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T c = TT(a[0]).w == 1 ? a[0] : mk(O_NOT, 1, mk(O_EQ, 1, a[0], mkConst(TT(a[0]).w, 0)));
        T r = mkConst(in.w, evalBool(c, *st.facts) != 0);
        ret(o, st, r);
    };
    tab["va_hi"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T r = mkConst(in.w, rangeOf(a[0], *st.facts).hi());
        ret(o, st, r);
    };
    tab["va_lo"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T r = mkConst(in.w, rangeOf(a[0], *st.facts).lo());
        ret(o, st, r);
    };
    // case split on the value of an integer (at most 64 values, else unchanged)
    tab["va_split"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T v = normT(a[0], st);
        Range r = rangeOf(v, *st.facts);
        if (isConst(v) || r.count(64) > 64) return ret(o, st, v);
        r.each([&](u64 k) {
            State s = st;
            if (refineT(v, Range::single(k), editFacts(s))) ret(o, s, mkConst(in.w, k));
        });
    };
    // one case per object a pointer may designate
    tab["va_split_ptr"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "va_split_ptr", {0})) return;
        ret(o, st, a[0]);
    };
    // case split on a boolean; the cases stay apart until the next state at rest
    tab["va_cases"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T c = TT(a[0]).w == 1 ? a[0] : mk(O_NOT, 1, mk(O_EQ, 1, a[0], mkConst(TT(a[0]).w, 0)));
        State s2 = st;
        std::string at = std::to_string(st.part) + "," + std::to_string(in.scope) + ":" + std::to_string(in.line) + ":";
        st.part = internStr(at + "1") + 1;
        s2.part = internStr(at + "0") + 1;
        if (assumeT(c, true, editFacts(st))) ret(o, st, mkConst(in.w, 1));
        if (assumeT(c, false, editFacts(s2))) ret(o, s2, mkConst(in.w, 0));
    };
    // va_havoc(p, n, labels, name): fresh unknown bytes
    tab["va_havoc"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "va_havoc", {0})) return;
        T n = normT(a[1], st);
        Range r = addrRange(st, n);
        u32 mx = r.isEmpty() ? 0 : (u32) std::min<u64>(r.hi(), 1u << 16);
        if (mx) {
            Loc d = locate(st, a[0], mx, true);
            if (d.ok) havocRange(st, d, mx, freshGen(readCStr(st, argc(a, 3)), cArg(st, argc(a, 2))), !isConst(n));
        }
        ret(o, st);
    };
    // va_derive(dst, n, tag, labels, src1, n1, src2, n2, ...): deterministic function of the sources
    tab["va_derive"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "va_derive", {0})) return;
        for (size_t i = 4; i + 1 < a.size(); i += 2) {
            int k = (int) i;
            if (forkPtr(in, a, st, o, "va_derive", {k})) return;
        }
        std::string key = "D:" + readCStr(st, a[2]);
        u64 lab = cArg(st, a[3]);
        for (size_t i = 4; i + 1 < a.size(); i += 2) {
            T n = normT(a[i + 1], st);
            Range r = addrRange(st, n);
            u32 mx = r.isEmpty() ? 0 : (u32) std::min<u64>(r.hi(), 1u << 16);
            if (mx) locate(st, a[i], mx, false);
            key += ":" + std::to_string(contentOf(st, a[i], n));
        }
        T n = normT(a[1], st);
        Range r = addrRange(st, n);
        u32 mx = r.isEmpty() ? 0 : (u32) std::min<u64>(r.hi(), 1u << 16);
        if (mx) {
            Loc d = locate(st, a[0], mx, true);
            if (d.ok) havocRange(st, d, mx, newGen(key, lab), !isConst(n));
        }
        ret(o, st);
    };
    // va_derived_uN(tag, lo, hi, labels, src, n...): deterministic scalar
    tab["va_derived"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        std::string key = "DV:" + readCStr(st, a[0]);
        u64 lo = cArg(st, a[1]), hi = cArg(st, a[2]), lab = cArg(st, a[3]);
        for (size_t i = 4; i + 1 < a.size(); i += 2) {
            T n = normT(a[i + 1], st);
            key += ":" + std::to_string(contentOf(st, a[i], n));
        }
        T s = mkMem(newGen(key, lab), 0, 4);
        refineT(s, Range::interval(lo, hi), editFacts(st));
        ret(o, st, s);
    };
    tab["va_labels"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T n = normT(a[1], st);
        Range r = addrRange(st, n);
        u64 l = r.isEmpty() || !r.hi() ? 0 : labelsAt(st, a[0], (u32) std::min<u64>(r.hi(), 1u << 16));
        ret(o, st, mkConst(in.w, l));
    };
    // labels of the bytes from p to the first definite NUL or the end of the object
    tab["va_str_labels"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "va_str_labels", {0})) return;
        T p = normT(a[0], st);
        const Term x = TT(p);
        u64 l = 0;
        if (x.op == O_PTR && peekObj(st, (u32) x.c)) {
            const Obj* ob = peekObj(st, (u32) x.c);
            Range r = rangeOf(x.a[0], *st.facts);
            u32 lo = (u32) std::min<u64>(r.lo(), ob->size), i = lo;
            for (; i < ob->size; i++) {
                T b = loadAt(*ob, i, 1);
                if (isConst(b) && cval(b) == 0 && i >= r.hi()) break;
                l |= TT(b).labels;
            }
        }
        ret(o, st, mkConst(in.w, l));
    };
    tab["va_value_labels"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        ret(o, st, mkConst(in.w, TT(a[0]).labels));
    };
    // va_same(p, q, n): 1 when both regions provably hold equal bytes
    tab["va_same"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "va_same", {0, 1})) return;
        T n = normT(a[2], st);
        T x = contentOf(st, a[0], n), y = contentOf(st, a[1], n);
        bool eq = sameData(st, x, y);
        if (!eq && isConst(n) && cval(n) <= 4096) {  // byte by byte
            u32 len = (u32) cval(n);
            const Term pa = TT(normT(a[0], st)), pb = TT(normT(a[1], st));
            if (pa.op == O_PTR && pb.op == O_PTR) {
                T fa = normT(pa.a[0], st), fb = normT(pb.a[0], st);
                const Obj *oa = peekObj(st, (u32) pa.c), *ob = peekObj(st, (u32) pb.c);
                if (oa && ob && isConst(fa) && isConst(fb) && cval(fa) + len <= oa->size && cval(fb) + len <= ob->size) {
                    Bits bits{st, {}};
                    eq = true;
                    for (u32 k = 0; k < len && eq; k++) {
                        T u = loadAt(*oa, (u32) cval(fa) + k, 1), v = loadAt(*ob, (u32) cval(fb) + k, 1);
                        eq = bits.same(u, v);
                        if (!eq && getenv("VA_DEBUG"))
                            fprintf(stderr, "va_same: byte %u: %s\n     vs %s\n", k, termStr(u, 6).c_str(), termStr(v, 6).c_str());
                    }
                }
            }
        }
        ret(o, st, mkConst(in.w, eq));
    };
    // what follows depends on a fresh draw: a loop that draws in every round and is left on some draws ends
    tab["va_drawn"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        st.drew = true;
        ret(o, st);
    };
    // from here on the number of rounds of a loop whose condition is unknown tells cases apart, like va_cases
    tab["va_loop_cases"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        st.loopCases = true;
        ret(o, st);
    };
    tab["va_forget_cases"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        st.part = 0;
        st.loopCases = false;
        ret(o, st);
    };
    // va_mark(): remembers the memory as it is; va_unchanged(): the application's variables are what they were then
    tab["va_mark"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        st.mark = std::make_shared<MemMap>(*st.mem);
        ret(o, st);
    };
    tab["va_unchanged"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        bool eq = st.mark != nullptr;
        for (auto& p : *st.mem) {
            int gl = objInfo(p.first).global;
            if (!eq) break;
            if (gl < 0 || !M.globals[gl].inRepo || objInfo(p.first).constant) continue;
            const Obj* was = nullptr;
            for (auto& q : *st.mark)
                if (q.first == p.first) was = q.second.get();
            if (was == p.second.get()) continue;
            if (!was) {  // first touched since: compare with the initial content
                eq = false;
                continue;
            }
            eq = sameData(st, dataTerm(*was, 0, was->size), dataTerm(*p.second, 0, p.second->size)) && was->sym.empty() && p.second->sym.empty();
            if (!eq) addTrace(st, "", 0, "changed: " + objInfo(p.first).name);
        }
        ret(o, st, mkConst(in.w, eq));
    };
    // labels of everything the application keeps in its variables
    tab["va_global_labels"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        u64 l = 0;
        for (auto& p : *st.mem) {
            int gl = objInfo(p.first).global;
            if (gl < 0 || !M.globals[gl].inRepo || objInfo(p.first).constant) continue;
            l |= labelsOf(*p.second, 0, p.second->size);
        }
        ret(o, st, mkConst(in.w, l));
    };
    // va_is_object(p, q): p and q point into the same object at the same offset
    tab["va_ptr_eq"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        ret(o, st, mkConst(in.w, normT(a[0], st) == normT(a[1], st)));
    };
    // both point into the same object
    tab["va_same_object"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (forkPtr(in, a, st, o, "va_same_object", {0, 1})) return;
        T p = normT(a[0], st), q = normT(a[1], st);
        if (TT(p).op != O_PTR || TT(q).op != O_PTR) note("va_same_object of an unknown pointer");
        ret(o, st, mkConst(in.w, TT(p).op == O_PTR && TT(q).op == O_PTR && TT(p).c == TT(q).c));
    };
    // value equality of two integers, decided on value numbers and facts
    tab["va_eq64"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        bool eq = evalBool(mk(O_EQ, 1, a[0], a[1]), *st.facts) == 1;
        if (!eq) {  // bit by bit: values put together from parts of another one
            Bits b{st, {}};
            eq = b.same(a[0], a[1]);
        }
        ret(o, st, mkConst(in.w, eq));
    };
    tab["va_note"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        std::string m = readCStr(st, a[0]);
        for (size_t i = 1; i < a.size(); i++) {
            T v = normT(a[i], st);
            m += (i == 1 ? " " : ",") + (isConst(v) ? termStr(v) : rangeOf(v, *st.facts).str());
        }
        addTrace(st, "", 0, m);
        ret(o, st);
    };
    tab["va_print"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        fprintf(stderr, "va_print %s: %s in %s\n", readCStr(st, a[0]).c_str(), termStr(argc(a, 1), 5).c_str(),
                TT(argc(a, 1)).w ? rangeOf(argc(a, 1), *st.facts).str().c_str() : "-");
        ret(o, st);
    };
    tab["va_dump"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        T c = contentOf(st, a[1], a[2]);
        fprintf(stderr, "va_dump %s: %s labels %llx\n", readCStr(st, a[0]).c_str(), termStr(c, 4).c_str(),
                (unsigned long long) TT(c).labels);
        ret(o, st);
    };
    tab["va_rest_point"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        if (restCapture(st, !a.empty() && cArg(st, a[0]))) ret(o, st);
    };
    tab["va_config"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) {
        std::string k = readCStr(st, a[0]);
        u64 v = cArg(st, a[1]);
        if (k == "unroll") cfg.unroll = (int) v;
        else if (k == "limit") cfg.limit = (int) v, cfg.exitLimit = std::max(cfg.exitLimit, (int) v / 8);
        else if (k == "bits") cfg.bits = v;
        else if (k == "stack_secret") cfg.stackSecret = v;
        else if (k == "uninit") cfg.uninitLabel = v;
        else if (k == "rest_limit") cfg.restLimit = (int) v;
        else note("unknown configuration " + k);
        ret(o, st);
    };
    tab["__errno"] = tab["va_nop"] = [](const Inst& in, std::vector<T>& a, State st, std::vector<Out>& o) { ret(o, st); };
}
