// Interval reasoning over value numbers: forward evaluation and backward refinement.
#include "interp.h"

static i64 sx(u64 v, unsigned w) {
    if (w >= 64) return (i64) v;
    u64 s = 1ull << (w - 1);
    return (i64) ((v ^ s) - s);
}
static Range shiftR(const Range& r, u64 k, unsigned w) {  // r + k (mod 2^w)
    u64 m = maskw(w);
    std::pair<u64, u64> v[2 * Range::MAXN];
    size_t n = 0;
    for (int i = 0; i < r.n; i++) {
        u64 a = (r.iv[i].first + k) & m, b = (r.iv[i].second + k) & m;
        if (r.iv[i].second - r.iv[i].first == m) return Range::full(w);
        if (a <= b) v[n++] = {a, b};
        else v[n++] = {a, m}, v[n++] = {0, b};
    }
    return Range::fromArr(v, n);
}
// flips the sign bit, so that signed order becomes unsigned order
static Range flip(const Range& r, unsigned w) { return shiftR(r, 1ull << (w - 1), w); }

static Range structural(T t, const Facts& F, int d);
Range rangeOf(T t, const Facts& F, int d) {
    const Term& x = TT(t);
    if (x.op == O_CONST) return Range::single(x.c);
    unsigned w = x.w ? x.w : 64;
    const Range* f = F.get(t);
    if (f && f->isSingle()) return *f;
    if (x.op == O_MEM && x.c < 8 && x.c) {  // part of a larger number that is bounded
        Range r = f ? *f : Range::full(w);
        u32 gen = x.a[0], off = x.a[1], n = (u32) x.c;  // mkMem may move x
        for (u32 size = 2; size <= 8; size *= 2) {
            if (size <= n) continue;
            u32 base = off & ~(size - 1), shift = 8 * (off - base);
            if (off + n > base + size) continue;
            const Range* g = F.get(mkMem(gen, base, size));
            if (!g || g->isEmpty() || (g->hi() >> shift) > maskw(w)) continue;
            Range p = r.intersect(shift ? Range::interval(g->lo() >> shift, g->hi() >> shift) : *g);
            if (!p.isEmpty()) r = p;
        }
        return r;
    }
    if (x.op == O_SYM || x.op == O_MEM) return f ? *f : Range::full(w);
    Range s = d > 0 ? structural(t, F, d) : Range::full(w);
    if (f) {
        Range r = s.intersect(*f);
        return r.isEmpty() ? *f : r;
    }
    return s;
}
static Range structural(T t, const Facts& F, int d) {
    const Term x = TT(t);
    unsigned w = x.w ? x.w : 64;
    auto R = [&](int i) { return rangeOf(x.a[i], F, d - 1); };
    switch (x.op) {
        case O_ADD: {
            // a counter: a long sum of conditions; the conditions are no deeper for it
            auto flag = [](T t) {
                const Term& y = TT(t);
                return y.op == O_CONST || (y.op == O_ZEXT && TT(y.a[0]).w == 1) || (y.op == O_SELECT && TT(y.a[1]).op == O_CONST && TT(y.a[2]).op == O_CONST);
            };
            Range a = rangeOf(x.a[0], F, flag(x.a[1]) ? d : d - 1), b = rangeOf(x.a[1], F, flag(x.a[0]) ? d : d - 1);
            if (a.isEmpty() || b.isEmpty()) return Range::full(w);
            if (b.isSingle()) return shiftR(a, b.lo(), w);
            if (a.isSingle()) return shiftR(b, a.lo(), w);
            if ((u128) a.hi() + b.hi() <= maskw(w)) {
                std::vector<std::pair<u64, u64>> v;
                for (int i = 0; i < a.n; i++)
                    for (int j = 0; j < b.n; j++)
                        v.push_back({a.iv[i].first + b.iv[j].first, a.iv[i].second + b.iv[j].second});
                return Range::fromList(v);
            }
            return Range::full(w);
        }
        case O_SUB: {
            Range a = R(0), b = R(1);
            if (a.isEmpty() || b.isEmpty()) return Range::full(w);
            if (a.lo() >= b.hi()) return Range::interval(a.lo() - b.hi(), a.hi() - b.lo());
            // relational: b <= a known
            T lt = mk(O_ULT, 1, x.a[0], x.a[1]);
            const Range* f = F.get(lt);
            if (f && f->isSingle() && f->lo() == 0) return Range::interval(0, a.hi() - std::min(a.hi(), b.lo()));
            return Range::full(w);
        }
        case O_MUL: {
            Range a = R(0), b = R(1);
            if (a.isEmpty() || b.isEmpty()) return Range::full(w);
            if ((u128) a.hi() * b.hi() <= maskw(w)) {
                if (b.isSingle() && a.count(8) <= 8) {
                    std::vector<std::pair<u64, u64>> v;
                    a.each([&](u64 k) { v.push_back({k * b.lo(), k * b.lo()}); });
                    return Range::fromList(v);
                }
                return Range::interval(a.lo() * b.lo(), a.hi() * b.hi());
            }
            if (b.isSingle()) {  // every product wraps round equally often
                u128 lo = (u128) a.lo() * b.lo(), hi = (u128) a.hi() * b.lo(), m = (u128) maskw(w) + 1;
                if (lo / m == hi / m) return Range::interval((u64) (lo % m), (u64) (hi % m));
            }
            return Range::full(w);
        }
        case O_UDIV: {
            Range a = R(0), b = R(1);
            if (a.isEmpty() || b.isEmpty()) return Range::full(w);
            if (b.lo() > 0) return Range::interval(a.lo() / b.hi(), a.hi() / b.lo());
            return Range::interval(0, a.hi());
        }
        case O_UREM: {
            Range a = R(0), b = R(1);
            if (!b.isEmpty() && !a.isEmpty() && b.lo() > 0) {
                if (a.hi() < b.lo()) return a;
                return Range::interval(0, std::min(a.hi(), b.hi() - 1));
            }
            return Range::full(w);
        }
        case O_AND: {
            Range a = R(0), b = R(1);
            if (a.isEmpty() || b.isEmpty()) return Range::full(w);
            if (b.isSingle()) {
                u64 m = b.lo();
                if (m && !(m & (m - 1))) {  // single bit
                    bool zero = true, one = true;  // the same in every value
                    for (int i = 0; i < a.n; i++) {
                        bool same = a.iv[i].first / m == a.iv[i].second / m;
                        if (!same || (a.iv[i].first & m)) zero = false;
                        if (!same || !(a.iv[i].first & m)) one = false;
                    }
                    if (zero || one) return Range::single(zero ? 0 : m);
                    if (a.count(64) <= 64) {
                        std::vector<std::pair<u64, u64>> v;
                        a.each([&](u64 k) { v.push_back({k & m, k & m}); });
                        return Range::fromList(v);
                    }
                    return Range::single(0).unite(Range::single(m));
                }
                if (a.count(256) <= 256) {
                    std::vector<std::pair<u64, u64>> v;
                    a.each([&](u64 k) { v.push_back({k & m, k & m}); });
                    return Range::fromList(v);
                }
            }
            return Range::interval(0, std::min(a.hi(), b.hi()));
        }
        case O_OR: case O_XOR: {
            Range a = R(0), b = R(1);
            if (a.isEmpty() || b.isEmpty()) return Range::full(w);
            if (a.count(64) <= 64 && b.count(8) <= 8) {
                std::vector<std::pair<u64, u64>> v;
                a.each([&](u64 k) {
                    b.each([&](u64 l) {
                        u64 z = x.op == O_OR ? (k | l) : (k ^ l);
                        v.push_back({z, z});
                    });
                });
                return Range::fromList(v);
            }
            if (x.op == O_XOR && b.isSingle() && b.lo() == maskw(w)) return Range::interval(b.lo() - a.hi(), b.lo() - a.lo());
            u64 m = a.hi() | b.hi();
            m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32;
            return Range::interval(x.op == O_OR ? std::max(a.lo(), b.lo()) : 0, m & maskw(w));
        }
        case O_SHL: case O_ASHR: case O_SDIV: case O_SREM: return Range::full(w);
        case O_LSHR: return Range::interval(0, R(0).isEmpty() ? maskw(w) : R(0).hi());
        case O_EQ: {
            Range a = R(0), b = R(1);
            if (a.isEmpty() || b.isEmpty()) break;
            if (a.isSingle() && b.isSingle()) return Range::single(a.lo() == b.lo());
            if (a.intersect(b).isEmpty()) return Range::single(0);
            break;
        }
        case O_ULT: case O_SLT: {
            Range a = R(0), b = R(1);
            if (a.isEmpty() || b.isEmpty()) break;
            unsigned ow = TT(x.a[0]).w;
            if (x.op == O_SLT) a = flip(a, ow), b = flip(b, ow);
            if (a.hi() < b.lo()) return Range::single(1);
            if (a.lo() >= b.hi()) return Range::single(0);
            // a < b decided by the opposite comparison
            T rev = mk(x.op, 1, x.a[1], x.a[0]);
            const Range* f = F.get(rev);
            if (f && f->isSingle() && f->lo() == 1) return Range::single(0);
            T eq = mk(O_EQ, 1, x.a[0], x.a[1]);
            f = F.get(eq);
            if (f && f->isSingle()) {
                if (f->lo() == 1) return Range::single(0);
            }
            break;
        }
        case O_NOT: {
            Range a = R(0);
            if (a.isSingle()) return Range::single(!a.lo());
            break;
        }
        case O_ZEXT: return rangeOf(x.a[0], F, d);
        case O_SEXT: {
            Range a = R(0);
            unsigned sw = TT(x.a[0]).w;
            std::vector<std::pair<u64, u64>> v;
            u64 half = 1ull << (sw - 1);
            for (int i = 0; i < a.n; i++) {
                u64 l = a.iv[i].first, h = a.iv[i].second;
                if (l < half) v.push_back({l, std::min(h, half - 1)});
                if (h >= half)
                    v.push_back({(u64) sx(std::max(l, half), sw) & maskw(w), (u64) sx(h, sw) & maskw(w)});
            }
            return Range::fromList(v);
        }
        case O_TRUNC: {
            Range a = rangeOf(x.a[0], F, d);
            if (!a.isEmpty() && a.hi() <= maskw(w)) return a;
            if (!a.isEmpty() && a.count(64) <= 64) {
                std::vector<std::pair<u64, u64>> v;
                a.each([&](u64 k) { v.push_back({k & maskw(w), k & maskw(w)}); });
                return Range::fromList(v);
            }
            if (!a.isEmpty() && w < 64) {  // intervals that stay below one multiple of 2^w
                std::vector<std::pair<u64, u64>> v;
                bool ok = true;
                for (int i = 0; i < a.n; i++) {
                    u64 l = a.iv[i].first, h = a.iv[i].second;
                    if ((l >> w) != (h >> w)) ok = false;
                    v.push_back({l & maskw(w), h & maskw(w)});
                }
                if (ok) return Range::fromList(v);
            }
            break;
        }
        case O_EXTRACT: {
            Range a = R(0);
            if (a.isEmpty()) break;
            if (x.a[1] == 0 && a.hi() <= maskw(w)) return a;
            if (a.count(64) <= 64) {
                std::vector<std::pair<u64, u64>> v;
                a.each([&](u64 k) {
                    u64 z = (k >> (8 * x.a[1])) & maskw(w);
                    v.push_back({z, z});
                });
                return Range::fromList(v);
            }
            if (x.a[1] < 8) {
                u64 h = a.hi() >> (8 * x.a[1]);
                if (h <= maskw(w)) return Range::interval(a.lo() >> (8 * x.a[1]), h);
            }
            break;
        }
        case O_SELECT: {
            Range c = R(0);
            if (c.isSingle()) return c.lo() ? R(1) : R(2);
            return R(1).unite(R(2));
        }
        case O_UADDO: {
            Range a = R(0), b = R(1);
            if (a.isEmpty() || b.isEmpty()) break;
            unsigned ow = TT(x.a[0]).w;
            if ((u128) a.hi() + b.hi() <= maskw(ow)) return Range::single(0);
            break;
        }
        case O_SADDO: case O_SSUBO: {
            Range a = R(0), b = R(1);
            if (a.isEmpty() || b.isEmpty()) break;
            unsigned ow = TT(x.a[0]).w;
            Range fa = flip(a, ow), fb = flip(b, ow);
            auto un = [&](u64 v) { return (i128) sx(v ^ (1ull << (ow - 1)), ow); };
            i128 lo = x.op == O_SADDO ? un(fa.lo()) + un(fb.lo()) : un(fa.lo()) - un(fb.hi());
            i128 hi = x.op == O_SADDO ? un(fa.hi()) + un(fb.hi()) : un(fa.hi()) - un(fb.lo());
            i128 mx = ((i128) 1 << (ow - 1)) - 1, mn = -((i128) 1 << (ow - 1));
            if (lo >= mn && hi <= mx) return Range::single(0);
            if (hi < mn || lo > mx) return Range::single(1);
            break;
        }
        case O_UMULO: {
            Range a = R(0), b = R(1);
            if (a.isEmpty() || b.isEmpty()) break;
            if ((u128) a.hi() * b.hi() <= maskw(TT(x.a[0]).w)) return Range::single(0);
            break;
        }
        default: break;
    }
    return Range::full(w);
}

int evalBool(T c, const Facts& F) {
    Range r = rangeOf(c, F);
    return r.isSingle() ? (int) r.lo() : -1;
}

static bool refine(T t, const Range& want, Facts& F, int d);
bool assumeT(T c, bool v, Facts& F, int d) {
    const Term x = TT(c);
    if (x.op == O_CONST) return (x.c != 0) == v;
    int k = evalBool(c, F);
    if (k >= 0) {
        if (k != (int) v) return false;
        // already implied; still record, so that a later join keeps it
        if (!F.get(c)) F.set(c, Range::single(v));
        return true;
    }
    F.set(c, Range::single(v));
    if (d <= 0) return true;
    switch (x.op) {
        case O_NOT: return assumeT(x.a[0], !v, F, d - 1);
        case O_EQ: {
            Range a = rangeOf(x.a[0], F), b = rangeOf(x.a[1], F);
            if (v) {
                Range m = a.intersect(b);
                if (m.isEmpty()) return false;
                return refine(x.a[0], m, F, d - 1) && refine(x.a[1], m, F, d - 1);
            }
            unsigned w = TT(x.a[0]).w;
            if (b.isSingle() && !refine(x.a[0], Range::single(b.lo()).complement(w), F, d - 1)) return false;
            if (a.isSingle() && !refine(x.a[1], Range::single(a.lo()).complement(w), F, d - 1)) return false;
            return true;
        }
        case O_ULT: case O_SLT: {
            unsigned w = TT(x.a[0]).w;
            Range a = rangeOf(x.a[0], F), b = rangeOf(x.a[1], F);
            bool s = x.op == O_SLT;
            if (s) a = flip(a, w), b = flip(b, w);
            Range na, nb;
            if (v) {  // a < b
                if (b.hi() == 0) return false;
                na = a.intersect(Range::interval(0, b.hi() - 1));
                if (a.lo() == maskw(w)) return false;
                nb = b.intersect(Range::interval(a.lo() + 1, maskw(w)));
            } else {  // a >= b
                na = a.intersect(Range::interval(b.lo(), maskw(w)));
                nb = b.intersect(Range::interval(0, a.hi()));
            }
            if (na.isEmpty() || nb.isEmpty()) return false;
            if (s) na = flip(na, w), nb = flip(nb, w);
            return refine(x.a[0], na, F, d - 1) && refine(x.a[1], nb, F, d - 1);
        }
        case O_AND:
            if (v) return assumeT(x.a[0], true, F, d - 1) && assumeT(x.a[1], true, F, d - 1);
            if (evalBool(x.a[0], F) == 1) return assumeT(x.a[1], false, F, d - 1);
            if (evalBool(x.a[1], F) == 1) return assumeT(x.a[0], false, F, d - 1);
            return true;
        case O_OR:
            if (!v) return assumeT(x.a[0], false, F, d - 1) && assumeT(x.a[1], false, F, d - 1);
            if (evalBool(x.a[0], F) == 0) return assumeT(x.a[1], true, F, d - 1);
            if (evalBool(x.a[1], F) == 0) return assumeT(x.a[0], true, F, d - 1);
            return true;
        case O_SELECT: {
            int p = evalBool(x.a[1], F), q = evalBool(x.a[2], F);
            if (p >= 0 && p != (int) v) return assumeT(x.a[0], false, F, d - 1) && assumeT(x.a[2], v, F, d - 1);
            if (q >= 0 && q != (int) v) return assumeT(x.a[0], true, F, d - 1) && assumeT(x.a[1], v, F, d - 1);
            int cc = evalBool(x.a[0], F);
            if (cc >= 0) return assumeT(cc ? x.a[1] : x.a[2], v, F, d - 1);
            return true;
        }
        case O_TRUNC: {  // trunc to i1 of a boolean byte
            Range r = rangeOf(x.a[0], F);
            if (!r.isEmpty() && r.hi() <= 1) return refine(x.a[0], Range::single(v), F, d - 1);
            return true;
        }
        default: return true;
    }
}
static bool refine(T t, const Range& want, Facts& F, int d) {
    const Term x = TT(t);
    if (x.op == O_CONST) return want.contains(x.c);
    if (x.op == O_PTR || x.op == O_FUNC) return true;
    Range old = rangeOf(t, F);
    Range r = old.intersect(want);
    if (r.isEmpty()) return false;
    if (r == old && F.get(t)) return true;
    if (x.w == 1 && r.isSingle()) {
        const Range* f = F.get(t);
        if (!f || !f->isSingle()) return assumeT(t, r.lo() != 0, F, d);
        return true;
    }
    if (!(r == Range::full(x.w))) F.set(t, r);
    if (d <= 0) return true;
    switch (x.op) {
        case O_ZEXT: return refine(x.a[0], r.intersect(Range::full(TT(x.a[0]).w)), F, d);
        case O_SEXT: {
            unsigned sw = TT(x.a[0]).w;
            std::vector<std::pair<u64, u64>> v;
            Range in = rangeOf(x.a[0], F);
            if (in.count(64) <= 64) {
                in.each([&](u64 k) {
                    if (r.contains((u64) sx(k, sw) & maskw(x.w))) v.push_back({k, k});
                });
                return refine(x.a[0], Range::fromList(v), F, d - 1);
            }
            if (r.isSingle()) return refine(x.a[0], Range::single(r.lo() & maskw(sw)), F, d - 1);
            return true;
        }
        case O_TRUNC: case O_EXTRACT: {
            if (x.op == O_EXTRACT && x.a[1] != 0) return true;
            Range in = rangeOf(x.a[0], F);
            if (!in.isEmpty() && in.hi() <= maskw(x.w)) return refine(x.a[0], r, F, d);
            return true;
        }
        case O_ADD: {
            Range b = rangeOf(x.a[1], F);
            if (b.isSingle()) return refine(x.a[0], shiftR(r, 0 - b.lo(), x.w), F, d - 1);
            Range a = rangeOf(x.a[0], F);
            if (a.isSingle()) return refine(x.a[1], shiftR(r, 0 - a.lo(), x.w), F, d - 1);
            if ((u128) a.hi() + b.hi() <= maskw(x.w)) {
                u64 ah = r.hi() >= b.lo() ? r.hi() - b.lo() : 0;
                u64 bh = r.hi() >= a.lo() ? r.hi() - a.lo() : 0;
                return refine(x.a[0], Range::interval(0, ah), F, d - 1) &&
                       refine(x.a[1], Range::interval(0, bh), F, d - 1);
            }
            return true;
        }
        case O_SUB: {
            Range b = rangeOf(x.a[1], F), a = rangeOf(x.a[0], F);
            if (b.isSingle()) return refine(x.a[0], shiftR(r, b.lo(), x.w), F, d - 1);
            if (a.isSingle()) {  // k - y in r
                std::vector<std::pair<u64, u64>> v;
                for (int i = 0; i < r.n; i++)
                    if (r.iv[i].second <= a.lo()) v.push_back({a.lo() - r.iv[i].second, a.lo() - r.iv[i].first});
                    else return true;
                return refine(x.a[1], Range::fromList(v), F, d - 1);
            }
            if (!a.isEmpty() && !b.isEmpty() && !r.isEmpty()) {
                bool ge = a.lo() >= b.hi();
                if (!ge) {  // no borrow, by a comparison made before
                    const Range* f = F.get(mk(O_ULT, 1, x.a[0], x.a[1]));
                    ge = f && f->isSingle() && f->lo() == 0;
                }
                if (ge) {
                    if (a.hi() < r.lo()) return false;
                    if (!refine(x.a[1], Range::interval(0, a.hi() - r.lo()), F, d - 1)) return false;
                    if ((u128) r.lo() + b.lo() > maskw(x.w)) return false;
                    return refine(x.a[0], Range::interval(r.lo() + b.lo(), maskw(x.w)), F, d - 1);
                }
            }
            return true;
        }
        case O_MUL: {
            Range b = rangeOf(x.a[1], F), a = rangeOf(x.a[0], F);
            if (b.isSingle() && b.lo() && (u128) a.hi() * b.lo() <= maskw(x.w))
                return refine(x.a[0], Range::interval((r.lo() + b.lo() - 1) / b.lo(), r.hi() / b.lo()), F, d - 1);
            return true;
        }
        case O_UDIV: {
            Range b = rangeOf(x.a[1], F);
            if (b.isSingle() && b.lo()) {
                u128 hi = (u128) r.hi() * b.lo() + b.lo() - 1;
                u64 m = maskw(x.w);
                return refine(x.a[0], Range::interval(r.lo() * b.lo(), hi > m ? m : (u64) hi), F, d - 1);
            }
            return true;
        }
        case O_AND: case O_OR: case O_XOR: {
            Range b = rangeOf(x.a[1], F), a = rangeOf(x.a[0], F);
            if (r.isSingle() && r.lo() == 0) {
                // differences gathered one by one: all of them are zero
                if (x.op == O_OR) return refine(x.a[0], r, F, d) && refine(x.a[1], r, F, d);
                if (x.op == O_XOR) return assumeT(mk(O_EQ, 1, x.a[0], x.a[1]), true, F, d);
            }
            if (b.isSingle() && a.count(256) <= 256) {
                std::vector<std::pair<u64, u64>> v;
                a.each([&](u64 k) {
                    u64 z = x.op == O_AND ? (k & b.lo()) : x.op == O_OR ? (k | b.lo()) : (k ^ b.lo());
                    if (r.contains(z)) v.push_back({k, k});
                });
                return refine(x.a[0], Range::fromList(v), F, d - 1);
            }
            if (x.op == O_AND && b.isSingle() && b.lo()) {  // bits from some position up
                u64 low = (b.lo() & (0 - b.lo())) - 1;      // what is below them
                if ((b.lo() | low) == maskw(x.w)) {
                    if (r.isSingle() && r.lo() == 0) return refine(x.a[0], Range::interval(0, low), F, d - 1);
                    if (!r.contains(0)) return refine(x.a[0], Range::interval(low + 1, maskw(x.w)), F, d - 1);
                }
            }
            return true;
        }
        case O_SELECT: {
            Range a = rangeOf(x.a[1], F), b = rangeOf(x.a[2], F);
            if (a.intersect(r).isEmpty())
                return assumeT(x.a[0], false, F, d - 1) && refine(x.a[2], r, F, d - 1);
            if (b.intersect(r).isEmpty())
                return assumeT(x.a[0], true, F, d - 1) && refine(x.a[1], r, F, d - 1);
            return true;
        }
        default: return true;
    }
}
bool refineT(T t, const Range& r, Facts& F) { return refine(t, r, F, 10); }
