// Joins, subsumption and the canonical form of states at rest.
#include "interp.h"

// ---------------------------------------------------------------- control keys
static void addKey(std::string& k, u32 a, u32 b, u64 c) {
    k.append((const char*) &a, 4);
    k.append((const char*) &b, 4);
    k.append((const char*) &c, 8);
}
static void objKey(const Obj& o, u32 id, std::string& k) {
    for (auto& c : o.cells) {
        const Term& t = TT(c.val);
        if (t.op == O_CONST) {
            if (c.ar || t.c == 0) continue;
            addKey(k, id, c.off, t.c);
        } else if (t.op == O_PTR)
            addKey(k, id, c.off, (t.c << 32) | 0x80000000u | (TT(t.a[0]).op == O_CONST ? cval(t.a[0]) : 0x7fffffff));
        else if (t.op == O_FUNC)
            addKey(k, id, c.off, (t.c << 32) | 0x40000000u);
    }
}
std::string stateKey(const State& s) {
    std::string k;
    if (s.part) k = "c" + std::to_string(s.part) + ";";
    for (auto& p : *s.mem) objKey(*p.second, p.first, k);
    return k;
}

// ---------------------------------------------------------------- helpers
static bool containsBanned(T t, const JoinCtx& b, std::unordered_map<T, bool>& memo) {
    const Term x = TT(t);
    switch (x.op) {
        case O_CONST: case O_FUNC: return false;
        case O_SYM: return b.phis.count(t) > 0;
        case O_MEM: return b.gens.count(x.a[0]) > 0;
        case O_PTR: return containsBanned(x.a[0], b, memo);
        default: break;
    }
    auto it = memo.find(t);
    if (it != memo.end()) return it->second;
    bool r = false;
    if (x.op == O_DATA) {
        const Data d = dataOf(t);
        for (auto& p : d.parts)
            if (containsBanned(p.t, b, memo)) r = true;
        if (d.off != NOTERM && containsBanned(d.off, b, memo)) r = true;
        if (d.len != NOTERM && containsBanned(d.len, b, memo)) r = true;
    } else {
        int n = x.op == O_SELECT ? 3
                : (x.op == O_NOT || x.op == O_ZEXT || x.op == O_SEXT || x.op == O_TRUNC || x.op == O_EXTRACT ||
                   x.op == O_BSWAP || x.op == O_PTRINT)
                    ? 1
                    : 2;
        for (int i = 0; i < n && !r; i++) r = containsBanned(x.a[i], b, memo);
    }
    return memo[t] = r;
}

// sets of pointers: nested selections over unconstrained conditions
static void leavesOf(T t, std::set<T>& out) {
    const Term x = TT(t);
    if (x.op == O_SELECT) {
        leavesOf(x.a[1], out);
        leavesOf(x.a[2], out);
    } else
        out.insert(t);
}
// a number with few values among pointers (flow terminators): its values
static void expandLeaves(std::set<T>& ls, const Facts& F) {
    std::set<T> r;
    for (T l : ls) {
        const Term x = TT(l);
        if (x.op == O_PTR || x.op == O_FUNC || x.op == O_CONST || x.labels) {
            r.insert(l);
            continue;
        }
        Range g = rangeOf(l, F);
        if (g.count(8) > 8) {
            r.insert(l);
            continue;
        }
        g.each([&](u64 v) { r.insert(mkConst(x.w, v)); });
    }
    ls.swap(r);
}
static bool ptrLike(T t) {
    const Term x = TT(t);
    if (x.op == O_PTR || x.op == O_FUNC) return true;
    return x.op == O_SELECT && (ptrLike(x.a[1]) || ptrLike(x.a[2]));
}
static T ptrSet(const std::set<T>& ls, JoinCtx* made) {
    T r = NOTERM;
    for (T l : ls) {
        const Term x = TT(l);
        if (!(x.op == O_FUNC || x.op == O_CONST || (x.op == O_PTR && TT(x.a[0]).op == O_CONST))) return NOTERM;
        if (r == NOTERM) r = l;
        else {
            T c = freshSym(1, "which", 0);
            if (made) made->phis.insert(c);
            r = mk(O_SELECT, 32, c, l, r);
        }
    }
    return r;
}
struct Joiner {
    const std::vector<const State*>& ss;
    const JoinCtx* banned;
    JoinCtx* made;
    std::unordered_map<T, bool> memo;
    std::map<std::vector<T>, T> tmap;
    std::map<std::vector<i64>, u32> gmap;
    Facts facts;
    std::vector<std::pair<T, std::vector<T>>> newPhis;
    Joiner(const std::vector<const State*>& s, const JoinCtx* b, JoinCtx* m) : ss(s), banned(b), made(m) {}
    bool bad(T t) { return banned && containsBanned(t, *banned, memo); }
    T phi(const std::vector<T>& v) {
        bool same = true;
        for (auto t : v) {
            if (t == NOTERM) return NOTERM;
            if (t != v[0]) same = false;
        }
        if (same && !bad(v[0])) return v[0];
        auto it = tmap.find(v);
        if (it != tmap.end()) return it->second;
        const Term f = TT(v[0]);
        T r = NOTERM;
        if (f.op == O_AGG) {
            std::vector<T> a, b;
            for (auto t : v) {
                if (TT(t).op != O_AGG) return NOTERM;
                a.push_back(TT(t).a[0]);
                b.push_back(TT(t).a[1]);
            }
            T x = phi(a), y = phi(b);
            if (x == NOTERM || y == NOTERM) return NOTERM;
            r = mk(O_AGG, 0, x, y);
            tmap[v] = r;
            return r;
        }
        bool allPtr = true;
        for (auto t : v)
            if (TT(t).op != O_PTR || TT(t).c != f.c) allPtr = false;
        if (allPtr) {
            std::vector<T> o;
            for (auto t : v) o.push_back(TT(t).a[0]);
            r = mkPtr((u32) f.c, phi(o));
            tmap[v] = r;
            return r;
        }
        bool anyPtr = false;
        for (auto t : v) anyPtr |= ptrLike(t);
        if (anyPtr) {
            std::set<T> ls;
            for (size_t i = 0; i < v.size(); i++) {
                std::set<T> l1;
                leavesOf(v[i], l1);
                expandLeaves(l1, *ss[i]->facts);
                ls.insert(l1.begin(), l1.end());
            }
            T q = ls.size() <= 24 ? ptrSet(ls, made) : NOTERM;
            if (q != NOTERM) return q;
        }
        u64 lab = 0;
        unsigned w = f.w;
        for (auto t : v) {
            lab |= TT(t).labels;
            if (TT(t).w != w) {
                note("join of different widths");
                return NOTERM;
            }
        }
        r = freshSym(w ? w : 64, "phi", lab);
        tmap[v] = r;
        if (made) made->phis.insert(r);
        bool anyp = false;
        Range rg = Range::empty();
        for (size_t i = 0; i < v.size(); i++) {
            const Term& x = TT(v[i]);
            if (x.op == O_PTR || x.op == O_FUNC) {
                anyp = true;
                break;
            }
            rg = rg.unite(rangeOf(v[i], *ss[i]->facts));
        }
        if (!anyp && w && !(rg == Range::full(w))) facts.set(r, rg);
        newPhis.push_back({r, v});
        return r;
    }
    u32 phiGen(const std::vector<const Seg*>& v, int& delta) {
        // tuple relative to the first segment's coordinates
        std::vector<i64> key;
        u64 lab = 0;
        int d0 = v[0]->kind == B_SYM ? v[0]->delta : 0;
        bool have = v[0]->kind == B_SYM;
        for (auto s : v) {
            if (s->kind == B_ZERO) key.push_back(-1), key.push_back(0);
            else {
                if (!have) d0 = s->delta, have = true;
                key.push_back(s->gen);
                key.push_back(s->delta - d0);
                lab |= genLabels(s->gen);
            }
        }
        delta = d0;
        auto it = gmap.find(key);
        if (it != gmap.end()) return it->second;
        u32 g = freshGen("phig", lab);
        if (made) made->gens.insert(g);
        return gmap[key] = g;
    }
};

static void elementary(const std::vector<const Obj*>& os, std::vector<std::pair<u32, u32>>& out) {
    // cell locations of the join: clusters of overlapping cells, cut at all boundaries unless identical
    std::vector<std::pair<u32, u32>> iv;
    for (auto o : os)
        for (auto& c : o->cells) iv.push_back({c.off, c.off + c.size});
    std::sort(iv.begin(), iv.end());
    iv.erase(std::unique(iv.begin(), iv.end()), iv.end());
    size_t i = 0;
    while (i < iv.size()) {
        size_t j = i + 1;
        u32 hi = iv[i].second;
        while (j < iv.size() && iv[j].first < hi) hi = std::max(hi, iv[j].second), j++;
        if (j == i + 1) out.push_back({iv[i].first, iv[i].second - iv[i].first});
        else {
            std::set<u32> cuts;
            for (size_t k = i; k < j; k++) cuts.insert(iv[k].first), cuts.insert(iv[k].second);
            u32 p = *cuts.begin();
            for (auto c : cuts) {
                u32 n = c - p;
                if (n == 0) continue;
                if (n == 1 || n == 2 || n == 4 || n == 8) out.push_back({p, n});
                else
                    for (u32 k = 0; k < n; k++) out.push_back({p + k, 1});
                p = c;
            }
        }
        i = j;
    }
}
static bool arAt(const Obj& o, u32 off) {
    for (auto& c : o.cells)
        if (c.off == off) return c.ar;
    return false;
}
static const Seg* segAt(const Obj& o, u32 off) {
    for (auto& s : o.bg)
        if (off >= s.lo && off < s.hi) return &s;
    return nullptr;
}
static std::shared_ptr<Obj> joinObj(Joiner& J, const std::vector<std::shared_ptr<Obj>>& os) {
    bool same = true;
    for (auto& o : os)
        if (o.get() != os[0].get()) same = false;
    if (same && !J.banned) return os[0];
    auto r = std::make_shared<Obj>();
    std::vector<const Obj*> v;
    for (auto& o : os) v.push_back(o.get());
    r->size = v[0]->size;
    // backgrounds
    std::set<u32> cuts;
    for (auto o : v)
        for (auto& s : o->bg) cuts.insert(s.lo), cuts.insert(s.hi);
    u32 p = 0;
    for (auto c : cuts) {
        if (c == p) continue;
        std::vector<const Seg*> sg;
        bool eq = true;
        for (auto o : v) {
            sg.push_back(segAt(*o, p));
            const Seg* a = sg[0];
            const Seg* b = sg.back();
            if (a->kind != b->kind || (a->kind == B_SYM && (a->gen != b->gen || a->delta != b->delta))) eq = false;
        }
        if (eq && (sg[0]->kind == B_ZERO || !(J.banned && J.banned->gens.count(sg[0]->gen))))
            r->bg.push_back({p, c, sg[0]->kind, sg[0]->gen, sg[0]->delta});
        else {
            int d;
            u32 g = J.phiGen(sg, d);
            r->bg.push_back({p, c, B_SYM, g, d});
        }
        p = c;
    }
    // merge equal neighbours
    std::vector<Seg> m;
    for (auto& s : r->bg) {
        if (!m.empty() && m.back().kind == s.kind && (s.kind == B_ZERO || (m.back().gen == s.gen && m.back().delta == s.delta)))
            m.back().hi = s.hi;
        else m.push_back(s);
    }
    r->bg = m;
    std::vector<std::pair<u32, u32>> locs;
    elementary(v, locs);
    for (auto& l : locs) {
        std::vector<T> tv;
        bool ar = false;
        for (auto o : v) {
            tv.push_back(loadAt(*o, l.first, l.second));
            ar |= arAt(*o, l.first);
        }
        T t = J.phi(tv);
        if (t == NOTERM) t = freshSym(l.second * 8, "phi?", ~0ull >> 1);
        r->cells.push_back({l.first, l.second, t, ar});
    }
    if (!J.banned && !v[0]->sym.empty()) {
        for (auto& sc : v[0]->sym) {
            bool all = true;
            for (auto o : v) {
                bool f = false;
                for (auto& x : o->sym)
                    if (x.off == sc.off && x.size == sc.size && x.val == sc.val) f = true;
                all &= f;
            }
            if (all) r->sym.push_back(sc);
        }
    }
    return r;
}
static std::vector<u32> commonObjs(const std::vector<const State*>& ss) {
    std::vector<u32> ids;
    std::set<u32> all;
    for (auto s : ss)
        for (auto& p : *s->mem) all.insert(p.first);
    for (u32 id : all) {
        bool ok = true;
        for (auto s : ss)
            if (!peekObj(*s, id)) ok = false;
        if (ok) ids.push_back(id);
    }
    return ids;
}
static std::shared_ptr<Obj> sharedObj(const State& s, u32 id) {
    for (auto& p : *s.mem)
        if (p.first == id) return p.second;
    return std::make_shared<Obj>(*peekObj(s, id));
}
State joinStates(const std::vector<const State*>& ss, const std::vector<const std::vector<T>*>& slots,
                 std::vector<T>& outSlots, const JoinCtx* banned, JoinCtx* made) {
    Joiner J(ss, banned, made);
    State r;
    if (!slots.empty()) {
        size_t n = slots[0]->size();
        outSlots.assign(n, NOTERM);
        for (size_t i = 0; i < n; i++) {
            std::vector<T> v;
            for (auto s : slots) v.push_back((*s)[i]);
            outSlots[i] = J.phi(v);
        }
    }
    r.mem = std::make_shared<MemMap>();
    for (u32 id : commonObjs(ss)) {
        std::vector<std::shared_ptr<Obj>> os;
        for (auto s : ss) os.push_back(sharedObj(*s, id));
        r.mem->push_back({id, joinObj(J, os)});
    }
    // facts that hold on every side
    std::vector<size_t> pos(ss.size(), 0);
    std::vector<std::pair<T, u32>> kept;
    for (auto& f : ss[0]->facts->v) {
        bool eq = true;
        for (size_t i = 1; i < ss.size(); i++) {
            auto& v = ss[i]->facts->v;
            size_t& p = pos[i];
            while (p < v.size() && v[p].first < f.first) p++;
            if (!(p < v.size() && v[p] == f)) {
                eq = false;
                break;
            }
        }
        if (J.bad(f.first)) continue;
        if (eq) {
            kept.push_back(f);
            continue;
        }
        Range rg = rangeAt(f.second);
        for (size_t i = 1; i < ss.size() && !rg.isEmpty(); i++) rg = rg.unite(rangeOf(f.first, *ss[i]->facts));
        unsigned w = TT(f.first).w ? TT(f.first).w : 64;
        if (!(rg == Range::full(w))) kept.push_back({f.first, internRange(rg)});
    }
    for (auto& f : J.facts.v) kept.push_back(f);
    std::sort(kept.begin(), kept.end(), [](auto& a, auto& b) { return a.first < b.first; });
    J.facts.v.swap(kept);
    // streams
    r.streams = ss[0]->streams;
    r.mark = ss[0]->mark;
    for (auto s : ss)
        if (s->mark != r.mark) r.mark.reset();
    r.part = ss[0]->part;
    r.loopCases = r.drew = true;
    for (auto* s : ss) r.loopCases &= s->loopCases, r.drew &= s->drew;
    for (auto s : ss)
        if (s->part != r.part) r.part = 0;
    for (auto s : ss)
        if (s->streams != r.streams && *s->streams != *r.streams) {
            auto m = std::make_shared<std::map<u64, Stream>>();
            for (auto& a : *r.streams) {
                auto it = s->streams->find(a.first);
                if (it == s->streams->end()) continue;
                if (it->second == a.second) (*m)[a.first] = a.second;
                else (*m)[a.first].top = true;
            }
            r.streams = m;
        }
    r.facts = std::make_shared<Facts>(J.facts);
    r.trace = ss[0]->trace;
    return r;
}

// ---------------------------------------------------------------- subsumption
std::string subsWhy;
struct Subs {
    const State &s, &w;
    const JoinCtx& pat;
    std::unordered_map<T, T> sigma;
    std::unordered_map<u32, std::pair<i64, int>> gs;  // gen -> (gen or -1 zero, delta)
    std::unordered_map<T, bool> memo;
    Subs(const State& a, const State& b, const JoinCtx& p) : s(a), w(b), pat(p) {}
    bool term(T ts, T tw) {
        if (tw == NOTERM) return true;
        if (ts == NOTERM) return false;
        const Term x = TT(tw);
        if (x.op == O_SYM && pat.phis.count(tw)) {
            auto it = sigma.find(tw);
            if (it != sigma.end()) return it->second == ts;
            const Term y = TT(ts);
            if (y.w != x.w) return false;
            if (y.labels & ~x.labels) return false;
            if (y.op != O_PTR && y.op != O_FUNC) {
                if (!rangeOf(ts, *s.facts).subsetOf(rangeOf(tw, *w.facts))) return false;
            } else if (w.facts->get(tw))
                return false;
            sigma[tw] = ts;
            return true;
        }
        if (x.op == O_PTR) {
            const Term y = TT(ts);
            return y.op == O_PTR && y.c == x.c && term(y.a[0], x.a[0]);
        }
        if (x.op == O_SELECT && ptrLike(tw)) {
            for (T c = tw; TT(c).op == O_SELECT; c = TT(c).a[2])
                if (!pat.phis.count(TT(c).a[0])) return ts == tw && !containsBanned(tw, pat, memo);
            std::set<T> a, b;
            leavesOf(ts, a);
            expandLeaves(a, *s.facts);
            leavesOf(tw, b);
            return std::includes(b.begin(), b.end(), a.begin(), a.end());
        }
        if (x.op == O_AGG) {
            const Term y = TT(ts);
            return y.op == O_AGG && term(y.a[0], x.a[0]) && term(y.a[1], x.a[1]);
        }
        if (ts == tw) return !containsBanned(tw, pat, memo);
        if (x.op == O_CONST) {
            Range r = rangeOf(ts, *s.facts);
            return TT(ts).op != O_PTR && TT(ts).op != O_FUNC && r.isSingle() && r.lo() == x.c && !TT(ts).labels;
        }
        if (x.op == O_MEM && pat.gens.count(x.a[0])) {
            const Term y = TT(ts);
            auto it = gs.find(x.a[0]);
            if (it == gs.end()) {
                if (y.op == O_MEM && y.c == x.c && !(genLabels(y.a[0]) & ~genLabels(x.a[0]))) {
                    gs[x.a[0]] = {y.a[0], (int) y.a[1] - (int) x.a[1]};
                    return true;
                }
                return false;
            }
            return y.op == O_MEM && y.c == x.c && it->second.first == (i64) y.a[0] && (int) y.a[1] - (int) x.a[1] == it->second.second;
        }
        return false;
    }
    bool obj(const Obj& a, const Obj& b) {
        std::set<u32> cuts;
        for (auto& g : a.bg) cuts.insert(g.lo), cuts.insert(g.hi);
        for (auto& g : b.bg) cuts.insert(g.lo), cuts.insert(g.hi);
        u32 p = 0;
        for (auto c : cuts) {
            if (c == p) continue;
            const Seg* x = segAt(a, p);
            const Seg* y = segAt(b, p);
            p = c;
            if (getenv("VA_SUBS")) subsWhy = " background " + std::to_string(x->lo) + "-" + std::to_string(x->hi) + " " + (x->kind == B_ZERO ? "zero" : "sym") + " vs " + std::to_string(y->lo) + "-" + std::to_string(y->hi) + " " + (y->kind == B_ZERO ? "zero" : "sym");
            if (y->kind == B_ZERO) {
                if (x->kind != B_ZERO) return false;
                continue;
            }
            if (!pat.gens.count(y->gen)) {
                if (x->kind != B_SYM || x->gen != y->gen || x->delta != y->delta) return false;
                continue;
            }
            // y is a pattern generation
            std::pair<i64, int> img = x->kind == B_ZERO ? std::make_pair((i64) -1, 0)
                                                        : std::make_pair((i64) x->gen, x->delta - y->delta);
            if (x->kind == B_SYM && (genLabels(x->gen) & ~genLabels(y->gen))) { subsWhy += " labels" + std::to_string(genLabels(x->gen)) + " vs " + std::to_string(genLabels(y->gen)); return false; }
            auto it = gs.find(y->gen);
            if (it == gs.end()) gs[y->gen] = img;
            else if (it->second != img) { subsWhy += " pattern"; return false; }
        }
        std::vector<std::pair<u32, u32>> locs;
        elementary({&a, &b}, locs);
        for (auto& l : locs)
            if (!term(loadAt(a, l.first, l.second), loadAt(b, l.first, l.second))) {
                if (getenv("VA_SUBS")) subsWhy = "+" + std::to_string(l.first) + " " + termStr(loadAt(a, l.first, l.second)) + rangeOf(loadAt(a, l.first, l.second), *s.facts).str() + " vs " + termStr(loadAt(b, l.first, l.second)) + rangeOf(loadAt(b, l.first, l.second), *w.facts).str();
                return false;
            }
        return true;
    }
};
bool subsumed(const State& s, const std::vector<T>& sl, const State& w, const std::vector<T>& wl, const JoinCtx& pat) {
    Subs S(s, w, pat);
    for (size_t i = 0; i < wl.size(); i++)
        if (!S.term(sl[i], wl[i])) return false;
    for (auto& p : *w.mem) {
        const Obj* a = peekObj(s, p.first);
        if (!a) return false;
        if (a == p.second.get() && pat.phis.empty() && pat.gens.empty()) continue;
        subsWhy = " background";
        if (!S.obj(*a, *p.second)) {
            subsWhy = objInfo(p.first).name + subsWhy;
            return false;
        }
    }
    // remaining facts of w must hold in s (only phi-free terms can be compared directly)
    for (auto& f : w.facts->v) {
        if (pat.phis.count(f.first)) continue;
        if (containsBanned(f.first, pat, S.memo)) return false;
        if (!rangeOf(f.first, *s.facts).subsetOf(rangeAt(f.second))) return false;
    }
    // objects s has materialised and w has not: w still has the initial value
    for (auto& p : *s.mem) {
        bool in = false;
        for (auto& q : *w.mem)
            if (q.first == p.first) in = true;
        if (in) continue;
        const Obj* b = peekObj(w, p.first);
        if (b && !S.obj(*p.second, *b)) return false;
    }
    return true;
}

// ---------------------------------------------------------------- states at rest
State canonRest(const State& s, JoinCtx& made) {
    State r;
    r.mem = std::make_shared<MemMap>();
    r.facts = std::make_shared<Facts>();
    r.streams = std::make_shared<std::map<u64, Stream>>();
    r.trace = s.trace;
    Facts F;
    std::unordered_map<T, T> ren;
    std::unordered_map<u32, u32> gren;
    auto rt = [&](T t) -> T {
        const Term x = TT(t);
        if (x.op == O_CONST || x.op == O_FUNC) return t;
        if (x.op == O_PTR && TT(x.a[0]).op == O_CONST) return t;
        if (x.op != O_PTR) {
            Range rg = rangeOf(t, *s.facts);
            if (rg.isSingle() && !x.labels) return mkConst(x.w, rg.lo());
        }
        if (ptrLike(t) && x.op == O_SELECT) {
            std::set<T> ls;
            leavesOf(t, ls);
            expandLeaves(ls, *s.facts);
            T q = ptrSet(ls, &made);
            if (q != NOTERM) return q;
        }
        auto it = ren.find(t);
        if (it != ren.end()) return it->second;
        T n;
        if (x.op == O_PTR) {
            Range rg = rangeOf(x.a[0], *s.facts);
            T o = freshSym(32, "rest.off", x.labels);
            made.phis.insert(o);
            if (!(rg == Range::full(32))) F.set(o, rg);
            n = mkPtr((u32) x.c, o);
        } else {
            n = freshSym(x.w ? x.w : 64, "rest", x.labels);
            made.phis.insert(n);
            Range rg = rangeOf(t, *s.facts);
            if (x.w && !(rg == Range::full(x.w))) F.set(n, rg);
        }
        return ren[t] = n;
    };
    for (auto& p : *s.mem) {
        if (objInfo(p.first).kind != OK_GLOBAL) continue;
        auto o = std::make_shared<Obj>();
        o->size = p.second->size;
        for (auto& b : p.second->bg) {
            Seg g = b;
            if (b.kind == B_SYM) {
                auto it = gren.find(b.gen);
                if (it == gren.end()) {
                    u32 ng = freshGen("restg", genLabels(b.gen));
                    made.gens.insert(ng);
                    it = gren.insert({b.gen, ng}).first;
                }
                g.gen = it->second;
            }
            o->bg.push_back(g);
        }
        for (auto& c : p.second->cells) {
            Cell d = c;
            const Term x = TT(c.val);
            // a slice of a generation stays a slice of the renamed generation
            if (x.op == O_MEM && gren.count(x.a[0])) d.val = mkMem(gren[x.a[0]], x.a[1], (u32) x.c);
            else d.val = rt(c.val);
            o->cells.push_back(d);
        }
        r.mem->push_back({p.first, o});
    }
    *r.facts = F;
    return r;
}
