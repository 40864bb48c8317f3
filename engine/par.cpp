// Transfer of states at rest between the processes that explore events in parallel.
#include "interp.h"

namespace {
struct W {
    std::string& b;
    std::unordered_map<T, u32> ids;
    std::unordered_map<u32, u32> gens;
    std::vector<std::string> dummy;
    void u(u64 v) {
        while (v >= 128) b += (char) (v | 128), v >>= 7;
        b += (char) v;
    }
    void s(const std::string& x) {
        u(x.size());
        b += x;
    }
    // 0 + id: seen; 1: new term follows
    void term(T t) {
        auto it = ids.find(t);
        if (it != ids.end()) {
            u(0);
            u(it->second);
            return;
        }
        const Term x = TT(t);
        u(1);
        Op op = x.op;
        bool opaque = op == O_DATA || op == O_DERIVE || op == O_MEMCMP || op == O_PTRINT;
        if (opaque) op = O_SYM;
        u(op);
        u(x.w);
        u(x.labels);
        switch (op) {
            case O_SYM: break;
            case O_CONST: u(x.c); break;
            case O_FUNC: u(x.c); break;
            case O_PTR: {
                const ObjInfo oi = objInfo((u32) x.c);
                u(oi.kind == OK_GLOBAL);
                if (oi.kind == OK_GLOBAL) u(x.c);
                else s(oi.name), u(oi.kind), u(oi.size);
                term(x.a[0]);
                break;
            }
            case O_MEM: gen(x.a[0]); u(x.a[1]); u(x.c); break;
            case O_EXTRACT: term(x.a[0]); u(x.a[1]); break;
            case O_SELECT: term(x.a[0]); term(x.a[1]); term(x.a[2]); break;
            case O_NOT: case O_ZEXT: case O_SEXT: case O_TRUNC: case O_BSWAP: term(x.a[0]); break;
            default: term(x.a[0]); term(x.a[1]); break;
        }
        u32 n = (u32) ids.size();
        ids[t] = n;
    }
    void gen(u32 g) {
        auto it = gens.find(g);
        if (it != gens.end()) {
            u(0);
            u(it->second);
            return;
        }
        u(1);
        u(genLabels(g));
        u32 n = (u32) gens.size();
        gens[g] = n;
    }
    void range(const Range& r) {
        u(r.n);
        for (int i = 0; i < r.n; i++) u(r.iv[i].first), u(r.iv[i].second);
    }
};
struct R {
    const std::string& b;
    size_t p = 0;
    std::vector<T> ids;
    std::vector<u32> gens;
    u64 u() {
        u64 v = 0;
        int k = 0;
        while (p < b.size()) {
            u8 c = (u8) b[p++];
            v |= (u64) (c & 127) << k;
            if (!(c & 128)) break;
            k += 7;
        }
        return v;
    }
    std::string s() {
        size_t n = u();
        std::string r = b.substr(p, n);
        p += n;
        return r;
    }
    T term() {
        if (u() == 0) return ids[u()];
        Op op = (Op) u();
        unsigned w = (unsigned) u();
        u64 lab = u();
        T r;
        switch (op) {
            case O_SYM: r = freshSym(w, "st", lab); break;
            case O_CONST: r = mkConst(w, u()); break;
            case O_FUNC: r = mk(O_FUNC, 32, 0, 0, 0, u()); break;
            case O_PTR: {
                u32 o;
                if (u()) o = (u32) u();
                else {
                    std::string nm = s();
                    ObjKind k = (ObjKind) u();
                    o = internObj(nm, k, (u32) u());
                }
                T off = term();
                r = mkPtr(o, off);
                break;
            }
            case O_MEM: {
                u32 g = gen();
                u32 o = (u32) u(), c = (u32) u();
                r = mkMem(g, o, c);
                break;
            }
            case O_EXTRACT: {
                T a = term();
                r = mk(O_EXTRACT, w, a, (T) u());
                break;
            }
            case O_SELECT: {
                T a = term(), c = term(), d = term();
                r = mk(O_SELECT, w, a, c, d);
                break;
            }
            case O_NOT: case O_ZEXT: case O_SEXT: case O_TRUNC: case O_BSWAP: r = mk(op, w, term()); break;
            default: {
                T a = term(), c = term();
                r = mk(op, w, a, c);
                break;
            }
        }
        ids.push_back(r);
        return r;
    }
    u32 gen() {
        if (u() == 0) return gens[u()];
        u32 g = freshGen("st", u());
        gens.push_back(g);
        return g;
    }
    Range range() {
        Range r;
        r.n = (int) u();
        for (int i = 0; i < r.n; i++) r.iv[i].first = u(), r.iv[i].second = u();
        return r;
    }
};
}  // namespace

void packState(std::string& buf, const State& s, const JoinCtx& made) {
    W w{buf, {}, {}, {}};
    w.u(s.mem->size());
    for (auto& m : *s.mem) {
        const Obj& o = *m.second;
        w.u(m.first);
        w.u(o.size);
        w.u(o.bg.size());
        for (auto& g : o.bg) {
            w.u(g.lo);
            w.u(g.hi);
            w.u(g.kind);
            w.u((u64) (u32) g.delta);
            if (g.kind == B_SYM) w.gen(g.gen);
        }
        w.u(o.cells.size());
        for (auto& c : o.cells) {
            w.u(c.off);
            w.u(c.size);
            w.u(c.ar);
            w.term(c.val);
        }
        w.u(o.sym.size());
        for (auto& c : o.sym) {
            w.u(c.size);
            w.term(c.off);
            w.term(c.val);
        }
    }
    w.u(s.facts->v.size());
    for (auto& f : s.facts->v) {
        w.term(f.first);
        w.range(rangeAt(f.second));
    }
    w.u(made.phis.size());
    for (T t : made.phis) w.term(t);
    w.u(made.gens.size());
    for (u32 g : made.gens) w.gen(g);
    std::vector<const Trace*> tr;
    for (auto t = s.trace.get(); t; t = t->up.get()) tr.push_back(t);
    if (tr.size() > 60) tr.resize(60);
    w.u(tr.size());
    for (size_t i = tr.size(); i-- > 0;) w.s(tr[i]->note);
}
bool unpackState(const std::string& buf, size_t& pos, State& s, JoinCtx& made) {
    R r{buf, pos, {}, {}};
    s.mem = std::make_shared<MemMap>();
    s.facts = std::make_shared<Facts>();
    s.streams = std::make_shared<std::map<u64, Stream>>();
    size_t n = r.u();
    for (size_t i = 0; i < n; i++) {
        u32 id = (u32) r.u();
        auto o = std::make_shared<Obj>();
        o->size = (u32) r.u();
        size_t k = r.u();
        for (size_t j = 0; j < k; j++) {
            Seg g;
            g.lo = (u32) r.u();
            g.hi = (u32) r.u();
            g.kind = (BgKind) r.u();
            g.delta = (int) (u32) r.u();
            g.gen = g.kind == B_SYM ? r.gen() : 0;
            o->bg.push_back(g);
        }
        k = r.u();
        for (size_t j = 0; j < k; j++) {
            Cell c;
            c.off = (u32) r.u();
            c.size = (u32) r.u();
            c.ar = r.u();
            c.val = r.term();
            o->cells.push_back(c);
        }
        k = r.u();
        for (size_t j = 0; j < k; j++) {
            SymCell c;
            c.size = (u32) r.u();
            c.off = r.term();
            c.val = r.term();
            o->sym.push_back(c);
        }
        s.mem->push_back({id, o});
    }
    n = r.u();
    for (size_t i = 0; i < n; i++) {
        T t = r.term();
        Range g = r.range();
        if (!isConst(t)) s.facts->set(t, g);
    }
    n = r.u();
    for (size_t i = 0; i < n; i++) made.phis.insert(r.term());
    n = r.u();
    for (size_t i = 0; i < n; i++) made.gens.insert(r.gen());
    n = r.u();
    for (size_t i = 0; i < n; i++) {
        auto t = std::make_shared<Trace>();
        t->up = s.trace;
        t->file = "";
        t->line = 0;
        t->note = r.s();
        s.trace = t;
    }
    bool ok = r.p <= buf.size();
    pos = r.p;
    return ok;
}
void packStr(std::string& buf, const std::string& x) { W{buf, {}, {}, {}}.s(x); }
void packInt(std::string& buf, u64 v) { W{buf, {}, {}, {}}.u(v); }
std::string unpackStr(const std::string& buf, size_t& pos) {
    R r{buf, pos, {}, {}};
    std::string s = r.s();
    pos = r.p;
    return s;
}
u64 unpackInt(const std::string& buf, size_t& pos) {
    R r{buf, pos, {}, {}};
    u64 v = r.u();
    pos = r.p;
    return v;
}
