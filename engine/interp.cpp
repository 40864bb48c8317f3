// The abstract interpreter: worklist per function, disjuncts per block, joins at merge points, widening in loops.
#include "interp.h"

Config cfg;
std::vector<Violation> violations;
std::map<std::string, int> notes;
std::map<std::string, u64> stats;
std::set<std::string> obligations, coveredFuncs;
std::vector<std::string> callStack;
std::vector<const Inst*> callSites;
Func* curFunc = nullptr;
const Inst* curInst = nullptr;
static std::map<const Func*, int> active;

std::string baseName(const std::string& n) {
    size_t p = n.find('.');
    if (p == std::string::npos || n.rfind("llvm.", 0) == 0) return n;
    return n.substr(0, p);
}
void note(const std::string& m) { notes[m]++; }
struct FrameRec {
    Func* f;
    const Inst** in;
};
static std::vector<FrameRec> frames;
static std::string frameStr(const FrameRec& fr) {
    return baseName(fr.f->name) + " (" + fr.f->file + ":" + std::to_string(*fr.in ? (*fr.in)->line : fr.f->line) + ")";
}
std::string curWhere() {
    // innermost frame in the repository
    for (int i = (int) frames.size() - 1; i >= 0; i--)
        if (frames[i].f->inRepo) return frameStr(frames[i]);
    return frames.empty() ? "?" : frameStr(frames.back());
}
void addTrace(State& s, const char* file, int line, const std::string& n) {
    auto t = std::make_shared<Trace>();
    t->up = s.trace;
    t->file = file;
    t->line = line;
    t->note = n;
    s.trace = t;
}
static std::set<std::string> reported;
void addViolation(const Violation& v) {
    if (reported.insert(v.prop + "|" + v.msg + "|" + v.where).second) violations.push_back(v);
}
void report(const std::string& prop, const std::string& msg, const State& s) {
    std::string where = curWhere();
    std::string key = prop + "|" + msg + "|" + where;
    if (!reported.insert(key).second) return;
    Violation v;
    v.prop = prop;
    v.msg = msg;
    v.where = where;
    for (int i = (int) frames.size() - 1; i >= 0; i--) v.path.push_back("  in " + frameStr(frames[i]));
    std::vector<std::string> tr;
    for (auto t = s.trace; t; t = t->up) tr.push_back("  after: " + t->note);
    std::reverse(tr.begin(), tr.end());
    if (tr.size() > 40) tr.erase(tr.begin(), tr.end() - 40);
    v.path.insert(v.path.end(), tr.begin(), tr.end());
    violations.push_back(v);
}

// ---------------------------------------------------------------- values
T normT(T t, const State& s) {
    const Term x = TT(t);
    if (x.op == O_CONST || x.op == O_FUNC) return t;
    if (x.op == O_PTR) {
        T o = normT(x.a[0], s);
        return o == x.a[0] ? t : mkPtr((u32) x.c, o);
    }
    if (x.op == O_SELECT) {
        int k = evalBool(x.a[0], *s.facts);
        if (k >= 0) return normT(x.a[k ? 1 : 2], s);
        return t;
    }
    if (x.w == 0) return t;
    if (x.op == O_ADD && (TT(x.a[0]).op == O_SELECT || TT(x.a[1]).op == O_SELECT)) {
        T a = normT(x.a[0], s), b = normT(x.a[1], s);
        if (a != x.a[0] || b != x.a[1]) return normT(mk(O_ADD, x.w, a, b), s);
    }
    Range r = rangeOf(t, *s.facts);
    if (r.isSingle()) return mkConst(x.w, r.lo());
    return t;
}
static std::string ptrStr(T p) { return termStr(p, 2); }

// checks that an access is inside its object. false: nothing can be accessed
bool checkAccess(State& st, T ptr, u32 size, bool write, u32& obj, T& off) {
    const Term x = TT(ptr);
    if (x.op == O_CONST) {
        if (size) report("P20", std::string(write ? "write" : "read") + " through a null or invalid pointer", st);
        return false;
    }
    if (x.op != O_PTR) {
        note("access through an unknown pointer in " + curWhere() + (getenv("VA_DEBUG") ? ": " + ptrStr(ptr) : ""));
        return false;
    }
    obj = (u32) x.c;
    off = normT(x.a[0], st);
    const Obj* o = peekObj(st, obj);
    if (!o) {
        report("P20", "access to a local object after its lifetime: " + objInfo(obj).name, st);
        return false;
    }
    if (write && objInfo(obj).constant) {
        report("P20", "write to a constant object: " + objInfo(obj).name, st);
        return false;
    }
    if (o->size == 0 && objInfo(obj).kind == OK_GLOBAL) return size == 0;
    obligations.insert("P20|" + curWhere());
    Range r = rangeOf(off, *st.facts);
    if (o->size < size || r.isEmpty() || r.hi() > o->size - size) {
        if (r.isEmpty() || o->size < size || !(r.lo() <= o->size - size)) {
            report("P20", std::string(write ? "write" : "read") + " of " + std::to_string(size) + " byte(s) outside " +
                              objInfo(obj).name + " (size " + std::to_string(o->size) + ", offset " + r.str() + ")", st);
            return false;
        }
        report("P20", std::string(write ? "write" : "read") + " of " + std::to_string(size) +
                          " byte(s) may fall outside " + objInfo(obj).name + " (size " + std::to_string(o->size) +
                          ", offset " + r.str() + ")", st);
        refineT(off, Range::interval(0, o->size - size), editFacts(st));
        off = normT(off, st);
    }
    return true;
}
// candidate byte offsets of a symbolic offset (base + stride * k)
static bool candidates(T off, const State& st, std::vector<u32>& out) {
    Range r = rangeOf(off, *st.facts);
    if (r.isEmpty()) return false;
    if (r.count(24) <= 24) {
        r.each([&](u64 v) { out.push_back((u32) v); });
        return true;
    }
    // look for  c + s*idx
    const Term x = TT(off);
    u64 c = 0;
    T m = off;
    if (x.op == O_ADD && isConst(x.a[1])) c = cval(x.a[1]), m = x.a[0];
    const Term y = TT(m);
    if (y.op == O_MUL && isConst(y.a[1])) {
        Range q = rangeOf(y.a[0], *st.facts);
        if (!q.isEmpty() && q.count(32) <= 32) {
            q.each([&](u64 v) { out.push_back((u32) (c + v * cval(y.a[1]))); });
            return true;
        }
    }
    if (y.op == O_ADD) {  // sum of two scaled parts
        std::vector<u32> a, b;
        if (candidates(y.a[0], st, a) && candidates(y.a[1], st, b) && a.size() * b.size() <= 64) {
            for (u32 p : a)
                for (u32 q : b) out.push_back((u32) c + p + q);
            return true;
        }
    }
    return false;
}
static T loadMem(State& st, T ptr, u32 size, unsigned w) {
    u32 obj;
    T off;
    if (!checkAccess(st, ptr, size, false, obj, off)) return freshSym(w, "unk", 0);
    const Obj& o = *peekObj(st, obj);
    if (isConst(off)) return loadAt(o, (u32) cval(off), size);
    for (auto& sc : o.sym)
        if (sc.off == off && sc.size == size) return sc.val;
    std::vector<u32> cand;
    if (candidates(off, st, cand)) {
        u64 lab = 0;
        Range rg = Range::empty();
        T first = NOTERM;
        bool same = true, ptrs = false;
        std::string key = "SEL:" + std::to_string(off) + ":" + std::to_string(size);
        std::vector<T> vals;
        for (u32 c : cand) {
            if (c + size > o.size) continue;
            T v = loadAt(o, c, size);
            vals.push_back(v);
            if (first == NOTERM) first = v;
            else if (first != v) same = false;
            lab |= TT(v).labels;
            if (TT(v).op == O_PTR || TT(v).op == O_FUNC) ptrs = true;
            else rg = rg.unite(rangeOf(v, *st.facts));
            key += "," + std::to_string(c) + "=" + std::to_string(v);
        }
        if (same && first != NOTERM) return first;
        if (ptrs && cand.size() <= 24) {  // nested selection, forks when dereferenced
            T r = vals.back();
            for (int i = (int) vals.size() - 2; i >= 0; i--)
                r = mk(O_SELECT, w, mk(O_EQ, 1, off, mkConst(TT(off).w, cand[i])), vals[i], r);
            return r;
        }
        T s = mkMem(newGen(key, lab), 0, size);
        if (!rg.isEmpty() && !(rg == Range::full(w))) refineT(s, rg, editFacts(st));
        return s;
    }
    Range r = rangeOf(off, *st.facts);
    u32 lo = (u32) r.lo(), hi = std::min((u32) r.hi() + size, o.size);
    u64 lab = labelsOf(o, lo, hi - lo);
    T d = dataTerm(o, lo, hi - lo);
    return mkMem(newGen("SEL:" + std::to_string(d) + ":" + std::to_string(lo) + ":" + std::to_string(off), lab), 0, size);
}
static void storeMem(State& st, T ptr, u32 size, T v, bool ar) {
    u32 obj;
    T off;
    if (!checkAccess(st, ptr, size, true, obj, off)) return;
    if (isConst(off)) {
        storeAt(*editObj(st, obj), (u32) cval(off), size, v, ar);
        return;
    }
    Range r = rangeOf(off, *st.facts);
    const Obj& o0 = *peekObj(st, obj);
    u32 lo = (u32) r.lo(), hi = std::min((u32) r.hi() + size, o0.size);
    std::vector<u32> cand;
    bool en = candidates(off, st, cand);
    u64 lab = TT(v).labels;
    if (getenv("VA_DEBUG") && objInfo(obj).name == getenv("VA_DEBUG")) {
        fprintf(stderr, "symbolic store %s %s\n", termStr(off).c_str(), r.str().c_str());
        for (auto& c : callStack) fprintf(stderr, "   %s\n", c.c_str());
    }
    if (en) {
        // weak update of each candidate
        std::vector<std::pair<u32, T>> upd;
        for (u32 c : cand) {
            if (c + size > o0.size) continue;
            T old = loadAt(o0, c, size);
            if (old == v) continue;
            if (TT(old).op == O_PTR || TT(v).op == O_PTR || TT(old).op == O_FUNC || TT(v).op == O_FUNC) {
                upd.push_back({c, mk(O_SELECT, size * 8, mk(O_EQ, 1, off, mkConst(32, c)), v, old)});
                continue;
            }
            Range rg = rangeOf(old, *st.facts).unite(rangeOf(v, *st.facts));
            T n = mkMem(newGen("WK:" + std::to_string(off) + "," + std::to_string(c) + "," + std::to_string(size) + "," +
                                   std::to_string(v) + "," + std::to_string(old), lab | TT(old).labels), 0, size);
            if (!rg.isEmpty() && !(rg == Range::full(size * 8))) refineT(n, rg, editFacts(st));
            upd.push_back({c, n});
        }
        Obj* o = editObj(st, obj);
        for (auto& u : upd) storeAt(*o, u.first, size, u.second, true);
        o->sym = {SymCell{off, size, v}};
        return;
    }
    lab |= labelsOf(o0, lo, hi - lo);
    T d = dataTerm(o0, lo, hi - lo);
    u32 g = newGen("WR:" + std::to_string(d) + ":" + std::to_string(lo) + ":" + std::to_string(off) + ":" + std::to_string(v), lab);
    Obj* o = editObj(st, obj);
    setBg(*o, lo, hi, B_SYM, g, -(int) lo);
    o->sym = {SymCell{off, size, v}};
}

// ---------------------------------------------------------------- static per-function information
struct FInfo {
    std::vector<bool> arith;              // SSA values derived from additions
    std::vector<std::vector<bool>> live;  // live-in per block
    std::vector<u32> allocas;
};
static std::unordered_map<const Func*, FInfo> finfo;
static FInfo& info(Func* f) {
    auto it = finfo.find(f);
    if (it != finfo.end()) return it->second;
    FInfo& I = finfo[f];
    I.arith.assign(f->nssa, false);
    bool ch = true;
    while (ch) {
        ch = false;
        for (auto& b : f->blocks)
            for (auto& in : b.insts) {
                if (in.dst < 0 || I.arith[in.dst]) continue;
                bool a = in.op == I_BIN && (in.sub == O_ADD || in.sub == O_SUB);
                if (in.op == I_PHI || in.op == I_CAST || in.op == I_FREEZE)
                    for (auto& o : in.ops)
                        if (o.ssa >= 0 && I.arith[o.ssa]) a = true;
                if (a) I.arith[in.dst] = ch = true;
            }
    }
    int nb = (int) f->blocks.size();
    I.live.assign(nb, std::vector<bool>(f->nssa, false));
    std::vector<std::vector<bool>> use(nb, std::vector<bool>(f->nssa, false)), def = use;
    auto each = [&](const Inst& in, auto fn) {
        for (auto& o : in.ops)
            if (o.ssa >= 0) fn(o.ssa);
        for (auto& s : in.steps)
            if (s.idx.ssa >= 0) fn(s.idx.ssa);
    };
    for (int b = 0; b < nb; b++)
        for (auto& in : f->blocks[b].insts) {
            if (in.op != I_PHI) each(in, [&](int v) { if (!def[b][v]) use[b][v] = true; });
            if (in.dst >= 0) def[b][in.dst] = true;
        }
    ch = true;
    while (ch) {
        ch = false;
        for (int i = (int) f->rpoOrder.size() - 1; i >= 0; i--) {
            int b = f->rpoOrder[i];
            for (int v = 0; v < f->nssa; v++) {
                if (I.live[b][v]) continue;
                bool l = use[b][v];
                if (!l && !def[b][v])
                    for (int s : f->blocks[b].succ) {
                        if (I.live[s][v]) l = true;
                    }
                if (l) I.live[b][v] = ch = true;
            }
            // phi uses are live out of the predecessor
            for (int s : f->blocks[b].succ)
                for (auto& in : f->blocks[s].insts) {
                    if (in.op != I_PHI) break;
                    for (size_t k = 0; k < in.blocks.size(); k++)
                        if (in.blocks[k] == b && in.ops[k].ssa >= 0 && !def[b][in.ops[k].ssa] && !I.live[b][in.ops[k].ssa])
                            I.live[b][in.ops[k].ssa] = ch = true;
                }
        }
    }
    // phi results are defined at block entry: they count as live-in slots of their own block
    for (int b = 0; b < nb; b++)
        for (auto& in : f->blocks[b].insts) {
            if (in.op != I_PHI) break;
            I.live[b][in.dst] = true;
        }
    return I;
}

// ---------------------------------------------------------------- execution
struct Exec {
    Func* f;
    FInfo& I;
    const Inst* cur = nullptr;
    std::vector<std::vector<Disj>> pend;
    std::vector<Out> outs;
    std::vector<u32> objs;
    struct WEntry {
        Disj d;
        JoinCtx phis;
        int joins = 0;
    };
    std::map<std::pair<int, std::string>, WEntry> widen;
    int depth;
    Exec(Func* fn) : f(fn), I(info(fn)), pend(fn->blocks.size()) {}

    T val(const Disj& d, const Opnd& o) {
        if (o.ssa < 0) return o.t;
        T t = d.ssa[o.ssa];
        if (t == NOTERM) return freshSym(32, "undefssa", 0);
        return t;
    }
    std::string slotKey(const Disj& d, int block, const std::vector<bool>* mixed = nullptr) {
        std::string k;
        for (int v = 0; v < f->nssa; v++) {
            if (d.ssa[v] == NOTERM || !I.live[block][v]) continue;
            const Term& t = TT(d.ssa[v]);
            if (t.op == O_CONST) {
                if (t.c == 0 ? !(mixed && (*mixed)[v]) : I.arith[v]) continue;
            } else if (t.op == O_PTR) {
                k += "p" + std::to_string(v) + ":" + std::to_string(t.c) + "+" +
                     (TT(t.a[0]).op == O_CONST ? std::to_string(cval(t.a[0])) : std::string("?"));
                continue;
            } else if (t.op != O_FUNC)
                continue;
            k += "s" + std::to_string(v) + "=" + std::to_string(t.c) + ";";
        }
        for (auto& l : d.loops) k += "L" + std::to_string(l.header) + "," + std::to_string(l.nd + l.det) + ";";
        return k;
    }
    void mergeAt(int block) {
        auto& v = pend[block];
        if (v.size() < 2) return;
        std::map<std::string, std::vector<Disj*>> g;
        std::vector<std::string> order;
        // results that are zero on one way and computed on another (a failure code next to a value) stay apart
        std::vector<bool> mixed(f->nssa);
        for (auto& in : f->blocks[block].insts) {
            if (in.op != I_PHI) break;
            bool z = false, n = false;
            for (auto& d : v) {
                T t = d.ssa[in.dst];
                if (t == NOTERM) continue;
                if (isConst(t)) z |= cval(t) == 0;
                else n = true;
            }
            mixed[in.dst] = z && n;
        }
        for (auto& d : v) {
            std::string k = slotKey(d, block, &mixed) + "|" + stateKey(d.st);
            if (!g.count(k)) order.push_back(k);
            g[k].push_back(&d);
        }
        auto regroup = [&](auto keyOf) {
            std::map<std::string, std::vector<Disj*>> h;
            order.clear();
            for (auto& d : v) {
                std::string k = keyOf(d);
                if (!h.count(k)) order.push_back(k);
                h[k].push_back(&d);
            }
            g.swap(h);
        };
        if ((int) g.size() > cfg.limit * 4)  // forget the cases of va_cases first
            regroup([&](Disj& d) {
                d.st.part = 0;
                return slotKey(d, block, &mixed) + "|" + stateKey(d.st);
            });
        if ((int) g.size() > cfg.limit * 4) {
            note("too many disjuncts in " + f->name + ", joined by locals only");
            regroup([&](Disj& d) { return slotKey(d, block); });
        }
        if (g.size() == v.size()) return;
        std::vector<Disj> r;
        for (auto& k : order) r.push_back(joinDisj(g[k], block));
        v.swap(r);
    }
    Disj joinDisj(const std::vector<Disj*>& ds, int block) {
        if (ds.size() == 1) return std::move(*ds[0]);
        stats["joins"]++;
        std::vector<const State*> ss;
        std::vector<std::vector<T>> tmp;
        std::vector<const std::vector<T>*> sl;
        tmp.reserve(ds.size());
        for (auto d : ds) {
            ss.push_back(&d->st);
            tmp.push_back(d->ssa);
            for (int v = 0; v < f->nssa; v++)
                if (!I.live[block][v]) tmp.back()[v] = NOTERM;
        }
        for (auto& t : tmp) sl.push_back(&t);
        Disj r;
        r.st = joinStates(ss, sl, r.ssa, nullptr, nullptr);
        r.prev = ds[0]->prev;
        r.loops = ds[0]->loops;
        for (auto d : ds)
            for (size_t i = 0; i < r.loops.size() && i < d->loops.size(); i++) r.loops[i].forked |= d->loops[i].forked, r.loops[i].drew &= d->loops[i].drew;
        return r;
    }
    // transfers control; evaluates phis on the edge
    void enter(Disj d, int from, int to) {
        const Block& B = f->blocks[to];
        std::vector<std::pair<int, T>> up;
        for (auto& in : B.insts) {
            if (in.op != I_PHI) break;
            for (size_t k = 0; k < in.blocks.size(); k++)
                if (in.blocks[k] == from) {
                    up.push_back({in.dst, val(d, in.ops[k])});
                    break;
                }
        }
        for (auto& u : up) d.ssa[u.first] = u.second;
        // dead values do not keep disjuncts apart
        for (int v = 0; v < f->nssa; v++)
            if (d.ssa[v] != NOTERM && !I.live[to][v]) {
                bool isphi = false;
                for (auto& u : up)
                    if (u.first == v) isphi = true;
                if (!isphi) d.ssa[v] = NOTERM;
            }
        // loop bookkeeping
        while (!d.loops.empty() && !f->blocks[d.loops.back().header].loop.count(to)) {
            const LoopRec& L = d.loops.back();
            if (d.st.loopCases && L.nd && L.nd + L.det <= 16)
                d.st.part = internStr(std::to_string(d.st.part) + "," + std::to_string(f->id) + "/" + std::to_string(L.header) + ":" +
                                      std::to_string(L.nd + L.det)) + 1;
            d.st.drew |= L.drew;
            d.loops.pop_back();
        }
        d.prev = from;
        if (B.header) {
            if (!d.loops.empty() && d.loops.back().header == to) {
                LoopRec& L = d.loops.back();
                (L.forked ? L.nd : L.det)++;
                L.forked = false;
                for (int v : B.loopDefs)
                    if (!isPhiOf(B, v)) d.ssa[v] = NOTERM;
                if (L.nd > cfg.unroll || L.det > cfg.detLimit) {
                    if (f->inRepo) {
                        obligations.insert("P31|" + f->file + ":" + baseName(f->name) + " block " + std::to_string(to));
                        if (!d.st.drew) report("P31", "a loop may go on without end", d.st);
                    }
                    d.st.drew = false;
                    widenAt(std::move(d), to);
                    return;
                }
                d.st.drew = false;
            } else {
                d.loops.push_back({to, 0, 0, false, d.st.drew});
                d.st.drew = false;
                if (f->inRepo) obligations.insert("P31|" + f->file + ":" + baseName(f->name) + " block " + std::to_string(to));
            }
        }
        pend[to].push_back(std::move(d));
    }
    bool isPhiOf(const Block& B, int v) {
        for (auto& in : B.insts) {
            if (in.op != I_PHI) return false;
            if (in.dst == v) return true;
        }
        return false;
    }
    void widenAt(Disj d, int h) {
        d.loops.back().nd = cfg.unroll;  // one shared iteration class
        d.loops.back().det = 0;
        std::string key = stateKey(d.st);
        // phis are live at the header
        for (int v = 0; v < f->nssa; v++)
            if (d.ssa[v] != NOTERM && (TT(d.ssa[v]).op == O_FUNC || TT(d.ssa[v]).op == O_PTR)) key += std::to_string(d.ssa[v]) + ";";
        auto it = widen.find({h, key});
        stats["loop_widenings"]++;
        if (it == widen.end()) {
            WEntry e;
            e.d = d;
            widen[{h, key}] = e;
            pend[h].push_back(std::move(d));
            return;
        }
        WEntry& W = it->second;
        if (subsumed(d.st, d.ssa, W.d.st, W.d.ssa, W.phis)) return;
        if (getenv("VA_DEBUG"))
            fprintf(stderr, "widen %s block %d joins %d\n", f->name.c_str(), h, W.joins);
        std::vector<const State*> ss = {&W.d.st, &d.st};
        std::vector<const std::vector<T>*> sl = {&W.d.ssa, &d.ssa};
        JoinCtx made;
        Disj r;
        r.st = joinStates(ss, sl, r.ssa, &W.phis, &made);
        r.prev = d.prev;
        r.loops = d.loops;
        W.joins++;
        if (W.joins > 2) widenFacts(r.st, made);
        if (W.joins > 40) {
            note("loop widening did not stabilise in " + f->name);
            return;
        }
        W.phis = made;
        W.d = r;
        pend[h].push_back(r);
    }
    static void widenFacts(State& s, const JoinCtx& c) {
        static const u64 th[] = {0, 1, 2, 3, 4, 8, 10, 16, 20, 32, 64, 127, 128, 255, 256, 32767, 32768, 65535,
                                 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull,
                                 0x8000000000000000ull, ~0ull};
        Facts& F = editFacts(s);
        for (T p : c.phis) {
            const Range* r = F.get(p);
            if (!r || r->isSingle()) continue;
            u64 lo = 0, hi = ~0ull;
            for (u64 t : th)
                if (t <= r->lo()) lo = t;
            for (int i = (int) (sizeof th / sizeof *th) - 1; i >= 0; i--)
                if (th[i] >= r->hi()) hi = th[i];
            unsigned w = TT(p).w ? TT(p).w : 64;
            F.set(p, Range::interval(lo, std::min(hi, maskw(w))));
        }
    }
    // a truth value that is not a constant
    static bool isTruth(T t) {
        const Term& y = TT(t);
        return y.op != O_CONST && (y.w == 1 || (y.op == O_ZEXT && TT(y.a[0]).w == 1));
    }
    void leave(Disj d, T ret) {
        for (u32 id : objs) {
            const Obj* o = peekObj(d.st, id);
            if (!o) continue;
            if (cfg.stackSecret && f->inRepo && (labelsOf(*o, 0, o->size) & cfg.stackSecret)) {
                report("P11", "secret material is left in the stack object '" + objInfo(id).name + "' when the function returns", d.st);
            }
            if (cfg.stackSecret && f->inRepo) obligations.insert("P11|" + f->file + ":" + objInfo(id).name);
            dropObj(d.st, id);
        }
        Out o;
        if (ret != NOTERM && isTruth(ret)) {
            Range r = rangeOf(ret, *d.st.facts);  // a known result keeps its path apart like a constant one
            if (r.isSingle()) ret = mkConst(TT(ret).w, r.lo());
        }
        o.ret = ret;
        o.st = std::move(d.st);
        outs.push_back(std::move(o));
    }
    void finish(bool retArith) {
        if (outs.size() < 2) return;
        std::map<std::string, std::vector<size_t>> g;
        std::vector<std::string> order;
        bool zero = false, computed = false;
        for (auto& o : outs)
            if (o.ret != NOTERM) (isConst(o.ret) && cval(o.ret) == 0 ? zero : computed) |= !isConst(o.ret) || cval(o.ret) == 0 || retArith;
        auto rk = [&](const Out& o) -> std::string {
            if (o.ret == NOTERM) return "v";
            const Term& t = TT(o.ret);
            if (t.op == O_CONST && t.c == 0 && zero && computed) return "c0";
            if (t.op == O_CONST) return retArith ? "c" : "c" + std::to_string(t.c);
            if (t.op == O_PTR) return "p" + std::to_string(o.ret);
            if (t.op == O_FUNC) return "f" + std::to_string(t.c);
            return retArith ? "c" : "s";
        };
        for (size_t i = 0; i < outs.size(); i++) {
            std::string k = rk(outs[i]) + "|" + stateKey(outs[i].st);
            if (!g.count(k)) order.push_back(k);
            g[k].push_back(i);
        }
        if ((int) g.size() > cfg.exitLimit * 8) {
            note("too many outcomes of " + f->name + ", joined by return value");
            g.clear();
            order.clear();
            for (size_t i = 0; i < outs.size(); i++) {
                std::string k = rk(outs[i]);
                if (!g.count(k)) order.push_back(k);
                g[k].push_back(i);
            }
        }
        if (g.size() == outs.size()) return;
        std::vector<Out> r;
        for (auto& k : order) {
            auto& ix = g[k];
            if (ix.size() == 1) {
                r.push_back(std::move(outs[ix[0]]));
                continue;
            }
            stats["joins"]++;
            std::vector<const State*> ss;
            std::vector<std::vector<T>> tmp;
            std::vector<const std::vector<T>*> sl;
            for (size_t i : ix) tmp.push_back({outs[i].ret});
            for (size_t i : ix) ss.push_back(&outs[i].st);
            for (auto& t : tmp) sl.push_back(&t);
            Out o;
            std::vector<T> os;
            o.st = joinStates(ss, sl, os, nullptr, nullptr);
            o.ret = os[0];
            r.push_back(std::move(o));
        }
        outs.swap(r);
    }
    // runs the rest of a block from instruction index i
    void runFrom(int b, size_t i, Disj d);
    void branch(Disj d, int b, const Inst& in);
    bool callInst(int b, size_t i, Disj& d, const Inst& in);
};

static T icmp(int pred, T a, T b) {
    switch (pred) {  // LLVMIntPredicate
        case 32: return mk(O_EQ, 1, a, b);
        case 33: return mk(O_NOT, 1, mk(O_EQ, 1, a, b));
        case 34: return mk(O_ULT, 1, b, a);
        case 35: return mk(O_NOT, 1, mk(O_ULT, 1, a, b));
        case 36: return mk(O_ULT, 1, a, b);
        case 37: return mk(O_NOT, 1, mk(O_ULT, 1, b, a));
        case 38: return mk(O_SLT, 1, b, a);
        case 39: return mk(O_NOT, 1, mk(O_SLT, 1, a, b));
        case 40: return mk(O_SLT, 1, a, b);
        default: return mk(O_NOT, 1, mk(O_SLT, 1, b, a));
    }
}

void Exec::branch(Disj d, int b, const Inst& in) {
    auto markFork = [&](Disj& x) {
        for (auto& l : x.loops) l.forked = true;
    };
    if (in.op == I_BR) {
        enter(std::move(d), b, in.blocks[0]);
        return;
    }
    if (in.op == I_CONDBR) {
        T c = val(d, in.ops[0]);
        int k = evalBool(c, *d.st.facts);
        if (k < 0 && cfg.bits) k = bitsBool(c, d.st);
        if (k >= 0) {
            enter(std::move(d), b, in.blocks[k ? 0 : 1]);
            return;
        }
        Disj e = d;
        bool t = assumeT(c, true, editFacts(d.st));
        bool e2 = assumeT(c, false, editFacts(e.st));
        if (t && e2) {
            stats["forks"]++;
            // only a fork that decides about leaving a loop counts as an undecided iteration
            for (auto& l : d.loops) {
                auto& lp = f->blocks[l.header].loop;
                if (lp.count(in.blocks[0]) != lp.count(in.blocks[1])) l.forked = true;
            }
            for (auto& l : e.loops) {
                auto& lp = f->blocks[l.header].loop;
                if (lp.count(in.blocks[0]) != lp.count(in.blocks[1])) l.forked = true;
            }
        }
        // truth values kept in variables that the decision settles tell the two ways apart from here on
        auto settle = [&](Disj& x) {
            for (T& v : x.ssa) {
                if (v == NOTERM) continue;
                if (!isTruth(v)) continue;
                Range r = rangeOf(v, *x.st.facts);
                if (r.isSingle()) v = mkConst(TT(v).w, r.lo());
            }
        };
        if (t && e2) settle(d), settle(e);
        if (t) enter(std::move(d), b, in.blocks[0]);
        if (e2) enter(std::move(e), b, in.blocks[1]);
        return;
    }
    // switch
    T c = val(d, in.ops[0]);
    Range r = rangeOf(c, *d.st.facts);
    Range rest = r;
    for (size_t k = 0; k < in.cases.size(); k++) {
        if (!r.contains(in.cases[k])) continue;
        Disj e = d;
        if (!refineT(c, Range::single(in.cases[k]), editFacts(e.st))) continue;
        markFork(e);
        rest = rest.intersect(Range::single(in.cases[k]).complement(in.ow));
        enter(std::move(e), b, in.blocks[k + 1]);
    }
    if (rest.isEmpty()) return;
    if (TT(c).op != O_CONST && !refineT(c, rest, editFacts(d.st))) return;
    enter(std::move(d), b, in.blocks[0]);
}

static std::vector<Out> doCall(Func* target, const std::string& name, const Inst& in, std::vector<T> args, State st) {
    std::vector<Out> outs;
    std::string bn = baseName(name);
    if (bn.rfind("__real_", 0) == 0) {
        bn = bn.substr(7);
        // any function with that base name
        for (auto& fn : M.funcs)
            if (fn->defined && baseName(fn->name) == bn) return execFunc(fn.get(), args, st);
        if (isNative(bn)) {
            runNative(bn, in, args, st, outs);
            return outs;
        }
        note("no definition for " + name);
    } else {
        auto it = M.fmap.find("__wrap_" + bn);
        if (it != M.fmap.end() && it->second->defined) return execFunc(it->second, args, st);
    }
    if (target && target->defined) return execFunc(target, args, st);
    if (isNative(bn)) {
        runNative(bn, in, args, st, outs);
        return outs;
    }
    // a definition elsewhere with the same base name
    note("call of the undefined function " + name + " in " + curWhere());
    for (T a : args) {
        const Term x = TT(a);
        if (x.op == O_PTR && !objInfo((u32) x.c).constant && peekObj(st, (u32) x.c)) {
            Obj* o = editObj(st, (u32) x.c);
            setBg(*o, 0, o->size, B_SYM, freshGen("unk:" + name, 0), 0);
        }
    }
    Out o;
    o.st = st;
    o.ret = in.w ? freshSym(in.w, "ret:" + name, 0) : NOTERM;
    outs.push_back(o);
    return outs;
}

bool Exec::callInst(int b, size_t i, Disj& d, const Inst& in) {
    // returns true when handled by continuing other disjuncts (d consumed)
    std::vector<T> args;
    size_t na = in.ops.size() - (in.callee.empty() ? 1 : 0);
    for (size_t k = 0; k < na; k++) args.push_back(val(d, in.ops[k]));
    Func* target = in.cfn;
    std::string name = in.callee;
    if (in.callee.empty()) {
        T p = normT(val(d, in.ops.back()), d.st);
        const Term x = TT(p);
        if (x.op == O_SELECT) {
            Disj e = d;
            if (assumeT(x.a[0], true, editFacts(d.st))) runFrom(b, i, d);
            if (assumeT(x.a[0], false, editFacts(e.st))) runFrom(b, i, e);
            return true;
        }
        if (x.op == O_FUNC) {
            target = M.funcs[x.c].get();
            name = target->name;
        } else if (x.op == O_CONST) {
            report("P20", "call through a null or invalid function pointer", d.st);
            return true;
        } else {
            note("call through an unknown function pointer in " + curWhere() + (getenv("VA_DEBUG") ? ": " + termStr(p) : ""));
            if (in.dst >= 0) d.ssa[in.dst] = freshSym(in.w, "icall", 0);
            return false;
        }
    }
    std::vector<Out> outs = doCall(target, name, in, args, d.st);
    if (outs.size() == 1) {
        d.st = std::move(outs[0].st);
        if (in.dst >= 0) d.ssa[in.dst] = outs[0].ret != NOTERM ? outs[0].ret : freshSym(in.w ? in.w : 64, "noret", 0);
        return false;
    }
    for (auto& o : outs) {
        Disj e;
        e.ssa = d.ssa;
        e.prev = d.prev;
        e.loops = d.loops;
        e.st = std::move(o.st);
        if (in.dst >= 0) e.ssa[in.dst] = o.ret != NOTERM ? o.ret : freshSym(in.w ? in.w : 64, "noret", 0);
        runFrom(b, i + 1, std::move(e));
    }
    return true;
}

void Exec::runFrom(int b, size_t i, Disj d) {
    const Block& B = f->blocks[b];
    for (; i < B.insts.size(); i++) {
        const Inst& in = B.insts[i];
        cur = &in;
        stats["insts"]++;
        switch (in.op) {
            case I_PHI: case I_NOP: break;
            case I_ALLOCA: {
                int rec = active[f];
                std::string key = baseName(f->name) + "." + (in.name.empty() ? "tmp" : in.name) + "@" + std::to_string(f->id) +
                                  "#" + std::to_string(b) + "." + std::to_string(i) + (rec > 1 ? "/" + std::to_string(rec) : "");
                u32 id = internObj(key, OK_ALLOCA, in.size);
                if (std::find(objs.begin(), objs.end(), id) == objs.end()) objs.push_back(id);
                dropObj(d.st, id);
                Obj* o = editObj(d.st, id);
                *o = freshObj(in.size, B_SYM, newGen("undef:" + key, cfg.uninitLabel));
                d.ssa[in.dst] = mkPtr(id, mkConst(32, 0));
                break;
            }
            case I_LOAD: {
                T p = normT(val(d, in.ops[0]), d.st);
                if (TT(p).op == O_SELECT) {
                    const Term x = TT(p);
                    Disj e = d;
                    if (assumeT(x.a[0], true, editFacts(d.st))) {
                        if (in.ops[0].ssa >= 0) d.ssa[in.ops[0].ssa] = x.a[1];
                        runFrom(b, i, std::move(d));
                    }
                    if (assumeT(x.a[0], false, editFacts(e.st))) {
                        if (in.ops[0].ssa >= 0) e.ssa[in.ops[0].ssa] = x.a[2];
                        runFrom(b, i, std::move(e));
                    }
                    return;
                }
                if (in.size > 8) {
                    u32 ob; T of;
                    if (checkAccess(d.st, p, in.size, false, ob, of)) {}
                    d.ssa[in.dst] = freshSym(64, "bigload", 0);
                    note("load of an aggregate in " + f->name);
                    break;
                }
                T v = loadMem(d.st, p, in.size, in.size * 8);
                if (in.w && in.w < in.size * 8 && TT(v).op != O_PTR && TT(v).op != O_FUNC) v = mk(O_TRUNC, in.w, v);
                d.ssa[in.dst] = v;
                break;
            }
            case I_STORE: {
                T p = normT(val(d, in.ops[1]), d.st);
                if (TT(p).op == O_SELECT) {
                    const Term x = TT(p);
                    Disj e = d;
                    if (assumeT(x.a[0], true, editFacts(d.st))) {
                        if (in.ops[1].ssa >= 0) d.ssa[in.ops[1].ssa] = x.a[1];
                        runFrom(b, i, std::move(d));
                    }
                    if (assumeT(x.a[0], false, editFacts(e.st))) {
                        if (in.ops[1].ssa >= 0) e.ssa[in.ops[1].ssa] = x.a[2];
                        runFrom(b, i, std::move(e));
                    }
                    return;
                }
                T v = val(d, in.ops[0]);
                if (in.size > 8 || TT(v).op == O_AGG) {
                    u32 ob; T of;
                    if (checkAccess(d.st, p, in.size, true, ob, of) && isConst(of))
                        setBg(*editObj(d.st, ob), (u32) cval(of), (u32) cval(of) + in.size, B_SYM, freshGen("bigstore", TT(v).labels), 0);
                    note("store of an aggregate in " + f->name);
                    break;
                }
                if (in.ow && in.ow < in.size * 8) v = mk(O_ZEXT, in.size * 8, v);
                T nv = normT(v, d.st);
                if (isConst(nv) && !TT(v).labels) v = nv;
                storeMem(d.st, p, in.size, v, in.arith);
                break;
            }
            case I_GEP: {
                T p = val(d, in.ops[0]);
                T off = mkConst(32, (u64) in.constOff);
                for (auto& s : in.steps) {
                    T ix = val(d, s.idx);
                    unsigned w = TT(ix).w;
                    if (w < 32) ix = mk(O_SEXT, 32, ix);
                    else if (w > 32) ix = mk(O_TRUNC, 32, ix);
                    T c = normT(ix, d.st);
                    if (isConst(c)) ix = c;
                    if (s.count) {  // an index into an array of known length
                        Range r = rangeOf(ix, *d.st.facts);
                        u64 top = s.deref ? s.count - 1 : s.count;
                        obligations.insert("P20|" + curWhere() + " index");
                        if (r.isEmpty() || r.hi() > top)
                            report("P20", "index " + r.str() + " may fall outside an array of " + std::to_string(s.count), d.st);
                    }
                    off = mk(O_ADD, 32, off, mk(O_MUL, 32, ix, mkConst(32, (u64) s.scale)));
                }
                const Term x = TT(p);
                if (x.op == O_SELECT) {
                    std::function<T(T)> go = [&](T q) -> T {
                        const Term y = TT(q);
                        if (y.op == O_SELECT) return mk(O_SELECT, 32, y.a[0], go(y.a[1]), go(y.a[2]));
                        return mk(O_ADD, 32, q, off);
                    };
                    d.ssa[in.dst] = go(p);
                } else
                    d.ssa[in.dst] = mk(O_ADD, 32, p, off);
                break;
            }
            case I_ICMP: {
                T a = val(d, in.ops[0]), c = val(d, in.ops[1]);
                if (in.ow == 32) {
                    a = normT(a, d.st);
                    c = normT(c, d.st);
                }
                d.ssa[in.dst] = icmp(in.sub, a, c);
                break;
            }
            case I_SELECT: {
                T c = val(d, in.ops[0]);
                int k = evalBool(c, *d.st.facts);
                if (k < 0 && cfg.bits) k = bitsBool(c, d.st);
                T a = val(d, in.ops[1]), e = val(d, in.ops[2]);
                d.ssa[in.dst] = k >= 0 ? (k ? a : e) : mk(O_SELECT, in.w, c, a, e);
                break;
            }
            case I_CAST: {
                T a = val(d, in.ops[0]);
                switch (in.sub) {  // LLVMOpcode: 30 trunc 31 zext 32 sext
                    case 30: {
                        const Term x = TT(a);
                        if (x.op == O_PTR || x.op == O_FUNC) a = mk(O_PTRINT, 32, a);
                        d.ssa[in.dst] = mk(O_TRUNC, in.w, a);
                        break;
                    }
                    case 31:
                        d.ssa[in.dst] = mk(O_ZEXT, in.w, a);
                        break;
                    case 32: d.ssa[in.dst] = mk(O_SEXT, in.w, a); break;
                    default:
                        if (in.w == in.ow || !in.w) d.ssa[in.dst] = a;
                        else d.ssa[in.dst] = mk(in.w > in.ow ? O_ZEXT : O_TRUNC, in.w, a);
                }
                break;
            }
            case I_BIN: {
                T a = val(d, in.ops[0]), c = val(d, in.ops[1]);
                u8 op = in.sub;
                if ((op == O_SDIV || op == O_SREM || op == O_ASHR) && in.w) {  // signed, but never negative
                    Range ra = rangeOf(a, *d.st.facts), rc = rangeOf(c, *d.st.facts);
                    u64 top = maskw(in.w) >> 1;
                    if (!ra.isEmpty() && ra.hi() <= top && !rc.isEmpty() && (op == O_ASHR || rc.hi() <= top))
                        op = op == O_SDIV ? O_UDIV : op == O_SREM ? O_UREM : O_LSHR;
                    if (op == O_ASHR && !ra.isEmpty() && ra.lo() > top && rc.isSingle() && rc.lo() + 1 == in.w) {  // the sign
                        d.ssa[in.dst] = mkConst(in.w, maskw(in.w));
                        break;
                    }
                }
                if (in.sub == O_UDIV || in.sub == O_UREM || in.sub == O_SDIV || in.sub == O_SREM) {
                    Range r = rangeOf(c, *d.st.facts);
                    obligations.insert("P20|" + curWhere() + " division");
                    if (r.contains(0)) report("P20", "division by a value that may be zero", d.st);
                }
                d.ssa[in.dst] = mk((Op) op, in.w, a, c);
                break;
            }
            case I_FREEZE: d.ssa[in.dst] = val(d, in.ops[0]); break;
            case I_EXTRACTV: {
                T a = val(d, in.ops[0]);
                const Term x = TT(a);
                if (x.op == O_AGG && in.size < 2) d.ssa[in.dst] = x.a[in.size];
                else {
                    d.ssa[in.dst] = freshSym(in.w ? in.w : 64, "xv", x.labels);
                    note("extractvalue of an opaque aggregate in " + f->name);
                }
                break;
            }
            case I_INSERTV: {
                T a = val(d, in.ops[0]), v = val(d, in.ops[1]);
                const Term x = TT(a);
                T p = x.op == O_AGG ? x.a[0] : v, q = x.op == O_AGG ? x.a[1] : v;
                if (in.size == 0) p = v;
                else q = v;
                d.ssa[in.dst] = mk(O_AGG, 0, p, q);
                break;
            }
            case I_CALL: {
                if (in.cfn == nullptr && in.callee.empty()) {
                    if (callInst(b, i, d, in)) return;
                    cur = &in;
                    break;
                }
                if (callInst(b, i, d, in)) return;
                cur = &in;
                break;
            }
            case I_RET:
                leave(std::move(d), in.ops.empty() ? NOTERM : val(d, in.ops[0]));
                return;
            case I_UNREACH: return;
            case I_BR: case I_CONDBR: case I_SWITCH:
                branch(std::move(d), b, in);
                return;
        }
    }
}

std::vector<Out> execFunc(Func* f, std::vector<T> args, State st) {
    if (frames.size() > 60) {
        note("call depth exceeded at " + f->name);
        report("P31", "calls go on without end", st);
        return {};
    }
    Exec E(f);
    active[f]++;
    frames.push_back({f, &E.cur});
    if (f->inRepo) coveredFuncs.insert(f->file + ":" + baseName(f->name));
    stats["calls"]++;
    Disj d;
    d.ssa.assign(f->nssa, NOTERM);
    for (int i = 0; i < f->nargs; i++) {
        T a = i < (int) args.size() ? args[i] : freshSym(32, "noarg", 0);
        if (f->byval[i]) {  // private copy
            u32 id = internObj("byval:" + f->name + ":" + std::to_string(i) + "/" + std::to_string(active[f]), OK_ALLOCA, f->byval[i]);
            E.objs.push_back(id);
            dropObj(st, id);
            Obj* o = editObj(st, id);
            *o = freshObj(f->byval[i], B_SYM, newGen("undef:byval", 0));
            const Term x = TT(a);
            if (x.op == O_PTR && isConst(x.a[0])) copyRegion(st, id, 0, (u32) x.c, (u32) cval(x.a[0]), f->byval[i]);
            a = mkPtr(id, mkConst(32, 0));
        }
        d.ssa[i] = a;
    }
    d.st = std::move(st);
    E.pend[0].push_back(std::move(d));
    for (;;) {
        int b = -1;
        for (int x : f->rpoOrder)
            if (!E.pend[x].empty()) {
                b = x;
                break;
            }
        if (b < 0) break;
        E.mergeAt(b);
        std::vector<Disj> work;
        work.swap(E.pend[b]);
        size_t first = 0;
        while (first < f->blocks[b].insts.size() && f->blocks[b].insts[first].op == I_PHI) first++;
        stats["max_disjuncts"] = std::max<u64>(stats["max_disjuncts"], work.size());
        for (auto& w : work) E.runFrom(b, first, std::move(w));
    }
    bool ra = false;
    for (auto& b : f->blocks)
        for (auto& in : b.insts)
            if (in.op == I_RET && !in.ops.empty() && in.ops[0].ssa >= 0 && E.I.arith[in.ops[0].ssa]) ra = true;
    E.finish(ra);
    frames.pop_back();
    active[f]--;
    stats["outcomes"] += E.outs.size();
    if (getenv("VA_OUTS") && E.outs.size() > 8)
        fprintf(stderr, "%*s%s: %zu outcomes\n", (int) frames.size(), "", f->name.c_str(), E.outs.size());
    return std::move(E.outs);
}
