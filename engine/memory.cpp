// Abstract memory: objects made of scalar cells over a background of zero or symbolic segments.
#include "interp.h"

T mkFresh(unsigned w, const std::string& hint, u64 labels);
u32 mkFreshGen(u64 labels);
T freshSym(unsigned w, const std::string& hint, u64 labels) { return mkFresh(w, hint, labels); }
u32 freshGen(const std::string&, u64 labels) { return mkFreshGen(labels); }

Obj freshObj(u32 size, BgKind k, u32 gen) {
    Obj o;
    o.size = size;
    if (size) o.bg.push_back({0, size, k, gen, 0});
    return o;
}
static std::unordered_map<u32, std::shared_ptr<Obj>> globalInit;
static std::shared_ptr<Obj> initialObj(u32 id) {
    auto it = globalInit.find(id);
    if (it != globalInit.end()) return it->second;
    auto o = std::make_shared<Obj>();
    const ObjInfo oi = objInfo(id);
    if (oi.kind == OK_GLOBAL && oi.global >= 0) {
        Global& g = M.globals[oi.global];
        *o = freshObj(g.size, g.external ? B_SYM : B_ZERO, g.external ? newGen("ext:" + g.name, 0) : 0);
        for (auto& c : g.init) storeAt(*o, c.first, c.second.first, c.second.second, false);
    } else
        *o = freshObj(oi.size, B_SYM, newGen("undef:" + oi.name, cfg.uninitLabel));
    globalInit[id] = o;
    return o;
}
static size_t findObj(const MemMap& m, u32 id) {
    return std::lower_bound(m.begin(), m.end(), id,
                            [](const std::pair<u32, std::shared_ptr<Obj>>& p, u32 i) { return p.first < i; }) -
           m.begin();
}
const Obj* peekObj(const State& s, u32 id) {
    const ObjInfo& oi = objInfo(id);
    if (oi.constant) return initialObj(id).get();
    size_t i = findObj(*s.mem, id);
    if (i < s.mem->size() && (*s.mem)[i].first == id) return (*s.mem)[i].second.get();
    if (oi.kind == OK_GLOBAL) return initialObj(id).get();
    return nullptr;  // dead
}
Obj* editObj(State& s, u32 id) {
    if (s.mem.use_count() > 1) s.mem = std::make_shared<MemMap>(*s.mem);
    size_t i = findObj(*s.mem, id);
    if (!(i < s.mem->size() && (*s.mem)[i].first == id))
        s.mem->insert(s.mem->begin() + i, {id, initialObj(id)});
    auto& p = (*s.mem)[i].second;
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return p.get();
}
void dropObj(State& s, u32 id) {
    size_t i = findObj(*s.mem, id);
    if (!(i < s.mem->size() && (*s.mem)[i].first == id)) return;
    if (s.mem.use_count() > 1) s.mem = std::make_shared<MemMap>(*s.mem);
    s.mem->erase(s.mem->begin() + i);
}
Facts& editFacts(State& s) {
    if (s.facts.use_count() > 1) s.facts = std::make_shared<Facts>(*s.facts);
    return *s.facts;
}

static size_t firstCell(const Obj& o, u32 off) {  // first cell ending after off
    size_t i = std::lower_bound(o.cells.begin(), o.cells.end(), off,
                                [](const Cell& c, u32 x) { return c.off < x; }) -
               o.cells.begin();
    if (i > 0 && o.cells[i - 1].off + o.cells[i - 1].size > off) i--;
    return i;
}
static T bgByte(const Obj& o, u32 off) {
    for (auto& s : o.bg)
        if (off >= s.lo && off < s.hi) {
            if (s.kind == B_ZERO) return mkConst(8, 0);
            return mkMem(s.gen, (u32) ((int) off + s.delta), 1);
        }
    return mkConst(8, 0);
}
static T byteOf(T v, u32 i) {
    const Term& x = TT(v);
    if (x.op == O_PTR || x.op == O_FUNC) return mk(O_EXTRACT, 8, mk(O_PTRINT, 32, v), i);
    return mk(O_EXTRACT, 8, v, i);
}
T loadAt(const Obj& o, u32 off, u32 size) {
    size_t i = firstCell(o, off);
    if (i < o.cells.size()) {
        const Cell& c = o.cells[i];
        if (c.off == off && c.size == size) return c.val;
        if (c.off <= off && c.off + c.size >= off + size && TT(c.val).op != O_PTR && TT(c.val).op != O_FUNC)
            return mk(O_EXTRACT, size * 8, c.val, off - c.off);
    }
    bool any = i < o.cells.size() && o.cells[i].off < off + size;
    if (!any) {
        for (auto& s : o.bg)
            if (off >= s.lo && off + size <= s.hi) {
                if (s.kind == B_ZERO) return mkConst(size * 8, 0);
                return mkMem(s.gen, (u32) ((int) off + s.delta), size);
            }
    }
    T r = NOTERM;
    for (u32 k = 0; k < size; k++) {
        u32 p = off + k;
        while (i < o.cells.size() && o.cells[i].off + o.cells[i].size <= p) i++;
        T b;
        if (i < o.cells.size() && o.cells[i].off <= p) b = byteOf(o.cells[i].val, p - o.cells[i].off);
        else b = bgByte(o, p);
        r = k == 0 ? b : mk(O_CONCAT, (k + 1) * 8, r, b);
    }
    return r;
}
void clearRange(Obj& o, u32 lo, u32 hi) {  // removes cells overlapping [lo,hi), keeping the outside bytes
    size_t i = firstCell(o, lo), j = i;
    std::vector<Cell> keep;
    while (j < o.cells.size() && o.cells[j].off < hi) {
        const Cell& c = o.cells[j];
        for (u32 p = c.off; p < c.off + c.size; p++)
            if (p < lo || p >= hi) keep.push_back({p, 1, byteOf(c.val, p - c.off), false});
        j++;
    }
    o.cells.erase(o.cells.begin() + i, o.cells.begin() + j);
    o.cells.insert(o.cells.begin() + i, keep.begin(), keep.end());
}
void storeAt(Obj& o, u32 off, u32 size, T v, bool ar) {
    size_t i = firstCell(o, off);
    if (i < o.cells.size() && o.cells[i].off == off && o.cells[i].size == size) {
        o.cells[i].val = v;
        o.cells[i].ar = ar;
    } else {
        if (i < o.cells.size() && o.cells[i].off < off + size) clearRange(o, off, off + size);
        i = firstCell(o, off);
        while (i < o.cells.size() && o.cells[i].off < off) i++;
        o.cells.insert(o.cells.begin() + i, Cell{off, size, v, ar});
    }
    if (!o.sym.empty()) o.sym.clear();
}
void setBg(Obj& o, u32 lo, u32 hi, BgKind k, u32 gen, int delta) {
    if (lo >= hi) return;
    clearRange(o, lo, hi);
    o.sym.clear();
    std::vector<Seg> n;
    for (auto& s : o.bg) {
        if (s.hi <= lo || s.lo >= hi) {
            n.push_back(s);
            continue;
        }
        if (s.lo < lo) n.push_back({s.lo, lo, s.kind, s.gen, s.delta});
        if (s.hi > hi) n.push_back({hi, s.hi, s.kind, s.gen, s.delta});
    }
    n.push_back({lo, hi, k, gen, delta});
    std::sort(n.begin(), n.end(), [](const Seg& a, const Seg& b) { return a.lo < b.lo; });
    o.bg.clear();
    for (auto& s : n) {
        if (!o.bg.empty()) {
            Seg& p = o.bg.back();
            if (p.kind == s.kind && (s.kind == B_ZERO || (p.gen == s.gen && p.delta == s.delta))) {
                p.hi = s.hi;
                continue;
            }
        }
        o.bg.push_back(s);
    }
}
// appends size bytes of value t in canonical form (memory slices merged, zero runs merged, else single bytes)
void appendBytes(std::vector<DataPart>& v, T t, u32 size) {
    const Term x = TT(t);
    if (x.op == O_MEM && x.c == size) {
        if (!v.empty()) {
            const Term l = TT(v.back().t);
            if (l.op == O_MEM && l.a[0] == x.a[0] && l.a[1] + l.c == x.a[1]) {
                v.back() = {mkMem(l.a[0], l.a[1], (u32) (l.c + x.c)), (u32) (l.c + x.c)};
                return;
            }
        }
        v.push_back({t, size});
        return;
    }
    if (x.op == O_CONST && x.c == 0) {
        T z = mkConst(8, 0);
        if (!v.empty() && v.back().t == z) v.back().size += size;
        else v.push_back({z, size});
        return;
    }
    if (size == 1) {
        v.push_back({t, 1});
        return;
    }
    if (x.op == O_PTR || x.op == O_FUNC) {
        v.push_back({t, size});
        return;
    }
    for (u32 i = 0; i < size; i++) appendBytes(v, byteOf(t, i), 1);
}
std::vector<DataPart> readParts(const Obj& o, u32 off, u32 len) {
    std::vector<DataPart> v;
    size_t i = firstCell(o, off);
    u32 p = off, end = off + len;
    while (p < end) {
        while (i < o.cells.size() && o.cells[i].off + o.cells[i].size <= p) i++;
        if (i < o.cells.size() && o.cells[i].off <= p) {
            const Cell& c = o.cells[i];
            if (c.off == p && c.off + c.size <= end) {
                appendBytes(v, c.val, c.size);
                p += c.size;
            } else {
                appendBytes(v, byteOf(c.val, p - c.off), 1);
                p++;
            }
            continue;
        }
        u32 lim = i < o.cells.size() ? std::min(end, o.cells[i].off) : end;
        for (auto& s : o.bg) {
            if (s.hi <= p || s.lo >= lim) continue;
            u32 a = std::max(p, s.lo), b = std::min(lim, s.hi);
            if (s.kind == B_ZERO) {
                T z = mkConst(8, 0);
                if (!v.empty() && v.back().t == z) v.back().size += b - a;
                else v.push_back({z, b - a});
            } else
                appendBytes(v, mkMem(s.gen, (u32) ((int) a + s.delta), b - a), b - a);
        }
        p = lim;
    }
    return v;
}
T dataTerm(const Obj& o, u32 off, u32 len) {
    Data d;
    d.parts = readParts(o, off, len);
    return mkData(d);
}
u64 labelsOf(const Obj& o, u32 off, u32 len) {
    u64 l = 0;
    for (auto& c : o.cells)
        if (c.off < off + len && c.off + c.size > off) l |= TT(c.val).labels;
    // backgrounds hidden under cells do not count
    size_t i = firstCell(o, off);
    u32 p = off, end = off + len;
    while (p < end) {
        while (i < o.cells.size() && o.cells[i].off + o.cells[i].size <= p) i++;
        if (i < o.cells.size() && o.cells[i].off <= p) {
            p = o.cells[i].off + o.cells[i].size;
            continue;
        }
        u32 lim = i < o.cells.size() ? std::min(end, o.cells[i].off) : end;
        for (auto& s : o.bg)
            if (s.kind == B_SYM && s.hi > p && s.lo < lim) l |= genLabels(s.gen);
        p = lim;
    }
    for (auto& sc : o.sym) l |= TT(sc.val).labels;
    return l;
}
void copyRegion(State& s, u32 dobj, u32 doff, u32 sobj, u32 soff, u32 n) {
    if (n == 0) return;
    if (dobj == sobj && doff == soff) return;
    const Obj* sp = peekObj(s, sobj);
    if (!sp) return;
    // snapshot of the source
    std::vector<Cell> cells;
    std::vector<Seg> segs;
    for (auto& b : sp->bg)
        if (b.hi > soff && b.lo < soff + n)
            segs.push_back({std::max(b.lo, soff), std::min(b.hi, soff + n), b.kind, b.gen, b.delta});
    for (size_t i = firstCell(*sp, soff); i < sp->cells.size() && sp->cells[i].off < soff + n; i++) {
        const Cell& c = sp->cells[i];
        if (c.off >= soff && c.off + c.size <= soff + n) cells.push_back(c);
        else
            for (u32 p = std::max(c.off, soff); p < std::min(c.off + c.size, soff + n); p++)
                cells.push_back({p, 1, byteOf(c.val, p - c.off), false});
    }
    int sh = (int) doff - (int) soff;
    Obj* d = editObj(s, dobj);
    for (auto& b : segs)
        setBg(*d, (u32) ((int) b.lo + sh), (u32) ((int) b.hi + sh), b.kind, b.gen, b.kind == B_ZERO ? 0 : b.delta - sh);
    for (auto& c : cells) storeAt(*d, (u32) ((int) c.off + sh), c.size, c.val, c.ar);
}
