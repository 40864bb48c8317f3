// Core data structures of the abstract interpreter: interval-list ranges, hash-consed value
// numbers ("terms"), copy-on-write abstract memory, decoded IR.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using i128 = __int128;
using u128 = unsigned __int128;
using T = u32;  // term id
static const T NOTERM = 0xFFFFFFFFu;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ---------------------------------------------------------------- ranges
struct Range {
    static const int MAXN = 8;
    int n = 0;
    std::pair<u64, u64> iv[MAXN];
    static Range full(unsigned w) { return interval(0, maskw(w)); }
    static Range empty() { return Range(); }
    static Range interval(u64 lo, u64 hi) {
        Range r;
        r.n = 1;
        r.iv[0] = {lo, hi};
        return r;
    }
    static Range single(u64 v) { return interval(v, v); }
    bool isEmpty() const { return n == 0; }
    bool isSingle() const { return n == 1 && iv[0].first == iv[0].second; }
    u64 lo() const { return iv[0].first; }
    u64 hi() const { return iv[n - 1].second; }
    bool contains(u64 v) const {
        for (int i = 0; i < n; i++)
            if (v >= iv[i].first && v <= iv[i].second) return true;
        return false;
    }
    bool operator==(const Range& o) const {
        if (n != o.n) return false;
        for (int i = 0; i < n; i++)
            if (iv[i] != o.iv[i]) return false;
        return true;
    }
    bool subsetOf(const Range& o) const {
        for (int i = 0; i < n; i++) {
            bool ok = false;
            for (int j = 0; j < o.n; j++)
                if (iv[i].first >= o.iv[j].first && iv[i].second <= o.iv[j].second) {
                    ok = true;
                    break;
                }
            if (!ok) return false;
        }
        return true;
    }
    // number of values, saturating at lim+1
    u64 count(u64 lim) const {
        u64 c = 0;
        for (int i = 0; i < n; i++) {
            u64 d = iv[i].second - iv[i].first;
            if (d >= lim) return lim + 1;
            c += d + 1;
            if (c > lim) return lim + 1;
        }
        return c;
    }
    static Range fromList(std::vector<std::pair<u64, u64>>& v) { return fromArr(v.data(), v.size()); }
    static Range fromArr(std::pair<u64, u64>* v, size_t n) {
        Range r;
        if (!n) return r;
        bool sorted = true;
        for (size_t i = 1; i < n && sorted; i++) sorted = v[i - 1].first <= v[i].first;
        if (!sorted) std::sort(v, v + n);
        size_t m = 0;
        for (size_t i = 0; i < n; i++) {
            if (m && (v[m - 1].second == ~0ull || v[i].first <= v[m - 1].second + 1))
                v[m - 1].second = std::max(v[m - 1].second, v[i].second);
            else
                v[m++] = v[i];
        }
        while (m > MAXN) {  // merge the closest pair
            size_t b = 0;
            u64 bd = ~0ull;
            for (size_t i = 0; i + 1 < m; i++) {
                u64 d = v[i + 1].first - v[i].second;
                if (d < bd) bd = d, b = i;
            }
            v[b].second = v[b + 1].second;
            for (size_t i = b + 1; i + 1 < m; i++) v[i] = v[i + 1];
            m--;
        }
        r.n = (int) m;
        for (int i = 0; i < r.n; i++) r.iv[i] = v[i];
        return r;
    }
    Range unite(const Range& o) const {
        if (n == 0) return o;
        if (o.n == 0) return *this;
        if (n == 1 && o.n == 1 && iv[0].first <= o.iv[0].first && iv[0].second >= o.iv[0].second) return *this;
        std::pair<u64, u64> v[2 * MAXN];
        size_t k = 0;
        for (int i = 0; i < n; i++) v[k++] = iv[i];
        for (int i = 0; i < o.n; i++) v[k++] = o.iv[i];
        return fromArr(v, k);
    }
    Range intersect(const Range& o) const {
        if (n == 1 && iv[0].first == 0 && o.n && iv[0].second >= o.iv[o.n - 1].second) return o;
        if (o.n == 1 && o.iv[0].first == 0 && n && o.iv[0].second >= iv[n - 1].second) return *this;
        std::pair<u64, u64> v[MAXN * MAXN];
        size_t k = 0;
        for (int i = 0; i < n; i++)
            for (int j = 0; j < o.n; j++) {
                u64 a = std::max(iv[i].first, o.iv[j].first), b = std::min(iv[i].second, o.iv[j].second);
                if (a <= b) v[k++] = {a, b};
            }
        return fromArr(v, k);
    }
    Range complement(unsigned w) const {
        std::vector<std::pair<u64, u64>> v;
        u64 cur = 0;
        bool done = false;
        for (int i = 0; i < n; i++) {
            if (iv[i].first > cur) v.push_back({cur, iv[i].first - 1});
            if (iv[i].second >= maskw(w)) {
                done = true;
                break;
            }
            cur = iv[i].second + 1;
        }
        if (!done) v.push_back({cur, maskw(w)});
        return fromList(v);
    }
    template <class F>
    void each(F f) const {
        for (int i = 0; i < n; i++)
            for (u64 v = iv[i].first;; v++) {
                f(v);
                if (v == iv[i].second) break;
            }
    }
    std::string str() const {
        std::string s = "{";
        char b[64];
        for (int i = 0; i < n; i++) {
            if (iv[i].first == iv[i].second)
                snprintf(b, sizeof b, "%s%llu", i ? "," : "", (unsigned long long) iv[i].first);
            else
                snprintf(b, sizeof b, "%s%llu..%llu", i ? "," : "", (unsigned long long) iv[i].first,
                         (unsigned long long) iv[i].second);
            s += b;
        }
        return s + "}";
    }
};

// ---------------------------------------------------------------- terms
enum Op : u8 {
    O_CONST, O_SYM, O_PTR, O_FUNC,
    O_MEM,     // a0=gen a1=off c=size : bytes of a symbolic memory generation
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_SLT, O_NOT,
    O_ZEXT, O_SEXT, O_TRUNC, O_SELECT,
    O_EXTRACT,  // a0=x a1=byte offset, width w
    O_CONCAT,   // a0=low a1=high
    O_BSWAP,
    O_AGG,      // pair
    O_UADDO, O_USUBO, O_UMULO, O_SADDO, O_SSUBO, O_SMULO,
    O_DATA,     // c = index in data table
    O_MEMCMP,   // a0,a1 data terms
    O_DERIVE,   // c = index of (tag,data) ; a0 = byte offset, size c2
    O_PTRINT,
};

struct Term {
    Op op;
    u8 w;       // bits
    T a[3];
    u64 c;
    u64 labels;
    bool operator==(const Term& o) const {
        return op == o.op && w == o.w && a[0] == o.a[0] && a[1] == o.a[1] && a[2] == o.a[2] && c == o.c &&
               labels == o.labels;
    }
};

struct DataPart {  // content of a memory region, in pieces
    T t;
    u32 size;
    bool operator<(const DataPart& o) const { return t != o.t ? t < o.t : size < o.size; }
    bool operator==(const DataPart& o) const { return t == o.t && size == o.size; }
};
struct Data {
    std::vector<DataPart> parts;  // content
    T off = NOTERM, len = NOTERM; // symbolic slice of the content (else whole)
    bool operator<(const Data& o) const {
        if (parts != o.parts) return parts < o.parts;
        if (off != o.off) return off < o.off;
        return len < o.len;
    }
};

T mk(Op op, unsigned w, T a = 0, T b = 0, T c3 = 0, u64 c = 0, u64 labels = 0);
T mkConst(unsigned w, u64 v);
T mkSym(unsigned w, const std::string& name, u64 labels);
T mkSymI(unsigned w, u64 id, u64 labels);
T mkPtr(u32 obj, T off);
T mkMem(u32 gen, u32 off, u32 size);
T mkData(const Data& d);
const Data& dataOf(T t);
const Term& TT(T t);
std::string termStr(T t, int depth = 3);
std::string symName(u64 id);
u32 newGen(const std::string& key, u64 labels);  // interned generation
u64 genLabels(u32 gen);
u32 internStr(const std::string& s);
const std::string& strOf(u32 i);
static inline bool isConst(T t) { return TT(t).op == O_CONST; }
static inline u64 cval(T t) { return TT(t).c; }

// ---------------------------------------------------------------- IR
enum IOp : u8 {
    I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_PHI, I_ICMP, I_SELECT,
    I_CAST, I_BIN, I_UNREACH, I_FREEZE, I_EXTRACTV, I_INSERTV, I_NOP
};
struct Opnd {
    int ssa = -1;  // >=0: SSA slot
    T t = NOTERM;  // constant
};
struct GepStep {
    Opnd idx;
    int64_t scale;
 u64 count = 0; bool deref = false; };
struct Func;
struct Inst {
    IOp op;
    u8 sub = 0;   // cast/bin/icmp opcode
    u8 w = 0;     // result width
    u8 ow = 0;    // operand width
    int dst = -1;
    std::vector<Opnd> ops;
    std::vector<int> blocks;      // br/switch/phi targets
    std::vector<u64> cases;       // switch
    std::vector<GepStep> steps;   // gep
    i64 constOff = 0;
    u32 size = 0;                 // alloca size / access size
    std::string callee;
    Func* cfn = nullptr;
    int line = 0;
    int scope = 0;                // source string index (file:function)
    bool arith = false;           // store of an add/sub result
    std::string name;
};
struct Block {
    std::vector<Inst> insts;
    std::vector<int> succ;
    int rpo = -1;
    bool header = false;
    std::set<int> loop;   // blocks of the loop (if header)
    std::vector<int> loopDefs;
};
struct Func {
    std::string name, file;
    int id = 0;
    int nargs = 0, nssa = 0, line = 0;
    std::vector<u8> argw;
    std::vector<u32> byval;   // per arg: byval size
    bool defined = false;
    bool inRepo = false;
    bool isModel = false;
    std::vector<Block> blocks;
    std::vector<int> rpoOrder;
};
struct Global {
    std::string name;
    u32 size = 0;
    bool constant = false;
    bool external = false;
    std::string file;  // defining source file
    std::set<u32> modes;  // offsets of enumerated and boolean fields
    bool inRepo = false;
    std::vector<std::pair<u32, std::pair<u32, T>>> init;  // off,(size,term); rest zero
};
struct Module {
    std::vector<std::unique_ptr<Func>> funcs;
    std::unordered_map<std::string, Func*> fmap;
    std::vector<Global> globals;
    std::unordered_map<std::string, u32> gmap;  // name -> object id
    std::vector<std::string> files;
};
extern Module M;
bool loadModule(const char* path, const std::string& repoSrc);

// ---------------------------------------------------------------- memory
struct Cell {
    u32 off;
    u32 size;
    T val;
    bool ar;  // last written by an arithmetic update (a counter, not a mode flag)
};
enum BgKind : u8 { B_ZERO, B_SYM };
struct Seg {  // background content of [lo,hi): zero, or bytes (off+delta) of generation gen
    u32 lo, hi;
    BgKind kind;
    u32 gen;
    int delta;
};
struct SymCell {
    T off;
    u32 size;
    T val;
};
struct Obj {
    u32 size = 0;
    std::vector<Cell> cells;  // sorted by offset, disjoint
    std::vector<Seg> bg;      // sorted, covers [0,size)
    std::vector<SymCell> sym;
};
enum ObjKind : u8 { OK_GLOBAL, OK_ALLOCA, OK_MODEL };
struct ObjInfo {
    std::string name;
    ObjKind kind;
    u32 size;
    int global = -1;
    bool ghost = false;
    bool constant = false;
};
u32 internObj(const std::string& key, ObjKind k, u32 size, int global = -1);
ObjInfo& objInfo(u32 id);
u32 internRange(const Range& r);
const Range& rangeAt(u32 i);

struct Facts {  // sorted by term
    std::vector<std::pair<T, u32>> v;
    const Range* get(T t) const {
        auto it = std::lower_bound(v.begin(), v.end(), std::make_pair(t, 0u));
        return it != v.end() && it->first == t ? &rangeAt(it->second) : nullptr;
    }
    void set(T t, const Range& r) {
        u32 ri = internRange(r);
        auto it = std::lower_bound(v.begin(), v.end(), std::make_pair(t, 0u));
        if (it != v.end() && it->first == t) it->second = ri;
        else v.insert(it, {t, ri});
    }
};
struct Trace {
    std::shared_ptr<Trace> up;
    const char* file;
    int line;
    std::string note;
};
struct StreamItem {
    T t;         // MEM/const byte term, or O_DATA for a symbolic-length segment
    u32 size;    // bytes; 0 = symbolic segment
    bool operator==(const StreamItem& o) const { return t == o.t && size == o.size; }
    bool operator<(const StreamItem& o) const { return t != o.t ? t < o.t : size < o.size; }
};
struct Stream {
    bool top = false;
    std::vector<StreamItem> items;
    bool operator==(const Stream& o) const { return top == o.top && items == o.items; }
};
using MemMap = std::vector<std::pair<u32, std::shared_ptr<Obj>>>;  // sorted by object id
struct State {
    std::shared_ptr<MemMap> mem;
    std::shared_ptr<Facts> facts;
    std::shared_ptr<std::map<u64, Stream>> streams;  // key: obj<<32|off
    std::shared_ptr<Trace> trace;
    std::shared_ptr<MemMap> mark;  // memory at the last va_mark
    u32 part = 0;                  // which cases of va_cases led here
    bool drew = false;             // something was drawn at random in this round of the loop
    bool loopCases = false;        // ways out of a loop are cases of their own
};
