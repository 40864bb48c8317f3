// Entry point: loads the linked bitcode, runs the harness, iterates the states at rest to a fixpoint, reports.
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "interp.h"

struct RestState {
    State st;
    JoinCtx phis;
    int joins = 0;
    size_t idx = 0;
    bool queued = false;
    u64 visits = 0;
};
static std::map<std::string, RestState> rest;
static std::vector<std::string> order_;  // by discovery
static std::set<size_t> queue_;
static bool exploring = false, entered = false;
static const State* resume = nullptr;
static std::map<std::pair<u32, u32>, std::set<u64>> distinct;
static std::set<std::pair<u32, u32>> demoted;
static bool redo = false;

static void widenRest(State& s, const JoinCtx& c) {
    static const u64 th[] = {0, 1, 2, 3, 4, 5, 8, 10, 20, 32, 64, 127, 255, 32768, 65535, 0x7fffffff, 0x80000000ull, 0xffffffffull, ~0ull};
    Facts& F = editFacts(s);
    for (T p : c.phis) {
        const Range* r = F.get(p);
        if (!r || r->isSingle() || r->count(4) <= 4) continue;
        u64 lo = 0, hi = ~0ull;
        for (u64 t : th)
            if (t <= r->lo()) lo = t;
        for (int i = (int) (sizeof th / sizeof *th) - 1; i >= 0; i--)
            if (th[i] >= r->hi()) hi = th[i];
        unsigned w = TT(p).w ? TT(p).w : 64;
        F.set(p, Range::interval(lo, std::min(hi, maskw(w))));
    }
}
static std::string uiDir;
extern std::string subsWhy;
// The mutable globals that the code behind the screens on display reads: screens on display -> their handler
// functions (through constant tables and direct calls) -> globals loaded there.
static const std::set<u32>& loadsOf(Func* f) {
    static std::map<Func*, std::set<u32>> memo;
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    std::set<u32>& r = memo[f];
    std::map<int, u32> base;
    for (auto& b : f->blocks)
        for (auto& in : b.insts) {
            auto objOf = [&](const Opnd& o) -> i64 {
                if (o.ssa >= 0) {
                    auto i = base.find(o.ssa);
                    return i == base.end() ? -1 : (i64) i->second;
                }
                return o.t != NOTERM && TT(o.t).op == O_PTR ? (i64) TT(o.t).c : -1;
            };
            if (in.op == I_GEP && !in.ops.empty() && in.dst >= 0) {
                i64 o = objOf(in.ops[0]);
                if (o >= 0) base[in.dst] = (u32) o;
            }
            if (in.op == I_LOAD && !in.ops.empty()) {
                i64 o = objOf(in.ops[0]);
                if (o >= 0 && !objInfo((u32) o).constant) r.insert((u32) o);
            }
        }
    return r;
}
static void reachFn(Func* f, std::set<Func*>& fs, std::set<u32>& objs);
static void reachObj(u32 id, std::set<Func*>& fs, std::set<u32>& objs) {
    if (!objInfo(id).constant || objInfo(id).global < 0 || !objs.insert(id).second) return;
    for (auto& c : M.globals[objInfo(id).global].init) {
        const Term x = TT(c.second.second);
        if (x.op == O_PTR) reachObj((u32) x.c, fs, objs);
        if (x.op == O_FUNC) reachFn(M.funcs[x.c].get(), fs, objs);
    }
}
static void reachFn(Func* f, std::set<Func*>& fs, std::set<u32>& objs) {
    if (!f->defined || !f->inRepo || !fs.insert(f).second) return;
    for (auto& b : f->blocks)
        for (auto& in : b.insts)
            if (in.op == I_CALL && in.cfn) reachFn(in.cfn, fs, objs);
}
static const std::set<u32>& liveUi(State& s) {
    static std::map<std::set<u32>, std::set<u32>> memo;
    std::set<u32> steps;
    auto g = M.gmap.find("g_live");
    if (g != M.gmap.end())
        if (const Obj* o = peekObj(s, g->second))
            for (auto& c : o->cells)
                if (TT(c.val).op == O_PTR) steps.insert((u32) TT(c.val).c);
    auto it = memo.find(steps);
    if (it != memo.end()) return it->second;
    std::set<u32> r, objs;
    std::set<Func*> fs;
    for (u32 id : steps) reachObj(id, fs, objs);
    for (auto f : fs)
        for (u32 id : loadsOf(f)) {
            int gl = objInfo(id).global;
            if (gl >= 0 && M.globals[gl].file.rfind(uiDir, 0) == 0) r.insert(id);
        }
    return memo[steps] = r;
}
static std::string restKey(State& s, bool idle) {
    std::string k = idle ? "idle;" : "";
    const std::set<u32>& live = liveUi(s);
    for (u32 id : live) k += "@" + std::to_string(id) + ";";
    auto gl0 = M.gmap.find("g_live");
    for (auto& p : *s.mem) {
        // variables of the user interface that no screen on display reads are rewritten before they are used:
        // their content is joined as sets
        int gl = objInfo(p.first).global;
        if (gl >= 0 && M.globals[gl].file.rfind(uiDir, 0) == 0 && !live.count(p.first)) continue;
        if (gl0 != M.gmap.end() && gl0->second == p.first) continue;
        for (auto& c : p.second->cells) {
            const Term& t = TT(c.val);
            u64 v;
            if (t.op == O_CONST) {
                if (c.ar || t.c == 0) continue;
                if (gl >= 0 && M.globals[gl].inRepo && !M.globals[gl].modes.count(c.off)) continue;
                v = t.c;
            } else if (t.op == O_PTR)
                v = (t.c << 32) | 0x80000000u | (TT(t.a[0]).op == O_CONST ? cval(t.a[0]) : 0x7fffffff);
            else if (t.op == O_FUNC)
                v = (t.c << 32) | 0x40000000u;
            else continue;
            auto loc = std::make_pair(p.first, c.off);
            if (demoted.count(loc)) continue;
            auto& d = distinct[loc];
            d.insert(v);
            if ((int) d.size() > cfg.restLimit && t.op == O_CONST) {
                demoted.insert(loc);
                redo = true;
                fprintf(stderr, "demoted %s+%u\n", objInfo(p.first).name.c_str(), c.off);
                continue;
            }
            k += std::to_string(p.first) + "+" + std::to_string(c.off) + "=" + std::to_string(v) + ";";
        }
    }
    return k;
}
static std::set<std::string> touched;  // arrivals not covered before, in this process
static void arrive(const State& c, const JoinCtx& made, const std::string& k) {
    auto it = rest.find(k);
    if (it == rest.end()) {
        RestState r;
        r.st = c;
        r.phis = made;
        r.queued = true;
        r.idx = order_.size();
        order_.push_back(k);
        queue_.insert(r.idx);
        rest[k] = r;
        touched.insert(k);
        return;
    }
    RestState& W = it->second;
    std::vector<T> none;
    if (subsumed(c, none, W.st, none, W.phis)) return;
    if (getenv("VA_SUBS")) fprintf(stderr, "JOIN %zu #%d: %s\n", W.idx, W.joins, subsWhy.c_str());
    touched.insert(k);
    std::vector<const State*> ss = {&W.st, &c};
    JoinCtx ban = W.phis, nm;
    ban.phis.insert(made.phis.begin(), made.phis.end());
    ban.gens.insert(made.gens.begin(), made.gens.end());
    std::vector<T> os;
    State j = joinStates(ss, {}, os, &ban, &nm);
    j.streams = std::make_shared<std::map<u64, Stream>>();
    W.joins++;
    if (W.joins > 1) widenRest(j, nm);
    if (W.joins > 60) {
        note("state at rest did not stabilise");
        return;
    }
    W.st = j;
    W.phis = nm;
    if (!W.queued) {
        W.queued = true;
        queue_.insert(W.idx);
    }
}
static std::map<std::string, bool> idleOf;
bool restCapture(State& st, bool idle) {
    if (resume && !entered) {  // first arrival in this run: continue from the state under exploration
        entered = true;
        State s = *resume;
        // keep the locals of the frames that lead here
        for (auto& p : *st.mem)
            if (objInfo(p.first).kind != OK_GLOBAL) *editObj(s, p.first) = *p.second;
        st = s;
        return true;
    }
    stats["rest_arrivals"]++;
    JoinCtx made;
    State c = canonRest(st, made);
    std::string k = restKey(c, idle);
    idleOf[k] = idle;
    arrive(c, made, k);
    return false;
}
static State emptyState() {
    State s;
    s.mem = std::make_shared<MemMap>();
    s.facts = std::make_shared<Facts>();
    s.streams = std::make_shared<std::map<u64, Stream>>();
    return s;
}
static std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        if (c == '\n') { r += "\\n"; continue; }
        r += c;
    }
    return r;
}
void packState(std::string& buf, const State& s, const JoinCtx& made);
bool unpackState(const std::string& buf, size_t& pos, State& s, JoinCtx& made);
void packStr(std::string& buf, const std::string& x);
void packInt(std::string& buf, u64 v);
std::string unpackStr(const std::string& buf, size_t& pos);
u64 unpackInt(const std::string& buf, size_t& pos);
void addViolation(const Violation& v);
// a worker: explores the events of one state at rest, and packs what is new
static void explore(Func* root, size_t qi, std::string& buf) {
    auto stats0 = stats;
    auto notes0 = notes;
    auto obl0 = obligations, cov0 = coveredFuncs;
    size_t viol0 = violations.size();
    touched.clear();
    State cur = rest[order_[qi]].st;
    resume = &cur;
    entered = false;
    execFunc(root, {}, emptyState());
    packInt(buf, touched.size());
    // in the order of discovery
    std::vector<std::pair<size_t, std::string>> ks;
    for (auto& k : touched) ks.push_back({rest[k].idx, k});
    std::sort(ks.begin(), ks.end());
    for (auto& k : ks) {
        packInt(buf, idleOf[k.second]);
        packState(buf, rest[k.second].st, rest[k.second].phis);
    }
    auto packMap = [&](auto& m, auto& m0) {
        std::vector<std::pair<std::string, u64>> v;
        for (auto& p : m) {
            auto it = m0.find(p.first);
            u64 d = (u64) p.second - (it == m0.end() ? 0 : (u64) it->second);
            if (p.first == "max_disjuncts") d = (u64) p.second;
            if (d) v.push_back({p.first, d});
        }
        packInt(buf, v.size());
        for (auto& p : v) packStr(buf, p.first), packInt(buf, p.second);
    };
    packMap(stats, stats0);
    packMap(notes, notes0);
    auto packSet = [&](auto& m, auto& m0) {
        std::vector<std::string> v;
        for (auto& p : m)
            if (!m0.count(p)) v.push_back(p);
        packInt(buf, v.size());
        for (auto& p : v) packStr(buf, p);
    };
    packSet(obligations, obl0);
    packSet(coveredFuncs, cov0);
    packInt(buf, violations.size() - viol0);
    for (size_t i = viol0; i < violations.size(); i++) {
        packStr(buf, violations[i].prop);
        packStr(buf, violations[i].msg);
        packStr(buf, violations[i].where);
        packInt(buf, violations[i].path.size());
        for (auto& p : violations[i].path) packStr(buf, p);
    }
}
static void absorb(const std::string& buf) {
    size_t pos = 0;
    u64 n = unpackInt(buf, pos);
    for (u64 i = 0; i < n; i++) {
        bool idle = unpackInt(buf, pos);
        State s;
        JoinCtx made;
        unpackState(buf, pos, s, made);
        arrive(s, made, restKey(s, idle));
    }
    n = unpackInt(buf, pos);
    for (u64 i = 0; i < n; i++) {
        std::string k = unpackStr(buf, pos);
        u64 v = unpackInt(buf, pos);
        if (k == "max_disjuncts") stats[k] = std::max(stats[k], v);
        else stats[k] += v;
    }
    n = unpackInt(buf, pos);
    for (u64 i = 0; i < n; i++) {
        std::string k = unpackStr(buf, pos);
        notes[k] += (int) unpackInt(buf, pos);
    }
    n = unpackInt(buf, pos);
    for (u64 i = 0; i < n; i++) obligations.insert(unpackStr(buf, pos));
    n = unpackInt(buf, pos);
    for (u64 i = 0; i < n; i++) coveredFuncs.insert(unpackStr(buf, pos));
    n = unpackInt(buf, pos);
    for (u64 i = 0; i < n; i++) {
        Violation v;
        v.prop = unpackStr(buf, pos);
        v.msg = unpackStr(buf, pos);
        v.where = unpackStr(buf, pos);
        u64 m = unpackInt(buf, pos);
        for (u64 j = 0; j < m; j++) v.path.push_back(unpackStr(buf, pos));
        addViolation(v);
    }
}
int main(int argc, char** argv) {
    if (argc < 4) return 4;
    if (!loadModule(argv[1], argv[2])) return 4;
    const char* outp = argv[3];
    uiDir = std::string(argv[2]) + "/ui/";
    if (argc > 4) cfg.root = argv[4];
    for (auto& f : M.funcs) f->isModel = !f->inRepo;
    auto it = M.fmap.find(cfg.root);
    if (it == M.fmap.end() || !it->second->defined) {
        fprintf(stderr, "engine: no function %s\n", cfg.root.c_str());
        return 4;
    }
    auto t0 = std::chrono::steady_clock::now();
    Func* root = it->second;
    execFunc(root, {}, emptyState());
    u64 runs = 0;
    const char* lim = getenv("VA_RUNS");
    const unsigned workers = std::max(1u, std::min(8u, std::thread::hardware_concurrency()));
    const size_t batchMax = 16;  // independent of the machine, so that the result is
    while (!queue_.empty()) {
        std::vector<size_t> batch;
        while (!queue_.empty() && batch.size() < batchMax) {
            size_t qi = *queue_.begin();
            queue_.erase(queue_.begin());
            RestState& W = rest[order_[qi]];
            W.queued = false;
            W.visits++;
            batch.push_back(qi);
        }
        runs += batch.size();
        std::vector<int> fds(batch.size(), -1);
        std::map<pid_t, size_t> live;
        bool failed = false;
        auto reap = [&]() {
            int st;
            pid_t p = waitpid(-1, &st, 0);
            if (p <= 0) return;
            live.erase(p);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) failed = true;
        };
        for (size_t i = 0; i < batch.size(); i++) {
            while (live.size() >= workers) reap();
            fds[i] = memfd_create("va", 0);
            fflush(nullptr);
            pid_t p = fds[i] < 0 ? -1 : fork();
            if (p < 0) {
                failed = true;
                break;
            }
            if (p == 0) {
                std::string buf;
                explore(root, batch[i], buf);
                size_t off = 0;
                while (off < buf.size()) {
                    ssize_t n = write(fds[i], buf.data() + off, buf.size() - off);
                    if (n <= 0) _exit(9);
                    off += (size_t) n;
                }
                _exit(0);
            }
            live[p] = i;
        }
        while (!live.empty()) reap();
        if (failed) {
            fprintf(stderr, "engine: a worker failed\n");
            return 5;
        }
        for (size_t i = 0; i < batch.size(); i++) {
            std::string buf;
            off_t sz = lseek(fds[i], 0, SEEK_END);
            buf.resize((size_t) sz);
            lseek(fds[i], 0, SEEK_SET);
            size_t off = 0;
            while (off < buf.size()) {
                ssize_t n = read(fds[i], &buf[off], buf.size() - off);
                if (n <= 0) break;
                off += (size_t) n;
            }
            close(fds[i]);
            absorb(buf);
        }
        if (getenv("VA_PROGRESS"))
            fprintf(stderr, "runs %llu rest %zu queue %zu\n", (unsigned long long) runs, rest.size(), queue_.size());
        if (lim && runs >= (u64) atoi(lim)) break;
        if (runs > 200000) {
            note("event fixpoint did not terminate");
            break;
        }
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    FILE* o = fopen(outp, "w");
    fprintf(o, "{\"rest_states\": %zu, \"event_runs\": %llu, \"seconds\": %.2f,\n \"stats\": {", rest.size(), (unsigned long long) runs, dt);
    bool first = true;
    for (auto& s : stats) {
        fprintf(o, "%s\"%s\": %llu", first ? "" : ", ", s.first.c_str(), (unsigned long long) s.second);
        first = false;
    }
    fprintf(o, "},\n \"notes\": {");
    first = true;
    for (auto& s : notes) {
        fprintf(o, "%s\"%s\": %d", first ? "" : ", ", esc(s.first).c_str(), s.second);
        first = false;
    }
    fprintf(o, "},\n \"functions\": [");
    first = true;
    for (auto& s : coveredFuncs) {
        fprintf(o, "%s\"%s\"", first ? "" : ", ", esc(s).c_str());
        first = false;
    }
    fprintf(o, "],\n \"obligations\": [");
    first = true;
    for (auto& s : obligations) {
        fprintf(o, "%s\"%s\"", first ? "" : ", ", esc(s).c_str());
        first = false;
    }
    fprintf(o, "],\n \"violations\": [");
    first = true;
    for (auto& v : violations) {
        fprintf(o, "%s\n  {\"property\": \"%s\", \"message\": \"%s\", \"where\": \"%s\", \"path\": [", first ? "" : ",",
                esc(v.prop).c_str(), esc(v.msg).c_str(), esc(v.where).c_str());
        bool f2 = true;
        for (auto& p : v.path) {
            fprintf(o, "%s\"%s\"", f2 ? "" : ", ", esc(p).c_str());
            f2 = false;
        }
        fprintf(o, "]}");
        first = false;
    }
    fprintf(o, "]}\n");
    fclose(o);
    if (getenv("VA_REST"))
        for (auto& r : rest) {
            fprintf(stderr, "REST visits %llu joins %d: ", (unsigned long long) r.second.visits, r.second.joins);
            std::string k = r.first, tok;
            for (char c : k + ";") {
                if (c == ';') {
                    size_t p = tok.find('+');
                    if (p != std::string::npos) {
                        u32 id = (u32) atoi(tok.substr(0, p).c_str());
                        std::string rest2 = tok.substr(p);
                        size_t e = rest2.find('=');
                        u64 v = strtoull(rest2.substr(e + 1).c_str(), nullptr, 10);
                        std::string vs = std::to_string(v);
                        if (v >> 30) {
                            if (v & 0x80000000u) vs = "&" + objInfo((u32) (v >> 32)).name + "+" + std::to_string(v & 0x7fffffff);
                            else vs = "fn:" + M.funcs[v >> 32]->name;
                        }
                        fprintf(stderr, "%s%s%s ", objInfo(id).name.c_str(), rest2.substr(0, e + 1).c_str(), vs.c_str());
                    }
                    tok.clear();
                } else
                    tok += c;
            }
            if (getenv("VA_CELLS"))
                if (const Obj* o = peekObj(r.second.st, M.gmap[getenv("VA_CELLS")]))
                    for (auto& c : o->cells)
                        fprintf(stderr, " C+%u:%u=%s%s", c.off, c.size, rangeOf(c.val, *r.second.st.facts).str().c_str(), c.ar ? "a" : "");
            if (getenv("VA_LIVE"))
                if (const Obj* o = peekObj(r.second.st, M.gmap["g_live"]))
                    for (auto& c : o->cells) fprintf(stderr, " LIVE+%u=%s", c.off, termStr(c.val, 4).c_str());
            fprintf(stderr, "\n");
        }
    return 0;
}
