// Interpreter interfaces.
#pragma once
#include "core.h"

// ---- ranges
Range rangeOf(T t, const Facts& F, int d = 10);
int evalBool(T c, const Facts& F);  // 0,1,-1
struct State;
int bitsBool(T c, const State& st);
bool assumeT(T c, bool v, Facts& F, int d = 12);
bool refineT(T t, const Range& r, Facts& F);

// ---- symbols
T freshSym(unsigned w, const std::string& hint, u64 labels);
u32 freshGen(const std::string& hint, u64 labels);

// ---- memory
const Obj* peekObj(const State& s, u32 id);
Obj* editObj(State& s, u32 id);
void dropObj(State& s, u32 id);
Facts& editFacts(State& s);
T loadAt(const Obj& o, u32 off, u32 size);  // size <= 8
void storeAt(Obj& o, u32 off, u32 size, T v, bool ar);
void clearRange(Obj& o, u32 lo, u32 hi);
void setBg(Obj& o, u32 lo, u32 hi, BgKind k, u32 gen, int delta);
std::vector<DataPart> readParts(const Obj& o, u32 off, u32 len);
void copyRegion(State& s, u32 dobj, u32 doff, u32 sobj, u32 soff, u32 n);
T dataTerm(const Obj& o, u32 off, u32 len);
u64 labelsOf(const Obj& o, u32 off, u32 len);
void appendBytes(std::vector<DataPart>& v, T t, u32 size);
Obj freshObj(u32 size, BgKind k, u32 gen);

// ---- disjuncts and joins
struct LoopRec {
    int header;
    int nd, det;
    bool forked;
    bool drew;      // what was drawn at random before the loop
};
struct Disj {
    std::vector<T> ssa;
    State st;
    int prev = -1;
    std::vector<LoopRec> loops;
};
struct Out {
    T ret = NOTERM;
    State st;
};
std::string stateKey(const State& s);
struct JoinCtx {               // result of a join: the phi symbols created
    std::set<T> phis;
    std::set<u32> gens;
};
// joins; slots: vectors of terms joined pointwise. banned: symbols/generations that may not survive as a common value
State joinStates(const std::vector<const State*>& ss, const std::vector<const std::vector<T>*>& slots,
                 std::vector<T>& outSlots, const JoinCtx* banned, JoinCtx* made);
bool subsumed(const State& s, const std::vector<T>& sslots, const State& w, const std::vector<T>& wslots,
              const JoinCtx& pat);
State canonRest(const State& s, JoinCtx& made);

// ---- violations and notes
struct Violation {
    std::string prop, msg, where;
    std::vector<std::string> path;
};
extern std::vector<Violation> violations;
extern std::map<std::string, int> notes;
extern std::map<std::string, u64> stats;
extern std::set<std::string> obligations, coveredFuncs;
void addTrace(State& s, const char* file, int line, const std::string& note);
void report(const std::string& prop, const std::string& msg, const State& s);
void note(const std::string& m);
std::string curWhere();

// ---- config
struct Config {
    int unroll = 24;
    int detLimit = 400;
    bool bits = false;   // decide comparisons on single bits too
    int limit = 100;
    int exitLimit = 64;
    u64 stackSecret = 0;  // labels that may not remain in a dropped stack object
    u64 uninitLabel = 0;
    bool bounds = true;
    int restLimit = 16;
    std::string root = "va_main";
};
extern Config cfg;

// ---- execution
std::vector<Out> execFunc(Func* f, std::vector<T> args, State st);
bool isNative(const std::string& name);
void runNative(const std::string& name, const Inst& in, std::vector<T>& args, State st, std::vector<Out>& outs);
std::string baseName(const std::string& n);
bool checkAccess(State& st, T ptr, u32 size, bool write, u32& obj, T& off);
T normT(T t, const State& s);  // a constant if the facts decide the value
std::string readCStr(const State& s, T p);
struct RestDriver;
extern std::vector<std::string> callStack;
extern std::vector<const Inst*> callSites;
extern Func* curFunc;
extern const Inst* curInst;
bool restCapture(State& st, bool idle);  // called at va_rest_point; false: path ends
int runRest();
