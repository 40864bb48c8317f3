// Bitcode loader: decodes LLVM IR (via the llvm-c API) into the compact IR of core.h.
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include "core.h"
void modeLeaves(LLVMMetadataRef var, std::set<uint32_t>& out);

Module M;
static LLVMModuleRef mod;
static LLVMTargetDataRef TD;
static std::unordered_map<LLVMValueRef, u32> gobj;
static std::unordered_map<LLVMValueRef, Func*> fobj;
static std::string repoPrefix;

static std::string vname(LLVMValueRef v) {
    size_t n;
    const char* s = LLVMGetValueName2(v, &n);
    return std::string(s, n);
}
static u32 tsize(LLVMTypeRef t) { return (u32) LLVMABISizeOfType(TD, t); }
static unsigned twidth(LLVMTypeRef t) {
    switch (LLVMGetTypeKind(t)) {
        case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t);
        case LLVMPointerTypeKind: return 32;
        case LLVMVoidTypeKind: return 0;
        default: return 0;  // aggregate
    }
}

static T constTerm(LLVMValueRef v);
static bool constOffsetGep(LLVMValueRef v, LLVMTypeRef src, unsigned nops, i64& off) {
    off = 0;
    LLVMTypeRef cur = src;
    for (unsigned i = 1; i < nops; i++) {
        LLVMValueRef ix = LLVMGetOperand(v, i);
        if (!LLVMIsAConstantInt(ix)) return false;
        i64 k = LLVMConstIntGetSExtValue(ix);
        if (i == 1) {
            off += k * (i64) tsize(cur);
        } else if (LLVMGetTypeKind(cur) == LLVMStructTypeKind) {
            off += (i64) LLVMOffsetOfElement(TD, cur, (unsigned) k);
            cur = LLVMStructGetTypeAtIndex(cur, (unsigned) k);
        } else {
            cur = LLVMGetElementType(cur);
            off += k * (i64) tsize(cur);
        }
    }
    return true;
}
static T constTerm(LLVMValueRef v) {
    LLVMTypeRef ty = LLVMTypeOf(v);
    unsigned w = twidth(ty);
    if (LLVMIsAConstantInt(v)) return mkConst(w, LLVMConstIntGetZExtValue(v));
    if (LLVMIsAConstantPointerNull(v)) return mkConst(32, 0);
    if (LLVMIsUndef(v) || LLVMIsPoison(v)) {
        if (w == 0) return mkSym(64, "undef.agg", 0);
        return mkSym(w, "undef", 0);
    }
    if (LLVMIsAFunction(v)) return mk(O_FUNC, 32, 0, 0, 0, (u64) fobj[v]->id);
    if (LLVMIsAGlobalVariable(v)) return mkPtr(gobj[v], mkConst(32, 0));
    if (LLVMIsAConstantExpr(v)) {
        switch (LLVMGetConstOpcode(v)) {
            case LLVMGetElementPtr: {
                T b = constTerm(LLVMGetOperand(v, 0));
                i64 off;
                if (!constOffsetGep(v, LLVMGetGEPSourceElementType(v), LLVMGetNumOperands(v), off)) break;
                const Term& bt = TT(b);
                if (bt.op == O_PTR) return mkPtr((u32) bt.c, mkConst(32, cval(bt.a[0]) + (u64) off));
                if (bt.op == O_CONST) return mkConst(32, bt.c + (u64) off);
                break;
            }
            case LLVMBitCast:
            case LLVMAddrSpaceCast:
                return constTerm(LLVMGetOperand(v, 0));
            case LLVMIntToPtr:
            case LLVMPtrToInt:
                return constTerm(LLVMGetOperand(v, 0));
            default: break;
        }
    }
    if (LLVMIsAConstantAggregateZero(v) || LLVMIsAConstantStruct(v)) {
        if (w == 0 && LLVMGetTypeKind(ty) == LLVMStructTypeKind && LLVMCountStructElementTypes(ty) == 2) {
            T a = constTerm(LLVMGetAggregateElement(v, 0)), b = constTerm(LLVMGetAggregateElement(v, 1));
            return mk(O_AGG, 0, a, b);
        }
        if (w == 0 && LLVMGetTypeKind(ty) == LLVMArrayTypeKind && LLVMGetArrayLength(ty) == 1)
            return constTerm(LLVMGetAggregateElement(v, 0));
    }
    char* s = LLVMPrintValueToString(v);
    fprintf(stderr, "engine: unsupported constant %s\n", s);
    exit(4);
}
static void flattenInit(LLVMValueRef v, u32 off, Global& g) {
    LLVMTypeRef ty = LLVMTypeOf(v);
    if (LLVMIsAConstantAggregateZero(v) || LLVMIsNull(v)) return;
    switch (LLVMGetTypeKind(ty)) {
        case LLVMStructTypeKind: {
            unsigned n = LLVMCountStructElementTypes(ty);
            for (unsigned i = 0; i < n; i++)
                flattenInit(LLVMGetAggregateElement(v, i), off + (u32) LLVMOffsetOfElement(TD, ty, i), g);
            return;
        }
        case LLVMArrayTypeKind: {
            u32 es = tsize(LLVMGetElementType(ty));
            unsigned n = LLVMGetArrayLength(ty);
            for (unsigned i = 0; i < n; i++) flattenInit(LLVMGetAggregateElement(v, i), off + i * es, g);
            return;
        }
        default:
            if (LLVMIsUndef(v) || LLVMIsPoison(v)) return;
            g.init.push_back({off, {tsize(ty), constTerm(v)}});
    }
}

static Opnd operand(LLVMValueRef v, std::unordered_map<LLVMValueRef, int>& ssa) {
    Opnd o;
    auto it = ssa.find(v);
    if (it != ssa.end()) {
        o.ssa = it->second;
        return o;
    }
    if (LLVMIsConstant(v)) {
        o.t = constTerm(v);
        return o;
    }
    char* s = LLVMPrintValueToString(v);
    fprintf(stderr, "engine: unsupported operand %s\n", s);
    exit(4);
}

static void decode(Func* f, LLVMValueRef lf) {
    std::unordered_map<LLVMValueRef, int> ssa;
    std::unordered_map<LLVMBasicBlockRef, int> bidx;
    int n = 0;
    unsigned np = LLVMCountParams(lf);
    for (unsigned i = 0; i < np; i++) ssa[LLVMGetParam(lf, i)] = n++;
    int nb = 0;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(lf); b; b = LLVMGetNextBasicBlock(b)) {
        bidx[b] = nb++;
        for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i))
            if (LLVMGetTypeKind(LLVMTypeOf(i)) != LLVMVoidTypeKind) ssa[i] = n++;
    }
    f->nssa = n;
    f->blocks.resize(nb);
    int lastLine = f->line;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(lf); b; b = LLVMGetNextBasicBlock(b)) {
        Block& B = f->blocks[bidx[b]];
        for (LLVMValueRef v = LLVMGetFirstInstruction(b); v; v = LLVMGetNextInstruction(v)) {
            Inst in;
            LLVMTypeRef ty = LLVMTypeOf(v);
            in.w = (u8) twidth(ty);
            if (ssa.count(v)) in.dst = ssa[v];
            int ln = (int) LLVMGetDebugLocLine(v);
            if (ln > 0) lastLine = ln;
            in.line = lastLine;
            LLVMOpcode opc = LLVMGetInstructionOpcode(v);
            auto op = [&](unsigned i) { return operand(LLVMGetOperand(v, i), ssa); };
            switch (opc) {
                case LLVMAlloca: {
                    in.op = I_ALLOCA;
                    LLVMValueRef cnt = LLVMGetOperand(v, 0);
                    u32 es = tsize(LLVMGetAllocatedType(v));
                    if (LLVMIsAConstantInt(cnt)) in.size = es * (u32) LLVMConstIntGetZExtValue(cnt);
                    else in.size = 4096;
                    in.name = vname(v);
                    break;
                }
                case LLVMLoad:
                    in.op = I_LOAD;
                    in.ops = {op(0)};
                    in.size = tsize(ty);
                    if (!in.w) in.w = 64;
                    break;
                case LLVMStore: {
                    in.op = I_STORE;
                    LLVMValueRef val = LLVMGetOperand(v, 0);
                    in.ops = {op(0), op(1)};
                    in.size = tsize(LLVMTypeOf(val));
                    in.ow = (u8) twidth(LLVMTypeOf(val));
                    LLVMValueRef x = val;
                    while (LLVMIsAInstruction(x) && (LLVMGetInstructionOpcode(x) == LLVMTrunc ||
                                                     LLVMGetInstructionOpcode(x) == LLVMZExt))
                        x = LLVMGetOperand(x, 0);
                    if (LLVMIsAInstruction(x) && (LLVMGetInstructionOpcode(x) == LLVMAdd ||
                                                  LLVMGetInstructionOpcode(x) == LLVMSub))
                        in.arith = true;
                    break;
                }
                case LLVMGetElementPtr: {
                    in.op = I_GEP;
                    in.ops = {op(0)};
                    LLVMTypeRef cur = LLVMGetGEPSourceElementType(v);
                    unsigned no = LLVMGetNumOperands(v);
                    for (unsigned i = 1; i < no; i++) {
                        LLVMValueRef ix = LLVMGetOperand(v, i);
                        if (i > 1 && LLVMGetTypeKind(cur) == LLVMStructTypeKind) {
                            unsigned k = (unsigned) LLVMConstIntGetZExtValue(ix);
                            in.constOff += (i64) LLVMOffsetOfElement(TD, cur, k);
                            cur = LLVMStructGetTypeAtIndex(cur, k);
                            continue;
                        }
                        u64 count = 0;
                        bool deref = false;
                        if (i > 1) {
                            if (LLVMGetTypeKind(cur) == LLVMArrayTypeKind) count = LLVMGetArrayLength2(cur);
                            cur = LLVMGetElementType(cur);
                            deref = LLVMGetTypeKind(cur) == LLVMArrayTypeKind;
                            for (LLVMUseRef us = LLVMGetFirstUse(v); us; us = LLVMGetNextUse(us)) {
                                LLVMValueRef user = LLVMGetUser(us);
                                if (!LLVMIsAInstruction(user)) continue;
                                LLVMOpcode oc = LLVMGetInstructionOpcode(user);
                                if (oc == LLVMLoad || oc == LLVMGetElementPtr || (oc == LLVMStore && LLVMGetOperand(user, 1) == v)) deref = true;
                            }
                        }
                        i64 es = (i64) tsize(cur);
                        if (LLVMIsAConstantInt(ix) && !(count && LLVMConstIntGetZExtValue(ix) + (deref ? 1 : 0) > count)) in.constOff += LLVMConstIntGetSExtValue(ix) * es;
                        else in.steps.push_back({operand(ix, ssa), es, count, deref});
                    }
                    break;
                }
                case LLVMBr:
                    if (LLVMGetNumOperands(v) == 1) {
                        in.op = I_BR;
                        in.blocks = {bidx[LLVMValueAsBasicBlock(LLVMGetOperand(v, 0))]};
                    } else {
                        in.op = I_CONDBR;
                        in.ops = {op(0)};
                        in.blocks = {bidx[LLVMGetSuccessor(v, 0)], bidx[LLVMGetSuccessor(v, 1)]};
                    }
                    break;
                case LLVMSwitch: {
                    in.op = I_SWITCH;
                    in.ops = {op(0)};
                    in.blocks.push_back(bidx[LLVMGetSwitchDefaultDest(v)]);
                    unsigned no = LLVMGetNumOperands(v);
                    for (unsigned i = 2; i + 1 < no; i += 2) {
                        in.cases.push_back(LLVMConstIntGetZExtValue(LLVMGetOperand(v, i)));
                        in.blocks.push_back(bidx[LLVMValueAsBasicBlock(LLVMGetOperand(v, i + 1))]);
                    }
                    in.ow = (u8) twidth(LLVMTypeOf(LLVMGetOperand(v, 0)));
                    break;
                }
                case LLVMRet:
                    in.op = I_RET;
                    if (LLVMGetNumOperands(v)) in.ops = {op(0)};
                    break;
                case LLVMUnreachable: in.op = I_UNREACH; break;
                case LLVMPHI: {
                    in.op = I_PHI;
                    unsigned c = LLVMCountIncoming(v);
                    for (unsigned i = 0; i < c; i++) {
                        in.ops.push_back(operand(LLVMGetIncomingValue(v, i), ssa));
                        in.blocks.push_back(bidx[LLVMGetIncomingBlock(v, i)]);
                    }
                    break;
                }
                case LLVMICmp:
                    in.op = I_ICMP;
                    in.sub = (u8) LLVMGetICmpPredicate(v);
                    in.ops = {op(0), op(1)};
                    in.ow = (u8) twidth(LLVMTypeOf(LLVMGetOperand(v, 0)));
                    break;
                case LLVMSelect:
                    in.op = I_SELECT;
                    in.ops = {op(0), op(1), op(2)};
                    break;
                case LLVMZExt: case LLVMSExt: case LLVMTrunc: case LLVMBitCast: case LLVMPtrToInt:
                case LLVMIntToPtr: case LLVMAddrSpaceCast:
                    in.op = I_CAST;
                    in.sub = (u8) opc;
                    in.ops = {op(0)};
                    in.ow = (u8) twidth(LLVMTypeOf(LLVMGetOperand(v, 0)));
                    break;
                case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem:
                case LLVMSRem: case LLVMAnd: case LLVMOr: case LLVMXor: case LLVMShl: case LLVMLShr:
                case LLVMAShr: {
                    in.op = I_BIN;
                    Op o = O_ADD;
                    switch (opc) {
                        case LLVMAdd: o = O_ADD; break;
                        case LLVMSub: o = O_SUB; break;
                        case LLVMMul: o = O_MUL; break;
                        case LLVMUDiv: o = O_UDIV; break;
                        case LLVMSDiv: o = O_SDIV; break;
                        case LLVMURem: o = O_UREM; break;
                        case LLVMSRem: o = O_SREM; break;
                        case LLVMAnd: o = O_AND; break;
                        case LLVMOr: o = O_OR; break;
                        case LLVMXor: o = O_XOR; break;
                        case LLVMShl: o = O_SHL; break;
                        case LLVMLShr: o = O_LSHR; break;
                        default: o = O_ASHR;
                    }
                    in.sub = (u8) o;
                    in.ops = {op(0), op(1)};
                    break;
                }
                case LLVMFreeze: in.op = I_FREEZE; in.ops = {op(0)}; break;
                case LLVMExtractValue:
                    in.op = I_EXTRACTV;
                    in.ops = {op(0)};
                    in.size = LLVMGetIndices(v)[0];
                    if (LLVMGetTypeKind(LLVMTypeOf(LLVMGetOperand(v, 0))) == LLVMArrayTypeKind &&
                        LLVMGetArrayLength(LLVMTypeOf(LLVMGetOperand(v, 0))) == 1)
                        in.op = I_FREEZE;
                    break;
                case LLVMInsertValue:
                    in.op = I_INSERTV;
                    in.ops = {op(0), op(1)};
                    in.size = LLVMGetIndices(v)[0];
                    break;
                case LLVMCall: {
                    in.op = I_CALL;
                    LLVMValueRef cv = LLVMGetCalledValue(v);
                    unsigned na = LLVMGetNumArgOperands(v);
                    std::string nm = LLVMIsAFunction(cv) ? vname(cv) : "";
                    if (nm.rfind("llvm.dbg.", 0) == 0 || nm.rfind("llvm.lifetime", 0) == 0 ||
                        nm.rfind("llvm.assume", 0) == 0 || nm.rfind("llvm.experimental.noalias", 0) == 0) {
                        in.op = I_NOP;
                        break;
                    }
                    if (LLVMIsAInlineAsm(cv)) {
                        in.op = I_NOP;
                        if (in.dst >= 0) { fprintf(stderr, "engine: inline asm with a result\n"); exit(4); }
                        break;
                    }
                    for (unsigned i = 0; i < na; i++) in.ops.push_back(op(i));
                    if (LLVMIsAFunction(cv)) {
                        in.callee = nm;
                        in.cfn = fobj[cv];
                    } else {
                        in.ops.push_back(operand(cv, ssa));  // indirect: last operand
                    }
                    break;
                }
                default: {
                    char* s = LLVMPrintValueToString(v);
                    fprintf(stderr, "engine: unsupported instruction %s\n", s);
                    exit(4);
                }
            }
            B.insts.push_back(std::move(in));
        }
        Inst& t = B.insts.back();
        if (t.op == I_BR || t.op == I_CONDBR || t.op == I_SWITCH) B.succ = t.blocks;
    }
    // reverse post order, loops
    std::vector<int> color(nb, 0), order;
    std::vector<std::pair<int, int>> back;
    std::function<void(int)> dfs = [&](int b) {
        color[b] = 1;
        // visit successors in reverse so that RPO keeps source order
        for (int i = (int) f->blocks[b].succ.size() - 1; i >= 0; i--) {
            int s = f->blocks[b].succ[i];
            if (color[s] == 0) dfs(s);
            else if (color[s] == 1) back.push_back({b, s});
        }
        color[b] = 2;
        order.push_back(b);
    };
    dfs(0);
    std::reverse(order.begin(), order.end());
    f->rpoOrder = order;
    for (size_t i = 0; i < order.size(); i++) f->blocks[order[i]].rpo = (int) i;
    std::vector<std::vector<int>> preds(nb);
    for (int b : order)
        for (int s : f->blocks[b].succ) preds[s].push_back(b);
    for (auto& e : back) {
        Block& H = f->blocks[e.second];
        H.header = true;
        H.loop.insert(e.second);
        std::vector<int> st;
        if (H.loop.insert(e.first).second) st.push_back(e.first);
        while (!st.empty()) {
            int x = st.back();
            st.pop_back();
            for (int p : preds[x])
                if (H.loop.insert(p).second) st.push_back(p);
        }
    }
    for (auto& B : f->blocks)
        if (B.header)
            for (int b : B.loop)
                for (auto& in : f->blocks[b].insts)
                    if (in.dst >= 0) B.loopDefs.push_back(in.dst);
}

// absolute and without . and .., whatever directory the compiler was started in
static std::string fullPath(const char* fn, unsigned len, const char* dn, unsigned dl) {
    std::string file = fn ? std::string(fn, len) : "", cur;
    if (!file.empty() && file[0] != '/' && dn) file = std::string(dn, dl) + "/" + file;
    std::vector<std::string> parts;
    for (char c : file + "/") {
        if (c == '/') {
            if (cur == ".." && !parts.empty()) parts.pop_back();
            else if (!cur.empty() && cur != ".") parts.push_back(cur);
            cur.clear();
        } else
            cur += c;
    }
    file.clear();
    for (auto& p : parts) file += "/" + p;
    return file;
}
bool loadModule(const char* path, const std::string& repoSrc) {
    repoPrefix = repoSrc;
    LLVMContextRef ctx = LLVMContextCreate();
    LLVMMemoryBufferRef mb;
    char* err = nullptr;
    if (LLVMCreateMemoryBufferWithContentsOfFile(path, &mb, &err)) {
        fprintf(stderr, "engine: %s\n", err);
        return false;
    }
    if (LLVMParseBitcodeInContext2(ctx, mb, &mod)) return false;
    TD = LLVMCreateTargetData(LLVMGetDataLayoutStr(mod));
    for (LLVMValueRef g = LLVMGetFirstGlobal(mod); g; g = LLVMGetNextGlobal(g)) {
        Global G;
        G.name = vname(g);
        LLVMTypeRef vt = LLVMGlobalGetValueType(g);
        G.external = LLVMIsDeclaration(g);
        G.size = LLVMTypeIsSized(vt) ? tsize(vt) : 0;
        {
            size_t ne = 0;
            LLVMValueMetadataEntry* me = LLVMGlobalCopyAllMetadata(g, &ne);
            for (size_t k = 0; k < ne; k++) {
                LLVMMetadataRef md = LLVMValueMetadataEntriesGetMetadata(me, (unsigned) k);
                if (!md || LLVMGetMetadataKind(md) != LLVMDIGlobalVariableExpressionMetadataKind) continue;
                LLVMMetadataRef var = LLVMDIGlobalVariableExpressionGetVariable(md);
                LLVMMetadataRef fl = var ? LLVMDIVariableGetFile(var) : nullptr;
                unsigned n = 0;
                const char* fn = fl ? LLVMDIFileGetFilename(fl, &n) : nullptr;
                unsigned dl = 0;
                const char* dn = fl ? LLVMDIFileGetDirectory(fl, &dl) : nullptr;
                if (fn) G.file = fullPath(fn, n, dn, dl);
                G.inRepo = G.file.rfind(repoSrc, 0) == 0;
                if (var) modeLeaves(var, G.modes);
            }
            LLVMDisposeValueMetadataEntries(me);
        }
        G.constant = LLVMIsGlobalConstant(g);
        int gi = (int) M.globals.size();
        M.globals.push_back(G);
        u32 id = internObj("@" + G.name, OK_GLOBAL, G.size, gi);
        objInfo(id).constant = G.constant;
        gobj[g] = id;
        M.gmap[G.name] = id;
    }
    for (LLVMValueRef f = LLVMGetFirstFunction(mod); f; f = LLVMGetNextFunction(f)) {
        auto F = std::make_unique<Func>();
        F->name = vname(f);
        F->id = (int) M.funcs.size();
        F->nargs = (int) LLVMCountParams(f);
        F->defined = !LLVMIsDeclaration(f);
        if (F->defined) {
            unsigned len = 0;
            const char* fn = LLVMGetDebugLocFilename(f, &len);
            const char* dn;
            unsigned dl = 0;
            dn = LLVMGetDebugLocDirectory(f, &dl);
            std::string file = fullPath(fn, len, dn, dl);
            F->line = (int) LLVMGetDebugLocLine(f);
            F->inRepo = file.rfind(repoSrc, 0) == 0;
            if (F->inRepo) file = file.substr(repoSrc.size() + (repoSrc.back() == '/' ? 0 : 1));
            F->file = file;
        }
        for (unsigned i = 0; i < (unsigned) F->nargs; i++)
            F->argw.push_back((u8) twidth(LLVMTypeOf(LLVMGetParam(f, i))));
        unsigned kind = LLVMGetEnumAttributeKindForName("byval", 5);
        for (unsigned i = 0; i < (unsigned) F->nargs; i++) {
            LLVMAttributeRef a = LLVMGetEnumAttributeAtIndex(f, i + 1, kind);
            F->byval.push_back(a ? tsize(LLVMGetTypeAttributeValue(a)) : 0);
        }
        fobj[f] = F.get();
        M.fmap[F->name] = F.get();
        M.funcs.push_back(std::move(F));
    }
    int gi = 0;
    for (LLVMValueRef g = LLVMGetFirstGlobal(mod); g; g = LLVMGetNextGlobal(g), gi++)
        if (!LLVMIsDeclaration(g)) flattenInit(LLVMGetInitializer(g), 0, M.globals[gi]);
    for (LLVMValueRef f = LLVMGetFirstFunction(mod); f; f = LLVMGetNextFunction(f))
        if (!LLVMIsDeclaration(f)) decode(fobj[f], f);
    return true;
}
