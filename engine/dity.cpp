// Reads the debug information of a global: the byte offsets of its fields of enumerated or boolean type
// ("mode" fields).  States at rest are partitioned by the values of those.
#include <set>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm-c/Types.h>
using namespace llvm;
static void walk(const DIType* t, uint64_t off, std::set<uint32_t>& out, int depth) {
    while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_pointer_type) return;
        t = d->getBaseType();
    }
    if (!t || depth > 16) return;
    if (auto* b = dyn_cast<DIBasicType>(t)) {
        if (b->getEncoding() == dwarf::DW_ATE_boolean) out.insert((uint32_t) (off / 8));
        return;
    }
    auto* c = dyn_cast<DICompositeType>(t);
    if (!c) return;
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
        out.insert((uint32_t) (off / 8));
        return;
    }
    if (c->getTag() == dwarf::DW_TAG_array_type) {
        const DIType* e = c->getBaseType();
        uint64_t es = 0;
        for (const DIType* x = e; x; ) {
            if (x->getSizeInBits()) { es = x->getSizeInBits(); break; }
            auto* d = dyn_cast<DIDerivedType>(x);
            x = d ? d->getBaseType() : nullptr;
        }
        if (!es || c->getSizeInBits() / es > 64) return;
        for (uint64_t i = 0; i * es < c->getSizeInBits(); i++) walk(e, off + i * es, out, depth + 1);
        return;
    }
    for (auto* n : c->getElements())
        if (auto* m = dyn_cast_or_null<DIDerivedType>(n))
            if (m->getTag() == dwarf::DW_TAG_member) walk(m->getBaseType(), off + m->getOffsetInBits(), out, depth + 1);
}
void modeLeaves(LLVMMetadataRef var, std::set<uint32_t>& out) {
    auto* v = dyn_cast_or_null<DIGlobalVariable>(reinterpret_cast<Metadata*>(var));
    if (v) walk(v->getType(), 0, out, 0);
}
