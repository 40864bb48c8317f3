// P05, at the device boundary: after a part of a transaction or of a box was refused, no part is accepted until a new one is begun.
#include "hooks.h"
static uint8_t g_dead;   // 1: a part of a transaction was refused, 2: one of a box being attested
void hook_end(void) {
    if (!E.apdu) {
        if (E.approved && E.kind == K_SESSION && g_dead == 1) g_dead = 0;
        if (E.approved && E.kind == K_ATTEST && g_dead == 2) g_dead = 0;
        return;
    }
    bool ok = (E.responses == 1 && E.sw == 0x9000) || E.opened;
    bool part = E.ins == 0x21 ? E.p1 > 0x01 : E.ins == 0x20 && E.p1 > 0x01;
    uint8_t which = E.ins == 0x21 ? 1 : 2;
    if (E.ins == 0x20 && E.p1 == 0x01 && E.responses == 1 && ok && g_dead == 2) g_dead = 0;
    if (!part) return;
    if (ok) {
        va_reached("P05 part accepted");
        va_assert(g_dead != which, "P05: a part is accepted after another one of the same transaction was refused");
    } else if (E.responses && E.sw != 0xB000 && E.sw != 0x6A86) {
        va_reached("P05 part refused at the boundary");
        g_dead = which;
    }
}
