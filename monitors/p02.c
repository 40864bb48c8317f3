// P02: no output enters a transaction that gets signed unless the user approved it or it goes to the miners or to a
// change address; an output once begun has to be completed before anything else.
#include "hooks.h"
enum { NONE, OPEN, EXEMPT, SHOWN, APPROVED };
static uint8_t g_out;     // the output being described

void hook_end(void) {
    bool ok = E.responses == 1 && E.sw == 0x9000;
    if (E.apdu && E.ins == 0x21) {
        if (E.p1 == 0x01 && E.opened) g_out = NONE;
        if (E.p1 == 0x15 && ok) {
            va_reached("P02 output begun");
            va_assert(g_out != OPEN, "P02: another output is begun while the last one is incomplete and was never shown");
            va_assert(g_out != SHOWN, "P02: another output is begun while the last one waits for the user");
            g_out = OPEN;
        } else if (E.p1 >= 0x16 && E.p1 <= 0x1A && (ok || E.opened)) {
            va_reached("P02 output extended");
            va_assert(g_out == OPEN || (g_out == EXEMPT && E.p1 >= 0x19), "P02: an output is extended that is complete, approved or was never begun");
            if (E.opened) g_out = SHOWN;
            else if (E.p1 == 0x17 || E.p1 == 0x18) g_out = EXEMPT;
        } else if (E.p1 == 0x20 && (ok || E.opened)) {
            va_reached("P02 transaction shown");
            va_assert(g_out != OPEN, "P02: the transaction is shown for signing while an output is incomplete and was never shown");
            va_assert(g_out != SHOWN, "P02: the transaction is shown for signing while an output waits for the user");
            va_assert(g_out != NONE, "P02: the transaction is shown for signing although it has no output");
            g_out = NONE;
        }
    }
    if (!E.apdu && E.kind == K_OUTPUT && E.approved && ok) {
        va_assert(g_out == SHOWN, "P02: approval of an output that was not shown");
        g_out = APPROVED;
    }
    if ((!E.apdu && (E.kind == K_OUTPUT) && E.rejected) || (E.apdu && E.ins == 0x21 && E.responses && !ok && E.sw != 0xB000 && E.sw != 0x6A86) ||
        (E.apdu && (E.ins == 0x10 || E.ins == 0x11 || E.ins == 0x20) && (ok || E.opened)))
        g_out = NONE;
}
