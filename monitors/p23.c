// P23: every command and every decision of the user gets exactly one answer.
#include "hooks.h"
static bool g_asked;   // the user is asked something
void hook_begin(void) { g_asked = !E.apdu && g_kind != K_NONE; }
void hook_end(void) {
    if (E.apdu) {
        va_reached("P23 command");
        va_assert(E.responses <= 1, "P23: a command is answered twice");
        va_assert(E.responses == 1 || E.opened, "P23: a command is not answered and the user is not asked");
        va_assert(!(E.responses && E.opened), "P23: a command is answered although the user is asked to decide");
    } else if (E.approved || E.rejected) {
        va_reached("P23 decision");
        va_assert(E.responses == 1, "P23: a decision of the user is not answered exactly once");
        if (E.rejected) va_assert(E.sw == 0x6985, "P23: a rejection is not reported as one");
        va_assert(E.kind != K_NONE, "P23: a decision without a request");
        va_assert(g_kind == K_NONE, "P23: the confirmation stays on display after the decision");
    } else if (E.responses) {
        // a screen that cannot be drawn ends the request with an error
        va_assert(E.responses == 1 && E.sw != 0x9000 && E.sw != 0x6985, "P23: an answer is sent while the user only moves through screens");
        va_assert(g_asked && g_kind == K_NONE, "P23: an answer is sent while the user only moves through screens and the request stays open");
    }
    g_asked = false;
}
