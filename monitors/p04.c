// P04: the steps of a signing or attestation session are carried out only between the user's consent to it and its end.
#include "hooks.h"
static uint8_t g_alive;   // K_SESSION / K_ATTEST: the session that may be continued
void hook_end(void) {
    bool ok = E.responses == 1 && E.sw == 0x9000;
    if (E.apdu) {
        bool signing = E.ins == 0x21 && E.p1 >= 0x10, attesting = E.ins == 0x20 && E.p1 >= 0x02;
        if (signing && (ok || E.opened)) {
            va_reached("P04 signing step");
            va_assert(g_alive == K_SESSION, "P04: a signing step is carried out outside a session the user approved");
        }
        if (attesting && (ok || E.opened)) {
            va_reached("P04 attestation step");
            va_assert(g_alive == K_ATTEST, "P04: an attestation step is carried out outside a session that was approved");
        }
        // failures end it
        if ((E.ins == 0x20 || E.ins == 0x21) && E.responses && !ok && E.sw != 0xB000 && E.sw != 0x6A86) g_alive = 0;
        // so does every other operation on keys
        if ((E.ins == 0x10 || E.ins == 0x11) && (ok || E.opened)) g_alive = 0;
        if (((E.ins == 0x20) || (E.ins == 0x21)) && E.p1 == 0x01 && E.opened) g_alive = 0;
        if (E.ins == 0x20 && E.p1 == 0x01 && ok) g_alive = K_ATTEST;  // a known application (P17)
    } else {
        if (E.rejected || (E.responses && !ok)) g_alive = 0;   // also a screen that cannot be drawn
        if (E.approved && (E.kind == K_SESSION || E.kind == K_ATTEST) && ok) g_alive = E.kind;
        if (E.approved && E.kind == K_SIGN) g_alive = 0;
    }
}
