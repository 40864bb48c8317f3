// P06: the steps of a session are carried out only for the holder of the identifier handed out when it began.
#include "hooks.h"
static uint8_t g_id, g_id_kind;   // the identifier last handed out, and for which operation
static uint8_t g_new;
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    (void) sw;
    bool session = E.apdu ? E.ins == 0x20 && E.p1 == 0x01 : E.approved && (E.kind == K_SESSION || E.kind == K_ATTEST);
    if (!session) return;
    va_reached("P06 identifier handed out");
    va_assert(n == 1, "P06: the identifier of a session is not one byte");
    va_assert(p[0] != 0, "P06: the identifier of a session is zero");
    g_new = p[0];
}
void hook_end(void) {
    bool ok = E.responses == 1 && E.sw == 0x9000;
    if (g_new && ok) {
        g_id = g_new;
        g_id_kind = E.apdu ? K_ATTEST : E.kind;
    } else if (E.apdu && (ok || E.opened)) {
        bool signing = E.ins == 0x21 && E.p1 >= 0x10, attesting = E.ins == 0x20 && E.p1 >= 0x02;
        if (signing || attesting) {
            va_reached("P06 session step");
            va_assert(g_id_kind == (signing ? K_SESSION : K_ATTEST), "P06: a step is carried out for which no identifier was handed out");
            va_assert(va_eq64(E.p2, g_id), "P06: a step is carried out for another identifier than the one handed out");
        }
    }
    g_new = 0;
}
