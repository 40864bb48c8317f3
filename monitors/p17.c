// P17: public keys and addresses leave the device only with the user's approval or for the application last approved.
#include "hooks.h"
#include "context.h"
#include "read.h"
static bool g_tok;   // this command names the application it comes from
void hook_command(const command_t *c) {
    g_tok = false;
    if (E.ins == 0x10) g_tok = va_cases(c->p1 == 2);
    else if (E.ins == 0x11) g_tok = va_cases(c->p2 == 2);
    else if (E.ins == 0x20 && E.p1 == 0x01) g_tok = va_cases(c->p2 == 2);
    // where the token is depends on the length of the path
    if (g_tok && E.ins != 0x20 && c->data != NULL)
        for (uint8_t i = 1; i <= 10; i++)
            if (va_cases(c->data[E.ins == 0x10 ? 0 : 1] == i)) break;
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    (void) sw;
    if (n == 0) return;
    uint32_t l = va_labels(p, n);
    bool session = E.apdu && E.ins == 0x20 && E.p1 == 0x01;
    if (!session && ((l & L_SIG) || !(l & (L_PUB | L_CHAIN)))) return;
    if (!E.apdu) {
        va_reached("P17 key or address returned on approval");
        va_assert(E.approved && (E.kind == K_PUBKEY || E.kind == K_ADDRESS), "P17: a key or address is returned although the user did not approve it");
        return;
    }
    va_reached("P17 answered without asking");
    va_assert(E.ins == 0x10 || session || (E.ins == 0x11 && E.p1 == 1), "P17: a key or address is returned without asking the user");
    va_assert(g_tok, "P17: a request without an application token is answered without asking the user");
    const uint8_t *d = G_io_apdu_buffer + 5;
    size_t at = E.ins == 0x10 ? 1 + 4 * (size_t) d[0] : E.ins == 0x11 ? 2 + 4 * (size_t) d[1] : 55;
    uint32_t token = read_u32_be(d, at);
    va_assert(token == app_connected_app_id(), "P17: a request of another application than the approved one is answered without asking the user");
    va_assert(app_connected_app_id() != 0, "P17: a request is answered without asking although no application was approved");
}
void hook_flow(const ux_flow_step_t *const *steps) {
    (void) steps;
    va_forget_cases();
}
void hook_response(uint16_t sw) {
    (void) sw;
    va_forget_cases();
}
void hook_end(void) { g_tok = false; }
