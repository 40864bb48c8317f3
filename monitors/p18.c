// P18: an application becomes the trusted one only when the user approves what it asked for.
#include "hooks.h"
#include "context.h"
#include "read.h"
static uint32_t g_token;    // of the request on display
static uint32_t g_before;
void hook_begin(void) { g_before = app_connected_app_id(); }
static bool g_tok;          // this command names the application it comes from
void hook_command(const command_t *c) {
    g_tok = false;
    if (E.ins == 0x10) g_tok = va_cases(c->p1 == 2);
    else if (E.ins == 0x11 || ((E.ins == 0x20 || E.ins == 0x21) && E.p1 == 0x01)) g_tok = va_cases(c->p2 == 2);
    if (g_tok && E.ins != 0x20 && c->data != NULL)
        for (uint8_t i = 1; i <= 10; i++)
            if (va_cases(c->data[E.ins == 0x10 ? 0 : 1] == i)) break;
}
void hook_flow(const ux_flow_step_t *const *steps) {
    (void) steps;
    if (!E.apdu || !E.opened) return;
    const uint8_t *d = G_io_apdu_buffer + 5;
    size_t at = E.ins == 0x10 ? 1 + 4 * (size_t) d[0] : E.ins == 0x20 ? 55 : 2 + 4 * (size_t) d[1];
    g_token = 0;
    if (g_tok) g_token = read_u32_be(d, at);
    va_forget_cases();
}
static bool asks(void) {
    return E.kind == K_PUBKEY || E.kind == K_ADDRESS || E.kind == K_ATTEST || E.kind == K_SESSION;
}
void hook_response(uint16_t sw) {
    (void) sw;
    va_forget_cases();
}
void hook_end(void) {
    if (!E.apdu && E.approved && asks()) {
        va_reached("P18 request approved");
        uint32_t now = app_connected_app_id();
        va_assert(va_eq64(now, g_token), "P18: approval of a request makes an application trusted that did not ask for it");
    } else
        va_assert(va_eq64(app_connected_app_id(), g_before), "P18: the trusted application changes although the user approved no request of it");
    if (!E.apdu && (E.approved || E.rejected))
        g_token = 0;
    g_before = 0;
    g_tok = false;
}
