// P15: a well-formed request for a key, an address or a signing session is served.
#include "hooks.h"
#include "context.h"
#include "apdu_dispatcher.h"
static bool g_ok, g_answered, g_opened, g_data, g_yes;
void hook_fail(void) { va_end_path(); }   // a service failing is another property
void hook_bad_scalar(void) { va_end_path(); }   // next to impossible
void hook_unfit(bool really) {
    if (!really) va_end_path();
}
void hook_unfit_path(const uint32_t *path, size_t len, size_t room) {
    size_t n = 0;   // the longest text: at most ten digits, a mark when hardened, a slash or the end
    for (size_t i = 0; i < len; i++) n += (va_must((path[i] & 0x7FFFFFFF) < 1000) ? 3 : 10) + 1 + (va_must(path[i] < 0x80000000) ? 0 : 1);
    hook_unfit(n > room);
}
void hook_response(uint16_t sw) {
    g_answered = true;
    g_ok = va_must(sw == 0x9000);
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) { g_data = n > 0; }
void hook_flow(const ux_flow_step_t *const *s) { g_opened = true; }
void hook_validate(const ux_flow_step_t *s, bool yes, bool no) { g_yes = yes; }
static uint8_t d[64];
static void element(uint8_t *p, uint8_t hi, uint8_t lo_from) {
    (void) lo_from;
    va_havoc(p, 4, L_HOST, "element");
    if (hi) va_assume(p[0] >= 0x80);
    else va_assume(p[0] < 0x80);
}
static void exactly(uint8_t *p, uint32_t v) {
    p[0] = v >> 24;
    p[1] = v >> 16;
    p[2] = v >> 8;
    p[3] = v;
}
// the path at d[at]: account (n levels, hardened) or address
static uint8_t path(uint8_t at, bool account, uint8_t n) {
    d[at] = n;
    uint8_t *p = d + at + 1;
    exactly(p, 0x8000002C);
    exactly(p + 4, 0x800001AD);
    for (uint8_t i = 2; i < n; i++) {
        if (account || i == 2) element(p + 4 * i, 1, 0);
        else if (i == 3) exactly(p + 4 * i, va_cases(va_nondet_bool("change branch")) ? 1 : 0);
        else element(p + 4 * i, 0, 0);
    }
    return at + 1 + 4 * n;
}
static uint8_t levels(uint8_t lo) {
    for (uint8_t i = lo; i < 10; i++)
        if (va_cases(va_nondet_bool("levels"))) return i;
    return 10;
}
// at most 32768
static void size(uint8_t *p) {
    if (va_cases(va_nondet_bool("largest"))) {
        exactly(p, 32768);
    } else {
        p[0] = p[1] = 0;
        va_assume(p[2] < 0x80);
    }
}
// too long for the screen is refused when it is to be shown; the usual lengths never are
static void send(command_t *c, bool usual) {
    g_answered = g_ok = g_opened = g_data = g_yes = false;
    (void) apdu_dispatcher(c);
    if (g_opened) va_assert(!g_answered, "P15: a confirmation opens and the request is answered as well");
    else if (g_answered && g_ok) va_reached("P15 answered at once");
    va_assert(g_opened || (g_answered && g_ok) || !usual, c->ins == 0x10 ? "P15: a well-formed request for a key is refused" : c->ins == 0x11 ? "P15: a well-formed request for an address is refused" : c->ins == 0x20 ? "P15: a well-formed request for an attestation is refused" : "P15: a well-formed request to sign is refused");
    if (!g_opened) va_end_path();
    va_user();
    if (!va_cases(g_yes)) va_end_path();
    va_reached("P15 approved");
    va_assert(g_answered && g_ok, "P15: a well-formed request is refused after the user approved it");
    if (c->ins != 0x11 || c->p1 == 1) va_assert(g_data, "P15: an approved request is answered without data");
}
void va_main(void) {
    va_config("limit", 4000);
    app_init();
    app_set_ui_busy(false);
    va_havoc(app_sign_transaction_context(), sizeof(sign_transaction_ctx_t), 0, "left over");
    va_havoc(app_attest_input_context(), sizeof(attest_input_ctx_t), 0, "left over");
    app_set_current_command(va_cases(va_nondet_bool("signing")) ? CMD_SIGN_TRANSACTION : va_cases(va_nondet_bool("attesting")) ? CMD_ATTEST_INPUT_BOX : CMD_NONE);
    app_set_connected_app_id(va_nondet_u32("trusted"));
    va_havoc(d, sizeof d, L_HOST, "data");
    bool token = va_cases(va_nondet_bool("token"));
    command_t c = {.cla = 0xE0, .data = d};
    uint8_t n;
    if (va_cases(va_nondet_bool("key"))) {
        c.ins = 0x10;
        n = levels(3);
        c.p1 = token ? 2 : 1;
        c.lc = path(0, true, n) + (token ? 4 : 0);
        send(&c, n <= 4);
    } else if (va_cases(va_nondet_bool("address"))) {
        c.ins = 0x11;
        n = levels(5);
        c.p1 = va_cases(va_nondet_bool("display")) ? 2 : 1;
        c.p2 = token ? 2 : 1;
        if (va_cases(va_nondet_bool("testnet"))) d[0] = 0x10;
        else d[0] = 0;
        c.lc = path(1, false, n) + (token ? 4 : 0);
        send(&c, n <= 5);
    } else if (va_cases(va_nondet_bool("attestation"))) {
        c.ins = 0x20;
        c.p1 = 0x01;
        c.p2 = token ? 2 : 1;
        size(d + 42);
        va_assume(d[50] <= 20);
        size(d + 51);
        c.lc = token ? 59 : 55;
        send(&c, true);
    } else {
        c.ins = 0x21;
        n = levels(5);
        c.p1 = 0x01;
        c.p2 = token ? 2 : 1;
        if (va_cases(va_nondet_bool("testnet"))) d[0] = 0x10;
        else d[0] = 0;
        c.lc = path(1, false, n) + (token ? 4 : 0);
        send(&c, n <= 5);
    }
}
