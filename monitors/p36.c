// P36: walking right from where a request opens shows all of it before a decision is offered.
#include "hooks.h"
#include "context.h"
#include "apdu_dispatcher.h"
enum { INTRO, PATH, ADDRESS, TOKEN };
static bool g_answered, g_opened;
void hook_fail(void) { va_end_path(); }
void hook_bad_scalar(void) { va_end_path(); }
void hook_unfit(bool really) { va_end_path(); }
void hook_unfit_path(const uint32_t *path, size_t len, size_t room) { va_end_path(); }
void hook_response(uint16_t sw) { g_answered = true; }
void hook_flow(const ux_flow_step_t *const *s) { g_opened = true; }
static uint8_t g_drawn;
static const char *g_title, *g_text;
static char g_path[80], g_address[80];   // the texts made of the path and of the address
static uint8_t g_path_len, g_address_len;
static char g_id[12];
static bool g_is_path;
void hook_text(const char *s) {
    g_drawn++;
    g_title = g_text;
    g_text = s;
}
static uint8_t d[64];
static void element(uint8_t *p, uint8_t hi, uint8_t lo_from) {
    (void) lo_from;
    va_havoc(p, 4, L_HOST, "element");
    if (hi) va_assume(p[0] >= 0x80);
    else va_assume(p[0] < 0x80);
}
static void exactly(uint8_t *p, uint32_t v) {
    p[0] = v >> 24;
    p[1] = v >> 16;
    p[2] = v >> 8;
    p[3] = v;
}
// at most 32768
static void size(uint8_t *p) {
    if (va_cases(va_nondet_bool("largest"))) {
        exactly(p, 32768);
    } else {
        p[0] = p[1] = 0;
        va_assume(p[2] < 0x80);
    }
}
// the path at d[at]: account (n levels, hardened) or address
static uint8_t path(uint8_t at, bool account, uint8_t n) {
    d[at] = n;
    uint8_t *p = d + at + 1;
    exactly(p, 0x8000002C);
    exactly(p + 4, 0x800001AD);
    for (uint8_t i = 2; i < n; i++) {
        if (account || i == 2) element(p + 4 * i, 1, 0);
        else if (i == 3) exactly(p + 4 * i, va_cases(va_nondet_bool("change branch")) ? 1 : 0);
        else element(p + 4 * i, 0, 0);
    }
    return at + 1 + 4 * n;
}
static uint8_t levels(uint8_t lo) {
    for (uint8_t i = lo; i < 10; i++)
        if (va_cases(va_nondet_bool("levels"))) return i;
    return 10;
}
static uint8_t g_path_at, g_levels;
void hook_path_text(const uint32_t *path, size_t len, const char *out) {
    g_is_path = true;
    va_assert(len == g_levels, "P36: the path put on the screen is not that of the request");
    for (uint8_t i = 0; i < g_levels; i++) {
        const uint8_t *p = d + g_path_at + 1 + 4 * i;
        va_assert(path[i] == ((uint32_t) p[0] << 24 | (uint32_t) p[1] << 16 | (uint32_t) p[2] << 8 | p[3]), "P36: the path put on the screen is not that of the request");
    }
}
static uint8_t g_pub[65];
void hook_public_key(const uint8_t *w) { memcpy(g_pub, w, 65); }
void hook_base58(const uint8_t *in, size_t n) {
    g_is_path = false;
    va_assert(n == 38 && va_must(in[0] == (uint8_t) (d[0] + 1)), "P36: the address put on the screen is of another kind or network");
    va_assert(va_same(in + 2, g_pub + 1, 32), "P36: the address put on the screen is of another key");
    va_reached("P36 address of the network");
}
void hook_text_made(const char *out, size_t len) {
    if (len > 80) va_end_path();
    if (g_is_path) {
        memcpy(g_path, out, len);
        g_path_len = len;
    } else {
        memcpy(g_address, out, len);
        g_address_len = len;
    }
}
static void check(uint8_t what) {
    if (what == INTRO) return;
    va_assert(g_drawn == 2, "P36: a screen of a request is not drawn");
    if (what == PATH) {
        va_assert(g_path_len > 0 && va_same(g_text, g_path, g_path_len), "P36: a screen does not show the path of the request");
        va_reached("P36 path shown");
    } else if (what == ADDRESS) {
        va_assert(va_must(g_title[0] == 'A') && va_must(g_title[1] == 'd'), "P36: the address is shown as something else");
        va_assert(g_address_len > 0 && va_same(g_text, g_address, g_address_len), "P36: a screen does not show the whole address");
        va_reached("P36 address shown");
    } else {
        va_assert(va_must(g_title[0] == 'A') && va_must(g_title[1] == 'p'), "P36: the application is shown as something else");
        va_assert(va_same(g_text, g_id, 11), "P36: a screen does not show the application's token");
        va_reached("P36 application shown");
    }
}
static uint8_t g_screens[4], g_n;
static void due(uint8_t what) { g_screens[g_n++] = what; }
static void step(bool right, uint8_t answer) {
    g_drawn = 0;
    uint8_t at = right ? va_right() : va_left();
    va_assert(at == answer, answer ? "P36: approve and reject are not what comes after the request" : "P36: a decision is offered before all of the request is shown");
}
static void request(command_t *c) {
    g_answered = g_opened = false;
    g_drawn = 0;
    (void) apdu_dispatcher(c);
    if (!g_opened || g_answered) va_end_path();
    va_first();
    check(g_screens[0]);
    for (uint8_t i = 1; i < g_n; i++) {
        step(true, 0);
        check(g_screens[i]);
    }
    step(true, 1);
    step(true, 2);
    va_reached(c->ins == 0x10 ? "P36 key request" : c->ins == 0x11 ? "P36 address request" : c->ins == 0x20 ? "P36 attestation request" : "P36 signing request");
    step(false, 1);
    for (uint8_t i = g_n; i > 0; i--) {
        step(false, 0);
        check(g_screens[i - 1]);
    }
    va_assert(!g_answered, "P36: a request is answered while it is looked at");
    va_reached("P36 walked back");
}
void va_main(void) {
    va_config("limit", 4000);
    G_ux.stack_count = 1;
    app_init();
    app_set_ui_busy(false);
    va_havoc(app_sign_transaction_context(), sizeof(sign_transaction_ctx_t), 0, "left over");
    va_havoc(app_attest_input_context(), sizeof(attest_input_ctx_t), 0, "left over");
    app_set_current_command(va_cases(va_nondet_bool("signing")) ? CMD_SIGN_TRANSACTION : va_cases(va_nondet_bool("attesting")) ? CMD_ATTEST_INPUT_BOX : CMD_NONE);
    va_havoc(d, sizeof d, L_HOST, "data");
    bool token = va_cases(va_nondet_bool("token"));
    uint8_t which = va_cases(va_nondet_bool("key")) ? 0x10 : va_cases(va_nondet_bool("address")) ? 0x11 : va_cases(va_nondet_bool("attestation")) ? 0x20 : 0x21;
    command_t c = {.cla = 0xE0, .data = d, .ins = which};
    uint8_t n;
    g_path_at = which == 0x10 ? 0 : 1;
    if (which != 0x10 && which != 0x20) {
        if (va_cases(va_nondet_bool("testnet"))) d[0] = 0x10;
        else d[0] = 0;
    }
    if (which == 0x20) {
        size(d + 42);
        va_assume(d[50] <= 20);
        size(d + 51);
        n = 55;
    } else {
        g_levels = levels(which == 0x10 ? 3 : 5);
        n = path(g_path_at, which == 0x10, g_levels);
    }
    uint32_t id = 0, trusted = va_nondet_u32("trusted");
    if (token) {
        id = (uint32_t) d[n] << 24 | (uint32_t) d[n + 1] << 16 | (uint32_t) d[n + 2] << 8 | d[n + 3];
        n += 4;
        if (va_cases(id == 0)) id = 0;
        else if (va_cases(trusted == id)) trusted = id;
    } else if (va_cases(trusted == 0)) trusted = 0;
    bool known = id != 0 && trusted == id;
    app_set_connected_app_id(trusted);
    snprintf(g_id, 11, "0x%08x", id);
    c.lc = n;
    g_n = 0;
    if (which == 0x10 || which == 0x11) due(INTRO);
    if (which == 0x20) due(INTRO);
    else due(PATH);
    if (which == 0x10) c.p1 = token ? 2 : 1;
    else c.p2 = token ? 2 : 1;
    if (which == 0x11) {
        c.p1 = va_cases(va_nondet_bool("display")) ? 2 : 1;
        if (c.p1 == 2) due(ADDRESS);
    } else if (which != 0x10) c.p1 = 0x01;
    if (which == 0x21 ? !known : va_cases(id != 0)) due(TOKEN);
    request(&c);
}
