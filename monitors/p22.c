// P22: what the application does not know, or what is addressed wrongly, is refused with the status for it and has no effect.
#include "hooks.h"
static uint8_t g_class;   // 1: the command had to be refused, 2: it asked for the version or the name
void hook_begin(void) {
    if (E.apdu) va_mark();
}
static bool g_plain;      // of these, without parameters
void hook_command(const command_t *c) {
    g_plain = false;
    if (!va_cases(c->cla == 0xE0)) return;
    if (va_cases(c->ins == 0x01) || va_cases(c->ins == 0x02)) g_plain = va_cases(c->p1 == 0) && va_cases(c->p2 == 0);
}
// the refusal a header calls for, zero if none
static uint16_t refusal(void) {
    if (E.cla != 0xE0) return 0x6E00;
    switch (E.ins) {
        case 0x01:
        case 0x02:
            return g_plain ? 0 : 0x6A86;
        case 0x10:
            return (E.p1 != 1 && E.p1 != 2) || E.p2 != 0 ? 0x6A86 : 0;
        case 0x11:
            return (E.p1 != 1 && E.p1 != 2) || (E.p2 != 1 && E.p2 != 2) ? 0x6A86 : 0;
        case 0x20:
        case 0x21:
            return E.p1 == 0 || E.p2 == 0 ? 0x6A86 : 0;
        default:
            return 0x6D00;
    }
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    (void) p;
    if (n == 0) return;
    va_assert(sw == 0x9000, "P22: data is returned along with an error status");
    if (E.apdu) va_assert(E.parsed && refusal() == 0, "P22: a command that has to be refused is answered with data");
}
void hook_response(uint16_t sw) {
    if (!E.apdu || !E.parsed) return;
    uint16_t want = refusal();
    if (want) {
        va_reached("P22 refusal");
        va_assert(sw == want, "P22: a command that has to be refused is answered with another status");
        g_class = 1;
        return;
    }
    va_reached("P22 accepted");
    va_assert(sw != 0x6E00 && sw != 0x6D00, "P22: a command the application knows is refused as unknown");
    if (E.ins == 0x01 || E.ins == 0x02) {
        va_assert(sw == 0x9000, "P22: the version or the name is refused");
        g_class = 2;
    }
}
void hook_flow(const ux_flow_step_t *const *steps) {
    (void) steps;
    if (E.apdu && E.parsed) va_assert(refusal() == 0, "P22: a command that has to be refused changes the screen");
}
void hook_end(void) {
    if (E.apdu && !E.parsed) {
        va_reached("P22 incomplete header");
        va_assert(E.sw != 0x9000 && !E.opened, "P22: a command without a complete header is accepted");
        va_assert(va_unchanged(), "P22: a command without a complete header changes the state of the application");
    }
    if (g_class == 1) va_assert(va_unchanged(), "P22: a command that has to be refused changes the state of the application");
    if (g_class == 2) va_assert(va_unchanged(), "P22: asking for the version or the name changes the state of the application");
    g_class = 0;
    g_plain = false;
}
