// P07: while a confirmation is on display no command of the host does anything.
#include "hooks.h"
static uint8_t g_pending;
void hook_begin(void) {
    g_pending = g_kind;
    if (E.apdu && g_pending != K_NONE) va_mark();
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    (void) p;
    (void) sw;
    if (!E.apdu || g_pending == K_NONE || E.ins == 0x01 || E.ins == 0x02 || n == 0) return;
    va_assert(0, "P07: a command is answered with data while a confirmation is on display");
}
void hook_end(void) {
    if (E.apdu && g_pending != K_NONE) {
        va_reached("P07 command while a confirmation is on display");
        va_assert(!E.opened, "P07: a command replaces the confirmation on display");
        if (E.ins != 0x01 && E.ins != 0x02) va_assert(E.sw != 0x9000, "P07: a command is carried out while a confirmation is on display");
        va_assert(va_unchanged(), "P07: a command changes the state of the application while a confirmation is on display");
    }
    g_pending = K_NONE;
}
