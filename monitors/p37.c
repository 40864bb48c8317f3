// P37: the version and the name are given to whoever asks, at any time.
#include "hooks.h"
#include "constants.h"
static uint8_t g_asked;   // 1 version, 2 name
void hook_command(const command_t *c) {
    g_asked = 0;
    if (!va_cases(c->cla == 0xE0)) return;
    if (!va_cases(c->ins == 0x01) && !va_cases(c->ins == 0x02)) return;
    if (va_cases(c->p1 == 0) && va_cases(c->p2 == 0) && va_cases(c->lc == 0)) g_asked = va_cases(c->ins == 0x01) ? 1 : 2;
}
static bool g_given;
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    if (g_asked == 0) return;
    if (g_asked == 1) {
        va_assert(n == 4, "P37: the version is not four bytes");
        va_assert(va_must(p[0] == MAJOR_VERSION) && va_must(p[1] == MINOR_VERSION) && va_must(p[2] == PATCH_VERSION), "P37: the version given is another one");
#ifdef DEBUG_BUILD
        va_assert(va_must(p[3] == 1), "P37: a debug build does not say so");
#else
        va_assert(va_must(p[3] == 0), "P37: a release says that it is a debug build");
#endif
        va_reached("P37 version");
    } else {
        va_assert(n == sizeof(APPNAME) - 1 && va_same(p, APPNAME, sizeof(APPNAME) - 1), "P37: the name given is another one");
        va_reached("P37 name");
    }
    g_given = true;
}
void hook_flow(const ux_flow_step_t *const *s) {
    va_assert(g_asked == 0, "P37: asking for the version or the name changes the screen");
}
void hook_end(void) {
    if (g_asked) va_assert(g_given && E.responses == 1 && E.sw == 0x9000, "P37: asked for, the version or the name is not given");
    g_asked = 0;
    g_given = false;
}
