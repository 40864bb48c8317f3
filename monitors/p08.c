// P08: what is known about an input is taken only from a frame authenticated by this application.
#include "hooks.h"
static uint8_t g_mac[16], g_in[4];
static uint8_t g_macs;       // authenticators computed for this command
static bool g_whole;
void hook_command(const command_t *c) {
    if (E.ins == 0x21 && E.p1 == 0x12 && c->data != NULL && c->lc > 42)
        for (uint8_t i = 0; i <= 4; i++)
            if (va_cases(c->data[42] == i)) break;
}
void hook_hmac(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, const uint8_t *mac, size_t mac_len) {
    (void) key;
    (void) key_len;
    if (!(E.apdu && E.ins == 0x21)) return;
    va_reached("P08 authenticator computed");
    const uint8_t *d = G_io_apdu_buffer + 5;
    // a count of tokens that cannot be true wraps around in eight bits
    g_whole = va_must(in == d) && len >= 43 && (uint8_t) (len - 43) == (uint8_t) (40 * d[42]) && mac_len >= 16;
    memcpy(g_mac, mac, 16);
    g_macs++;
}
void hook_response(uint16_t sw) {
    if (E.apdu && E.ins == 0x21 && E.p1 == 0x12 && sw == 0x9000) {
        va_reached("P08 frame accepted");
        const uint8_t *d = G_io_apdu_buffer + 5;
        size_t len = 43 + 40 * (size_t) d[42];
        va_assert(g_macs == 1 && g_whole, "P08: a frame is accepted without an authenticator computed over all of it");
        va_assert(len + 16 <= 255, "P08: a frame is accepted that is longer than a command");
        if (len + 16 <= 255) va_assert(memcmp(d + len, g_mac, 16) == 0, "P08: a frame is accepted whose authenticator differs from the one computed");
    }
    va_forget_cases();
}
void hook_end(void) { g_macs = 0; g_whole = false; memset(g_mac, 0, 16); }
