// P28: frames are authenticated with a key drawn at random when the application starts, and only with it.
#include "hooks.h"
#include "context.h"
static uint8_t g_key[16];
static bool g_drawn;
void hook_rng(const uint8_t *p, size_t n) {
    if (n != 16) return;
    va_assert(!g_drawn, "P28: the key of the input frames is drawn again");
    memcpy(g_key, p, 16);
    g_drawn = true;
}
void hook_hmac(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, const uint8_t *mac, size_t mac_len) {
    (void) in;
    (void) len;
    (void) mac;
    (void) mac_len;
    va_reached(E.ins == 0x20 ? "P28 frame made" : "P28 frame checked");
    va_assert(g_drawn, "P28: no key was drawn at random");
    va_assert(key_len == 16 && va_same(key, g_key, 16), "P28: a frame is authenticated with other bytes than the key drawn at the start");
}
