// P09: an authenticator leaves the device only with the frame it was computed over, for a box that was described completely.
#include "hooks.h"
#include "read.h"
static uint8_t g_id[32], g_mac[16];
static bool g_hashed;        // the box of the attestation in progress was hashed to its end
static uint8_t g_macs;
static uint8_t g_index;
static uint32_t g_len;
static uint64_t g_value;     // value of the box, as the command that began the attestation gave it
void hook_command(const command_t *c) {
    if (E.ins == 0x20 && E.p1 == 0x05) {
        va_loop_cases();
        if (c->data != NULL) g_index = c->data[0];
        if (c->data != NULL)
            for (uint8_t i = 0; i < 5; i++)
                if (va_cases(c->data[0] == i)) break;
    }
}
void hook_hash_init(const cx_blake2b_t *h) {
    (void) h;
    if (E.apdu && E.ins == 0x20) {
        g_hashed = false;
        if (E.p1 == 1) g_value = read_u64_be(G_io_apdu_buffer + 5, 34);
    }
}
void hook_hash_done(const uint8_t *out, size_t out_len) {
    if (E.apdu && E.ins == 0x20 && out_len == 32) {
        memcpy(g_id, out, 32);
        g_hashed = true;
    }
}
void hook_hmac(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, const uint8_t *mac, size_t mac_len) {
    (void) key;
    (void) key_len;
    (void) in;
    if (!(E.apdu && E.ins == 0x20)) return;
    g_macs++;
    g_len = len;
    memcpy(g_mac, mac, 16);
    if (mac_len < 16) g_macs = 100;
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    if (!(va_labels(p, n) & L_HMAC)) return;
    va_reached("P09 frame returned");
    va_assert(sw == 0x9000 && E.apdu && E.ins == 0x20 && E.p1 == 0x05, "P09: an authenticator is returned by another command than the one for a frame");
    va_assert(g_hashed, "P09: a frame is returned for a box that was not hashed to its end");
    va_assert(g_macs == 1, "P09: a frame is returned without exactly one authenticator");
    bool fits = n >= 59 && n <= 219 && g_len == n - 16;
    va_assert(fits, "P09: the authenticator is not computed over the whole frame before it");
    if (!fits) return;
    va_assert(va_same(p, g_id, 32), "P09: the identifier in a frame is not the one computed for the box");
    va_assert(va_same(p + n - 16, g_mac, 16), "P09: the authenticator returned is not the one computed");
    va_assert(n == 43 + 40 * (size_t) p[42] + 16, "P09: a frame does not hold as many tokens as it says");
    va_assert(p[33] < p[32] && p[32] <= 5, "P09: the index of a frame is not below the number of frames");
    va_assert(p[33] == g_index, "P09: another frame is returned than the one asked for");
    for (int i = 0; i < 8; i++)
        va_assert(p[34 + i] == (uint8_t) (g_value >> (56 - 8 * i)), "P09: the value in a frame is not the one the host gave for the box");
    va_forget_cases();
}
void hook_response(uint16_t sw) { (void) sw; va_forget_cases(); }
void hook_end(void) { g_macs = 0; g_len = 0; g_index = 0; memset(g_mac, 0, 16); if (E.apdu ? (E.opened && E.ins != 0x20) : E.rejected) g_hashed = false; }
