// P24: the key or address handed out, and the change output, is that of the path requested, which is also the path displayed.
#include "hooks.h"
#include "read.h"
static uint32_t g_path[10];   // path of the key derived last
static uint8_t g_len;
static uint8_t g_pub[65];     // its public key
static uint8_t g_chain[32];   // and chain code
static bool is_request(void) { return E.apdu && (E.ins == 0x10 || E.ins == 0x11 || (E.ins == 0x21 && E.p1 == 0x18)); }
static size_t path_at(void) { return E.ins == 0x11 ? 1 : 0; }
void hook_command(const command_t *c) {
    if (is_request() && c->data != NULL)
        for (uint8_t i = 1; i <= 10; i++)
            if (va_cases(c->data[path_at()] == i)) break;
}
static bool requested(const uint32_t *path, size_t len) {
    const uint8_t *d = G_io_apdu_buffer + 5 + path_at();
    if (len != d[0] || len > 10) return false;
    bool ok = true;
    for (size_t i = 0; i < 10; i++)
        if (i < len && !va_eq64(path[i], read_u32_be(d, 1 + 4 * i))) ok = false;
    return ok;
}
void hook_derive(const unsigned int *path, size_t len) {
    if (len <= 10) memcpy(g_path, path, len * 4);
    g_len = (uint8_t) len;
    if (is_request()) {
        va_reached(E.ins == 0x10 ? "P24 account key" : E.ins == 0x11 ? "P24 address" : "P24 change");
        va_assert(requested((const uint32_t *) path, len), "P24: a key is derived for another path than the one requested");
    }
}
static uint8_t g_first;       // first byte of the compressed key
void hook_public_key(const uint8_t *w) {
    memcpy(g_pub, w, 65);
    g_first = va_cases((w[64] & 1) == 1) ? 3 : 2;
}
void hook_begin(void) {
    if (!E.apdu && g_kind == K_PUBKEY) (void) va_cases((g_pub[64] & 1) == 1);
}
void hook_chain_code(const uint8_t *c) { memcpy(g_chain, c, 32); }
void hook_path_text(const uint32_t *path, size_t len, const char *out) {
    (void) out;
    if (is_request()) {
        va_reached("P24 path displayed");
        va_assert(requested(path, len), "P24: another path is displayed than the one requested");
    }
}
void hook_hash(const cx_blake2b_t *h, uint32_t mode, const uint8_t *in, size_t len, const uint8_t *out, size_t out_len) {
    (void) h;
    (void) mode;
    (void) out;
    (void) out_len;
    if (E.apdu && E.ins == 0x21 && E.p1 == 0x18 && len == 36) {
        va_reached("P24 change script");
        va_assert(in[0] == 0x00 && in[1] == 0x08 && in[2] == 0xCD, "P24: the script of a change output is not one of a public key");
        va_assert(in[3] == g_first, "P24: the script of a change output has the wrong sign of the key");
        va_assert(va_same(in + 4, g_pub + 1, 32), "P24: the script of a change output is not that of the key at the path given");
    }
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    (void) sw;
    uint32_t l = va_labels(p, n);
    if ((l & L_SIG) || !(l & L_PUB)) return;
    bool key = E.apdu ? E.ins == 0x10 : E.kind == K_PUBKEY;
    if (key) {
        va_reached("P24 key returned");
        va_assert(n == 65, "P24: an extended public key is returned that is not a compressed key and a chain code");
        va_assert(p[0] == ((g_pub[64] & 1) == 1 ? 3 : 2), "P24: the key returned has the wrong sign");
        va_assert(va_same(p + 1, g_pub + 1, 32) && va_same(p + 33, g_chain, 32), "P24: the key returned is not that of the path requested");
    } else {
        va_reached("P24 address returned");
        va_assert(n == 38 && va_same(p + 1, &g_first, 1), "P24: an address is returned that is not one of a public key");
        va_assert(va_same(p + 2, g_pub + 1, 32), "P24: the address returned is not that of the path requested");
    }
}
void hook_flow(const ux_flow_step_t *const *steps) { (void) steps; va_forget_cases(); }
void hook_response(uint16_t sw) { (void) sw; va_forget_cases(); }
