// P13: the one-time secret of a signature is drawn for it, blinds that signature alone, and is the one committed to.
#include "hooks.h"
static uint8_t g_nonce[32];     // the random bytes last drawn
static bool g_drawn, g_committed, g_used;
void hook_nonce(const uint8_t *p) {
    memcpy(g_nonce, p, 32);
    g_drawn = true;
    g_committed = g_used = false;
}
void hook_scalar_mult(const uint8_t *p, const uint8_t *k, size_t k_len) {
    (void) p;
    if (k_len != 32 || !(va_labels(k, 32) & L_NONCE)) return;
    va_reached("P13 commitment");
    va_assert(g_drawn && va_same(k, g_nonce, 32), "P13: the commitment is made with other bytes than the one-time secret drawn");
    g_committed = true;
}
void hook_blind(const uint8_t *nonce) {
    va_reached("P13 signature blinded");
    va_assert(g_drawn && va_same(nonce, g_nonce, 32), "P13: a signature is blinded with other bytes than the one-time secret drawn");
    va_assert(g_committed, "P13: a signature is blinded with a secret that was not committed to");
    va_assert(!g_used, "P13: two signatures are blinded with the same secret");
    g_used = true;
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    (void) sw;
    if (n == 0) return;
    uint32_t l = va_labels(p, n);
    if (E.apdu || E.kind != K_SIGN || !E.approved) return;
    va_reached("P13 signature released");
    va_assert((l & L_SIG) && !(l & (L_SECRET | L_NONCE)), "P13: the signature is not blinded by a one-time random secret");
    va_assert(g_used, "P13: the signature is not blinded by a secret drawn for it");
}
void hook_end(void) {
    // whatever is left of it after a signature could sign again
    if (g_used) va_assert(!(va_global_labels() & L_NONCE), "P13: the one-time secret is kept after the signature it blinded");
}
