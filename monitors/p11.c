// P11: private key material does not outlive the command or decision that needed it.
#include "hooks.h"
static bool g_signing;   // a signing session is open
void hook_begin(void) { va_config("stack_secret", L_SECRET | L_NONCE); }
void hook_generate_pair(const cx_ecfp_256_public_key_t *pub, const cx_ecfp_256_private_key_t *priv, bool keep) {
    (void) pub;
    (void) priv;
    (void) keep;
    va_reached("P11 private key used");
}
void hook_end(void) {
    uint32_t l = va_global_labels() | va_labels(G_io_apdu_buffer, sizeof(G_io_apdu_buffer));
    va_assert(!(l & L_SECRET), "P11: private key material is left in memory after the command or decision that used it");
    bool ok = E.responses == 1 && E.sw == 0x9000;
    if (E.apdu && E.ins == 0x21 && E.p1 == 0x01 && E.opened) g_signing = true;
    if ((!E.apdu && (E.rejected || (E.approved && E.kind == K_SIGN))) ||
        (E.apdu && E.ins == 0x21 && E.responses && !ok && E.sw != 0xB000 && E.sw != 0x6A86) ||
        (E.apdu && (E.ins == 0x10 || E.ins == 0x11 || E.ins == 0x20) && (ok || E.opened)))
        g_signing = false;
    if (l & L_NONCE) {
        va_reached("P11 nonce kept for the session");
        va_assert(g_signing, "P11: the one-time signing secret is left in memory after its session ended");
    }
}
