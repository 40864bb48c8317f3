// P12: nothing secret leaves the device.
#include "hooks.h"
void hook_begin(void) { va_config("uninit", L_UNINIT); }
void hook_command(const command_t *c) {
    (void) c;
    if (E.ins == 0x20 && E.p1 == 0x05) va_loop_cases();   // the length of a frame depends on its number of tokens
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    (void) sw;
    if (n == 0) return;
    uint32_t l = va_labels(p, n);
    va_reached("P12 data returned");
    va_assert(!(l & (L_SECRET | L_NONCE)), "P12: private key material is returned to the host");
    va_assert(!(l & L_SESSKEY), "P12: the key that authenticates input frames is returned to the host");
    va_assert(!(l & L_UNINIT), "P12: bytes of memory that was never written are returned to the host");
    bool epk = E.apdu ? E.ins == 0x10 : E.approved && E.kind == K_PUBKEY;
    if (l & L_CHAIN) va_assert(epk, "P12: the chain code is returned by another command than the extended public key one");
    va_forget_cases();
}
void hook_text(const char *s) {
    uint32_t l = va_str_labels(s);
    va_reached("P12 text displayed");
    va_assert(!(l & (L_SECRET | L_NONCE | L_SESSKEY)), "P12: key material is displayed");
}
void hook_response(uint16_t sw) { (void) sw; va_forget_cases(); }
