// P10: every byte of a script, register or context extension the host sends is hashed, once and in order.
#include "hooks.h"
static uint32_t g_lc;    // bytes in this command
static uint32_t g_pos;   // bytes of this command hashed so far
static const cx_blake2b_t *g_h;   // the digest of the box or transaction
void hook_hash_init(const cx_blake2b_t *h) {
    if (E.apdu && ((E.ins == 0x20 && E.p1 == 0x01) || (E.ins == 0x21 && E.p1 != 0x16))) g_h = h;
}
static bool raw(void) {
    return E.apdu && ((E.ins == 0x20 && (E.p1 == 0x02 || E.p1 == 0x04)) ||
                      (E.ins == 0x21 && (E.p1 == 0x13 || E.p1 == 0x16 || E.p1 == 0x1A)));
}
void hook_command(const command_t *c) {
    g_pos = 0;
    g_lc = c->lc;
}
void hook_hash(const cx_blake2b_t *h, uint32_t mode, const uint8_t *in, size_t len, const uint8_t *out, size_t out_len) {
    (void) mode;
    (void) out;
    (void) out_len;
    if (!raw() || len == 0 || h != g_h) return;
    if (va_labels(in, len) & L_HOST) {
        if (va_ptr_eq(in, G_io_apdu_buffer + 5 + g_pos)) {
            va_reached("P10 piece of the command hashed");
            g_pos += len;
        } else {
            va_assert(!va_same_object(in, G_io_apdu_buffer), "P10: bytes of a command are hashed twice or out of order");
        }
    }
}
void hook_response(uint16_t sw) {
    if (raw() && sw == 0x9000) {
        va_reached("P10 chunk accepted");
        va_assert(g_pos == g_lc, "P10: bytes of an accepted script, register or extension are not hashed");
    }
}
void hook_flow(const ux_flow_step_t *const *steps) {
    (void) steps;
    if (raw()) {
        va_reached("P10 chunk accepted with a confirmation");
        va_assert(g_pos == g_lc, "P10: bytes of an accepted script or register are not hashed");
    }
}
void hook_end(void) { g_pos = g_lc = 0; }
