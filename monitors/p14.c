// P14: no key is derived outside the Ergo account tree.
#include "hooks.h"
void hook_command(const command_t *c) {
    // where the path of the request is (its length is a known number in each case)
    size_t at = E.ins == 0x11 || (E.ins == 0x21 && E.p1 == 0x01) ? 1 : 0;
    if (E.ins == 0x10 || E.ins == 0x11 || (E.ins == 0x21 && (E.p1 == 0x01 || E.p1 == 0x18)))
        if (c->data != NULL)
            for (uint8_t i = 1; i <= 10; i++)
                if (va_cases(c->data[at] == i)) break;
}
static void levels(const unsigned int *path, size_t len) {
    va_assert(len >= 3 && len <= 10, "P14: a path shorter than an account or longer than ten levels is used");
    if (len < 3) return;
    va_assert(path[0] == 0x8000002Cu, "P14: a key is derived outside purpose 44'");
    va_assert(path[1] == 0x800001ADu, "P14: a key is derived outside the Ergo coin type 429'");
    va_assert(path[2] >= 0x80000000u, "P14: a key is derived under an account that is not hardened");
}
static void address_levels(const unsigned int *path, size_t len, bool below) {
    va_assert(len >= 5, "P14: an address or signing key is derived above the address level");
    if (len < 5) return;
    va_assert(path[3] == 0 || path[3] == 1, "P14: an address or signing key is derived outside the external and internal chains");
    if (below)
        for (size_t i = 4; i < 10; i++)
            if (i < len) va_assert(path[i] < 0x80000000u, "P14: an address or signing key is derived under a hardened level below the chain");
}
void hook_derive(const unsigned int *path, size_t len) {
    va_reached("P14 key derived");
    levels(path, len);
    bool address = E.ins == 0x11 || E.ins == 0x21 || (!E.apdu && (E.kind == K_ADDRESS || E.kind == K_SESSION || E.kind == K_OUTPUT || E.kind == K_SIGN));
    if (address) {
        va_reached("P14 address or signing key derived");
        // the path of a signature was checked to the last level when it was accepted (below), and is that one (P01)
        address_levels(path, len, E.apdu || E.kind != K_SIGN);
    }
    bool account = E.ins == 0x10 || (!E.apdu && E.kind == K_PUBKEY);
    if (account) {
        va_reached("P14 account key derived");
        for (size_t i = 3; i < 10; i++)
            if (i < len) va_assert(path[i] >= 0x80000000u, "P14: an account key is derived under a level that is not hardened");
    }
    va_assert(address || account, "P14: a key is derived by a command that has no use for one");
}
void hook_path_text(const uint32_t *path, size_t len, const char *out) {
    (void) out;
    if (E.apdu && E.ins == 0x21 && E.p1 == 0x01) {
        va_reached("P14 signing path accepted");
        levels(path, len);
        address_levels(path, len, true);
    }
}
void hook_flow(const ux_flow_step_t *const *steps) { (void) steps; va_forget_cases(); }
void hook_response(uint16_t sw) { (void) sw; va_forget_cases(); }
