// Common steps of a signing session.
#pragma once
#include "sim.h"
static uint8_t SID;   // the session identifier handed out
static inline void open_session(uint32_t chain, uint32_t index) {
    bytes x = {{0}, 0};
    u8(&x, 0); path(&x, 5, ACCOUNT(0), chain, index);
    NEED(send(0x21, 0x01, 0x01, &x) == 0 && asking());
    NEED(approve() == 0x9000 && A.len == 1);
    SID = A.data[0];
}
static inline uint16_t start_tx(uint16_t ins, uint16_t dins, uint8_t tokens, uint16_t outs) {
    bytes x = {{0}, 0};
    u16(&x, ins); u16(&x, dins); u8(&x, tokens); u16(&x, outs);
    return send(0x21, 0x10, SID, &x);
}
// a box attested by this device, one frame, no tokens unless given
static inline uint16_t input_frame(uint8_t tag, uint8_t frames, uint8_t index, uint64_t value, uint8_t tokens, const uint8_t *toks, bool first, uint32_t ext) {
    bytes x = {{0}, 0};
    uint8_t id[32], mac[32];
    memset(id, tag, 32);
    put(&x, id, 32); u8(&x, frames); u8(&x, index); u64(&x, value); u8(&x, tokens);
    if (tokens) put(&x, toks, 40 * (size_t) tokens);
    sim_hmac(sim_rng16, 16, x.b, x.n, mac);
    put(&x, mac, 16);
    if (first) u32(&x, ext);
    return send(0x21, 0x12, SID, &x);
}
static inline uint16_t output(uint64_t value, uint32_t tree, uint8_t tokens, uint32_t regs) {
    bytes x = {{0}, 0};
    u64(&x, value); u32(&x, tree); u32(&x, 700000); u8(&x, tokens); u32(&x, regs);
    return send(0x21, 0x15, SID, &x);
}
static inline uint16_t change(uint32_t account, uint32_t chain, uint32_t index) {
    bytes x = {{0}, 0};
    path(&x, 5, ACCOUNT(account), chain, index);
    return send(0x21, 0x18, SID, &x);
}
static inline uint16_t p2pk_tree(uint8_t tag) {
    bytes x = {{0}, 0};
    uint8_t pre[3] = {0x00, 0x08, 0xCD}, key[33];
    memset(key, tag, 33); key[0] = 2;
    put(&x, pre, 3); put(&x, key, 33);
    return send(0x21, 0x16, SID, &x);
}
static inline uint16_t fee(void) { return cmd(0x21, 0x17, SID, NULL, 0); }
static inline uint16_t confirm(void) { return cmd(0x21, 0x20, SID, NULL, 0); }
// one input of 1000000000, session on m/44'/429'/0'/0/0
static inline void simple_tx(uint8_t tokens, uint16_t outs) {
    open_session(0, 0);
    NEED(start_tx(1, 0, tokens, outs) == 0x9000);
}
