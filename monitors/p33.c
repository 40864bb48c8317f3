// P33: what is signed, or attested, is the transaction, or box, whose parts were sent: whole conversations through the dispatcher.
#include "hooks.h"
#include "read.h"
#include "context.h"
#include "apdu_dispatcher.h"
static uint8_t g_tape[900], g_exp[900];
static size_t g_n, g_m;         // bytes hashed, bytes expected
static const cx_blake2b_t *g_hash, *g_seen;   // the hash the serialisation goes to, the last one begun
static uint8_t d[255], g_len;   // the command put together
static uint8_t g_sid;
static bool g_answered, g_ok, g_opened, g_yes, g_done;
static uint8_t g_key[65], g_id[32], g_box[32];
static uint8_t g_full;          // the number that is given at its full range
void hook_fail(void) { va_end_path(); }
void hook_bad_scalar(void) { va_end_path(); }
void hook_unfit(bool really) { (void) really, va_end_path(); }
void hook_unfit_path(const uint32_t *p, size_t len, size_t room) { (void) p, (void) len, (void) room, va_end_path(); }
void hook_public_key(const uint8_t *w) {
    if (va_cases((w[64] & 1) != 0)) {}
    memcpy(g_key, w, 65);
}
void hook_hash_init(const cx_blake2b_t *h) { g_seen = h; }
void hook_hash(const cx_blake2b_t *h, uint32_t mode, const uint8_t *in, size_t len, const uint8_t *out, size_t out_len) {
    (void) mode, (void) out, (void) out_len;
    if (h != g_hash || len == 0) return;
    va_assert(len + g_n <= sizeof g_tape, "P33: more is hashed than was sent");
    memcpy(g_tape + g_n, in, len);
    g_n += len;
}
void hook_hash_done(const uint8_t *out, size_t out_len) {
    if (out_len != 32 || !g_hash) return;
    memcpy(g_id, out, 32);
    g_done = true;
}
void hook_response(uint16_t sw) {
    g_answered = true;
    g_ok = va_must(sw == 0x9000);
}
static uint8_t g_data[260];
static size_t g_data_len;
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    (void) sw;
    g_data_len = n;
    if (n <= sizeof g_data) memcpy(g_data, p, n);
}
void hook_flow(const ux_flow_step_t *const *s) {
    (void) s;
    g_opened = true;
}
void hook_validate(const ux_flow_step_t *s, bool yes, bool no) {
    (void) s, (void) no;
    g_yes = yes;
}
static uint8_t pick(uint8_t lo, uint8_t hi) {
    uint8_t v = va_nondet_range(lo, hi, "pick");
    for (uint8_t i = lo; i < hi; i++)
        if (va_cases(v == i)) return i;
    return hi;
}
// ---- the command
static void c_u8(uint8_t v) { d[g_len++] = v; }
static void c_num(uint32_t v, uint8_t n) {
    for (uint8_t i = 0; i < n; i++) d[g_len++] = (uint8_t) (v >> (8 * (n - 1 - i)));
}
static const uint8_t *c_any(uint8_t n) {
    va_havoc(d + g_len, n, L_HOST, "sent");
    g_len += n;
    return d + g_len - n;
}
// a number of n bytes, of any value if it is the one chosen, of one digit otherwise
static uint64_t c_value(uint8_t n, bool full) {
    uint8_t *p = d + g_len;
    va_havoc(p, n, L_HOST, "number");
    if (!full) {
        for (uint8_t i = 0; i < n - 1; i++) p[i] = 0;
        va_assume(p[n - 1] < 0x80);
    }
    g_len += n;
    uint64_t v = n == 8 ? read_u64_be(p, 0) : n == 4 ? read_u32_be(p, 0) : read_u16_be(p, 0);
    if (full)
        for (n = 1; n < 10; n++)
            if (va_cases(v < 1ull << (7 * n))) break;
    return v;
}
static void c_path(uint32_t account) {
    c_u8(5);
    c_num(0x8000002C, 4);
    c_num(0x800001AD, 4);
    c_num(0x80000000 | account, 4);
    c_num(0, 4);
    uint8_t *p = d + g_len;
    (void) c_any(4);
    va_assume(p[0] < 0x80);
}
// ---- what is to be hashed
static void e_u8(uint8_t v) { g_exp[g_m++] = v; }
static void e_bytes(const uint8_t *p, size_t n) {
    memcpy(g_exp + g_m, p, n);
    g_m += n;
}
static void e_num(uint64_t v, bool full) {
    uint8_t n = 1;
    if (full)
        for (; n < 10; n++)
            if (va_cases(v < 1ull << (7 * n))) break;
    for (uint8_t i = 0; i < n; i++) g_exp[g_m++] = (uint8_t) (((v >> (7 * i)) & 0x7F) | (i + 1 < n ? 0x80 : 0));
}
static void same(void) {
    va_assert(g_n == g_m, "P33: more or fewer bytes are hashed than were sent");
    if (g_n != g_m) va_end_path();
    va_assert(va_same(g_tape, g_exp, g_n), "P33: other bytes are hashed than were sent");
}
// ---- sending
static void send(uint8_t ins, uint8_t p1, uint8_t p2) {
    command_t c = {.cla = 0xE0, .ins = ins, .p1 = p1, .p2 = p2, .lc = g_len, .data = d};
    g_answered = g_ok = g_opened = g_yes = g_done = false;
    (void) apdu_dispatcher(&c);
    g_len = 0;
}
static void accepted(uint8_t p1) {
    send(0x21, p1, g_sid);
    va_assert(g_answered && g_ok && !g_opened, "P33: a well-formed part is refused");
    if (!(g_answered && g_ok)) va_end_path();
}
static void approve(void) {
    va_assert(g_opened, "P33: a well-formed request is refused");
    if (!g_opened) va_end_path();
    va_user();
    if (!va_cases(g_yes)) va_end_path();
    va_assert(g_answered && g_ok, "P33: an approved request is refused");
    if (!(g_answered && g_ok)) va_end_path();
}
// the identifier of the session is the answer
static void begun(void) {
    va_assert(g_data_len == 1, "P33: a session begins without an identifier");
    g_sid = g_data[0];
}
static void open_session(void) {
    c_u8(0);
    c_path(0);
    send(0x21, 0x01, 0x01);
    approve();
    begun();
    g_hash = g_seen;
    g_n = g_m = 0;
}
static bool g_tokens;
// tokens differ in their first byte
static uint8_t g_table[64];
static void frame(const uint8_t *id, uint8_t frames, uint8_t index, uint64_t value, uint8_t token, uint32_t ext) {
    static uint8_t mac[32];
    memcpy(d, id, 32);
    d[32] = frames;
    d[33] = index;
    for (uint8_t i = 0; i < 8; i++) d[34 + i] = (uint8_t) (value >> (56 - 8 * i));
    d[42] = g_tokens ? 1 : 0;
    g_len = 43;
    if (g_tokens) {
        if (token < 2) memcpy(d + 43, g_table + 32 * token, 32);
        else va_havoc(d + 43, 32, L_HOST, "another token");
        d[43] = token;
        g_len += 32;
        (void) c_value(8, false);
        d[g_len - 2] = 1;   // more than goes out
    }
    cx_hmac_sha256(app_session_key(), 16, d, g_len, mac, 32);
    memcpy(d + g_len, mac, 16);
    g_len += 16;
    if (index == 0) c_num(ext, 4);
    accepted(0x12);
}
static void output(uint8_t kind, bool full) {
    uint8_t tok = g_tokens ? 2 : 0;
    uint32_t size = kind == 2 ? 255 + 10 : kind == 4 ? 36 : 5, regs = g_tokens ? 7 : 0;
    uint64_t v = c_value(8, full && g_full == 1);
    e_num(v, full && g_full == 1);
    c_num(size, 4);
    uint64_t h = c_value(4, full && g_full == 2);
    c_u8(tok);
    c_num(regs, 4);
    send(0x21, 0x15, g_sid);
    if (full && g_full == 1 && !g_ok) va_end_path();
    va_assert(g_answered && g_ok && !g_opened, "P33: a well-formed output is refused");
    if (kind == 0) {
        static const uint8_t fee[105] = {
            0x10, 0x05, 0x04, 0x00, 0x04, 0x00, 0x0e, 0x36, 0x10, 0x02, 0x04, 0xa0, 0x0b, 0x08, 0xcd, 0x02, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc,
            0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b,
            0x16, 0xf8, 0x17, 0x98, 0xea, 0x02, 0xd1, 0x92, 0xa3, 0x9a, 0x8c, 0xc7, 0xa7, 0x01, 0x73, 0x00, 0x73, 0x01, 0x10, 0x01, 0x02, 0x04,
            0x02, 0xd1, 0x96, 0x83, 0x03, 0x01, 0x93, 0xa3, 0x8c, 0xc7, 0xb2, 0xa5, 0x73, 0x00, 0x00, 0x01, 0x93, 0xc2, 0xb2, 0xa5, 0x73, 0x01,
            0x00, 0x74, 0x73, 0x02, 0x73, 0x03, 0x83, 0x01, 0x08, 0xcd, 0xee, 0xac, 0x93, 0xb1, 0xa5, 0x73, 0x04};
        e_bytes(fee, 105);
        send(0x21, 0x17, g_sid);
    } else if (kind == 1) {
        c_path(0);
        send(0x21, 0x18, g_sid);
        e_u8(0x00), e_u8(0x08), e_u8(0xCD);
        e_u8(va_cases((g_key[64] & 1) != 0) ? 3 : 2);
        e_bytes(g_key + 1, 32);
    } else {
        if (kind == 2) {
            e_bytes(c_any(255), 255);
            accepted(0x16);
        }
        uint8_t n = kind == 2 ? 10 : kind == 4 ? 36 : 5;
        e_bytes(c_any(n), n);
        send(0x21, 0x16, g_sid);
    }
    if (g_opened) approve();
    if (full && g_full == 1 && !g_ok) va_end_path();   // more than comes in
    va_assert(g_answered && g_ok, "P33: a well-formed script is refused");
    e_num(h, full && g_full == 2);
    e_u8(tok);
    if (tok) {
        for (uint8_t i = 0; i < 2; i++) {
            c_num(1 - i, 4);
            e_u8(1 - i);
            e_num(c_value(8, full && g_full == 3 && i == 1), full && g_full == 3 && i == 1);
        }
        send(0x21, 0x19, g_sid);
        if (g_opened) approve();
        if (full && g_full == 3 && !g_ok) va_end_path();
        va_assert(g_answered && g_ok, "P33: well-formed tokens are refused");
    }
    if (regs) {
        for (uint8_t i = 0; i < 2; i++) {
            e_bytes(c_any(i ? 3 : 4), i ? 3 : 4);
            send(0x21, 0x1A, g_sid);
            if (g_opened) approve();
            va_assert(g_answered && g_ok, "P33: well-formed registers are refused");
        }
    } else e_u8(0);
}
static void transaction(void) {
    static uint8_t id[32];
    open_session();
    uint8_t shape = pick(0, 2), kind = pick(0, 4), token = shape == 1 ? pick(0, 2) : 0;
    g_tokens = shape != 0;
    g_full = shape == 2 ? 0 : pick(0, shape == 0 ? 2 : 3);
    uint8_t ins = shape == 2 ? 2 : 1, dins = shape == 2 ? 3 : 0, toks = g_tokens ? 2 : 0, outs = shape == 2 ? 2 : 1;
    c_num(ins, 2), c_num(dins, 2), c_u8(toks), c_num(outs, 2);
    accepted(0x10);
    e_u8(ins);
    if (toks) {
        (void) c_any(64);
        d[0] = 0, d[32] = 1;
        memcpy(g_table, d, 64);
        accepted(0x11);
    }
    for (uint8_t i = 0; i < ins; i++) {
        uint8_t frames = shape == 2 ? 2 : 1;
        uint32_t ext = shape == 2 && i == 1 ? 9 : 0;
        va_havoc(id, 32, L_HOST, "id");
        for (uint8_t j = 0; j < frames; j++) frame(id, frames, j, 1000, shape == 1 ? token : (i + j) % 3, ext);
        e_bytes(id, 32);
        e_u8(0);
        if (ext) {
            for (uint8_t k = 0; k < 2; k++) {
                e_bytes(c_any(k ? 4 : 5), k ? 4 : 5);
                accepted(0x13);
            }
        } else e_u8(0);
    }
    e_u8(dins);
    if (dins) {
        e_bytes(c_any(32), 32);
        accepted(0x14);
        e_bytes(c_any(64), 64);
        accepted(0x14);
    }
    e_u8(toks);
    e_bytes(g_table, 32 * toks);
    e_u8(outs);
    for (uint8_t i = 0; i < outs; i++) output(i == 0 ? kind : 3, i == 0);
    send(0x21, 0x20, g_sid);
    if (g_full && !g_opened && !g_ok) va_end_path();   // more goes out than comes in
    approve();
    va_assert(g_done, "P33: a signature is made of something else than the hash");
    same();
    va_assert(g_data_len == 56, "P33: no signature is returned");
    va_reached(shape == 2 ? "P33 large transaction" : shape == 1 ? "P33 transaction with tokens" : "P33 simple transaction");
    va_reached(kind == 0 ? "P33 fee" : kind == 1 ? "P33 change" : kind == 2 ? "P33 long script" : kind == 3 ? "P33 script" : "P33 script of the size of a key");
}
static void part(uint8_t p1) {
    send(0x20, p1, g_sid);
    va_assert(g_answered && g_ok && !g_opened, "P33: a well-formed part of a box is refused");
    if (!(g_answered && g_ok)) va_end_path();
}
static void box(void) {
    static uint8_t id[32], toks[40];
    uint8_t shape = pick(0, 2);
    g_full = shape == 2 ? pick(0, 4) : 0;
    uint8_t tok = shape == 0 ? 0 : 1;
    uint32_t size = shape == 1 ? 255 + 10 : 6, regs = shape == 1 ? 7 : 0;
    memcpy(id, c_any(32), 32);
    uint16_t ix = (uint16_t) c_value(2, g_full == 4);
    uint64_t v = c_value(8, g_full == 1);
    c_num(size, 4);
    uint32_t h = c_value(4, g_full == 2);
    c_u8(tok);
    c_num(regs, 4);
    g_seen = NULL;
    g_n = g_m = 0;
    g_hash = NULL;
    e_num(v, g_full == 1);
    g_hash = &app_attest_input_context()->hash;
    send(0x20, 0x01, 0x01);
    approve();
    begun();
    if (shape == 1) {
        e_bytes(c_any(255), 255);
        part(0x02);
        e_bytes(c_any(10), 10);
        part(0x02);
    } else {
        e_bytes(c_any(6), 6);
        part(0x02);
    }
    e_num(h, g_full == 2);
    e_u8(tok);
    if (tok) {
        e_bytes(c_any(32), 32);
        e_num(c_value(8, g_full == 3), g_full == 3);
        memcpy(toks, d, 40);
        part(0x03);
    }
    if (regs) {
        for (uint8_t k = 0; k < 2; k++) {
            e_bytes(c_any(k ? 4 : 3), k ? 4 : 3);
            part(0x04);
        }
    } else e_u8(0);
    va_assert(g_done, "P33: a complete box gets no identifier");
    va_assert(g_data_len == 1 && g_data[0] == 1, "P33: the number of frames is not returned");
    memcpy(g_box, g_id, 32);
    e_bytes(id, 32);
    e_num(ix, g_full == 4);
    same();
    c_u8(0);
    part(0x05);
    va_assert(g_data_len == 43u + 40u * tok + 16u, "P33: the frame has another length");
    if (g_data_len != 43u + 40u * tok + 16u) va_end_path();
    va_assert(va_same(g_data, g_box, 32), "P33: the frame has another identifier than the hash of the box");
    va_assert(g_data[32] == 1 && g_data[33] == 0 && g_data[42] == tok, "P33: the frame has other counts");
    va_assert(va_eq64(read_u64_be(g_data, 34), v), "P33: the frame has another value");
    if (tok) va_assert(va_same(g_data + 43, toks, 32) && va_eq64(read_u64_be(g_data, 75), read_u64_be(toks, 32)), "P33: the frame has another token");
    va_reached("P33 box attested");
}
void va_main(void) {
    va_config("limit", 4000);
    app_init();
    app_set_ui_busy(false);
    if (va_cases(va_nondet_bool("part"))) transaction();
    else box();
}
