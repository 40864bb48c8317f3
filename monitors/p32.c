// P32: the signature is the Schnorr proof over what was hashed.
#include "hooks.h"
#include "commands/signtx/operations/stx_op_p2pk.h"
#include "helpers/crypto.h"
static sign_transaction_operation_p2pk_ctx_t X;
static const uint8_t C_G[65] = {
    0x04, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d,
    0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98, 0x48, 0x3a, 0xda, 0x77, 0x26, 0xa3, 0xc4, 0x65, 0x5d, 0xa4, 0xfb,
    0xfc, 0x0e, 0x11, 0x08, 0xa8, 0xfd, 0x17, 0xb4, 0x48, 0xa6, 0x85, 0x54, 0x19, 0x9c, 0x47, 0xd0, 0x8f, 0xfb, 0x10, 0xd4, 0xb8};
static const uint8_t C_N[32] = {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
                                0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41};
static const uint8_t C_BEFORE[7] = {0x01, 0x00, 0x27, 0x10, 0x01, 0x08, 0xcd}, C_AFTER[4] = {0x73, 0x00, 0x00, 0x21};
static uint8_t g_tape[200], g_nonce[32], g_secret[32], g_h[32], g_key[32], g_c[32], g_z[32], g_was[32];
static size_t g_n;
static bool g_on, g_hashed, g_nz[3], g_lt[2], g_is_w, g_has_w;   // of the one-time secret, the key, the challenge
static uint8_t g_draws;
static uint8_t g_fails;          // one attempt may fail
static void attempt(void) {
    if (!g_on || g_fails++ >= 1) va_end_path();
}
void hook_fail(void) { attempt(); }
void hook_bad_scalar(void) { attempt(); }
void hook_unfit(bool really) { (void) really, va_end_path(); }
void hook_unfit_path(const uint32_t *path, size_t len, size_t room) { (void) path, (void) len, (void) room, va_end_path(); }
void hook_nonce(const uint8_t *p) {
    memcpy(g_nonce, p, 32);
    g_nz[0] = g_lt[0] = g_has_w = false;
    g_draws++;
}
void hook_not_zero(const uint8_t *a, size_t n) {
    if (!g_on) return;
    va_assert(n == 32, "P32: only a part is checked to be non-zero");
    if (va_same(a, g_nonce, 32)) g_nz[0] = true;
    if (va_same(a, g_secret, 32)) g_nz[1] = true;
    if (g_hashed && va_same(a + 8, g_h, 24)) g_nz[2] = true;
}
void hook_compare(const uint8_t *a, const uint8_t *b, size_t n, int diff) {
    if (!g_on) return;
    if (n != 32 || !va_same(b, C_N, 32)) return;
    bool low = va_cases(diff <= 0);
    if (va_same(a, g_nonce, 32)) g_lt[0] = low;
    if (va_same(a, g_secret, 32)) g_lt[1] = low;
}
static uint8_t g_w[65], g_pk[65], g_pair[65];           // the generator times the one-time secret, times the key
static bool g_is_pk, g_has_pk;
void hook_scalar_mult(const uint8_t *p, const uint8_t *k, size_t n) {
    if (!g_on) return;
    bool g = n == 32 && va_same(p, C_G, 65);
    g_is_w = g && va_same(k, g_nonce, 32);
    g_is_pk = g && va_same(k, g_secret, 32);
}
void hook_point(const uint8_t *p) {
    if (!g_on) return;
    if (va_cases((p[64] & 1) == 0)) {}
    if (g_is_w) {
        memcpy(g_w, p, 65);
        g_has_w = true;
    }
    if (g_is_pk) {
        memcpy(g_pk, p, 65);
        g_has_pk = true;
    }
    g_is_w = g_is_pk = false;
}
void hook_public_key(const uint8_t *w) {
    if (!g_on) return;
    if (va_cases((w[64] & 1) == 0)) {}
    if (!va_same(w, g_pair, 65)) return;
    memcpy(g_pk, w, 65);
    g_has_pk = true;
}
// the bytes hashed are the compressed form of a point
static bool g_pk_hashed, g_w_hashed;
static bool compressed(const uint8_t *at, const uint8_t *p) {
    uint8_t odd = va_cases((p[64] & 1) != 0) ? 3 : 2;
    return va_must(at[0] == odd) && va_same(at + 1, p + 1, 32);
}
void hook_hash_init(const cx_blake2b_t *h) {
    if (h == &X.tx_hash) {
        g_n = 0;
        g_pk_hashed = g_w_hashed = false;
    }
}
void hook_hash(const cx_blake2b_t *h, uint32_t mode, const uint8_t *in, size_t len, const uint8_t *out, size_t out_len) {
    (void) mode, (void) out, (void) out_len;
    if (h != &X.tx_hash || len == 0) return;
    va_assert(g_n + len <= sizeof g_tape, "P32: more is hashed than the commitment needs");
    memcpy(g_tape + g_n, in, len);
    g_n += len;
    if (g_n == 40) g_pk_hashed = g_has_pk && compressed(g_tape + 7, g_pk);
    if (g_n == 77) g_w_hashed = g_has_w && compressed(g_tape + 44, g_w);
}
void hook_hash_done(const uint8_t *out, size_t out_len) {
    va_assert(out_len == 32, "P32: the challenge is taken from a hash of another length");
    va_assert(g_n == 0, "P32: something is hashed after the transaction");
    memcpy(g_h, out, 32);
    g_hashed = true;
}
// c * key + r, in any order
static bool response(const uint8_t *z) {
    bool same = false;
    for (uint8_t i = 0; i < 4; i++) {
        uint8_t t[32];
        if (cx_math_multm_no_throw(t, i & 1 ? g_c : g_key, i & 1 ? g_key : g_c, C_N, 32)) va_end_path();
        if (cx_math_addm_no_throw(g_z, i & 2 ? t : g_was, i & 2 ? g_was : t, C_N, 32)) va_end_path();
        if (va_same(g_z, z, 32)) same = true;
    }
    return same;
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    if (!g_on || n == 0) return;
    g_on = false;
    va_assert(sw == 0x9000 && n == 56, "P32: the signature has another length");
    va_assert(g_hashed && va_same(p, g_h, 24), "P32: the challenge is not the first 24 bytes of the hash of commitment and transaction");
    va_assert(g_nz[2], "P32: the challenge was not checked to be non-zero");
    memset(g_c, 0, 8);
    memcpy(g_c + 8, g_h, 24);
    va_assert(response(p + 24), "P32: the response is not challenge times key plus one-time secret");
    va_reached("P32 signature");
}
static void commit(void) {
    static uint32_t path[10];
    va_havoc(path, sizeof path, 0, "path");
    uint8_t len = va_nondet_range(5, 10, "levels");
    for (uint8_t i = 5; i < 10; i++)
        if (va_cases(len == i)) {
            len = i;
            break;
        }
    va_havoc(&X, sizeof X, 0, "ctx");
    if (crypto_generate_private_key(path, len, g_secret) != 0) va_end_path();
    if (crypto_generate_public_key(path, len, g_pair, NULL) != 0) va_end_path();
    g_on = true;
    g_draws = 0;
    uint16_t sw = stx_operation_p2pk_init(&X, path, len, va_nondet_u8("network"));
    g_on = false;
    if (va_cases(sw != 0x9000)) va_end_path();
    va_assert(g_draws > 0 && va_same(X.schnorr_key, g_nonce, 32), "P32: the one-time secret kept is not the one drawn");
    va_assert(g_nz[0] && g_lt[0] && g_nz[1] && g_lt[1], "P32: a secret was not checked to be non-zero and to fit the group");
    va_assert(g_n == 7 + 33 + 4 + 33, "P32: the commitment is hashed incompletely");
    va_assert(va_same(g_tape, C_BEFORE, 7) && va_same(g_tape + 40, C_AFTER, 4), "P32: the commitment is hashed in another form");
    va_assert(g_pk_hashed, "P32: another key is hashed");
    va_assert(g_w_hashed, "P32: the commitment hashed is not the one to the one-time secret");
    va_reached("P32 commitment");
}
void va_main(void) {
    va_config("limit", 4000);
    G_ux.stack_count = 1;
    if (va_cases(va_nondet_bool("part"))) {
        commit();
        va_end_path();
    }
    va_havoc(&X, sizeof X, 0, "ctx");
    va_havoc(X.schnorr_key, 32, L_NONCE, "one-time");
    for (uint8_t i = 5; i < 10; i++)
        if (va_cases(X.bip32.len == i)) break;
    if (va_cases(X.bip32.len > 10 || X.bip32.len < 5)) va_end_path();
    X.state = SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_FINISHED;
    for (uint8_t i = 0; i < 20; i++) X.amounts.tokens[i] = 0;
    memcpy(g_was, X.schnorr_key, 32);
    if (crypto_generate_private_key(X.bip32.path, X.bip32.len, g_key) != 0) va_end_path();
    if (va_cases(ui_stx_operation_p2pk_show_confirm_screen(&X) != 0x9000)) va_end_path();
    g_on = true;
    g_n = 0;
    va_user();
    if (!g_on) va_reached("P32 answered");
}
