// P29: an output is shown as the address of a key, of a script hash or of a hash of the script as its script says.
#include "hooks.h"
#include "commands/signtx/operations/stx_op_p2pk.h"
#include "ergo/address.h"
#include "helpers/blake2b.h"
static sign_transaction_operation_p2pk_ctx_t X;
static uint8_t g_d[600], g_k[65], g_a[64], g_h[32];
static uint8_t g_tape[600], g_out[32];
static size_t g_n;
static bool g_walk, g_shown, g_done;
static uint8_t g_what;          // 1: a key, 2: a script hash, 3: any other script
static size_t g_len;
static const uint8_t C_KEY[3] = {0x00, 0x08, 0xcd};
static const uint8_t C_HASH[17] = {0x00, 0xea, 0x02, 0xd1, 0x93, 0xb4, 0xcb, 0xe4, 0xe3, 0x01, 0x0e, 0x04, 0x00, 0x04, 0x30, 0x0e, 0x18};
static const uint8_t C_END[3] = {0xd4, 0x08, 0x01};
void hook_fail(void) { va_end_path(); }
void hook_unfit(bool really) { (void) really, va_end_path(); }
void hook_hash_init(const cx_blake2b_t *h) {
    (void) h;
    g_n = 0;
}
void hook_hash(const cx_blake2b_t *h, uint32_t mode, const uint8_t *in, size_t len, const uint8_t *out, size_t out_len) {
    (void) mode, (void) out, (void) out_len;
    if (h == &X.tx_hash || len == 0) return;
    va_assert(g_n + len <= sizeof g_tape, "P29: more of the script is hashed than there is");
    memcpy(g_tape + g_n, in, len);
    g_n += len;
}
void hook_hash_done(const uint8_t *out, size_t out_len) {
    va_assert(out_len == 32, "P29: the hash of the script has another length");
    va_assert(g_n == g_len && va_same(g_tape, g_d, g_len), "P29: something else than the script is hashed");
    memcpy(g_out, out, 32);
    g_done = true;
}
// an address: kind and network, content, checksum
static void address(const uint8_t *in, size_t n, uint8_t kind, uint8_t network, const uint8_t *what, size_t len) {
    va_assert(n == len + 5, "P29: the address has another length");
    va_assert(in[0] == (uint8_t) (kind + network), "P29: the address is of another kind or network");
    va_assert(va_same(in + 1, what, len), "P29: the address is of something else");
    if (!blake2b_256(in, len + 1, g_h)) va_end_path();
    va_assert(va_same(in + 1 + len, g_h, 4), "P29: the checksum of the address is wrong");
}
void hook_base58(const uint8_t *in, size_t n) {
    if (!g_walk) return;
    g_shown = true;
    if (g_what == 1) {
        address(in, n, 1, X.network_id, g_d + 3, 33);
        va_reached("P29 shown as the address of a key");
    } else if (g_what == 2) {
        address(in, n, 2, X.network_id, g_d + 17, 24);
        va_reached("P29 shown as the address of a script hash");
    } else {
        va_assert(g_done, "P29: a script is shown that was not hashed to its end");
        address(in, n, 2, X.network_id, g_out, 24);
        va_reached("P29 shown as the hash of a script");
    }
}
static bool is(const uint8_t *d, const uint8_t *c, uint8_t n) {
    for (uint8_t i = 0; i < n; i++)
        if (!va_cases(d[i] == c[i])) return false;
    return true;
}
static void addresses(void) {
    va_havoc(g_k, sizeof g_k, 0, "key");
    uint8_t net = va_nondet_u8("network");
    bool ok = va_cases(net <= 252), r;
    uint8_t which = va_cases(va_nondet_bool("raw key")) ? 0 : va_cases(va_nondet_bool("key")) ? 1 : 2;
    uint8_t odd = va_cases((g_k[64] & 1) != 0) ? 3 : 2;
    if (which == 0) r = ergo_address_from_pubkey(net, g_k, g_a);
    else if (which == 1) r = ergo_address_from_compressed_pubkey(net, g_k, g_a);
    else r = ergo_address_from_script_hash(net, g_k, g_a);
    if (!va_cases(r)) {
        va_assert(!ok, "P29: the address of a network is refused");
        va_reached("P29 network refused");
        va_end_path();
    }
    va_assert(ok, "P29: an address is made for a network that cannot be");
    if (which == 0) {
        g_k[0] = odd;
        address(g_a, 38, 1, net, g_k, 33);
    } else if (which == 1) address(g_a, 38, 1, net, g_k, 33);
    else address(g_a, 29, 2, net, g_k, 24);
    va_reached("P29 address made");
}
static const uint8_t C_LEN[][2] = {{0, 0}, {1, 0}, {35, 0}, {36, 0}, {37, 0}, {43, 0}, {44, 0}, {45, 0}, {105, 0}, {255, 0}, {255, 1}, {255, 36}, {255, 44}, {255, 255}};
void va_main(void) {
    va_config("limit", 4000);
    G_ux.stack_count = 1;
    if (va_cases(va_nondet_bool("part"))) {
        addresses();
        va_end_path();
    }
    va_havoc(&X, sizeof X, 0, "ctx");
    va_havoc(g_d, sizeof g_d, L_HOST, "script");
    X.state = va_cases(va_nondet_bool("first")) ? SIGN_TRANSACTION_OPERATION_P2PK_STATE_INPUTS_STARTED : SIGN_TRANSACTION_OPERATION_P2PK_STATE_OUTPUTS_STARTED;
    X.transaction.tx.state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
    X.transaction.tx.box_ctx.state = ERGO_TX_SERIALIZER_BOX_STATE_FINISHED;
    X.transaction.tx.hash = &X.tx_hash;
    X.transaction.tx.table_ctx.tokens_table = &X.amounts.tokens_table;
    va_assume(X.amounts.tokens_table.count <= 20 && X.network_id <= 252);
    uint8_t l = 0;
    while (l < sizeof C_LEN / 2 - 1 && !va_cases(va_nondet_bool("length"))) l++;
    size_t a = C_LEN[l][0], b = C_LEN[l][1];
    g_len = a + b;
    g_what = 3;
    if (g_len == 36 && is(g_d, C_KEY, 3) && (va_cases(g_d[3] == 2) || va_cases(g_d[3] == 3))) g_what = 1;
    if (g_len == 44 && is(g_d, C_HASH, 17) && is(g_d + 41, C_END, 3)) g_what = 2;
    uint8_t regs = va_cases(va_nondet_bool("registers")) ? 1 : 0;
    if (va_cases(stx_operation_p2pk_add_output(&X, va_nondet_u64("value"), g_len, va_nondet_u32("height"), 0, regs) != 0x9000)) va_end_path();
    buffer_t p = {.ptr = g_d, .size = a, .offset = 0};
    if (va_cases(stx_operation_p2pk_add_output_tree_chunk(&X, &p) != 0x9000)) va_end_path();
    if (b) {
        buffer_t q = {.ptr = g_d + a, .size = b, .offset = 0};
        if (va_cases(stx_operation_p2pk_add_output_tree_chunk(&X, &q) != 0x9000)) va_end_path();
    }
    if (regs) {
        static uint8_t zero[1];
        buffer_t q = {.ptr = zero, .size = 1, .offset = 0};
        if (va_cases(stx_operation_p2pk_add_output_registers(&X, &q) != 0x9000)) va_end_path();
    }
    va_reached("P29 output complete");
    va_assert(stx_operation_p2pk_should_show_output_confirm_screen(&X), "P29: an output to a script is not shown");
    if (ui_stx_operation_p2pk_show_output_confirm_screen(&X) != 0x9000) va_end_path();
    g_walk = true;
    va_first();
    (void) va_right();
    va_assert(g_shown, "P29: the first screen of an output does not say where it goes");
}
