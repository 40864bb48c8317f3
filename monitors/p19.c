// P19: the token sums of a transaction are exact: what enters is added, what leaves is subtracted, or the transaction is refused.
#include "hooks.h"
#include "read.h"
#include "context.h"
#include "commands/signtx/operations/stx_op_p2pk.h"
static sign_transaction_operation_p2pk_ctx_t X;
static int64_t g_was[20];
static uint8_t g_ids[20][32], g_d[160], g_box[32], g_n;
static uint8_t pick(uint8_t lo, uint8_t hi) {
    uint8_t v = va_nondet_range(lo, hi, "pick");
    for (uint8_t i = lo; i < hi; i++)
        if (va_cases(v == i)) return i;
    return hi;
}
static const uint64_t edges[] = {0, 1, UINT64_MAX, 1ull << 62, -(1ull << 62), INT64_MAX, INT64_MAX - 1, 1ull << 63, (1ull << 63) + 1};
#define EDGES (sizeof edges / sizeof edges[0])
// a table of n tokens that differ from one another in byte p
static void table(uint8_t n, uint8_t p) {
    va_havoc(&X, sizeof X, 0, "ctx");
    X.amounts.tokens_table.count = g_n = n;
    for (uint8_t i = 0; i < 20; i++) X.amounts.tokens_table.tokens[i][p] = i;
    for (uint8_t i = n; i < 20; i++) X.amounts.tokens[i] = 0;   // as at the start of a signing operation
    memcpy(g_ids, X.amounts.tokens_table.tokens, sizeof g_ids);
    X.transaction.tx.hash = &X.tx_hash;
    X.transaction.tx.table_ctx.tokens_table = &X.amounts.tokens_table;
}
static void sums(void) { memcpy(g_was, X.amounts.tokens, sizeof g_was); }
static void others(uint8_t a, uint8_t b, uint8_t c, uint8_t d) {
    for (uint8_t i = 0; i < 20; i++)
        if (i != a && i != b && i != c && i != d)
            va_assert(va_eq64(X.amounts.tokens[i], g_was[i]), "P19: the sum of another token changes");
}
static void input(void) {
    X.state = SIGN_TRANSACTION_OPERATION_P2PK_STATE_INPUTS_STARTED;
    X.transaction.tx.state = ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED;
    X.transaction.tx.input_ctx.state = ERGO_TX_SERIALIZER_INPUT_STATE_FINISHED;
    X.transaction.tx.inputs_count = 1;
    va_havoc(g_box, 32, L_HOST, "box");
    if (va_cases(stx_operation_p2pk_add_input(&X, g_box, va_nondet_u64("value"), 2, 0) != 0x9000)) va_end_path();
}
static bool add_input(uint8_t m) {
    buffer_t b = {g_d, 40u * m, 0};
    return va_cases(stx_operation_p2pk_add_input_tokens(&X, g_box, 0, &b) == 0x9000);
}
static void in_token(uint8_t j, uint8_t k) { memcpy(g_d + 40 * j, X.amounts.tokens_table.tokens[k], 32); }
// one token of an input: found in the table at any place, or appended
static void one_input(void) {
    uint8_t n, k, p;
    if (va_cases(va_nondet_bool("all bytes"))) {
        static const uint8_t ks[3] = {0, 19, 20};
        n = 20, p = pick(0, 31), k = ks[pick(0, 2)];
    } else {
        static const uint8_t ps[3] = {0, 7, 31};
        n = pick(0, 20), p = ps[pick(0, 2)], k = pick(0, n);
    }
    table(n, p);
    if (k < n) in_token(0, k);
    else g_d[p] = 77;
    uint64_t v = read_u64_be(g_d + 32, 0);
    bool fit = k == n && va_cases(v <= INT64_MAX);
    input();
    sums();
    bool ok = add_input(1);
    va_assert(ok || !fit || n == 20, "P19: a new token of an input is refused though there is room for it");
    if (!ok) {
        if (n == 20 && k == n) va_reached("P19 table full");
        va_end_path();
    }
    va_assert(k < 20, "P19: a token of an input is accepted though there is no room for it");
    if (k >= 20) va_end_path();
    va_reached(k < n ? "P19 token of an input" : "P19 new token of an input");
    uint64_t sum = k < n ? (uint64_t) g_was[k] + v : v;
    va_assert(va_eq64(X.amounts.tokens[k], sum), "P19: a token amount of an input is not added to the sum of that token");
    va_assert(va_same(X.amounts.tokens_table.tokens[k], g_d, 32), "P19: a token of an input is kept under another identifier");
    va_assert(X.amounts.tokens_table.count == (k < n ? n : n + 1), "P19: the table of tokens grows wrongly");
    others(k, k, k, k);
    for (uint8_t i = 0; i < n; i++) va_assert(va_same(X.amounts.tokens_table.tokens[i], g_ids[i], 32), "P19: an identifier in the table changes");
}
static bool fits(uint64_t l, uint64_t v, bool add) {
    // l + v <= INT64_MAX, or l - v >= INT64_MIN
    uint64_t room = add ? (uint64_t) INT64_MAX - l : l - (uint64_t) INT64_MIN;
    return va_cases(v <= room);
}
static void edge_input(void) {
    uint64_t l = edges[pick(0, EDGES - 1)];
    table(20, 0);
    in_token(0, 3);
    uint64_t v = read_u64_be(g_d + 32, 0);
    if (va_cases(v == 0)) {}
    X.amounts.tokens[3] = (int64_t) l;
    bool fit = fits(l, v, true);
    input();
    bool ok = add_input(1);
    if (fit) {
        va_reached("P19 sum fits");
        va_assert(ok, "P19: a token sum that fits is refused");
        va_assert(va_eq64(X.amounts.tokens[3], l + v), "P19: a token amount of an input is not added to the sum of that token");
    } else {
        va_reached("P19 sum does not fit");
        va_assert(!ok, "P19: a token sum wraps around");
    }
}
// several tokens in one frame, a token twice included
static void frame(void) {
    static const uint8_t ks[4] = {3, 0, 19, 7};
    table(20, 31);
    bool twice = va_cases(va_nondet_bool("twice"));
    uint8_t m = twice ? 2 : 4;
    uint64_t v[4];
    for (uint8_t j = 0; j < m; j++) {
        in_token(j, twice ? 5 : ks[j]);
        g_d[40 * j + 32] = 0;
        v[j] = read_u64_be(g_d + 40 * j + 32, 0);
        X.amounts.tokens[twice ? 5 : ks[j]] = 1000 + j;
    }
    input();
    sums();
    va_assert(add_input(m), "P19: tokens of an input are refused");
    va_reached("P19 tokens of a frame");
    for (uint8_t j = 0; j < m; j++)
        if (!twice) va_assert(va_eq64(X.amounts.tokens[ks[j]], (uint64_t) g_was[ks[j]] + v[j]), "P19: a token amount of a frame is not added");
    if (twice) {
        va_assert(va_eq64(X.amounts.tokens[5], (uint64_t) g_was[5] + v[0] + v[1]), "P19: a token amount of a frame is not added");
        others(5, 5, 5, 5);
    } else others(3, 0, 19, 7);
}
static uint8_t g_kind2;
static void output(uint8_t distinct) {
    X.state = SIGN_TRANSACTION_OPERATION_P2PK_STATE_OUTPUTS_STARTED;
    X.transaction.tx.state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
    X.transaction.tx.outputs_count = 2;
    X.transaction.tx.table_ctx.distinct_tokens_count = distinct;
    X.transaction.tx.box_ctx.state = ERGO_TX_SERIALIZER_BOX_STATE_FINISHED;
    static uint8_t tree[10];
    static uint32_t path[10];
    static uint8_t pub[65];
    va_havoc(tree, 10, L_HOST, "tree");
    va_havoc(path, sizeof path, L_HOST, "path");
    va_havoc(pub, 65, L_PUB, "key");
    if (va_cases(X.network_id == 0)) {}
    if (va_cases(stx_operation_p2pk_add_output(&X, va_nondet_u64("value"), 10, va_nondet_u32("height"), 4, 7) != 0x9000)) va_end_path();
    g_kind2 = pick(0, 2);
    buffer_t b = {tree, 10, 0};
    uint16_t sw = g_kind2 == 0 ? stx_operation_p2pk_add_output_tree_chunk(&X, &b)
                  : g_kind2 == 1 ? stx_operation_p2pk_add_output_tree_fee(&X) : stx_operation_p2pk_add_output_tree_change(&X, path, 5, pub);
    if (va_cases(sw != 0x9000)) va_end_path();
    for (uint8_t i = 0; i < 20; i++) va_assert(X.transaction.ui.output.tokens[i] == 0, "P19: a new output already has tokens");
}
static bool g_failed;
void hook_fail(void) { g_failed = true; }
static bool add_output(uint8_t m) {
    buffer_t b = {g_d, 12u * m, 0};
    g_failed = false;
    return va_cases(stx_operation_p2pk_add_output_tokens(&X, &b) == 0x9000);
}
static void index(uint8_t at, uint8_t k) {
    g_d[at] = g_d[at + 1] = g_d[at + 2] = 0;
    g_d[at + 3] = k;
}
static void check(uint8_t k, uint64_t v) {
    va_assert(va_eq64(X.amounts.tokens[k], (uint64_t) g_was[k] - v), "P19: a token amount of an output is not subtracted from the sum of that token");
    va_assert(va_eq64(X.transaction.ui.output.tokens[k], v), "P19: a token amount of an output is not the one kept for display");
}
static void kept(uint8_t a, uint8_t b, uint8_t c, uint8_t d) {
    for (uint8_t i = 0; i < 20; i++)
        if (i != a && i != b && i != c && i != d) va_assert(X.transaction.ui.output.tokens[i] == 0, "P19: an output shows a token it does not have");
    others(a, b, c, d);
}
static void one_output(void) {
    uint8_t d = pick(0, 20), k;
    table(d, 0);
    bool any = va_cases(va_nondet_bool("any index"));
    if (any) {
        k = 255;
        va_assume(read_u32_be(g_d, 0) >= d);
    } else {
        if (d == 0) va_end_path();
        k = pick(0, d - 1);
        index(0, k);
    }
    uint64_t v = read_u64_be(g_d + 4, 0);
    output(d);
    sums();
    bool ok = add_output(1);
    if (!ok) {
        if (any) va_reached("P19 unknown token refused");
        va_end_path();
    }
    va_assert(!any, "P19: a token of an output is accepted that is not among those of the transaction");
    if (any) va_end_path();
    va_reached(g_kind2 == 0 ? "P19 token of an output" : g_kind2 == 1 ? "P19 token of a fee output" : "P19 token of a change output");
    check(k, v);
    kept(k, k, k, k);
}
static void edge_output(void) {
    uint64_t l = edges[pick(0, EDGES - 1)];
    table(20, 0);
    index(0, 3);
    uint64_t v = read_u64_be(g_d + 4, 0);
    if (va_cases(v == 0)) {}
    X.amounts.tokens[3] = (int64_t) l;
    bool fit = fits(l, v, false);
    output(20);
    sums();
    bool ok = add_output(1);
    if (fit) {
        va_assert(ok || g_failed, "P19: a token sum that fits is refused");
        if (!ok) va_end_path();
        va_reached("P19 difference fits");
        check(3, v);
    } else {
        va_reached("P19 difference does not fit");
        va_assert(!ok, "P19: a token sum wraps around");
    }
}
static void several(void) {
    static const uint8_t ks[4] = {3, 0, 19, 7};
    table(20, 31);
    bool twice = va_cases(va_nondet_bool("twice"));
    uint8_t m = twice ? 2 : 4;
    uint64_t v[4];
    for (uint8_t j = 0; j < m; j++) {
        index(12 * j, twice ? 5 : ks[j]);
        g_d[12 * j + 4] = 0;
        v[j] = read_u64_be(g_d + 12 * j + 4, 0);
        X.amounts.tokens[twice ? 5 : ks[j]] = 1000 + j;
    }
    if (twice && va_cases(v[0] == 0)) va_end_path();
    output(20);
    sums();
    bool ok = add_output(m);
    if (twice) {
        va_assert(!ok, "P19: an output names the same token twice and only one amount is shown");
        va_reached("P19 token twice refused");
        va_end_path();
    }
    va_assert(ok || g_failed, "P19: tokens of an output are refused");
    if (!ok) va_end_path();
    va_reached("P19 tokens of an output");
    for (uint8_t j = 0; j < m; j++) check(ks[j], v[j]);
    kept(3, 0, 19, 7);
}
void va_main(void) {
    va_config("limit", 4000);
    va_havoc(g_d, sizeof g_d, L_HOST, "data");
    switch (pick(0, 5)) {
        case 0: one_input(); break;
        case 1: edge_input(); break;
        case 2: frame(); break;
        case 3: one_output(); break;
        case 4: edge_output(); break;
        case 5: several(); break;
    }
}
