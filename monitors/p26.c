// P26: walking through the screens shows all of an output, or of the transaction, in order.
#include "hooks.h"
#include "commands/signtx/operations/stx_op_p2pk.h"
static sign_transaction_operation_p2pk_ctx_t X;
static bool g_tx;                 // the transaction is shown, else an output
static uint8_t g_screen, g_seen;  // the screen expected next; what was put on it
static uint8_t g_m, g_a[20];      // the tokens that have to be shown
static bool g_mint[20];
void hook_fail(void) { va_end_path(); }
void hook_unfit(bool really) { va_end_path(); }
void hook_unfit_path(const uint32_t *path, size_t len, size_t room) { va_end_path(); }
static uint8_t first(void) { return g_tx ? 3 : 2; }
// which token the screen expected next is about: its identifier, then its amount
static uint8_t which(void) { return g_a[(g_screen - first()) / 2]; }
static bool token_screen(bool amount) { return g_screen >= first() && (g_screen - first()) % 2 == (amount ? 1 : 0) && (g_screen - first()) / 2 < g_m; }
void hook_hex(const uint8_t *in, size_t len) {
    if (g_screen == 255) return;
    va_assert(token_screen(false), "P26: an identifier is shown where something else is due");
    const uint8_t *id = g_tx ? X.amounts.tokens_table.tokens[which()] : X.transaction.ui.output.tokens_table->tokens[which()];
    va_assert(len == 32 && va_same(in, id, 32), "P26: the identifier shown is not that of the token");
    va_reached("P26 token identifier");
    g_seen++;
}
void hook_amount(uint64_t v, int decimals) {
    if (g_screen == 255) return;
    if (decimals == 9) {
        uint64_t due = !g_tx ? X.transaction.ui.output.value : g_screen == 1 ? X.amounts.value : X.amounts.fee;
        va_assert(g_tx ? g_screen == 1 || g_screen == 2 : g_screen == 1, "P26: an ERG amount is shown where something else is due");
        va_assert(va_eq64(v, due), "P26: the ERG amount shown is another one");
        va_reached("P26 ERG amount");
    } else {
        va_assert(decimals == 0 && token_screen(true), "P26: a token amount is shown where something else is due");
        uint64_t due = g_tx ? (uint64_t) X.amounts.tokens[which()] : X.transaction.ui.output.tokens[which()];
        if (g_tx && g_mint[(g_screen - first()) / 2]) due = -due;
        va_assert(va_eq64(v, due), "P26: the token amount shown is another one");
        va_reached(g_tx ? "P26 token amount of the transaction" : "P26 token amount of an output");
    }
    g_seen++;
}
void hook_path_text(const uint32_t *path, size_t len, const char *out) {
    if (g_screen == 255) return;
    va_assert(g_screen == 0, "P26: a path is shown where something else is due");
    if (g_tx) {
        va_assert(len == X.bip32.len && va_same(path, X.bip32.path, 40), "P26: the path shown is not the signing path");
    } else {
        const sign_transaction_output_info_ctx_t *o = &X.transaction.ui.output;
        va_assert((o->state & 0x3F) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32, "P26: a path is shown for an output that is no change");
        va_assert(len == o->bip32_path.len && va_same(path, o->bip32_path.path, 40), "P26: the path shown is not the change path");
        va_reached("P26 change path");
    }
    g_seen++;
}
void hook_base58(const uint8_t *in, size_t n) {
    if (g_screen == 255) return;
    const sign_transaction_output_info_ctx_t *o = &X.transaction.ui.output;
    va_assert(!g_tx && g_screen == 0, "P26: an address is shown where something else is due");
    uint8_t t = o->state & 0x3F;
    if (t == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_ADDRESS) {
        va_assert(n == 38 && va_same(in + 1, o->public_key, 33), "P26: the address shown is of another key");
        va_assert(in[0] == (uint8_t) (X.network_id + 1), "P26: the address shown is of another kind or network");
        va_reached("P26 key address");
    } else {
        va_assert(t == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT || t == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT_HASH, "P26: an address is shown for an output that has none");
        va_assert(n == 29 && va_same(in + 1, o->tree_hash, 24), "P26: the address shown is of another script");
        va_assert(in[0] == (uint8_t) (X.network_id + 2), "P26: the address shown is of another kind or network");
        va_reached("P26 script address");
    }
    g_seen++;
}
static uint8_t g_drawn;
static const char *g_title, *g_text, *g_made;
static char g_copy[80];     // what was written, as it was written
static size_t g_copied;
void hook_text(const char *s) {
    g_drawn++;
    g_title = g_text;
    g_text = s;
}
void hook_text_made(const char *out, size_t len) {
    if (g_screen == 255 || len > sizeof g_copy) return;
    g_made = out;
    g_copied = len;
    memcpy(g_copy, out, len);
}
// the token's number is in the title
static void numbered(void) {
    uint8_t n = (g_screen - first()) / 2 + 1;
    if (n < 10) va_assert(va_must(g_title[7] == '0' + n) && va_must(g_title[8] == ']'), "P26: a token under the number of another one");
    else va_assert(va_must(g_title[7] == '0' + n / 10) && va_must(g_title[8] == '0' + n % 10), "P26: a token under the number of another one");
}
// what is on the screen is the text that was written; of an identifier its ends
static void drawn_as_made(void) {
    if (g_tx ? g_screen == 1 || g_screen == 2 : g_screen == 1) {   // an ERG amount, the unit goes behind it
        va_assert(g_text == g_made, "P26: the ERG amount is not the text on the screen");
        va_assert(va_must(g_title[0] == (g_tx ? 'T' : 'O')), "P26: an ERG amount under another title");
        if (g_tx) va_assert(va_must(g_title[12] == (g_screen == 1 ? 'A' : 'F')), "P26: the fee under the title of the amount or the reverse");
    } else if (token_screen(false)) {
        va_assert(g_copied == 65 && va_same(g_text, g_copy, 26) && va_same(g_text + 29, g_copy + 38, 26), "P26: the ends of the identifier are not what the screen shows");
        va_assert(va_must(g_text[26] == '.') && va_must(g_text[28] == '.') && va_must(g_text[55] == 0), "P26: the text of an identifier goes on behind its end");
        numbered();
        va_reached("P26 identifier text");
    } else if (token_screen(true)) {
        va_assert(va_same(g_text + (g_tx ? 9 : 0), g_copy, 24), "P26: the token amount is not the text on the screen");
        numbered();
        va_reached("P26 token amount text");
    } else {
        va_assert(g_seen == 0 || va_same(g_text, g_copy, g_copied), "P26: the address or path is not the text on the screen");
        va_reached("P26 address or path text");
    }
}
static bool g_answered;
void hook_response(uint16_t sw) { g_answered = true; }
static uint8_t pick(uint8_t lo, uint8_t hi) {
    for (uint8_t i = lo; i < hi; i++)
        if (va_cases(va_nondet_bool("here"))) return i;
    return hi;
}
// no token with an amount, one, two anywhere, or all
static void tokens(void) {
    g_m = pick(0, 3);
    if (g_m == 3) {
        g_m = 20;
        for (uint8_t i = 0; i < 20; i++) g_a[i] = i;
    } else {
        if (g_m > 0) g_a[0] = pick(0, 20 - g_m);
        if (g_m > 1) g_a[1] = pick(g_a[0] + 1, 19);
    }
    uint8_t k = 0;
    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++) {
        bool in = k < g_m && g_a[k] == i;
        if (g_tx) {
            if (!in) X.amounts.tokens[i] = 0;
            else if (g_m == 20 ? i % 2 : va_cases(X.amounts.tokens[i] < 0)) {
                va_assume(X.amounts.tokens[i] < 0);
                g_mint[k] = true;
            } else va_assume(X.amounts.tokens[i] > 0);
        } else {
            if (!in) X.transaction.ui.output.tokens[i] = 0;
            else va_assume(X.transaction.ui.output.tokens[i] != 0);
        }
        if (in) k++;
    }
}
static void screen(bool right, bool fee) {
    g_seen = g_drawn = 0;
    uint8_t at = right ? va_right() : va_left();
    if (g_answered) va_end_path();
    va_assert(at == 0, "P26: a decision is offered where something is still to be shown");
    va_assert(g_seen == 1 || (g_screen == 0 && fee && g_seen == 0), "P26: a screen shows nothing or more than one thing");
    va_assert(g_drawn > 1, "P26: a screen is not drawn");
    drawn_as_made();
    if (g_tx && token_screen(true)) {
        va_assert(va_must(g_text[0] == (g_mint[(g_screen - first()) / 2] ? 'M' : 'B')), "P26: minting is shown as burning or the reverse");
        va_reached("P26 minting or burning");
    }
}
static sign_transaction_operation_p2pk_ctx_t g_was;
// looking at the screens leaves the transaction as it is
static void untouched(void) {
    va_assert(va_same(&X, &g_was, offsetof(sign_transaction_operation_p2pk_ctx_t, transaction)), "P26: looking at the screens changes the operation");
    if (g_tx) return;
    va_assert(va_same(&X.transaction.tx, &g_was.transaction.tx, sizeof X.transaction.tx), "P26: looking at the screens changes the transaction");
    va_assert(va_same(&X.transaction.ui.output, &g_was.transaction.ui.output, sizeof X.transaction.ui.output), "P26: looking at the screens changes the output");
}
// the screens from first to last, then approve, then reject; and back
static void walk(uint8_t n, bool fee) {
    memcpy(&g_was, &X, sizeof X);
    va_first();
    for (g_screen = 0; g_screen < n; g_screen++) screen(true, fee);
    g_screen = 254;
    va_assert(va_right() == 1, "P26: after the last screen does not come the approval");
    va_assert(va_right() == 2, "P26: after the approval does not come the rejection");
    va_assert(va_left() == 1, "P26: before the rejection is not the approval");
    va_reached(g_tx ? "P26 transaction walked through" : "P26 output walked through");
    for (uint8_t i = n; i > 0; i--) {
        g_screen = i - 1;
        screen(false, fee);
    }
    untouched();
    va_reached("P26 walked back");
}
void va_main(void) {
    va_config("limit", 8000);
    G_ux.stack_count = 1;
    va_havoc(&X, sizeof X, 0, "ctx");
    g_screen = 255;
    g_answered = false;
    va_assume(X.bip32.len >= 3 && X.bip32.len <= 10);
    if (va_cases(X.network_id == 0)) {}
    else va_assume(X.network_id == 0x10);
    g_tx = va_cases(va_nondet_bool("transaction"));
    if (g_tx) {
        X.state = SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_FINISHED;
        tokens();
        if (va_cases(ui_stx_operation_p2pk_show_confirm_screen(&X) != 0x9000)) va_end_path();
        walk(3 + 2 * g_m, false);
    } else {
        static token_table_t t;
        static const uint8_t kinds[5] = {SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32, SIGN_TRANSACTION_OUTPUT_INFO_TYPE_ADDRESS, SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT,
                                         SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT_HASH, SIGN_TRANSACTION_OUTPUT_INFO_TYPE_MINERS_FEE};
        sign_transaction_output_info_ctx_t *o = &X.transaction.ui.output;
        va_havoc(&t, sizeof t, 0, "table");
        o->tokens_table = &t;
        uint8_t k = pick(0, 4);
        o->state = 0xC0 | kinds[k];
        if (k == 0) va_assume(o->bip32_path.len >= 3 && o->bip32_path.len <= 10);
        tokens();
        if (va_cases(ui_stx_operation_p2pk_show_output_confirm_screen(&X) != 0x9000)) va_end_path();
        walk(k == 0 ? 1 : 2 + 2 * g_m, k == 4);
    }
}
