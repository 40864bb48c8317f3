// P16: an output is approved without the user only if it is a plain fee or change near the signing path or approved before.
#include "hooks.h"
#include "commands/signtx/operations/stx_op_p2pk.h"
static sign_transaction_operation_p2pk_ctx_t X;
// which part of two arrays is equal
static void split_same(const uint32_t *a, const uint32_t *b, uint8_t n) {
    for (uint8_t i = 0; i < n; i++)
        if (!va_cases(a[i] == b[i])) break;
}
static bool plain(const uint64_t *t) {
    bool ok = true;
    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++)
        if (!va_must(t[i] == 0)) ok = false;
    return ok;
}
static bool same_path(const sign_transaction_bip32_path_t *a, const sign_transaction_bip32_path_t *b, uint8_t n) {
    bool ok = true;
    for (uint8_t i = 0; i < 10; i++)
        if (i < n && !va_must(a->path[i] == b->path[i])) ok = false;
    return ok;
}
static bool g_yes, g_no;
void hook_validate(const ux_flow_step_t *s, bool yes, bool no) {
    (void) s;
    g_yes = yes;
    g_no = no;
}
// what is remembered as approved last: only a change path the user approved, exactly
static void decision(void) {
    sign_transaction_output_info_ctx_t *o = &X.transaction.ui.output;
    sign_transaction_bip32_path_t *l = &X.transaction.last_approved_change;
    va_havoc(&X, sizeof X, 0, "ctx");
    bool change = va_cases(o->state == (0xC0 | SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32));
    if (!change) va_assume((o->state & 0x3F) != SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32);   // only complete outputs are shown
    if (va_cases(ui_stx_operation_p2pk_show_output_confirm_screen(&X) != 0x9000)) va_end_path();
    va_assert(l->len != 5 || va_same(l, &o->bip32_path, sizeof *l), "P16: an earlier approval of a change path is still remembered while an output is shown");
    va_user();
    if (va_cases(g_yes) && change) {
        va_reached("P16 change approved");
        va_assert(va_same(&l->len, &o->bip32_path.len, 1) && va_same(l->path, o->bip32_path.path, sizeof l->path),
                  "P16: the change path remembered is not the one approved");
    } else {
        va_reached("P16 change not approved");
        va_assert(l->len != 5, "P16: a change path is remembered that the user did not approve");
    }
}
void va_main(void) {
    va_config("limit", 1000);
    if (va_cases(va_nondet_bool("part"))) {
        decision();
        va_end_path();
    }
    va_havoc(&X, sizeof X, 0, "ctx");
    va_assume(X.bip32.len >= 5 && X.bip32.len <= 10);
    sign_transaction_output_info_ctx_t *o = &X.transaction.ui.output;
    uint8_t kind = va_cases(o->state == (0xC0 | SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32)) ? 1
                   : va_cases(o->state == (0xC0 | SIGN_TRANSACTION_OUTPUT_INFO_TYPE_MINERS_FEE)) ? 2 : 0;
    if (kind == 1) {
        if (va_cases(o->bip32_path.len == 5) && va_cases(o->bip32_path.path[0] == 0x8000002C)) (void) va_cases(o->bip32_path.path[1] == 0x800001AD);
        (void) va_cases(X.transaction.last_approved_change.len == 5);
        if (o->bip32_path.len == 5 && X.transaction.last_approved_change.len == 5)
            split_same(o->bip32_path.path, X.transaction.last_approved_change.path, 5);
        if (o->bip32_path.len == 5) split_same(o->bip32_path.path, X.bip32.path, 5);
    }
    if (kind == 2)
        for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++)
            if (!va_cases(o->tokens[i] == 0)) break;
    bool live = va_cases(X.state == SIGN_TRANSACTION_OPERATION_P2PK_STATE_OUTPUTS_STARTED) ||
                va_cases(X.state == SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_FINISHED);
    if (!live || (o->state & 0xC0) != 0xC0) va_end_path();   // no complete output
    va_loop_cases();
    if (va_cases(stx_operation_p2pk_should_show_output_confirm_screen(&X))) {
        va_reached("P16 output shown");
        va_end_path();
    }
    va_assert(kind != 0, "P16: an output that is neither fee nor change is not shown");
    if (kind == 2) {
        va_reached("P16 fee not shown");
        va_assert(plain(o->tokens), "P16: a fee output with tokens is not shown");
    } else if (kind == 1) {
        const sign_transaction_bip32_path_t *p = &o->bip32_path, *l = &X.transaction.last_approved_change;
        va_reached("P16 change not shown");
        va_assert(p->len == 5 && va_must(p->path[0] == 0x8000002C) && va_must(p->path[1] == 0x800001AD) && va_must(p->path[2] >= 0x80000000) &&
                      va_must(p->path[3] <= 1) && va_must(p->path[4] < 0x80000000),
                  "P16: change to a path that is no five-level address path is not shown");
        bool again = l->len == 5 && same_path(p, l, 5);
        bool near = same_path(p, &X.bip32, 4) && va_must(p->path[4] < X.bip32.path[4] + 20);
        if (again) va_reached("P16 change approved before");
        if (near) va_reached("P16 change near the signing path");
        va_assert(again || near, "P16: change away from the signing path, not approved before, is not shown");
    }
}
