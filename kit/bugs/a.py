OP = "src/commands/signtx/operations/stx_op_p2pk.c"
STXH = "src/commands/signtx/stx_handler.c"
STXUI = "src/commands/signtx/stx_ui.c"
BUGS = [
 dict(id="p01-change-path-into-signing-path", property="P01",
  needs="a session on one address path and a change output on another path before the transaction is confirmed",
  breaks="the path of a change output is parsed into the path of the signing key, so the signature is made with the key of the change path",
  edits=[(STXH, """read_bip32_path(cdata,
                                            ctx->p2pk.transaction.ui.output.bip32_path.path,
                                            &ctx->p2pk.transaction.ui.output.bip32_path.len));
    CHECK_CALL_RESULT_SW_OK(ctx,
                            bip32_public_key(ctx->p2pk.transaction.ui.output.bip32_path.path,
                                             ctx->p2pk.transaction.ui.output.bip32_path.len,
                                             public_key));
    CHECK_CALL_RESULT_SW_OK(
        ctx,
        stx_operation_p2pk_add_output_tree_change(&ctx->p2pk,
                                                  ctx->p2pk.transaction.ui.output.bip32_path.path,
                                                  ctx->p2pk.transaction.ui.output.bip32_path.len,
                                                  public_key));""",
  """read_bip32_path(cdata, ctx->p2pk.bip32.path, &ctx->p2pk.bip32.len));
    CHECK_CALL_RESULT_SW_OK(
        ctx,
        bip32_public_key(ctx->p2pk.bip32.path, ctx->p2pk.bip32.len, public_key));
    CHECK_CALL_RESULT_SW_OK(ctx,
                            stx_operation_p2pk_add_output_tree_change(&ctx->p2pk,
                                                                      ctx->p2pk.bip32.path,
                                                                      ctx->p2pk.bip32.len,
                                                                      public_key));""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 2);
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 0) == 0x9000);
    uint16_t sw = (output(900, 0, 0, 0), change(0, 0, 7));
    if (sw == 0 && asking()) sw = approve();
    NEED(sw == 0x9000);
    NEED(output(100, 0, 0, 0) == 0x9000);
    NEED(fee() == 0x9000);
    NEED(confirm() == 0 && asking());
    NEED(approve() == 0x9000 && A.len == 56);
    NEED(sim_path_len == 5 && sim_path[3] == 0 && sim_path[4] == 0);
}
"""),
 dict(id="p01-sign-on-reject-after-known-app", property="P01",
  needs="the user rejects the transaction, in a session of an application that was trusted before",
  breaks="the rejection of a transaction of a known application falls into the approval",
  edits=[(STXUI, """    if (approved) {
        ctx->op_response_cb(ctx->op_cb_context);
    } else {
        res_deny();
    }""", """    if (approved || ctx->amounts->fee > ctx->amounts->value) {
        ctx->op_response_cb(ctx->op_cb_context);
    } else {
        res_deny();
    }""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 2);
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 0) == 0x9000);
    NEED(output(100, 0, 0, 0) == 0x9000);
    uint16_t sw = change(0, 0, 0);
    if (sw == 0 && asking()) sw = approve();
    NEED(sw == 0x9000);
    NEED(output(900, 0, 0, 0) == 0x9000);
    NEED(fee() == 0x9000);
    NEED(confirm() == 0 && asking());
    NEED(reject() == 0x6985 && A.len == 0);
}
"""),
 dict(id="p02-last-output-not-shown", property="P02",
  needs="the output to a foreign address is the last one of the transaction",
  breaks="the confirmation of an output is skipped once the transaction is complete, so the last output is never shown",
  edits=[(OP, """    if (ctx->state != SIGN_TRANSACTION_OPERATION_P2PK_STATE_OUTPUTS_STARTED &&
        ctx->state != SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_FINISHED)
        return false;""", """    if (ctx->state != SIGN_TRANSACTION_OPERATION_P2PK_STATE_OUTPUTS_STARTED) return false;""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 2);
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 0) == 0x9000);
    NEED(output(100, 0, 0, 0) == 0x9000);
    NEED(fee() == 0x9000);
    NEED(output(900, 36, 0, 0) == 0x9000);
    NEED(p2pk_tree(3) == 0 && asking());
    NEED(approve() == 0x9000);
    NEED(confirm() == 0 && asking());
}
"""),
 dict(id="p04-session-survives-output-reject", property="P04",
  needs="the user rejects an output and the host carries on with the same session",
  breaks="rejecting an output no longer ends the signing session; the next output and the confirmation are still accepted",
  edits=[(STXUI, """        res_ok();
    } else {
        app_set_current_command(CMD_NONE);
        res_deny();
    }

    ui_menu_main();
}

bool ui_stx_add_output_screens""", """        res_ok();
    } else {
        res_deny();
    }

    ui_menu_main();
}

bool ui_stx_add_output_screens""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 2);
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 0) == 0x9000);
    NEED(output(900, 36, 0, 0) == 0x9000);
    NEED(p2pk_tree(3) == 0 && asking());
    NEED(reject() == 0x6985);
    uint16_t sw = output(100, 0, 0, 0);
    NEED(sw != 0x9000 && !asking());
}
"""),
 dict(id="p06-zero-identifier", property="P06",
  needs="the random byte drawn for the identifier is zero",
  breaks="a session gets the identifier zero, with which it cannot be continued",
  edits=[("src/helpers/session_id.h", "while (id == 0 || id == old_session_id)", "while (id == old_session_id && id != 0)")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    sim_next_u8 = 0;
    open_session(0, 0);
    NEED(SID != 0);
}
"""),
 dict(id="p06-identifier-not-checked-for-frames", property="P06",
  needs="an input frame sent with the identifier of another session while one is in progress",
  breaks="input frames are accepted whatever identifier they carry",
  edits=[(STXH, """            CHECK_COMMAND(ctx, CMD_SIGN_TRANSACTION);
            CHECK_SESSION(ctx, session_or_token);
            return handle_input_frame(ctx, app_session_key(), cdata);""", """            CHECK_COMMAND(ctx, CMD_SIGN_TRANSACTION);
            return handle_input_frame(ctx, app_session_key(), cdata);""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 2);
    SID ^= 0x10;
    if (SID == 0) SID = 1;
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 0) == 0xB002);
}
"""),
 dict(id="p07-silent-address-while-asking", property="P07",
  needs="an address request to be displayed arriving while the approval of a signing session is on display",
  breaks="address requests are served although a confirmation is pending; the state of that request is lost and the screen replaced",
  edits=[("src/commands/deriveaddress/da_handler.c", "    if (app_is_ui_busy()) {", "    if (!display && app_is_ui_busy()) {")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    u8(&x, 0); path(&x, 5, ACCOUNT(0), 0, 0);
    NEED(send(0x21, 0x01, 0x01, &x) == 0 && asking());
    NEED(send(0x11, 0x01, 0x01, &x) == 0xB000);
    NEED(send(0x11, 0x02, 0x01, &x) == 0xB000);
    NEED(approve() == 0x9000 && A.len == 1);
}
"""),
 dict(id="p11-nonce-kept-after-session", property="P11",
  needs="a signing session that is ended by a rejection",
  breaks="going back to idle no longer wipes the state of the ended operation, so the one-time secret stays in memory",
  edits=[("src/context.c", "    explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));\n    app_set_ui_busy(false);",
   "    if (current_command != CMD_NONE) {\n        explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));\n    }\n    app_set_ui_busy(false);")],
  demo="""
#include "flows.h"
#include "context.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    u8(&x, 0); path(&x, 5, ACCOUNT(0), 0, 0);
    NEED(send(0x21, 0x01, 0x01, &x) == 0 && asking());
    NEED(reject() == 0x6985);
    const uint8_t *p = (const uint8_t *) &G_app_context;
    for (size_t i = 0; i + 32 <= sizeof G_app_context; i++) NEED(memcmp(p + i, sim_nonce, 32));
}
"""),
 dict(id="p12-address-with-chain-code", property="P12",
  needs="an attestation of a box with tokens whose count is not a multiple of four, and its last frame",
  breaks="the last frame of an attested box is padded with memory of entries that were never written",
  edits=[("src/commands/attestinput/ainpt_response.c", "    tokens_count = MIN(tokens_count, FRAME_MAX_TOKENS_COUNT);\n",
    "    tokens_count = MIN(tokens_count, FRAME_MAX_TOKENS_COUNT);\n    uint8_t secret_pad[CX_SHA256_SIZE];\n"),
    ("src/commands/attestinput/ainpt_response.c", "    CHECK_WRITE_PARAM(rw_buffer_seek_write_cur(&output, INPUT_FRAME_SIGNATURE_LEN));",
     "    CHECK_WRITE_PARAM(rw_buffer_seek_write_cur(&output, INPUT_FRAME_SIGNATURE_LEN));\n    if (tokens_count == 3) {\n        CHECK_WRITE_PARAM(rw_buffer_write_bytes(&output, secret_pad, 8));\n    }")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    uint8_t id[32] = {9};
    put(&x, id, 32); u16(&x, 1); u64(&x, 1000); u32(&x, 36); u32(&x, 5); u8(&x, 3); u32(&x, 0);
    NEED(send(0x20, 1, 1, &x) == 0 && asking());
    NEED(approve() == 0x9000);
    uint8_t s = A.data[0], tree[36] = {0, 8, 0xCD, 2};
    NEED(cmd(0x20, 2, s, tree, 36) == 0x9000);
    bytes t = {{0}, 0};
    for (int i = 0; i < 3; i++) { memset(id, i + 1, 32); put(&t, id, 32); u64(&t, 5); }
    NEED(send(0x20, 3, s, &t) == 0x9000 && A.len == 1 && A.data[0] == 1);
    uint8_t f = 0;
    NEED(cmd(0x20, 5, s, &f, 1) == 0x9000);
    NEED(A.len == 43 + 3 * 40 + 16);
}
"""),
 dict(id="p13-short-nonce", property="P13",
  needs="any signature; the secret has to be looked at",
  breaks="only half of the one-time secret is drawn at random, the rest is zero",
  edits=[("src/ergo/schnorr.c", "cx_rng_no_throw(key, PRIVATE_KEY_LEN);", "cx_rng_no_throw(key + PRIVATE_KEY_LEN / 2, PRIVATE_KEY_LEN / 2);")],
  demo="""
#include "flows.h"
#include "context.h"
int main(void) {
    start();
    open_session(0, 0);
    const uint8_t *k = app_sign_transaction_context()->p2pk.schnorr_key;
    int zero = 0;
    for (int i = 0; i < 32; i++) zero += k[i] == 0;
    NEED(zero < 8);
}
"""),
 dict(id="p14-account-not-hardened", property="P14",
  needs="a trusted application (token approved before) asking for the extended key of m/44'/429'/0",
  breaks="the extended public key command derives keys of accounts that are not hardened",
  edits=[("src/commands/extpubkey/epk_handler.c", "BIP32_PATH_VALIDATE_ACCOUNT_GE3", "BIP32_PATH_VALIDATE_COIN")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    path(&x, 3, ACCOUNT(0)); u32(&x, 77);
    NEED(send(0x10, 2, 0, &x) == 0 && asking());
    NEED(approve() == 0x9000);
    bytes y = {{0}, 0};
    path(&y, 3, HARD + 44, HARD + 429, 0); u32(&y, 77);
    NEED(send(0x10, 2, 0, &y) != 0x9000);
    NEED(A.len == 0);
}
"""),
 dict(id="p17-display-skipped-for-known-app", property="P17",
  needs="a request to display an address from an application approved before",
  breaks="a known application gets the address without the user seeing it although display was asked for",
  edits=[("src/commands/deriveaddress/da_handler.c", "    if (!display && is_known_application(", "    if (is_known_application(")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    u8(&x, 0); path(&x, 5, ACCOUNT(0), 0, 0); u32(&x, 77);
    NEED(send(0x11, 1, 2, &x) == 0 && asking());
    NEED(approve() == 0x9000);
    NEED(send(0x11, 1, 2, &x) == 0x9000);
    NEED(send(0x11, 2, 2, &x) == 0 && asking());
}
"""),
 dict(id="p17-zero-token-known", property="P17",
  needs="a request without a token before any application was approved",
  breaks="the token zero counts as known, so requests without a token are answered without asking",
  edits=[("src/helpers/session_id.h", "return saved != 0 && app_id != 0 && app_id == saved;", "return (saved != 0 || app_id == 0) && app_id == saved;")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    path(&x, 3, ACCOUNT(0));
    NEED(send(0x10, 1, 0, &x) == 0 && asking());
}
"""),
 dict(id="p18-trusted-before-approval", property="P18",
  needs="an application whose request the user rejects",
  breaks="the application becomes trusted when its attestation request is put on display, even if the user then rejects it",
  edits=[("src/commands/attestinput/ainpt_ui.c", "        app_set_connected_app_id(ctx->ui.app_token_value);\n", ""),
   ("src/commands/attestinput/ainpt_ui.c", "    app_set_ui_busy(false);\n", "    app_set_ui_busy(false);\n    app_set_connected_app_id(ctx->ui.app_token_value);\n")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    uint8_t id[32] = {9};
    put(&x, id, 32); u16(&x, 1); u64(&x, 1000); u32(&x, 36); u32(&x, 5); u8(&x, 0); u32(&x, 0); u32(&x, 77);
    NEED(send(0x20, 1, 2, &x) == 0 && asking());
    NEED(reject() == 0x6985);
    NEED(send(0x20, 1, 2, &x) == 0 && asking());
}
"""),
 dict(id="p20-frame-signature-room", property="P20",
  needs="an input frame that ends right after its tokens, without an authenticator",
  breaks="the length check of input frames forgets the authenticator, which is then read beyond the end of the command",
  edits=[("src/helpers/input_frame.c", "    if (!buffer_can_read(input, data_len + INPUT_FRAME_SIGNATURE_LEN)) {", "    if (token_count != 0 && !buffer_can_read(input, data_len)) {")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 1);
    bytes x = {{0}, 0};
    uint8_t id[32] = {1};
    put(&x, id, 32); u8(&x, 1); u8(&x, 0); u64(&x, 1000); u8(&x, 1);
    memset(id, 2, 32); put(&x, id, 32); u64(&x, 5);
    NEED(send(0x21, 0x12, SID, &x) != 0x9000);
}
"""),
 dict(id="p22-display-mode-unchecked", property="P22",
  needs="an address request with a P2 other than 1 and 2",
  breaks="an address request with an unknown P2 is taken for one without a token",
  edits=[("src/apdu_dispatcher.c", "if (cmd->p1 == 0 || cmd->p1 > 2 || cmd->p2 == 0 || cmd->p2 > 2)", "if (cmd->p1 == 0 || cmd->p1 > 2 || cmd->p2 == 0)")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    u8(&x, 0); path(&x, 5, ACCOUNT(0), 0, 0);
    NEED(send(0x11, 1, 3, &x) == 0x6A86);
    NEED(send(0x11, 1, 0, &x) == 0x6A86);
    NEED(send(0x11, 3, 1, &x) == 0x6A86);
}
"""),
 dict(id="p23-second-answer-on-key-failure", property="P23",
  needs="the key derivation service fails while the approved transaction is being signed",
  breaks="after reporting the failure the signing goes on and answers a second time",
  edits=[(OP, """        res_error(SW_INTERNAL_CRYPTO_ERROR);
        return;
    }

    bool finished""", """        res_error(SW_INTERNAL_CRYPTO_ERROR);
    }

    bool finished""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 1);
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 0) == 0x9000);
    NEED(output(1000, 0, 0, 0) == 0x9000);
    NEED(fee() == 0x9000);
    NEED(confirm() == 0 && asking());
    sim_fail = "derive";
    NEED(approve() != 0x9000 && A.count == 1);
}
"""),
 dict(id="p28-key-wiped-after-draw", property="P28",
  needs="nothing but a start; all frames are then authenticated with a constant key",
  breaks="the key that authenticates frames is drawn before the context is cleared, so it is all zeros",
  edits=[("src/context.c", """    // Clear context
    explicit_bzero(&G_app_context, sizeof(app_ctx_t));

    // Generate random key for session
    cx_rng(G_app_context.session_key, MEMBER_SIZE(app_ctx_t, session_key));
""", """    // Generate random key for session
    cx_rng(G_app_context.session_key, MEMBER_SIZE(app_ctx_t, session_key));

    // Clear context
    explicit_bzero(&G_app_context, sizeof(app_ctx_t));
""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 1);
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 0) == 0x9000);
}
"""),
]
