STXUI = "src/commands/signtx/stx_ui.c"
DYN = "src/ui/ui_dynamic_flow.c"
OP = "src/commands/signtx/operations/stx_op_p2pk.c"
B32 = "src/common/bip32_ext.c"
TOKEN = """
#include "flows.h"
static void name_token(uint8_t tag) {
    bytes x = {{0}, 0};
    uint8_t id[32];
    memset(id, tag, 32);
    put(&x, id, 32);
    NEED(send(0x21, 0x11, SID, &x) == 0x9000);
}
static uint16_t out_token(uint32_t index, uint64_t v) {
    bytes x = {{0}, 0};
    u32(&x, index); u64(&x, v);
    return send(0x21, 0x19, SID, &x);
}
"""
BUGS = [
 dict(id="p26-last-screen-skipped-back", property="P26",
  needs="the user goes back from the approval into the screens of an output",
  breaks="going left from the approval skips the last screen of the output",
  edits=[(DYN, "        G_dynamic_flow_context.current_screen = G_dynamic_flow_context.screen_count - 1;\n        DISPLAY",
   "        G_dynamic_flow_context.current_screen =\n            G_dynamic_flow_context.screen_count - MIN(G_dynamic_flow_context.screen_count, 2);\n        DISPLAY")],
  demo=TOKEN + """
int main(void) {
    start();
    simple_tx(1, 1);
    name_token(5);
    NEED(input_frame(1, 1, 0, 5000, 0, NULL, true, 0) == 0x9000);
    NEED(output(1000, 36, 1, 0) == 0x9000);
    NEED(p2pk_tree(9) == 0x9000);
    NEED(out_token(0, 77) == 0 && asking());
    NEED(shows("Token [1] Value", "77"));
    // a turn to the right to the approval, then one back
    for (int i = 0; i < 30 && strcmp(line1, "Approve"); i++) forward();
    NEED(!strcmp(line1, "Approve"));
    back();
    NEED(!strcmp(line1, "Token [1] Value") && !strcmp(line2, "77"));
}
"""),
 dict(id="p26-identifier-tail", property="P26",
  needs="a token whose identifier differs from another's only in the last digit",
  breaks="the end of the identifier shown is not the end of the identifier",
  edits=[(STXUI, "    id_string_remove_middle(out, len - 1);", "    id_string_remove_middle(out, len - 2);")],
  demo=TOKEN + """
int main(void) {
    start();
    simple_tx(1, 1);
    bytes x = {{0}, 0};
    uint8_t id[32];
    memset(id, 0xAA, 32);
    id[31] = 0xA7;
    put(&x, id, 32);
    NEED(send(0x21, 0x11, SID, &x) == 0x9000);
    NEED(input_frame(1, 1, 0, 5000, 0, NULL, true, 0) == 0x9000);
    NEED(output(1000, 36, 1, 0) == 0x9000);
    NEED(p2pk_tree(9) == 0x9000);
    NEED(out_token(0, 77) == 0 && asking());
    int ok = 0;
    for (int i = 0; i < 30 && strcmp(line1, "Approve"); i++) {
        forward();
        if (!strcmp(line1, "Token [1]")) ok = line2[strlen(line2) - 1] == '7' && strlen(line2) == 55;
    }
    NEED(ok);
}
"""),
 dict(id="p36-second-application-hidden", property="P36",
  needs="an attestation for a second application after one has been trusted",
  breaks="the token of the application that asks is not shown when another one is trusted",
  edits=[("src/commands/attestinput/ainpt_ui.c", "    if (app_access_token != 0) {", "    if (app_access_token != 0 && app_connected_app_id() == 0) {")],
  demo="""
#include "flows.h"
static void box(uint32_t app) {
    bytes x = {{0}, 0};
    uint8_t id[32] = {7};
    put(&x, id, 32); u16(&x, 0); u64(&x, 1000); u32(&x, 4); u32(&x, 5); u8(&x, 0); u32(&x, 0); u32(&x, app);
    NEED(send(0x20, 0x01, 0x02, &x) == 0 && asking());
}
int main(void) {
    start();
    box(0x11111111);
    NEED(shows("Application", "0x11111111"));
    NEED(approve() == 0x9000);
    box(0x22222222);
    NEED(shows("Application", "0x22222222"));
}
"""),
 dict(id="p36-long-path-cut", property="P36",
  needs="an extended public key for a path deeper than five levels",
  breaks="the path shown lacks the levels after the fifth",
  edits=[("src/ui/ui_bip32_path.c", "    if (!bip32_path_format(path, path_len, buffer, buffer_len)) {", "    if (!bip32_path_format(path, path_len > 5 ? 5 : path_len, buffer, buffer_len)) {")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    path(&x, 6, ACCOUNT(0), 0x80000001u, 0x80000002u, 0x80000003u);
    NEED(send(0x10, 1, 0, &x) == 0 && asking());
    NEED(shows("Path", "44'/429'/0'/1'/2'/3'") || shows("Path", "m/44'/429'/0'/1'/2'/3'"));
}
"""),
 dict(id="p18-trust-outlives-anonymous", property="P18",
  needs="an address is displayed without a token after an application was trusted",
  breaks="approving a request without a token leaves the application trusted before still trusted",
  edits=[("src/commands/deriveaddress/da_ui.c", "        app_set_connected_app_id(ctx->app_token_value);\n        if (ctx->send) {",
   "        if (ctx->send || ctx->app_token_value != 0) {\n            app_set_connected_app_id(ctx->app_token_value);\n        }\n        if (ctx->send) {")],
  demo="""
#include "flows.h"
static uint16_t addr(uint8_t p1, bool token) {
    bytes x = {{0}, 0};
    u8(&x, 0); path(&x, 5, ACCOUNT(0), 0, 3);
    if (token) u32(&x, 0x11111111);
    return send(0x11, p1, token ? 2 : 1, &x);
}
int main(void) {
    start();
    NEED(addr(1, true) == 0 && approve() == 0x9000);
    NEED(addr(1, true) == 0x9000);
    NEED(addr(2, false) == 0 && approve() == 0x9000);
    NEED(addr(1, true) == 0 && asking());
}
"""),
 dict(id="p15-last-index-refused", property="P15",
  needs="the last address index, 2^31 - 1",
  breaks="the last address of an account can neither be shown nor signed for",
  edits=[(B32, "                if (bip32_path[i] >= BIP32_HARDENED_CONSTANT) {\n                    return false;", "                if (bip32_path[i] + 1 >= BIP32_HARDENED_CONSTANT) {\n                    return false;")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    open_session(0, 0x7FFFFFFE);
    open_session(1, 0x7FFFFFFF);
}
"""),
 dict(id="p16-fee-with-one-token", property="P16",
  needs="an output to the miners' fee script that carries exactly one token",
  breaks="a token given away with the fee is never shown",
  edits=[(OP, "        return stx_output_info_used_tokens_count(&ctx->transaction.ui.output) > 0;", "        return stx_output_info_used_tokens_count(&ctx->transaction.ui.output) > 1;")],
  demo=TOKEN + """
int main(void) {
    start();
    simple_tx(1, 2);
    name_token(5);
    NEED(input_frame(1, 1, 0, 5000, 0, NULL, true, 0) == 0x9000);
    NEED(output(1000, 0, 1, 0) == 0x9000);
    NEED(fee() == 0x9000);
    NEED(out_token(0, 77) == 0 && asking());
}
"""),
 dict(id="p16-change-on-the-other-branch", property="P16",
  needs="change to an internal address while signing with an external one, index in range",
  breaks="change on another branch of the account is taken without being shown",
  edits=[(OP, "            ctx->transaction.ui.output.bip32_path.path[3] == ctx->bip32.path[3] &&", "            ctx->transaction.ui.output.bip32_path.path[3] >= ctx->bip32.path[3] &&")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 2);
    NEED(input_frame(1, 1, 0, 5000, 0, NULL, true, 0) == 0x9000);
    NEED(output(1000, 0, 0, 0) == 0x9000);
    NEED(change(0, 1, 3) == 0 && asking());
}
"""),
 dict(id="p23-error-leaves-the-question", property="P23",
  needs="change to a path whose text does not fit the screen, and a user who goes on",
  breaks="after a screen that cannot be drawn ended the request with an error the user can still approve, which answers again",
  edits=[(DYN, "            res_error(res);                                                                       \\\n            ui_menu_main();                                                                       \\\n",
   "            res_error(res);                                                                       \\\n")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 2);
    NEED(input_frame(1, 1, 0, 5000, 0, NULL, true, 0) == 0x9000);
    NEED(output(1000, 0, 0, 0) == 0x9000);
    bytes x = {{0}, 0};
    path(&x, 10, ACCOUNT(0), 0, 2000000000u, 2000000000u, 2000000000u, 2000000000u, 2000000000u, 2000000000u);
    NEED(send(0x21, 0x18, SID, &x) == 0 && asking());
    memset(&A, 0, sizeof A);
    forward();
    NEED(A.count == 1 && A.sw != 0x9000);
    NEED(!asking());
}
"""),
 dict(id="p04-error-screen-keeps-session", property="P04",
  needs="change to a path whose text does not fit the screen, then the transaction goes on",
  breaks="a session goes on after a confirmation ended with an error instead of an approval",
  edits=[(DYN, "            app_set_current_command(CMD_NONE);                                                    \\\n", "")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 2);
    NEED(input_frame(1, 1, 0, 5000, 0, NULL, true, 0) == 0x9000);
    NEED(output(1000, 0, 0, 0) == 0x9000);
    bytes x = {{0}, 0};
    path(&x, 10, ACCOUNT(0), 0, 2000000000u, 2000000000u, 2000000000u, 2000000000u, 2000000000u, 2000000000u);
    NEED(send(0x21, 0x18, SID, &x) == 0 && asking());
    forward();
    NEED(!asking());
    NEED(output(1000, 0, 0, 0) != 0x9000);
}
"""),
]
