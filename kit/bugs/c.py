FULL = "src/ergo/tx_ser_full.c"
BOX = "src/ergo/tx_ser_box.c"
TREE = "src/ergo/ergo_tree.c"
SCH = "src/ergo/schnorr.c"
STXH = "src/commands/signtx/stx_handler.c"
STXUI = "src/commands/signtx/stx_ui.c"
RESP = "src/commands/attestinput/ainpt_response.c"
ATT = """
#include "flows.h"
static uint8_t AS;
static void box_init(uint16_t index, uint8_t tokens) {
    bytes x = {{0}, 0};
    uint8_t id[32] = {7};
    put(&x, id, 32); u16(&x, index); u64(&x, 1000); u32(&x, 4); u32(&x, 5); u8(&x, tokens); u32(&x, 0);
    NEED(send(0x20, 0x01, 0x01, &x) == 0 && asking());
    NEED(approve() == 0x9000 && A.len == 1);
    AS = A.data[0];
}
static uint16_t box_tree(void) {
    bytes x = {{0}, 0};
    uint8_t tree[4] = {1, 2, 3, 4};
    put(&x, tree, 4);
    return send(0x20, 0x02, AS, &x);
}
static uint16_t box_token(uint8_t tag, uint64_t amount) {
    bytes x = {{0}, 0};
    uint8_t id[32];
    memset(id, tag, 32);
    put(&x, id, 32); u64(&x, amount);
    return send(0x20, 0x03, AS, &x);
}
"""
BUGS = [
 dict(id="p03-input-without-extension", property="P03",
  needs="an input that announces a context extension is followed by another input before the extension is sent",
  breaks="the extension announced is never sent and the transaction hashed has more inputs than declared",
  edits=[(FULL, "    if (!ergo_tx_serializer_input_is_finished(&context->input_ctx)) {\n        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);",
   "    if (!ergo_tx_serializer_input_is_finished(&context->input_ctx) &&\n        context->input_ctx.state != ERGO_TX_SERIALIZER_INPUT_STATE_EXTENSION_STARTED) {\n        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    open_session(0, 0);
    NEED(start_tx(2, 0, 0, 1) == 0x9000);
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 5) == 0x9000);
    NEED(input_frame(2, 1, 0, 1000, 0, NULL, true, 0) != 0x9000);
}
"""),
 dict(id="p05-forged-frame-retried", property="P05",
  needs="a frame with a wrong authenticator is followed by the right one",
  breaks="the signing session goes on after a forged input frame was refused",
  edits=[(STXH, """    ctx->state = SIGN_TRANSACTION_STATE_ERROR;
    app_set_current_command(CMD_NONE);
    return res_error(err);""", """    if (err != SW_BAD_FRAME_SIGNATURE) {
        ctx->state = SIGN_TRANSACTION_STATE_ERROR;
        app_set_current_command(CMD_NONE);
    }
    return res_error(err);""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 1);
    bytes x = {{0}, 0};
    uint8_t id[32], mac[16] = {0};
    memset(id, 1, 32);
    put(&x, id, 32); u8(&x, 1); u8(&x, 0); u64(&x, 1000); u8(&x, 0); put(&x, mac, 16); u32(&x, 0);
    NEED(send(0x21, 0x12, SID, &x) != 0x9000);
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 0) != 0x9000);
}
"""),
 dict(id="p03-twentieth-token", property="P03",
  needs="a transaction with twenty distinct tokens, the most there may be",
  breaks="the twentieth token of a transaction is refused",
  edits=[("src/ergo/tx_ser_table.c", "    if (table->count >= tokens_max) {", "    if (table->count >= tokens_max || table->count + 1 >= TOKEN_MAX_COUNT) {")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(20, 1);
    for (int i = 0; i < 20; i++) {
        bytes x = {{0}, 0};
        uint8_t id[32];
        memset(id, i + 1, 32);
        put(&x, id, 32);
        NEED(send(0x21, 0x11, SID, &x) == 0x9000);
    }
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 0) == 0x9000);
}
"""),
 dict(id="p16-approved-change-of-any-account", property="P16",
  needs="a change output approved by the user, then change to another path of the same length",
  breaks="once a change path was approved any other change path of its length goes unshown",
  edits=[("src/common/bip32_ext.h", "memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len * sizeof(uint32_t)) == 0", "memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len) == 0")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 2);
    NEED(input_frame(1, 1, 0, 5000, 0, NULL, true, 0) == 0x9000);
    NEED(output(3000, 0, 0, 0) == 0x9000);
    NEED(change(5, 0, 3) == 0 && asking());
    NEED(approve() == 0x9000);
    NEED(output(2000, 0, 0, 0) == 0x9000);
    NEED(change(9, 0, 70000) == 0 && asking());
}
"""),
 dict(id="p19-minted-sum-wraps", property="P19",
  needs="two outputs that mint so much of a token that the sum passes 2^63",
  breaks="the sum of the outputs of a token wraps around and is shown as burning",
  edits=[("src/common/safeint.h", "        if (r > INT64_MAX || r - l > (INT64_MAX + (uint64_t) 1)) return false;", "        if (r > INT64_MAX) return false;")],
  demo="""
#include "flows.h"
static void tok(uint64_t v) {
    bytes x = {{0}, 0};
    u32(&x, 0); u64(&x, v);
    send(0x21, 0x19, SID, &x);
}
int main(void) {
    start();
    simple_tx(1, 2);
    bytes x = {{0}, 0};
    uint8_t id[32];
    memset(id, 3, 32);
    put(&x, id, 32);
    NEED(send(0x21, 0x11, SID, &x) == 0x9000);
    NEED(input_frame(1, 1, 0, 5000, 0, NULL, true, 0) == 0x9000);
    NEED(output(1000, 36, 1, 0) == 0x9000);
    NEED(p2pk_tree(9) == 0x9000);
    tok(0x7000000000000000ull);
    NEED(asking() && approve() == 0x9000);
    NEED(output(1000, 36, 1, 0) == 0x9000);
    NEED(p2pk_tree(9) == 0x9000);
    tok(0x7000000000000000ull);
    NEED(!asking() && A.sw != 0x9000);
}
"""),
 dict(id="p20-token-past-the-table", property="P20",
  needs="twenty distinct tokens listed for the transaction and another token among its inputs",
  breaks="the twenty-first token is written past the end of the token table",
  edits=[("src/ergo/tx_ser_table.h", "    if (table->count >= TOKEN_MAX_COUNT) return INDEX_NOT_EXIST;", "    if (table->count > TOKEN_MAX_COUNT) return INDEX_NOT_EXIST;")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(20, 1);
    for (int i = 0; i < 20; i++) {
        bytes x = {{0}, 0};
        uint8_t id[32];
        memset(id, i + 1, 32);
        put(&x, id, 32);
        NEED(send(0x21, 0x11, SID, &x) == 0x9000);
    }
    uint8_t tok[40];
    memset(tok, 77, 40);
    NEED(input_frame(1, 1, 0, 1000, 1, tok, true, 0) != 0x9000);
}
"""),
 dict(id="p26-sixteen-tokens-shown", property="P26",
  needs="an output with more than sixteen tokens",
  breaks="the tokens of an output after the sixteenth have no screens",
  edits=[(STXUI, "        info_screen_count += 1 + (2 * tokens_count);", "        info_screen_count += 1 + (2 * MIN(tokens_count, 16));")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(17, 1);
    for (int i = 0; i < 17; i++) {
        bytes x = {{0}, 0};
        uint8_t id[32];
        memset(id, i + 1, 32);
        put(&x, id, 32);
        NEED(send(0x21, 0x11, SID, &x) == 0x9000);
    }
    NEED(input_frame(1, 1, 0, 5000, 0, NULL, true, 0) == 0x9000);
    NEED(output(1000, 36, 17, 0) == 0x9000);
    NEED(p2pk_tree(9) == 0x9000);
    for (uint32_t i = 0; i < 17; i++) {
        bytes x = {{0}, 0};
        u32(&x, i); u64(&x, 5000 + i);
        send(0x21, 0x19, SID, &x);
    }
    NEED(asking());
    NEED(shows("Token [16] Value", "5015"));
    NEED(shows("Token [17] Value", "5016"));
}
"""),
 dict(id="p27-fifth-frame", property="P27",
  needs="a box with seventeen tokens or more: its fifth frame is asked for",
  breaks="the fifth frame carries the tokens of the first",
  edits=[(RESP, "    uint8_t offset = index * FRAME_MAX_TOKENS_COUNT;", "    uint8_t offset = (index & (FRAME_MAX_TOKENS_COUNT - 1)) * FRAME_MAX_TOKENS_COUNT;")],
  demo=ATT + """
int main(void) {
    start();
    box_init(0, 18);
    NEED(box_tree() == 0x9000);
    for (int i = 0; i < 18; i++) NEED(box_token(i + 1, 100 + i) == 0x9000);
    uint8_t f = 4;
    NEED(cmd(0x20, 0x05, AS, &f, 1) == 0x9000);
    NEED(A.data[42] == 2 && A.data[43] == 17 && A.data[83] == 18);
}
"""),
 dict(id="p29-script-like-a-hash", property="P29",
  needs="an output script that differs from a pay-to-script-hash one in its last byte only",
  breaks="the hash inside a script of another meaning is shown as its address",
  edits=[(TREE, "               ERGO_TREE_P2SH_SUFFIX_LEN) != 0) {", "               ERGO_TREE_P2SH_SUFFIX_LEN - 1) != 0) {")],
  demo="""
#include "os.h"
#include "flows.h"
#include "ergo/ergo_tree.h"
int main(void) {
    static const uint8_t pre[17] = {0x00, 0xea, 0x02, 0xd1, 0x93, 0xb4, 0xcb, 0xe4, 0xe3, 0x01, 0x0e, 0x04, 0x00, 0x04, 0x30, 0x0e, 0x18};
    uint8_t t[44] = {0}, hash[24];
    memcpy(t, pre, 17);
    t[41] = 0xd4; t[42] = 0x08; t[43] = 0x01;
    NEED(ergo_tree_parse_p2sh(t, hash));
    t[43] = 0x00;
    NEED(!ergo_tree_parse_p2sh(t, hash));
}
"""),
 dict(id="p30-data-input-count", property="P30",
  needs="a transaction with more than 255 data inputs",
  breaks="the number of data inputs is hashed modulo 256",
  edits=[(FULL, "        if (!hash_u16(context->hash, context->data_inputs_count)) {", "        if (!hash_u16(context->hash, (uint8_t) context->data_inputs_count)) {")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    open_session(0, 0);
    NEED(start_tx(1, 300, 0, 1) == 0x9000);
    NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 0) == 0x9000);
    NEED(hashed[hashed_len - 2] == 0xAC && hashed[hashed_len - 1] == 0x02);
}
"""),
 dict(id="p31-attempts-never-end", property="P31",
  needs="a curve service that keeps failing while a signing session is opened",
  breaks="the attempts to draw a nonce never end, as their number does not fit the counter",
  edits=[(SCH, "#define MAX_ITERATIONS       100", "#define MAX_ITERATIONS       1000")],
  demo="""
#include <unistd.h>
#include "flows.h"
int main(void) {
    start();
    alarm(20);
    sim_fail = "mult";
    bytes x = {{0}, 0};
    u8(&x, 0); path(&x, 5, ACCOUNT(0), 0, 0);
    uint16_t sw = send(0x21, 0x01, 0x01, &x);
    NEED(sw != 0x9000 && sw != 0);
}
"""),
 dict(id="p32-parity-of-commitment", property="P32",
  needs="a nonce whose commitment has an odd y but an even byte before its last",
  breaks="the commitment is hashed with the wrong sign byte, and the signature does not verify",
  edits=[(SCH, """            // compress w
            buf[0] = (buf[PUBLIC_KEY_LEN - 1] & 1) == 1 ? 0x03 : 0x02;""", """            // compress w
            buf[0] = (buf[PUBLIC_KEY_LEN - 2] & 1) == 1 ? 0x03 : 0x02;""")],
  demo="""
#include "flows.h"
int main(void) {
    for (int i = 0; i < 16; i++) {
        start();
        for (int k = 0; k <= i; k++) open_session(0, k);
        uint8_t pub[65] = {
            4, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc,
            0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98, 0x48, 0x3a, 0xda, 0x77, 0x26, 0xa3,
            0xc4, 0x65, 0x5d, 0xa4, 0xfb, 0xfc, 0x0e, 0x11, 0x08, 0xa8, 0xfd, 0x17, 0xb4, 0x48, 0xa6, 0x85, 0x54, 0x19, 0x9c,
            0x47, 0xd0, 0x8f, 0xfb, 0x10, 0xd4, 0xb8};
        cx_ecfp_scalar_mult_no_throw(CX_CURVE_SECP256K1, pub, sim_nonce, 32);
        NEED(hashed_len == 77 && memcmp(hashed + 45, pub + 1, 32) == 0);
        NEED(hashed[44] == 2 + (pub[64] & 1));
    }
}
"""),
 dict(id="p33-index-of-attested-box", property="P33",
  needs="a box whose index among the outputs of its transaction is above 255",
  breaks="the identifier attested for the box is that of another index",
  edits=[("src/commands/attestinput/ainpt_handler.c", "ergo_tx_serializer_box_id_hash(&ctx->box, ctx->box_id, ctx->box_index, ctx->box_id)", "ergo_tx_serializer_box_id_hash(&ctx->box, ctx->box_id, (uint8_t) ctx->box_index, ctx->box_id)")],
  demo=ATT + """
int main(void) {
    start();
    box_init(300, 0);
    NEED(box_tree() == 0x9000);
    NEED(hashed[hashed_len - 2] == 0xAC && hashed[hashed_len - 1] == 0x02);
}
"""),
 dict(id="p34-smallest-signed-number", property="P34",
  needs="the smallest signed 16-bit number",
  breaks="the smallest signed 16-bit number cannot be read",
  edits=[("src/common/gve.c", "    if (i32 > INT16_MAX || i32 < INT16_MIN) return GVE_ERR_INT_TO_BIG;", "    if ((i32 < 0 ? -i32 : i32) > INT16_MAX) return GVE_ERR_INT_TO_BIG;")],
  demo="""
#include "flows.h"
#include "common/gve.h"
int main(void) {
    for (int32_t v = INT16_MIN; v <= INT16_MAX; v++) {
        uint8_t mem[12];
        RW_BUFFER_FROM_ARRAY_EMPTY(b, mem, 12);
        int16_t got = 0;
        NEED(gve_put_u64(&b, v < 0 ? -2 * v - 1 : 2 * v) == GVE_OK);
        NEED(gve_get_i16(&b.read, &got) == GVE_OK && got == v);
    }
}
"""),
 dict(id="p35-shift-of-read-data", property="P35",
  needs="a buffer of which everything was read before what is left is moved to the front",
  breaks="the space of what was read is not freed, and the buffer runs full",
  edits=[("src/common/rwbuffer.c", "    if (rw_buffer_read_position(buffer) == 0) return;", "    if (rw_buffer_read_position(buffer) == 0 || rw_buffer_data_len(buffer) == 0) return;")],
  demo="""
#include "flows.h"
#include "common/rwbuffer.h"
int main(void) {
    uint8_t mem[12], in[12], out[12];
    for (int i = 0; i < 12; i++) in[i] = 10 + i;
    RW_BUFFER_FROM_ARRAY_EMPTY(b, mem, 12);
    NEED(rw_buffer_write_bytes(&b, in, 12) && rw_buffer_read_bytes(&b, out, 2));
    rw_buffer_shift_data(&b);
    NEED(rw_buffer_read_bytes(&b, out, 10) && memcmp(out, in + 2, 10) == 0);
    rw_buffer_shift_data(&b);
    NEED(rw_buffer_write_bytes(&b, in, 12));
}
"""),
]
