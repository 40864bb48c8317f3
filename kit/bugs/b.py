OP = "src/commands/signtx/operations/stx_op_p2pk.c"
STXH = "src/commands/signtx/stx_handler.c"
STXUI = "src/commands/signtx/stx_ui.c"
BUGS = [
 dict(id="p08-later-frames-unchecked", property="P08",
  needs="an input whose tokens span several frames: only the first frame's authenticator is checked",
  breaks="a frame with a non-zero index is accepted whatever its authenticator",
  edits=[(STXH, """    if (memcmp(id_buffer, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN) != 0) {""",
  """    if (buffer_read_ptr(cdata)[ERGO_ID_LEN + 1] == 0 &&
        memcmp(id_buffer, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN) != 0) {""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 1);
    NEED(input_frame(1, 2, 0, 1000, 0, NULL, true, 0) == 0x9000);
    bytes x = {{0}, 0};
    uint8_t id[32], mac[16] = {0};
    memset(id, 1, 32);
    put(&x, id, 32); u8(&x, 2); u8(&x, 1); u64(&x, 1000); u8(&x, 0); put(&x, mac, 16);
    NEED(send(0x21, 0x12, SID, &x) != 0x9000);
}
"""),
 dict(id="p08-authenticated-part-capped", property="P08",
  needs="a frame with three or more tokens: the bytes after the first 128 are not authenticated, on either side",
  breaks="the authenticator covers at most 128 bytes of a frame when it is made and when it is checked",
  edits=[(STXH, """                   buffer_read_ptr(cdata),
                   frame_data_len,
                   id_buffer,""", """                   buffer_read_ptr(cdata),
                   MIN(frame_data_len, 128),
                   id_buffer,"""),
         ("src/commands/attestinput/ainpt_response.c", """                   rw_buffer_data_len(&output),
                   rw_buffer_write_ptr""", """                   MIN(rw_buffer_data_len(&output), 128),
                   rw_buffer_write_ptr""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 1);
    bytes x = {{0}, 0};
    uint8_t id[32], mac[32], tok[160];
    memset(id, 1, 32);
    for (int i = 0; i < 160; i++) tok[i] = (uint8_t) (i / 40 + (i % 40 == 39));
    put(&x, id, 32); u8(&x, 1); u8(&x, 0); u64(&x, 1000); u8(&x, 4); put(&x, tok, 160);
    sim_hmac(sim_rng16, 16, x.b, 128, mac);
    put(&x, mac, 16); u32(&x, 0);
    NEED(send(0x21, 0x12, SID, &x) != 0x9000);
}
"""),
 dict(id="p09-index-equal-count", property="P09",
  needs="a frame index equal to the number of frames is asked for after the box is complete",
  breaks="an authenticated frame with index equal to the frame count is returned",
  edits=[("src/commands/attestinput/ainpt_response.c", "    if (index >= frames_count) {", "    if (index > frames_count) {")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    uint8_t id[32] = {7}, tree[4] = {1, 2, 3, 4};
    put(&x, id, 32); u16(&x, 0); u64(&x, 1000); u32(&x, 4); u32(&x, 5); u8(&x, 0); u32(&x, 0);
    NEED(send(0x20, 0x01, 0x01, &x) == 0 && asking());
    NEED(approve() == 0x9000 && A.len == 1);
    uint8_t sid = A.data[0], one = 1, zero = 0;
    NEED(cmd(0x20, 0x02, sid, tree, 4) == 0x9000);
    NEED(cmd(0x20, 0x05, sid, &zero, 1) == 0x9000);
    NEED(cmd(0x20, 0x05, sid, &one, 1) != 0x9000);
}
"""),
 dict(id="p10-extension-chunk-length", property="P10",
  needs="a context extension that arrives in more than one chunk",
  breaks="of a chunk that does not end the context extension the last byte is not hashed",
  edits=[("src/ergo/tx_ser_input.c", """    if (!blake2b_update(context->hash, buffer_read_ptr(chunk), len)) {""",
  """    size_t part = context->context_extension_data_size > len && len == MAX_DATA_CHUNK_LEN ? len - 1 : len;
    if (!blake2b_update(context->hash, buffer_read_ptr(chunk), part)) {""")],
  demo="""
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "flows.h"
int main(void) {
    uint8_t *sig = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int k = 0; k < 2; k++) {   // the same random numbers, another byte in the extension
        pid_t p = fork();
        if (p) { int st; waitpid(p, &st, 0); NEED(st == 0); continue; }
        start();
        simple_tx(0, 1);
        NEED(input_frame(1, 1, 0, 1000, 0, NULL, true, 300) == 0x9000);
        uint8_t d[255];
        memset(d, 3, 255); d[254] = (uint8_t) k;
        NEED(cmd(0x21, 0x13, SID, d, 255) == 0x9000);
        NEED(cmd(0x21, 0x13, SID, d, 45) == 0x9000);
        NEED(output(1000, 0, 0, 0) == 0x9000);
        uint16_t sw = change(0, 0, 0);
        if (sw == 0 && asking()) sw = approve();
        NEED(sw == 0x9000);
        NEED(confirm() == 0 && asking());
        NEED(approve() == 0x9000 && A.len == 56);
        memcpy(sig + 64 * k, A.data, 56);
        return 0;
    }
    NEED(memcmp(sig, sig + 64, 24) != 0);
}
"""),
 dict(id="p21-public-key-failure", property="P21",
  needs="the device's key pair generation fails while an address is made",
  breaks="the failure is reported only when a chain code was asked for: an address of an unset key is returned",
  edits=[("src/helpers/crypto.c", """    if (!has_chain_code) {
        explicit_bzero(chain_code, CHAIN_CODE_LEN);
    }
    return result;""", """    if (!has_chain_code) {
        explicit_bzero(chain_code, CHAIN_CODE_LEN);
        result = 0;
    }
    return result;""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    u8(&x, 0); path(&x, 5, ACCOUNT(0), 0, 0);
    sim_fail = "pair";
    uint16_t sw = send(0x11, 0x01, 0x01, &x);
    NEED(sw != 0x9000 && !(sw == 0 && asking()));
}
"""),
 dict(id="p21-last-register-hash", property="P21",
  needs="the hash service fails on the byte that stands for a box without registers",
  breaks="the failure is ignored, the box counts as hashed",
  edits=[("src/ergo/tx_ser_box.c", """        if (context->registers_size == 0) {
            CHECK_CALL_RESULT_OK(context, add_empty_registers_count(context));
            return box_finished(context);
        } else {""", """        if (context->registers_size == 0) {
            add_empty_registers_count(context);
            return box_finished(context);
        } else {""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    uint8_t id[32] = {7}, tree[4] = {1, 2, 3, 4}, tok[40] = {9};
    tok[39] = 1;
    put(&x, id, 32); u16(&x, 0); u64(&x, 1000); u32(&x, 4); u32(&x, 5); u8(&x, 1); u32(&x, 0);
    NEED(send(0x20, 0x01, 0x01, &x) == 0 && asking());
    NEED(approve() == 0x9000 && A.len == 1);
    uint8_t sid = A.data[0];
    NEED(cmd(0x20, 0x02, sid, tree, 4) == 0x9000);
    sim_fail = "hash"; sim_fail_after = 2; sim_fail_once = true;   // token id, amount, then the registers' count
    NEED(cmd(0x20, 0x03, sid, tok, 40) != 0x9000);
}
"""),
 dict(id="p24-displayed-path-cut", property="P24",
  needs="an address on a path of more than five levels",
  breaks="the path displayed for an address stops after the fifth level",
  edits=[("src/commands/deriveaddress/da_handler.c", """                              bip32_path,
                              bip32_path_len,
                              ctx->raw_address);""", """                              bip32_path,
                              bip32_path_len > 5 ? 5 : bip32_path_len,
                              ctx->raw_address);""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    bytes x = {{0}, 0};
    u8(&x, 0); path(&x, 6, ACCOUNT(0), 0, 1, 77);
    NEED(send(0x11, 0x02, 0x01, &x) == 0 && asking());
    NEED(shows("Path", "44'/429'/0'/0/1/77"));
}
"""),
 dict(id="p24-parity-from-wrong-byte", property="P24",
  needs="a key whose x and y have different parity, asked for as an extended public key",
  breaks="the sign byte of the compressed key is taken from x instead of y",
  edits=[("src/commands/extpubkey/epk_response.c", "(raw_public_key[64] & 1)", "(raw_public_key[32] & 1)")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    for (uint32_t a = 0; a < 16; a++) {
        bytes x = {{0}, 0};
        path(&x, 3, ACCOUNT(a));
        NEED(send(0x10, 0x01, 0x00, &x) == 0 && asking());
        NEED(approve() == 0x9000 && A.len == 65);
        uint32_t p[3] = {ACCOUNT(a)};
        uint8_t key[32], chain[32], pub[65];
        sim_priv(p, 3, key, chain);
        sim_pub(key, pub);
        NEED(A.data[0] == 2 + (pub[64] & 1));
    }
}
"""),
 dict(id="p25-input-sum-wraps", property="P25",
  needs="inputs whose values add up to 2^64 or more",
  breaks="the sum of the inputs wraps around without an error",
  edits=[("src/commands/signtx/stx_amounts.h", "    return checked_add_u64(ctx->value, value, &ctx->value) ? SW_OK : SW_U64_OVERFLOW;",
  "    ctx->value += value;\n    return ctx->value != 0 || value == 0 ? SW_OK : SW_U64_OVERFLOW;")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    open_session(0, 0);
    NEED(start_tx(2, 0, 0, 1) == 0x9000);
    NEED(input_frame(1, 1, 0, UINT64_MAX, 0, NULL, true, 0) == 0x9000);
    NEED(input_frame(2, 1, 0, 1001, 0, NULL, true, 0) != 0x9000);
}
"""),
 dict(id="p25-fee-of-first-output-only", property="P25",
  needs="a transaction with two fee outputs",
  breaks="the fee shown is the value of the last fee output instead of the sum",
  edits=[("src/commands/signtx/stx_amounts.c", """            if (!checked_add_u64(ctx->fee, value, &ctx->fee)) {  // add value to fee.
                return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
            }""", """            ctx->fee = value;  // value of the fee.""")],
  demo="""
#include "flows.h"
int main(void) {
    start();
    simple_tx(0, 2);
    NEED(input_frame(1, 1, 0, 5000000000ull, 0, NULL, true, 0) == 0x9000);
    NEED(output(3000000000ull, 0, 0, 0) == 0x9000);
    NEED(fee() == 0x9000);
    NEED(output(2000000000ull, 0, 0, 0) == 0x9000);
    NEED(fee() == 0x9000);
    NEED(confirm() == 0 && asking());
    NEED(shows("Transaction Fee", "5.0 ERG") || shows("Transaction Fee", "5.000000000 ERG") || shows("Transaction Fee", "5 ERG"));
}
"""),
]
