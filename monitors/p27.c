// P27: the frames of an attested box carry the tokens of that box, in the order received.
#include "hooks.h"
#include "read.h"
#include "context.h"
#include "commands/attestinput/ainpt_context.h"
#include "commands/attestinput/ainpt_response.h"
#include "commands/attestinput/ainpt_handler.h"
static attest_input_ctx_t X;
static uint8_t g_n, g_i;       // tokens of the box, frame asked for
static bool g_frame, g_ok;
static uint8_t split8(uint8_t v, uint8_t hi) {
    for (uint8_t i = 0; i < hi; i++)
        if (va_cases(v == i)) return i;
    return hi;
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    if (!g_frame || sw != 0x9000) return;
    uint8_t frames = g_n == 0 ? 1 : (uint8_t) ((g_n + 3) / 4);
    va_reached("P27 frame returned");
    va_assert(g_i < frames, "P27: a frame past the last is returned");
    uint8_t m = g_n < 4 * g_i ? 0 : g_n - 4 * g_i > 4 ? 4 : (uint8_t) (g_n - 4 * g_i);
    va_assert(n == 43u + 40u * m + 16u, "P27: the length of a frame does not match the tokens left");
    if (n != 43u + 40u * m + 16u) return;
    va_assert(p[32] == frames && p[33] == g_i && p[42] == m, "P27: the counts in a frame are not those of the box");
    va_assert(va_same(p, X.box_id, 32), "P27: the identifier in a frame is not that of the box");
    va_assert(va_eq64(read_u64_be(p + 34, 0), X.box.value), "P27: the value in a frame is not that of the box");
    for (uint8_t k = 0; k < m; k++) {
        va_reached("P27 token in a frame");
        va_assert(va_same(p + 43 + 40 * k, X.tokens_table.tokens[4 * g_i + k], 32), "P27: a frame carries another token than the box has there");
        va_assert(va_eq64(read_u64_be(p + 43 + 40 * k + 32, 0), X.token_amounts[4 * g_i + k]), "P27: a frame carries another amount than the box has there");
    }
}
void hook_response(uint16_t sw) { g_ok = sw == 0x9000; }
static attest_input_ctx_t *C;
static void start(void) {
    static uint8_t in[55];
    va_havoc(in, sizeof in, L_HOST, "init");
    app_init();
    buffer_t b = {in, 55, 0};
    handler_attest_input(&b, 0x01, 0x01);
    C = app_attest_input_context();
    if (!va_cases(app_current_command() == CMD_ATTEST_INPUT_BOX)) va_end_path();
    C->state = ATTEST_INPUT_STATE_INITIALIZED;
    app_set_ui_busy(false);
}
static void frames(void) {
    static uint8_t d[1];
    start();
    C->state = ATTEST_INPUT_STATE_FINISHED;
    g_n = split8(va_nondet_u8("tokens"), 20);
    va_havoc(C->box_id, sizeof C->box_id, 0, "id");
    va_havoc(C->tokens_table.tokens, sizeof C->tokens_table.tokens, 0, "ids");
    va_havoc(C->token_amounts, sizeof C->token_amounts, 0, "amounts");
    C->tokens_table.count = g_n;
    memcpy(&X, C, sizeof X);
    uint8_t i = va_nondet_u8("index");
    g_i = split8(i, 6);
    d[0] = i;
    buffer_t b = {d, 1, 0};
    g_frame = true;
    g_ok = false;
    handler_attest_input(&b, 0x05, C->session);
    va_assert(g_ok == (g_i < (g_n == 0 ? 1 : (g_n + 3) / 4)), "P27: a frame of the box is refused, or one past the last is not");
    g_frame = false;
}
// tokens received are appended to those of the box
static void tokens(void) {
    static uint8_t d[240];
    static attest_input_ctx_t before;
    va_havoc(d, sizeof d, L_HOST, "tokens");
    start();
    attest_input_ctx_t *c = C;
    c->state = ATTEST_INPUT_STATE_APPROVED;
    c->box.state = ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED;
    uint8_t k = split8(va_nondet_u8("received"), 6), o = split8(va_nondet_u8("had"), 20);
    c->box.tokens_count = (uint8_t) va_nondet_range(1, 20, "declared");
    c->tokens_table.count = o;
    va_havoc(c->tokens_table.tokens, sizeof c->tokens_table.tokens, 0, "ids");
    va_havoc(c->token_amounts, sizeof c->token_amounts, 0, "amounts");
    memcpy(&before, c, sizeof before);
    buffer_t t = {d, 40u * k, 0};
    g_ok = false;
    handler_attest_input(&t, 0x03, c->session);
    if (!va_cases(g_ok)) va_end_path();
    va_reached("P27 tokens received");
    va_assert(c->tokens_table.count == o + k, "P27: tokens of a box are lost or added");
    for (uint8_t i = 0; i < 20; i++) {
        if (i < o) {
            va_assert(va_same(c->tokens_table.tokens[i], before.tokens_table.tokens[i], 32) && va_eq64(c->token_amounts[i], before.token_amounts[i]),
                      "P27: a token received earlier changes");
        } else if (i < o + k) {
            va_reached("P27 token appended");
            va_assert(va_same(c->tokens_table.tokens[i], d + 40 * (i - o), 32), "P27: a token is kept under another identifier than received");
            va_assert(va_eq64(c->token_amounts[i], read_u64_be(d + 40 * (i - o) + 32, 0)), "P27: a token is kept with another amount than received");
        }
    }
}
void va_main(void) {
    va_config("limit", 1000);
    if (va_cases(va_nondet_bool("part"))) frames();
    else tokens();
}
