// P03, P05, P30: the transaction serializer, function by function, from any context it can be in:
// the declared counts are exact, a refusal is final, and what is hashed is the standard serialisation.
#include "hooks.h"
#include "read.h"
#include "ergo/tx_ser_full.h"
#include "ergo/tx_ser_box.h"
#define OK 0x7F
#define MORE 0x7E
static ergo_tx_serializer_full_context_t F;
static cx_blake2b_t H;
static token_table_t T;
static uint8_t g_tape[2400], g_exp[2400], g_d[264];
static size_t g_n, g_m;        // bytes hashed, bytes expected
static bool g_failed;          // a service of the device or a callback failed
static uint8_t g_tokens, g_types, g_done;   // callbacks made
static uint8_t g_low;           // 1: the box is put together on its own, 2: the input
void hook_fail(void) { g_failed = true; }
void hook_hash(const cx_blake2b_t *h, uint32_t mode, const uint8_t *in, size_t len, const uint8_t *out, size_t out_len) {
    (void) mode, (void) out, (void) out_len;
    va_assert(h == &H, "P30: something is hashed elsewhere");
    for (size_t i = 0; i < 48; i++)
        if (va_cases(len == i + 1)) {
            memcpy(g_tape + g_n, in, i + 1);
            g_n += i + 1;
            return;
        }
    if (len == 0) return;
    va_assert(len + g_n <= sizeof g_tape, "P30: more is hashed than there is");
    memcpy(g_tape + g_n, in, len);
    g_n += len;
}
static uint8_t pick(uint8_t lo, uint8_t hi) {
    uint8_t v = va_nondet_range(lo, hi, "pick");
    for (uint8_t i = lo; i < hi; i++)
        if (va_cases(v == i)) return i;
    return hi;
}
static void e_u8(uint8_t v) { g_exp[g_m++] = v; }
static void e_bytes(const uint8_t *p, size_t n) {
    memcpy(g_exp + g_m, p, n);
    g_m += n;
}
// the number of seven-bit groups of v
static uint8_t groups(uint64_t v) {
    for (uint8_t n = 1; n < 10; n++)
        if (va_cases(v < 1ull << (7 * n))) return n;
    return 10;
}
static void e_vlq(uint64_t v, uint8_t n) {
    for (uint8_t i = 0; i < n; i++) g_exp[g_m++] = (uint8_t) (((v >> (7 * i)) & 0x7F) | (i + 1 < n ? 0x80 : 0));
}
// the numbers that follow once the last data input or input is in
static uint8_t g_dl, g_ol;
static void sizes(void) {
    g_dl = groups(F.data_inputs_count);
    g_ol = groups(F.outputs_count);
}
static void e_table(void) {
    e_vlq(F.table_ctx.distinct_tokens_count, 1);
    for (uint8_t i = 0; i < F.table_ctx.distinct_tokens_count; i++) e_bytes(T.tokens[i], 32);
    e_vlq(F.outputs_count, g_ol);
}
static ergo_tx_serializer_box_result_e on_type(ergo_tx_serializer_box_type_e t, uint64_t v, void *c) {
    (void) c;
    va_assert(t == F.box_ctx.type && va_eq64(v, F.box_ctx.value), "P30: an output is announced with another kind or value");
    g_types++;
    if (!va_cases(va_nondet_bool("type refused"))) return OK;
    g_failed = true;
    return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
}
static bool g_table;
static ergo_tx_serializer_box_result_e on_token(ergo_tx_serializer_box_type_e t, const uint8_t *id, uint64_t v, void *c) {
    (void) c;
    uint8_t j = g_tokens++, w = g_table ? 12 : 40;
    va_assert(t == F.box_ctx.type, "P30: a token is announced for an output of another kind");
    va_assert(va_same(id, g_table ? T.tokens[g_d[w * j + 3]] : g_d + w * j, 32), "P30: a token is announced under another identifier");
    va_assert(va_eq64(v, read_u64_be(g_d, w * j + w - 8)), "P30: a token is announced with another amount");
    if (!va_cases(va_nondet_bool("token refused"))) return OK;
    g_failed = true;
    return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
}
static ergo_tx_serializer_box_result_e on_done(ergo_tx_serializer_box_type_e t, void *c) {
    (void) t, (void) c;
    g_done++;
    if (!va_cases(va_nondet_bool("end refused"))) return OK;
    g_failed = true;
    return ERGO_TX_SERIALIZER_BOX_RES_ERR_HASHER;
}
static ergo_tx_serializer_input_result_e on_input(const uint8_t *box, const uint8_t *id, uint64_t v, void *c) {
    (void) c;
    uint8_t j = g_tokens++;
    va_assert(va_same(box, F.input_ctx.box_id, 32), "P30: a token is announced for another input");
    va_assert(va_same(id, g_d + 40 * j, 32) && va_eq64(v, read_u64_be(g_d, 40 * j + 32)), "P30: a token of an input is announced wrongly");
    if (!va_cases(va_nondet_bool("token refused"))) return OK;
    g_failed = true;
    return ERGO_TX_SERIALIZER_INPUT_RES_ERR_U64_OVERFLOW;
}
static void pre(void) {
    va_havoc(&F, sizeof F, 0, "ctx");
    va_havoc(&T, sizeof T, 0, "table");
    va_havoc(g_d, sizeof g_d, L_HOST, "data");
    F.hash = &H;
    F.table_ctx.tokens_table = &T;
    g_n = g_m = 0;
    g_failed = false;
    g_tokens = g_types = g_done = g_low = 0;
}
static bool failed(void) {
    return g_low == 1 ? F.box_ctx.state == ERGO_TX_SERIALIZER_BOX_STATE_ERROR : g_low == 2 ? F.input_ctx.state == ERGO_TX_SERIALIZER_INPUT_STATE_ERROR
                      : F.state == ERGO_TX_SERIALIZER_FULL_STATE_ERROR;
}
static void level(uint8_t low) {
    if (va_cases(va_nondet_bool("on its own"))) g_low = low;
}
// what is common to every call: a failure is answered with an error, an error is final
static void post(uint8_t got, uint8_t want) {
    bool good = va_cases(got == OK || got == MORE);
    if (!good || g_failed) {
        va_assert(!good, "P05: a failure is not answered with an error");
        va_assert(failed(), "P05: after an error the serializer can go on");
        va_reached("P05 refused");
        if (!g_failed) va_assert(want != OK && want != MORE, "P03: what was declared is refused");
        va_end_path();
    }
    va_assert(want == OK || want == MORE, "P03: more or other than declared is accepted");
    if (want != OK && want != MORE) va_end_path();
    va_assert(got == want, "P03: a part ends early or late");
    va_assert(g_n == g_m, "P30: more or fewer bytes are hashed than the serialisation has");
    if (g_n != g_m) va_end_path();
    if (g_n) va_assert(va_same(g_tape, g_exp, g_n), "P30: other bytes are hashed than those of the serialisation");
    va_reached("P30 bytes hashed");
}
static bool at(ergo_tx_serializer_full_state_e s) { return g_low || va_must(F.state == s); }
static void begin(void) {
    pre();
    uint16_t in = va_nondet_u16("inputs"), din = va_nondet_u16("data inputs"), out = va_nondet_u16("outputs");
    uint8_t tok = pick(0, 21);
    if (va_cases(in == 0)) {}
    if (va_cases(out == 0)) {}
    if (va_cases(T.count == 0)) {}
    uint8_t n = groups(in);
    bool ok = in != 0 && out != 0 && tok <= 20 && T.count == 0;
    e_vlq(in, n);
    uint8_t r = ergo_tx_serializer_full_init(&F, in, din, out, tok, &H, &T);
    post(r, ok ? OK : 0);
    va_assert(va_eq64(F.inputs_count, in) && va_eq64(F.data_inputs_count, din) && va_eq64(F.outputs_count, out) &&
                  va_eq64(F.table_ctx.distinct_tokens_count, tok), "P03: another number is remembered than declared");
    va_assert(at(tok ? ERGO_TX_SERIALIZER_FULL_STATE_TOKENS_STARTED : ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED), "P03: the first part is not the tokens or inputs");
    va_reached("P03 begun");
}
static void tokens(void) {
    pre();
    uint8_t o = pick(0, 19), d = pick(1, 20), m = pick(0, 7);
    if (o >= d) va_end_path();
    static uint8_t was[20][32];
    bool part = m < 7 && va_cases(va_nondet_bool("part of a token"));
    memcpy(was, T.tokens, sizeof was);
    T.count = o;
    F.table_ctx.distinct_tokens_count = d;
    F.state = ERGO_TX_SERIALIZER_FULL_STATE_TOKENS_STARTED;
    buffer_t b = {g_d, 32u * m + (part ? (size_t) va_nondet_range(1, 31, "part") : 0), 0};
    uint8_t r = ergo_tx_serializer_full_add_tokens(&F, &b);
    post(r, part || o + m > d ? 0 : o + m == d ? OK : MORE);
    va_assert(T.count == o + m, "P03: the number of tokens is counted wrongly");
    for (uint8_t i = 0; i < 20; i++)
        va_assert(va_same(T.tokens[i], i >= o && i < o + m ? g_d + 32 * (i - o) : was[i], 32), "P30: a token of the transaction is kept wrongly");
    va_assert(at(o + m == d ? ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED : ERGO_TX_SERIALIZER_FULL_STATE_TOKENS_STARTED), "P03: the tokens end early or late");
    va_reached(o + m == d ? "P03 tokens complete" : "P03 tokens not complete");
}
static uint16_t g_was;
static void inputs(bool others) {
    F.state = ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED;
    if (others) {
        va_assume(F.inputs_count > 1);
        g_was = F.inputs_count;
        return;
    }
    g_was = F.inputs_count;
    if (va_cases(g_was == 1)) {}
    else va_assume(g_was > 1);
    if (va_cases(F.data_inputs_count == 0)) {}
    F.table_ctx.distinct_tokens_count = g_was == 1 && F.data_inputs_count == 0 ? pick(0, 20) : va_nondet_range(0, 20, "tokens");
    sizes();
}
// an input is complete
static void e_input(void) {
    if (g_was != 1 || g_low) return;
    e_vlq(F.data_inputs_count, g_dl);
    if (F.data_inputs_count == 0) e_table();
}
static void input_done(void) {
    if (g_low) {
        va_assert(ergo_tx_serializer_input_is_finished(&F.input_ctx), "P03: an input ends late");
        return;
    }
    if (g_was != 1) {
        va_assert(at(ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED), "P03: the inputs end before the last one");
        va_assert(va_eq64(F.inputs_count, (uint16_t) (g_was - 1)), "P03: the inputs are counted wrongly");
        va_reached("P03 inputs not complete");
    } else {
        va_assert(at(F.data_inputs_count == 0 ? ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED : ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED), "P03: the inputs do not end with the last one");
        va_reached(F.data_inputs_count == 0 ? "P03 outputs after inputs" : "P03 data inputs after inputs");
        if (F.data_inputs_count == 0) va_assert(ergo_tx_serializer_box_is_finished(&F.box_ctx), "P03: the first output cannot begin");
    }
}
static void input(void) {
    pre();
    static uint8_t id[32];
    va_havoc(id, 32, L_HOST, "id");
    F.state = ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED;
    bool none = va_cases(F.inputs_count == 0), done = va_cases(ergo_tx_serializer_input_is_finished(&F.input_ctx));
    uint16_t was = F.inputs_count;
    uint8_t frames = va_nondet_u8("frames");
    uint32_t ext = va_nondet_u32("extension");
    bool bad = va_cases(ext == 1) || va_cases(ext > 32768);
    level(2);
    uint8_t r = g_low ? ergo_tx_serializer_input_init(&F.input_ctx, id, frames, ext, &T, &H) : ergo_tx_serializer_full_add_input(&F, id, frames, ext);
    post(r, (g_low || (!none && done)) && !bad ? OK : 0);
    va_assert(at(ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED), "P03: beginning an input ends the inputs");
    va_assert(va_eq64(F.inputs_count, was), "P03: an input counts before it is complete");
    va_assert(va_same(F.input_ctx.box_id, id, 32) && va_eq64(F.input_ctx.frames_count, frames) && va_eq64(F.input_ctx.context_extension_data_size, ext) &&
                  F.input_ctx.frames_processed == 0 && !ergo_tx_serializer_input_is_finished(&F.input_ctx), "P03: an input begins with other data than declared");
    va_reached("P03 input begun");
}
static void frames(void) {
    pre();
    static uint8_t id[32];
    level(2);
    uint8_t mode = pick(0, 2);   // another input's frame; any tokens; what follows the last frame
    inputs(mode != 2 || g_low);
    F.input_ctx.hash = &H;
    F.input_ctx.tokens_table = &T;
    F.input_ctx.state = ERGO_TX_SERIALIZER_INPUT_STATE_FRAMES_STARTED;
    ergo_tx_serializer_input_set_callback(&F.input_ctx, on_input, NULL);
    static const uint8_t ks[7] = {0, 1, 2, 3, 4, 127, 254};
    uint8_t k = F.input_ctx.frames_processed = ks[mode == 1 ? pick(0, 6) : 1], i = va_nondet_u8("index"), f = F.input_ctx.frames_count;
    bool next = va_cases(i == k), last = va_cases(f == k + 1);
    if (!last) va_assume(f > k + 1);
    bool below = va_cases(i < f);
    uint32_t ext = F.input_ctx.context_extension_data_size;
    bool noext = va_cases(ext == 0), same = mode != 0;
    memcpy(id, F.input_ctx.box_id, 32);
    if (!same) {
        uint8_t p = pick(0, 31);
        va_assume(id[p] != F.input_ctx.box_id[p]);
        id[p] = va_nondet_u8("other");
        va_assume(id[p] != F.input_ctx.box_id[p]);
    }
    uint8_t m = mode == 1 ? pick(0, 4) : 1;
    bool part = mode == 1 && m < 4 && va_cases(va_nondet_bool("part of a token"));
    buffer_t b = {g_d, 40u * m + (part ? (size_t) va_nondet_range(1, 39, "part") : 0), 0};
    if (last) {
        e_bytes(id, 32);
        e_u8(0);
        if (noext) {
            e_u8(0);
            e_input();
        }
    }
    uint8_t r = g_low ? ergo_tx_serializer_input_add_tokens(&F.input_ctx, id, i, &b) : ergo_tx_serializer_full_add_input_tokens(&F, id, i, &b);
    post(r, !next || !below || !same || part ? 0 : last ? OK : MORE);
    va_assert(g_tokens == m, "P30: a token of an input is not announced");
    if (!last) {
        va_assert(at(ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED) && va_eq64(F.input_ctx.frames_processed, (uint8_t) (k + 1)) && !ergo_tx_serializer_input_is_finished(&F.input_ctx), "P03: the frames end early");
        va_reached("P03 frames not complete");
    } else if (noext) {
        va_reached("P03 frames complete");
        if (g_was != 1) va_assert(ergo_tx_serializer_input_is_finished(&F.input_ctx), "P03: the frames end late");
        input_done();
    } else {
        va_assert(at(ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED) && F.input_ctx.state == ERGO_TX_SERIALIZER_INPUT_STATE_EXTENSION_STARTED, "P03: the extension does not follow the frames");
        va_assert(va_eq64(F.inputs_count, g_was) && va_eq64(F.input_ctx.context_extension_data_size, ext), "P03: an input ends before its extension");
        va_reached("P03 extension after frames");
    }
}
static size_t chunk(void) {
    static const uint8_t ls[4] = {0, 1, 36, 255};
    return ls[pick(0, 3)];
}
static void extension(void) {
    pre();
    level(2);
    inputs(g_low);
    F.input_ctx.hash = &H;
    F.input_ctx.state = ERGO_TX_SERIALIZER_INPUT_STATE_EXTENSION_STARTED;
    size_t l = chunk();
    uint32_t ext = F.input_ctx.context_extension_data_size;
    bool last = va_cases(ext == l), more = !last && va_cases(ext > l);
    buffer_t b = {g_d, l, 0};
    e_bytes(g_d, l);
    if (last) e_input();
    uint8_t r = g_low ? ergo_tx_serializer_input_add_context_extension(&F.input_ctx, &b) : ergo_tx_serializer_full_add_input_context_extension(&F, &b);
    post(r, last ? OK : more ? MORE : 0);
    if (last) {
        va_reached("P03 extension complete");
        input_done();
    } else {
        va_assert(at(ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED) && va_eq64(F.inputs_count, g_was) && va_eq64(F.input_ctx.context_extension_data_size, ext - l), "P03: an extension ends early");
        va_reached("P03 extension not complete");
    }
}
static void data_inputs(void) {
    pre();
    F.state = ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED;
    uint8_t m = pick(0, 7);
    bool part = m < 7 && va_cases(va_nondet_bool("part of an input"));
    uint16_t was = F.data_inputs_count;
    va_assume(was >= 1);
    bool last = va_cases(was == m), more = !last && va_cases(was > m);
    if (!last && !more) for (uint8_t i = 1; i < m; i++) if (va_cases(was == i)) break;
    F.table_ctx.distinct_tokens_count = last ? pick(0, 20) : va_nondet_range(0, 20, "tokens");
    g_ol = groups(F.outputs_count);
    uint16_t out = F.outputs_count;
    buffer_t b = {g_d, 32u * m + (part ? (size_t) va_nondet_range(1, 31, "part") : 0), 0};
    e_bytes(g_d, 32 * m);
    if (last) e_table();
    uint8_t r = ergo_tx_serializer_full_add_data_inputs(&F, &b);
    post(r, part || (!last && !more) ? 0 : last ? OK : MORE);
    va_assert(at(last ? ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED : ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED), "P03: the data inputs end early or late");
    va_assert(va_eq64(F.outputs_count, out), "P03: the outputs are counted wrongly");
    if (last) va_assert(ergo_tx_serializer_box_is_finished(&F.box_ctx), "P03: the first output cannot begin");
    else va_assert(va_eq64(F.data_inputs_count, (uint16_t) (was - m)), "P03: the data inputs are counted wrongly");
    va_reached(last ? "P03 data inputs complete" : "P03 data inputs not complete");
}
static void output(void) {
    pre();
    F.state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
    bool none = va_cases(F.outputs_count == 0), done = va_cases(ergo_tx_serializer_box_is_finished(&F.box_ctx));
    uint16_t was = F.outputs_count;
    uint64_t value = va_nondet_u64("value");
    uint32_t tree = va_nondet_u32("tree"), height = va_nondet_u32("height"), regs = va_nondet_u32("registers");
    uint8_t tok = va_nondet_u8("tokens"), n = groups(value);
    bool bad = va_cases(tok > 20);
    if (va_cases(tree > 32768)) bad = true;
    if (va_cases(regs > 32768)) bad = true;
    e_vlq(value, n);
    level(1);
    uint8_t r = g_low ? ergo_tx_serializer_box_init(&F.box_ctx, value, tree, height, tok, regs, &H) : ergo_tx_serializer_full_add_box(&F, value, tree, height, tok, regs);
    post(r, (g_low || (!none && done)) && !bad ? OK : 0);
    va_assert(va_eq64(F.outputs_count, was) && at(ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED), "P03: an output counts before it is complete");
    va_assert(va_eq64(F.box_ctx.ergo_tree_size, tree) && va_eq64(F.box_ctx.creation_height, height) && va_eq64(F.box_ctx.tokens_count, tok) &&
                  va_eq64(F.box_ctx.registers_size, regs) && va_eq64(F.box_ctx.value, value), "P03: an output begins with other data than declared");
    va_assert(!ergo_tx_serializer_box_is_finished(&F.box_ctx), "P03: an output is complete at once");
    va_reached("P03 output begun");
}
static uint8_t g_tok;
static bool g_last, g_noregs;
static uint32_t g_regs;
static void box(uint8_t state) {
    level(1);
    F.state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
    F.box_ctx.hash = &H;
    F.box_ctx.state = state;
    ergo_tx_serializer_box_set_callbacks(&F.box_ctx, on_type, on_token, on_done, NULL);
    g_was = F.outputs_count;
    g_last = !g_low && va_cases(g_was == 1);
    if (!g_last) va_assume(g_was > 1);
    g_regs = F.box_ctx.registers_size;
    g_noregs = va_cases(g_regs == 0);
}
static void box_done(void) {
    va_assert(g_done == 1, "P03: the end of an output is announced not at all or twice");
    va_assert(at(g_last ? ERGO_TX_SERIALIZER_FULL_STATE_FINISHED : ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED), "P03: the outputs end early or late");
    if (g_low) {
        va_assert(ergo_tx_serializer_box_is_finished(&F.box_ctx), "P03: a box ends late");
        return;
    }
    va_assert(ergo_tx_serializer_full_is_finished(&F) == g_last, "P03: the outputs end early or late");
    va_assert(va_eq64(F.outputs_count, (uint16_t) (g_was - 1)) && ergo_tx_serializer_box_is_finished(&F.box_ctx), "P03: the outputs are counted wrongly");
    va_reached(g_last ? "P03 outputs complete" : "P03 outputs not complete");
}
static void box_goes_on(uint8_t state) {
    va_assert(g_done == 0 && at(ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED) && va_eq64(F.outputs_count, g_was), "P03: an output ends early");
    va_assert(F.box_ctx.state == state, "P03: the parts of an output follow one another wrongly");
    va_reached("P03 output not complete");
}
static void e_tree(uint8_t n) {
    e_vlq(F.box_ctx.creation_height, n);
    e_u8(F.box_ctx.tokens_count);
    if (F.box_ctx.tokens_count == 0 && g_noregs) e_u8(0);
}
static void tree(void) {
    pre();
    box(ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED);
    uint8_t kind = pick(0, 2);
    uint8_t tok = pick(0, 20), n = groups(F.box_ctx.creation_height);
    F.box_ctx.tokens_count = tok;
    uint32_t size = F.box_ctx.ergo_tree_size;
    uint8_t r, want = OK, type;
    if (kind == 0) {
        size_t l = chunk();
        bool last = va_cases(size == l), more = !last && va_cases(size > l);
        buffer_t b = {g_d, l, 0};
        e_bytes(g_d, l);
        if (last) e_tree(n);
        r = g_low ? ergo_tx_serializer_box_add_tree(&F.box_ctx, &b) : ergo_tx_serializer_full_add_box_ergo_tree(&F, &b);
        type = ERGO_TX_SERIALIZER_BOX_TYPE_TREE;
        want = last ? OK : more && l == 255 ? MORE : 0;
        if (more) {
            post(r, want);
            va_assert(g_types == 0 && va_eq64(F.box_ctx.ergo_tree_size, size - l), "P03: a script ends early");
            box_goes_on(ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED);
            va_reached("P03 script not complete");
            return;
        }
    } else if (kind == 1) {
        static const uint8_t fee[105] = {
            0x10, 0x05, 0x04, 0x00, 0x04, 0x00, 0x0e, 0x36, 0x10, 0x02, 0x04, 0xa0, 0x0b, 0x08, 0xcd, 0x02, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc,
            0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b,
            0x16, 0xf8, 0x17, 0x98, 0xea, 0x02, 0xd1, 0x92, 0xa3, 0x9a, 0x8c, 0xc7, 0xa7, 0x01, 0x73, 0x00, 0x73, 0x01, 0x10, 0x01, 0x02, 0x04,
            0x02, 0xd1, 0x96, 0x83, 0x03, 0x01, 0x93, 0xa3, 0x8c, 0xc7, 0xb2, 0xa5, 0x73, 0x00, 0x00, 0x01, 0x93, 0xc2, 0xb2, 0xa5, 0x73, 0x01,
            0x00, 0x74, 0x73, 0x02, 0x73, 0x03, 0x83, 0x01, 0x08, 0xcd, 0xee, 0xac, 0x93, 0xb1, 0xa5, 0x73, 0x04};
        e_bytes(fee, 105);
        e_tree(n);
        r = g_low ? ergo_tx_serializer_box_add_miners_fee_tree(&F.box_ctx, true) : ergo_tx_serializer_full_add_box_miners_fee_tree(&F, true);
        type = ERGO_TX_SERIALIZER_BOX_TYPE_FEE;
    } else {
        static uint8_t pub[65];
        va_havoc(pub, 65, L_PUB, "key");
        e_u8(0x00), e_u8(0x08), e_u8(0xCD);
        e_u8(va_cases((pub[64] & 1) == 1) ? 3 : 2);
        e_bytes(pub + 1, 32);
        e_tree(n);
        r = g_low ? ergo_tx_serializer_box_add_change_tree(&F.box_ctx, pub) : ergo_tx_serializer_full_add_box_change_tree(&F, pub);
        type = ERGO_TX_SERIALIZER_BOX_TYPE_CHANGE;
    }
    post(r, want);
    va_assert(g_types == 1 && F.box_ctx.type == type, "P30: the kind of an output is not announced");
    if (tok == 0 && g_noregs) box_done();
    else box_goes_on(tok == 0 ? ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED : ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED);
    va_reached(kind == 0 ? "P03 script complete" : kind == 1 ? "P03 fee script" : "P03 change script");
}
static void out_tokens(void) {
    pre();
    box(ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED);
    g_table = true;
    uint8_t m = pick(0, 3), big = 255;
    F.table_ctx.distinct_tokens_count = 20;
    if (m == 3 && va_cases(va_nondet_bool("all"))) m = 20;
    else if (m && va_cases(va_nondet_bool("index past the last"))) {
        big = pick(0, m - 1);
        F.table_ctx.distinct_tokens_count = pick(0, 5) * 4;
    }
    bool part = m < 20 && va_cases(va_nondet_bool("part of a token"));
    uint8_t had = F.box_ctx.tokens_count;
    va_assume(had >= 1 && had <= 20);
    bool last = va_cases(had == m), more = !last && va_cases(had > m);
    if (!last && !more) for (uint8_t i = 1; i < m; i++) if (va_cases(had == i)) break;
    static const uint8_t ks[20] = {19, 3, 11, 0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18};
    for (uint8_t j = 0; j < m; j++) {
        if (j == big) va_assume(read_u32_be(g_d, 12 * j) >= F.table_ctx.distinct_tokens_count);
        else {
            g_d[12 * j] = g_d[12 * j + 1] = g_d[12 * j + 2] = 0;
            g_d[12 * j + 3] = big == 255 ? ks[j] : F.table_ctx.distinct_tokens_count ? F.table_ctx.distinct_tokens_count - 1 : 0;
        }
        if (m == 20 || (m > 1 && j != 1))
            for (uint8_t i = 4; i < 12; i++) g_d[12 * j + i] = j * 4 + i;
    }
    if (big == 255)
        for (uint8_t j = 0; j < m && j < had; j++) {
            uint64_t v = read_u64_be(g_d, 12 * j + 4);
            e_u8(ks[j]);
            e_vlq(v, m == 20 || (m > 1 && j != 1) ? 9 : groups(v));
        }
    if (last && g_noregs) e_u8(0);
    buffer_t b = {g_d, 12u * m + (part ? (size_t) va_nondet_range(1, 11, "part") : 0), 0};
    uint8_t r = g_low ? ergo_tx_serializer_box_add_tokens(&F.box_ctx, &b, &F.table_ctx) : ergo_tx_serializer_full_add_box_tokens(&F, &b);
    post(r, part || big != 255 || (!last && !more) ? 0 : last ? OK : MORE);
    va_assert(g_tokens == m, "P30: a token of an output is not announced");
    if (!last) {
        va_assert(va_eq64(F.box_ctx.tokens_count, (uint8_t) (had - m)), "P03: the tokens of an output are counted wrongly");
        box_goes_on(ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED);
        va_reached("P03 tokens of an output not complete");
    } else {
        if (g_noregs) box_done();
        else box_goes_on(ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED);
        va_reached("P03 tokens of an output complete");
    }
}
static void registers(void) {
    pre();
    box(ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED);
    size_t l = chunk();
    bool last = va_cases(g_regs == l), more = !last && va_cases(g_regs > l);
    buffer_t b = {g_d, l, 0};
    e_bytes(g_d, l);
    uint8_t r = g_low ? ergo_tx_serializer_box_add_registers(&F.box_ctx, &b) : ergo_tx_serializer_full_add_box_registers(&F, &b);
    post(r, last ? OK : more ? MORE : 0);
    if (last) box_done();
    else {
        va_assert(va_eq64(F.box_ctx.registers_size, g_regs - l), "P03: the registers of an output are counted wrongly");
        box_goes_on(ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED);
        va_reached("P03 registers not complete");
    }
}
// a call that is not due, or after an error
static void out_of_order(void) {
    pre();
    static const uint8_t due[11] = {ERGO_TX_SERIALIZER_FULL_STATE_TOKENS_STARTED, ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED, ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED,
        ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED, ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED,
        ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED,
        ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED};
    static uint8_t id[65];
    uint8_t f = pick(0, 10), r;
    bool inner = va_cases(va_nondet_bool("part not due"));
    if (inner) {  // the part of the transaction is due, the part of the input or output is not
        F.state = due[f];
        F.box_ctx.hash = &H;
        F.input_ctx.hash = &H;
        F.box_ctx.state = pick(0, ERGO_TX_SERIALIZER_BOX_STATE_ERROR);
        if (due[f] == ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED) F.input_ctx.state = pick(0, ERGO_TX_SERIALIZER_INPUT_STATE_ERROR);
        uint8_t s = due[f] == ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED ? F.input_ctx.state : F.box_ctx.state;
        uint8_t ok = f == 1 ? ERGO_TX_SERIALIZER_INPUT_STATE_FINISHED : f == 2 ? ERGO_TX_SERIALIZER_INPUT_STATE_FRAMES_STARTED
                     : f == 3 ? ERGO_TX_SERIALIZER_INPUT_STATE_EXTENSION_STARTED : f == 5 ? ERGO_TX_SERIALIZER_BOX_STATE_FINISHED
                     : f == 9 ? ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED : f == 10 ? ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED : ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED;
        if (f == 0 || f == 4 || s == ok) va_end_path();
        if (f != 1 && f != 5) level(f < 5 ? 2 : 1);
    } else {
        F.state = pick(0, ERGO_TX_SERIALIZER_FULL_STATE_ERROR);
        if (F.state == due[f]) va_end_path();
    }
    buffer_t b = {g_d, va_nondet_range(0, 255, "len"), 0};
    switch (f) {
        case 0: r = ergo_tx_serializer_full_add_tokens(&F, &b); break;
        case 1: r = ergo_tx_serializer_full_add_input(&F, id, va_nondet_u8("f"), va_nondet_u32("e")); break;
        case 2: r = g_low ? ergo_tx_serializer_input_add_tokens(&F.input_ctx, id, va_nondet_u8("f"), &b) : ergo_tx_serializer_full_add_input_tokens(&F, id, va_nondet_u8("f"), &b); break;
        case 3: r = g_low ? ergo_tx_serializer_input_add_context_extension(&F.input_ctx, &b) : ergo_tx_serializer_full_add_input_context_extension(&F, &b); break;
        case 4: r = ergo_tx_serializer_full_add_data_inputs(&F, &b); break;
        case 5: r = ergo_tx_serializer_full_add_box(&F, va_nondet_u64("v"), va_nondet_u32("t"), va_nondet_u32("h"), va_nondet_u8("n"), va_nondet_u32("r")); break;
        case 6: r = g_low ? ergo_tx_serializer_box_add_tree(&F.box_ctx, &b) : ergo_tx_serializer_full_add_box_ergo_tree(&F, &b); break;
        case 7: r = g_low ? ergo_tx_serializer_box_add_change_tree(&F.box_ctx, id) : ergo_tx_serializer_full_add_box_change_tree(&F, id); break;
        case 8: r = g_low ? ergo_tx_serializer_box_add_miners_fee_tree(&F.box_ctx, true) : ergo_tx_serializer_full_add_box_miners_fee_tree(&F, true); break;
        case 9: r = g_low ? ergo_tx_serializer_box_add_tokens(&F.box_ctx, &b, &F.table_ctx) : ergo_tx_serializer_full_add_box_tokens(&F, &b); break;
        default: r = g_low ? ergo_tx_serializer_box_add_registers(&F.box_ctx, &b) : ergo_tx_serializer_full_add_box_registers(&F, &b); break;
    }
    va_assert(r != OK && r != MORE, "P05: a part is accepted out of order or after an error");
    va_assert(failed(), "P05: after an error the serializer can go on");
    va_assert(g_n == 0, "P05: bytes of a refused part are hashed");
    va_reached(inner ? "P05 part out of order" : "P05 out of order");
}
// a box on its own, as when an input is attested: tokens by identifier, and the hash that is its identifier
static uint8_t *g_id;
static bool g_final;
void hook_hash_done(const uint8_t *out, size_t out_len) {
    va_assert(!g_final && out == g_id && out_len == 32, "P30: a hash is taken that is not the identifier of the box");
    g_final = true;
}
static void attested(void) {
    pre();
    ergo_tx_serializer_box_context_t *b = &F.box_ctx;
    static uint8_t id[32], tx[32];
    g_id = id;
    g_final = false;
    b->hash = &H;
    g_low = 1;
    ergo_tx_serializer_box_set_callbacks(b, on_type, on_token, on_done, NULL);
    uint8_t r, want;
    if (va_cases(va_nondet_bool("identifier"))) {
        va_havoc(tx, 32, L_HOST, "tx");
        uint8_t s = b->state = pick(0, ERGO_TX_SERIALIZER_BOX_STATE_ERROR);
        uint16_t i = va_nondet_u16("index");
        uint8_t n = groups(i);
        want = s == ERGO_TX_SERIALIZER_BOX_STATE_FINISHED ? OK : 0;
        e_bytes(tx, 32);
        e_vlq(i, n);
        r = ergo_tx_serializer_box_id_hash(b, tx, i, id);
        post(r, want);
        va_assert(g_final, "P30: the identifier of a box is not its hash");
        va_assert(!ergo_tx_serializer_box_is_finished(b), "P03: the identifier of a box can be taken twice");
        va_reached("P30 identifier");
        return;
    }
    b->state = ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED;
    uint8_t m = pick(0, 6), had = b->tokens_count;
    bool part = m < 6 && va_cases(va_nondet_bool("part of a token"));
    g_noregs = va_cases(b->registers_size == 0);
    va_assume(had >= 1 && had <= 20);
    bool last = va_cases(had == m), more = !last && va_cases(had > m);
    if (!last && !more) for (uint8_t i = 1; i < m; i++) if (va_cases(had == i)) break;
    for (uint8_t j = 0; j < m; j++) {
        if (j != 1) for (uint8_t i = 32; i < 40; i++) g_d[40 * j + i] = j * 4 + i - 28;
        e_bytes(g_d + 40 * j, 32);
        uint64_t v = read_u64_be(g_d, 40 * j + 32);
        e_vlq(v, j != 1 ? 9 : groups(v));
    }
    if (last && g_noregs) e_u8(0);
    buffer_t in = {g_d, 40u * m + (part ? (size_t) va_nondet_range(1, 24, "part") : 0), 0};
    r = ergo_tx_serializer_box_add_tokens(b, &in, NULL);
    post(r, part || (!last && !more) ? 0 : last ? OK : MORE);
    va_assert(g_tokens == m, "P30: a token of a box is not announced");
    va_assert(ergo_tx_serializer_box_is_finished(b) == (last && g_noregs), "P03: a box ends early or late");
    if (!last) va_assert(va_eq64(b->tokens_count, (uint8_t) (had - m)), "P03: the tokens of a box are counted wrongly");
    va_reached(last ? "P03 tokens of a box complete" : "P03 tokens of a box not complete");
}
void va_main(void) {
    va_config("limit", 8000);
    switch (pick(0, 11)) {
        case 0: begin(); break;
        case 1: tokens(); break;
        case 2: input(); break;
        case 3: frames(); break;
        case 4: extension(); break;
        case 5: data_inputs(); break;
        case 6: output(); break;
        case 7: tree(); break;
        case 8: out_tokens(); break;
        case 9: registers(); break;
        case 10: out_of_order(); break;
        case 11: attested(); break;
    }
}
