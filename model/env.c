// The device around the application: SDK services, the user, and the host, as nondeterministic abstractions.
// Interpreted by the engine; never executed.
#include "env.h"
#include "hooks.h"

struct ev E;
uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
ux_state_t G_ux;
const bagl_icon_details_t C_icon_warning, C_icon_validate_14, C_icon_crossmark, C_icon_certificate, C_icon_dashboard_x,
    C_icon_back, C_icon_eye, C_icon_processing, C_app_logo, C_icon_back_x, C_icon_coin;

// ---------------------------------------------------------------- cryptography
static cx_err_t cx_status(void) {
    if (va_nondet_bool("cx error")) {
        hook_fail();
        return va_nondet_range(0xFFFFFF20u, 0xFFFFFFEFu, "cx code");
    }
    return CX_OK;
}
void cx_rng_no_throw(uint8_t *buffer, size_t len) {
    va_drawn();
    if (len == 32) {
        va_havoc(buffer, 32, L_NONCE, "rng32");
        hook_nonce(buffer);
    } else if (len > 4)
        va_havoc(buffer, len, L_SESSKEY, "rngkey");
    else
        va_havoc(buffer, len, 0, "rng");
    hook_rng(buffer, len);
}
unsigned char *cx_rng(uint8_t *buffer, size_t len) {
    cx_rng_no_throw(buffer, len);
    return buffer;
}
uint8_t cx_rng_u8(void) {
    va_drawn();
    return va_nondet_u8("rng8");
}
uint32_t cx_rng_u32(void) {
    va_drawn();
    return va_nondet_u32("rng32");
}
size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, uint8_t *mac, size_t mac_len) {
    va_derive(mac, mac_len, "hmac", L_HMAC, key, key_len, in, len);
    hook_hmac(key, key_len, in, len, mac, mac_len);
    return mac_len;
}
bool cx_math_is_zero(const uint8_t *a, size_t len) {
    (void) va_labels(a, len);
    if (!va_nondet_bool("is zero")) {
        hook_not_zero(a, len);
        return false;
    }
    hook_bad_scalar();
    return true;
}
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t length, int *diff) {
    if (cx_status()) return 0xFFFFFF82u;
    *diff = (int) va_nondet_u32("cmp");
    hook_compare(a, b, length, *diff);
    if (*diff >= 0) hook_bad_scalar();
    return CX_OK;
}
// r = a*b, a+b: the result carries the labels of the operands; adding the ephemeral key blinds a secret once
static cx_err_t math2(uint8_t *r, const char *op, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len, bool add) {
    cx_err_t e = cx_status();
    if (e) return e;
    uint32_t la = va_labels(a, len), lb = va_labels(b, len), l = la | lb;
    const uint32_t hot = L_SECRET | L_NONCE;
    if (add && (((la & hot) == L_NONCE && (lb & hot) == L_SECRET) || ((lb & hot) == L_NONCE && (la & hot) == L_SECRET))) {
        hook_blind((la & L_NONCE) ? a : b);
        l = L_SIG;
    }
    uint8_t t[32];
    va_assume(len <= 32);
    va_derive(t, len, op, l, a, len, b, len, m, len);
    memcpy(r, t, len);
    return CX_OK;
}
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    return math2(r, "mulm", a, b, m, len, false);
}
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    return math2(r, "addm", a, b, m, len, true);
}
cx_err_t cx_math_subm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    return math2(r, "subm", a, b, m, len, true);
}
cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t len_v, const uint8_t *m, size_t len_m) {
    uint8_t t[64];
    va_assume(len_v <= 64);
    va_derive(t, len_v, "modm", va_labels(v, len_v), v, len_v, m, len_m);
    memcpy(v, t, len_v);
    return cx_status();
}
cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const unsigned int *path, size_t path_len,
                                  unsigned char raw[static 64], unsigned char *chain_code) {
    (void) curve;
    hook_derive(path, path_len);
    cx_err_t e = cx_status();
    if (e) {
        memset(raw, 0, 64);
        return e;
    }
    va_derive(raw, 32, "priv", L_SECRET, path, path_len * 4);
    memset(raw + 32, 0, 32);
    if (chain_code) {
        va_derive(chain_code, 32, "chain", L_CHAIN, path, path_len * 4);
        hook_chain_code(chain_code);
    }
    return CX_OK;
}
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len,
                                           cx_ecfp_256_private_key_t *key) {
    cx_err_t e = cx_status();
    if (e) return e;
    va_assume(len <= 32);
    key->curve = curve;
    key->d_len = len;
    memcpy(key->d, raw, len);
    return CX_OK;
}
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub, cx_ecfp_256_private_key_t *priv,
                                        bool keep_private) {
    hook_generate_pair(pub, priv, keep_private);
    cx_err_t e = cx_status();
    if (e) return e;
    pub->curve = curve;
    pub->W_len = 65;
    pub->W[0] = 4;
    va_derive(pub->W + 1, 64, "pub", L_PUB, priv->d, 32);
    hook_public_key(pub->W);
    return CX_OK;
}
static const uint8_t C_G[65] = {
    0x04, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d,
    0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98, 0x48, 0x3a, 0xda, 0x77, 0x26, 0xa3, 0xc4, 0x65, 0x5d, 0xa4, 0xfb,
    0xfc, 0x0e, 0x11, 0x08, 0xa8, 0xfd, 0x17, 0xb4, 0x48, 0xa6, 0x85, 0x54, 0x19, 0x9c, 0x47, 0xd0, 0x8f, 0xfb, 0x10, 0xd4, 0xb8};
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *p, const uint8_t *k, size_t k_len) {
    (void) curve;
    cx_err_t e = cx_status();
    if (e) return e;
    uint8_t t[65];
    hook_scalar_mult(p, k, k_len);
    t[0] = 4;
    // the generator times a key is its public key
    if (k_len == 32 && va_same(p, C_G, 65)) va_derive(t + 1, 64, "pub", L_PUB, k, 32);
    else va_derive(t + 1, 64, "mulp", L_PUB, p, 65, k, k_len);
    memcpy(p, t, 65);
    hook_point(p);
    return CX_OK;
}
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t out_bits) {
    hook_hash_start();
    cx_err_t e = cx_status();
    if (e) return e;
    hash->header.md_type = CX_BLAKE2B;
    hash->header.output_size = out_bits / 8;
    va_derive(hash->opaque, 32, "hinit", 0, &hash->header.output_size, sizeof(hash->header.output_size));
    memset(hash->opaque + 8, 0, sizeof(hash->opaque) - 32);
    hook_hash_init(hash);
    return CX_OK;
}
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    cx_blake2b_t *h = (cx_blake2b_t *) hash;
    hook_hash(h, mode, in, len, out, out_len);
    cx_err_t e = cx_status();
    if (e) return e;
    if (len) {
        va_derive(h->opaque, 32, "hupd", va_labels(h->opaque, 32) | va_labels(in, len), h->opaque, 32, in, len);
    }
    if (mode & CX_LAST) {
        va_derive(out, out_len, "hfin", va_labels(h->opaque, 32) & ~(L_HOST | L_UNINIT), h->opaque, 32);
        hook_hash_done(out, out_len);
    }
    return CX_OK;
}
cx_err_t cx_blake2b_256_hash(const uint8_t *data, size_t len, uint8_t out[static CX_BLAKE2B_256_SIZE]) {
    cx_err_t e = cx_status();
    if (e) return e;
    va_derive(out, 32, "b2b256", va_labels(data, len) & ~(L_HOST | L_UNINIT), data, len);
    return CX_OK;
}

// ---------------------------------------------------------------- text
int base58_encode(const uint8_t *in, size_t in_len, char *out, size_t out_len) {
    hook_base58(in, in_len);
    if (va_nondet_bool("base58 fails")) {
        hook_unfit(in_len > 120 || out_len < in_len * 138 / 100 + 1);
        return -1;
    }
    uint32_t l = va_labels(in, in_len);
    va_derive(out, out_len, "b58", l, in, in_len);
    hook_text_made(out, out_len);
    size_t most = in_len * 138 / 100 + 1;
    if (va_must(most <= out_len)) return (int) va_nondet_range(1, most, "b58len");
    return (int) va_nondet_range(1, out_len, "b58len");
}
int base58_decode(const char *in, size_t in_len, uint8_t *out, size_t out_len) {
    va_derive(out, out_len, "b58d", va_labels(in, in_len), in, in_len);
    return (int) va_nondet_u32("b58dlen");
}
bool bip32_path_format(const uint32_t *path, size_t path_len, char *out, size_t out_len) {
    if (path_len == 0 || path_len > 10) return false;
    hook_path_text(path, path_len, out);
    if (va_nondet_bool("path does not fit")) {
        hook_unfit_path(path, path_len, out_len);
        memset(out, 0, out_len);
        return false;
    }
    va_derive(out, out_len, "pathtxt", 0, path, path_len * 4);
    hook_text_made(out, out_len);
    return true;
}
bool format_i64(char *dst, size_t dst_len, const int64_t value) {
    if (va_nondet_bool("i64 does not fit")) {
        hook_unfit(dst_len < 24);
        return false;
    }
    va_derive(dst, dst_len, "i64txt", 0, &value, 8);
    return true;
}
bool format_u64(char *dst, size_t dst_len, uint64_t value) {
    hook_amount(value, 0);
    if (va_nondet_bool("u64 does not fit")) {
        hook_unfit(dst_len < 24);
        return false;
    }
    va_derive(dst, dst_len, "u64txt", 0, &value, 8);
    hook_text_made(dst, dst_len);
    return true;
}
bool format_fpu64(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals) {
    hook_amount(value, decimals);
    if (va_nondet_bool("fpu64 does not fit")) {
        hook_unfit(dst_len < 24);
        return false;
    }
    va_derive(dst, dst_len, "fputxt", 0, &value, 8, &decimals, 1);
    hook_text_made(dst, dst_len);
    return true;
}
int format_hex(const uint8_t *in, size_t in_len, char *out, size_t out_len) {
    hook_hex(in, in_len);
    if (out_len < 2 * in_len + 1) return -1;
    va_derive(out, 2 * in_len + 1, "hextxt", va_labels(in, in_len), in, in_len);
    hook_text_made(out, 2 * in_len + 1);
    return (int) (2 * in_len + 1);
}

// ---------------------------------------------------------------- user interface
static const ux_flow_step_t *const *g_steps;
static const ux_flow_step_t *g_cur;
static bool g_in_flow, g_confirm;
uint8_t g_kind;
// the screens of the flow on display, as the array the application registered holds them now
static const ux_flow_step_t *g_live[16];
static uint8_t g_len;                  // how many there are
static const ux_flow_step_t *g_term;   // what ends them
static void refresh_live(void) {
    static const uint8_t number[17] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
    bool end = g_steps == NULL;
    g_len = 0;
    g_term = NULL;
    for (uint32_t i = 0; i < 16; i++) {
        const ux_flow_step_t *s = NULL;
        if (!end) {
            s = g_steps[i];
            va_assert(s != NULL, "P20: a screen that was never set up is put on display");
            if (s == NULL || s == FLOW_LOOP || s == FLOW_END_STEP || s == FLOW_BARRIER) {
                end = true;
                g_term = s ? s : FLOW_END_STEP;
                s = NULL;
            } else
                g_len = number[i + 1];
        }
        g_live[i] = s;
    }
}
// at rest the array is what refresh_live read; states that were joined are reminded of it
static void sync_live(void) {
    if (g_steps == NULL || va_room(g_steps) == 0) return;
    const ux_flow_step_t **a = (const ux_flow_step_t **) g_steps;
    for (uint32_t i = 0; i < 16 && i < g_len; i++) a[i] = g_live[i];
    a[g_len] = g_term;
    // what lies behind was never on display: whoever shows it meets a null screen
    uint32_t room = va_room(a) / sizeof(*a);
    for (uint32_t i = 0; i < 16; i++)
        if (i > g_len && i < room) a[i] = NULL;
}

static void run_step(const ux_flow_step_t *s) {
    g_cur = s;
    s->init(0);
}
unsigned int ux_stack_push(void) {
    if (G_ux.stack_count < 2) G_ux.stack_count++;
    return 0;
}
void ux_flow_init(unsigned int stack_slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start_step) {
    (void) stack_slot;
    (void) start_step;
    g_steps = steps;
    g_confirm = false;
    for (uint32_t i = 0; i < 16; i++) {
        const ux_flow_step_t *s = steps[i];
        if (s == FLOW_LOOP || s == FLOW_END_STEP || s == FLOW_BARRIER) break;
        if (s->params && *(const void *const *) s->params == (const void *) &C_icon_validate_14) g_confirm = true;
    }
    if (g_confirm) E.opened = true;
    // what the flow asks the user to decide: set by the command that opened it
    g_kind = K_NONE;
    if (g_confirm && E.apdu) {
        if (E.ins == 0x10) g_kind = K_PUBKEY;
        else if (E.ins == 0x11) g_kind = K_ADDRESS;
        else if (E.ins == 0x20) g_kind = K_ATTEST;
        else if (E.ins == 0x21 && E.p1 == 0x01) g_kind = K_SESSION;
        else if (E.ins == 0x21 && E.p1 == 0x20) g_kind = K_SIGN;
        else if (E.ins == 0x21) g_kind = K_OUTPUT;
        else g_kind = K_OTHER;
    }
    hook_flow(steps);
    if (!g_in_flow) {  // the first screen is drawn at once
        g_in_flow = true;
        const ux_flow_step_t *s = steps[0];
        if (s != FLOW_LOOP && s != FLOW_END_STEP && s != FLOW_BARRIER) run_step(s);
        g_in_flow = false;
    }
}
static uint32_t g_cur_i;   // where in the flow the step being initialised is
static void drawn2(void);
static uint8_t g_moves;    // screens that moved on at once since the user's press
// a step that only prepares the text of its neighbour moves on to it at once
static void draw_neighbour(uint32_t i) {
    if (!g_in_flow || i >= 16 || g_live[i] == NULL) return;
    ux_flow_step_init_t f = g_live[i]->init;
    bool paging = f == ux_layout_bnnn_paging_init;
    bool plain = paging || f == ux_layout_bn_init || f == ux_layout_nn_init || f == ux_layout_bb_init || f == ux_layout_bnn_init || f == ux_layout_nbn_init ||
                 f == ux_layout_paging_init || f == ux_layout_pn_init || f == ux_layout_pb_init || f == ux_layout_pnn_init || f == ux_layout_pbb_init;
    if (!plain) {   // it may move on in turn
        va_assert(g_moves < 4, "P31: screens move on to one another without end");
        if (g_moves >= 4) va_end_path();
        g_moves++;
        uint32_t at = g_cur_i;
        g_cur_i = i;
        const ux_flow_step_t *was = g_cur;
        run_step(g_live[i]);
        g_cur = was;
        g_cur_i = at;
        g_moves--;
    }
    if (!paging) return;
    const ux_flow_step_t *was = g_cur;
    g_cur = g_live[i];
    drawn2();
    g_cur = was;
}
static bool g_walk;
static uint32_t g_pos;     // for va_right and va_left: the screen the user sees
static void move(uint32_t i) {
    if (g_walk) g_pos = i;
    draw_neighbour(i);
}
void ux_flow_next(void) { move(g_cur_i + 1); }
void ux_flow_prev(void) { move(g_cur_i - 1); }
void ux_flow_relayout(void) { move(g_cur_i - 1); }
static void drawn2(void) {  // two strings
    const ux_layout_bnnn_paging_params_t *p = g_cur->params;
    if (!p) return;
    if (p->title) hook_text(p->title);
    if (p->text) hook_text(p->text);
}
void ux_layout_bn_init(unsigned int slot) { (void) slot; drawn2(); }
void ux_layout_nn_init(unsigned int slot) { (void) slot; drawn2(); }
void ux_layout_bb_init(unsigned int slot) { (void) slot; drawn2(); }
void ux_layout_bnn_init(unsigned int slot) { (void) slot; drawn2(); }
void ux_layout_nbn_init(unsigned int slot) { (void) slot; drawn2(); }
void ux_layout_bnnn_paging_init(unsigned int slot) { (void) slot; drawn2(); }
void ux_layout_paging_init(unsigned int slot) { (void) slot; drawn2(); }
void ux_layout_pn_init(unsigned int slot) { (void) slot; }
void ux_layout_pb_init(unsigned int slot) { (void) slot; }
void ux_layout_pnn_init(unsigned int slot) { (void) slot; }
void ux_layout_pbb_init(unsigned int slot) { (void) slot; }

// the user moves to any screen of the flow on display, or presses both buttons on any screen
static void user_event(void) {
    const ux_flow_step_t *s = NULL;
    for (uint32_t i = 0; i < 16; i++) {
        s = g_live[i];
        if (s == NULL) va_end_path();
        if (va_nondet_bool("this screen")) {
            g_cur = va_split_ptr(s);
            g_cur_i = i;
            break;
        }
        if (i == 15) va_end_path();
    }
    s = g_cur;
    if (va_nondet_bool("both buttons")) {
        if (!s->validate_flow) return;
        const ux_flow_step_t *v = s->validate_flow[0];
        if (v == FLOW_LOOP || v == FLOW_END_STEP || v == FLOW_BARRIER) return;
        const void *icon = s->params ? *(const void *const *) s->params : NULL;
        E.kind = g_kind;
        bool yes = icon == (const void *) &C_icon_validate_14, no = icon == (const void *) &C_icon_crossmark;
        // the path screen that opens a signing session carries the approve action as well
        if (yes || (!no && g_kind == K_SESSION)) E.approved = true;
        if (no) E.rejected = true;
        hook_validate(s, yes, no);
        g_in_flow = true;
        v->init(0);
        g_in_flow = false;
    } else {
        g_in_flow = true;
        run_step(s);
        g_in_flow = false;
    }
    g_cur_i = 0;
}
// harnesses: the user presses right or left; what the screen then says: 1 approve, 2 reject, 0 anything else
static uint8_t go(uint32_t i) {
    if (i >= 16 || g_live[i] == NULL) return 3;
    g_cur_i = g_pos = i;
    g_in_flow = true;
    run_step(g_live[i]);
    g_in_flow = false;
    g_cur_i = 0;
    const ux_flow_step_t *s = g_pos < 16 ? g_live[g_pos] : NULL;
    if (s == NULL) return 3;
    const void *icon = s->params ? *(const void *const *) s->params : NULL;
    return icon == (const void *) &C_icon_validate_14 ? 1 : icon == (const void *) &C_icon_crossmark ? 2 : 0;
}
void va_first(void) {
    refresh_live();
    g_walk = true;
    g_pos = 0;
}
uint8_t va_right(void) { return go(g_pos + 1); }
uint8_t va_left(void) { return go(g_pos - 1); }
void va_user(void) {
    refresh_live();
    user_event();
}

// ---------------------------------------------------------------- host
void io_init(void) {}
static int respond(uint16_t sw) {
    hook_response(sw);
    if (E.responses < 3) E.responses++;
    E.sw = sw;
    return va_nondet_bool("io error") ? -1 : 1;
}
int io_send_response_buffers(const buffer_t *rdatalist, size_t count, uint16_t sw) {
    for (size_t i = 0; i < count; i++) {
        const buffer_t *b = &rdatalist[i];
        hook_response_data(b->ptr + b->offset, b->size - b->offset, sw);
    }
    return respond(sw);
}
int io_send_response_buffer(const buffer_t *rdata, uint16_t sw) { return io_send_response_buffers(rdata, 1, sw); }
int io_send_response_pointer(const uint8_t *ptr, size_t size, uint16_t sw) {
    hook_response_data(ptr, size, sw);
    return respond(sw);
}
int io_send_sw(uint16_t sw) { return respond(sw); }
void os_sched_exit(bolos_task_status_t c) {
    (void) c;
    va_end_path();
}
bool apdu_parser(command_t *cmd, uint8_t *buf, size_t buf_len) {
    if (buf_len < 5) return false;
    cmd->cla = buf[0];
    cmd->ins = buf[1];
    cmd->p1 = buf[2];
    cmd->p2 = buf[3];
    uint32_t lc = va_nondet_range(0, 255, "lc");
    cmd->lc = (uint8_t) lc;
    E.parsed = true;
    E.cla = cmd->cla;
    if (va_cases(cmd->cla == 0xE0)) {
        E.ins = cmd->ins;
        E.p1 = cmd->p1;
        E.p2 = cmd->p2;
    }
    if (va_nondet_bool("no data")) {
        va_assume(lc == 0);
        cmd->data = NULL;
    } else {
        va_assume(lc != 0);
        cmd->data = &buf[5];
    }
    // the commands are analysed apart from each other
    if (E.cla == 0xE0 && !va_cases(cmd->ins == 0x10) && !va_cases(cmd->ins == 0x11)) {
        if (va_cases(cmd->ins == 0x20)) {
            for (uint8_t i = 0x01; i <= 0x05; i++)
                if (va_cases(cmd->p1 == i)) break;
        } else if (va_cases(cmd->ins == 0x21)) {
            if (!va_cases(cmd->p1 == 0x01) && !va_cases(cmd->p1 == 0x20))
                for (uint8_t i = 0x10; i <= 0x1A; i++)
                    if (va_cases(cmd->p1 == i)) break;
        }
    }
    hook_command(cmd);
    return true;
}
static void begin(bool apdu) {
    E.apdu = apdu;
    E.parsed = false;
    E.cla = E.ins = E.p1 = E.p2 = 0;
    E.responses = 0;
    E.sw = 0;
    E.opened = E.approved = E.rejected = false;
    E.kind = K_NONE;
    g_cur = NULL;
    sync_live();
    hook_begin();
}
static void end(void) {
    if (E.apdu && !E.parsed) va_note("incomplete command, status", E.sw);
    else if (E.apdu && E.opened) va_note("command ins,p1,p2 asks the user:", E.ins, E.p1, E.p2);
    else if (E.apdu) va_note("command ins,p1,p2 -> status:", E.ins, E.p1, E.p2, E.sw);
    else if (E.approved || E.rejected) va_note(E.approved ? "user approves (kind, status):" : "user rejects (kind, status):", E.kind, E.sw);
    else va_note("user looks at the screens");
    hook_end();
    refresh_live();
    E.apdu = false;
    E.parsed = false;
    E.cla = E.ins = E.p1 = E.p2 = 0;
    E.responses = 0;
    E.sw = 0;
    E.opened = E.approved = E.rejected = false;
    E.kind = K_NONE;
    g_cur = NULL;
    va_havoc(G_ux.flow_stack, sizeof(G_ux.flow_stack), 0, "ux");
    memset(G_io_apdu_buffer, 0, sizeof(G_io_apdu_buffer));
}
static bool g_started;
int io_recv_command(void) {
    if (g_started) end();
    else refresh_live();
    g_started = true;
    va_rest_point(!g_confirm);
    if (va_nondet_bool("user acts")) {
        begin(false);
        user_event();
        end();
        va_rest_point(!g_confirm);
        va_end_path();
    }
    begin(true);
    va_havoc(G_io_apdu_buffer, sizeof(G_io_apdu_buffer), L_HOST, "apdu");
    if (va_nondet_bool("short command")) return (int) va_nondet_range(0, 4, "len");
    return (int) va_nondet_range(5, 260, "len");
}
