#include <stdarg.h>
#include "sim.h"
#include "context.h"
#include "apdu_dispatcher.h"
#include "ui/ui_menu.h"

uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
ux_state_t G_ux;
const bagl_icon_details_t C_icon_warning = {1}, C_icon_validate_14 = {2}, C_icon_crossmark = {3}, C_icon_certificate = {4}, C_icon_dashboard_x = {5},
                          C_icon_back = {6}, C_icon_eye = {7}, C_icon_processing = {8}, C_app_logo = {9}, C_icon_back_x = {10}, C_icon_coin = {11};
struct answer A;
const char *line1, *line2;
uint32_t sim_path[16];
size_t sim_path_len, sim_derivations;
uint8_t sim_nonce[32], sim_rng16[16], sim_last_priv[32];
uint8_t hashed[200000];
size_t hashed_len;
int sim_next_u8 = -1;
const char *sim_fail;
int sim_fail_after;
bool sim_fail_once;
void explicit_bzero(void *p, size_t n) { volatile uint8_t *q = p; while (n--) *q++ = 0; }
void va_ledger_assert_fail(void) { FAIL("assertion in the application"); }
static bool fails(const char *what) {
    if (!sim_fail || strcmp(what, sim_fail)) return false;
    if (sim_fail_after-- > 0) return false;
    if (sim_fail_once) sim_fail = NULL;
    return true;
}
// ---- hashing: concatenation-invariant
typedef struct { uint64_t l[4]; } lanes;
static void l_init(lanes *x) { for (int i = 0; i < 4; i++) x->l[i] = 0xcbf29ce484222325ull + 977 * i; }
static void l_add(lanes *x, const uint8_t *p, size_t n) {
    for (size_t k = 0; k < n; k++)
        for (int i = 0; i < 4; i++) x->l[i] = (x->l[i] ^ (p[k] + 131 * i)) * 0x100000001b3ull + (x->l[i] >> 29);
}
static void l_out(const lanes *x, uint8_t *o) { memcpy(o, x->l, 32); }
void sim_hash(const void *p, size_t n, uint8_t out[32]) { lanes x; l_init(&x); l_add(&x, p, n); l_out(&x, out); }
static void mix(uint8_t out[32], const char *tag, const void *a, size_t an, const void *b, size_t bn) {
    lanes x; l_init(&x); l_add(&x, (const uint8_t *) tag, strlen(tag)); l_add(&x, a, an); if (bn) l_add(&x, b, bn); l_out(&x, out);
}
static cx_blake2b_t *logged;
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *h, size_t bits) {
    if (fails("hash")) return 0xFFFFFF85;
    h->header.md_type = CX_BLAKE2B;
    h->header.output_size = bits / 8;
    l_init((lanes *) h->opaque);
    logged = h;
    hashed_len = 0;
    return CX_OK;
}
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    cx_blake2b_t *h = (cx_blake2b_t *) hash;
    if (fails("hash")) return 0xFFFFFF85;
    lanes x; memcpy(&x, h->opaque, sizeof x);
    if (len) l_add(&x, in, len);
    if (h == logged && hashed_len + len <= sizeof hashed) { if (len) memcpy(hashed + hashed_len, in, len); hashed_len += len; }
    memcpy(h->opaque, &x, sizeof x);
    if (mode & CX_LAST) { uint8_t o[32]; l_out(&x, o); memcpy(out, o, out_len < 32 ? out_len : 32); }
    return CX_OK;
}
cx_err_t cx_blake2b_256_hash(const uint8_t *d, size_t n, uint8_t out[static CX_BLAKE2B_256_SIZE]) {
    if (fails("hash")) return 0xFFFFFF85;
    sim_hash(d, n, out);
    return CX_OK;
}
// ---- random numbers
static uint32_t rnd = 12345;
static uint8_t rnd8(void) { rnd = rnd * 1664525 + 1013904223; return (uint8_t) (rnd >> 24); }
void cx_rng_no_throw(uint8_t *b, size_t n) {
    for (size_t i = 0; i < n; i++) b[i] = n == 1 && sim_next_u8 >= 0 ? (uint8_t) sim_next_u8 : rnd8();
    if (n == 1) sim_next_u8 = -1;
    if (n == 32) { b[0] = 1; memcpy(sim_nonce, b, 32); }
    if (n == 16) memcpy(sim_rng16, b, 16);
}
unsigned char *cx_rng(uint8_t *b, size_t n) { cx_rng_no_throw(b, n); return b; }
uint8_t cx_rng_u8(void) { uint8_t v; cx_rng_no_throw(&v, 1); return v; }
uint32_t cx_rng_u32(void) { return (uint32_t) rnd8() << 24 | rnd8() << 16 | rnd8() << 8 | rnd8(); }
// ---- keys
void sim_priv(const uint32_t *p, size_t n, uint8_t key[32], uint8_t chain[32]) {
    mix(key, "priv", p, n * 4, NULL, 0);
    key[0] = 0x5A;
    mix(chain, "chain", p, n * 4, NULL, 0);
}
void sim_pub(const uint8_t key[32], uint8_t pub[65]) {
    pub[0] = 4;
    mix(pub + 1, "pubx", key, 32, NULL, 0);
    mix(pub + 33, "puby", key, 32, NULL, 0);
}
void sim_hmac(const uint8_t *key, size_t kn, const uint8_t *p, size_t n, uint8_t mac[32]) { mix(mac, "hmac", key, kn, p, n); }
cx_err_t os_derive_bip32_no_throw(cx_curve_t c, const unsigned int *p, size_t n, unsigned char raw[static 64], unsigned char *chain) {
    (void) c;
    sim_derivations++;
    sim_path_len = n;
    memset(sim_path, 0, sizeof sim_path);
    for (size_t i = 0; i < n && i < 16; i++) sim_path[i] = p[i];
    if (fails("derive")) return 0xFFFFFF84;
    uint8_t ch[32];
    memset(raw, 0, 64);
    sim_priv(p, n, raw, ch);
    memcpy(sim_last_priv, raw, 32);
    if (chain) memcpy(chain, ch, 32);
    return CX_OK;
}
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t c, const uint8_t *raw, size_t n, cx_ecfp_256_private_key_t *k) {
    if (fails("init_private")) return 0xFFFFFF84;
    k->curve = c; k->d_len = n; memcpy(k->d, raw, n);
    return CX_OK;
}
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t c, cx_ecfp_256_public_key_t *pub, cx_ecfp_256_private_key_t *priv, bool keep) {
    if (fails("pair")) return 0xFFFFFF84;
    pub->curve = c; pub->W_len = 65;
    if (keep) sim_pub(priv->d, pub->W); else memset(pub->W, 7, 65);
    return CX_OK;
}
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t c, uint8_t *p, const uint8_t *k, size_t n) {
    (void) c;
    if (fails("mult")) return 0xFFFFFF84;
    uint8_t t[65] = {4};
    mix(t + 1, "mulx", p, 65, k, n); mix(t + 33, "muly", p, 65, k, n);
    memcpy(p, t, 65);
    return CX_OK;
}
size_t cx_hmac_sha256(const uint8_t *k, size_t kn, const uint8_t *in, size_t n, uint8_t *mac, size_t mn) {
    uint8_t o[32]; sim_hmac(k, kn, in, n, o); memcpy(mac, o, mn < 32 ? mn : 32);
    return mn;
}
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t n, int *d) { if (fails("cmp")) return 0xFFFFFF84; *d = memcmp(a, b, n); return CX_OK; }
bool cx_math_is_zero(const uint8_t *a, size_t n) { if (fails("zero")) return true; while (n--) if (*a++) return false; return true; }
static cx_err_t op(const char *t, uint8_t *r, const uint8_t *a, const uint8_t *b, size_t n) {
    if (fails(t)) return 0xFFFFFF84;
    uint8_t o[32]; mix(o, t, a, n, b, n); memcpy(r, o, n);
    return CX_OK;
}
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t n) { (void) m; return op("multm", r, a, b, n); }
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t n) { (void) m; return op("addm", r, a, b, n); }
cx_err_t cx_math_subm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t n) { (void) m; return op("subm", r, a, b, n); }
cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t n, const uint8_t *m, size_t k) { (void) v; (void) n; (void) m; (void) k; return CX_OK; }
// ---- text
int base58_encode(const uint8_t *in, size_t n, char *out, size_t m) {
    if (fails("base58")) return -1;
    if (m < 2 * n / 1 + 1 && m < 52) return -1;
    // not base58; distinct for distinct input, and short
    uint8_t h[32]; sim_hash(in, n, h);
    int k = snprintf(out, m, "b58");
    for (int i = 0; i < 20 && (size_t) k + 2 < m; i++) k += snprintf(out + k, m - k, "%02x", h[i]);
    return k;
}
int base58_decode(const char *in, size_t n, uint8_t *out, size_t m) { (void) in; (void) n; (void) out; (void) m; return -1; }
bool bip32_path_format(const uint32_t *p, size_t n, char *out, size_t m) {
    if (n == 0 || n > 10 || fails("pathfmt")) return false;
    size_t k = 0;
    for (size_t i = 0; i < n; i++) {
        int w = snprintf(out + k, m - k, "%s%u%s", i ? "/" : "", p[i] & 0x7FFFFFFF, p[i] & HARD ? "'" : "");
        if (w < 0 || (size_t) w >= m - k) return false;
        k += w;
    }
    return true;
}
bool format_i64(char *d, size_t n, const int64_t v) { return (size_t) snprintf(d, n, "%lld", (long long) v) < n; }
bool format_u64(char *d, size_t n, uint64_t v) { return (size_t) snprintf(d, n, "%llu", (unsigned long long) v) < n; }
bool format_fpu64(char *d, size_t n, const uint64_t v, uint8_t dec) {
    uint64_t s = 1; for (int i = 0; i < dec; i++) s *= 10;
    return (size_t) snprintf(d, n, "%llu.%0*llu", (unsigned long long) (v / s), dec, (unsigned long long) (v % s)) < n;
}
int format_hex(const uint8_t *in, size_t n, char *out, size_t m) {
    if (m < 2 * n + 1) return -1;
    for (size_t i = 0; i < n; i++) sprintf(out + 2 * i, "%02X", in[i]);
    out[2 * n] = 0;
    return (int) (2 * n + 1);
}
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n - 1 ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
size_t strlcat(char *d, const char *s, size_t n) { size_t l = strnlen(d, n); return l + strlcpy(d + l, s, n - l); }
// ---- user interface
static const ux_flow_step_t *const *steps;
static const ux_flow_step_t *cur;
static int generation;
static int count(void) { int n = 0; while (steps[n] != FLOW_LOOP && steps[n] != FLOW_END_STEP && steps[n] != FLOW_BARRIER) n++; return n; }
static void draw(void) {
    int n = count();
    ux_flow_state_t *f = &G_ux.flow_stack[0];
    int i = (int16_t) f->index;
    if (n == 0) return;
    while (i < 0) i += n;
    f->index = i % n;
    cur = steps[f->index];
    line1 = line2 = "";
    cur->init(0);
}
unsigned int ux_stack_push(void) { if (G_ux.stack_count < 1) G_ux.stack_count++; return 0; }
void ux_flow_init(unsigned int slot, const ux_flow_step_t *const *s, const ux_flow_step_t *const first) {
    (void) slot; (void) first;
    steps = s;
    generation++;
    if (G_ux.stack_count == 0) G_ux.stack_count = 1;
    G_ux.flow_stack[0].index = G_ux.flow_stack[0].prev_index = 0;
    G_ux.flow_stack[0].length = count();
    draw();
}
void ux_flow_next(void) { G_ux.flow_stack[0].prev_index = G_ux.flow_stack[0].index; G_ux.flow_stack[0].index++; draw(); }
void ux_flow_prev(void) { G_ux.flow_stack[0].prev_index = G_ux.flow_stack[0].index; G_ux.flow_stack[0].index--; draw(); }
void ux_flow_relayout(void) { draw(); }
static void two(void) { const ux_layout_bn_params_t *p = cur->params; line1 = p->line1 ? p->line1 : ""; line2 = p->line2 ? p->line2 : ""; }
static void iconed(void) { const ux_layout_pb_params_t *p = cur->params; line1 = p->line1 ? p->line1 : ""; }
void ux_layout_bn_init(unsigned int s) { (void) s; two(); }
void ux_layout_nn_init(unsigned int s) { (void) s; two(); }
void ux_layout_bb_init(unsigned int s) { (void) s; two(); }
void ux_layout_bnn_init(unsigned int s) { (void) s; two(); }
void ux_layout_nbn_init(unsigned int s) { (void) s; two(); }
void ux_layout_bnnn_paging_init(unsigned int s) { (void) s; two(); }
void ux_layout_paging_init(unsigned int s) { (void) s; two(); }
void ux_layout_pn_init(unsigned int s) { (void) s; iconed(); }
void ux_layout_pb_init(unsigned int s) { (void) s; iconed(); }
void ux_layout_pnn_init(unsigned int s) { (void) s; iconed(); }
void ux_layout_pbb_init(unsigned int s) { (void) s; iconed(); }
static const ux_flow_step_t *find(const bagl_icon_details_t *icon) {
    if (steps)
        for (int i = 0; i < count(); i++)
            if (steps[i]->params && *(const void *const *) steps[i]->params == icon && steps[i]->validate_flow) return steps[i];
    return NULL;
}
bool asking(void) { return find(&C_icon_validate_14) != NULL; }
static uint16_t decide(const bagl_icon_details_t *icon) {
    const ux_flow_step_t *s = find(icon);
    if (!s) FAIL("no such button on display");
    memset(&A, 0, sizeof A);
    s->validate_flow[0]->init(0);
    return A.count ? A.sw : 0;
}
uint16_t approve(void) { return decide(&C_icon_validate_14); }
uint16_t reject(void) { return decide(&C_icon_crossmark); }
void forward(void) { ux_flow_next(); }
void back(void) { ux_flow_prev(); }
void press(void) { if (cur && cur->validate_flow) cur->validate_flow[0]->init(0); }
void walk(void (*f)(void)) {
    int g = generation;
    G_ux.flow_stack[0].index = 0;
    draw();
    for (int k = 0; k < 100 && g == generation; k++) {
        f();
        if (find(&C_icon_crossmark) == cur) break;
        forward();
    }
    if (g == generation) { G_ux.flow_stack[0].index = 0; draw(); }
}
static const char *want1, *want2;
static bool found;
static void look(void) { if ((!want1 || !strcmp(line1, want1)) && (!want2 || !strcmp(line2, want2))) found = true; }
bool shows(const char *a, const char *b) { want1 = a; want2 = b; found = false; walk(look); return found; }
// ---- host
void io_init(void) {}
int io_recv_command(void) { return -1; }
void os_sched_exit(bolos_task_status_t c) { (void) c; FAIL("exit"); }
int io_send_response_buffers(const buffer_t *r, size_t n, uint16_t sw) {
    A.count++;
    A.sw = sw;
    A.len = 0;
    for (size_t i = 0; i < n; i++) { memcpy(A.data + A.len, r[i].ptr + r[i].offset, r[i].size - r[i].offset); A.len += r[i].size - r[i].offset; }
    return 1;
}
int io_send_response_buffer(const buffer_t *r, uint16_t sw) { return io_send_response_buffers(r, 1, sw); }
int io_send_response_pointer(const uint8_t *p, size_t n, uint16_t sw) { buffer_t b = {p, n, 0}; return io_send_response_buffers(&b, 1, sw); }
int io_send_sw(uint16_t sw) { return io_send_response_buffers(NULL, 0, sw); }
bool apdu_parser(command_t *c, uint8_t *b, size_t n) {
    if (n < 4 || (n > 5 && n - 5 != b[4])) return false;
    c->cla = b[0]; c->ins = b[1]; c->p1 = b[2]; c->p2 = b[3];
    c->lc = n < 5 ? 0 : b[4];
    c->data = c->lc ? b + 5 : NULL;
    return true;
}
void start(void) { app_init(); ui_menu_main(); }
uint16_t raw(const uint8_t *apdu, size_t len) {
    static uint8_t *fresh;  // an exact heap copy, so that a sanitizer sees what is read beyond it
    command_t c;
    free(fresh);
    fresh = malloc(len ? len : 1);
    memcpy(fresh, apdu, len);
    memcpy(G_io_apdu_buffer, apdu, len);
    memset(&A, 0, sizeof A);
    if (!apdu_parser(&c, fresh, len)) io_send_sw(0x6700);
    else apdu_dispatcher(&c);
    return A.count ? A.sw : 0;
}
uint16_t cmd(uint8_t ins, uint8_t p1, uint8_t p2, const void *data, size_t len) {
    uint8_t b[260] = {0xE0, ins, p1, p2, (uint8_t) len};
    if (len) memcpy(b + 5, data, len);
    return raw(b, 5 + len);
}
uint16_t send(uint8_t ins, uint8_t p1, uint8_t p2, const bytes *x) { return cmd(ins, p1, p2, x->b, x->n); }
void u8(bytes *x, uint8_t v) { x->b[x->n++] = v; }
void u16(bytes *x, uint16_t v) { u8(x, v >> 8); u8(x, (uint8_t) v); }
void u32(bytes *x, uint32_t v) { u16(x, v >> 16); u16(x, (uint16_t) v); }
void u64(bytes *x, uint64_t v) { u32(x, v >> 32); u32(x, (uint32_t) v); }
void put(bytes *x, const void *p, size_t n) { memcpy(x->b + x->n, p, n); x->n += n; }
void path(bytes *x, int n, ...) {
    va_list a; va_start(a, n);
    u8(x, n);
    for (int i = 0; i < n; i++) u32(x, va_arg(a, uint32_t));
    va_end(a);
}
