#include "hooks.h"
#define W __attribute__((weak))
W void hook_nonce(const uint8_t *p) {}
W void hook_rng(const uint8_t *p, size_t n) {}
W void hook_hmac(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, const uint8_t *mac, size_t mac_len) {}
W void hook_blind(const uint8_t *nonce) {}
W void hook_derive(const unsigned int *path, size_t len) {}
W void hook_generate_pair(const cx_ecfp_256_public_key_t *pub, const cx_ecfp_256_private_key_t *priv, bool keep) {}
W void hook_scalar_mult(const uint8_t *p, const uint8_t *k, size_t k_len) {}
W void hook_hash_start(void) {}
W void hook_hash_init(const cx_blake2b_t *h) {}
W void hook_hash(const cx_blake2b_t *h, uint32_t mode, const uint8_t *in, size_t len, const uint8_t *out, size_t out_len) {}
W void hook_hash_done(const uint8_t *out, size_t out_len) {}
W void hook_public_key(const uint8_t *w) {}
W void hook_chain_code(const uint8_t *c) {}
W void hook_base58(const uint8_t *in, size_t len) {}
W void hook_amount(uint64_t value, int decimals) {}
W void hook_fail(void) {}
W void hook_point(const uint8_t *p) {}
W void hook_not_zero(const uint8_t *a, size_t n) {}
W void hook_compare(const uint8_t *a, const uint8_t *b, size_t n, int diff) {}
W void hook_bad_scalar(void) {}
W void hook_hex(const uint8_t *in, size_t len) { (void) in; (void) len; }
W void hook_unfit(bool really) { (void) really; }
W void hook_unfit_path(const uint32_t *path, size_t len, size_t room) { (void) path; (void) len; (void) room; }
W void hook_path_text(const uint32_t *path, size_t len, const char *out) {}
W void hook_text_made(const char *out, size_t len) {}
W void hook_flow(const ux_flow_step_t *const *steps) {}
W void hook_text(const char *s) {}
W void hook_validate(const ux_flow_step_t *s, bool approve_icon, bool reject_icon) {}
W void hook_response(uint16_t sw) {}
W void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {}
W void hook_command(const command_t *c) {}
W void hook_begin(void) {}
W void hook_end(void) {}
