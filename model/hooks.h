// Observation points of the device boundary; each property's monitor defines the ones it needs.
#pragma once
#include "env.h"
void hook_nonce(const uint8_t *p);
void hook_rng(const uint8_t *p, size_t n);
void hook_hmac(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, const uint8_t *mac, size_t mac_len);
void hook_blind(const uint8_t *nonce);
void hook_derive(const unsigned int *path, size_t len);
void hook_generate_pair(const cx_ecfp_256_public_key_t *pub, const cx_ecfp_256_private_key_t *priv, bool keep);
void hook_scalar_mult(const uint8_t *p, const uint8_t *k, size_t k_len);
void hook_hash_start(void);
void hook_hash_init(const cx_blake2b_t *h);
void hook_hash(const cx_blake2b_t *h, uint32_t mode, const uint8_t *in, size_t len, const uint8_t *out, size_t out_len);
void hook_hash_done(const uint8_t *out, size_t out_len);
void hook_public_key(const uint8_t *w);
void hook_chain_code(const uint8_t *c);
void hook_hex(const uint8_t *in, size_t len);
void hook_base58(const uint8_t *in, size_t len);
void hook_amount(uint64_t value, int decimals);
void hook_fail(void);
void hook_point(const uint8_t *p);
void hook_not_zero(const uint8_t *a, size_t n);
void hook_compare(const uint8_t *a, const uint8_t *b, size_t n, int diff);
void hook_bad_scalar(void);   // a secret is zero or not below the group order
void hook_unfit(bool really);   // a text does not fit; really: it can happen with room of that size
void hook_unfit_path(const uint32_t *path, size_t len, size_t room);
void hook_path_text(const uint32_t *path, size_t len, const char *out);
void hook_text_made(const char *out, size_t len);   // a key, identifier, path or amount was written as text
void hook_flow(const ux_flow_step_t *const *steps);
void hook_text(const char *s);
void hook_validate(const ux_flow_step_t *s, bool approve_icon, bool reject_icon);
void hook_response(uint16_t sw);
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw);
void hook_command(const command_t *c);
void hook_begin(void);
void hook_end(void);
