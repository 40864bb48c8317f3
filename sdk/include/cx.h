#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
typedef uint32_t cx_err_t;
#define CX_OK 0x00000000
#define CX_CHECK(call) do { error = (call); if (error) { goto end; } } while (0)
#define WEAK_CX
#define CX_LAST (1u << 0)
#define CX_NO_REINIT (1u << 15)
#define CX_SHA256_SIZE 32
#define CX_BLAKE2B_256_SIZE 32
typedef enum { CX_NONE_MD = 0, CX_SHA256 = 3, CX_BLAKE2B = 9 } cx_md_t;
typedef enum { CX_CURVE_NONE = 0, CX_CURVE_SECP256K1 = 0x21, CX_CURVE_256K1 = 0x21 } cx_curve_t;
typedef struct cx_hash_header_s { cx_md_t md_type; size_t output_size; } cx_hash_t;
typedef struct cx_blake2b_s { struct cx_hash_header_s header; uint32_t opaque[64]; } cx_blake2b_t;
typedef struct { cx_curve_t curve; size_t d_len; uint8_t d[32]; } cx_ecfp_256_private_key_t;
typedef struct { cx_curve_t curve; size_t W_len; uint8_t W[65]; } cx_ecfp_256_public_key_t;
typedef cx_ecfp_256_private_key_t cx_ecfp_private_key_t;
typedef cx_ecfp_256_public_key_t cx_ecfp_public_key_t;
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t out_bits);
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len);
cx_err_t cx_blake2b_256_hash(const uint8_t *data, size_t len, uint8_t out[static CX_BLAKE2B_256_SIZE]);
void cx_rng_no_throw(uint8_t *buffer, size_t len);
unsigned char *cx_rng(uint8_t *buffer, size_t len);
uint8_t cx_rng_u8(void);
uint32_t cx_rng_u32(void);
size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, uint8_t *mac, size_t mac_len);
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t length, int *diff);
bool cx_math_is_zero(const uint8_t *a, size_t len);
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_subm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t len_v, const uint8_t *m, size_t len_m);
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len, cx_ecfp_256_private_key_t *key);
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub, cx_ecfp_256_private_key_t *priv, bool keep_private);
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *p, const uint8_t *k, size_t k_len);
