// Analysis intrinsics, interpreted by the engine in /verif/engine (never executed).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
// provenance labels carried by abstract bytes
#define L_SECRET 1u    // private key material
#define L_NONCE 2u     // Schnorr ephemeral key
#define L_SESSKEY 4u   // per-run key that authenticates input frames
#define L_CHAIN 8u     // BIP32 chain code
#define L_UNINIT 16u   // never written
#define L_HOST 32u     // came in an APDU
#define L_SIG 64u      // signature scalar
#define L_PUB 128u     // public key point
#define L_HMAC 256u    // authenticator made with the session key
uint8_t va_nondet_u8(const char *n);
uint16_t va_nondet_u16(const char *n);
uint32_t va_nondet_u32(const char *n);
uint64_t va_nondet_u64(const char *n);
bool va_nondet_bool(const char *n);
uint32_t va_nondet_range(uint32_t lo, uint32_t hi, const char *n);
void va_assume(bool c);
void va_assert(bool c, const char *m);
void va_reached(const char *m);
bool va_must(bool c);
bool va_may(bool c);
uint32_t va_hi(uint32_t v);
uint32_t va_lo(uint32_t v);
uint32_t va_split(uint32_t v);
const void *va_split_ptr(const void *p);
bool va_cases(bool c);
void va_forget_cases(void);
void va_drawn(void);
void va_loop_cases(void);
void va_havoc(void *p, uint32_t n, uint32_t labels, const char *name);
void va_derive(void *p, uint32_t n, const char *tag, uint32_t labels, ...);
uint32_t va_derived(const char *tag, uint32_t lo, uint32_t hi, uint32_t labels, ...);
uint32_t va_labels(const void *p, uint32_t n);
uint32_t va_str_labels(const void *p);
bool va_same(const void *p, const void *q, uint32_t n);
void va_mark(void);
bool va_unchanged(void);
uint32_t va_global_labels(void);
bool va_ptr_eq(const void *p, const void *q);
bool va_same_object(const void *p, const void *q);
bool va_eq64(uint64_t a, uint64_t b);
uint32_t va_room(const void *p);
void va_note(const char *m, ...);
void va_print(const char *m, uint32_t v);
void va_dump(const char *m, const void *p, uint32_t n);
void va_rest_point(bool idle);
void va_config(const char *k, uint32_t v);
void va_end_path(void) __attribute__((noreturn));
