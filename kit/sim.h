// A simulated device for the demonstrations: the application runs natively on top of it.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "os.h"
#include "ux.h"
#include "cx.h"
#include "io.h"
#include "parser.h"
#include "bip32.h"
// last answer
extern struct answer { int count; uint16_t sw; uint8_t data[600]; size_t len; } A;
void start(void);                                                       // switch the application on
uint16_t raw(const uint8_t *apdu, size_t len);                          // status, 0 if there was no answer yet
uint16_t cmd(uint8_t ins, uint8_t p1, uint8_t p2, const void *data, size_t len);
bool asking(void);                                                      // a confirmation is on display
uint16_t approve(void);                                                 // both buttons on the screen with the tick
uint16_t reject(void);
void forward(void);                                                     // the right button
void back(void);                                                        // the left button
void press(void);                                                       // both buttons on the screen shown
extern const char *line1, *line2;                                       // what the screen shows
bool shows(const char *a, const char *b);                               // walks through all screens to find these lines
void walk(void (*f)(void));                                             // ... calls f on each
// bytes to build commands with
typedef struct { uint8_t b[300]; size_t n; } bytes;
void u8(bytes *x, uint8_t v);
void u16(bytes *x, uint16_t v);
void u32(bytes *x, uint32_t v);
void u64(bytes *x, uint64_t v);
void put(bytes *x, const void *p, size_t n);
void path(bytes *x, int n, ...);                                        // length byte and levels
uint16_t send(uint8_t ins, uint8_t p1, uint8_t p2, const bytes *x);
// fake cryptography, to compute what is expected
void sim_hash(const void *p, size_t n, uint8_t out[32]);
void sim_priv(const uint32_t *path, size_t n, uint8_t key[32], uint8_t chain[32]);
void sim_pub(const uint8_t key[32], uint8_t pub[65]);
void sim_hmac(const uint8_t *key, size_t kn, const uint8_t *p, size_t n, uint8_t mac[32]);
extern uint32_t sim_path[16];                                           // last derivation
extern size_t sim_path_len, sim_derivations;
extern uint8_t sim_nonce[32];                                           // last 32 random bytes
extern uint8_t sim_rng16[16];                                           // last 16 random bytes
extern uint8_t sim_last_priv[32];
extern uint8_t hashed[200000];                                          // all the bytes hashed by the streaming hash last initialised
extern size_t hashed_len;
extern int sim_next_u8;                                                 // next values of cx_rng_u8, -1: counter
extern const char *sim_fail;                                            // service that fails
extern bool sim_fail_once;                                              // ... only then
extern int sim_fail_after;                                              // ... after that many calls
#define FAIL(...) do { printf("FAILED: " __VA_ARGS__); printf("\n"); exit(1); } while (0)
#define NEED(c) do { if (!(c)) FAIL("%s:%d: %s (status %04X)", __FILE__, __LINE__, #c, A.sw); } while (0)
#define HARD 0x80000000u
#define ACCOUNT(a) HARD + 44, HARD + 429, HARD + (a)
