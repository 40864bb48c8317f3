#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include "cx.h"
#define PIC(x) (x)
#ifndef MIN
#define MIN(a,b) ((a)<(b)?(a):(b))
#endif
#ifndef MAX
#define MAX(a,b) ((a)>(b)?(a):(b))
#endif
#define PRINTF(...) do {} while (0)
#define WARN_UNUSED_RESULT __attribute__((warn_unused_result))
typedef unsigned char bolos_task_status_t;
void os_sched_exit(bolos_task_status_t exit_code);
cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const unsigned int *path, size_t path_len,
                                  unsigned char raw_private_key[static 64], unsigned char *chain_code);
extern uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
