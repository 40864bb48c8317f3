#pragma once
#include <stdint.h>
#include <stddef.h>
#include "buffer.h"
#include "parser.h"
#include "os.h"
void io_init(void);
int io_recv_command(void);
int io_send_response_buffers(const buffer_t *rdatalist, size_t count, uint16_t sw);
int io_send_response_buffer(const buffer_t *rdata, uint16_t sw);
int io_send_response_pointer(const uint8_t *ptr, size_t size, uint16_t sw);
int io_send_sw(uint16_t sw);
