// P20: nothing but the built-in memory rules
#include "hooks.h"
#include "context.h"
// which tokens belong to a frame follows from the number of the frame and the number of tokens: both are told apart
void hook_command(const command_t *c) {
    if (E.ins == 0x20 && E.p1 == 0x05 && c->data != NULL && c->lc == 1) {
        const attest_input_ctx_t *ctx = app_attest_input_context();
        for (uint8_t i = 0; i < 5; i++)
            if (va_cases(c->data[0] == i)) break;
        for (uint8_t i = 0; i <= 20; i++)
            if (va_cases(ctx->tokens_table.count == i)) break;
    }
}
void hook_response(uint16_t sw) { (void) sw; va_forget_cases(); }
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) { (void) p; (void) n; (void) sw; va_forget_cases(); }
