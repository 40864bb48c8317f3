#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include "os.h"
typedef struct { unsigned int width, height, bpp; const unsigned int *colors; const unsigned char *bitmap; } bagl_icon_details_t;
typedef void (*ux_flow_step_init_t)(unsigned int stack_slot);
struct ux_flow_step_s;
typedef struct ux_flow_step_s ux_flow_step_t;
struct ux_flow_step_s {
    ux_flow_step_init_t init;
    const void *params;
    const ux_flow_step_t *const *validate_flow;
    const ux_flow_step_t *const *error_flow;
};
#define FLOW_LOOP ((const ux_flow_step_t *) 0xFFFFFFFEu)
#define FLOW_END_STEP ((const ux_flow_step_t *) 0xFFFFFFFFu)
#define FLOW_BARRIER ((const ux_flow_step_t *) 0xFFFFFFFDu)
typedef struct { const ux_flow_step_t *const *steps; uint16_t index, length, prev_index; } ux_flow_state_t;
typedef struct { uint8_t stack_count; ux_flow_state_t flow_stack[2]; } ux_state_t;
extern ux_state_t G_ux;
void ux_flow_init(unsigned int stack_slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start_step);
void ux_flow_next(void);
void ux_flow_prev(void);
void ux_flow_relayout(void);
unsigned int ux_stack_push(void);
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pb_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_bn_params_t;
typedef ux_layout_bn_params_t ux_layout_nn_params_t;
typedef ux_layout_bn_params_t ux_layout_bb_params_t;
typedef struct { const char *line1; const char *line2; const char *line3; } ux_layout_bnn_params_t;
typedef ux_layout_bnn_params_t ux_layout_nbn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; const char *line2; } ux_layout_pnn_params_t;
typedef ux_layout_pnn_params_t ux_layout_pbb_params_t;
typedef ux_layout_pnn_params_t ux_layout_pn_params_t3;
typedef ux_layout_pb_params_t ux_layout_pn_params_t;
typedef struct { const char *title; const char *text; } ux_layout_bnnn_paging_params_t;
typedef ux_layout_bnnn_paging_params_t ux_layout_paging_params_t;
void ux_layout_bn_init(unsigned int slot);
void ux_layout_nn_init(unsigned int slot);
void ux_layout_bb_init(unsigned int slot);
void ux_layout_bnn_init(unsigned int slot);
void ux_layout_nbn_init(unsigned int slot);
void ux_layout_pn_init(unsigned int slot);
void ux_layout_pb_init(unsigned int slot);
void ux_layout_pnn_init(unsigned int slot);
void ux_layout_pbb_init(unsigned int slot);
void ux_layout_bnnn_paging_init(unsigned int slot);
void ux_layout_paging_init(unsigned int slot);
#define UX_STEP_NOCB(name, layout, ...) \
    static const ux_layout_##layout##_params_t name##_val = __VA_ARGS__; \
    static const ux_flow_step_t name = {ux_layout_##layout##_init, &name##_val, NULL, NULL}
#define UX_STEP_CB(name, layout, cb, ...) \
    static void name##_validate_cb(unsigned int slot) { (void) slot; cb; } \
    static const ux_flow_step_t name##_validate_step = {name##_validate_cb, NULL, NULL, NULL}; \
    static const ux_flow_step_t *const name##_validate[] = {&name##_validate_step, FLOW_END_STEP}; \
    static const ux_layout_##layout##_params_t name##_val = __VA_ARGS__; \
    static const ux_flow_step_t name = {ux_layout_##layout##_init, &name##_val, name##_validate, NULL}
#define UX_STEP_VALID UX_STEP_CB
#define UX_STEP_INIT(name, validate, error, ...) \
    static void name##_init(unsigned int slot) { (void) slot; __VA_ARGS__; } \
    static const ux_flow_step_t name = {name##_init, NULL, validate, error}
#define UX_STEP_NOCB_INIT(name, layout, code, ...) \
    static const ux_layout_##layout##_params_t name##_val = __VA_ARGS__; \
    static void name##_init(unsigned int slot) { code; ux_layout_##layout##_init(slot); } \
    static const ux_flow_step_t name = {name##_init, &name##_val, NULL, NULL}
#define UX_FLOW(name, ...) static const ux_flow_step_t *const name[] = {__VA_ARGS__, FLOW_END_STEP}
