#pragma once
#include "va.h"
#include <string.h>
#include "os.h"
#include "ux.h"
#include "cx.h"
#include "io.h"
#include "parser.h"
#include "bip32.h"
#include "base58.h"
#include "format.h"
#include "glyphs.h"
// what the device boundary observed in the current event
struct ev {
    bool apdu;        // a host command (false: a user action)
    bool parsed;      // ... with a complete header
    uint8_t cla, ins, p1, p2;  // the last three zero if another class is addressed
    uint8_t responses;
    uint16_t sw;
    bool opened;      // a confirmation flow was opened
    bool approved, rejected;  // the user pressed both buttons on the approve / reject screen
    uint8_t kind;     // of the flow the user decided on
};
enum { K_NONE, K_PUBKEY, K_ADDRESS, K_ATTEST, K_SESSION, K_OUTPUT, K_SIGN, K_OTHER };
extern uint8_t g_kind;  // of the confirmation on display
extern struct ev E;
void va_user(void);
void va_first(void);
uint8_t va_right(void);
uint8_t va_left(void);   // one step of the user, for harnesses
