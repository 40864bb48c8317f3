// P21: a failed service never ends in success: no success status, no data, no confirmation.
#include "hooks.h"
static bool g_failed;  // a service failed while this command or decision is handled
static bool g_attempt; // the commitment of a new signing session is being made (each attempt starts over)
static bool g_before;  // ... and a service failed before the first attempt
void hook_fail(void) { va_reached("P21 service failed"); g_failed = true; }
void hook_hash_start(void) {
    if (E.apdu && E.ins == 0x21 && E.p1 == 0x01) {
        if (!g_attempt) g_before = g_failed;
        g_attempt = true;
        g_failed = false;
    }
}
void hook_response(uint16_t sw) {
    if (g_failed || g_before) va_assert(sw != 0x9000, "P21: success is reported although a service failed on the way");
}
void hook_end(void) {
    if (g_failed || g_before) {
        va_reached("P21 failure answered");
        va_assert(!E.opened, "P21: the user is asked although a service failed on the way");
    }
    g_failed = g_before = g_attempt = false;
}
