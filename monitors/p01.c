// P01: a signature leaves the device only as the answer to the user's approval of the transaction, in a session
// the user approved, and is made with the key whose path was displayed.
#include "hooks.h"
static bool g_session_ok;         // the user approved the signing session
static bool g_shown;              // the path of the session was put on display
static uint32_t g_path[10];       // ... this one
static uint8_t g_path_len;
static uint32_t g_key[10];
static uint8_t g_key_len;
static bool g_derived;

static void no_key(void) {
    g_derived = false;
    memset(g_key, 0, sizeof g_key);
    g_key_len = 0;
}
static void no_session(void) {
    g_session_ok = g_shown = false;
    memset(g_path, 0, sizeof g_path);
    g_path_len = 0;
}
void hook_path_text(const uint32_t *path, size_t len, const char *out) {
    (void) out;
    va_assume(len <= 10);
    if (E.apdu && E.ins == 0x21 && E.p1 == 0x01) {
        memset(g_path, 0, sizeof g_path);
        memcpy(g_path, path, 40);
        g_path_len = (uint8_t) len;
        g_shown = true;
    } else if (!E.apdu && g_kind == K_SIGN) {
        va_reached("P01 path of the transaction screen");
        va_assert(g_shown && g_path_len == (uint8_t) len && va_same(g_path, path, 40),
                  "P01: the transaction screens show another path than the one of the session");
    }
}
void hook_derive(const unsigned int *path, size_t len) {
    va_assume(len <= 10);
    memcpy(g_key, path, 40);
    g_key_len = (uint8_t) len;
    g_derived = true;
}
void hook_response_data(const uint8_t *p, size_t n, uint16_t sw) {
    (void) sw;
    if (n == 0) return;
    if (!(va_labels(p, n) & L_SIG)) return;
    va_reached("P01 signature released");
    va_assert(!E.apdu, "P01: a signature is returned without a decision of the user");
    va_assert(E.approved && E.kind == K_SIGN, "P01: a signature is returned although the user did not approve the transaction");
    va_assert(g_session_ok, "P01: a signature is returned in a session the user did not approve");
    va_assert(g_derived, "P01: a signature is returned without deriving the signing key");
    va_assert(g_shown && g_path_len == g_key_len && va_same(g_path, g_key, 40),
              "P01: the signing key is not the one whose path the user saw");
}
void hook_end(void) {
    no_key();
    // a session begins when the user approves it and ends with the decision on the transaction, or when another
    // one is asked for
    if (E.apdu && E.ins == 0x21 && E.p1 == 0x01 && E.opened) g_session_ok = false;
    if (!E.apdu && E.kind == K_SESSION && E.approved) g_session_ok = true;
    if (!E.apdu && E.kind == K_SESSION && E.rejected) no_session();
    if (!E.apdu && E.kind == K_SIGN && (E.approved || E.rejected)) no_session();
}
