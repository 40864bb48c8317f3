// P25: the amounts and destinations shown are those of the transaction that is signed.
#include "hooks.h"
#include "read.h"
static uint64_t g_amount, g_fee;   // value leaving the user's inputs for others, miners' fee
static uint64_t g_out;             // value of the output being described
static uint64_t g_shown;           // amount formatted for the screen being drawn
static bool g_fmt;
static uint8_t g_is;               // 1: it is the amount, 2: it is the fee
static const uint8_t *data(void) { return G_io_apdu_buffer + 5; }
static bool done(void) { return E.opened || (E.responses == 1 && E.sw == 0x9000); }
void hook_amount(uint64_t value, int decimals) {
    if (decimals == 0) return;
    va_assert(decimals == 9, "P25: an amount of ERG is shown with another number of decimals than nine");
    g_shown = value;
    g_fmt = true;
    // the amount and the fee are drawn by one function: its ways are kept apart by what they show
    g_is = (va_eq64(value, g_amount) ? 1 : 0) | (va_eq64(value, g_fee) ? 2 : 0);
    if (!va_cases(g_is == 1) && !va_cases(g_is == 2)) (void) va_cases(g_is == 3);
}
static bool is(const char *s, const char *t, size_t n) {
    bool ok = true;
    for (size_t i = 0; i < n; i++)
        if (!va_must(s[i] == t[i])) ok = false;
    return ok;
}
void hook_text(const char *s) {
    if (!g_fmt) return;
    g_fmt = false;
    if (g_kind == K_SIGN) {
        bool fee = is(s, "Transaction Fee", 15), amount = is(s, "Transaction Amount", 18);
        va_reached("P25 amount or fee shown");
        va_assert(g_is == 3 || fee || amount, "P25: an amount is shown under an unknown title");
        va_assert(!fee || (g_is & 2), "P25: the fee shown is not the sum of the miners' fee outputs");
        va_assert(!amount || (g_is & 1), "P25: the amount shown is not the value of the inputs without change and fee");
    } else {
        va_reached("P25 output value shown");
        va_assert(g_kind == K_OUTPUT, "P25: an amount is shown where none belongs");
        va_assert(va_eq64(g_shown, g_out), "P25: the value shown for an output is not the one that is signed");
    }
    g_is = 0;
    va_forget_cases();
}
void hook_end(void) {
    g_fmt = false;
    g_shown = 0;
    g_is = 0;
    if (!(E.apdu && E.ins == 0x21 && done())) return;
    if (E.p1 == 0x10) g_amount = g_fee = 0;
    if (E.p1 == 0x12 && va_cases(data()[33] == 0)) {
        uint64_t v = read_u64_be(data(), 34), sum = g_amount + v;
        va_assert(sum >= v, "P25: the sum of the input values wraps around");
        g_amount = sum;
    }
    if (E.p1 == 0x15) g_out = read_u64_be(data(), 0);
    if (E.p1 == 0x17) {
        va_assert(g_fee + g_out >= g_out, "P25: the sum of the fees wraps around");
        g_fee += g_out;
    }
    if (E.p1 == 0x17 || E.p1 == 0x18) {
        va_assert(g_out <= g_amount, "P25: the amount falls below zero");
        g_amount -= g_out;
    }
}
