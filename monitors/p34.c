// P34: numbers are encoded in groups of seven bits, least first, and read back as they were; nothing else is accepted.
#include "hooks.h"
#include "common/gve.h"
static uint8_t d[12];
static uint8_t pick(uint8_t lo, uint8_t hi) {
    uint8_t v = va_nondet_range(lo, hi, "pick");
    for (uint8_t i = lo; i < hi; i++)
        if (va_cases(v == i)) return i;
    return hi;
}
// the number of groups of v
static uint8_t groups(uint64_t v) {
    for (uint8_t n = 1; n < 10; n++)
        if (va_cases(v < 1ull << (7 * n))) return n;
    return 10;
}
static gve_result_e put(uint8_t t, rw_buffer_t *b, uint64_t v) {
    return t == 0 ? gve_put_u8(b, (uint8_t) v) : t == 1 ? gve_put_u16(b, (uint16_t) v) : t == 2 ? gve_put_u32(b, (uint32_t) v) : t == 3 ? gve_put_u64(b, v)
         : t == 4 ? gve_put_i8(b, (int8_t) v) : t == 5 ? gve_put_i16(b, (int16_t) v) : t == 6 ? gve_put_i32(b, (int32_t) v) : gve_put_i64(b, (int64_t) v);
}
// the number read, widened with its sign
static gve_result_e get(uint8_t t, buffer_t *b, uint64_t *v) {
    uint8_t u8;
    uint16_t u16;
    uint32_t u32;
    int8_t i8;
    int16_t i16;
    int32_t i32;
    gve_result_e r;
    if (t == 0) r = gve_get_u8(b, &u8), *v = u8;
    else if (t == 1) r = gve_get_u16(b, &u16), *v = u16;
    else if (t == 2) r = gve_get_u32(b, &u32), *v = u32;
    else if (t == 3) r = gve_get_u64(b, v);
    else if (t == 4) r = gve_get_i8(b, &i8), *v = (uint64_t) (int64_t) i8;
    else if (t == 5) r = gve_get_i16(b, &i16), *v = (uint64_t) (int64_t) i16;
    else if (t == 6) r = gve_get_i32(b, &i32), *v = (uint64_t) (int64_t) i32;
    else {
        int64_t i64;
        r = gve_get_i64(b, &i64), *v = (uint64_t) i64;
    }
    return r;
}
static const uint8_t bits[8] = {8, 16, 32, 64, 8, 16, 32, 64};
// any number of the type, and the number of its groups
static uint64_t any(uint8_t t, uint8_t *n) {
    uint64_t v;
    switch (t & 3) {
        case 0: v = va_nondet_u8("v"); break;
        case 1: v = va_nondet_u16("v"); break;
        case 2: v = va_nondet_u32("v"); break;
        default: v = va_nondet_u64("v");
    }
    *n = 1;
    if (t == 0) return v;
    if (t < 4) {
        *n = groups(v);
        return v;
    }
    uint64_t top = 1ull << (bits[t] - 1), all = bits[t] == 64 ? ~0ull : (1ull << bits[t]) - 1;
    bool neg = va_cases(v >= top);
    uint64_t wide = neg ? v | (~all) : v;
    if (t == 4) return wide;
    for (uint8_t k = 0; k < bits[t]; k++)   // the bits it takes, without the sign
        if (va_cases(neg ? v > all - (1ull << k) : v < 1ull << k)) {
            *n = (k + 7) / 7;
            // 32 bits with a sign: widened to ten groups when all bits are needed, as elsewhere on this chain
            if (t == 6 && k == 31) *n = 10;
            break;
        }
    return wide;
}
static void round_trip(uint8_t t) {
    static uint8_t was[12];
    uint64_t w;
    uint8_t n, room = pick(0, 10);
    uint64_t v = any(t, &n);
    va_havoc(d, sizeof d, 0, "before");
    memcpy(was, d, sizeof d);
    rw_buffer_t b;
    rw_buffer_init(&b, d, room, 0);
    gve_result_e r = put(t, &b, v);
    if (n == 10 && t == 6 && r == GVE_OK && rw_buffer_data_len(&b) == 5) n = 5;
    va_assert((r == GVE_OK) == (n <= room), "P34: a number is not written where there is room, or is where there is none");
    if (r != GVE_OK) {
        va_assert(rw_buffer_data_len(&b) == 0 && va_same(d, was, 12), "P34: a part of a number is written");
        va_reached("P34 no room");
        return;
    }
    va_assert(rw_buffer_data_len(&b) == n, "P34: a number takes another number of bytes");
    va_assert(va_same(d + n, was + n, 12 - n), "P34: more is written than the number");
    if (t > 0 && t < 4)
        for (uint8_t i = 0; i < n; i++)
            va_assert(va_eq64(d[i], ((v >> (7 * i)) & 0x7F) | (i + 1 < n ? 0x80 : 0)), "P34: a number is not cut into groups of seven bits, least first");
    buffer_t in = {d, room, 0};
    r = get(t, &in, &w);
    va_assert(r == GVE_OK, "P34: a number written cannot be read back");
    va_assert(buffer_data_len(&in) == room - n, "P34: reading a number leaves a part of it or takes more");
    va_assert(va_eq64(v, w), "P34: a number is read back as another");
    va_reached("P34 round trip");
}
// any bytes: m with more to follow, then one that ends the number, unless there is no more
static void read_any(uint8_t t) {
    uint8_t m = pick(0, 10);
    bool end = m < 10 && va_cases(va_nondet_bool("ends"));
    va_havoc(d, sizeof d, L_HOST, "bytes");
    uint64_t v = 0, w;
    for (uint8_t i = 0; i < m; i++) {
        va_assume(d[i] >= 0x80);
        v |= (uint64_t) (d[i] & 0x7F) << (7 * i);
    }
    if (end) {
        va_assume(d[m] < 0x80);
        v |= (uint64_t) d[m] << (7 * m);
    }
    bool wide = m >= 9 && end && va_cases(d[9] > 1);
    buffer_t in = {d, m + (end ? 1u : 0u), 0};
    bool big = false;   // a bit set that the type does not have
    for (int8_t i = (int8_t) m; (t == 1 || t == 2) && end && !big && i >= 0; i--)
        for (int8_t k = 6; k >= 0 && !big && 7 * i + k >= bits[t]; k--) big = va_cases(d[i] >= (i < m ? 0x80 : 0) + (1 << k));
    gve_result_e r = get(t, &in, &w);
    bool ok = va_cases(r == GVE_OK);
    if (!end) va_assert(!ok, m == 10 ? "P34: a number without an end is accepted" : "P34: a number cut short is accepted");
    else if (wide) va_assert(!ok, "P34: a number of more than 64 bits is accepted");
    else if (t == 1 || t == 2 || t == 3) va_assert(ok == !big, "P34: a number in range is refused, or one out of range is not");
    if (!ok) {
        va_reached("P34 refused");
        return;
    }
    if (t == 1 || t == 2 || t == 3) {
        va_assert(va_eq64(v, w), "P34: a number is read as another");
        va_assert(buffer_data_len(&in) == 0, "P34: a number ends early");
        va_reached("P34 read");
    }
}
void va_main(void) {
    va_config("limit", 4000);
    va_config("bits", 1);
    uint8_t t = pick(0, 7);
    if (va_cases(va_nondet_bool("part"))) round_trip(t);
    else if (t != 0 && t != 4) read_any(t);
}
