// P35: a buffer appends what is written and gives it back in order; what does not fit or is not there is refused and changes nothing.
#include "hooks.h"
#include "common/rwbuffer.h"
#define ROOM 12
static uint8_t g_mem[ROOM + 4], g_was[ROOM + 4], g_src[ROOM + 4], g_out[ROOM + 4];
static rw_buffer_t B;
static uint8_t g_size, g_r, g_w;   // its size, where it is read and written
static uint8_t pick(uint8_t lo, uint8_t hi) {
    uint8_t v = va_nondet_range(lo, hi, "pick");
    for (uint8_t i = lo; i < hi; i++)
        if (va_cases(v == i)) return i;
    return hi;
}
static void at(size_t r, size_t w) {
    va_assert(rw_buffer_read_position(&B) == r && rw_buffer_write_position(&B) == w, "P35: a position moves otherwise than by what was read or written");
    va_assert(rw_buffer_data_len(&B) == w - r && rw_buffer_empty_space_len(&B) == g_size - w, "P35: the data or room left is counted wrongly");
    va_assert(B.read.ptr == g_mem && B.size == g_size, "P35: the memory of a buffer changes");
}
static void unchanged(size_t from, size_t to) {
    if (to > from) va_assert(va_same(g_mem + from, g_was + from, to - from), "P35: bytes of a buffer change that were not written");
}
// n bytes written from what they should be
static void wrote(bool ok, size_t n, const uint8_t *what) {
    bool fits = n <= (size_t) (g_size - g_w);
    va_assert(ok == fits, fits ? "P35: something is refused for which there is room" : "P35: something is written for which there is no room");
    if (!fits) {
        unchanged(0, sizeof g_mem);
        at(g_r, g_w);
        va_reached("P35 no room");
        return;
    }
    unchanged(0, g_w);
    unchanged(g_w + n, sizeof g_mem);
    if (n) va_assert(va_same(g_mem + g_w, what, n), "P35: other bytes are written than given");
    at(g_r, g_w + n);
    va_reached("P35 written");
}
// a number as bytes
static const uint8_t *bytes(uint64_t v, uint8_t n, endianness_t e) {
    static uint8_t b[8];
    for (uint8_t i = 0; i < n; i++) b[i] = (uint8_t) (v >> (8 * (e == BE ? n - 1 - i : i)));
    return b;
}
static void reading(bool ok, size_t n) {
    bool there = n <= (size_t) (g_w - g_r);
    va_assert(ok == there, there ? "P35: something is refused that is there" : "P35: something is read that is not there");
    unchanged(0, sizeof g_mem);
    at(there ? g_r + n : g_r, g_w);
    va_reached(there ? "P35 read" : "P35 nothing to read");
}
static uint64_t number(uint8_t n, endianness_t e) {
    uint64_t v = 0;
    for (uint8_t i = 0; i < n; i++) v |= (uint64_t) g_was[g_r + i] << (8 * (e == BE ? n - 1 - i : i));
    return v;
}
static void writes(void) {
    endianness_t e = va_cases(va_nondet_bool("big")) ? BE : LE;
    uint64_t v = va_nondet_u64("value");
    switch (pick(0, 4)) {
        case 0: wrote(rw_buffer_write_u8(&B, (uint8_t) v), 1, bytes(v, 1, BE)); break;
        case 1: wrote(rw_buffer_write_u16(&B, (uint16_t) v, e), 2, bytes(v, 2, e)); break;
        case 2: wrote(rw_buffer_write_u32(&B, (uint32_t) v, e), 4, bytes(v, 4, e)); break;
        case 3: wrote(rw_buffer_write_u64(&B, v, e), 8, bytes(v, 8, e)); break;
        default: {
            size_t n = va_nondet_u32("length");
            for (uint8_t i = 0; i <= g_size - g_w; i++)
                if (va_cases(n == i)) {
                    n = i;
                    break;
                }
            va_assert(rw_buffer_can_write(&B, n) == (n <= (size_t) (g_size - g_w)), "P35: the room left is judged wrongly");
            wrote(rw_buffer_write_bytes(&B, g_src, n), n, g_src);
        }
    }
}
static void reads(void) {
    endianness_t e = va_cases(va_nondet_bool("big")) ? BE : LE;
    uint8_t u8;
    uint16_t u16;
    uint32_t u32;
    uint64_t u64 = 0;
    uint8_t n;
    bool ok;
    switch (pick(0, 5)) {
        case 0: n = 1, ok = rw_buffer_read_u8(&B, &u8), u64 = u8; break;
        case 1: n = 2, ok = rw_buffer_read_u16(&B, &u16, e), u64 = u16; break;
        case 2: n = 4, ok = rw_buffer_read_u32(&B, &u32, e), u64 = u32; break;
        case 3: n = 8, ok = rw_buffer_read_u64(&B, &u64, e); break;
        default: {
            bool copy = va_cases(va_nondet_bool("copy")), low = va_cases(va_nondet_bool("low"));
            size_t l = va_nondet_u32("length");
            for (uint8_t i = 0; i <= g_w - g_r; i++)
                if (va_cases(l == i)) {
                    l = i;
                    break;
                }
            va_assert(rw_buffer_can_read(&B, l) == (l <= (size_t) (g_w - g_r)), "P35: the data left is judged wrongly");
            memcpy(g_src, g_out, sizeof g_src);
            ok = copy ? (low ? buffer_copy_bytes(&B.read, g_out, l) : rw_buffer_copy_bytes(&B, g_out, l)) : (low ? buffer_read_bytes(&B.read, g_out, l) : rw_buffer_read_bytes(&B, g_out, l));
            if (ok && l > 0) va_assert(va_same(g_out, g_was + g_r, l), "P35: other bytes are read than were written");
            if (!ok) l = l <= (size_t) (g_w - g_r) ? l : ROOM + 1;
            if (ok && l < sizeof g_out) va_assert(va_same(g_out + l, g_src + l, sizeof g_out - l), "P35: more bytes are read than asked for");
            if (!ok) va_assert(va_same(g_out, g_src, sizeof g_out), "P35: a part is read");
            if (!copy) {
                reading(ok, l);
                return;
            }
            va_assert(ok == (l <= (size_t) (g_w - g_r)), "P35: a copy is refused or given wrongly");
            at(g_r, g_w);
            unchanged(0, sizeof g_mem);
            va_reached("P35 copied");
            return;
        }
    }
    reading(ok, n);
    if (ok) va_assert(va_eq64(u64, number(n, e)), "P35: another number is read than was written");
}
static void moves(void) {
    uint8_t k = pick(0, 7);
    size_t o = va_nondet_u32("offset"), top = 0;
    for (uint8_t i = 0; i <= g_size; i++)
        if (va_cases(o == i)) {
            o = i;
            break;
        }
    if (va_cases(o > (size_t) ~(size_t) ROOM)) {}
    (void) top;
    bool ok;
    size_t r = g_r, w = g_w;
    bool fit;
    switch (k) {
        case 0: fit = o <= g_w, ok = rw_buffer_seek_read_set(&B, o), r = o; break;
        case 1: fit = o <= (size_t) (g_w - g_r), ok = rw_buffer_seek_read_cur(&B, o), r += o; break;
        case 2: fit = o <= g_w, ok = rw_buffer_seek_read_end(&B, o), r = g_w - o; break;
        case 3: fit = o <= g_size && o >= g_r, ok = rw_buffer_seek_write_set(&B, o), w = o; break;
        case 4: fit = o <= (size_t) (g_size - g_w), ok = rw_buffer_seek_write_cur(&B, o), w += o; break;
        case 5: fit = o <= g_size && g_size - o >= g_r, ok = rw_buffer_seek_write_end(&B, o), w = g_size - o; break;
        case 6: fit = ok = true, rw_buffer_empty(&B), r = w = 0; break;
        default:
            rw_buffer_shift_data(&B);
            at(0, g_w - g_r);
            if (g_w > g_r) va_assert(va_same(g_mem, g_was + g_r, g_w - g_r), "P35: data is lost when moved to the front");
            unchanged(g_w, sizeof g_mem);
            va_reached("P35 shifted");
            return;
    }
    unchanged(0, sizeof g_mem);
    if (k >= 3 && k <= 5) va_assert(ok == fit, "P35: the place to write at is set outside the buffer or before the data read");
    else va_assert(ok == fit, "P35: the place to read at is set outside the data");
    at(fit ? r : g_r, fit ? w : g_w);
    va_reached(fit ? "P35 moved" : "P35 not moved");
}
void va_main(void) {
    va_config("limit", 8000);
    va_config("bits", 1);
    g_size = pick(0, 1) ? ROOM : 3;
    g_w = pick(0, g_size);
    g_r = pick(0, g_w);
    va_havoc(g_mem, sizeof g_mem, L_HOST, "memory");
    va_havoc(g_src, sizeof g_src, L_HOST, "source");
    va_havoc(g_out, sizeof g_out, L_HOST, "result");
    memcpy(g_was, g_mem, sizeof g_mem);
    rw_buffer_init(&B, g_mem, g_size, g_w);
    at(0, g_w);
    B.read.offset = g_r;
    switch (pick(0, 2)) {
        case 0: writes(); break;
        case 1: reads(); break;
        default: moves();
    }
}
