#pragma once
void va_ledger_assert_fail(void) __attribute__((noreturn));
#undef assert
#define assert(x) do { if (!(x)) va_ledger_assert_fail(); } while (0)
#ifndef static_assert
#define static_assert _Static_assert
#endif
