#pragma once
void va_ledger_assert_fail(void) __attribute__((noreturn));
#define LEDGER_ASSERT(test, ...) do { if (!(test)) va_ledger_assert_fail(); } while (0)
