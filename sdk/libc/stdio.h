#pragma once
#include <stddef.h>
#include <stdarg.h>
int snprintf(char *, size_t, const char *, ...);
int printf(const char *, ...);
