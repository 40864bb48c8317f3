// P31: every loop ends; what draws until the draw is good counts as ending
#include "hooks.h"
void hook_begin(void) { va_config("unroll", 300); }
