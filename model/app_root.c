#include "va.h"
void app_main(void);
void va_main(void) { app_main(); }
