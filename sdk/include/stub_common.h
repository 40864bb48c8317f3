#pragma once
// Compile-time configuration the Ledger build system would pass with -D.
#define UNUSED(x) (void)(x)
#define HAVE_BAGL 1
#define APPNAME "Ergo"
#define APPVERSION "0.0.5"
#define MAJOR_VERSION 0
#define MINOR_VERSION 0
#define PATCH_VERSION 5
#define IO_APDU_BUFFER_SIZE (5 + 255)
