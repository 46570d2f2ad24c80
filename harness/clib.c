/* The C library and the library functions it uses, for linking with other harnesses. */
#include "iconv.c"
#include "sa.h"
#include "builtins.h"
