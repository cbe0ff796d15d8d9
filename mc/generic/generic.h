/* Forced include: afterwards the library's sources see no known architecture or compiler, so they take their
 * fallbacks (byte-wise stream writes, loops instead of bit-scan builtins).  The system headers come first. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <limits.h>
#include <assert.h>
#undef __x86__
#undef __x86_64__
#undef __x86_64
#undef __AMD64__
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
#undef __GNUC__
