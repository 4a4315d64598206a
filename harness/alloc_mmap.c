/* the allocator with its mmap back end (verification input: the source is /repo's) */
#include <unistd.h>
#undef _POSIX_ADVISORY_INFO
#define _POSIX_ADVISORY_INFO 0
#ifndef _GNU_SOURCE
#define MAP_ANON 0x20
#endif
#include "allocator.c"
