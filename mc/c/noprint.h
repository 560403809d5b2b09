/* keeps the debugging output of mem.c quiet */
#include <stdio.h>
#define printf(...) ((void) 0)
