/* gives the part of the stack below the caller a known content, which the next call finds in its uninitialised locals */
#include <string.h>
__attribute__((noinline)) void mc_stackfill(int b) { volatile unsigned char a[1 << 18]; memset((void *) a, b, sizeof a); __asm__ volatile("" : : "r"(a) : "memory"); }
