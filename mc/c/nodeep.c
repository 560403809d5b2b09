/* lets CasADi plug-ins be loaded under the sanitizer runtime, which does not support RTLD_DEEPBIND */
#define _GNU_SOURCE
#include <dlfcn.h>
void *dlopen(const char *f, int m) { static void *(*r)(const char *, int); if (!r) r = (void *(*)(const char *, int)) dlsym(RTLD_NEXT, "dlopen"); return r(f, m & ~RTLD_DEEPBIND); }
