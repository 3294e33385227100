/* Preloaded into the built command line tools: a smaller parse group (they allocate it whole, a second per run),
   and a clock that moves on between runs, so that two time-stamped names of one history differ. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <time.h>
static long plus;
__attribute__((constructor)) static void init(void) {
    int* g = (int*)dlsym(RTLD_DEFAULT, "_ZN9RDFParser20TRIPLE_NUM_PER_GROUPE"); if (g) *g = 1000;
    const char* e = getenv("VERIF_CLOCK_PLUS"); plus = e ? atol(e) : 0;
}
time_t time(time_t* t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); time_t r = s.tv_sec + plus; if (t) *t = r; return r; }
