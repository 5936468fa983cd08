// Number storage with canaries: GMP itself is not instrumented, so overruns made through it are caught here.
// Also fills fresh blocks with garbage so that stale or uninitialised limbs show up deterministically, and
// counts live blocks.
#pragma once
#include <gmp.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cstdint>
namespace guard {
static long live = 0;
static const size_t PAD = 64;
inline void *galloc(size_t n) {
    unsigned char *p = (unsigned char *)malloc(n + 2 * PAD + 16);
    if (!p) abort();
    memcpy(p, &n, sizeof n); uint64_t m = 0x5AFEC0DE5AFEC0DEull; memcpy(p + 8, &m, 8);
    memset(p + 16, 0xC7, PAD); memset(p + 16 + PAD, 0xA5, n); memset(p + 16 + PAD + n, 0xC7, PAD);
    live++;
    return p + 16 + PAD;
}
inline void gcheck(void *q, size_t n) {
    unsigned char *p = (unsigned char *)q - PAD - 16; size_t m; uint64_t mg; memcpy(&m, p, sizeof m); memcpy(&mg, p + 8, 8);
    if (mg != 0x5AFEC0DE5AFEC0DEull) { fprintf(stderr, "GUARD: bad or already released number block\n"); abort(); }
    (void)n;
    for (size_t i = 0; i < PAD; i++) if (p[16 + i] != 0xC7 || p[16 + PAD + m + i] != 0xC7) { fprintf(stderr, "GUARD: write outside a number block of %zu bytes\n", m); abort(); }
}
inline void gfree(void *q, size_t n) {
    gcheck(q, n); unsigned char *p = (unsigned char *)q - PAD - 16; size_t m; memcpy(&m, p, sizeof m);
    memset(p, 0xDD, m + 2 * PAD + 16); free(p); live--;
}
inline void *grealloc(void *q, size_t o, size_t n) {
    gcheck(q, o); unsigned char *p = (unsigned char *)q - PAD - 16; size_t m; memcpy(&m, p, sizeof m);
    void *r = galloc(n); memcpy(r, q, m < n ? m : n); gfree(q, o); return r;
}
inline void install() { mp_set_memory_functions(galloc, grealloc, gfree); }
}
