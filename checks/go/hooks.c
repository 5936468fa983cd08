// Called on entry to and return from every C function the Go package calls (built with -finstrument-functions).
#include <stddef.h>
#include <stdlib.h>
#define NI __attribute__((no_instrument_function))
extern void vpBoundary(void);
static __thread int armed, depth;
NI void vp_arm(int on) { armed = on; depth = 0; }
NI static void hit(void) { armed = 0; vpBoundary(); armed = 1; }
NI void __cyg_profile_func_enter(void *f, void *c) { if (armed && depth++ == 0) hit(); }
NI void __cyg_profile_func_exit(void *f, void *c) { if (armed && --depth == 0) hit(); }
size_t __sanitizer_get_current_allocated_bytes(void);
NI size_t vp_bytes(void) { return __sanitizer_get_current_allocated_bytes(); }
