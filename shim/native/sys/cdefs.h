/* replay build: C library calls may throw the simulated power cut, so they must not be declared nothrow */
#include_next <sys/cdefs.h>
#undef __THROW
#undef __THROWNL
#undef __NTH
#undef __NTHNL
#define __THROW
#define __THROWNL
#define __NTH(f) f
#define __NTHNL(f) f
