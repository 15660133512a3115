// Function-local statics: while one simulated task initialises one, no other task may run (the guard is a real lock).
#include <dlfcn.h>
namespace sim { extern thread_local int guardDepth; }
extern "C"
{
int __cxa_guard_acquire (long long * g) { static auto f = (int (*)(long long*))nullptr; if (!f) f = (int (*)(long long*))dlsym(RTLD_NEXT, "__cxa_guard_acquire"); int r = f(g); if (r) sim::guardDepth++; return r; }
void __cxa_guard_release (long long * g) { static auto f = (void (*)(long long*))nullptr; if (!f) f = (void (*)(long long*))dlsym(RTLD_NEXT, "__cxa_guard_release"); sim::guardDepth--; f(g); }
void __cxa_guard_abort (long long * g) { static auto f = (void (*)(long long*))nullptr; if (!f) f = (void (*)(long long*))dlsym(RTLD_NEXT, "__cxa_guard_abort"); sim::guardDepth--; f(g); }
}
