// In the instrumented build, print the stack of every exception as it is thrown.
#ifndef VP_THROWTRACE_H
#define VP_THROWTRACE_H
#if defined(DEBUG_ARRAYOUTOFBOUNDS)
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
extern "C" void __sanitizer_print_stack_trace(void);
extern "C" void __cxa_throw(void * o, void * t, void (*d)(void *)) {
	typedef void (*F)(void *, void *, void (*)(void *)) __attribute__((noreturn));
	static F f = (F)dlsym(RTLD_NEXT, "__cxa_throw");
	fprintf(stderr, "@THROW\n");
	__sanitizer_print_stack_trace();
	f(o, t, d);
	abort();
}
#endif
#endif
