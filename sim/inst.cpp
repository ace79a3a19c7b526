// The linked copies of keyd, and ASAN's configuration.
#include "sim.h"
#include <cstdlib>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#define INST(n) extern "C" { int n##_main(int, char **); extern char __start_##n##_data[], __stop_##n##_data[], __start_##n##_bss[], __stop_##n##_bss[]; }
INST(kd0) INST(kd1) INST(kd2) INST(kd3) INST(kd4) INST(kd5)

void init_instances()
{
#define ADD(n) { Instance i; i.main_ = n##_main; i.d0 = __start_##n##_data; i.d1 = __stop_##n##_data; i.b0 = __start_##n##_bss; i.b1 = __stop_##n##_bss; \
	i.pristine.resize(i.d1 - i.d0); char *s = i.d0, *d = &i.pristine[0]; size_t k = i.d1 - i.d0; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(k) : : "memory"); instances.push_back(i); }
	ADD(kd0) ADD(kd1) ADD(kd2) ADD(kd3) ADD(kd4) ADD(kd5)
}

extern "C" const char *__asan_default_options()
{
	return "detect_odr_violation=0:detect_leaks=0:detect_stack_use_after_return=0:handle_segv=1:handle_abort=1:allocator_may_return_null=1:"
	       "abort_on_error=0:exitcode=77:check_initialization_order=0:quarantine_size_mb=4:malloc_context_size=0:handle_sigill=1:print_legend=0:print_full_thread_history=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=77"; }
