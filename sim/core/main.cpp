#include "sim.hpp"
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=5:exitcode=77:max_malloc_fill_size=4096:malloc_fill_byte=190"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
int main(int argc, char** argv) { return sim::Main(argc, argv); }
