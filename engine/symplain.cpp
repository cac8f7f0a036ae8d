// plain (replay) implementation of the harness interface: values only
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <new>
// blocks and (sanitised build) bytes in use
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SAN 1
#endif
#endif
#ifdef SAN
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
extern "C" long sym_live(void) { fflush(stdout); return (long)__sanitizer_get_current_allocated_bytes(); }
#else
static long live_blocks = 0;
void *operator new(std::size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live_blocks++; return p; }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { live_blocks--; std::free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
extern "C" long sym_live(void) { return live_blocks; }
#endif
extern "C" {
double sym_input(const char *, double v) { return v; }
void sym_output(const char *n, double v) { printf("o %s 0 %a\n", n, v); }
void sym_output_int(const char *n, long v) { printf("i %s %ld\n", n, v); }
void sym_begin(void) {}
void sym_end(const char *tag) { printf("E %s\n", tag); fflush(stdout); }
void sym_mark(const char *) {}
void sym_fresnel_mode(int) {}
void sym_class_by_pc(int) {}
void sym_max_dump(int) {}
void sym_report(void) {}
}
