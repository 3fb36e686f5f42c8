// Harness API.  Under the symbolic executor these are intrinsics; in the native replay build they
// are implemented by replay.cpp, which feeds concrete values from a witness file.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void symx_make_symbolic(void *p, std::size_t n, const char *name);
void symx_assume(uint64_t c);
void symx_assert_(uint64_t c, const char *tag);
// like symx_assert_, but violations with known_cond true belong to the listed finding `kf`
void symx_assert_kf(uint64_t c, const char *tag, const char *kf, uint64_t known_cond);
void symx_cover(const char *tag);
void symx_log(uint64_t v);
int64_t symx_param(const char *name, int64_t dflt);
uint64_t symx_concretize(uint64_t v); // explore every feasible value separately
void symx_end();
void symx_alloc_limit(uint64_t n);
int64_t symx_heap_live();
void symx_print(const char *s, uint64_t v);
uint64_t symx_obj_size(const void *p);
void symx_readonly(const void *p, uint64_t on);
}
#define CHECK(c, tag) symx_assert_((uint64_t)(bool)(c), tag)
template <typename T> inline T sym(const char *name) { T v; symx_make_symbolic(&v, sizeof v, name); return v; }
// symbolic value in [lo, hi], one path per value
inline unsigned choose(unsigned lo, unsigned hi, const char *name) {
  uint8_t b; symx_make_symbolic(&b, 1, name);
  symx_assume(b >= lo && b <= hi);
  return (unsigned)symx_concretize(b);
}
inline bool flip(const char *name) { uint8_t b; symx_make_symbolic(&b, 1, name); return (b & 1) != 0; }
#define ENTRY(n) extern "C" void n()
