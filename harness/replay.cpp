// Native runtime for harnesses: runs one entry with concrete inputs from a file.
//   replay <entry> <file>      file lines: "param k v" | "input name hex"
// Prints: "LOG v" per observation, "ASSERT-FAIL tag" and exits 1 on an assertion failure,
// exit 77 if an assumption does not hold, 0 on normal completion.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <unistd.h>

static std::map<std::string, std::string> inputs;
static std::map<std::string, long long> params;
static std::map<std::string, int> counts;
static uint64_t limit_ = 1 << 20;
static int64_t live = 0;
static bool failed = false;

extern "C" {
void *__real_malloc(size_t n); void __real_free(void *p); void *__real_realloc(void *p, size_t n);
void *__wrap_malloc(size_t n) { if (n > limit_) return nullptr; live++; return __real_malloc(n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { if (n > limit_) return nullptr; if (!p) live++; return __real_realloc(p, n); }

struct Keep { int64_t l = live; ~Keep() { live = l; } }; // what the functions below allocate does not count
void symx_make_symbolic(void *p, std::size_t n, const char *name) {
  Keep keep;
  std::string nm = name; int k = counts[nm]++;
  if (k) nm += "#" + std::to_string(k);
  auto it = inputs.find(nm);
  memset(p, 0, n);
  if (it == inputs.end()) { fprintf(stderr, "replay: no value for %s\n", nm.c_str()); return; }
  for (size_t i = 0; i < n && 2 * i + 1 < it->second.size(); i++) ((uint8_t *)p)[i] = (uint8_t)strtoul(it->second.substr(2 * i, 2).c_str(), 0, 16);
}
void symx_assume(uint64_t c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _exit(77); } }
void symx_assert_(uint64_t c, const char *tag) { if (!c) { printf("ASSERT-FAIL %s\n", tag); fflush(stdout); _exit(1); } }
void symx_assert_kf(uint64_t c, const char *tag, const char *, uint64_t) { symx_assert_(c, tag); }
void symx_cover(const char *) {}
void symx_log(uint64_t v) { printf("LOG %llu\n", (unsigned long long)v); }
int64_t symx_param(const char *n, int64_t d) { Keep keep; auto i = params.find(n); return i == params.end() ? d : i->second; }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_end() { fflush(stdout); _exit(failed ? 1 : 0); }
void symx_alloc_limit(uint64_t n) { limit_ = n; }
int64_t symx_heap_live() { return live; }
void symx_print(const char *s, uint64_t v) { fprintf(stderr, "%s %llu\n", s, (unsigned long long)v); }
uint64_t symx_obj_size(const void *) { return ~0ull; }
void symx_readonly(const void *, uint64_t) {}
}
// operator new through the same limit (environment assumption: oversized requests fail)
void *operator new(size_t n) { if (n > limit_) throw std::bad_alloc(); live++; return __real_malloc(n ? n : 1); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) live--; __real_free(p); }
void operator delete[](void *p) noexcept { if (p) live--; __real_free(p); }
void operator delete(void *p, size_t) noexcept { if (p) live--; __real_free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; __real_free(p); }

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  limit_ = ~0ull;
  FILE *f = fopen(argv[2], "r");
  if (!f) { perror(argv[2]); return 2; }
  char kind[16], name[256]; static char val[1 << 16];
  while (fscanf(f, "%15s %255s %65535s", kind, name, val) == 3) {
    if (!strcmp(kind, "param")) params[name] = atoll(val);
    else inputs[name] = !strcmp(val, "-") ? "" : val;
  }
  fclose(f);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  limit_ = 1 << 20; live = 0;
  std::set_terminate([] { printf("TERMINATE\n"); fflush(stdout); _exit(3); });
  fn();
  printf("DONE\n"); fflush(stdout);
  _exit(failed ? 1 : 0);
}
