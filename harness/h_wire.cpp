#include "symx.h"
#include "mfast/coder/encoder/fast_ostream.h"
#include "mfast/coder/decoder/fast_istream.h"
#include "mfast/malloc_allocator.h"
using namespace mfast;

template <typename T> void int_rt() {
  T v = sym<T>("v");
  bool nullable = symx_param("nullable", 0);
  char buf[16];
  fast_ostreambuf ob(buf, sizeof buf);
  fast_ostream os(nullptr);
  os.rdbuf(&ob);
  os.encode(v, false, nullable);
  std::size_t n = ob.length();
  symx_log(n);
  fast_istreambuf ib(buf, n);
  fast_istream is(&ib);
  T r = 0;
  bool present = is.decode(r, nullable);
  CHECK(present, "present");
  CHECK(r == v, "value");
  CHECK(ib.in_avail() == 0, "consumed");
  symx_cover("end");
}
ENTRY(rt_u32) { int_rt<uint32_t>(); }
ENTRY(rt_u64) { int_rt<uint64_t>(); }
ENTRY(rt_i32) { int_rt<int32_t>(); }
ENTRY(rt_i64) { int_rt<int64_t>(); }
