// Strings, byte vectors and integer vectors under sequences of operations, against a plain array.
// SRC: src/mfast/malloc_allocator.cpp src/mfast/arena_allocator.cpp src/mfast/instructions/string_instructions.cpp
#include "symx.h"
#include <mfast.h>
#include <mfast/arena_allocator.h>
#include <mfast/malloc_allocator.h>
#include <list>
#include <vector>
using namespace mfast;
namespace {
const unsigned CAP = 160;

// an allocator that holds its users to the letter of allocator.h: it hands out exactly what was asked for
// (plus `slack` bytes), moves every block, and checks the sizes it is told
struct strict_allocator : allocator {
  struct B { void *p; std::size_t n; } b[16];
  unsigned nb = 0, slack = 0;
  B *find(void *p) { for (unsigned i = 0; i < nb; i++) if (b[i].p == p) return &b[i]; return nullptr; }
  void drop(B *x) { ::operator delete(x->p); *x = b[--nb]; }
  void *add(std::size_t n) { void *p = ::operator new(n); CHECK(nb < 16, "allocator: blocks pile up"); b[nb++] = B{p, n}; return p; }
  void *allocate(std::size_t n) override { return add(n); }
  std::size_t reallocate(void *&p, std::size_t old, std::size_t n) override {
    CHECK(p == nullptr ? old == 0 : true, "allocator: old size of nothing");
    void *q = add(n + slack);
    if (p) {
      B *x = find(p);
      CHECK(x != nullptr, "allocator: reallocating a foreign block");
      CHECK(x->n == old, "allocator: old size is not what was handed out");
      std::memcpy(q, p, old < n + slack ? old : n + slack);
      drop(x);
    }
    p = q;
    return n + slack;
  }
  void deallocate(void *p, std::size_t n) override {
    B *x = find(p);
    CHECK(x != nullptr, "allocator: freeing a foreign block");
    CHECK(x->n == n, "allocator: freeing with another size");
    drop(x);
  }
};

template <typename E> struct Model {
  bool present = false;
  unsigned n = 0;
  E e[CAP];
  void clear() { present = true; n = 0; }
  void push(E v) { e[n++] = v; }
  void erase(unsigned pos, unsigned k) { for (unsigned i = pos; i + k < n; i++) e[i] = e[i + k]; n -= k; }
  void insert(unsigned pos, const E *p, unsigned k) {
    for (unsigned i = n; i > pos; i--) e[i - 1 + k] = e[i - 1];
    for (unsigned i = 0; i < k; i++) e[pos + i] = p[i];
    n += k; present = true;
  }
  void resize(unsigned k, E v) { while (n < k) e[n++] = v; n = k; present = true; }
  void assign(const E *p, unsigned k) { clear(); insert(0, p, k); }
};
template <typename E> struct in_iter { // an input iterator and no more
  typedef std::input_iterator_tag iterator_category;
  typedef E value_type; typedef std::ptrdiff_t difference_type; typedef const E *pointer; typedef const E &reference;
  const E *p;
  const E &operator*() const { return *p; }
  in_iter &operator++() { ++p; return *this; }
  in_iter operator++(int) { in_iter o = *this; ++p; return o; }
  bool operator==(const in_iter &o) const { return p == o.p; }
  bool operator!=(const in_iter &o) const { return p != o.p; }
};

template <typename V> struct Tr;
template <> struct Tr<ascii_string_mref> { typedef char E; typedef ascii_string_cref C; typedef ascii_field_instruction I; enum { str = 1, ini = 1 };
  static I *make() { return new I(operator_none, presence_optional, 1, "f", "", nullptr, string_value_storage("ini")); } };
template <> struct Tr<unicode_string_mref> { typedef char E; typedef unicode_string_cref C; typedef unicode_field_instruction I; enum { str = 1, ini = 1 };
  static I *make() { return new I(operator_none, presence_optional, 1, "f", "", nullptr, string_value_storage("ini"), 0, "", ""); } };
template <> struct Tr<byte_vector_mref> { typedef unsigned char E; typedef byte_vector_cref C; typedef byte_vector_field_instruction I; enum { str = 0, ini = 1 };
  static I *make() { return new I(operator_none, presence_optional, 1, "f", "", nullptr, string_value_storage("ini"), 0, "", ""); } };
#define IV(T) template <> struct Tr<int_vector_mref<T>> { typedef T E; typedef int_vector_cref<T> C; typedef vector_field_instruction<T> I; enum { str = 0, ini = 0 }; \
  static I *make() { return new I(presence_optional, 1, "f", ""); } };
IV(int32_t) IV(uint32_t) IV(int64_t) IV(uint64_t)

enum { OP_NONE, OP_ASSIGN_N, OP_ASSIGN_R, OP_ASSIGN_IN, OP_RESIZE, OP_RESERVE, OP_PUSH, OP_POP, OP_INS1, OP_INSN, OP_INSR, OP_INSIN, OP_REPLACE, OP_REFERS, OP_OMIT, OP_AS, OP_INITIAL, OP_SWAP, OP_APPEND, OP_ASVEC, OP_COPY, NOPS };

template <typename V> struct Fix {
  typedef Tr<V> R; typedef typename R::E E; typedef typename R::C C; typedef typename R::I I;
  allocator *al; const I *inst;
  value_storage st, st2;
  Model<E> m, m2;
  E buf[CAP]; // borrowed contents
  Fix(allocator *a, const I *i) : al(a), inst(i) { inst->construct_value(st, al); inst->construct_value(st2, al); }
  V ref() { return V(al, &st, inst); }
  V ref2() { return V(al, &st2, inst); }
  C cref() { return C(&st, inst); }
  C cref2() { return C(&st2, inst); }
  static E val(const char *nm) { return sym<E>(nm); }
  void check1(const C &c, const Model<E> &m, const char *t1, const char *t2, const char *t3) {
    CHECK(c.present() == m.present, t1);
    CHECK(c.size() == m.n, t2);
    if (c.size() != m.n) return;
    bool same = true;
    for (unsigned i = 0; i < m.n; i++) same &= c[i] == m.e[i];
    CHECK(same, t3);
    CHECK(c.end() - c.begin() == (std::ptrdiff_t)m.n && (m.n == 0 || *c.begin() == m.e[0]), t3);
  }
  template <typename X> void strings(X &&, int) {}
  void check() {
    check1(cref(), m, "presence", "size", "contents");
    check1(cref2(), m2, "presence of the other", "size of the other", "contents of the other");
    CHECK((cref() == cref2()) == equal(), "equality");
    CHECK((cref() != cref2()) == !equal(), "inequality");
    cstr(std::integral_constant<bool, R::str>());
  }
  bool equal() {
    if (m.n != m2.n) return false;
    bool s = true;
    for (unsigned i = 0; i < m.n; i++) s &= m.e[i] == m2.e[i];
    return s;
  }
  void cstr(std::false_type) {}
  void cstr(std::true_type) {
    if (st.of_array.capacity_in_bytes_ == 0 && st.of_array.content_) return; // borrowed contents end where their owner says
    const char *s = cref().c_str();
    CHECK(s[m.n] == 0, "c_str() does not end");
    bool same = true;
    for (unsigned i = 0; i < m.n; i++) same &= s[i] == m.e[i];
    CHECK(same, "c_str()");
    CHECK(cref().size() == m.n, "c_str() changed the size");
  }
  void initial(std::true_type) { ref().to_initial_value(); m.assign((const E *)"ini", 3); CHECK(cref().is_initial_value(), "is_initial_value()"); }
  void initial(std::false_type) {}
  void append(std::false_type, unsigned, const E *) {}
  void append(std::true_type, unsigned k, const E *x) {
    V r = ref();
    switch (choose(0, 3, "how")) {
    case 0: r.append(boost::string_ref((const char *)x, k)); break;
    case 1: r.append((const char *)x, k); break;
    case 2: r += boost::string_ref((const char *)x, k); break;
    case 3: r.append((const char *)x, (const char *)x + k); break;
    }
    m.insert(m.n, x, k);
  }
  // start: 0 absent, 1 owned, 2 borrowed, 3 owned and omitted, 4 owned, cut down, 5 borrowed and cut down
  void start(unsigned how, unsigned n) {
    for (unsigned i = 0; i < n + 2 && i < CAP; i++) buf[i] = val("b");
    V r = ref();
    switch (how) {
    case 0: break;
    case 1: r.assign(buf, buf + n); m.assign(buf, n); break;
    case 2: borrow(n); break;
    case 3: r.assign(buf, buf + n); r.omit(); break;
    case 4: r.assign(buf, buf + n); r.resize(n - 1); m.assign(buf, n - 1); break;
    case 5: borrow(n); r.pop_back(); if (m.n) m.n--; break;
    }
  }
  void refer(E *p, unsigned n, std::true_type) { ref().refers_to(boost::string_ref((const char *)p, n)); }
  void refer(E *p, unsigned n, std::false_type) { ref().refers_to(p, n); }
  void borrow(unsigned n) {
    E *p = (E *)::operator new(sizeof(E) * (n ? n : 1)); // nothing behind the contents; never to be written to
    for (unsigned i = 0; i < n; i++) p[i] = buf[i];
    symx_readonly(p, 1);
    refer(p, n, std::integral_constant<bool, R::str>()); m.assign(buf, n);
  }
  void op(unsigned o) {
    V r = ref();
    E x[4];
    const unsigned K = (unsigned)symx_param("k", 2);
    auto vals = [&](unsigned k) { for (unsigned i = 0; i < k; i++) x[i] = val("x"); };
    auto pos = [&]() { unsigned c = choose(0, 3, "pos"); unsigned p = c == 0 ? 0 : c == 1 ? m.n / 2 : c == 2 ? (m.n ? m.n - 1 : 0) : m.n; return p; };
    switch (o) {
    case OP_NONE: break;
    case OP_ASSIGN_N: { unsigned k = choose(0, K, "n"); vals(1); r.assign((std::size_t)k, x[0]); m.clear(); for (unsigned i = 0; i < k; i++) m.push(x[0]); break; }
    case OP_ASSIGN_R: { unsigned k = choose(0, K, "n"); vals(k); r.assign((const E *)x, (const E *)x + k); m.assign(x, k); break; }
    case OP_ASSIGN_IN: { unsigned k = choose(0, K, "n"); vals(k); r.assign(in_iter<E>{x}, in_iter<E>{x + k}); m.assign(x, k); break; }
    case OP_RESIZE: {
      unsigned c = choose(0, 5, "n"); unsigned k = c < 2 ? c : c == 2 ? (m.n ? m.n - 1 : 0) : m.n + c - 3;
      r.resize(k); m.resize(k, 0); break;
    }
    case OP_RESERVE: {
      unsigned c = choose(0, 3, "n"); unsigned k = c == 0 ? 0 : m.n + 2 * c;
      if (k < m.n && st.of_array.capacity_in_bytes_ == 0) break; // documented to keep only as many elements
      bool was = m.present;
      r.reserve(k);
      if (!was && cref().present()) m.clear(); // whether an absent field becomes empty is left open
      break;
    }
    case OP_PUSH: vals(1); r.push_back(x[0]); m.insert(m.n, x, 1); break;
    case OP_POP: r.pop_back(); if (m.n) m.n--; break;
    case OP_INS1: { unsigned p = pos(); vals(1); E *i = (E *)r.insert(r.begin() + p, x[0]); m.insert(p, x, 1); CHECK(*i == x[0] && i == (E *)ref().begin() + p, "iterator returned by insert"); break; }
    case OP_INSN: { unsigned p = pos(), k = choose(0, K, "n"); vals(1); for (unsigned i = 1; i < k; i++) x[i] = x[0]; r.insert(r.begin() + p, (std::size_t)k, x[0]); m.insert(p, x, k); break; }
    case OP_INSR: { unsigned p = pos(), k = choose(0, K, "n"); vals(k); r.insert(r.begin() + p, (const E *)x, (const E *)x + k); m.insert(p, x, k); break; }
    case OP_INSIN: { unsigned p = pos(), k = choose(1, K, "n"); vals(k); r.insert(r.begin() + p, in_iter<E>{x}, in_iter<E>{x + k}); m.insert(p, x, k); break; }
    case OP_REPLACE: {
      unsigned p = pos(), c = choose(0, 3, "cut"), k = choose(0, K, "n"); vals(k);
      unsigned cut = c < 3 ? c : m.n - p; if (cut > m.n - p) cut = m.n - p;
      r.replace(p, cut, x, k);
      m.erase(p, cut); m.insert(p, x, k); break;
    }
    case OP_REFERS: { unsigned k = choose(0, K, "n"); borrow(k); break; }
    case OP_OMIT: r.omit(); m.present = false; m.n = 0; break;
    case OP_AS: {
      unsigned k = choose(0, K + 1, "n");
      V o = ref2();
      if (k <= K) { vals(k); o.assign((const E *)x, (const E *)x + k); m2.assign(x, k); } else { o.omit(); m2.present = false; m2.n = 0; }
      r.as(C(cref2())); m = m2; break;
    }
    case OP_INITIAL: initial(std::integral_constant<bool, R::ini>()); break;
    case OP_SWAP: {
      vals(1); ref2().push_back(x[0]); m2.insert(m2.n, x, 1);
      V o = ref2(); r.swap(o);
      Model<E> t = m; m = m2; m2 = t; break;
    }
    case OP_APPEND: { unsigned k = choose(0, K, "n"); vals(k); append(std::integral_constant<bool, R::str>(), k, x); break; }
    case OP_ASVEC: { unsigned k = choose(0, K, "n"); vals(k); asvec(std::integral_constant<bool, R::str>(), k, x); break; }
    case OP_COPY: { // a deep copy lives on its own
      inst->destruct_value(st2, al);
      inst->copy_construct_value(st, st2, al);
      m2 = m;
      vals(1);
      r.push_back(x[0]); m.insert(m.n, x, 1);
      break;
    }
    }
  }
  void asvec(std::true_type, unsigned k, const E *x) { ref().as(boost::string_ref((const char *)x, k)); m.assign(x, k); }
  void asvec(std::false_type, unsigned k, const E *x) { std::vector<E> v(x, x + k); ref().as(v); m.assign(x, k); }
  void done() { inst->destruct_value(st, al); inst->destruct_value(st2, al); st.of_array.capacity_in_bytes_ = st2.of_array.capacity_in_bytes_ = 0; }
};
template <typename V> void run() {
  int a = (int)symx_param("alloc", 0);
  arena_allocator *ar = a == 3 ? new arena_allocator : nullptr;
  strict_allocator *sa = a < 2 ? new strict_allocator : nullptr;
  if (sa) sa->slack = a == 1 ? 3 * sizeof(typename Tr<V>::E) : 0;
  allocator *al = sa ? (allocator *)sa : ar ? (allocator *)ar : malloc_allocator::instance();
  auto *f = new Fix<V>(al, Tr<V>::make());
  unsigned base = (unsigned)symx_param("base", 0);
  f->start((unsigned)symx_param("start", 0), base + (symx_param("spread", 0) ? choose(0, (unsigned)symx_param("spread", 0), "n0") : 0));
  f->check();
  f->op((unsigned)symx_param("op1", 0));
  f->check();
  int ops = (int)symx_param("ops", 1);
  for (int i = 1; i < ops; i++) { f->op(choose(1, NOPS - 1, "op")); f->check(); }
  f->done();
  if (sa) CHECK(sa->nb == 0, "memory left allocated");
  symx_cover("end");
}
// comparisons of strings: lexicographical in unsigned characters, as std::string
template <typename X> void compare() {
  unsigned n = choose(0, 3, "n"), k = choose(0, 3, "k");
  char a[3], b[3];
  symx_make_symbolic(a, 3, "a"); symx_make_symbolic(b, 3, "b");
  auto *i = Tr<X>::make();
  value_storage sa, sb;
  i->construct_value(sa, nullptr); i->construct_value(sb, nullptr);
  X(nullptr, &sa, i).refers_to(boost::string_ref(a, n)); X(nullptr, &sb, i).refers_to(boost::string_ref(b, k));
  typename Tr<X>::C p(&sa, i), q(&sb, i);
  int c = 0;
  for (unsigned j = 0; c == 0 && j < n && j < k; j++) c = (unsigned char)a[j] < (unsigned char)b[j] ? -1 : a[j] == b[j] ? 0 : 1;
  if (c == 0) c = n < k ? -1 : n == k ? 0 : 1;
  CHECK((p == q) == (c == 0), "=="); CHECK((p != q) == (c != 0), "!="); CHECK((p < q) == (c < 0), "<");
  CHECK((p <= q) == (c <= 0), "<="); CHECK((p > q) == (c > 0), ">"); CHECK((p >= q) == (c >= 0), ">=");
  CHECK((p.compare(q) == 0) == (c == 0) && (p.compare(q) < 0) == (c < 0), "compare()");
  boost::string_ref r(b, k);
  CHECK((p == r) == (c == 0), "== string_ref"); CHECK((p != r) == (c != 0), "!= string_ref"); CHECK((p < r) == (c < 0), "< string_ref");
  CHECK((p <= r) == (c <= 0), "<= string_ref"); CHECK((p > r) == (c > 0), "> string_ref"); CHECK((p >= r) == (c >= 0), ">= string_ref");
  symx_cover("end");
}
}
ENTRY(vec_asc) { run<ascii_string_mref>(); }
ENTRY(vec_uni) { run<unicode_string_mref>(); }
ENTRY(vec_bv) { run<byte_vector_mref>(); }
ENTRY(vec_i32) { run<int32_vector_mref>(); }
ENTRY(vec_u32) { run<uint32_vector_mref>(); }
ENTRY(vec_i64) { run<int64_vector_mref>(); }
ENTRY(vec_u64) { run<uint64_vector_mref>(); }
ENTRY(vec_cmp_asc) { compare<ascii_string_mref>(); }
ENTRY(vec_cmp_uni) { compare<unicode_string_mref>(); }
