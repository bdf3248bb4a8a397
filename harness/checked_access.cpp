// C05: a checked build stops every access out of range, and no other.
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/container/2d/LowerArray2D.h>
#include <il/container/2d/UpperArray2D.h>
#include <il/container/3d/Array3DView.h>

#include <array>

#include "common.h"
#include "refusal.h"

using vt::El;

#if PBT_IN(0)
namespace pbt {
const char* rule =
    "a container or view of 18 kinds is brought to a random size, most of the time with spare capacity, and 1 to 24 "
    "accesses are made with indices drawn from the valid ones, the boundaries of the size and of the capacity, "
    "negative numbers, and numbers next to the limits of the integer type or congruent to a valid one modulo 2^32. "
    "Non-trivial: at least one access was accepted and one was rejected, on a container which is not empty";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 1200000;
    pbt::thorough_cases = 25000000;
    pbt::check_leaks = false;
  }
} init;
}  // namespace
#endif
namespace {

// A range. A range which begins at the size is in a grey area: it is empty, or
// invalid. It is not drawn.
bool drawRange(pbt::Src& s, il::int_t n, il::int_t cap, il::Range& r, bool& valid) {
  if (n > 0 && s.coin()) {
    r.begin = s.range(0, n - 1);
    r.end = s.range(r.begin, n);
  } else {
    r.begin = index(s, n, cap);
    r.end = index(s, n + 1, cap);
  }
  // The length of the range has to be an integer
  il::int_t length;
  if (__builtin_sub_overflow(r.end, r.begin, &length)) return false;
  if (r.begin == n && r.end >= n) {
    if (r.end == n) return false;
  }
  valid = in(r.begin, n) && r.end >= r.begin && r.end <= n;
  return true;
}
std::string show(il::Range r) { return "(" + std::to_string(r.begin) + ", " + std::to_string(r.end) + ")"; }

template <typename T, typename V>
void contents(pbt::Ctx& c, V& v, const std::vector<long>& m) {
  REQUIRE(v.size() == static_cast<il::int_t>(m.size()), "size " << v.size() << " rather than " << m.size());
  for (std::size_t k = 0; k < m.size(); ++k) REQUIRE(El<T>::get(v[static_cast<il::int_t>(k)]) == m[k], "element " << k << " changed");
}

// One dimension --------------------------------------------------------------
// The operations of a view. W is ArrayEdit, ArrayView or a container
template <typename T, typename W>
void read1(pbt::Src& s, pbt::Ctx& c, Count& k, const W& v, il::int_t n, il::int_t cap, const std::vector<long>& m, std::size_t off) {
  const il::int_t i = index(s, n, cap);
  expect(c, k, in(i, n), "const [" + std::to_string(i) + "]", [&] {
    const long x = El<T>::get(v[i]);
    if (in(i, n) && x != m[off + static_cast<std::size_t>(i)]) std::abort();
    sink = sink + x;
  });
}
template <typename T, typename W>
void last1(pbt::Src&, pbt::Ctx& c, Count& k, const W& v, il::int_t n) {
  expect(c, k, n > 0, "back()", [&] { sink = sink + El<T>::get(v.back()); });
}
template <typename W>
void sub1(pbt::Src& s, pbt::Ctx& c, Count& k, const W& v, il::int_t n, il::int_t cap) {
  il::Range r{0, 0};
  bool valid = false;
  if (!drawRange(s, n, cap, r, valid)) return;
  expect(c, k, valid, "view" + show(r), [&] { sink = sink + v.view(r).size(); });
}
template <typename T, typename W>
void write1(pbt::Src& s, pbt::Ctx& c, Count& k, W& v, il::int_t n, il::int_t cap, std::vector<long>& m, std::size_t off) {
  const il::int_t i = index(s, n, cap);
  const long x = s.range(0, 99);
  expect(c, k, in(i, n), "[" + std::to_string(i) + "] = " + std::to_string(x), [&] { v[i] = El<T>::make(x); });
  if (in(i, n)) m[off + static_cast<std::size_t>(i)] = x;
}
template <typename T, typename W>
void wlast1(pbt::Src& s, pbt::Ctx& c, Count& k, W& v, il::int_t n, std::vector<long>& m, std::size_t off) {
  const long x = s.range(0, 99);
  expect(c, k, n > 0, "Back() = " + std::to_string(x), [&] { v.Back() = El<T>::make(x); });
  if (n > 0) m[off + static_cast<std::size_t>(n) - 1] = x;
}
template <typename W>
void esub1(pbt::Src& s, pbt::Ctx& c, Count& k, W& v, il::int_t n, il::int_t cap) {
  il::Range r{0, 0};
  bool valid = false;
  if (!drawRange(s, n, cap, r, valid)) return;
  expect(c, k, valid, "Edit" + show(r), [&] { sink = sink + v.Edit(r).size(); });
}

template <typename T>
void views1(pbt::Src& s, pbt::Ctx& c, Count& k, il::ArrayEdit<T> e, std::vector<long>& m, std::size_t off, il::int_t cap) {
  const il::int_t n = e.size();
  const il::ArrayView<T> v{e.Data(), n};
  switch (s.draw(8)) {
    case 0: read1<T>(s, c, k, v, n, cap, m, off); break;
    case 1: last1<T>(s, c, k, v, n); break;
    case 2: sub1(s, c, k, v, n, cap); break;
    case 3: write1<T>(s, c, k, e, n, cap, m, off); break;
    case 4: wlast1<T>(s, c, k, e, n, m, off); break;
    case 5: sub1(s, c, k, e, n, cap); break;
    case 6: esub1(s, c, k, e, n, cap); break;
    default: {
      const il::int_t len = index(s, 3, 4);
      if (len > 3) return;
      static T some[3];
      expect(c, k, len >= 0, "view of " + std::to_string(len) + " elements of a C array", [&] {
        if (s.coin()) {
          il::ArrayView<T> u{some, len};
          sink = sink + u.size();
        } else {
          il::ArrayEdit<T> u{some, len};
          sink = sink + u.size();
        }
      });
    }
  }
}

// A negative size, or a small one
il::int_t newSize(pbt::Src& s) {
  return s.coin() ? s.size(12) : s.oneOf<il::int_t>({-1, -2, -7, LONG_MIN, LONG_MIN + 1, -4294967296l, -4294967296l + 1, -2147483648l, -100});
}

template <typename T, typename A>
void dynamic1(pbt::Src& s, pbt::Ctx& c, Count& k, A& a, std::vector<long>& m) {
  const il::int_t n = newSize(s);
  switch (s.draw(4)) {
    case 0:
    case 1:
      expect(c, k, n >= 0, "Resize(" + std::to_string(n) + ")", [&] { a.Resize(n); });
      if (n >= 0) {
        std::size_t old = m.size();
        m.resize(static_cast<std::size_t>(n), 5);
        for (std::size_t p = old; p < m.size(); ++p) a[static_cast<il::int_t>(p)] = El<T>::make(5);
      }
      break;
    case 2: expect(c, k, n >= 0, "Reserve(" + std::to_string(n) + ")", [&] { a.Reserve(n); }); break;
    default:
      expect(c, k, n >= 0, "construction with " + std::to_string(n) + " elements", [&] {
        A b{n};
        sink = sink + b.size();
      });
      expect(c, k, n >= 0, "construction with " + std::to_string(n) + " equal elements", [&] {
        A b(n, El<T>::make(3));
        sink = sink + b.size();
      });
  }
}
template <typename T>
void extra1(pbt::Src& s, pbt::Ctx& c, Count& k, il::Array<T>& a, std::vector<long>& m) {
  const il::int_t n = newSize(s);
  if (s.coin()) {
    const std::size_t old = m.size();
    expect(c, k, n >= 0, "Resize(" + std::to_string(n) + ", x)", [&] { a.Resize(n, El<T>::make(4)); });
    if (n >= 0) {
      m.resize(static_cast<std::size_t>(n), 4);
      (void)old;
    }
  } else if (n < 0 && il::isTrivial<T>::value) {
    expect(c, k, false, "aligned construction with " + std::to_string(n) + " elements", [&] {
      il::Array<T> b{n, il::align, 16};
      sink = sink + b.size();
    });
    expect(c, k, false, "aligned construction with " + std::to_string(n) + " equal elements", [&] {
      il::Array<T> b(n, El<T>::make(3), il::align, 16);
      sink = sink + b.size();
    });
  }
}
template <typename T>
void extra1(pbt::Src&, pbt::Ctx&, Count&, il::SmallArray<T, 4>&, std::vector<long>&) {}

template <typename A>
il::int_t capOf(const A& a, std::true_type) { return a.capacity(); }
template <typename A>
il::int_t capOf(const A& a, std::false_type) { return a.size() + 3; }

template <typename T, typename A>
void basic(pbt::Src& s, pbt::Ctx& c, Count& k, A& a, std::vector<long>& m, il::int_t cap) {
  const il::int_t n = static_cast<il::int_t>(m.size());
  const A& ca = a;
  switch (s.draw(8)) {
    case 0: read1<T>(s, c, k, ca, n, cap, m, 0); break;
    case 1: last1<T>(s, c, k, ca, n); break;
    case 2: sub1(s, c, k, ca, n, cap); break;
    case 3: write1<T>(s, c, k, a, n, cap, m, 0); break;
    case 4: wlast1<T>(s, c, k, a, n, m, 0); break;
    case 5: esub1(s, c, k, a, n, cap); break;
    case 6:
      if (n > 0) {
        const il::int_t b = s.range(0, n - 1), e = s.range(b, n);
        LOG("through the view (" << b << ", " << e << ")");
        views1<T>(s, c, k, a.Edit(il::Range{b, e}), m, static_cast<std::size_t>(b), cap);
        break;
      }
    // fallthrough
    default: views1<T>(s, c, k, a.Edit(), m, 0, cap);
  }
}

template <typename T, typename A, bool dynamic>
struct OneD {
  static void go(pbt::Src& s, pbt::Ctx& c, Count& k, A& a) {
    std::vector<long> m;
    for (il::int_t i = 0; i < a.size(); ++i) {
      m.push_back(s.range(0, 99));
      a[i] = El<T>::make(m.back());
    }
    const il::int_t ops = s.range(1, 24);
    for (il::int_t o = 0; o < ops; ++o) {
      const il::int_t cap = capOf(a, std::integral_constant<bool, dynamic>{});
      step(s, c, k, a, m, cap, std::integral_constant<bool, dynamic>{});
      contents<T>(c, a, m);
    }
    c.nontrivial = k.accepted && k.refused && a.size() > 0;
  }
  static void step(pbt::Src& s, pbt::Ctx& c, Count& k, A& a, std::vector<long>& m, il::int_t cap, std::true_type) {
    switch (s.draw(9)) {
      case 0: dynamic1<T>(s, c, k, a, m); return;
      case 1: extra1(s, c, k, a, m); return;
      default: basic<T>(s, c, k, a, m, cap);
    }
  }
  static void step(pbt::Src& s, pbt::Ctx& c, Count& k, A& a, std::vector<long>& m, il::int_t cap, std::false_type) {
    basic<T>(s, c, k, a, m, cap);
  }
};

template <typename T>
void array(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::int_t n = s.size(12);
  il::Array<T> a{n};
  const il::int_t r = n + s.range(0, 6);
  if (s.chance(3, 4)) a.Reserve(r);
  LOG("Array of " << n << ", capacity " << a.capacity());
  OneD<T, il::Array<T>, true>::go(s, c, k, a);
}
template <typename T>
void small(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::int_t n = s.size(9);
  il::SmallArray<T, 4> a{n};
  const il::int_t r = n + s.range(0, 6);
  if (s.coin()) a.Reserve(r);
  LOG("SmallArray of " << n << ", capacity " << a.capacity());
  OneD<T, il::SmallArray<T, 4>, true>::go(s, c, k, a);
}
template <typename T>
void statik(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  struct {
    T before[2];
    il::StaticArray<T, 5> a;
    T after[2];
  } h;
  LOG("StaticArray of 5");
  OneD<T, il::StaticArray<T, 5>, false>::go(s, c, k, h.a);
}

// Several dimensions ---------------------------------------------------------
template <std::size_t R>
using Idx = std::array<il::int_t, R>;
template <std::size_t R>
std::string show(const Idx<R>& n) {
  std::string o = "(";
  for (std::size_t d = 0; d < R; ++d) o += (d ? ", " : "") + std::to_string(n[d]);
  return o + ")";
}
template <typename A>
auto at(A& a, const Idx<2>& i) -> decltype(a(0, 0)) { return a(i[0], i[1]); }
template <typename A>
auto at(A& a, const Idx<3>& i) -> decltype(a(0, 0, 0)) { return a(i[0], i[1], i[2]); }
template <typename A>
auto at(A& a, const Idx<4>& i) -> decltype(a(0, 0, 0, 0)) { return a(i[0], i[1], i[2], i[3]); }
template <typename A>
A make(const Idx<2>& n) { return A{n[0], n[1]}; }
template <typename A>
A make(const Idx<3>& n) { return A{n[0], n[1], n[2]}; }
template <typename A>
A make(const Idx<4>& n) { return A{n[0], n[1], n[2], n[3]}; }
template <typename A, typename T>
A make(const Idx<2>& n, const T& x) { return A(n[0], n[1], x); }
template <typename A, typename T>
A make(const Idx<3>& n, const T& x) { return A(n[0], n[1], n[2], x); }
template <typename A, typename T>
A make(const Idx<4>& n, const T& x) { return A(n[0], n[1], n[2], n[3], x); }
template <typename A>
A makea(const Idx<2>& n) { return A(n[0], n[1], il::align, 16); }
template <typename A>
A makea(const Idx<3>& n) { return A(n[0], n[1], n[2], il::align, 16); }
template <typename A, typename T>
A makea(const Idx<2>& n, const T& x) { return A(n[0], n[1], x, il::align, 16); }
template <typename A, typename T>
A makea(const Idx<3>& n, const T& x) { return A(n[0], n[1], n[2], x, il::align, 16); }
template <typename A>
void resize(A& a, const Idx<2>& n) { a.Resize(n[0], n[1]); }
template <typename A>
void resize(A& a, const Idx<3>& n) { a.Resize(n[0], n[1], n[2]); }
template <typename A>
void resize(A& a, const Idx<4>& n) { a.Resize(n[0], n[1], n[2], n[3]); }
template <typename A>
void reserve(A& a, const Idx<2>& n) { a.Reserve(n[0], n[1]); }
template <typename A>
void reserve(A& a, const Idx<3>& n) { a.Reserve(n[0], n[1], n[2]); }
template <typename A>
void reserve(A& a, const Idx<4>& n) { a.Reserve(n[0], n[1], n[2], n[3]); }

template <std::size_t R>
struct Grid {
  Idx<R> n;
  std::vector<long> v;
  std::size_t pos(const Idx<R>& i) const {
    std::size_t p = 0;
    for (std::size_t d = 0; d < R; ++d) p = p * static_cast<std::size_t>(n[d]) + static_cast<std::size_t>(i[d]);
    return p;
  }
  template <typename F>
  void each(F f) {
    if (v.empty()) return;
    Idx<R> i;
    i.fill(0);
    for (std::size_t p = 0; p < v.size(); ++p) {
      f(i, v[p]);
      for (std::size_t d = R; d-- > 0;) {
        if (++i[d] < n[d]) break;
        i[d] = 0;
      }
    }
  }
};
template <typename T, std::size_t R, typename A>
void refill(pbt::Src& s, Grid<R>& g, A& a, const Idx<R>& n) {
  g.n = n;
  std::size_t total = 1;
  for (il::int_t x : n) total *= static_cast<std::size_t>(x);
  g.v.assign(total, 0);
  const long x0 = s.range(0, 40);
  long q = 0;
  g.each([&](const Idx<R>& i, long& x) {
    x = (x0 + 7 * q++) % 100;
    at(a, i) = El<T>::make(x);
  });
}
template <typename T, std::size_t R, typename A>
void contentsN(pbt::Ctx& c, Grid<R>& g, A& a) {
  for (std::size_t d = 0; d < R; ++d)
    REQUIRE(a.size(static_cast<il::int_t>(d)) == g.n[d], "size along " << d << " is " << a.size(static_cast<il::int_t>(d)) << " and should be " << g.n[d]);
  g.each([&](const Idx<R>& i, long& x) { REQUIRE(El<T>::get(at(a, i)) == x, "element " << show(i) << " changed"); });
}
// Indices with at most a few which are out of range
template <std::size_t R>
Idx<R> indices(pbt::Src& s, const Idx<R>& n, bool& valid) {
  Idx<R> i;
  const unsigned how = static_cast<unsigned>(s.draw(8));
  const std::size_t bad = s.draw(R);
  valid = true;
  for (std::size_t d = 0; d < R; ++d) {
    if (how < 6 && d != bad)
      i[d] = n[d] > 0 ? s.range(0, n[d] - 1) : 0;
    else
      i[d] = index(s, n[d], n[d] + 3);
    valid = valid && in(i[d], n[d]);
  }
  return i;
}
template <typename T, std::size_t R, typename A>
void element(pbt::Src& s, pbt::Ctx& c, Count& k, A& a, Grid<R>& g) {
  bool valid;
  const Idx<R> i = indices<R>(s, g.n, valid);
  if (s.coin()) {
    const A& ca = a;
    expect(c, k, valid, "const " + show(i), [&] { sink = sink + El<T>::get(at(ca, i)); });
  } else {
    const long x = s.range(0, 99);
    expect(c, k, valid, show(i) + " = " + std::to_string(x), [&] { at(a, i) = El<T>::make(x); });
    if (valid) g.v[g.pos(i)] = x;
  }
}
template <std::size_t R, typename A>
void dimension(pbt::Src& s, pbt::Ctx& c, Count& k, const A& a) {
  const il::int_t d = index(s, static_cast<il::int_t>(R), static_cast<il::int_t>(R) + 2);
  expect(c, k, in(d, static_cast<il::int_t>(R)), "size(" + std::to_string(d) + ")", [&] { sink = sink + a.size(d); });
}
template <std::size_t R, typename A>
void dimensionCap(pbt::Src& s, pbt::Ctx& c, Count& k, const A& a) {
  const il::int_t d = index(s, static_cast<il::int_t>(R), static_cast<il::int_t>(R) + 2);
  expect(c, k, in(d, static_cast<il::int_t>(R)), "capacity(" + std::to_string(d) + ")", [&] { sink = sink + a.capacity(d); });
}
// Number of dimensions which have a stride. In rank 4, there is no stride
template <typename A>
void dimensionStride(pbt::Src& s, pbt::Ctx& c, Count& k, const A& a, il::int_t nb) {
  const il::int_t d = index(s, nb, nb + 2);
  expect(c, k, in(d, nb), "stride(" + std::to_string(d) + ")", [&] { sink = sink + a.stride(d); });
}
template <std::size_t R>
Idx<R> shape(pbt::Src& s, il::int_t max) {
  Idx<R> n;
  for (auto& x : n) x = s.size(max);
  return n;
}
template <std::size_t R>
Idx<R> badShape(pbt::Src& s, bool& valid) {
  Idx<R> n = shape<R>(s, 4);
  if (s.chance(3, 4)) n[s.draw(R)] = s.oneOf<il::int_t>({-1, -2, -7, LONG_MIN, LONG_MIN + 1, -4294967296l, -4294967296l + 1, -2147483648l});
  valid = true;
  for (il::int_t x : n) valid = valid && x >= 0;
  return n;
}
template <typename A, typename T, std::size_t R>
typename std::enable_if<(R < 4)>::type alignedCtor(pbt::Ctx& c, Count& k, const Idx<R>& n) {
  if (!il::isTrivial<T>::value) return;
  expect(c, k, false, "aligned construction of " + show(n), [&] {
    A b = makea<A>(n);
    sink = sink + b.size(0);
  });
  expect(c, k, false, "aligned construction of " + show(n) + " with a value", [&] {
    A b = makea<A>(n, El<T>::make(2));
    sink = sink + b.size(0);
  });
}
template <typename A, typename T, std::size_t R>
typename std::enable_if<(R == 4)>::type alignedCtor(pbt::Ctx&, Count&, const Idx<R>&) {}

template <typename T, std::size_t R, typename A>
void change(pbt::Src& s, pbt::Ctx& c, Count& k, A& a, Grid<R>& g) {
  bool valid;
  const Idx<R> n = badShape<R>(s, valid);
  switch (s.draw(3)) {
    case 0:
      expect(c, k, valid, "Resize" + show(n), [&] { resize(a, n); });
      if (valid) refill<T, R>(s, g, a, n);
      break;
    case 1: expect(c, k, valid, "Reserve" + show(n), [&] { reserve(a, n); }); break;
    default:
      expect(c, k, valid, "construction of " + show(n), [&] {
        A b = make<A>(n);
        sink = sink + b.size(0);
      });
      expect(c, k, valid, "construction of " + show(n) + " with a value", [&] {
        A b = make<A>(n, El<T>::make(2));
        sink = sink + b.size(0);
      });
      if (!valid) alignedCtor<A, T, R>(c, k, n);
  }
}

// What is specific to rank 2
template <typename T>
void special(pbt::Src& s, pbt::Ctx& c, Count& k, il::Array2D<T>& a, Grid<2>& g) {
  const il::Array2D<T>& ca = a;
  il::Range r0{0, 0}, r1{0, 0};
  bool v0 = false, v1 = false;
  switch (s.draw(6)) {
    case 0:
    case 1: {
      const il::int_t j = index(s, g.n[1], g.n[1] + 2);
      const bool valid = in(j, g.n[1]);
      if (s.coin())
        expect(c, k, valid, "data(" + std::to_string(j) + ")", [&] { sink = sink + (ca.data(j) != nullptr); });
      else
        expect(c, k, valid, "Data(" + std::to_string(j) + ")", [&] { sink = sink + (a.Data(j) != nullptr); });
      break;
    }
    case 2:
    case 3: {
      if (!drawRange(s, g.n[0], g.n[0] + 3, r0, v0) || !drawRange(s, g.n[1], g.n[1] + 3, r1, v1)) return;
      if (s.coin())
        expect(c, k, v0 && v1, "view(" + show(r0) + ", " + show(r1) + ")", [&] { sink = sink + ca.view(r0, r1).size(0); });
      else
        expect(c, k, v0 && v1, "Edit(" + show(r0) + ", " + show(r1) + ")", [&] { sink = sink + a.Edit(r0, r1).size(0); });
      break;
    }
    default: {
      if (!drawRange(s, g.n[0], g.n[0] + 3, r0, v0)) return;
      const il::int_t j = s.coin() && g.n[1] > 0 ? s.range(0, g.n[1] - 1) : index(s, g.n[1], g.n[1] + 2);
      const bool valid = v0 && in(j, g.n[1]);
      if (s.coin())
        expect(c, k, valid, "view(" + show(r0) + ", " + std::to_string(j) + ")", [&] { sink = sink + ca.view(r0, j).size(); });
      else
        expect(c, k, valid, "Edit(" + show(r0) + ", " + std::to_string(j) + ")", [&] { sink = sink + a.Edit(r0, j).size(); });
    }
  }
}
template <typename T>
void special(pbt::Src& s, pbt::Ctx& c, Count& k, il::Array2C<T>& a, Grid<2>& g) {
  const il::Array2C<T>& ca = a;
  il::Range r0{0, 0}, r1{0, 0};
  bool v0 = false, v1 = false;
  switch (s.draw(4)) {
    case 0:
    case 1: {
      const il::int_t i = index(s, g.n[0], g.n[0] + 2);
      const bool valid = in(i, g.n[0]);
      if (s.coin())
        expect(c, k, valid, "data(" + std::to_string(i) + ")", [&] { sink = sink + (ca.data(i) != nullptr); });
      else
        expect(c, k, valid, "Data(" + std::to_string(i) + ")", [&] { sink = sink + (a.Data(i) != nullptr); });
      break;
    }
    case 2:
      if (!drawRange(s, g.n[0], g.n[0] + 3, r0, v0) || !drawRange(s, g.n[1], g.n[1] + 3, r1, v1)) return;
      expect(c, k, v0 && v1, "view(" + show(r0) + ", " + show(r1) + ")", [&] { sink = sink + ca.view(r0, r1).size(0); });
      break;
    default: {
      if (!drawRange(s, g.n[1], g.n[1] + 3, r1, v1)) return;
      const il::int_t i = s.coin() && g.n[0] > 0 ? s.range(0, g.n[0] - 1) : index(s, g.n[0], g.n[0] + 2);
      expect(c, k, v1 && in(i, g.n[0]), "view(" + std::to_string(i) + ", " + show(r1) + ")", [&] { sink = sink + ca.view(i, r1).size(); });
    }
  }
}
template <typename T>
void special(pbt::Src& s, pbt::Ctx& c, Count& k, il::Array3C<T>& a, Grid<3>& g) {
  dimensionStride(s, c, k, a, 3);
}
template <typename T>
void special(pbt::Src& s, pbt::Ctx& c, Count& k, il::Array3D<T>& a, Grid<3>&) {
  dimensionStride(s, c, k, a, 3);
}
template <typename T>
void special(pbt::Src&, pbt::Ctx&, Count&, il::Array4D<T>&, Grid<4>&) {}
template <typename T>
void special(pbt::Src&, pbt::Ctx&, Count&, il::Array4C<T>&, Grid<4>&) {}

template <typename A>
void stride2(pbt::Src& s, pbt::Ctx& c, Count& k, const A& a, std::integral_constant<std::size_t, 2>) { dimensionStride(s, c, k, a, 2); }
template <typename A, std::size_t R>
void stride2(pbt::Src&, pbt::Ctx&, Count&, const A&, std::integral_constant<std::size_t, R>) {}

template <typename T, std::size_t R, typename A>
void dynamicN(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const Idx<R> n = shape<R>(s, R == 2 ? 6 : 4);
  A a = make<A>(n);
  if (s.chance(3, 4)) {
    Idx<R> r = n;
    for (auto& x : r) x += s.range(0, 3);
    reserve(a, r);
    LOG(show(n) << " of " << El<T>::name() << ", capacity " << show(r));
  } else {
    LOG(show(n) << " of " << El<T>::name());
  }
  Grid<R> g;
  refill<T, R>(s, g, a, n);
  const il::int_t ops = s.range(1, 16);
  for (il::int_t o = 0; o < ops; ++o) {
    switch (s.draw(10)) {
      case 0: dimension<R>(s, c, k, a); break;
      case 1: dimensionCap<R>(s, c, k, a); break;
      case 2: change<T, R>(s, c, k, a, g); break;
      case 3: stride2(s, c, k, a, std::integral_constant<std::size_t, R>{}); break;
      case 4:
      case 5: special(s, c, k, a, g); break;
      default: element<T, R>(s, c, k, a, g);
    }
    contentsN<T, R>(c, g, a);
  }
  c.nontrivial = k.accepted && k.refused && !g.v.empty();
}

template <typename T, std::size_t R, typename A>
void staticN(pbt::Src& s, pbt::Ctx& c, const Idx<R>& n) {
  Count k;
  struct {
    T before[2];
    A a;
    T after[2];
  } h;
  Grid<R> g;
  refill<T, R>(s, g, h.a, n);
  const il::int_t ops = s.range(1, 16);
  for (il::int_t o = 0; o < ops; ++o) {
    if (s.chance(1, 6))
      dimension<R>(s, c, k, h.a);
    else
      element<T, R>(s, c, k, h.a, g);
    contentsN<T, R>(c, g, h.a);
  }
  c.nontrivial = k.accepted && k.refused;
}

// Views of rank 2 and 3 over raw memory
template <typename T>
void subs(pbt::Src& s, pbt::Ctx& c, Count& k, const il::Array2DView<T>& v, Grid<2>& g) {
  il::Range r0{0, 0}, r1{0, 0};
  bool v0 = false, v1 = false;
  if (!drawRange(s, g.n[0], g.n[0] + 3, r0, v0) || !drawRange(s, g.n[1], g.n[1] + 3, r1, v1)) return;
  expect(c, k, v0 && v1, "view(" + show(r0) + ", " + show(r1) + ")", [&] { sink = sink + v.view(r0, r1).size(0); });
}
template <typename V>
void subs(pbt::Src&, pbt::Ctx&, Count&, const V&, Grid<2>&) {}
template <typename E>
void subsE(pbt::Src& s, pbt::Ctx& c, Count& k, E& v, Grid<2>& g) {
  il::Range r0{0, 0}, r1{0, 0};
  bool v0 = false, v1 = false;
  if (!drawRange(s, g.n[0], g.n[0] + 3, r0, v0) || !drawRange(s, g.n[1], g.n[1] + 3, r1, v1)) return;
  expect(c, k, v0 && v1, "Edit(" + show(r0) + ", " + show(r1) + ")", [&] { sink = sink + v.Edit(r0, r1).size(0); });
}
template <typename T, template <typename> class V, template <typename> class E>
void view2(pbt::Src& s, pbt::Ctx& c, bool byColumn) {
  Count k;
  const Idx<2> n = shape<2>(s, 6);
  const il::int_t stride = (byColumn ? n[0] : n[1]) + s.range(0, 3);
  std::vector<T> mem(static_cast<std::size_t>((byColumn ? n[1] : n[0]) * stride + 1));
  E<T> e{mem.data(), n[0], n[1], stride, 0, 0};
  const V<T> v{mem.data(), n[0], n[1], stride};
  LOG("view of " << show(n) << " with stride " << stride);
  Grid<2> g;
  refill<T, 2>(s, g, e, n);
  const il::int_t ops = s.range(1, 16);
  for (il::int_t o = 0; o < ops; ++o) {
    switch (s.draw(8)) {
      case 0: dimension<2>(s, c, k, v); break;
      case 1: dimensionStride(s, c, k, v, 2); break;
      case 2: subs(s, c, k, v, g); break;
      case 3: subsE(s, c, k, e, g); break;
      case 4: {
        bool valid;
        const Idx<2> m = badShape<2>(s, valid);
        if (valid) break;
        if (s.coin())
          expect(c, k, false, "view of " + show(m), [&] { V<T> u{mem.data(), m[0], m[1], 1}; sink = sink + u.size(0); });
        else
          expect(c, k, false, "edit of " + show(m), [&] { E<T> u{mem.data(), m[0], m[1], 1, 0, 0}; sink = sink + u.size(0); });
        break;
      }
      case 5: {
        bool valid;
        const Idx<2> i = indices<2>(s, g.n, valid);
        expect(c, k, valid, "view " + show(i), [&] { sink = sink + El<T>::get(v(i[0], i[1])); });
        break;
      }
      default: {
        bool valid;
        const Idx<2> i = indices<2>(s, g.n, valid);
        const long x = s.range(0, 99);
        expect(c, k, valid, "edit " + show(i), [&] { e(i[0], i[1]) = El<T>::make(x); });
        if (valid) g.v[g.pos(i)] = x;
      }
    }
    contentsN<T, 2>(c, g, e);
  }
  c.nontrivial = k.accepted && k.refused && !g.v.empty();
}
template <typename T>
void view3(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const Idx<3> n = shape<3>(s, 4);
  const il::int_t s0 = n[0] + s.range(0, 2), s1 = n[1] + s.range(0, 2);
  std::vector<T> mem(static_cast<std::size_t>(s0 * s1 * n[2] + 1));
  il::Array3DEdit<T> e{mem.data(), n[0], n[1], n[2], s0, s1};
  const il::Array3DView<T> v{mem.data(), n[0], n[1], n[2], s0, s1};
  Grid<3> g;
  refill<T, 3>(s, g, e, n);
  const il::int_t ops = s.range(1, 16);
  for (il::int_t o = 0; o < ops; ++o) {
    bool valid;
    switch (s.draw(6)) {
      case 0: dimension<3>(s, c, k, v); break;
      case 1: dimensionStride(s, c, k, v, 2); break;
      case 2: {
        const Idx<3> m = badShape<3>(s, valid);
        if (!valid) expect(c, k, false, "view of " + show(m), [&] { il::Array3DView<T> u{mem.data(), m[0], m[1], m[2], 1, 1}; sink = sink + u.size(0); });
        break;
      }
      case 3: {
        const Idx<3> i = indices<3>(s, g.n, valid);
        expect(c, k, valid, "view " + show(i), [&] { sink = sink + El<T>::get(v(i[0], i[1], i[2])); });
        break;
      }
      default: {
        const Idx<3> i = indices<3>(s, g.n, valid);
        const long x = s.range(0, 99);
        expect(c, k, valid, "edit " + show(i), [&] { e(i[0], i[1], i[2]) = El<T>::make(x); });
        if (valid) g.v[g.pos(i)] = x;
      }
    }
    contentsN<T, 3>(c, g, e);
  }
  c.nontrivial = k.accepted && k.refused && !g.v.empty();
}

// Triangular matrices
template <typename T, typename A>
void triangular(pbt::Src& s, pbt::Ctx& c, bool lower) {
  Count k;
  const il::int_t n = s.size(8);
  A a{n};
  std::vector<std::vector<long>> m(static_cast<std::size_t>(n), std::vector<long>(static_cast<std::size_t>(n), 0));
  auto stored = [&](il::int_t i, il::int_t j) { return lower ? j <= i : i <= j; };
  for (il::int_t i = 0; i < n; ++i)
    for (il::int_t j = 0; j < n; ++j)
      if (stored(i, j)) {
        m[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)] = (3 * i + 7 * j) % 50;
        a(i, j) = El<T>::make((3 * i + 7 * j) % 50);
      }
  const A& ca = a;
  LOG((lower ? "lower" : "upper") << " of order " << n);
  const il::int_t ops = s.range(1, 16);
  for (il::int_t o = 0; o < ops; ++o) {
    bool valid;
    const Idx<2> i = indices<2>(s, Idx<2>{{n, n}}, valid);
    valid = valid && stored(i[0], i[1]);
    if (s.chance(1, 8)) {
      const il::int_t q = newSize(s);
      expect(c, k, q >= 0, "construction of order " + std::to_string(q), [&] {
        A b{q};
        sink = sink + b.size();
      });
    } else if (s.coin()) {
      expect(c, k, valid, "const " + show(i), [&] { sink = sink + El<T>::get(ca(i[0], i[1])); });
    } else {
      const long x = s.range(0, 99);
      expect(c, k, valid, show(i) + " = " + std::to_string(x), [&] { a(i[0], i[1]) = El<T>::make(x); });
      if (valid) m[static_cast<std::size_t>(i[0])][static_cast<std::size_t>(i[1])] = x;
    }
    for (il::int_t p = 0; p < n; ++p)
      for (il::int_t q = 0; q < n; ++q)
        if (stored(p, q)) REQUIRE(El<T>::get(ca(p, q)) == m[static_cast<std::size_t>(p)][static_cast<std::size_t>(q)], "element (" << p << ", " << q << ") changed");
  }
  c.nontrivial = k.accepted && k.refused && n > 0;
}

template <int which, typename T>
void all(pbt::Src& s, pbt::Ctx& c) {
  if constexpr (which == 0) array<T>(s, c);
  if constexpr (which == 1) small<T>(s, c);
  if constexpr (which == 2) statik<T>(s, c);
  if constexpr (which == 3) dynamicN<T, 2, il::Array2D<T>>(s, c);
  if constexpr (which == 4) dynamicN<T, 2, il::Array2C<T>>(s, c);
  if constexpr (which == 5) dynamicN<T, 3, il::Array3D<T>>(s, c);
  if constexpr (which == 6) dynamicN<T, 3, il::Array3C<T>>(s, c);
  if constexpr (which == 7) dynamicN<T, 4, il::Array4D<T>>(s, c);
  if constexpr (which == 8) dynamicN<T, 4, il::Array4C<T>>(s, c);
  if constexpr (which == 9) {
    switch (s.draw(4)) {
      case 0: staticN<T, 2, il::StaticArray2D<T, 3, 4>>(s, c, Idx<2>{{3, 4}}); break;
      case 1: staticN<T, 2, il::StaticArray2C<T, 4, 3>>(s, c, Idx<2>{{4, 3}}); break;
      case 2: staticN<T, 3, il::StaticArray3D<T, 2, 3, 4>>(s, c, Idx<3>{{2, 3, 4}}); break;
      default: staticN<T, 4, il::StaticArray4D<T, 2, 3, 2, 4>>(s, c, Idx<4>{{2, 3, 2, 4}});
    }
  }
  if constexpr (which == 10) {
    if (s.coin())
      view2<T, il::Array2DView, il::Array2DEdit>(s, c, true);
    else
      view2<T, il::Array2CView, il::Array2CEdit>(s, c, false);
  }
  if constexpr (which == 11) view3<T>(s, c);
  if constexpr (which == 12) {
    if (s.coin())
      triangular<T, il::LowerArray2D<T>>(s, c, true);
    else
      triangular<T, il::UpperArray2D<T>>(s, c, false);
  }
}
template <int which>
void run(pbt::Src& s, pbt::Ctx& c) {
  if (s.chance(1, 3))
    all<which, std::string>(s, c);
  else
    all<which, double>(s, c);
}
}  // namespace

#if PBT_IN(0)
PROPERTY(Array, 3) { run<0>(s, c); }
#endif
#if PBT_IN(0)
PROPERTY(SmallArray, 2) { run<1>(s, c); }
#endif
#if PBT_IN(0)
PROPERTY(StaticArray, 2) { run<2>(s, c); }
#endif
#if PBT_IN(1)
PROPERTY(Array2D, 3) { run<3>(s, c); }
#endif
#if PBT_IN(2)
PROPERTY(Array2C, 3) { run<4>(s, c); }
#endif
#if PBT_IN(3)
PROPERTY(Array3D, 2) { run<5>(s, c); }
#endif
#if PBT_IN(4)
PROPERTY(Array3C, 2) { run<6>(s, c); }
#endif
#if PBT_IN(5)
PROPERTY(Array4D, 2) { run<7>(s, c); }
#endif
#if PBT_IN(6)
PROPERTY(Array4C, 2) { run<8>(s, c); }
#endif
#if PBT_IN(7)
PROPERTY(static_ND, 2) { run<9>(s, c); }
#endif
#if PBT_IN(7)
PROPERTY(view_2D, 2) { run<10>(s, c); }
#endif
#if PBT_IN(7)
PROPERTY(view_3D, 1) { run<11>(s, c); }
#endif
#if PBT_IN(7)
PROPERTY(triangular, 1) { run<12>(s, c); }
#endif
