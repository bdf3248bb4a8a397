// C06: aligned arrays.
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>

#include <array>
#include <memory>

#include "common.h"

using vt::El;

#if PBT_IN(0)
namespace pbt {
const char* rule =
    "a history of 1 to 16 operations over 3 arrays of one kind (Array, 2D, 2C, 3D, 3C; 8 element types), created with "
    "random alignments (multiples of the element size up to 4096, any remainder, modulus not only powers of 2); after "
    "each operation (sizes to 40, now and then 20000) the addresses are compared with the request and every element of the capacity is written. "
    "Non-trivial: an array with elements and an alignment which is more than what malloc gives went through a growth, "
    "a copy or a move";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 500000;
    pbt::thorough_cases = 10000000;
  }
} init;
}  // namespace
#endif
namespace {

// What was asked for. a == 0: nothing
struct Request {
  il::int_t a = 0, r = 0, m = 0;
  bool strong() const { return a > 0 && (r != 0 || (16 % m) != 0); }
};

template <typename T>
Request drawRequest(pbt::Src& s) {
  const il::int_t z = static_cast<il::int_t>(sizeof(T));
  Request q;
  switch (s.weighted({4, 3, 2})) {
    case 0: q.a = z << s.range(0, 5); break;
    case 1: q.a = z * s.range(1, 12); break;
    default: q.a = z << s.range(0, 8); break;
  }
  if (q.a > 4096) q.a = z;
  il::int_t k = s.coin() ? s.range(1, 8) : (1l << s.range(0, 6));
  while (q.a * k > 32767) k = 1;
  q.m = q.a * k;
  q.r = q.a * s.range(0, k - 1);
  return q;
}
std::string show(const Request& q) {
  return q.a ? "multiple of " + std::to_string(q.a) + ", " + std::to_string(q.r) + " mod " + std::to_string(q.m) : "no alignment";
}
std::size_t addr(const void* p) { return reinterpret_cast<std::size_t>(p); }

template <std::size_t R>
using Idx = std::array<il::int_t, R>;
template <std::size_t R>
std::string show(const Idx<R>& n) {
  std::string o = "(";
  for (std::size_t d = 0; d < R; ++d) o += (d ? ", " : "") + std::to_string(n[d]);
  return o + ")";
}

// Adapters -------------------------------------------------------------------
template <typename T>
struct Vec {
  using A = il::Array<T>;
  static constexpr std::size_t rank = 1;
  static const char* name() { return "Array"; }
  static std::unique_ptr<A> make(const Idx<1>& n) { return std::unique_ptr<A>(new A(n[0])); }
  static std::unique_ptr<A> make(const Idx<1>& n, const T* x, const Request& q, bool shortForm) {
    if (shortForm) return std::unique_ptr<A>(x ? new A(n[0], *x, il::align, q.a) : new A(n[0], il::align, q.a));
    return std::unique_ptr<A>(x ? new A(n[0], *x, il::align, q.a, q.r, q.m) : new A(n[0], il::align, q.a, q.r, q.m));
  }
  static void resize(A& a, const Idx<1>& n) { a.Resize(n[0]); }
  static void reserve(A& a, const Idx<1>& n) { a.Reserve(n[0]); }
  static Idx<1> size(const A& a) { return Idx<1>{{a.size()}}; }
  static Idx<1> capacity(const A& a) { return Idx<1>{{a.capacity()}}; }
  static void check(pbt::Ctx&, A&, const Request&) {}
  static T& at(A& a, const Idx<1>& i) { return a[i[0]]; }
};
template <typename T, bool byColumn>
struct Mat {
  using A = typename std::conditional<byColumn, il::Array2D<T>, il::Array2C<T>>::type;
  static constexpr std::size_t rank = 2;
  static const char* name() { return byColumn ? "Array2D" : "Array2C"; }
  static std::unique_ptr<A> make(const Idx<2>& n) { return std::unique_ptr<A>(new A(n[0], n[1])); }
  static std::unique_ptr<A> make(const Idx<2>& n, const T* x, const Request& q, bool shortForm) {
    if (shortForm) return std::unique_ptr<A>(x ? new A(n[0], n[1], *x, il::align, q.a) : new A(n[0], n[1], il::align, q.a));
    return std::unique_ptr<A>(x ? new A(n[0], n[1], *x, il::align, q.a, q.r, q.m) : new A(n[0], n[1], il::align, q.a, q.r, q.m));
  }
  static void resize(A& a, const Idx<2>& n) { a.Resize(n[0], n[1]); }
  static void reserve(A& a, const Idx<2>& n) { a.Reserve(n[0], n[1]); }
  static Idx<2> size(const A& a) { return Idx<2>{{a.size(0), a.size(1)}}; }
  static Idx<2> capacity(const A& a) { return Idx<2>{{a.capacity(0), a.capacity(1)}}; }
  static T& at(A& a, const Idx<2>& i) { return a(i[0], i[1]); }
  static void check(pbt::Ctx& c, A& a, const Request& q) {
    const Idx<2> n = size(a);
    const il::int_t lines = byColumn ? n[1] : n[0], len = byColumn ? n[0] : n[1];
    const A& ca = a;
    for (il::int_t k = 0; k < lines; ++k) {
      const Idx<2> first = byColumn ? Idx<2>{{0, k}} : Idx<2>{{k, 0}};
      const Idx<2> next = byColumn ? Idx<2>{{0, k + 1}} : Idx<2>{{k + 1, 0}};
      T* const p = &at(a, first);
      REQUIRE(ca.data(k) == p && a.Data(k) == p, "start of line " << k);
      if (q.a) REQUIRE(addr(p) % static_cast<std::size_t>(q.a) == 0, "the start of " << (byColumn ? "column " : "row ") << k << " is " << addr(p) % static_cast<std::size_t>(q.a) << " modulo " << q.a);
      if (k + 1 < lines) REQUIRE(&at(a, next) - p >= len, "lines " << k << " and " << k + 1 << " overlap");
    }
  }
};
template <typename T, bool byColumn>
struct Cube {
  using A = typename std::conditional<byColumn, il::Array3D<T>, il::Array3C<T>>::type;
  static constexpr std::size_t rank = 3;
  static const char* name() { return byColumn ? "Array3D" : "Array3C"; }
  static std::unique_ptr<A> make(const Idx<3>& n) { return std::unique_ptr<A>(new A(n[0], n[1], n[2])); }
  static std::unique_ptr<A> make(const Idx<3>& n, const T* x, const Request& q, bool shortForm) {
    if (shortForm) return std::unique_ptr<A>(x ? new A(n[0], n[1], n[2], *x, il::align, q.a) : new A(n[0], n[1], n[2], il::align, q.a));
    return std::unique_ptr<A>(x ? new A(n[0], n[1], n[2], *x, il::align, q.a, q.r, q.m) : new A(n[0], n[1], n[2], il::align, q.a, q.r, q.m));
  }
  static void resize(A& a, const Idx<3>& n) { a.Resize(n[0], n[1], n[2]); }
  static void reserve(A& a, const Idx<3>& n) { a.Reserve(n[0], n[1], n[2]); }
  static Idx<3> size(const A& a) { return Idx<3>{{a.size(0), a.size(1), a.size(2)}}; }
  static Idx<3> capacity(const A& a) { return Idx<3>{{a.capacity(0), a.capacity(1), a.capacity(2)}}; }
  static T& at(A& a, const Idx<3>& i) { return a(i[0], i[1], i[2]); }
  static void check(pbt::Ctx& c, A& a, const Request& q) {
    const Idx<3> n = size(a);
    if (n[0] == 0 || n[1] == 0 || n[2] == 0) return;
    const std::size_t fast = byColumn ? 0 : 2, slow = byColumn ? 2 : 0;
    std::vector<T*> starts;
    for (il::int_t k = 0; k < n[slow]; ++k)
      for (il::int_t j = 0; j < n[1]; ++j) {
        Idx<3> i;
        i[fast] = 0;
        i[1] = j;
        i[slow] = k;
        T* const p = &at(a, i);
        if (q.a) REQUIRE(addr(p) % static_cast<std::size_t>(q.a) == 0, "the line of " << show(i) << " starts at " << addr(p) % static_cast<std::size_t>(q.a) << " modulo " << q.a);
        starts.push_back(p);
      }
    for (std::size_t k = 1; k < starts.size(); ++k) REQUIRE(starts[k] - starts[k - 1] >= n[fast], "two lines overlap");
  }
};

template <std::size_t R>
bool empty(const Idx<R>& n) {
  for (il::int_t x : n)
    if (x == 0) return true;
  return false;
}

template <typename K, typename T>
struct Slot {
  std::unique_ptr<typename K::A> a;
  Request q;
  long base = 0;  // element k, in the order of the indices, is base + k modulo 90
};

// Go through the indices
template <std::size_t R, typename F>
void each(const Idx<R>& n, F f) {
  if (empty(n)) return;
  Idx<R> i;
  i.fill(0);
  while (true) {
    f(i);
    std::size_t d = R;
    while (d-- > 0) {
      if (++i[d] < n[d]) break;
      i[d] = 0;
    }
    if (d == static_cast<std::size_t>(-1)) return;
  }
}
template <std::size_t R>
long code(long base, const Idx<R>& i) {
  long x = base;
  for (il::int_t k : i) x = 31 * x + k;
  return (x % 90 + 90) % 90;
}

template <typename K, typename T>
void fillAll(pbt::Src& s, Slot<K, T>& p) {
  p.base = s.range(0, 80);
  each(K::size(*p.a), [&](const Idx<K::rank>& i) { K::at(*p.a, i) = El<T>::make(code(p.base, i)); });
}

template <typename K, typename T>
void check(pbt::Ctx& c, Slot<K, T>& p) {
  typename K::A& a = *p.a;
  const Idx<K::rank> n = K::size(a), r = K::capacity(a);
  for (std::size_t d = 0; d < K::rank; ++d) REQUIRE(r[d] >= n[d], "capacity " << show(r) << " for a size of " << show(n));
  if (empty(n)) return;
  if (p.q.a) {
    const std::size_t z = addr(a.data()) % static_cast<std::size_t>(p.q.m);
    REQUIRE(z == static_cast<std::size_t>(p.q.r), "the first element is " << z << " modulo " << p.q.m << " and " << p.q.r << " was asked for");
    REQUIRE(a.alignment() == p.q.a, "alignment() is " << a.alignment() << " and " << p.q.a << " was asked for");
  }
  K::check(c, a, p.q);
  // The elements have not changed
  each(n, [&](const Idx<K::rank>& i) { REQUIRE(El<T>::get(K::at(a, i)) == code(p.base, i), "element " << show(i) << " changed"); });
}

// Write all the elements of the capacity. They have to be in memory.
template <typename K, typename T>
void writeAll(pbt::Ctx&, Slot<K, T>& p) {
  typename K::A& a = *p.a;
  Idx<K::rank> r = K::capacity(a), n = K::size(a);
  if (empty(r)) return;
  std::size_t total = 1;
  for (il::int_t x : r) total *= static_cast<std::size_t>(x);
  T* const d = a.Data();
  // The last element of the capacity, then those of the array
  for (std::size_t k = 0; k < total; ++k) d[k] = El<T>::make(77);
  each(n, [&](const Idx<K::rank>& i) { K::at(a, i) = El<T>::make(code(p.base, i)); });
}

template <typename T>
bool append(pbt::Src& s, pbt::Ctx& c, Slot<Vec<T>, T>& p) {
  const il::int_t k = s.range(1, 9);
  LOG("append " << k << " elements");
  for (il::int_t j = 0; j < k; ++j) {
    const Idx<1> i{{p.a->size()}};
    if (s.coin())
      p.a->Append(El<T>::make(code(p.base, i)));
    else
      p.a->Append(il::emplace, El<T>::make(code(p.base, i)));
    check(c, p);
  }
  return true;
}
template <typename K, typename T>
bool append(pbt::Src&, pbt::Ctx&, Slot<K, T>&) { return false; }

template <typename K, typename T>
void history(pbt::Src& s, pbt::Ctx& c) {
  using S = Slot<K, T>;
  constexpr std::size_t R = K::rank;
  std::vector<S> slots(3);
  const il::int_t most = R == 1 ? 40 : R == 2 ? 9 : 5;
  auto shape = [&] {
    Idx<R> n;
    for (auto& x : n) x = s.size(most);
    if (s.chance(1, 60)) {  // One long dimension
      n[static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(R) - 1))] = s.range(0, R == 1 ? 20000 : R == 2 ? 700 : 300);
    }
    return n;
  };
  auto create = [&](std::size_t k) {
    S& p = slots[k];
    const Idx<R> n = shape();
    p.q = Request{};
    if (s.chance(4, 5)) p.q = drawRequest<T>(s);
    const bool shortForm = p.q.a && s.chance(1, 3);
    if (shortForm) {
      p.q.r = 0;
      p.q.m = p.q.a;
    }
    const T x = El<T>::make(3);
    const bool valued = s.coin();
    LOG("array " << k << " of " << show(n) << ", " << show(p.q) << (valued ? ", with a value" : ""));
    if (p.q.a)
      p.a = K::make(n, valued ? &x : nullptr, p.q, shortForm);
    else
      p.a = K::make(n);
    REQUIRE(K::size(*p.a) == n, "size");
    if (p.q.a && valued) each(n, [&](const Idx<R>& i) { REQUIRE(El<T>::get(K::at(*p.a, i)) == 3, "element " << show(i) << " does not have its value"); });
    fillAll(s, p);
  };
  LOG(K::name() << " of " << El<T>::name() << ", " << sizeof(T) << " bytes");
  for (std::size_t k = 0; k < 3; ++k) create(k);
  const il::int_t ops = s.range(1, 16);
  for (il::int_t o = 0; o < ops; ++o) {
    for (auto& p : slots) check(c, p);
    const std::size_t k = s.draw(3), l = s.draw(3);
    S& p = slots[k];
    S& q = slots[l];
    const bool strong = p.q.strong() || q.q.strong();
    switch (s.weighted({3, 3, 3, 2, 2, 2, 2, 1, 2})) {
      case 0: {
        const Idx<R> n = shape();
        const Idx<R> old = K::size(*p.a);
        LOG("resize " << k << " to " << show(n));
        K::resize(*p.a, n);
        REQUIRE(K::size(*p.a) == n, "size");
        each(n, [&](const Idx<R>& i) {
          bool was = true;
          for (std::size_t d = 0; d < R; ++d) was = was && i[d] < old[d];
          if (!was) K::at(*p.a, i) = El<T>::make(code(p.base, i));
        });
        if (strong && !empty(n)) c.nontrivial = true;
        break;
      }
      case 1: {
        const Idx<R> n = shape();
        LOG("reserve " << show(n) << " for " << k);
        K::reserve(*p.a, n);
        if (strong && !empty(K::size(*p.a))) c.nontrivial = true;
        break;
      }
      case 2:
        if (append(s, c, p) && strong) c.nontrivial = true;
        break;
      case 3:
        LOG("copy of " << l << " to " << k);
        *p.a = *q.a;
        p.q = q.q;
        p.base = q.base;
        if (k != l && strong && !empty(K::size(*p.a))) c.nontrivial = true;
        break;
      case 4:
        if (k == l) break;
        LOG("move of " << l << " to " << k);
        *p.a = std::move(*q.a);
        p.q = q.q;
        p.base = q.base;
        if (strong && !empty(K::size(*p.a))) c.nontrivial = true;
        create(l);
        break;
      case 5:
        if (k == l) break;
        LOG(k << " is built as a copy of " << l);
        p.a.reset(new typename K::A(*q.a));
        p.q = q.q;
        p.base = q.base;
        if (strong && !empty(K::size(*p.a))) c.nontrivial = true;
        break;
      case 6:
        if (k == l) break;
        LOG(k << " is built from " << l << " by a move");
        p.a.reset(new typename K::A(std::move(*q.a)));
        p.q = q.q;
        p.base = q.base;
        if (strong && !empty(K::size(*p.a))) c.nontrivial = true;
        create(l);
        break;
      case 7: create(k); break;
      default: writeAll(c, p);
    }
    writeAll(c, p);
  }
  for (auto& p : slots) check(c, p);
}

template <template <typename> class K>
void types(pbt::Src& s, pbt::Ctx& c) {
  switch (s.draw(8)) {
    case 0: history<K<double>, double>(s, c); break;
    case 1: history<K<float>, float>(s, c); break;
    case 2: history<K<int>, int>(s, c); break;
    case 3: history<K<short>, short>(s, c); break;
    case 4: history<K<signed char>, signed char>(s, c); break;
    case 5: history<K<long double>, long double>(s, c); break;
    case 6: history<K<std::complex<double>>, std::complex<double>>(s, c); break;
    default: history<K<long>, long>(s, c);
  }
}
template <typename T>
using M2D = Mat<T, true>;
template <typename T>
using M2C = Mat<T, false>;
template <typename T>
using M3D = Cube<T, true>;
template <typename T>
using M3C = Cube<T, false>;
}  // namespace

#if PBT_IN(0)
PROPERTY(Array, 3) { types<Vec>(s, c); }
#endif
#if PBT_IN(1)
PROPERTY(Array2D, 3) { types<M2D>(s, c); }
#endif
#if PBT_IN(2)
PROPERTY(Array2C, 3) { types<M2C>(s, c); }
#endif
#if PBT_IN(3)
PROPERTY(Array3D, 2) { types<M3D>(s, c); }
#endif
#if PBT_IN(4)
PROPERTY(Array3C, 2) { types<M3C>(s, c); }
#endif

#if PBT_IN(0)
// sizeof(T) > alignof(T), and a remainder which is not a multiple of sizeof(T)
KNOWN_PROBE(complex_8_mod_16) {
  for (int k = 0; k < 8; ++k) {
    il::Array<std::complex<double>> a{3 + k, il::align, 8, 8, 16};
    if (addr(a.data()) % 16 != 8) return true;
  }
  return false;
}
KNOWN_PROBE(complex_mod_24) {
  for (int k = 0; k < 8; ++k) {
    il::Array<std::complex<double>> a{3 + k, il::align, 8, 8, 24};
    if (addr(a.data()) % 24 != 8) return true;
  }
  return false;
}
#endif
