// C32: in a debug build, the elements which have not been given a value hold
// il::defaultValue<T>() (NaN for floating-point numbers).
#include <array>
#include <complex>
#include <limits>
#include <memory>
#include <utility>

#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/LowerArray2D.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/UpperArray2D.h>

#include "common.h"

#if PBT_IN(0)
namespace pbt {
const char* rule =
    "an array of numbers of one kind (dense of rank 1 to 4 in both orders, small, static, triangular; 16 types of "
    "numbers) goes through a history of 1 to 12 constructions, resizings, reservations, writings, copies and moves; a "
    "table says which elements have been given a value. The memory of the allocator is dirtied first. Non-trivial: an "
    "element was checked to be fresh";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 900000;
    pbt::thorough_cases = 12000000;
  }
} init;
}  // namespace
#endif
namespace {
using std::to_string;
using Cf = std::complex<float>;
using Cd = std::complex<double>;

template <typename T>
struct Num {
  static T make(long k) { return static_cast<T>(k % 100 + 1); }
  static bool same(T x, T y) { return x == y || (x != x && y != y); }
  // NaN, or an integer which is not the usual initial value
  static bool nan(T x) { return std::numeric_limits<T>::has_quiet_NaN ? x != x : std::is_same<T, char>::value || x != T(0); }
};
template <>
struct Num<bool> {
  static bool make(long) { return true; }
  static bool same(bool x, bool y) { return x == y; }
  static bool nan(bool) { return true; }
};
template <typename R>
struct Num<std::complex<R>> {
  using T = std::complex<R>;
  static T make(long k) { return T(static_cast<R>(k % 100 + 1), static_cast<R>(k % 7)); }
  static bool same(T x, T y) { return Num<R>::same(x.real(), y.real()) && Num<R>::same(x.imag(), y.imag()); }
  static bool nan(T x) { return x.real() != x.real() && x.imag() != x.imag(); }
};

// k < 0: fresh
template <typename T>
bool holds(const T& x, long k) {
  return k < 0 ? Num<T>::same(x, il::defaultValue<T>()) && Num<T>::nan(x) : Num<T>::same(x, Num<T>::make(k));
}

// What was freed before the array is made does not read as fresh
void dirty(pbt::Src& s) {
  std::vector<std::unique_ptr<unsigned char[]>> blocks;
  const int n = static_cast<int>(s.range(0, 3));
  for (int i = 0; i < n; ++i) {
    const std::size_t size = static_cast<std::size_t>(1 + s.size(600));
    blocks.emplace_back(new unsigned char[size]);
    std::memset(blocks.back().get(), 0x11, size);
  }
}

// Rank 1 ---------------------------------------------------------------------
template <typename T>
il::Array<T> newArray(pbt::Src& s, il::int_t n, il::Array<T>*) {
  if (s.chance(2, 3)) return il::Array<T>{n};
  const il::int_t size = static_cast<il::int_t>(sizeof(T)), align = size * s.oneOf<il::int_t>({1, 2, 4}), mod = align * s.oneOf<il::int_t>({1, 2, 4});
  if (s.coin()) return il::Array<T>{n, il::align, mod};
  return il::Array<T>{n, il::align, align, align == mod ? 0 : align, mod};
}
template <typename T, il::int_t N>
il::SmallArray<T, N> newArray(pbt::Src&, il::int_t n, il::SmallArray<T, N>*) {
  return il::SmallArray<T, N>{n};
}

template <typename A, typename T>
void list(pbt::Src& s, pbt::Ctx& c) {
  dirty(s);
  std::vector<long> m;
  long next = 0;
  bool checked = false;
  const il::int_t n = s.more(20, 700);
  A a = newArray(s, n, static_cast<A*>(nullptr));
  m.assign(static_cast<std::size_t>(n), -1);
  LOG("an array of " << n);
  const auto check = [&] {
    REQUIRE(a.size() == static_cast<il::int_t>(m.size()), "size " << a.size() << " instead of " << m.size());
    for (il::int_t i = 0; i < a.size(); ++i) {
      const long k = m[static_cast<std::size_t>(i)];
      checked = checked || k < 0;
      REQUIRE(holds<T>(a[i], k), "element " << i << (k < 0 ? " is not the default value" : " has lost its value"));
    }
  };
  check();
  const int ops = static_cast<int>(s.range(0, 12));
  for (int op = 0; op < ops; ++op) {
    switch (s.weighted({6, 2, 2, 3, 1, 1, 1, 1})) {
      case 0: {
        const il::int_t p = s.more(30, 900);
        LOG("Resize(" << p << ")");
        a.Resize(p);
        m.resize(static_cast<std::size_t>(p), -1);
      } break;
      case 1: {
        const il::int_t p = s.more(30, 900);
        LOG("Reserve(" << p << ")");
        a.Reserve(p);
      } break;
      case 2: {
        LOG("Append");
        a.Append(Num<T>::make(next));
        m.push_back(next++);
      } break;
      case 3: {
        if (m.empty()) break;
        const il::int_t b = s.range(0, a.size() - 1);
        LOG("write from " << b);
        for (il::int_t i = b; i < a.size(); ++i) {
          a[i] = Num<T>::make(next);
          m[static_cast<std::size_t>(i)] = next++;
        }
      } break;
      case 4: {
        LOG("copy");
        A b{a};
        a = b;
      } break;
      case 5: {
        LOG("move");
        A b{std::move(a)};
        a = std::move(b);
      } break;
      case 6: {
        const il::int_t p = s.more(20, 700);
        LOG("a new array of " << p);
        a = newArray(s, p, static_cast<A*>(nullptr));
        m.assign(static_cast<std::size_t>(p), -1);
      } break;
      default: {
        const il::int_t p = s.more(20, 700);
        LOG("Resize(0), Resize(" << p << ")");
        a.Resize(0);
        a.Resize(p);
        m.assign(static_cast<std::size_t>(p), -1);
      }
    }
    check();
  }
  c.nontrivial = checked;
}

// Rank 2 to 4 ----------------------------------------------------------------
template <std::size_t R>
using Idx = std::array<il::int_t, R>;
template <std::size_t R>
std::string show(const Idx<R>& n) {
  std::string o = "(";
  for (std::size_t d = 0; d < R; ++d) o += (d ? ", " : "") + to_string(n[d]);
  return o + ")";
}
template <std::size_t R>
struct Table {
  Idx<R> n{};
  std::vector<long> v;
  explicit Table(const Idx<R>& m) : n(m) {
    std::size_t k = 1;
    for (il::int_t x : n) k *= static_cast<std::size_t>(x);
    v.assign(k, -1);
  }
  long& at(const Idx<R>& i) {
    std::size_t p = 0;
    for (std::size_t d = 0; d < R; ++d) p = p * static_cast<std::size_t>(n[d]) + static_cast<std::size_t>(i[d]);
    return v[p];
  }
  template <typename F>
  void each(F f) {
    Idx<R> i;
    i.fill(0);
    for (std::size_t p = 0; p < v.size(); ++p) {
      f(i, v[p]);
      for (std::size_t d = R; d-- > 0;) {
        if (++i[d] < n[d]) break;
        i[d] = 0;
      }
    }
  }
  void resize(const Idx<R>& m) {
    Table t(m);
    t.each([&](const Idx<R>& i, long& x) {
      for (std::size_t d = 0; d < R; ++d)
        if (i[d] >= n[d]) return;
      x = at(i);
    });
    *this = t;
  }
};
template <typename A, std::size_t R, std::size_t... D, typename... X>
A make(const Idx<R>& n, std::index_sequence<D...>, const X&... x) {
  return A(n[D]..., x...);
}
template <typename A, std::size_t R, std::size_t... D>
auto& at(A& a, const Idx<R>& i, std::index_sequence<D...>) {
  return a(i[D]...);
}
template <typename A, std::size_t R, std::size_t... D>
void resize(A& a, const Idx<R>& i, std::index_sequence<D...>) {
  a.Resize(i[D]...);
}
template <typename A, std::size_t R, std::size_t... D>
void reserve(A& a, const Idx<R>& i, std::index_sequence<D...>) {
  a.Reserve(i[D]...);
}
// Arrays of rank 4 are only aligned with a value
template <typename A, typename T, std::size_t R>
A newGrid(pbt::Src& s, const Idx<R>& n, std::true_type) {
  using Seq = std::make_index_sequence<R>;
  if (s.chance(2, 3)) return make<A>(n, Seq{});
  const il::int_t size = static_cast<il::int_t>(sizeof(T)), mod = size * s.oneOf<il::int_t>({1, 2, 4});
  return make<A>(n, Seq{}, il::align, mod);
}
template <typename A, typename T, std::size_t R>
A newGrid(pbt::Src&, const Idx<R>& n, std::false_type) {
  return make<A>(n, std::make_index_sequence<R>{});
}

template <typename A, typename T, std::size_t R>
void grid(pbt::Src& s, pbt::Ctx& c) {
  using Seq = std::make_index_sequence<R>;
  using Aligned = std::integral_constant<bool, (R < 4)>;
  dirty(s);
  const il::int_t most = R == 2 ? 7 : R == 3 ? 4 : 3;
  const auto shape = [&] {
    Idx<R> n;
    for (auto& x : n) x = s.range(0, most);
    if (s.chance(1, 100)) n[s.draw(R)] = s.range(0, R == 2 ? 400 : 70);
    return n;
  };
  long next = 0;
  bool checked = false;
  const Idx<R> n = s.chance(1, 5) ? Idx<R>{} : shape();
  Table<R> m(n);
  A a = newGrid<A, T, R>(s, n, Aligned{});
  LOG("an array of " << show<R>(n));
  const auto check = [&] {
    for (std::size_t d = 0; d < R; ++d) REQUIRE(a.size(static_cast<il::int_t>(d)) == m.n[d], "size " << a.size(static_cast<il::int_t>(d)) << " of dimension " << d << " instead of " << m.n[d]);
    m.each([&](const Idx<R>& i, long& k) {
      checked = checked || k < 0;
      REQUIRE(holds<T>(at<A, R>(a, i, Seq{}), k), "element " << show<R>(i) << (k < 0 ? " is not the default value" : " has lost its value"));
    });
  };
  check();
  const int ops = static_cast<int>(s.range(0, 8));
  for (int op = 0; op < ops; ++op) {
    switch (s.weighted({6, 2, 3, 1, 1, 1})) {
      case 0: {
        Idx<R> p = s.coin() ? m.n : shape();
        p[s.draw(R)] = s.range(0, most);
        LOG("Resize" << show<R>(p));
        resize<A, R>(a, p, Seq{});
        m.resize(p);
      } break;
      case 1: {
        const Idx<R> p = shape();
        LOG("Reserve" << show<R>(p));
        reserve<A, R>(a, p, Seq{});
      } break;
      case 2:
        LOG("write");
        m.each([&](const Idx<R>& i, long& k) {
          if (s.chance(1, 8)) return;
          k = next++;
          at<A, R>(a, i, Seq{}) = Num<T>::make(k);
        });
        break;
      case 3: {
        LOG("copy");
        A b{a};
        a = b;
      } break;
      case 4: {
        LOG("move");
        A b{std::move(a)};
        a = std::move(b);
      } break;
      default: {
        const Idx<R> p = shape();
        LOG("a new array of " << show<R>(p));
        a = newGrid<A, T, R>(s, p, Aligned{});
        m = Table<R>(p);
      }
    }
    check();
  }
  c.nontrivial = checked;
}

// Of a fixed or a triangular shape --------------------------------------------
template <typename T>
bool fresh(const T& x) { return holds<T>(x, -1); }

// The object is made in memory which has been written
template <typename A>
struct Made {
  alignas(A) unsigned char raw[sizeof(A)];
  A* a;
  Made() {
    std::memset(raw, 0x11, sizeof raw);
    a = new (raw) A{};
  }
  ~Made() { a->~A(); }
};

template <typename T>
void shapes(pbt::Src& s, pbt::Ctx& c) {
  dirty(s);
  c.nontrivial = true;
  switch (s.draw(7)) {
    case 0: {
      LOG("StaticArray");
      Made<il::StaticArray<T, 5>> m;
      for (il::int_t i = 0; i < 5; ++i) REQUIRE(fresh<T>((*m.a)[i]), "element " << i << " is not the default value");
    } break;
    case 1: {
      LOG("StaticArray2D");
      Made<il::StaticArray2D<T, 2, 3>> m;
      for (il::int_t i = 0; i < 2; ++i)
        for (il::int_t j = 0; j < 3; ++j) REQUIRE(fresh<T>((*m.a)(i, j)), "element " << i << ", " << j << " is not the default value");
    } break;
    case 2: {
      LOG("StaticArray2C");
      Made<il::StaticArray2C<T, 3, 2>> m;
      for (il::int_t i = 0; i < 3; ++i)
        for (il::int_t j = 0; j < 2; ++j) REQUIRE(fresh<T>((*m.a)(i, j)), "element " << i << ", " << j << " is not the default value");
    } break;
    case 3: {
      LOG("StaticArray3D");
      Made<il::StaticArray3D<T, 2, 3, 2>> m;
      for (il::int_t i = 0; i < 2; ++i)
        for (il::int_t j = 0; j < 3; ++j)
          for (il::int_t k = 0; k < 2; ++k) REQUIRE(fresh<T>((*m.a)(i, j, k)), "element " << i << ", " << j << ", " << k << " is not the default value");
    } break;
    case 4: {
      LOG("StaticArray4D");
      Made<il::StaticArray4D<T, 2, 1, 3, 2>> m;
      for (il::int_t i = 0; i < 2; ++i)
        for (il::int_t j = 0; j < 3; ++j)
          for (il::int_t k = 0; k < 2; ++k) REQUIRE(fresh<T>((*m.a)(i, 0, j, k)), "element " << i << ", 0, " << j << ", " << k << " is not the default value");
    } break;
    case 5: {
      const il::int_t n = s.range(0, 12);
      LOG("LowerArray2D of " << n);
      const il::LowerArray2D<T> a{n};
      for (il::int_t j = 0; j < n; ++j)
        for (il::int_t i = j; i < n; ++i) REQUIRE(fresh<T>(a(i, j)), "element " << i << ", " << j << " is not the default value");
    } break;
    default: {
      const il::int_t n = s.range(0, 12);
      LOG("UpperArray2D of " << n);
      const il::UpperArray2D<T> a{n};
      for (il::int_t j = 0; j < n; ++j)
        for (il::int_t i = 0; i <= j; ++i) REQUIRE(fresh<T>(a(i, j)), "element " << i << ", " << j << " is not the default value");
    }
  }
}

template <typename T>
void rank1(pbt::Src& s, pbt::Ctx& c) {
  switch (s.draw(3)) {
    case 0: list<il::Array<T>, T>(s, c); break;
    case 1: list<il::SmallArray<T, 4>, T>(s, c); break;
    default: shapes<T>(s, c);
  }
}
template <typename T>
void rankN(pbt::Src& s, pbt::Ctx& c) {
  switch (s.draw(6)) {
    case 0: grid<il::Array2D<T>, T, 2>(s, c); break;
    case 1: grid<il::Array2C<T>, T, 2>(s, c); break;
    case 2: grid<il::Array3D<T>, T, 3>(s, c); break;
    case 3: grid<il::Array3C<T>, T, 3>(s, c); break;
    case 4: grid<il::Array4D<T>, T, 4>(s, c); break;
    default: grid<il::Array4C<T>, T, 4>(s, c);
  }
}
}  // namespace

#if PBT_IN(0)
PROPERTY(small_numbers, 1) {
  switch (s.draw(6)) {
    case 0: rank1<bool>(s, c); break;
    case 1: rank1<char>(s, c); break;
    case 2: rank1<signed char>(s, c); break;
    case 3: rank1<unsigned char>(s, c); break;
    case 4: rank1<short>(s, c); break;
    default: rank1<unsigned short>(s, c);
  }
}
PROPERTY(integers, 1) {
  switch (s.draw(6)) {
    case 0: rank1<int>(s, c); break;
    case 1: rank1<unsigned int>(s, c); break;
    case 2: rank1<long>(s, c); break;
    case 3: rank1<unsigned long>(s, c); break;
    case 4: rank1<long long>(s, c); break;
    default: rank1<unsigned long long>(s, c);
  }
}
PROPERTY(reals, 2) {
  switch (s.draw(5)) {
    case 0: rank1<float>(s, c); break;
    case 1: rank1<double>(s, c); break;
    case 2: rank1<long double>(s, c); break;
    case 3: rank1<Cf>(s, c); break;
    default: rank1<Cd>(s, c);
  }
}
#endif
#if PBT_IN(1)
PROPERTY(grid_double, 2) { rankN<double>(s, c); }
#endif
#if PBT_IN(2)
PROPERTY(grid_int, 1) { rankN<int>(s, c); }
#endif
#if PBT_IN(3)
PROPERTY(grid_complex, 1) { rankN<Cd>(s, c); }
#endif
#if PBT_IN(4)
PROPERTY(grid_byte, 1) { rankN<unsigned char>(s, c); }
#endif
