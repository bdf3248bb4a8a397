// C03: multi-dimensional arrays against a table model.
#include <algorithm>
#include <array>
#include <memory>

#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>

#include "common.h"

using vt::El;
using vt::Tracked;

#if PBT_IN(0)
namespace pbt {
const char* rule =
    "a history of 1 to 40 public operations over 3 arrays of one kind (2D, 2C, 3D, 3C, 4D, 4C or static; 6 element "
    "types) is run against a table; extents 0 to 4 most of the time, up to 12. Non-trivial: a non-empty array was "
    "resized to another non-empty shape, assigned from another non-empty array, or moved to larger storage";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 500000;
    pbt::thorough_cases = 10000000;
  }
} init;
}  // namespace
#endif
namespace {

const long kUnspec = -1000000007;

template <std::size_t R>
using Idx = std::array<il::int_t, R>;

template <std::size_t R>
std::string show(const Idx<R>& n) {
  std::string o = "(";
  for (std::size_t d = 0; d < R; ++d) o += (d ? ", " : "") + std::to_string(n[d]);
  return o + ")";
}

template <std::size_t R>
struct Table {
  Idx<R> n{};
  std::vector<long> v;
  static std::size_t count(const Idx<R>& n) {
    std::size_t c = 1;
    for (il::int_t x : n) c *= static_cast<std::size_t>(x);
    return c;
  }
  Table() { n.fill(0); }
  Table(const Idx<R>& m, long x) : n(m), v(count(m), x) {}
  long& at(const Idx<R>& i) {
    std::size_t p = 0;
    for (std::size_t d = 0; d < R; ++d) p = p * static_cast<std::size_t>(n[d]) + static_cast<std::size_t>(i[d]);
    return v[p];
  }
  template <typename F>
  void each(F f) {
    if (v.empty()) return;
    Idx<R> i;
    i.fill(0);
    for (std::size_t p = 0; p < v.size(); ++p) {
      f(i, v[p]);
      for (std::size_t d = R; d-- > 0;) {
        if (++i[d] < n[d]) break;
        i[d] = 0;
      }
    }
  }
  void resize(const Idx<R>& m, long fill) {
    Table t(m, fill);
    t.each([&](const Idx<R>& i, long& x) {
      for (std::size_t d = 0; d < R; ++d)
        if (i[d] >= n[d]) return;
      x = at(i);
    });
    *this = t;
  }
};

// il::Array*(n...), a(i...), a.Resize(n...)
template <typename A, std::size_t R, std::size_t... D, typename... X>
A makeA(const Idx<R>& n, std::index_sequence<D...>, const X&... x) {
  return A(n[D]..., x...);
}
template <typename A, std::size_t R, std::size_t... D>
auto& atA(A& a, const Idx<R>& i, std::index_sequence<D...>) {
  return a(i[D]...);
}
template <typename A, std::size_t R, std::size_t... D, typename... X>
void resizeA(A& a, const Idx<R>& i, std::index_sequence<D...>, X&&... x) {
  a.Resize(i[D]..., std::forward<X>(x)...);
}
template <typename A, std::size_t R, std::size_t... D>
void reserveA(A& a, const Idx<R>& i, std::index_sequence<D...>) {
  a.Reserve(i[D]...);
}

enum Kind { D2, C2, D3, C3, D4, C4 };
template <typename T, Kind K> struct Pick;
template <typename T> struct Pick<T, D2> { using type = il::Array2D<T>; static constexpr std::size_t rank = 2; static constexpr bool row = false; };
template <typename T> struct Pick<T, C2> { using type = il::Array2C<T>; static constexpr std::size_t rank = 2; static constexpr bool row = true; };
template <typename T> struct Pick<T, D3> { using type = il::Array3D<T>; static constexpr std::size_t rank = 3; static constexpr bool row = false; };
template <typename T> struct Pick<T, C3> { using type = il::Array3C<T>; static constexpr std::size_t rank = 3; static constexpr bool row = true; };
template <typename T> struct Pick<T, D4> { using type = il::Array4D<T>; static constexpr std::size_t rank = 4; static constexpr bool row = false; };
template <typename T> struct Pick<T, C4> { using type = il::Array4C<T>; static constexpr std::size_t rank = 4; static constexpr bool row = true; };

template <typename A, std::size_t R>
struct Slot {
  A a;
  Table<R> m;
  bool aligned = false;
  long mod = 0, rem = 0;
};

template <typename T, Kind K>
struct Machine {
  static constexpr std::size_t R = Pick<T, K>::rank;
  static constexpr bool row = Pick<T, K>::row;
  using A = typename Pick<T, K>::type;
  using S = Slot<A, R>;
  using Seq = std::make_index_sequence<R>;
  pbt::Src& s;
  pbt::Ctx& c;
  std::vector<std::unique_ptr<S>> pool;
  static constexpr bool trivial = il::isTrivial<T>::value;
  static constexpr long undefined = trivial ? kUnspec : El<T>::def;

  Machine(pbt::Src& src, pbt::Ctx& ctx) : s(src), c(ctx) {
    for (int i = 0; i < 3; ++i) pool.emplace_back(new S);
  }

  long fresh() { return s.range(0, El<T>::values - 1); }
  std::size_t large_dim = 0;
  long large = 0;
  Idx<R> shape() {
    Idx<R> n;
    const long top = R == 4 ? 3 : 4;
    for (std::size_t d = 0; d < R; ++d) n[d] = s.chance(1, 12) ? s.range(0, R == 2 ? 12 : 6) : s.range(0, top);
    if (s.chance(1, 150)) {
      large_dim = s.draw(R);
      large = s.range(0, R == 2 ? 400 : s.chance(1, 5) ? 270 : 40);
      n[large_dim] = large;
    } else if (large > 0 && s.chance(1, 3)) {  // Close to the large one which has been used
      n[large_dim] = large + s.range(-2, 3);
      if (n[large_dim] < 0) n[large_dim] = 0;
    }
    return n;
  }

  void compare(int k, const char* what = "") {
    S& p = *pool[static_cast<std::size_t>(k)];
    const A& a = p.a;
    for (std::size_t d = 0; d < R; ++d) {
      REQUIRE(a.size(static_cast<il::int_t>(d)) == p.m.n[d],
              what << "array " << k << ": size(" << d << ") is " << a.size(static_cast<il::int_t>(d)) << " instead of " << p.m.n[d]);
      REQUIRE(a.capacity(static_cast<il::int_t>(d)) >= p.m.n[d], "array " << k << ": capacity below size in dimension " << d);
    }
    const T* first = nullptr;
    p.m.each([&](const Idx<R>& i, long& want) {
      const T& x = atA(a, i, Seq{});
      if (!first) first = &x;
      if (want == kUnspec) return;
      const long got = El<T>::get(x);
      REQUIRE(got == want, what << "array " << k << ": element " << show<R>(i) << " is " << got << " instead of " << want);
    });
    if (first) {
      REQUIRE(a.data() == first && p.a.Data() == first, "data() is not the first element");
      // Elements are contiguous along the fastest dimension
      Idx<R> i;
      i.fill(0);
      const std::size_t fast = row ? R - 1 : 0;
      for (il::int_t j = 0; j < p.m.n[fast]; ++j) {
        i[fast] = j;
        REQUIRE(&atA(a, i, Seq{}) == first + j, "elements are not contiguous along the fastest dimension");
      }
      if constexpr (R == 2) {
        const il::int_t ld = row ? a.stride(0) : a.stride(1);
        for (il::int_t j = 0; j < p.m.n[row ? 0 : 1]; ++j) {
          const T* q = row ? &a(j, 0) : &a(0, j);
          REQUIRE(q == a.data() + j * ld && q == a.data(j) && q == p.a.Data(j), "stride/data(j)");
        }
      }
      if (p.aligned) {
        REQUIRE(reinterpret_cast<std::size_t>(a.data()) % static_cast<std::size_t>(p.mod) == static_cast<std::size_t>(p.rem),
                "array " << k << " lost its alignment");
      }
    }
    vt::trackedOk(c);
  }

  // A moved-from array is valid: take its shape and contents as they are
  void resync(int k) {
    S& p = *pool[static_cast<std::size_t>(k)];
    Idx<R> n;
    for (std::size_t d = 0; d < R; ++d) {
      n[d] = p.a.size(static_cast<il::int_t>(d));
      REQUIRE(n[d] >= 0 && n[d] < 1000, "size of a moved-from array: " << n[d]);
    }
    p.m = Table<R>(n, kUnspec);
    if (!trivial) p.m.each([&](const Idx<R>& i, long& x) { x = El<T>::get(atA(p.a, i, Seq{})); });
    p.aligned = false;
  }

  void replace(int k, std::unique_ptr<S> z) { pool[static_cast<std::size_t>(k)] = std::move(z); }

  void step() {
    const int k = static_cast<int>(s.draw(3));
    const int k2 = static_cast<int>(s.draw(3));
    S& p = *pool[static_cast<std::size_t>(k)];
    S& q = *pool[static_cast<std::size_t>(k2)];
    switch (s.weighted({6, 7, 4, 4, 3, 2, 2, 5, 4, 3, 2})) {
      case 0: {  // write
        if (p.m.v.empty()) break;
        Idx<R> i;
        for (std::size_t d = 0; d < R; ++d) i[d] = s.range(0, p.m.n[d] - 1);
        const long v = fresh();
        LOG(k << ": " << show<R>(i) << " = " << v);
        atA(p.a, i, Seq{}) = El<T>::make(v);
        p.m.at(i) = v;
      } break;
      case 1: {
        const Idx<R> n = shape();
        LOG(k << ": Resize" << show<R>(n));
        if (!p.m.v.empty() && Table<R>::count(n) > 0 && n != p.m.n) c.nontrivial = true;
        resizeA(p.a, n, Seq{});
        p.m.resize(n, undefined);
      } break;
      case 2: {
        const Idx<R> n = shape();
        LOG(k << ": Reserve" << show<R>(n));
        Idx<R> cap;
        for (std::size_t d = 0; d < R; ++d) {
          cap[d] = p.a.capacity(static_cast<il::int_t>(d));
          if (n[d] > cap[d] && !p.m.v.empty()) c.nontrivial = true;
        }
        reserveA(p.a, n, Seq{});
        for (std::size_t d = 0; d < R; ++d) {
          const il::int_t r = p.a.capacity(static_cast<il::int_t>(d));
          REQUIRE(r >= n[d] && r >= cap[d], "capacity(" << d << ") after Reserve" << show<R>(n) << ": " << r);
        }
      } break;
      case 3:
        LOG(k << " = " << k2);
        if (!p.m.v.empty() && !q.m.v.empty()) c.nontrivial = true;
        p.a = q.a;
        if (k != k2) {
          p.m = q.m;
          p.aligned = q.aligned;
          p.mod = q.mod;
          p.rem = q.rem;
        }
        compare(k2);
        break;
      case 4:
        LOG(k << " = move(" << k2 << ")");
        if (!p.m.v.empty() && !q.m.v.empty()) c.nontrivial = true;
        p.a = std::move(q.a);
        if (k != k2) {
          p.m = q.m;
          p.aligned = q.aligned;
          p.mod = q.mod;
          p.rem = q.rem;
          resync(k2);
        }  // no effect otherwise
        break;
      case 5: {
        LOG(k << " constructed as a copy of " << k2);
        replace(k, std::unique_ptr<S>(new S{A(q.a), q.m, q.aligned, q.mod, q.rem}));
      } break;
      case 6: {
        if (k == k2) break;
        LOG(k << " constructed by moving " << k2);
        std::unique_ptr<S> z(new S{A(std::move(q.a)), q.m, q.aligned, q.mod, q.rem});
        resync(k2);
        replace(k, std::move(z));
      } break;
      case 7: {
        const Idx<R> n = shape();
        const long v = fresh();
        switch (s.draw(trivial && R < 4 ? 6 : 3)) {
          case 0:
            LOG(k << " constructed " << show<R>(n));
            replace(k, std::unique_ptr<S>(new S{makeA<A, R>(n, Seq{}), Table<R>(n, undefined)}));
            break;
          case 1: {
            LOG(k << " constructed " << show<R>(n) << " with value " << v);
            const T x = El<T>::make(v);
            if constexpr (K == D2) {
              if (s.coin()) {
                replace(k, std::unique_ptr<S>(new S{A(n[0], n[1], il::emplace, x), Table<R>(n, v)}));
                break;
              }
            }
            replace(k, std::unique_ptr<S>(new S{makeA<A, R>(n, Seq{}, x), Table<R>(n, v)}));
          } break;
          case 2: {
            const long w = v / 2;
            LOG(k << " constructed from the list {{" << v << ", " << w << ", ..");
            Table<R> t;
            const auto e = [](long x) { return El<T>::make(x); };
            using I1 = std::initializer_list<T>;
            using I2 = std::initializer_list<I1>;
            using I3 = std::initializer_list<I2>;
            const std::size_t form = s.draw(8);
            const auto put = [&](A&& a, const Idx<R>& list, long second) {  // extents as the braces nest
              Idx<R> n = list;
              if (!row) std::reverse(n.begin(), n.end());
              t = Table<R>(n, v);
              if (second && t.v.size() > 1) t.v[1] = w;
              replace(k, std::unique_ptr<S>(new S{std::move(a), t}));
            };
            if constexpr (R == 2) {
              if (form == 1) { put(A(il::value, I2{}), {0, 0}, 0); break; }
              if (form == 2) { put(A(il::value, I2{I1{}}), {1, 0}, 0); break; }
              if (form == 3) { put(A(il::value, I2{I1{}, I1{}, I1{}}), {3, 0}, 0); break; }
              if (form == 4) { put(A(il::value, I2{I1{e(v)}}), {1, 1}, 0); break; }
              if (form == 5) { put(A(il::value, I2{I1{e(v), e(w)}}), {1, 2}, 1); break; }
              if (form == 6) { put(A(il::value, I2{I1{e(v)}, I1{e(w)}, I1{e(v)}}), {3, 1}, 1); break; }
            }
            if constexpr (R == 3) {
              if (form == 1) { put(A(il::value, I3{}), {0, 0, 0}, 0); break; }
              if (form == 2) { put(A(il::value, I3{I2{}, I2{}}), {2, 0, 0}, 0); break; }
              if (form == 3) { put(A(il::value, I3{I2{I1{}, I1{}}}), {1, 2, 0}, 0); break; }
              if (form == 4) { put(A(il::value, I3{I2{I1{e(v)}}}), {1, 1, 1}, 0); break; }
              if (form == 5) { put(A(il::value, I3{I2{I1{e(v)}}, I2{I1{e(w)}}}), {2, 1, 1}, 1); break; }
              if (form == 6) { put(A(il::value, I3{I2{I1{e(v), e(w)}}}), {1, 1, 2}, 1); break; }
            }
            if constexpr (K == D2 || K == C2) {
              if (form == 7) {  // larger, with other values everywhere
                const auto q = [&](long x) { return e(v + x); };
                t = Table<R>(K == D2 ? Idx<R>{4, 5} : Idx<R>{5, 4}, v);
                for (long j = 0; j < 5; ++j)
                  for (long i = 0; i < 4; ++i) t.at(K == D2 ? Idx<R>{i, j} : Idx<R>{j, i}) = v + 4 * j + i;
                replace(k, std::unique_ptr<S>(new S{A(il::value, I2{I1{q(0), q(1), q(2), q(3)}, I1{q(4), q(5), q(6), q(7)}, I1{q(8), q(9), q(10), q(11)},
                                                                     I1{q(12), q(13), q(14), q(15)}, I1{q(16), q(17), q(18), q(19)}}), t}));
                break;
              }
            }
            if constexpr (K == D2) {  // columns
              t = Table<R>(Idx<R>{2, 3}, v);
              t.at({1, 0}) = w;
              t.at({0, 2}) = w;
              replace(k, std::unique_ptr<S>(new S{A(il::value, {{e(v), e(w)}, {e(v), e(v)}, {e(w), e(v)}}), t}));
            } else if constexpr (K == C2) {  // rows
              t = Table<R>(Idx<R>{3, 2}, v);
              t.at({0, 1}) = w;
              t.at({2, 0}) = w;
              replace(k, std::unique_ptr<S>(new S{A(il::value, {{e(v), e(w)}, {e(v), e(v)}, {e(w), e(v)}}), t}));
            } else if constexpr (K == D3) {
              t = Table<R>(Idx<R>{3, 2, 1}, v);
              t.at({1, 0, 0}) = w;
              t.at({2, 1, 0}) = w;
              replace(k, std::unique_ptr<S>(new S{A(il::value, {{{e(v), e(w), e(v)}, {e(v), e(v), e(w)}}}), t}));
            } else if constexpr (K == C3) {
              t = Table<R>(Idx<R>{1, 2, 3}, v);
              t.at({0, 0, 1}) = w;
              t.at({0, 1, 2}) = w;
              replace(k, std::unique_ptr<S>(new S{A(il::value, {{{e(v), e(w), e(v)}, {e(v), e(v), e(w)}}}), t}));
            }
          } break;
          default: {
            if constexpr (trivial && R < 4) {
              const long al = static_cast<long>(sizeof(T)) << s.draw(4);
              const long mod = al * s.range(1, 8);
              const long rem = al * s.range(0, mod / al - 1);
              const T x = El<T>::make(v);
              c.tag("aligned array");
              if (Table<R>::count(n) == 0) c.tag("aligned empty array");
              const bool full = s.coin();
              const bool value = s.coin();
              LOG(k << " constructed " << show<R>(n) << (value ? " with value " + std::to_string(v) : "") << " aligned " << al
                    << (full ? " " + std::to_string(rem) + " mod " + std::to_string(mod) : ""));
              std::unique_ptr<S> z;
              const Table<R> t(n, value ? v : undefined);
              if (value && full)
                z.reset(new S{makeA<A, R>(n, Seq{}, x, il::align, al, rem, mod), t, true, mod, rem});
              else if (value)
                z.reset(new S{makeA<A, R>(n, Seq{}, x, il::align, al), t, true, al, 0});
              else if (full)
                z.reset(new S{makeA<A, R>(n, Seq{}, il::align, al, rem, mod), t, true, mod, rem});
              else
                z.reset(new S{makeA<A, R>(n, Seq{}, il::align, al), t, true, al, 0});
              replace(k, std::move(z));
            }
          }
        }
      } break;
      case 8:
        if constexpr (K == D2) {
          const Idx<R> n = shape();
          const long v = fresh();
          if (!p.m.v.empty() && Table<R>::count(n) > 0 && n != p.m.n) c.nontrivial = true;
          const std::size_t how = s.draw(3);
          LOG(k << ": Resize(" << n[0] << ", " << n[1] << ", " << (how == 0 ? "" : how == 1 ? "emplace, " : "emplace, moved ") << v << ")");
          T x = El<T>::make(v);
          if (how == 0)
            p.a.Resize(n[0], n[1], x);
          else if (how == 1)
            p.a.Resize(n[0], n[1], il::emplace, x);
          else
            p.a.Resize(n[0], n[1], il::emplace, std::move(x));
          p.m.resize(n, v);
        }
        break;
      case 9:
        if constexpr (K == D2) {
          if (p.m.v.empty()) break;
          const Idx<R> i{s.range(0, p.m.n[0] - 1), s.range(0, p.m.n[1] - 1)};
          const long v = p.m.at(i);
          if (v == kUnspec) break;
          const Idx<R> n = shape();
          const bool em = s.coin();
          c.nontrivial = true;
          c.tag("Resize with an own element");
          LOG(k << ": Resize(" << n[0] << ", " << n[1] << ", " << (em ? "emplace, " : "") << "own " << show<R>(i) << ")");
          if (em)
            p.a.Resize(n[0], n[1], il::emplace, p.a(i[0], i[1]));
          else
            p.a.Resize(n[0], n[1], p.a(i[0], i[1]));
          p.m.resize(n, v);
        }
        break;
      default:
        if constexpr (K == C2) {
          const long v = fresh();
          LOG(k << ": Set(" << v << ")");
          p.a.Set(El<T>::make(v));
          for (long& x : p.m.v) x = v;
        }
        break;
    }
    compare(k);
  }

  void run() {
    const int nops = static_cast<int>(1 + s.size(39));
    for (int i = 0; i < nops; ++i) step();
    for (int k = 0; k < 3; ++k) compare(k, "at the end: ");
  }
};

template <typename T, Kind K>
void history(pbt::Src& s, pbt::Ctx& c) {
  Machine<T, K> m(s, c);
  m.run();
}

// Fixed-size arrays
template <typename A, typename T, std::size_t R>
void staticHistory(pbt::Src& s, pbt::Ctx& c, const Idx<R>& n, bool row, A (*list)(const T&, const T&), void (*listModel)(Table<R>&, long, long)) {
  using S = Slot<A, R>;
  using Seq = std::make_index_sequence<R>;
  const bool trivial = il::isTrivial<T>::value;
  const long undefined = trivial ? kUnspec : El<T>::def;
  std::vector<std::unique_ptr<S>> pool;
  for (int i = 0; i < 2; ++i) pool.emplace_back(new S{A(), Table<R>(n, undefined)});
  const int nops = static_cast<int>(1 + s.size(25));
  for (int op = 0; op < nops; ++op) {
    const std::size_t k = s.draw(2);
    S& p = *pool[k];
    S& q = *pool[1 - k];
    const long v = s.range(0, El<T>::values - 1);
    switch (s.weighted({8, 3, 2, 2, 2})) {
      case 0: {
        Idx<R> i;
        for (std::size_t d = 0; d < R; ++d) i[d] = s.range(0, n[d] - 1);
        LOG(k << ": " << show<R>(i) << " = " << v);
        if (s.coin()) {
          atA(p.a, i, Seq{}) = El<T>::make(v);
        } else {
          il::int_t off = 0;
          for (std::size_t d = 0; d < R; ++d) {
            const std::size_t e = row ? d : R - 1 - d;
            off = off * n[e] + i[e];
          }
          p.a.Data()[off] = El<T>::make(v);
        }
        p.m.at(i) = v;
      } break;
      case 1:
        LOG(k << " = " << 1 - k);
        c.nontrivial = true;
        p.a = q.a;
        p.m = q.m;
        break;
      case 2:
        LOG(k << " copy of " << 1 - k);
        c.nontrivial = true;
        pool[k].reset(new S{A(q.a), q.m});
        break;
      case 3:
        LOG(k << " constructed with value " << v);
        pool[k].reset(new S{A(El<T>::make(v)), Table<R>(n, v)});
        break;
      default:
        if (list) {
          LOG(k << " constructed from a list " << v);
          Table<R> t(n, v);
          listModel(t, v, v / 2);
          pool[k].reset(new S{list(El<T>::make(v), El<T>::make(v / 2)), t});
        }
    }
    for (std::size_t j = 0; j < 2; ++j) {
      S& r = *pool[j];
      const A& a = r.a;
      for (std::size_t d = 0; d < R; ++d) REQUIRE(a.size(static_cast<il::int_t>(d)) == n[d], "size");
      Idx<R> zero;
      zero.fill(0);
      REQUIRE(a.data() == &atA(a, zero, Seq{}), "data() is not the first element");
      r.m.each([&](const Idx<R>& i, long& want) {
        if (want == kUnspec) return;
        const long got = El<T>::get(atA(a, i, Seq{}));
        REQUIRE(got == want, "array " << j << ": element " << show<R>(i) << " is " << got << " instead of " << want);
      });
    }
    vt::trackedOk(c);
  }
}

template <typename T>
void static2D(pbt::Src& s, pbt::Ctx& c) {
  using A = il::StaticArray2D<T, 2, 3>;
  staticHistory<A, T, 2>(
      s, c, {2, 3}, false, [](const T& x, const T& y) { return A(il::value, {{x, y}, {x, x}, {y, x}}); },
      [](Table<2>& t, long, long w) { t.at({1, 0}) = w; t.at({0, 2}) = w; });
}
template <typename T>
void static2C(pbt::Src& s, pbt::Ctx& c) {
  using A = il::StaticArray2C<T, 3, 2>;
  staticHistory<A, T, 2>(
      s, c, {3, 2}, true, [](const T& x, const T& y) { return A(il::value, {{x, y}, {x, x}, {y, x}}); },
      [](Table<2>& t, long, long w) { t.at({0, 1}) = w; t.at({2, 0}) = w; });
}
template <typename T>
void static3D(pbt::Src& s, pbt::Ctx& c) {
  using A = il::StaticArray3D<T, 3, 2, 2>;
  staticHistory<A, T, 3>(
      s, c, {3, 2, 2}, false,
      [](const T& x, const T& y) { return A(il::value, {{{x, y, x}, {x, x, y}}, {{x, x, x}, {y, x, x}}}); },
      [](Table<3>& t, long, long w) { t.at({1, 0, 0}) = w; t.at({2, 1, 0}) = w; t.at({0, 1, 1}) = w; });
}
template <typename T>
void static4D(pbt::Src& s, pbt::Ctx& c) {
  using A = il::StaticArray4D<T, 2, 3, 2, 4>;
  staticHistory<A, T, 4>(s, c, {2, 3, 2, 4}, false, nullptr, nullptr);
}
}  // namespace

#define CASE(name, w, ...)            \
  PROPERTY(name, w) {                 \
    vt::TrackedScope t;               \
    __VA_ARGS__(s, c);                \
    t.finish(c);                      \
  }
#define KIND(K)                                     \
  CASE(K##_int, 2, history<int, K>)                 \
  CASE(K##_double, 2, history<double, K>)           \
  CASE(K##_complex, 1, history<std::complex<double>, K>) \
  CASE(K##_plain, 1, history<vt::Big, K>)           \
  CASE(K##_tracked, 3, history<Tracked, K>)         \
  CASE(K##_string, 2, history<std::string, K>)

#if PBT_IN(0)
KIND(D2)
#endif
#if PBT_IN(1)
KIND(C2)
#endif
#if PBT_IN(2)
KIND(D3)
#endif
#if PBT_IN(3)
KIND(C3)
#endif
#if PBT_IN(4)
KIND(D4)
#endif
#if PBT_IN(5)
KIND(C4)
#endif
#if PBT_IN(6)
CASE(static2D_int, 1, static2D<int>)
CASE(static2D_tracked, 1, static2D<Tracked>)
CASE(static2C_double, 1, static2C<double>)
CASE(static2C_string, 1, static2C<std::string>)
CASE(static3D_int, 1, static3D<int>)
CASE(static3D_tracked, 1, static3D<Tracked>)
CASE(static4D_double, 1, static4D<double>)
CASE(static4D_string, 1, static4D<std::string>)
#endif
