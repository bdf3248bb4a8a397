// C02: il::SmallArray and il::StaticArray against std::vector.
#include <array>
#include <memory>

#include <il/SmallArray.h>
#include <il/StaticArray.h>

#include "common.h"

using vt::El;
using vt::Tracked;

namespace pbt {
const char* rule =
    "a history of 1 to 50 public operations over 3 small arrays (inline limit 1, 3 or 5; 7 element types; sizes to "
    "40, most of them around the inline limit) or over 3 static arrays is run against std::vector. Non-trivial: an "
    "array went from the inline buffer to the heap, or an assignment/move took place between non-empty arrays, or an "
    "own element was passed to an operation";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 700000;
    pbt::thorough_cases = 14000000;
  }
} init;

const long kUnspec = -1000000007;

template <typename A>
struct Slot {
  A a;
  std::vector<long> m;
};

template <typename T, typename A>
void compare(pbt::Ctx& c, const Slot<A>& s, int k) {
  REQUIRE(s.a.size() == static_cast<il::int_t>(s.m.size()), "array " << k << ": size " << s.a.size() << " instead of " << s.m.size());
  for (il::int_t i = 0; i < s.a.size(); ++i) {
    const long want = s.m[static_cast<std::size_t>(i)];
    if (want == kUnspec) continue;
    const long got = El<T>::get(s.a[i]);
    REQUIRE(got == want, "array " << k << ": element " << i << " is " << got << " instead of " << want);
  }
  vt::trackedOk(c);
}

template <typename T, il::int_t N>
void smallHistory(pbt::Src& s, pbt::Ctx& c) {
  using A = il::SmallArray<T, N>;
  const bool trivial = il::isTrivial<T>::value;
  const long undefined = trivial ? kUnspec : El<T>::def;
  std::vector<std::unique_ptr<Slot<A>>> pool;
  for (int i = 0; i < 3; ++i) pool.push_back(std::unique_ptr<Slot<A>>(new Slot<A>));
  const auto resync = [&](Slot<A>& q) {
    REQUIRE(q.a.size() >= 0 && q.a.size() < 1000000, "size of a moved-from array: " << q.a.size());
    q.m.clear();
    for (il::int_t i = 0; i < q.a.size(); ++i) q.m.push_back(trivial ? kUnspec : El<T>::get(q.a[i]));
  };
  const int nops = static_cast<int>(1 + s.size(49));
  const auto fresh = [&] { return static_cast<long>(s.range(0, El<T>::values - 1)); };
  const auto anySize = [&] { return s.chance(1, 2000) ? static_cast<long>(s.range(400, 20000)) : s.chance(1, 6) ? static_cast<long>(s.more(40, 400)) : static_cast<long>(s.range(0, N + 3)); };
  for (int op = 0; op < nops; ++op) {
    const int k = static_cast<int>(s.draw(3));
    const int k2 = static_cast<int>(s.draw(3));
    Slot<A>& p = *pool[static_cast<std::size_t>(k)];
    Slot<A>& q = *pool[static_cast<std::size_t>(k2)];
    A& a = p.a;
    std::vector<long>& m = p.m;
    const bool full = a.size() == a.capacity();
    switch (s.weighted({6, 6, 4, 5, 6, 4, 4, 4, 3, 3, 4, 2})) {
      case 0: {
        const long v = fresh();
        LOG(k << ": Append(" << v << ")");
        const T x = El<T>::make(v);
        a.Append(x);
        m.push_back(v);
        if (full) c.nontrivial = true;
      } break;
      case 1: {
        const long v = fresh();
        LOG(k << ": Append(temporary " << v << ")");
        a.Append(El<T>::make(v));
        m.push_back(v);
        if (full) c.nontrivial = true;
      } break;
      case 2: {
        if (m.empty()) break;
        const std::size_t i = s.draw(m.size());
        if (m[i] == kUnspec) break;
        c.nontrivial = true;
        if (s.coin()) {
          LOG(k << ": Append(const own " << i << ")");
          a.Append(static_cast<const A&>(a)[static_cast<il::int_t>(i)]);
        } else {
          LOG(k << ": Append(own " << i << ")");
          a.Append(a[static_cast<il::int_t>(i)]);
        }
        m.push_back(m[i]);
      } break;
      case 3: {
        const long n = anySize();
        LOG(k << ": Resize(" << n << ")");
        if (n > a.capacity() && a.size() > 0) c.nontrivial = true;
        a.Resize(n);
        m.resize(static_cast<std::size_t>(n), undefined);
      } break;
      case 4: {
        if (m.empty()) break;
        const std::size_t i = s.draw(m.size());
        const long v = fresh();
        switch (s.draw(3)) {
          case 0:
            LOG(k << ": [" << i << "] = " << v);
            a[static_cast<il::int_t>(i)] = El<T>::make(v);
            m[i] = v;
            break;
          case 1:
            LOG(k << ": Back() = " << v);
            a.Back() = El<T>::make(v);
            m.back() = v;
            REQUIRE(El<T>::get(static_cast<const A&>(a).back()) == v, "back()");
            break;
          default:
            LOG(k << ": Data()[" << i << "] = " << v);
            a.Data()[i] = El<T>::make(v);
            m[i] = v;
            REQUIRE(a.data() == a.Data(), "data()");
            break;
        }
      } break;
      case 5: {
        const long n = anySize();
        LOG(k << ": Reserve(" << n << ")");
        if (n > a.capacity() && a.size() > 0) c.nontrivial = true;
        const il::int_t cap = a.capacity();
        a.Reserve(n);
        REQUIRE(a.capacity() >= n && a.capacity() >= cap, "capacity after Reserve(" << n << "): " << a.capacity());
      } break;
      case 6:
        LOG(k << " = " << k2);
        if (!m.empty() && !q.m.empty()) c.nontrivial = true;
        a = q.a;
        m = std::vector<long>(q.m);
        compare<T>(c, q, k2);
        break;
      case 7:
        LOG(k << " = move(" << k2 << ")");
        if (!m.empty() && !q.m.empty()) c.nontrivial = true;
        a = std::move(q.a);
        if (k != k2) {  // no effect otherwise
          m = q.m;
          resync(q);
        }
        break;
      case 8: {
        LOG(k << " constructed as a copy of " << k2);
        std::unique_ptr<Slot<A>> z(new Slot<A>{A(q.a), q.m});
        pool[static_cast<std::size_t>(k)] = std::move(z);
      } break;
      case 9: {
        if (k == k2) break;
        LOG(k << " constructed by moving " << k2);
        std::unique_ptr<Slot<A>> z(new Slot<A>{A(std::move(q.a)), q.m});
        resync(q);
        pool[static_cast<std::size_t>(k)] = std::move(z);
      } break;
      case 10: {
        const long n = anySize();
        const long v = fresh();
        std::unique_ptr<Slot<A>> z;
        switch (s.draw(3)) {
          case 0:
            LOG(k << " constructed with size " << n);
            z.reset(new Slot<A>{A(n), std::vector<long>(static_cast<std::size_t>(n), undefined)});
            break;
          case 1:
            LOG(k << " constructed with size " << n << " value " << v);
            z.reset(new Slot<A>{A(n, El<T>::make(v)), std::vector<long>(static_cast<std::size_t>(n), v)});
            break;
          default:
            LOG(k << " constructed from a list " << v << ", " << v / 2 << ", " << v / 3);
            z.reset(new Slot<A>{A(il::value, {El<T>::make(v), El<T>::make(v / 2), El<T>::make(v / 3)}),
                                std::vector<long>{v, v / 2, v / 3}});
            break;
        }
        pool[static_cast<std::size_t>(k)] = std::move(z);
      } break;
      default: {
        LOG(k << ": view");
        REQUIRE(a.view().size() == a.size() && a.Edit().size() == a.size(), "size of the view");
        if (!m.empty()) {
          const il::int_t b = s.range(0, a.size() - 1);
          const il::int_t e = s.range(b, a.size());
          REQUIRE(a.view(il::Range{b, e}).size() == e - b, "size of the sub-view");
          REQUIRE(a.Edit(il::Range{b, e}).size() == e - b, "size of the sub-view");
          if (e > b) {
            REQUIRE(&a.view(il::Range{b, e})[e - b - 1] == &a[e - 1], "sub-view");
            REQUIRE(&a.Edit(il::Range{b, e})[0] == &a[b], "sub-view");
          }
        }
      } break;
    }
    if (pool[static_cast<std::size_t>(k)]->a.size() <= N) c.tag("fits inline");
    compare<T>(c, *pool[static_cast<std::size_t>(k)], k);
  }
  for (int k = 0; k < 3; ++k) compare<T>(c, *pool[static_cast<std::size_t>(k)], k);
}

template <typename T>
std::initializer_list<T> list3(const T (&x)[3]) { return {x[0], x[1], x[2]}; }

template <typename T>
void staticHistory(pbt::Src& s, pbt::Ctx& c) {
  constexpr il::int_t N = 3;
  using A = il::StaticArray<T, N>;
  const bool trivial = il::isTrivial<T>::value;
  const long undefined = trivial ? kUnspec : El<T>::def;
  std::vector<std::unique_ptr<Slot<A>>> pool;
  for (int i = 0; i < 3; ++i) pool.push_back(std::unique_ptr<Slot<A>>(new Slot<A>{A(), std::vector<long>(N, undefined)}));
  const auto fresh = [&] { return static_cast<long>(s.range(0, El<T>::values - 1)); };
  const int nops = static_cast<int>(1 + s.size(29));
  for (int op = 0; op < nops; ++op) {
    const int k = static_cast<int>(s.draw(3));
    const int k2 = static_cast<int>(s.draw(3));
    Slot<A>& p = *pool[static_cast<std::size_t>(k)];
    Slot<A>& q = *pool[static_cast<std::size_t>(k2)];
    switch (s.weighted({6, 3, 3, 2, 2, 2})) {
      case 0: {
        const std::size_t i = s.draw(N);
        const long v = fresh();
        LOG(k << ": [" << i << "] = " << v);
        switch (s.draw(5)) {
          case 0: p.a[static_cast<il::int_t>(i)] = El<T>::make(v); p.m[i] = v; break;
          case 1: p.a.Data()[i] = El<T>::make(v); p.m[i] = v; break;
          case 2: p.a.Back() = El<T>::make(v); p.m[N - 1] = v; break;
          case 3: p.a.Edit()[static_cast<il::int_t>(i)] = El<T>::make(v); p.m[i] = v; break;
          default: {
            const il::int_t e = s.range(static_cast<il::int_t>(i) + 1, N);
            p.a.Edit(il::Range{static_cast<il::int_t>(i), e})[e - 1 - static_cast<il::int_t>(i)] = El<T>::make(v);
            p.m[static_cast<std::size_t>(e - 1)] = v;
          }
        }
      } break;
      case 1:
        LOG(k << " = " << k2);
        c.nontrivial = c.nontrivial || k != k2;
        p.a = q.a;
        p.m = std::vector<long>(q.m);
        break;
      case 2:
        if (k == k2) break;
        LOG(k << " = move(" << k2 << ")");
        c.nontrivial = true;
        p.a = std::move(q.a);
        p.m = q.m;
        for (std::size_t i = 0; i < N; ++i) q.m[i] = trivial ? kUnspec : El<T>::get(q.a[static_cast<il::int_t>(i)]);
        break;
      case 3: {
        const long v = fresh();
        LOG(k << " constructed with value " << v);
        pool[static_cast<std::size_t>(k)].reset(new Slot<A>{A(El<T>::make(v)), std::vector<long>(N, v)});
      } break;
      case 4: {
        const long v = fresh();
        LOG(k << " constructed with list " << v << "...");
        pool[static_cast<std::size_t>(k)].reset(
            new Slot<A>{A(il::value, {El<T>::make(v), El<T>::make(v / 2), El<T>::make(v / 3)}), std::vector<long>{v, v / 2, v / 3}});
      } break;
      default: {
        LOG(k << " constructed as a copy of " << k2);
        std::unique_ptr<Slot<A>> z(new Slot<A>{A(q.a), q.m});
        pool[static_cast<std::size_t>(k)] = std::move(z);
      }
    }
    const A& ca = pool[static_cast<std::size_t>(k)]->a;
    REQUIRE(&ca.back() == ca.data() + N - 1 && ca.view().size() == N && &ca.view()[0] == ca.data(), "accessors");
    const il::int_t b = s.range(0, N - 1);
    REQUIRE(&ca.view(il::Range{b, N})[N - 1 - b] == &ca[N - 1] && ca.view(il::Range{b, N}).size() == N - b, "range");
    A& ea = pool[static_cast<std::size_t>(k)]->a;
    const il::int_t e = s.range(b + 1, N);
    REQUIRE(&ea.Edit(il::Range{b, e})[e - b - 1] == &ea[e - 1] && ea.Edit(il::Range{b, e}).size() == e - b && &ea.Edit(il::Range{b, e})[0] == &ea[b], "editable range");
    REQUIRE(ea.Edit().size() == N && &ea.Edit()[N - 1] == &ea[N - 1], "editable view");
    REQUIRE(&ca.view(il::Range{b, e})[0] == &ca[b] && ca.view(il::Range{b, e}).size() == e - b, "range");
    for (int j = 0; j < 3; ++j) compare<T>(c, *pool[static_cast<std::size_t>(j)], j);
  }
}
}  // namespace

#define CASE(name, fn, ...)           \
  PROPERTY(name, 2) {                 \
    vt::TrackedScope t;               \
    fn<__VA_ARGS__>(s, c);            \
    t.finish(c);                      \
  }

CASE(small_int, smallHistory, int, 3)
CASE(small_double, smallHistory, double, 5)
CASE(small_complex, smallHistory, std::complex<double>, 1)
CASE(small_char, smallHistory, signed char, 5)
CASE(small_plain, smallHistory, vt::Big, 3)
CASE(small_tracked_1, smallHistory, Tracked, 1)
CASE(small_tracked, smallHistory, Tracked, 3)
CASE(small_tracked_5, smallHistory, Tracked, 5)
CASE(small_string, smallHistory, std::string, 3)
CASE(static_int, staticHistory, int)
CASE(static_double, staticHistory, double)
CASE(static_tracked, staticHistory, Tracked)
CASE(static_string, staticHistory, std::string)
CASE(static_plain, staticHistory, vt::Big)
