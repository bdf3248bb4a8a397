// C01: il::Array against std::vector, over histories of operations.
#include <memory>

#include <il/Array.h>

#include "common.h"

using vt::El;
using vt::Tracked;

namespace pbt {
const char* rule =
    "a history of 1 to 60 public operations over 3 arrays of one element type "
    "(8 types: trivial, plain, tracked, std::string) is drawn and run against "
    "std::vector; sizes up to 300, now and then 3000. Non-trivial: the history reallocated an "
    "array holding elements, or assigned/moved between non-empty arrays, or "
    "passed an own element to an operation";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 600000;
    pbt::thorough_cases = 12000000;
  }
} init;

const long kUnspec = -1000000007;  // element never given a value

template <typename T>
struct Slot {
  il::Array<T> a;
  std::vector<long> m;
  bool aligned = false;
  long mod = 0, rem = 0;
};

template <typename T>
void compare(pbt::Ctx& c, const Slot<T>& s, int k) {
  const il::Array<T>& a = s.a;
  REQUIRE(a.size() == static_cast<il::int_t>(s.m.size()),
          "array " << k << ": size " << a.size() << " instead of " << s.m.size());
  REQUIRE(a.capacity() >= a.size(), "array " << k << ": capacity " << a.capacity() << " < size " << a.size());
  for (il::int_t i = 0; i < a.size(); ++i) {
    if (s.m[static_cast<std::size_t>(i)] == kUnspec) continue;
    const long got = El<T>::get(a[i]);
    REQUIRE(got == s.m[static_cast<std::size_t>(i)], "array " << k << ": element " << i << " is " << got
                                                              << " instead of " << s.m[static_cast<std::size_t>(i)]);
  }
  REQUIRE(a.begin() == a.data() && a.cbegin() == a.data() && a.end() == a.data() + a.size() && a.cend() == a.end(), "array " << k << ": begin() and end()");
  if (s.aligned && a.size() > 0) {
    REQUIRE(reinterpret_cast<std::size_t>(a.data()) % static_cast<std::size_t>(s.mod) == static_cast<std::size_t>(s.rem),
            "array " << k << " lost its alignment");
  }
  vt::trackedOk(c);
}

// After a move from it, an array is valid: take its contents as they are
template <typename T>
void resync(pbt::Ctx& c, Slot<T>& s) {
  REQUIRE(s.a.size() >= 0, "negative size after move");
  s.m.clear();
  for (il::int_t i = 0; i < s.a.size(); ++i)
    s.m.push_back(il::isTrivial<T>::value ? kUnspec : El<T>::get(s.a[i]));
  s.aligned = false;
}

template <typename T>
long fresh(pbt::Src& s) {
  return s.range(0, El<T>::values - 1);
}

template <typename T>
void history(pbt::Src& s, pbt::Ctx& c) {
  const bool trivial = il::isTrivial<T>::value;
  const long undefined = trivial ? kUnspec : El<T>::def;
  {
    std::vector<std::unique_ptr<Slot<T>>> pool;
    for (int i = 0; i < 3; ++i) pool.push_back(std::unique_ptr<Slot<T>>(new Slot<T>));
    const int nops = static_cast<int>(1 + s.size(59));
    const long maxn = s.chance(1, 20000) ? 80000 : s.chance(1, 100) ? 3000 : s.chance(1, 8) ? 300 : 24;
    for (int op = 0; op < nops; ++op) {
      const int k = static_cast<int>(s.draw(3));
      Slot<T>& p = *pool[static_cast<std::size_t>(k)];
      il::Array<T>& a = p.a;
      std::vector<long>& m = p.m;
      const bool full = a.size() == a.capacity() && a.size() > 0;
      switch (s.weighted({6, 6, 5, 4, 4, 4, 6, 4, 4, 3, 3, 3, 2, 2, 3, 2})) {
        case 0: {  // Append(const T&)
          const long v = fresh<T>(s);
          LOG(k << ": Append(" << v << ")");
          const T x = El<T>::make(v);
          a.Append(x);
          m.push_back(v);
          if (full) c.nontrivial = true;
        } break;
        case 1: {  // Append(T&&)
          const long v = fresh<T>(s);
          LOG(k << ": Append(move " << v << ")");
          a.Append(El<T>::make(v));
          m.push_back(v);
          if (full) c.nontrivial = true;
        } break;
        case 2: {  // emplace
          const long v = fresh<T>(s);
          LOG(k << ": Append(emplace, " << v << ")");
          a.Append(il::emplace, El<T>::make(v));
          m.push_back(v);
          if (full) c.nontrivial = true;
        } break;
        case 3: {  // own element
          if (m.empty()) break;
          const std::size_t i = s.draw(m.size());
          if (m[i] == kUnspec) break;
          c.nontrivial = true;
          if (full) c.tag("own element appended at reallocation");
          switch (s.draw(3)) {
            case 0:
              LOG(k << ": Append(own " << i << ")");
              a.Append(a[static_cast<il::int_t>(i)]);
              m.push_back(m[i]);
              break;
            case 1: {
              LOG(k << ": Append(move(own " << i << "))");
              const long v = m[i];
              a.Append(std::move(a[static_cast<il::int_t>(i)]));
              m.push_back(v);
              if (!trivial) m[i] = El<T>::get(a[static_cast<il::int_t>(i)]);
            } break;
            default:
              LOG(k << ": Append(emplace, own " << i << ")");
              a.Append(il::emplace, a[static_cast<il::int_t>(i)]);
              m.push_back(m[i]);
              break;
          }
        } break;
        case 4: {  // Resize(n)
          const long n = s.size(maxn);
          LOG(k << ": Resize(" << n << ")");
          if (n > a.capacity() && a.size() > 0) c.nontrivial = true;
          a.Resize(n);
          m.resize(static_cast<std::size_t>(n), undefined);
        } break;
        case 5: {  // Resize(n, x)
          const long n = s.size(maxn);
          const long v = fresh<T>(s);
          const bool em = s.coin();
          LOG(k << ": Resize(" << n << (em ? ", emplace" : "") << ", " << v << ")");
          if (n > a.capacity() && a.size() > 0) c.nontrivial = true;
          const T x = El<T>::make(v);
          if (em)
            a.Resize(n, il::emplace, x);
          else
            a.Resize(n, x);
          m.resize(static_cast<std::size_t>(n), v);
        } break;
        case 6: {  // write
          if (m.empty()) break;
          const std::size_t i = s.draw(m.size());
          const long v = fresh<T>(s);
          switch (s.draw(4)) {
            case 0:
              LOG(k << ": [" << i << "] = " << v);
              a[static_cast<il::int_t>(i)] = El<T>::make(v);
              m[i] = v;
              break;
            case 1:
              LOG(k << ": Back() = " << v);
              a.Back() = El<T>::make(v);
              m.back() = v;
              REQUIRE(El<T>::get(static_cast<const il::Array<T>&>(a).back()) == v, "back()");
              break;
            case 2:
              LOG(k << ": Data()[" << i << "] = " << v);
              a.Data()[i] = El<T>::make(v);
              m[i] = v;
              break;
            default:
              LOG(k << ": begin()[" << i << "] = " << v);
              *(a.begin() + i) = El<T>::make(v);
              m[i] = v;
              REQUIRE(a.end() - a.begin() == a.size() && a.cend() - a.cbegin() == a.size(), "iterators");
              REQUIRE(a.data() == a.begin() && a.cbegin() == a.data(), "begin");
              break;
          }
        } break;
        case 7: {  // Reserve
          const long n = s.size(maxn + 10);
          LOG(k << ": Reserve(" << n << ")");
          if (n > a.capacity() && a.size() > 0) c.nontrivial = true;
          const il::int_t cap = a.capacity();
          a.Reserve(n);
          REQUIRE(a.capacity() >= n && a.capacity() >= cap, "capacity after Reserve(" << n << "): " << a.capacity());
          // No reallocation is needed before the capacity is reached
          const T* d = a.data();
          if (a.size() < a.capacity() && trivial == false && s.coin()) {
            const long v = fresh<T>(s);
            LOG(k << ": Append(" << v << ") within the capacity");
            a.Append(El<T>::make(v));
            m.push_back(v);
            REQUIRE(a.data() == d, "elements moved by an Append within the capacity");
          }
        } break;
        case 8: {  // copy assignment
          const int k2 = static_cast<int>(s.draw(3));
          Slot<T>& q = *pool[static_cast<std::size_t>(k2)];
          LOG(k << " = " << k2);
          if (k == k2) c.tag("self assignment");
          if (!m.empty() && !q.m.empty()) c.nontrivial = true;
          if (static_cast<il::int_t>(q.m.size()) <= a.capacity() && q.m.size() > m.size())
            c.tag("assignment of a longer array within the capacity");
          a = q.a;
          m = q.m;
          p.aligned = q.aligned;
          p.mod = q.mod;
          p.rem = q.rem;
          compare(c, q, k2);
        } break;
        case 9: {  // move assignment
          const int k2 = static_cast<int>(s.draw(3));
          Slot<T>& q = *pool[static_cast<std::size_t>(k2)];
          LOG(k << " = move(" << k2 << ")");
          if (!m.empty() && !q.m.empty()) c.nontrivial = true;
          if (k == k2) {
            a = std::move(q.a);  // no effect
            c.tag("self move");
          } else {
            a = std::move(q.a);
            m = q.m;
            p.aligned = q.aligned;
            p.mod = q.mod;
            p.rem = q.rem;
            resync(c, q);
          }
        } break;
        case 10: {  // copy construction, then destruction of the old one
          const int k2 = static_cast<int>(s.draw(3));
          Slot<T>& q = *pool[static_cast<std::size_t>(k2)];
          LOG(k << " constructed as a copy of " << k2);
          std::unique_ptr<Slot<T>> n(new Slot<T>{il::Array<T>(q.a), q.m, q.aligned, q.mod, q.rem});
          pool[static_cast<std::size_t>(k)] = std::move(n);
        } break;
        case 11: {  // move construction
          const int k2 = static_cast<int>(s.draw(3));
          if (k2 == k) break;
          Slot<T>& q = *pool[static_cast<std::size_t>(k2)];
          LOG(k << " constructed by moving " << k2);
          std::unique_ptr<Slot<T>> n(new Slot<T>{il::Array<T>(std::move(q.a)), q.m, q.aligned, q.mod, q.rem});
          resync(c, q);
          pool[static_cast<std::size_t>(k)] = std::move(n);
        } break;
        case 12: {  // fill
          const long v = fresh<T>(s);
          LOG(k << ": Set(" << v << ")");
          a.Set(El<T>::make(v));
          m.assign(m.size(), v);
        } break;
        case 13: {  // Resize with an own element
          if (m.empty()) break;
          const std::size_t i = s.draw(m.size());
          if (m[i] == kUnspec) break;
          const long n = static_cast<long>(m.size()) + s.size(10);
          LOG(k << ": Resize(" << n << ", own " << i << ")");
          c.nontrivial = true;
          a.Resize(n, a[static_cast<il::int_t>(i)]);
          m.resize(static_cast<std::size_t>(n), m[i]);
        } break;
        case 14: {  // construction
          const long n = s.size(maxn);
          const long v = fresh<T>(s);
          std::unique_ptr<Slot<T>> z;
          const std::size_t kind = s.draw(trivial ? 8 : 5);
          switch (kind) {
            case 0:
              LOG(k << " constructed with size " << n);
              z.reset(new Slot<T>{il::Array<T>(n), std::vector<long>(static_cast<std::size_t>(n), undefined)});
              break;
            case 1:
              LOG(k << " constructed with size " << n << " value " << v);
              z.reset(new Slot<T>{il::Array<T>(n, El<T>::make(v)), std::vector<long>(static_cast<std::size_t>(n), v)});
              break;
            case 2: {
              LOG(k << " constructed with size " << n << " emplace " << v);
              const T x = El<T>::make(v);
              z.reset(new Slot<T>{il::Array<T>(n, il::emplace, x), std::vector<long>(static_cast<std::size_t>(n), v)});
            } break;
            case 3: {
              LOG(k << " constructed from a list " << v << ", " << v / 2 << ", " << v / 3);
              z.reset(new Slot<T>{il::Array<T>(il::value, {El<T>::make(v), El<T>::make(v / 2), El<T>::make(v / 3)}),
                                  std::vector<long>{v, v / 2, v / 3}});
            } break;
            case 4: {
              const int k2 = static_cast<int>(s.draw(3));
              Slot<T>& q = *pool[static_cast<std::size_t>(k2)];
              LOG(k << " constructed from the view of " << k2);
              z.reset(new Slot<T>{il::Array<T>(q.a.view()), q.m});
            } break;
            default: {
              if constexpr (il::isTrivial<T>::value) {
                const long al = static_cast<long>(sizeof(T)) << s.draw(4);
                const long mod = al * s.range(1, 8);
                const long rem = al * s.range(0, mod / al - 1);
                LOG(k << " constructed with size " << n << " aligned " << al << " " << rem << " mod " << mod);
                if (kind == 5)
                  z.reset(new Slot<T>{il::Array<T>(n, il::align, al, rem, mod), std::vector<long>(static_cast<std::size_t>(n), undefined), n > 0, mod, rem});
                else if (kind == 6)
                  z.reset(new Slot<T>{il::Array<T>(n, El<T>::make(v), il::align, al, rem, mod), std::vector<long>(static_cast<std::size_t>(n), v), n > 0, mod, rem});
                else
                  z.reset(new Slot<T>{il::Array<T>(n, El<T>::make(v), il::align, al), std::vector<long>(static_cast<std::size_t>(n), v), n > 0, al, 0});
                c.tag("aligned array");
              }
            } break;
          }
          pool[static_cast<std::size_t>(k)] = std::move(z);
        } break;
        default: {  // views over the whole array
          LOG(k << ": view");
          const il::Array<T>& ca = a;
          il::ArrayView<T> v = ca.view();
          REQUIRE(v.size() == a.size(), "size of the view");
          REQUIRE(a.Edit().size() == a.size(), "size of the edit");
          if (!m.empty()) REQUIRE(&v[0] == &ca[0] && &v.back() == &ca.back(), "the view does not alias the array");
        } break;
      }
      compare(c, *pool[static_cast<std::size_t>(k)], k);
    }
    for (int k = 0; k < 3; ++k) compare(c, *pool[static_cast<std::size_t>(k)], k);
  }
}
}  // namespace

#define ARRAY_CASE(name, T)            \
  PROPERTY(name, 2) {                  \
    vt::TrackedScope t;                \
    history<T>(s, c);                  \
    t.finish(c);                       \
  }

ARRAY_CASE(array_int, int)
ARRAY_CASE(array_double, double)
ARRAY_CASE(array_complex, std::complex<double>)
ARRAY_CASE(array_char, signed char)
ARRAY_CASE(array_short, short)
ARRAY_CASE(array_plain, vt::Big)
ARRAY_CASE(array_tracked, vt::Tracked)
ARRAY_CASE(array_string, std::string)
