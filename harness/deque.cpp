// C10: il::Deque against std::deque.
#include <deque>
#include <memory>

#include <il/Deque.h>

#include "common.h"

using vt::El;
using vt::Tracked;

namespace pbt {
const char* rule =
    "a history of 1 to 80 (now and then 300) pushes, pops, reads, writes, copies and reserves over "
    "2 deques of one element type (int, Tracked, std::string) with capacities up "
    "to 12 (now and then 300, or 70000 with runs of pushes and pops) is drawn and run against std::deque. Non-trivial: the storage wrapped "
    "around (the history pushed at one end after popping at the other beyond the "
    "capacity) or a push was tried on a full deque";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 500000;
    pbt::thorough_cases = 20000000;
  }
} init;

template <typename T>
struct Slot {
  il::Deque<T> a;
  std::deque<long> m;
  Slot() : a{} {}
  Slot(il::int_t n) : a{n} {}
};

template <typename T>
void compare(pbt::Ctx& c, const Slot<T>& s, int k) {
  const il::Deque<T>& a = s.a;
  const il::int_t n = static_cast<il::int_t>(s.m.size());
  REQUIRE(a.size() == n, "deque " << k << ": size " << a.size() << " instead of " << n);
  REQUIRE(a.capacity() >= n, "deque " << k << ": capacity " << a.capacity() << " for size " << n);
  if (n > 0) {
    REQUIRE(El<T>::get(a.front()) == s.m.front(),
            "deque " << k << ": front " << El<T>::get(a.front()) << " instead of " << s.m.front());
    REQUIRE(El<T>::get(a.back()) == s.m.back(),
            "deque " << k << ": back " << El<T>::get(a.back()) << " instead of " << s.m.back());
  }
  vt::trackedOk(c);
}

// The whole sequence, popped from a copy
template <typename T>
void drain(pbt::Ctx& c, const Slot<T>& s, int k, bool from_back) {
  il::Deque<T> a = s.a;
  std::deque<long> m = s.m;
  while (!m.empty()) {
    REQUIRE(a.size() == static_cast<il::int_t>(m.size()), "deque " << k << ": size " << a.size() << " while popping");
    const long got = El<T>::get(from_back ? a.back() : a.front());
    const long want = from_back ? m.back() : m.front();
    REQUIRE(got == want, "deque " << k << ": element " << (from_back ? m.size() - 1 : s.m.size() - m.size()) << " is " << got
                                  << " instead of " << want);
    if (from_back) {
      a.PopBack();
      m.pop_back();
    } else {
      a.PopFront();
      m.pop_front();
    }
  }
  REQUIRE(a.size() == 0, "deque " << k << ": not empty after popping everything");
}

template <typename T>
void history(pbt::Src& s, pbt::Ctx& c) {
  vt::TrackedScope scope;
  {
    std::vector<std::unique_ptr<Slot<T>>> pool;
    for (int i = 0; i < 2; ++i) {
      const il::int_t n = s.chance(1, 50) ? s.range(0, 300) : s.range(0, 12);
      if (s.coin()) {
        LOG(i << ": Deque(" << n << ")");
        pool.push_back(std::unique_ptr<Slot<T>>(new Slot<T>(n)));
      } else {
        LOG(i << ": Deque, Reserve(" << n << ")");
        pool.push_back(std::unique_ptr<Slot<T>>(new Slot<T>));
        pool.back()->a.Reserve(n);
      }
      REQUIRE(pool.back()->a.capacity() >= n, "capacity " << pool.back()->a.capacity() << " instead of " << n);
    }
    const int nops = static_cast<int>(1 + s.more(79, 300));
    // Phases which push or pop more
    unsigned push = 4, pop = 4;
    long pushed = 0;
    for (int op = 0; op < nops; ++op) {
      if (s.chance(1, 10)) {
        push = static_cast<unsigned>(s.range(1, 6));
        pop = static_cast<unsigned>(s.range(1, 6));
      }
      const int k = static_cast<int>(s.weighted({5, 1}));
      Slot<T>& p = *pool[static_cast<std::size_t>(k)];
      il::Deque<T>& a = p.a;
      const long v = s.range(0, El<T>::values - 1);
      const std::size_t what = s.weighted({2 * push, push, 2 * push, push, 2 * pop, 2 * pop, 2, 2, 1, 1});
#ifdef NDEBUG
      if (what < 4 && a.size() == a.capacity()) continue;
#endif
      switch (what) {
        case 0:
        case 1:
        case 2:
        case 3: {
          LOG(k << (what < 2 ? ": PushBack(" : ": PushFront(") << (what % 2 ? "emplace, " : "") << v << ")");
          const bool full = a.size() == a.capacity();
          const T x = El<T>::make(v);
          bool done = true;
#ifdef IL_UNIT_TEST
          try {
#endif
            if (what == 0) a.PushBack(x);
            if (what == 1) a.PushBack(il::emplace, El<T>::make(v));
            if (what == 2) a.PushFront(x);
            if (what == 3) a.PushFront(il::emplace, El<T>::make(v));
#ifdef IL_UNIT_TEST
          } catch (const il::AbortException&) {
            done = false;
          }
#endif
          REQUIRE(done || full, "a push was refused with " << p.m.size() << " elements for a capacity of " << a.capacity());
          if (full) {
            c.tag("push on full");
            c.nontrivial = true;
          }
          if (done) {
            if (what < 2)
              p.m.push_back(v);
            else
              p.m.push_front(v);
            if (++pushed > a.capacity()) c.nontrivial = true;
          }
        } break;
        case 4:
          if (p.m.empty()) break;
          LOG(k << ": PopFront()");
          a.PopFront();
          p.m.pop_front();
          break;
        case 5:
          if (p.m.empty()) break;
          LOG(k << ": PopBack()");
          a.PopBack();
          p.m.pop_back();
          break;
        case 6:
          if (p.m.empty()) break;
          LOG(k << ": Front() = " << v);
          a.Front() = El<T>::make(v);
          p.m.front() = v;
          break;
        case 7:
          if (p.m.empty()) break;
          LOG(k << ": Back() = " << v);
          a.Back() = El<T>::make(v);
          p.m.back() = v;
          break;
        case 8: {
          LOG(k << ": = " << 1 - k);
          const Slot<T>& q = *pool[static_cast<std::size_t>(1 - k)];
          a = q.a;
          p.m = q.m;
        } break;
        default:
          if (p.m.empty() || a.size() == a.capacity()) break;
          LOG(k << ": PushBack(front())");
          a.PushBack(a.front());
          p.m.push_back(p.m.front());
          break;
      }
      compare(c, p, k);
      if (s.chance(1, 4)) drain(c, p, k, s.coin());
    }
    for (int k = 0; k < 2; ++k) {
      compare(c, *pool[static_cast<std::size_t>(k)], k);
      drain(c, *pool[static_cast<std::size_t>(k)], k, false);
    }
  }
  scope.finish(c);
}
}  // namespace

PROPERTY(int_deque, 3) { history<int>(s, c); }
PROPERTY(tracked_deque, 3) { history<Tracked>(s, c); }
PROPERTY(string_deque, 2) { history<std::string>(s, c); }

// Many elements, pushed and popped by runs
PROPERTY(large, 1) {
  const il::int_t n = s.chance(1, 100) ? s.range(300, 70000) : s.range(60, 700);
  il::Deque<int> a{n};
  std::deque<int> m;
  int next = 0;
  const std::int64_t steps = 1 + s.size(11);
  LOG("Deque(" << n << ")");
  for (std::int64_t step = 0; step < steps; ++step) {
    const std::int64_t room = n - static_cast<std::int64_t>(m.size());
    const bool push = m.empty() || (room > 0 && s.coin());
    const bool back = s.coin();
    std::int64_t k = push ? room : static_cast<std::int64_t>(m.size());
    if (!s.chance(1, 3)) k = s.range(1, k);
    LOG((push ? "Push" : "Pop") << (back ? "Back " : "Front ") << k << " times");
    for (std::int64_t i = 0; i < k; ++i) {
      if (push) {
        ++next;
        if (back) {
          a.PushBack(next);
          m.push_back(next);
        } else {
          a.PushFront(next);
          m.push_front(next);
        }
      } else {
        REQUIRE((back ? a.back() : a.front()) == (back ? m.back() : m.front()),
                (back ? "back " : "front ") << (back ? a.back() : a.front()) << " instead of " << (back ? m.back() : m.front()));
        if (back) {
          a.PopBack();
          m.pop_back();
        } else {
          a.PopFront();
          m.pop_front();
        }
      }
      REQUIRE(a.size() == static_cast<il::int_t>(m.size()), "size " << a.size() << " instead of " << m.size());
      if (!m.empty()) REQUIRE(a.front() == m.front() && a.back() == m.back(), "ends " << a.front() << " and " << a.back() << " instead of " << m.front() << " and " << m.back());
    }
    if (next > n) c.nontrivial = true;
  }
  il::Deque<int> b = a;
  while (!m.empty()) {
    REQUIRE(b.size() == static_cast<il::int_t>(m.size()) && b.front() == m.front(), "copy: front " << b.front() << " instead of " << m.front());
    b.PopFront();
    m.pop_front();
  }
  REQUIRE(b.size() == 0, "copy: " << b.size() << " elements left");
}
