// C27: il::Tree against a tree of paths.
#include <map>
#include <memory>
#include <vector>

#include <il/Tree.h>

#include "common.h"

using vt::El;
using vt::Tracked;

#if PBT_IN(0)
namespace pbt {
const char* rule =
    "a history of 1 to 40 AddChild, Set, copies, moves and constructions over 2 trees of at most 1, 2, 3, 5, 8 or 30 "
    "children per node is run against a map from the paths to the values; every node is then reached from the root and "
    "compared. Non-trivial: a node of depth 2 or more was given a value, and nodes were added after it";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 400000;
    pbt::thorough_cases = 10000000;
  }
} init;
}  // namespace
#endif
namespace {
using Path = std::vector<int>;

struct Cell {
  bool set = false;
  long v = 0;
};

std::string show(const Path& p) {
  std::string o = "/";
  for (int i : p) o += std::to_string(i) + "/";
  return o;
}

template <typename T, il::int_t n>
struct Slot {
  std::unique_ptr<il::Tree<T, n>> a;
  std::map<Path, Cell> m;
};

template <typename T, il::int_t n>
il::spot_t go(const il::Tree<T, n>& a, const Path& p) {
  il::spot_t s = a.root();
  for (int i : p) s = a.child(s, i);
  return s;
}

template <typename T, il::int_t n>
void compare(pbt::Ctx& c, const Slot<T, n>& x, int k) {
  const il::Tree<T, n>& a = *x.a;
  std::size_t depth = 0;
  for (const auto& e : x.m) {
    const Path& p = e.first;
    depth = std::max(depth, p.size());
    const il::spot_t s = go(a, p);
    if (!p.empty()) {
      const Path up(p.begin(), p.end() - 1);
      REQUIRE(a.parent(s).index == go(a, up).index, "tree " << k << ": parent of " << show(p));
    }
    REQUIRE(a.isEmpty(s) == !e.second.set, "tree " << k << ": isEmpty(" << show(p) << ") is " << a.isEmpty(s));
    if (e.second.set) {
      const long got = El<T>::get(a.value(s));
      REQUIRE(got == e.second.v, "tree " << k << ": value of " << show(p) << " is " << got << " instead of " << e.second.v);
    }
    const il::SmallArray<il::int_t, n> children = a.children(s);
    il::int_t next = 0;
    Path q = p;
    q.push_back(0);
    for (int i = 0; i < n; ++i) {
      q.back() = i;
      const bool there = x.m.count(q) > 0;
      REQUIRE(a.hasChild(s, i) == there, "tree " << k << ": hasChild(" << show(p) << ", " << i << ") is " << !there);
      if (there) {
        REQUIRE(next < children.size() && children[next] == i, "tree " << k << ": child " << i << " of " << show(p) << " is not among the children");
        ++next;
      }
    }
    REQUIRE(children.size() == next, "tree " << k << ": " << show(p) << " has " << children.size() << " children instead of " << next);
    REQUIRE(a.hasChild(s) == (next > 0), "tree " << k << ": hasChild(" << show(p) << ")");
  }
  REQUIRE(a.depth() == static_cast<il::int_t>(depth), "tree " << k << ": depth " << a.depth() << " instead of " << depth);
  vt::trackedOk(c);
}

template <typename T, il::int_t n>
void history(pbt::Src& s, pbt::Ctx& c) {
  const std::size_t deepest = n == 1 ? 40 : n == 2 ? 9 : n == 3 ? 6 : n <= 5 ? 4 : n <= 8 ? 3 : 2;
  std::vector<Slot<T, n>> x(2);
  for (auto& e : x) {
    e.a.reset(new il::Tree<T, n>{});
    e.m[Path{}] = Cell{};
  }
  bool deep = false;
  const std::int64_t steps = 1 + s.size(39);
  for (std::int64_t step = 0; step < steps; ++step) {
    const int k = static_cast<int>(s.draw(2));
    const int l = 1 - k;
    Slot<T, n>& e = x[static_cast<std::size_t>(k)];
    auto it = e.m.begin();
    // The last paths are the deepest ones on the left, and the widest
    std::advance(it, static_cast<long>(s.coin() ? e.m.size() - 1 : s.draw(e.m.size())));
    switch (s.weighted({10, 10, 1, 1, 1, 1, 1})) {
      case 0: {
        Path p = it->first;
        if (p.size() >= deepest) break;
        const int i = static_cast<int>(s.range(0, n - 1));
        LOG(k << ": AddChild(" << show(p) << ", " << i << ")");
        e.a->AddChild(go(*e.a, p), i);
        p.push_back(i);
        e.m.insert({p, Cell{}});
        if (deep) c.nontrivial = true;
        break;
      }
      case 1: {
        const long v = s.range(0, El<T>::values - 1);
        LOG(k << ": Set(" << show(it->first) << ", " << v << ")");
        e.a->Set(go(*e.a, it->first), El<T>::make(v));
        it->second = Cell{true, v};
        if (it->first.size() >= 2 || n > 8) deep = true;
        break;
      }
      case 2:
        LOG(k << " = " << l);
        *e.a = *x[static_cast<std::size_t>(l)].a;
        e.m = x[static_cast<std::size_t>(l)].m;
        break;
      case 3:
        LOG(k << " copied from " << l);
        e.a.reset(new il::Tree<T, n>(*x[static_cast<std::size_t>(l)].a));
        e.m = x[static_cast<std::size_t>(l)].m;
        break;
      case 4:
        LOG(k << " = move(" << l << "), " << l << " constructed");
        *e.a = std::move(*x[static_cast<std::size_t>(l)].a);
        e.m = x[static_cast<std::size_t>(l)].m;
        x[static_cast<std::size_t>(l)].a.reset(new il::Tree<T, n>{});
        x[static_cast<std::size_t>(l)].m = {{Path{}, Cell{}}};
        compare(c, x[static_cast<std::size_t>(l)], l);
        break;
      case 5: {
        if (it->second.set == false) break;
        LOG(k << ": Set(root, value of " << show(it->first) << ")");
        const il::Tree<T, n>& a = *e.a;
        e.a->Set(a.root(), a.value(go(a, it->first)));
        const Cell v = it->second;
        e.m[Path{}] = v;
        break;
      }
      default: {
        const il::int_t d = s.range(0, static_cast<std::int64_t>(deepest));
        LOG(k << " = Tree(" << d << ")");
        e.a.reset(new il::Tree<T, n>{d});
        e.m = {{Path{}, Cell{}}};
      }
    }
    compare(c, e, k);
  }
  for (int k = 0; k < 2; ++k) compare(c, x[static_cast<std::size_t>(k)], k);
}

// One long path, and what hangs from it
template <typename T, il::int_t n>
void deep(pbt::Src& s, pbt::Ctx& c) {
  const std::int64_t deepest = n == 1 ? 2000 : n == 2 ? 18 : n == 3 ? 11 : n <= 5 ? 8 : n <= 8 ? 6 : 3;
  Slot<T, n> x;
  x.a.reset(s.coin() && n != 1 ? new il::Tree<T, n>{s.range(0, 4)} : new il::Tree<T, n>{});
  x.m[Path{}] = Cell{};
  Path p;
  const std::int64_t depth = s.range(1, n == 1 && !s.chance(1, 10) ? 60 : deepest);
  for (std::int64_t d = 0; d < depth; ++d) {
    // The last children make the largest indices
    const int i = static_cast<int>(s.chance(1, 3) ? s.range(0, n - 1) : n - 1);
    x.a->AddChild(go(*x.a, p), i);
    p.push_back(i);
    LOG("AddChild " << i);
    x.m.insert({p, Cell{}});
    if (s.chance(1, 3)) {
      const long v = s.range(0, El<T>::values - 1);
      LOG("Set(" << show(p) << ", " << v << ")");
      x.a->Set(go(*x.a, p), El<T>::make(v));
      x.m[p] = Cell{true, v};
    }
    if (s.chance(1, 6)) {  // A brother
      const int j = static_cast<int>(s.range(0, n - 1));
      Path q = p;
      q.back() = j;
      const Path up(p.begin(), p.end() - 1);
      LOG("AddChild " << j << " to the same node");
      x.a->AddChild(go(*x.a, up), j);
      x.m.insert({q, Cell{}});
    }
  }
  if (depth > 2) c.nontrivial = true;
  compare(c, x, 0);
  Slot<T, n> y;
  y.a.reset(new il::Tree<T, n>(*x.a));
  y.m = x.m;
  compare(c, y, 1);
}
}  // namespace

#define CASE(name, w, ...) \
  PROPERTY(name, w) {      \
    vt::TrackedScope t;    \
    __VA_ARGS__(s, c);     \
    t.finish(c);           \
  }

#if PBT_IN(0)
CASE(double_2, 2, history<double, 2>)
CASE(int_1, 1, history<int, 1>)
PROPERTY(deep_1, 1) {
  if (s.chance(1, 60)) deep<int, 1>(s, c);
}
PROPERTY(deep_2, 1) {
  if (s.chance(1, 60)) deep<double, 2>(s, c);
}
CASE(tracked_3, 3, history<Tracked, 3>)
#endif
#if PBT_IN(1)
CASE(string_5, 2, history<std::string, 5>)
CASE(tracked_8, 2, history<Tracked, 8>)
CASE(int_30, 1, history<int, 30>)
PROPERTY(deep_5, 1) {
  if (s.chance(1, 60)) deep<int, 5>(s, c);
}
PROPERTY(deep_8, 1) {
  if (s.chance(1, 60)) deep<short, 8>(s, c);
}
#endif
