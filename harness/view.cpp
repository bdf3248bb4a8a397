// C04: views address exactly the elements they select.
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/container/3d/Array3DView.h>

#include <memory>

#include "common.h"

using vt::El;
using vt::Tracked;

namespace pbt {
const char* rule =
    "a parent (Array, SmallArray, StaticArray, Array2D, Array2C, StaticArray2D or raw strided memory, with spare "
    "capacity or alignment padding) is filled, a chain of up to 4 views of views is drawn, every element read through "
    "each view is compared in value and address with the element selected, some are written, and the whole parent is "
    "compared with the model. Non-trivial: a chain with a proper, non-empty sub-range, or padded storage";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 1200000;
    pbt::thorough_cases = 25000000;
  }
} init;

// The selection made by a view: element k (or (i, j)) of the view is element
// b0 + i, b1 + j of the parent.
struct Sel {
  il::int_t b[2];
  il::int_t n[2];
};

il::int_t extent(pbt::Src& s) { return s.chance(1, 200) ? s.range(40, 400) : s.more(8, 40); }

il::Range drawRange(pbt::Src& s, il::int_t n) {
  // n > 0, begin < n, begin <= end <= n
  const il::int_t b = s.range(0, n - 1);
  il::int_t e;
  switch (s.weighted({5, 2, 1})) {
    case 0: e = s.range(b, n); break;
    case 1: e = n; break;
    default: e = b + 1; break;
  }
  return il::Range{b, e};
}

template <typename T>
struct Flat {
  std::vector<T*> at;      // address of each element of the parent
  std::vector<long> v;     // value it should have
  il::int_t n0, n1;
  bool rowMajor = false;
  std::size_t pos(il::int_t i, il::int_t j) const { return static_cast<std::size_t>(j * n0 + i); }
};

template <typename T>
void same(pbt::Ctx& c, const Flat<T>& f) {
  for (std::size_t k = 0; k < f.at.size(); ++k)
    REQUIRE(El<T>::get(*f.at[k]) == f.v[k],
            "element (" << static_cast<il::int_t>(k) % f.n0 << ", " << static_cast<il::int_t>(k) / f.n0 << ") of the parent is " << El<T>::get(*f.at[k])
                        << " and should be " << f.v[k]);
}

template <typename T, typename V>
void look1(pbt::Ctx& c, const Flat<T>& f, V&& v, il::int_t b, il::int_t n, il::int_t j, bool col) {
  REQUIRE(v.size() == n, "size " << v.size() << ", selected " << n);
  for (il::int_t k = 0; k < n; ++k) {
    const std::size_t p = col ? f.pos(b + k, j) : f.pos(j, b + k);
    REQUIRE(&v[k] == f.at[p], "element " << k << " is not the one selected");
    REQUIRE(El<T>::get(v[k]) == f.v[p], "element " << k);
  }
  if (n > 0) {
    REQUIRE(&v.back() == &v[n - 1], "last element");
    REQUIRE(v.data() == &v[0], "first element");
  }
}
template <typename T, typename V>
void look2(pbt::Ctx& c, const Flat<T>& f, V&& v, const Sel& q) {
  REQUIRE(v.size(0) == q.n[0] && v.size(1) == q.n[1],
          "size (" << v.size(0) << ", " << v.size(1) << "), selected (" << q.n[0] << ", " << q.n[1] << ")");
  for (il::int_t j = 0; j < q.n[1]; ++j)
    for (il::int_t i = 0; i < q.n[0]; ++i) {
      const std::size_t p = f.pos(q.b[0] + i, q.b[1] + j);
      REQUIRE(&v(i, j) == f.at[p], "element (" << i << ", " << j << ") is not the one selected");
      REQUIRE(El<T>::get(v(i, j)) == f.v[p], "element (" << i << ", " << j << ")");
      // The strides tell where the elements are
      REQUIRE(v.data() + i * v.stride(0) + j * v.stride(1) == f.at[p], "stride " << v.stride(0) << ", " << v.stride(1));
    }
}

template <typename T>
long fresh(pbt::Src& s) {
  return s.range(0, El<T>::values - 1);
}

// A chain of 1D views. E is the editable view and V the view, E being empty
// for a const parent.
template <typename T>
void chain1(pbt::Src& s, pbt::Ctx& c, Flat<T>& f, il::ArrayView<T> v, il::int_t b, il::int_t j, bool col, int depth);

template <typename T>
void chain1e(pbt::Src& s, pbt::Ctx& c, Flat<T>& f, il::ArrayEdit<T> v, il::int_t b, il::int_t j, bool col, int depth) {
  const il::int_t n = v.size();
  look1(c, f, v, b, n, j, col);
  auto pos = [&](il::int_t k) { return col ? f.pos(b + k, j) : f.pos(j, b + k); };
  if (n > 0) {
    const il::int_t w = s.range(0, 3);
    for (il::int_t r = 0; r < w; ++r) {
      const il::int_t k = s.range(0, n - 1);
      const long x = fresh<T>(s);
      LOG("write " << x << " at " << k);
      switch (s.draw(3)) {
        case 0: v[k] = El<T>::make(x); f.v[pos(k)] = x; break;
        case 1: v.Back() = El<T>::make(x); f.v[pos(n - 1)] = x; break;
        default: v.Data()[k] = El<T>::make(x); f.v[pos(k)] = x; break;
      }
      c.tag("write");
    }
    same(c, f);
  }
  if (depth == 0 || n == 0) return;
  switch (s.draw(4)) {
    case 0: {
      LOG("Edit()");
      il::ArrayEdit<T> u = v.Edit();
      REQUIRE(u.size() == n, "size of Edit()");
      chain1e<T>(s, c, f, u, b, j, col, depth - 1);
      break;
    }
    case 1: {
      LOG("view()");
      il::ArrayView<T> u = v.view();
      REQUIRE(u.size() == n, "size of view()");
      chain1<T>(s, c, f, u, b, j, col, depth - 1);
      break;
    }
    case 2: {
      const il::Range r = drawRange(s, n);
      LOG("view(" << r.begin << ", " << r.end << ")");
      il::ArrayView<T> u = v.view(r);
      REQUIRE(u.size() == r.end - r.begin, "size " << u.size());
      chain1<T>(s, c, f, u, b + r.begin, j, col, depth - 1);
      break;
    }
    default: {
      const il::Range r = drawRange(s, n);
      LOG("Edit(" << r.begin << ", " << r.end << ")");
      il::ArrayEdit<T> u = v.Edit(r);
      REQUIRE(u.size() == r.end - r.begin, "size " << u.size());
      chain1e<T>(s, c, f, u, b + r.begin, j, col, depth - 1);
    }
  }
}
template <typename T>
void chain1(pbt::Src& s, pbt::Ctx& c, Flat<T>& f, il::ArrayView<T> v, il::int_t b, il::int_t j, bool col, int depth) {
  const il::int_t n = v.size();
  look1(c, f, v, b, n, j, col);
  if (depth == 0 || n == 0) return;
  if (s.chance(1, 4)) {
    LOG("view()");
    chain1<T>(s, c, f, v.view(), b, j, col, depth - 1);
  } else {
    const il::Range r = drawRange(s, n);
    LOG("view(" << r.begin << ", " << r.end << ")");
    il::ArrayView<T> u = v.view(r);
    REQUIRE(u.size() == r.end - r.begin, "size " << u.size());
    chain1<T>(s, c, f, u, b + r.begin, j, col, depth - 1);
  }
}

template <typename T>
std::vector<T*> addresses1(T* p, il::int_t n) {
  std::vector<T*> a;
  for (il::int_t k = 0; k < n; ++k) a.push_back(p + k);
  return a;
}

template <typename T, typename P>
void start1(pbt::Src& s, pbt::Ctx& c, P& a, il::int_t n) {
  Flat<T> f;
  f.n0 = n ? n : 1;
  f.n1 = 1;
  for (il::int_t k = 0; k < n; ++k) {
    const long x = fresh<T>(s);
    a[k] = El<T>::make(x);
    f.at.push_back(&a[k]);
    f.v.push_back(x);
  }
  const int depth = static_cast<int>(s.range(0, 3));
  const unsigned w = static_cast<unsigned>(s.draw(4));
  const P& ca = a;
  if (n == 0 || w < 2) {
    LOG((w & 1 ? "Edit() of the parent" : "view() of the parent"));
    if (w & 1) {
      il::ArrayEdit<T> u = a.Edit();
      REQUIRE(u.size() == n, "size of Edit()");
      chain1e<T>(s, c, f, u, 0, 0, true, depth);
    } else {
      il::ArrayView<T> u = ca.view();
      REQUIRE(u.size() == n, "size of view()");
      chain1<T>(s, c, f, u, 0, 0, true, depth);
    }
  } else {
    const il::Range r = drawRange(s, n);
    if (r.end > r.begin && r.end - r.begin < n) c.nontrivial = true;
    LOG((w == 2 ? "view" : "Edit") << "(" << r.begin << ", " << r.end << ") of the parent");
    if (w == 2) {
      il::ArrayView<T> u = ca.view(r);
      REQUIRE(u.size() == r.end - r.begin, "size");
      chain1<T>(s, c, f, u, r.begin, 0, true, depth);
    } else {
      il::ArrayEdit<T> u = a.Edit(r);
      REQUIRE(u.size() == r.end - r.begin, "size");
      chain1e<T>(s, c, f, u, r.begin, 0, true, depth);
    }
  }
  for (il::int_t k = 0; k < n; ++k) REQUIRE(El<T>::get(a[k]) == f.v[static_cast<std::size_t>(k)], "parent element " << k);
}

template <typename T>
void views1(pbt::Src& s, pbt::Ctx& c) {
  switch (s.draw(4)) {
    case 0: {
      const il::int_t n = s.more(20, 300);
      LOG("Array of " << n << " " << El<T>::name());
      il::Array<T> a{n};
      if (s.coin()) a.Reserve(n + s.range(0, 5));
      start1<T>(s, c, a, n);
      break;
    }
    case 1: {
      const il::int_t n = s.more(8, 40);
      LOG("SmallArray of " << n << " " << El<T>::name());
      il::SmallArray<T, 4> a{n};
      if (s.coin()) a.Reserve(n + s.range(0, 5));
      start1<T>(s, c, a, n);
      break;
    }
    case 2: {
      LOG("StaticArray<" << El<T>::name() << ", 6>");
      il::StaticArray<T, 6> a;
      start1<T>(s, c, a, 6);
      break;
    }
    default: {
      // Raw memory, the view covers [b, b + n)
      const il::int_t total = s.range(1, 16);
      const il::int_t b = s.range(0, total - 1);
      const il::int_t n = s.range(0, total - b);
      LOG("raw memory of " << total << ", view of " << n << " from " << b);
      std::unique_ptr<T[]> mem(new T[static_cast<std::size_t>(total)]);
      Flat<T> f;
      f.n0 = total;
      f.n1 = 1;
      for (il::int_t k = 0; k < total; ++k) {
        const long x = fresh<T>(s);
        mem[static_cast<std::size_t>(k)] = El<T>::make(x);
        f.at.push_back(mem.get() + k);
        f.v.push_back(x);
      }
      if (n < total && n > 0) c.nontrivial = true;
      if (s.coin()) {
        il::ArrayEdit<T> u{mem.get() + b, n};
        REQUIRE(u.size() == n, "size");
        chain1e<T>(s, c, f, u, b, 0, true, 3);
      } else {
        il::ArrayView<T> u{mem.get() + b, n};
        REQUIRE(u.size() == n, "size");
        chain1<T>(s, c, f, u, b, 0, true, 3);
      }
      same(c, f);
    }
  }
}

// Views in two dimensions ----------------------------------------------------
template <typename T>
void deep2(pbt::Src& s, pbt::Ctx& c, Flat<T>& f, il::Array2DView<T> v, Sel q, int depth) {
  look2(c, f, v, q);
  if (depth == 0 || q.n[0] == 0 || q.n[1] == 0) return;
  const il::Range r0 = drawRange(s, q.n[0]);
  const il::Range r1 = drawRange(s, q.n[1]);
  LOG("view((" << r0.begin << ", " << r0.end << "), (" << r1.begin << ", " << r1.end << "))");
  deep2<T>(s, c, f, v.view(r0, r1), Sel{{q.b[0] + r0.begin, q.b[1] + r1.begin}, {r0.end - r0.begin, r1.end - r1.begin}}, depth - 1);
}

template <typename T, typename E>
void writes2(pbt::Src& s, pbt::Ctx& c, Flat<T>& f, E& v, const Sel& q) {
  if (q.n[0] == 0 || q.n[1] == 0) return;
  const il::int_t w = s.range(0, 3);
  for (il::int_t r = 0; r < w; ++r) {
    const il::int_t i = s.range(0, q.n[0] - 1);
    const il::int_t j = s.range(0, q.n[1] - 1);
    const long x = fresh<T>(s);
    LOG("write " << x << " at (" << i << ", " << j << ")");
    if (s.coin())
      v(i, j) = El<T>::make(x);
    else
      v.Data()[i * v.stride(0) + j * v.stride(1)] = El<T>::make(x);
    f.v[f.pos(q.b[0] + i, q.b[1] + j)] = x;
    c.tag("write");
  }
  same(c, f);
}

template <typename T>
void deep2e(pbt::Src& s, pbt::Ctx& c, Flat<T>& f, il::Array2DEdit<T> v, Sel q, int depth) {
  look2(c, f, v, q);
  writes2<T>(s, c, f, v, q);
  if (depth == 0 || q.n[0] == 0 || q.n[1] == 0) return;
  const il::Range r0 = drawRange(s, q.n[0]);
  const il::Range r1 = drawRange(s, q.n[1]);
  const Sel p{{q.b[0] + r0.begin, q.b[1] + r1.begin}, {r0.end - r0.begin, r1.end - r1.begin}};
  const bool edit = !s.chance(1, 4);
  LOG((edit ? "Edit" : "view") << "((" << r0.begin << ", " << r0.end << "), (" << r1.begin << ", " << r1.end << "))");
  if (edit)
    deep2e<T>(s, c, f, v.Edit(r0, r1), p, depth - 1);
  else
    deep2<T>(s, c, f, v.view(r0, r1), p, depth - 1);
}
template <typename T>
void deep2e(pbt::Src& s, pbt::Ctx& c, Flat<T>& f, il::Array2CEdit<T> v, Sel q, int depth) {
  look2(c, f, v, q);
  writes2<T>(s, c, f, v, q);
  if (depth == 0 || q.n[0] == 0 || q.n[1] == 0) return;
  const il::Range r0 = drawRange(s, q.n[0]);
  const il::Range r1 = drawRange(s, q.n[1]);
  const Sel p{{q.b[0] + r0.begin, q.b[1] + r1.begin}, {r0.end - r0.begin, r1.end - r1.begin}};
  LOG("Edit((" << r0.begin << ", " << r0.end << "), (" << r1.begin << ", " << r1.end << "))");
  deep2e<T>(s, c, f, v.Edit(r0, r1), p, depth - 1);
}

template <typename T, typename A>
void fill2(pbt::Src& s, Flat<T>& f, A& a, il::int_t n0, il::int_t n1) {
  f.n0 = n0 ? n0 : 1;
  f.n1 = n1;
  for (il::int_t j = 0; j < n1; ++j)
    for (il::int_t i = 0; i < n0; ++i) {
      const long x = fresh<T>(s);
      a(i, j) = El<T>::make(x);
      f.at.push_back(&a(i, j));
      f.v.push_back(x);
    }
}

template <typename T, typename A>
void pad(pbt::Src& s, pbt::Ctx& c, A& a, il::int_t n0, il::int_t n1) {
  if (s.coin()) {
    const il::int_t r0 = n0 + s.range(0, 4), r1 = n1 + s.range(0, 4);
    LOG("Reserve(" << r0 << ", " << r1 << ")");
    a.Reserve(r0, r1);
  }
}

template <typename T, bool trivial>
struct Make {
  template <typename A>
  static A array(pbt::Src&, pbt::Ctx& c, il::int_t n0, il::int_t n1) {
    LOG(n0 << " x " << n1 << " of " << El<T>::name());
    return A{n0, n1};
  }
};
template <typename T>
struct Make<T, true> {
  template <typename A>
  static A array(pbt::Src& s, pbt::Ctx& c, il::int_t n0, il::int_t n1) {
    LOG(n0 << " x " << n1 << " of " << El<T>::name());
    if (s.coin()) return A{n0, n1};
    const il::int_t mod = static_cast<il::int_t>(sizeof(T)) << s.range(0, 5);
    const il::int_t r = static_cast<il::int_t>(sizeof(T)) * s.range(0, mod / static_cast<il::int_t>(sizeof(T)) - 1);
    LOG("aligned " << r << " mod " << mod);
    return A{n0, n1, il::align, static_cast<il::int_t>(sizeof(T)), r, mod};
  }
};

template <typename T>
void array2d(pbt::Src& s, pbt::Ctx& c) {
  const il::int_t n0 = extent(s), n1 = n0 <= 40 ? extent(s) : s.range(0, 4);
  il::Array2D<T> a = Make<T, il::isTrivial<T>::value>::template array<il::Array2D<T>>(s, c, n0, n1);
  pad<T>(s, c, a, n0, n1);
  if (a.stride(1) != n0 && n0 > 0 && n1 > 0) c.nontrivial = true;
  Flat<T> f;
  fill2<T>(s, f, a, n0, n1);
  const il::Array2D<T>& ca = a;
  const int depth = static_cast<int>(s.range(0, 3));
  const unsigned w = static_cast<unsigned>(s.draw(6));
  if (n0 == 0 || n1 == 0 || w < 2) {
    LOG((w & 1 ? "Edit()" : "view()"));
    const Sel q{{0, 0}, {n0, n1}};
    if (w & 1)
      deep2e<T>(s, c, f, a.Edit(), q, depth);
    else
      deep2<T>(s, c, f, ca.view(), q, depth);
  } else if (w < 4) {
    const il::Range r0 = drawRange(s, n0), r1 = drawRange(s, n1);
    if (r0.end > r0.begin && r1.end > r1.begin && (r0.end - r0.begin < n0 || r1.end - r1.begin < n1)) c.nontrivial = true;
    const Sel q{{r0.begin, r1.begin}, {r0.end - r0.begin, r1.end - r1.begin}};
    LOG((w == 2 ? "Edit" : "view") << "((" << r0.begin << ", " << r0.end << "), (" << r1.begin << ", " << r1.end << "))");
    if (w == 2)
      deep2e<T>(s, c, f, a.Edit(r0, r1), q, depth);
    else
      deep2<T>(s, c, f, ca.view(r0, r1), q, depth);
  } else {
    const il::Range r0 = drawRange(s, n0);
    const il::int_t j = s.range(0, n1 - 1);
    if (r0.end > r0.begin && r0.end - r0.begin < n0) c.nontrivial = true;
    LOG((w == 4 ? "Edit" : "view") << "((" << r0.begin << ", " << r0.end << "), " << j << ")");
    if (w == 4) {
      il::ArrayEdit<T> u = a.Edit(r0, j);
      REQUIRE(u.size() == r0.end - r0.begin, "size");
      chain1e<T>(s, c, f, u, r0.begin, j, true, depth);
    } else {
      il::ArrayView<T> u = ca.view(r0, j);
      REQUIRE(u.size() == r0.end - r0.begin, "size");
      chain1<T>(s, c, f, u, r0.begin, j, true, depth);
    }
  }
  for (il::int_t j = 0; j < n1; ++j)
    for (il::int_t i = 0; i < n0; ++i) REQUIRE(El<T>::get(a(i, j)) == f.v[f.pos(i, j)], "parent (" << i << ", " << j << ")");
}

template <typename T>
void array2c(pbt::Src& s, pbt::Ctx& c) {
  const il::int_t n0 = extent(s), n1 = n0 <= 40 ? extent(s) : s.range(0, 4);
  il::Array2C<T> a = Make<T, il::isTrivial<T>::value>::template array<il::Array2C<T>>(s, c, n0, n1);
  pad<T>(s, c, a, n0, n1);
  if (a.stride(0) != n1 && n0 > 0 && n1 > 0) c.nontrivial = true;
  Flat<T> f;
  fill2<T>(s, f, a, n0, n1);
  const il::Array2C<T>& ca = a;
  const int depth = static_cast<int>(s.range(0, 3));
  const unsigned w = static_cast<unsigned>(s.draw(4));
  if (n0 == 0 || n1 == 0 || w < 2) {
    LOG((w & 1 ? "Edit()" : "view()"));
    const Sel q{{0, 0}, {n0, n1}};
    if (w & 1)
      deep2e<T>(s, c, f, a.Edit(), q, depth);
    else
      look2(c, f, ca.view(), q);
  } else if (w == 2) {
    const il::Range r0 = drawRange(s, n0), r1 = drawRange(s, n1);
    if (r0.end > r0.begin && r1.end > r1.begin && (r0.end - r0.begin < n0 || r1.end - r1.begin < n1)) c.nontrivial = true;
    const Sel q{{r0.begin, r1.begin}, {r0.end - r0.begin, r1.end - r1.begin}};
    LOG("view((" << r0.begin << ", " << r0.end << "), (" << r1.begin << ", " << r1.end << "))");
    look2(c, f, ca.view(r0, r1), q);
  } else {
    const il::Range r1 = drawRange(s, n1);
    const il::int_t i = s.range(0, n0 - 1);
    if (r1.end > r1.begin && r1.end - r1.begin < n1) c.nontrivial = true;
    LOG("view(" << i << ", (" << r1.begin << ", " << r1.end << "))");
    il::ArrayView<T> u = ca.view(i, r1);
    REQUIRE(u.size() == r1.end - r1.begin, "size");
    chain1<T>(s, c, f, u, r1.begin, i, false, depth);
  }
  for (il::int_t j = 0; j < n1; ++j)
    for (il::int_t i = 0; i < n0; ++i) REQUIRE(El<T>::get(a(i, j)) == f.v[f.pos(i, j)], "parent (" << i << ", " << j << ")");
}

template <typename T>
void static2d(pbt::Src& s, pbt::Ctx& c) {
  il::StaticArray2D<T, 3, 5> a;
  Flat<T> f;
  fill2<T>(s, f, a, 3, 5);
  const int depth = static_cast<int>(s.range(0, 3));
  if (depth > 0) c.nontrivial = true;
  LOG("StaticArray2D<3, 5>");
  const il::StaticArray2D<T, 3, 5>& ca = a;
  const Sel q{{0, 0}, {3, 5}};
  if (s.coin())
    deep2e<T>(s, c, f, a.Edit(), q, depth);
  else
    deep2<T>(s, c, f, ca.view(), q, depth);
  for (il::int_t j = 0; j < 5; ++j)
    for (il::int_t i = 0; i < 3; ++i) REQUIRE(El<T>::get(a(i, j)) == f.v[f.pos(i, j)], "parent");
}

// Raw strided memory, in two or three dimensions. The memory is the parent, a
// vector of n0 elements in the model.
template <typename T>
void raw2(pbt::Src& s, pbt::Ctx& c) {
  const il::int_t n0 = extent(s), n1 = n0 <= 40 ? extent(s) : s.range(0, 4);
  const bool colMajor = s.coin();
  const il::int_t stride = (colMajor ? n0 : n1) + s.range(0, 4);
  const il::int_t before = s.range(0, 3), after = s.range(0, 3);
  const il::int_t outer = colMajor ? n1 : n0;
  const il::int_t total = before + outer * stride + after;
  LOG("raw memory of " << El<T>::name() << ", " << n0 << " x " << n1 << (colMajor ? " by columns" : " by rows") << ", stride " << stride << ", offset " << before);
  std::unique_ptr<T[]> mem(new T[static_cast<std::size_t>(total)]);
  std::vector<long> all;
  for (il::int_t k = 0; k < total; ++k) {
    all.push_back(fresh<T>(s));
    mem[static_cast<std::size_t>(k)] = El<T>::make(all.back());
  }
  Flat<T> f;
  f.n0 = n0 ? n0 : 1;
  f.n1 = n1;
  std::vector<std::size_t> where;
  for (il::int_t j = 0; j < n1; ++j)
    for (il::int_t i = 0; i < n0; ++i) {
      const std::size_t p = static_cast<std::size_t>(before + (colMajor ? j * stride + i : i * stride + j));
      where.push_back(p);
      f.at.push_back(mem.get() + p);
      f.v.push_back(all[p]);
    }
  if (n0 > 1 && n1 > 1) c.nontrivial = true;
  const Sel q{{0, 0}, {n0, n1}};
  const int depth = static_cast<int>(s.range(0, 3));
  T* const p = mem.get() + before;
  if (colMajor) {
    if (s.coin()) {
      deep2e<T>(s, c, f, il::Array2DEdit<T>{p, n0, n1, stride, 0, 0}, q, depth);
    } else if (s.coin()) {
      deep2<T>(s, c, f, il::Array2DView<T>{p, n0, n1, stride}, q, depth);
    } else {
      deep2<T>(s, c, f, il::Array2DView<T>{p, n0, n1, stride, 0, 0}, q, depth);
    }
  } else {
    const unsigned w = static_cast<unsigned>(s.draw(4));
    if (w == 0) look2(c, f, il::Array2CView<T>{p, n0, n1, stride}, q);
    if (w == 1) look2(c, f, il::Array2CView<T>{p, n0, n1, stride, 0, 0}, q);
    if (w == 2) deep2e<T>(s, c, f, il::Array2CEdit<T>{p, n0, n1, stride}, q, depth);
    if (w == 3) deep2e<T>(s, c, f, il::Array2CEdit<T>{p, n0, n1, stride, 0, 0}, q, depth);
  }
  // A line of it, as a view of memory whose alignment is known
  if (f.at.size() > 0 && il::isTrivial<T>::value && s.chance(1, 3)) {
    const bool col = colMajor;
    const il::int_t line = s.range(0, (col ? n1 : n0) - 1);
    T* const l = f.at[col ? f.pos(0, line) : f.pos(line, 0)];
    const il::int_t al = static_cast<il::int_t>(alignof(T)) << s.draw(4);
    const il::int_t rem = static_cast<il::int_t>(reinterpret_cast<std::size_t>(l) % static_cast<std::size_t>(al));
    LOG("line " << line << ", aligned " << rem << " mod " << al);
    if (s.coin())
      chain1e<T>(s, c, f, il::ArrayEdit<T>{l, col ? n0 : n1, al, rem}, 0, line, col, depth);
    else
      chain1<T>(s, c, f, il::ArrayView<T>{l, col ? n0 : n1, al, rem}, 0, line, col, depth);
  }
  for (std::size_t k = 0; k < where.size(); ++k) all[where[k]] = f.v[k];
  for (std::size_t k = 0; k < all.size(); ++k)
    REQUIRE(El<T>::get(mem[k]) == all[k], "element " << k << " of the memory is " << El<T>::get(mem[k]) << " and should be " << all[k]);
}

template <typename T>
void raw3(pbt::Src& s, pbt::Ctx& c) {
  const il::int_t n0 = s.more(5, 14), n1 = s.more(5, 14), n2 = s.more(5, 14);
  const il::int_t s0 = n0 + s.range(0, 3), s1 = n1 + s.range(0, 3);
  const il::int_t before = s.range(0, 3), after = s.range(0, 3);
  const il::int_t total = before + s0 * s1 * n2 + after;
  LOG("raw memory of " << El<T>::name() << ", " << n0 << " x " << n1 << " x " << n2 << ", strides " << s0 << ", " << s1 << ", offset " << before);
  std::unique_ptr<T[]> mem(new T[static_cast<std::size_t>(total)]);
  std::vector<long> all;
  for (il::int_t k = 0; k < total; ++k) {
    all.push_back(fresh<T>(s));
    mem[static_cast<std::size_t>(k)] = El<T>::make(all.back());
  }
  T* const p = mem.get() + before;
  il::Array3DEdit<T> e{p, n0, n1, n2, s0, s1};
  il::Array3DView<T> v{p, n0, n1, n2, s0, s1};
  REQUIRE(e.size(0) == n0 && e.size(1) == n1 && e.size(2) == n2, "size of the edit");
  REQUIRE(v.size(0) == n0 && v.size(1) == n1 && v.size(2) == n2, "size of the view");
  REQUIRE(e.data() == p && v.data() == p, "data()");
  REQUIRE(e.stride(0) == s0 && e.stride(1) == s1 && v.stride(0) == s0 && v.stride(1) == s1, "stride");
  if (n0 > 0 && n1 > 0 && n2 > 0) {
    c.nontrivial = true;
    for (int r = 0; r < 4; ++r) {
      const il::int_t i = s.range(0, n0 - 1), j = s.range(0, n1 - 1), k = s.range(0, n2 - 1);
      const long x = fresh<T>(s);
      LOG("write " << x << " at (" << i << ", " << j << ", " << k << ")");
      e(i, j, k) = El<T>::make(x);
      all[static_cast<std::size_t>(before + (k * s1 + j) * s0 + i)] = x;
    }
  }
  for (il::int_t k = 0; k < n2; ++k)
    for (il::int_t j = 0; j < n1; ++j)
      for (il::int_t i = 0; i < n0; ++i) {
        T* const at = p + (k * s1 + j) * s0 + i;
        REQUIRE(&v(i, j, k) == at && &e(i, j, k) == at, "element (" << i << ", " << j << ", " << k << ")");
      }
  for (std::size_t k = 0; k < all.size(); ++k) REQUIRE(El<T>::get(mem[k]) == all[k], "element " << k << " of the memory");
}

// il::copy from a view to another one, and arrays built from views
template <typename T>
void copies(pbt::Src& s, pbt::Ctx& c) {
  const il::int_t n0 = s.range(1, 7), n1 = s.range(1, 7);
  il::Array2D<T> a = Make<T, il::isTrivial<T>::value>::template array<il::Array2D<T>>(s, c, n0, n1);
  pad<T>(s, c, a, n0, n1);
  Flat<T> fa;
  fill2<T>(s, fa, a, n0, n1);
  const il::int_t m0 = s.range(1, 7), m1 = s.range(1, 7);
  il::Array2D<T> b = Make<T, il::isTrivial<T>::value>::template array<il::Array2D<T>>(s, c, m0, m1);
  pad<T>(s, c, b, m0, m1);
  Flat<T> fb;
  fill2<T>(s, fb, b, m0, m1);
  const il::int_t k0 = s.range(1, n0 < m0 ? n0 : m0), k1 = s.range(1, n1 < m1 ? n1 : m1);
  const il::int_t a0 = s.range(0, n0 - k0), a1 = s.range(0, n1 - k1), b0 = s.range(0, m0 - k0), b1 = s.range(0, m1 - k1);
  c.nontrivial = true;
  LOG("copy of " << k0 << " x " << k1 << " from (" << a0 << ", " << a1 << ") to (" << b0 << ", " << b1 << ")");
  il::copy(a.view(il::Range{a0, a0 + k0}, il::Range{a1, a1 + k1}), il::io, b.Edit(il::Range{b0, b0 + k0}, il::Range{b1, b1 + k1}));
  for (il::int_t j = 0; j < k1; ++j)
    for (il::int_t i = 0; i < k0; ++i) fb.v[fb.pos(b0 + i, b1 + j)] = fa.v[fa.pos(a0 + i, a1 + j)];
  same(c, fa);
  same(c, fb);
  // A copy of a part of a column
  const il::Array<T> col{a.view(il::Range{a0, a0 + k0}, a1)};
  REQUIRE(col.size() == k0, "size of an array built from a view");
  for (il::int_t i = 0; i < k0; ++i) REQUIRE(El<T>::get(col[i]) == fa.v[fa.pos(a0 + i, a1)], "array built from a view");
}

template <typename T>
void pick(pbt::Src& s, pbt::Ctx& c, unsigned k) {
  if (s.chance(1, 50)) {  // Views of nothing
    LOG("default views of " << El<T>::name());
    il::ArrayEdit<T> e;
    il::Array2DEdit<T> d;
    il::Array2CEdit<T> r;
    il::Array3DEdit<T> t;
    REQUIRE(il::ArrayView<T>().size() == 0 && e.size() == 0 && e.view().size() == 0 && e.Edit().size() == 0, "size of a default ArrayView");
    for (il::int_t k = 0; k < 2; ++k) {
      REQUIRE(il::Array2DView<T>().size(k) == 0 && d.size(k) == 0, "size of a default Array2DView");
      REQUIRE(il::Array2CView<T>().size(k) == 0 && r.size(k) == 0, "size of a default Array2CView");
    }
    for (il::int_t k = 0; k < 3; ++k) REQUIRE(il::Array3DView<T>().size(k) == 0 && t.size(k) == 0, "size of a default Array3DView");
  }
  switch (k) {
    case 0: views1<T>(s, c); break;
    case 1: array2d<T>(s, c); break;
    case 2: array2c<T>(s, c); break;
    case 3: static2d<T>(s, c); break;
    case 4: raw2<T>(s, c); break;
    case 5: raw3<T>(s, c); break;
    default: copies<T>(s, c);
  }
}
void run(pbt::Src& s, pbt::Ctx& c, unsigned k) {
  switch (s.draw(4)) {
    case 0: pick<double>(s, c, k); break;
    case 1: pick<short>(s, c, k); break;
    case 2: pick<std::string>(s, c, k); break;
    default: {
      vt::TrackedScope scope;
      pick<Tracked>(s, c, k);
      scope.finish(c);
    }
  }
}
}  // namespace

PROPERTY(views_1d, 3) { run(s, c, 0); }
PROPERTY(views_Array2D, 4) { run(s, c, 1); }
PROPERTY(views_Array2C, 4) { run(s, c, 2); }
PROPERTY(views_StaticArray2D, 1) { run(s, c, 3); }
PROPERTY(views_raw_2d, 3) { run(s, c, 4); }
PROPERTY(views_raw_3d, 2) { run(s, c, 5); }
PROPERTY(copy, 2) { run(s, c, 6); }
