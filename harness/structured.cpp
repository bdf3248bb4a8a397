// C15: triangular, band, tridiagonal and sparse matrices.
#include <map>
#include <memory>

#include <il/BandArray2C.h>
#include <il/LowerArray2D.h>
#include <il/SmallArray.h>
#include <il/SparseMatrixCSR.h>
#include <il/TriDiagonal.h>
#include <il/UpperArray2D.h>
#include <il/linearAlgebra/sparse/blas/sparseBlas.h>
#include <il/linearAlgebra/sparse/blas/sparseDot.h>

#include "common.h"

using vt::El;
using vt::Tracked;

namespace pbt {
const char* rule =
    "histories of up to 30 writes, copies, moves and assignments over 3 triangular, "
    "band or tridiagonal matrices against maps from positions to values, and sparse "
    "matrices of up to 9 rows built from lists of up to 40 positions against dense "
    "ones. Non-trivial: a matrix was assigned to one of another size, a list of "
    "positions has duplicates or an empty row, or a product of sparse matrices has "
    "a non-zero element";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 500000;
    pbt::thorough_cases = 20000000;
  }
} init;

using Pos = std::pair<il::int_t, il::int_t>;
using Entries = std::map<Pos, long>;

// ---------------------------------------------------------------- Triangular
template <typename M>
struct IsLower;
template <typename T>
struct IsLower<il::LowerArray2D<T>> { static constexpr bool value = true; using type = T; };
template <typename T>
struct IsLower<il::UpperArray2D<T>> { static constexpr bool value = false; using type = T; };

template <typename M>
struct Tri {
  std::unique_ptr<M> a;
  Entries m;  // The entries whose value is known
  il::int_t n = 0;
};

template <typename M>
void compare(pbt::Ctx& c, const Tri<M>& x, int k) {
  using T = typename IsLower<M>::type;
  const M& a = *x.a;
  REQUIRE(a.size() == x.n, "matrix " << k << ": size " << a.size() << " instead of " << x.n);
  REQUIRE(a.capacity() >= x.n, "matrix " << k << ": capacity " << a.capacity());
  if (x.n > 0) REQUIRE(x.a->Data() == &a(0, 0), "matrix " << k << ": Data() is not the first element");
  for (const auto& e : x.m) {
    const long got = El<T>::get(a(e.first.first, e.first.second));
    REQUIRE(got == e.second, "matrix " << k << ": (" << e.first.first << ", " << e.first.second << ") is " << got << " instead of " << e.second);
  }
  vt::trackedOk(c);
}

template <typename M>
void triangular(pbt::Src& s, pbt::Ctx& c) {
  using T = typename IsLower<M>::type;
  vt::TrackedScope scope{};
  {
    std::vector<Tri<M>> x(3);
    for (auto& e : x) e.a.reset(new M{});
    const std::int64_t steps = 1 + s.size(29);
    long next = 1;
    for (std::int64_t step = 0; step < steps; ++step) {
      const int k = static_cast<int>(s.draw(3));
      const int l = static_cast<int>(s.draw(3));
      Tri<M>& e = x[k];
      switch (s.weighted({5, 8, 3, 5, 3, 2})) {
        case 0: {
          e.n = s.size(7);
          LOG(k << " = " << e.n << " x " << e.n);
          e.a.reset(new M{e.n});
          e.m.clear();
          for (il::int_t i = 0; i < e.n; ++i) {
            for (il::int_t j = 0; j < e.n; ++j) {
              if (IsLower<M>::value ? j <= i : i <= j) {
                if (il::isTrivial<T>::value) {
                  next = next % (El<T>::values - 2) + 1;
                  (*e.a)(i, j) = El<T>::make(next);
                  e.m[Pos(i, j)] = next;
                } else {
                  e.m[Pos(i, j)] = El<T>::def;
                }
              }
            }
          }
          break;
        }
        case 1: {
          if (e.n == 0) break;
          il::int_t i = s.range(0, e.n - 1);
          il::int_t j = s.range(0, e.n - 1);
          if (IsLower<M>::value ? j > i : i > j) std::swap(i, j);
          next = next % (El<T>::values - 2) + 1;
          LOG(k << "(" << i << ", " << j << ") = " << next);
          (*e.a)(i, j) = El<T>::make(next);
          e.m[Pos(i, j)] = next;
          break;
        }
        case 2: {
          LOG(k << " = new copy of " << l);
          std::unique_ptr<M> y(new M{*x[l].a});
          e.a = std::move(y);
          e.m = Entries(x[l].m);
          e.n = x[l].n;
          break;
        }
        case 3: {
          LOG(k << " = copy of " << l << ", " << e.n << " <- " << x[l].n);
          if (e.n != x[l].n) c.nontrivial = true;
          *e.a = *x[l].a;
          e.m = Entries(x[l].m);
          e.n = x[l].n;
          break;
        }
        case 4: {
          LOG(k << " = move of " << l);
          if (e.n != x[l].n) c.nontrivial = true;
          *e.a = std::move(*x[l].a);
          if (k != l) {
            e.m = x[l].m;
            e.n = x[l].n;
            REQUIRE(x[l].a->size() == 0, "size " << x[l].a->size() << " after a move");
            x[l].m.clear();
            x[l].n = 0;
          }
          break;
        }
        default: {
          LOG(k << " = new move of " << l);
          std::unique_ptr<M> y(new M{std::move(*x[l].a)});
          const Entries m = x[l].m;
          const il::int_t n = x[l].n;
          x[l].m.clear();
          x[l].n = 0;
          e.a = std::move(y);
          if (k == l) {
            e.m = m;
            e.n = n;
          } else {
            e.m = m;
            e.n = n;
          }
          break;
        }
      }
      for (int q = 0; q < 3; ++q) compare(c, x[q], q);
    }
  }
  scope.finish(c);
}
PROPERTY(lower_int, 3) { triangular<il::LowerArray2D<int>>(s, c); }
PROPERTY(upper_double, 3) { triangular<il::UpperArray2D<double>>(s, c); }
PROPERTY(lower_tracked, 3) { triangular<il::LowerArray2D<Tracked>>(s, c); }
PROPERTY(upper_tracked, 3) { triangular<il::UpperArray2D<Tracked>>(s, c); }
PROPERTY(lower_string, 1) { triangular<il::LowerArray2D<std::string>>(s, c); }

// ---------------------------------------------------------------------- Band
template <typename T>
struct Band {
  std::unique_ptr<il::BandArray2C<T>> a;
  il::int_t n0, n1, left, right;
  std::map<Pos, double> m;
};
template <typename T>
Band<T> newBand(pbt::Src& s, pbt::Ctx& c) {
  Band<T> b;
  if (s.coin()) {
    b.n0 = s.more(9, 40);
    b.n1 = b.n0;
    b.left = s.more(4, 14);
    b.right = b.left;
    b.a.reset(new il::BandArray2C<T>{b.n0, b.left});
  } else {
    b.n0 = s.more(9, 40);
    b.n1 = s.more(9, 40);
    b.left = s.more(4, 14);
    b.right = s.more(4, 14);
    b.a.reset(new il::BandArray2C<T>{b.n0, b.n1, b.left, b.right});
  }
  LOG("band matrix " << b.n0 << " x " << b.n1 << ", widths " << b.left << " and " << b.right);
  for (il::int_t i = 0; i < b.n0; ++i)
    for (il::int_t k = -b.left; k <= b.right; ++k)
      if (i + k >= 0 && i + k < b.n1) b.m[Pos(i, k)] = 0.0;
  return b;
}
template <typename T>
void compare(pbt::Ctx& c, const Band<T>& b, int q) {
  const il::BandArray2C<T>& a = *b.a;
  REQUIRE(a.size(0) == b.n0 && a.size(1) == b.n1, "matrix " << q << ": sizes " << a.size(0) << ", " << a.size(1));
  REQUIRE(a.widthLeft() == b.left && a.widthRight() == b.right, "matrix " << q << ": widths " << a.widthLeft() << ", " << a.widthRight());
  // The room needed by the factorization
  REQUIRE(a.capacityRight() >= b.left + b.right, "matrix " << q << ": capacity " << a.capacityRight());
  for (const auto& e : b.m)
    REQUIRE(a(e.first.first, e.first.second) == static_cast<T>(e.second), "matrix " << q << ": (" << e.first.first << ", " << e.first.second << ") is " << a(e.first.first, e.first.second) << " instead of " << e.second);
}
template <typename T>
void band(pbt::Src& s, pbt::Ctx& c) {
  std::vector<Band<T>> x;
  for (int q = 0; q < 3; ++q) x.push_back(newBand<T>(s, c));
  const std::int64_t steps = s.size(30);
  for (std::int64_t step = 0; step < steps; ++step) {
    const std::size_t q = s.draw(3);
    const std::size_t l = s.draw(3);
    switch (s.weighted({10, 2, 2, 1})) {
      case 0: {
        if (x[q].m.empty()) break;
        auto it = x[q].m.begin();
        std::advance(it, static_cast<long>(s.draw(x[q].m.size())));
        it->second = static_cast<double>(s.range(-1000, 1000));
        LOG(q << "(" << it->first.first << ", " << it->first.second << ") = " << it->second);
        (*x[q].a)(it->first.first, it->first.second) = static_cast<T>(it->second);
        break;
      }
      case 1:
      case 2: {
        LOG(q << " = copy of " << l);
        c.nontrivial = true;
        if (s.coin()) {
          *x[q].a = *x[l].a;
        } else {
          x[q].a.reset(new il::BandArray2C<T>(il::BandArray2C<T>(*x[l].a)));
        }
        x[q].n0 = x[l].n0; x[q].n1 = x[l].n1; x[q].left = x[l].left; x[q].right = x[l].right;
        x[q].m = std::map<Pos, double>(x[l].m);
        break;
      }
      default: x[q] = newBand<T>(s, c); break;
    }
    for (int k = 0; k < 3; ++k) compare(c, x[static_cast<std::size_t>(k)], k);
  }
  for (int k = 0; k < 3; ++k) compare(c, x[static_cast<std::size_t>(k)], k);
}
PROPERTY(band_double, 2) { band<double>(s, c); }
PROPERTY(band_int, 1) { band<int>(s, c); }

// --------------------------------------------------------------- Tridiagonal
PROPERTY(tridiagonal, 2) {
  std::vector<il::TriDiagonal<double>> a;
  std::vector<std::map<Pos, double>> m(2);
  for (int q = 0; q < 2; ++q) a.emplace_back(s.size(8));
  const std::int64_t steps = s.size(40);
  for (std::int64_t step = 0; step < steps; ++step) {
    const std::size_t q = s.draw(2);
    if (s.chance(1, 8)) {
      if (a[q].size() != a[1 - q].size()) c.nontrivial = true;
      LOG(q << " = copy of " << 1 - q);
      a[q] = a[1 - q];
      m[q] = m[1 - q];
    } else if (a[q].size() > 0) {
      const il::int_t i = s.range(0, a[q].size() - 1);
      const il::int_t k = s.range(-1, 1);
      if (i + k < 0 || i + k >= a[q].size()) continue;
      const double v = s.smallDouble();
      LOG(q << "(" << i << ", " << k << ") = " << v);
      a[q](i, k) = v;
      m[q][Pos(i, k)] = v;
    }
    for (std::size_t r = 0; r < 2; ++r) {
      for (const auto& e : m[r]) {
        const il::int_t i = e.first.first;
        const il::TriDiagonal<double>& b = a[r];
        REQUIRE(b(i, e.first.second) == e.second, "matrix " << r << ": (" << i << ", " << e.first.second << ") is " << b(i, e.first.second) << " instead of " << e.second);
        // The layout LAPACK is given
        const double raw = e.first.second == 0 ? a[r].DiagonalData()[i] : e.first.second == 1 ? a[r].UpperData()[i] : a[r].LowerData()[i - 1];
        REQUIRE(raw == e.second, "matrix " << r << ": raw data of (" << i << ", " << e.first.second << ") is " << raw << " instead of " << e.second);
      }
    }
  }
}

// -------------------------------------------------------------------- Sparse
using Dense = std::vector<std::vector<double>>;

template <typename I>
struct Sparse {
  il::SparseMatrixCSR<I, double> a;
  Dense m;
  std::vector<std::vector<I>> columns;  // of every row
};

template <typename I>
void compare(pbt::Ctx& c, const Sparse<I>& x, const std::string& w, bool sorted = true) {
  const il::SparseMatrixCSR<I, double>& a = x.a;
  const il::int_t n0 = static_cast<il::int_t>(x.columns.size());
  REQUIRE(a.size(0) == n0, w << ": size(0) " << a.size(0));
  std::size_t nnz = 0;
  for (const auto& r : x.columns) nnz += r.size();
  REQUIRE(a.nbNonZeros() == static_cast<il::int_t>(nnz), w << ": " << a.nbNonZeros() << " non-zeros instead of " << nnz);
  REQUIRE(a.row(0) == 0, w << ": the first row begins at " << a.row(0));
  for (il::int_t i = 0; i < n0; ++i) {
    const auto& col = x.columns[static_cast<std::size_t>(i)];
    REQUIRE(a.row(i + 1) - a.row(i) == static_cast<I>(col.size()), w << ": row " << i << " has " << a.row(i + 1) - a.row(i) << " entries instead of " << col.size());
    for (il::int_t k = 0; k < static_cast<il::int_t>(col.size()); ++k) {
      const il::int_t p = a.row(i) + k;
      if (sorted) {
        REQUIRE(a.column(p) == col[static_cast<std::size_t>(k)], w << ": entry " << k << " of row " << i << " is in column " << a.column(p) << " instead of " << col[static_cast<std::size_t>(k)]);
      }
      const double want = x.m[static_cast<std::size_t>(i)][static_cast<std::size_t>(a.column(p))];
      REQUIRE(a(i, k) == want && a[p] == want && a.element(p) == want && a.elementData()[p] == want, w << ": entry " << k << " of row " << i << " is " << a(i, k) << " instead of " << want);
      REQUIRE(a.columnData()[p] == a.column(p) && a.rowData()[i] == a.row(i), w << ": raw data");
    }
  }
}

// From a list of positions
template <typename I>
Sparse<I> fromPositions(pbt::Src& s, pbt::Ctx& c, il::int_t n) {
  std::vector<std::pair<I, I>> pos;
  const std::int64_t nb = n == 0 ? 0 : s.chance(1, 30) ? s.range(100, 700) : s.size(40);
  il::Array<il::StaticArray<I, 2>> position{};
  for (std::int64_t l = 0; l < nb; ++l) {
    const I i = static_cast<I>(s.range(0, n - 1));
    const I j = static_cast<I>(s.range(0, n - 1));
    pos.emplace_back(i, j);
    il::StaticArray<I, 2> p;
    p[0] = i;
    p[1] = j;
    position.Append(p);
    LOG("entry (" << i << ", " << j << ")");
  }
  il::Array<I> index{static_cast<il::int_t>(s.chance(1, 4) ? s.range(0, 60) : 0), static_cast<I>(3)};  // What it held does not matter
  Sparse<I> x{il::SparseMatrixCSR<I, double>{n, position, il::io, index}, Dense(static_cast<std::size_t>(n), std::vector<double>(static_cast<std::size_t>(n), 0.0)), {}};
  x.columns.resize(static_cast<std::size_t>(n));
  std::map<std::pair<I, I>, bool> distinct;
  for (const auto& p : pos) distinct[p] = true;
  if (distinct.size() < pos.size()) c.nontrivial = true;
  for (const auto& p : distinct) x.columns[static_cast<std::size_t>(p.first.first)].push_back(p.first.second);
  for (const auto& r : x.columns)
    if (r.empty()) c.nontrivial = true;
  REQUIRE(x.a.size(1) == n, "size(1) " << x.a.size(1));
  compare(c, x, "new matrix");
  REQUIRE(index.size() == nb, "index of size " << index.size());
  // Fill it as an assembly does
  for (il::int_t l = 0; l < nb; ++l) {
    const double v = static_cast<double>(s.range(-9, 9));
    REQUIRE(index[l] >= 0 && index[l] < x.a.nbNonZeros(), "index " << index[l]);
    x.a[index[l]] += v;
    x.m[static_cast<std::size_t>(pos[static_cast<std::size_t>(l)].first)][static_cast<std::size_t>(pos[static_cast<std::size_t>(l)].second)] += v;
  }
  compare(c, x, "matrix");
  return x;
}

// From compressed rows, rectangular
template <typename I>
Sparse<I> fromRows(pbt::Src& s, pbt::Ctx& c, il::int_t n0, il::int_t n1) {
  Dense m(static_cast<std::size_t>(n0), std::vector<double>(static_cast<std::size_t>(n1), 0.0));
  std::vector<std::vector<I>> columns(static_cast<std::size_t>(n0));
  il::Array<I> row{n0 + 1};
  il::Array<I> column{};
  il::Array<double> element{};
  const unsigned density = static_cast<unsigned>(s.range(1, 4));
  row[0] = 0;
  for (il::int_t i = 0; i < n0; ++i) {
    for (il::int_t j = 0; j < n1; ++j) {
      if (s.chance(density, 5)) {
        const double v = static_cast<double>(s.range(-9, 9));
        column.Append(static_cast<I>(j));
        element.Append(v);
        columns[static_cast<std::size_t>(i)].push_back(static_cast<I>(j));
        m[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)] = v;
      }
    }
    row[i + 1] = static_cast<I>(column.size());
    if (row[i + 1] == row[i]) c.nontrivial = true;
  }
  LOG("matrix " << n0 << " x " << n1 << " with " << column.size() << " entries");
  if (s.coin()) {
    Sparse<I> x{il::SparseMatrixCSR<I, double>{n0, n1, column, row, element}, m, columns};
    REQUIRE(x.a.size(1) == n1, "size(1) " << x.a.size(1));
    compare(c, x, "matrix from rows");
    return x;
  }
  Sparse<I> x{il::SparseMatrixCSR<I, double>{n0, n1, std::move(column), std::move(row)}, m, columns};
  REQUIRE(x.a.size(1) == n1, "size(1) " << x.a.size(1));
  for (il::int_t i = 0; i < n0; ++i)
    for (il::int_t k = 0; k < static_cast<il::int_t>(columns[static_cast<std::size_t>(i)].size()); ++k)
      x.a(i, k) = m[static_cast<std::size_t>(i)][static_cast<std::size_t>(columns[static_cast<std::size_t>(i)][static_cast<std::size_t>(k)])];
  compare(c, x, "matrix from rows");
  return x;
}

// From small arrays of columns
Sparse<il::int_t> fromSmall(pbt::Src& s, pbt::Ctx& c, il::int_t n0, il::int_t n1) {
  Sparse<il::int_t> r = fromRows<il::int_t>(s, c, n0, n1);
  il::Array<il::SmallArray<il::int_t, 3>> column{n0};
  for (il::int_t i = 0; i < n0; ++i)
    for (il::int_t j : r.columns[static_cast<std::size_t>(i)]) column[i].Append(j);
  Sparse<il::int_t> x{il::SparseMatrixCSR<il::int_t, double>{n1, n0, column}, r.m, r.columns};
  for (il::int_t i = 0; i < n0; ++i)
    for (il::int_t k = 0; k < column[i].size(); ++k) x.a(i, k) = r.m[static_cast<std::size_t>(i)][static_cast<std::size_t>(column[i][k])];
  REQUIRE(x.a.size(1) == n1, "size(1) " << x.a.size(1));
  compare(c, x, "matrix from small arrays");
  return x;
}

il::Array<double> vec(pbt::Src& s, il::int_t n) {
  il::Array<double> x{n};
  for (il::int_t i = 0; i < n; ++i) x[i] = static_cast<double>(s.range(-9, 9));
  return x;
}

template <typename I>
void product(pbt::Src& s, pbt::Ctx& c, const Sparse<I>& x) {
  const il::int_t n0 = x.a.size(0);
  const il::int_t n1 = x.a.size(1);
  const il::Array<double> v = vec(s, n1);
  il::Array<double> y = vec(s, n0);
  const il::Array<double> y0 = y;
  const double alpha = static_cast<double>(s.range(-2, 2));
  const double beta = static_cast<double>(s.range(-2, 2));
  il::blas(alpha, x.a, v, beta, il::io, y);
  for (il::int_t i = 0; i < n0; ++i) {
    double want = beta * y0[i];
    for (il::int_t j = 0; j < n1; ++j) want += alpha * x.m[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)] * v[j];
    REQUIRE(y[i] == want, "component " << i << " of the product is " << y[i] << " instead of " << want);
  }
  compare(c, x, "after the product");
  // Weighted norm
  il::Array<double> rows{n0, 1.0};
  il::Array<double> cols{n1, 1.0};
  for (il::int_t i = 0; i < n0; ++i) rows[i] = static_cast<double>(1 << s.range(0, 3));
  for (il::int_t j = 0; j < n1; ++j) cols[j] = static_cast<double>(1 << s.range(0, 3));
  double want = 0.0;
  for (il::int_t i = 0; i < n0; ++i) {
    double sum = 0.0;
    for (il::int_t j = 0; j < n1; ++j) sum += std::fabs(x.m[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)]) * cols[j] / rows[i];
    want = std::max(want, sum);
  }
  const double got = il::norm(x.a, il::Norm::Linf, rows, cols);
  REQUIRE(got == want, "norm " << got << " instead of " << want);
}

template <typename I>
void sparse(pbt::Src& s, pbt::Ctx& c) {
  auto make = [&]() -> Sparse<I> {
    switch (s.draw(3)) {
      case 0: return fromPositions<I>(s, c, s.more(9, 40));
      default: return fromRows<I>(s, c, s.size(6), s.size(6));
    }
  };
  Sparse<I> x = make();
  Sparse<I> y = make();
  const std::int64_t steps = s.size(8);
  for (std::int64_t step = 0; step < steps; ++step) {
    switch (s.draw(5)) {
      case 0: LOG("x = y"); x = y; break;
      case 1: {
        LOG("y = new copy of x");
        const Sparse<I> z = x;
        y = z;
        break;
      }
      case 2: {
        if (x.a.nbNonZeros() == 0) break;
        const il::int_t k = s.range(0, x.a.nbNonZeros() - 1);
        il::int_t i = 0;
        while (x.a.row(i + 1) <= k) ++i;
        const double v = static_cast<double>(s.range(-9, 9));
        LOG("x[" << k << "] = " << v);
        if (s.coin()) {
          x.a[k] = v;
        } else {
          x.a.ElementData()[k] = v;
        }
        x.m[static_cast<std::size_t>(i)][static_cast<std::size_t>(x.a.column(k))] = v;
        break;
      }
      case 3: {
        LOG("x = move of y");
        x = std::move(y);
        y = make();
        break;
      }
      default: product(s, c, x); break;
    }
    compare(c, x, "x");
    compare(c, y, "y");
  }
  product(s, c, x);
}
PROPERTY(sparse_int, 3) { sparse<int>(s, c); }
PROPERTY(sparse_integer, 2) { sparse<il::int_t>(s, c); }
PROPERTY(sparse_small_arrays, 1) {
  const Sparse<il::int_t> x = fromSmall(s, c, s.size(6), s.size(6));
  product(s, c, x);
}

// Through the library of the vendor
PROPERTY(sparse_blas, 2) {
  // It refuses empty matrices
  Sparse<int> x = fromRows<int>(s, c, 1 + s.size(5), 1 + s.size(5));
  if (x.a.nbNonZeros() == 0) throw pbt::Discard{};
  const il::Array<double> v = vec(s, x.a.size(1));
  il::Array<double> y = vec(s, x.a.size(0));
  const il::Array<double> y0 = y;
  const double alpha = static_cast<double>(s.range(-2, 2));
  const double beta = static_cast<double>(s.range(-2, 2));
  {
    il::SparseMatrixBlas<int, double> b{il::io, x.a};
    if (s.coin()) b.setNbMatrixVector(s.range(1, 100));
    il::blas(alpha, b, v, beta, il::io, y);
  }
  for (il::int_t i = 0; i < x.a.size(0); ++i) {
    double want = beta * y0[i];
    for (il::int_t j = 0; j < x.a.size(1); ++j) want += alpha * x.m[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)] * v[j];
    REQUIRE(std::fabs(y[i] - want) <= 1e-9, "component " << i << " of the product is " << y[i] << " instead of " << want);
  }
  compare(c, x, "after the product");
  // In single precision: every number here is a small integer, hence exact
  il::Array<int> row{x.a.size(0) + 1};
  il::Array<int> column{};
  il::Array<float> element{};
  for (il::int_t i = 0; i <= x.a.size(0); ++i) row[i] = x.a.row(i);
  for (int k = 0; k < static_cast<int>(x.a.nbNonZeros()); ++k) {
    column.Append(x.a.column(k));
    element.Append(static_cast<float>(x.a[k]));
  }
  il::SparseMatrixCSR<int, float> f{x.a.size(0), x.a.size(1), column, row, element};
  il::Array<float> vf{v.size()};
  for (il::int_t j = 0; j < v.size(); ++j) vf[j] = static_cast<float>(v[j]);
  il::Array<float> yf{y.size()};
  for (il::int_t i = 0; i < y.size(); ++i) yf[i] = static_cast<float>(y0[i]);
  {
    il::SparseMatrixBlas<int, float> b{il::io, f};
    if (s.coin()) b.setNbMatrixVector(s.range(1, 100));
    il::blas(static_cast<float>(alpha), b, vf, static_cast<float>(beta), il::io, yf);
  }
  for (il::int_t i = 0; i < x.a.size(0); ++i) {
    double want = beta * y0[i];
    for (il::int_t j = 0; j < x.a.size(1); ++j) want += alpha * x.m[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)] * v[j];
    REQUIRE(std::fabs(yf[i] - want) <= 1e-2, "component " << i << " of the product of floats is " << yf[i] << " instead of " << want);
  }
}

PROPERTY(sparse_dot, 2) {
  const il::int_t n = 1 + s.more(4, 14);
  Sparse<int> x = fromRows<int>(s, c, 1 + s.more(4, 14), n);
  Sparse<int> y = fromRows<int>(s, c, n, 1 + s.more(4, 14));
  if (x.a.nbNonZeros() == 0 || y.a.nbNonZeros() == 0) throw pbt::Discard{};
  const bool square = x.a.size(0) == n && s.chance(1, 3);
  Sparse<int>& z = square ? x : y;
  const il::SparseMatrixCSR<int, double> p = il::dot(il::io, x.a, z.a);
  REQUIRE(p.size(0) == x.a.size(0) && p.size(1) == z.a.size(1), "sizes " << p.size(0) << " x " << p.size(1));
  Dense m(static_cast<std::size_t>(p.size(0)), std::vector<double>(static_cast<std::size_t>(p.size(1)), 0.0));
  for (il::int_t i = 0; i < p.size(0); ++i) {
    for (int k = p.row(i); k < p.row(i + 1); ++k) {
      REQUIRE(p.column(k) >= 0 && p.column(k) < p.size(1), "column " << p.column(k));
      m[static_cast<std::size_t>(i)][static_cast<std::size_t>(p.column(k))] += p[k];
    }
  }
  for (il::int_t i = 0; i < p.size(0); ++i) {
    for (il::int_t j = 0; j < p.size(1); ++j) {
      double want = 0.0;
      for (il::int_t k = 0; k < n; ++k) want += x.m[static_cast<std::size_t>(i)][static_cast<std::size_t>(k)] * z.m[static_cast<std::size_t>(k)][static_cast<std::size_t>(j)];
      if (want != 0.0) c.nontrivial = true;
      REQUIRE(std::fabs(m[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)] - want) <= 1e-9, "element (" << i << ", " << j << ") of the product is " << m[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)] << " instead of " << want);
    }
  }
  compare(c, x, "the left matrix after the product");
  compare(c, y, "the right matrix after the product");
}

}  // namespace
