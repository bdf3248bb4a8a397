// C18: norms against their definition, in extended precision.
#include <cmath>

#include <il/SparseMatrixCSR.h>
#include <il/linearAlgebra/dense/norm.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "vectors of 0 to 40 elements and dense, static, tridiagonal and sparse matrices "
    "of 0 to 8 rows and columns (now and then hundreds or thousands) are drawn, of any sign and of scales between 1e-60 "
    "and 1e60, some with spare capacity, with positive weights. Non-trivial: a "
    "negative element, and at least two elements";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 3000000;
    pbt::thorough_cases = 60000000;
  }
} init;

const il::Norm kinds[] = {il::Norm::L1, il::Norm::L2, il::Norm::Linf};
const char* names[] = {"L1", "L2", "Linf"};
using Real = long double;

double number(pbt::Src& s, double scale) {
  switch (s.draw(4)) {
    case 0: return 0.0;
    case 1: return static_cast<double>(s.range(-9, 9)) * scale;
    default: return s.unit() * scale;
  }
}
double aScale(pbt::Src& s) {
  const double scales[] = {1.0, 1e-60, 1e60, 1e-10, 1e10};
  return scales[s.weighted({6, 1, 1, 1, 1})];
}

Real reference(const std::vector<double>& v, const std::vector<double>& w, int k) {
  Real ans = 0;
  for (std::size_t i = 0; i < v.size(); ++i) {
    const Real x = std::fabs(static_cast<Real>(v[i]) / w[i]);
    if (k == 0) ans += x;
    if (k == 1) ans += x * x;
    if (k == 2) ans = std::max(ans, x);
  }
  return k == 1 ? std::sqrt(ans) : ans;
}
bool near(Real got, Real want, std::int64_t n) {
  return std::fabs(got - want) <= 4e-16L * (n + 4) * std::fabs(want);
}

PROPERTY(vectors, 3) {
  const std::int64_t n = s.more(40, s.chance(1, 10) ? 5000 : 400);
  const double scale = aScale(s);
  std::vector<double> v, w, one, u;
  il::Array<double> a{}, b{}, sum{}, weight{};
  a.Reserve(n + s.size(3));
  bool negative = false;
  for (std::int64_t i = 0; i < n; ++i) {
    v.push_back(number(s, scale));
    u.push_back(number(s, scale));
    w.push_back(s.coin() ? 1.0 : std::fabs(s.unit()) + 0.01);
    one.push_back(1.0);
    a.Append(v.back());
    b.Append(u.back());
    sum.Append(v.back() + u.back());
    weight.Append(w.back());
    negative = negative || v.back() < 0;
    LOG("v " << v.back() << ", weight " << w.back());
  }
  if (negative && n > 1) c.nontrivial = true;
  const double factor = static_cast<double>(s.range(-8, 8)) / 4.0;
  il::Array<double> scaled = a;
  for (il::int_t i = 0; i < n; ++i) scaled[i] *= factor;
  for (int k = 0; k < 3; ++k) {
    const Real want = reference(v, one, k);
    const double got = il::norm(a, kinds[k]);
    REQUIRE(near(got, want, n), names[k] << " norm " << got << " instead of " << static_cast<double>(want));
    const Real wanted = reference(v, w, k);
    const double gotw = il::norm(a, kinds[k], weight);
    REQUIRE(near(gotw, wanted, n), "weighted " << names[k] << " norm " << gotw << " instead of " << static_cast<double>(wanted));
    bool zero = true;
    for (double x : v) zero = zero && x == 0.0;
    REQUIRE((got == 0.0) == zero, names[k] << " norm " << got);
    const double gs = il::norm(scaled, kinds[k]);
    REQUIRE(near(gs, std::fabs(factor) * static_cast<Real>(got), n), names[k] << " norm of the vector times " << factor << " is " << gs << ", it was " << got);
    const Real nb = il::norm(b, kinds[k]);
    const double ns = il::norm(sum, kinds[k]);
    REQUIRE(ns <= (got + nb) * (1 + 1e-14L), names[k] << " norm of a sum " << ns << " above " << got << " + " << static_cast<double>(nb));
  }
  for (il::int_t i = 0; i < n; ++i) REQUIRE(a[i] == v[static_cast<std::size_t>(i)], "the vector was modified");
}

template <il::int_t n>
void fixed(pbt::Src& s, pbt::Ctx& c) {
  const double scale = aScale(s);
  std::vector<double> v, one;
  il::StaticArray<double, n> a;
  bool negative = false;
  for (il::int_t i = 0; i < n; ++i) {
    v.push_back(number(s, scale));
    one.push_back(1.0);
    a[i] = v.back();
    negative = negative || v.back() < 0;
    LOG("v " << v.back());
  }
  if (negative && n > 1) c.nontrivial = true;
  for (int k = 0; k < 3; ++k) {
    const Real want = reference(v, one, k);
    const double got = il::norm(a, kinds[k]);
    REQUIRE(near(got, want, n), names[k] << " norm " << got << " instead of " << static_cast<double>(want));
  }
}
PROPERTY(static_vectors, 2) {
  switch (s.draw(4)) {
    case 0: fixed<1>(s, c); break;
    case 1: fixed<2>(s, c); break;
    case 2: fixed<3>(s, c); break;
    default: fixed<9>(s, c); break;
  }
}

template <typename T>
void matrices(pbt::Src& s, pbt::Ctx& c, Real eps) {
  const std::int64_t n0 = s.more(8, 300);
  const std::int64_t n1 = n0 <= 8 ? s.more(8, 300) : s.size(12);
  eps *= 1 + static_cast<Real>(n0 + n1) / 16;
  const double scale = sizeof(T) == 8 ? aScale(s) : 1.0;
  il::Array2D<T> a{n0, n1};
  if (s.coin()) a.Reserve(n0 + s.size(3), n1 + s.size(3));
  std::vector<Real> row(static_cast<std::size_t>(n0), 0), col(static_cast<std::size_t>(n1), 0);
  bool negative = false;
  for (il::int_t j = 0; j < n1; ++j) {
    for (il::int_t i = 0; i < n0; ++i) {
      const T x = static_cast<T>(number(s, scale));
      a(i, j) = x;
      LOG("(" << i << ", " << j << ") = " << x);
      negative = negative || x < 0;
      row[static_cast<std::size_t>(i)] += std::fabs(static_cast<Real>(x));
      col[static_cast<std::size_t>(j)] += std::fabs(static_cast<Real>(x));
    }
  }
  if (negative && n0 + n1 > 2) c.nontrivial = true;
  Real l1 = 0, linf = 0;
  for (Real x : row) linf = std::max(linf, x);
  for (Real x : col) l1 = std::max(l1, x);
  const double g1 = il::norm(a, il::Norm::L1);
  const double gi = il::norm(a, il::Norm::Linf);
  REQUIRE(std::fabs(g1 - l1) <= eps * l1, "L1 norm " << g1 << " instead of " << static_cast<double>(l1));
  REQUIRE(std::fabs(gi - linf) <= eps * linf, "Linf norm " << gi << " instead of " << static_cast<double>(linf));
}
PROPERTY(matrices_double, 3) { matrices<double>(s, c, 1e-14L); }
PROPERTY(matrices_float, 1) { matrices<float>(s, c, 1e-5L); }

PROPERTY(tridiagonal, 2) {
  const std::int64_t n = s.more(9, 400);
  const double scale = aScale(s);
  il::TriDiagonal<double> a{n};
  Real want = 0;
  bool negative = false;
  for (il::int_t i = 0; i < n; ++i) {
    Real sum = 0;
    for (il::int_t k = -1; k <= 1; ++k) {
      if (i + k < 0 || i + k >= n) continue;
      const double x = number(s, scale);
      a(i, k) = x;
      LOG("(" << i << ", " << k << ") = " << x);
      sum += std::fabs(x);
      negative = negative || x < 0;
    }
    want = std::max(want, sum);
  }
  if (negative) c.nontrivial = true;
  // The storage out of the matrix may hold anything
  if (n > 0) {
    a(0, -1) = 1e300;
    a(n - 1, 1) = -1e300;
  }
  const double got = il::norm(a, il::Norm::Linf);
  REQUIRE(near(got, want, 4), "Linf norm " << got << " instead of " << static_cast<double>(want));
}

template <typename I>
void sparse(pbt::Src& s, pbt::Ctx& c) {
  const il::int_t n0 = s.more(7, 300);
  const il::int_t n1 = n0 <= 7 ? s.more(7, 300) : s.size(9);
  const double scale = aScale(s);
  il::Array<I> row{n0 + 1};
  il::Array<I> column{};
  il::Array<double> element{};
  il::Array<double> rows{n0}, cols{n1};
  for (il::int_t i = 0; i < n0; ++i) rows[i] = s.coin() ? 1.0 : std::fabs(s.unit()) + 0.01;
  for (il::int_t j = 0; j < n1; ++j) cols[j] = s.coin() ? 1.0 : std::fabs(s.unit()) + 0.01;
  row[0] = 0;
  Real want = 0;
  for (il::int_t i = 0; i < n0; ++i) {
    Real sum = 0;
    for (il::int_t j = 0; j < n1; ++j) {
      if (s.coin()) {
        const double x = number(s, scale);
        column.Append(static_cast<I>(j));
        element.Append(x);
        LOG("(" << i << ", " << j << ") = " << x);
        if (x < 0) c.nontrivial = true;
        sum += std::fabs(static_cast<Real>(x) * cols[j] / rows[i]);
      }
    }
    want = std::max(want, sum);
    row[i + 1] = static_cast<I>(column.size());
  }
  const il::SparseMatrixCSR<I, double> a{n0, n1, column, row, element};
  const double got = il::norm(a, il::Norm::Linf, rows, cols);
  REQUIRE(near(got, want, n1 + 4), "Linf norm " << got << " instead of " << static_cast<double>(want));
}
PROPERTY(sparse_int, 1) { sparse<int>(s, c); }
PROPERTY(sparse_integer, 1) { sparse<il::int_t>(s, c); }

}  // namespace
