// C19: direct dense solvers and factorizations.
#include <cmath>
#include <complex>
#include <limits>

#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/math.h>
#include <il/linearAlgebra/dense/factorization/Cholesky.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
#include <il/linearAlgebra/dense/blas/solve.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "systems of 1 to 12 unknowns (now and then up to 150) are drawn: diagonally dominant "
    "matrices with permuted rows, random ones, integer ones, symmetric positive definite, "
    "band, tridiagonal and triangular ones, with spare capacity or as sub-matrices of larger "
    "ones full of NaN, and exactly singular ones. Non-trivial: the rows have to be exchanged, "
    "the storage is padded, or the matrix is singular";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 400000;
    pbt::thorough_cases = 12000000;
  }
} init;

using Cd = std::complex<double>;
using Real = long double;

template <typename T> struct Wide;
template <> struct Wide<double> { using type = long double; };
template <> struct Wide<Cd> { using type = std::complex<long double>; };
long double wide(double x) { return x; }
std::complex<long double> wide(Cd x) { return std::complex<long double>(x.real(), x.imag()); }
Real mag(long double x) { return std::fabs(x); }
Real mag(const std::complex<long double>& x) { return std::abs(x); }
template <typename T> T make(double re, double im);
template <> double make<double>(double re, double) { return re; }
template <> Cd make<Cd>(double re, double im) { return Cd(re, im); }
template <typename T> T draw(pbt::Src& s) {
  const double re = s.unit();
  return make<T>(re, std::is_same<T, double>::value ? 0.0 : s.unit());
}
template <typename T> T bad() {
  const double nan = std::numeric_limits<double>::quiet_NaN();
  return make<T>(nan, nan);
}

// A plain matrix
template <typename T>
struct Model {
  il::int_t m = 0, n = 0;
  std::vector<T> a;
  Model(il::int_t m_, il::int_t n_) : m{m_}, n{n_}, a(m_ * n_) {}
  T& operator()(il::int_t i, il::int_t j) { return a[i * n + j]; }
  const T& operator()(il::int_t i, il::int_t j) const { return a[i * n + j]; }
  Real normInf() const {
    Real ans = 0;
    for (il::int_t i = 0; i < m; ++i) {
      Real r = 0;
      for (il::int_t j = 0; j < n; ++j) r += mag(wide((*this)(i, j)));
      ans = std::max(ans, r);
    }
    return ans;
  }
  Real norm1() const {
    Real ans = 0;
    for (il::int_t j = 0; j < n; ++j) {
      Real r = 0;
      for (il::int_t i = 0; i < m; ++i) r += mag(wide((*this)(i, j)));
      ans = std::max(ans, r);
    }
    return ans;
  }
  void log(pbt::Ctx& c, const char* what) const {
    if (!c.trace) return;
    c.log << what << " (" << m << " x " << n << "):";
    for (il::int_t i = 0; i < m && i < 9; ++i) {
      for (il::int_t j = 0; j < n && j < 9; ++j) c.log << " " << (*this)(i, j);
      c.log << ";";
    }
    c.log << "\n";
  }
};

il::int_t aSize(pbt::Src& s) { return s.chance(1, 20) ? s.range(13, s.chance(1, 10) ? 150 : 40) : 1 + s.size(11); }

std::vector<il::int_t> permutation(pbt::Src& s, il::int_t n) {
  std::vector<il::int_t> p;
  for (il::int_t i = 0; i < n; ++i) p.push_back(i);
  if (s.chance(1, 4)) return p;
  for (il::int_t i = n - 1; i > 0; --i) std::swap(p[i], p[i - s.draw(i + 1)]);
  return p;
}
bool isIdentity(const std::vector<il::int_t>& p) {
  for (std::size_t i = 0; i < p.size(); ++i) if (p[i] != static_cast<il::int_t>(i)) return false;
  return true;
}

// Column diagonally dominant up to a permutation of the rows: the norm of the
// inverse is at most 1 and partial pivoting does not let the elements grow
template <typename T>
Model<T> dominant(pbt::Src& s, pbt::Ctx& c, il::int_t n) {
  Model<T> b(n, n);
  const bool sparse = s.coin();
  for (il::int_t j = 0; j < n; ++j) {
    Real sum = 1;
    for (il::int_t i = 0; i < n; ++i) {
      if (i == j || (sparse && s.coin())) continue;
      b(i, j) = draw<T>(s);
      sum += mag(wide(b(i, j)));
    }
    b(j, j) = make<T>(static_cast<double>(sum) * (s.coin() ? 1 : -1), 0.0);
  }
  const std::vector<il::int_t> p = permutation(s, n);
  if (!isIdentity(p)) c.nontrivial = true;
  Model<T> a(n, n);
  for (il::int_t i = 0; i < n; ++i) for (il::int_t j = 0; j < n; ++j) a(p[i], j) = b(i, j);
  return a;
}
// A matrix that is found to be singular whatever the rounding: a zero row or
// column, or a triangular one with a zero on the diagonal, rows exchanged
template <typename T>
Model<T> singular(pbt::Src& s, il::int_t n, il::int_t* first = nullptr) {
  Model<T> a(n, n);
  const int kind = static_cast<int>(s.draw(4));
  const il::int_t k = s.range(0, n - 1);
  // Number of columns before the first zero pivot, -1 if it might depend on
  // the rounding
  il::int_t zero = kind == 2 ? n : kind == 3 ? 0 : -1;
  std::vector<il::int_t> p = permutation(s, n);
  for (il::int_t i = 0; i < n; ++i) {
    for (il::int_t j = 0; j < n; ++j) {
      T x = draw<T>(s);
      if (kind == 0 && i == k) x = T(0);
      if (kind == 1 && j == k) x = T(0);
      if (kind == 2 && (i > j || (i == j && i == k))) x = T(0);
      if (kind == 3) x = T(0);
      if (kind == 2 && i == j && x == T(0) && i < zero) zero = i;
      a(p[i], j) = x;
    }
  }
  if (first) *first = zero;
  return a;
}
// What is told of a singular matrix
void toldSingular(pbt::Ctx& c, const il::Status& status, il::int_t rank) {
  REQUIRE(status.error() == il::Error::MatrixSingular, "error " << static_cast<int>(status.error()) << " for a singular matrix");
  REQUIRE(status.domain() == il::ErrorDomain::Matrix, "domain of the error of a singular matrix");
  if (rank >= 0) {
    const il::int_t r = status.toInteger("rank");
    REQUIRE(r == rank, "rank " << r << " for a matrix whose first zero pivot is the number " << rank);
  }
}

// Containers with spare capacity
template <typename A, typename T>
A build2(pbt::Src& s, pbt::Ctx& c, const Model<T>& a) {
  A ans{};
  if (s.coin()) {
    const il::int_t r0 = s.range(0, 3), r1 = s.range(0, 3);
    ans.Reserve(a.m + r0, a.n + r1);
    if (r0 + r1 > 0) c.nontrivial = true;
  }
  ans.Resize(a.m, a.n);
  for (il::int_t i = 0; i < a.m; ++i) for (il::int_t j = 0; j < a.n; ++j) ans(i, j) = a(i, j);
  return ans;
}
template <typename T>
il::Array<T> build1(const std::vector<T>& v) {
  il::Array<T> ans{static_cast<il::int_t>(v.size())};
  for (std::size_t i = 0; i < v.size(); ++i) ans[i] = v[i];
  return ans;
}
template <typename T>
std::vector<T> aVector(pbt::Src& s, il::int_t n) {
  std::vector<T> v;
  for (il::int_t i = 0; i < n; ++i) v.push_back(draw<T>(s));
  return v;
}
template <typename A, typename T>
void same2(pbt::Ctx& c, const A& got, const Model<T>& a, const char* what) {
  REQUIRE(got.size(0) == a.m && got.size(1) == a.n, what << ": size changed");
  for (il::int_t i = 0; i < a.m; ++i) for (il::int_t j = 0; j < a.n; ++j) {
    REQUIRE(std::memcmp(&got(i, j), &a(i, j), sizeof(T)) == 0, what << ": (" << i << ", " << j << ") was changed");
  }
}
template <typename T>
void same1(pbt::Ctx& c, const il::Array<T>& got, const std::vector<T>& v, const char* what) {
  REQUIRE(got.size() == static_cast<il::int_t>(v.size()), what << ": size changed");
  for (il::int_t i = 0; i < got.size(); ++i) REQUIRE(std::memcmp(&got[i], &v[i], sizeof(T)) == 0, what << ": [" << i << "] was changed");
}

// A.x = y up to a backward error: 2^11 is the largest growth of the elements
// for 12 rows, and all larger matrices are diagonally dominant
template <typename T, typename X, typename Y>
void residual(pbt::Ctx& c, const Model<T>& a, const X& x, const Y& y, const char* what, double tol = 1e-9) {
  Real nx = 0, ny = 0;
  for (il::int_t i = 0; i < a.n; ++i) nx = std::max(nx, mag(wide(x[i])));
  for (il::int_t i = 0; i < a.m; ++i) ny = std::max(ny, mag(wide(y[i])));
  for (il::int_t i = 0; i < a.n; ++i) REQUIRE(mag(wide(x[i])) <= nx, what << ": x[" << i << "] is " << x[i]);
  const Real scale = a.normInf() * nx + ny;
  for (il::int_t i = 0; i < a.m; ++i) {
    typename Wide<T>::type r = -wide(y[i]);
    for (il::int_t j = 0; j < a.n; ++j) r += wide(a(i, j)) * wide(x[j]);
    REQUIRE(mag(r) <= tol * scale, what << ": the residual of row " << i << " is " << static_cast<double>(mag(r)) << " for a system of norm " << static_cast<double>(scale));
  }
}
template <typename M>
struct Col {
  const M& m;
  il::int_t j;
  auto operator[](il::int_t i) const -> decltype(m(i, j)) { return m(i, j); }
};
template <typename M>
Col<M> col(const M& m, il::int_t j) { return Col<M>{m, j}; }

double tolOf(il::int_t n) { return 1e-15 * (n + 10) * 20; }

// ------------------------------------------------------------- Linear solvers
template <typename M>
void dense(pbt::Src& s, pbt::Ctx& c) {
  const il::int_t n = aSize(s);
  const bool sing = s.chance(1, 5);
  const bool dom = !sing && (n > 12 || s.coin());
  Model<double> a(n, n);
  if (sing) {
    a = singular<double>(s, n);
    c.nontrivial = true;
    c.tag("singular");
  } else if (dom) {
    a = dominant<double>(s, c, n);
  } else {
    for (auto& x : a.a) x = s.unit();
  }
  const double scales[] = {1.0, 1e-100, 1e100};
  const double scale = scales[s.weighted({6, 1, 1})];
  for (auto& x : a.a) x *= scale;
  const std::vector<double> y = aVector<double>(s, n);
  a.log(c, "A");
  const M A = build2<M>(s, c, a);
  const il::Array<double> Y = build1(y);
  il::Status status{};
  const il::Array<double> x = il::linearSolve(A, Y, il::io, status);
  const bool ok = status.Ok();
  same2(c, A, a, "matrix");
  same1(c, Y, y, "right-hand side");
  if (sing) {
    REQUIRE(!ok, "a singular matrix was not reported");
    toldSingular(c, status, -1);
    return;
  }
  if (!dom && !ok) {
    // A random matrix may be singular
    Real det = 1;
    Model<double> b = a;
    for (il::int_t k = 0; k < n; ++k) {
      il::int_t p = k;
      for (il::int_t i = k; i < n; ++i) if (std::fabs(b(i, k)) > std::fabs(b(p, k))) p = i;
      for (il::int_t j = 0; j < n; ++j) std::swap(b(p, j), b(k, j));
      det = std::min<Real>(det, std::fabs(b(k, k)) / scale);
      if (b(k, k) == 0) break;
      for (il::int_t i = k + 1; i < n; ++i) {
        const double l = b(i, k) / b(k, k);
        for (il::int_t j = k; j < n; ++j) b(i, j) -= l * b(k, j);
      }
    }
    REQUIRE(det < 1e-10, "a matrix with smallest pivot " << static_cast<double>(det) << " is said to be singular");
    return;
  }
  REQUIRE(ok, "a regular matrix is said to be singular");
  REQUIRE(x.size() == n, "solution of size " << x.size());
  residual(c, a, x, y, "linearSolve", dom ? tolOf(n) : 1e-9);
}
PROPERTY(linearSolve2D, 3) { dense<il::Array2D<double>>(s, c); }
PROPERTY(linearSolve2C, 2) { dense<il::Array2C<double>>(s, c); }

PROPERTY(linearSolveBand, 3) {
  const il::int_t n = aSize(s);
  const il::int_t left = s.range(0, std::min<il::int_t>(n - 1, 4));
  const il::int_t right = s.range(0, std::min<il::int_t>(n - 1, 4));
  const bool sing = s.chance(1, 5);
  const bool square = left == right && s.coin();
  Model<double> a(n, n);
  il::BandArray2C<double> A = square ? il::BandArray2C<double>{n, left} : il::BandArray2C<double>{n, n, left, right};
  const il::int_t zero = s.range(0, n - 1);
  for (il::int_t j = 0; j < n; ++j) {
    double sum = 1;
    for (il::int_t i = std::max<il::int_t>(0, j - right); i <= std::min(n - 1, j + left); ++i) {
      if (i == j) continue;
      a(i, j) = s.unit();
      sum += std::fabs(a(i, j));
    }
    a(j, j) = s.coin() ? sum : -sum;
  }
  if (!sing && s.coin()) {
    // Rows to exchange: any 2 x 2 diagonal block may be flipped if it is in
    // the band
    for (il::int_t i = 0; i + 1 < n && left > 0 && right > 0; i += 2) {
      if (s.coin()) continue;
      bool inside = true;
      for (il::int_t j = 0; j < n; ++j) {
        if (a(i, j) != 0 && (j < i + 1 - left || j > i + 1 + right)) inside = false;
        if (a(i + 1, j) != 0 && (j < i - left || j > i + right)) inside = false;
      }
      if (!inside) continue;
      for (il::int_t j = 0; j < n; ++j) std::swap(a(i, j), a(i + 1, j));
      c.nontrivial = true;
    }
  }
  // The others columns are dominant: a column of zeros is the first zero pivot
  il::int_t rank = -1;
  if (sing) {
    const bool row = s.coin();
    if (!row) rank = zero;
    for (il::int_t k = 0; k < n; ++k) (row ? a(zero, k) : a(k, zero)) = 0;
    c.tag("singular");
    c.nontrivial = true;
  }
  if (left != right) c.nontrivial = true;
  LOG("band of widths " << left << " and " << right);
  a.log(c, "A");
  for (il::int_t i = 0; i < n; ++i) {
    for (il::int_t k = -left; k <= right; ++k) {
      if (i + k >= 0 && i + k < n) A(i, k) = a(i, i + k);
    }
  }
  const std::vector<double> y = aVector<double>(s, n);
  const il::Array<double> Y = build1(y);
  il::Status status{};
  const il::Array<double> x = il::linearSolve(A, Y, il::io, status);
  const bool ok = status.Ok();
  same1(c, Y, y, "right-hand side");
  for (il::int_t i = 0; i < n; ++i) {
    for (il::int_t k = -left; k <= right; ++k) {
      if (i + k >= 0 && i + k < n) REQUIRE(A(i, k) == a(i, i + k), "the matrix was changed");
    }
  }
  REQUIRE(ok == !sing, (sing ? "a singular band matrix was not reported" : "a regular band matrix is said to be singular"));
  if (sing) {
    toldSingular(c, status, rank);
  } else {
    residual(c, a, x, y, "band linearSolve", tolOf(n));
  }
}

PROPERTY(linearSolveTridiagonal, 2) {
  const il::int_t n = aSize(s);
  const bool sing = s.chance(1, 5);
  Model<double> a(n, n);
  for (il::int_t j = 0; j < n; ++j) {
    double sum = 1;
    for (il::int_t i = std::max<il::int_t>(0, j - 1); i <= std::min(n - 1, j + 1); ++i) {
      if (i == j) continue;
      a(i, j) = s.unit();
      sum += std::fabs(a(i, j));
    }
    a(j, j) = s.coin() ? sum : -sum;
  }
  if (n > 1 && !sing && s.coin()) {
    // Small pivots on the even positions
    c.nontrivial = true;
    for (auto& x : a.a) x = x == 0 ? 0 : x;
    const il::int_t k = s.range(0, n - 2);
    for (il::int_t j = 0; j < n; ++j) if (j != k + 1) a(k, j) = 0;
    for (il::int_t j = 0; j < n; ++j) if (j != k) a(k + 1, j) = j == k + 2 ? a(k + 1, j) : 0;
    if (k > 0) a(k - 1, k) = 0;
    a(k, k + 1) = 2;
    a(k + 1, k) = -3;
    if (k + 2 < n) a(k + 1, k + 2) = 0;
  }
  if (sing) {
    const il::int_t zero = s.range(0, n - 1);
    const bool row = s.coin();
    for (il::int_t k = 0; k < n; ++k) (row ? a(zero, k) : a(k, zero)) = 0;
    c.tag("singular");
    c.nontrivial = true;
  }
  a.log(c, "A");
  il::TriDiagonal<double> A{n};
  for (il::int_t i = 0; i < n; ++i) {
    for (il::int_t k = -1; k <= 1; ++k) {
      if (i + k >= 0 && i + k < n) A(i, k) = a(i, i + k);
    }
  }
  const std::vector<double> y = aVector<double>(s, n);
  const il::Array<double> Y = build1(y);
  il::Status status{};
  const il::Array<double> x = il::linearSolve(A, Y, il::io, status);
  const bool ok = status.Ok();
  same1(c, Y, y, "right-hand side");
  for (il::int_t i = 0; i < n; ++i) {
    for (il::int_t k = -1; k <= 1; ++k) {
      if (i + k >= 0 && i + k < n) REQUIRE(A(i, k) == a(i, i + k), "the matrix was changed");
    }
  }
  REQUIRE(ok == !sing, (sing ? "a singular tridiagonal matrix was not reported" : "a regular tridiagonal matrix is said to be singular"));
  if (!sing) residual(c, a, x, y, "tridiagonal linearSolve", tolOf(n));
}

// ------------------------------------------------------------ LU factorization
// Norm of the inverse and determinant by Gauss-Jordan in extended precision
struct Reference {
  Model<double> inv;
  Real det;
  explicit Reference(const Model<double>& a) : inv(a.n, a.n), det(1) {
    const il::int_t n = a.n;
    std::vector<Real> w(n * 2 * n);
    for (il::int_t i = 0; i < n; ++i) {
      for (il::int_t j = 0; j < n; ++j) w[i * 2 * n + j] = a(i, j);
      w[i * 2 * n + n + i] = 1;
    }
    for (il::int_t k = 0; k < n; ++k) {
      il::int_t p = k;
      for (il::int_t i = k; i < n; ++i) if (std::fabs(w[i * 2 * n + k]) > std::fabs(w[p * 2 * n + k])) p = i;
      if (p != k) {
        for (il::int_t j = 0; j < 2 * n; ++j) std::swap(w[p * 2 * n + j], w[k * 2 * n + j]);
        det = -det;
      }
      const Real piv = w[k * 2 * n + k];
      det *= piv;
      for (il::int_t j = 0; j < 2 * n; ++j) w[k * 2 * n + j] /= piv;
      for (il::int_t i = 0; i < n; ++i) {
        if (i == k) continue;
        const Real l = w[i * 2 * n + k];
        if (l == 0) continue;
        for (il::int_t j = 0; j < 2 * n; ++j) w[i * 2 * n + j] -= l * w[k * 2 * n + j];
      }
    }
    for (il::int_t i = 0; i < n; ++i) for (il::int_t j = 0; j < n; ++j) inv(i, j) = static_cast<double>(w[i * 2 * n + n + j]);
  }
};
template <typename M, typename T>
void isInverse(pbt::Ctx& c, const Model<T>& a, const M& inv, const char* what) {
  const il::int_t n = a.n;
  for (il::int_t j = 0; j < n; ++j) {
    std::vector<T> e(n, T(0));
    e[j] = T(1);
    residual(c, a, col(inv, j), e, what, 1e-12 * (n + 1));
  }
}

PROPERTY(lu, 4) {
  const il::int_t n = aSize(s);
  const bool sing = s.chance(1, 6);
  il::int_t rank = -1;
  const Model<double> a = sing ? singular<double>(s, n, &rank) : dominant<double>(s, c, n);
  a.log(c, "A");
  const il::Array2D<double> A = build2<il::Array2D<double>>(s, c, a);
  il::Status status{};
  const bool moved = s.coin();
  il::Array2D<double> B{};
  if (moved) {
    B = build2<il::Array2D<double>>(s, c, a);
  }
  const il::LU<il::Array2D<double>> lu = moved ? il::LU<il::Array2D<double>>(std::move(B), il::io, status) : il::LU<il::Array2D<double>>(A, il::io, status);
  const bool ok = status.Ok();
  same2(c, A, a, "matrix");
  if (sing) {
    c.nontrivial = true;
    c.tag("singular");
    REQUIRE(!ok, "a singular matrix was not reported");
    toldSingular(c, status, rank);
    return;
  }
  REQUIRE(ok, "a regular matrix is said to be singular");
  REQUIRE(lu.size(0) == n && lu.size(1) == n, "size of the factorization");
  const std::vector<double> y = aVector<double>(s, n);
  const il::Array<double> Y = build1(y);
  residual(c, a, lu.solve(Y), y, "LU solve", tolOf(n));
  same1(c, Y, y, "right-hand side");
  const il::int_t p = s.size(4);
  Model<double> z(n, p);
  for (auto& x : z.a) x = s.unit();
  const il::Array2D<double> Z = build2<il::Array2D<double>>(s, c, z);
  if (p > 0) {
    const il::Array2D<double> X = s.coin() ? lu.solve(Z) : lu.solve(build2<il::Array2D<double>>(s, c, z));
    REQUIRE(X.size(0) == n && X.size(1) == p, "solution " << X.size(0) << " x " << X.size(1));
    for (il::int_t j = 0; j < p; ++j) residual(c, a, col(X, j), col(z, j), "LU solve with many second members", tolOf(n));
    same2(c, Z, z, "right-hand sides");
  }
  isInverse(c, a, lu.inverse(), "LU inverse");
  const Reference ref{a};
  const double det = lu.determinant();
  REQUIRE(std::fabs(det - ref.det) <= 1e-13L * (n + 1) * std::fabs(ref.det), "determinant " << det << " instead of " << static_cast<double>(ref.det));
  const Real k1 = a.norm1() * ref.inv.norm1();
  const Real kinf = a.normInf() * ref.inv.normInf();
  const double c1 = lu.conditionNumber(il::Norm::L1, static_cast<double>(a.norm1()));
  const double cinf = lu.conditionNumber(il::Norm::Linf, static_cast<double>(a.normInf()));
  REQUIRE(c1 <= 1.0001L * k1 && c1 >= k1 / (3 * n), "condition number " << c1 << " for the L1 norm instead of " << static_cast<double>(k1));
  REQUIRE(cinf <= 1.0001L * kinf && cinf >= kinf / (3 * n), "condition number " << cinf << " for the Linf norm instead of " << static_cast<double>(kinf));
  {
    const il::LowerArray2D<double> l = lu.L();
    const il::UpperArray2D<double> u = lu.U();
    REQUIRE(l.size() == n && u.size() == n, "sizes of L() and U()");
    for (il::int_t j = 0; j < n; ++j) {
      for (il::int_t i = j; i < n; ++i) REQUIRE(l(i, j) == (i == j ? 1.0 : lu.L(i, j)), "element (" << i << ", " << j << ") of L()");
      for (il::int_t i = 0; i <= j; ++i) REQUIRE(u(i, j) == lu.U(i, j), "element (" << i << ", " << j << ") of U()");
    }
  }
  // Row i of P.L.U is a row of A
  std::vector<bool> used(n, false);
  for (il::int_t i = 0; i < n; ++i) {
    std::vector<Real> row(n);
    for (il::int_t j = 0; j < n; ++j) {
      for (il::int_t k = 0; k <= std::min(i, j); ++k) row[j] += (k == i ? 1 : static_cast<Real>(lu.L(i, k))) * lu.U(k, j);
    }
    bool found = false;
    for (il::int_t r = 0; r < n && !found; ++r) {
      if (used[r]) continue;
      bool all = true;
      for (il::int_t j = 0; j < n; ++j) if (std::fabs(row[j] - a(r, j)) > 1e-13L * (n + 1) * (n + 1)) all = false;
      if (all) {
        used[r] = true;
        found = true;
      }
    }
    REQUIRE(found, "row " << i << " of L.U is not a row of the matrix");
  }
}

template <typename T, il::int_t n>
void staticLu(pbt::Src& s, pbt::Ctx& c) {
  const bool sing = s.chance(1, 5);
  il::int_t rank = -1;
  const Model<T> a = sing ? singular<T>(s, n, &rank) : dominant<T>(s, c, n);
  a.log(c, "static A");
  il::StaticArray2D<T, n, n> A{};
  for (il::int_t i = 0; i < n; ++i) for (il::int_t j = 0; j < n; ++j) A(i, j) = a(i, j);
  il::Status status{};
  const il::LU<il::StaticArray2D<T, n, n>> lu{A, il::io, status};
  const bool ok = status.Ok();
  same2(c, A, a, "matrix");
  REQUIRE(ok == !sing, (sing ? "a singular matrix was not reported" : "a regular matrix is said to be singular"));
  if (sing) {
    c.nontrivial = true;
    c.tag("singular");
    toldSingular(c, status, rank);
    return;
  }
  isInverse(c, a, lu.inverse(), "inverse of a static matrix");
}
PROPERTY(luStatic, 2) {
  switch (s.draw(7)) {
    case 0: return staticLu<double, 2>(s, c);
    case 1: return staticLu<double, 1>(s, c);
    case 2: return staticLu<double, 3>(s, c);
    case 3: return staticLu<double, 6>(s, c);
    case 4: return staticLu<Cd, 2>(s, c);
    case 5: return staticLu<Cd, 1>(s, c);
    default: return staticLu<Cd, 4>(s, c);
  }
}

// ---------------------------------------------------------------------- Views
// A sub-matrix of a larger matrix full of NaN
template <typename T>
struct Sub {
  il::Array2D<T> parent;
  il::int_t m, n, r, q;
  Sub(pbt::Src& s, pbt::Ctx& c, const Model<T>& a) : parent{}, m{a.m}, n{a.n}, r{0}, q{0} {
    il::int_t p0 = m, p1 = n;
    if (m > 0 && n > 0 && s.coin()) {
      r = s.range(0, 2);
      q = s.range(0, 2);
      p0 += r + s.range(0, 2);
      p1 += q + s.range(0, 2);
    }
    if (p0 != m || p1 != n) c.nontrivial = true;
    if (s.chance(1, 3)) parent.Reserve(p0 + s.range(0, 3), p1 + s.range(0, 3));
    parent.Resize(p0, p1);
    for (il::int_t i = 0; i < p0; ++i) for (il::int_t j = 0; j < p1; ++j) parent(i, j) = bad<T>();
    for (il::int_t i = 0; i < m; ++i) for (il::int_t j = 0; j < n; ++j) parent(r + i, q + j) = a(i, j);
  }
  bool isSub() const { return m != parent.size(0) || n != parent.size(1); }
  il::Array2DView<T> view() const {
    return isSub() ? parent.view(il::Range{r, r + m}, il::Range{q, q + n}) : parent.view();
  }
  il::Array2DEdit<T> edit() {
    return isSub() ? parent.Edit(il::Range{r, r + m}, il::Range{q, q + n}) : parent.Edit();
  }
  const T& operator()(il::int_t i, il::int_t j) const { return parent(r + i, q + j); }
  void around(pbt::Ctx& c, const char* what) const {
    for (il::int_t i = 0; i < parent.size(0); ++i) for (il::int_t j = 0; j < parent.size(1); ++j) {
      if (i >= r && i < r + m && j >= q && j < q + n) continue;
      REQUIRE(parent(i, j) != parent(i, j), what << ": element (" << i - r << ", " << j - q << ") outside of a matrix " << m << " x " << n << " was written");
    }
  }
  Model<T> model() const {
    Model<T> a(m, n);
    for (il::int_t i = 0; i < m; ++i) for (il::int_t j = 0; j < n; ++j) a(i, j) = (*this)(i, j);
    return a;
  }
};
template <typename T>
struct SubVec {
  il::Array<T> parent;
  il::int_t n, first;
  SubVec(pbt::Src& s, const std::vector<T>& v) : parent{}, n{static_cast<il::int_t>(v.size())}, first{s.range(0, 2)} {
    parent.Resize(first + n + s.range(0, 2));
    for (il::int_t i = 0; i < parent.size(); ++i) parent[i] = bad<T>();
    for (il::int_t i = 0; i < n; ++i) parent[first + i] = v[i];
  }
  il::ArrayEdit<T> edit() { return parent.Edit(il::Range{first, first + n}); }
  const T& operator[](il::int_t i) const { return parent[first + i]; }
  void around(pbt::Ctx& c, const char* what) const {
    for (il::int_t i = 0; i < parent.size(); ++i) {
      if (i >= first && i < first + n) continue;
      REQUIRE(parent[i] != parent[i], what << ": element " << i - first << " outside of a vector of " << n << " was written");
    }
  }
};

// Upper and lower triangular parts of a well-conditioned matrix, the other
// part is garbage that has to be ignored
template <typename T>
Model<T> triangular(pbt::Src& s, il::int_t n, bool upper, bool unit, Model<T>& stored) {
  Model<T> a(n, n);
  stored = Model<T>(n, n);
  for (il::int_t i = 0; i < n; ++i) {
    for (il::int_t j = 0; j < n; ++j) {
      const T x = draw<T>(s);
      stored(i, j) = x;
      if (i == j) {
        if (unit) {
          stored(i, j) = make<T>(7, 3);
          a(i, j) = make<T>(1, 0);
        } else {
          stored(i, j) = make<T>(s.coin() ? 2.0 : -2.0, 0) + x;
          a(i, j) = stored(i, j);
        }
      } else if (upper == (j > i)) {
        stored(i, j) = x * 0.25;
        a(i, j) = stored(i, j);
      }
    }
  }
  return a;
}
template <typename T>
Model<T> transpose(const Model<T>& a) {
  Model<T> b(a.n, a.m);
  for (il::int_t i = 0; i < a.m; ++i) for (il::int_t j = 0; j < a.n; ++j) b(j, i) = a(i, j);
  return b;
}
template <typename T>
void triangularSolves(pbt::Src& s, pbt::Ctx& c) {
  const il::int_t n = 1 + s.size(9);
  const il::int_t p = 1 + s.size(4);
  Model<T> stored(0, 0);
  const int kind = static_cast<int>(s.draw(7));
  const bool upper = kind == 1 || kind == 3 || kind == 4 || kind == 5;
  const Model<T> a = triangular<T>(s, n, upper, !upper, stored);
  const Sub<T> A{s, c, stored};
  a.log(c, "triangular");
  // Interchanges of rows
  il::Array<int> pivot{n};
  for (il::int_t i = 0; i < n; ++i) pivot[i] = static_cast<int>(s.range(i, n - 1)) + 1;
  std::vector<T> y = aVector<T>(s, n);
  Model<T> z(n, p);
  for (auto& x : z.a) x = draw<T>(s);
  SubVec<T> x{s, y};
  Sub<T> Z{s, c, z};
  std::vector<T> py = y;
  Model<T> pz = z;
  for (il::int_t i = 0; i < n; ++i) {
    const il::int_t k = pivot[i] - 1;
    if (k == i) continue;
    c.nontrivial = true;
    std::swap(py[i], py[k]);
    for (il::int_t j = 0; j < p; ++j) std::swap(pz(i, j), pz(k, j));
  }
  const double tol = 1e-13;
  LOG("kind " << kind << ", " << p << " second members");
  switch (kind) {
    case 0:
      il::solve(A.view(), il::MatrixType::LowerUnit, il::io, Z.edit());
      for (il::int_t j = 0; j < p; ++j) residual(c, a, col(Z, j), col(z, j), "lower solve", tol);
      break;
    case 1:
      il::solve(A.view(), il::MatrixType::UpperNonUnit, il::io, Z.edit());
      for (il::int_t j = 0; j < p; ++j) residual(c, a, col(Z, j), col(z, j), "upper solve", tol);
      break;
    case 2:
      il::solve(pivot.view(), A.view(), il::MatrixType::LowerUnit, il::io, Z.edit());
      for (il::int_t j = 0; j < p; ++j) residual(c, a, col(Z, j), col(pz, j), "permuted lower solve", tol);
      il::solve(pivot.view(), A.view(), il::MatrixType::LowerUnit, il::io, x.edit());
      residual(c, a, x, py, "permuted lower solve of a vector", tol);
      break;
    case 3:
      il::solve(A.view(), il::MatrixType::UpperNonUnit, il::io, x.edit());
      residual(c, a, x, y, "upper solve of a vector", tol);
      break;
    case 4:
      il::solve(A.view(), il::MatrixType::UpperNonUnit, il::Dot::Transpose, il::io, Z.edit());
      for (il::int_t j = 0; j < p; ++j) residual(c, transpose(a), col(Z, j), col(z, j), "transposed upper solve", tol);
      break;
    case 5: {
      const Model<T> w = transpose(z);
      Sub<T> W{s, c, w};
      il::solveRight(A.view(), il::MatrixType::UpperNonUnit, il::io, W.edit());
      const Model<T> sol = transpose(W.model());
      for (il::int_t j = 0; j < p; ++j) residual(c, transpose(a), col(sol, j), col(z, j), "right upper solve", tol);
      W.around(c, "right-hand sides");
      break;
    }
    default:
      il::solve(pivot.view(), il::io, Z.edit());
      for (il::int_t i = 0; i < n; ++i) for (il::int_t j = 0; j < p; ++j) {
        REQUIRE(Z(i, j) == pz(i, j), "permuted rows: (" << i << ", " << j << ") is " << Z(i, j) << " instead of " << pz(i, j));
      }
  }
  x.around(c, "right-hand side");
  Z.around(c, "right-hand sides");
  A.around(c, "matrix");
  for (il::int_t i = 0; i < n; ++i) for (il::int_t j = 0; j < n; ++j) REQUIRE(A(i, j) == stored(i, j), "the matrix was changed");
}
PROPERTY(triangularSystems, 4) {
  s.coin() ? triangularSolves<Cd>(s, c) : triangularSolves<double>(s, c);
}

template <typename T>
void decompositions(pbt::Src& s, pbt::Ctx& c) {
  const il::int_t n = aSize(s);
  const Model<T> a = dominant<T>(s, c, n);
  a.log(c, "A");
  Sub<T> A{s, c, a};
  il::Array<int> pivot{n};
  il::luDecomposition(il::io, pivot.Edit(), A.edit());
  A.around(c, "matrix");
  Model<T> b = a;
  for (il::int_t i = 0; i < n; ++i) {
    REQUIRE(pivot[i] >= i + 1 && pivot[i] <= n, "pivot " << i << " is " << pivot[i]);
    for (il::int_t j = 0; j < n; ++j) std::swap(b(i, j), b(pivot[i] - 1, j));
  }
  for (il::int_t i = 0; i < n; ++i) for (il::int_t j = 0; j < n; ++j) {
    typename Wide<T>::type x = 0;
    for (il::int_t k = 0; k <= std::min(i, j); ++k) x += (k == i ? wide(make<T>(1, 0)) : wide(A(i, k))) * wide(A(k, j));
    REQUIRE(mag(x - wide(b(i, j))) <= 1e-13L * (n + 1) * (n + 1), "(" << i << ", " << j << ") of L.U is not the one of the matrix with permuted rows");
  }
  // Together with the triangular solvers
  const std::vector<T> y = aVector<T>(s, n);
  SubVec<T> x{s, y};
  il::solve(pivot.view(), A.view(), il::MatrixType::LowerUnit, il::io, x.edit());
  il::solve(A.view(), il::MatrixType::UpperNonUnit, il::io, x.edit());
  residual(c, a, x, y, "luDecomposition and solve", tolOf(n));
}
PROPERTY(luDecomposition, 3) {
  s.coin() ? decompositions<Cd>(s, c) : decompositions<double>(s, c);
}

Cd conjugate(Cd x) { return std::conj(x); }
double conjugate(double x) { return x; }
template <typename T>
void qr(pbt::Src& s, pbt::Ctx& c) {
  using W = typename Wide<T>::type;
  const il::int_t m = 1 + s.size(9);
  const il::int_t n = 1 + s.size(9);
  Model<T> a(m, n);
  for (auto& x : a.a) x = draw<T>(s);
  if (s.chance(1, 4)) {
    // Not of full rank
    for (il::int_t i = 0; i < m; ++i) a(i, n - 1) = a(i, 0);
    c.nontrivial = true;
  }
  a.log(c, "A");
  Sub<T> A{s, c, a};
  const il::int_t p = std::min(m, n);
  SubVec<T> tau{s, std::vector<T>(p, T(0))};
  il::qrDecomposition(il::io, tau.edit(), A.edit());
  A.around(c, "matrix");
  tau.around(c, "reflectors");
  // Q = H(0) ... H(p - 1), H(k) = I - tau v v^*
  std::vector<W> q(m * m, W(0));
  for (il::int_t i = 0; i < m; ++i) q[i * m + i] = 1;
  for (il::int_t k = 0; k < p; ++k) {
    std::vector<W> v(m, W(0));
    v[k] = 1;
    for (il::int_t i = k + 1; i < m; ++i) v[i] = wide(A(i, k));
    for (il::int_t i = 0; i < m; ++i) {
      W t = 0;
      for (il::int_t j = 0; j < m; ++j) t += q[i * m + j] * v[j];
      t *= wide(tau[k]);
      for (il::int_t j = 0; j < m; ++j) q[i * m + j] -= t * wide(conjugate(static_cast<T>(v[j])));
    }
  }
  for (il::int_t i = 0; i < m; ++i) for (il::int_t j = 0; j < m; ++j) {
    W t = 0;
    for (il::int_t k = 0; k < m; ++k) t += q[i * m + k] * wide(conjugate(static_cast<T>(q[j * m + k])));
    REQUIRE(mag(t - W(i == j ? 1 : 0)) <= 1e-13L, "Q is not orthogonal: row " << i << " times row " << j << " is " << static_cast<double>(mag(t)));
  }
  for (il::int_t i = 0; i < m; ++i) for (il::int_t j = 0; j < n; ++j) {
    W t = 0;
    for (il::int_t k = 0; k <= std::min(j, p - 1); ++k) t += q[i * m + k] * wide(A(k, j));
    REQUIRE(mag(t - wide(a(i, j))) <= 1e-13L, "(" << i << ", " << j << ") of Q.R is not the one of the matrix");
  }
}
PROPERTY(qrDecomposition, 2) {
  s.coin() ? qr<Cd>(s, c) : qr<double>(s, c);
}

// ------------------------------------------------------------------- Cholesky
PROPERTY(cholesky, 3) {
  const il::int_t n = aSize(s);
  Model<double> a(n, n);
  for (il::int_t i = 0; i < n; ++i) {
    for (il::int_t j = 0; j < i; ++j) a(i, j) = a(j, i) = s.unit();
  }
  for (il::int_t i = 0; i < n; ++i) {
    double sum = 1;
    for (il::int_t j = 0; j < n; ++j) if (j != i) sum += std::fabs(a(i, j));
    a(i, i) = sum;
  }
  const bool negative = s.chance(1, 5);
  if (negative) {
    const il::int_t k = s.range(0, n - 1);
    a(k, k) = -a(k, k);
    c.nontrivial = true;
    c.tag("not positive");
  }
  a.log(c, "A");
  const il::Array2D<double> A = build2<il::Array2D<double>>(s, c, a);
  il::Status status{};
  const il::Cholesky<il::Array2D<double>> chol = s.coin() ? il::Cholesky<il::Array2D<double>>(A, il::io, status) : il::Cholesky<il::Array2D<double>>(build2<il::Array2D<double>>(s, c, a), il::io, status);
  const bool ok = status.Ok();
  same2(c, A, a, "matrix");
  REQUIRE(ok == !negative, (negative ? "a matrix that is not positive was accepted" : "a positive definite matrix was refused"));
  // The packed version
  il::LowerArray2D<double> L{n};
  for (il::int_t i = 0; i < n; ++i) for (il::int_t j = 0; j <= i; ++j) L(i, j) = a(i, j);
  il::Status packed{};
  const il::Cholesky<il::LowerArray2D<double>> pc{L, il::io, packed};
  const bool packed_ok = packed.Ok();
  for (il::int_t i = 0; i < n; ++i) for (il::int_t j = 0; j <= i; ++j) REQUIRE(L(i, j) == a(i, j), "the packed matrix was changed");
  REQUIRE(packed_ok == !negative, (negative ? "a packed matrix that is not positive was accepted" : "a positive definite packed matrix was refused"));
  if (negative) return;
  REQUIRE(chol.size(0) == n && chol.size(1) == n, "size of the factorization");
  const std::vector<double> y = aVector<double>(s, n);
  const il::Array<double> Y = build1(y);
  residual(c, a, chol.solve(Y), y, "Cholesky solve", tolOf(n));
  same1(c, Y, y, "right-hand side");
  isInverse(c, a, chol.inverse(), "Cholesky inverse");
  const Reference ref{a};
  const Real k1 = a.norm1() * ref.inv.norm1();
  const double c1 = chol.conditionNumber(s.coin() ? il::Norm::L1 : il::Norm::Linf, static_cast<double>(a.norm1()));
  REQUIRE(c1 <= 1.0001L * k1 && c1 >= k1 / (3 * n), "condition number " << c1 << " instead of " << static_cast<double>(k1));
}

}  // namespace
