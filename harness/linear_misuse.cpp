// C31: a checked build refuses the operands of linear algebra which do not fit
// together and the options which an operation does not have, and accepts the
// others.
#include <cmath>
#include <complex>
#include <map>
#include <memory>

#include <il/BandArray2C.h>
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/TriDiagonal.h>
#include <il/linearAlgebra/dense/blas/blas.h>
#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/dense/blas/dot.h>
#include <il/linearAlgebra/dense/blas/solve.h>
#include <il/linearAlgebra/dense/factorization/Cholesky.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
#include <il/linearAlgebra/dense/norm.h>
#include <il/linearAlgebra/matrixFree/solver/Cg.h>
#include <il/linearAlgebra/matrixFree/solver/Gmres.h>
#include <il/linearAlgebra/sparse/blas/sparseDot.h>
#include <il/linearAlgebra/sparse/factorization/GmresIlu0.h>
#include <il/linearAlgebra/sparse/factorization/Pardiso.h>

#include "common.h"
#include "refusal.h"

#if PBT_IN(0)
namespace pbt {
const char* rule =
    "vectors and matrices (dense in both storage orders, band, tridiagonal, sparse) of 0 to 6 rows and columns are "
    "drawn to fit an operation, then one dimension or more may be changed, the result may be an operand, and the "
    "transpositions, triangular types and norms are drawn among all of them; 1 to 8 calls are made. Non-trivial: at "
    "least one call was accepted and one was refused";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 800000;
    pbt::thorough_cases = 12000000;
    pbt::check_leaks = false;
  }
} init;
}  // namespace
#endif
namespace {
using std::to_string;
using Cf = std::complex<float>;
using Cd = std::complex<double>;

// The dimension n, now and then another one
il::int_t near(pbt::Src& s, il::int_t n) {
  switch (s.weighted({14, 1, 1, 1})) {
    case 0: return n;
    case 1: return n + s.range(1, 3);
    case 2: return n > 0 ? s.range(0, n - 1) : 1;
    default: return s.range(0, 6);
  }
}
il::Dot op(pbt::Src& s) { return s.oneOf<il::Dot>({il::Dot::None, il::Dot::None, il::Dot::Transpose, il::Dot::Star}); }
bool none(il::Dot d) { return d == il::Dot::None; }
std::string name(il::Dot d) { return none(d) ? "None" : d == il::Dot::Transpose ? "Transpose" : "Star"; }

template <typename T>
T value(il::int_t i) {
  return static_cast<T>(static_cast<float>(i % 7) - 3.0f);
}
template <typename T>
il::Array<T> vec(il::int_t n) {
  il::Array<T> x{n};
  for (il::int_t i = 0; i < n; ++i) x[i] = value<T>(i + n);
  return x;
}
// A matrix with a dominant diagonal
template <typename M, typename T>
M mat(il::int_t n0, il::int_t n1) {
  M A{n0, n1};
  for (il::int_t i = 0; i < n0; ++i)
    for (il::int_t j = 0; j < n1; ++j) A(i, j) = i == j ? static_cast<T>(50.0f) : value<T>(3 * (i + j));
  return A;
}
std::string dims(il::int_t n0, il::int_t n1) { return to_string(n0) + "x" + to_string(n1); }
template <typename M>
std::string dims(const M& A) { return dims(A.size(0), A.size(1)); }
}  // namespace

// Vectors and products --------------------------------------------------------
#if PBT_IN(0)
namespace {
template <typename T>
void otherDot(pbt::Src&, pbt::Ctx& c, Count& k, const il::Array<T>& x, const il::Array<T>& y, bool ok, const std::string& sizes, std::false_type) {
  (void)c, (void)k, (void)x, (void)y, (void)ok, (void)sizes;
}
template <typename T>
void otherDot(pbt::Src& s, pbt::Ctx& c, Count& k, const il::Array<T>& x, const il::Array<T>& y, bool ok, const std::string& sizes, std::true_type) {
  const il::Dot d = s.coin() ? il::Dot::Star : il::Dot::None;
  if (s.coin())
    expect(c, k, ok, "dot(x, " + name(d) + ", y)" + sizes, [&] { sink = sink + (il::dot(x, d, y) == T(0)); });
  else
    expect(c, k, ok, "dot(x, y, " + name(d) + ")" + sizes, [&] { sink = sink + (il::dot(x, y, d) == T(0)); });
}

template <typename T, typename Complex>
void level1(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const T alpha = static_cast<T>(2.0f), beta = s.coin() ? T(0) : static_cast<T>(-1.0f);
  const int calls = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n = s.range(0, 6);
    const il::int_t m = near(s, n);
    il::Array<T> x = vec<T>(n), y = vec<T>(m);
    const bool ok = n == m;
    const std::string sizes = " of " + to_string(n) + " and " + to_string(m) + " elements";
    switch (s.draw(4)) {
      case 0: expect(c, k, ok, "y += alpha x" + sizes, [&] { il::blas(alpha, x.view(), il::io, y.Edit()); }); break;
      case 1: expect(c, k, ok, "y = alpha x + beta y" + sizes, [&] { il::blas(alpha, x.view(), beta, il::io, y.Edit()); }); break;
      case 2: expect(c, k, ok, "dot(x, y)" + sizes, [&] { sink = sink + (il::dot(x, y) == T(0)); }); break;
      default: otherDot(s, c, k, x, y, ok, sizes, Complex{});
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

template <typename T>
void combination(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const int calls = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n0 = s.range(0, 6), n1 = s.range(0, 6);
    const il::int_t m0 = near(s, n0), m1 = near(s, n1);
    const il::Array2D<T> X = mat<il::Array2D<T>, T>(n0, n1);
    il::Array2D<T> Y = mat<il::Array2D<T>, T>(m0, m1);
    const T beta = s.coin() ? T(0) : T(2.0);
    expect(c, k, n0 == m0 && n1 == m1, "Y = alpha X + beta Y of " + dims(X) + " and " + dims(Y),
           [&] { il::blas(T(2.0), X.view(), beta, il::io, Y.Edit()); });
  }
  c.nontrivial = k.accepted && k.refused;
}

void statics(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::StaticArray2D<double, 2, 3> A{1.0};
  const il::StaticArray<double, 2> x{1.0};
  const il::StaticArray2D<double, 2, 2> B{1.0};
  for (int i = 0; i < 2; ++i) {
    const il::Dot d = op(s);
    const bool ok = d == il::Dot::Transpose;
    if (s.coin())
      expect(c, k, ok, "dot(A, " + name(d) + ", x) of static arrays", [&] { sink = sink + (il::dot(A, d, x)[0] > 0); });
    else
      expect(c, k, ok, "dot(A, " + name(d) + ", B) of static arrays", [&] { sink = sink + (il::dot(A, d, B)(0, 0) > 0); });
  }
  c.nontrivial = k.accepted && k.refused;
}
}  // namespace
#endif

#if PBT_IN(1)
namespace {
template <typename M, typename T>
void level2(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const T alpha = static_cast<T>(2.0f), beta = s.coin() ? T(0) : static_cast<T>(-1.0f);
  const int calls = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n0 = s.range(0, 6), n1 = s.chance(1, 3) ? n0 : s.range(0, 6);
    const M A = mat<M, T>(n0, n1);
    const bool plain = s.coin();
    const il::Dot d = plain ? il::Dot::None : op(s);
    const il::int_t nx = none(d) ? n1 : n0, ny = none(d) ? n0 : n1;
    const bool alias = s.chance(1, 8);
    il::Array<T> x = vec<T>(near(s, nx));
    il::Array<T> other = vec<T>(alias ? x.size() : near(s, ny));
    il::Array<T>& y = alias ? x : other;
    const bool ok = x.size() == nx && y.size() == ny && !(alias && nx > 0);
    const std::string what = "y = alpha A " + name(d) + " x + beta y, A of " + dims(A) + ", x of " + to_string(x.size()) + ", y of " +
                             to_string(y.size()) + (alias ? ", y is x" : "");
    if (plain)
      expect(c, k, ok, what, [&] { il::blas(alpha, A.view(), x.view(), beta, il::io, y.Edit()); });
    else
      expect(c, k, ok, what, [&] { il::blas(alpha, A.view(), d, x.view(), beta, il::io, y.Edit()); });
  }
  c.nontrivial = k.accepted && k.refused;
}
template <typename M>
void dotVector(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const int calls = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < calls; ++i) {
    const M A = mat<M, double>(s.range(0, 6), s.range(0, 6));
    const il::Array<double> x = vec<double>(near(s, A.size(1)));
    expect(c, k, A.size(1) == x.size(), "dot(A, x), A of " + dims(A) + ", x of " + to_string(x.size()), [&] { sink = sink + il::dot(A, x).size(); });
  }
  c.nontrivial = k.accepted && k.refused;
}
template <typename M, typename T>
void dotMatrix(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const int calls = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < calls; ++i) {
    const M A = mat<M, T>(s.range(0, 6), s.range(0, 6));
    const M B = mat<M, T>(near(s, A.size(1)), s.range(0, 6));
    expect(c, k, A.size(1) == B.size(0), "dot(A, B) of " + dims(A) + " and " + dims(B), [&] { sink = sink + il::dot(A, B).size(0); });
  }
  c.nontrivial = k.accepted && k.refused;
}
}  // namespace
#endif

#if PBT_IN(2)
namespace {
template <typename M, typename T>
void level3(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const T alpha = static_cast<T>(2.0f), beta = s.coin() ? T(0) : static_cast<T>(-1.0f);
  const int calls = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < calls; ++i) {
    const int form = static_cast<int>(s.draw(4));  // which of the transpositions are given
    const il::Dot da = form & 1 ? op(s) : il::Dot::None, db = form & 2 ? op(s) : il::Dot::None;
    il::int_t m = s.range(0, 5), n = s.range(0, 5), p = s.range(0, 5);
    if (s.chance(1, 3)) n = p = m;
    M A = mat<M, T>(near(s, none(da) ? m : p), near(s, none(da) ? p : m));
    M B = mat<M, T>(near(s, none(db) ? p : n), near(s, none(db) ? n : p));
    M other = mat<M, T>(near(s, m), near(s, n));
    const int alias = static_cast<int>(s.weighted({8, 1, 1}));
    M& C = alias == 0 ? other : alias == 1 ? A : B;
    const il::int_t a0 = A.size(none(da) ? 0 : 1), a1 = A.size(none(da) ? 1 : 0);
    const il::int_t b0 = B.size(none(db) ? 0 : 1), b1 = B.size(none(db) ? 1 : 0);
    const bool fits = a1 == b0 && C.size(0) == a0 && C.size(1) == b1;
    // Whether an empty matrix is the one where the result goes does not matter
    if (alias && fits && C.size(0) * C.size(1) == 0) continue;
    const std::string what = "C = alpha A " + name(da) + " B " + name(db) + " + beta C, A of " + dims(A) + ", B of " + dims(B) + ", C of " + dims(C) +
                             (alias == 0 ? "" : alias == 1 ? ", C is A" : ", C is B");
    const bool ok = fits && alias == 0;
    switch (form) {
      case 0: expect(c, k, ok, what, [&] { il::blas(alpha, A.view(), B.view(), beta, il::io, C.Edit()); }); break;
      case 1: expect(c, k, ok, what, [&] { il::blas(alpha, A.view(), da, B.view(), beta, il::io, C.Edit()); }); break;
      case 2: expect(c, k, ok, what, [&] { il::blas(alpha, A.view(), B.view(), db, beta, il::io, C.Edit()); }); break;
      default: expect(c, k, ok, what, [&] { il::blas(alpha, A.view(), da, B.view(), db, beta, il::io, C.Edit()); });
    }
  }
  c.nontrivial = k.accepted && k.refused;
}
}  // namespace
#endif

// Dense systems ---------------------------------------------------------------
#if PBT_IN(3)
namespace {
const char* const typeName[] = {"Regular", "LowerUnit", "LowerNonUnit", "LowerUnitUpperNonUnit", "UpperUnit", "UpperNonUnit", "SymmetricUpper",
                                "SymmetricLower", "HermitianUpper", "HermitianLower"};
const il::MatrixType types[] = {il::MatrixType::Regular,        il::MatrixType::LowerUnit,      il::MatrixType::LowerNonUnit,
                                il::MatrixType::LowerUnitUpperNonUnit, il::MatrixType::UpperUnit, il::MatrixType::UpperNonUnit,
                                il::MatrixType::SymmetricUpper, il::MatrixType::SymmetricLower, il::MatrixType::HermitianUpper,
                                il::MatrixType::HermitianLower};

template <typename T>
void triangular(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  using M = il::Array2D<T>;
  const int calls = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n = s.range(1, 5);
    const M A = mat<M, T>(near(s, n), near(s, n));
    const il::int_t rhs = s.range(1, 4);
    const int overload = static_cast<int>(s.draw(7));
    const int t = static_cast<int>(s.weighted({1, 8, 1, 1, 1, 8, 1, 1, 1, 1}));
    const il::MatrixType type = types[t];
    const bool lower = type == il::MatrixType::LowerUnit, upper = type == il::MatrixType::UpperNonUnit;
    il::Array<int> pivot{near(s, A.size(0))};
    for (il::int_t j = 0; j < pivot.size(); ++j) pivot[j] = 1;
    const bool square = A.size(0) == A.size(1);
    // What an empty system is does not matter
    if (A.size(0) == 0 || A.size(1) == 0) continue;
    const std::string of = std::string(" of type ") + typeName[t] + ", A of " + dims(A);
    const std::string p = ", pivot of " + to_string(pivot.size());
    switch (overload) {
      case 0: {
        M Y = mat<M, T>(near(s, pivot.size()), rhs);
        if (pivot.size() == 0 && Y.size(0) == 0) break;
        expect(c, k, pivot.size() == Y.size(0), "solve(pivot, Y)" + p + ", Y of " + dims(Y), [&] { il::solve(pivot.view(), il::io, Y.Edit()); });
      } break;
      case 1: {
        M Y = mat<M, T>(near(s, A.size(0)), rhs);
        expect(c, k, square && Y.size(0) == A.size(0) && (lower || upper), "solve(A, Y)" + of + ", Y of " + dims(Y),
               [&] { il::solve(A.view(), type, il::io, Y.Edit()); });
      } break;
      case 2: {
        M Y = mat<M, T>(near(s, A.size(0)), rhs);
        expect(c, k, square && pivot.size() == A.size(0) && Y.size(0) == A.size(0) && lower, "solve(pivot, A, Y)" + of + p + ", Y of " + dims(Y),
               [&] { il::solve(pivot.view(), A.view(), type, il::io, Y.Edit()); });
      } break;
      case 3: {
        il::Array<T> y = vec<T>(near(s, A.size(0)));
        expect(c, k, square && y.size() == A.size(0) && upper, "solve(A, y)" + of + ", y of " + to_string(y.size()),
               [&] { il::solve(A.view(), type, il::io, y.Edit()); });
      } break;
      case 4: {
        M Y = mat<M, T>(near(s, A.size(0)), rhs);
        const il::Dot d = s.chance(2, 3) ? il::Dot::Transpose : op(s);
        expect(c, k, square && Y.size(0) == A.size(0) && upper && d == il::Dot::Transpose, "solve(A, " + name(d) + ", Y)" + of + ", Y of " + dims(Y),
               [&] { il::solve(A.view(), type, d, il::io, Y.Edit()); });
      } break;
      case 5: {
        il::Array<T> y = vec<T>(near(s, A.size(0)));
        expect(c, k, square && pivot.size() == A.size(0) && y.size() == A.size(0) && lower, "solve(pivot, A, y)" + of + p + ", y of " + to_string(y.size()),
               [&] { il::solve(pivot.view(), A.view(), type, il::io, y.Edit()); });
      } break;
      default: {
        M Y = mat<M, T>(rhs, near(s, A.size(0)));
        expect(c, k, square && Y.size(1) == A.size(0) && upper, "solveRight(A, Y)" + of + ", Y of " + dims(Y),
               [&] { il::solveRight(A.view(), type, il::io, Y.Edit()); });
      }
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

template <typename T>
void decompositions(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  using M = il::Array2D<T>;
  const int calls = static_cast<int>(s.range(1, 6));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n = s.range(1, 5);
    if (s.coin()) {
      M A = mat<M, T>(n, s.chance(1, 4) ? s.range(1, 6) : n);
      il::Array<int> pivot{near(s, n)};
      expect(c, k, A.size(0) == A.size(1) && pivot.size() == n, "luDecomposition of " + dims(A) + ", pivot of " + to_string(pivot.size()),
             [&] { il::luDecomposition(il::io, pivot.Edit(), A.Edit()); });
    } else {
      M A = mat<M, T>(n, s.range(1, 6));
      const il::int_t m = std::min(A.size(0), A.size(1));
      il::Array<T> tau{near(s, m)};
      expect(c, k, tau.size() == m, "qrDecomposition of " + dims(A) + ", tau of " + to_string(tau.size()),
             [&] { il::qrDecomposition(il::io, tau.Edit(), A.Edit()); });
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

il::Norm norm(pbt::Src& s) { return s.oneOf<il::Norm>({il::Norm::L1, il::Norm::L2, il::Norm::Linf}); }
std::string name(il::Norm n) { return n == il::Norm::L1 ? "L1" : n == il::Norm::L2 ? "L2" : "Linf"; }
bool hasCondition(il::Norm n) { return n != il::Norm::L2; }

void lu(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::int_t n0 = s.range(1, 5), n1 = s.chance(1, 3) ? s.range(1, 6) : n0;
  const il::Array2D<double> A = mat<il::Array2D<double>, double>(n0, n1);
  il::Status status{};
  const il::LU<il::Array2D<double>> f{A, il::io, status};
  status.AbortOnError();
  const bool square = n0 == n1;
  const std::string of = " of the factorization of " + dims(A);
  const int calls = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < calls; ++i) {
    switch (s.draw(9)) {
      case 0: {
        const il::int_t d = index(s, 2, 2);
        expect(c, k, in(d, 2), "size(" + to_string(d) + ")" + of, [&] { sink = sink + f.size(d); });
      } break;
      case 1: {
        const il::Array<double> y = vec<double>(near(s, n0));
        expect(c, k, square && y.size() == n0, "solve(y), y of " + to_string(y.size()) + of, [&] { sink = sink + f.solve(y).size(); });
      } break;
      case 2: {
        const il::Array2D<double> y = mat<il::Array2D<double>, double>(near(s, n0), s.range(1, 4));
        expect(c, k, square && y.size(0) == n0, "solve(Y), Y of " + dims(y) + of, [&] { sink = sink + f.solve(y).size(0); });
      } break;
      case 3: expect(c, k, square, "inverse()" + of, [&] { sink = sink + f.inverse().size(0); }); break;
      case 4: expect(c, k, square, "determinant()" + of, [&] { sink = sink + (f.determinant() > 0); }); break;
      case 5: {
        const il::Norm t = norm(s);
        expect(c, k, square && hasCondition(t), "conditionNumber(" + name(t) + ")" + of, [&] { sink = sink + (f.conditionNumber(t, 60.0) > 0); });
      } break;
      case 6: {
        const il::int_t p = index(s, n0, n0), q = index(s, n1, n1);
        const bool inside = in(p, n0) && in(q, n1);
        if (s.coin())
          expect(c, k, inside && q < p, "L(" + to_string(p) + ", " + to_string(q) + ")" + of, [&] { sink = sink + (f.L(p, q) > 0); });
        else
          expect(c, k, inside && q >= p, "U(" + to_string(p) + ", " + to_string(q) + ")" + of, [&] { sink = sink + (f.U(p, q) > 0); });
      } break;
      case 7: expect(c, k, square, "L()" + of, [&] { sink = sink + f.L().size(); }); break;
      default: expect(c, k, square, "U()" + of, [&] { sink = sink + f.U().size(); });
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

void cholesky(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const int tries = static_cast<int>(s.range(1, 3));
  for (int j = 0; j < tries; ++j) {
    const il::int_t n0 = s.range(1, 5), n1 = s.chance(1, 3) ? s.range(1, 6) : n0;
    const il::Array2D<double> A = mat<il::Array2D<double>, double>(n0, n1);
    il::Status status{};
    expect(c, k, n0 == n1, "Cholesky factorization of " + dims(A), [&] {
      il::Cholesky<il::Array2D<double>> g{A, il::io, status};
      status.AbortOnError();
    });
    if (n0 != n1) continue;
    const il::Cholesky<il::Array2D<double>> f{A, il::io, status};
    status.AbortOnError();
    const std::string of = " of the factorization of " + dims(A);
    const int calls = static_cast<int>(s.range(1, 5));
    for (int i = 0; i < calls; ++i) {
      switch (s.draw(4)) {
        case 0: {
          const il::int_t d = index(s, 2, 2);
          expect(c, k, in(d, 2), "size(" + to_string(d) + ")" + of, [&] { sink = sink + f.size(d); });
        } break;
        case 1: {
          const il::Array<double> y = vec<double>(near(s, n0));
          expect(c, k, y.size() == n0, "solve(y), y of " + to_string(y.size()) + of, [&] { sink = sink + f.solve(y).size(); });
        } break;
        case 2: expect(c, k, true, "inverse()" + of, [&] { sink = sink + f.inverse().size(0); }); break;
        default: {
          const il::Norm t = norm(s);
          expect(c, k, hasCondition(t), "conditionNumber(" + name(t) + ")" + of, [&] { sink = sink + (f.conditionNumber(t, 60.0) > 0); });
        }
      }
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

void systems(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const int calls = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n = s.range(1, 5), n1 = s.chance(1, 4) ? s.range(1, 6) : n;
    const il::Array<double> y = vec<double>(near(s, s.coin() ? n : n1));
    const std::string of = " of " + dims(n, n1) + " and y of " + to_string(y.size());
    il::Status status{};
    switch (s.draw(5)) {
      case 0: {
        const il::Array2D<double> A = mat<il::Array2D<double>, double>(n, n1);
        expect(c, k, n == n1 && y.size() == n, "linearSolve, A" + of, [&] {
          sink = sink + il::linearSolve(A, y, il::io, status).size();
          status.AbortOnError();
        });
      } break;
      case 1: {
        const il::Array2C<double> A = mat<il::Array2C<double>, double>(n, n1);
        expect(c, k, n == n1 && y.size() == n, "linearSolve, A in C order" + of, [&] {
          sink = sink + il::linearSolve(A, y, il::io, status).size();
          status.AbortOnError();
        });
      } break;
      case 2: {
        const il::int_t left = s.range(0, std::min<il::int_t>(2, n - 1)), right = s.range(0, std::min<il::int_t>(2, n1 - 1));
        il::BandArray2C<double> A{n, n1, left, right};
        for (il::int_t p = 0; p < n; ++p)
          for (il::int_t q = -left; q <= right; ++q)
            if (p + q >= 0 && p + q < n1) A(p, q) = q == 0 ? 50.0 : 1.0;
        expect(c, k, n == n1 && y.size() == n, "linearSolve, band A of widths " + to_string(left) + ", " + to_string(right) + of, [&] {
          sink = sink + il::linearSolve(A, y, il::io, status).size();
          status.AbortOnError();
        });
      } break;
      case 3: {
        il::TriDiagonal<double> A{n};
        for (il::int_t p = 0; p < n; ++p) {
          A(p, 0) = 50.0;
          if (p > 0) A(p, -1) = 1.0;
          if (p + 1 < n) A(p, 1) = 2.0;
        }
        expect(c, k, y.size() == n, "linearSolve, tridiagonal A" + of, [&] {
          sink = sink + il::linearSolve(A, y, il::io, status).size();
          status.AbortOnError();
        });
      } break;
      default: {
        const il::int_t m0 = near(s, n), m1 = near(s, n);
        const il::Array2D<double> A = mat<il::Array2D<double>, double>(m0, m1);
        expect(c, k, m0 == m1 && m0 > 0, "eigenvalues of " + dims(A), [&] {
          il::Eigen<il::Array2D<double>> e{A, il::io, status};
          status.AbortOnError();
          sink = sink + e.eigenValue().size();
        });
      }
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

void norms(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const int calls = static_cast<int>(s.range(1, 8));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n = s.range(0, 6), m = s.range(0, 6);
    const il::Norm t = norm(s);
    switch (s.draw(3)) {
      case 0: {
        const il::Array<double> x = vec<double>(n), a{near(s, n), 2.0};
        expect(c, k, a.size() == n, "norm of " + to_string(n) + " elements relative to " + to_string(a.size()), [&] { sink = sink + (il::norm(x, t, a) > 0); });
      } break;
      case 1: {
        const il::Array2D<double> A = mat<il::Array2D<double>, double>(n, m);
        expect(c, k, t != il::Norm::L2, name(t) + " norm of a matrix " + dims(A), [&] { sink = sink + (il::norm(A, t) > 0); });
      } break;
      default: {
        il::TriDiagonal<double> A{n + 1};
        for (il::int_t p = 0; p <= n; ++p) {
          A(p, 0) = 1.0;
          if (p > 0) A(p, -1) = 1.0;
          if (p < n) A(p, 1) = 2.0;
        }
        // The L1 norm may come
        if (t == il::Norm::L1) break;
        expect(c, k, t == il::Norm::Linf, name(t) + " norm of a tridiagonal matrix", [&] { sink = sink + (il::norm(A, t) > 0); });
      }
    }
  }
  c.nontrivial = k.accepted && k.refused;
}
}  // namespace
#endif

// Sparse and matrix free systems ----------------------------------------------
#if PBT_IN(4)
namespace {
// Tridiagonal, with a dominant diagonal
template <typename Index>
il::SparseMatrixCSR<Index, double> sparse(il::int_t n0, il::int_t n1) {
  il::Array<Index> row{n0 + 1}, column{};
  il::Array<double> element{};
  row[0] = 0;
  for (il::int_t i = 0; i < n0; ++i) {
    for (il::int_t j = std::max<il::int_t>(0, i - 1); j < std::min(n1, i + 2); ++j) {
      column.Append(static_cast<Index>(j));
      element.Append(i == j ? 10.0 : 1.0);
    }
    row[i + 1] = static_cast<Index>(column.size());
  }
  return il::SparseMatrixCSR<Index, double>{n0, n1, column, row, element};
}

void sparseOperands(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const int calls = static_cast<int>(s.range(1, 6));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n0 = s.range(1, 6), n1 = s.range(1, 6);
    if (s.coin()) {
      const il::Array<double> beta{near(s, n0), 2.0}, alpha{near(s, n1), 0.5};
      const il::Norm t = s.chance(2, 3) ? il::Norm::Linf : il::Norm::L2;
      const bool ok = beta.size() == n0 && alpha.size() == n1 && t == il::Norm::Linf;
      const std::string what = std::string(t == il::Norm::Linf ? "Linf" : "L2") + " norm of sparse " + dims(n0, n1) + ", beta of " + to_string(beta.size()) +
                               ", alpha of " + to_string(alpha.size());
      if (s.coin()) {
        const auto A = sparse<int>(n0, n1);
        expect(c, k, ok, what, [&] { sink = sink + (il::norm(A, t, beta, alpha) > 0); });
      } else {
        const auto A = sparse<il::int_t>(n0, n1);
        expect(c, k, ok, what, [&] { sink = sink + (il::norm(A, t, beta, alpha) > 0); });
      }
    } else {
      auto A = sparse<int>(n0, n1), B = sparse<int>(std::max<il::int_t>(1, near(s, n1)), s.range(1, 6));
      expect(c, k, n1 == B.size(0), "dot of sparse " + dims(A) + " and " + dims(B), [&] { sink = sink + il::dot(il::io, A, B).size(0); });
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

void pardiso(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  using M = il::SparseMatrixCSR<il::int_t, double>;
  std::map<il::int_t, M> matrices;
  std::unique_ptr<il::Pardiso> p(new il::Pardiso);
  il::int_t n = 0;
  bool symbolic = false, numerical = false;
  const int calls = static_cast<int>(s.range(2, 8));
  for (int i = 0; i < calls; ++i) {
    const il::int_t m = symbolic && s.chance(3, 4) ? n : s.range(1, 4);
    if (!matrices.count(m)) matrices.emplace(m, sparse<il::int_t>(m, m));
    const M& A = matrices.find(m)->second;
    bool ok = true;
    switch (s.draw(4)) {
      case 0: {
        const bool square = s.chance(3, 4);
        const M R = sparse<il::int_t>(m, m + 1);
        ok = square;
        const M& B = square ? A : R;
        expect(c, k, ok, "SymbolicFactorization of " + dims(B), [&] { p->SymbolicFactorization(B); });
        if (ok) {
          n = m;
          symbolic = true;
          numerical = false;
        }
      } break;
      case 1:
        ok = symbolic && m == n;
        expect(c, k, ok, "NumericalFactorization of " + dims(A) + (symbolic ? " after the symbolic one of size " + to_string(n) : ""),
               [&] { p->NumericalFactorization(A); });
        if (ok) numerical = true;
        break;
      default: {
        const il::Array<double> y = vec<double>(near(s, m));
        ok = numerical && m == n && y.size() == n;
        const bool iterative = s.coin();
        expect(c, k, ok, std::string(iterative ? "SolveIterative" : "Solve") + " with " + dims(A) + " and y of " + to_string(y.size()) +
                             (numerical ? ", factorized with size " + to_string(n) : ", not factorized"),
               [&] { sink = sink + (iterative ? p->SolveIterative(A, y) : p->Solve(A, y)).size(); });
      }
    }
    // What a refusal leaves is not used
    if (!ok) {
      p.reset(new il::Pardiso);
      symbolic = numerical = false;
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

void gmresIlu0(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const int calls = static_cast<int>(s.range(1, 4));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n = s.range(1, 5), n1 = s.chance(1, 4) ? n + 1 : n;
    auto A = sparse<int>(n, n1);
    il::GmresIlu0 g{1.0e-6, 50, 10};
    const bool prepared = s.chance(3, 4);
    if (prepared) {
      expect(c, k, n == n1, "computePreconditionner of " + dims(A), [&] { g.computePreconditionner(il::io, A); });
      if (n != n1) continue;
    }
    const il::Array<double> y = vec<double>(near(s, n));
    bool zero = true;
    for (il::int_t j = 0; j < y.size(); ++j) zero = zero && y[j] == 0.0;
    if (zero) continue;
    expect(c, k, prepared && y.size() == n, "solve with " + dims(A) + (prepared ? "" : " without preconditioner") + " and y of " + to_string(y.size()),
           [&] { sink = sink + g.solve(y, il::io, A).size(); });
  }
  c.nontrivial = k.accepted && k.refused;
}

struct Functor : public il::FunctorArray<double> {
  il::int_t n0, n1;
  Functor(il::int_t a, il::int_t b) : n0{a}, n1{b} {}
  il::int_t size(il::int_t d) const override { return d == 0 ? n0 : n1; }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    for (il::int_t i = 0; i < n0; ++i) y[i] = (2.0 + 0.25 * static_cast<double>(i)) * x[i];
  }
};
double precision(pbt::Src& s) { return s.oneOf<double>({0.0, 1.0e-6, 1.0, -1.0e-6, -1.0, -1.0e-300, 1.0e-300}); }

template <typename Solver>
void options(pbt::Src& s, pbt::Ctx& c, Count& k, Solver& g) {
  const il::int_t m = index(s, 100, 100);
  expect(c, k, m >= 0, "SetMaxNbIterations(" + to_string(m) + ")", [&] { g.SetMaxNbIterations(m); });
}

void cg(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const int calls = static_cast<int>(s.range(1, 4));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n = s.range(1, 5);
    const Functor A{n, s.chance(1, 6) ? n + 1 : n}, B{near(s, n), near(s, n)};
    const bool conditioned = s.coin();
    const bool ok = A.n0 == A.n1 && (!conditioned || (B.n0 == n && B.n1 == n));
    std::unique_ptr<il::Cg<double>> g;
    expect(c, k, ok, "Cg of " + dims(A) + (conditioned ? " with a preconditioner of " + dims(B) : ""),
           [&] { g.reset(conditioned ? new il::Cg<double>{A, B} : new il::Cg<double>{A}); });
    if (!ok) continue;
    const il::Array<double> y = vec<double>(near(s, n));
    bool zero = true;
    for (il::int_t j = 0; j < y.size(); ++j) zero = zero && y[j] == 0.0;
    il::Status status{};
    switch (s.draw(6)) {
      case 0: {
        const double p = precision(s);
        expect(c, k, p >= 0, "SetRelativePrecision(" + to_string(p) + ")", [&] { g->SetRelativePrecision(p); });
      } break;
      case 1: {
        const double p = precision(s);
        expect(c, k, p >= 0, "SetAbsolutionPrecision(" + to_string(p) + ")", [&] { g->SetAbsolutionPrecision(p); });
      } break;
      case 2: options(s, c, k, *g); break;
      case 3:
        if (!zero) expect(c, k, y.size() == n, "Solve of " + dims(A) + " with y of " + to_string(y.size()), [&] {
          sink = sink + g->Solve(y, il::io, status).size();
          status.IgnoreError();
        });
        break;
      default:
        expect(c, k, y.size() == n, "SetToSolve of " + dims(A) + " with y of " + to_string(y.size()), [&] { g->SetToSolve(y.view()); });
        if (y.size() == n) {
          il::Array<double> x{s.coin() ? n : s.range(0, n)};
          expect(c, k, x.size() == n, "getSolution of " + to_string(n) + " in " + to_string(x.size()), [&] { g->getSolution(il::io, x.Edit()); });
        }
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

void gmres(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const int calls = static_cast<int>(s.range(1, 4));
  for (int i = 0; i < calls; ++i) {
    const il::int_t n = s.range(2, 5);
    const Functor A{n, s.chance(1, 6) ? n + 1 : n}, B{near(s, n), near(s, n)};
    const bool conditioned = s.coin();
    const bool ok = A.n0 == A.n1 && (!conditioned || (B.n0 == n && B.n1 == n));
    std::unique_ptr<il::Gmres<double>> g;
    expect(c, k, ok, "Gmres of " + dims(A) + (conditioned ? " with a preconditioner of " + dims(B) : ""),
           [&] { g.reset(conditioned ? new il::Gmres<double>{A, B, 10} : new il::Gmres<double>{A, 10}); });
    if (!ok) continue;
    const il::Array<double> y = vec<double>(near(s, n));
    il::Array<double> x{near(s, n), 0.0};
    bool zero = true;
    for (il::int_t j = 0; j < y.size(); ++j) zero = zero && y[j] == 0.0;
    il::Status status{};
    switch (s.draw(3)) {
      case 0: options(s, c, k, *g); break;
      case 1:
        if (!zero)
          expect(c, k, y.size() == n && x.size() == n, "Solve of " + dims(A) + " with y of " + to_string(y.size()) + " and x of " + to_string(x.size()), [&] {
            g->Solve(y.view(), 1.0e-6, 50, il::io, x.Edit(), status);
            status.IgnoreError();
          });
        break;
      default:
        expect(c, k, y.size() == n, "SetToSolve of " + dims(A) + " with y of " + to_string(y.size()), [&] { g->SetToSolve(y.view()); });
    }
  }
  c.nontrivial = k.accepted && k.refused;
}
}  // namespace
#endif

#if PBT_IN(0)
PROPERTY(vectors, 3) {
  switch (s.draw(4)) {
    case 0: level1<float, std::false_type>(s, c); break;
    case 1: level1<double, std::false_type>(s, c); break;
    case 2: level1<Cf, std::true_type>(s, c); break;
    default: level1<Cd, std::true_type>(s, c);
  }
}
PROPERTY(combinations, 1) { s.coin() ? combination<double>(s, c) : combination<Cd>(s, c); }
PROPERTY(statics, 1) { statics(s, c); }
#endif
#if PBT_IN(1)
PROPERTY(matrix_vector, 5) {
  switch (s.draw(8)) {
    case 0: level2<il::Array2D<float>, float>(s, c); break;
    case 1: level2<il::Array2D<double>, double>(s, c); break;
    case 2: level2<il::Array2D<Cf>, Cf>(s, c); break;
    case 3: level2<il::Array2D<Cd>, Cd>(s, c); break;
    case 4: level2<il::Array2C<float>, float>(s, c); break;
    case 5: level2<il::Array2C<double>, double>(s, c); break;
    case 6: level2<il::Array2C<Cf>, Cf>(s, c); break;
    default: level2<il::Array2C<Cd>, Cd>(s, c);
  }
}
PROPERTY(dot, 1) {
  switch (s.draw(5)) {
    case 0: dotVector<il::Array2D<double>>(s, c); break;
    case 1: dotVector<il::Array2C<double>>(s, c); break;
    case 2: dotMatrix<il::Array2D<float>, float>(s, c); break;
    case 3: dotMatrix<il::Array2D<double>, double>(s, c); break;
    default: dotMatrix<il::Array2C<double>, double>(s, c);
  }
}
#endif
#if PBT_IN(2)
PROPERTY(matrix_matrix, 6) {
  switch (s.draw(8)) {
    case 0: level3<il::Array2D<float>, float>(s, c); break;
    case 1: level3<il::Array2D<double>, double>(s, c); break;
    case 2: level3<il::Array2D<Cf>, Cf>(s, c); break;
    case 3: level3<il::Array2D<Cd>, Cd>(s, c); break;
    case 4: level3<il::Array2C<float>, float>(s, c); break;
    case 5: level3<il::Array2C<double>, double>(s, c); break;
    case 6: level3<il::Array2C<Cf>, Cf>(s, c); break;
    default: level3<il::Array2C<Cd>, Cd>(s, c);
  }
}
#endif
#if PBT_IN(3)
PROPERTY(triangular, 6) { s.coin() ? triangular<double>(s, c) : triangular<Cd>(s, c); }
PROPERTY(decompositions, 2) { s.coin() ? decompositions<double>(s, c) : decompositions<Cd>(s, c); }
PROPERTY(lu, 3) { lu(s, c); }
PROPERTY(cholesky, 2) { cholesky(s, c); }
PROPERTY(systems, 3) { systems(s, c); }
PROPERTY(norms, 1) { norms(s, c); }
#endif
#if PBT_IN(4)
PROPERTY(sparse_operands, 2) { sparseOperands(s, c); }
PROPERTY(pardiso, 1) { pardiso(s, c); }
PROPERTY(gmres_ilu0, 2) { gmresIlu0(s, c); }
PROPERTY(cg, 2) { cg(s, c); }
PROPERTY(gmres, 2) { gmres(s, c); }
#endif
