// C21: sparse and matrix-free solvers.
#include <cmath>
#include <limits>

#include <il/Array.h>
#include <il/SparseMatrixCSR.h>
#include <il/Status.h>
#include <il/linearAlgebra/matrixFree/solver/Cg.h>
#include <il/linearAlgebra/matrixFree/solver/Gmres.h>
#include <il/linearAlgebra/sparse/factorization/GmresIlu0.h>
#include <il/linearAlgebra/sparse/factorization/Pardiso.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "sparse systems of 1 to 40 unknowns, now and then 300, (diagonally dominant, symmetric or not, with scaled "
    "rows) and right-hand sides (zero, one non-zero, random) are drawn, and histories of "
    "factorizations, changes of the coefficients and solves are run on one solver object. "
    "Non-trivial: the solver object is used more than once, or a preconditioner is used, and "
    "the system has more than two unknowns";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 60000;
    pbt::thorough_cases = 2500000;
  }
} init;

// A sparse matrix with its diagonal: rows of (column, value), sorted
struct Model {
  int n = 0;
  std::vector<std::vector<std::pair<int, double>>> row;
  std::vector<double> times(const std::vector<double>& x) const {
    std::vector<double> y(n, 0.0);
    for (int i = 0; i < n; ++i) {
      long double s = 0;
      for (auto& e : row[i]) s += static_cast<long double>(e.second) * x[e.first];
      y[i] = static_cast<double>(s);
    }
    return y;
  }
};

// The sparsity pattern, symmetric if asked
std::vector<std::vector<char>> drawPattern(pbt::Src& s, int n, bool symmetric) {
  std::vector<std::vector<char>> p(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; ++i) p[i][i] = 1;
  const int kind = static_cast<int>(s.range(0, 2));
  if (kind == 0) {  // tridiagonal
    for (int i = 0; i + 1 < n; ++i) p[i][i + 1] = p[i + 1][i] = 1;
  } else {
    const int m = kind == 1 ? n : 4 * n;
    for (int k = 0; k < m; ++k) {
      const int i = static_cast<int>(s.range(0, n - 1)), j = static_cast<int>(s.range(0, n - 1));
      p[i][j] = 1;
      if (symmetric) p[j][i] = 1;
    }
  }
  return p;
}

// Values on the pattern: strictly diagonally dominant
Model drawValues(pbt::Src& s, const std::vector<std::vector<char>>& p, bool symmetric, bool scaled) {
  Model a;
  a.n = static_cast<int>(p.size());
  a.row.resize(a.n);
  std::vector<std::vector<double>> v(a.n, std::vector<double>(a.n, 0.0));
  for (int i = 0; i < a.n; ++i)
    for (int j = 0; j < a.n; ++j)
      if (i != j && p[i][j] && (!symmetric || j > i)) {
        v[i][j] = s.chance(1, 12) ? 0.0 : s.unit();
        if (symmetric) v[j][i] = v[i][j];
      }
  for (int i = 0; i < a.n; ++i) {
    double sum = 0;
    for (int j = 0; j < a.n; ++j) sum += std::fabs(v[i][j]);
    v[i][i] = (1.3 + std::fabs(s.unit())) * sum + 0.2;
    if (!symmetric && s.coin()) v[i][i] = -v[i][i];
    const double f = scaled ? std::ldexp(1.0, static_cast<int>(s.range(-6, 6))) : 1.0;
    for (int j = 0; j < a.n; ++j)
      if (p[i][j]) a.row[i].push_back({j, f * v[i][j]});
  }
  return a;
}

template <typename Index>
il::SparseMatrixCSR<Index, double> build(const Model& a) {
  il::Array<Index> row{a.n + 1};
  il::Array<Index> column{};
  il::Array<double> element{};
  row[0] = 0;
  for (int i = 0; i < a.n; ++i) {
    for (auto& e : a.row[i]) {
      column.Append(static_cast<Index>(e.first));
      element.Append(e.second);
    }
    row[i + 1] = static_cast<Index>(column.size());
  }
  return il::SparseMatrixCSR<Index, double>{a.n, a.n, column, row, element};
}

template <typename Index>
void setValues(const Model& a, il::SparseMatrixCSR<Index, double>& A) {
  il::int_t k = 0;
  for (int i = 0; i < a.n; ++i)
    for (auto& e : a.row[i]) A.ElementData()[k++] = e.second;
}

// The matrix is the one of the model
template <typename Index>
void sameMatrix(pbt::Ctx& c, const Model& a, const il::SparseMatrixCSR<Index, double>& A,
                const char* who) {
  REQUIRE(A.size(0) == a.n && A.size(1) == a.n, who << " changed the size of the matrix");
  il::int_t k = 0;
  for (int i = 0; i < a.n; ++i) {
    REQUIRE(A.rowData()[i] == static_cast<Index>(k),
            who << " changed the index of row " << i << " to " << A.rowData()[i]);
    for (auto& e : a.row[i]) {
      REQUIRE(A.columnData()[k] == e.first,
              who << " changed the column of the entry " << k << " to " << A.columnData()[k]);
      REQUIRE(A.elementData()[k] == e.second, who << " changed the value of the entry " << k);
      ++k;
    }
  }
  REQUIRE(A.rowData()[a.n] == static_cast<Index>(k), who << " changed the last row index");
}

void logMatrix(pbt::Ctx& c, const Model& a) {
  if (!c.trace) return;
  for (int i = 0; i < a.n; ++i) {
    std::ostringstream line;
    line.precision(17);
    for (auto& e : a.row[i]) line << " (" << i << ", " << e.first << ") " << e.second;
    LOG(" " << line.str());
  }
}

std::vector<double> drawRhs(pbt::Src& s, int n, bool zero) {
  std::vector<double> y(n, 0.0);
  switch (s.weighted({zero ? 1u : 0u, 2u, 6u})) {
    case 0:
      break;
    case 1:
      y[s.range(0, n - 1)] = s.coin() ? 1.0 : -3.5;
      break;
    default:
      for (auto& v : y) v = s.unit();
      if (s.chance(1, 4))
        for (auto& v : y) v = std::ldexp(v, 40);
      else if (s.chance(1, 4))
        for (auto& v : y) v = std::ldexp(v, -40);
  }
  bool all = true;
  for (double v : y) all = all && v == 0.0;
  if (all && !zero) y[0] = 1.0;
  return y;
}

il::Array<double> toArray(const std::vector<double>& y, bool spare) {
  il::Array<double> a{static_cast<il::int_t>(y.size())};
  if (spare) a.Reserve(static_cast<il::int_t>(y.size()) + 3);
  for (std::size_t i = 0; i < y.size(); ++i) a[static_cast<il::int_t>(i)] = y[i];
  return a;
}

double norm(const std::vector<double>& v) {
  double m = 0;
  for (double e : v) m = std::max(m, std::fabs(e));
  if (m == 0 || !std::isfinite(m)) return m;
  double t = 0;
  for (double e : v) t += (e / m) * (e / m);
  return m * std::sqrt(t);
}

// ||A.x - y||, NaN if x is not a vector of numbers
template <typename X>
double residual(const Model& a, const X& x, const std::vector<double>& y) {
  std::vector<double> v(a.n);
  for (int i = 0; i < a.n; ++i) v[i] = x[i];
  std::vector<double> r = a.times(v);
  for (int i = 0; i < a.n; ++i) {
    r[i] -= y[i];
    if (!(std::fabs(r[i]) < std::numeric_limits<double>::infinity())) return std::numeric_limits<double>::quiet_NaN();
  }
  return norm(r);
}

int drawSize(pbt::Src& s, int most) {
  switch (s.weighted({2u, 6u, 1u})) {
    case 0:
      return static_cast<int>(s.range(1, 3));
    case 1:
      return static_cast<int>(s.range(2, 14));
    default:
      return static_cast<int>(s.range(15, s.chance(1, 10) ? most : 40));
  }
}

// A solution with the precision asked for
#define MEETS(c, what, a, x, y, precision)                                                    \
  do {                                                                                        \
    const double r_ = residual(a, x, y);                                                      \
    REQUIRE(r_ <= (precision)*norm(y) * 1.001 + 1.0e-12 * norm(y),                         \
            what << ": the residual is " << r_ << " for a right-hand side of norm " << norm(y) \
                 << " and a precision of " << (precision));                                   \
  } while (0)

void sameRhs(pbt::Ctx& c, const char* who, const il::Array<double>& y, const std::vector<double>& m) {
  REQUIRE(y.size() == static_cast<il::int_t>(m.size()), who << " changed the right-hand side");
  for (il::int_t i = 0; i < y.size(); ++i)
    REQUIRE(y[i] == m[i], who << " changed the element " << i << " of the right-hand side");
}

// ---------------------------------------------------------------- Pardiso
void pardiso(pbt::Src& s, pbt::Ctx& c) {
  c.ignore_leaks = true;
  il::Pardiso solver{};
  const int nb_matrices = static_cast<int>(s.range(1, 3));
  int nb_uses = 0, largest = 0;
  for (int m = 0; m < nb_matrices; ++m) {
    const int n = drawSize(s, 300);
    largest = std::max(largest, n);
    const bool scaled = s.chance(1, 3);
    auto p = drawPattern(s, n, s.coin());
    Model a = drawValues(s, p, false, scaled);
    il::SparseMatrixCSR<il::int_t, double> A = build<il::int_t>(a);
    LOG("symbolic factorization of a matrix with " << n << " rows and " << A.nbNonZeros() << " entries");
    solver.SymbolicFactorization(A);
    sameMatrix(c, a, A, "SymbolicFactorization");
    const int nb_values = static_cast<int>(s.range(0, 2));
    for (int v = 0; v < nb_values; ++v) {
      if (v > 0) {
        a = drawValues(s, p, false, scaled);
        setValues(a, A);
      }
      LOG("numerical factorization");
      solver.NumericalFactorization(A);
      sameMatrix(c, a, A, "NumericalFactorization");
      const int nb_rhs = static_cast<int>(s.range(1, 3));
      for (int k = 0; k < nb_rhs; ++k) {
        const std::vector<double> ym = drawRhs(s, n, true);
        const il::Array<double> y = toArray(ym, s.coin());
        const bool iterative = s.chance(1, 4);
        LOG((iterative ? "SolveIterative" : "Solve"));
        const il::Array<double> x = iterative ? solver.SolveIterative(A, y) : solver.Solve(A, y);
        REQUIRE(x.size() == n, "the solution has " << x.size() << " elements");
        MEETS(c, (iterative ? "SolveIterative" : "Solve"), a, x, ym, 1.0e-10);
        sameMatrix(c, a, A, "the solver");
        sameRhs(c, "the solver", y, ym);
        ++nb_uses;
      }
    }
  }
  c.tag(nb_matrices > 1 ? "several matrices" : "one matrix");
  if (nb_uses > 1 && largest > 2) c.nontrivial = true;
}

// ---------------------------------------------------------------- GmresIlu0
void gmresIlu0(pbt::Src& s, pbt::Ctx& c) {
  c.ignore_leaks = true;
  double precision = std::pow(10.0, -static_cast<double>(s.range(1, 10)));
  int restart = static_cast<int>(s.coin() ? s.range(3, 20) : s.range(20, 50));
  il::int_t max_nb = 150;
  il::GmresIlu0 solver{precision, 150, restart};
  const int nb_matrices = static_cast<int>(s.range(1, 3));
  int nb_uses = 0, largest = 0;
  for (int m = 0; m < nb_matrices; ++m) {
    const int n = drawSize(s, 300);
    largest = std::max(largest, n);
    const bool scaled = s.chance(1, 3);
    auto p = drawPattern(s, n, s.coin());
    Model a = drawValues(s, p, false, scaled);
    il::SparseMatrixCSR<int, double> A = build<int>(a);
    LOG("preconditioner of a matrix with " << n << " rows and " << A.nbNonZeros() << " entries");
    logMatrix(c, a);
    solver.computePreconditionner(il::io, A);
    sameMatrix(c, a, A, "computePreconditionner");
    if (s.chance(1, 3)) {
      precision = std::pow(10.0, -static_cast<double>(s.range(1, 10)));
      solver.setRelativePrecision(precision);
    }
    // Cycles which are shorter than n may stagnate
    if (s.chance(1, 2)) {
      restart = static_cast<int>(s.coin() ? n + s.range(0, 3) : s.range(3, 20));
      solver.setRestartIteration(restart);
    }
    if (s.chance(1, 4)) {
      max_nb = s.range(150, 300);
      solver.setMaxNbIteration(max_nb);
    }
    const int nb_values = static_cast<int>(s.range(1, 2));
    for (int v = 0; v < nb_values; ++v) {
      if (v > 0) {
        // other coefficients with the old preconditioner
        Model b = a;
        for (auto& row : b.row)
          for (auto& e : row) e.second *= 1.0 + 0.01 * s.unit();
        a = b;
        setValues(a, A);
      }
      const int nb_rhs = static_cast<int>(s.range(1, 2));
      for (int k = 0; k < nb_rhs; ++k) {
        const std::vector<double> ym = drawRhs(s, n, true);
        const il::Array<double> y = toArray(ym, s.coin());
        LOG("solve to " << precision << ", restart " << restart << ", norm of y " << norm(ym));
        const il::Array<double> x = solver.solve(y, il::io, A);
        REQUIRE(x.size() == n, "the solution has " << x.size() << " elements");
        if (restart >= n || solver.nbIterations() < max_nb) {
          MEETS(c, "GmresIlu0", a, x, ym, precision);
        } else {
          REQUIRE(residual(a, x, ym) <= 1.000001 * norm(ym), "the residual is larger than the one of 0");
        }
        REQUIRE(solver.nbIterations() >= 0 && solver.nbIterations() <= max_nb,
                "the number of iterations is " << solver.nbIterations());
        sameMatrix(c, a, A, "solve");
        sameRhs(c, "solve", y, ym);
        ++nb_uses;
      }
    }
  }
  if (nb_uses > 1 && largest > 2) c.nontrivial = true;
}

// ---------------------------------------------------------------- matrix-free
class Op : public il::FunctorArray<double> {
 public:
  const Model* a;
  mutable long calls = 0;
  explicit Op(const Model& m) : a{&m} {}
  il::int_t size(il::int_t d) const override {
    (void)d;
    return a->n;
  }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    ++calls;
    std::vector<double> v(a->n);
    for (int i = 0; i < a->n; ++i) v[i] = x[i];
    v = a->times(v);
    for (int i = 0; i < a->n; ++i) y[i] = v[i];
  }
};
// The inverse of the diagonal
class Jacobi : public il::FunctorArray<double> {
 public:
  std::vector<double> d;
  mutable long calls = 0;
  explicit Jacobi(const Model& a) : d(a.n) {
    for (int i = 0; i < a.n; ++i)
      for (auto& e : a.row[i])
        if (e.first == i) d[i] = 1.0 / e.second;
  }
  il::int_t size(il::int_t k) const override {
    (void)k;
    return static_cast<il::int_t>(d.size());
  }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    ++calls;
    for (std::size_t i = 0; i < d.size(); ++i) {
      const il::int_t k = static_cast<il::int_t>(i);
      y[k] = d[i] * x[k];
    }
  }
};

void cg(pbt::Src& s, pbt::Ctx& c) {
  c.ignore_leaks = true;
  const int n = drawSize(s, 300);
  const Model a = drawValues(s, drawPattern(s, n, true), true, false);
  const Op A{a};
  const Jacobi B{a};
  const bool preconditioned = s.coin();
  il::Cg<double> solver = preconditioned ? il::Cg<double>{A, B} : il::Cg<double>{A};
  double precision = 1.0e-6, absolute = 0.0;
  il::int_t max_nb = 100;
  const int nb = static_cast<int>(s.range(1, 4));
  for (int k = 0; k < nb; ++k) {
    if (s.coin()) {
      precision = std::pow(10.0, -static_cast<double>(s.range(1, 10)));
      solver.SetRelativePrecision(precision);
      REQUIRE(solver.relativePrecision() == precision, "relativePrecision");
    }
    if (s.chance(1, 4)) {
      absolute = s.coin() ? 0.0 : std::pow(10.0, -static_cast<double>(s.range(1, 10)));
      solver.SetAbsolutionPrecision(absolute);
      REQUIRE(solver.absolutePrecision() == absolute, "absolutePrecision");
    }
    if (s.chance(1, 4)) {
      max_nb = s.chance(1, 3) ? s.range(1, 4) : s.range(90, 200);
      solver.SetMaxNbIterations(max_nb);
      REQUIRE(solver.maxNbIterations() == max_nb, "maxNbIterations");
    }
    const std::vector<double> ym = drawRhs(s, n, true);
    const il::Array<double> y = toArray(ym, s.coin());
    B.calls = 0;
    LOG((preconditioned ? "preconditioned " : "") << "system of " << n << " unknowns, precision " << precision
           << " + " << absolute << ", at most " << max_nb << " iterations, norm of y " << norm(ym));
    if (s.coin()) {
      il::Status status{};
      const il::Array<double> x = solver.Solve(y, il::io, status);
      REQUIRE(x.size() == n, "the solution has " << x.size() << " elements");
      const bool ok = status.Ok();
      if (ok) {
        const double r = residual(a, x, ym);
        // With a preconditioner, the norm of the convergence test may be its norm
        double rb = r, yb = norm(ym);
        if (preconditioned) {
          std::vector<double> v(n), w;
          for (int i = 0; i < n; ++i) v[i] = x[i];
          w = a.times(v);
          double e = 0, f = 0;
          for (int i = 0; i < n; ++i) {
            e += (w[i] - ym[i]) * (w[i] - ym[i]) * B.d[i];
            f += ym[i] * ym[i] * B.d[i];
          }
          rb = std::sqrt(e);
          yb = std::sqrt(f);
        }
        REQUIRE(r <= precision * norm(ym) * 1.001 + absolute * 1.001 + 1.0e-12 * norm(ym) ||
                    rb <= precision * yb * 1.001 + absolute * 1.001 + 1.0e-12 * yb,
                "Solve: the residual is " << r << " for a right-hand side of norm " << norm(ym));
      } else {
        REQUIRE(max_nb < 90, "the conjugate gradient did not converge in " << max_nb << " iterations");
        c.tag("too few iterations");
      }
      REQUIRE(solver.nbIterations() >= 0 && solver.nbIterations() <= max_nb,
              solver.nbIterations() << " iterations out of " << max_nb);
    } else {
      solver.SetToSolve(y.view());
      REQUIRE(solver.nbIterations() == 0, "SetToSolve: " << solver.nbIterations() << " iterations");
      const double r0 = solver.trueResidualNorm();
      REQUIRE(std::fabs(r0 - norm(ym)) <= 1.0e-9 * norm(ym), "the first residual is " << r0);
      bool converged = norm(ym) == 0.0;
      il::Array<double> x{n, 0.5};
      for (int it = 1; !converged && it <= 200; ++it) {
        solver.Next();
        REQUIRE(solver.nbIterations() == it, it << " steps and " << solver.nbIterations() << " iterations");
        solver.getSolution(il::io, x.Edit());
        const double r = residual(a, x, ym);
        REQUIRE(std::fabs(r - solver.trueResidualNorm()) <= 1.0e-8 * norm(ym),
                "the residual after " << it << " iterations is " << r << " and " << solver.trueResidualNorm() << " is reported");
        converged = r <= 1.0e-10 * norm(ym);
      }
      REQUIRE(converged, "the residual is still larger than 1e-10 after 200 iterations");
    }
    REQUIRE(!preconditioned || solver.nbIterations() == 0 || B.calls > 0, "the preconditioner has not been used");
    sameRhs(c, "the solver", y, ym);
  }
  if ((nb > 1 || preconditioned) && n > 2) c.nontrivial = true;
}

void gmres(pbt::Src& s, pbt::Ctx& c) {
  c.ignore_leaks = true;
  const int n = drawSize(s, 60);
  const bool preconditioned = s.coin();
  const bool scaled = preconditioned && s.coin();
  const Model a = drawValues(s, drawPattern(s, n, s.coin()), false, scaled);
  const Op A{a};
  const Jacobi B{a};
  // The matrices may have eigenvalues on both sides: cycles of less than n
  // steps may stagnate
  const il::int_t restart = preconditioned && !scaled ? s.range(4, 20) : n + s.range(0, 3);
  il::Gmres<double> solver = preconditioned ? il::Gmres<double>{A, B, restart} : il::Gmres<double>{A, restart};
  const int nb = static_cast<int>(s.range(1, 4));
  bool stepwise = false;
  for (int k = 0; k < nb; ++k) {
    const std::vector<double> ym = drawRhs(s, n, true);
    const il::Array<double> y = toArray(ym, s.coin());
    B.calls = 0;
    if (s.coin()) {
      const double precision = std::pow(10.0, -static_cast<double>(s.range(1, 10)));
      const il::int_t max_nb = s.chance(1, 6) ? s.range(1, 4) : 200;
      LOG((preconditioned ? "preconditioned " : "") << "system of " << n << " unknowns, precision " << precision << ", restart "
             << restart << ", at most " << max_nb << " iterations, norm of y " << norm(ym));
      il::Array<double> x{n, 0.0};
      if (s.chance(1, 3))
        for (int i = 0; i < n; ++i) x[i] = norm(ym) * s.unit();
      il::Status status{};
      solver.Solve(y.view(), precision, max_nb, il::io, x.Edit(), status);
      if (status.Ok()) {
        MEETS(c, "Gmres", a, x, ym, precision);
      } else {
        REQUIRE(max_nb < 200 || restart < n, "GMRES did not converge in " << max_nb << " iterations");
        c.tag("too few iterations");
      }
      REQUIRE(solver.nbIterations() >= 0 && solver.nbIterations() <= max_nb,
              solver.nbIterations() << " iterations out of " << max_nb);
    } else {
      stepwise = true;
      LOG((preconditioned ? "preconditioned " : "") << "system of " << n << " unknowns, restart " << restart
             << ", step by step, norm of y " << norm(ym));
      solver.SetMaxNbIterations(200);
      REQUIRE(solver.maxNbIterations() == 200, "maxNbIterations");
      if (s.coin())
        solver.SetToSolve(y);
      else
        solver.SetToSolve(y.view());
      REQUIRE(solver.nbIterations() == 0, "SetToSolve: " << solver.nbIterations() << " iterations");
      REQUIRE(std::fabs(solver.normResidual() - norm(ym)) <= 1.0e-9 * norm(ym),
              "the first residual is " << solver.normResidual());
      bool converged = norm(ym) == 0.0;
      double previous = norm(ym);
      il::Array<double> x{n, 0.5};
      for (int it = 1; !converged && it <= 190; ++it) {
        solver.Next();
        REQUIRE(solver.nbIterations() == it, it << " steps and " << solver.nbIterations() << " iterations");
        solver.getSolution(il::io, x);
        const double r = residual(a, x, ym);
        REQUIRE(std::fabs(r - solver.normResidual()) <= 1.0e-8 * norm(ym),
                "the residual after " << it << " iterations is " << r << " and " << solver.normResidual() << " is reported");
        REQUIRE(r <= previous + 1.0e-5 * norm(ym), "the residual grows from " << previous << " to " << r);
        previous = r;
        converged = r <= 1.0e-7 * norm(ym);
      }
      REQUIRE(converged || restart < n, "the residual is still larger than 1e-7 after 190 iterations");
    }
    REQUIRE(!preconditioned || solver.nbIterations() == 0 || B.calls > 0, "the preconditioner has not been used");
    sameRhs(c, "the solver", y, ym);
  }
  (void)stepwise;
  if ((nb > 1 || preconditioned) && n > 2) c.nontrivial = true;
}
}  // namespace

PROPERTY(pardiso, 3) { pardiso(s, c); }
PROPERTY(gmres_ilu0, 3) { gmresIlu0(s, c); }
PROPERTY(cg, 3) { cg(s, c); }
PROPERTY(gmres, 3) { gmres(s, c); }
