// C20: eigenvalues and singular values.
#include <algorithm>
#include <cmath>
#include <complex>
#include <limits>

#include <il/Array.h>
#include <il/Array2D.h>
#include <il/StaticArray2D.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <il/linearAlgebra/dense/factorization/Singular.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "matrices of 1 to 12 rows (now and then 120) are built from a spectrum (real or complex pairs, repeated, "
    "null, of very different sizes) and orthogonal transforms, or drawn at random, with "
    "spare capacity or not, real and complex (singular values), of scales between 1e-60 and "
    "1e60. Non-trivial: complex or repeated eigenvalues, a matrix which is not normal, or "
    "singular values that are null or repeated";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 300000;
    pbt::thorough_cases = 8000000;
  }
} init;

using Cd = std::complex<double>;
using Real = long double;
using Cl = std::complex<long double>;

template <typename T> struct Wide;
template <> struct Wide<double> { using type = long double; };
template <> struct Wide<Cd> { using type = Cl; };
Real conjugate(Real x) { return x; }
Cl conjugate(const Cl& x) { return std::conj(x); }
Real number(pbt::Src& s, Real) { return s.unit(); }
Cl number(pbt::Src& s, const Cl&) {
  const double re = s.unit();
  return Cl(re, s.unit());
}
double narrow(Real x) { return static_cast<double>(x); }
Cd narrow(const Cl& x) { return Cd(static_cast<double>(x.real()), static_cast<double>(x.imag())); }

// Square matrix, row after row
template <typename W>
struct Sq {
  int n;
  std::vector<W> a;
  explicit Sq(int n_) : n{n_}, a(n_ * n_, W(0)) {}
  W& operator()(int i, int j) { return a[i * n + j]; }
  const W& operator()(int i, int j) const { return a[i * n + j]; }
  Real frobenius() const {
    Real t = 0;
    for (const W& x : a) t += std::norm(Cl(x));
    return std::sqrt(t);
  }
};
template <typename W>
Sq<W> times(const Sq<W>& a, const Sq<W>& b) {
  Sq<W> c(a.n);
  for (int i = 0; i < a.n; ++i) for (int k = 0; k < a.n; ++k) for (int j = 0; j < a.n; ++j) c(i, j) += a(i, k) * b(k, j);
  return c;
}
// a <- H.a with H = I - 2 v v^* / v^*v, or a.H
template <typename W>
void reflect(pbt::Src& s, Sq<W>& a, bool left, bool right) {
  const int n = a.n;
  std::vector<W> v(n);
  Real vv = 0;
  for (W& x : v) {
    x = number(s, W(0));
    vv += std::norm(Cl(x));
  }
  if (vv < 1e-6L) return;
  if (left) {
    for (int j = 0; j < n; ++j) {
      W t(0);
      for (int i = 0; i < n; ++i) t += conjugate(v[i]) * a(i, j);
      t *= W(2 / vv);
      for (int i = 0; i < n; ++i) a(i, j) -= v[i] * t;
    }
  }
  if (right) {
    for (int i = 0; i < n; ++i) {
      W t(0);
      for (int j = 0; j < n; ++j) t += a(i, j) * v[j];
      t *= W(2 / vv);
      for (int j = 0; j < n; ++j) a(i, j) -= t * conjugate(v[j]);
    }
  }
}
double aScale(pbt::Src& s) {
  const double scales[] = {1.0, 1e-60, 1e60, 1e-10, 1e10};
  return scales[s.weighted({6, 1, 1, 1, 1})];
}
double aValue(pbt::Src& s) {
  const double small[] = {0.0, 1.0, 2.0, -1.0, 0.5, 1e-3, 1e-8, 1e-14};
  return s.coin() ? s.unit() * 3 : small[s.draw(8)];
}

// ---------------------------------------------------------------- Eigenvalues
il::Array2D<double> build(pbt::Src& s, const Sq<double>& a) {
  il::Array2D<double> A{};
  if (s.coin()) A.Reserve(a.n + s.range(0, 4), a.n + s.range(0, 4));
  A.Resize(a.n, a.n);
  for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) A(i, j) = a(i, j);
  return A;
}
std::vector<Cl> eigenvalues(pbt::Src& s, pbt::Ctx& c, const Sq<double>& a) {
  const il::Array2D<double> A = build(s, a);
  if (c.trace) {
    c.log << "A, " << a.n << " x " << a.n << ", capacity " << A.capacity(0) << " x " << A.capacity(1) << ":";
    for (int i = 0; i < a.n; ++i) {
      for (int j = 0; j < a.n; ++j) c.log << " " << a(i, j);
      c.log << ";";
    }
    c.log << "\n";
  }
  il::Status status{};
  const bool moved = s.coin();
  il::Array2D<double> B = build(s, a);
  const il::Eigen<il::Array2D<double>> eigen = moved ? il::Eigen<il::Array2D<double>>(std::move(B), il::io, status) : il::Eigen<il::Array2D<double>>(A, il::io, status);
  REQUIRE(status.Ok(), "the eigenvalues were not found");
  for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) REQUIRE(A(i, j) == a(i, j), "the matrix was changed");
  const il::Array<Cd> l = eigen.eigenValue();
  REQUIRE(l.size() == a.n, l.size() << " eigenvalues for a matrix of " << a.n << " rows");
  std::vector<Cl> ans;
  for (il::int_t i = 0; i < l.size(); ++i) {
    LOG("eigenvalue " << l[i].real() << " + i " << l[i].imag());
    ans.push_back(Cl(l[i].real(), l[i].imag()));
  }
  // Real matrix: the conjugate of an eigenvalue is an eigenvalue
  std::vector<bool> used(ans.size(), false);
  for (std::size_t i = 0; i < ans.size(); ++i) {
    if (used[i] || ans[i].imag() == 0) continue;
    bool found = false;
    std::size_t best = i;
    for (std::size_t j = 0; j < ans.size(); ++j) {
      if (j == i || used[j]) continue;
      if (best == i || std::abs(ans[j] - std::conj(ans[i])) < std::abs(ans[best] - std::conj(ans[i]))) best = j;
    }
    if (best != i && std::abs(ans[best] - std::conj(ans[i])) <= 1e-12L * std::abs(ans[i])) {
      used[i] = used[best] = true;
      found = true;
    }
    REQUIRE(found, "eigenvalue " << static_cast<double>(ans[i].real()) << " + i " << static_cast<double>(ans[i].imag()) << " has no conjugate");
  }
  return ans;
}

// Normal matrices: the eigenvalues are known up to rounding
PROPERTY(eigenNormal, 3) {
  const int n = s.chance(1, 100) ? static_cast<int>(s.range(13, 120)) : 1 + static_cast<int>(s.size(11));
  Sq<Real> a(n);
  std::vector<Cl> want;
  const double scale = aScale(s);
  int k = 0;
  while (k < n) {
    const bool pair = k + 1 < n && s.chance(1, 3);
    const bool repeat = !want.empty() && want.back().imag() == 0 && s.chance(1, 4);
    if (pair) {
      const double x = aValue(s), y = s.unit() * 2;
      a(k, k) = a(k + 1, k + 1) = x;
      a(k, k + 1) = y;
      a(k + 1, k) = -y;
      want.push_back(Cl(x, y));
      want.push_back(Cl(x, -y));
      k += 2;
      c.nontrivial = true;
    } else {
      const Real x = repeat ? want.back().real() : static_cast<Real>(aValue(s));
      if (repeat) c.nontrivial = true;
      a(k, k) = x;
      want.push_back(Cl(x, 0));
      ++k;
    }
  }
  const int reflexions = static_cast<int>(s.size(4));
  for (int i = 0; i < reflexions; ++i) reflect(s, a, true, true);
  Sq<double> d(n);
  for (int i = 0; i < n * n; ++i) d.a[i] = static_cast<double>(a.a[i]) * scale;
  for (Cl& x : want) x *= scale;
  std::vector<Cl> got = eigenvalues(s, c, d);
  const Real tol = 1e-14L * (n + 10) * d.frobenius();
  // Each eigenvalue is given to the nearest one left
  for (const Cl& w : want) {
    std::size_t best = 0;
    for (std::size_t i = 1; i < got.size(); ++i) if (std::abs(got[i] - w) < std::abs(got[best] - w)) best = i;
    REQUIRE(std::abs(got[best] - w) <= tol, "eigenvalue " << static_cast<double>(w.real()) << " + i " << static_cast<double>(w.imag()) << " is missing, the nearest one is at " << static_cast<double>(std::abs(got[best] - w)) << " for a norm of " << static_cast<double>(d.frobenius()));
    got.erase(got.begin() + best);
  }
}

// Any matrix: the eigenvalues are those of a matrix at a distance of a few
// ulps, so that the traces of its powers are known
PROPERTY(eigenAny, 3) {
  const int n = 1 + static_cast<int>(s.size(9));
  Sq<double> a(n);
  const double scale = aScale(s);
  const int kind = static_cast<int>(s.draw(4));
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      double x = kind == 0 ? static_cast<double>(s.range(-4, 4)) : s.unit();
      if (kind == 2 && i > j) x = 0;          // Triangular, defective at times
      if (kind == 2 && i == j && s.coin()) x = 1;
      if (kind == 3 && j != (i + 1) % n) x = 0;  // A cycle
      a(i, j) = x * scale;
    }
  }
  if (n > 1) c.nontrivial = true;
  std::vector<Cl> got = eigenvalues(s, c, a);
  Sq<Real> w(n), p(n);
  const Real norm = a.frobenius() == 0 ? 1 : a.frobenius();
  for (int i = 0; i < n * n; ++i) w.a[i] = a.a[i] / norm;
  for (int i = 0; i < n; ++i) p(i, i) = 1;
  std::vector<Cl> power(n, Cl(1));
  for (int k = 1; k <= n; ++k) {
    p = times(p, w);
    Cl sum = 0;
    for (int i = 0; i < n; ++i) {
      power[i] *= got[i] / norm;
      sum += power[i];
    }
    Real trace = 0;
    for (int i = 0; i < n; ++i) trace += p(i, i);
    REQUIRE(std::abs(sum - trace) <= 1e-14L * n * k * (n + 10), "the sum of the eigenvalues to the power " << k << " is " << static_cast<double>(sum.real()) << " instead of " << static_cast<double>(trace) << " for a matrix of norm 1");
  }
}

// ------------------------------------------------------------ Singular values
template <typename T, il::int_t n>
void singular(pbt::Src& s, pbt::Ctx& c) {
  using W = typename Wide<T>::type;
  Sq<W> a(static_cast<int>(n));
  std::vector<Real> want;
  const double scale = aScale(s);
  const bool known = s.chance(3, 4);
  if (known) {
    for (int i = 0; i < n; ++i) {
      Real x;
      if (!want.empty() && s.chance(1, 4)) {
        x = want.back();
        c.nontrivial = true;
      } else {
        x = std::fabs(static_cast<Real>(aValue(s)));
        if (x == 0) c.nontrivial = true;
      }
      want.push_back(x);
      a(i, i) = W(s.coin() ? x : -x);
    }
    const int r = static_cast<int>(s.size(3));
    for (int i = 0; i < r; ++i) reflect(s, a, true, false);
    const int q = static_cast<int>(s.size(3));
    for (int i = 0; i < q; ++i) reflect(s, a, false, true);
    std::sort(want.begin(), want.end(), [](Real x, Real y) { return x > y; });
  } else {
    for (W& x : a.a) x = number(s, W(0));
  }
  il::StaticArray2D<T, n, n> A{};
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = narrow(a(i, j) * W(scale));
  const il::StaticArray2D<T, n, n> keep = A;
  if (c.trace) {
    c.log << "A, " << n << " x " << n << ":";
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) c.log << " " << A(i, j);
      c.log << ";";
    }
    c.log << "\n";
  }
  il::Status status{};
  const il::StaticArray<double, n> got = il::singularValues(A, il::io, status);
  REQUIRE(status.Ok(), "the singular values were not found");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) REQUIRE(A(i, j) == keep(i, j), "the matrix was changed");
  Real sum = 0, product = 1;
  const Real norm = a.frobenius();
  for (int i = 0; i < n; ++i) {
    LOG("singular value " << got[i]);
    REQUIRE(got[i] >= 0, "singular value " << i << " is " << got[i]);
    REQUIRE(i == 0 || got[i] <= got[i - 1] * (1 + 1e-14), "the singular values " << got[i - 1] << " and " << got[i] << " are not in decreasing order");
    const Real x = static_cast<Real>(got[i]) / scale;
    sum += x * x;
    product *= x;
    if (known) REQUIRE(std::fabs(x - want[i]) <= 1e-14L * (n + 10) * norm, "singular value " << i << " is " << got[i] << " instead of " << static_cast<double>(want[i] * scale));
  }
  REQUIRE(std::fabs(std::sqrt(sum) - norm) <= 1e-14L * (n + 10) * norm, "the sum of the squares of the singular values is not the one of the elements");
  if (!known) {
    // |det A|, in extended precision
    if (n > 1) c.nontrivial = true;
    Real det = 1;
    for (int k = 0; k < n; ++k) {
      int p = k;
      for (int i = k; i < n; ++i) if (std::abs(Cl(a(i, k))) > std::abs(Cl(a(p, k)))) p = i;
      for (int j = 0; j < n; ++j) std::swap(a(p, j), a(k, j));
      det *= std::abs(Cl(a(k, k)));
      if (det == 0) break;
      for (int i = k + 1; i < n; ++i) {
        const W l = a(i, k) / a(k, k);
        for (int j = k; j < n; ++j) a(i, j) -= l * a(k, j);
      }
    }
    const Real bound = std::pow(norm, static_cast<Real>(n));
    REQUIRE(std::fabs(product - det) <= 1e-13L * (n + 10) * n * bound, "the product of the singular values is " << static_cast<double>(product) << " instead of " << static_cast<double>(det));
  }
}
PROPERTY(singularReal, 2) {
  switch (s.draw(6)) {
    case 0: return singular<double, 2>(s, c);
    case 1: return singular<double, 1>(s, c);
    case 2: return singular<double, 3>(s, c);
    case 3: return singular<double, 4>(s, c);
    case 4: return singular<double, 6>(s, c);
    default: return singular<double, 9>(s, c);
  }
}
PROPERTY(singularComplex, 2) {
  switch (s.draw(6)) {
    case 0: return singular<Cd, 2>(s, c);
    case 1: return singular<Cd, 1>(s, c);
    case 2: return singular<Cd, 3>(s, c);
    case 3: return singular<Cd, 4>(s, c);
    case 4: return singular<Cd, 6>(s, c);
    default: return singular<Cd, 9>(s, c);
  }
}

}  // namespace
