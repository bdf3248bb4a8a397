// C17: dense BLAS operations against the textbook formula.
#include <cmath>
#include <complex>
#include <limits>
#include <memory>

#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/linearAlgebra/dense/blas/blas.h>
#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/dense/blas/cross.h>
#include <il/linearAlgebra/dense/blas/dot.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "vectors, matrices in both storage orders and scalars of the 4 element types are "
    "drawn, of 0 to 12 rows and columns (now and then up to 300), compact, with spare "
    "capacity or as sub-matrices of larger ones full of NaN, with every combination "
    "of transpositions; integer values have to give exact results, others have to be "
    "within a rounding error bound of the formula computed in extended precision. "
    "Non-trivial: an operand is strided or transposed, or beta is neither 0 nor 1";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 1500000;
    pbt::thorough_cases = 20000000;
  }
} init;

using Cf = std::complex<float>;
using Cd = std::complex<double>;
using Real = long double;
using Ref = std::complex<long double>;

template <typename T>
struct El {
  static constexpr bool complex = false;
  using real = T;
  static T make(double re, double) { return static_cast<T>(re); }
  static Ref ref(T x) { return Ref(x, 0); }
};
template <typename R>
struct El<std::complex<R>> {
  static constexpr bool complex = true;
  using real = R;
  static std::complex<R> make(double re, double im) {
    return std::complex<R>(static_cast<R>(re), static_cast<R>(im));
  }
  static Ref ref(std::complex<R> x) { return Ref(x.real(), x.imag()); }
};
template <typename T>
const char* nameOf();
template <> const char* nameOf<float>() { return "float"; }
template <> const char* nameOf<double>() { return "double"; }
template <> const char* nameOf<Cf>() { return "complex<float>"; }
template <> const char* nameOf<Cd>() { return "complex<double>"; }

template <typename T>
T bad() {
  const double nan = std::numeric_limits<double>::quiet_NaN();
  return El<T>::make(nan, nan);
}
template <typename T>
bool sameBits(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

// How values are drawn: integers such that every operation is exact, or not
struct Values {
  bool exact;
  double scale;
  template <typename T>
  T draw(pbt::Src& s) const {
    double re, im = 0;
    if (exact) {
      re = static_cast<double>(s.range(-5, 5));
      if (El<T>::complex) im = static_cast<double>(s.range(-5, 5));
    } else {
      re = s.unit() * scale;
      if (El<T>::complex) im = s.unit() * scale;
    }
    return El<T>::make(re, im);
  }
  template <typename T>
  T scalar(pbt::Src& s) const {
    switch (s.draw(4)) {
      case 0: return El<T>::make(0, 0);
      case 1: return El<T>::make(1, 0);
      case 2: return El<T>::make(-1, 0);
      default: return draw<T>(s);
    }
  }
  static Values pick(pbt::Src& s) {
    Values v;
    v.exact = s.coin();
    const double sc[] = {1.0, 1e-6, 1e6};
    v.scale = sc[s.draw(3)];
    return v;
  }
};
il::int_t aSize(pbt::Src& s) {
  switch (s.weighted({8, 3, 1})) {
    case 0: return s.size(5);
    case 1: return s.size(12);
    default: return s.range(13, s.chance(1, 8) ? 300 : 70);
  }
}

// ------------------------------------------------------------------- Operands
template <typename T>
struct Vec {
  il::Array<T> parent;
  il::int_t n, first;
  std::vector<T> before;
  Vec(pbt::Src& s, const Values& v, il::int_t n_) : parent{}, n{n_}, first{0} {
    const bool sub = n > 0 && s.coin();
    il::int_t after = 0;
    if (sub) {
      first = s.range(0, 3);
      after = s.range(0, 3);
    }
    parent.Reserve(n + first + after + (s.coin() ? s.range(0, 4) : 0));
    parent.Resize(n + first + after);
    for (il::int_t i = 0; i < parent.size(); ++i) parent[i] = bad<T>();
    for (il::int_t i = 0; i < n; ++i) parent[first + i] = v.draw<T>(s);
    keep();
  }
  void keep() { before.assign(parent.data(), parent.data() + parent.size()); }
  void poison() {
    for (il::int_t i = 0; i < n; ++i) parent[first + i] = bad<T>();
    keep();
  }
  bool isSub() const { return n != parent.size(); }
  il::ArrayView<T> view() const {
    return isSub() ? parent.view(il::Range{first, first + n}) : parent.view();
  }
  il::ArrayEdit<T> edit() {
    return isSub() ? parent.Edit(il::Range{first, first + n}) : parent.Edit();
  }
  T at(il::int_t i) const { return before[first + i]; }
  T now(il::int_t i) const { return parent[first + i]; }
  void unchanged(pbt::Ctx& c, const char* what, bool output) const {
    REQUIRE(parent.size() == static_cast<il::int_t>(before.size()), what << ": size changed");
    for (il::int_t i = 0; i < parent.size(); ++i) {
      if (output && i >= first && i < first + n) continue;
      REQUIRE(sameBits(parent[i], before[i]), what << ": element " << i - first << " of a vector of " << n << " was changed");
    }
  }
  void log(pbt::Ctx& c, const char* what) const {
    if (!c.trace) return;
    c.log << what << " (" << n << " of " << parent.size() << " from " << first << "):";
    for (il::int_t i = 0; i < n; ++i) c.log << " " << at(i);
    c.log << "\n";
  }
};

template <typename T>
struct OrderD {
  using Array = il::Array2D<T>;
  using View = il::Array2DView<T>;
  using Edit = il::Array2DEdit<T>;
  static const char* name() { return "2D"; }
  static Edit sub(Array& a, il::Range r0, il::Range r1) { return a.Edit(r0, r1); }
};
template <typename T>
struct OrderC {
  using Array = il::Array2C<T>;
  using View = il::Array2CView<T>;
  using Edit = il::Array2CEdit<T>;
  static const char* name() { return "2C"; }
  static Edit sub(Array& a, il::Range r0, il::Range r1) { return a.Edit().Edit(r0, r1); }
};

template <typename T, template <typename> class Order>
struct Mat {
  using O = Order<T>;
  typename O::Array parent;
  il::int_t m, n, r, q;
  std::vector<T> before;
  Mat(pbt::Src& s, const Values& v, il::int_t m_, il::int_t n_) : parent{}, m{m_}, n{n_}, r{0}, q{0} {
    il::int_t p0 = m, p1 = n;
    if (m > 0 && n > 0 && s.coin()) {
      r = s.range(0, 2);
      q = s.range(0, 2);
      p0 += r + s.range(0, 2);
      p1 += q + s.range(0, 2);
    }
    if (s.chance(1, 3)) parent.Reserve(p0 + s.range(0, 3), p1 + s.range(0, 3));
    parent.Resize(p0, p1);
    for (il::int_t i = 0; i < p0; ++i) {
      for (il::int_t j = 0; j < p1; ++j) parent(i, j) = bad<T>();
    }
    for (il::int_t j = 0; j < n; ++j) {
      for (il::int_t i = 0; i < m; ++i) parent(r + i, q + j) = v.draw<T>(s);
    }
    keep();
  }
  void keep() {
    before.clear();
    for (il::int_t i = 0; i < parent.size(0); ++i) {
      for (il::int_t j = 0; j < parent.size(1); ++j) before.push_back(parent(i, j));
    }
  }
  void poison() {
    for (il::int_t j = 0; j < n; ++j) {
      for (il::int_t i = 0; i < m; ++i) parent(r + i, q + j) = bad<T>();
    }
    keep();
  }
  bool isSub() const { return m != parent.size(0) || n != parent.size(1); }
  bool strided() const { return isSub() || parent.capacity(0) != m; }
  typename O::View view() const {
    const typename O::Array& a = parent;
    return isSub() ? a.view(il::Range{r, r + m}, il::Range{q, q + n}) : a.view();
  }
  typename O::Edit edit() {
    return isSub() ? O::sub(parent, il::Range{r, r + m}, il::Range{q, q + n}) : parent.Edit();
  }
  T at(il::int_t i, il::int_t j) const { return before[(r + i) * parent.size(1) + q + j]; }
  T now(il::int_t i, il::int_t j) const { return parent(r + i, q + j); }
  // Element of op(A)
  Ref at(il::int_t i, il::int_t j, il::Dot op) const {
    switch (op) {
      case il::Dot::None: return El<T>::ref(at(i, j));
      case il::Dot::Transpose: return El<T>::ref(at(j, i));
      default: return std::conj(El<T>::ref(at(j, i)));
    }
  }
  void unchanged(pbt::Ctx& c, const char* what, bool output) const {
    il::int_t k = 0;
    for (il::int_t i = 0; i < parent.size(0); ++i) {
      for (il::int_t j = 0; j < parent.size(1); ++j, ++k) {
        if (output && i >= r && i < r + m && j >= q && j < q + n) continue;
        REQUIRE(sameBits(parent(i, j), before[k]), what << ": element (" << i - r << ", " << j - q << ") of a matrix " << m << " x " << n << " was changed");
      }
    }
  }
  void log(pbt::Ctx& c, const char* what) const {
    if (!c.trace) return;
    c.log << what << " (" << O::name() << ", " << m << " x " << n << " from " << r << ", " << q << " of "
          << parent.size(0) << " x " << parent.size(1) << ", capacity " << parent.capacity(0) << " x " << parent.capacity(1) << "):";
    for (il::int_t i = 0; i < m && i < 8; ++i) {
      for (il::int_t j = 0; j < n && j < 8; ++j) c.log << " " << at(i, j);
      c.log << ";";
    }
    c.log << "\n";
  }
};

Real mag(const Ref& x) { return std::fabs(x.real()) + std::fabs(x.imag()); }

// got against sum, for which "size" bounds the sum of the absolute values of
// the terms and "terms" is their number
template <typename T>
void near(pbt::Ctx& c, const char* what, il::int_t i, il::int_t j, T got, const Ref& sum, Real size,
          std::int64_t terms, bool exact) {
  const Real eps = std::numeric_limits<typename El<T>::real>::epsilon();
  const Real tol = exact ? 0 : eps * 4 * (terms + 4) * size + 1e-30L;
  const Real err = mag(El<T>::ref(got) - sum);
  REQUIRE(err <= tol, what << " (" << i << ", " << j << "): " << got << " instead of (" << static_cast<double>(sum.real()) << ", " << static_cast<double>(sum.imag()) << "), tolerance " << static_cast<double>(tol));
}

il::Dot anOp(pbt::Src& s) {
  const il::Dot ops[] = {il::Dot::None, il::Dot::Transpose, il::Dot::Star};
  return ops[s.draw(3)];
}
const char* opName(il::Dot op) {
  return op == il::Dot::None ? "" : op == il::Dot::Transpose ? "^T" : "^*";
}
template <typename T>
bool plain(T beta) { return beta == El<T>::make(0, 0) || beta == El<T>::make(1, 0); }
template <typename T>
void logCall(pbt::Ctx& c, const char* what, T alpha, T beta) {
  LOG(what << " for " << nameOf<T>() << ", alpha " << alpha << ", beta " << beta);
}

// ------------------------------------------------------------------- Refusals
#ifndef NDEBUG
template <typename F>
bool refused(F f) {
  try {
    f();
  } catch (const il::AbortException&) {
    return true;
  }
  return false;
}
#endif

// -------------------------------------------------------------------- Level 1
template <typename T>
void level1(pbt::Src& s, pbt::Ctx& c) {
  const Values v = Values::pick(s);
  const il::int_t n = aSize(s);
  Vec<T> x{s, v, n};
  Vec<T> y{s, v, n};
  const T alpha = v.scalar<T>(s);
  const T beta = v.scalar<T>(s);
  const bool withBeta = s.coin();
  logCall(c, withBeta ? "alpha x + beta y" : "alpha x + y", alpha, beta);
  x.log(c, "x");
  y.log(c, "y");
  if (n > 1 && (x.isSub() || y.isSub() || (withBeta && !plain(beta)))) c.nontrivial = true;
  if (withBeta) {
    il::blas(alpha, x.view(), beta, il::io, y.edit());
  } else {
    il::blas(alpha, x.view(), il::io, y.edit());
  }
  x.unchanged(c, "x", false);
  y.unchanged(c, "y", true);
  for (il::int_t i = 0; i < n; ++i) {
    const Ref p = El<T>::ref(alpha) * El<T>::ref(x.at(i));
    const Ref q = (withBeta ? El<T>::ref(beta) : Ref(1)) * El<T>::ref(y.at(i));
    near(c, "y", i, 0, y.now(i), p + q, 2 * (mag(p) + mag(q)) + mag(El<T>::ref(alpha)) * mag(El<T>::ref(x.at(i))) + mag(El<T>::ref(beta)) * mag(El<T>::ref(y.at(i))), 2, v.exact);
  }
}
PROPERTY(vectors, 3) {
  switch (s.draw(4)) {
    case 0: return level1<double>(s, c);
    case 1: return level1<float>(s, c);
    case 2: return level1<Cd>(s, c);
    default: return level1<Cf>(s, c);
  }
}

template <typename T>
void dotNone(const Vec<T>& x, const Vec<T>& y, bool whole, T& got) {
  got = whole ? il::dot(x.parent, y.parent) : il::dot(x.view(), y.view());
}
template <typename T>
typename std::enable_if<El<T>::complex>::type dotStar(const Vec<T>& x, const Vec<T>& y, bool whole,
                                                      int which, il::Dot op, T& got) {
  if (which == 0) {
    got = whole ? il::dot(x.parent, op, y.parent) : il::dot(x.view(), op, y.view());
  } else {
    got = whole ? il::dot(x.parent, y.parent, op) : il::dot(x.view(), y.view(), op);
  }
}
template <typename T>
typename std::enable_if<!El<T>::complex>::type dotStar(const Vec<T>& x, const Vec<T>& y, bool whole,
                                                       int, il::Dot, T& got) {
  dotNone(x, y, whole, got);
}

template <typename T>
void scalarProduct(pbt::Src& s, pbt::Ctx& c) {
  const Values v = Values::pick(s);
  const il::int_t n = aSize(s);
  Vec<T> x{s, v, n};
  Vec<T> y{s, v, n};
  const bool same = s.chance(1, 8);
  const Vec<T>& z = same ? x : y;
  const int which = static_cast<int>(s.draw(3));
  const il::Dot op = s.chance(1, 3) ? il::Dot::None : il::Dot::Star;
  LOG("x . y for " << nameOf<T>() << ", variant " << which << ", " << opName(op) << (same ? ", y is x" : ""));
  x.log(c, "x");
  z.log(c, "y");
  if (n > 1 && (x.isSub() || z.isSub() || which < 2)) c.nontrivial = true;
  const bool whole = !x.isSub() && !z.isSub() && s.coin();
  T got{};
  if (which == 2) {
    dotNone(x, z, whole, got);
  } else {
    dotStar(x, z, whole, which, op, got);
  }
  x.unchanged(c, "x", false);
  y.unchanged(c, "y", false);
  Ref want = 0;
  Real size = 0;
  for (il::int_t i = 0; i < n; ++i) {
    Ref a = El<T>::ref(x.at(i));
    Ref b = El<T>::ref(z.at(i));
    if (op == il::Dot::Star && which == 0) a = std::conj(a);
    if (op == il::Dot::Star && which == 1) b = std::conj(b);
    want += a * b;
    size += mag(a) * mag(b);
  }
  near(c, "dot", 0, 0, got, want, size, n, v.exact);
}
PROPERTY(dots, 3) {
  switch (s.draw(4)) {
    case 0: return scalarProduct<double>(s, c);
    case 1: return scalarProduct<float>(s, c);
    case 2: return scalarProduct<Cd>(s, c);
    default: return scalarProduct<Cf>(s, c);
  }
}

// ------------------------------------------------------- Linear combinations
template <typename T>
void combination(pbt::Src& s, pbt::Ctx& c) {
  const Values v = Values::pick(s);
  const il::int_t m = aSize(s);
  const il::int_t n = m > 12 ? s.size(6) : aSize(s);
  Mat<T, OrderD> X{s, v, m, n};
  Mat<T, OrderD> Y{s, v, m, n};
  const T alpha = v.scalar<T>(s);
  const T beta = v.scalar<T>(s);
  const bool zero = beta == El<T>::make(0, 0);
  const bool nan = zero && s.coin();
  if (nan) Y.poison();
  logCall(c, "alpha X + beta Y", alpha, beta);
  X.log(c, "X");
  Y.log(c, "Y");
  if (m > 0 && n > 1 && (X.strided() || Y.strided() || !plain(beta))) c.nontrivial = true;
  il::blas(alpha, X.view(), beta, il::io, Y.edit());
  X.unchanged(c, "X", false);
  Y.unchanged(c, "Y", true);
  for (il::int_t j = 0; j < n; ++j) {
    for (il::int_t i = 0; i < m; ++i) {
      const Ref x = El<T>::ref(X.at(i, j));
      const Ref y = zero ? Ref(0) : El<T>::ref(Y.at(i, j));
      const Ref a = El<T>::ref(alpha);
      const Ref b = El<T>::ref(beta);
      near(c, "Y", i, j, Y.now(i, j), a * x + b * y, mag(a) * mag(x) + mag(b) * mag(y), 2, v.exact);
    }
  }
}
PROPERTY(combinations, 1) {
  s.coin() ? combination<Cd>(s, c) : combination<double>(s, c);
}

// -------------------------------------------------------------------- Level 2
template <typename T, template <typename> class Order>
void level2(pbt::Src& s, pbt::Ctx& c) {
  const Values v = Values::pick(s);
  const il::int_t m = aSize(s);
  const il::int_t n = aSize(s);
  const il::Dot op = anOp(s);
  const bool noOp = op == il::Dot::None && s.coin();
  Mat<T, Order> A{s, v, m, n};
  const il::int_t rows = op == il::Dot::None ? m : n;
  const il::int_t cols = op == il::Dot::None ? n : m;
  const T alpha = v.scalar<T>(s);
  const T beta = v.scalar<T>(s);
  const bool zero = beta == El<T>::make(0, 0);
  LOG("alpha A" << opName(op) << ".x + beta y for " << nameOf<T>() << ", alpha " << alpha << ", beta " << beta);
  A.log(c, "A");
#ifndef NDEBUG
  if (s.chance(1, 10)) {
    il::int_t r = rows, k = cols;
    (s.coin() ? r : k) += s.coin() ? 1 : 2;
    Vec<T> x{s, v, k};
    Vec<T> y{s, v, r};
    LOG("x of " << k << " and y of " << r << " elements have to be refused");
    REQUIRE(refused([&] { il::blas(alpha, A.view(), op, x.view(), beta, il::io, y.edit()); }),
            "a matrix " << m << " x " << n << opName(op) << " times a vector of " << k << " in a vector of " << r << " was accepted");
    A.unchanged(c, "A", false);
    x.unchanged(c, "x", false);
    y.unchanged(c, "y", false);
    c.tag("refused");
    return;
  }
#endif
  Vec<T> x{s, v, cols};
  Vec<T> y{s, v, rows};
  if (zero && s.coin()) y.poison();
  x.log(c, "x");
  y.log(c, "y");
  if (m > 1 && n > 1 && (A.strided() || op != il::Dot::None || !plain(beta))) c.nontrivial = true;
  if (noOp) {
    il::blas(alpha, A.view(), x.view(), beta, il::io, y.edit());
  } else {
    il::blas(alpha, A.view(), op, x.view(), beta, il::io, y.edit());
  }
  A.unchanged(c, "A", false);
  x.unchanged(c, "x", false);
  y.unchanged(c, "y", true);
  for (il::int_t i = 0; i < rows; ++i) {
    Ref want = 0;
    Real size = 0;
    for (il::int_t k = 0; k < cols; ++k) {
      const Ref a = A.at(i, k, op);
      const Ref b = El<T>::ref(x.at(k));
      want += a * b;
      size += mag(a) * mag(b);
    }
    want *= El<T>::ref(alpha);
    size *= mag(El<T>::ref(alpha));
    if (!zero) {
      want += El<T>::ref(beta) * El<T>::ref(y.at(i));
      size += mag(El<T>::ref(beta)) * mag(El<T>::ref(y.at(i)));
    }
    near(c, "y", i, 0, y.now(i), want, size, cols + 2, v.exact);
  }
}
PROPERTY(matrixVector, 5) {
  switch (s.draw(8)) {
    case 0: return level2<double, OrderD>(s, c);
    case 1: return level2<double, OrderC>(s, c);
    case 2: return level2<float, OrderD>(s, c);
    case 3: return level2<float, OrderC>(s, c);
    case 4: return level2<Cd, OrderD>(s, c);
    case 5: return level2<Cd, OrderC>(s, c);
    case 6: return level2<Cf, OrderD>(s, c);
    default: return level2<Cf, OrderC>(s, c);
  }
}

// -------------------------------------------------------------------- Level 3
template <typename T, template <typename> class Order>
void level3(pbt::Src& s, pbt::Ctx& c) {
  const Values v = Values::pick(s);
  const il::int_t m = aSize(s);
  const il::int_t n = m > 12 ? s.size(9) : aSize(s);
  const il::int_t k = m > 12 || n > 12 ? s.size(9) : aSize(s);
  const il::Dot opa = anOp(s);
  const il::Dot opb = anOp(s);
  const bool ta = opa != il::Dot::None;
  const bool tb = opb != il::Dot::None;
  const T alpha = v.scalar<T>(s);
  const T beta = v.scalar<T>(s);
  const bool zero = beta == El<T>::make(0, 0);
  LOG("alpha A" << opName(opa) << ".B" << opName(opb) << " + beta C for " << nameOf<T>() << ", alpha " << alpha << ", beta " << beta);
#ifndef NDEBUG
  if (s.chance(1, 10)) {
    il::int_t d[6] = {ta ? k : m, ta ? m : k, tb ? n : k, tb ? k : n, m, n};
    d[s.draw(6)] += s.coin() ? 1 : 2;
    Mat<T, Order> A{s, v, d[0], d[1]};
    Mat<T, Order> B{s, v, d[2], d[3]};
    Mat<T, Order> C{s, v, d[4], d[5]};
    A.log(c, "A");
    B.log(c, "B");
    C.log(c, "C");
    REQUIRE(refused([&] { il::blas(alpha, A.view(), opa, B.view(), opb, beta, il::io, C.edit()); }),
            "the product of a matrix " << d[0] << " x " << d[1] << opName(opa) << " and a matrix " << d[2] << " x " << d[3] << opName(opb) << " in a matrix " << d[4] << " x " << d[5] << " was accepted");
    A.unchanged(c, "A", false);
    B.unchanged(c, "B", false);
    C.unchanged(c, "C", false);
    c.tag("refused");
    return;
  }
#endif
  Mat<T, Order> A{s, v, ta ? k : m, ta ? m : k};
  Mat<T, Order> B{s, v, tb ? n : k, tb ? k : n};
  Mat<T, Order> C{s, v, m, n};
  if (zero && s.coin()) C.poison();
  A.log(c, "A");
  B.log(c, "B");
  C.log(c, "C");
  if (m > 0 && n > 0 && k > 0 && (A.strided() || B.strided() || C.strided() || ta || tb || !plain(beta))) c.nontrivial = true;
  const bool shortForm = (!ta || !tb) && s.coin();
  if (!shortForm) {
    il::blas(alpha, A.view(), opa, B.view(), opb, beta, il::io, C.edit());
  } else if (!ta && !tb) {
    il::blas(alpha, A.view(), B.view(), beta, il::io, C.edit());
  } else if (ta) {
    il::blas(alpha, A.view(), opa, B.view(), beta, il::io, C.edit());
  } else {
    il::blas(alpha, A.view(), B.view(), opb, beta, il::io, C.edit());
  }
  A.unchanged(c, "A", false);
  B.unchanged(c, "B", false);
  C.unchanged(c, "C", true);
  // The complex products may use the method with 3 real multiplications, the
  // error of which is bounded by the norms only
  Real maxA = 0, maxB = 0;
  for (il::int_t i = 0; i < m; ++i) for (il::int_t l = 0; l < k; ++l) maxA = std::max(maxA, mag(A.at(i, l, opa)));
  for (il::int_t l = 0; l < k; ++l) for (il::int_t j = 0; j < n; ++j) maxB = std::max(maxB, mag(B.at(l, j, opb)));
  for (il::int_t j = 0; j < n; ++j) {
    for (il::int_t i = 0; i < m; ++i) {
      Ref want = 0;
      Real size = 0;
      for (il::int_t l = 0; l < k; ++l) {
        const Ref a = A.at(i, l, opa);
        const Ref b = B.at(l, j, opb);
        want += a * b;
        size += mag(a) * mag(b);
      }
      if (El<T>::complex) size = 8 * k * maxA * maxB;
      want *= El<T>::ref(alpha);
      size *= mag(El<T>::ref(alpha));
      if (!zero) {
        want += El<T>::ref(beta) * El<T>::ref(C.at(i, j));
        size += mag(El<T>::ref(beta)) * mag(El<T>::ref(C.at(i, j)));
      }
      near(c, "C", i, j, C.now(i, j), want, size, k + 2, v.exact);
    }
  }
}
PROPERTY(matrixMatrix, 6) {
  switch (s.draw(8)) {
    case 0: return level3<double, OrderD>(s, c);
    case 1: return level3<double, OrderC>(s, c);
    case 2: return level3<float, OrderD>(s, c);
    case 3: return level3<float, OrderC>(s, c);
    case 4: return level3<Cd, OrderD>(s, c);
    case 5: return level3<Cd, OrderC>(s, c);
    case 6: return level3<Cf, OrderD>(s, c);
    default: return level3<Cf, OrderC>(s, c);
  }
}

// -------------------------------------------------- Products of whole arrays
template <typename T, template <typename> class Order>
void wholeMatrixVector(pbt::Src& s, pbt::Ctx& c) {
  const Values v = Values::pick(s);
  const il::int_t m = aSize(s), n = aSize(s);
  Mat<T, Order> A{s, v, m, n};
  Vec<T> x{s, v, n};
  if (A.isSub() || x.isSub()) throw pbt::Discard{};
  LOG("dot(A, x) for " << nameOf<T>());
  A.log(c, "A");
  x.log(c, "x");
  if (m > 1 && n > 1 && A.strided()) c.nontrivial = true;
  const il::Array<T> y = il::dot(A.parent, x.parent);
  A.unchanged(c, "A", false);
  x.unchanged(c, "x", false);
  REQUIRE(y.size() == m, "size " << y.size() << " instead of " << m);
  for (il::int_t i = 0; i < m; ++i) {
    Ref want = 0;
    Real size = 0;
    for (il::int_t k = 0; k < n; ++k) {
      want += El<T>::ref(A.at(i, k)) * El<T>::ref(x.at(k));
      size += mag(El<T>::ref(A.at(i, k))) * mag(El<T>::ref(x.at(k)));
    }
    near(c, "y", i, 0, y[i], want, size, n, v.exact);
  }
}
template <typename T, template <typename> class Order>
void wholeMatrixMatrix(pbt::Src& s, pbt::Ctx& c) {
  const Values v = Values::pick(s);
  const il::int_t m = s.size(10), k = s.size(10), n = s.size(10);
  Mat<T, Order> A{s, v, m, k};
  Mat<T, Order> B{s, v, k, n};
  if (A.isSub() || B.isSub()) throw pbt::Discard{};
  LOG("dot(A, B) for " << nameOf<T>());
  A.log(c, "A");
  B.log(c, "B");
  if (m > 0 && n > 0 && k > 0 && (A.strided() || B.strided())) c.nontrivial = true;
  const auto C = il::dot(A.parent, B.parent);
  A.unchanged(c, "A", false);
  B.unchanged(c, "B", false);
  REQUIRE(C.size(0) == m && C.size(1) == n, "size " << C.size(0) << " x " << C.size(1) << " instead of " << m << " x " << n);
  for (il::int_t i = 0; i < m; ++i) {
    for (il::int_t j = 0; j < n; ++j) {
      Ref want = 0;
      Real size = 0;
      for (il::int_t l = 0; l < k; ++l) {
        want += El<T>::ref(A.at(i, l)) * El<T>::ref(B.at(l, j));
        size += mag(El<T>::ref(A.at(i, l))) * mag(El<T>::ref(B.at(l, j)));
      }
      near(c, "C", i, j, C(i, j), want, size, k, v.exact);
    }
  }
}
PROPERTY(wholeArrays, 2) {
  switch (s.draw(5)) {
    case 0: return wholeMatrixVector<double, OrderD>(s, c);
    case 1: return wholeMatrixVector<double, OrderC>(s, c);
    case 2: return wholeMatrixMatrix<double, OrderD>(s, c);
    case 3: return wholeMatrixMatrix<float, OrderD>(s, c);
    default: return wholeMatrixMatrix<double, OrderC>(s, c);
  }
}

// --------------------------------------------------------------- Static arrays
// Integer values: everything is exact
template <typename A>
void fill1(pbt::Src& s, A& a, il::int_t n) {
  for (il::int_t i = 0; i < n; ++i) a[i] = static_cast<double>(s.range(-5, 5));
}
template <typename A>
void fill2(pbt::Src& s, A& a, il::int_t m, il::int_t n) {
  for (il::int_t i = 0; i < m; ++i) for (il::int_t j = 0; j < n; ++j) a(i, j) = static_cast<double>(s.range(-5, 5));
}
template <typename A>
void fill3(pbt::Src& s, A& a, il::int_t m, il::int_t n, il::int_t p) {
  for (il::int_t i = 0; i < m; ++i) for (il::int_t j = 0; j < n; ++j) for (il::int_t k = 0; k < p; ++k) a(i, j, k) = static_cast<double>(s.range(-5, 5));
}
template <typename A>
void fill4(pbt::Src& s, A& a, il::int_t m, il::int_t n, il::int_t p, il::int_t q) {
  for (il::int_t i = 0; i < m; ++i) for (il::int_t j = 0; j < n; ++j) for (il::int_t k = 0; k < p; ++k) for (il::int_t l = 0; l < q; ++l) a(i, j, k, l) = static_cast<double>(s.range(-5, 5));
}

template <il::int_t n0, il::int_t n1, il::int_t n2, il::int_t n>
void statics(pbt::Src& s, pbt::Ctx& c) {
  c.nontrivial = true;
  LOG("static arrays with dimensions " << n0 << ", " << n1 << ", " << n2 << ", " << n);
  const double alpha = static_cast<double>(s.range(-3, 3));
  const double beta = static_cast<double>(s.range(-3, 3));
  il::StaticArray<double, n> x{0.0}, z{0.0};
  il::StaticArray2D<double, n0, n> A2{0.0};
  il::StaticArray2D<double, n, n1> B2{0.0};
  il::StaticArray3D<double, n0, n1, n> A3{0.0};
  il::StaticArray3D<double, n, n1, n2> B3{0.0};
  il::StaticArray4D<double, n0, n1, n2, n> A4{0.0};
  fill1(s, x, n);
  fill1(s, z, n);
  fill2(s, A2, n0, n);
  fill2(s, B2, n, n1);
  fill3(s, A3, n0, n1, n);
  fill3(s, B3, n, n1, n2);
  fill4(s, A4, n0, n1, n2, n);
  switch (s.draw(12)) {
    case 0: {
      il::StaticArray<double, n0> y{0.0};
      fill1(s, y, n0);
      il::StaticArray<double, n0> w = y;
      il::blas(alpha, A2, x, beta, il::io, y);
      for (il::int_t i = 0; i < n0; ++i) {
        double t = beta * w[i];
        for (il::int_t k = 0; k < n; ++k) t += alpha * A2(i, k) * x[k];
        REQUIRE(y[i] == t, "matrix-vector blas: y[" << i << "] is " << y[i] << " instead of " << t);
      }
      break;
    }
    case 1: {
      il::StaticArray2D<double, n0, n1> y{0.0};
      fill2(s, y, n0, n1);
      il::StaticArray2D<double, n0, n1> w = y;
      il::blas(alpha, A3, x, beta, il::io, y);
      for (il::int_t i = 0; i < n0; ++i) for (il::int_t j = 0; j < n1; ++j) {
        double t = beta * w(i, j);
        for (il::int_t k = 0; k < n; ++k) t += alpha * A3(i, j, k) * x[k];
        REQUIRE(y(i, j) == t, "rank 3 blas: (" << i << ", " << j << ") is " << y(i, j) << " instead of " << t);
      }
      break;
    }
    case 2: {
      il::StaticArray3D<double, n0, n1, n2> y{0.0};
      fill3(s, y, n0, n1, n2);
      il::StaticArray3D<double, n0, n1, n2> w = y;
      il::blas(alpha, A4, x, beta, il::io, y);
      for (il::int_t i = 0; i < n0; ++i) for (il::int_t j = 0; j < n1; ++j) for (il::int_t l = 0; l < n2; ++l) {
        double t = beta * w(i, j, l);
        for (il::int_t k = 0; k < n; ++k) t += alpha * A4(i, j, l, k) * x[k];
        REQUIRE(y(i, j, l) == t, "rank 4 blas: (" << i << ", " << j << ", " << l << ") is " << y(i, j, l) << " instead of " << t);
      }
      break;
    }
    case 3: {
      il::StaticArray3D<double, n, n1, n2> y{0.0};
      fill3(s, y, n, n1, n2);
      il::StaticArray3D<double, n, n1, n2> w = y;
      il::blas(alpha, B3, beta, il::io, y);
      for (il::int_t i = 0; i < n; ++i) for (il::int_t j = 0; j < n1; ++j) for (il::int_t l = 0; l < n2; ++l) {
        const double t = alpha * B3(i, j, l) + beta * w(i, j, l);
        REQUIRE(y(i, j, l) == t, "rank 3 combination: (" << i << ", " << j << ", " << l << ") is " << y(i, j, l) << " instead of " << t);
      }
      break;
    }
    case 4: {
      double t = 0;
      for (il::int_t k = 0; k < n; ++k) t += x[k] * z[k];
      REQUIRE(il::dot(x, z) == t, "scalar product " << il::dot(x, z) << " instead of " << t);
      break;
    }
    case 5: {
      const il::StaticArray<double, n0> y = il::dot(A2, x);
      for (il::int_t i = 0; i < n0; ++i) {
        double t = 0;
        for (il::int_t k = 0; k < n; ++k) t += A2(i, k) * x[k];
        REQUIRE(y[i] == t, "matrix-vector: y[" << i << "] is " << y[i] << " instead of " << t);
      }
      break;
    }
    case 6: {
      const il::StaticArray<double, n1> y = il::dot(B2, il::Dot::Transpose, x);
      const il::StaticArray<double, n1> w = il::dot(x, B2);
      for (il::int_t i = 0; i < n1; ++i) {
        double t = 0;
        for (il::int_t k = 0; k < n; ++k) t += B2(k, i) * x[k];
        REQUIRE(y[i] == t, "transposed matrix-vector: y[" << i << "] is " << y[i] << " instead of " << t);
        REQUIRE(w[i] == t, "vector-matrix: y[" << i << "] is " << w[i] << " instead of " << t);
      }
      break;
    }
    case 7: {
      const il::StaticArray2D<double, n0, n1> C = il::dot(A2, B2);
      for (il::int_t i = 0; i < n0; ++i) for (il::int_t j = 0; j < n1; ++j) {
        double t = 0;
        for (il::int_t k = 0; k < n; ++k) t += A2(i, k) * B2(k, j);
        REQUIRE(C(i, j) == t, "matrix-matrix: (" << i << ", " << j << ") is " << C(i, j) << " instead of " << t);
      }
      break;
    }
    case 8: {
      il::StaticArray2D<double, n, n0> At{0.0};
      fill2(s, At, n, n0);
      const il::StaticArray2D<double, n0, n1> C = il::dot(At, il::Dot::Transpose, B2);
      for (il::int_t i = 0; i < n0; ++i) for (il::int_t j = 0; j < n1; ++j) {
        double t = 0;
        for (il::int_t k = 0; k < n; ++k) t += At(k, i) * B2(k, j);
        REQUIRE(C(i, j) == t, "transposed matrix-matrix: (" << i << ", " << j << ") is " << C(i, j) << " instead of " << t);
      }
      break;
    }
    case 9: {
      const il::StaticArray3D<double, n0, n1, n2> C = il::dot(A2, B3);
      for (il::int_t i = 0; i < n0; ++i) for (il::int_t j = 0; j < n1; ++j) for (il::int_t l = 0; l < n2; ++l) {
        double t = 0;
        for (il::int_t k = 0; k < n; ++k) t += A2(i, k) * B3(k, j, l);
        REQUIRE(C(i, j, l) == t, "matrix-rank 3: (" << i << ", " << j << ", " << l << ") is " << C(i, j, l) << " instead of " << t);
      }
      break;
    }
    case 10: {
      const il::StaticArray2D<double, n0, n1> C = il::dot(A3, x);
      for (il::int_t i = 0; i < n0; ++i) for (il::int_t j = 0; j < n1; ++j) {
        double t = 0;
        for (il::int_t k = 0; k < n; ++k) t += A3(i, j, k) * x[k];
        REQUIRE(C(i, j) == t, "rank 3-vector: (" << i << ", " << j << ") is " << C(i, j) << " instead of " << t);
      }
      break;
    }
    default: {
      const il::StaticArray3D<double, n0, n1, n2> C = il::dot(A4, x);
      for (il::int_t i = 0; i < n0; ++i) for (il::int_t j = 0; j < n1; ++j) for (il::int_t l = 0; l < n2; ++l) {
        double t = 0;
        for (il::int_t k = 0; k < n; ++k) t += A4(i, j, l, k) * x[k];
        REQUIRE(C(i, j, l) == t, "rank 4-vector: (" << i << ", " << j << ", " << l << ") is " << C(i, j, l) << " instead of " << t);
      }
    }
  }
}
PROPERTY(staticArrays, 2) {
  switch (s.draw(5)) {
    case 0: return statics<2, 3, 4, 5>(s, c);
    case 1: return statics<1, 1, 1, 1>(s, c);
    case 2: return statics<3, 3, 3, 3>(s, c);
    case 3: return statics<4, 1, 2, 3>(s, c);
    default: return statics<2, 5, 1, 2>(s, c);
  }
}

PROPERTY(crossProducts, 1) {
  c.nontrivial = true;
  il::StaticArray<double, 2> u{0.0};
  fill1(s, u, 2);
  const il::StaticArray<double, 2> p = il::cross(u);
  REQUIRE(p[0] == -u[1] && p[1] == u[0], "cross(" << u[0] << ", " << u[1] << ") is " << p[0] << ", " << p[1]);
  il::StaticArray<double, 3> x{0.0}, y{0.0};
  fill1(s, x, 3);
  fill1(s, y, 3);
  LOG("(" << x[0] << ", " << x[1] << ", " << x[2] << ") x (" << y[0] << ", " << y[1] << ", " << y[2] << ")");
  const il::StaticArray<double, 3> z = il::cross(x, y);
  for (int i = 0; i < 3; ++i) {
    const int j = (i + 1) % 3, k = (i + 2) % 3;
    REQUIRE(z[i] == x[j] * y[k] - x[k] * y[j], "component " << i << " of the cross product is " << z[i]);
  }
}

}  // namespace
