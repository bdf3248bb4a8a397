// C35: the points of the Sobol sequence.
#include <cmath>
#include <cstdint>
#include <vector>

#include <il/random/sobol.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "sequences of 0 to 1100 points in 1 to 40 dimensions (now and then more points), over [0, 1) and over intervals "
    "of any bounds. Non-trivial: at least 3 points in 2 dimensions";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 250000;
    pbt::thorough_cases = 2000000;
  }
} init;

il::int_t drawPoints(pbt::Src& s) {
  switch (s.weighted({4, 4, 3, 1})) {
    case 0: return s.range(0, 20);
    case 1: return (il::int_t{1} << s.range(1, 7)) - 1;
    case 2: return s.range(0, 200);
    default: return s.chance(1, 6) ? s.range(200, s.chance(1, 10) ? 40000 : 4100) : s.range(100, 1100);
  }
}
il::int_t drawDim(pbt::Src& s, il::int_t nb) {
  const il::int_t d = s.weighted({3, 1}) == 0 ? s.range(1, 6) : s.range(1, 40);
  return nb > 1000 ? (d - 1) % 6 + 1 : d;
}
}  // namespace

// The point of index 0, which is at the origin, is left out: the point of row k
// is the one of index k + 1.
PROPERTY(stratified, 6) {
  const il::int_t nb = drawPoints(s);
  const il::int_t dim = drawDim(s, nb);
  LOG(nb << " points, dimension " << dim);
  const il::Array2C<double> A = il::sobol(nb, dim, 0.0, 1.0);
  REQUIRE(A.size(0) == nb && A.size(1) == dim, A.size(0) << " x " << A.size(1));
  for (il::int_t i = 0; i < nb; ++i)
    for (il::int_t d = 0; d < dim; ++d)
      REQUIRE(A(i, d) >= 0.0 && A(i, d) < 1.0, "the coordinate " << d << " of the point " << i << " is " << A(i, d));
  auto x = [&](il::int_t k, il::int_t d) { return k == 0 ? 0.0 : A(k - 1, d); };
  // every aligned block of 2^p indices has one point in each of the 2^p
  // intervals of the same length, in every dimension
  long blocks = 0;
  for (int p = 1; (il::int_t{1} << p) <= nb + 1; ++p) {
    const il::int_t n = il::int_t{1} << p;
    for (il::int_t b = 0; b + n <= nb + 1; b += n) {
      for (il::int_t d = 0; d < dim; ++d) {
        std::vector<char> seen(static_cast<std::size_t>(n), 0);
        for (il::int_t k = b; k < b + n; ++k) {
          const std::size_t cell = static_cast<std::size_t>(std::floor(x(k, d) * static_cast<double>(n)));
          REQUIRE(!seen[cell], "dimension " << d << ": two of the points " << b << " to " << b + n - 1 << " are in the interval " << cell << " of " << n);
          seen[cell] = 1;
        }
        ++blocks;
      }
      // and in the first two dimensions, one point in each rectangle of area 1 / 2^p
      if (dim >= 2) {
        for (int q = 1; q < p; ++q) {
          const il::int_t n0 = il::int_t{1} << q, n1 = n / n0;
          std::vector<char> seen(static_cast<std::size_t>(n), 0);
          for (il::int_t k = b; k < b + n; ++k) {
            const std::size_t cell = static_cast<std::size_t>(std::floor(x(k, 0) * static_cast<double>(n0)) * static_cast<double>(n1) +
                                                              std::floor(x(k, 1) * static_cast<double>(n1)));
            REQUIRE(!seen[cell], "two of the points " << b << " to " << b + n - 1 << " are in the rectangle " << cell << " of " << n0 << " x " << n1);
            seen[cell] = 1;
          }
        }
      }
    }
  }
  c.nontrivial = nb >= 3 && dim >= 2;
  if (blocks > 100) c.tag("more than 100 blocks");
}

// A longer sequence begins with the shorter one, and the points depend on
// nothing but their index
PROPERTY(prefix, 2) {
  const il::int_t nb = drawPoints(s);
  const il::int_t dim = drawDim(s, nb);
  const il::int_t less = s.coin() ? nb : s.range(0, nb);
  LOG(nb << " and " << less << " points, dimension " << dim);
  const il::Array2C<double> A = il::sobol(nb, dim, 0.0, 1.0);
  if (s.coin()) il::sobol(drawPoints(s), s.range(1, 40), 0.0, 1.0);
  const il::Array2C<double> B = il::sobol(less, dim, 0.0, 1.0);
  REQUIRE(B.size(0) == less && B.size(1) == dim, B.size(0) << " x " << B.size(1));
  for (il::int_t i = 0; i < less; ++i)
    for (il::int_t d = 0; d < dim; ++d)
      REQUIRE(A(i, d) == B(i, d), "the coordinate " << d << " of the point " << i << " is " << A(i, d) << " out of " << nb << " points and " << B(i, d)
                                                    << " out of " << less);
  c.nontrivial = less >= 3 && dim >= 2;
}

// Over an interval [a, b], the points are those of [0, 1) scaled
PROPERTY(interval, 3) {
  const il::int_t nb = drawPoints(s);
  const il::int_t dim = drawDim(s, nb);
  double a, b;
  switch (s.weighted({3, 2, 2})) {
    case 0:
      a = static_cast<double>(s.range(-20, 20));
      b = a + static_cast<double>(s.range(1, 20));
      break;
    case 1:
      a = s.unit();
      b = a + 1e-3 + s.unit() * s.unit();
      break;
    default: {
      const double scale = std::ldexp(1.0, static_cast<int>(s.range(-200, 200)));
      a = s.unit() * scale;
      b = a + (s.unit() * s.unit() + 0.01) * scale;
    }
  }
  if (!(a < b)) throw pbt::Discard{};
  LOG(nb << " points, dimension " << dim << ", [" << a << ", " << b << "]");
  const il::Array2C<double> A = il::sobol(nb, dim, a, b);
  const il::Array2C<double> U = il::sobol(nb, dim, 0.0, 1.0);
  REQUIRE(A.size(0) == nb && A.size(1) == dim, A.size(0) << " x " << A.size(1));
  const double tolerance = 1.0e-14 * (std::fabs(a) + std::fabs(b));
  for (il::int_t i = 0; i < nb; ++i)
    for (il::int_t d = 0; d < dim; ++d) {
      const double e = a + (b - a) * U(i, d);
      REQUIRE(A(i, d) >= a && A(i, d) <= b, "the coordinate " << d << " of the point " << i << " is " << A(i, d));
      REQUIRE(std::fabs(A(i, d) - e) <= tolerance, "the coordinate " << d << " of the point " << i << " is " << A(i, d) << " and not " << e);
    }
  c.nontrivial = nb >= 3 && dim >= 2;
}
