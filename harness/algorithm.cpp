// C16: algorithms on arrays against their definition.
#include <algorithm>
#include <cmath>
#include <memory>

#include <il/algorithmArray.h>
#include <il/algorithmArray2D.h>

#include "common.h"

namespace pbt {
const char* rule =
    "an array of 0 to 60 elements (rarely up to 90000) of type int, il::int_t, "
    "float or double is drawn: few distinct values, sorted, reversed, limits of "
    "the type, or any; and a sub-range. Every algorithm is run on it and compared "
    "with its definition. Non-trivial: at least 2 distinct elements, and a range "
    "that leaves elements out";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 800000;
    pbt::thorough_cases = 40000000;
  }
} init;

template <typename T>
struct Any;
template <>
struct Any<int> { static int get(pbt::Src& s) { const int x = s.i32(); return x == INT32_MIN ? x + 1 : x; } };
template <>
struct Any<il::int_t> { static il::int_t get(pbt::Src& s) { const il::int_t x = s.i64(); return x == INT64_MIN ? x + 1 : x; } };
template <>
struct Any<double> { static double get(pbt::Src& s) { return s.coin() ? s.smallDouble() : s.finiteDouble(); } };
template <>
struct Any<float> {
  static float get(pbt::Src& s) {
    const double x = s.smallDouble();
    return static_cast<float>(x);
  }
};

template <typename T>
std::vector<T> values(pbt::Src& s, std::int64_t n) {
  std::vector<T> v;
  const std::size_t kind = s.draw(5);
  const std::int64_t distinct = 1 + s.size(6);
  for (std::int64_t i = 0; i < n; ++i) {
    switch (kind) {
      case 0: v.push_back(static_cast<T>(s.range(-distinct, distinct))); break;
      case 1: v.push_back(static_cast<T>(s.range(-distinct, distinct)) / 2); break;
      case 2: v.push_back(Any<T>::get(s)); break;
      case 3: v.push_back(static_cast<T>(s.range(-1000, 1000))); break;
      default: v.push_back(static_cast<T>(i % distinct)); break;
    }
  }
  switch (s.draw(5)) {
    case 0: std::sort(v.begin(), v.end()); break;
    case 1:
      std::sort(v.begin(), v.end());
      std::reverse(v.begin(), v.end());
      break;
    default: break;
  }
  return v;
}

template <typename T>
std::string show(const std::vector<T>& v) {
  std::ostringstream o;
  o.precision(17);
  o << v.size() << " elements:";
  for (std::size_t i = 0; i < v.size() && i < 60; ++i) o << " " << v[i];
  return o.str();
}
template <typename T>
il::Array<T> array(const std::vector<T>& v, il::int_t spare) {
  il::Array<T> a{};
  a.Reserve(static_cast<il::int_t>(v.size()) + spare);
  for (T x : v) a.Append(x);
  return a;
}
template <typename T>
bool same(const il::Array<T>& a, const std::vector<T>& v) {
  if (a.size() != static_cast<il::int_t>(v.size())) return false;
  for (il::int_t i = 0; i < a.size(); ++i)
    if (a[i] != v[static_cast<std::size_t>(i)]) return false;
  return true;
}

template <typename T>
void sorting(pbt::Src& s, pbt::Ctx& c) {
  const std::int64_t n = s.chance(1, 400) ? s.range(1000, s.chance(1, 4) ? 90000 : 20000) : s.size(60);
  const std::vector<T> v = values<T>(s, n);
  LOG(show(v));
  std::vector<T> w = v;
  std::sort(w.begin(), w.end());
  if (n > 0 && w.front() != w.back()) c.nontrivial = true;
  if (n > 999) c.tag("large");
  il::Array<T> a = array(v, s.size(3));
  {
    const il::Array<T>& b = a;
    REQUIRE(same(il::sort(b), w), "sorted copy");
    REQUIRE(same(a, v), "the array was modified by the sort of a copy");
  }
  {
    REQUIRE(same(il::sort(a), w), "sorted copy of a mutable array");
    REQUIRE(same(a, v), "the mutable array was modified by the sort of a copy");
  }
  il::sort(il::io, a);
  REQUIRE(same(a, w), "sort in place");
  // Search in the sorted array
  const int tries = 6;
  for (int k = 0; k < tries; ++k) {
    T x = n > 0 && s.coin() ? w[s.draw(w.size())] : values<T>(s, 1)[0];
    if (k == 4 && n > 0) x = w.front();
    if (k == 5 && n > 0) x = w.back();
    const bool present = std::binary_search(w.begin(), w.end(), x);
    const il::int_t i = il::binarySearch(a, x);
    LOG("search " << x);
    if (present) {
      REQUIRE(i >= 0 && i < n && a[i] == x, "binarySearch of " << x << ", present, gives " << i);
    } else {
      REQUIRE(i == -1, "binarySearch of " << x << ", absent, gives " << i);
    }
  }
  REQUIRE(same(a, w), "the array was modified by a search");
  // Static
  if (n >= 7) {
    il::StaticArray<T, 7> b;
    for (il::int_t i = 0; i < 7; ++i) b[i] = v[static_cast<std::size_t>(i)];
    std::vector<T> q(v.begin(), v.begin() + 7);
    std::sort(q.begin(), q.end());
    il::sort(il::io, b);
    for (il::int_t i = 0; i < 7; ++i) REQUIRE(b[i] == q[static_cast<std::size_t>(i)], "sort of a static array");
  }
}
PROPERTY(sorting_int, 2) { sorting<int>(s, c); }
PROPERTY(sorting_integer, 1) { sorting<il::int_t>(s, c); }
PROPERTY(sorting_double, 2) { sorting<double>(s, c); }

template <typename T>
T absT(T x) { return x < 0 ? -x : x; }

template <typename T>
void extrema(pbt::Src& s, pbt::Ctx& c) {
  const std::int64_t n = s.chance(1, 60) ? s.range(100, s.chance(1, 30) ? 70000 : 2000) : 1 + s.size(40);
  const std::vector<T> v = values<T>(s, n);
  const il::Array<T> a = array(v, s.size(3));
  LOG(show(v));
  const std::int64_t b = s.range(0, n - 1);
  const std::int64_t e = s.range(b + 1, n);
  LOG("range " << b << ", " << e);
  for (int part = 0; part < 2; ++part) {
    const bool all = part == 0;
    const std::int64_t i0 = all ? 0 : b;
    const std::int64_t i1 = all ? n : e;
    const il::Range r{i0, i1};
    T lo = v[static_cast<std::size_t>(i0)], hi = lo, ha = absT(lo);
    for (std::int64_t i = i0; i < i1; ++i) {
      const T x = v[static_cast<std::size_t>(i)];
      lo = std::min(lo, x);
      hi = std::max(hi, x);
      ha = std::max(ha, absT(x));
    }
    if (!all && lo != hi && i1 - i0 < n) c.nontrivial = true;
    const char* w = all ? "" : " of a range";
    REQUIRE((all ? il::min(a) : il::min(a, r)) == lo, "min" << w << " is " << (all ? il::min(a) : il::min(a, r)) << " instead of " << lo);
    REQUIRE((all ? il::max(a) : il::max(a, r)) == hi, "max" << w << " is " << (all ? il::max(a) : il::max(a, r)) << " instead of " << hi);
    REQUIRE((all ? il::maxAbs(a) : il::maxAbs(a, r)) == ha, "maxAbs" << w << " is " << (all ? il::maxAbs(a) : il::maxAbs(a, r)) << " instead of " << ha);
    const il::int_t imin = all ? il::indexMin(a) : il::indexMin(a, r);
    const il::int_t imax = all ? il::indexMax(a) : il::indexMax(a, r);
    const il::int_t iabs = all ? il::indexMaxAbs(a) : il::indexMaxAbs(a, r);
    REQUIRE(imin >= i0 && imin < i1 && a[imin] == lo, "indexMin" << w << " is " << imin);
    REQUIRE(imax >= i0 && imax < i1 && a[imax] == hi, "indexMax" << w << " is " << imax);
    REQUIRE(iabs >= i0 && iabs < i1 && absT(a[iabs]) == ha, "indexMaxAbs" << w << " is " << iabs);
    const il::MinMax<T> mm = all ? il::minMax(a) : il::minMax(a, r);
    REQUIRE(mm.min == lo && mm.max == hi, "minMax" << w << " is " << mm.min << ", " << mm.max << " instead of " << lo << ", " << hi);
    // The same column in a matrix
    il::Array2D<T> m{n, 2};
    const il::int_t j = s.range(0, 1);
    for (il::int_t i = 0; i < n; ++i) {
      m(i, j) = v[static_cast<std::size_t>(i)];
      m(i, 1 - j) = 77;
    }
    const il::MinMax<T> mc = il::minMax(m, r, j);
    REQUIRE(mc.min == lo && mc.max == hi, "minMax of a column" << w << " is " << mc.min << ", " << mc.max << " instead of " << lo << ", " << hi);
  }
  REQUIRE(same(a, v), "the array was modified");
}
PROPERTY(extrema_int, 2) { extrema<int>(s, c); }
PROPERTY(extrema_integer, 2) { extrema<il::int_t>(s, c); }
PROPERTY(extrema_double, 2) { extrema<double>(s, c); }
PROPERTY(extrema_float, 1) { extrema<float>(s, c); }

// Limits
PROPERTY(extrema_of_infinities, 1) {
  const double inf = HUGE_VAL;
  const std::int64_t n = 1 + s.size(5);
  std::vector<double> v;
  for (std::int64_t i = 0; i < n; ++i) v.push_back(s.oneOf<double>({0.0, inf, -inf, 1.7976931348623157e308, -1.7976931348623157e308}));
  LOG(show(v));
  const il::Array<double> a = array(v, 0);
  il::Array2D<double> m{n, 1};
  for (il::int_t i = 0; i < n; ++i) m(i, 0) = a[i];
  const double lo = *std::min_element(v.begin(), v.end());
  const double hi = *std::max_element(v.begin(), v.end());
  c.nontrivial = lo < hi;
  REQUIRE(il::min(a) == lo && il::max(a) == hi, "min " << il::min(a) << ", max " << il::max(a));
  const il::MinMax<double> mm = il::minMax(a);
  REQUIRE(mm.min == lo && mm.max == hi, "minMax " << mm.min << ", " << mm.max);
  const il::MinMax<double> mc = il::minMax(m, il::Range{0, n}, 0);
  REQUIRE(mc.min == lo && mc.max == hi, "minMax of a column " << mc.min << ", " << mc.max);
}

template <typename T>
void moments(pbt::Src& s, pbt::Ctx& c) {
  const std::int64_t n = s.chance(1, 60) ? s.range(100, s.chance(1, 30) ? 70000 : 2000) : 1 + s.size(40);
  std::vector<T> v;
  const double shift = s.coin() ? 0.0 : static_cast<double>(s.coin() ? s.range(-20, 20) : sizeof(T) == 4 ? s.range(-20000, 20000) : s.range(-1000000000, 1000000000));
  for (std::int64_t i = 0; i < n; ++i) v.push_back(static_cast<T>(shift + static_cast<double>(s.range(-1000, 1000)) / 8.0));
  LOG(show(v));
  const il::Array<T> a = array(v, s.size(3));
  const long double eps = sizeof(T) == 4 ? 6e-8L : 1.2e-16L;
  long double sum = 0, mag = 0, sq = 0;
  for (T x : v) {
    sum += x;
    mag += std::fabs(static_cast<long double>(x));
    sq += static_cast<long double>(x) * x;
  }
  const long double mean = sum / n;
  if (n > 1 && v.front() != v.back()) c.nontrivial = true;
  const long double tm = 8 * eps * (n + 4) * mag / n;
  const T m = il::mean(a);
  REQUIRE(std::fabs(m - mean) <= tm, "mean " << m << " instead of " << static_cast<double>(mean));
  long double q = 0;
  for (T x : v) q += (x - mean) * (x - mean);
  for (int k = 0; k < (n > 1 ? 2 : 1); ++k) {
    const il::VarianceKind kind = k == 0 ? il::VarianceKind::Population : il::VarianceKind::Sample;
    const long double dof = k == 0 ? n : n - 1;
    // Also when the mean is large before the deviations: no cancellation of squares
    const long double e = eps * (n + 4);
    const long double tv = (16 * e * (q + std::sqrt(q * sq)) + 64 * e * e * sq) / dof;
    const T var = il::variance(a, kind);
    REQUIRE(std::fabs(var - q / dof) <= tv, (k == 0 ? "population" : "sample") << " variance " << var << " instead of " << static_cast<double>(q / dof));
    const il::MeanVariance<T> mv = il::meanVariance(a, kind);
    REQUIRE(std::fabs(mv.mean - mean) <= tm, "mean " << mv.mean << " with the variance, instead of " << static_cast<double>(mean));
    REQUIRE(std::fabs(mv.variance - q / dof) <= tv, (k == 0 ? "population" : "sample") << " variance " << mv.variance << " with the mean, instead of " << static_cast<double>(q / dof));
  }
  REQUIRE(same(a, v), "the array was modified");
}
PROPERTY(moments_double, 2) { moments<double>(s, c); }
PROPERTY(moments_float, 1) { moments<float>(s, c); }

}  // namespace
