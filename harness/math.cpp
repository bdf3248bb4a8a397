// C26: integer helpers against their definition.
#include <algorithm>
#include <cmath>

#include <il/math.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "arguments are drawn biased to small numbers, powers of 2, their neighbours "
    "and the limits of the type, within the domain where the result can be "
    "represented (checked with 128-bit integers). Non-trivial: a negative "
    "argument, a number next to a power of 2, or a power above 2^31";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 12000000;
    pbt::thorough_cases = 200000000;
  }
} init;

using Wide = __int128;

std::uint64_t u64(pbt::Src& s) {
  if (s.coin()) {
    const std::uint64_t p = std::uint64_t(1) << s.range(0, 63);
    return p + static_cast<std::uint64_t>(s.range(-2, 2));
  }
  return static_cast<std::uint64_t>(s.i64());
}

PROPERTY(abs_min_max, 3) {
  const std::int64_t a = s.i64();
  const std::int64_t b = s.i64();
  const int p = s.i32();
  const int q = s.i32();
  LOG("a " << a << ", b " << b << ", p " << p << ", q " << q);
  if (a < 0 || p < 0) c.nontrivial = true;
  if (a != INT64_MIN) REQUIRE(il::abs(static_cast<il::int_t>(a)) == (a < 0 ? -a : a), "abs " << il::abs(static_cast<il::int_t>(a)));
  if (p != INT32_MIN) REQUIRE(il::abs(p) == (p < 0 ? -p : p), "abs " << il::abs(p));
  REQUIRE(il::max(a, b) == (a > b ? a : b), "max " << il::max(a, b));
  REQUIRE(il::min(a, b) == (a < b ? a : b), "min " << il::min(a, b));
  REQUIRE(il::max(p, q) == (p > q ? p : q), "max " << il::max(p, q));
  REQUIRE(il::min(p, q) == (p < q ? p : q), "min " << il::min(p, q));
  REQUIRE(il::max(a, p) == (a > p ? a : p), "max with an int " << il::max(a, p));
  REQUIRE(il::max(p, a) == (a > p ? a : p), "max with an int " << il::max(p, a));
  std::int64_t v[6];
  std::int64_t hi = 0, lo = 0;
  for (int k = 0; k < 6; ++k) {
    v[k] = s.coin() ? s.range(-3, 3) : s.i64();
    LOG("v " << v[k]);
    hi = k == 0 || v[k] > hi ? v[k] : hi;
    lo = k == 0 || v[k] < lo ? v[k] : lo;
    if (k == 2) REQUIRE(il::max(v[0], v[1], v[2]) == hi, "max of 3");
    if (k == 3) REQUIRE(il::max(v[0], v[1], v[2], v[3]) == hi, "max of 4");
    if (k == 3) REQUIRE(il::min(v[0], v[1], v[2], v[3]) == lo, "min of 4");
    if (k == 4) REQUIRE(il::max(v[0], v[1], v[2], v[3], v[4]) == hi, "max of 5");
    if (k == 5) REQUIRE(il::max(v[0], v[1], v[2], v[3], v[4], v[5]) == hi, "max of 6");
  }
}

// The powers 1 to 129 of 2, -2 and 1, which are exact
template <il::int_t N>
struct Powers {
  static il::int_t wrong(double x) {
    return il::ipow<N>(x) != ((x < 0 && N % 2 != 0) ? -std::ldexp(1.0, std::fabs(x) == 1.0 ? 0 : N) : std::ldexp(1.0, std::fabs(x) == 1.0 ? 0 : N))
               ? N
               : Powers<N + 1>::wrong(x);
  }
};
template <>
struct Powers<130> {
  static il::int_t wrong(double) { return 0; }
};

PROPERTY(powers, 3) {
  const std::int64_t x = s.coin() ? s.range(-12, 12) : s.i64() >> s.range(0, 60);
  const std::int64_t n = s.size(63);
  Wide want = 1;
  bool fits = true;
  for (std::int64_t k = 0; k < n && fits; ++k) {
    want *= x;
    fits = want >= INT64_MIN && want <= INT64_MAX;
  }
  LOG("x " << x << ", n " << n);
  if (x < 0) c.nontrivial = true;
  if (fits) {
    if (want > 2147483648LL) c.nontrivial = true;
    const std::int64_t got = il::ipow(static_cast<il::int_t>(x), static_cast<il::int_t>(n));
    REQUIRE(got == static_cast<std::int64_t>(want), x << " to the power of " << n << " is " << got);
    if (want >= INT32_MIN && want <= INT32_MAX && x >= INT32_MIN && x <= INT32_MAX) {
      const int small = il::ipow(static_cast<int>(x), static_cast<il::int_t>(n));
      REQUIRE(small == static_cast<int>(want), x << " to the power of " << n << " is " << small << " for int");
    }
    const double d = il::ipow(static_cast<double>(x), static_cast<il::int_t>(n));
    const double wd = static_cast<double>(static_cast<std::int64_t>(want));
    REQUIRE(std::fabs(d - wd) <= 1e-13 * std::fabs(wd), x << " to the power of " << n << " is " << d << " for double");
  }
  {
    const double one = s.oneOf<double>({1.0, -1.0, 2.0, -2.0});
    const std::int64_t m = std::fabs(one) == 1.0 ? (s.coin() ? s.range(0, 1000) : s.i64() & INT64_MAX) : s.range(0, 1000);
    LOG(one << " to the power of " << m);
    const double got = il::ipow(one, static_cast<il::int_t>(m));
    const double value = std::fabs(one) == 1.0 ? 1.0 : std::ldexp(1.0, static_cast<int>(m));
    REQUIRE(got == (one < 0 && m % 2 != 0 ? -value : value), one << " to the power of " << m << " is " << got);
    const il::int_t bad = Powers<1>::wrong(one);
    REQUIRE(bad == 0, one << " to the power of " << bad << ", which is known at compile time");
  }
  // Powers known at compile time
  const double y = static_cast<double>(s.range(-9, 9));
  double w[9] = {1.0};
  for (int k = 1; k < 9; ++k) w[k] = w[k - 1] * y;
  REQUIRE(il::ipow<0>(y) == w[0] && il::ipow<1>(y) == w[1] && il::ipow<2>(y) == w[2] && il::ipow<3>(y) == w[3] &&
              il::ipow<4>(y) == w[4] && il::ipow<5>(y) == w[5] && il::ipow<6>(y) == w[6] && il::ipow<7>(y) == w[7] &&
              il::ipow<8>(y) == w[8],
          "a power of " << y << " known at compile time");
  REQUIRE(il::ipow<5>(static_cast<int>(y)) == static_cast<int>(w[5]) && il::ipow<7>(static_cast<int>(y)) == static_cast<int>(w[7]), "a power of the int " << y);
}

PROPERTY(floors, 3) {
  const std::int64_t a = s.i64();
  std::int64_t b = s.coin() ? s.range(1, 100) : s.i64();
  if (b <= 0) b = b == INT64_MIN || b == 0 ? 1 : -b;
  LOG("a " << a << ", b " << b);
  if (a < 0) c.nontrivial = true;
  Wide want = static_cast<Wide>(a) / b;
  if (static_cast<Wide>(a) % b < 0) --want;
  want *= b;
  if (want >= INT64_MIN) {
    const std::int64_t got = il::floor(static_cast<il::int_t>(a), static_cast<il::int_t>(b));
    REQUIRE(got == static_cast<std::int64_t>(want), a << " rounded to a multiple of " << b << " is " << got);
    if (b <= INT32_MAX) {
      const std::int64_t g = il::floor(static_cast<il::int_t>(a), static_cast<int>(b));
      REQUIRE(g == static_cast<std::int64_t>(want), a << " rounded to a multiple of the int " << b << " is " << g);
    }
  }
  double x = static_cast<double>(s.range(-1000000, 1000000)) / static_cast<double>(s.range(1, 64));
  if (s.chance(1, 3)) {  // Of any size
    x = static_cast<double>(s.i64()) / static_cast<double>(std::int64_t{1} << s.range(0, 40));
    if (!(std::fabs(x) < 9.2e18)) x = 3.0e9;
  }
  const std::int64_t f = il::floor(x);
  REQUIRE(std::fabs(x) > 1e15 ? f == static_cast<std::int64_t>(std::floor(x)) : static_cast<double>(f) <= x && static_cast<double>(f) + 1.0 > x, "floor of " << x << " is " << f);
}

PROPERTY(powers_of_two, 3) {
  std::uint64_t x = u64(s);
  if (x == 0) x = 1;
  LOG("x " << x);
  std::uint64_t lo = 1;
  int log = 0;
  while (lo <= x / 2) {
    lo *= 2;
    ++log;
  }
  if (x >= 3 && (x - lo <= 1 || lo - 1 + lo == x)) c.nontrivial = true;
  const int up = lo == x ? log : log + 1;
  REQUIRE(il::previous_power_of_2_64(x) == lo, "power of 2 below " << x << " is " << il::previous_power_of_2_64(x));
  if (up < 64) REQUIRE(il::next_power_of_2_64(x) == std::uint64_t(1) << up, "power of 2 above " << x << " is " << il::next_power_of_2_64(x));
  REQUIRE(il::nextLog2(static_cast<std::size_t>(x)) == up, "logarithm of " << x << " is " << il::nextLog2(static_cast<std::size_t>(x)));
  const unsigned int y = static_cast<unsigned int>(x) ? static_cast<unsigned int>(x) : 1u;
  unsigned int l32 = 1;
  int log32 = 0;
  while (l32 <= y / 2) {
    l32 *= 2;
    ++log32;
  }
  const int up32 = l32 == y ? log32 : log32 + 1;
  REQUIRE(il::previous_power_of_2_32(y) == l32, "power of 2 below " << y << " is " << il::previous_power_of_2_32(y));
  if (up32 < 32) REQUIRE(il::next_power_of_2_32(y) == 1u << up32, "power of 2 above " << y << " is " << il::next_power_of_2_32(y));
  REQUIRE(il::next_log2_32(y) == up32, "logarithm of " << y << " is " << il::next_log2_32(y));
}

PROPERTY(reals, 1) {
  const double x = s.smallDouble();
  const double y = s.smallDouble();
  LOG("x " << x << ", y " << y);
  if (x < 0) c.nontrivial = true;
  REQUIRE(il::abs(x) == std::fabs(x) && il::abs(static_cast<float>(x)) == std::fabs(static_cast<float>(x)), "abs");
  const std::complex<double> z{x, y};
  REQUIRE(std::fabs(il::abs(z) - std::abs(z)) <= 4e-16 * std::abs(z), "abs of a complex number " << il::abs(z));
  const std::complex<float> zf{static_cast<float>(x), static_cast<float>(y)};
  REQUIRE(std::fabs(il::abs(zf) - std::abs(zf)) <= 4e-7f * std::abs(zf), "abs of a complex number " << il::abs(zf));
  REQUIRE(il::conjugate(x) == x && il::conjugate(z) == std::conj(z) && il::real(z) == x && il::real(x) == x, "conjugate and real part");
  REQUIRE(il::max(x, y) == std::fmax(x, y) && il::min(x, y) == std::fmin(x, y), "min and max");
  const double w = s.coin() ? x : s.smallDouble();
  const double v = s.coin() ? y : s.smallDouble();
  REQUIRE(il::min(x, y, w, v) == std::fmin(std::fmin(x, v), std::fmin(y, w)), "minimum of " << x << ", " << y << ", " << w << ", " << v);
  const int i0 = static_cast<int>(s.i32()), i1 = static_cast<int>(s.i32()), i2 = static_cast<int>(s.i32()), i3 = static_cast<int>(s.i32());
  REQUIRE(il::min(i0, i1, i2, i3) == std::min({i0, i1, i2, i3}),
          "minimum of " << i0 << ", " << i1 << ", " << i2 << ", " << i3);
  REQUIRE(il::real(static_cast<float>(x)) == static_cast<float>(x), "real part of a float");
  REQUIRE(il::isFinite(x) && il::isFinite(z), "isFinite");
  const double bad = s.coin() ? HUGE_VAL : std::nan("");
  REQUIRE(!il::isFinite(bad) && !il::isFinite(-bad), "isFinite");
  REQUIRE(!il::isFinite(std::complex<double>{x, bad}) && !il::isFinite(std::complex<double>{bad, y}), "isFinite");
}

}  // namespace
