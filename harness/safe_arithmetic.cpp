// C07: overflow-checked arithmetic is exact or reports an error.
#include <climits>
#include <limits>
#include <type_traits>

#include <il/core.h>
#include <il/core/math/safe_arithmetic.h>

#include "pbt.h"

typedef __int128 wide;

namespace pbt {
const char* rule =
    "an operation, an integer type and 2-4 operands are drawn, operands being "
    "biased to limits, powers of two and to pairs whose exact result is within "
    "3 of a limit of the type; the oracle is 128-bit arithmetic; the error flag "
    "is preset to a random value. Non-trivial: the exact result is beyond, or "
    "within 1/8 of the range from, a limit of the type, or an operand is "
    "negative";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 16000000;
    pbt::thorough_cases = 320000000;
  }
} init;

std::string w2s(wide x) {
  if (x == 0) return "0";
  const bool neg = x < 0;
  unsigned __int128 u = neg ? -static_cast<unsigned __int128>(x) : static_cast<unsigned __int128>(x);
  std::string r;
  while (u) {
    r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
    u /= 10;
  }
  return neg ? "-" + r : r;
}

template <typename T>
T operand(pbt::Src& s) {
  return static_cast<T>(static_cast<std::uint64_t>(s.i64()));
}

template <typename T>
wide clampT(wide x) {
  const wide lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  return x < lo ? lo : (x > hi ? hi : x);
}

template <typename T>
bool fits(wide x) {
  return x >= static_cast<wide>(std::numeric_limits<T>::min()) &&
         x <= static_cast<wide>(std::numeric_limits<T>::max());
}

// A second operand such that the result is close to a limit
template <typename T>
T partner(pbt::Src& s, T a, int op) {
  if (s.chance(1, 2)) return operand<T>(s);
  const wide lim = s.coin() ? static_cast<wide>(std::numeric_limits<T>::max())
                            : static_cast<wide>(std::numeric_limits<T>::min());
  const wide d = s.range(0, 6) - 3;
  wide b = 0;
  if (op == 0) b = lim - a + d;
  if (op == 1) b = a - (lim + d);
  if (op == 2) b = a == 0 ? d : (lim / a) + d;
  return static_cast<T>(clampT<T>(b));
}

template <typename T>
void verdict(pbt::Ctx& c, const char* name, bool exists, wide exact, T got, bool error, bool may_be_conservative,
             wide a, wide b) {
  const bool ok = exists && fits<T>(exact);
  const wide hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::min();
  c.nontrivial = c.nontrivial || !ok || a < 0 || b < 0 || exact > hi - hi / 8 || (lo < 0 && exact < lo - lo / 8);
  c.tag(!ok ? "no exact result" : "exact result");
  if (ok && (exact == hi || exact == lo)) c.tag("exact result equal to a limit");
  if (ok) {
    if (error) {
      REQUIRE(may_be_conservative, name << ": error reported though the exact result " << w2s(exact) << " is representable");
    } else {
      REQUIRE(static_cast<wide>(got) == exact, name << ": got " << w2s(got) << " instead of " << w2s(exact));
    }
  } else {
    REQUIRE(error, name << ": no error reported, result " << w2s(got) << " while the exact result is "
                        << (exists ? w2s(exact) : std::string("undefined")));
  }
}

template <typename T>
void binary(pbt::Src& s, pbt::Ctx& c, const char* tn) {
  const int op = static_cast<int>(s.draw(3));
  const T a = operand<T>(s);
  const T b = partner<T>(s, a, op);
  bool error = s.coin();
  LOG(tn << " op " << op << " " << w2s(a) << " " << w2s(b) << " flag preset " << error);
  if (op == 0) {
    const T r = il::safeSum(a, b, il::io, error);
    verdict<T>(c, "safeSum", true, static_cast<wide>(a) + b, r, error, false, a, b);
  } else if (op == 1) {
    if constexpr (std::is_signed<T>::value) {
      const T r = il::safeDifference(a, b, il::io, error);
      verdict<T>(c, "safeDifference", true, static_cast<wide>(a) - b, r, error, false, a, b);
    }
  } else {
    const T r = il::safeProduct(a, b, il::io, error);
    wide exact;
    bool big = __builtin_mul_overflow(static_cast<wide>(a), static_cast<wide>(b), &exact);
    verdict<T>(c, "safeProduct", !big, big ? 0 : exact, r, error, false, a, b);
  }
}

template <typename T>
void multi(pbt::Src& s, pbt::Ctx& c, const char* tn) {
  const int n = 3 + static_cast<int>(s.draw(2));
  T x[4];
  wide exact = 1;
  bool over = false, zero = false;
  for (int i = 0; i < n; ++i) {
    if (i == n - 1 && !over && exact != 0 && fits<T>(exact))
      x[i] = partner<T>(s, static_cast<T>(exact), 2);
    else
      x[i] = s.coin() ? static_cast<T>(s.range(0, 2000)) : operand<T>(s);
    over = over || __builtin_mul_overflow(exact, static_cast<wide>(x[i]), &exact);
    zero = zero || x[i] == 0;
  }
  bool error = s.coin();
  LOG(tn << " product of " << n << ": " << w2s(x[0]) << " " << w2s(x[1]) << " " << w2s(x[2]) << " "
         << (n == 4 ? w2s(x[3]) : std::string()));
  const T r = n == 3 ? il::safeProduct(x[0], x[1], x[2], il::io, error)
                     : il::safeProduct(x[0], x[1], x[2], x[3], il::io, error);
  if (zero) {
    over = false;
    exact = 0;
  }
  // An error is allowed only when a partial product is not representable
  bool partial = false;
  if (n == 3) {
    wide p;
    partial = __builtin_mul_overflow(static_cast<wide>(x[0]), static_cast<wide>(x[1]), &p) || !fits<T>(p);
  } else {
    wide p, q;
    partial = __builtin_mul_overflow(static_cast<wide>(x[0]), static_cast<wide>(x[1]), &p) || !fits<T>(p) ||
              __builtin_mul_overflow(static_cast<wide>(x[2]), static_cast<wide>(x[3]), &q) || !fits<T>(q);
    // any other association
    wide t;
    partial = partial || __builtin_mul_overflow(p, static_cast<wide>(x[2]), &t) || !fits<T>(t);
  }
  if (zero) partial = true;
  verdict<T>(c, "safeProduct of several", !over, exact, r, error, partial, -1, -1);
}

template <typename T>
void division(pbt::Src& s, pbt::Ctx& c, const char* tn) {
  const T a = operand<T>(s);
  const T b = s.chance(1, 3) ? static_cast<T>(s.range(-1, 1)) : operand<T>(s);
  bool error = s.coin();
  LOG(tn << " division " << w2s(a) << " / " << w2s(b) << " flag preset " << error);
  const T r = il::safeDivision(a, b, il::io, error);
  verdict<T>(c, "safeDivision", b != 0, b != 0 ? static_cast<wide>(a) / b : 0, r, error, false, a, b);
}

template <typename T>
void upper(pbt::Src& s, pbt::Ctx& c, const char* tn) {
  T a = operand<T>(s), b = operand<T>(s);
  if (s.coin()) b = static_cast<T>(s.range(1, 4096));
  if (s.chance(1, 4)) a = static_cast<T>(std::numeric_limits<T>::max() - s.range(0, 300));
  if (a < 0) a = a == std::numeric_limits<T>::min() ? 0 : -a;
  if (b < 0) b = b == std::numeric_limits<T>::min() ? 1 : -b;
  if (b == 0) b = 1;
  bool error = s.coin();
  LOG(tn << " upper round " << w2s(a) << " to a multiple of " << w2s(b));
  const T r = il::safeUpperRound(a, b, il::io, error);
  const wide exact = (static_cast<wide>(a) + b - 1) / b * b;
  verdict<T>(c, "safeUpperRound", true, exact, r, error, false, a, b);
  if (exact != a) c.nontrivial = true;
}

template <typename To, typename From>
void convert(pbt::Src& s, pbt::Ctx& c) {
  const From a = s.coin() ? operand<From>(s)
                          : static_cast<From>(static_cast<From>(std::numeric_limits<To>::max()) +
                                              static_cast<From>(s.range(0, 4)) - static_cast<From>(2));
  bool error = s.coin();
  LOG("convert " << w2s(a) << " sizeof " << sizeof(To));
  const To r = il::safeConvert<To>(a, il::io, error);
  verdict<To>(c, "safeConvert", true, static_cast<wide>(a), r, error, false, a, a);
}
}  // namespace

PROPERTY(binary_operations, 6) {
  switch (s.draw(6)) {
    case 0: binary<int>(s, c, "int"); break;
    case 1: binary<long>(s, c, "long"); break;
    case 2: binary<long long>(s, c, "long long"); break;
    case 3: binary<unsigned>(s, c, "unsigned"); break;
    case 4: binary<unsigned long>(s, c, "unsigned long"); break;
    default: binary<unsigned long long>(s, c, "unsigned long long"); break;
  }
}

PROPERTY(product_of_several, 2) {
  switch (s.draw(3)) {
    case 0: multi<int>(s, c, "int"); break;
    case 1: multi<long>(s, c, "long"); break;
    default: multi<long long>(s, c, "long long"); break;
  }
}

PROPERTY(twice_a_nonnegative, 1) {
  long a = operand<long>(s);
  if (s.chance(1, 4)) a = LONG_MAX / 2 - 2 + s.range(0, 5);
  if (a < 0) a = ~a;
  bool error = s.coin();
  LOG("2 * " << a);
  const long r = il::safeProduct2Positive(a, il::io, error);
  verdict<long>(c, "safeProduct2Positive", true, 2 * static_cast<wide>(a), r, error, false, a, 2);
}

PROPERTY(division, 2) {
  switch (s.draw(3)) {
    case 0: division<int>(s, c, "int"); break;
    case 1: division<long>(s, c, "long"); break;
    default: division<long long>(s, c, "long long"); break;
  }
}

PROPERTY(upper_round, 2) {
  switch (s.draw(3)) {
    case 0: upper<int>(s, c, "int"); break;
    case 1: upper<long>(s, c, "long"); break;
    default: upper<long long>(s, c, "long long"); break;
  }
}

PROPERTY(conversion, 2) {
  switch (s.draw(6)) {
    case 0: convert<int, unsigned>(s, c); break;
    case 1: convert<unsigned, int>(s, c); break;
    case 2: convert<long, unsigned long>(s, c); break;
    case 3: convert<unsigned long, long>(s, c); break;
    case 4: convert<long long, unsigned long long>(s, c); break;
    default: convert<unsigned long long, long long>(s, c); break;
  }
}
