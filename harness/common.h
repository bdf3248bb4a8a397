// Element types and helpers shared by the container harnesses.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include <complex>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <il/core.h>

#include "pbt.h"

namespace vt {

// An element which knows whether it is alive. It detects: use of an object
// which was never constructed or already destroyed, relocation by memcpy,
// missing and double destruction. Errors are recorded, not thrown, as they are
// met in destructors.
struct Tracked {
  static long& live() {
    static long n = 0;
    return n;
  }
  static const char*& error() {
    static const char* e = nullptr;
    return e;
  }
  static void err(const char* e) {
    if (!error()) error() = e;
  }
  static constexpr std::uint64_t magic = 0x5afe0b1ec7ab1e5eull;

  const Tracked* self;
  std::uint64_t key;
  long value;
  long* heap;

  void birth(long v) {
    self = this;
    key = magic;
    value = v;
    heap = static_cast<long*>(std::malloc(sizeof(long)));
    *heap = v;
    ++live();
  }
  bool alive() const { return self == this && key == magic; }
  void use(const char* what) const {
    if (!alive()) err(what);
  }
  Tracked() { birth(-7); }
  Tracked(long v) { birth(v); }
  Tracked(const Tracked& o) {
    o.use("copy construction from an object which is not alive");
    birth(o.value);
  }
  Tracked(Tracked&& o) {
    o.use("move construction from an object which is not alive");
    birth(o.value);
    o.set(-1);
  }
  Tracked& operator=(const Tracked& o) {
    o.use("assignment from an object which is not alive");
    use("assignment to an object which is not alive");
    set(o.value);
    return *this;
  }
  Tracked& operator=(Tracked&& o) {
    o.use("move assignment from an object which is not alive");
    use("move assignment to an object which is not alive");
    if (this != &o) {
      set(o.value);
      o.set(-1);
    }
    return *this;
  }
  ~Tracked() {
    if (!alive()) {
      err("destruction of an object which is not alive");
      return;
    }
    self = nullptr;
    key = 0;
    std::free(heap);
    heap = nullptr;
    --live();
  }
  void set(long v) {
    if (alive()) {
      value = v;
      *heap = v;
    }
  }
  bool operator==(const Tracked& o) const { return get() == o.get(); }
  bool operator!=(const Tracked& o) const { return get() != o.get(); }
  bool operator<(const Tracked& o) const { return get() < o.get(); }
  long get() const {
    use("read of an object which is not alive");
    if (!alive()) return -2;
    if (*heap != value) err("corrupted object");
    return value;
  }
};

// A plain structure, not trivial for the library
struct Big {
  std::int64_t a;
  char pad[13];
  Big() : a(-7) { std::memset(pad, 1, sizeof pad); }
  Big(long v) : a(v) { std::memset(pad, static_cast<int>(v & 63), sizeof pad); }
  bool operator==(const Big& o) const { return a == o.a; }
};

// Conversion of elements from and to the values of the models
template <typename T>
struct El {
  static T make(long v) { return static_cast<T>(v); }
  static long get(const T& x) { return x >= T(-2000000) && x <= T(2000000) ? static_cast<long>(x) : -96; }
  static constexpr long values = 1000000;
  static const char* name() { return "number"; }
  static constexpr long def = -7;
};
template <>
struct El<signed char> {
  static signed char make(long v) { return static_cast<signed char>(v % 100); }
  static long get(const signed char& x) { return x; }
  static constexpr long values = 100;
  static const char* name() { return "signed char"; }
  static constexpr long def = -7;
};
template <>
struct El<short> {
  static short make(long v) { return static_cast<short>(v); }
  static long get(const short& x) { return x; }
  static constexpr long values = 30000;
  static const char* name() { return "short"; }
  static constexpr long def = -7;
};
template <>
struct El<std::complex<double>> {
  static std::complex<double> make(long v) { return std::complex<double>(static_cast<double>(v), -static_cast<double>(v)); }
  static long get(const std::complex<double>& x) {
    return x.imag() == -x.real() && std::abs(x.real()) < 2e6 ? static_cast<long>(x.real()) : -99;
  }
  static constexpr long values = 1000000;
  static const char* name() { return "complex<double>"; }
  static constexpr long def = -7;
};
template <>
struct El<Tracked> {
  static Tracked make(long v) { return Tracked(v); }
  static long get(const Tracked& x) { return x.get(); }
  static constexpr long values = 1000000;
  static const char* name() { return "Tracked"; }
  static constexpr long def = -7;
};
template <>
struct El<Big> {
  static Big make(long v) { return Big(v); }
  static long get(const Big& x) {
    for (char ch : x.pad)
      if (x.a >= 0 && ch != static_cast<char>(x.a & 63)) return -98;
    return static_cast<long>(x.a);
  }
  static constexpr long values = 1000000;
  static const char* name() { return "Big"; }
  static constexpr long def = -7;
};
template <>
struct El<std::string> {
  static std::string make(long v) {
    return std::to_string(v) + ":" + std::string(static_cast<std::size_t>(v % 37), static_cast<char>('a' + v % 26));
  }
  static long get(const std::string& x) {
    if (x.empty()) return -1;
    const long v = std::atol(x.c_str());
    return x == make(v) ? v : -97;
  }
  static constexpr long values = 1000000;
  static const char* name() { return "std::string"; }
  static constexpr long def = -1;
};
template <> inline const char* El<int>::name() { return "int"; }
template <> inline const char* El<double>::name() { return "double"; }
template <> inline const char* El<float>::name() { return "float"; }

// il considers those as trivial: their default value is not specified
template <typename T>
struct Unspecified {
  static constexpr bool value = il::isTrivial<T>::value;
};

// Verify the book-keeping of Tracked
inline void trackedOk(pbt::Ctx& c) {
  if (Tracked::error()) {
    const std::string e = Tracked::error();
    Tracked::error() = nullptr;
    c.fail("element lifetime: " + e);
  }
}

struct TrackedScope {
  long before;
  TrackedScope() : before(Tracked::live()) { Tracked::error() = nullptr; }
  // To be called at the end of the case, once every container is destroyed
  void finish(pbt::Ctx& c) {
    trackedOk(c);
    if (Tracked::live() != before) {
      const long d = Tracked::live() - before;
      c.fail("element lifetime: " + pbt::str(d) + " element(s) not destroyed");
    }
  }
};

}  // namespace vt

#endif  // VERIF_COMMON_H
