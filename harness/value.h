// Model of the values of il::Dynamic, shared by the harnesses of il::Dynamic
// and of the file formats.
#ifndef VERIF_VALUE_H
#define VERIF_VALUE_H

#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include <il/Dynamic.h>

#include "pbt.h"

namespace vv {

enum Kind {
  Void, Bool, U8, I8, U16, I16, Integer, Single, Double, Str,
  ArrU8, ArrI8, ArrU16, ArrI16, ArrU32, ArrI32, ArrU64, ArrI64, ArrDouble,
  Mat8, MatDouble,
  Arr, Map, MapArr,
  nb_kinds
};
inline const char* name(Kind k) {
  static const char* n[] = {"void", "bool", "uint8", "int8", "uint16", "int16", "integer", "float", "double", "string",
                            "array of uint8", "array of int8", "array of uint16", "array of int16", "array of uint32",
                            "array of int32", "array of uint64", "array of int64", "array of double",
                            "matrix of uint8", "matrix of double", "array", "map", "map array"};
  return n[k];
}
inline il::Type type(Kind k) {
  static const il::Type t[] = {
      il::Type::Void, il::Type::Bool, il::Type::UInt8, il::Type::Int8, il::Type::UInt16, il::Type::Int16,
      il::Type::Integer, il::Type::Single, il::Type::Double, il::Type::UnicodeString,
      il::Type::ArrayOfUInt8, il::Type::ArrayOfInt8, il::Type::ArrayOfUInt16, il::Type::ArrayOfInt16,
      il::Type::ArrayOfUInt32, il::Type::ArrayOfInt32, il::Type::ArrayOfUInt64, il::Type::ArrayOfInt64,
      il::Type::ArrayOfDouble, il::Type::Array2DOfUInt8, il::Type::Array2DOfDouble,
      il::Type::ArrayOfDynamic, il::Type::MapStringToDynamic, il::Type::MapArrayStringToDynamic};
  return t[k];
}

struct V {
  Kind kind = Void;
  std::int64_t bits = 0;             // scalars: the value, or the bits of it
  std::string s;
  std::vector<std::int64_t> a;       // elements of numeric arrays
  std::int64_t n0 = 0, n1 = 0;       // sizes of matrices
  std::vector<V> children;
  std::vector<std::string> keys;     // in the order of insertion
};

inline bool equal(const V& x, const V& y);

inline std::int64_t bitsOf(double x) {
  std::int64_t b;
  std::memcpy(&b, &x, sizeof b);
  return b;
}
inline std::int64_t bitsOf(float x) {
  std::int32_t b;
  std::memcpy(&b, &x, sizeof b);
  return b;
}
inline double doubleOf(std::int64_t b) {
  double x;
  std::memcpy(&x, &b, sizeof x);
  return x;
}
inline float floatOf(std::int64_t b) {
  const std::int32_t i = static_cast<std::int32_t>(b);
  float x;
  std::memcpy(&x, &i, sizeof x);
  return x;
}

inline il::String str(const std::string& s) {
  return il::String{il::StringType::Byte, s.data(), static_cast<il::int_t>(s.size())};
}
inline il::String utf8(const std::string& s) {
  return il::String{il::StringType::Utf8, s.data(), static_cast<il::int_t>(s.size())};
}
inline std::string text(const il::String& s) { return std::string(s.data(), static_cast<std::size_t>(s.size())); }

// Description, for the replays
inline std::string show(const V& v, int depth = 0) {
  std::ostringstream o;
  o.precision(17);
  o << name(v.kind);
  if (v.kind == Single) {
    o << " bits " << std::hex << static_cast<std::uint32_t>(v.bits);
  } else if (v.kind == Double) {
    o << " " << doubleOf(v.bits) << " bits " << std::hex << static_cast<std::uint64_t>(v.bits);
  } else if (v.kind <= Integer && v.kind != Void) {
    o << " " << v.bits;
  } else if (v.kind == Str) {
    o << " " << pbt::quote(v.s);
  } else if (v.kind >= ArrU8 && v.kind <= MatDouble) {
    if (v.kind >= Mat8) o << " " << v.n0 << "x" << v.n1;
    o << " {";
    for (std::size_t i = 0; i < v.a.size(); ++i) {
      o << (i ? ", " : "");
      if (v.kind == ArrDouble || v.kind == MatDouble) {
        o << doubleOf(v.a[i]);
      } else {
        o << v.a[i];
      }
    }
    o << "}";
  } else if (v.kind >= Arr) {
    o << " {";
    for (std::size_t i = 0; i < v.children.size(); ++i) {
      o << (i ? ", " : "");
      if (v.kind != Arr) o << pbt::quote(v.keys[i]) << ": ";
      o << (depth > 8 ? std::string("...") : show(v.children[i], depth + 1));
    }
    o << "}";
  }
  return o.str();
}

template <typename T>
T element(std::int64_t b) { return static_cast<T>(b); }
template <>
inline double element<double>(std::int64_t b) { return doubleOf(b); }

template <typename T>
std::int64_t unelement(const T& x) { return static_cast<std::int64_t>(x); }
template <>
inline std::int64_t unelement<double>(const double& x) { return bitsOf(x); }

template <typename T>
il::Array<T> array(const V& v) {
  // Some spare capacity, at times
  il::Array<T> x{static_cast<il::int_t>(v.a.size())};
  if (v.bits & 1) x.Reserve(x.size() + 3);
  for (std::size_t i = 0; i < v.a.size(); ++i) x[static_cast<il::int_t>(i)] = element<T>(v.a[i]);
  return x;
}
template <typename T>
il::Array2D<T> matrix(const V& v) {
  il::Array2D<T> x{v.n0, v.n1};
  if (v.bits & 1) x.Reserve(v.n0 + 1, v.n1 + 2);
  for (il::int_t j = 0; j < v.n1; ++j)
    for (il::int_t i = 0; i < v.n0; ++i) x(i, j) = element<T>(v.a[static_cast<std::size_t>(j * v.n0 + i)]);
  return x;
}

inline il::Dynamic build(const V& v);

template <typename T>
il::Dynamic wrap(T&& x, const V& v) {
  // By copy or by move
  if (v.bits & 2) {
    const typename std::remove_reference<T>::type& y = x;
    return il::Dynamic{y};
  }
  return il::Dynamic{std::move(x)};
}

inline il::Array<il::Dynamic> buildArray(const V& v) {
  il::Array<il::Dynamic> x{};
  for (const V& e : v.children) x.Append(build(e));
  return x;
}
template <typename M>
M buildMap(const V& v) {
  M x{};
  for (std::size_t i = 0; i < v.children.size(); ++i) x.Set(utf8(v.keys[i]), build(v.children[i]));
  return x;
}
using MapT = il::Map<il::String, il::Dynamic>;
using MapArrayT = il::MapArray<il::String, il::Dynamic>;

inline il::Dynamic build(const V& v) {
  switch (v.kind) {
    case Void: return il::Dynamic{};
    case Bool: return il::Dynamic{v.bits != 0};
    case U8: return il::Dynamic{static_cast<unsigned char>(v.bits)};
    case I8: return il::Dynamic{static_cast<signed char>(v.bits)};
    case U16: return il::Dynamic{static_cast<unsigned short>(v.bits)};
    case I16: return il::Dynamic{static_cast<short>(v.bits)};
    case Integer:
      if (v.bits >= -2147483648LL && v.bits <= 2147483647LL && v.bits % 2) return il::Dynamic{static_cast<int>(v.bits)};
      return il::Dynamic{static_cast<il::int_t>(v.bits)};
    case Single: return il::Dynamic{floatOf(v.bits)};
    case Double: return il::Dynamic{doubleOf(v.bits)};
    case Str: return wrap(utf8(v.s), v);
    case ArrU8: return wrap(array<unsigned char>(v), v);
    case ArrI8: return wrap(array<signed char>(v), v);
    case ArrU16: return wrap(array<unsigned short>(v), v);
    case ArrI16: return wrap(array<short>(v), v);
    case ArrU32: return wrap(array<unsigned int>(v), v);
    case ArrI32: return wrap(array<int>(v), v);
    case ArrU64: return wrap(array<std::size_t>(v), v);
    case ArrI64: return wrap(array<il::int_t>(v), v);
    case ArrDouble: return wrap(array<double>(v), v);
    case Mat8: return wrap(matrix<unsigned char>(v), v);
    case MatDouble: return wrap(matrix<double>(v), v);
    case Arr: return wrap(buildArray(v), v);
    case Map: return wrap(buildMap<MapT>(v), v);
    default: return wrap(buildMap<MapArrayT>(v), v);
  }
}

template <typename T>
void compareArray(pbt::Ctx& c, const il::Array<T>& x, const V& v, const std::string& where) {
  REQUIRE(x.size() == static_cast<il::int_t>(v.a.size()), where << ": size " << x.size() << " instead of " << v.a.size());
  for (std::size_t i = 0; i < v.a.size(); ++i) {
    REQUIRE(unelement<T>(x[static_cast<il::int_t>(i)]) == unelement<T>(element<T>(v.a[i])), where << ": element " << i);
  }
}
template <typename T>
void compareMatrix(pbt::Ctx& c, const il::Array2D<T>& x, const V& v, const std::string& where) {
  REQUIRE(x.size(0) == v.n0 && x.size(1) == v.n1, where << ": size " << x.size(0) << "x" << x.size(1) << " instead of " << v.n0 << "x" << v.n1);
  for (il::int_t j = 0; j < v.n1; ++j)
    for (il::int_t i = 0; i < v.n0; ++i)
      REQUIRE(unelement<T>(x(i, j)) == unelement<T>(element<T>(v.a[static_cast<std::size_t>(j * v.n0 + i)])), where << ": element (" << i << ", " << j << ")");
}

inline void compare(pbt::Ctx& c, const il::Dynamic& d, const V& v, const std::string& where);

template <typename M>
void compareMap(pbt::Ctx& c, const M& x, const V& v, const std::string& where, bool ordered) {
  REQUIRE(x.nbElements() == static_cast<il::int_t>(v.keys.size()), where << ": " << x.nbElements() << " keys instead of " << v.keys.size());
  for (std::size_t i = 0; i < v.keys.size(); ++i) {
    const il::spot_t p = x.search(utf8(v.keys[i]));
    REQUIRE(x.found(p), where << ": no key " << pbt::quote(v.keys[i]));
    compare(c, x.value(p), v.children[i], where + "." + pbt::quote(v.keys[i]));
  }
  std::size_t k = 0;
  for (il::spot_t i = x.spotBegin(); i != x.spotEnd(); i = x.next(i)) {
    REQUIRE(k < v.keys.size(), where << ": too many entries visited");
    if (ordered) {
      REQUIRE(text(x.key(i)) == v.keys[k], where << ": entry " << k << " is " << pbt::quote(text(x.key(i))) << " instead of " << pbt::quote(v.keys[k]));
    }
    ++k;
  }
  REQUIRE(k == v.keys.size(), where << ": " << k << " entries visited instead of " << v.keys.size());
}

// The number of types for which is<T>() holds, and which
inline int holds(const il::Dynamic& d, bool (&is)[nb_kinds]) {
  const bool r[nb_kinds] = {
      d.type() == il::Type::Void, d.is<bool>(), d.is<unsigned char>(), d.is<signed char>(), d.is<unsigned short>(),
      d.is<short>(), d.is<il::int_t>(), d.is<float>(), d.is<double>(), d.is<il::String>(),
      d.is<il::Array<unsigned char>>(), d.is<il::Array<signed char>>(), d.is<il::Array<unsigned short>>(),
      d.is<il::Array<short>>(), d.is<il::Array<unsigned int>>(), d.is<il::Array<int>>(),
      d.is<il::Array<std::size_t>>(), d.is<il::Array<il::int_t>>(), d.is<il::Array<double>>(),
      d.is<il::Array2D<unsigned char>>(), d.is<il::Array2D<double>>(), d.is<il::Array<il::Dynamic>>(),
      d.is<MapT>(), d.is<MapArrayT>()};
  int n = 0;
  for (int k = 0; k < nb_kinds; ++k) {
    is[k] = r[k];
    if (r[k]) ++n;
  }
  return n;
}

inline void compare(pbt::Ctx& c, const il::Dynamic& d, const V& v, const std::string& where) {
  bool is[nb_kinds];
  const int n = holds(d, is);
  for (int k = 0; k < nb_kinds; ++k) {
    REQUIRE(is[k] == (k == v.kind), where << " holds a " << name(v.kind) << " and is" << (is[k] ? "" : " not") << " a " << name(static_cast<Kind>(k)));
  }
  REQUIRE(n == 1, where << ": number of types " << n);
  REQUIRE(d.type() == type(v.kind), where << " holds a " << name(v.kind) << ", its type is " << static_cast<int>(d.type()));
  REQUIRE(!d.is<il::Array<float>>() && !d.is<il::Array2D<float>>() && !d.is<il::Array2C<double>>() && !d.is<il::Array2D<int>>(),
          where << " holds a " << name(v.kind) << " and claims another type");
  switch (v.kind) {
    case Void: break;
    case Bool: REQUIRE(d.to<bool>() == (v.bits != 0), where); break;
    case U8: REQUIRE(d.to<unsigned char>() == static_cast<unsigned char>(v.bits), where); break;
    case I8: REQUIRE(d.to<signed char>() == static_cast<signed char>(v.bits), where); break;
    case U16: REQUIRE(d.to<unsigned short>() == static_cast<unsigned short>(v.bits), where); break;
    case I16: REQUIRE(d.to<short>() == static_cast<short>(v.bits), where); break;
    case Integer: REQUIRE(d.to<il::int_t>() == v.bits, where << ": " << d.to<il::int_t>() << " instead of " << v.bits); break;
    case Single: REQUIRE(bitsOf(d.to<float>()) == static_cast<std::int32_t>(v.bits), where << ": " << d.to<float>() << " instead of " << floatOf(v.bits)); break;
    case Double: REQUIRE(bitsOf(d.to<double>()) == v.bits, where << ": " << d.to<double>() << " instead of " << doubleOf(v.bits)); break;
    case Str: REQUIRE(text(d.as<il::String>()) == v.s, where << ": " << pbt::quote(text(d.as<il::String>())) << " instead of " << pbt::quote(v.s)); break;
    case ArrU8: compareArray(c, d.as<il::Array<unsigned char>>(), v, where); break;
    case ArrI8: compareArray(c, d.as<il::Array<signed char>>(), v, where); break;
    case ArrU16: compareArray(c, d.as<il::Array<unsigned short>>(), v, where); break;
    case ArrI16: compareArray(c, d.as<il::Array<short>>(), v, where); break;
    case ArrU32: compareArray(c, d.as<il::Array<unsigned int>>(), v, where); break;
    case ArrI32: compareArray(c, d.as<il::Array<int>>(), v, where); break;
    case ArrU64: compareArray(c, d.as<il::Array<std::size_t>>(), v, where); break;
    case ArrI64: compareArray(c, d.as<il::Array<il::int_t>>(), v, where); break;
    case ArrDouble: compareArray(c, d.as<il::Array<double>>(), v, where); break;
    case Mat8: compareMatrix(c, d.as<il::Array2D<unsigned char>>(), v, where); break;
    case MatDouble: compareMatrix(c, d.as<il::Array2D<double>>(), v, where); break;
    case Arr: {
      const il::Array<il::Dynamic>& x = d.as<il::Array<il::Dynamic>>();
      REQUIRE(x.size() == static_cast<il::int_t>(v.children.size()), where << ": size " << x.size() << " instead of " << v.children.size());
      for (il::int_t i = 0; i < x.size(); ++i) compare(c, x[i], v.children[static_cast<std::size_t>(i)], where + "[" + std::to_string(i) + "]");
      break;
    }
    case Map: compareMap(c, d.as<MapT>(), v, where, false); break;
    default: compareMap(c, d.as<MapArrayT>(), v, where, true); break;
  }
}

// Any 64 bits, biased to special doubles
inline std::int64_t doubleBits(pbt::Src& s) {
  switch (s.draw(4)) {
    case 0: return bitsOf(s.smallDouble());
    case 1: return bitsOf(s.finiteDouble());
    case 2:
      return s.oneOf<std::int64_t>({0, bitsOf(-0.0), 0x7FF0000000000000LL, static_cast<std::int64_t>(0xFFF0000000000000ULL),
                                    0x7FF8000000000000LL, 0x7FF0000000000001LL, static_cast<std::int64_t>(0xFFFFFFFFFFFFFFFFULL),
                                    1, 0x000FFFFFFFFFFFFFLL, 0x7FEFFFFFFFFFFFFFLL});
    default: return static_cast<std::int64_t>(s.bits64());
  }
}

}  // namespace vv
#endif
