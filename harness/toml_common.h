// Shared by the harnesses of the file formats
#ifndef VERIF_TOML_COMMON_H
#define VERIF_TOML_COMMON_H

#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <set>
#include <string>

#include <il/Array.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/toml.h>

#include "pbt.h"
#include "value.h"

namespace vt {
using vv::V;
using MapT = il::Map<il::String, il::Dynamic>;
using MapArrayT = il::MapArray<il::String, il::Dynamic>;

inline void appendRune(std::string& s, unsigned r) {
  if (r < 0x80) {
    s += static_cast<char>(r);
  } else if (r < 0x800) {
    s += static_cast<char>(0xC0 | (r >> 6));
    s += static_cast<char>(0x80 | (r & 0x3F));
  } else if (r < 0x10000) {
    s += static_cast<char>(0xE0 | (r >> 12));
    s += static_cast<char>(0x80 | ((r >> 6) & 0x3F));
    s += static_cast<char>(0x80 | (r & 0x3F));
  } else {
    s += static_cast<char>(0xF0 | (r >> 18));
    s += static_cast<char>(0x80 | ((r >> 12) & 0x3F));
    s += static_cast<char>(0x80 | ((r >> 6) & 0x3F));
    s += static_cast<char>(0x80 | (r & 0x3F));
  }
}

// The value which has been loaded is the one of the model, up to the order of
// the keys
inline void same(pbt::Ctx& c, const il::Dynamic& d, const V& v, const std::string& where);

inline void sameTable(pbt::Ctx& c, const MapArrayT& m, const V& v, const std::string& where) {
  REQUIRE(m.nbElements() == static_cast<il::int_t>(v.keys.size()),
          where << " has " << m.nbElements() << " keys instead of " << v.keys.size());
  for (std::size_t i = 0; i < v.keys.size(); ++i) {
    const il::spot_t p = m.search(vv::utf8(v.keys[i]));
    REQUIRE(m.found(p), where << " has no key " << pbt::quote(v.keys[i]));
    REQUIRE(vv::text(m.key(p)) == v.keys[i], where << ": wrong key " << pbt::quote(vv::text(m.key(p))));
    same(c, m.value(p), v.children[i], where + "." + pbt::quote(v.keys[i]));
  }
}

inline void same(pbt::Ctx& c, const il::Dynamic& d, const V& v, const std::string& where) {
  switch (v.kind) {
    case vv::Bool:
      REQUIRE(d.is<bool>(), where << " is not a boolean");
      REQUIRE(d.to<bool>() == (v.bits != 0), where << " is " << d.to<bool>());
      break;
    case vv::Integer:
      REQUIRE(d.is<il::int_t>(), where << " is not an integer");
      REQUIRE(d.to<il::int_t>() == v.bits, where << " is " << d.to<il::int_t>() << " instead of " << v.bits);
      break;
    case vv::Double:
      REQUIRE(d.is<double>(), where << " is not a floating-point number");
      REQUIRE(vv::bitsOf(d.to<double>()) == v.bits,
              where << " is " << vv::show(V{}) << " " << d.to<double>() << " instead of " << vv::doubleOf(v.bits));
      break;
    case vv::Str:
      REQUIRE(d.is<il::String>(), where << " is not a string");
      REQUIRE(vv::text(d.as<il::String>()) == v.s,
              where << " is " << pbt::quote(vv::text(d.as<il::String>())) << " instead of " << pbt::quote(v.s));
      break;
    case vv::Arr: {
      REQUIRE(d.is<il::Array<il::Dynamic>>(), where << " is not an array");
      const il::Array<il::Dynamic>& a = d.as<il::Array<il::Dynamic>>();
      REQUIRE(a.size() == static_cast<il::int_t>(v.children.size()),
              where << " has " << a.size() << " elements instead of " << v.children.size());
      for (std::size_t i = 0; i < v.children.size(); ++i)
        same(c, a[static_cast<il::int_t>(i)], v.children[i], where + "[" + std::to_string(i) + "]");
    } break;
    default:
      REQUIRE(d.is<MapArrayT>(), where << " is not a table");
      sameTable(c, d.as<MapArrayT>(), v, where);
  }
}

inline std::string read(const std::string& path) {
  std::string t;
  if (FILE* f = std::fopen(path.c_str(), "rb")) {
    char b[4096];
    std::size_t n;
    while ((n = std::fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
    std::fclose(f);
  }
  return t;
}

// The number of files that are open
inline int nbOpenFiles() {
  int n = 0;
  for (int f = 3; f < 40; ++f) {
    if (lseek(f, 0, SEEK_CUR) >= 0) ++n;
  }
  return n;
}

static bool g_escape = false;

inline std::string drawString(pbt::Src& s) {
  std::string t;
  std::size_t n = static_cast<std::size_t>(s.range(0, 8));
  if (s.chance(1, 12)) n = static_cast<std::size_t>(s.range(9, 40));
  if (s.chance(1, 40)) n = static_cast<std::size_t>(s.range(150, 450));
  const int kind = static_cast<int>(s.range(0, 4));
  for (std::size_t i = 0; i < n; ++i) {
    switch (kind == 4 ? static_cast<int>(s.range(0, 3)) : kind) {
      case 0:
        t += static_cast<char>('a' + s.range(0, 25));
        break;
      case 1:  // what a TOML document is made of
        t += s.oneOf<char>({'"', '\\', '\'', '#', '=', '[', ']', '{', '}', ',', '.', ' ', '\t', '\n', '\r', 'n', 'u', '0', '-', '_', '+'});
        g_escape = true;
        break;
      case 2:
        t += static_cast<char>(s.chance(1, 4) ? s.oneOf<int>({0, 1, 7, 8, 11, 12, 27, 31, 127}) : s.range(0, 127));
        g_escape = true;
        break;
      default: {
        unsigned r = static_cast<unsigned>(s.oneOf<std::int64_t>(
            {0x80, 0xE9, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x85, 0xA0, 0x2028}));
        appendRune(t, r);
      }
    }
  }
  return t;
}

inline std::string drawKey(pbt::Src& s) {
  if (s.chance(2, 3)) {
    std::string t(1, static_cast<char>('a' + s.range(0, 5)));
    while (s.chance(1, 3)) t += s.oneOf<char>({'b', 'Z', '0', '9', '_', '-'});
    return t;
  }
  return drawString(s);
}

inline V scalar(pbt::Src& s, vv::Kind k) {
  V v;
  v.kind = k;
  switch (k) {
    case vv::Bool:
      v.bits = s.coin();
      break;
    case vv::Integer:
      v.bits = s.i64();
      break;
    case vv::Double: {
      v.bits = vv::doubleBits(s);
      if (!std::isfinite(vv::doubleOf(v.bits))) v.bits = vv::bitsOf(s.smallDouble());
    } break;
    default:
      v.kind = vv::Str;
      v.s = drawString(s);
  }
  return v;
}
static const vv::Kind scalars[] = {vv::Bool, vv::Integer, vv::Double, vv::Str};

struct Count {
  int values = 0, nested = 0, arrays = 0;
};

inline V drawTable(pbt::Src& s, int depth, bool in_array, Count& n);

inline V drawArray(pbt::Src& s, int depth, Count& n) {
  V v;
  v.kind = vv::Arr;
  ++n.arrays;
  const int kind = static_cast<int>(s.range(0, depth > 0 ? 5 : 3));
  int size = static_cast<int>(s.range(0, 4));
  if (kind < 4 && s.chance(1, 20)) size = static_cast<int>(s.range(5, s.chance(1, 10) ? 700 : 60));
  for (int i = 0; i < size; ++i) {
    ++n.values;
    if (kind < 4) {
      v.children.push_back(scalar(s, scalars[kind]));
    } else if (kind == 4) {
      v.children.push_back(drawArray(s, depth - 1, n));
    } else {
      v.children.push_back(drawTable(s, depth - 1, true, n));
    }
  }
  return v;
}

inline V drawTable(pbt::Src& s, int depth, bool in_array, Count& n) {
  V v;
  v.kind = in_array || s.chance(4, 5) ? vv::MapArr : vv::Map;
  std::set<std::string> seen;
  const int size = static_cast<int>(s.range(0, 5));
  for (int i = 0; i < size; ++i) {
    const std::string k = drawKey(s);
    if (!seen.insert(k).second) continue;
    v.keys.push_back(k);
    ++n.values;
    switch (depth > 0 ? s.weighted({6u, 3u, 3u}) : s.weighted({6u, 1u})) {
      case 0:
        v.children.push_back(scalar(s, scalars[s.range(0, 3)]));
        break;
      case 1:
        v.children.push_back(drawArray(s, depth > 1 ? 2 : depth, n));
        break;
      default:
        ++n.nested;
        v.children.push_back(drawTable(s, depth - 1, false, n));
    }
  }
  return v;
}

}  // namespace vt
#endif
