// C13: il::Dynamic against a tree of plain values.
#include <memory>

#include "value.h"

using namespace vv;

namespace pbt {
const char* rule =
    "a history of 1 to 24 constructions, copies, moves, assignments (of values, of "
    "one another, of themselves and of what they hold) and writes inside over 3 "
    "il::Dynamic is drawn, the values being trees of depth up to 3 of every type "
    "supported. Non-trivial: the history assigned between two objects, or from "
    "within one, while a value with storage of its own was held";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 600000;
    pbt::thorough_cases = 20000000;
  }
} init;

std::string word(pbt::Src& s) {
  // Around the limit of the strings kept in place
  switch (s.draw(4)) {
    case 0: return s.bytes(3, "ab");
    case 1: return std::string(static_cast<std::size_t>(s.range(20, 26)), 'x');
    case 2: return s.bytes(12, "abc\xC3\xA9");
    default: return std::string(static_cast<std::size_t>(s.chance(1, 500) ? s.range(60, 70000) : s.size(60)), 'y');
  }
}
// Only whole runes
std::string cut(std::string t) {
  std::string r;
  for (std::size_t i = 0; i < t.size(); ++i) {
    const unsigned char b = static_cast<unsigned char>(t[i]);
    if (b < 0x80) r += t[i];
    if (b == 0xC3 && i + 1 < t.size() && static_cast<unsigned char>(t[i + 1]) == 0xA9) r += "\xC3\xA9";
  }
  return r;
}

V value(pbt::Src& s, int depth) {
  V v;
  v.kind = static_cast<Kind>(s.draw(depth > 0 ? nb_kinds : Arr));
  switch (v.kind) {
    case Void: break;
    case Bool: v.bits = s.coin(); break;
    case U8: v.bits = s.range(0, 255); break;
    case I8: v.bits = s.range(-128, 127); break;
    case U16: v.bits = s.range(0, 65535); break;
    case I16: v.bits = s.range(-32768, 32767); break;
    case Integer: v.bits = s.i64(); break;
    case Single: v.bits = static_cast<std::int32_t>(s.coin() ? bitsOf(static_cast<float>(s.smallDouble())) : static_cast<std::int64_t>(s.bits64())); break;
    case Double: v.bits = doubleBits(s); break;
    default: {
      v.bits = s.range(0, 3);  // Spare capacity, by copy or by move
      if (v.kind == Str) {
        v.s = cut(word(s));
      } else if (v.kind < Arr) {
        std::int64_t n = s.more(9, 400);
        if (v.kind >= Mat8) {
          v.n0 = s.size(4);
          v.n1 = s.size(4);
          n = v.n0 * v.n1;
        }
        for (std::int64_t i = 0; i < n; ++i)
          v.a.push_back(v.kind == ArrDouble || v.kind == MatDouble ? doubleBits(s) : s.i64());
        // Within the type
        for (std::int64_t& x : v.a) {
          switch (v.kind) {
            case ArrU8: case Mat8: x = static_cast<unsigned char>(x); break;
            case ArrI8: x = static_cast<signed char>(x); break;
            case ArrU16: x = static_cast<unsigned short>(x); break;
            case ArrI16: x = static_cast<short>(x); break;
            case ArrU32: x = static_cast<unsigned int>(x); break;
            case ArrI32: x = static_cast<int>(x); break;
            default: break;
          }
        }
      } else {
        const std::int64_t n = depth == 1 ? s.more(5, 60) : s.size(5);
        for (std::int64_t i = 0; i < n; ++i) {
          V e = value(s, depth - 1);
          if (v.kind == Arr) {
            v.children.push_back(e);
          } else {
            const std::string k = cut(word(s)) + (s.coin() ? std::to_string(i) : "");
            bool known = false;
            for (const std::string& q : v.keys) known = known || q == k;
            if (!known) {
              v.keys.push_back(k);
              v.children.push_back(e);
            }
          }
        }
      }
    }
  }
  return v;
}

// Something below the value, or the value itself
il::Dynamic* within(pbt::Src& s, il::Dynamic& d, V& v, V** model) {
  il::Dynamic* p = &d;
  V* m = &v;
  while (m->kind >= Arr && !m->children.empty() && s.chance(3, 4)) {
    const std::size_t i = s.draw(m->children.size());
    if (m->kind == Arr) {
      p = &p->As<il::Array<il::Dynamic>>()[static_cast<il::int_t>(i)];
    } else if (m->kind == Map) {
      MapT& x = p->As<MapT>();
      p = &x.Value(x.search(utf8(m->keys[i])));
    } else {
      MapArrayT& x = p->As<MapArrayT>();
      p = &x.Value(x.search(utf8(m->keys[i])));
    }
    m = &m->children[i];
  }
  *model = m;
  return p;
}

bool heap(const V& v) { return v.kind >= Str; }

std::size_t weight(const V& v) {
  std::size_t n = 1;
  for (const V& e : v.children) n += weight(e);
  return n;
}

// Write in the value which is held
void change(pbt::Src& s, pbt::Ctx& c, il::Dynamic& d, V& v) {
  switch (v.kind) {
    case Bool: v.bits = !v.bits; d.As<bool>() = v.bits != 0; break;
    case Integer: v.bits = s.i64(); d.As<il::int_t>() = v.bits; break;
    case Double: v.bits = doubleBits(s); d.As<double>() = doubleOf(v.bits); break;
    case I16: v.bits = s.range(-32768, 32767); d.As<short>() = static_cast<short>(v.bits); break;
    case Str: {
      const std::string t = cut(word(s));
      d.As<il::String>().Append(utf8(t));
      v.s += t;
      break;
    }
    case ArrDouble: {
      const std::int64_t x = doubleBits(s);
      d.As<il::Array<double>>().Append(doubleOf(x));
      v.a.push_back(x);
      break;
    }
    case ArrI32: {
      const int x = s.i32();
      d.As<il::Array<int>>().Append(x);
      v.a.push_back(x);
      break;
    }
    case MatDouble:
      if (!v.a.empty()) {
        const std::size_t i = s.draw(v.a.size());
        v.a[i] = doubleBits(s);
        d.As<il::Array2D<double>>()(static_cast<il::int_t>(i) % v.n0, static_cast<il::int_t>(i) / v.n0) = doubleOf(v.a[i]);
      }
      break;
    case Arr: {
      const V e = value(s, 0);
      d.As<il::Array<il::Dynamic>>().Append(build(e));
      v.children.push_back(e);
      break;
    }
    case Map:
    case MapArr: {
      const V e = value(s, 0);
      const std::string k = cut(word(s));
      std::size_t i = 0;
      while (i < v.keys.size() && v.keys[i] != k) ++i;
      if (v.kind == Map) {
        d.As<MapT>().Set(utf8(k), build(e));
      } else {
        d.As<MapArrayT>().Set(utf8(k), build(e));
      }
      if (i == v.keys.size()) {
        v.keys.push_back(k);
        v.children.push_back(e);
      } else {
        v.children[i] = e;
      }
      break;
    }
    default: break;
  }
  (void)c;
}

PROPERTY(history, 10) {
  const int nb = 3;
  std::vector<std::unique_ptr<il::Dynamic>> d;
  std::vector<V> m(nb);
  for (int k = 0; k < nb; ++k) d.emplace_back(new il::Dynamic{});
  const std::int64_t n = 1 + s.size(23);
  for (std::int64_t step = 0; step < n; ++step) {
    const std::size_t k = s.draw(nb);
    const std::size_t l = s.draw(nb);
    switch (s.weighted({6, 3, 3, 3, 4, 4, 2, 2, 3, 2, 3})) {
      case 0: {
        m[k] = value(s, 3);
        LOG(k << " = new " << show(m[k]));
        d[k].reset(new il::Dynamic{build(m[k])});
        break;
      }
      case 1: {
        const V v = value(s, 2);
        LOG(k << " = " << show(v));
        if (heap(m[k])) c.nontrivial = true;
        switch (v.kind) {
          case Bool: *d[k] = v.bits != 0; break;
          case U8: *d[k] = static_cast<unsigned char>(v.bits); break;
          case I8: *d[k] = static_cast<signed char>(v.bits); break;
          case U16: *d[k] = static_cast<unsigned short>(v.bits); break;
          case I16: *d[k] = static_cast<short>(v.bits); break;
          case Integer:
            if (v.bits >= -2147483648LL && v.bits <= 2147483647LL && s.coin()) {
              *d[k] = static_cast<int>(v.bits);
            } else {
              *d[k] = static_cast<il::int_t>(v.bits);
            }
            break;
          case Single: *d[k] = floatOf(v.bits); break;
          case Double: *d[k] = doubleOf(v.bits); break;
          case Str:
            if (s.coin()) {
              const il::String t = utf8(v.s);
              *d[k] = t;
            } else {
              *d[k] = utf8(v.s);
            }
            break;
          default: *d[k] = build(v); break;
        }
        m[k] = v;
        break;
      }
      case 2: {
        LOG(k << " = new copy of " << l);
        std::unique_ptr<il::Dynamic> x(new il::Dynamic{*d[l]});
        d[k] = std::move(x);
        m[k] = V(m[l]);
        break;
      }
      case 3: {
        LOG(k << " = copy of " << l);
        if (heap(m[k]) || heap(m[l])) c.nontrivial = true;
        *d[k] = *d[l];
        m[k] = V(m[l]);
        break;
      }
      case 4: {
        // Whatever is left in the source, it can be assigned
        LOG(k << " = move of " << l);
        if (heap(m[k]) || heap(m[l])) c.nontrivial = true;
        *d[k] = std::move(*d[l]);
        const V v = m[l];
        if (k != l) {
          *d[l] = il::Dynamic{};
          m[l] = V();
        }
        m[k] = v;
        break;
      }
      case 5: {
        V* e;
        il::Dynamic* p = within(s, *d[k], m[k], &e);
        const V v = *e;
        if (p != d[k].get()) c.tag("from within");
        c.nontrivial = true;
        if (s.coin()) {
          LOG(k << " = copy of what it holds: " << show(v));
          *d[k] = *p;
        } else {
          LOG(k << " = move of what it holds: " << show(v));
          *d[k] = std::move(*p);
        }
        m[k] = v;
        break;
      }
      case 6: {
        V* e;
        il::Dynamic* p = within(s, *d[k], m[k], &e);
        if (e->kind != Str) break;
        const V v = *e;
        LOG(k << " = string it holds: " << show(v));
        c.nontrivial = true;
        if (s.coin()) {
          const il::String& t = p->as<il::String>();
          *d[k] = t;
        } else {
          *d[k] = std::move(p->As<il::String>());
        }
        m[k] = v;
        break;
      }
      case 7: {
        // Into
        V* e;
        if (weight(m[l]) + weight(m[k]) > 60) break;
        const V v = m[l];
        il::Dynamic* p = within(s, *d[k], m[k], &e);
        LOG("inside of " << k << ", " << show(*e) << " = copy of " << l);
        c.nontrivial = true;
        *p = *d[l];
        *e = v;
        break;
      }
      case 8: {
        V* e;
        il::Dynamic* p = within(s, *d[k], m[k], &e);
        LOG("change inside of " << k << ": " << show(*e));
        change(s, c, *p, *e);
        break;
      }
      case 9: {
        LOG("new move of " << l << " in " << k);
        il::Dynamic x{std::move(*d[l])};
        const V v = m[l];
        if (s.coin()) {
          *d[l] = il::Dynamic{};
        } else {
          d[l].reset(new il::Dynamic{});
        }
        m[l] = V();
        *d[k] = std::move(x);
        m[k] = v;
        break;
      }
      default: {
        if (k == l) break;
        LOG("swap " << k << " and " << l);
        c.nontrivial = true;
        std::swap(*d[k], *d[l]);
        std::swap(m[k], m[l]);
        break;
      }
    }
    for (int q = 0; q < nb; ++q) compare(c, *d[static_cast<std::size_t>(q)], m[static_cast<std::size_t>(q)], "value " + std::to_string(q));
  }
}

// Literals, raw texts and types
PROPERTY(texts_and_types, 1) {
  il::Dynamic d = build(value(s, 1));
  V v;
  v.kind = Str;
  switch (s.draw(5)) {
    case 0: d = "text"; v.s = "text"; break;
    case 1: d = "a text which is longer than the strings kept in place"; v.s = "a text which is longer than the strings kept in place"; break;
    case 2: {
      il::Dynamic e{"other"};
      d = e;
      v.s = "other";
      break;
    }
    case 3: {
      v.s = cut(word(s));
      d = il::Dynamic{il::StringType::Utf8, v.s.data(), static_cast<il::int_t>(v.s.size())};
      break;
    }
    default: {
      v.kind = s.oneOf<Kind>({Void, Bool, U8, I8, U16, I16, Integer, Single, Double});
      v.bits = 0;
      d = il::Dynamic{type(v.kind)};
      break;
    }
  }
  c.nontrivial = true;
  LOG("expected " << show(v));
  compare(c, d, v, "value");
  const il::Dynamic e = d;
  compare(c, e, v, "copy");
}

// f(typeId of T, name of T in il::Type, is<T>, T)
template <typename F>
void eachType(const il::Dynamic& d, F f) {
  f(il::typeId<bool>(), il::Type::Bool, d.is<bool>(), "bool");
  f(il::typeId<unsigned char>(), il::Type::UInt8, d.is<unsigned char>(), "unsigned char");
  f(il::typeId<signed char>(), il::Type::Int8, d.is<signed char>(), "signed char");
  f(il::typeId<unsigned short>(), il::Type::UInt16, d.is<unsigned short>(), "unsigned short");
  f(il::typeId<short>(), il::Type::Int16, d.is<short>(), "short");
  f(il::typeId<unsigned int>(), il::Type::UInt32, d.is<unsigned int>(), "unsigned int");
  f(il::typeId<int>(), il::Type::Int32, d.is<int>(), "int");
  f(il::typeId<std::size_t>(), il::Type::UInt64, d.is<std::size_t>(), "std::size_t");
  f(il::typeId<il::int_t>(), il::Type::Int64, d.is<il::int_t>(), "il::int_t");
  f(il::typeId<float>(), il::Type::Single, d.is<float>(), "float");
  f(il::typeId<double>(), il::Type::Double, d.is<double>(), "double");
  f(il::typeId<il::String>(), il::Type::UnicodeString, d.is<il::String>(), "il::String");
  f(il::typeId<il::Array<il::Dynamic>>(), il::Type::ArrayOfDynamic, d.is<il::Array<il::Dynamic>>(), "il::Array<il::Dynamic>");
  f(il::typeId<il::Array<unsigned char>>(), il::Type::ArrayOfUInt8, d.is<il::Array<unsigned char>>(), "il::Array<unsigned char>");
  f(il::typeId<il::Array2D<unsigned char>>(), il::Type::Array2DOfUInt8, d.is<il::Array2D<unsigned char>>(), "il::Array2D<unsigned char>");
  f(il::typeId<il::Array2C<unsigned char>>(), il::Type::Array2COfUInt8, d.is<il::Array2C<unsigned char>>(), "il::Array2C<unsigned char>");
  f(il::typeId<il::Array<signed char>>(), il::Type::ArrayOfInt8, d.is<il::Array<signed char>>(), "il::Array<signed char>");
  f(il::typeId<il::Array2D<signed char>>(), il::Type::Array2DOfInt8, d.is<il::Array2D<signed char>>(), "il::Array2D<signed char>");
  f(il::typeId<il::Array2C<signed char>>(), il::Type::Array2COfInt8, d.is<il::Array2C<signed char>>(), "il::Array2C<signed char>");
  f(il::typeId<il::Array<unsigned short>>(), il::Type::ArrayOfUInt16, d.is<il::Array<unsigned short>>(), "il::Array<unsigned short>");
  f(il::typeId<il::Array2D<unsigned short>>(), il::Type::Array2DOfUInt16, d.is<il::Array2D<unsigned short>>(), "il::Array2D<unsigned short>");
  f(il::typeId<il::Array2C<unsigned short>>(), il::Type::Array2COfUInt16, d.is<il::Array2C<unsigned short>>(), "il::Array2C<unsigned short>");
  f(il::typeId<il::Array<short>>(), il::Type::ArrayOfInt16, d.is<il::Array<short>>(), "il::Array<short>");
  f(il::typeId<il::Array2D<short>>(), il::Type::Array2DOfInt16, d.is<il::Array2D<short>>(), "il::Array2D<short>");
  f(il::typeId<il::Array2C<short>>(), il::Type::Array2COfInt16, d.is<il::Array2C<short>>(), "il::Array2C<short>");
  f(il::typeId<il::Array<unsigned int>>(), il::Type::ArrayOfUInt32, d.is<il::Array<unsigned int>>(), "il::Array<unsigned int>");
  f(il::typeId<il::Array2D<unsigned int>>(), il::Type::Array2DOfUInt32, d.is<il::Array2D<unsigned int>>(), "il::Array2D<unsigned int>");
  f(il::typeId<il::Array2C<unsigned int>>(), il::Type::Array2COfUInt32, d.is<il::Array2C<unsigned int>>(), "il::Array2C<unsigned int>");
  f(il::typeId<il::Array<int>>(), il::Type::ArrayOfInt32, d.is<il::Array<int>>(), "il::Array<int>");
  f(il::typeId<il::Array2D<int>>(), il::Type::Array2DOfInt32, d.is<il::Array2D<int>>(), "il::Array2D<int>");
  f(il::typeId<il::Array2C<int>>(), il::Type::Array2COfInt32, d.is<il::Array2C<int>>(), "il::Array2C<int>");
  f(il::typeId<il::Array<std::size_t>>(), il::Type::ArrayOfUInt64, d.is<il::Array<std::size_t>>(), "il::Array<std::size_t>");
  f(il::typeId<il::Array2D<std::size_t>>(), il::Type::Array2DOfUInt64, d.is<il::Array2D<std::size_t>>(), "il::Array2D<std::size_t>");
  f(il::typeId<il::Array2C<std::size_t>>(), il::Type::Array2COfUInt64, d.is<il::Array2C<std::size_t>>(), "il::Array2C<std::size_t>");
  f(il::typeId<il::Array<il::int_t>>(), il::Type::ArrayOfInt64, d.is<il::Array<il::int_t>>(), "il::Array<il::int_t>");
  f(il::typeId<il::Array2D<il::int_t>>(), il::Type::Array2DOfInt64, d.is<il::Array2D<il::int_t>>(), "il::Array2D<il::int_t>");
  f(il::typeId<il::Array2C<il::int_t>>(), il::Type::Array2COfInt64, d.is<il::Array2C<il::int_t>>(), "il::Array2C<il::int_t>");
  f(il::typeId<il::Array<float>>(), il::Type::ArrayOfFloat, d.is<il::Array<float>>(), "il::Array<float>");
  f(il::typeId<il::Array2D<float>>(), il::Type::Array2DOfFloat, d.is<il::Array2D<float>>(), "il::Array2D<float>");
  f(il::typeId<il::Array2C<float>>(), il::Type::Array2COfFloat, d.is<il::Array2C<float>>(), "il::Array2C<float>");
  f(il::typeId<il::Array<double>>(), il::Type::ArrayOfDouble, d.is<il::Array<double>>(), "il::Array<double>");
  f(il::typeId<il::Array2D<double>>(), il::Type::Array2DOfDouble, d.is<il::Array2D<double>>(), "il::Array2D<double>");
  f(il::typeId<il::Array2C<double>>(), il::Type::Array2COfDouble, d.is<il::Array2C<double>>(), "il::Array2C<double>");
  f(il::typeId<il::Map<il::String, il::Dynamic>>(), il::Type::MapStringToDynamic, d.is<il::Map<il::String, il::Dynamic>>(), "Map");
  f(il::typeId<il::MapArray<il::String, il::Dynamic>>(), il::Type::MapArrayStringToDynamic, d.is<il::MapArray<il::String, il::Dynamic>>(), "MapArray");
}

PROPERTY(other_types, 1) {
  const V v = value(s, 1);
  const il::Dynamic d = build(v);
  c.nontrivial = v.kind != Void;
  LOG(show(v));
  eachType(d, [&](il::Type id, il::Type name, bool is, const char* what) {
    REQUIRE(id == name, "typeId<" << what << "> is " << static_cast<int>(id) << " instead of " << static_cast<int>(name));
    REQUIRE(is == (type(v.kind) == name), "is<" << what << "> is " << is);
  });
  REQUIRE(il::sizeOf(il::Type::Complex64) == 8 && il::sizeOf(il::Type::Complex128) == 16, "sizeOf");
}

}  // namespace
