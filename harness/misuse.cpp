// C30: a checked build refuses the calls which are out of the contract of an
// operation, and accepts the others.
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/Deque.h>
#include <il/Dynamic.h>
#include <il/Info.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/Set.h>
#include <il/String.h>
#include <il/Tree.h>
#include <il/UTF16String.h>
#include <il/algorithmArray.h>
#include <il/algorithmArray2D.h>
#include <il/container/2d/BandArray2C.h>
#include <il/container/2d/SparseMatrixCSR.h>
#include <il/container/2d/TriDiagonal.h>
#include <il/core/memory/allocate.h>
#include <il/math.h>

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>

#include "common.h"
#include "refusal.h"

using vt::El;

#if PBT_IN(0)
namespace pbt {
const char* rule =
    "an object (string, view of a string, UTF-16 string, deque, tree, dynamic value, info, map, map array, set, band, "
    "tridiagonal or sparse matrix, array given to an algorithm) is brought to a random state, and 1 to 12 calls are "
    "made with arguments drawn around the limits of what the operation accepts in that state, and far from them. "
    "Non-trivial: at least one call was accepted and one was refused";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 1500000;
    pbt::thorough_cases = 30000000;
    pbt::check_leaks = false;
  }
} init;
}  // namespace
#endif
namespace {
using std::to_string;

bool upTo(il::int_t i, il::int_t n) { return i >= 0 && i <= n; }

// A count, negative or small
il::int_t count(pbt::Src& s) {
  return s.weighted({3, 1}) == 0 ? s.size(30) : s.oneOf<il::int_t>({-1, -2, -3, -8, -30, -4294967296l, -4294967295l});
}

// Strings --------------------------------------------------------------------
bool boundary(const std::string& m, il::int_t i) {
  return i == static_cast<il::int_t>(m.size()) || (static_cast<unsigned char>(m[static_cast<std::size_t>(i)]) & 0xC0) != 0x80;
}
bool isRuneModel(long r) { return r >= 0 && r <= 0x10FFFF && !(r >= 0xD800 && r <= 0xDFFF); }

int rune(pbt::Src& s) {
  switch (s.weighted({4, 3, 3, 3, 2, 2, 2})) {
    case 0: return static_cast<int>(s.range(0, 0x10FFFF));
    case 1: return static_cast<int>(s.range(0, 127));
    case 2: return static_cast<int>(s.oneOf<long>({0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF}));
    case 3: return static_cast<int>(s.oneOf<long>({0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, -1}));
    case 4: return static_cast<int>(s.range(0xD800, 0xDFFF));
    case 5: return static_cast<int>(s.range(INT_MIN, -1));
    default: return static_cast<int>(s.range(0x110000, INT_MAX));
  }
}
int validRune(pbt::Src& s) {
  const int r = rune(s);
  return isRuneModel(r) ? r : 'a' + r % 7;
}
void utf8(std::string& m, int r) {
  const unsigned u = static_cast<unsigned>(r);
  if (u < 0x80) {
    m += static_cast<char>(u);
  } else if (u < 0x800) {
    m += static_cast<char>(0xC0 | (u >> 6));
    m += static_cast<char>(0x80 | (u & 0x3F));
  } else if (u < 0x10000) {
    m += static_cast<char>(0xE0 | (u >> 12));
    m += static_cast<char>(0x80 | ((u >> 6) & 0x3F));
    m += static_cast<char>(0x80 | (u & 0x3F));
  } else {
    m += static_cast<char>(0xF0 | (u >> 18));
    m += static_cast<char>(0x80 | ((u >> 12) & 0x3F));
    m += static_cast<char>(0x80 | ((u >> 6) & 0x3F));
    m += static_cast<char>(0x80 | (u & 0x3F));
  }
}
char anyChar(pbt::Src& s) { return static_cast<char>(s.weighted({2, 1}) == 0 ? s.range(0, 127) : s.range(128, 255)); }
bool ascii(char ch) { return static_cast<unsigned char>(ch) < 128; }

struct Text {
  std::string m;
  il::StringType t;
};
Text text(pbt::Src& s) {
  Text x;
  x.t = s.oneOf<il::StringType>({il::StringType::Ascii, il::StringType::Utf8, il::StringType::Utf8, il::StringType::Wtf8, il::StringType::Byte});
  const il::int_t n = s.coin() ? s.size(8) : s.size(40);
  for (il::int_t i = 0; i < n; ++i) {
    if (x.t == il::StringType::Ascii)
      x.m += static_cast<char>(s.range(0, 127));
    else if (x.t == il::StringType::Utf8)
      utf8(x.m, validRune(s));
    else if (x.t == il::StringType::Wtf8)
      utf8(x.m, s.chance(1, 4) ? static_cast<int>(s.range(0xD800, 0xDFFF)) : validRune(s));
    else
      x.m += static_cast<char>(s.range(0, 255));
  }
  return x;
}
std::string show(const Text& x) { return pbt::quote(x.m) + " of type " + to_string(static_cast<int>(x.t) >> 5); }

void string(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::int_t steps = s.range(1, 12);
  for (il::int_t step = 0; step < steps; ++step) {
    const Text x = text(s);
    const il::int_t n = static_cast<il::int_t>(x.m.size());
    LOG("string " << show(x));
    il::String a{x.t, x.m.data(), n};
    if (s.chance(1, 4)) a.Reserve(s.size(60));
    const il::String& ca = a;
    const bool strict = x.t == il::StringType::Utf8;
    const il::int_t i = index(s, n + 1, n + 30);
    const bool place = upTo(i, n) && (!strict || boundary(x.m, i));
    const char ch = anyChar(s);
    const int r = rune(s);
    const il::int_t p = count(s);
    switch (s.draw(14)) {
      case 0:
      case 1: {
        const il::int_t j = s.coin() && upTo(i, n) ? s.range(i, n) : index(s, n + 1, n + 30);
        const bool valid = upTo(i, n) && upTo(j, n) && i <= j && (!strict || (boundary(x.m, i) && boundary(x.m, j)));
        const std::string what = "(" + to_string(i) + ", " + to_string(j) + ")";
        if (s.coin())
          expect(c, k, valid, "substring" + what, [&] { sink = sink + ca.substring(i, j).size(); });
        else
          expect(c, k, valid, "subview" + what, [&] { sink = sink + ca.subview(i, j).size(); });
      } break;
      case 2:
        expect(c, k, upTo(i, n) && (strict || x.t == il::StringType::Ascii), "isRuneBoundary(" + to_string(i) + ")",
               [&] { sink = sink + ca.isRuneBoundary(i); });
        break;
      case 3: expect(c, k, ascii(ch), "Append(char " + to_string(static_cast<int>(ch)) + ")", [&] { a.Append(ch); }); break;
      case 4: expect(c, k, isRuneModel(r), "Append(rune " + to_string(r) + ")", [&] { a.Append(r); }); break;
      case 5:
        expect(c, k, p >= 0 && ascii(ch), "Append(" + to_string(p) + ", char " + to_string(static_cast<int>(ch)) + ")", [&] { a.Append(p, ch); });
        break;
      case 6:
        expect(c, k, p >= 0 && isRuneModel(r), "Append(" + to_string(p) + ", rune " + to_string(r) + ")", [&] { a.Append(p, r); });
        break;
      case 7:
        expect(c, k, place && ascii(ch), "Insert(" + to_string(i) + ", char " + to_string(static_cast<int>(ch)) + ")", [&] { a.Insert(i, ch); });
        break;
      case 8:
        expect(c, k, place && ascii(ch) && p >= 0, "Insert(" + to_string(i) + ", " + to_string(p) + ", char " + to_string(static_cast<int>(ch)) + ")",
               [&] { a.Insert(i, p, ch); });
        break;
      case 9: {
        const Text y = text(s);
        const il::int_t m = static_cast<il::int_t>(y.m.size());
        switch (s.draw(3)) {
          case 0: expect(c, k, place, "Insert(" + to_string(i) + ", literal)", [&] { a.Insert(i, "some text"); }); break;
          case 1: {
            const il::StringView v{y.t, y.m.data(), m};
            expect(c, k, place, "Insert(" + to_string(i) + ", view of " + show(y) + ")", [&] { a.Insert(i, v); });
          } break;
          default: {
            const il::int_t l = s.coin() ? m : std::min(m, p);
            expect(c, k, place && l >= 0, "Insert(" + to_string(i) + ", characters, " + to_string(l) + ")", [&] { a.Insert(i, y.t, y.m.data(), l); });
          }
        }
      } break;
      case 10: expect(c, k, p >= 0, "Reserve(" + to_string(p) + ")", [&] { a.Reserve(p); }); break;
      case 11: {
        const il::int_t l = std::min(n, p);
        switch (s.draw(4)) {
          case 0: expect(c, k, l >= 0, "String of " + to_string(l) + " characters", [&] { sink = sink + il::String{x.t, x.m.data(), l}.size(); }); break;
          case 1: expect(c, k, l >= 0, "view of " + to_string(l) + " characters", [&] { sink = sink + il::StringView{x.t, x.m.data(), l}.size(); }); break;
          case 2: expect(c, k, l >= 0, "isUtf8 of " + to_string(l) + " characters", [&] { sink = sink + il::isUtf8(x.m.data(), l); }); break;
          default: expect(c, k, l >= 0, "Append of " + to_string(l) + " characters", [&] { a.Append(x.t, x.m.data(), l); });
        }
      } break;
      case 12:
        expect(c, k, ascii(ch), "String(char " + to_string(static_cast<int>(ch)) + ")", [&] { sink = sink + il::String{ch}.size(); });
        break;
      default: {
        expect(c, k, x.t == il::StringType::Ascii || strict, "String(type, literal)", [&] { sink = sink + il::String{x.t, "some text, longer than 22"}.size(); });
      }
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

void view(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const Text x = text(s);
  il::int_t n = static_cast<il::int_t>(x.m.size());
  il::int_t at = 0;
  LOG("view of " << show(x));
  // The characters around the view are there to be read
  const std::string padded = "0 \n" + x.m + "7 \r\n";
  il::StringView v{x.t, padded.data() + 3, n};
  const il::int_t steps = s.range(1, 12);
  for (il::int_t step = 0; step < steps; ++step) {
    const il::int_t i = index(s, n, n + 4);
    const il::int_t j = index(s, n + 1, n + 4);
    const std::string si = "(" + to_string(i) + ")", sj = "(" + to_string(j) + ")";
    switch (s.draw(12)) {
      case 0:
        expect(c, k, in(i, n), "operator[]" + si, [&] {
          if (v[i] != padded[static_cast<std::size_t>(3 + at + i)]) std::abort();
        });
        break;
      case 1: expect(c, k, in(i, n), "hasSpace" + si, [&] { sink = sink + v.hasSpace(i); }); break;
      case 2: expect(c, k, in(i, n), "hasDigit" + si, [&] { sink = sink + v.hasDigit(i); }); break;
      case 3: expect(c, k, in(i, n), "hasHexaDecimal" + si, [&] { sink = sink + v.hasHexaDecimal(i); }); break;
      case 4: expect(c, k, in(i, n), "hasNewLine" + si, [&] { sink = sink + v.hasNewLine(i); }); break;
      case 5:
        expect(c, k, in(i, n), "back" + si, [&] {
          if (v.back(i) != padded[static_cast<std::size_t>(3 + at + n - 1 - i)]) std::abort();
        });
        break;
      case 6: expect(c, k, n > 0, "startsWithDigit()", [&] { sink = sink + v.startsWithDigit(); }); break;
      case 7: expect(c, k, n > 0, "endsWithDigit()", [&] { sink = sink + v.endsWithDigit(); }); break;
      case 8:
        if (s.coin())
          expect(c, k, upTo(j, n), "has" + sj, [&] { sink = sink + v.has(j, "ab"); });
        else
          expect(c, k, upTo(j, n), "has" + sj, [&] { sink = sink + v.has(j, '7'); });
        break;
      case 9:
        expect(c, k, upTo(j, n), "removePrefix" + sj, [&] { v.removePrefix(j); });
        if (upTo(j, n)) {
          at += j;
          n -= j;
        }
        break;
      case 10:
        expect(c, k, upTo(j, n), "removeSuffix" + sj, [&] { v.removeSuffix(j); });
        if (upTo(j, n)) n = j;
        break;
      default: {
        const il::int_t l = index(s, n + 1, n + 4);
        expect(c, k, upTo(j, n) && upTo(l, n) && j <= l, "subview(" + to_string(j) + ", " + to_string(l) + ")", [&] { sink = sink + v.subview(j, l).size(); });
      }
    }
    REQUIRE(v.size() == n, "size " << v.size() << " rather than " << n);
  }
  c.nontrivial = k.accepted && k.refused;
}

void utf16(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::int_t steps = s.range(1, 12);
  for (il::int_t step = 0; step < steps; ++step) {
    il::UTF16String a{};
    const il::int_t n = s.size(20);
    for (il::int_t i = 0; i < n; ++i) a.Append(validRune(s));
    const char ch = anyChar(s);
    const int r = rune(s);
    const il::int_t p = count(s);
    switch (s.draw(5)) {
      case 0: expect(c, k, ascii(ch), "Append(char " + to_string(static_cast<int>(ch)) + ")", [&] { a.Append(ch); }); break;
      case 1: expect(c, k, isRuneModel(r), "Append(rune " + to_string(r) + ")", [&] { a.Append(r); }); break;
      case 2:
        expect(c, k, p >= 0 && ascii(ch), "Append(" + to_string(p) + ", char " + to_string(static_cast<int>(ch)) + ")", [&] { a.Append(p, ch); });
        break;
      case 3:
        expect(c, k, p >= 0 && isRuneModel(r), "Append(" + to_string(p) + ", rune " + to_string(r) + ")", [&] { a.Append(p, r); });
        break;
      default: expect(c, k, p >= 0, "Reserve(" + to_string(p) + ")", [&] { a.Reserve(p); });
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

// Deque ----------------------------------------------------------------------
template <typename T>
void deque(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::int_t cap = s.size(6);
  il::Deque<T> a;
  if (s.coin()) {
    LOG("Deque(" << cap << ")");
    a = il::Deque<T>{cap};
  } else {
    LOG("Reserve(" << cap << ")");
    a.Reserve(cap);
  }
  std::deque<long> m;
  const il::int_t steps = s.range(1, 30);
  for (il::int_t step = 0; step < steps; ++step) {
    const il::int_t n = static_cast<il::int_t>(m.size());
    const bool room = n < a.capacity(), some = n > 0;
    const long x = s.range(0, 99);
    const il::Deque<T>& ca = a;
    switch (s.draw(10)) {
      case 0:
        expect(c, k, room, "PushFront", [&] { a.PushFront(El<T>::make(x)); });
        if (room) m.push_front(x);
        break;
      case 1:
        expect(c, k, room, "PushBack", [&] { a.PushBack(El<T>::make(x)); });
        if (room) m.push_back(x);
        break;
      case 2:
        expect(c, k, room, "PushFront(emplace)", [&] { a.PushFront(il::emplace, El<T>::make(x)); });
        if (room) m.push_front(x);
        break;
      case 3:
        expect(c, k, room, "PushBack(emplace)", [&] { a.PushBack(il::emplace, El<T>::make(x)); });
        if (room) m.push_back(x);
        break;
      case 4: expect(c, k, some, "front()", [&] { sink = sink + El<T>::get(ca.front()); }); break;
      case 5: expect(c, k, some, "back()", [&] { sink = sink + El<T>::get(ca.back()); }); break;
      case 6:
        expect(c, k, some, "Front()", [&] { a.Front() = El<T>::make(x); });
        if (some) m.front() = x;
        break;
      case 7:
        expect(c, k, some, "Back()", [&] { a.Back() = El<T>::make(x); });
        if (some) m.back() = x;
        break;
      case 8:
        expect(c, k, some, "PopFront()", [&] { a.PopFront(); });
        if (some) m.pop_front();
        break;
      default:
        expect(c, k, some, "PopBack()", [&] { a.PopBack(); });
        if (some) m.pop_back();
    }
    REQUIRE(a.size() == static_cast<il::int_t>(m.size()), "size " << a.size() << " rather than " << m.size());
    if (!m.empty()) {
      REQUIRE(El<T>::get(ca.front()) == m.front(), "the first element is not the one expected");
      REQUIRE(El<T>::get(ca.back()) == m.back(), "the last element is not the one expected");
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

// Tree -----------------------------------------------------------------------
template <typename T, il::int_t n>
void tree(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  il::Tree<T, n> a{s.range(0, 2)};
  // The children of every node
  std::map<il::int_t, std::set<il::int_t>> m;
  std::vector<il::int_t> all{a.root().index};
  m[all[0]];
  const std::size_t most = 12;
  const il::int_t steps = s.range(1, 20);
  for (il::int_t step = 0; step < steps; ++step) {
    const il::int_t at = s.pick(all);
    const il::spot_t p{at};
    const il::int_t i = index(s, n, n + 3);
    const bool old = m[at].count(i) != 0;
    const std::string where = "(" + to_string(at) + ", " + to_string(i) + ")";
    switch (s.draw(5)) {
      case 0:
      case 1:
        if ((all.size() >= most || at * n > 5000) && in(i, n)) break;
        expect(c, k, in(i, n), "AddChild" + where, [&] { a.AddChild(p, i); });
        if (in(i, n) && !old) {
          m[at].insert(i);
          const il::int_t q = a.child(p, i).index;
          m[q];
          all.push_back(q);
        }
        break;
      case 2:
        expect(c, k, in(i, n), "hasChild" + where, [&] {
          if (a.hasChild(p, i) != old) std::abort();
        });
        break;
      case 3: expect(c, k, at != a.root().index, "parent(" + to_string(at) + ")", [&] { sink = sink + a.parent(p).index; }); break;
      default:
        if (m[at].empty())
          expect(c, k, false, "child" + where, [&] { sink = sink + a.child(p, in(i, n) ? i : 0).index; });
        else
          expect(c, k, true, "child(" + to_string(at) + ", an existing one)", [&] { sink = sink + a.child(p, *m[at].begin()).index; });
    }
  }
  // A spot which is not in the tree at all
  const il::int_t far = s.oneOf<il::int_t>({-1, -2, 1l << 40, LONG_MIN, LONG_MAX});
  expect(c, k, false, "value(" + to_string(far) + ")", [&] { sink = sink + El<T>::get(a.value(il::spot_t{far})); });
  c.nontrivial = k.accepted > 1 && k.refused > 1;
}

// Dynamic --------------------------------------------------------------------
template <typename T>
void number(pbt::Src&, pbt::Ctx& c, Count& k, il::Dynamic& d, int type, int mine, const char* name) {
  expect(c, k, type == mine, std::string("to<") + name + ">()", [&] { sink = sink + (d.to<T>() == T(1)); });
  expect(c, k, type == mine, std::string("As<") + name + ">()", [&] { sink = sink + (d.As<T>() == T(1)); });
}
template <typename T>
void object(pbt::Src&, pbt::Ctx& c, Count& k, il::Dynamic& d, int type, int mine, const char* name) {
  const il::Dynamic& cd = d;
  expect(c, k, type == mine, std::string("as<") + name + ">()", [&] { sink = sink + (reinterpret_cast<std::uintptr_t>(&cd.as<T>()) & 1); });
  expect(c, k, type == mine, std::string("As<") + name + ">()", [&] { sink = sink + (reinterpret_cast<std::uintptr_t>(&d.As<T>()) & 1); });
  expect(c, k, false, std::string("to<") + name + ">()", [&] {
    // What it returns is not an object
    alignas(T) static unsigned char place[sizeof(T)];
    new (place) T(d.to<T>());
  });
}

// The type, in a numbering of ours
il::Dynamic dynamicOf(int type) {
  switch (type) {
    case 0: return il::Dynamic{true};
    case 1: return il::Dynamic{static_cast<unsigned char>(200)};
    case 2: return il::Dynamic{static_cast<signed char>(-3)};
    case 3: return il::Dynamic{static_cast<unsigned short>(60000)};
    case 4: return il::Dynamic{static_cast<short>(-300)};
    case 5: return il::Dynamic{il::int_t{-5000000000}};
    case 6: return il::Dynamic{1.5f};
    case 7: return il::Dynamic{2.5};
    case 8: return il::Dynamic{il::String{"a string longer than the small size"}};
    case 9: return il::Dynamic{il::Array<il::Dynamic>{3}};
    case 10: return il::Dynamic{il::Map<il::String, il::Dynamic>{3}};
    case 11: return il::Dynamic{il::MapArray<il::String, il::Dynamic>{3}};
    case 12: return il::Dynamic{il::Array<unsigned char>{4}};
    case 13: return il::Dynamic{il::Array<signed char>{4}};
    case 14: return il::Dynamic{il::Array<unsigned short>{4}};
    case 15: return il::Dynamic{il::Array<short>{4}};
    case 16: return il::Dynamic{il::Array<unsigned int>{4}};
    case 17: return il::Dynamic{il::Array<int>{4}};
    case 18: return il::Dynamic{il::Array<il::uint_t>{4}};
    case 19: return il::Dynamic{il::Array<il::int_t>{4}};
    case 20: return il::Dynamic{il::Array<double>{4}};
    case 21: return il::Dynamic{il::Array2D<double>{2, 3}};
    case 22: return il::Dynamic{il::Array2D<unsigned char>{2, 3}};
    default: return il::Dynamic{};
  }
}

void dynamic(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::int_t steps = s.range(1, 6);
  int type = static_cast<int>(s.draw(24));
  il::Dynamic d = dynamicOf(type);
  LOG("Dynamic of kind " << type);
  for (il::int_t step = 0; step < steps; ++step) {
    if (s.chance(1, 4)) {
      type = static_cast<int>(s.draw(24));
      LOG("assigned a Dynamic of kind " << type);
      if (s.coin()) {
        d = dynamicOf(type);
      } else {
        const il::Dynamic e = dynamicOf(type);
        d = e;
      }
    }
    const int as = s.coin() && type < 23 ? type : static_cast<int>(s.draw(24));
    switch (as) {
      case 0: number<bool>(s, c, k, d, type, as, "bool"); break;
      case 1: number<unsigned char>(s, c, k, d, type, as, "unsigned char"); break;
      case 2: number<signed char>(s, c, k, d, type, as, "signed char"); break;
      case 3: number<unsigned short>(s, c, k, d, type, as, "unsigned short"); break;
      case 4: number<short>(s, c, k, d, type, as, "short"); break;
      case 5: number<il::int_t>(s, c, k, d, type, as, "il::int_t"); break;
      case 6: number<float>(s, c, k, d, type, as, "float"); break;
      case 7: number<double>(s, c, k, d, type, as, "double"); break;
      case 8: object<il::String>(s, c, k, d, type, as, "String"); break;
      case 9: object<il::Array<il::Dynamic>>(s, c, k, d, type, as, "Array<Dynamic>"); break;
      case 10: object<il::Map<il::String, il::Dynamic>>(s, c, k, d, type, as, "Map"); break;
      case 11: object<il::MapArray<il::String, il::Dynamic>>(s, c, k, d, type, as, "MapArray"); break;
      case 12: object<il::Array<unsigned char>>(s, c, k, d, type, as, "Array<unsigned char>"); break;
      case 13: object<il::Array<signed char>>(s, c, k, d, type, as, "Array<signed char>"); break;
      case 14: object<il::Array<unsigned short>>(s, c, k, d, type, as, "Array<unsigned short>"); break;
      case 15: object<il::Array<short>>(s, c, k, d, type, as, "Array<short>"); break;
      case 16: object<il::Array<unsigned int>>(s, c, k, d, type, as, "Array<unsigned>"); break;
      case 17: object<il::Array<int>>(s, c, k, d, type, as, "Array<int>"); break;
      case 18: object<il::Array<il::uint_t>>(s, c, k, d, type, as, "Array<il::uint_t>"); break;
      case 19: object<il::Array<il::int_t>>(s, c, k, d, type, as, "Array<il::int_t>"); break;
      case 20: object<il::Array<double>>(s, c, k, d, type, as, "Array<double>"); break;
      case 21: object<il::Array2D<double>>(s, c, k, d, type, as, "Array2D<double>"); break;
      case 22: object<il::Array2D<unsigned char>>(s, c, k, d, type, as, "Array2D<unsigned char>"); break;
      default: number<int>(s, c, k, d, -1, 0, "int");
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

// Info -----------------------------------------------------------------------
void info(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  il::Info a{};
  std::map<std::string, int> m;  // The type
  const il::int_t n = s.size(5);
  const std::vector<std::string> keys{"a", "ab", "b", "", "key", "another key", "abc"};
  for (il::int_t i = 0; i < n; ++i) {
    const std::string key = s.pick(keys);
    const int type = static_cast<int>(s.draw(4));
    LOG("Set(" << key << ", a value of type " << type << ")");
    switch (type) {
      case 0: a.Set(key.c_str(), s.coin()); break;
      case 1: a.Set(key.c_str(), s.i64()); break;
      case 2: a.Set(key.c_str(), s.smallDouble()); break;
      default: a.Set(key.c_str(), s.coin() ? "" : "some text");
    }
    m[key] = type;
  }
  const il::int_t steps = s.range(1, 8);
  const il::Info& ca = a;
  for (il::int_t step = 0; step < steps; ++step) {
    const std::string key = s.pick(keys);
    const int as = static_cast<int>(s.draw(4));
    const auto it = m.find(key);
    const bool valid = it != m.end() && it->second == as;
    const std::string what = "(" + key + ")";
    const char* p = key.c_str();
    switch (as) {
      case 0: expect(c, k, valid, "toBool" + what, [&] { sink = sink + ca.toBool(p); }); break;
      case 1: expect(c, k, valid, "toInteger" + what, [&] { sink = sink + (ca.toInteger(p) & 1); }); break;
      case 2: expect(c, k, valid, "toDouble" + what, [&] { sink = sink + (ca.toDouble(p) > 0); }); break;
      default: expect(c, k, valid, "asCString" + what, [&] { sink = sink + *ca.asCString(p); });
    }
    if (it == m.end()) continue;
    const il::int_t i = ca.search(p);
    switch (as) {
      case 0: expect(c, k, valid, "toBool of the spot of " + key, [&] { sink = sink + ca.toBool(i); }); break;
      case 1: expect(c, k, valid, "toInteger of the spot of " + key, [&] { sink = sink + (ca.toInteger(i) & 1); }); break;
      case 2: expect(c, k, valid, "toDouble of the spot of " + key, [&] { sink = sink + (ca.toDouble(i) > 0); }); break;
      default: expect(c, k, valid, "asCString of the spot of " + key, [&] { sink = sink + *ca.asCString(i); });
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

// Maps -----------------------------------------------------------------------
template <typename K>
struct MKey;
template <>
struct MKey<int> {
  static int make(int i) { return 7 * i - 20; }
};
template <>
struct MKey<il::String> {
  static il::String make(int i) {
    il::String a{"k"};
    if (i % 2) a = "the key which is written in full, number ";
    a.Append(static_cast<il::int_t>(i), 'x');
    return a;
  }
};

template <typename K, typename V>
void map(pbt::Src& s, pbt::Ctx& c) {
  using M = il::Map<K, V>;
  using F = il::HashFunction<K>;
  Count k;
  M a{s.size(6)};
  const M& ca = a;
  std::map<int, long> m;
  const int all = 12;
  const il::int_t steps = s.range(1, 12);
  for (il::int_t step = 0; step < steps; ++step) {
    const int ki = static_cast<int>(s.draw(all));
    const K key = MKey<K>::make(ki);
    const bool there = m.count(ki) != 0;
    const long x = s.range(0, 99);
    switch (s.draw(8)) {
      case 0:
      case 1:
        LOG("Set(" << ki << ")");
        a.Set(key, El<V>::make(x));
        m[ki] = x;
        break;
      case 2: {
        const il::spot_t i = ca.search(key);
        expect(c, k, there, "erase the spot of " + to_string(ki), [&] { a.erase(i); });
        m.erase(ki);
      } break;
      case 3: {
        il::spot_t i = ca.search(key);
        expect(c, k, !there, "Set in the spot of " + to_string(ki), [&] { a.Set(key, El<V>::make(x), il::io, i); });
        if (!there) {
          m[ki] = x;
          expect(c, k, true, "value of the spot given back for " + to_string(ki), [&] {
            if (El<V>::get(ca.value(i)) != x) std::abort();
          });
        }
      } break;
      case 4: {
        const il::spot_t i = ca.search(key);
        switch (s.draw(3)) {
          case 0: expect(c, k, there, "key of the spot of " + to_string(ki), [&] { sink = sink + F::isEqual(ca.key(i), key); }); break;
          case 1:
            expect(c, k, there, "value of the spot of " + to_string(ki), [&] {
              if (El<V>::get(ca.value(i)) != m[ki]) std::abort();
            });
            break;
          default:
            expect(c, k, there, "Value of the spot of " + to_string(ki), [&] { a.Value(i) = El<V>::make(x); });
            if (there) m[ki] = x;
        }
      } break;
      case 5:
        switch (s.draw(2)) {
          case 0: expect(c, k, false, "value(spotEnd())", [&] { sink = sink + El<V>::get(ca.value(ca.spotEnd())); }); break;
          default: expect(c, k, false, "key(spotEnd())", [&] { sink = sink + F::isEqual(ca.key(ca.spotEnd()), key); });
        }
        break;
      case 6: {
        const il::int_t n = count(s);
        if (s.coin())
          expect(c, k, n >= 0, "Map(" + to_string(n) + ")", [&] { sink = sink + M(n).nbElements(); });
        else
          expect(c, k, n >= 0, "Reserve(" + to_string(n) + ")", [&] { a.Reserve(n); });
      } break;
      default: {
        // A spot which was taken before the map has changed
        il::spot_t i = ca.search(key);
        const il::int_t buckets = ca.nbBuckets(), tombstones = ca.nbTombstones();
        const int li = static_cast<int>(s.draw(all));
        const K other = MKey<K>::make(li);
        bool changed = false;
        int p = 0;
        while ((1l << p) < buckets) ++p;
        if (s.chance(1, 6)) {
          changed = !m.empty();
          LOG("Clear()");
          a.Clear();
          m.clear();
        } else if (m.count(li)) {
          LOG("erase(" << li << ")");
          a.erase(ca.search(other));
          changed = ca.nbTombstones() == tombstones + 1 && F::hash(other, p) != 0;
          m.erase(li);
        } else {
          LOG("Set(" << li << ")");
          a.Set(other, El<V>::make(x));
          changed = buckets > 0 && ca.nbBuckets() == buckets && F::hash(other, p) != 0;
          m[li] = x;
        }
        if (!changed) break;
        const std::string what = " of a spot taken before";
        switch (s.draw(7)) {
          case 0: expect(c, k, false, "found" + what, [&] { sink = sink + ca.found(i); }); break;
          case 1: expect(c, k, false, "value" + what, [&] { sink = sink + El<V>::get(ca.value(i)); }); break;
          case 2: expect(c, k, false, "Value" + what, [&] { a.Value(i) = El<V>::make(x); }); break;
          case 3: expect(c, k, false, "key" + what, [&] { sink = sink + F::isEqual(ca.key(i), key); }); break;
          case 4: expect(c, k, false, "erase" + what, [&] { a.erase(i); }); break;
          case 5: expect(c, k, false, "next" + what, [&] { sink = sink + ca.next(i).index; }); break;
          default: expect(c, k, false, "Set" + what, [&] { a.Set(key, El<V>::make(x), il::io, i); });
        }
      }
    }
    REQUIRE(a.nbElements() == static_cast<il::int_t>(m.size()), a.nbElements() << " elements rather than " << m.size());
  }
  if constexpr (std::is_same<K, int>::value) {
    const int reserved = s.oneOf<int>({INT_MIN, INT_MIN + 1});
    expect(c, k, false, "search a reserved key", [&] { sink = sink + ca.search(reserved).index; });
    expect(c, k, false, "Set a reserved key", [&] { a.Set(reserved, El<V>::make(1)); });
  }
  if (s.chance(1, 4)) {
    const int i = static_cast<int>(s.draw(all)), j = static_cast<int>(s.draw(all));
    const K ki = MKey<K>::make(i), kj = MKey<K>::make(j);
    expect(c, k, i != j, "a map from a list with the keys " + to_string(i) + " and " + to_string(j), [&] {
      const M b{il::value, {il::KeyValue<K, V>(ki, El<V>::make(1)), il::KeyValue<K, V>(kj, El<V>::make(2))}};
      sink = sink + b.nbElements();
    });
  }
  c.nontrivial = k.accepted && k.refused;
}

template <typename K, typename V>
void mapArray(pbt::Src& s, pbt::Ctx& c) {
  using M = il::MapArray<K, V>;
  using F = il::HashFunction<K>;
  Count k;
  const il::int_t steps = s.range(1, 12);
  std::vector<int> keys;
  std::unique_ptr<M> a{new M{s.size(6)}};
  const int all = 12;
  for (il::int_t step = 0; step < steps; ++step) {
    const M& ca = *a;
    const int ki = static_cast<int>(s.draw(all));
    const K key = MKey<K>::make(ki);
    const bool there = std::find(keys.begin(), keys.end(), ki) != keys.end();
    const long x = s.range(0, 99);
    const il::int_t n = static_cast<il::int_t>(keys.size());
    switch (s.draw(6)) {
      case 0:
      case 1:
        LOG("Set(" << ki << ")");
        a->Set(key, El<V>::make(x));
        if (!there) keys.push_back(ki);
        break;
      case 2: {
        il::spot_t i = ca.search(key);
        expect(c, k, !there, "Set in the spot of " + to_string(ki), [&] { a->Set(key, El<V>::make(x), il::io, i); });
        if (!there) {
          keys.push_back(ki);
          expect(c, k, true, "value of the spot given back for " + to_string(ki), [&] {
            if (El<V>::get(ca.value(i)) != x) std::abort();
          });
        } else {
          // It might have begun to change
          a.reset(new M{});
          keys.clear();
        }
      } break;
      case 3: {
        const il::spot_t i = ca.search(key);
        switch (s.draw(3)) {
          case 0: expect(c, k, there, "key of the spot of " + to_string(ki), [&] { sink = sink + F::isEqual(ca.key(i), key); }); break;
          case 1: expect(c, k, there, "value of the spot of " + to_string(ki), [&] { sink = sink + El<V>::get(ca.value(i)); }); break;
          default: expect(c, k, there, "Value of the spot of " + to_string(ki), [&] { a->Value(i) = El<V>::make(x); });
        }
      } break;
      case 4: {
        il::spot_t i = ca.spotBegin();
        i.index = index(s, n, n + 4);
        switch (s.draw(3)) {
          case 0: expect(c, k, in(i.index, n), "key(" + to_string(i.index) + ")", [&] { sink = sink + F::isEqual(ca.key(i), key); }); break;
          case 1: expect(c, k, in(i.index, n), "value(" + to_string(i.index) + ")", [&] { sink = sink + El<V>::get(ca.value(i)); }); break;
          default: expect(c, k, in(i.index, n), "Value(" + to_string(i.index) + ")", [&] { a->Value(i) = El<V>::make(x); });
        }
      } break;
      default: {
        const il::int_t r = count(s);
        expect(c, k, r >= 0, "MapArray(" + to_string(r) + ")", [&] { sink = sink + M(r).size(); });
      }
    }
    REQUIRE(a->nbElements() == static_cast<il::int_t>(keys.size()), a->nbElements() << " elements rather than " << keys.size());
  }
  c.nontrivial = k.accepted && k.refused;
}

template <typename T>
void set(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  il::Set<T> a{};
  std::set<int> m;
  const il::int_t steps = s.range(1, 16);
  for (il::int_t step = 0; step < steps; ++step) {
    const int ki = static_cast<int>(s.draw(8));
    const T key = MKey<T>::make(ki);
    if (s.coin()) {
      a.Add(key);
    } else {
      il::spot_t i = a.search(key);
      expect(c, k, !m.count(ki), "Add in the spot of " + to_string(ki), [&] { a.Add(key, il::io, i); });
    }
    m.insert(ki);
    REQUIRE(a.nbElements() == static_cast<il::int_t>(m.size()), a.nbElements() << " elements rather than " << m.size());
  }
  if constexpr (std::is_same<T, int>::value) {
    const int reserved = s.oneOf<int>({INT_MIN, INT_MIN + 1});
    expect(c, k, false, "search a reserved element", [&] { sink = sink + a.search(reserved).index; });
    expect(c, k, false, "Add a reserved element", [&] { a.Add(reserved); });
  }
  c.nontrivial = k.accepted && k.refused;
}

// Structured matrices --------------------------------------------------------
il::int_t smallIndex(pbt::Src& s, il::int_t lo, il::int_t hi) {
  switch (s.weighted({6, 2, 2, 1})) {
    case 0: return hi >= lo ? s.range(lo, hi) : lo;
    case 1: return hi + s.range(1, 3);
    case 2: return lo - s.range(1, 3);
    default: return s.oneOf<il::int_t>({1l << 32, -(1l << 32), (1l << 32) + 1, 1l << 40, -(1l << 40), 1l << 29});
  }
}

template <typename T>
void band(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const bool square = s.coin();
  const il::int_t n0 = s.size(6), n1 = square ? n0 : s.size(6);
  const il::int_t left = s.size(3), right = square ? left : s.size(3);
  LOG("BandArray2C " << n0 << " x " << n1 << " with " << left << " diagonals below and " << right << " above");
  il::BandArray2C<T> A = square ? il::BandArray2C<T>{n0, left} : il::BandArray2C<T>{n0, n1, left, right};
  const il::BandArray2C<T>& cA = A;
  const il::int_t steps = s.range(1, 12);
  for (il::int_t step = 0; step < steps; ++step) {
    const il::int_t i = smallIndex(s, 0, n0 - 1), d = smallIndex(s, -left, right);
    const bool valid = in(i, n0) && in(i + d, n1) && d >= -left && d <= right;
    const std::string what = "(" + to_string(i) + ", " + to_string(d) + ")";
    if (s.coin())
      expect(c, k, valid, "element " + what, [&] { A(i, d) = T(3); });
    else if (valid) {
      A(i, d) = T(4);
      expect(c, k, valid, "const element " + what, [&] { sink = sink + (cA(i, d) == T(4)); });
    } else
      expect(c, k, valid, "const element " + what, [&] { sink = sink + (cA(i, d) == T(4)); });
  }
  const il::int_t n = s.oneOf<il::int_t>({-1, -2, -5});
  expect(c, k, false, "BandArray2C(" + to_string(n) + ", 1)", [&] { sink = sink + il::BandArray2C<T>{n, 1}.size(0); });
  c.nontrivial = k.accepted && k.refused > 1;
}

template <typename T>
void triDiagonal(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::int_t n = s.size(6);
  il::TriDiagonal<T> A{n};
  const il::TriDiagonal<T>& cA = A;
  for (il::int_t i = 0; i < n; ++i)
    for (il::int_t d = -1; d <= 1; ++d) A(i, d) = T(1);
  const il::int_t steps = s.range(1, 12);
  for (il::int_t step = 0; step < steps; ++step) {
    const il::int_t i = index(s, n, 2 * n), d = s.chance(1, 8) ? index(s, 2, 4) : smallIndex(s, -1, 1);
    const bool valid = in(i, n) && d >= -1 && d <= 1;
    const std::string what = "(" + to_string(i) + ", " + to_string(d) + ")";
    if (s.coin())
      expect(c, k, valid, "element " + what, [&] { A(i, d) = T(3); });
    else
      expect(c, k, valid, "const element " + what, [&] { sink = sink + (cA(i, d) == T(3)); });
  }
  const il::int_t m = s.oneOf<il::int_t>({-1, -2, -5});
  expect(c, k, false, "TriDiagonal(" + to_string(m) + ")", [&] { sink = sink + il::TriDiagonal<T>{m}.size(); });
  c.nontrivial = k.accepted && k.refused > 1;
}

template <typename Index>
void sparse(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::int_t n0 = s.size(5), n1 = s.range(1, 6);
  il::Array<Index> row{n0 + 1, 0}, column{};
  for (il::int_t i = 0; i < n0; ++i) {
    for (il::int_t j = 0; j < n1; ++j)
      if (s.coin()) column.Append(static_cast<Index>(j));
    row[i + 1] = static_cast<Index>(column.size());
  }
  const il::int_t nz = column.size();
  il::SparseMatrixCSR<Index, double> A{n0, n1, column, row};
  const il::SparseMatrixCSR<Index, double>& cA = A;
  LOG("sparse matrix " << n0 << " x " << n1 << " with " << nz << " elements");
  for (il::int_t i = 0; i < nz; ++i) A[i] = 1.0;
  const il::int_t steps = s.range(1, 12);
  for (il::int_t step = 0; step < steps; ++step) {
    const il::int_t i = index(s, n0, n0 + 2);
    const il::int_t length = in(i, n0) ? row[i + 1] - row[i] : 2;
    const il::int_t d = smallIndex(s, 0, length - 1);
    const bool valid = in(i, n0) && in(d, length);
    const std::string what = "(" + to_string(i) + ", " + to_string(d) + ")";
    switch (s.draw(10)) {
      case 8: {
        const il::int_t m = nz + s.range(-1, 1);
        if (m < 0) break;
        expect(c, k, m == nz, to_string(m) + " elements for " + to_string(nz) + " columns",
               [&] { sink = sink + il::SparseMatrixCSR<Index, double>{n0, n1, column, row, il::Array<double>{m, 1.0}}.nbNonZeros(); });
      } break;
      case 9: {
        const il::int_t nb = s.range(0, 3);
        il::Array<il::StaticArray<Index, 2>> position{nb};
        bool in_matrix = true;
        std::string text;
        for (il::int_t l = 0; l < nb; ++l) {
          for (il::int_t q = 0; q < 2; ++q) {
            const il::int_t x = s.chance(4, 5) ? s.range(0, n1 - 1) : s.oneOf<il::int_t>({-1, n1, n1 + 1, n1 + 1000, -1000});
            position[l][q] = static_cast<Index>(x);
            in_matrix = in_matrix && in(x, n1);
            text += " " + to_string(x);
          }
        }
        expect(c, k, in_matrix, "a matrix of size " + to_string(n1) + " with the positions" + text, [&] {
          il::Array<Index> at{};
          sink = sink + il::SparseMatrixCSR<Index, double>{n1, position, il::io, at}.nbNonZeros();
        });
      } break;
      case 0:
      case 1: expect(c, k, valid, "element " + what, [&] { A(i, d) = 3.0; }); break;
      case 2:
      case 3: expect(c, k, valid, "const element " + what, [&] { sink = sink + (cA(i, d) > 1.0); }); break;
      case 4: {
        const il::int_t p = index(s, nz, nz + 3);
        switch (s.draw(4)) {
          case 0: expect(c, k, in(p, nz), "[" + to_string(p) + "]", [&] { A[p] = 2.0; }); break;
          case 1: expect(c, k, in(p, nz), "const [" + to_string(p) + "]", [&] { sink = sink + (cA[p] > 1.0); }); break;
          case 2: expect(c, k, in(p, nz), "element(" + to_string(p) + ")", [&] { sink = sink + (cA.element(p) > 1.0); }); break;
          default: expect(c, k, in(p, nz), "column(" + to_string(p) + ")", [&] { sink = sink + cA.column(p); });
        }
      } break;
      case 5: {
        const il::int_t p = index(s, n0 + 1, n0 + 3);
        expect(c, k, upTo(p, n0), "row(" + to_string(p) + ")", [&] { sink = sink + cA.row(p); });
      } break;
      case 6: {
        const il::int_t p = index(s, 2, 4);
        expect(c, k, in(p, 2), "size(" + to_string(p) + ")", [&] { sink = sink + cA.size(p); });
      } break;
      default: {
        const il::int_t h = n0 + s.range(-1, 1);
        if (s.coin())
          expect(c, k, h == n0, "a matrix of height " + to_string(h) + " for " + to_string(n0) + " rows",
                 [&] { sink = sink + il::SparseMatrixCSR<Index, double>{h, n1, column, row}.nbNonZeros(); });
        else
          expect(c, k, h == n0, "a matrix of height " + to_string(h) + " for " + to_string(n0) + " rows, with its elements",
                 [&] { sink = sink + il::SparseMatrixCSR<Index, double>{h, n1, column, row, il::Array<double>{nz, 1.0}}.nbNonZeros(); });
      }
    }
  }
  c.nontrivial = k.accepted && k.refused;
}

// Algorithms -----------------------------------------------------------------
template <typename T>
void algorithms(pbt::Src& s, pbt::Ctx& c) {
  Count k;
  const il::int_t n = s.size(5);
  il::Array<T> v{n};
  for (il::int_t i = 0; i < n; ++i) v[i] = static_cast<T>(s.range(-9, 9));
  if (s.coin()) v.Reserve(n + s.size(5));
  LOG(n << " elements");
  const il::int_t steps = s.range(1, 12);
  for (il::int_t step = 0; step < steps; ++step) {
    switch (s.draw(4)) {
      case 0: {
        const bool valid = n > 0;
        switch (s.draw(7)) {
          case 0: expect(c, k, valid, "min", [&] { sink = sink + (il::min(v) > 0); }); break;
          case 1: expect(c, k, valid, "max", [&] { sink = sink + (il::max(v) > 0); }); break;
          case 2: expect(c, k, valid, "maxAbs", [&] { sink = sink + (il::maxAbs(v) > 0); }); break;
          case 3: expect(c, k, valid, "indexMin", [&] { sink = sink + il::indexMin(v); }); break;
          case 4: expect(c, k, valid, "indexMax", [&] { sink = sink + il::indexMax(v); }); break;
          case 5: expect(c, k, valid, "indexMaxAbs", [&] { sink = sink + il::indexMaxAbs(v); }); break;
          default: expect(c, k, valid, "minMax", [&] { sink = sink + (il::minMax(v).max > 0); });
        }
      } break;
      case 1: {
        il::Range r{smallIndex(s, 0, n), smallIndex(s, 0, n)};
        // A long range out of the array takes a long time before it is refused
        const bool valid = r.begin >= 0 && r.begin < r.end && r.end <= n;
        const std::string what = "(v, {" + to_string(r.begin) + ", " + to_string(r.end) + "})";
        switch (s.draw(7)) {
          case 0: expect(c, k, valid, "min" + what, [&] { sink = sink + (il::min(v, r) > 0); }); break;
          case 1: expect(c, k, valid, "max" + what, [&] { sink = sink + (il::max(v, r) > 0); }); break;
          case 2: expect(c, k, valid, "maxAbs" + what, [&] { sink = sink + (il::maxAbs(v, r) > 0); }); break;
          case 3: expect(c, k, valid, "indexMin" + what, [&] { sink = sink + il::indexMin(v, r); }); break;
          case 4: expect(c, k, valid, "indexMax" + what, [&] { sink = sink + il::indexMax(v, r); }); break;
          case 5: expect(c, k, valid, "indexMaxAbs" + what, [&] { sink = sink + il::indexMaxAbs(v, r); }); break;
          default: expect(c, k, valid, "minMax" + what, [&] { sink = sink + (il::minMax(v, r).max > 0); });
        }
      } break;
      case 2: {
        const bool sample = s.coin();
        const il::VarianceKind kind = sample ? il::VarianceKind::Sample : il::VarianceKind::Population;
        switch (s.draw(3)) {
          case 0: expect(c, k, n > 0, "mean", [&] { sink = sink + (il::mean(v) > 0); }); break;
          case 1: expect(c, k, n > sample, sample ? "variance of a sample" : "variance of a population", [&] { sink = sink + (il::variance(v, kind) > 0); }); break;
          default:
            expect(c, k, n > sample, sample ? "mean and variance of a sample" : "mean and variance of a population",
                   [&] { sink = sink + (il::meanVariance(v, kind).mean > 0); });
        }
      } break;
      default: {
        const il::int_t n0 = s.size(4), n1 = s.size(4);
        il::Array2D<T> A{n0, n1, T(1)};
        const il::Range r{smallIndex(s, 0, n0), smallIndex(s, 0, n0)};
        const il::int_t j = smallIndex(s, 0, n1 - 1);
        const bool valid = r.begin >= 0 && r.begin < r.end && r.end <= n0 && in(j, n1);
        expect(c, k, valid, "minMax(A " + to_string(n0) + " x " + to_string(n1) + ", {" + to_string(r.begin) + ", " + to_string(r.end) + "}, " + to_string(j) + ")",
               [&] { sink = sink + (il::minMax(A, r, j).max > 0); });
      }
    }
  }
  const il::int_t p = s.coin() ? s.size(12) : -s.range(1, 12);
  expect(c, k, p >= 0, "ipow(2, " + to_string(p) + ")", [&] { sink = sink + (il::ipow(static_cast<T>(2), p) > 0); });
  const il::int_t l = count(s);
  expect(c, k, l >= 0, "allocateArray(" + to_string(l) + ")", [&] {
    T* q = il::allocateArray<T>(l);
    il::deallocate(q);
  });
  const il::int_t align = s.oneOf<il::int_t>({0, -8, 8, 16, 64, 12, 4}), rest = s.oneOf<il::int_t>({0, 0, 0, 8, 16, -8, 4, 56});
  const il::int_t a = alignof(T);
  const bool valid = l >= 0 && align > 0 && align % a == 0 && rest >= 0 && rest < align && rest % a == 0;
  expect(c, k, valid, "allocateArray(" + to_string(l) + " aligned on " + to_string(rest) + " modulo " + to_string(align) + ")", [&] {
    il::int_t shift = 0;
    T* q = il::allocateArray<T>(l, rest, align, il::io, shift);
    il::deallocate(q - shift);
  });
  c.nontrivial = k.accepted && k.refused;
}
}  // namespace

#if PBT_IN(0)
PROPERTY(string, 4) { string(s, c); }
PROPERTY(view, 3) { view(s, c); }
PROPERTY(utf16, 1) { utf16(s, c); }
#endif
#if PBT_IN(1)
PROPERTY(deque, 1) { s.coin() ? deque<int>(s, c) : deque<std::string>(s, c); }
PROPERTY(tree, 2) {
  switch (s.draw(4)) {
    case 0: tree<double, 1>(s, c); break;
    case 1: tree<std::string, 2>(s, c); break;
    case 2: tree<int, 5>(s, c); break;
    default: tree<int, 62>(s, c);
  }
}
PROPERTY(info, 1) { info(s, c); }
#endif
#if PBT_IN(2)
PROPERTY(dynamic, 2) { dynamic(s, c); }
#endif
#if PBT_IN(3)
PROPERTY(map, 3) {
  switch (s.draw(3)) {
    case 0: map<int, int>(s, c); break;
    case 1: map<int, std::string>(s, c); break;
    default: map<il::String, std::string>(s, c);
  }
}
PROPERTY(map_array, 2) { s.coin() ? mapArray<int, std::string>(s, c) : mapArray<il::String, double>(s, c); }
PROPERTY(set, 1) { s.coin() ? set<int>(s, c) : set<il::String>(s, c); }
#endif
#if PBT_IN(4)
PROPERTY(band, 1) { s.coin() ? band<double>(s, c) : band<int>(s, c); }
PROPERTY(tri_diagonal, 1) { s.coin() ? triDiagonal<double>(s, c) : triDiagonal<int>(s, c); }
PROPERTY(sparse, 2) { s.coin() ? sparse<int>(s, c) : sparse<il::int_t>(s, c); }
PROPERTY(algorithms, 3) { s.coin() ? algorithms<double>(s, c) : algorithms<il::int_t>(s, c); }
#endif
