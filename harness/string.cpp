// C11: il::String and il::StringView against std::string.
#include <algorithm>
#include <memory>
#include <sstream>

#include <il/String.h>
#include <il/container/hash/HashFunction.h>
#include <il/container/string/algorithmString.h>

#include "common.h"

namespace pbt {
#if PBT_IN(0)
const char* rule =
    "either a history of 1 to 50 public operations over 3 strings, or a pair of "
    "texts on which every comparison, search and view operation is compared with "
    "std::string; texts of 0 to 80 bytes made of ASCII, zero bytes and 2 to 4 "
    "bytes runes, with lengths biased to the inline limit of 22. Non-trivial: the "
    "history moved a string between inline and heap storage, or passed a part of "
    "a string to itself, or the two texts share a prefix and are not equal";
#endif
}
namespace {
#if PBT_IN(0)
struct Init {
  Init() {
    pbt::quick_cases = 700000;
    pbt::thorough_cases = 15000000;
  }
} init;
#endif

using il::StringType;
const StringType kTypes[] = {StringType::Ascii, StringType::Utf8, StringType::Wtf8, StringType::Byte};

// A text, always valid UTF-8
std::string text(pbt::Src& s, bool zero = true) {
  std::string t;
  const std::int64_t n = s.chance(1, 3) ? s.range(18, 27) : s.more(s.chance(1, 8) ? 70 : 14, 1200);
  const bool ascii = s.coin();
  if (s.chance(1, 4000)) {  // Very long, from a short piece
    const std::string piece = ascii ? "abc 09\n" : "a\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80";
    const std::int64_t times = s.range(2000, 20000);
    for (std::int64_t i = 0; i < times; ++i) t += piece;
  }
  while (static_cast<std::int64_t>(t.size()) < n) {
    switch (ascii ? s.weighted({8, 3, 1}) : s.weighted({8, 3, 1, 2, 2, 2})) {
      case 0: t += static_cast<char>('a' + s.range(0, 2)); break;
      case 1: t += s.oneOf<char>({' ', '\t', '\n', '\r', '0', '9', '.', 'F', 'g', '\x7f', '\f', '\v'}); break;
      case 2: t += zero ? '\0' : 'z'; break;
      case 3: t += "\xC3\xA9"; break;
      case 4: t += "\xE2\x82\xAC"; break;
      default: t += "\xF0\x9F\x98\x80"; break;
    }
  }
  return t;
}
bool isAscii(const std::string& t) {
  for (char ch : t)
    if (static_cast<unsigned char>(ch) >= 128) return false;
  return true;
}
// A type which is right for the text
StringType typeFor(pbt::Src& s, const std::string& t) {
  return kTypes[isAscii(t) ? s.weighted({4, 4, 1, 1}) : 1 + s.weighted({6, 1, 1})];
}
bool boundary(const std::string& t, std::size_t i) {
  return i >= t.size() || (static_cast<unsigned char>(t[i]) & 0xC0) != 0x80;
}
std::size_t position(pbt::Src& s, const std::string& t) {
  std::size_t i = s.chance(1, 4) ? t.size() : s.draw(t.size() + 1);
  while (!boundary(t, i)) --i;
  return i;
}
std::string bytesOf(const il::String& a) { return std::string(a.data(), static_cast<std::size_t>(a.size())); }
std::string bytesOf(const il::StringView& a) {
  return a.size() == 0 ? std::string() : std::string(a.data(), static_cast<std::size_t>(a.size()));
}

struct Slot {
  il::String a;
  std::string m;
};

void compare(pbt::Ctx& c, const Slot& s, int k) {
  const il::String& a = s.a;
  REQUIRE(a.size() == static_cast<il::int_t>(s.m.size()),
          "string " << k << ": size " << a.size() << " instead of " << s.m.size());
  REQUIRE(a.isEmpty() == s.m.empty(), "string " << k << ": isEmpty");
  REQUIRE(a.capacity() >= a.size(), "string " << k << ": capacity " << a.capacity() << " for size " << a.size());
  REQUIRE(bytesOf(a) == s.m, "string " << k << ": " << pbt::quote(bytesOf(a)) << " instead of " << pbt::quote(s.m));
  REQUIRE(a.asCString()[a.size()] == '\0', "string " << k << ": not terminated by a zero byte");
  REQUIRE(a.asCString() == a.data(), "string " << k << ": asCString is not data");
  REQUIRE(!a.isAscii() || isAscii(s.m), "string " << k << ": is said to be ASCII: " << pbt::quote(s.m));
  REQUIRE(!a.isAscii() || a.isUtf8(), "string " << k << ": ASCII is UTF-8");
  const il::StringView v = a.view();
  REQUIRE(v.size() == a.size() && (a.size() == 0 || v.data() == a.data()), "string " << k << ": view");
}

il::String made(pbt::Src& s, const std::string& t) {
  return il::String{typeFor(s, t), t.data(), static_cast<il::int_t>(t.size())};
}

#if PBT_IN(0)
void history(pbt::Src& s, pbt::Ctx& c) {
  std::vector<std::unique_ptr<Slot>> pool;
  for (int i = 0; i < 3; ++i) pool.push_back(std::unique_ptr<Slot>(new Slot));
  const int nops = static_cast<int>(1 + s.size(49));
  for (int op = 0; op < nops; ++op) {
    const int k = static_cast<int>(s.draw(3));
    Slot& p = *pool[static_cast<std::size_t>(k)];
    il::String& a = p.a;
    std::string& m = p.m;
    const bool was_small = a.isSmall();
    switch (s.weighted({4, 4, 3, 4, 3, 3, 4, 4, 3, 4, 4, 4, 3, 2, 3, 3, 3, 2, 3, 2, 2, 3})) {
      case 0: {
        const std::string t = text(s);
        LOG(k << ": = String(type, " << pbt::quote(t) << ")");
        pool[static_cast<std::size_t>(k)].reset(new Slot{made(s, t), t});
      } break;
      case 1: {
        const char ch = s.oneOf<char>({'a', '\0', '\x7f'});
        LOG(k << ": Append('" << static_cast<int>(ch) << "')");
        a.Append(ch);
        m += ch;
      } break;
      case 2: {
        const il::int_t n = s.size(30);
        LOG(k << ": Append(" << n << ", 'x')");
        a.Append(n, 'x');
        m.append(static_cast<std::size_t>(n), 'x');
      } break;
      case 3: {
        const std::string t = text(s);
        LOG(k << ": Append(type, " << pbt::quote(t) << ", n)");
        a.Append(typeFor(s, t), t.data(), static_cast<il::int_t>(t.size()));
        m += t;
      } break;
      case 4: {
        const int what = static_cast<int>(s.draw(9));
        LOG(k << ": literal number " << what);
        switch (what) {
          case 0: a.Append("abc"); m += "abc"; break;
          case 1: a.Append(StringType::Ascii, "abcdefghijklmnopqrstu"); m += "abcdefghijklmnopqrstu"; break;
          case 2: a.Append(StringType::Utf8, "\xC3\xA9"); m += "\xC3\xA9"; break;
          case 3: a = "short one"; m = "short one"; break;
          case 4: a = "one which is too long to be held inline"; m = "one which is too long to be held inline"; break;
          case 5: a = il::String{StringType::Ascii, "short one"}; m = "short one"; break;
          case 6: a = il::String{StringType::Utf8, "one of 22 byt\xC3\xA9s, inl."}; m = "one of 22 byt\xC3\xA9s, inl."; break;
          case 7: a = il::String{StringType::Utf8, "one which is too long to be h\xC3\xA9ld inline"}; m = "one which is too long to be h\xC3\xA9ld inline"; break;
          default: a = ""; m = ""; break;
        }
      } break;
      case 5: {  // Another string or view
        const int k1 = static_cast<int>(s.draw(3));
        Slot& q = *pool[static_cast<std::size_t>(k1)];
        LOG(k << ": Append(" << k1 << ")");
        const std::string t = q.m;
        a.Append(q.a.view());
        m += t;
        if (k == k1 && !t.empty()) c.nontrivial = true;
      } break;
      case 6: {  // Parts of it
        const int k1 = s.coin() ? k : static_cast<int>(s.draw(3));
        Slot& q = *pool[static_cast<std::size_t>(k1)];
        std::size_t i0 = position(s, q.m), i1 = position(s, q.m);
        if (i0 > i1) std::swap(i0, i1);
        const std::string t = q.m.substr(i0, i1 - i0);
        const il::StringView v = q.a.subview(static_cast<il::int_t>(i0), static_cast<il::int_t>(i1));
        REQUIRE(bytesOf(v) == t, "subview: " << pbt::quote(bytesOf(v)) << " instead of " << pbt::quote(t));
        const int how = static_cast<int>(s.draw(5));
        LOG(k << ": Append number " << how << " of [" << i0 << ", " << i1 << ") of " << k1);
        const il::StringView w = q.a.view();
        const std::string tw = q.m;
        switch (how) {
          case 0: a.Append(v); m += t; break;
          case 1: a.Append(v, w); m += t + tw; break;
          case 2: a.Append(w, v, v); m += tw + t + t; break;
          case 3: a.Append(v.type(), v.data(), v.size()); m += t; break;
          default: a.Append(il::StringView{}, v, "lit"); m += t + "lit"; break;
        }
        if (k == k1 && !t.empty()) c.nontrivial = true;
        if (m.size() > 300) {
          a.Clear();
          m.clear();
        }
      } break;
      case 7: {
        const std::size_t i = position(s, m);
        const std::string t = text(s);
        LOG(k << ": Insert(" << i << ", type, " << pbt::quote(t) << ")");
        a.Insert(static_cast<il::int_t>(i), typeFor(s, t), t.data(), static_cast<il::int_t>(t.size()));
        m.insert(i, t);
      } break;
      case 8: {
        const std::size_t i = position(s, m);
        const int how = static_cast<int>(s.draw(4));
        LOG(k << ": Insert number " << how << " at " << i);
        switch (how) {
          case 0: a.Insert(static_cast<il::int_t>(i), 'c'); m.insert(i, "c"); break;
          case 1: {
            const il::int_t n = s.size(30);
            a.Insert(static_cast<il::int_t>(i), n, 'y');
            m.insert(i, static_cast<std::size_t>(n), 'y');
          } break;
          case 2: a.Insert(static_cast<il::int_t>(i), "lit\xC3\xA9ral"); m.insert(i, "lit\xC3\xA9ral"); break;
          default: a.Insert(static_cast<il::int_t>(i), ""); break;
        }
      } break;
      case 9: {  // Insert a part of a string, maybe itself
        const int k1 = s.coin() ? k : static_cast<int>(s.draw(3));
        Slot& q = *pool[static_cast<std::size_t>(k1)];
        std::size_t i0 = position(s, q.m), i1 = position(s, q.m);
        if (i0 > i1) std::swap(i0, i1);
        const std::string t = q.m.substr(i0, i1 - i0);
        const std::size_t i = position(s, m);
        LOG(k << ": Insert(" << i << ", [" << i0 << ", " << i1 << ") of " << k1 << ")");
        a.Insert(static_cast<il::int_t>(i), q.a.subview(static_cast<il::int_t>(i0), static_cast<il::int_t>(i1)));
        m.insert(i, t);
        if (k == k1 && !t.empty()) c.nontrivial = true;
        if (m.size() > 300) {
          a.Clear();
          m.clear();
        }
      } break;
      case 10: {
        const int k1 = static_cast<int>(s.draw(3));
        LOG(k << ": = " << k1);
        Slot& q = *pool[static_cast<std::size_t>(k1)];
        const il::String& src = q.a;
        a = src;
        if (k1 != k) m = q.m;
      } break;
      case 11: {
        const int k1 = static_cast<int>(s.draw(3));
        LOG(k << ": = move " << k1);
        Slot& q = *pool[static_cast<std::size_t>(k1)];
        a = std::move(q.a);
        if (k1 == k) break;  // no effect
        m = q.m;
        q.m = bytesOf(q.a);
        compare(c, q, k1);
      } break;
      case 12: {
        const int k1 = static_cast<int>(s.draw(3));
        LOG(k << ": copy, then move, of " << k1);
        Slot& q = *pool[static_cast<std::size_t>(k1)];
        il::String x{q.a};
        if (s.coin()) x.Append('x');
        const std::string xm = bytesOf(x);
        REQUIRE(xm == q.m || xm == q.m + "x", "copy: " << pbt::quote(xm));
        compare(c, q, k1);
        il::String y{std::move(x)};
        REQUIRE(bytesOf(y) == xm, "move: " << pbt::quote(bytesOf(y)) << " instead of " << pbt::quote(xm));
        REQUIRE(x.data()[x.size()] == '\0', "string moved from not terminated");
        pool[static_cast<std::size_t>(k)].reset(new Slot{std::move(y), xm});
      } break;
      case 13:
        LOG(k << ": Clear()");
        a.Clear();
        m.clear();
        break;
      case 14: {
        const il::int_t r = s.chance(1, 2) ? s.range(20, 28) : s.range(0, 120);
        LOG(k << ": Reserve(" << r << ")");
        a.Reserve(r);
        REQUIRE(a.capacity() >= r, "capacity " << a.capacity() << " after Reserve(" << r << ")");
      } break;
      case 15: {
        std::size_t i0 = position(s, m), i1 = position(s, m);
        if (i0 > i1) std::swap(i0, i1);
        const int k1 = static_cast<int>(s.draw(3));
        LOG(k1 << ": = substring(" << i0 << ", " << i1 << ") of " << k);
        Slot* q = new Slot{a.substring(static_cast<il::int_t>(i0), static_cast<il::int_t>(i1)), m.substr(i0, i1 - i0)};
        pool[static_cast<std::size_t>(k1)].reset(q);
        compare(c, *q, k1);
      } break;
      case 16: {
        const int k1 = static_cast<int>(s.draw(3)), k2 = static_cast<int>(s.draw(3));
        const Slot& q = *pool[static_cast<std::size_t>(k1)];
        const Slot& r = *pool[static_cast<std::size_t>(k2)];
        const std::string t = text(s);
        const il::StringView v{typeFor(s, t), t.data(), static_cast<il::int_t>(t.size())};
        const int how = static_cast<int>(s.draw(5));
        LOG(k << ": join number " << how << " of " << k1 << ", " << k2 << ", " << pbt::quote(t));
        il::String x;
        std::string xm;
        switch (how) {
          case 0: x = il::join(q.a, v); xm = q.m + t; break;
          case 1: x = il::join(q.a, v, r.a); xm = q.m + t + r.m; break;
          case 2: x = il::join(q.a, ", ", v, r.a); xm = q.m + ", " + t + r.m; break;
          case 3: x = il::join(v, v, q.a, "", r.a); xm = t + t + q.m + r.m; break;
          default: x = il::join(v, q.a, r.a, q.a, "end", v); xm = t + q.m + r.m + q.m + "end" + t; break;
        }
        if (xm.size() > 300) break;
        pool[static_cast<std::size_t>(k)].reset(new Slot{std::move(x), xm});
      } break;
      case 17: {
        const std::int64_t n = s.i64();
        LOG(k << ": = toString(" << n << ")");
        pool[static_cast<std::size_t>(k)].reset(new Slot{il::toString(static_cast<il::int_t>(n)), std::to_string(n)});
      } break;
      case 18: {
        const std::string t = text(s);
        LOG(k << ": = toString(std::string " << pbt::quote(t) << ")");
        pool[static_cast<std::size_t>(k)].reset(new Slot{il::toString(t), t});
      } break;
      case 19: {
        LOG(k << ": = String('q')");
        pool[static_cast<std::size_t>(k)].reset(new Slot{il::String{'q'}, "q"});
      } break;
      case 21: {  // A code point, once or several times
        static const char* const encoded[] = {"r", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"};
        static const int rune[] = {'r', 0xE9, 0x20AC, 0x1F600};
        const std::size_t w = s.draw(4);
        const bool once = s.chance(1, 3);
        const il::int_t n = once ? 1 : s.chance(1, 4) ? s.range(0, 70) : s.range(0, 9);
        LOG(k << ": Append(" << n << ", code point " << rune[w] << ")" << (once ? " once" : ""));
        if (once) {
          a.Append(rune[w]);
        } else {
          a.Append(n, rune[w]);
        }
        for (il::int_t i = 0; i < n; ++i) m += encoded[w];
      } break;
      default: {
        if (m.empty()) break;
        const std::size_t i = s.draw(m.size());
        if (static_cast<unsigned char>(m[i]) >= 128) break;
        LOG(k << ": Data()[" << i << "] = 'D'");
        a.Data()[i] = 'D';
        m[i] = 'D';
      } break;
    }
    const Slot& now = *pool[static_cast<std::size_t>(k)];
    if (now.a.isSmall() != was_small) {
      c.nontrivial = true;
      c.tag("inline/heap");
    }
    for (int j = 0; j < 3; ++j) compare(c, *pool[static_cast<std::size_t>(j)], j);
  }
}
#endif

#if PBT_IN(1)
bool less(const std::string& a, const std::string& b) { return a < b; }

void relations(pbt::Src& s, pbt::Ctx& c) {
  const bool zero = s.coin();
  std::string x = text(s, zero), y;
  switch (s.draw(8)) {
    case 6:
    case 7: {  // One character differs, maybe in a part
      y = x;
      if (!y.empty()) {
        const std::size_t i = s.draw(y.size());
        if (static_cast<unsigned char>(y[i]) < 128) y[i] = y[i] == 'a' ? 'b' : 'a';
      }
      std::size_t i0 = s.coin() ? 0 : position(s, y);
      std::size_t i1 = s.coin() ? y.size() : position(s, y);
      if (i0 > i1) std::swap(i0, i1);
      y = y.substr(i0, i1 - i0);
    } break;
    case 0: y = x; break;
    case 1: y = x + text(s, zero); break;
    case 2: y = text(s, zero) + x; break;
    case 3: y = x.substr(0, position(s, x)); break;
    case 4: y = x.substr(position(s, x)); break;
    default: y = text(s, zero); break;
  }
  if (s.coin()) std::swap(x, y);
  LOG("x = " << pbt::quote(x) << ", y = " << pbt::quote(y));
  il::String a = made(s, x);
  il::String b = made(s, y);
  // Same contents, held elsewhere
  if (s.coin()) a.Reserve(60);
  if (s.coin()) b.Reserve(60);
  if (x != y && !x.empty() && !y.empty() && x[0] == y[0]) c.nontrivial = true;
  const il::StringView va = a.view(), vb = b.view();
  REQUIRE((a == b) == (x == y), "==");
  REQUIRE((a < b) == less(x, y), "<");
  REQUIRE((b < a) == less(y, x), "<");
  REQUIRE(a.startsWith(vb) == (x.size() >= y.size() && x.compare(0, y.size(), y) == 0), "startsWith");
  REQUIRE(a.endsWith(vb) == (x.size() >= y.size() && x.compare(x.size() - y.size(), y.size(), y) == 0), "endsWith");
  const std::size_t at = x.find(y);
  const il::int_t want = at == std::string::npos ? -1 : static_cast<il::int_t>(at);
  REQUIRE(a.search(vb) == want, "search: " << a.search(vb) << " instead of " << want);
  REQUIRE(a.found(a.search(vb)) == (want >= 0), "found");
  REQUIRE(il::search(vb, va) == want, "il::search of views");
  REQUIRE(il::search(b, a) == want, "il::search of strings");
  REQUIRE(a.isEqual(y.data(), static_cast<il::int_t>(y.size())) == (x == y), "isEqual(s, n)");
  const auto first = [&](const char* z) {
    const std::size_t i = x.find(z);
    return i == std::string::npos ? -1 : static_cast<il::int_t>(i);
  };
  REQUIRE(il::search("ab", a) == first("ab") && il::search("b", a) == first("b") && il::search("", a) == 0, "il::search of a literal");
  using H = il::HashFunction<il::String>;
  const int p = static_cast<int>(s.range(1, 20));
  if (x == y) REQUIRE(H::hash(a, p) == H::hash(b, p), "hash of equal strings");
  REQUIRE(H::hash(a, p) < (std::size_t{1} << p), "hash out of range");
  REQUIRE(H::hash(x.data(), static_cast<il::int_t>(x.size()), p) == H::hash(a, p), "hash of the characters");
  REQUIRE(H::isEqual(a, b) == (x == y), "HashFunction::isEqual");
  REQUIRE(H::isEqual(a, y.data(), static_cast<il::int_t>(y.size())) == (x == y), "HashFunction::isEqual(s, n)");
  if (y.find('\0') == std::string::npos) {
    REQUIRE(a.isEqual(y.c_str()) == (x == y), "isEqual(const char*)");
    REQUIRE((a == y.c_str()) == (x == y), "== const char*");
    REQUIRE((y.c_str() == a) == (x == y), "const char* ==");
    REQUIRE((a != y.c_str()) == (x != y), "!= const char*");
    REQUIRE((y.c_str() != a) == (x != y), "const char* !=");
    REQUIRE((y.c_str() < a) == less(y, x), "const char* <");
    REQUIRE((va == y.c_str()) == (x == y), "view == const char*");
    REQUIRE(va.startsWith(y.c_str()) == (x.compare(0, y.size(), y) == 0 && x.size() >= y.size()), "view startsWith");
    REQUIRE(va.endsWith(y.c_str()) == (x.size() >= y.size() && x.compare(x.size() - y.size(), y.size(), y) == 0),
            "view endsWith");
    REQUIRE(il::search(y.c_str(), va) == want, "il::search(const char*, view)");
    const std::size_t i = s.draw(x.size() + 1);
    REQUIRE(va.has(static_cast<il::int_t>(i), y.c_str()) == (x.size() - i >= y.size() && x.compare(i, y.size(), y) == 0),
            "has(" << i << ", const char*)");
    REQUIRE(bytesOf(il::view(y.c_str())) == y, "il::view");
    REQUIRE(bytesOf(il::toString(y.c_str())) == y, "il::toString(const char*)");
  }
  const char ch = s.coin() && !x.empty() ? x[s.draw(x.size())] : s.oneOf<char>({'a', 'c', '\n', '\0'});
  if (static_cast<unsigned char>(ch) < 128) {
    const il::int_t nb = std::count(x.begin(), x.end(), ch);
    REQUIRE(a.count(ch) == nb, "count(" << static_cast<int>(ch) << "): " << a.count(ch) << " instead of " << nb);
    REQUIRE(il::count(ch, va) == nb, "il::count(" << static_cast<int>(ch) << ")");
    REQUIRE(a.endsWith(ch) == (!x.empty() && x.back() == ch), "endsWith(" << static_cast<int>(ch) << ")");
  }
  REQUIRE(va.endsWith(ch) == (!x.empty() && x.back() == ch), "view endsWith(char)");
  REQUIRE(va.startsWith(ch) == (!x.empty() && x[0] == ch), "view startsWith(char)");
  std::ostringstream o;
  o << a;
  if (!zero) REQUIRE(o.str() == x, "<<: " << pbt::quote(o.str()));
}

bool newLine(const std::string& t, std::size_t i) {
  return i < t.size() && (t[i] == '\n' || (t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n'));
}
bool digit(char ch) { return ch >= '0' && ch <= '9'; }

void views(pbt::Src& s, pbt::Ctx& c) {
  const std::string x = text(s);
  const std::string around = s.coin() ? std::string("\n0") : text(s);
  const std::string all = around + x + around;
  LOG("view " << pbt::quote(x) << " inside " << pbt::quote(all));
  // The storage is exactly all: reads outside are seen
  std::unique_ptr<char[]> storage(new char[all.size()]);
  std::memcpy(storage.get(), all.data(), all.size());
  const bool inside = s.coin();
  std::unique_ptr<char[]> alone(new char[x.size()]);
  if (!x.empty()) std::memcpy(alone.get(), x.data(), x.size());
  il::StringView v{StringType::Utf8, inside ? storage.get() + around.size() : alone.get(), static_cast<il::int_t>(x.size())};
  std::string m = x;
  const int nops = static_cast<int>(s.range(1, 6));
  for (int op = 0; op < nops; ++op) {
    const std::size_t n = m.size();
    REQUIRE(v.size() == static_cast<il::int_t>(n) && v.isEmpty() == m.empty(), "size " << v.size() << " instead of " << n);
    REQUIRE(bytesOf(v) == m, "view is " << pbt::quote(bytesOf(v)) << " instead of " << pbt::quote(m));
    const std::size_t i = s.draw(n + 1);
    const il::int_t ii = static_cast<il::int_t>(i);
    if (i < n) {
      const char ch = m[i];
      REQUIRE(v[ii] == ch, "[" << i << "]");
      REQUIRE(v.back(ii) == m[n - 1 - i], "back(" << i << ")");
      REQUIRE(v.hasDigit(ii) == digit(ch), "hasDigit(" << i << ")");
      REQUIRE(v.hasSpace(ii) == (ch == ' ' || (ch >= '\t' && ch <= '\r')), "hasSpace(" << i << ")");
      REQUIRE(v.hasHexaDecimal(ii) == (digit(ch) || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F')),
              "hasHexaDecimal(" << i << ")");
      REQUIRE(v.hasNewLine(ii) == newLine(m, i), "hasNewLine(" << i << ")");
      REQUIRE(v.has(ii, ch), "has(" << i << ", its character)");
    }
    REQUIRE(v.has(ii, 'a') == (i < n && m[i] == 'a'), "has(" << i << ", 'a')");
    if (n > 0) {
      REQUIRE(v.startsWithDigit() == digit(m[0]), "startsWithDigit");
      REQUIRE(v.endsWithDigit() == digit(m.back()), "endsWithDigit");
    }
    REQUIRE(v.startsWithNewLine() == newLine(m, 0), "startsWithNewLine");
    REQUIRE(v.endsWithNewLine() == (n > 0 && m.back() == '\n'), "endsWithNewLine");
    const char ch = s.oneOf<char>({'a', ' ', '9', '\0'});
    std::size_t j = m.find(ch, i);
    REQUIRE(v.nextChar(ii, ch) == (j == std::string::npos ? -1 : static_cast<il::int_t>(j)), "nextChar(" << i << ")");
    for (j = i; j < n && !digit(m[j]); ++j) {}
    REQUIRE(v.nextDigit(ii) == (j == n ? -1 : static_cast<il::int_t>(j)), "nextDigit(" << i << ")");
    for (j = i; j < n && !newLine(m, j); ++j) {}
    REQUIRE(v.nextNewLine(ii) == (j == n ? -1 : static_cast<il::int_t>(j)), "nextNewLine(" << i << ")");
    std::ostringstream o;
    o << v;
    if (m.find('\0') == std::string::npos) REQUIRE(o.str() == m, "<<: " << pbt::quote(o.str()));
    {
      il::String t{v};
      REQUIRE(bytesOf(t) == m && t.data()[n] == '\0', "String of the view");
    }
    std::size_t i1 = i + s.draw(n - i + 1);
    const char* blank = " \t";
    std::string q = m;
    q.erase(0, std::min(n, q.find_first_not_of(blank)));
    REQUIRE(bytesOf(il::removeWhitespaceLeft(v)) == q, "removeWhitespaceLeft");
    switch (s.draw(5)) {
      case 0:
        LOG("removePrefix(" << i << ")");
        v.removePrefix(ii);
        m.erase(0, i);
        break;
      case 1:
        LOG("removeSuffix(" << i << ")");
        v.removeSuffix(ii);
        m.erase(i);
        break;
      case 2:
        LOG("trimPrefix");
        v.trimPrefix();
        m = q;
        break;
      case 3: {
        LOG("trimSuffix");
        v.trimSuffix();
        const std::size_t e = m.find_last_not_of(blank);
        m.erase(e == std::string::npos ? 0 : e + 1);
      } break;
      default:
        LOG("subview(" << i << ", " << i1 << ")");
        v = v.subview(ii, static_cast<il::int_t>(i1));
        m = m.substr(i, i1 - i);
        break;
    }
    if (!m.empty() && m.size() < x.size()) c.nontrivial = true;
  }
  REQUIRE(bytesOf(v) == m, "view is " << pbt::quote(bytesOf(v)) << " instead of " << pbt::quote(m));
}
#endif
}  // namespace

#if PBT_IN(0)
PROPERTY(string_history, 5) { history(s, c); }
#endif
#if PBT_IN(1)
PROPERTY(string_relations, 2) { relations(s, c); }
PROPERTY(string_views, 2) { views(s, c); }
#endif
