// C12: UTF-8 and UTF-16 against reference encoders and a reference validator.
#include <memory>
#include <string>

#include <il/String.h>
#include <il/container/string/unicode.h>

#include "common.h"

namespace pbt {
const char* rule =
    "a text of up to 40 code points (biased to the limits of each encoded length "
    "and to the surrogates), a history of up to 40 operations on UTF-16 strings, or "
    "a byte sequence obtained from a valid text by up to 4 edits, is drawn and "
    "compared with reference encoders and a reference validator. Non-trivial: the "
    "text holds a code point outside ASCII, or the bytes are not a valid text";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 900000;
    pbt::thorough_cases = 20000000;
  }
} init;

bool scalar(std::int64_t r) { return r >= 0 && r <= 0x10FFFF && !(r >= 0xD800 && r <= 0xDFFF); }

int anyRune(pbt::Src& s) {
  int r;
  switch (s.weighted({3, 4, 3, 3, 3})) {
    case 0: r = static_cast<int>(s.range(0, 0x7F)); break;
    case 1: {
      const int limit = s.oneOf<int>({0x80, 0x800, 0xD800, 0xDC00, 0xE000, 0xFFFF, 0x10000, 0x10FFFF});
      r = limit + static_cast<int>(s.range(-2, 2));
    } break;
    case 2: r = static_cast<int>(s.range(0x80, 0x7FF)); break;
    case 3: r = static_cast<int>(s.range(0x800, 0xFFFF)); break;
    default: r = static_cast<int>(s.range(0x10000, 0x10FFFF)); break;
  }
  return r;
}
int rune(pbt::Src& s) {
  const int r = anyRune(s);
  return scalar(r) ? r : 0xFFFD;
}

void encode8(int r, std::string& t) {
  const unsigned u = static_cast<unsigned>(r);
  if (u < 0x80) {
    t += static_cast<char>(u);
  } else if (u < 0x800) {
    t += static_cast<char>(0xC0 + u / 64);
    t += static_cast<char>(0x80 + u % 64);
  } else if (u < 0x10000) {
    t += static_cast<char>(0xE0 + u / 4096);
    t += static_cast<char>(0x80 + u / 64 % 64);
    t += static_cast<char>(0x80 + u % 64);
  } else {
    t += static_cast<char>(0xF0 + u / 262144);
    t += static_cast<char>(0x80 + u / 4096 % 64);
    t += static_cast<char>(0x80 + u / 64 % 64);
    t += static_cast<char>(0x80 + u % 64);
  }
}
void encode16(int r, std::u16string& t) {
  if (r < 0x10000) {
    t += static_cast<char16_t>(r);
  } else {
    t += static_cast<char16_t>(0xD800 + (r - 0x10000) / 1024);
    t += static_cast<char16_t>(0xDC00 + (r - 0x10000) % 1024);
  }
}

// Valid by decoding each sequence and encoding it back
bool valid8(const std::string& t) {
  std::size_t i = 0;
  while (i < t.size()) {
    const unsigned c = static_cast<unsigned char>(t[i]);
    std::size_t len;
    unsigned r;
    if (c < 0x80) { len = 1; r = c; }
    else if (c / 32 == 6) { len = 2; r = c % 32; }
    else if (c / 16 == 14) { len = 3; r = c % 16; }
    else if (c / 8 == 30) { len = 4; r = c % 8; }
    else return false;
    if (t.size() - i < len) return false;
    for (std::size_t k = 1; k < len; ++k) {
      const unsigned d = static_cast<unsigned char>(t[i + k]);
      if (d / 64 != 2) return false;
      r = r * 64 + d % 64;
    }
    if (!scalar(r)) return false;
    std::string back;
    encode8(static_cast<int>(r), back);
    if (back.size() != len) return false;  // Overlong
    i += len;
  }
  return true;
}

std::string hex(const std::vector<int>& v) {
  std::ostringstream o;
  for (int r : v) o << std::hex << "U+" << r << " ";
  return o.str();
}
std::u16string units(const il::UTF16String& a) {
  return std::u16string(reinterpret_cast<const char16_t*>(a.data()), static_cast<std::size_t>(a.size()));
}
std::string show(const std::u16string& t) {
  std::ostringstream o;
  for (char16_t u : t) o << std::hex << static_cast<unsigned>(u) << " ";
  return o.str();
}
std::string bytesOf(const il::String& a) { return std::string(a.data(), static_cast<std::size_t>(a.size())); }

void text(pbt::Src& s, pbt::Ctx& c) {
  std::vector<int> runes;
  il::String a;
  il::UTF16String b;
  std::string m;
  std::u16string w;
  bool seen = false;  // Anything which is not ASCII, even zero times
  const std::int64_t n = s.size(20);
  for (std::int64_t k = 0; k < n; ++k) {
    const int r = rune(s);
    if (r >= 0x80) seen = true;
    const std::int64_t times = s.chance(1, 2000) ? s.range(10, 1200) : s.chance(1, 4) ? s.size(9) : 1;
    const bool many = times != 1 || s.chance(1, 4);
    LOG("Append(" << (many ? pbt::str(times) + " x " : std::string()) << "U+" << std::hex << r << std::dec << ")");
    if (many) {
      a.Append(static_cast<il::int_t>(times), r);
      b.Append(static_cast<il::int_t>(times), r);
    } else {
      a.Append(r);
      b.Append(r);
    }
    for (std::int64_t j = 0; j < times; ++j) {
      runes.push_back(r);
      encode8(r, m);
      encode16(r, w);
      if (r >= 0x80) c.nontrivial = true;
      if (r >= 0x10000) c.tag("surrogate pair");
    }
    REQUIRE(bytesOf(a) == m, "UTF-8 of " << hex(runes) << "is " << pbt::quote(bytesOf(a)) << " instead of " << pbt::quote(m));
    REQUIRE(a.data()[a.size()] == '\0', "UTF-8 string not terminated");
    REQUIRE(units(b) == w, "UTF-16 of " << hex(runes) << "is " << show(units(b)) << " instead of " << show(w));
    REQUIRE(b.data()[b.size()] == 0, "UTF-16 string not terminated");
  }
  // Steps
  const bool tight = s.coin();
  std::unique_ptr<char[]> storage(new char[m.size() + 1]);
  std::memcpy(storage.get(), m.data(), m.size());
  const il::StringView v =
      tight ? il::StringView{il::StringType::Utf8, storage.get(), static_cast<il::int_t>(m.size())} : a.view();
  if (tight) storage[m.size()] = static_cast<char>(0x80);  // Not a part of the text
  std::vector<int> got;
  for (il::int_t i = 0; i < v.size(); i = v.nextRune(i)) {
    got.push_back(v.rune(i));
    REQUIRE(got.size() <= runes.size(), "stepping over " << hex(runes) << "in UTF-8 visits " << hex(got));
    REQUIRE(a.isRuneBoundary(i), "isRuneBoundary(" << i << ")");
  }
  REQUIRE(got == runes, "stepping over " << hex(runes) << "in UTF-8 visits " << hex(got));
  got.clear();
  for (il::int_t i = 0; i < b.size(); i = b.nextRune(i)) {
    got.push_back(b.rune(i));
    REQUIRE(got.size() <= runes.size(), "stepping over " << hex(runes) << "in UTF-16 visits " << hex(got));
  }
  REQUIRE(got == runes, "stepping over " << hex(runes) << "in UTF-16 visits " << hex(got));
  for (std::size_t i = 0; i <= m.size(); ++i) {
    const bool want = i == m.size() || static_cast<unsigned char>(m[i]) / 64 != 2;
    REQUIRE(a.isRuneBoundary(static_cast<il::int_t>(i)) == want, "isRuneBoundary(" << i << ") in " << pbt::quote(m));
  }
  // Conversions
  const il::UTF16String b1 = il::toUtf16(a);
  REQUIRE(units(b1) == w, "toUtf16 of " << hex(runes) << "is " << show(units(b1)));
  const il::String a1 = il::toUtf8(b);
  REQUIRE(bytesOf(a1) == m, "toUtf8 of " << hex(runes) << "is " << pbt::quote(bytesOf(a1)));
  REQUIRE(bytesOf(il::toUtf8(b1)) == m, "text converted to UTF-16 and back");
  REQUIRE(units(il::toUtf16(a1)) == w, "text converted to UTF-8 and back");
  // Predicates
  REQUIRE(il::isUtf8(m.data(), static_cast<il::int_t>(m.size())), "isUtf8 refuses " << hex(runes));
  REQUIRE(a.isUtf8(), "a string of runes is not UTF-8");
  bool ascii = true;
  for (int r : runes) ascii = ascii && r < 0x80;
  // Zero copies of a rune which is not ASCII may make the string UTF-8
  REQUIRE(seen && ascii ? true : a.isAscii() == ascii, "isAscii for " << hex(runes));
  REQUIRE(il::isAscii(m.data(), static_cast<il::int_t>(m.size())) == ascii, "il::isAscii for " << hex(runes));
  if (m.find('\0') == std::string::npos) {
    REQUIRE(il::isUtf8(m.c_str()), "isUtf8(s) refuses " << hex(runes));
    REQUIRE(il::isAscii(m.c_str()) == ascii, "isAscii(s) for " << hex(runes));
  }
}

void predicates(pbt::Src& s, pbt::Ctx& c) {
  for (int k = 0; k < 8; ++k) {
    const int r = s.chance(1, 3) ? s.i32() : (s.coin() ? anyRune(s) : static_cast<int>(s.range(0xD700, 0xE100)));
    LOG("isRune(" << r << ")");
    REQUIRE(il::isRune(r) == scalar(r), "isRune(" << r << ") is " << il::isRune(r));
    if (scalar(r) && r >= 0x80) c.nontrivial = true;
#ifdef IL_UNIT_TEST
    if (!scalar(r)) {
      const std::int64_t how = s.range(0, 3);
      bool refused = false;
      il::String a;
      il::UTF16String b;
      try {
        if (how == 0) a.Append(r);
        if (how == 1) a.Append(il::int_t{2}, r);
        if (how == 2) b.Append(r);
        if (how == 3) b.Append(il::int_t{2}, r);
      } catch (const il::AbortException&) {
        refused = true;
      }
      REQUIRE(refused, "Append number " << how << " accepts " << r << " as a code point");
      c.nontrivial = true;
      c.tag("refused");
    }
#endif
  }
}

void bytes(pbt::Src& s, pbt::Ctx& c) {
  std::string t;
  const std::int64_t n = s.size(8);
  for (std::int64_t k = 0; k < n; ++k) {
    if (s.chance(1, 6)) {  // A surrogate or too large, encoded all the same
      const int r = s.coin() ? static_cast<int>(s.range(0xD7FE, 0xE001)) : static_cast<int>(s.range(0x10FFFE, 0x110100));
      encode8(r, t);
    } else if (s.chance(1, 6)) {  // Overlong
      const unsigned r = static_cast<unsigned>(s.oneOf<int>({0, 0x2F, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF}));
      switch (s.draw(3)) {
        case 0: t += static_cast<char>(0xC0 + r / 64 % 32); break;
        case 1:
          t += static_cast<char>(0xE0 + r / 4096 % 16);
          t += static_cast<char>(0x80 + r / 64 % 64);
          break;
        default:
          t += static_cast<char>(0xF0 + r / 262144 % 8);
          t += static_cast<char>(0x80 + r / 4096 % 64);
          t += static_cast<char>(0x80 + r / 64 % 64);
          break;
      }
      t += static_cast<char>(0x80 + r % 64);
    } else {
      encode8(rune(s), t);
    }
  }
  const std::int64_t edits = s.size(4);
  for (std::int64_t k = 0; k < edits && !t.empty(); ++k) {
    const std::size_t i = s.draw(t.size());
    switch (s.draw(4)) {
      case 0: t[i] = static_cast<char>(s.range(0x80, 0xFF)); break;
      case 1: t.erase(i, 1); break;
      case 2: t.insert(i, 1, static_cast<char>(s.range(0x7E, 0xC3))); break;
      default: t.resize(i); break;
    }
  }
  LOG("bytes " << pbt::quote(t));
  const bool want = valid8(t);
  if (!want) c.nontrivial = true;
  if (want && !t.empty()) c.tag("valid");
  // The storage is exactly the text
  std::unique_ptr<char[]> p(new char[t.size()]);
  std::memcpy(p.get(), t.data(), t.size());
  REQUIRE(il::isUtf8(p.get(), static_cast<il::int_t>(t.size())) == want, "isUtf8 is " << !want << " for " << pbt::quote(t));
  bool ascii = true;
  for (char ch : t) ascii = ascii && static_cast<unsigned char>(ch) < 0x80;
  REQUIRE(il::isAscii(p.get(), static_cast<il::int_t>(t.size())) == ascii, "isAscii for " << pbt::quote(t));
  if (t.find('\0') == std::string::npos)
    REQUIRE(il::isUtf8(t.c_str()) == want, "isUtf8(s) is " << !want << " for " << pbt::quote(t));
}

////////////////////////////////////////////////////////////////////////////////

struct Slot {
  il::UTF16String a;
  std::u16string m;
};
void compare(pbt::Ctx& c, const Slot& s, int k) {
  REQUIRE(s.a.size() == static_cast<il::int_t>(s.m.size()), "string " << k << ": size " << s.a.size() << " instead of " << s.m.size());
  REQUIRE(s.a.capacity() >= s.a.size(), "string " << k << ": capacity " << s.a.capacity());
  REQUIRE(s.a.isEmpty() == s.m.empty(), "string " << k << ": isEmpty");
  REQUIRE(units(s.a) == s.m, "string " << k << ": " << show(units(s.a)) << "instead of " << show(s.m));
  REQUIRE(s.a.asWString()[s.a.size()] == 0, "string " << k << ": not terminated");
}
std::u16string utf16(pbt::Src& s) {
  std::u16string t;
  const std::int64_t n = s.chance(1, 3) ? s.range(9, 14) : s.more(20, 400);
  for (std::int64_t k = 0; k < n; ++k) {
    const int r = rune(s);
    encode16(r == 0 ? 1 : r, t);
  }
  return t;
}

void history16(pbt::Src& s, pbt::Ctx& c) {
  std::vector<std::unique_ptr<Slot>> pool;
  for (int i = 0; i < 3; ++i) pool.push_back(std::unique_ptr<Slot>(new Slot));
  const int nops = static_cast<int>(1 + s.size(39));
  for (int op = 0; op < nops; ++op) {
    const int k = static_cast<int>(s.draw(3));
    Slot& p = *pool[static_cast<std::size_t>(k)];
    il::UTF16String& a = p.a;
    std::u16string& m = p.m;
    switch (s.weighted({3, 3, 3, 3, 2, 3, 3, 3, 3, 3})) {
      case 0: {
        const std::u16string t = utf16(s);
        LOG(k << ": = UTF16String(" << show(t) << ")");
        pool[static_cast<std::size_t>(k)].reset(new Slot{il::UTF16String{t.c_str()}, t});
      } break;
      case 1: {
        const std::u16string t = utf16(s);
        LOG(k << ": Append(" << show(t) << ")");
        a.Append(t.c_str());
        m += t;
      } break;
      case 2: {
        const int k1 = static_cast<int>(s.draw(3));
        LOG(k << ": Append(" << k1 << ")");
        const std::u16string t = pool[static_cast<std::size_t>(k1)]->m;
        if (m.size() + t.size() > 300) break;
        a.Append(pool[static_cast<std::size_t>(k1)]->a);
        m += t;
        if (k == k1 && !t.empty()) c.nontrivial = true;
      } break;
      case 3: {
        const int r = rune(s);
        LOG(k << ": Append(U+" << std::hex << r << std::dec << ")");
        a.Append(r);
        encode16(r, m);
        if (r >= 0x80) c.nontrivial = true;
      } break;
      case 4: {
        LOG(k << ": Append('c')");
        a.Append('c');
        m += u'c';
      } break;
      case 5: {
        const il::int_t n = s.more(20, 700);
        LOG(k << ": Append(" << n << ", 'c')");
        a.Append(n, 'c');
        m.append(static_cast<std::size_t>(n), u'c');
      } break;
      case 6: {
        const il::int_t r = s.chance(1, 60) ? s.range(0, 2000) : s.range(0, 60);
        LOG(k << ": Reserve(" << r << ")");
        a.Reserve(r);
        REQUIRE(a.capacity() >= r, "capacity after Reserve");
      } break;
      case 7: {
        const int k1 = static_cast<int>(s.draw(3));
        LOG(k << ": = " << k1);
        const il::UTF16String& src = pool[static_cast<std::size_t>(k1)]->a;
        a = src;
        if (k != k1) m = pool[static_cast<std::size_t>(k1)]->m;
      } break;
      case 8: {
        const int k1 = static_cast<int>(s.draw(3));
        LOG(k << ": = move " << k1);
        Slot& q = *pool[static_cast<std::size_t>(k1)];
        a = std::move(q.a);
        if (k1 == k) break;  // no effect
        m = q.m;
        q.m = units(q.a);
        compare(c, q, k1);
      } break;
      default: {
        const int k1 = static_cast<int>(s.draw(3));
        LOG(k << ": copy, then move, of " << k1);
        Slot& q = *pool[static_cast<std::size_t>(k1)];
        il::UTF16String x{q.a};
        REQUIRE(x == q.a, "a copy is not equal to its source");
        x.Append('x');
        REQUIRE(!(x == q.a), "strings of different sizes are equal");
        compare(c, q, k1);
        pool[static_cast<std::size_t>(k)].reset(new Slot{std::move(x), q.m + u'x'});
      } break;
    }
    for (int j = 0; j < 3; ++j) compare(c, *pool[static_cast<std::size_t>(j)], j);
    REQUIRE((pool[0]->a == pool[1]->a) == (pool[0]->m == pool[1]->m), "== of UTF-16 strings");
  }
}
}  // namespace

PROPERTY(runes_and_conversions, 5) { text(s, c); }
PROPERTY(is_rune, 1) { predicates(s, c); }
PROPERTY(is_utf8, 3) { bytes(s, c); }
PROPERTY(utf16_history, 3) { history16(s, c); }
