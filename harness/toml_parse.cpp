// C23: what the TOML parser makes of documents, and of anything else.
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>

#include <il/Array.h>
#include <il/MapArray.h>
#include <il/toml.h>

#include "pbt.h"
#include "toml_common.h"
#include "value.h"

namespace pbt {
const char* rule =
    "documents are drawn as trees of values, and written with random spacing, comments, ends of lines, quotes, "
    "escapes, forms of the numbers, inline or not, tables in any legal order; then loaded as they are, with one "
    "definite error, mutated, or replaced with random bytes and tokens. Non-trivial: a valid document with at "
    "least 3 values and 2 features of the grammar; a document with an error and at least 3 other values; a byte "
    "string of at least 8 bytes";
}
namespace {
using namespace vt;
using vv::V;

struct Init {
  Init() {
    pbt::quick_cases = 60000;
    pbt::thorough_cases = 3000000;
  }
} init;

// A part of a document which starts and ends with a line
struct Unit {
  std::string text;      // without the end of line
  bool header = false;   // [..] or [[..]]
  std::string key;       // the key, as it is written
  bool single = true;    // on a single line
};

struct Writer {
  pbt::Src& s;
  std::vector<Unit> units;
  std::set<const char*> features;
  int values = 0;
  int eol = 0;  // 0: \n, 1: \r\n, 2: both
  int space = 0;

  explicit Writer(pbt::Src& s) : s(s) {
    eol = static_cast<int>(s.weighted({5u, 2u, 1u}));
    space = static_cast<int>(s.range(0, 2));
    if (eol > 0) features.insert("\\r\\n");
  }
  const char* nl() { return eol == 1 || (eol == 2 && s.coin()) ? "\r\n" : "\n"; }
  std::string ws() {
    if (space == 0) return "";
    std::string t;
    if (space == 1) return s.coin() ? " " : "";
    while (s.chance(1, 3)) t += s.coin() ? ' ' : '\t';
    if (s.chance(1, 200)) {
      t += std::string(static_cast<std::size_t>(s.range(190, 2000)), ' ');
      features.insert("long line");
    }
    return t;
  }
  std::string comment() {
    features.insert("comment");
    std::string t = "#";
    int n = static_cast<int>(s.range(0, 10));
    if (s.chance(1, 100)) {
      n = static_cast<int>(s.range(200, 3000));
      features.insert("long line");
    }
    for (int i = 0; i < n; ++i) {
      if (n > 20) {
        t += static_cast<char>('a' + i % 26);
      } else {
        t += s.oneOf<char>({'a', ' ', '"', '\'', '#', '=', '[', ']', ',', '{', '}', '\\', '\t', '1'});
      }
    }
    return t;
  }
  // what there may be in between the elements of an array
  std::string gap() {
    if (!s.chance(1, 5)) return ws();
    std::string t = ws();
    features.insert("array on several lines");
    do {
      if (s.chance(1, 3)) t += comment();
      t += nl();
      t += ws();
    } while (s.chance(1, 3));
    return t;
  }

  std::string escape(unsigned r) {
    static const char* short_from = "\b\t\n\f\r\"\\";
    static const char* short_to = "btnfr\"\\";
    if (r != 0 && r < 128 && s.coin()) {
      for (int i = 0; short_from[i] != 0; ++i)
        if (static_cast<unsigned>(short_from[i]) == r) return std::string("\\") + short_to[i];
    }
    char b[16];
    const bool big = r > 0xFFFF || s.chance(1, 3);
    std::snprintf(b, sizeof b, big ? (s.coin() ? "\\U%08X" : "\\U%08x") : (s.coin() ? "\\u%04X" : "\\u%04x"), r);
    features.insert("\\u");
    return b;
  }
  std::string str(const std::string& v) {
    bool literal = true;
    for (char ch : v)
      if (ch == '\'' || (static_cast<unsigned char>(ch) < 0x20 && ch != '\t') || ch == 0x7F) literal = false;
    if (literal && s.chance(1, 3)) {
      features.insert("literal string");
      return "'" + v + "'";
    }
    std::string t = "\"";
    const bool often = s.chance(1, 6);
    for (std::size_t i = 0; i < v.size();) {
      const unsigned char ch = static_cast<unsigned char>(v[i]);
      const std::size_t n = ch < 0x80 ? 1 : ch < 0xE0 ? 2 : ch < 0xF0 ? 3 : 4;
      unsigned r = n == 1 ? ch : n == 2 ? ch & 0x1Fu : n == 3 ? ch & 0x0Fu : ch & 0x07u;
      for (std::size_t k = 1; k < n; ++k) r = (r << 6) | (static_cast<unsigned char>(v[i + k]) & 0x3Fu);
      const bool must = ch == '"' || ch == '\\' || (ch < 0x20 && ch != '\t') || ch == 0x7F;
      if (must || (often ? s.coin() : s.chance(1, 30))) {
        t += escape(r);
        features.insert("escape");
      } else {
        t.append(v, i, n);
        if (n > 1) features.insert("UTF-8");
      }
      i += n;
    }
    return t + "\"";
  }
  std::string key(const std::string& k) {
    bool bare = !k.empty();
    for (char ch : k)
      if (!((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_' || ch == '-')) bare = false;
    if (bare && !s.chance(1, 8)) return k;
    features.insert("quoted key");
    return str(k);
  }
  std::string integer(std::int64_t x) {
    std::string d = std::to_string(x), t;
    std::size_t i = 0;
    if (d[0] == '-') {
      t = "-";
      i = 1;
    } else if (s.chance(1, 6)) {
      t = s.coin() || x != 0 ? "+" : "-";
    }
    const bool under = s.chance(1, 6);
    for (; i < d.size(); ++i) {
      t += d[i];
      if (under && i + 1 < d.size() && s.chance(1, 3)) {
        t += '_';
        features.insert("_");
      }
    }
    return t;
  }
  std::string number(double x) {
    char b[400];
    std::string t;
    switch (s.chance(1, 8) ? 4 : static_cast<int>(s.range(0, 3))) {
      case 4: {  // in the middle of two consecutive numbers, or just after it
        const double y = std::fmod(x, 1e9);
        const double z = std::nextafter(y, 1e10);
        if (std::fabs(y) < 1e-4 || !std::isfinite(y)) {
          std::snprintf(b, sizeof b, "%.17g", x);
          break;
        }
        std::snprintf(b, sizeof b, "%.80Lf", (static_cast<long double>(y) + static_cast<long double>(z)) / 2);
        t = b;
        while (t.back() == '0' && t[t.size() - 2] != '.') t.pop_back();
        if (s.coin()) t += s.coin() ? "1" : "00000000000000000000001";
        features.insert("many digits");
        return t;
      }
      case 0:
        std::snprintf(b, sizeof b, s.coin() ? "%.16e" : "%.5E", x);
        break;
      case 1:
        std::snprintf(b, sizeof b, "%.17g", x);
        break;
      case 2:
        std::snprintf(b, sizeof b, "%.*f", static_cast<int>(s.range(1, 20)), std::fmod(x, 1e12));
        break;
      default: {  // digits
        t = s.oneOf<const char*>({"", "-", "+"});
        if (s.chance(1, 3)) {
          t += "0";
        } else {
          t += static_cast<char>('1' + s.range(0, 8));
          for (int n = static_cast<int>(s.range(0, 6)); n > 0; --n) {
            if (s.chance(1, 6)) t += '_';
            t += static_cast<char>('0' + s.range(0, 9));
          }
        }
        const bool dot = s.chance(2, 3);
        if (dot) {
          t += '.';
          for (int n = static_cast<int>(s.range(1, 25)); n > 0; --n) t += static_cast<char>('0' + s.range(0, 9));
        }
        if (!dot || s.coin()) {
          t += s.coin() ? 'e' : 'E';
          t += s.oneOf<const char*>({"", "-", "+"});
          if (s.chance(1, 4)) t += '0';
          t += std::to_string(s.range(0, s.coin() ? 30 : 290));
        }
        return t;
      }
    }
    t = b;
    if (t.find_first_of(".eE") == std::string::npos) t += s.coin() ? ".0" : "e0";
    if (t[0] != '-' && s.chance(1, 8)) t = "+" + t;
    return t;
  }
  // Puts some '_' in between the digits of a floating point number
  std::string separated(const std::string& t) {
    if (!s.chance(1, 6)) return t;
    std::string u;
    for (std::size_t i = 0; i < t.size(); ++i) {
      u += t[i];
      if (i + 1 < t.size() && std::isdigit(static_cast<unsigned char>(t[i])) && std::isdigit(static_cast<unsigned char>(t[i + 1])) && s.chance(1, 3)) {
        u += '_';
        features.insert("_ in a float");
      }
    }
    return u;
  }
  // Writes the value. The value of a number becomes the one that is written.
  std::string value(V& v) {
    ++values;
    switch (v.kind) {
      case vv::Bool:
        return v.bits ? "true" : "false";
      case vv::Integer:
        return integer(v.bits);
      case vv::Double: {
        const std::string t = separated(number(vv::doubleOf(v.bits)));
        std::string u;
        for (char ch : t)
          if (ch != '_') u += ch;
        v.bits = vv::bitsOf(std::strtod(u.c_str(), nullptr));
        if (!std::isfinite(vv::doubleOf(v.bits))) {
          v.bits = vv::bitsOf(0.0);
          return "0.0";
        }
        features.insert("float");
        return t;
      }
      case vv::Str:
        return str(v.s);
      case vv::Arr: {
        std::string t = "[" + gap();
        for (std::size_t i = 0; i < v.children.size(); ++i) {
          t += value(v.children[i]) + gap();
          if (i + 1 < v.children.size()) {
            t += "," + gap();
          } else if (s.chance(1, 6)) {
            t += "," + gap();
            features.insert("trailing comma");
          }
        }
        return t + "]";
      }
      default: {
        features.insert("inline table");
        std::string t = "{" + ws();
        std::vector<std::size_t> order = shuffled(v.keys.size());
        for (std::size_t i = 0; i < order.size(); ++i) {
          if (i > 0) t += "," + ws();
          t += key(v.keys[order[i]]) + ws() + "=" + ws();
          t += value(v.children[order[i]]) + ws();
        }
        return t + "}";
      }
    }
  }
  std::vector<std::size_t> shuffled(std::size_t n) {
    std::vector<std::size_t> order(n);
    for (std::size_t i = 0; i < n; ++i) order[i] = i;
    if (s.coin())
      for (std::size_t i = n; i > 1; --i) std::swap(order[i - 1], order[static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(i) - 1))]);
    return order;
  }
  using Block = std::vector<Unit>;

  Unit headerUnit(const std::vector<std::string>& path, bool array) {
    Unit u;
    u.header = true;
    u.text = ws() + (array ? "[[" : "[");
    for (std::size_t i = 0; i < path.size(); ++i) {
      if (i > 0) u.text += ".";
      u.text += ws() + key(path[i]) + ws();
    }
    u.text += array ? "]]" : "]";
    if (path.size() > 1) features.insert("dotted header");
    return u;
  }

  // The blocks of lines for a table, in an order that is legal: what an
  // element of an array of tables is made of comes after its header
  std::vector<Block> table(V& v, std::vector<std::string>& path, int header /* 0 root, 1 [], 2 [[]] */) {
    Block own;
    std::vector<std::vector<Block>> subs;
    for (std::size_t i : shuffled(v.keys.size())) {
      V& child = v.children[i];
      bool tables = child.kind == vv::Arr && !child.children.empty();
      if (tables)
        for (const V& e : child.children)
          if (e.kind != vv::MapArr) tables = false;
      path.push_back(v.keys[i]);
      if (child.kind == vv::MapArr && s.chance(3, 4)) {
        subs.push_back(table(child, path, 1));
      } else if (tables && s.chance(3, 4)) {
        features.insert("array of tables");
        std::vector<Block> list;
        for (V& e : child.children) {
          ++values;
          for (Block& b : table(e, path, 2)) list.push_back(std::move(b));
        }
        subs.push_back(std::move(list));
      } else {
        Unit u;
        u.key = key(v.keys[i]);
        const std::string val = value(child);
        u.text = ws() + u.key + ws() + "=" + ws() + val;
        u.single = u.text.find('\n') == std::string::npos;
        own.push_back(std::move(u));
      }
      path.pop_back();
    }
    if (header > 0) {
      if (header == 1) ++values;
      const bool needed = header == 2 || !own.empty() || subs.empty();
      if (needed || s.coin()) {
        own.insert(own.begin(), headerUnit(path, header == 2));
      } else {
        features.insert("implicit table");
      }
    }
    std::vector<Block> ans;
    if (header != 1) {
      if (!own.empty()) ans.push_back(std::move(own));
    } else if (!own.empty()) {
      subs.insert(subs.begin(), std::vector<Block>{std::move(own)});
    }
    // interleaves
    const bool in_order = s.coin();
    std::vector<std::size_t> next(subs.size(), 0);
    while (true) {
      std::vector<std::size_t> left;
      for (std::size_t k = 0; k < subs.size(); ++k)
        if (next[k] < subs[k].size()) left.push_back(k);
      if (left.empty()) break;
      const std::size_t k = in_order ? left[0] : left[static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(left.size()) - 1))];
      if (k != left[0]) features.insert("any order");
      ans.push_back(std::move(subs[k][next[k]++]));
    }
    return ans;
  }

  void document(V& v) {
    std::vector<std::string> path;
    for (Block& b : table(v, path, 0))
      for (Unit& u : b) units.push_back(std::move(u));
  }
  std::string filler() {
    std::string t;
    while (s.chance(1, 4)) t += ws() + (s.coin() ? comment() : std::string()) + nl();
    return t;
  }
  std::string end() {
    return ws() + (s.chance(1, 6) ? comment() : std::string());
  }
  // *line is the number of the line where unit k starts
  std::string text(std::size_t k, std::int64_t* line) {
    std::string t = filler();
    for (std::size_t i = 0; i < units.size(); ++i) {
      if (i == k && line) *line = 1 + std::count(t.begin(), t.end(), '\n');
      t += units[i].text;
      if (i != k) t += end();
      if (i + 1 == units.size() && s.chance(1, 4)) {
        features.insert("no end of line");
        return t;
      }
      t += nl();
      t += filler();
    }
    return t;
  }
};

V drawDocument(pbt::Src& s, int depth) {
  Count n;
  V v = drawTable(s, depth, true, n);
  if (s.chance(1, 50)) {
    // Many values, arrays or tables
    V a;
    const int kind = static_cast<int>(s.range(0, 3));
    a.kind = kind == 0 ? vv::MapArr : vv::Arr;
    const int size = static_cast<int>(s.range(100, 400));
    for (int i = 0; i < size; ++i) {
      V e;
      e.kind = kind == 0 || kind == 1 ? vv::Integer : kind == 2 ? vv::Arr : vv::MapArr;
      e.bits = i;
      if (kind == 0) a.keys.push_back("k" + std::to_string(i));
      if (kind == 3) {
        e.keys.push_back("i");
        V f;
        f.kind = vv::Integer;
        f.bits = i;
        e.children.push_back(f);
      }
      a.children.push_back(e);
    }
    v.keys.push_back("zz-wide-zz");
    v.children.push_back(a);
  }
  // tables are loaded as MapArray
  std::function<void(V&)> fix = [&](V& x) {
    if (x.kind == vv::Map) x.kind = vv::MapArr;
    for (V& y : x.children) fix(y);
  };
  fix(v);
  return v;
}

void put(const std::string& path, const std::string& text) {
  std::FILE* f = std::fopen(path.c_str(), "wb");
  if (!f || std::fwrite(text.data(), 1, text.size(), f) != text.size() || std::fclose(f) != 0) throw pbt::Discard{};
}

void grammar(pbt::Src& s, pbt::Ctx& c) {
  V v = drawDocument(s, static_cast<int>(s.range(0, 5)));
  Writer w{s};
  w.document(v);
  std::string text = w.text(w.units.size(), nullptr);
  LOG("document: " << pbt::quote(text));
  const std::string path = c.scratch + "/document.toml";
  put(path, text);
  const int files = nbOpenFiles();
  il::Status status{};
  const MapArrayT m = il::load<MapArrayT>(vv::utf8(path), il::io, status);
  const bool ok = status.Ok();
  REQUIRE(ok, "load ends with an error at line " << status.toInteger("line"));
  sameTable(c, m, v, "the document");
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  for (const char* f : w.features) c.tag(f);
  c.nontrivial = w.values >= 3 && w.features.size() >= 2;
}

// An error: what is written, and whether the line it is on is known
struct Wrong {
  std::string text;
  bool line = true;
  bool last = false;  // it has to be the end of the document
};

Wrong wrong(pbt::Src& s, Writer& w, std::size_t at) {
  const std::string k = "zz9";
  auto value = [&](std::initializer_list<const char*> list) { return k + w.ws() + "=" + w.ws() + s.oneOf<const char*>(list); };
  Wrong e;
  switch (s.range(0, 13)) {
    case 0:  // no value, no =, no key
      e.text = s.oneOf<const char*>({"zz9 =", "zz9 = # c", "zz9", "zz9 1", "= 1", "\"zz9\" 1", "\"zz9\"", "'zz9' # =", "zz9 = ,", "zz9 = =", "zz9 = ]"});
      break;
    case 1:  // something after the value
      e.text = value({"1 2", "1 x", "\"a\" b", "\"a\"\"b\"", "true false", "truex", "falsed", "[1] 2", "[1]]", "{a = 1}}", "{} x", "1.5 2",
                      "1.5.2", "1,", "'a'b", "[] []", "1 = 2", "1]"});
      break;
    case 2:  // numbers
      e.text = value({"01", "1_", "1__2", "_1", "1.", ".5", "1.e5", "1e", "1e+", "1.5e", "1.5e-", "+", "-", "-e5", "+.5", "--1", "+-1", "0_1", "-01",
                      "00", "01.5", "1x", "1.x", "1ex", "1.5x", "0x", "1e5.5", "1_.5", "1._5", "1.5_", "1.5__5", "1e_5", "1e5_",
                      "1e5__5", "1.5_e5", "1.5e_5", "1.5e5_", "1.5e+_5"});
      break;
    case 3:  // integers that are too big
      e.text = value({"9223372036854775808", "-9223372036854775809", "+9223372036854775808", "18446744073709551616",
                      "100000000000000000000", "9_223_372_036_854_775_808", "-100000000000000000000000000000000000000"});
      break;
    case 4:  // words
      e.text = value({"tru", "t", "fals", "f", "True", "FALSE", "nil", "x", "abc", "@", "(1)", "tRue", "treu", "fasle"});
      break;
    case 5:  // strings
      e.text = value({"\"a", "'a", "\"", "'", "\"a'", "'a\"", "\"a\\\"", "\"\\a\"", "\"\\x41\"", "\"\\u12\"", "\"\\u12G4\"", "\"\\uD800\"",
                      "\"\\uDFFF\"", "\"\\U00110000\"", "\"\\U0000004\"", "\"\\ \"", "\"\\'\"", "\"a\\", "\"\\U\"", "\"\\UFFFFFFFF\"", "\"\\u\""});
      break;
    case 6: {  // strings that are not UTF-8
      const char* bad = s.oneOf<const char*>({"\xFF", "\x80", "\xC3", "\xC0\x80", "\xC1\xBF", "\xE2\x82", "\xED\xA0\x80", "\xF4\x90\x80\x80",
                                              "\xF0\x80\x80\x80", "\xE0\x80\x80", "\xE0\x82\x80", "\xE0\x9F\xBF", "\xF0\x80\xA0\x80", "\xF0\x8F\xBF\xBF",
                                              "\xED\xBF\xBF", "\xC3\x28", "\xF8\x88\x80\x80\x80", "\xF0\x9F\x98"});
      const char* q = s.coin() ? "\"" : "'";
      const std::string str = q + std::string(s.coin() ? "a" : "") + bad + (s.coin() ? "b" : "") + q;
      e.text = s.chance(1, 3) ? str + " = 1" : k + " = " + str;
    } break;
    case 7:  // keys
      e.text = s.oneOf<const char*>({"z z = 1", "z#z = 1", "z[z = 1", "z]z = 1", "z\tz = 1", "\"zz = 1", "'zz = 1", "\"zz\"z = 1", "] = 1", "z] = 1"});
      break;
    case 8:  // arrays
      if (s.chance(2, 3)) {  // some elements of a type and one of another type, anywhere
        static const char* const kinds[6][3] = {{"1", "-20", "0"}, {"1.5", "-2e3", "0.0"}, {"true", "false", "true"}, {"\"a\"", "'b'", "\"\""},
                                                {"[1]", "[]", "[2, 3]"}, {"{}", "{a = 1}", "{b = []}"}};
        const bool numbers = s.chance(1, 3);
        const std::size_t k0 = static_cast<std::size_t>(s.range(0, numbers ? 1 : 5));
        std::size_t k1 = static_cast<std::size_t>(s.range(0, numbers ? 0 : 4));
        k1 += k1 >= k0;
        const std::size_t n = static_cast<std::size_t>(s.range(2, s.chance(1, 6) ? 40 : 9));
        const std::size_t other = s.coin() ? n - 1 : static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(n) - 1));
        std::string t = k + " = [";
        for (std::size_t i = 0; i < n; ++i) t += (i ? ", " : "") + std::string(kinds[i == other ? k1 : k0][s.range(0, 2)]);
        e.text = t + "]";
        break;
      }
      e.text = value({"[1, \"a\"]", "[1, true]", "[\"a\", 1]", "[1, 2.5]", "[2.5, 1]", "[[1], 2]", "[1, [2]]", "[{a = 1}, 2]", "[{}, []]", "[[], {}]",
                      "[true, \"a\"]", "[,]", "[1,,2]", "[1 2]", "[,1]", "[1;2]", "[x]", "[1, x]", "[\"a\" \"b\"]", "[[1] [2]]", "[1}", "[[1}]", "[=]",
                      "[tru]", "[01]", "[9223372036854775808]", "['a', 1]"});
      break;
    case 9:  // inline tables
      e.text = value({"{a}", "{a = 1, a = 2}", "{a = }", "{a = 1", "{", "{a = 1,}", "{,}", "{a = 1 b = 2}", "{a = 1]", "{= 1}", "{a = 1,, b = 2}",
                      "{\"a\" = 1, 'a' = 2}", "{a = {b = 1, b = 2}}", "{a = [1}", "{1}", "{a = x}", "{a 1}", "{a = 1, # c", "{a = 1 # }"});
      break;
    case 10:  // names of tables
      e.text = s.oneOf<const char*>({"[zz9", "[]", "[[]]", "[[zz9]", "[zz9]]", "[zz9.]", "[.zz9]", "[zz9..b]", "[[zz9.]]", "[[.zz9]]", "[zz9] x", "[zz9] 1",
                                     "[[zz9]] x", "[ ]", "[[ ]]", "[\"zz9]", "[zz9\"", "[", "[[", "[zz9 b]", "[zz9#]", "[[zz9] ]", "[zz9] = 1", "[[zz9",
                                     "[\"zz9\" b]", "[\"zz9\"\"b\"]", "[[a]b]", "[zz9][b]", "[zz9.b", "[[zz9.b]", "[zz9]zz9 = 1", "[[zz9]][b]"});
      break;
    case 11:  // unclosed arrays
      e.text = value({"[", "[1", "[1,", "[ # ]", "[[1]", "[[1],", "[\"a\"", "[{a = 1}", "[\"]", "[1 # ]\n# ]", "[1,\n2", "[[\n[\n1]"});
      e.line = false;
      e.last = true;
      break;
    case 12: {  // the same key twice
      std::vector<std::size_t> at_key;
      for (std::size_t i = 0; i < at && i < w.units.size(); ++i)
        if (!w.units[i].key.empty()) at_key.push_back(i);
      // with no header after it
      std::size_t k0 = w.units.size();
      for (std::size_t i = at; i-- > 0;) {
        if (w.units[i].header) break;
        k0 = i;
        if (s.coin()) break;
      }
      if (k0 == w.units.size()) {
        e.text = "zz9";
      } else {
        e.text = w.units[k0].key + w.ws() + "=" + w.ws() + s.oneOf<const char*>({"1", "true", "\"a\"", "[1]", "{}"});
      }
    } break;
    default:  // a key that is already there as something else
      e.text = s.oneOf<const char*>({"[yy8]", "[yy8.b]", "[[yy8]]", "[yy8.b.c]", "[[yy8.b]]", "[[xx7]]", "[vv5]", "[vv5.b]", "[[vv5]]", "[uu4.b]", "[[uu4]]"});
      break;
  }
  return e;
}

void rejects(pbt::Src& s, pbt::Ctx& c) {
  V v = drawDocument(s, static_cast<int>(s.range(0, 3)));
  Writer w{s};
  w.document(v);
  for (const char* t : {"yy8 = 1", "xx7 = {}", "vv5 = []", "uu4 = 'a'"}) {
    Unit u;
    u.text = t;
    u.key = std::string(t, 3);
    w.units.insert(w.units.begin(), u);
  }
  const std::size_t at = static_cast<std::size_t>(s.range(4, static_cast<std::int64_t>(w.units.size())));
  Wrong e = wrong(s, w, at);
  Unit u;
  u.text = e.text;
  if (e.last) w.units.resize(at);
  w.units.insert(w.units.begin() + static_cast<std::ptrdiff_t>(at), u);
  std::int64_t line = 0;
  const std::string text = w.text(at, &line);
  LOG("document: " << pbt::quote(text) << ", the error is " << pbt::quote(e.text) << " at line " << line);
  const std::string path = c.scratch + "/document.toml";
  put(path, text);
  const int files = nbOpenFiles();
  il::Status status{};
  il::TomlParser parser{};
  const bool direct = s.coin();
  if (direct) {
    const MapArrayT m = parser.parse(vv::utf8(path), il::io, status);
  } else {
    const MapArrayT m = il::load<MapArrayT>(vv::utf8(path), il::io, status);
  }
  const bool ok = status.Ok();
  REQUIRE(!ok, "the document is accepted");
  REQUIRE(status.domain() == il::ErrorDomain::Parse, "the error is " << static_cast<int>(status.error()));
  if (e.line) REQUIRE(status.toInteger("line") == line, "the error is said to be at line " << status.toInteger("line"));
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  if (direct) {
    // The parser is as good as new
    put(path, "a = 1\n[b]\nc = [[2]]\n[e\n");
    il::Status again{};
    const MapArrayT m = parser.parse(vv::utf8(path), il::io, again);
    const bool ok2 = again.Ok();
    REQUIRE(!ok2 && again.toInteger("line") == 4, "the parser is not the same after an error");
    put(path, "a = 1\n[b]\nc = [[2]]\n");
    il::Status last{};
    const MapArrayT m3 = parser.parse(vv::utf8(path), il::io, last);
    const bool ok3 = last.Ok();
    REQUIRE(ok3 && m3.nbElements() == 2, "the parser does not work after an error");
  }
  c.nontrivial = w.values >= 3;
}

// Loads anything
void load(pbt::Ctx& c, const std::string& text) {
  LOG("document of " << text.size() << " bytes: " << pbt::quote(text.substr(0, 2000)));
  const std::string path = c.scratch + "/document.toml";
  put(path, text);
  const int files = nbOpenFiles();
  il::Status status{};
  const MapArrayT m = il::load<MapArrayT>(vv::utf8(path), il::io, status);
  const bool ok = status.Ok();
  c.tag(ok ? "accepted" : "rejected");
  if (!ok) {
    REQUIRE(status.domain() == il::ErrorDomain::Parse, "the error is " << static_cast<int>(status.error()));
    const std::int64_t lines = std::count(text.begin(), text.end(), '\n') + 1;
    REQUIRE(status.toInteger("line") >= 1 && status.toInteger("line") <= lines,
            "the error is said to be at line " << status.toInteger("line") << " of " << lines);
  }
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
}

const char* const tokens[] = {"[", "]", "[[", "]]", "{", "}", ",", ".", "=", "\n", "\r\n", "\r", " ", "\t", "#", "\"", "'", "\\", "\\u00e9", "\\U0001F600", "a", "b",
                              "a = ", "1", "-", "+", "0", "_", "1.5", "e5", "true", "false", "\"x\"", "'y'", "\xC3\xA9", "\xFF", "a.b", "[a]", "[[a]]", "[a.b]", "a = 1\n", "\xEF\xBB\xBF"};

void mutated(pbt::Src& s, pbt::Ctx& c) {
  V v = drawDocument(s, static_cast<int>(s.range(0, 4)));
  Writer w{s};
  w.document(v);
  std::string text = w.text(w.units.size(), nullptr);
  const int nb = static_cast<int>(s.range(1, 4));
  auto pos = [&] { return static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(text.size()))); };
  for (int i = 0; i < nb; ++i) {
    const std::size_t p = pos();
    switch (s.range(0, 5)) {
      case 0:
        text.resize(p);
        break;
      case 1:
        if (p < text.size()) text[p] = static_cast<char>(s.range(0, 255));
        break;
      case 2:
        if (p < text.size()) text.erase(p, static_cast<std::size_t>(s.range(1, 4)));
        break;
      case 3:
        text.insert(p, tokens[s.range(0, static_cast<std::int64_t>(sizeof tokens / sizeof *tokens) - 1)]);
        break;
      case 4: {  // a piece twice
        const std::size_t q = pos();
        text.insert(pos(), text.substr(std::min(p, q), std::min<std::size_t>(std::max(p, q) - std::min(p, q), 60)));
      } break;
      default:
        text.insert(p, 1, static_cast<char>(s.range(0, 255)));
    }
  }
  load(c, text);
  c.nontrivial = text.size() >= 8;
}

void anything(pbt::Src& s, pbt::Ctx& c) {
  std::string text;
  switch (s.weighted({6u, 2u, 1u})) {
    case 0:
      for (int n = static_cast<int>(s.range(0, 40)); n > 0; --n) text += tokens[s.range(0, static_cast<std::int64_t>(sizeof tokens / sizeof *tokens) - 1)];
      break;
    case 1:
      for (int n = static_cast<int>(s.range(0, 60)); n > 0; --n) text += static_cast<char>(s.range(0, 255));
      break;
    default: {  // the same thing many times
      const int n = static_cast<int>(s.range(50, s.chance(1, 20) ? 100000 : 400));
      static const char* const starts[] = {"a = ", "", "[", "[[", "a = [", "a = {", "[a."};
      static const char* const repeated[] = {"[", "{a = ", "a.", "[[", "[{a = ", "]", "1,", "a = 1, ", "\"", "\\", "{", " ", "#", "1", "_1", "[[a]]\n", "[a]\n", "[[],", "\n", "a.[", "\"a\"."};
      text = starts[s.range(0, 6)];
      const char* r = repeated[s.range(0, 20)];
      for (int i = 0; i < n; ++i) text += r;
      if (s.coin()) text += s.oneOf<const char*>({"]", "}", "a]", "\n", "1", "a]]", "]]"});
    }
  }
  load(c, text);
  c.nontrivial = text.size() >= 8;
}

// What is nested too deeply is an error, or a document
void deep(pbt::Src& s, pbt::Ctx& c) {
  static const char* const starts[] = {"a = ", "a = ", "[", "[[", "[b.", "a = ", "[\"b\"."};
  static const char* const repeated[] = {"[", "{a = ", "a.", "a.", "\"a\".", "[{a = ", "a . "};
  static const char* const ends[] = {"1", "1", "a]", "a]]", "a]", "1", "a]"};
  static const char* const closing[] = {"]", "}", "", "", "", "}]", ""};
  const std::size_t k = static_cast<std::size_t>(s.range(0, 6));
  const int n = static_cast<int>(s.chance(1, 3) ? s.range(1, 300) : s.range(30000, 100000));
  std::string text = starts[k];
  for (int i = 0; i < n; ++i) text += repeated[k];
  if (s.chance(3, 4)) {
    text += ends[k];
    if (s.chance(3, 4))
      for (int i = 0; i < n; ++i) text += closing[k];
    text += "\n";
  }
  LOG(n << " times " << repeated[k]);
  load(c, text);
  c.nontrivial = n > 300;
}

void missing(pbt::Src& s, pbt::Ctx& c) {
  std::string path;
  const int kind = static_cast<int>(s.range(0, 2));
  if (kind == 0) path = c.scratch + "/nothing" + std::to_string(s.range(0, 99)) + ".toml";
  if (kind == 1) path = c.scratch + "/nodirectory/document.toml";
  if (kind == 2) path = c.scratch;  // a directory
  LOG("load " << path);
  const int files = nbOpenFiles();
  il::Status status{};
  il::TomlParser parser{};
  const MapArrayT m = parser.parse(vv::utf8(path), il::io, status);
  const bool ok = status.Ok();
  REQUIRE(!ok, "a file that is not there is loaded");
  REQUIRE(status.domain() == il::ErrorDomain::Filesystem, "the error is " << static_cast<int>(status.error()));
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  c.nontrivial = kind == 0;
}
}  // namespace

PROPERTY(grammar, 10) { grammar(s, c); }
PROPERTY(rejects, 8) { rejects(s, c); }
PROPERTY(mutated, 5) { mutated(s, c); }
PROPERTY(anything, 4) { anything(s, c); }
PROPERTY(deep, 1) { deep(s, c); }
PROPERTY(missing, 1) { missing(s, c); }
