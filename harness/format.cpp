// C29: il::format and il::print against a reference formatter.
#include <cmath>
#include <cstdlib>
#include <fcntl.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

#include <il/print.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "format strings made of literal text, escaped braces and replacement fields "
    "(automatic, numbered or named arguments; fill, alignment, sign, alternate "
    "form, zeros, width and precision, fixed or taken from an argument; every "
    "type), with arguments of 9 types biased to limits; malformed strings from a "
    "catalogue, and random ones. Non-trivial: a field with a width larger than "
    "its text, or with two options or more, or a malformed string";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 1200000;
    pbt::thorough_cases = 24000000;
  }
} init;

enum Kind { Int, UInt, I64, U64, Double, CStr, Str, Char, Bool, nb_kinds };
const char* kind_name[] = {"int", "unsigned", "long long", "unsigned long long", "double", "const char*", "std::string", "char", "bool"};
struct Arg {
  Kind kind = Int;
  std::int64_t i = 0;
  std::uint64_t u = 0;
  double d = 0;
  std::string s;
};

Arg drawArg(pbt::Src& s, Kind k) {
  Arg a;
  a.kind = k;
  switch (k) {
    case Int: a.i = s.i32(); break;
    case UInt: a.u = static_cast<std::uint32_t>(s.i64()); break;
    case I64: a.i = s.i64(); break;
    case U64: a.u = static_cast<std::uint64_t>(s.i64()); break;
    case Double:
      switch (s.weighted({3, 3, 2, 1})) {
        case 0: a.d = s.smallDouble(); break;
        case 1: a.d = s.unit() * std::pow(10.0, static_cast<double>(s.range(-20, 20))); break;
        case 2: a.d = s.finiteDouble(); break;
        default: a.d = s.oneOf<double>({0.0, -0.0, INFINITY, -INFINITY, NAN, -NAN, 5e-324, 1.7976931348623157e308, 9.9999995, 0.00009999999, 999999.5}); break;
      }
      break;
    case CStr:
    case Str: {
      a.s = s.coin() ? s.bytes(8, "ab {}%\xc3\xa9:") : s.bytes(s.coin() ? 3 : 40);
      // A string may have any byte
      if (k == Str && s.chance(1, 8)) a.s.insert(static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(a.s.size()))), 1, '\0');
      break;
    }
    case Char: a.i = s.coin() ? s.range('a', 'z') : s.range(1, 126); break;
    default: a.i = s.coin();
  }
  return a;
}
std::string showArg(const Arg& a) {
  switch (a.kind) {
    case Int: case I64: case Bool: return pbt::str(a.i);
    case Char: return pbt::quote(std::string(1, static_cast<char>(a.i)));
    case UInt: case U64: return pbt::str(a.u);
    case Double: return pbt::str(a.d);
    default: return pbt::quote(a.s);
  }
}

// The call, with arguments of their own types
struct Call {
  const std::string& f;
  const std::vector<Arg>& args;
  bool print;
  std::string out;
};
template <typename... A>
void finish(Call& k, const A&... a) {
  if (k.print) {
    il::print(k.f, a...);
  } else {
    const il::String r = il::format(k.f, a...);
    k.out.assign(r.data(), static_cast<std::size_t>(r.size()));
  }
}
template <int depth>
struct Next {
  template <typename... A>
  static void run(Call& k, const A&... a) {
    constexpr std::size_t n = sizeof...(A);
    if (n == k.args.size()) return finish(k, a...);
    const Arg& x = k.args[n];
    // All kinds for the first 2 arguments, three of them beyond
    switch (x.kind) {
      case Int: return Next<depth - 1>::run(k, a..., static_cast<int>(x.i));
      case Double: return Next<depth - 1>::run(k, a..., x.d);
      case Str: return Next<depth - 1>::run(k, a..., x.s);
      default: break;
    }
    more(k, std::integral_constant<bool, (n < 2)>{}, a...);
  }
  template <typename... A>
  static void more(Call&, std::false_type, const A&...) {}
  template <typename... A>
  static void more(Call& k, std::true_type, const A&... a) {
    const Arg& x = k.args[sizeof...(A)];
    // Beyond one argument of the other kinds, there are no more than 2
    constexpr int d = depth - 1 < 1 ? depth - 1 : (sizeof...(A) == 0 ? 1 : 0);
    switch (x.kind) {
      case UInt: return Next<d>::run(k, a..., static_cast<unsigned>(x.u));
      case I64: return Next<d>::run(k, a..., static_cast<long long>(x.i));
      case U64: return Next<d>::run(k, a..., static_cast<unsigned long long>(x.u));
      case CStr: return Next<d>::run(k, a..., x.s.c_str());
      case Char: return Next<d>::run(k, a..., static_cast<char>(x.i));
      case Bool: return Next<d>::run(k, a..., x.i != 0);
      default: break;
    }
  }
};
template <>
struct Next<0> {
  template <typename... A>
  static void run(Call& k, const A&... a) { finish(k, a...); }
};

std::vector<Arg> drawArgs(pbt::Src& s) {
  std::vector<Arg> args;
  // At most 2 arguments of any kind, or 4 of three kinds
  if (s.coin()) {
    const int n = static_cast<int>(s.range(1, 2));
    for (int k = 0; k < n; ++k) args.push_back(drawArg(s, static_cast<Kind>(s.draw(nb_kinds))));
  } else {
    const int n = static_cast<int>(s.range(0, 4));
    for (int k = 0; k < n; ++k) args.push_back(drawArg(s, s.oneOf<Kind>({Int, Double, Str})));
  }
  return args;
}

struct Spec {
  char fill = 0;    // 0: not given
  char align = 0;
  char sign = 0;
  bool hash = false, zero = false;
  int width = -1;
  int precision = -1;
  char type = 0;
};

std::string digits(std::uint64_t n, unsigned base, bool upper) {
  std::string r;
  do {
    r.insert(r.begin(), (upper ? "0123456789ABCDEF" : "0123456789abcdef")[n % base]);
    n /= base;
  } while (n != 0);
  return r;
}

// The text of a field
std::string reference(const Arg& a, const Spec& p) {
  std::string prefix, body;
  bool number = false;
  const bool as_int = a.kind == Int || a.kind == UInt || a.kind == I64 || a.kind == U64 ||
                      (a.kind == Bool && p.type) || (a.kind == Char && p.type && p.type != 'c');
  if (as_int) {
    number = true;
    std::uint64_t n;
    bool negative = false;
    if (a.kind == UInt || a.kind == U64) {
      n = a.u;
    } else {
      negative = a.i < 0;
      n = negative ? 0 - static_cast<std::uint64_t>(a.i) : static_cast<std::uint64_t>(a.i);
    }
    if (negative) prefix = "-";
    else if (p.sign == '+' || p.sign == ' ') prefix = std::string(1, p.sign);
    switch (p.type) {
      case 'x': case 'X':
        if (p.hash) prefix += p.type == 'x' ? "0x" : "0X";
        body = digits(n, 16, p.type == 'X');
        break;
      case 'b': case 'B':
        if (p.hash) prefix += p.type == 'b' ? "0b" : "0B";
        body = digits(n, 2, false);
        break;
      case 'o':
        if (p.hash) prefix += "0";
        body = digits(n, 8, false);
        break;
      default: body = digits(n, 10, false);
    }
  } else if (a.kind == Double) {
    number = true;
    if (std::signbit(a.d)) prefix = "-";
    else if (p.sign == '+' || p.sign == ' ') prefix = std::string(1, p.sign);
    const char type = p.type ? p.type : 'g';
    const double x = std::fabs(a.d);
    if (std::isfinite(x)) {
      std::string f = "%";
      if (p.hash) f += "#";
      if (p.precision >= 0) f += "." + std::to_string(p.precision);
      f += type;
      char buffer[2000];
      body.assign(buffer, static_cast<std::size_t>(std::snprintf(buffer, sizeof buffer, f.c_str(), x)));
    } else {
      const bool upper = type == 'E' || type == 'F' || type == 'G' || type == 'A';
      body = std::isnan(x) ? (upper ? "NAN" : "nan") : (upper ? "INF" : "inf");
    }
  } else if (a.kind == Char) {
    body = std::string(1, static_cast<char>(a.i));
  } else {
    body = a.kind == Bool ? (a.i ? "true" : "false") : a.s;
    if (p.precision >= 0 && body.size() > static_cast<std::size_t>(p.precision)) body.resize(static_cast<std::size_t>(p.precision));
  }
  const std::size_t size = prefix.size() + body.size();
  const std::size_t width = p.width < 0 ? 0 : static_cast<std::size_t>(p.width);
  if (size >= width) return prefix + body;
  const std::size_t pad = width - size;
  const char fill = p.zero ? '0' : p.fill ? p.fill : ' ';
  char align = p.zero ? '=' : p.align;
  if (!align) align = number && a.kind != Char && a.kind != Bool ? '>' : '<';
  if (!p.align && !p.zero && (a.kind == Char || a.kind == Bool) && number) align = '>';
  switch (align) {
    case '<': return prefix + body + std::string(pad, fill);
    case '>': return std::string(pad, fill) + prefix + body;
    case '^': return std::string(pad / 2, fill) + prefix + body + std::string(pad - pad / 2, fill);
    default: return prefix + std::string(pad, fill) + body;
  }
}

bool isInt(const Arg& a) { return a.kind == Int || a.kind == UInt || a.kind == I64 || a.kind == U64; }

// A specification that the documentation allows for the argument
Spec drawSpec(pbt::Src& s, const Arg& a) {
  Spec p;
  const bool finite = a.kind != Double || std::isfinite(a.d);
  switch (a.kind) {
    case Int: case UInt: case I64: case U64:
      if (s.coin()) p.type = s.oneOf<char>({'d', 'x', 'X', 'b', 'B', 'o'});
      break;
    case Bool:
    case Char:
      if (s.chance(1, 3)) p.type = s.oneOf<char>({'d', 'x', 'o'});
      else if (a.kind == Char && s.chance(1, 3)) p.type = 'c';
      break;
    case Double:
      if (s.chance(2, 3)) p.type = s.oneOf<char>({'f', 'e', 'g', 'F', 'E', 'G', 'a', 'A'});
      break;
    default:
      if (s.chance(1, 4)) p.type = 's';
  }
  const bool number = isInt(a) || (a.kind == Double && finite);
  if (s.chance(1, 2)) {
    p.align = s.oneOf<char>({'<', '>', '^', '='});
    if (p.align == '=' && !number) p.align = '^';
    if (s.coin()) p.fill = s.oneOf<char>({'*', '0', ' ', '-', 'x', '<', ':', '.', '\x7f'});
  }
  if ((a.kind == Int || a.kind == I64 || a.kind == Double) && s.chance(1, 3)) p.sign = s.oneOf<char>({'+', '-', ' '});
  // An infinity and a NaN do not have another form
  if (number && s.chance(1, 4)) p.hash = true;
  // printf writes no second 0 for the octal form of 0
  if (p.hash && p.type == 'o' && a.i == 0 && a.u == 0) p.hash = false;
  if (number && s.chance(1, 4)) p.zero = true;
  // On which side they are by default is not documented
  if (a.kind == Double && !finite && !p.align) p.align = s.oneOf<char>({'<', '>', '^'});
  if (s.chance(1, 2)) p.width = static_cast<int>(s.coin() ? s.range(1, 12) : s.range(1, 700));
  if (!isInt(a) && a.kind != Char && a.kind != Bool && s.chance(1, 2))
    p.precision = static_cast<int>(s.coin() ? s.range(0, 8) : s.range(0, 40));
  return p;
}

struct Quiet {
  std::string path;
  int old = -1;
  explicit Quiet(pbt::Ctx& c) : path(c.scratch + "/stdout") {
    std::fflush(stdout);
    old = dup(1);
    const int f = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (old < 0 || f < 0) throw pbt::Discard{};
    dup2(f, 1);
    close(f);
  }
  ~Quiet() {
    std::fflush(stdout);
    dup2(old, 1);
    close(old);
  }
};
std::string read(const std::string& path) {
  std::string r;
  std::FILE* f = std::fopen(path.c_str(), "rb");
  if (!f) return r;
  char b[4096];
  for (std::size_t n; (n = std::fread(b, 1, sizeof b, f)) > 0;) r.append(b, n);
  std::fclose(f);
  return r;
}

void text(pbt::Src& s, std::string& f, std::string& expected) {
  const int n = static_cast<int>(s.size(6));
  for (int k = 0; k < n; ++k) {
    switch (s.weighted({4, 1, 1})) {
      case 0: {
        const char x = s.oneOf<char>({'a', ' ', '%', ':', '\n', '\xe9', '0', '\\'});
        f += x;
        expected += x;
        break;
      }
      case 1: f += "{{"; expected += "{"; break;
      default: f += "}}"; expected += "}";
    }
  }
}

PROPERTY(text_and_fields, 12) {
  const std::vector<Arg> args = drawArgs(s);
  for (const Arg& a : args) LOG(kind_name[a.kind] << " " << showArg(a));
  std::string f, expected;
  text(s, f, expected);
  const bool numbered = s.coin();
  const int n = args.empty() ? 0 : static_cast<int>(s.range(0, 4));
  std::size_t next = 0;
  for (int k = 0; k < n; ++k) {
    std::size_t i = numbered ? s.draw(args.size()) : next++;
    if (i >= args.size()) break;
    const Arg& a = args[i];
    f += "{";
    if (numbered) f += std::to_string(i);
    Spec p = drawSpec(s, a);
    if (s.chance(1, 5)) {
      p = Spec{};
      if (s.coin()) f += ":";
    } else {
      f += ":";
      if (p.fill) f += p.fill;
      if (p.align) f += p.align;
      if (p.sign) f += p.sign;
      if (p.hash) f += "#";
      if (p.zero) f += "0";
      // The width or the precision may be another argument
      for (int w = 0; w < 2; ++w) {
        int& x = w == 0 ? p.width : p.precision;
        if (x < 0) continue;
        if (w == 1) f += ".";
        const std::size_t j = numbered ? s.draw(args.size()) : next;
        if (j < args.size() && isInt(args[j]) && s.chance(2, 3)) {
          const Arg& b = args[j];
          const std::uint64_t v = b.kind == UInt || b.kind == U64 ? b.u : b.i < 0 ? ~std::uint64_t(0) : static_cast<std::uint64_t>(b.i);
          if (v <= 900) {
            x = static_cast<int>(v);
            f += "{" + (numbered ? std::to_string(j) : std::string{}) + "}";
            if (!numbered) ++next;
            c.tag("width or precision from an argument");
            continue;
          }
        }
        f += std::to_string(x);
      }
      if (p.type) f += p.type;
    }
    f += "}";
    const std::string r = reference(a, p);
    expected += r;
    const int options = (p.fill != 0) + (p.align != 0) + (p.sign != 0) + p.hash + p.zero + (p.width >= 0) + (p.precision >= 0) + (p.type != 0);
    if (options >= 2 || (p.width >= 0 && r.size() == static_cast<std::size_t>(p.width))) c.nontrivial = true;
    text(s, f, expected);
  }
  LOG("format " << pbt::quote(f));
  Call call{f, args, false, ""};
  Next<4>::run(call);
  REQUIRE(call.out == expected, pbt::quote(call.out) << " instead of " << pbt::quote(expected));
  if (s.chance(1, 50)) {
    c.tag("print");
    call.print = true;
    std::string path;
    {
      Quiet quiet{c};
      path = quiet.path;
      Next<4>::run(call);
    }
    const std::string out = read(path);
    REQUIRE(out == expected, "printed " << pbt::quote(out) << " instead of " << pbt::quote(expected));
  }
}

PROPERTY(named_and_many, 1) {
  const int x = s.i32();
  const double d = s.smallDouble();
  const std::string t = s.bytes(6);
  std::string f, expected;
  const int n = static_cast<int>(s.range(0, 6));
  for (int k = 0; k < n; ++k) {
    text(s, f, expected);
    switch (s.draw(3)) {
      case 0: f += "{first}"; expected += std::to_string(x); break;
      case 1: {
        char b[400];
        std::snprintf(b, sizeof b, "%.3f", d);
        f += "{b_2:.3f}";
        expected += b;
        break;
      }
      default: f += "{Text}"; expected += t;
    }
  }
  LOG("format " << pbt::quote(f) << " first " << x << " b_2 " << d << " Text " << pbt::quote(t));
  const il::String r = il::format(f, fmt::arg("first", x), fmt::arg("b_2", d), fmt::arg("Text", t));
  REQUIRE(std::string(r.data(), static_cast<std::size_t>(r.size())) == expected,
          pbt::quote(std::string(r.data(), static_cast<std::size_t>(r.size()))) << " instead of " << pbt::quote(expected));
  if (n >= 2) c.nontrivial = true;
  // More arguments than are packed in a word
  long long v[20];
  for (int k = 0; k < 20; ++k) v[k] = s.chance(1, 4) ? s.i64() : k;
  std::string g, wanted;
  for (int k = 0; k < 25; ++k) {
    const int i = static_cast<int>(s.draw(20));
    g += "{" + std::to_string(i) + "} ";
    wanted += (i == 16 ? t : i == 17 ? std::to_string(x) : std::to_string(v[i])) + " ";
  }
  LOG(g);
  const il::String q = il::format(g, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], t, x, v[18], v[19]);
  REQUIRE(std::string(q.data(), static_cast<std::size_t>(q.size())) == wanted, pbt::quote(std::string(q.data(), static_cast<std::size_t>(q.size()))) << " instead of " << pbt::quote(wanted));
}

// The other types of numbers, pointers, and types which are written to a stream
struct Point {
  int x;
  std::string y;
};
std::ostream& operator<<(std::ostream& os, const Point& p) { return os << '(' << p.x << ", " << p.y << ')'; }
enum Color { red = 3, green = 70000 };

template <typename... A>
std::string formatted(const std::string& f, const A&... a) {
  const il::String r = il::format(f, a...);
  return std::string(r.data(), static_cast<std::size_t>(r.size()));
}
PROPERTY(other_types, 2) {
  std::string before, after, expected, rest;
  text(s, before, expected);
  text(s, after, rest);
  Spec p;
  if (s.coin()) {
    p.align = s.oneOf<char>({'<', '>', '^'});
    if (s.coin()) p.fill = s.oneOf<char>({'*', ' ', 'x'});
  } else {
    p.align = '>';
  }
  p.width = static_cast<int>(s.coin() ? s.range(1, 30) : s.range(490, 600));
  Arg a;
  std::string out, f = before + "{:" + (p.fill ? std::string(1, p.fill) : std::string{}) + p.align + std::to_string(p.width);
  const auto closed = [&](char type) {
    p.type = type;
    f += type ? std::string(1, type) + "}" : std::string{"}"};
    f += after;
    LOG("format " << pbt::quote(f));
  };
  c.nontrivial = true;
  switch (s.draw(10)) {
    case 0: { const short v = static_cast<short>(s.i64()); a.kind = Int; a.i = v; closed(s.oneOf<char>({0, 'd', 'x'})); LOG("short " << v); out = formatted(f, v); break; }
    case 1: { const unsigned short v = static_cast<unsigned short>(s.i64()); a.kind = UInt; a.u = v; closed(s.oneOf<char>({0, 'd', 'X'})); LOG("unsigned short " << v); out = formatted(f, v); break; }
    case 2: { const signed char v = static_cast<signed char>(s.i64()); a.kind = Int; a.i = v; closed(s.oneOf<char>({0, 'd', 'b'})); LOG("signed char " << int(v)); out = formatted(f, v); break; }
    case 3: { const unsigned char v = static_cast<unsigned char>(s.i64()); a.kind = UInt; a.u = v; closed(s.oneOf<char>({0, 'd', 'o'})); LOG("unsigned char " << int(v)); out = formatted(f, v); break; }
    case 4: { const long v = s.i64(); a.kind = I64; a.i = v; closed(s.oneOf<char>({0, 'd', 'x'})); LOG("long " << v); out = formatted(f, v); break; }
    case 5: { const unsigned long v = static_cast<unsigned long>(s.i64()); a.kind = U64; a.u = v; closed(s.oneOf<char>({0, 'd', 'x'})); LOG("unsigned long " << v); out = formatted(f, v); break; }
    case 6: { const float v = static_cast<float>(s.smallDouble()); a.kind = Double; a.d = static_cast<double>(v); closed(s.oneOf<char>({0, 'e', 'f'})); LOG("float " << v); out = formatted(f, v); break; }
    case 7: { const Color v = s.coin() ? red : green; a.kind = Int; a.i = v; closed(s.oneOf<char>({0, 'd', 'x'})); LOG("enum " << int(v)); out = formatted(f, v); break; }
    case 8: {
      Point v{s.i32(), s.coin() ? s.bytes(6) : s.bytes(600, "ab{}")};
      std::ostringstream os;
      os << v;
      a.kind = Str;
      a.s = os.str();
      closed(s.oneOf<char>({0, 's'}));
      LOG("streamed " << pbt::quote(a.s));
      c.tag("streamed type");
      out = formatted(f, v);
      if (s.chance(1, 4)) {
        std::ostringstream print;
        fmt::print(print, f, v);
        REQUIRE(print.str() == out, "printed " << pbt::quote(print.str()) << " instead of " << pbt::quote(out));
      }
      break;
    }
    default: {
      // A pointer is written in hexadecimal
      const std::uint64_t v = s.coin() ? static_cast<std::uint64_t>(s.i64()) : s.draw(100000);
      a.kind = U64;
      a.u = v;
      p.hash = true;
      closed(s.oneOf<char>({0, 'p'}));
      LOG("pointer " << v);
      out = formatted(f, reinterpret_cast<const void*>(v));
      p.type = 'x';
    }
  }
  expected += reference(a, p) + rest;
  REQUIRE(out == expected, pbt::quote(out) << " instead of " << pbt::quote(expected));
}

PROPERTY(malformed, 3) {
  std::vector<Arg> args = drawArgs(s);
  std::string f, ignored;
  text(s, f, ignored);
  const std::size_t n = args.size();
  const std::string i0 = s.coin() ? "" : "0";
  std::vector<std::string> bad = {"{", "}", "{0", "{:", "{" + std::to_string(n) + "}", "{" + std::to_string(n + static_cast<std::size_t>(s.range(0, 1000000))) + "}",
                                  "{unknown}", "{99999999999}", "{ }", "{!}", "} }", "{4294967296}", "{2147483648}"};
  if (n >= 1) {
    const Arg& a = args[0];
    for (const char* x : {"z", "q", ">5", "{", "{}", "{x}", "d}", "{:"}) bad.push_back(std::string{"{0"} + x);
    bad.push_back("{0}{}");
    bad.push_back("{}{0}");
    bad.push_back("{" + i0 + ":2147483648}");
    bad.push_back("{" + i0 + ":{<5}");
    bad.push_back("{" + i0 + ":99999999999}");
    bad.push_back("{" + i0 + ":5");
    bad.push_back("{" + i0 + ":.}");
    bad.push_back("{" + i0 + ":y}");
    bad.push_back("{" + i0 + ":?}");
    bad.push_back("{" + i0 + ":1 }");
    bad.push_back("{" + i0 + ":<<<}");
    bad.push_back("{" + i0 + ":{7}}");
    if (isInt(a)) {
      for (const char* x : {":.2}", ":.2d}", ":f}", ":s}", ":e}", ":c}", ":.0x}"}) bad.push_back("{" + i0 + x);
      if (a.kind == UInt || a.kind == U64)
        for (const char* x : {":+}", ":-}", ": }", ":+d}"}) bad.push_back("{" + i0 + x);
    } else if (a.kind == Double) {
      for (const char* x : {":d}", ":s}", ":x}", ":c}", ":b}", ":p}"}) bad.push_back("{" + i0 + x);
      bad.push_back("{0:{0}}");
      bad.push_back("{0:.{0}}");
    } else if (a.kind == Str || a.kind == CStr) {
      for (const char* x : {":d}", ":f}", ":+}", ":-s}", ": }", ":#}", ":05}", ":=5}", ":*=5}"}) bad.push_back("{" + i0 + x);
      bad.push_back("{0:{0}}");
    }
    if ((a.kind == Int || a.kind == I64) && a.i < 0) {
      bad.push_back("{0:{0}}");
      if (n >= 2 && args[1].kind == Double) bad.push_back("{1:.{0}}");
    }
  } else {
    bad.push_back("{}");
    bad.push_back("{:}");
  }
  f += s.pick(bad);
  for (const Arg& a : args) LOG(kind_name[a.kind] << " " << showArg(a));
  LOG("malformed " << pbt::quote(f));
  c.nontrivial = true;
  bool refused = false;
  Call call{f, args, false, ""};
  try {
    Next<4>::run(call);
  } catch (const fmt::FormatError&) {
    refused = true;
  }
  REQUIRE(refused, "accepted, and written as " << pbt::quote(call.out));
}

// Random format strings end with a text or an error
PROPERTY(random, 3) {
  const std::vector<Arg> args = drawArgs(s);
  std::string f;
  const int n = static_cast<int>(s.range(1, 20));
  int run = 0;
  for (int k = 0; k < n; ++k) {
    char x = s.pick(std::vector<char>{'{', '}', ':', '<', '>', '^', '=', '+', '-', ' ', '#', '0', '.', '1', '2', '9', 'd', 'x', 'X', 'o', 'b', 'e', 'f', 'g', 'a', 's', 'c', 'p', '_'});
    if (s.chance(1, 12)) x = static_cast<char>(s.range(1, 255));
    // No width above a million
    run = x >= '0' && x <= '9' ? run + 1 : 0;
    if (run > 5) continue;
    f += x;
  }
  for (const Arg& a : args) LOG(kind_name[a.kind] << " " << showArg(a));
  LOG("random " << pbt::quote(f));
  for (const Arg& a : args)
    if (isInt(a) && (a.i > 100000 || a.u > 100000)) return;
  Call call{f, args, false, ""};
  try {
    Next<4>::run(call);
    c.tag("accepted");
  } catch (const fmt::FormatError&) {
    c.tag("refused");
    c.nontrivial = true;
  }
}
}  // namespace
