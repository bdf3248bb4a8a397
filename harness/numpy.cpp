// C24: .npy files.
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

#include <il/Array.h>
#include <il/Array2D.h>
#include <il/numpy.h>

#include "pbt.h"
#include "toml_common.h"
#include "value.h"

namespace pbt {
const char* rule =
    "arrays and matrices of numbers of every type, mostly int and double (sizes 0 to 40, padding, spare capacity, every pattern of bits) are saved, "
    "the file is read by an independent reader, and loaded; files written by an independent writer are loaded as they "
    "are, with one definite mismatch, truncated or mutated; sparse matrices are loaded from three files, consistent or not. Non-trivial: at least 2 elements (valid files), a "
    "mismatch in a file with data, or a mutated file";
}
namespace {
using vt::nbOpenFiles;
using vt::read;

struct Init {
  Init() {
    pbt::quick_cases = 60000;
    pbt::thorough_cases = 3000000;
  }
} init;

template <typename T>
const char* descr();
template <>
const char* descr<int>() { return "i4"; }
template <>
const char* descr<double>() { return "f8"; }
template <>
const char* descr<signed char>() { return "i1"; }
template <>
const char* descr<unsigned char>() { return "u1"; }
template <>
const char* descr<short>() { return "i2"; }
template <>
const char* descr<unsigned short>() { return "u2"; }
template <>
const char* descr<unsigned int>() { return "u4"; }
template <>
const char* descr<il::int_t>() { return "i8"; }
template <>
const char* descr<il::uint_t>() { return "u8"; }
template <>
const char* descr<float>() { return "f4"; }

template <typename T>
T element(pbt::Src& s) {
  const std::uint64_t x = static_cast<std::uint64_t>(s.coin() ? s.i64() : s.range(-3, 300));
  T ans;
  std::memcpy(&ans, &x, sizeof(T));
  return ans;
}
template <>
int element<int>(pbt::Src& s) { return static_cast<int>(s.i32()); }
template <>
double element<double>(pbt::Src& s) { return vv::doubleOf(vv::doubleBits(s)); }

void put(const std::string& path, const std::string& text) {
  unlink(path.c_str());
  std::FILE* f = std::fopen(path.c_str(), "wb");
  if (!f || std::fwrite(text.data(), 1, text.size(), f) != text.size() || std::fclose(f) != 0) throw pbt::Discard{};
}

struct Npy {
  std::string descr;
  bool fortran = false;
  std::vector<std::int64_t> shape;
  std::string data;
};

// A strict reader of what is in the specification of the format
struct Reader {
  pbt::Ctx& c;
  std::string h;
  std::size_t i = 0;
  void skip() {
    while (i < h.size() && (h[i] == ' ' || h[i] == '\n')) ++i;
  }
  bool is(const std::string& t) {
    skip();
    if (h.compare(i, t.size(), t) != 0) return false;
    i += t.size();
    return true;
  }
  std::string quoted() {
    skip();
    REQUIRE(i < h.size() && (h[i] == '\'' || h[i] == '"'), "the header has no string where there should be one: " << pbt::quote(h));
    const std::size_t e = h.find(h[i], i + 1);
    REQUIRE(e != std::string::npos, "a string is not closed in the header " << pbt::quote(h));
    const std::string t = h.substr(i + 1, e - i - 1);
    i = e + 1;
    return t;
  }
};

Npy parse(pbt::Ctx& c, const std::string& t) {
  Npy a;
  REQUIRE(t.size() >= 10 && t.compare(0, 6, "\x93NUMPY") == 0, "the file does not start with the magic string");
  REQUIRE(t[6] == 1 && t[7] == 0, "the version is not 1.0");
  const std::size_t n = static_cast<unsigned char>(t[8]) + 256u * static_cast<unsigned char>(t[9]);
  REQUIRE(t.size() >= 10 + n && n > 0, "the header is not complete");
  REQUIRE((10 + n) % 16 == 0, "the data are not aligned: the header has " << n << " bytes");
  Reader r{c, t.substr(10, n)};
  REQUIRE(r.h.back() == '\n', "the header does not end with a new line");
  REQUIRE(r.is("{"), "the header is not a dictionary: " << pbt::quote(r.h));
  bool seen[3] = {false, false, false};
  while (!r.is("}")) {
    const std::string k = r.quoted();
    REQUIRE(r.is(":"), "no : in the header " << pbt::quote(r.h));
    if (k == "descr") {
      seen[0] = true;
      a.descr = r.quoted();
    } else if (k == "fortran_order") {
      seen[1] = true;
      a.fortran = r.is("True");
      if (!a.fortran) REQUIRE(r.is("False"), "fortran_order is not a boolean in the header " << pbt::quote(r.h));
    } else if (k == "shape") {
      seen[2] = true;
      REQUIRE(r.is("("), "the shape is not a tuple in the header " << pbt::quote(r.h));
      bool comma = false;
      while (!r.is(")")) {
        std::string d;
        while (r.i < r.h.size() && r.h[r.i] >= '0' && r.h[r.i] <= '9') d += r.h[r.i++];
        REQUIRE(!d.empty() && d.size() < 18, "the shape is not made of numbers in the header " << pbt::quote(r.h));
        a.shape.push_back(std::stoll(d));
        const bool more = r.is(",");
        comma = comma || more;
        if (!more) {
          REQUIRE(r.is(")"), "the shape is not closed in the header " << pbt::quote(r.h));
          break;
        }
        r.skip();
      }
      REQUIRE(comma || a.shape.empty(), "the shape is not a tuple in the header " << pbt::quote(r.h));
    } else {
      REQUIRE(false, "unknown key in the header " << pbt::quote(r.h));
    }
    if (!r.is(",")) {
      REQUIRE(r.is("}"), "the header is not closed: " << pbt::quote(r.h));
      break;
    }
  }
  r.skip();
  REQUIRE(r.i == r.h.size(), "something after the header " << pbt::quote(r.h));
  REQUIRE(seen[0] && seen[1] && seen[2], "a key is missing in the header " << pbt::quote(r.h));
  a.data = t.substr(10 + n);
  return a;
}

// What NumPy writes
std::string header(pbt::Src& s, const std::string& descr, bool fortran, const std::string& shape) {
  std::string parts[3] = {"'descr': '" + descr + "'", std::string("'fortran_order': ") + (fortran ? "True" : "False"), "'shape': (" + shape + ")"};
  if (s.chance(1, 5)) std::swap(parts[s.range(0, 2)], parts[s.range(0, 2)]);
  std::string h = "{" + parts[0] + ", " + parts[1] + ", " + parts[2] + (s.chance(1, 5) ? "}" : ", }");
  const std::size_t align = s.coin() ? 64 : 16;
  h += std::string((align - (10 + h.size() + 1) % align) % align, ' ');
  if (s.chance(1, 10)) h += std::string(align * static_cast<std::size_t>(s.range(1, s.coin() ? 3 : 900)), ' ');
  return h + "\n";
}
std::string file(const std::string& header, const std::string& data, const std::string& magic = "\x93NUMPY\x01", char minor = 0) {
  std::string t = magic;
  t += minor;
  t += static_cast<char>(header.size() & 0xFF);
  t += static_cast<char>(header.size() >> 8);
  return t + header + data;
}

template <typename T>
std::string bytesOf(const std::vector<T>& v) {
  return v.empty() ? std::string() : std::string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
}

template <typename T>
std::string bytesOf(const il::Array<T>& v) {
  std::string t;
  for (il::int_t i = 0; i < v.size(); ++i) t.append(reinterpret_cast<const char*>(&v[i]), sizeof(T));
  return t;
}
template <typename T>
std::string bytesOf(const il::Array2D<T>& v) {
  std::string t;
  for (il::int_t j = 0; j < v.size(1); ++j)
    for (il::int_t i = 0; i < v.size(0); ++i) t.append(reinterpret_cast<const char*>(&v(i, j)), sizeof(T));
  return t;
}

template <typename X>
bool load(pbt::Ctx& c, const std::string& path, X& x, il::Error* error = nullptr, bool std_string = false) {
  const int files = nbOpenFiles();
  il::Status status{};
  x = std_string ? il::load<X>(path, il::io, status) : il::load<X>(vv::utf8(path), il::io, status);
  const bool ok = status.Ok();
  if (!ok && error) *error = status.error();
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  return ok;
}
template <typename X>
bool save(pbt::Ctx& c, const std::string& path, const X& x) {
  const int files = nbOpenFiles();
  il::Status status{};
  il::save(x, vv::utf8(path), il::io, status);
  const bool ok = status.Ok();
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  return ok;
}

il::int_t drawSize(pbt::Src& s) { return s.chance(1, 10) ? s.range(0, 40) : s.range(0, 6); }

template <typename T>
il::Array<T> drawArray(pbt::Src& s) {
  const il::int_t n = s.chance(1, 20) ? s.range(500, s.chance(1, 8) ? 70000 : 1200) : drawSize(s);
  il::Array<T> v{n};
  if (n > 0 && s.chance(1, 6)) v = il::Array<T>{n, il::align, s.oneOf<il::int_t>({16, 32, 64})};
  for (il::int_t i = 0; i < n; ++i) v[i] = element<T>(s);
  if (s.chance(1, 4)) v.Reserve(n + s.range(1, 9));
  if (s.chance(1, 8)) v.Resize(s.range(0, n));
  return v;
}
template <typename T>
il::Array2D<T> drawMatrix(pbt::Src& s, pbt::Ctx& c) {
  il::int_t n0 = drawSize(s), n1 = drawSize(s);
  if (s.chance(1, 60)) {  // long and narrow
    n0 = s.range(0, 2);
    n1 = s.range(200, s.coin() ? 3000 : 70000);
    if (s.coin()) std::swap(n0, n1);
    c.tag("long");
  }
  il::Array2D<T> v{n0, n1};
  switch (s.range(0, 3)) {
    case 0:
      if (n0 > 0 && n1 > 0) v = il::Array2D<T>{n0, n1, il::align, s.oneOf<il::int_t>({16, 32, 64})};
      break;
    case 1:
      v.Reserve(n0 + s.range(0, 5), n1 + s.range(0, 5));
      break;
    case 2:
      v = il::Array2D<T>{n0 + s.range(0, 3), n1 + s.range(0, 3)};
      v.Resize(n0, n1);
      break;
    default:
      break;
  }
  for (il::int_t j = 0; j < n1; ++j)
    for (il::int_t i = 0; i < n0; ++i) v(i, j) = element<T>(s);
  if (v.size(1) > 0 && v.stride(1) != v.size(0)) c.tag("padding");
  return v;
}

template <typename T>
void roundtrip(pbt::Src& s, pbt::Ctx& c) {
  const std::string path = c.scratch + "/saved.npy";
  if (s.coin()) {
    const il::Array<T> v = drawArray<T>(s);
    const std::string bytes = bytesOf(v);
    LOG("array of " << v.size() << " " << descr<T>() << " in a capacity of " << v.capacity());
    REQUIRE(save(c, path, v), "save ends with an error");
    REQUIRE(bytesOf(v) == bytes, "the array which has been saved has changed");
    const Npy a = parse(c, read(path));
    REQUIRE(a.descr == std::string("<") + descr<T>() || (sizeof(T) == 1 && a.descr == std::string("|") + descr<T>()), "the type is " << a.descr);
    REQUIRE(a.shape.size() == 1 && a.shape[0] == v.size(), "wrong shape of rank " << a.shape.size());
    REQUIRE(a.data == bytes, "wrong data in the file");
    il::Array<T> w{};
    REQUIRE(load(c, path, w, nullptr, s.coin()), "load ends with an error");
    REQUIRE(w.size() == v.size(), "the size is " << w.size());
    REQUIRE(bytesOf(w) == bytes, "the values are not the same");
    il::Array2D<T> m{};
    REQUIRE(!load(c, path, m), "an array is loaded as a matrix");
    c.nontrivial = v.size() >= 2;
  } else {
    const il::Array2D<T> v = drawMatrix<T>(s, c);
    const std::string bytes = bytesOf(v);
    LOG("matrix of " << v.size(0) << " x " << v.size(1) << " " << descr<T>());
    REQUIRE(save(c, path, v), "save ends with an error");
    REQUIRE(bytesOf(v) == bytes, "the matrix which has been saved has changed");
    const Npy a = parse(c, read(path));
    REQUIRE(a.descr == std::string("<") + descr<T>() || (sizeof(T) == 1 && a.descr == std::string("|") + descr<T>()), "the type is " << a.descr);
    REQUIRE(a.shape.size() == 2 && a.shape[0] == v.size(0) && a.shape[1] == v.size(1), "wrong shape of rank " << a.shape.size());
    std::string expected = bytes;
    if (!a.fortran) {
      expected.clear();
      for (il::int_t i = 0; i < v.size(0); ++i)
        for (il::int_t j = 0; j < v.size(1); ++j) expected.append(reinterpret_cast<const char*>(&v(i, j)), sizeof(T));
    }
    REQUIRE(a.data == expected, "wrong data in the file");
    il::Array2D<T> w{};
    REQUIRE(load(c, path, w, nullptr, s.coin()), "load ends with an error");
    REQUIRE(w.size(0) == v.size(0) && w.size(1) == v.size(1), "the size is " << w.size(0) << " x " << w.size(1));
    REQUIRE(bytesOf(w) == bytes, "the values are not the same");
    il::Array<T> m{};
    REQUIRE(!load(c, path, m), "a matrix is loaded as an array");
    c.nontrivial = v.size(0) >= 2 && v.size(1) >= 2;
  }
}

template <typename T>
std::vector<T> drawData(pbt::Src& s, std::int64_t n) {
  std::vector<T> v(static_cast<std::size_t>(n));
  for (auto& x : v) x = element<T>(s);
  return v;
}

// Files of other programs
template <typename T>
void foreign(pbt::Src& s, pbt::Ctx& c) {
  const std::string path = c.scratch + "/foreign.npy";
  const std::string d = std::string(sizeof(T) == 1 && s.chance(3, 4) ? "|" : "<") + descr<T>();
  const std::int64_t n0 = drawSize(s), n1 = drawSize(s);
  const bool one = s.coin();
  std::vector<T> data = drawData<T>(s, one ? n0 : n0 * n1);
  const std::string bytes = bytesOf(data);
  // what comes after the data does not matter
  const std::string after = s.chance(1, 10) ? "after" : "";
  if (one) {
    put(path, file(header(s, d, s.coin(), std::to_string(n0) + ","), bytes + after));
    LOG("array of " << n0 << " " << d);
    il::Array<T> v{};
    REQUIRE(load(c, path, v), "load ends with an error");
    REQUIRE(v.size() == n0 && bytesOf(v) == bytes, "wrong array of " << v.size());
    c.nontrivial = n0 >= 2;
  } else {
    put(path, file(header(s, d, true, std::to_string(n0) + ", " + std::to_string(n1)), bytes + after));
    LOG("matrix of " << n0 << " x " << n1 << " " << d);
    il::Array2D<T> v{};
    REQUIRE(load(c, path, v), "load ends with an error");
    REQUIRE(v.size(0) == n0 && v.size(1) == n1 && bytesOf(v) == bytes, "wrong matrix of " << v.size(0) << " x " << v.size(1));
    c.nontrivial = n0 >= 2 && n1 >= 2;
  }
}

template <typename X>
void refused(pbt::Ctx& c, const std::string& path, const std::string& text) {
  LOG("file: " << pbt::quote(text.substr(0, 200)));
  put(path, text);
  X x{};
  il::Error error{};
  REQUIRE(!load(c, path, x, &error), "the file is loaded");
  REQUIRE(il::domain(error) == il::ErrorDomain::Binary, "the error is " << static_cast<int>(error));
}

template <typename T>
void mismatch(pbt::Src& s, pbt::Ctx& c) {
  const std::string path = c.scratch + "/mismatch.npy";
  const std::string d = std::string("<") + descr<T>();
  const std::string other = std::string("<") + (d == "<i4" ? "f8" : "i4");
  const bool one = s.coin();
  const std::int64_t n0 = s.range(1, 6), n1 = s.range(1, 6);
  std::string bytes = bytesOf(drawData<T>(s, one ? n0 : n0 * n1));
  const std::string shape = std::to_string(n0) + "," + (one ? "" : " " + std::to_string(n1));
  std::string t;
  bool as_one = one;
  switch (s.range(0, 9)) {
    case 0:  // the type
    {
      std::string name = s.oneOf<const char*>({other.c_str(), "<f4", "<i8", "<u4", "<u8", "|i1", "|u1", "<u2", "<c16", "|b1", "|S4", "<f16", "<i2", "<f", "<i", "<", "<f80",
                                               "<i40", "<x4"});
      if (name.substr(1) == descr<T>()) name = "<c8";
      t = file(header(s, name, true, shape), bytes);
    }
      break;
    case 1:  // the order of bytes
      t = file(header(s, ">" + d.substr(1), true, shape), bytes);
      break;
    case 2:  // the rank
      if (s.coin()) {
        t = file(header(s, d, true, shape), bytes);
        as_one = !one;
      } else {
        const std::string sh = s.oneOf<const char*>({"1, 1, 1", "", "1, 1, 1, 1", "2, 1, 1"});
        t = file(header(s, d, true, sh), bytes + bytes);
      }
      break;
    case 3:  // the order of a matrix
      t = file(header(s, d, false, std::to_string(n0) + ", " + std::to_string(n1)), bytesOf(drawData<T>(s, n0 * n1)));
      as_one = false;
      break;
    case 4: {  // anything that is too short
      t = file(header(s, d, true, shape), bytes);
      t.resize(static_cast<std::size_t>(s.coin() ? s.range(0, static_cast<std::int64_t>(t.size()) - 1)
                                                 : s.range(static_cast<std::int64_t>(t.size() - bytes.size()), static_cast<std::int64_t>(t.size()) - 1)));
    } break;
    case 5: {  // the magic string and the version
      const std::string h = header(s, d, true, shape);
      switch (s.range(0, 2)) {
        case 0:
          t = file(h, bytes, s.oneOf<const char*>({"\x93NUMPX\x01", "\x92NUMPY\x01", "NUMPY\x93\x01", "\x93numpy\x01", "PK\x03\x04xy\x01"}));
          break;
        case 1:
          t = file(h, bytes, std::string("\x93NUMPY") + static_cast<char>(s.oneOf<int>({0, 2, 3, 4, 255})));
          break;
        default:
          t = file(h, bytes, "\x93NUMPY\x01", static_cast<char>(s.oneOf<int>({1, 2, 255})));
      }
    } break;
    case 6: {  // the shape
      const std::string sh = s.oneOf<const char*>({"-1", "a", "-1,", "2 3", "1;1", "1.5", "0x1", "+", "9223372036854775808", "99999999999999999999999", "--1", "1-"});
      t = file(header(s, d, true, one ? sh + "," : s.coin() ? sh + ", 1" : "1, " + sh), bytes);
    } break;
    case 7: {  // shapes which are too large for the data
      const std::string big = s.oneOf<const char*>({"1000000", "2147483648", "4294967296", "1000000000000", "1152921504606846976", "2305843009213693952",
                                                    "4611686018427387904", "9223372036854775807", "4611686018427387905"});
      t = file(header(s, d, true, one ? big + "," : s.chance(1, 3) ? big + ", " + big : s.coin() ? big + ", 4" : "4, " + big), bytes);
    } break;
    case 8: {  // the keys
      std::string h = header(s, d, true, shape);
      const char* key = s.oneOf<const char*>({"descr", "fortran_order", "shape': (", "(", ")", "True"});
      const std::size_t i = h.find(key);
      h.replace(i, std::strlen(key), std::strlen(key), s.oneOf<char>({'x', ' ', '0'}));
      t = file(h, bytes);
    } break;
    default: {  // the length of the header
      const std::string h = header(s, d, true, shape);
      t = file(h, bytes);
      const std::size_t n = static_cast<std::size_t>(s.coin() ? s.range(0, static_cast<std::int64_t>(h.size()) - 1) : 0);
      t[8] = static_cast<char>(n & 0xFF);
      t[9] = static_cast<char>(n >> 8);
    }
  }
  if (as_one) {
    refused<il::Array<T>>(c, path, t);
  } else {
    refused<il::Array2D<T>>(c, path, t);
  }
  c.nontrivial = true;
}

// Whatever is in the file
template <typename T>
void mutated(pbt::Src& s, pbt::Ctx& c) {
  const std::string path = c.scratch + "/mutated.npy";
  const bool one = s.coin();
  const std::int64_t n0 = s.range(0, 6), n1 = s.range(0, 6);
  const std::string bytes = bytesOf(drawData<T>(s, one ? n0 : n0 * n1));
  std::string h = header(s, std::string("<") + descr<T>(), s.chance(3, 4), std::to_string(n0) + "," + (one ? "" : " " + std::to_string(n1)));
  if (s.chance(1, 20)) {
    // no element, but many rows or columns
    const std::string big = s.oneOf<const char*>({"1000000000000", "9223372036854775807", "1152921504606846976", "1000"});
    h = header(s, std::string("<") + descr<T>(), true, s.coin() ? big + ", 0" : "0, " + big);
  }
  std::string t = file(h, bytes);
  if (s.chance(1, 10)) {
    t = s.bytes(80);
    if (s.coin()) t = "\x93NUMPY\x01" + t;
  }
  for (int n = static_cast<int>(s.range(1, 4)); n > 0 && !t.empty(); --n) {
    if (s.chance(1, 8)) continue;
    // most of the time in the part of the header which says something
    const std::int64_t last = static_cast<std::int64_t>(t.size()) - 1;
    const std::size_t p = static_cast<std::size_t>(s.range(0, s.chance(3, 4) ? std::min<std::int64_t>(last, 75) : last));
    switch (s.range(0, 4)) {
      case 0:
        t[p] = static_cast<char>(s.range(0, 255));
        break;
      case 1:
        t[p] = s.oneOf<char>({'(', ')', ',', '\'', ' ', '\n', '0', '9', '-', '{', '}', ':', '\0', '<', '|', '>'});
        break;
      case 2:
        t.erase(p, static_cast<std::size_t>(s.range(1, 8)));
        break;
      case 3:
        t.insert(p, s.oneOf<const char*>({"(", ")", ",", "'", "9", "99999999", "descr", "fortran_order", "shape", "()", "\n", "True", "1,", " "}));
        break;
      default:
        t.resize(p);
    }
    // the length of the header follows, or not
    if (s.coin() && t.size() > 10) {
      const std::size_t e = t.find('\n', 10);
      if (e != std::string::npos) {
        t[8] = static_cast<char>((e + 1 - 10) & 0xFF);
        t[9] = static_cast<char>((e + 1 - 10) >> 8);
      }
    }
  }
  LOG("file of " << t.size() << " bytes: " << pbt::quote(t.substr(0, 300)));
  put(path, t);
  if (s.coin()) {
    il::Array<T> v{};
    if (load(c, path, v)) {
      c.tag("accepted");
      REQUIRE(v.size() >= 0 && static_cast<std::size_t>(v.size()) * sizeof(T) <= t.size(), "an array of " << v.size() << " is loaded");
      REQUIRE(t.find(bytesOf(v), 10) != std::string::npos, "the elements are not in the file");
    } else {
      c.tag("rejected");
    }
  } else {
    il::Array2D<T> v{};
    if (load(c, path, v)) {
      c.tag("accepted");
      REQUIRE(v.size(0) >= 0 && v.size(1) >= 0, "a matrix of " << v.size(0) << " x " << v.size(1) << " is loaded");
      if (v.size(0) > 0 && v.size(1) > 0) {
        REQUIRE(static_cast<std::size_t>(v.size(0) * v.size(1)) * sizeof(T) <= t.size(), "a matrix of " << v.size(0) << " x " << v.size(1) << " is loaded");
        REQUIRE(t.find(bytesOf(v), 10) != std::string::npos, "the elements are not in the file");
      }
    } else {
      c.tag("rejected");
    }
  }
  c.nontrivial = true;
}

template <typename T>
void failure(pbt::Src& s, pbt::Ctx& c) {
  std::string path;
  const int kind = static_cast<int>(s.range(0, 3));
  if (kind == 0) {
    path = c.scratch + "/full.npy";
    unlink(path.c_str());
    if (symlink("/dev/full", path.c_str()) != 0) throw pbt::Discard{};
  } else {
    path = c.scratch + (kind == 1 ? "/nodirectory/array.npy" : kind == 2 ? "/array.wrong" : "/nothing.npy");
  }
  LOG(path);
  if (kind == 0) {
    // every buffer is exceeded, or not
    const il::int_t n = s.coin() ? s.range(0, 10) : s.range(400, 3000);
    const bool a = s.coin() ? save(c, path, il::Array<T>{n, T{}}) : save(c, path, il::Array2D<T>{n, 2, T{}});
    unlink(path.c_str());
    REQUIRE(!a, "save claims that " << n << " elements have been written");
  } else {
    if (kind != 3) {
      REQUIRE(!save(c, path, il::Array<T>{3, T{}}), "save claims that the array has been written");
      REQUIRE(!save(c, path, il::Array2D<T>{3, 2, T{}}), "save claims that the matrix has been written");
    }
    il::Array<T> v{};
    il::Array2D<T> m{};
    const bool std_string = s.coin();
    REQUIRE(!load(c, path, v, nullptr, std_string), "a file that is not there is loaded");
    REQUIRE(!load(c, path, m, nullptr, std_string), "a file that is not there is loaded");
  }
  c.nontrivial = true;
}

// The other types
template <typename T>
void other(pbt::Src& s, pbt::Ctx& c) {
  LOG(descr<T>());
  switch (s.range(0, 2)) {
    case 0:
      return roundtrip<T>(s, c);
    case 1:
      return foreign<T>(s, c);
    default:
      return mismatch<T>(s, c);
  }
}

// The three files of a sparse matrix
void sparse(pbt::Src& s, pbt::Ctx& c) {
  const il::int_t n = s.chance(1, 10) ? s.range(0, 40) : s.range(0, 5);
  std::vector<il::int_t> row(1, 0), column;
  for (il::int_t i = 0; i < n; ++i) {
    for (il::int_t j = 0; j < n; ++j)
      if (s.chance(1, 3)) column.push_back(j);
    row.push_back(static_cast<il::int_t>(column.size()));
  }
  std::vector<double> elements = drawData<double>(s, static_cast<std::int64_t>(column.size()));
  const std::string path = c.scratch + "/sparse.npy";
  bool valid = true;
  const int kind = static_cast<int>(s.range(0, 15));
  switch (kind) {
    case 0:
      column.push_back(0);
      valid = false;
      break;
    case 1:
      elements.push_back(0.0);
      valid = false;
      break;
    case 2:
      row.back() += s.oneOf<il::int_t>({-1, 1, 1000});
      valid = false;
      break;
    case 3:
      row.front() = s.oneOf<il::int_t>({-1, 1, -1000000});
      valid = false;
      break;
    case 4:
      if (column.empty()) throw pbt::Discard{};
      column[static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(column.size()) - 1))] = s.oneOf<il::int_t>({-1, n, n + 1, INT64_MIN, INT64_MAX});
      valid = false;
      break;
    case 5: {
      if (n < 2) throw pbt::Discard{};
      const std::size_t i = static_cast<std::size_t>(s.range(1, n - 1));
      row[i] = s.oneOf<il::int_t>({row[i - 1] - 1, row[i + 1] + 1, INT64_MIN, INT64_MAX});
      valid = false;
    } break;
    case 6:
      row.clear();
      valid = false;
      break;
    default:
      break;
  }
  const auto write = [&](const char* suffix, const std::string& d, const std::string& bytes, std::size_t size) {
    put(path + suffix, file(header(s, d, s.coin(), std::to_string(size) + ","), bytes));
  };
  write(".row", "<i8", bytesOf(row), row.size());
  write(".column", "<i8", bytesOf(column), column.size());
  write(".element", "<f8", bytesOf(elements), elements.size());
  const char* file_name = s.oneOf<const char*>({".row", ".column", ".element"});
  if (kind == 7) {
    valid = false;
    unlink((path + file_name).c_str());
  } else if (kind == 8) {
    valid = false;
    std::string t = read(path + file_name);
    t.resize(static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(t.size()) - 1)));
    const std::size_t e = t.find("\n", 10);
    if (e != std::string::npos && t.size() == read(path + file_name).size()) throw pbt::Discard{};
    put(path + file_name, t);
  } else if (kind == 9) {
    valid = false;
    put(path + file_name, file(header(s, "<f4", true, "1,"), "abcd"));
  }
  LOG("n = " << n << ", " << column.size() << " positions, kind " << kind << " " << file_name);
  const int files = nbOpenFiles();
  il::Status status{};
  const il::SparseMatrixCSR<il::int_t, double> A = il::load<il::SparseMatrixCSR<il::int_t, double>>(vv::utf8(path), il::io, status);
  const bool ok = status.Ok();
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  for (const char* suffix : {".row", ".column", ".element"}) unlink((path + suffix).c_str());
  REQUIRE(ok == valid, "load ends " << (ok ? "well" : "with an error"));
  if (valid) {
    REQUIRE(A.size(0) == n && A.size(1) == n, "the matrix is " << A.size(0) << " x " << A.size(1));
    REQUIRE(A.nbNonZeros() == static_cast<il::int_t>(column.size()), A.nbNonZeros() << " elements");
    for (il::int_t i = 0; i <= n; ++i) REQUIRE(A.row(i) == row[static_cast<std::size_t>(i)], "row " << i);
    for (std::size_t k = 0; k < column.size(); ++k) {
      REQUIRE(A.column(static_cast<il::int_t>(k)) == column[k], "column " << k);
      REQUIRE(vv::bitsOf(A[static_cast<il::int_t>(k)]) == vv::bitsOf(elements[k]), "element " << k);
    }
    c.tag("sparse matrix");
  }
  c.nontrivial = !column.empty() || !valid;
}
}  // namespace

#define BOTH(name, weight) \
  PROPERTY(name##_int, weight) { name<int>(s, c); } \
  PROPERTY(name##_double, weight) { name<double>(s, c); }
BOTH(roundtrip, 6)
BOTH(foreign, 3)
BOTH(mismatch, 5)
BOTH(mutated, 6)
BOTH(failure, 1)
PROPERTY(other_types, 4) {
  switch (s.range(0, 7)) {
    case 0:
      return other<signed char>(s, c);
    case 1:
      return other<unsigned char>(s, c);
    case 2:
      return other<short>(s, c);
    case 3:
      return other<unsigned short>(s, c);
    case 4:
      return other<unsigned int>(s, c);
    case 5:
      return other<il::int_t>(s, c);
    case 6:
      return other<il::uint_t>(s, c);
    default:
      return other<float>(s, c);
  }
}
PROPERTY(sparse_matrix, 3) { sparse(s, c); }
