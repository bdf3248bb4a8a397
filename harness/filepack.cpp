// C25: binary data files.
#include <fcntl.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <set>
#include <string>
#include <vector>

#include <il/Array.h>
#include <il/Dynamic.h>
#include <il/data.h>

#include "pbt.h"
#include "toml_common.h"
#include "value.h"

namespace pbt {
const char* rule =
    "trees of named values (every kind the format has, nested maps of both kinds, matrices with padding, arrays with "
    "spare capacity, keys and strings of any byte) are saved, with or without the option for arrays of struct, and "
    "loaded as a map and as a map array; valid files are truncated everywhere or mutated. Non-trivial: at least 2 "
    "values (valid files), a file with data (truncations, mutations), a tree with one value that has no "
    "representation (refusals)";
}
namespace {
using vt::MapArrayT;
using vt::MapT;
using vt::nbOpenFiles;
using vt::read;
using vv::V;

struct Init {
  Init() {
    pbt::quick_cases = 60000;
    pbt::thorough_cases = 3000000;
  }
} init;

void put(const std::string& path, const std::string& text) {
  unlink(path.c_str());
  std::FILE* f = std::fopen(path.c_str(), "wb");
  if (!f || std::fwrite(text.data(), 1, text.size(), f) != text.size() || std::fclose(f) != 0) throw pbt::Discard{};
}

// Nothing is written in the standard output by the library
struct Quiet {
  pbt::Ctx& c;
  std::string path;
  int old = -1;
  explicit Quiet(pbt::Ctx& ctx) : c(ctx), path(ctx.scratch + "/stdout") {
    std::fflush(stdout);
    std::cout.flush();
    old = dup(1);
    const int f = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (old < 0 || f < 0) throw pbt::Discard{};
    dup2(f, 1);
    close(f);
  }
  ~Quiet() {
    std::fflush(stdout);
    std::cout.flush();
    dup2(old, 1);
    close(old);
  }
};

template <typename X>
bool load(pbt::Ctx& c, const std::string& path, X& x, il::Error* error = nullptr, bool std_string = false) {
  const int files = nbOpenFiles();
  il::Status status{};
  x = std_string ? il::load<X>(path, il::io, status) : il::load<X>(vv::utf8(path), il::io, status);
  const bool ok = status.Ok();
  if (!ok && error) *error = status.error();
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  return ok;
}

bool save(pbt::Ctx& c, const std::string& path, const MapArrayT& x, const std::vector<std::string>* option = nullptr) {
  const int files = nbOpenFiles();
  il::Status status{};
  if (option) {
    il::Array<il::String> o{};
    for (const std::string& k : *option) o.Append(vv::utf8(k));
    il::save(x, o, vv::utf8(path), il::io, status);
  } else {
    il::save(x, vv::utf8(path), il::io, status);
  }
  const bool ok = status.Ok();
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  return ok;
}

const vv::Kind stored[] = {vv::Bool, vv::Integer, vv::Single, vv::Double, vv::Str, vv::ArrDouble, vv::Mat8, vv::MatDouble};
const vv::Kind not_stored[] = {vv::Void,   vv::U8,     vv::I8,     vv::U16,    vv::I16,    vv::ArrU8, vv::ArrI8,
                               vv::ArrU16, vv::ArrI16, vv::ArrU32, vv::ArrI32, vv::ArrU64, vv::ArrI64, vv::Arr};

std::size_t drawSize(pbt::Src& s) { return static_cast<std::size_t>(s.chance(1, 15) ? s.range(0, 300) : s.range(0, 5)); }

V leaf(pbt::Src& s, vv::Kind k) {
  V v;
  v.kind = k;
  switch (k) {
    case vv::Void:
    case vv::Arr:
      break;
    case vv::Bool:
      v.bits = s.coin();
      break;
    case vv::U8:
      v.bits = s.range(0, 255);
      break;
    case vv::I8:
      v.bits = s.range(-128, 127);
      break;
    case vv::U16:
      v.bits = s.range(0, 65535);
      break;
    case vv::I16:
      v.bits = s.range(-32768, 32767);
      break;
    case vv::Integer:
      v.bits = s.i64();
      break;
    case vv::Single:
      v.bits = static_cast<std::int32_t>(s.i32());
      break;
    case vv::Double:
      v.bits = vv::doubleBits(s);
      break;
    case vv::Str:
      v.bits = s.range(0, 3);
      v.s = vt::drawString(s);
      break;
    case vv::Mat8:
    case vv::MatDouble:
      v.bits = s.range(0, 3);
      v.n0 = s.chance(1, 10) ? s.range(0, 40) : s.range(0, 4);
      v.n1 = s.chance(1, 10) ? s.range(0, 40) : s.range(0, 4);
      for (std::int64_t i = 0; i < v.n0 * v.n1; ++i) v.a.push_back(k == vv::Mat8 ? s.range(0, 255) : vv::doubleBits(s));
      break;
    default: {
      v.bits = s.range(0, 3);
      if (s.chance(1, 400)) {  // Many elements, from a formula
        const std::int64_t m = s.range(300, 80000);
        for (std::int64_t i = 0; i < m; ++i) v.a.push_back(k == vv::ArrDouble ? vv::bitsOf(0.25 * static_cast<double>(i)) : k == vv::ArrI32 ? i : i % 101);
        break;
      }
      const std::size_t n = drawSize(s);
      for (std::size_t i = 0; i < n; ++i) v.a.push_back(k == vv::ArrDouble ? vv::doubleBits(s) : k == vv::ArrI32 ? s.i32() : s.range(0, 100));
    }
  }
  return v;
}

std::string drawKey(pbt::Src& s) {
  std::string k = vt::drawKey(s);
  if (s.chance(1, 30)) k += std::string(static_cast<std::size_t>(s.range(100, 20000)), 'k');
  if (k.empty()) k = "empty";
  return k;
}

// A tree of what can be saved
V tree(pbt::Src& s, int depth, bool map_array, int& n) {
  V v;
  v.kind = map_array ? vv::MapArr : vv::Map;
  v.bits = s.range(0, 3);
  std::set<std::string> seen;
  int size = static_cast<int>(s.range(0, 5));
  if (s.chance(1, 25)) size = static_cast<int>(s.range(6, 60));
  for (int i = 0; i < size; ++i) {
    const std::string k = drawKey(s);
    if (!seen.insert(k).second) continue;
    ++n;
    v.keys.push_back(k);
    if (depth > 0 && s.chance(1, 3)) {
      v.children.push_back(tree(s, depth - 1, s.chance(3, 4), n));
    } else {
      v.children.push_back(leaf(s, stored[s.range(0, 7)]));
    }
  }
  return v;
}

// A map of arrays with the same length
V arrayOfStruct(pbt::Src& s) {
  V v;
  v.kind = vv::MapArr;
  v.bits = s.range(0, 3);
  const std::size_t n = drawSize(s);
  std::set<std::string> seen;
  for (int i = static_cast<int>(s.range(0, 5)); i > 0; --i) {
    const std::string k = drawKey(s);
    if (!seen.insert(k).second) continue;
    V a;
    a.kind = s.coin() ? vv::ArrDouble : vv::ArrI32;
    a.bits = s.range(0, 3);
    for (std::size_t j = 0; j < n; ++j) a.a.push_back(a.kind == vv::ArrDouble ? vv::doubleBits(s) : s.i32());
    v.keys.push_back(k);
    v.children.push_back(a);
  }
  return v;
}

// Inserts a value somewhere in the tree, returns its path
std::vector<std::string> insert(pbt::Src& s, V& root, const V& v, std::string key, bool in_map_array_only) {
  std::vector<std::string> path;
  V* m = &root;
  while (s.chance(2, 3)) {
    std::vector<std::size_t> inner;
    for (std::size_t i = 0; i < m->children.size(); ++i)
      if (m->children[i].kind == vv::MapArr || (!in_map_array_only && m->children[i].kind == vv::Map)) inner.push_back(i);
    if (inner.empty()) break;
    const std::size_t i = inner[static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(inner.size()) - 1))];
    path.push_back(m->keys[i]);
    m = &m->children[i];
  }
  for (std::size_t i = 0; i < m->keys.size(); ++i)
    if (m->keys[i] == key) key += "'";
  while (true) {
    bool again = false;
    for (const std::string& k : m->keys) again = again || k == key;
    if (!again) break;
    key += "'";
  }
  const std::size_t p = static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(m->keys.size())));
  m->keys.insert(m->keys.begin() + static_cast<std::ptrdiff_t>(p), key);
  m->children.insert(m->children.begin() + static_cast<std::ptrdiff_t>(p), v);
  path.push_back(key);
  return path;
}

MapArrayT build(pbt::Src& s, const V& v) {
  MapArrayT m{static_cast<il::int_t>(s.coin() ? 0 : s.range(0, 40))};
  for (std::size_t i = 0; i < v.keys.size(); ++i) m.Set(vv::utf8(v.keys[i]), vv::build(v.children[i]));
  return m;
}

void check(pbt::Ctx& c, const std::string& path, const V& v, const MapArrayT& m, bool std_string = false) {
  {
    MapArrayT x{};
    REQUIRE(load(c, path, x, nullptr, std_string), "load as a map array ends with an error");
    vv::compareMap(c, x, v, "map array", true);
  }
  {
    MapT x{};
    REQUIRE(load(c, path, x, nullptr, std_string), "load as a map ends with an error");
    vv::compareMap(c, x, v, "map", false);
  }
  vv::compareMap(c, m, v, "the map that has been saved", true);
}

PROPERTY(roundtrip, 8) {
  const std::string path = c.scratch + "/saved.data";
  int n = 0;
  const V v = tree(s, static_cast<int>(s.range(0, 4)), true, n);
  LOG(vv::show(v));
  const MapArrayT m = build(s, v);
  {
    Quiet quiet{c};
    // an option that says nothing on that tree
    const std::vector<std::string> none = {"not", "there"};
    REQUIRE(save(c, path, m, s.chance(1, 6) ? &none : nullptr), "save ends with an error");
  }
  REQUIRE(read(c.scratch + "/stdout").empty(), "save writes in the standard output");
  check(c, path, v, m, s.coin());
  c.nontrivial = n >= 2;
}

PROPERTY(array_of_struct, 4) {
  const std::string path = c.scratch + "/saved.data";
  int n = 0;
  V v = tree(s, static_cast<int>(s.range(0, 3)), true, n);
  const V a = arrayOfStruct(s);
  const std::vector<std::string> option = insert(s, v, a, drawKey(s), true);
  LOG(vv::show(v));
  std::string o;
  for (const std::string& k : option) o += pbt::quote(k) + " ";
  LOG("array of struct: " << o);
  const MapArrayT m = build(s, v);
  REQUIRE(save(c, path, m, &option), "save ends with an error");
  check(c, path, v, m);
  if (option.size() >= 2) c.tag("nested");
  c.nontrivial = a.children.size() >= 1 && !a.children[0].a.empty();
}

// A deep tree
PROPERTY(deep, 1) {
  const std::string path = c.scratch + "/deep.data";
  if (s.chance(1, 10)) {
    // the beginning of a nested map, as many times as one wants
    V v;
    v.kind = vv::MapArr;
    for (int i = 0; i < 3; ++i) {
      V w;
      w.kind = i < 2 && s.chance(1, 3) ? vv::Map : vv::MapArr;
      w.keys.push_back("k");
      w.children.push_back(v);
      v = w;
    }
    REQUIRE(save(c, path, build(s, v)), "save ends with an error");
    const std::string t = read(path);
    std::size_t n = 0;
    for (std::size_t i = 1; 2 * i <= t.size(); ++i)
      if (n == 0 && t.compare(0, i, t, i, i) == 0) n = i;
    std::string all;
    const std::int64_t m = s.range(200, 200000);
    for (std::int64_t i = 0; i < m; ++i) all += t.substr(0, n);
    if (s.coin()) all += t.substr(n) + std::string(static_cast<std::size_t>(m), t.back());
    LOG(m << " times " << pbt::quote(t.substr(0, n)));
    put(path, all);
    MapArrayT x{};
    MapT y{};
    c.tag((s.coin() ? load(c, path, x) : load(c, path, y)) ? "deep file accepted" : "deep file rejected");
    c.nontrivial = n > 0;
    return;
  }
  const int depth = static_cast<int>(s.chance(1, 20) ? s.range(150, 600) : s.range(1, 60));
  V v;
  v.kind = vv::MapArr;
  v.keys.push_back("x");
  v.children.push_back(leaf(s, stored[s.range(0, 7)]));
  for (int i = 0; i < depth; ++i) {
    V w;
    w.kind = i == depth - 1 || s.coin() ? vv::MapArr : vv::Map;
    w.keys.push_back(drawKey(s));
    w.children.push_back(v);
    if (s.chance(1, 3) && w.keys[0] != "after") {
      w.keys.push_back("after");
      w.children.push_back(leaf(s, stored[s.range(0, 7)]));
    }
    v = w;
  }
  LOG("depth " << depth);
  const MapArrayT m = build(s, v);
  const bool ok = save(c, path, m);
  REQUIRE(ok || depth > 60, "save ends with an error");
  if (ok) check(c, path, v, m);
  c.nontrivial = true;
}

template <typename X>
void refused(pbt::Ctx& c, const std::string& path, const std::string& what) {
  X x{};
  il::Error error{};
  REQUIRE(!load(c, path, x, &error), what << " is loaded");
  REQUIRE(il::domain(error) == il::ErrorDomain::Binary, what << ": the error is " << static_cast<int>(error));
}

PROPERTY(truncated, 4) {
  const std::string path = c.scratch + "/truncated.data";
  int n = 0;
  V v = tree(s, static_cast<int>(s.range(0, 3)), true, n);
  std::vector<std::string> option;
  const bool o = s.chance(1, 3);
  if (o) option = insert(s, v, arrayOfStruct(s), "struct", true);
  LOG(vv::show(v));
  REQUIRE(save(c, path, build(s, v), o ? &option : nullptr), "save ends with an error");
  const std::string t = read(path);
  REQUIRE(!t.empty(), "the file is empty");
  std::vector<std::size_t> cuts;
  if (t.size() <= 24) {
    for (std::size_t i = 0; i < t.size(); ++i) cuts.push_back(i);
  } else {
    cuts.push_back(t.size() - 1);
    for (int i = 0; i < 12; ++i) cuts.push_back(static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(t.size()) - 1)));
  }
  const bool as_map = s.coin();
  for (std::size_t i : cuts) {
    put(path, t.substr(0, i));
    const std::string what = "the file with " + std::to_string(i) + " bytes out of " + std::to_string(t.size());
    if (as_map) {
      refused<MapT>(c, path, what);
    } else {
      refused<MapArrayT>(c, path, what);
    }
  }
  c.nontrivial = n >= 1;
}

// Whatever is in the file
PROPERTY(mutated, 8) {
  const std::string path = c.scratch + "/mutated.data";
  int n = 0;
  V v = tree(s, static_cast<int>(s.range(0, 3)), true, n);
  std::vector<std::string> option;
  const bool o = s.chance(1, 3);
  if (o) option = insert(s, v, arrayOfStruct(s), "struct", true);
  REQUIRE(save(c, path, build(s, v), o ? &option : nullptr), "save ends with an error");
  std::string t = read(path);
  if (s.chance(1, 8)) t = s.bytes(100);
  const std::string other = t;
  for (int k = static_cast<int>(s.range(1, 4)); k > 0 && !t.empty(); --k) {
    const std::size_t p = static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(t.size()) - 1));
    switch (s.range(0, 6)) {
      case 0:
        t[p] = static_cast<char>(s.range(0, 255));
        break;
      case 1:
        t[p] = static_cast<char>(s.oneOf<int>({0, 1, 2, 0x7F, 0x80, 0xFF, 8, 4}));
        break;
      case 2:  // a tag
        t[p] = static_cast<char>(s.range(0, 50));
        break;
      case 3:
        t.erase(p, static_cast<std::size_t>(s.range(1, 9)));
        break;
      case 4: {  // a size
        const std::string size = s.oneOf<std::string>({std::string(8, '\xFF'), std::string(7, '\xFF') + "\x7F", std::string("\0\0\0\0\0\0\0\x10", 8),
                                                       std::string("\0\0\0\0\1\0\0\0", 8), std::string("\0\0\0\0\0\0\0\x20", 8), std::string(10, '\x80') + "\1",
                                                       std::string(9, '\xFF') + "\1", std::string(8, '\xFF') + "\x7F", std::string("\1\0\0\0\0\0\0\x80", 8)});
        t.replace(p, std::min(t.size() - p, s.chance(1, 8) ? 0 : size.size()), size);
      } break;
      case 5: {  // a piece of it, again
        const std::size_t q = static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(t.size()) - 1));
        t.insert(p, t.substr(q, static_cast<std::size_t>(s.range(1, 40))));
      } break;
      default:
        t.resize(p);
    }
  }
  LOG("file of " << t.size() << " bytes: " << pbt::quote(t.substr(0, 400)));
  put(path, t);
  bool ok;
  if (s.coin()) {
    MapArrayT x{};
    ok = load(c, path, x);
  } else {
    MapT x{};
    ok = load(c, path, x);
  }
  c.tag(ok ? "accepted" : "rejected");
  c.nontrivial = t != other && n >= 1;
}

PROPERTY(refusals, 2) {
  const std::string path = c.scratch + "/refused.data";
  int n = 0;
  V v = tree(s, static_cast<int>(s.range(0, 3)), true, n);
  std::vector<std::string> option;
  bool o = false;
  if (s.chance(2, 3)) {
    V bad = leaf(s, not_stored[s.range(0, 13)]);
    insert(s, v, bad, drawKey(s), false);
  } else {
    // arrays of different lengths, or something else than an array
    V a = arrayOfStruct(s);
    const std::size_t size = a.children.empty() ? 2 : a.children[0].a.size();
    V bad;
    if (s.coin()) {
      bad.kind = s.coin() ? vv::ArrDouble : vv::ArrI32;
      if (a.children.empty()) {
        a.keys.push_back("first");
        a.children.push_back(bad);
        a.children[0].a.assign(size, 0);
      }
      bad.a.assign(size + static_cast<std::size_t>(s.range(1, 3)), 1);
    } else {
      bad = leaf(s, stored[s.oneOf<int>({0, 1, 3, 4, 6, 7})]);
    }
    insert(s, a, bad, "bad", false);
    option = insert(s, v, a, drawKey(s), true);
    o = true;
  }
  LOG(vv::show(v));
  REQUIRE(!save(c, path, build(s, v), o ? &option : nullptr), "save claims that the tree has been written");
  c.nontrivial = true;
}

PROPERTY(failure, 1) {
  std::string path;
  const int kind = static_cast<int>(s.range(0, 4));
  if (kind == 0) {
    path = c.scratch + "/full.data";
    unlink(path.c_str());
    if (symlink("/dev/full", path.c_str()) != 0) throw pbt::Discard{};
  } else {
    path = c.scratch + (kind == 1 ? "/nodirectory/map.data" : kind == 2 ? "/map.wrong" : kind == 3 ? "/nothing.data" : s.oneOf<const char*>({"/map.toml", "/map.npy", "/map.png"}));
  }
  LOG(path);
  int n = 0;
  const V v = tree(s, 2, true, n);
  MapArrayT m = build(s, v);
  if (kind == 0) {
    if (s.coin()) m.Set(il::String{"large"}, il::Dynamic{il::Array<double>{s.range(500, 2000), 1.0}});
    const std::vector<std::string> option = {"struct"};
    const bool a = save(c, path, m, s.coin() ? &option : nullptr);
    unlink(path.c_str());
    REQUIRE(!a, "save claims that the tree has been written in a full device");
  } else if (kind == 4) {
    // Only data files have options, and nothing is written in the others
    const std::vector<std::string> option = {"struct"};
    REQUIRE(!save(c, path, m, &option), "save with an option claims that " << path << " has been written");
  } else {
    const std::vector<std::string> option = {"struct"};
    const bool with_option = s.coin();
    if (kind != 3) REQUIRE(!save(c, path, m, with_option ? &option : nullptr), "save claims that the tree has been written");
    MapT x{};
    MapArrayT y{};
    const bool std_string = s.coin();
    REQUIRE(!load(c, path, x, nullptr, std_string), "a file that is not there is loaded");
    REQUIRE(!load(c, path, y, nullptr, std_string), "a file that is not there is loaded");
    REQUIRE(x.nbElements() == 0 && y.nbElements() == 0, "something is loaded");
  }
  c.nontrivial = true;
}
}  // namespace
