// C22: saving and loading TOML documents.
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <set>

#include <il/Array.h>
#include <il/Array2D.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/toml.h>

#include "pbt.h"
#include "toml_common.h"
#include "value.h"

namespace pbt {
const char* rule =
    "documents (tables nested up to 5 deep, homogeneous arrays nested up to 4 deep, arrays of tables, "
    "strings and keys with every kind of character, integers and finite doubles from the whole range) are "
    "drawn, saved, loaded and saved again. Non-trivial: the document has at least 3 values, and a nested "
    "table, an array or a string that has to be escaped";
}
namespace {
using namespace vt;
using vv::V;

struct Init {
  Init() {
    pbt::quick_cases = 40000;
    pbt::thorough_cases = 2000000;
  }
} init;

template <typename M>
bool save(const M& m, const std::string& path) {
  il::Status status{};
  il::save(m, vv::utf8(path), il::io, status);
  return status.Ok();
}

void roundtrip(pbt::Src& s, pbt::Ctx& c) {
  g_escape = false;
  Count n;
  const V v = drawTable(s, static_cast<int>(s.range(0, 5)), false, n);
  LOG(vv::show(v));
  const std::string path = c.scratch + "/document.toml", path2 = c.scratch + "/again.toml";
  const il::Dynamic d = vv::build(v);
  const int files = nbOpenFiles();
  REQUIRE(v.kind == vv::Map ? save(d.as<MapT>(), path) : save(d.as<MapArrayT>(), path), "save ends with an error");
  // The document which has been saved has not changed
  vv::compare(c, d, v, "the saved document");
  const std::string text = read(path);
  LOG("written: " << pbt::quote(text));
  il::Status status{};
  const MapArrayT m = s.coin() ? il::load<MapArrayT>(path, il::io, status) : il::load<MapArrayT>(vv::utf8(path), il::io, status);
  REQUIRE(status.Ok(), "load ends with an error");
  sameTable(c, m, v, "the document");
  REQUIRE(save(m, path2), "the second save ends with an error");
  REQUIRE(read(path2) == text, "the second save writes " << pbt::quote(read(path2)));
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  c.tag(v.kind == vv::Map ? "Map" : "MapArray");
  if (n.nested > 0) c.tag("nested tables");
  if (n.arrays > 0) c.tag("arrays");
  if (g_escape) c.tag("escapes");
  if (n.values >= 3 && (n.nested > 0 || n.arrays > 0 || g_escape)) c.nontrivial = true;
}

// Arrays and matrices of doubles are loaded as arrays of doubles
void numeric(pbt::Src& s, pbt::Ctx& c) {
  auto number = [&] {
    double x = vv::doubleOf(vv::doubleBits(s));
    return std::isfinite(x) ? x : s.smallDouble();
  };
  MapArrayT m{};
  il::Array<double> a{s.chance(1, 25) ? s.range(6, 1000) : s.range(0, 6)};
  for (auto& x : a) x = number();
  if (s.coin()) a.Reserve(a.size() + 4);
  const il::int_t n0 = s.chance(1, 25) ? s.range(4, 100) : s.range(0, 4), n1 = s.chance(1, 25) ? s.range(4, 100) : s.range(0, 4);
  il::Array2D<double> b{n0, n1};
  if (s.coin()) b.Reserve(n0 + 2, n1 + 1);
  for (il::int_t j = 0; j < n1; ++j)
    for (il::int_t i = 0; i < n0; ++i) b(i, j) = number();
  const bool sub = s.coin();
  const il::int_t k = s.i64();
  LOG("array of " << a.size() << ", matrix " << n0 << " x " << n1 << (sub ? " in a table" : ""));
  MapArrayT t{};
  t.Set(il::String{"array"}, il::Dynamic{a});
  t.Set(il::String{"matrix"}, il::Dynamic{b});
  if (sub) {
    m.Set(il::String{"sub"}, il::Dynamic{t});
  } else {
    m = t;
  }
  m.Set(il::String{"last"}, il::Dynamic{k});
  const std::string path = c.scratch + "/document.toml";
  REQUIRE(save(m, path), "save ends with an error");
  LOG("written: " << pbt::quote(read(path)));
  il::Status status{};
  const MapArrayT l = il::load<MapArrayT>(vv::utf8(path), il::io, status);
  REQUIRE(status.Ok(), "load ends with an error");
  REQUIRE(l.nbElements() == (sub ? 2 : 3), "the document has " << l.nbElements() << " keys");
  const il::spot_t last = l.search("last");
  REQUIRE(l.found(last) && l.value(last).is<il::int_t>() && l.value(last).to<il::int_t>() == k, "last");
  const MapArrayT* q = &l;
  if (sub) {
    const il::spot_t i = l.search("sub");
    REQUIRE(l.found(i) && l.value(i).is<MapArrayT>(), "no table");
    q = &l.value(i).as<MapArrayT>();
  }
  const il::spot_t ia = q->search("array"), ib = q->search("matrix");
  REQUIRE(q->found(ia) && q->found(ib), "a key is missing");
  V va, vb;
  va.kind = vb.kind = vv::Arr;
  auto add = [&](V& v, double x) {
    V e;
    e.kind = vv::Double;
    e.bits = vv::bitsOf(x);
    v.children.push_back(e);
  };
  for (il::int_t i = 0; i < a.size(); ++i) add(va, a[i]);
  for (il::int_t i = 0; i < n0; ++i) {
    V row;
    row.kind = vv::Arr;
    for (il::int_t j = 0; j < n1; ++j) add(row, b(i, j));
    vb.children.push_back(row);
  }
  same(c, q->value(ia), va, "array");
  same(c, q->value(ib), vb, "matrix");
  if (a.size() > 1 && n0 > 1 && n1 > 1) c.nontrivial = true;
}

// Tables in tables, many levels deep
void deep(pbt::Src& s, pbt::Ctx& c) {
  Count n;
  V v;
  v.kind = vv::MapArr;
  v.keys.push_back(drawKey(s));
  v.children.push_back(scalar(s, vv::Integer));
  const std::int64_t depth = s.chance(1, 20) ? s.range(40, 100) : s.range(1, 40);
  for (std::int64_t i = 0; i < depth; ++i) {
    V w;
    w.kind = s.chance(4, 5) ? vv::MapArr : vv::Map;
    const std::string k = drawKey(s);
    w.keys.push_back(k);
    w.children.push_back(v);
    const std::string l = drawKey(s);
    if (s.chance(1, 3) && l != k) {
      const bool before = s.coin();
      w.keys.insert(before ? w.keys.begin() : w.keys.end(), l);
      w.children.insert(before ? w.children.begin() : w.children.end(), scalar(s, vv::Integer));
    }
    v = w;
  }
  LOG("depth " << depth << ": " << vv::show(v));
  const std::string path = c.scratch + "/document.toml";
  const il::Dynamic d = vv::build(v);
  REQUIRE(v.kind == vv::Map ? save(d.as<MapT>(), path) : save(d.as<MapArrayT>(), path), "save ends with an error");
  il::Status status{};
  const MapArrayT m = il::load<MapArrayT>(vv::utf8(path), il::io, status);
  REQUIRE(status.Ok(), "load ends with an error");
  sameTable(c, m, v, "the document");
  if (depth > 5) c.nontrivial = true;
}

// A document that cannot be written is an error
void failure(pbt::Src& s, pbt::Ctx& c) {
  Count n;
  V v = drawTable(s, static_cast<int>(s.range(0, 3)), false, n);
  v.keys.push_back("a key that is not yet there");
  v.children.push_back(scalar(s, vv::Integer));
  if (s.chance(1, 4)) {
    // more than what a buffer holds
    V big;
    big.kind = vv::Str;
    big.s = std::string(9000, 'x');
    v.keys.push_back("another key that is not yet there");
    v.children.push_back(big);
  }
  const il::Dynamic d = vv::build(v);
  std::string path;
  const int kind = static_cast<int>(s.range(0, 2));
  if (kind == 0) {
    path = c.scratch + "/full.toml";
    unlink(path.c_str());
    if (symlink("/dev/full", path.c_str()) != 0) throw pbt::Discard{};
  } else {
    path = c.scratch + (kind == 1 ? "/nodirectory/document.toml" : "/document.wrong");
  }
  LOG("save " << vv::show(v) << " to " << path);
  const int files = nbOpenFiles();
  const bool ok = v.kind == vv::Map ? save(d.as<MapT>(), path) : save(d.as<MapArrayT>(), path);
  if (kind == 0) unlink(path.c_str());
  REQUIRE(!ok, "save claims that the document has been written");
  REQUIRE(nbOpenFiles() == files, "a file has been left open");
  c.nontrivial = n.values >= 3;
}
}  // namespace

PROPERTY(roundtrip, 12) { roundtrip(s, c); }
PROPERTY(numeric, 2) { numeric(s, c); }
PROPERTY(deep, 1) { deep(s, c); }
PROPERTY(failure, 1) { failure(s, c); }
