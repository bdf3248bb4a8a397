// C36: the library used from several threads.
//
// A case is a set of programs, one per thread. Each step of a program is one of
// the operations below, on objects of the thread, or on constant objects which
// all the threads read. The programs run at the same time in a new process in
// which the library has not been used yet, under ThreadSanitizer: two accesses
// which are not ordered are found whatever the interleaving is. Then each
// program runs again on its own, and must give the same results.
#include <atomic>
#include <cmath>
#include <complex>
#include <cstdlib>
#include <string>
#include <thread>
#include <vector>

#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/BandArray2C.h>
#include <il/Deque.h>
#include <il/Dynamic.h>
#include <il/Info.h>
#include <il/LowerArray2D.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/Set.h>
#include <il/SmallArray.h>
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/Status.h>
#include <il/String.h>
#include <il/Tree.h>
#include <il/TriDiagonal.h>
#include <il/UTF16String.h>
#include <il/UpperArray2D.h>
#include <il/container/string/unicode.h>
#include <il/linearAlgebra/dense/factorization/Cholesky.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/toml.h>

#include "pbt.h"

namespace thr {

using u64 = std::uint64_t;
using MapArrayT = il::MapArray<il::String, il::Dynamic>;

struct Digest {
  u64 h = 1469598103934665603ull;
  void bytes(const void* p, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) h = (h ^ static_cast<const unsigned char*>(p)[i]) * 1099511628211ull;
  }
  void operator()(u64 x) { bytes(&x, sizeof x); }
  void operator()(il::int_t x) { bytes(&x, sizeof x); }
  void operator()(int x) { (*this)(static_cast<il::int_t>(x)); }
  void operator()(bool x) { (*this)(static_cast<il::int_t>(x)); }
  // The vendor library may round in another way, depending on the alignment
  bool rounded = false;
  std::vector<double> near;
  void operator()(double x) {
    if (rounded) {
      near.push_back(x);
      return;
    }
    if (x == 0.0) x = 0.0;
    bytes(&x, sizeof x);
  }
  void operator()(const std::string& x) {
    (*this)(static_cast<u64>(x.size()));
    bytes(x.data(), x.size());
  }
  void operator()(const il::String& x) {
    (*this)(x.size());
    bytes(x.data(), static_cast<std::size_t>(x.size()));
    (*this)(static_cast<int>(x.type()));
  }
  void operator()(const il::StringView& x) {
    (*this)(x.size());
    bytes(x.data(), static_cast<std::size_t>(x.size()));
  }
  template <typename T>
  void operator()(const il::Array<T>& v) {
    (*this)(v.size());
    for (il::int_t i = 0; i < v.size(); ++i) (*this)(v[i]);
  }
  template <typename T>
  void operator()(const il::Array2D<T>& v) {
    (*this)(v.size(0));
    (*this)(v.size(1));
    for (il::int_t j = 0; j < v.size(1); ++j)
      for (il::int_t i = 0; i < v.size(0); ++i) (*this)(v(i, j));
  }
  template <typename T>
  void operator()(const il::Array2C<T>& v) {
    (*this)(v.size(0));
    (*this)(v.size(1));
    for (il::int_t i = 0; i < v.size(0); ++i)
      for (il::int_t j = 0; j < v.size(1); ++j) (*this)(v(i, j));
  }
  void operator()(const il::Dynamic& d) {
    (*this)(static_cast<int>(d.type()));
    switch (d.type()) {
      case il::Type::Bool: (*this)(d.to<bool>()); break;
      case il::Type::Integer: (*this)(d.to<il::int_t>()); break;
      case il::Type::Double: (*this)(d.to<double>()); break;
      case il::Type::UnicodeString: (*this)(d.as<il::String>()); break;
      case il::Type::ArrayOfDouble: (*this)(d.as<il::Array<double>>()); break;
      case il::Type::ArrayOfDynamic: (*this)(d.as<il::Array<il::Dynamic>>()); break;
      case il::Type::MapArrayStringToDynamic: (*this)(d.as<MapArrayT>()); break;
      default: break;
    }
  }
  template <typename M>
  void map(const M& m) {
    (*this)(m.nbElements());
    for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) {
      (*this)(m.key(i));
      (*this)(m.value(i));
    }
  }
  void operator()(const MapArrayT& m) { map(m); }
};

struct Rng {
  u64 s;
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  il::int_t below(il::int_t n) { return static_cast<il::int_t>(next() % static_cast<u64>(n)); }
  bool coin() { return next() & 1; }
  double unit() { return static_cast<double>(static_cast<std::int64_t>(next() >> 12)) / static_cast<double>(1ll << 51) - 1.0; }
  std::string word(il::int_t max) {
    std::string t;
    const il::int_t n = 1 + below(max);
    for (il::int_t i = 0; i < n; ++i) t.push_back(static_cast<char>('a' + below(4)));
    return t;
  }
};
inline il::String str(const std::string& t) { return il::String{il::StringType::Ascii, t.data(), static_cast<il::int_t>(t.size())}; }
inline il::Array<double> vec(Rng& r, il::int_t n) {
  il::Array<double> v{n};
  for (il::int_t i = 0; i < n; ++i) v[i] = r.unit();
  return v;
}
template <typename M = il::Array2D<double>>
M mat(Rng& r, il::int_t m, il::int_t n, double diag = 0.0) {
  M A{m, n};
  for (il::int_t j = 0; j < n; ++j)
    for (il::int_t i = 0; i < m; ++i) A(i, j) = r.unit() + (i == j ? diag : 0.0);
  return A;
}
inline il::Dynamic dynamic(Rng& r, int depth) {
  switch (r.below(depth > 0 ? 7 : 5)) {
    case 0: return il::Dynamic{r.coin()};
    case 1: return il::Dynamic{r.below(100000) - 50000};
    case 2: return il::Dynamic{r.unit()};
    case 3: return il::Dynamic{str(r.word(8))};
    case 4: return il::Dynamic{str(r.word(60))};
    case 5: {
      il::Array<il::Dynamic> a{};
      for (il::int_t k = r.below(4); k > 0; --k) a.Append(il::Dynamic{r.below(1000)});
      return il::Dynamic{a};
    }
    default: {
      MapArrayT m{};
      for (il::int_t k = 1 + r.below(4); k > 0; --k) m.Set(str(r.word(12)), dynamic(r, depth - 1));
      return il::Dynamic{m};
    }
  }
}
inline MapArrayT table(Rng& r) {
  MapArrayT m{};
  for (il::int_t k = 1 + r.below(8); k > 0; --k) m.Set(str(r.word(12)), dynamic(r, 2));
  return m;
}
inline il::SparseMatrixCSR<il::int_t, double> sparse(Rng& r, il::int_t n) {
  il::Array<il::int_t> row{n + 1};
  il::Array<il::int_t> column{};
  il::Array<double> element{};
  for (il::int_t i = 0; i < n; ++i) {
    row[i] = column.size();
    for (il::int_t j = 0; j < n; ++j) {
      if (i == j || (i + 1 == j) || (j + 1 == i)) {
        column.Append(j);
        element.Append(i == j ? 4.0 + r.unit() : r.unit());
      }
    }
  }
  row[n] = column.size();
  return il::SparseMatrixCSR<il::int_t, double>{n, n, column, row, element};
}

inline il::Array2D<double> spd(Rng& r, il::int_t n) {
  il::Array2D<double> A = mat(r, n, n);
  for (il::int_t i = 0; i < n; ++i)
    for (il::int_t j = 0; j <= i; ++j) A(j, i) = A(i, j);
  for (il::int_t i = 0; i < n; ++i) A(i, i) += 2.0 * static_cast<double>(n);
  return A;
}
// The objects which are read by all the threads
struct Shared {
  il::Array<double> v, w;
  il::Array<il::String> words;
  il::SmallArray<il::int_t, 4> small;
  il::Array2D<double> A;
  il::Array2C<double> C;
  il::Array3D<double> T;
  il::String shortString, longString;
  il::Map<int, double> imap;
  il::Map<il::String, il::String> smap;
  il::MapArray<il::String, il::Dynamic> table;
  il::Set<il::String> set;
  il::Info info;
  il::Deque<il::String> deque;
  il::Tree<double, 2> tree;
  il::spot_t leaf;
  il::SparseMatrixCSR<il::int_t, double> S;
  std::string path;
  il::Array3C<double> T3{2, 3, 2, 0.5};
  il::Array4D<double> T4{2, 3, 2, 2, 0.5};
  il::Array4C<double> T4C{2, 3, 2, 2, 0.5};
  il::StaticArray<double, 5> fixed{il::value, {1.0, 2.0, 3.0, 4.0, 5.0}};
  il::StaticArray2D<double, 2, 2> fixed2{il::value, {{1.0, 2.0}, {3.0, 4.0}}};
  il::LowerArray2D<double> lower{4};
  il::UpperArray2D<double> upper{4};
  il::BandArray2C<double> band{5, 5, 1, 2};
  il::TriDiagonal<double> tri{5};
  il::UTF16String wide;
  il::Status status{};
  il::Status status2{};
  il::LU<il::Array2D<double>> lu;
  il::Cholesky<il::Array2D<double>> cholesky;
  explicit Shared(Rng r, const std::string& dir)
      : v{vec(r, 1 + r.below(40))}, w{vec(r, v.size())}, A{mat(r, 6, 6, 8.0)}, C{mat<il::Array2C<double>>(r, 6, 6, 8.0)},
        T{3, 4, 5, 0.0}, shortString{str(r.word(6))}, longString{str(r.word(20) + std::string(20, 'a') + r.word(20))}, table{thr::table(r)},
        S{sparse(r, 6)}, lu{A, il::io, status}, cholesky{spd(r, 5), il::io, status2} {
    status2.AbortOnError();
    status.AbortOnError();
    wide = il::toUtf16(longString);
    for (il::int_t i = 0; i < 4; ++i) {
      for (il::int_t j = 0; j <= i; ++j) {
        lower(i, j) = r.unit();
        upper(j, i) = r.unit();
      }
    }
    for (il::int_t i = 0; i < 5; ++i) {
      tri(i, 0) = 4.0;
      for (il::int_t k = -1; k <= 1; k += 2)
        if (i + k >= 0 && i + k < 5) tri(i, k) = r.unit();
      for (il::int_t k = -1; k <= 2; ++k)
        if (i + k >= 0 && i + k < 5) band(i, k) = r.unit();
    }
    for (int k = 0; k < 5; ++k) {
      words.Append(str(r.word(40)));
      small.Append(r.below(100));
    }
    for (il::int_t i = 0; i < 3; ++i)
      for (il::int_t j = 0; j < 4; ++j)
        for (il::int_t k = 0; k < 5; ++k) T(i, j, k) = r.unit();
    for (int k = 0; k < 20; ++k) {
      imap.Set(static_cast<int>(r.below(40)), r.unit());
      smap.Set(str(r.word(30)), str(r.word(30)));
      set.Add(str(r.word(30)));
    }
    const il::spot_t p = imap.search(imap.key(imap.spotBegin()));
    imap.erase(p);
    info.Set("line", 12);
    info.Set("x", 0.5);
    info.Set("text", "a text which does not fit in the object itself");
    deque.Reserve(10);
    for (int k = 0; k < 4; ++k) {
      deque.PushBack(str(r.word(30)));
      deque.PushFront(str(r.word(30)));
    }
    tree.Set(tree.root(), 1.0);
    tree.AddChild(tree.root(), 0);
    tree.AddChild(tree.root(), 1);
    leaf = tree.child(tree.root(), 1);
    tree.Set(tree.child(tree.root(), 0), 2.0);
    tree.Set(leaf, 3.0);
    path = dir + "/shared.toml";
    il::save(table, str(path), il::io, status);
    status.AbortOnError();
  }
};

struct Env {
  std::string dir;       // of the thread
  const Shared* shared;  // null if the case has no shared object
};
using OpFn = void (*)(Rng&, const Env&, Digest&);
struct Op {
  const char* name;
  bool shared;
  bool rounded;
  OpFn fn;
};
#if PBT_IN(0)
std::vector<Op>& ops() {
  static std::vector<Op> v;
  return v;
}
#else
std::vector<Op>& ops();
#endif
struct RegOp {
  RegOp(const char* name, bool shared, bool rounded, OpFn fn) { ops().push_back(Op{name, shared, rounded, fn}); }
};
#define OP_(name, shared, rounded)                                              \
  static void PBT_CAT(op_, name)(Rng & r, const Env& e, Digest& d);    \
  static RegOp PBT_CAT(rop_, name)(#name, shared, rounded, PBT_CAT(op_, name)); \
  static void PBT_CAT(op_, name)(Rng & r, const Env& e, Digest& d)
#define OWN(name) OP_(name, false, PBT_IN(3))
#define SHARED(name) OP_(name, true, PBT_IN(3))

}  // namespace thr

// ------------------------------------------------------------- the containers
#if PBT_IN(1)
#include <il/Array4D.h>
#include <il/BandArray2C.h>
#include <il/LowerArray2D.h>
#include <il/StaticArray2D.h>
#include <il/TriDiagonal.h>
#include <il/UTF16String.h>
#include <il/UpperArray2D.h>
#include <il/algorithmArray.h>
#include <il/container/string/algorithmString.h>
#include <il/container/string/unicode.h>
#include <il/core/math/safe_arithmetic.h>
#include <il/math.h>

namespace thr {
OWN(array) {
  il::Array<double> v{};
  const il::int_t n = r.below(40);
  for (il::int_t i = 0; i < n; ++i) v.Append(r.unit());
  v.Resize(r.below(50), 0.5);
  if (r.coin()) v.Reserve(r.below(100));
  il::Array<double> w{v};
  w.Append(1.0);
  v = std::move(w);
  d(v);
  il::Array<il::String> s{3, str(r.word(40))};
  s.Append(str(r.word(10)));
  il::Array<il::String> t{};
  t = s;
  t.Resize(r.below(6), il::String{"abc"});
  d(t);
}
OWN(alignedArray) {
  il::Array<double> v{1 + r.below(20), 1.5, il::align, 64};
  v.Append(r.unit());
  const il::Array<double> w{v};
  d(w);
}
OWN(smallArray) {
  il::SmallArray<il::String, 3> v{};
  for (il::int_t k = r.below(8); k > 0; --k) v.Append(str(r.word(30)));
  const il::SmallArray<il::String, 3> w{v};
  for (il::int_t i = 0; i < w.size(); ++i) d(w[i]);
}
OWN(array2) {
  il::Array2D<double> A = mat(r, r.below(6), r.below(6));
  A.Resize(2, 3);
  for (il::int_t i = 0; i < 6; ++i) A(i / 3, i % 3) = r.unit();
  const il::Array2D<double> B{A};
  d(B);
  il::Array2C<double> C = mat<il::Array2C<double>>(r, 1 + r.below(6), 1 + r.below(6));
  C.Resize(3, 2);
  for (il::int_t i = 0; i < 6; ++i) C(i / 2, i % 2) = r.unit();
  d(C);
}
OWN(array34) {
  il::Array3D<double> A{1 + r.below(3), 2, 2, r.unit()};
  A.Resize(2, 3, 2);
  for (il::int_t i = 0; i < 12; ++i) A(i % 2, i / 2 % 3, i / 6) = r.unit();
  il::Array3D<double> B{A};
  d(B(1, 2, 1));
  il::Array4D<double> D{2, 2, 1 + r.below(3), 2, r.unit()};
  D.Resize(2, 2, 2, 3);
  D(1, 1, 1, 2) = r.unit();
  d(D(1, 1, 1, 2));
}
OWN(structuredMatrices) {
  il::LowerArray2D<double> L{1 + r.below(5)};
  for (il::int_t i = 0; i < L.size(); ++i)
    for (il::int_t j = 0; j <= i; ++j) L(i, j) = r.unit();
  il::LowerArray2D<double> M{L};
  d(M(M.size() - 1, 0));
  il::UpperArray2D<double> U{1 + r.below(5)};
  for (il::int_t i = 0; i < U.size(); ++i)
    for (il::int_t j = i; j < U.size(); ++j) U(i, j) = r.unit();
  d(U(0, U.size() - 1));
  il::TriDiagonal<double> T{3};
  T(1, -1) = r.unit();
  T(1, 1) = r.unit();
  d(T(1, -1) + T(1, 1));
}
OWN(string) {
  il::String t{};
  for (il::int_t k = 1 + r.below(6); k > 0; --k) {
    switch (r.below(5)) {
      case 0: t.Append(str(r.word(30)).view()); break;
      case 1: t.Append(static_cast<int>(0x20ac + r.below(100))); break;
      case 2: t.Append(r.below(5), 'x'); break;
      case 3: t.Insert(0, "ab"); break;
      default: t.Insert(0, str(r.word(5)).view()); break;
    }
  }
  const il::String u = il::join(t, str(r.word(4)));
  d(u);
  d(u.search("ab"));
  d(u.count('a'));
  d(il::toString(r.below(100000)));
  const il::String cut = str(r.word(30) + "abcd").substring(2, 4);
  d(cut);
  d(cut == il::String{"ab"});
  const il::UTF16String x = il::toUtf16(u);
  d(x.size());
  d(il::toUtf8(x));
}
OWN(map) {
  il::Map<int, il::String> m{};
  for (int k = 0; k < 20; ++k) m.Set(static_cast<int>(r.below(15)), str(r.word(30)));
  const il::spot_t i = m.search(static_cast<int>(r.below(15)));
  if (m.found(i)) m.erase(i);
  il::Map<int, il::String> n{m};
  n.Rehash();
  d.map(n);
  il::Map<il::String, il::int_t> t{};
  for (int k = 0; k < 20; ++k) t.Set(str(r.word(30)), r.below(100));
  m.Clear();
  d.map(t);
  il::spot_t j = t.searchCString("abcd", 4);
  if (!t.found(j)) t.SetCString("abcd", 4, 7, il::io, j);
  d(t.value(j));
}
OWN(mapArray) {
  MapArrayT m = table(r);
  m.Set(il::String{"key"}, dynamic(r, 1));
  const MapArrayT n{m};
  d(n);
  il::MapArray<int, double> p{};
  for (int k = 0; k < 10; ++k) p.Set(static_cast<int>(r.below(20)), r.unit());
  d.map(p);
}
OWN(set) {
  il::Set<il::String> m{};
  for (int k = 0; k < 12; ++k) m.Add(str(r.word(30)));
  const il::Set<il::String> n{m};
  d(n.nbElements());
  d(n.contains(il::String{"abc"}));
  il::Set<int> q{};
  for (int k = 0; k < 12; ++k) q.Add(static_cast<int>(r.below(100)));
  for (il::spot_t i = q.spotBegin(); i != q.spotEnd(); i = q.next(i)) d(q.element(i));
}
OWN(dynamic) {
  il::Dynamic x = thr::dynamic(r, 3);
  il::Dynamic y{x};
  x = il::Dynamic{vec(r, r.below(5))};
  d(x);
  x = y;
  d(x);
}
OWN(deque) {
  il::Deque<il::String> q{12};
  for (int k = 0; k < 10; ++k) {
    if (r.coin()) {
      q.PushBack(str(r.word(30)));
    } else {
      q.PushFront(str(r.word(30)));
    }
    if (r.below(4) == 0 && q.size() > 0) q.PopFront();
  }
  d(q.size());
  if (q.size() > 0) d(q.back());
}
OWN(tree) {
  il::Tree<double, 3> t{};
  il::spot_t s = t.root();
  t.Set(s, r.unit());
  for (int k = 0; k < 3; ++k) {
    const il::int_t i = r.below(3);
    t.AddChild(s, i);
    s = t.child(s, i);
    t.Set(s, r.unit());
  }
  d(t.value(t.parent(s)));
  d(t.depth());
}
OWN(infoStatus) {
  il::Info info{};
  info.Set("a", static_cast<int>(r.below(100)));
  info.Set("b", r.unit());
  info.Set("c", r.word(60).c_str());
  info.Set("a", r.coin());
  const il::Info copy{info};
  d(std::string(copy.asCString("c")));
  il::Status status{};
  status.SetError(il::Error::ParseBool);
  IL_SET_SOURCE(status);
  status.SetInfo("line", static_cast<int>(r.below(100)));
  il::Status other{std::move(status)};
  if (!other.Ok()) d(other.toInteger("line"));
}
OWN(algorithms) {
  il::Array<double> v = vec(r, 1 + r.below(60));
  d(il::min(v));
  d(il::indexMax(v));
  d(il::mean(v));
  d(il::maxAbs(v));
  il::sort(il::io, v);
  d(v);
  d(il::binarySearch(v, v[0]));
}
OWN(math) {
  d(il::ipow<3>(r.unit()));
  d(il::ipow(r.unit(), static_cast<int>(r.below(10))));
  d(il::abs(r.unit()));
  bool error = false;
  d(il::safeProduct(r.below(1000), r.below(1000), il::io, error));
  d(il::safeSum(r.below(1000), r.below(1000), il::io, error));
  d(error);
  d(il::floor(10 * r.unit()));
}
}  // namespace thr
#endif

// --------------------------------------------------------------- the formats
#if PBT_IN(2)
#include <il/File.h>
#include <il/data.h>
#include <il/io/ppm/ppm.h>
#include <il/numpy.h>
#include <il/print.h>

namespace thr {
OWN(format) {
  d(il::format("{} and {:>12.3f}, {:#x} {:<8}|{:08.3e}", r.below(1000) - 500, r.unit(), static_cast<int>(r.below(5000)), r.word(5).c_str(), r.unit()));
  d(il::format("{0:+d}{1}{0:b}", static_cast<int>(r.below(100000)), r.unit()));
}
OWN(tomlFile) {
  il::Status status{};
  const MapArrayT m = table(r);
  const il::String path = str(e.dir + "/a.toml");
  il::save(m, path, il::io, status);
  d(status.Ok());
  const MapArrayT n = il::load<MapArrayT>(path, il::io, status);
  d(status.Ok());
  d(n);
}
OWN(tomlErrors) {
  static const char* const text[] = {"a = 1\na = 2\n", "x = [1, \"a\"]\n", "s = \"unclosed\n", "[t]\n[t]\n", "ok = 3.5e2\nd = 1_000\nt = '''abc\ndef'''\n"};
  const std::string path = e.dir + "/b.toml";
  FILE* f = std::fopen(path.c_str(), "wb");
  if (!f) return;
  std::fputs(text[r.below(5)], f);
  std::fclose(f);
  il::Status status{};
  il::TomlParser parser{};
  const MapArrayT n = parser.parse(str(path), il::io, status);
  const bool ok = status.Ok();
  d(ok);
  if (ok) d(n);
  if (!ok) d(static_cast<int>(status.error()));
}
OWN(numpyFile) {
  il::Status status{};
  const il::String path = str(e.dir + "/a.npy");
  const il::Array<double> v = vec(r, r.below(20));
  il::save(v, path, il::io, status);
  d(status.Ok());
  d(il::load<il::Array<double>>(path, il::io, status));
  d(status.Ok());
  const il::Array2D<double> A = mat(r, 1 + r.below(4), 1 + r.below(4));
  il::save(A, path, il::io, status);
  d(status.Ok());
  d(il::load<il::Array2D<double>>(path, il::io, status));
  d(status.Ok());
}
OWN(dataFile) {
  il::Status status{};
  const il::String path = str(e.dir + "/a.data");
  const MapArrayT m = table(r);
  il::save(m, path, il::io, status);
  d(status.Ok());
  const MapArrayT n = il::load<MapArrayT>(path, il::io, status);
  d(status.Ok());
  d(n);
}
OWN(file) {
  il::Status status{};
  const il::String path = str(e.dir + "/a.bin");
  const std::string text = r.word(200);
  {
    il::File f{path, il::FileMode::Write, il::io, status};
    status.AbortOnError();
    f.Write(text.data(), static_cast<il::int_t>(text.size()), 1, il::io, status);
    status.AbortOnError();
    f.Close(il::io, status);
    status.AbortOnError();
  }
  il::File f{path, il::FileMode::Read, 32, il::io, status};
  status.AbortOnError();
  std::string back(text.size(), ' ');
  f.Read(static_cast<il::int_t>(back.size()), 1, il::io, &back[0], status);
  status.AbortOnError();
  f.Close(il::io, status);
  status.AbortOnError();
  d(back);
}
OWN(ppm) {
  const std::string path = e.dir + "/a.ppm";
  FILE* f = std::fopen(path.c_str(), "wb");
  if (!f) return;
  const int w = static_cast<int>(1 + r.below(5)), h = static_cast<int>(1 + r.below(5));
  std::fprintf(f, "P6\n%d %d\n255\n", w, h);
  for (int k = 0; k < 3 * w * h; ++k) std::fputc(static_cast<int>(r.below(256)), f);
  std::fclose(f);
  il::Status status{};
  const il::Array2D<il::Pixel> image = il::readPpm(path, il::io, status);
  d(status.Ok());
  for (il::int_t j = 0; j < image.size(1); ++j)
    for (il::int_t i = 0; i < image.size(0); ++i) d(static_cast<int>(image(i, j).red) + 256 * image(i, j).green + 65536 * image(i, j).blue);
}
SHARED(saveTable) {
  const il::String path = str(e.dir + "/c.toml");
  il::Status status{};
  il::save(e.shared->table, path, il::io, status);
  d(status.Ok());
  il::save(e.shared->table, str(e.dir + "/c.data"), il::io, status);
  d(status.Ok());
  il::save(e.shared->v, str(e.dir + "/c.npy"), il::io, status);
  d(status.Ok());
  il::save(e.shared->A, str(e.dir + "/d.npy"), il::io, status);
  d(status.Ok());
  d(il::load<MapArrayT>(path, il::io, status));
  d(status.Ok());
}
SHARED(loadSameFile) {
  il::Status status{};
  d(il::load<MapArrayT>(e.shared->path, il::io, status));
  d(status.Ok());
}
SHARED(formatShared) {
  d(il::format("{} {}", e.shared->shortString.asCString(), e.shared->v[0]));
  d(std::string(e.shared->longString.asCString()));
}
}  // namespace thr
#endif

// -------------------------------------------------------------- linear algebra
#if PBT_IN(3)
#include <il/StaticArray2D.h>
#include <il/TriDiagonal.h>
#include <il/linearAlgebra/dense/blas/blas.h>
#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/dense/blas/cross.h>
#include <il/linearAlgebra/dense/blas/dot.h>
#include <il/linearAlgebra/dense/blas/solve.h>
#include <il/linearAlgebra/dense/factorization/Cholesky.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/Singular.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
#include <il/linearAlgebra/dense/norm.h>
#include <il/linearAlgebra/matrixFree/solver/Cg.h>
#include <il/linearAlgebra/matrixFree/solver/Gmres.h>
#include <il/linearAlgebra/sparse/blas/sparseDot.h>
#include <il/linearAlgebra/sparse/factorization/GmresIlu0.h>
#include <il/linearAlgebra/sparse/factorization/Pardiso.h>
#include <il/random/sobol.h>

namespace thr {
class Dense : public il::FunctorArray<double> {
 public:
  il::Array2D<double> a;
  explicit Dense(il::Array2D<double> A) : a{std::move(A)} {}
  il::int_t size(il::int_t k) const override { return a.size(k); }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override {
    for (il::int_t i = 0; i < a.size(0); ++i) {
      double t = 0;
      for (il::int_t j = 0; j < a.size(1); ++j) t += a(i, j) * x[j];
      y[i] = t;
    }
  }
};
OWN(norms) {
  const il::Array2D<double> A = mat(r, 1 + r.below(5), 1 + r.below(5));
  d(il::norm(A, il::Norm::L1));
  d(il::norm(A, il::Norm::Linf));
  const il::Array<double> v = vec(r, 1 + r.below(10));
  d(il::norm(v, il::Norm::L2));
  d(il::norm(v, il::Norm::L1));
}
OWN(products) {
  const il::int_t n = 1 + r.below(6);
  const il::Array2D<double> A = mat(r, n, n), B = mat(r, n, n);
  const il::Array<double> x = vec(r, n);
  d(il::dot(A, B));
  d(il::dot(A, x));
  d(il::dot(x, x));
  il::Array2D<double> C{n, n, 1.0};
  il::blas(2.0, A.view(), B.view(), 0.5, il::io, C.Edit());
  d(C);
  il::Array<double> y{n, 1.0};
  il::blas(1.5, A.view(), il::Dot::Transpose, x.view(), 1.0, il::io, y.Edit());
  d(y);
  const il::Array2C<double> F = mat<il::Array2C<double>>(r, n, n);
  d(il::dot(F, x));
  il::Array2D<std::complex<double>> Z{n, n}, W{n, n};
  for (il::int_t j = 0; j < n; ++j)
    for (il::int_t i = 0; i < n; ++i) {
      Z(i, j) = std::complex<double>(r.unit(), r.unit());
      W(i, j) = std::complex<double>(r.unit(), r.unit());
    }
  il::Array2D<std::complex<double>> P{n, n, 0.0};
  il::blas(std::complex<double>(1.0), Z.view(), W.view(), std::complex<double>(0.0), il::io, P.Edit());
  d(P(n - 1, 0).real());
  d(P(n - 1, 0).imag());
}
OWN(smallMatrices) {
  il::StaticArray2D<double, 3, 3> A{};
  il::StaticArray<double, 3> x{}, y{};
  for (il::int_t i = 0; i < 3; ++i) {
    x[i] = r.unit();
    y[i] = r.unit();
    for (il::int_t j = 0; j < 3; ++j) A(i, j) = r.unit() + (i == j ? 5.0 : 0.0);
  }
  const il::StaticArray<double, 3> z = il::dot(A, x);
  const il::StaticArray<double, 3> q = il::cross(x, y);
  d(z[0] + z[1] + z[2] + q[0] + q[1] + q[2]);
  il::Status status{};
  const il::LU<il::StaticArray2D<double, 3, 3>> lu{A, il::io, status};
  status.AbortOnError();
  d(lu.inverse()(1, 2));
  const il::StaticArray<double, 3> s = il::singularValues(A, il::io, status);
  status.AbortOnError();
  d(s[0] + s[2]);
}
OWN(factorizations) {
  const il::int_t n = 2 + r.below(5);
  const il::Array2D<double> A = mat(r, n, n, 4.0 + n);
  const il::Array<double> y = vec(r, n);
  il::Status status{};
  d(il::linearSolve(A, y, il::io, status));
  status.AbortOnError();
  const il::LU<il::Array2D<double>> lu{A, il::io, status};
  status.AbortOnError();
  d(lu.solve(y));
  d(lu.inverse());
  d(lu.determinant());
  d(lu.conditionNumber(il::Norm::L1, il::norm(A, il::Norm::L1)));
  const il::Cholesky<il::Array2D<double>> ch{spd(r, n), il::io, status};
  status.AbortOnError();
  d(ch.solve(y));
  const il::Eigen<il::Array2D<double>> eigen{A, il::io, status};
  status.AbortOnError();
  const il::Array<std::complex<double>> l = eigen.eigenValue();
  for (il::int_t i = 0; i < l.size(); ++i) d(std::abs(l[i]));
  il::Array2D<double> Sing{2, 2, 0.0};
  Sing(0, 0) = r.unit();
  const il::Array<double> none = il::linearSolve(Sing, vec(r, 2), il::io, status);
  d(status.Ok());
  (void)none;
}
OWN(sparseSolvers) {
  const il::int_t n = 2 + r.below(6);
  il::SparseMatrixCSR<il::int_t, double> S = sparse(r, n);
  const il::Array<double> y = vec(r, n);
  il::Pardiso solver{};
  solver.SymbolicFactorization(S);
  solver.NumericalFactorization(S);
  d(solver.Solve(S, y));
}
OWN(iterativeSolvers) {
  const il::int_t n = 2 + r.below(6);
  const Dense A{spd(r, n)};
  const il::Array<double> y = vec(r, n);
  il::Status status{};
  il::Cg<double> cg{A};
  d(cg.Solve(y, il::io, status));
  d(status.Ok());
  il::Gmres<double> gmres{A, n};
  il::Array<double> x{n, 0.0};
  gmres.Solve(y.view(), 1.0e-8, 100, il::io, x.Edit(), status);
  d(status.Ok());
  d(x);
}
OWN(preconditionedGmres) {
  const int n = static_cast<int>(2 + r.below(6));
  il::Array<int> row{n + 1};
  il::Array<int> column{};
  il::Array<double> element{};
  for (int i = 0; i < n; ++i) {
    row[i] = static_cast<int>(column.size());
    for (int j = 0; j < n; ++j) {
      if (i == j || i == j + 1 || j == i + 1) {
        column.Append(j);
        element.Append(i == j ? 4.0 : r.unit());
      }
    }
  }
  row[n] = static_cast<int>(column.size());
  il::SparseMatrixCSR<int, double> S{n, n, column, row, element};
  il::GmresIlu0 solver{1.0e-9, 100, 20};
  solver.computePreconditionner(il::io, S);
  d(solver.solve(vec(r, n), il::io, S));
  const il::Array<double> x = vec(r, n);
  d(il::norm(x, il::Norm::L2, il::Array<double>{n, 2.0}));
  il::TriDiagonal<double> T{n};
  for (int i = 0; i < n; ++i) {
    T(i, 0) = 4.0;
    if (i > 0) T(i, -1) = r.unit();
    if (i + 1 < n) T(i, 1) = r.unit();
  }
  d(il::norm(T, il::Norm::Linf));
  il::Status status{};
  d(il::linearSolve(T, x, il::io, status));
  status.AbortOnError();
}
OWN(sobolPoints) { d(il::sobol(1 + r.below(20), 1 + r.below(5), -1.0, 1.0)); }

SHARED(sharedMatrices) {
  const Shared& s = *e.shared;
  const il::Array<double> x = vec(r, 6);
  d(il::norm(s.A, il::Norm::L1));
  d(il::norm(s.v, il::Norm::L2));
  d(il::dot(s.A, x));
  d(il::dot(s.C, x));
  d(il::dot(s.A, s.A));
  d(il::dot(s.v, s.w));
  il::Status status{};
  d(il::linearSolve(s.A, x, il::io, status));
  status.AbortOnError();
  const il::LU<il::Array2D<double>> lu{s.A, il::io, status};
  status.AbortOnError();
  d(lu.determinant());
  d(il::linearSolve(s.tri, s.fixed.size() == 5 ? vec(r, 5) : x, il::io, status));
  status.AbortOnError();
  d(il::norm(s.tri, il::Norm::Linf));
  d(il::norm(s.A, il::Norm::Linf));
  d(il::norm(s.v, il::Norm::Linf));
  d(il::norm(s.fixed, il::Norm::L2));
}
SHARED(sharedFactorizations) {
  const Shared& s = *e.shared;
  const il::Array<double> y = vec(r, 6);
  d(s.lu.solve(y));
  d(s.lu.inverse());
  d(s.lu.determinant());
  d(s.lu.conditionNumber(il::Norm::L1, 10.0));
  d(s.lu.solve(mat(r, 6, 2)));
  d(s.lu.L()(3, 1));
  d(s.lu.U()(1, 3));
  d(s.lu.L(3, 1));
  d(s.lu.size(0));
  d(s.cholesky.solve(vec(r, 5)));
  d(s.cholesky.inverse());
  d(s.cholesky.conditionNumber(il::Norm::L1, 10.0));
}
}  // namespace thr
#endif

// -------------------------------------------------------- shared containers
#if PBT_IN(4)
#include <il/algorithmArray.h>
#include <il/container/string/unicode.h>
namespace thr {
SHARED(readArrays) {
  const Shared& s = *e.shared;
  d(s.v);
  d(s.v.back());
  d(s.v.view().size());
  const il::Array<double> copy{s.v};
  d(copy.size());
  il::Array<il::String> words{};
  words = s.words;
  d(words);
  const il::SmallArray<il::int_t, 4> small{s.small};
  for (il::int_t i = 0; i < small.size(); ++i) d(small[i]);
  d(il::max(s.v));
  d(il::mean(s.v));
  double t = 0;
  for (const double* p = s.v.begin(); p != s.v.end(); ++p) t += *p;
  d(t);
}
SHARED(readMatrices) {
  const Shared& s = *e.shared;
  d(s.A);
  d(s.C);
  const il::Array2D<double> copy{s.A};
  d(copy.view().size(0));
  const il::Array3D<double> cube{s.T};
  d(cube(r.below(3), r.below(4), r.below(5)));
  d(s.S.nbNonZeros());
  const il::SparseMatrixCSR<il::int_t, double> sp{s.S};
  d(s.S(1, 0));
  d(s.S.row(2));
  d(s.S.column(2));
  d(s.S.elementData()[1]);
  d(s.A.capacity(0));
  d(s.A.stride(1));
  d(s.C.stride(0));
  d(s.A.view(il::Range{1, 4}, il::Range{2, 5})(1, 2));
  d(s.C.view(il::Range{1, 4}, il::Range{2, 5})(1, 2));
  d(s.T3(1, 2, 1));
  d(s.T4(1, 2, 1, 1));
  d(s.T4C(1, 2, 1, 1));
  d(il::Array4D<double>{s.T4}(1, 1, 1, 1));
  d(s.fixed[r.below(5)]);
  d(s.fixed2(1, 0));
  d(s.lower(3, 1));
  d(s.upper(1, 3));
  d(il::LowerArray2D<double>{s.lower}(3, 1));
  d(s.band(2, 1));
  d(s.band.size(0));
  d(s.tri(2, 1));
  d(sp.element(0));
}
SHARED(readStrings) {
  const Shared& s = *e.shared;
  d(s.shortString);
  const il::String a{s.shortString}, b{s.longString};
  d(a == s.shortString);
  d(b == s.longString);
  d(s.longString.search(s.shortString.view()));
  d(s.longString.count('a'));
  d(s.longString.startsWith("ab"));
  d(s.longString.endsWith("b"));
  d(s.longString.substring(1, 4));
  d(il::join(s.shortString, s.longString));
  d(il::toUtf16(s.longString).size());
  d(il::toUtf8(s.wide));
  d(il::UTF16String{s.wide} == s.wide);
  d(s.wide.rune(s.wide.nextRune(0)));
  d(s.longString.isUtf8());
  d(s.longString.isAscii());
  d(s.longString.capacity() >= s.longString.size());
  d(s.longString.isRuneBoundary(3));
  d(s.longString.isEqual("abc"));
  d(s.longString.endsWith('b'));
  const il::StringView w = s.longString.subview(2, 12);
  d(w.startsWith("aa"));
  d(w.nextChar(0, 'b'));
  d(w.nextDigit(0));
  d(w.nextRune(2));
  d(w.rune(2));
  d(w.has(2, 'c'));
  d(w == "abc");
  d(static_cast<u64>(std::string(s.longString.asCString()).size()));
}
SHARED(readMaps) {
  const Shared& s = *e.shared;
  d.map(s.imap);
  d.map(s.smap);
  const il::Map<int, double> copy{s.imap};
  d(copy.nbElements());
  for (int k = 0; k < 8; ++k) {
    const il::spot_t i = s.imap.search(static_cast<int>(r.below(60)));
    d(s.imap.found(i));
    if (s.imap.found(i)) d(s.imap.value(i));
    const il::spot_t j = s.smap.search(str(r.word(4)));
    d(s.smap.found(j));
  }
  d(s.smap.found(s.smap.searchCString("ab")));
  d(s.smap.found(s.smap.searchCString("abc", 3)));
  const il::String& k0 = s.smap.key(s.smap.spotBegin());
  d(s.smap.valueForKey(k0));
  d(s.imap.valueForKey(static_cast<int>(r.below(60)), 2.5));
  d(s.imap.valueForKey(static_cast<int>(r.below(60))));
  d(s.smap.valueForCString("abb"));
  d(s.smap.valueForCString("abb", k0));
  d(s.imap.nbBuckets() >= s.imap.nbElements());
  d(s.imap.nbTombstones());
  d(s.imap.isEmpty());
  const il::Map<il::String, il::String> strings{s.smap};
  d(strings.nbElements());
  d(s.set.contains(str(r.word(3))));
  const il::Set<il::String> set{s.set};
  d(set.nbElements());
}
SHARED(readTable) {
  const Shared& s = *e.shared;
  d(s.table);
  const MapArrayT copy{s.table};
  d(copy);
  d(s.table.size());
  d(s.table.found(s.table.searchCString("ab")));
  for (int k = 0; k < 8; ++k) {
    const il::spot_t i = s.table.search(str(r.word(3)));
    d(s.table.found(i));
    if (s.table.found(i)) {
      const il::Dynamic x{s.table.value(i)};
      d(x);
    }
  }
}
SHARED(readOthers) {
  const Shared& s = *e.shared;
  d(s.info.toInteger("line"));
  d(s.info.toDouble("x"));
  d(std::string(s.info.asCString("text")));
  d(s.info.found(s.info.search("none")));
  const il::Info info{s.info};
  d(info.toInteger("line"));
  d(s.deque.size());
  d(s.deque.front());
  d(s.deque.back());
  d(s.tree.value(s.leaf));
  d(s.tree.depth());
  d(s.tree.hasChild(s.tree.root(), 0));
  d(s.tree.hasChild(s.leaf));
  d(s.tree.isEmpty(s.leaf));
  d(s.tree.value(s.tree.child(s.tree.root(), 0)));
  d(s.info.isEmpty());
  d(s.info.isDouble(s.info.search("x")));
  d(s.info.toDouble(s.info.search("x")));
  d(s.info.isString(s.info.search("text")));
  d(s.tree.children(s.tree.root()).size());
  const il::Tree<double, 2> tree{s.tree};
  d(tree.value(tree.parent(s.leaf)));
}
}  // namespace thr
#endif

#if PBT_IN(0)
namespace pbt {
const char* rule =
    "2 to 4 threads, each running a program of 1 to 5 operations drawn from 1 to 4 kinds of operations of all the parts "
    "of the library, in a new process for each case. Non-trivial: an operation of the same kind is in the programs of "
    "two threads";
}
namespace thr {
struct Init {
  Init() {
    pbt::quick_cases = 14000;
    pbt::thorough_cases = 120000;
    pbt::check_leaks = false;
  }
} init;

struct Step {
  std::size_t op;
  u64 seed;
};

Digest runStep(const Step& st, const Env& e) {
  Rng r{st.seed * 7919 + 17};
  Digest d{};
  d.rounded = ops()[st.op].rounded;
  ops()[st.op].fn(r, e, d);
  return d;
}
bool same(const Digest& a, const Digest& b) {
  if (a.h != b.h || a.near.size() != b.near.size()) return false;
  for (std::size_t i = 0; i < a.near.size(); ++i)
    if (!(std::fabs(a.near[i] - b.near[i]) <= 1.0e-6 * (1.0 + std::fabs(a.near[i])))) return false;
  return true;
}

// In the child: 0, or the reason
int child(const std::vector<std::vector<Step>>& program, bool shared, u64 seed, const std::string& dir) {
  itimerval t{};
  t.it_value.tv_sec = 60;
  setitimer(ITIMER_PROF, &t, nullptr);
  alarm(100);
  const std::size_t n = program.size();
  Shared* sh = shared ? new Shared(Rng{seed + 99}, dir) : nullptr;
  std::vector<std::vector<Digest>> got(n);
  std::atomic<std::size_t> ready{0};
  std::vector<std::thread> threads;
  for (std::size_t k = 0; k < n; ++k) {
    threads.emplace_back([&, k] {
      const Env e{dir + "/t" + std::to_string(k), sh};
      got[k].reserve(8);
      ++ready;
      while (ready.load() < n) std::this_thread::yield();
      for (const Step& st : program[k]) got[k].push_back(runStep(st, e));
    });
  }
  for (auto& th : threads) th.join();
  for (std::size_t k = 0; k < n; ++k) {
    const Env e{dir + "/t" + std::to_string(k), sh};
    for (std::size_t i = 0; i < program[k].size(); ++i)
      if (!same(runStep(program[k][i], e), got[k][i])) {
        std::fprintf(stderr, "step %zu of thread %zu gives another result on its own\n", i, k);
        return 20;
      }
  }
  return 0;
}

std::string g_dir;
void concurrent(pbt::Src& s, pbt::Ctx& c, bool shared) {
  std::vector<std::size_t> kinds;
  for (std::size_t i = 0; i < ops().size(); ++i)
    if (ops()[i].shared == shared) kinds.push_back(i);
  const il::int_t nb_kinds = 1 + s.range(0, 3);
  std::vector<std::size_t> pool;
  for (il::int_t k = 0; k < nb_kinds; ++k) pool.push_back(s.pick(kinds));
  const std::size_t n = static_cast<std::size_t>(2 + s.weighted({3, 2, 1}));
  const u64 seed = shared ? s.draw(100000) : 0;
  LOG(n << " threads" << (shared ? " reading the same objects, seed " : "") << (shared ? std::to_string(seed) : ""));
  std::vector<std::vector<Step>> program(n);
  std::vector<int> used(ops().size(), 0);
  for (std::size_t k = 0; k < n; ++k) {
    std::vector<char> mine(ops().size(), 0);
    const il::int_t len = s.range(1, 5);
    for (il::int_t i = 0; i < len; ++i) {
      const Step st{s.pick(pool), s.draw(100000)};
      program[k].push_back(st);
      LOG("thread " << k << ": " << ops()[st.op].name << " " << st.seed);
      if (!mine[st.op]) ++used[st.op];
      mine[st.op] = 1;
    }
  }
  for (std::size_t i = 0; i < used.size(); ++i) {
    if (used[i] >= 2) {
      c.nontrivial = true;
      c.tag(ops()[i].name);
    }
  }
  if (g_dir.empty()) {
    g_dir = c.scratch + "/threads";
    mkdir(g_dir.c_str(), 0700);
    for (int k = 0; k < 4; ++k) mkdir((g_dir + "/t" + std::to_string(k)).c_str(), 0700);
  }
  const pid_t p = fork();
  if (p < 0) throw pbt::Discard{};
  if (p == 0) {
    int code = 21;
    try {
      code = child(program, shared, seed, g_dir);
    } catch (...) {
      code = 22;
      std::fprintf(stderr, "an operation was refused\n");
    }
    _exit(code);
  }
  int st = 0;
  if (waitpid(p, &st, 0) != p) throw pbt::Discard{};
  if (WIFSIGNALED(st)) {
    // The time limits settle nothing
    if (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM) throw pbt::Discard{};
    c.fail("the threads end with signal " + std::to_string(WTERMSIG(st)));
  }
  const int code = WEXITSTATUS(st);
  REQUIRE(code != 66, "there is a data race");
  REQUIRE(code != 20, "an operation does not give the same result when the other threads run");
  REQUIRE(code == 0, "exit code " << code);
}
}  // namespace thr

PROPERTY(own_objects, 4) { thr::concurrent(s, c, false); }
PROPERTY(shared_constants, 3) { thr::concurrent(s, c, true); }
#endif
