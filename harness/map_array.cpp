// C09: il::MapArray against a vector of pairs, il::Set against std::set.
#include <algorithm>
#include <memory>
#include <set>

#include <il/MapArray.h>
#include <il/Set.h>
#include <il/String.h>

#include "common.h"

using vt::El;
using vt::Tracked;

namespace pbt {
#if PBT_IN(0)
const char* rule =
    "a history of 1 to 60 public operations over 3 containers (MapArray or Set) "
    "of one key and value type is drawn and run against a vector of pairs or "
    "std::set; keys from a pool of up to 60. Non-trivial: a key already there "
    "was set or added again, or the table grew while holding elements, or a "
    "container with elements was copied or moved. 1 case out of 12 has up to "
    "320 keys, and now and then 10000";
#endif
}
namespace {
#if PBT_IN(0)
struct Init {
  Init() {
    pbt::quick_cases = 260000;
    pbt::thorough_cases = 6000000;
  }
} init;
#endif

template <typename K>
struct Key;
template <>
struct Key<int> {
  using Model = int;
  static Model model(pbt::Src& s) {
    switch (s.weighted({6, 2, 2, 1})) {
      case 0: return static_cast<int>(s.range(0, 40));
      case 1: return static_cast<int>(s.range(-10, 40)) * 65536;
      case 2: return static_cast<int>(-s.range(0, 40));
      default: {
        const int v = s.i32();
        return v <= std::numeric_limits<int>::min() + 1 ? 5 : v;
      }
    }
  }
  static int make(Model m) { return m; }
  static Model get(const int& k) { return k; }
};
template <>
struct Key<il::String> {
  using Model = std::string;
  static Model model(pbt::Src& s) {
    switch (s.weighted({6, 3, 1})) {
      case 0: return "k" + std::to_string(s.range(0, 40));
      case 1: return "a key which is too long to be held inline " + std::to_string(s.range(0, 20));
      default: return s.bytes(4, "ab");
    }
  }
  static il::String make(const Model& m) {
    return il::String{il::StringType::Utf8, m.data(), static_cast<il::int_t>(m.size())};
  }
  static Model get(const il::String& k) { return std::string(k.data(), static_cast<std::size_t>(k.size())); }
};
struct Track {
  Tracked t;
  Track(long v) : t(v) {}
};
struct FewHashes {
  static bool isEmpty(const Track& k) { return reinterpret_cast<const std::uint64_t*>(&k)[1] == 1; }
  static bool isTombstone(const Track& k) { return reinterpret_cast<const std::uint64_t*>(&k)[1] == 2; }
  static void constructEmpty(il::io_t, Track* k) { reinterpret_cast<std::uint64_t*>(k)[1] = 1; }
  static void constructTombstone(il::io_t, Track* k) { reinterpret_cast<std::uint64_t*>(k)[1] = 2; }
  static std::size_t hash(const Track& k, int p) {
    const std::size_t h = static_cast<std::size_t>(k.t.get());
    return (h % 5) & ((static_cast<std::size_t>(1) << p) - 1);
  }
  static bool isEqual(const Track& a, const Track& b) { return a.t.get() == b.t.get(); }
};
template <>
struct Key<Track> {
  using Model = long;
  static Model model(pbt::Src& s) { return s.range(0, 40); }
  static Track make(Model m) { return Track(m); }
  static Model get(const Track& k) { return k.t.get(); }
};

////////////////////////////////////////////////////////////////////////////////

template <typename K, typename V, typename F>
struct Slot {
  il::MapArray<K, V, F> a;
  std::vector<std::pair<typename Key<K>::Model, long>> m;
  long at(const typename Key<K>::Model& key) const {
    for (std::size_t i = 0; i < m.size(); ++i)
      if (m[i].first == key) return static_cast<long>(i);
    return -1;
  }
  void set(const typename Key<K>::Model& key, long v) {
    const long i = at(key);
    if (i >= 0)
      m[static_cast<std::size_t>(i)].second = v;
    else
      m.push_back({key, v});
  }
};

template <typename K, typename V, typename F>
void compare(pbt::Ctx& c, const Slot<K, V, F>& s, int k) {
  const il::MapArray<K, V, F>& a = s.a;
  const il::int_t n = static_cast<il::int_t>(s.m.size());
  REQUIRE(a.nbElements() == n && a.size() == n, "map " << k << ": " << a.nbElements() << " elements instead of " << n);
  REQUIRE(a.capacity() >= n, "map " << k << ": capacity " << a.capacity());
  std::size_t at = 0;
  for (il::spot_t i = a.spotBegin(); i != a.spotEnd(); i = a.next(i)) {
    REQUIRE(at < s.m.size(), "map " << k << ": the iteration visits more than " << n << " elements");
    REQUIRE(Key<K>::get(a.key(i)) == s.m[at].first,
            "map " << k << ": key " << at << " is " << Key<K>::get(a.key(i)) << " instead of " << s.m[at].first);
    REQUIRE(El<V>::get(a.value(i)) == s.m[at].second, "map " << k << ": value of " << s.m[at].first << " is "
                                                             << El<V>::get(a.value(i)) << " instead of " << s.m[at].second);
    ++at;
  }
  REQUIRE(at == s.m.size(), "map " << k << ": the iteration visits " << at << " elements out of " << n);
  for (const auto& kv : s.m) {
    const K key = Key<K>::make(kv.first);
    const il::spot_t i = a.search(key);
    REQUIRE(a.found(i), "map " << k << ": key " << kv.first << " not found");
    REQUIRE(Key<K>::get(a.key(i)) == kv.first, "map " << k << ": another key found for " << kv.first);
    REQUIRE(El<V>::get(a.value(i)) == kv.second, "map " << k << ": value found for " << kv.first << " is "
                                                        << El<V>::get(a.value(i)) << " instead of " << kv.second);
  }
  vt::trackedOk(c);
}

template <typename K>
struct Literals {
  template <typename S, typename V>
  static void run(pbt::Src&, pbt::Ctx&, S&, int, V) {}
};
template <>
struct Literals<il::String> {
  template <typename S, typename V>
  static void run(pbt::Src& s, pbt::Ctx& c, S& p, int k, V) {
    const bool insert = s.coin();
    LOG(k << ": searchCString(\"one\")" << (insert ? " after Set" : ""));
    if (insert) {
      p.a.Set(il::String{"one"}, El<V>::make(4));
      p.set("one", 4);
    }
    const il::spot_t i = p.a.searchCString("one");
    REQUIRE(p.a.found(i) == (p.at("one") >= 0), "searchCString(\"one\"): found is " << p.a.found(i));
    if (p.a.found(i)) REQUIRE(Key<il::String>::get(p.a.key(i)) == "one", "searchCString(\"one\"): another key");
  }
};

template <typename K, typename V, typename F>
void history(pbt::Src& s, pbt::Ctx& c) {
  using M = typename Key<K>::Model;
  using S = Slot<K, V, F>;
  vt::TrackedScope scope;
  {
    std::vector<std::unique_ptr<S>> pool;
    for (int i = 0; i < 3; ++i) pool.push_back(std::unique_ptr<S>(new S));
    std::vector<M> keys;
    const int nkeys = static_cast<int>(s.range(1, s.chance(1, 4) ? 60 : 14));
    for (int i = 0; i < nkeys; ++i) keys.push_back(Key<K>::model(s));
    const int nops = static_cast<int>(1 + s.size(59));
    for (int op = 0; op < nops; ++op) {
      const int k = static_cast<int>(s.weighted({6, 2, 1}));
      S& p = *pool[static_cast<std::size_t>(k)];
      il::MapArray<K, V, F>& a = p.a;
      const M& key = s.pick(keys);
      const long v = s.range(0, El<V>::values - 1);
      const bool there = p.at(key) >= 0;
      switch (s.weighted({6, 4, 4, 4, 8, 3, 3, 3, 3, 3, 2, 2, 2})) {
        case 0: {
          LOG(k << ": Set(" << key << ", " << v << ")");
          const K kk = Key<K>::make(key);
          const V x = El<V>::make(v);
          a.Set(kk, x);
          p.set(key, v);
          if (there) c.nontrivial = true;
        } break;
        case 1: {
          LOG(k << ": Set(" << key << ", move " << v << ")");
          const K kk = Key<K>::make(key);
          a.Set(kk, El<V>::make(v));
          p.set(key, v);
          if (there) c.nontrivial = true;
        } break;
        case 2: {
          LOG(k << ": Set(move " << key << ", " << v << ")");
          const V x = El<V>::make(v);
          a.Set(Key<K>::make(key), x);
          p.set(key, v);
          if (there) c.nontrivial = true;
        } break;
        case 3: {
          LOG(k << ": Set(move " << key << ", move " << v << ")");
          a.Set(Key<K>::make(key), El<V>::make(v));
          p.set(key, v);
          if (there) c.nontrivial = true;
        } break;
        case 4: {
          const K kk = Key<K>::make(key);
          il::spot_t i = a.search(kk);
          const int how = static_cast<int>(s.draw(4));
          LOG(k << ": search(" << key << ") then Set number " << how << " to " << v);
          REQUIRE(a.found(i) == there, "search(" << key << "): found is " << a.found(i));
          const V x = El<V>::make(v);
          if (there) {
            a.Value(i) = x;
          } else {
            switch (how) {
              case 0: a.Set(kk, x, il::io, i); break;
              case 1: a.Set(kk, El<V>::make(v), il::io, i); break;
              case 2: a.Set(Key<K>::make(key), x, il::io, i); break;
              default: a.Set(Key<K>::make(key), El<V>::make(v), il::io, i); break;
            }
            REQUIRE(a.found(i), "the spot given back by Set is not the one of an element");
            REQUIRE(Key<K>::get(a.key(i)) == key, "the spot given back by Set is the one of " << Key<K>::get(a.key(i)));
            REQUIRE(El<V>::get(a.value(i)) == v, "the spot given back by Set has value " << El<V>::get(a.value(i)));
          }
          p.set(key, v);
        } break;
        case 5: {
          const K kk = Key<K>::make(key);
          LOG(k << ": search(" << key << ")");
          REQUIRE(a.found(a.search(kk)) == there, "search(" << key << "): found is " << !there);
        } break;
        case 6: {
          const int k1 = static_cast<int>(s.draw(3));
          LOG(k << ": = " << k1);
          S& q = *pool[static_cast<std::size_t>(k1)];
          const il::MapArray<K, V, F>& src = q.a;
          a = src;
          auto m = q.m;
          p.m = m;
          if (!m.empty()) c.nontrivial = true;
        } break;
        case 7: {
          const int k1 = static_cast<int>(s.draw(3));
          LOG(k << ": = move " << k1);
          S& q = *pool[static_cast<std::size_t>(k1)];
          a = std::move(q.a);
          if (k1 == k) break;  // no effect
          p.m = q.m;
          if (s.coin()) {
            pool[static_cast<std::size_t>(k1)].reset(new S);
          } else {  // It is still a map
            q.m.clear();
            for (il::spot_t i = q.a.spotBegin(); i != q.a.spotEnd(); i = q.a.next(i))
              q.m.push_back({Key<K>::get(q.a.key(i)), El<V>::get(q.a.value(i))});
            compare(c, q, k1);
          }
          if (!p.m.empty()) c.nontrivial = true;
        } break;
        case 8: {
          const int k1 = static_cast<int>(s.draw(3));
          LOG(k << ": copy of " << k1);
          S& q = *pool[static_cast<std::size_t>(k1)];
          S x{il::MapArray<K, V, F>{q.a}, q.m};
          const K kk = Key<K>::make(key);
          x.a.Set(kk, El<V>::make(v));
          x.set(key, v);
          compare(c, q, k1);
          if (!q.m.empty()) c.nontrivial = true;
          S* y = new S{std::move(x.a), x.m};
          if (s.coin()) {  // What is left of it is still a map
            S z{std::move(x.a), {}};
            for (il::spot_t i = z.a.spotBegin(); i != z.a.spotEnd(); i = z.a.next(i))
              z.m.push_back({Key<K>::get(z.a.key(i)), El<V>::get(z.a.value(i))});
            z.a.Set(kk, El<V>::make(v));
            z.set(key, v);
            compare(c, z, -1);
          }
          pool[static_cast<std::size_t>(k)].reset(y);
        } break;
        case 9: {
          if (p.m.empty()) break;
          const auto it = p.m[s.draw(p.m.size())];
          LOG(k << ": Set(" << key << ", value of " << it.first << ")");
          const K kk = Key<K>::make(key);
          const K ki = Key<K>::make(it.first);
          const V& ref = a.value(a.search(ki));
          a.Set(kk, ref);
          p.set(key, it.second);
        } break;
        case 10:
          Literals<K>::run(s, c, p, k, El<V>::make(0));
          break;
        case 11: {
          const il::int_t n = s.range(0, 20);
          LOG(k << ": MapArray(" << n << ")");
          pool[static_cast<std::size_t>(k)].reset(new S{il::MapArray<K, V, F>{n}, {}});
          REQUIRE(pool[static_cast<std::size_t>(k)]->a.capacity() >= n, "a capacity of " << pool[static_cast<std::size_t>(k)]->a.capacity() << " instead of at least " << n);
        } break;
        default: {
          LOG(k << ": MapArray(value, list)");
          const M k0 = keys[0];
          const M k1 = keys.back();
          S* q = new S{il::MapArray<K, V, F>{il::value,
                                             {il::KeyValue<K, V>(Key<K>::make(k0), El<V>::make(v)),
                                              il::KeyValue<K, V>(Key<K>::make(k1), El<V>::make(7))}},
                       {}};
          q->set(k0, v);
          q->set(k1, 7);
          pool[static_cast<std::size_t>(k)].reset(q);
        } break;
      }
      compare(c, *pool[static_cast<std::size_t>(k)], k);
    }
    for (int k = 0; k < 3; ++k) compare(c, *pool[static_cast<std::size_t>(k)], k);
    if (nkeys > 14) c.tag("many keys");
  }
  scope.finish(c);
}

////////////////////////////////////////////////////////////////////////////////

template <typename K, typename F>
struct SetSlot {
  il::Set<K, F> a;
  std::set<typename Key<K>::Model> m;
};

template <typename K, typename F>
void compareSet(pbt::Ctx& c, const SetSlot<K, F>& s, int k) {
  using M = typename Key<K>::Model;
  const il::Set<K, F>& a = s.a;
  const il::int_t n = static_cast<il::int_t>(s.m.size());
  REQUIRE(a.nbElements() == n, "set " << k << ": " << a.nbElements() << " elements instead of " << n);
  std::set<M> seen;
  for (il::spot_t i = a.spotBegin(); i != a.spotEnd(); i = a.next(i)) {
    const M x = Key<K>::get(a.element(i));
    REQUIRE(seen.insert(x).second, "set " << k << ": " << x << " visited twice");
    REQUIRE(s.m.count(x) == 1, "set " << k << ": " << x << " visited, it should not be there");
  }
  REQUIRE(seen.size() == s.m.size(), "set " << k << ": the iteration visits " << seen.size() << " elements out of " << n);
  for (const M& x : s.m) {
    const K e = Key<K>::make(x);
    REQUIRE(a.contains(e), "set " << k << ": does not contain " << x);
    REQUIRE(a.found(a.search(e)), "set " << k << ": " << x << " not found");
    REQUIRE(Key<K>::get(a.element(a.search(e))) == x, "set " << k << ": another element found for " << x);
  }
  vt::trackedOk(c);
}

template <typename K, typename F>
void setHistory(pbt::Src& s, pbt::Ctx& c) {
  using M = typename Key<K>::Model;
  using S = SetSlot<K, F>;
  vt::TrackedScope scope;
  {
    std::vector<std::unique_ptr<S>> pool;
    for (int i = 0; i < 3; ++i) pool.push_back(std::unique_ptr<S>(new S));
    std::vector<M> keys;
    const int nkeys = static_cast<int>(s.range(1, s.chance(1, 4) ? 60 : 14));
    for (int i = 0; i < nkeys; ++i) keys.push_back(Key<K>::model(s));
    const int nops = static_cast<int>(1 + s.size(59));
    for (int op = 0; op < nops; ++op) {
      const int k = static_cast<int>(s.weighted({6, 2, 1}));
      S& p = *pool[static_cast<std::size_t>(k)];
      il::Set<K, F>& a = p.a;
      const M& key = s.pick(keys);
      const bool there = p.m.count(key) > 0;
      const K kk = Key<K>::make(key);
      switch (s.weighted({10, 8, 3, 1, 3, 3, 3})) {
        case 0:
          LOG(k << ": Add(" << key << ")");
          a.Add(kk);
          p.m.insert(key);
          if (there) c.nontrivial = true;
          break;
        case 1: {
          LOG(k << ": search(" << key << ") then Add");
          il::spot_t i = a.search(kk);
          REQUIRE(a.found(i) == there, "search(" << key << "): found is " << a.found(i));
          if (!there) {
            a.Add(kk, il::io, i);
            REQUIRE(a.found(i) && Key<K>::get(a.element(i)) == key, "the spot given back by Add");
            p.m.insert(key);
          }
        } break;
        case 2:
          LOG(k << ": contains(" << key << ")");
          REQUIRE(a.contains(kk) == there, "contains(" << key << ") is " << !there);
          break;
        case 3:
          LOG(k << ": Clear()");
          if (!p.m.empty()) c.nontrivial = true;
          a.Clear();
          p.m.clear();
          break;
        case 4: {
          const int k1 = static_cast<int>(s.draw(3));
          LOG(k << ": = " << k1);
          S& q = *pool[static_cast<std::size_t>(k1)];
          const il::Set<K, F>& src = q.a;
          a = src;
          p.m = std::set<M>(q.m);
          if (!p.m.empty()) c.nontrivial = true;
        } break;
        case 5: {
          const int k1 = static_cast<int>(s.draw(3));
          LOG(k << ": = move " << k1);
          S& q = *pool[static_cast<std::size_t>(k1)];
          a = std::move(q.a);
          if (k1 == k) break;  // no effect
          p.m = q.m;
          q.m.clear();
          if (s.coin()) {
            q.a.Clear();
          } else {  // It is still a set
            for (il::spot_t i = q.a.spotBegin(); i != q.a.spotEnd(); i = q.a.next(i)) q.m.insert(Key<K>::get(q.a.element(i)));
            compareSet(c, q, k1);
          }
        } break;
        default: {
          const int k1 = static_cast<int>(s.draw(3));
          LOG(k << ": copy of " << k1 << " with " << key);
          S& q = *pool[static_cast<std::size_t>(k1)];
          il::Set<K, F> x{q.a};
          std::set<M> xm = q.m;
          x.Add(kk);
          xm.insert(key);
          compareSet(c, q, k1);
          if (!q.m.empty()) c.nontrivial = true;
          S* y = new S{std::move(x), xm};
          if (s.coin()) {  // What is left of it is still a set
            S z{std::move(x), {}};
            for (il::spot_t i = z.a.spotBegin(); i != z.a.spotEnd(); i = z.a.next(i)) z.m.insert(Key<K>::get(z.a.element(i)));
            z.a.Add(kk);
            z.m.insert(key);
            compareSet(c, z, -1);
          }
          pool[static_cast<std::size_t>(k)].reset(y);
        } break;
      }
      compareSet(c, *pool[static_cast<std::size_t>(k)], k);
    }
    for (int k = 0; k < 3; ++k) compareSet(c, *pool[static_cast<std::size_t>(k)], k);
    if (nkeys > 14) c.tag("many keys");
  }
  scope.finish(c);
}

// Many keys: growth beyond what a history reaches
template <typename K>
struct Nth;
template <>
struct Nth<int> {
  static int at(long i, long salt) { return static_cast<int>(salt == 0 ? i : salt == 1 ? -i : salt == 2 ? i * 1024 : i * 65537); }
};
template <>
struct Nth<il::String> {
  static std::string at(long i, long salt) {
    return salt < 2 ? std::to_string(i) : std::string(salt == 2 ? 12 : 40, 'k') + std::to_string(i);
  }
};
template <>
struct Nth<Track> {
  static long at(long i, long) { return i; }
};
template <typename K>
long mostKeys() { return 2500; }
template <>
long mostKeys<Track>() { return 150; }

// The different ways of setting a value
template <typename A, typename M, typename K, typename V>
void setAs(A& a, const M& key, long v, int how) {
  const K k = Key<K>::make(key);
  const V x = El<V>::make(v);
  switch (how) {
    case 0: a.Set(k, x); break;
    case 1: a.Set(k, El<V>::make(v)); break;
    case 2: a.Set(Key<K>::make(key), x); break;
    default: a.Set(Key<K>::make(key), El<V>::make(v)); break;
  }
}
template <typename A, typename M, typename K, typename V>
void setAtAs(A& a, const M& key, long v, il::spot_t& at, int how) {
  const K k = Key<K>::make(key);
  const V x = El<V>::make(v);
  switch (how) {
    case 0: a.Set(k, x, il::io, at); break;
    case 1: a.Set(k, El<V>::make(v), il::io, at); break;
    case 2: a.Set(Key<K>::make(key), x, il::io, at); break;
    default: a.Set(Key<K>::make(key), El<V>::make(v), il::io, at); break;
  }
}

template <typename K, typename V, typename F>
void large(pbt::Src& s, pbt::Ctx& c) {
  vt::TrackedScope scope;
  {
    Slot<K, V, F> p;
    const long salt = s.range(0, 3);
    const long most = s.chance(1, 40) ? mostKeys<K>() : 80;
    const int phases = static_cast<int>(s.range(1, 4));
    long next = 0;
    for (int phase = 0; phase < phases; ++phase) {
      switch (s.weighted({5, 2, 1})) {
        case 0: {
          const long n = s.range(1, most);
          LOG("insert the keys " << next << " to " << next + n - 1);
          const int how = static_cast<int>(s.draw(4));
          for (long i = 0; i < n; ++i) {
            const auto key = Nth<K>::at(next + i, salt);
            const long v = (next + i) % El<V>::values;
            if (i % 2) {
              const K kk = Key<K>::make(key);
              il::spot_t at = p.a.search(kk);
              REQUIRE(!p.a.found(at), "the key " << key << " is found before it is inserted");
              setAtAs<il::MapArray<K, V, F>, typename std::decay<decltype(key)>::type, K, V>(p.a, key, v, at, how);
              REQUIRE(p.a.found(at) && Key<K>::get(p.a.key(at)) == key, "the spot given back for the key " << key);
            } else {
              setAs<il::MapArray<K, V, F>, typename std::decay<decltype(key)>::type, K, V>(p.a, key, v, how);
            }
            p.m.push_back({key, v});
          }
          next += n;
        } break;
        case 1: {
          LOG("set keys again");
          const int how = static_cast<int>(s.draw(4));
          const long step = s.range(1, 5);
          for (std::size_t i = 0; i < p.m.size(); i += static_cast<std::size_t>(step)) {
            const long v = static_cast<long>(i + 3) % El<V>::values;
            setAs<il::MapArray<K, V, F>, typename Key<K>::Model, K, V>(p.a, p.m[i].first, v, how);
            p.m[i].second = v;
          }
          c.nontrivial = true;
        } break;
        default: {
          LOG("copy");
          il::MapArray<K, V, F> x{p.a};
          if (s.coin()) {
            p.a = x;
          } else {
            p.a = std::move(x);
          }
        }
      }
      compare(c, p, 0);
    }
    if (next > 50) c.nontrivial = true;
    if (next > 150) c.tag("more than 150 keys");
    for (long i = next; i < next + 20; ++i) REQUIRE(!p.a.found(p.a.search(Key<K>::make(Nth<K>::at(i, salt)))), "a key which is not there is found");
  }
  scope.finish(c);
}

template <typename K, typename F>
void largeSet(pbt::Src& s, pbt::Ctx& c) {
  vt::TrackedScope scope;
  {
    SetSlot<K, F> p;
    const long salt = s.range(0, 3);
    const long most = s.chance(1, 40) ? mostKeys<K>() : 80;
    const int phases = static_cast<int>(s.range(1, 4));
    long next = 0;
    for (int phase = 0; phase < phases; ++phase) {
      if (s.weighted({4, 1}) == 0) {
        const long n = s.range(1, most);
        const long back = s.range(0, std::min(next, 20l));
        LOG("add " << next - back << " to " << next + n - 1);
        for (long i = -back; i < n; ++i) {
          const auto key = Nth<K>::at(next + i, salt);
          p.a.Add(Key<K>::make(key));
          p.m.insert(key);
        }
        next += n;
      } else {
        LOG("copy");
        il::Set<K, F> x{p.a};
        if (s.coin()) {
          p.a = x;
        } else {
          p.a = std::move(x);
        }
      }
      compareSet(c, p, 0);
    }
    if (next > 50) c.nontrivial = true;
    if (next > 150) c.tag("more than 150 keys");
    for (long i = next; i < next + 20; ++i) REQUIRE(!p.a.contains(Key<K>::make(Nth<K>::at(i, salt))), "an element which is not there is found");
  }
  scope.finish(c);
}
}  // namespace

#if PBT_IN(0)
PROPERTY(int_int, 9) { history<int, int, il::HashFunction<int>>(s, c); }
PROPERTY(large_int_int, 1) { large<int, int, il::HashFunction<int>>(s, c); }
PROPERTY(set_int, 9) { setHistory<int, il::HashFunction<int>>(s, c); }
PROPERTY(large_set_int, 1) { largeSet<int, il::HashFunction<int>>(s, c); }
#endif
#if PBT_IN(1)
PROPERTY(int_tracked, 9) { history<int, Tracked, il::HashFunction<int>>(s, c); }
PROPERTY(set_string, 9) { setHistory<il::String, il::HashFunction<il::String>>(s, c); }
PROPERTY(large_set_string, 1) { largeSet<il::String, il::HashFunction<il::String>>(s, c); }
#endif
#if PBT_IN(2)
PROPERTY(string_string, 9) { history<il::String, std::string, il::HashFunction<il::String>>(s, c); }
PROPERTY(large_string_string, 1) { large<il::String, std::string, il::HashFunction<il::String>>(s, c); }
PROPERTY(set_tracked, 9) { setHistory<Track, FewHashes>(s, c); }
PROPERTY(large_set_tracked, 1) { largeSet<Track, FewHashes>(s, c); }
#endif
#if PBT_IN(3)
PROPERTY(tracked_tracked, 9) { history<Track, Tracked, FewHashes>(s, c); }
PROPERTY(large_tracked_tracked, 1) { large<Track, Tracked, FewHashes>(s, c); }
#endif
