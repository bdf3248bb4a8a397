// C08: il::Map against std::map, over histories of insertions and erasures.
#include <map>
#include <memory>
#include <set>

#include <il/Map.h>
#include <il/String.h>

#include "common.h"

using vt::El;
using vt::Tracked;

namespace pbt {
#if PBT_IN(0)
const char* rule =
    "a history of 1 to 80 public operations over 3 maps of one key and value "
    "type is drawn and run against std::map; keys from a pool of up to 60 "
    "which includes keys that collide in the small tables. Non-trivial: a key "
    "was erased and the map was searched, grown or copied afterwards, or an "
    "insertion was made with several keys in a map with tombstones. 1 case out "
    "of 16 has up to 400 keys, and now and then 12000";
#endif
}
namespace {
#if PBT_IN(0)
struct Init {
  Init() {
    pbt::quick_cases = 220000;
    pbt::thorough_cases = 6000000;
  }
} init;
#endif

// Keys: how the k-th key of the pool is made
template <typename K>
struct Key;
template <>
struct Key<int> {
  using Model = int;
  static Model model(pbt::Src& s) {
    switch (s.weighted({6, 2, 2, 1})) {
      case 0: return static_cast<int>(s.range(0, 40));
      case 1: return static_cast<int>(s.range(-10, 40)) * 65536;
      case 2: return static_cast<int>(-s.range(0, 40));
      default: {
        const int v = s.i32();
        return v <= std::numeric_limits<int>::min() + 1 ? 5 : v;
      }
    }
  }
  static int make(Model m) { return m; }
  static bool same(const int& k, Model m) { return k == m; }
  static Model get(const int& k) { return k; }
  static const char* name() { return "int"; }
};
template <>
struct Key<long> {
  using Model = long;
  static Model model(pbt::Src& s) {
    switch (s.weighted({6, 2, 2, 1})) {
      case 0: return s.range(0, 40);
      case 1: return s.range(-10, 40) * (1L << 32);
      case 2: return -s.range(0, 40);
      default: {
        const long v = s.i64();
        return v <= std::numeric_limits<long>::min() + 1 ? 5 : v;
      }
    }
  }
  static long make(Model m) { return m; }
  static Model get(const long& k) { return k; }
  static const char* name() { return "long"; }
};
template <>
struct Key<il::String> {
  using Model = std::string;
  static Model model(pbt::Src& s) {
    switch (s.weighted({6, 3, 1, 1, 2})) {
      case 4: return s.pick(std::vector<std::string>{"one", "two", "a literal which is longer than the rest"});
      case 0: return "k" + std::to_string(s.range(0, 40));
      case 1: return "a key which is too long to be held inline " + std::to_string(s.range(0, 20));
      case 2: return s.bytes(4, "ab");
      default: return std::string(static_cast<std::size_t>(s.range(19, 34)), static_cast<char>('a' + s.range(0, 2)));
    }
  }
  static il::String make(const Model& m) {
    return il::String{il::StringType::Utf8, m.data(), static_cast<il::int_t>(m.size())};
  }
  static Model get(const il::String& k) { return std::string(k.data(), static_cast<std::size_t>(k.size())); }
  static const char* name() { return "String"; }
};

// A key type whose hash has few values, and whose lifetime is followed
struct Track {
  Tracked t;
  Track(long v) : t(v) {}
};
struct FewHashes {
  static bool isEmpty(const Track& k) { return reinterpret_cast<const std::uint64_t*>(&k)[1] == 1; }
  static bool isTombstone(const Track& k) { return reinterpret_cast<const std::uint64_t*>(&k)[1] == 2; }
  static void constructEmpty(il::io_t, Track* k) { reinterpret_cast<std::uint64_t*>(k)[1] = 1; }
  static void constructTombstone(il::io_t, Track* k) { reinterpret_cast<std::uint64_t*>(k)[1] = 2; }
  static std::size_t hash(const Track& k, int p) {
    const std::size_t h = static_cast<std::size_t>(k.t.get());
    return (h % 5) & ((static_cast<std::size_t>(1) << p) - 1);
  }
  static bool isEqual(const Track& a, const Track& b) { return a.t.get() == b.t.get(); }
};
template <>
struct Key<Track> {
  using Model = long;
  static Model model(pbt::Src& s) { return s.range(0, 40); }
  static Track make(Model m) { return Track(m); }
  static Model get(const Track& k) { return k.t.get(); }
  static const char* name() { return "Tracked"; }
};

template <typename K, typename V, typename F>
struct Slot {
  il::Map<K, V, F> a;
  std::map<typename Key<K>::Model, long> m;
};

template <typename K, typename V, typename F>
void compare(pbt::Ctx& c, Slot<K, V, F>& s, int k) {
  using M = typename Key<K>::Model;
  const il::Map<K, V, F>& a = s.a;
  const il::int_t n = static_cast<il::int_t>(s.m.size());
  REQUIRE(a.nbElements() == n, "map " << k << ": " << a.nbElements() << " elements instead of " << n);
  REQUIRE(a.isEmpty() == (n == 0), "map " << k << ": isEmpty with " << n << " elements");
  REQUIRE(a.nbTombstones() >= 0 && a.nbElements() + a.nbTombstones() <= a.nbBuckets(),
          "map " << k << ": " << n << " elements and " << a.nbTombstones() << " tombstones in " << a.nbBuckets() << " buckets");
  // Iteration
  std::set<M> seen;
  il::int_t steps = 0;
  for (il::spot_t i = a.spotBegin(); i != a.spotEnd(); i = a.next(i)) {
    REQUIRE(++steps <= n, "map " << k << ": the iteration visits more than " << n << " elements");
    const M key = Key<K>::get(a.key(i));
    REQUIRE(seen.insert(key).second, "map " << k << ": key " << key << " visited twice");
    const auto it = s.m.find(key);
    REQUIRE(it != s.m.end(), "map " << k << ": key " << key << " visited, it should not be there");
    const long got = El<V>::get(a.value(i));
    REQUIRE(got == it->second, "map " << k << ": value of " << key << " is " << got << " instead of " << it->second);
  }
  REQUIRE(steps == n, "map " << k << ": the iteration visits " << steps << " elements out of " << n);
  // Search
  for (const auto& kv : s.m) {
    const K key = Key<K>::make(kv.first);
    const il::spot_t i = a.search(key);
    REQUIRE(a.found(i), "map " << k << ": key " << kv.first << " not found");
    REQUIRE(Key<K>::get(a.key(i)) == kv.first, "map " << k << ": another key found for " << kv.first);
    REQUIRE(El<V>::get(a.value(i)) == kv.second,
            "map " << k << ": value of " << kv.first << " is " << El<V>::get(a.value(i)) << " instead of " << kv.second);
  }
  vt::trackedOk(c);
}

template <typename K>
struct Strings {
  template <typename A, typename M>
  static bool run(pbt::Src&, pbt::Ctx&, A&, M&, int) { return false; }
};
template <>
struct Strings<il::String> {
  // Operations with keys given as C strings
  template <typename S, typename V>
  static void set(pbt::Src& s, pbt::Ctx& c, S& p, int k, V) {
    using Val = V;
    auto& a = p.a;
    const long v = s.range(0, El<Val>::values - 1);
    switch (s.draw(6)) {
      case 0: {
        LOG(k << ": SetCString(\"one\", " << v << ")");
        const Val x = El<Val>::make(v);
        a.SetCString("one", x);
        p.m["one"] = v;
      } break;
      case 1: {
        LOG(k << ": SetCString(\"a literal which is longer than the rest\", move " << v << ")");
        a.SetCString("a literal which is longer than the rest", El<Val>::make(v));
        p.m["a literal which is longer than the rest"] = v;
      } break;
      case 2: {
        const std::string key = Key<il::String>::model(s);
        LOG(k << ": searchCString(" << key << ", n), SetCString " << v);
        il::spot_t i = a.searchCString(key.data(), static_cast<il::int_t>(key.size()));
        const bool there = p.m.count(key) > 0;
        REQUIRE(a.found(i) == there, "searchCString(" << key << ", n): found is " << a.found(i));
        if (there) {
          REQUIRE(El<Val>::get(a.value(i)) == p.m[key], "searchCString(" << key << ", n): another value");
          a.Value(i) = El<Val>::make(v);
        } else {
          const Val x = El<Val>::make(v);
          a.SetCString(key.data(), static_cast<il::int_t>(key.size()), x, il::io, i);
          REQUIRE(Key<il::String>::get(a.key(i)) == key, "spot after SetCString");
        }
        p.m[key] = v;
      } break;
      case 3: {
        il::spot_t i = a.searchCString("two");
        const bool there = p.m.count("two") > 0;
        LOG(k << ": searchCString(\"two\"), SetCString " << v);
        REQUIRE(a.found(i) == there, "searchCString(\"two\"): found is " << a.found(i));
        const Val x = El<Val>::make(v);
        if (!there) {
          a.SetCString("two", x, il::io, i);
          REQUIRE(Key<il::String>::get(a.key(i)) == "two", "spot after SetCString");
          p.m["two"] = v;
        } else {
          REQUIRE(El<Val>::get(a.value(i)) == p.m["two"], "searchCString(\"two\"): another value");
        }
      } break;
      case 4: {
        const bool there = p.m.count("one") > 0;
        LOG(k << ": valueForCString(\"one\", default)");
        const Val d = El<Val>::make(12);
        REQUIRE(El<Val>::get(a.valueForCString("one", d)) == (there ? p.m["one"] : 12), "valueForCString(\"one\", default)");
      } break;
      default: {
        const bool there = p.m.count("two") > 0;
        LOG(k << ": valueForCString(\"two\")");
        const Val got = a.valueForCString("two");
        if (there) REQUIRE(El<Val>::get(got) == p.m["two"], "valueForCString(\"two\")");
      } break;
    }
  }
};
template <typename K>
struct HasStrings {
  template <typename S, typename V>
  static void set(pbt::Src&, pbt::Ctx&, S&, int, V) {}
};
template <>
struct HasStrings<il::String> : Strings<il::String> {};

template <typename K, typename V, typename F>
void history(pbt::Src& s, pbt::Ctx& c) {
  using M = typename Key<K>::Model;
  vt::TrackedScope scope;
  {
    std::vector<std::unique_ptr<Slot<K, V, F>>> pool;
    for (int i = 0; i < 3; ++i) pool.push_back(std::unique_ptr<Slot<K, V, F>>(new Slot<K, V, F>));
    std::vector<M> keys;
    const int nkeys = static_cast<int>(s.range(1, s.chance(1, 4) ? 60 : 14));
    for (int i = 0; i < nkeys; ++i) keys.push_back(Key<K>::model(s));
    const int nops = static_cast<int>(1 + s.size(79));
    bool erased[3] = {false, false, false};
    for (int op = 0; op < nops; ++op) {
      const int k = static_cast<int>(s.weighted({6, 2, 1}));
      Slot<K, V, F>& p = *pool[static_cast<std::size_t>(k)];
      il::Map<K, V, F>& a = p.a;
      const M& key = s.pick(keys);
      const long v = s.range(0, El<V>::values - 1);
      const bool there = p.m.count(key) > 0;
      if (erased[k]) c.nontrivial = true;
      switch (s.weighted({6, 4, 4, 4, 8, 14, 3, 2, 2, 2, 3, 3, 3, 1, 3, 2, 1})) {
        case 0: {
          LOG(k << ": Set(" << key << ", " << v << ")");
          const K kk = Key<K>::make(key);
          const V x = El<V>::make(v);
          a.Set(kk, x);
          p.m[key] = v;
        } break;
        case 1: {
          LOG(k << ": Set(" << key << ", move " << v << ")");
          const K kk = Key<K>::make(key);
          a.Set(kk, El<V>::make(v));
          p.m[key] = v;
        } break;
        case 2: {
          LOG(k << ": Set(move " << key << ", " << v << ")");
          const V x = El<V>::make(v);
          a.Set(Key<K>::make(key), x);
          REQUIRE(El<V>::get(x) == v, "Set(K&&, const V&) modified the value given");
          p.m[key] = v;
        } break;
        case 3: {
          LOG(k << ": Set(move " << key << ", move " << v << ")");
          a.Set(Key<K>::make(key), El<V>::make(v));
          p.m[key] = v;
        } break;
        case 4: {  // Search then insert
          const K kk = Key<K>::make(key);
          il::spot_t i = a.search(kk);
          const int how = static_cast<int>(s.draw(4));
          LOG(k << ": search(" << key << ") then Set number " << how << " to " << v);
          REQUIRE(a.found(i) == there, "search(" << key << "): found is " << a.found(i));
          const V x = El<V>::make(v);
          if (there) {
            a.Value(i) = x;
          } else {
            switch (how) {
              case 0: a.Set(kk, x, il::io, i); break;
              case 1: a.Set(kk, El<V>::make(v), il::io, i); break;
              case 2: a.Set(Key<K>::make(key), x, il::io, i); break;
              default: a.Set(Key<K>::make(key), El<V>::make(v), il::io, i); break;
            }
            REQUIRE(a.found(i), "the spot given back by Set is not the one of an element");
            REQUIRE(Key<K>::get(a.key(i)) == key, "the spot given back by Set is the one of " << Key<K>::get(a.key(i)));
            REQUIRE(El<V>::get(a.value(i)) == v, "the spot given back by Set has value " << El<V>::get(a.value(i)));
          }
          p.m[key] = v;
        } break;
        case 5: {
          LOG(k << ": erase(" << key << ")");
          const K kk = Key<K>::make(key);
          const il::spot_t i = a.search(kk);
          REQUIRE(a.found(i) == there, "search(" << key << "): found is " << a.found(i));
          if (there) {
            a.erase(i);
            p.m.erase(key);
            erased[k] = true;
            REQUIRE(!a.found(a.search(kk)), "key " << key << " is found after its erasure");
          }
        } break;
        case 6: {
          const K kk = Key<K>::make(key);
          const V d = El<V>::make(3);
          LOG(k << ": valueForKey(" << key << ")");
          REQUIRE(El<V>::get(a.valueForKey(kk, d)) == (there ? p.m[key] : 3), "valueForKey(" << key << ", default)");
          if (there || !vt::Unspecified<V>::value) {
            const V got = a.valueForKey(kk);
            if (there) REQUIRE(El<V>::get(got) == p.m[key], "valueForKey(" << key << ")");
          }
        } break;
        case 7: {
          LOG(k << ": Clear()");
          a.Clear();
          p.m.clear();
        } break;
        case 8: {
          const il::int_t r = s.chance(1, 3) ? s.range(0, 3) : s.range(0, 50);
          LOG(k << ": Reserve(" << r << ")");
          a.Reserve(r);
        } break;
        case 9: {
          LOG(k << ": Rehash()");
          a.Rehash();
        } break;
        case 10: {
          const int k1 = static_cast<int>(s.draw(3));
          LOG(k << ": = " << k1);
          Slot<K, V, F>& q = *pool[static_cast<std::size_t>(k1)];
          const il::Map<K, V, F>& src = q.a;
          a = src;
          p.m = std::map<M, long>(q.m);
        } break;
        case 11: {
          const int k1 = static_cast<int>(s.draw(3));
          LOG(k << ": = move " << k1);
          Slot<K, V, F>& q = *pool[static_cast<std::size_t>(k1)];
          a = std::move(q.a);
          if (k1 == k) break;  // no effect
          p.m = q.m;
          q.m.clear();
          if (s.coin()) {
            q.a.Clear();
          } else {  // It is still a map
            for (il::spot_t i = q.a.spotBegin(); i != q.a.spotEnd(); i = q.a.next(i))
              q.m[Key<K>::get(q.a.key(i))] = El<V>::get(q.a.value(i));
            compare(c, q, k1);
          }
          erased[k] = erased[k1];
        } break;
        case 12: {
          const int k1 = static_cast<int>(s.draw(3));
          LOG(k << ": copy of " << k1);
          Slot<K, V, F>& q = *pool[static_cast<std::size_t>(k1)];
          il::Map<K, V, F> x{q.a};
          std::map<M, long> xm = q.m;
          if (s.coin()) {
            const K kk = Key<K>::make(key);
            x.Set(kk, El<V>::make(v));
            xm[key] = v;
            if (s.coin()) {
              x.erase(x.search(kk));
              xm.erase(key);
            }
          }
          compare(c, q, k1);
          Slot<K, V, F>* y = new Slot<K, V, F>{std::move(x), xm};
          if (s.coin()) {  // What is left of it is still a map
            Slot<K, V, F> z{std::move(x), {}};
            for (il::spot_t i = z.a.spotBegin(); i != z.a.spotEnd(); i = z.a.next(i))
              z.m[Key<K>::get(z.a.key(i))] = El<V>::get(z.a.value(i));
            const K kk = Key<K>::make(key);
            z.a.Set(kk, El<V>::make(v));
            z.m[key] = v;
            compare(c, z, -1);
          }
          pool[static_cast<std::size_t>(k)].reset(y);
        } break;
        case 13: {
          const il::int_t n = s.range(0, 20);
          LOG(k << ": Map(" << n << ")");
          pool[static_cast<std::size_t>(k)].reset(new Slot<K, V, F>{il::Map<K, V, F>{n}, {}});
        } break;
        case 14: {  // With a value of the map itself
          if (p.m.empty()) break;
          auto it = p.m.begin();
          std::advance(it, static_cast<long>(s.draw(p.m.size())));
          LOG(k << ": Set(" << key << ", value of " << it->first << ")");
          const K kk = Key<K>::make(key);
          const K ki = Key<K>::make(it->first);
          const long val = it->second;
          const V& ref = a.value(a.search(ki));
          a.Set(kk, ref);
          p.m[key] = val;
        } break;
        case 15:
          HasStrings<K>::set(s, c, p, k, El<V>::make(0));
          break;
        default: {  // From a list, all different
          LOG(k << ": Map(value, list)");
          if (s.chance(1, 4)) {
            LOG(k << ": empty list");
            pool[static_cast<std::size_t>(k)].reset(
                new Slot<K, V, F>{il::Map<K, V, F>{il::value, std::initializer_list<il::KeyValue<K, V>>{}}, {}});
            break;
          }
          const M k0 = keys[0];
          const M k1 = keys.back();
          if (k0 == k1) {
            pool[static_cast<std::size_t>(k)].reset(
                new Slot<K, V, F>{il::Map<K, V, F>{il::value, {il::KeyValue<K, V>(Key<K>::make(k0), El<V>::make(v))}}, {{k0, v}}});
          } else {
            pool[static_cast<std::size_t>(k)].reset(
                new Slot<K, V, F>{il::Map<K, V, F>{il::value,
                                                   {il::KeyValue<K, V>(Key<K>::make(k0), El<V>::make(v)),
                                                    il::KeyValue<K, V>(Key<K>::make(k1), El<V>::make(7))}},
                                  {{k0, v}, {k1, 7}}});
          }
        } break;
      }
      compare(c, *pool[static_cast<std::size_t>(k)], k);
    }
    for (int k = 0; k < 3; ++k) compare(c, *pool[static_cast<std::size_t>(k)], k);
    if (c.nontrivial) c.tag("erasures");
    if (nkeys > 14) c.tag("many keys");
  }
  scope.finish(c);
}

// Many keys: growth, erasures and insertions beyond what a history reaches
template <typename K>
struct Nth;
template <>
struct Nth<int> {
  static int at(long i, long salt) { return static_cast<int>(salt == 0 ? i : salt == 1 ? -i : salt == 2 ? i * 1024 : i * 65537); }
};
template <>
struct Nth<long> {
  static long at(long i, long salt) { return salt == 0 ? i : salt == 1 ? -i : salt == 2 ? i * 1024 : i * ((1l << 32) + 1); }
};
template <>
struct Nth<il::String> {
  static std::string at(long i, long salt) {
    return salt < 2 ? std::to_string(i) : std::string(salt == 2 ? 12 : 40, 'k') + std::to_string(i);
  }
};
template <>
struct Nth<Track> {
  static long at(long i, long) { return i; }
};
template <typename K>
long mostKeys() { return 2500; }
template <>
long mostKeys<Track>() { return 150; }

// The different ways of setting a value
template <typename A, typename M, typename K, typename V>
void setAs(A& a, const M& key, long v, int how) {
  const K k = Key<K>::make(key);
  const V x = El<V>::make(v);
  switch (how) {
    case 0: a.Set(k, x); break;
    case 1: a.Set(k, El<V>::make(v)); break;
    case 2: a.Set(Key<K>::make(key), x); break;
    default: a.Set(Key<K>::make(key), El<V>::make(v)); break;
  }
}
template <typename A, typename M, typename K, typename V>
void setAtAs(A& a, const M& key, long v, il::spot_t& at, int how) {
  const K k = Key<K>::make(key);
  const V x = El<V>::make(v);
  switch (how) {
    case 0: a.Set(k, x, il::io, at); break;
    case 1: a.Set(k, El<V>::make(v), il::io, at); break;
    case 2: a.Set(Key<K>::make(key), x, il::io, at); break;
    default: a.Set(Key<K>::make(key), El<V>::make(v), il::io, at); break;
  }
}

template <typename K, typename V, typename F>
void large(pbt::Src& s, pbt::Ctx& c) {
  vt::TrackedScope scope;
  {
    Slot<K, V, F> p;
    const long salt = s.range(0, 3);
    const long most = s.chance(1, 40) ? mostKeys<K>() : 80;
    const int phases = static_cast<int>(s.range(1, 5));
    long next = 0;
    for (int phase = 0; phase < phases; ++phase) {
      switch (s.weighted({5, 3, 3, 2, 1, 2, 1})) {
        case 0: {
          const long n = s.range(1, most);
          LOG("insert the keys " << next << " to " << next + n - 1);
          const bool twice = s.chance(1, 3);
          const int how = static_cast<int>(s.draw(4));
          for (long i = 0; i < n; ++i) {
            const auto key = Nth<K>::at(next + i, salt);
            const long v = (next + i) % El<V>::values;
            if (twice) {
              const K kk = Key<K>::make(key);
              il::spot_t at = p.a.search(kk);
              REQUIRE(!p.a.found(at), "the key " << key << " is found before it is inserted");
              setAtAs<il::Map<K, V, F>, typename std::decay<decltype(key)>::type, K, V>(p.a, key, v, at, how);
              REQUIRE(p.a.found(at) && Key<K>::get(p.a.key(at)) == key, "the spot given back for the key " << key);
            } else {
              setAs<il::Map<K, V, F>, typename std::decay<decltype(key)>::type, K, V>(p.a, key, v, how);
            }
            p.m[key] = v;
          }
          next += n;
        } break;
        case 1: {
          const long step = s.range(1, 4), from = s.range(0, 3);
          LOG("erase one key out of " << step << " from the " << from << "th");
          long i = 0;
          for (auto it = p.m.begin(); it != p.m.end(); ++i) {
            if (i >= from && (i - from) % step == 0) {
              const il::spot_t at = p.a.search(Key<K>::make(it->first));
              REQUIRE(p.a.found(at), "the key " << it->first << " is not found");
              p.a.erase(at);
              it = p.m.erase(it);
            } else {
              ++it;
            }
          }
          c.nontrivial = true;
        } break;
        case 2: {  // few keys at a time, but many of them in the end
          const long n = s.range(1, most), window = s.range(1, 12);
          LOG("insert the keys " << next << " to " << next + n - 1 << ", each erased " << window << " keys later");
          for (long i = 0; i < n; ++i) {
            const auto key = Nth<K>::at(next + i, salt);
            p.a.Set(Key<K>::make(key), El<V>::make(i % El<V>::values));
            p.m[key] = i % El<V>::values;
            if (i >= window) {
              const auto old = Nth<K>::at(next + i - window, salt);
              const il::spot_t at = p.a.search(Key<K>::make(old));
              REQUIRE(p.a.found(at), "the key " << old << " is not found");
              p.a.erase(at);
              p.m.erase(old);
            }
          }
          next += n;
          c.nontrivial = true;
        } break;
        case 3: {
          LOG("copy");
          il::Map<K, V, F> x{p.a};
          if (s.coin()) {
            p.a = x;
          } else {
            p.a = std::move(x);
          }
        } break;
        case 5: {
          LOG("set keys again");
          const int how = static_cast<int>(s.draw(4));
          const long step = s.range(1, 5);
          long i = 0;
          for (auto& kv : p.m) {
            if (++i % step == 0) {
              const long v = (i + 3) % El<V>::values;
              setAs<il::Map<K, V, F>, typename Key<K>::Model, K, V>(p.a, kv.first, v, how);
              kv.second = v;
            }
          }
        } break;
        case 4: {
          LOG("rehash");
          p.a.Rehash();
        } break;
        default: {
          const il::int_t n = s.range(0, most);
          LOG("reserve " << n);
          p.a.Reserve(n);
        }
      }
      compare(c, p, 0);
    }
    if (next > 150) c.tag("more than 150 keys");
    // keys which are not there
    for (long i = next; i < next + 20; ++i) REQUIRE(!p.a.found(p.a.search(Key<K>::make(Nth<K>::at(i, salt)))), "a key which is not there is found");
  }
  scope.finish(c);
}
}  // namespace

#if PBT_IN(0)
PROPERTY(int_int, 9) { history<int, int, il::HashFunction<int>>(s, c); }
PROPERTY(large_int_int, 1) { large<int, int, il::HashFunction<int>>(s, c); }
#endif
#if PBT_IN(1)
PROPERTY(int_tracked, 9) { history<int, Tracked, il::HashFunction<int>>(s, c); }
#endif
#if PBT_IN(2)
PROPERTY(long_string, 6) { history<long, std::string, il::HashFunction<long>>(s, c); }
PROPERTY(large_long_string, 1) { large<long, std::string, il::HashFunction<long>>(s, c); }
#endif
#if PBT_IN(3)
PROPERTY(string_tracked, 12) { history<il::String, Tracked, il::HashFunction<il::String>>(s, c); }
PROPERTY(large_string_tracked, 1) { large<il::String, Tracked, il::HashFunction<il::String>>(s, c); }
#endif
#if PBT_IN(4)
PROPERTY(string_int, 9) { history<il::String, int, il::HashFunction<il::String>>(s, c); }
#endif
#if PBT_IN(5)
PROPERTY(tracked_tracked, 12) { history<Track, Tracked, FewHashes>(s, c); }
PROPERTY(large_tracked_tracked, 1) { large<Track, Tracked, FewHashes>(s, c); }
#endif
