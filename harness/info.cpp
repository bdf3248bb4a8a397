// C14: il::Info and il::Status against a map from keys to values.
#include <map>
#include <memory>

#include <il/Status.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "a history of 1 to 40 typed sets, lookups, copies, moves, assignments and "
    "clears over 3 il::Info, or of errors, information, checks and moves over 3 "
    "il::Status, is drawn. Keys come from a few families of prefixes of one "
    "another and random bytes. Non-trivial: a key was set again, or an object "
    "with more than 23 bytes was copied, moved or assigned";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 800000;
    pbt::thorough_cases = 40000000;
  }
} init;

struct Value {
  int kind;  // 0 integer, 1 double, 2 string, 3 bool
  std::int64_t i;
  double x;
  std::string t;
};
using Model = std::map<std::string, Value>;

std::string aKey(pbt::Src& s) {
  static const char* base[] = {"", "a", "ab", "abc", "abcd", "source_file", "source_line", "source", "line", "b"};
  switch (s.draw(4)) {
    case 0:
    case 1: return base[s.draw(10)];
    case 2: return s.bytes(5, "ab");
    default: {
      std::string t = s.bytes(s.chance(1, 60) ? 400 : 30);
      for (char& ch : t)
        if (ch == '\0') ch = 'z';
      return t;
    }
  }
}
std::string aText(pbt::Src& s) {
  if (s.chance(1, 2000)) {
    std::string t(static_cast<std::size_t>(s.range(20000, 140000)), 'x');
    for (int k = 0; k < 8; ++k) t[static_cast<std::size_t>(s.range(0, static_cast<std::int64_t>(t.size()) - 1))] = static_cast<char>('a' + k);
    return t;
  }
  std::string t = s.coin() ? s.bytes(6, "ab") : s.bytes(s.chance(1, 40) ? 3000 : 40);
  for (char& ch : t)
    if (ch == '\0') ch = 'z';
  return t;
}
Value aValue(pbt::Src& s) {
  Value v{static_cast<int>(s.draw(4)), 0, 0.0, ""};
  switch (v.kind) {
    case 0: v.i = s.i64(); break;
    case 1: v.x = s.finiteDouble(); break;
    case 2: v.t = aText(s); break;
    default: v.i = s.coin(); break;
  }
  return v;
}
std::string show(const Value& v) {
  switch (v.kind) {
    case 0: return std::to_string(v.i);
    case 1: return pbt::str(v.x);
    case 2: return pbt::quote(v.t);
    default: return v.i ? "true" : "false";
  }
}
std::size_t bytes(const Model& m) {
  std::size_t n = 0;
  for (const auto& e : m) n += e.first.size() + 6 + (e.second.kind == 2 ? e.second.t.size() + 1 : e.second.kind == 3 ? 1 : 8);
  return n;
}
bool isInt(std::int64_t i) { return i >= -2147483648LL && i <= 2147483647LL; }

void compare(pbt::Ctx& c, const il::Info& a, const Model& m, const std::string& where) {
  REQUIRE(a.isEmpty() == m.empty(), where << ": isEmpty " << a.isEmpty());
  for (const auto& e : m) {
    const char* k = e.first.c_str();
    const std::string w = where + "[" + pbt::quote(e.first) + "]";
    const Value& v = e.second;
    const il::int_t i = a.search(k);
    REQUIRE(a.found(i), w << " not found");
    REQUIRE(a.isInteger(i) == (v.kind == 0), w << " is" << (a.isInteger(i) ? "" : " not") << " an integer");
    REQUIRE(a.isDouble(i) == (v.kind == 1), w << " is" << (a.isDouble(i) ? "" : " not") << " a double");
    REQUIRE(a.isString(i) == (v.kind == 2), w << " is" << (a.isString(i) ? "" : " not") << " a string");
    REQUIRE(a.isBool(i) == (v.kind == 3), w << " is" << (a.isBool(i) ? "" : " not") << " a boolean");
    switch (v.kind) {
      case 0: REQUIRE(a.toInteger(i) == v.i && a.toInteger(k) == v.i, w << ": " << a.toInteger(i) << " instead of " << v.i); break;
      case 1: REQUIRE(a.toDouble(i) == v.x && a.toDouble(k) == v.x, w << ": " << a.toDouble(i) << " instead of " << v.x); break;
      case 2: REQUIRE(a.asCString(i) == v.t && a.asCString(k) == v.t, w << ": " << pbt::quote(a.asCString(i)) << " instead of " << pbt::quote(v.t)); break;
      default: REQUIRE(a.toBool(i) == (v.i != 0) && a.toBool(k) == (v.i != 0), w << ": " << a.toBool(i)); break;
    }
  }
}
void absent(pbt::Ctx& c, const il::Info& a, const Model& m, const std::string& k) {
  if (!m.count(k)) {
    REQUIRE(!a.found(a.search(k.c_str())), "key " << pbt::quote(k) << " found and never set");
  }
}

PROPERTY(info, 10) {
  std::vector<std::unique_ptr<il::Info>> a;
  std::vector<Model> m(3);
  for (int k = 0; k < 3; ++k) a.emplace_back(new il::Info{});
  const std::int64_t n = 1 + s.size(39);
  for (std::int64_t step = 0; step < n; ++step) {
    const std::size_t k = s.draw(3);
    const std::size_t l = s.draw(3);
    switch (s.weighted({10, 2, 2, 2, 2, 1, 2})) {
      case 0: {
        std::string key = aKey(s);
        Value v = aValue(s);
        const std::string text = v.t;
        const std::string own_key = key;
        const char* pk = own_key.c_str();
        const char* pv = text.c_str();
        if (s.chance(1, 5)) {  // a string which belongs to the object
          std::vector<std::string> strings;
          for (const auto& e : m[k])
            if (e.second.kind == 2) strings.push_back(e.first);
          if (!strings.empty()) {
            const std::string& from = strings[s.draw(strings.size())];
            const bool for_key = s.chance(1, 4);
            if (for_key) {
              key = m[k][from].t;
              pk = a[k]->asCString(from.c_str());
            }
            if (!for_key || s.coin()) {
              v = m[k][from];
              pv = a[k]->asCString(from.c_str());
              if (!for_key && s.chance(1, 3)) key = from, pk = key.c_str();
            }
            LOG("With what is at " << pbt::quote(from) << " as the " << (for_key ? "key" : "value") << " of");
          }
        }
        LOG(k << ".Set(" << pbt::quote(key) << ", " << show(v) << ")");
        if (m[k].count(key)) c.nontrivial = true;
        switch (v.kind) {
          case 0:
            if (isInt(v.i) && s.coin()) {
              a[k]->Set(pk, static_cast<int>(v.i));
            } else {
              a[k]->Set(pk, static_cast<il::int_t>(v.i));
            }
            break;
          case 1: a[k]->Set(pk, v.x); break;
          case 2: a[k]->Set(pk, pv); break;
          default: a[k]->Set(pk, v.i != 0); break;
        }
        m[k][key] = v;
        break;
      }
      case 1: {
        LOG(k << " = new copy of " << l);
        if (bytes(m[l]) > 23) c.nontrivial = true;
        std::unique_ptr<il::Info> x(new il::Info{*a[l]});
        a[k] = std::move(x);
        m[k] = Model(m[l]);
        break;
      }
      case 2: {
        LOG(k << " = copy of " << l);
        if (bytes(m[l]) > 23 || bytes(m[k]) > 23) c.nontrivial = true;
        *a[k] = *a[l];
        m[k] = Model(m[l]);
        break;
      }
      case 3: {
        LOG(k << " = move of " << l);
        if (bytes(m[l]) > 23 || bytes(m[k]) > 23) c.nontrivial = true;
        *a[k] = std::move(*a[l]);
        if (k == l) break;  // no effect
        m[k] = m[l];
        // Whatever is left, it can be cleared
        a[l]->clear();
        m[l].clear();
        break;
      }
      case 4: {
        LOG(k << " = new move of " << l);
        if (bytes(m[l]) > 23) c.nontrivial = true;
        std::unique_ptr<il::Info> x(new il::Info{std::move(*a[l])});
        if (s.coin()) {
          a[l]->clear();
        } else {
          a[l].reset(new il::Info{});
        }
        const Model v = m[l];
        m[l].clear();
        a[k] = std::move(x);
        m[k] = v;
        break;
      }
      case 5:
        LOG(k << ".clear()");
        a[k]->clear();
        m[k].clear();
        break;
      default: {
        const std::string key = aKey(s);
        absent(c, *a[k], m[k], key);
        break;
      }
    }
    for (std::size_t q = 0; q < 3; ++q) {
      compare(c, *a[q], m[q], "info " + std::to_string(q));
    }
    for (const char* q : {"", "a", "ab", "abc", "abcd", "source", "source_file", "source_line"}) absent(c, *a[k], m[k], q);
  }
}

// Many entries
PROPERTY(many, 1) {
  if (!s.chance(1, 60)) return;
  const std::int64_t n = s.chance(1, 25) ? s.range(300, 1500) : s.range(40, 150);
  const int letters = static_cast<int>(s.range(0, 30));
  il::Info a{};
  Model m;
  const int shift = static_cast<int>(s.range(0, 3));
  LOG(n << " entries, keys of " << letters << " letters more, the first of type " << shift);
  for (std::int64_t i = 0; i < n; ++i) {
    const std::string key = "k" + std::to_string(i) + std::string(static_cast<std::size_t>(letters), 'z');
    Value v{static_cast<int>((i + shift) % 4), 0, 0.0, ""};
    switch (v.kind) {
      case 0: v.i = i * 1000003; a.Set(key.c_str(), static_cast<il::int_t>(v.i)); break;
      case 1: v.x = 0.5 * static_cast<double>(i); a.Set(key.c_str(), v.x); break;
      case 2: v.t = "text " + std::to_string(i); a.Set(key.c_str(), v.t.c_str()); break;
      default: v.i = i % 8 < 4; a.Set(key.c_str(), v.i != 0); break;
    }
    m[key] = v;
  }
  for (int k = 0; k < 5; ++k) {
    const std::int64_t i = s.range(0, n - 1);
    const std::string key = "k" + std::to_string(i) + std::string(static_cast<std::size_t>(letters), 'z');
    Value v = aValue(s);
    LOG("Set(" << pbt::quote(key) << ", " << show(v) << ")");
    switch (v.kind) {
      case 0: a.Set(key.c_str(), static_cast<il::int_t>(v.i)); break;
      case 1: a.Set(key.c_str(), v.x); break;
      case 2: a.Set(key.c_str(), v.t.c_str()); break;
      default: a.Set(key.c_str(), v.i != 0); break;
    }
    m[key] = v;
  }
  c.nontrivial = true;
  const il::Info b = a;
  compare(c, a, m, "info");
  compare(c, b, m, "copy");
  absent(c, a, m, "k" + std::to_string(n) + std::string(static_cast<std::size_t>(letters), 'z'));
  absent(c, a, m, "k");
}

struct St {
  std::unique_ptr<il::Status> a;
  bool ok = true;
  bool to_check = false;
  bool set = false;  // An error has been set
  std::size_t error = 0;  // among the codes
  Model info;
};
struct Code {
  il::Error error;
  il::ErrorDomain domain;
  const char* name;
};
#define CODE(domain, name) Code{il::Error::name, il::ErrorDomain::domain, #name}
const Code codes[] = {
    CODE(Filesystem, FilesystemFileNotFound),
    CODE(Filesystem, FilesystemDirectoryNotFound),
    CODE(Filesystem, FilesystemNoReadAccess),
    CODE(Filesystem, FilesystemNoWriteAccess),
    CODE(Filesystem, FilesystemCanNotCloseFile),
    CODE(Filesystem, FilesystemCanNotWriteToFile),
    CODE(Filesystem, FilesystemFileNotLongEnough),
    CODE(Binary, BinaryFileWrongFormat),
    CODE(Binary, BinaryFileWrongType),
    CODE(Binary, BinaryFileWrongRank),
    CODE(Binary, BinaryFileWrongEndianness),
    CODE(Parse, ParseBool),
    CODE(Parse, ParseNumber),
    CODE(Parse, ParseInt),
    CODE(Parse, ParseIntOverflow),
    CODE(Parse, ParseInteger),
    CODE(Parse, ParseIntegerOverflow),
    CODE(Parse, ParseFloat),
    CODE(Parse, ParseDouble),
    CODE(Parse, ParseString),
    CODE(Parse, ParseUnclosedArray),
    CODE(Parse, ParseUnidentifiedTrailingCharacter),
    CODE(Parse, ParseCanNotDetermineType),
    CODE(Parse, ParseHeterogeneousArray),
    CODE(Parse, ParseArray),
    CODE(Parse, ParseTable),
    CODE(Parse, ParseDuplicateKey),
    CODE(Parse, ParseKey),
    CODE(Parse, ParseValue),
    CODE(Overflow, OverflowInt),
    CODE(Overflow, OverflowInteger),
    CODE(FloatingPoint, FloatingPointNonNegative),
    CODE(FloatingPoint, FloatingPointPositive),
    CODE(FloatingPoint, FloatingPointNonPositive),
    CODE(FloatingPoint, FloatingPointNegative),
    CODE(Matrix, MatrixSingular),
    CODE(Matrix, MatrixEigenValueNoConvergence),
    CODE(Unimplemented, Unimplemented),
    CODE(Undefined, Undefined),
};
#undef CODE
const std::size_t nb_codes = sizeof codes / sizeof codes[0];

void check(pbt::Ctx& c, const St& x, const std::string& where) {
  if (!x.to_check && !x.ok) {
    for (std::size_t k = 0; k < nb_codes; ++k)
      REQUIRE((x.a->error() == codes[k].error) == (k == x.error), where << ": the error is" << (k == x.error ? " not " : " also ") << codes[k].name << ", " << codes[x.error].name << " was set");
    REQUIRE(x.a->domain() == codes[x.error].domain, where << ": domain " << static_cast<int>(x.a->domain()) << " of " << codes[x.error].name);
    REQUIRE(il::domain(codes[x.error].error) == codes[x.error].domain, "domain of " << codes[x.error].name);
  }
  if (!x.ok) {
    for (const auto& e : x.info) {
      const std::string w = where + "[" + pbt::quote(e.first) + "]";
      const char* k = e.first.c_str();
      switch (e.second.kind) {
        case 0: REQUIRE(x.a->toInteger(k) == e.second.i, w << ": " << x.a->toInteger(k)); break;
        case 1: REQUIRE(x.a->toDouble(k) == e.second.x, w << ": " << x.a->toDouble(k)); break;
        default: REQUIRE(x.a->asCString(k) == e.second.t, w << ": " << pbt::quote(x.a->asCString(k))); break;
      }
    }
  }
}
void settle(pbt::Ctx& c, St& x) {
  if (x.to_check) {
    const bool ok = x.a->Ok();
    REQUIRE(ok == x.ok, "Ok() is " << ok << " at the end of the history");
    x.to_check = false;
  }
}

PROPERTY(status, 6) {
  std::vector<St> x(3);
  for (St& e : x) e.a.reset(new il::Status{});
  try {
    const std::int64_t n = 1 + s.size(29);
    for (std::int64_t step = 0; step < n; ++step) {
      const std::size_t k = s.draw(3);
      const std::size_t l = s.draw(3);
      St& e = x[k];
      // An object may only be set again once it has been checked
      switch (s.weighted({5, 2, 6, 3, 3, 3, 2, 1})) {
        case 0: {
          if (e.to_check) break;
          const std::size_t i = s.draw(nb_codes);
          LOG(k << ".SetError(" << codes[i].name << ")");
          if (!e.info.empty()) c.nontrivial = true;
          e.a->SetError(codes[i].error);
          e.ok = false;
          e.set = true;
          e.to_check = true;
          e.error = i;
          e.info.clear();
          break;
        }
        case 1:
          if (e.to_check) break;
          LOG(k << ".SetOk()");
          e.a->SetOk();
          e.ok = true;
          e.to_check = true;
          break;
        case 2: {
          if (!e.to_check || e.ok) break;
          const std::string key = aKey(s);
          Value v = aValue(s);
          if (v.kind == 3) v.kind = 0;
          LOG(k << ".SetInfo(" << pbt::quote(key) << ", " << show(v) << ")");
          if (e.info.count(key)) c.nontrivial = true;
          if (v.kind == 0 && isInt(v.i) && s.coin()) {
            e.a->SetInfo(key.c_str(), static_cast<int>(v.i));
          } else if (v.kind == 0) {
            e.a->SetInfo(key.c_str(), static_cast<il::int_t>(v.i));
          } else if (v.kind == 1) {
            e.a->SetInfo(key.c_str(), v.x);
          } else {
            const auto file = e.info.find("source_file");
            if (file != e.info.end() && file->second.kind == 2 && s.chance(1, 4)) {
              LOG("No, with its own source_file");
              v = file->second;
              e.a->SetInfo(key.c_str(), e.a->asCString("source_file"));
            } else {
              e.a->SetInfo(key.c_str(), v.t.c_str());
            }
          }
          e.info[key] = v;
          break;
        }
        case 3: {
          if (!e.to_check || e.ok) break;
          const std::string file = s.coin() ? "file.cpp" : "/a/rather/long/path/to/some/file.h";
          const std::int64_t line = s.range(1, 100000);
          LOG(k << ".setSource(" << file << ", " << line << ")");
          e.a->setSource(file.c_str(), line);
          e.info["source_file"] = Value{2, 0, 0.0, file};
          e.info["source_line"] = Value{0, line, 0.0, ""};
          break;
        }
        case 4: {
          if (!e.to_check) break;
          const bool ok = e.a->Ok();
          LOG(k << ".Ok()");
          REQUIRE(ok == e.ok, "Ok() of " << k << " is " << ok);
          e.to_check = false;
          break;
        }
        case 5: {
          if (!e.to_check) break;
          LOG(k << " is ignored or armed again");
          if (e.ok && s.coin()) {
            e.a->AbortOnError();
          } else {
            e.a->IgnoreError();
          }
          e.to_check = false;
          if (s.coin()) {
            e.a->Rearm();
            e.to_check = true;
          }
          break;
        }
        case 6: {
          if (k == l || !x[l].to_check || e.to_check) break;
          LOG(k << " = move of " << l);
          if (bytes(x[l].info) > 23) c.nontrivial = true;
          *e.a = std::move(*x[l].a);
          e.ok = x[l].ok;
          e.error = x[l].error;
          e.info = x[l].info;
          e.to_check = true;
          // The source does not have to be checked any more
          x[l].a.reset(new il::Status{});
          x[l] = St{std::move(x[l].a)};
          break;
        }
        default: {
          if (!e.to_check) break;
          LOG(k << " = new move of itself");
          if (bytes(e.info) > 23) c.nontrivial = true;
          std::unique_ptr<il::Status> y(new il::Status{std::move(*e.a)});
          e.a = std::move(y);
          break;
        }
      }
      for (std::size_t q = 0; q < 3; ++q) check(c, x[q], "status " + std::to_string(q));
    }
    for (St& e : x) settle(c, e);
  } catch (...) {
    for (St& e : x)
      if (e.a) e.a.release();
    throw;
  }
}

}  // namespace
