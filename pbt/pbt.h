// Small property-based testing engine.
//
// A property is a function  void(pbt::Src&, pbt::Ctx&)  that draws everything
// random from Src.  Src hands out bounded choices and records them, so that a
// case is exactly its sequence of choices: it can be replayed, mutated
// (coverage-guided mode) and shrunk without any type-specific code.
#ifndef PBT_H
#define PBT_H

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};

// Thrown to give up on a case which is not in the domain of the property.
struct Discard {};

class Src {
 public:
  // Uniform in [0, n). The simplest value is 0.
  std::uint64_t draw(std::uint64_t n);
  // A raw 64 bits choice
  std::uint64_t bits64();
  // Uniform in [lo, hi]. The simplest value is lo
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    return static_cast<std::int64_t>(
        static_cast<std::uint64_t>(lo) +
        draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) +
             1));
  }
  // True with probability num / den. The simplest value is false
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  bool coin() { return draw(2) == 1; }
  // Index drawn with weights, the first being the simplest
  std::size_t weighted(std::initializer_list<unsigned> w);
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  template <typename T>
  T oneOf(std::initializer_list<T> l) {
    return *(l.begin() + draw(l.size()));
  }
  // A size in [0, max] with more weight on the small ones
  std::int64_t size(std::int64_t max);
  // The same, and now and then a size which is much larger
  std::int64_t more(std::int64_t max, std::int64_t limit) { return chance(1, 60) ? range(0, limit) : size(max); }
  // An interesting 64 bits integer: small, near powers of 2, limits, random
  // width, constants seen in comparisons of the code under test
  std::int64_t i64();
  int i32();
  // Finite double, any scale
  double finiteDouble();
  // "Nice" double, exact in arithmetic: small integers and dyadic fractions
  double smallDouble();
  // Uniform in [-1, 1]
  double unit();
  // bytes in [1, 255] or from an alphabet
  std::string bytes(std::int64_t max_len, const char* alphabet = nullptr);

 private:
  friend class Engine;
  bool replay_ = false;         // beyond the prefix: 0 rather than random
  std::vector<std::uint64_t> prefix_;
  std::size_t pos_ = 0;
  std::uint64_t s_[4];
  std::uint64_t next();
  void push(std::uint64_t v);
};

class Ctx {
 public:
  bool trace = false;
  std::ostringstream log;
  // Set by the property if the case is non-trivial by the rule stated
  bool nontrivial = false;
  // Class of the case, counted in the evidence
  void tag(const char* t);
  [[noreturn]] void fail(const std::string& msg) { throw Failure{msg}; }
  // Scratch directory, private to the worker
  std::string scratch;
  std::vector<const char*> tags;
  // Do not check for leaks in this case
  bool ignore_leaks = false;
};

using PropFn = void (*)(Src&, Ctx&);
using ProbeFn = bool (*)(Ctx&);

struct Reg {
  Reg(const char* name, unsigned weight, PropFn fn);
};
// A probe for a known finding: returns true if the finding is still there. It
// runs in its own process: if it crashes, the finding is there.
struct RegProbe {
  RegProbe(const char* id, ProbeFn fn);
};

// Rule stated in the evidence
extern const char* rule;
// Check for leaks by counting the allocations of each case
extern bool check_leaks;
// Limit in seconds of CPU time for one case (a hang)
extern int case_cpu_seconds;
// cases per run, calibrated by each harness
extern long quick_cases;
extern long thorough_cases;

template <typename T>
std::string str(const T& x) {
  std::ostringstream o;
  o.precision(17);
  o << x;
  return o.str();
}
std::string quote(const std::string& s);

}  // namespace pbt

// Parts of a harness compiled on their own: #if PBT_IN(2) ... #endif
#ifdef PBT_PART
#define PBT_IN(k) (PBT_PART == (k))
#else
#define PBT_IN(k) 1
#endif

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

#define PROPERTY(name, weight)                                      \
  static void PBT_CAT(prop_, name)(pbt::Src & s, pbt::Ctx & c);     \
  static pbt::Reg PBT_CAT(reg_, name)(#name, weight, PBT_CAT(prop_, name)); \
  static void PBT_CAT(prop_, name)(pbt::Src & s, pbt::Ctx & c)

#define KNOWN_PROBE(name)                                        \
  static bool PBT_CAT(probe_, name)(pbt::Ctx & c);               \
  static pbt::RegProbe PBT_CAT(regp_, name)(#name, PBT_CAT(probe_, name)); \
  static bool PBT_CAT(probe_, name)(pbt::Ctx & c)

#define LOG(x)           \
  do {                   \
    if (c.trace) {       \
      c.log << x << "\n"; \
    }                    \
  } while (0)

#define REQUIRE(cond, x)                                               \
  do {                                                                 \
    if (!(cond)) {                                                     \
      std::ostringstream pbt_o;                                        \
      pbt_o.precision(17);                                             \
      pbt_o << "line " << __LINE__ << ": " << #cond << ": " << x;      \
      c.fail(pbt_o.str());                                             \
    }                                                                  \
  } while (0)

#endif  // PBT_H
