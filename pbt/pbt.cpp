#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <unordered_set>

namespace pbt {
struct Abort {};
}

// Only the declaration is needed to catch it: same type as the library
namespace il {
struct AbortException;
}

extern "C" {
#if defined(PBT_SANITIZER)
int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, std::size_t),
    void (*free_hook)(const volatile void*));
#endif
}

namespace {

const std::size_t kMaxChoices = 1 << 18;
const std::size_t kMaxMsg = 8192;

struct Shm {
  volatile std::uint64_t nch;
  volatile std::uint64_t overflow;
  volatile std::uint64_t prop;
  volatile std::uint64_t done;  // evaluations done
  volatile int failed;
  char msg[kMaxMsg];
  std::uint64_t ch[kMaxChoices];
};
Shm* g_shm = nullptr;

struct PropEntry {
  const char* name;
  unsigned weight;
  pbt::PropFn fn;
};
std::vector<PropEntry>& props() {
  static std::vector<PropEntry> v;
  return v;
}
struct ProbeEntry {
  const char* id;
  pbt::ProbeFn fn;
};
std::vector<ProbeEntry>& probes() {
  static std::vector<ProbeEntry> v;
  return v;
}

std::uint64_t splitmix(std::uint64_t& x) {
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
std::uint64_t rotl(std::uint64_t x, int k) {
  return (x << k) | (x >> (64 - k));
}

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

// Dictionary of the constants seen in comparisons
const int kDict = 512;
std::uint64_t g_dict[kDict];
volatile int g_ndict = 0;
volatile bool g_collect = false;
void dictAdd(std::uint64_t v) {
  if (!g_collect || g_ndict >= kDict) return;
  for (int i = 0; i < g_ndict; ++i)
    if (g_dict[i] == v) return;
  g_dict[g_ndict] = v;
  g_ndict = g_ndict + 1;
}

// Coverage counters
const int kMaxRegions = 64;
unsigned char* g_cov_b[kMaxRegions];
unsigned char* g_cov_e[kMaxRegions];
int g_ncov = 0;

// Allocation accounting
volatile long g_net = 0;
}  // namespace

extern "C" {
void __sanitizer_cov_8bit_counters_init(unsigned char* b, unsigned char* e) {
  if (b != e && g_ncov < kMaxRegions) {
    for (int i = 0; i < g_ncov; ++i)
      if (g_cov_b[i] == b) return;
    g_cov_b[g_ncov] = b;
    g_cov_e[g_ncov] = e;
    ++g_ncov;
  }
}
void __sanitizer_cov_trace_const_cmp1(std::uint8_t, std::uint8_t) {}
void __sanitizer_cov_trace_const_cmp2(std::uint16_t, std::uint16_t) {}
void __sanitizer_cov_trace_const_cmp4(std::uint32_t a, std::uint32_t) {
  if (g_collect && a > 2) dictAdd(static_cast<std::uint64_t>(static_cast<std::int64_t>(static_cast<std::int32_t>(a))));
}
void __sanitizer_cov_trace_const_cmp8(std::uint64_t a, std::uint64_t) {
  if (g_collect && a > 2) dictAdd(a);
}
void __sanitizer_cov_trace_cmp1(std::uint8_t, std::uint8_t) {}
void __sanitizer_cov_trace_cmp2(std::uint16_t, std::uint16_t) {}
void __sanitizer_cov_trace_cmp4(std::uint32_t, std::uint32_t) {}
void __sanitizer_cov_trace_cmp8(std::uint64_t, std::uint64_t) {}
void __sanitizer_cov_trace_switch(std::uint64_t, std::uint64_t*) {}
}

namespace {
void mallocHook(const volatile void*, std::size_t) {
  __atomic_fetch_add(&g_net, 1, __ATOMIC_RELAXED);
}
void freeHook(const volatile void* p) {
  if (p != nullptr) __atomic_fetch_sub(&g_net, 1, __ATOMIC_RELAXED);
}
}  // namespace

namespace pbt {

const char* rule __attribute__((weak));
bool check_leaks = true;
int case_cpu_seconds = 20;
long quick_cases = 20000;
long thorough_cases = 400000;

Reg::Reg(const char* name, unsigned weight, PropFn fn) {
  props().push_back(PropEntry{name, weight, fn});
}
RegProbe::RegProbe(const char* id, ProbeFn fn) {
  probes().push_back(ProbeEntry{id, fn});
}

std::uint64_t Src::next() {
  const std::uint64_t r = rotl(s_[1] * 5, 7) * 9;
  const std::uint64_t t = s_[1] << 17;
  s_[2] ^= s_[0];
  s_[3] ^= s_[1];
  s_[1] ^= s_[2];
  s_[0] ^= s_[3];
  s_[2] ^= t;
  s_[3] = rotl(s_[3], 45);
  return r;
}

void Src::push(std::uint64_t v) {
  const std::uint64_t n = g_shm->nch;
  if (n < kMaxChoices) {
    g_shm->ch[n] = v;
    g_shm->nch = n + 1;
  } else {
    g_shm->overflow = 1;
    throw Discard{};
  }
}

std::uint64_t Src::draw(std::uint64_t n) {
  if (n == 1) return 0;
  std::uint64_t v;
  if (pos_ < prefix_.size()) {
    v = prefix_[pos_];
    ++pos_;
    if (n != 0 && v >= n) v %= n;
  } else if (replay_) {
    v = 0;
  } else if (n == 0) {
    v = next();
  } else {
    v = static_cast<std::uint64_t>(
        (static_cast<unsigned __int128>(next()) * n) >> 64);
  }
  push(v);
  return v;
}

std::uint64_t Src::bits64() { return draw(0); }

std::size_t Src::weighted(std::initializer_list<unsigned> w) {
  std::uint64_t sum = 0;
  for (unsigned x : w) sum += x;
  std::uint64_t k = draw(sum);
  std::size_t i = 0;
  for (unsigned x : w) {
    if (k < x) return i;
    k -= x;
    ++i;
  }
  return 0;
}

std::int64_t Src::size(std::int64_t max) {
  if (max <= 0) return 0;
  switch (draw(4)) {
    case 0:
      return static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(std::min<std::int64_t>(max, 3)) + 1));
    case 1:
      return static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(std::min<std::int64_t>(max, 8)) + 1));
    case 2:
      return static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(std::min<std::int64_t>(max, 30)) + 1));
    default:
      return static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(max) + 1));
  }
}

std::int64_t Src::i64() {
  switch (draw(8)) {
    case 0:
    case 1:
      return range(0, 10);
    case 2:
      return -range(0, 10);
    case 3: {
      const std::uint64_t p = std::uint64_t{1} << draw(64);
      const std::int64_t d = range(0, 2);
      const std::uint64_t x = p + static_cast<std::uint64_t>(d == 2 ? -1 : d);
      return static_cast<std::int64_t>(coin() ? 0 - x : x);
    }
    case 4: {
      const std::int64_t lim[] = {INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN,
                                  static_cast<std::int64_t>(UINT32_MAX),
                                  INT16_MAX, INT16_MIN, 255, 127, -128, 3037000499ll, -3037000500ll};
      const std::int64_t l = lim[draw(12)];
      const std::int64_t d = range(0, 6);
      return static_cast<std::int64_t>(static_cast<std::uint64_t>(l) +
                                       static_cast<std::uint64_t>(d <= 3 ? d : 3 - d));
    }
    case 5: {
      const int w = static_cast<int>(draw(64));
      return static_cast<std::int64_t>(draw(0)) >> w;
    }
    case 6: {
      const std::int64_t d = range(0, 2);
      const std::uint64_t k = draw(1024);
      if (g_ndict > 0)
        return static_cast<std::int64_t>(g_dict[k % static_cast<std::uint64_t>(g_ndict)] +
                                         static_cast<std::uint64_t>(d == 2 ? -1 : d));
      return static_cast<std::int64_t>(k);
    }
    default:
      return static_cast<std::int64_t>(draw(0));
  }
}

int Src::i32() {
  const std::int64_t x = i64();
  return static_cast<int>(static_cast<std::uint32_t>(static_cast<std::uint64_t>(x)));
}

double Src::finiteDouble() {
  switch (draw(6)) {
    case 0:
      return static_cast<double>(range(0, 20));
    case 1:
      return -smallDouble();
    case 2: {
      const double sp[] = {-0.0, 1.7976931348623157e308, 2.2250738585072014e-308,
                           4.9406564584124654e-324, 1e100, -1e-100, 0.1,
                           1.0 / 3.0, 123456789012345680.0, 9007199254740993.0,
                           -1.7976931348623157e308, 1e22, 1e23, 5e-324, 0.5, 1e15, 1e16, 1e17};
      return sp[draw(18)];
    }
    case 3: {
      return static_cast<double>(i64());
    }
    case 4: {
      return (static_cast<double>(range(0, 2000001)) - 1000000) / 1000.0;
    }
    default: {
      std::uint64_t b = draw(0);
      double d;
      std::memcpy(&d, &b, 8);
      if (d != d || d - d != 0) {
        b &= 0xbfffffffffffffffull;
        std::memcpy(&d, &b, 8);
      }
      return d;
    }
  }
}

double Src::smallDouble() {
  const std::int64_t n = range(0, 64);
  const int k = static_cast<int>(draw(4));
  const bool neg = coin();
  const double x = static_cast<double>(n) / (1 << k);
  return neg ? -x : x;
}

double Src::unit() {
  return static_cast<double>(static_cast<std::int64_t>(draw(2000001)) - 1000000) / 1000000.0;
}

std::string Src::bytes(std::int64_t max_len, const char* alphabet) {
  const std::int64_t n = size(max_len);
  std::string r;
  const std::size_t na = alphabet ? std::strlen(alphabet) : 0;
  for (std::int64_t i = 0; i < n; ++i) {
    if (alphabet) {
      r.push_back(alphabet[draw(na)]);
    } else {
      r.push_back(static_cast<char>(1 + draw(255)));
    }
  }
  return r;
}

void Ctx::tag(const char* t) {
  if (tags.size() < 64) tags.push_back(t);
}

std::string quote(const std::string& s) {
  std::string r = "\"";
  char buf[8];
  for (unsigned char ch : s) {
    if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') {
      r.push_back(static_cast<char>(ch));
    } else {
      std::snprintf(buf, sizeof buf, "\\x%02x", ch);
      r += buf;
    }
  }
  return r + "\"";
}

class Engine {
 public:
  static void seed(Src& s, std::uint64_t x) {
    for (int i = 0; i < 4; ++i) s.s_[i] = splitmix(x);
    s.prefix_.clear();
    s.pos_ = 0;
    s.replay_ = false;
  }
  static void setPrefix(Src& s, const std::vector<std::uint64_t>& p, bool replay) {
    s.prefix_ = p;
    s.pos_ = 0;
    s.replay_ = replay;
  }
};

}  // namespace pbt

namespace {

using namespace pbt;

std::string g_scratch;

enum Outcome { Pass = 0, Fail = 1, Dis = 2 };

void arm(int sec) {
  itimerval t;
  std::memset(&t, 0, sizeof t);
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}

void resetCov() {
  for (int i = 0; i < g_ncov; ++i)
    std::memset(g_cov_b[i], 0, static_cast<std::size_t>(g_cov_e[i] - g_cov_b[i]));
}

// Run one case; the choices are left in g_shm
Outcome runCase(std::size_t prop, Src& s, Ctx& c, std::string& msg) {
  g_shm->nch = 0;
  g_shm->overflow = 0;
  g_shm->prop = prop;
  c.nontrivial = false;
  c.tags.clear();
  c.scratch = g_scratch;
  c.ignore_leaks = false;
  arm(case_cpu_seconds);
  Outcome o = Pass;
  try {
    props()[prop].fn(s, c);
  } catch (const Failure& f) {
    msg = f.msg;
    o = Fail;
  } catch (const Discard&) {
    o = Dis;
  } catch (const std::exception& e) {
    msg = std::string("unexpected C++ exception: ") + e.what();
    o = Fail;
  } catch (...) {
    msg = "unexpected precondition failure (abort) in the library";
    o = Fail;
  }
  return o;
}

std::vector<std::uint64_t> recorded() {
  return std::vector<std::uint64_t>(g_shm->ch, g_shm->ch + g_shm->nch);
}

// With leak check: a leak is real only if it happens again on the same case
Outcome runChecked(std::size_t prop, Src& s, Ctx& c, std::string& msg) {
  c.tags.reserve(64);
  c.scratch.reserve(256);
  long before = g_net;
  Outcome o = runCase(prop, s, c, msg);
  if (o == Pass && check_leaks && !c.ignore_leaks && g_net > before && !c.trace) {
    const std::vector<std::uint64_t> ch = recorded();
    long leaked = 0;
    for (int k = 0; k < 2; ++k) {
      Src s2;
      Engine::seed(s2, 1);
      Engine::setPrefix(s2, ch, true);
      before = g_net;
      o = runCase(prop, s2, c, msg);
      leaked = g_net - before;
      if (o != Pass || leaked <= 0) break;
    }
    if (o == Pass && leaked > 0) {
      msg = "memory leak: " + str(leaked) + " block(s) still allocated after the case";
      o = Fail;
    }
  }
  return o;
}

std::uint64_t hashCh(std::size_t prop) {
  std::uint64_t h = 1469598103934665603ull ^ (prop * 0x9e3779b97f4a7c15ull);
  for (std::uint64_t i = 0; i < g_shm->nch; ++i) {
    h ^= g_shm->ch[i];
    h *= 1099511628211ull;
    h ^= h >> 29;
  }
  return h;
}

struct Corpus {
  std::vector<std::vector<std::uint64_t>> seq;
  std::vector<unsigned char> virgin;
};

unsigned char bucket(unsigned char v) {
  if (v == 0) return 0;
  if (v == 1) return 1;
  if (v == 2) return 2;
  if (v == 3) return 4;
  if (v < 8) return 8;
  if (v < 16) return 16;
  if (v < 32) return 32;
  if (v < 128) return 64;
  return 128;
}

bool newCov(Corpus& k) {
  std::size_t total = 0;
  for (int i = 0; i < g_ncov; ++i) total += static_cast<std::size_t>(g_cov_e[i] - g_cov_b[i]);
  if (k.virgin.size() != total) k.virgin.assign(total, 0);
  bool fresh = false;
  std::size_t o = 0;
  for (int i = 0; i < g_ncov; ++i) {
    for (unsigned char* p = g_cov_b[i]; p != g_cov_e[i]; ++p, ++o) {
      if (*p) {
        const unsigned char b = bucket(*p);
        if (!(k.virgin[o] & b)) {
          k.virgin[o] |= b;
          fresh = true;
        }
      }
    }
  }
  return fresh;
}

struct Rand {
  std::uint64_t x;
  std::uint64_t operator()(std::uint64_t n) { return n == 0 ? splitmix(x) : splitmix(x) % n; }
};

std::vector<std::uint64_t> mutate(const Corpus& k, Rand& r) {
  std::vector<std::uint64_t> v = k.seq[r(k.seq.size())];
  const int nb = 1 + static_cast<int>(r(4));
  for (int m = 0; m < nb; ++m) {
    if (v.empty()) break;
    switch (r(8)) {
      case 0:
        v[r(v.size())] = r(0);
        break;
      case 1:
        v[r(v.size())] = r(16);
        break;
      case 2: {
        std::uint64_t& x = v[r(v.size())];
        x = r(2) ? x + 1 : x - 1;
      } break;
      case 3: {  // delete
        const std::size_t i = r(v.size());
        const std::size_t n = 1 + r(std::min<std::size_t>(v.size() - i, 16));
        v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(std::min(v.size(), i + n)));
      } break;
      case 4: {  // duplicate
        const std::size_t i = r(v.size());
        const std::size_t n = 1 + r(std::min<std::size_t>(v.size() - i, 16));
        std::vector<std::uint64_t> w(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(std::min(v.size(), i + n)));
        v.insert(v.begin() + static_cast<long>(r(v.size() + 1)), w.begin(), w.end());
      } break;
      case 5: {  // splice
        const std::vector<std::uint64_t>& o = k.seq[r(k.seq.size())];
        if (!o.empty()) {
          const std::size_t i = r(v.size());
          v.resize(i);
          const std::size_t j = r(o.size());
          v.insert(v.end(), o.begin() + static_cast<long>(j), o.end());
        }
      } break;
      case 6:  // truncate: the rest is random
        v.resize(r(v.size() + 1));
        break;
      default:
        if (g_ndict > 0) v[r(v.size())] = g_dict[r(static_cast<std::uint64_t>(g_ndict))] + r(3) - 1;
        break;
    }
  }
  if (v.size() > kMaxChoices / 2) v.resize(kMaxChoices / 2);
  return v;
}

void writeFailure(const std::string& path, std::size_t prop, const std::vector<std::uint64_t>& ch,
                  const std::string& kind, const std::string& msg) {
  std::ofstream f(path);
  f << "case " << props()[prop].name << "\n";
  f << "kind " << kind << "\n";
  f << "choices " << ch.size();
  for (auto x : ch) f << " " << x;
  f << "\n";
  std::string m = msg;
  for (auto& x : m)
    if (x == '\n') x = ' ';
  f << "message " << m << "\n";
}

bool readFailure(const std::string& path, std::size_t& prop, std::vector<std::uint64_t>& ch) {
  std::ifstream f(path);
  std::string line;
  bool okp = false, okc = false;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string w;
    is >> w;
    if (w == "case") {
      std::string n;
      is >> n;
      for (std::size_t i = 0; i < props().size(); ++i)
        if (n == props()[i].name) {
          prop = i;
          okp = true;
        }
    } else if (w == "choices" && !okc) {
      std::size_t n;
      is >> n;
      ch.resize(n);
      for (auto& x : ch) is >> x;
      okc = true;
    }
  }
  return okp && okc;
}

void quiet() {
  if (std::getenv("PBT_VERBOSE")) return;
  const int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  dup2(fd, 2);
  close(fd);
}

std::string describe(int st) {
  if (WIFSIGNALED(st)) {
    const int sig = WTERMSIG(st);
    if (sig == SIGPROF) return "hang";
    return "crash";
  }
  if (WIFEXITED(st)) {
    if (WEXITSTATUS(st) == 0) return "pass";
    if (WEXITSTATUS(st) == 10) return "fail";
    return "crash";
  }
  return "crash";
}

// Run a candidate in a child
std::string tryRun(std::size_t prop, const std::vector<std::uint64_t>& ch, std::string& msg,
                   std::vector<std::uint64_t>& used) {
  g_shm->failed = 0;
  g_shm->msg[0] = 0;
  const pid_t p = fork();
  if (p == 0) {
    quiet();
    Src s;
    Ctx c;
    Engine::seed(s, 1);
    Engine::setPrefix(s, ch, true);
    std::string m;
    const Outcome o = runChecked(prop, s, c, m);
    if (o == Fail) {
      std::snprintf(g_shm->msg, kMaxMsg, "%s", m.c_str());
      _exit(10);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  used = recorded();
  msg = g_shm->msg;
  return describe(st);
}

bool shortlex(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

struct Shrinker {
  std::size_t prop;
  std::string kind;
  std::vector<std::uint64_t> best;
  std::string msg;
  double deadline;
  long tries = 0;

  bool attempt(const std::vector<std::uint64_t>& cand) {
    if (now() > deadline) return false;
    if (!shortlex(cand, best)) return false;
    ++tries;
    std::string m;
    std::vector<std::uint64_t> used;
    const std::string k = tryRun(prop, cand, m, used);
    if (k != kind) return false;
    while (!used.empty() && used.back() == 0) used.pop_back();
    best = shortlex(used, cand) ? used : cand;
    msg = m;
    return true;
  }

  void run() {
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && now() < deadline) {
      progress = false;
      for (std::size_t k = std::max<std::size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
        for (std::size_t i = best.size(); i > 0 && now() < deadline;) {
          i = i > k ? i - k : 0;
          if (i >= best.size()) continue;
          std::vector<std::uint64_t> cand(best.begin(), best.begin() + static_cast<long>(i));
          const std::size_t e = std::min(best.size(), i + k);
          cand.insert(cand.end(), best.begin() + static_cast<long>(e), best.end());
          if (attempt(cand)) progress = true;
        }
        if (k == 1) break;
      }
      // delete one and decrement a previous one (lengths of collections)
      for (std::size_t i = 0; i < best.size() && now() < deadline; ++i) {
        if (best[i] == 0) continue;
        for (std::size_t k = 1; k <= 4; ++k) {
          for (std::size_t j = i + 1; j + k <= best.size() && j < i + 40 && now() < deadline; ++j) {
            std::vector<std::uint64_t> cand = best;
            cand[i] -= 1;
            cand.erase(cand.begin() + static_cast<long>(j), cand.begin() + static_cast<long>(j + k));
            if (attempt(cand)) {
              progress = true;
              if (i >= best.size() || best[i] == 0) break;
            }
          }
          if (i >= best.size() || best[i] == 0) break;
        }
      }
      for (std::size_t i = 0; i < best.size() && now() < deadline; ++i) {
        if (best[i] == 0) continue;
        std::vector<std::uint64_t> cand = best;
        cand[i] = 0;
        if (attempt(cand)) {
          progress = true;
          continue;
        }
        std::uint64_t lo = 0, hi = best[i];
        while (hi - lo > 1 && now() < deadline) {
          const std::uint64_t mid = lo + (hi - lo) / 2;
          cand = best;
          if (i >= cand.size()) break;
          cand[i] = mid;
          if (attempt(cand)) {
            progress = true;
            if (i >= best.size()) break;
            hi = std::min(mid, best[i]);
          } else {
            lo = mid;
          }
        }
      }
    }
  }
};

std::string esc(const std::string& s) {
  std::string r;
  char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r.push_back('\\');
      r.push_back(static_cast<char>(ch));
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 32 || ch > 126) {
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r.push_back(static_cast<char>(ch));
    }
  }
  return r;
}

std::string g_only;

void childRun(std::uint64_t seed, long cases, double deadline, const std::string& out) {
  Src s;
  Ctx c;
  c.tags.reserve(64);
  std::vector<Corpus> corpus(props().size());
  std::vector<unsigned> wheel;
  for (std::size_t i = 0; i < props().size(); ++i) {
    if (!g_only.empty() && g_only != props()[i].name) continue;
    for (unsigned w = 0; w < props()[i].weight; ++w) wheel.push_back(static_cast<unsigned>(i));
  }
  Rand r{seed ^ 0xabcdef};
  std::map<std::string, long> tags;
  std::vector<long> per(props().size(), 0);
  std::vector<long> nontriv(props().size(), 0);
  std::unordered_set<std::uint64_t> hashes;
  std::vector<std::pair<std::size_t, std::vector<std::uint64_t>>> samples;
  std::vector<long> next_sample(props().size(), 1);
  long evals = 0, discarded = 0, mutated = 0;
  bool cut = false;
  for (long k = 0; k < cases; ++k) {
    if ((k & 15) == 0 && now() > deadline) {
      cut = true;
      break;
    }
    const std::size_t prop = wheel[r(wheel.size())];
    Corpus& co = corpus[prop];
    Engine::seed(s, seed * 1000003 + static_cast<std::uint64_t>(k));
    if (g_ncov > 0 && co.seq.size() > 4 && r(2) == 0) {
      Engine::setPrefix(s, mutate(co, r), false);
      ++mutated;
    }
    if (g_ncov > 0) resetCov();
    std::string msg;
    g_collect = true;
    const Outcome o = runChecked(prop, s, c, msg);
    g_collect = false;
    ++evals;
    g_shm->done = static_cast<std::uint64_t>(evals);
    ++per[prop];
    if (o == Fail) {
      g_shm->failed = 1;
      std::snprintf(g_shm->msg, kMaxMsg, "%s", msg.c_str());
      _exit(10);
    }
    if (o == Dis) {
      ++discarded;
      continue;
    }
    for (const char* t : c.tags) ++tags[std::string(props()[prop].name) + "/" + t];
    if (c.nontrivial) {
      hashes.insert(hashCh(prop));
      ++nontriv[prop];
      if (nontriv[prop] == next_sample[prop] && g_shm->nch < 400) {
        next_sample[prop] *= 12;
        samples.push_back(std::make_pair(prop, recorded()));
      } else if (nontriv[prop] == next_sample[prop]) {
        next_sample[prop] += 1;
      }
    }
    if (g_ncov > 0 && newCov(co) && g_shm->nch < 4096) {
      if (co.seq.size() < 4000)
        co.seq.push_back(recorded());
      else
        co.seq[r(co.seq.size())] = recorded();
    }
  }
  arm(0);
  {
    std::ofstream f(out + "/hashes", std::ios::binary);
    for (auto h : hashes) f.write(reinterpret_cast<const char*>(&h), 8);
  }
  std::ofstream f(out + "/stats.json");
  f << "{\"evaluations\": " << evals << ", \"discarded\": " << discarded << ", \"mutated\": " << mutated
    << ", \"cut\": " << (cut ? "true" : "false") << ", \"cases\": {";
  bool first = true;
  for (std::size_t i = 0; i < props().size(); ++i) {
    f << (first ? "" : ", ") << "\"" << props()[i].name << "\": [" << per[i] << ", " << nontriv[i] << "]";
    first = false;
  }
  f << "}, \"tags\": {";
  first = true;
  for (auto& t : tags) {
    f << (first ? "" : ", ") << "\"" << esc(t.first) << "\": " << t.second;
    first = false;
  }
  f << "}, \"samples\": [";
  first = true;
  for (std::size_t i = 0; i < samples.size() && i < 40; ++i) {
    Src s2;
    Engine::seed(s2, 1);
    Engine::setPrefix(s2, samples[i].second, true);
    Ctx c2;
    c2.trace = true;
    std::string msg;
    runCase(samples[i].first, s2, c2, msg);
    std::string l = c2.log.str();
    if (l.size() > 1200) l = l.substr(0, 1200) + "...";
    f << (first ? "" : ", ") << "{\"case\": \"" << props()[samples[i].first].name << "\", \"trace\": \"" << esc(l)
      << "\"}";
    first = false;
  }
  f << "], \"corpus\": [";
  for (std::size_t i = 0; i < corpus.size(); ++i) f << (i ? ", " : "") << corpus[i].seq.size();
  f << "]}\n";
  f.close();
  arm(0);
  _exit(0);
}

int cmdRun(std::uint64_t seed, long cases, double limit, double shrink, const std::string& out) {
  const double t0 = now();
  const pid_t p = fork();
  if (p == 0) {
    quiet();
    childRun(seed, cases, t0 + limit, out);
  }
  int st = 0;
  // The wall clock limit is never a violation
  bool killed = false;
  for (;;) {
    const pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    if (now() > t0 + limit + 90) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      killed = true;
      break;
    }
    usleep(5000);
  }
  if (killed) {
    std::cout << "INCONCLUSIVE killed after the time limit\n";
    return 3;
  }
  const std::string kind = describe(st);
  if (kind == "pass") {
    std::cout << "PASS\n";
    return 0;
  }
  Shrinker sh;
  sh.prop = g_shm->prop;
  sh.kind = kind;
  sh.best = recorded();
  sh.msg = g_shm->msg;
  const std::uint64_t done = g_shm->done;
  writeFailure(out + "/failure.orig", sh.prop, sh.best, kind, sh.msg);
  // Is it reproducible from its choices, in a fresh process ?
  std::string m;
  std::vector<std::uint64_t> used;
  const std::string k2 = tryRun(sh.prop, sh.best, m, used);
  if (k2 == "pass") {
    std::cout << "FLAKY " << kind << " " << sh.msg << "\n";
    return 4;
  }
  sh.kind = k2;
  sh.msg = m;
  sh.deadline = now() + (sh.kind == "hang" ? std::min(shrink, 5.0) : shrink);
  sh.run();
  writeFailure(out + "/failure", sh.prop, sh.best, sh.kind, sh.msg);
  std::cout << "FAIL " << sh.kind << " after " << done << " cases, " << sh.tries << " shrink steps: " << sh.msg << "\n";
  return 10;
}

int cmdReplay(const std::string& path) {
  std::size_t prop = 0;
  std::vector<std::uint64_t> ch;
  if (!readFailure(path, prop, ch)) {
    std::cout << "cannot read " << path << "\n";
    return 2;
  }
  // First with the trace (it may crash: print as we go)
  {
    const pid_t p = fork();
    if (p == 0) {
      Src s;
      Ctx c;
      c.trace = true;
      Engine::seed(s, 1);
      Engine::setPrefix(s, ch, true);
      std::string m;
      // unbuffered trace
      struct Buf : std::stringbuf {
        int sync() override {
          std::string t = str();
          if (write(1, t.data(), t.size()) < 0) return -1;
          str("");
          return 0;
        }
      } buf;
      c.log.std::ios::rdbuf(&buf);
      c.log << std::unitbuf;
      std::cout << "trace of case " << props()[prop].name << std::endl;
      runCase(prop, s, c, m);
      c.log.std::ios::rdbuf(nullptr);
      std::cout << std::flush;
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
  }
  Src s;
  Ctx c;
  Engine::seed(s, 1);
  Engine::setPrefix(s, ch, true);
  std::string m;
  const Outcome o = runChecked(prop, s, c, m);
  if (o == Fail) {
    std::cout << "REPRODUCED " << m << std::endl;
    std::cout.flush();
    _exit(10);
  }
  std::cout << "NOT REPRODUCED" << std::endl;
  _exit(0);
}

int cmdProbes() {
  for (auto& e : probes()) {
    std::cout.flush();
    const pid_t p = fork();
    if (p == 0) {
      quiet();
      arm(case_cpu_seconds);
      Ctx c;
      c.scratch = g_scratch;
      bool there = true;
      try {
        there = e.fn(c);
      } catch (...) {
        there = true;
      }
      _exit(there ? 11 : 0);
    }
    int st;
    waitpid(p, &st, 0);
    const bool absent = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    std::cout << "PROBE " << e.id << " " << (absent ? "absent" : "present") << std::endl;
  }
  return 0;
}

}  // namespace

int main(int argc, char** argv) {
  g_shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_shm == MAP_FAILED) {
    std::perror("mmap");
    return 2;
  }
  const char* sc = std::getenv("PBT_SCRATCH");
  g_scratch = sc ? sc : "/tmp";
  if (std::getenv("PBT_ONLY")) g_only = std::getenv("PBT_ONLY");
#if defined(PBT_SANITIZER)
  __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
#else
  (void)mallocHook;
  (void)freeHook;
#endif
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  const std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "info") {
    std::cout << "{\"quick\": " << quick_cases << ", \"thorough\": " << thorough_cases << ", \"rule\": \""
              << esc(rule ? rule : "") << "\"}\n";
    return 0;
  }
  if (cmd == "run" && argc >= 7) {
    return cmdRun(std::strtoull(argv[2], nullptr, 10), std::atol(argv[3]), std::atof(argv[4]), std::atof(argv[5]),
                  argv[6]);
  }
  if (cmd == "replay" && argc >= 3) return cmdReplay(argv[2]);
  if (cmd == "probes") return cmdProbes();
  std::cerr << "usage: run SEED CASES SECONDS SHRINK_SECONDS OUT | replay FILE | probes | info\n";
  return 2;
}
