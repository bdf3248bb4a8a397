// C28: timers, benchmarks and durations written in words, on a virtual clock.
//
// clock_gettime, gettimeofday, nanosleep and clock_nanosleep are defined here:
// while `virtual_on` is set, they read and advance a counter of nanoseconds, so
// that the time which passes between two operations is drawn by the generator
// and every measurement has an exact expected value.
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <ctime>
#include <string>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace {
thread_local bool virtual_on = false;
thread_local long long now_ns = 0;
thread_local long long slept_ns = 0;
thread_local int reads = 0;
// The time that each reading of the clock takes
thread_local long long cost_of_read = 0;
constexpr long long epoch = 1700000000LL * 1000000000LL;
}  // namespace

extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (virtual_on) {
    ++reads;
    now_ns += cost_of_read;
    t->tv_sec = (epoch + now_ns) / 1000000000LL;
    t->tv_nsec = (epoch + now_ns) % 1000000000LL;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}
extern "C" int gettimeofday(struct timeval* t, void*) noexcept {
  timespec u;
  clock_gettime(CLOCK_REALTIME, &u);
  t->tv_sec = u.tv_sec;
  t->tv_usec = u.tv_nsec / 1000;
  return 0;
}
extern "C" int nanosleep(const struct timespec* r, struct timespec* rem) {
  if (virtual_on) {
    const long long d = r->tv_sec * 1000000000LL + r->tv_nsec;
    now_ns += d;
    slept_ns += d;
    if (rem) *rem = timespec{0, 0};
    return 0;
  }
  return static_cast<int>(syscall(SYS_nanosleep, r, rem));
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const struct timespec* r, struct timespec* rem) {
  if (virtual_on) {
    long long d = r->tv_sec * 1000000000LL + r->tv_nsec;
    if (flags & TIMER_ABSTIME) d -= epoch + now_ns;
    if (d < 0) d = 0;
    now_ns += d;
    slept_ns += d;
    return 0;
  }
  return syscall(SYS_clock_nanosleep, id, flags, r, rem) == 0 ? 0 : errno;
}

#include <il/core.h>

#include <il/core.h>
#include <il/benchmark/tools/timer/Benchmark.h>
#include <il/benchmark/tools/timer/Timer.h>
#include <il/unit/time.h>

#include "pbt.h"

namespace pbt {
const char* rule =
    "histories of starts, stops, resets, sleeps and copies of two timers, and "
    "benchmarks of programs whose iterations have a drawn cost, on a virtual "
    "clock; durations biased to the limits between units. Non-trivial: a timer "
    "stopped at least twice, a sleep which is partly over, a benchmark with "
    "pauses, a cost that varies or one of more than half the goal, or a "
    "duration within a millionth of a change of unit";
}
namespace {
struct Init {
  Init() {
    pbt::quick_cases = 600000;
    pbt::thorough_cases = 12000000;
  }
} init;

struct Virtual {
  Virtual() {
    now_ns = 0;
    reads = 0;
    slept_ns = 0;
    cost_of_read = 0;
    virtual_on = true;
  }
  ~Virtual() { virtual_on = false; }
};

long long duration(pbt::Src& s) {
  switch (s.weighted({4, 2, 2, 1})) {
    case 0: return s.range(0, 2000);
    case 1: return s.range(0, 3000000);
    case 2: return s.range(0, 5) * 1000000000LL + s.range(0, 999999999);
    default: return s.range(0, 40) * 86400LL * 1000000000LL + s.range(0, 999999999);
  }
}

template <typename F>
bool refused(const F& f) {
#ifdef PBT_DEBUG
  try {
    f();
  } catch (const il::AbortException&) {
    return true;
  }
  return false;
#else
  (void)f;
  return true;
#endif
}

bool close(double a, long double b) {
  return std::fabs(a - b) <= 1e-12L * std::fabs(b) + 1e-15L;
}

struct Model {
  long long total = 0;
  bool on = false;
  long long begin = 0;
  int stops = 0;
};

PROPERTY(timer, 4) {
  Virtual v;
  il::Timer t[2];
  Model m[2];
  const int n = static_cast<int>(s.range(1, 25));
  for (int k = 0; k < n; ++k) {
    const int i = static_cast<int>(s.draw(2));
    switch (s.weighted({4, 4, 1, 2, 1, 1})) {
      case 0:
        LOG("start " << i);
        if (m[i].on) {
          REQUIRE(refused([&] { t[i].Start(); }), "a running timer was started again");
        } else {
          t[i].Start();
          m[i].on = true;
          m[i].begin = now_ns;
        }
        break;
      case 1:
        LOG("stop " << i);
        if (m[i].on) {
          t[i].Stop();
          m[i].on = false;
          m[i].total += now_ns - m[i].begin;
          if (++m[i].stops >= 2) c.nontrivial = true;
        } else {
          REQUIRE(refused([&] { t[i].Stop(); }), "a timer which is not running was stopped");
        }
        break;
      case 2:
        LOG("reset " << i);
        t[i].Reset();
        m[i] = Model{};
        break;
      case 3: {
        const double d = 1e-9 * duration(s);
        LOG("sleep " << i << " until " << d);
        if (!m[i].on) {
          REQUIRE(refused([&] { t[i].sleepUntil(d); }), "a timer which is not running is waited for");
        } else {
          const long long passed = now_ns - m[i].begin;
          const long double left = d - 1e-9L * passed;
          slept_ns = 0;
          t[i].sleepUntil(d);
          LOG("  " << passed << " ns had passed, slept " << slept_ns);
          // The clock counts nanoseconds, and the time is a double
          const long double tol = 2e-9L + 1e-15L * 4 * (d + 1e-9L * passed);
          if (left > 0 && passed > 0) c.nontrivial = true;
          REQUIRE(std::fabs(1e-9L * slept_ns - (left > 0 ? left : 0)) <= tol,
                  "slept " << slept_ns << " ns instead of " << static_cast<double>(left) << " s");
        }
        break;
      }
      case 4:
        LOG("copy of " << i << " to " << 1 - i);
        if (s.coin()) {
          t[1 - i] = t[i];
        } else {
          il::Timer u{t[i]};
          t[1 - i] = u;
        }
        m[1 - i] = m[i];
        break;
      default: {
        const double d = 1e-9 * duration(s);
        LOG("sleep for " << d);
        slept_ns = 0;
        il::sleep(d);
        REQUIRE(std::fabs(1e-9L * slept_ns - d) <= 2e-9L + 1e-15L * 4 * d, "slept " << slept_ns << " ns");
      }
    }
    const long long d = duration(s);
    LOG("  then " << d << " ns");
    now_ns += d;
    for (int j = 0; j < 2; ++j) {
      REQUIRE(close(t[j].time(), 1e-9L * m[j].total), "time " << t[j].time() << " instead of " << static_cast<double>(1e-9L * m[j].total));
    }
  }
}

// What the last series of iterations of a program was
struct Series {
  long long count = 0;
  long long timed = 0;   // of the iterations, without the pauses
  long long whole = 0;   // from the call of the program to its end
};

struct Plan {
  std::vector<long long> cost;  // of the iterations, in turn
  long long paused = 0;
  long long setup = 0;
  long long warm = 0;  // added to each iteration of the first series
};

// Known finding (benchmark_next_series): the time of the last series is divided
// by the number of iterations that the next one would have had
bool known_divisor(double r, long double total, long long count, double goal) {
  // The number of iterations is rounded down from a quotient which is known up
  // to a nanosecond per iteration
  for (int k = -1; k <= 1; ++k) {
    const long double time = total + (k + 1) * 0.5e-9L * count + 1e-9L;
    const long double next = std::fmin(std::floor(goal / (time / count)), 10.0L * count);
    for (int j = -1; j <= 1; ++j) {
      if (next + j == count) continue;
      if (next + j <= 0 && std::isinf(r) && r > 0) return true;
      if (next + j > 0 && std::fabs(r - total / (next + j)) <= 1.01e-9L * count / (next + j) + 1e-12L * r) return true;
    }
  }
  return false;
}

PROPERTY(benchmark, 2) {
  Virtual v;
  const bool is_short = s.coin();
  const double goal = s.pick(std::vector<double>{1.0e-6, 1.0e-3, 1.0, 0.25, 60.0});
  const long long goal_ns = static_cast<long long>(goal * 1e9 + 0.5);
  // Between a 2000th of the goal and three times it
  const long long base = goal_ns * (s.coin() ? s.range(1, 40) : s.range(40, 6000)) / 2000 + 1;
  Plan p;
  const int nb = static_cast<int>(s.range(1, 3));
  for (int k = 0; k < nb; ++k) p.cost.push_back(k == 0 ? base : base * s.range(1, 8) / 4 + s.range(0, 3));
  if (s.chance(1, 3)) p.paused = s.range(1, goal_ns);
  if (s.chance(1, 3)) p.setup = s.range(1, goal_ns);
  if (s.chance(1, 3)) p.warm = base * s.range(0, 4);
  LOG((is_short ? "short benchmark" : "benchmark") << ", goal " << goal << " s, costs");
  for (const long long x : p.cost) LOG("  " << x << " ns");
  LOG("pause of " << p.paused << ", setup of " << p.setup << ", warm up of " << p.warm);
  if (nb > 1 || p.paused || p.warm || 2 * base > goal_ns) c.nontrivial = true;
  std::vector<Series> all;
  double r;
  if (is_short) {
    auto program = [&](il::io_t, il::BStateShort& state) {
      Series w;
      const long long begin = now_ns;
      now_ns += p.setup;
      while (state.keep_running()) {
        const long long x = p.cost[w.count % p.cost.size()] + (all.empty() ? p.warm : 0);
        now_ns += x;
        w.timed += x;
        ++w.count;
      }
      w.whole = now_ns - begin;
      all.push_back(w);
    };
    r = s.coin() || goal != 1.0 ? il::benchmark_short(program, goal) : il::benchmark_short(program);
  } else {
    auto program = [&](il::io_t, il::BState& state) {
      Series w;
      now_ns += p.setup;
      while (state.keep_running()) {
        const long long x = p.cost[w.count % p.cost.size()] + (all.empty() ? p.warm : 0);
        now_ns += x / 2;
        if (p.paused) {
          state.pause_timing();
          now_ns += p.paused;
          state.resume_timing();
        }
        now_ns += x - x / 2;
        w.timed += x;
        ++w.count;
      }
      now_ns += p.setup;
      all.push_back(w);
    };
    r = s.coin() || goal != 1.0 ? il::benchmark(program, goal) : il::benchmark(program);
  }
  REQUIRE(!all.empty(), "the program was not run");
  const Series& w = all.back();
  for (const Series& x : all) LOG("series of " << x.count << " iterations, " << x.timed << " ns of " << x.whole);
  LOG("result " << r);
  REQUIRE(w.count >= 1, "the last series has no iteration");
  const long double expected = 1e-9L * (is_short ? w.whole : w.timed) / w.count;
  if (known_divisor(r, expected * w.count, w.count, goal)) return;
  REQUIRE(std::fabs(r - expected) <= 1.01e-9L + 1e-12L * expected,
          "the result is " << r << " s for an iteration of " << static_cast<double>(expected) << " s");
}

// An iteration of 2 us with a goal of 1 us: the result is infinity
KNOWN_PROBE(benchmark_next_series) {
  Virtual v;
  const auto program = [](il::io_t, il::BStateShort& state) {
    while (state.keep_running()) now_ns += 2000;
  };
  const double r = il::benchmark_short(program, 1.0e-6);
  return !(r < 2.1e-6);
}

PROPERTY(state, 1) {
  Virtual v;
  const long long n = s.range(1, 60);
  il::BState b{n};
  il::BStateShort bs{n};
  long long timed = 0;
  long long count = 0;
  now_ns += duration(s);
  const bool pauses = s.coin();
  LOG(n << " iterations");
  while (b.keep_running()) {
    ++count;
    REQUIRE(count <= n, "more than " << n << " iterations");
    const long long d = duration(s);
    LOG("  iteration of " << d);
    now_ns += d;
    timed += d;
    if (pauses && s.chance(1, 3)) {
      c.nontrivial = true;
      b.pause_timing();
      const long long e = duration(s);
      LOG("  pause of " << e);
      now_ns += e;
      // keep_running starts the clock again when the program does not
      if (s.coin()) {
        b.resume_timing();
        const long long f = duration(s);
        LOG("  resumed for " << f);
        now_ns += f;
        timed += f;
      }
    }
  }
  now_ns += duration(s);
  REQUIRE(count == n, count << " iterations instead of " << n);
  REQUIRE(close(b.time(), 1e-9L * timed / n), "time " << b.time() << " instead of " << static_cast<double>(1e-9L * timed / n));
  count = 0;
  while (count <= n && bs.keep_running()) ++count;
  REQUIRE(count == n, count << " short iterations instead of " << n);
}

struct Unit {
  const char* name;
  long double value;
};
const Unit units[] = {
    {"nanosecond", 1e-9L}, {"microsecond", 1e-6L}, {"millisecond", 1e-3L}, {"second", 1.0L},
    {"minute", 60.0L},     {"hour", 3600.0L},      {"day", 86400.0L},      {"year", 365 * 86400.0L}};

PROPERTY(units, 1) {
  static_cast<void>(s.draw(1));
  REQUIRE(close(il::nanosecond, 1e-9L) && close(il::microsecond, 1e-6L) && close(il::millisecond, 1e-3L), "below the second");
  REQUIRE(il::second == 1.0 && il::minute == 60.0 && il::hour == 3600.0 && il::day == 86400.0 && il::year == 31536000.0, "above");
}

PROPERTY(duration_in_words, 4) {
  double t;
  switch (s.weighted({3, 3, 1, 1})) {
    case 0: {
      const Unit& u = units[s.draw(8)];
      t = static_cast<double>(u.value * s.pick(std::vector<long double>{1.0L, 0.5L, 2.0L, 59.0L, 999.0L, 1.5L, 364.0L, 23.0L}));
      for (std::int64_t k = s.range(-3, 3); k != 0; k += k > 0 ? -1 : 1) t = std::nextafter(t, k > 0 ? 1e300 : 0.0);
      break;
    }
    case 1: t = std::exp2(s.unit() * 40) * (1 + std::fabs(s.unit())); break;
    case 2: t = std::fabs(s.finiteDouble()); break;
    default: t = s.oneOf<double>({0.0, -0.0, 5e-324, 1e300});
  }
  LOG("t " << t);
  const std::string w = il::time_toString(t);
  LOG(w);
  for (const Unit& u : units)
    if (std::fabs(t - u.value) <= 1e-6L * u.value) c.nontrivial = true;
  char* end = nullptr;
  const long double number = std::strtold(w.c_str(), &end);
  REQUIRE(end != w.c_str() && *end == ' ', "no number in " << w);
  std::string name = end + 1;
  if (name.size() > 1 && name.back() == 's') name.pop_back();
  const Unit* u = nullptr;
  for (const Unit& x : units)
    if (name == x.name) u = &x;
  REQUIRE(u, "the unit of " << w);
  const long double wanted = t / u->value;
  REQUIRE(std::fabs(number - wanted) <= 0.5e-6L + 1e-14L * wanted, w << " for " << t << " seconds");
  // The largest unit in which the number is at least 1, and the second below
  // the nanosecond
  if (t < il::nanosecond) {
    REQUIRE(name == "second", w << " for " << t << " seconds");
  } else {
    REQUIRE(t >= static_cast<double>(u->value), "a smaller unit exists than in " << w << " for " << t << " seconds");
    if (u != units + 7) REQUIRE(t < static_cast<double>(u[1].value), "a larger unit exists than in " << w << " for " << t << " seconds");
  }
  const double bad = s.coin() ? -std::fabs(t) - 1e-300 : std::nan("");
  REQUIRE(refused([&] { il::time_toString(bad); }), "a duration of " << bad << " was accepted");
}

}  // namespace
