// Calls which a checked build has to refuse, and those that it has to accept.
#ifndef VERIF_REFUSAL_H
#define VERIF_REFUSAL_H

#include <setjmp.h>
#include <signal.h>

#include <climits>

#include "common.h"

namespace {
#ifdef PBT_ABORTS
// Without IL_UNIT_TEST, a precondition which does not hold aborts the program
}  // namespace
namespace aborts {
inline sigjmp_buf jump;
inline volatile sig_atomic_t armed = 0;
inline struct sigaction old_action;
inline void onAbort(int) {
  if (armed) {
    armed = 0;
    siglongjmp(jump, 1);
  }
  sigaction(SIGABRT, &old_action, nullptr);
}
inline void install() {
  static bool installed = false;
  if (installed) return;
  installed = true;
  struct sigaction a;
  std::memset(&a, 0, sizeof a);
  a.sa_handler = onAbort;
  a.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &a, &old_action);
}
}  // namespace aborts
namespace {
template <typename F>
bool rejected(F f) {
  aborts::install();
  if (sigsetjmp(aborts::jump, 0) == 0) {
    aborts::armed = 1;
    f();
    aborts::armed = 0;
    return false;
  }
  return true;
}
#else
template <typename F>
bool rejected(F f) {
  try {
    f();
  } catch (const il::AbortException&) {
    return true;
  }
  return false;
}
#endif

volatile long sink = 0;

struct Count {
  int accepted = 0, refused = 0;
};

template <typename F>
void expect(pbt::Ctx& c, Count& k, bool valid, const std::string& what, F f) {
  LOG(what << (valid ? "  valid" : "  invalid"));
  const bool r = rejected(f);
  if (valid)
    REQUIRE(!r, what << " is valid and was refused");
  else
    REQUIRE(r, what << " is not valid and was accepted");
  ++(valid ? k.accepted : k.refused);
}

// An index, for n valid values from 0 and a capacity
il::int_t index(pbt::Src& s, il::int_t n, il::int_t cap) {
  switch (s.weighted({10, 3, 3, 2, 2, 2, 1, 2, 1, 1})) {
    case 0: return n > 0 ? s.range(0, n - 1) : 0;
    case 1: return n;
    case 2: return -1;
    case 3: return n > 0 ? n - 1 : 0;
    case 4: return cap > n ? s.range(n, cap) : n + 1;
    case 5: return -s.range(1, n + cap + 2);
    case 6: return s.coin() ? LONG_MIN + s.range(0, 3) : LONG_MAX - s.range(0, 3);
    case 7: return s.range(-3, 3) * (1l << 32) + (n > 0 ? s.range(0, n - 1) : 0);
    case 8: return s.range(1, 3) * (1l << 29) * (s.coin() ? 1 : -1) + s.range(0, n);
    default: return s.i64();
  }
}
bool in(il::int_t i, il::int_t n) { return i >= 0 && i < n; }
}  // namespace

#endif  // VERIF_REFUSAL_H
