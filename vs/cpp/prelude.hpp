// Symbolic-execution prelude, force-included before the code under test.
// All standard / Eigen headers are included first; afterwards the tokens
// `double` and `float` denote the symbolic scalar Sym, and the std names for
// threads, futures and random draws denote the models below.
#pragma once
#include <Python.h>
#include <malloc.h>
#include <ucontext.h>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <algorithm>
// an Eigen precondition (index range, shape agreement) that fails ends the path with an error instead of the process
[[noreturn]] void vsym_eigen_assert(const char *what);
#define eigen_assert(x) do { if (!(x)) vsym_eigen_assert(#x); } while (false)
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <Eigen/Cholesky>

using vsym_native_double = double;
using vsym_native_float = float;

namespace nanobind { struct python_error; }
[[noreturn]] void vsym_throw();

// ---------------------------------------------------------------------------
// id == 0: concrete value v.   id > 0: arena entry (a Python term object).
struct Sym {
  double v;
  int64_t id;
  Sym() = default;
  template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
  constexpr Sym(T x) : v((double)x), id(0) {}
  constexpr Sym(double x, int64_t i) : v(x), id(i) {}
  explicit operator bool() const;
  template <class T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>, int> = 0>
#ifndef VS_IMPLICIT
  explicit
#endif
  operator T() const;
  inline Sym &operator+=(const Sym &o);
  inline Sym &operator-=(const Sym &o);
  inline Sym &operator*=(const Sym &o);
  inline Sym &operator/=(const Sym &o);
  inline Sym &operator++();
  inline Sym operator++(int);
  inline Sym &operator--();
  inline Sym operator--(int);
};
static_assert(std::is_trivially_copyable_v<Sym>, "");

PyObject *vsym_eng();
Sym vsym_from_py(PyObject *o, bool &ok);
PyObject *vsym_to_py(const Sym &s);
PyObject *vsym_out(const Sym &s);
Sym vsym_bin(const char *op, const Sym &a, const Sym &b);
Sym vsym_un(const char *op, const Sym &a);
bool vsym_cmp(const char *op, const Sym &a, const Sym &b);
int64_t vsym_trunc(const Sym &a);
void vsym_unsupported(const char *what);
int64_t vsym_choice(const char *what, int64_t n);
Sym vsym_fresh(const char *what, const Sym &a, const Sym &b);
PyObject *vsym_make_array(PyObject *list, PyObject *shape);
PyObject *vsym_sparse_type(const char *name);
void vsym_init(PyObject *m);
inline bool vsym_same(const Sym &a, const Sym &b) { return a.id == b.id && std::memcmp(&a.v, &b.v, 8) == 0; }

constexpr bool vsym_small(double x) { return x == __builtin_floor(x) && x <= 1e15 && x >= -1e15; }
constexpr bool vsym_conc(const Sym &a, const Sym &b) { return a.id == 0 && b.id == 0; }

constexpr Sym operator+(const Sym &a, const Sym &b) {
  if (vsym_conc(a, b)) { double r = a.v + b.v; if ((vsym_small(a.v) && vsym_small(b.v)) || !__builtin_isfinite(r)) return Sym(r); }
  if (a.id == 0 && a.v == 0) return b;
  if (b.id == 0 && b.v == 0) return a;
  return vsym_bin("add", a, b);
}
constexpr Sym operator-(const Sym &a, const Sym &b) {
  if (vsym_conc(a, b)) { double r = a.v - b.v; if ((vsym_small(a.v) && vsym_small(b.v)) || !__builtin_isfinite(r)) return Sym(r); }
  if (b.id == 0 && b.v == 0) return a;
  return vsym_bin("sub", a, b);
}
constexpr Sym operator*(const Sym &a, const Sym &b) {
  if (vsym_conc(a, b)) { double r = a.v * b.v; if ((vsym_small(a.v) && vsym_small(b.v) && vsym_small(r)) || !__builtin_isfinite(r)) return Sym(r); }
  if (a.id == 0 && a.v == 1) return b;
  if (b.id == 0 && b.v == 1) return a;
  return vsym_bin("mul", a, b);
}
constexpr Sym operator/(const Sym &a, const Sym &b) {
  if (vsym_conc(a, b)) { double r = a.v / b.v; if (!__builtin_isfinite(r) || !__builtin_isfinite(b.v) || (vsym_small(a.v) && vsym_small(b.v) && vsym_small(r) && r * b.v == a.v)) return Sym(r); }
  if (b.id == 0 && b.v == 1) return a;
  return vsym_bin("div", a, b);
}
constexpr Sym operator-(const Sym &a) { if (a.id == 0) return Sym(-a.v); return vsym_un("neg", a); }
constexpr Sym operator+(const Sym &a) { return a; }
#define VS_CMP(OP, NAME) constexpr bool operator OP(const Sym &a, const Sym &b) { if (vsym_conc(a, b)) return a.v OP b.v; return vsym_cmp(NAME, a, b); }
VS_CMP(<, "lt") VS_CMP(>, "gt") VS_CMP(<=, "le") VS_CMP(>=, "ge") VS_CMP(==, "eq") VS_CMP(!=, "ne")
#undef VS_CMP
#define VS_MIX(OP, RET) \
  template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> constexpr RET operator OP(const Sym &a, T b) { return a OP Sym(b); } \
  template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> constexpr RET operator OP(T a, const Sym &b) { return Sym(a) OP b; }
VS_MIX(+, Sym) VS_MIX(-, Sym) VS_MIX(*, Sym) VS_MIX(/, Sym)
VS_MIX(<, bool) VS_MIX(>, bool) VS_MIX(<=, bool) VS_MIX(>=, bool) VS_MIX(==, bool) VS_MIX(!=, bool)
#undef VS_MIX
constexpr bool operator!(const Sym &a) { return a == Sym(0); }
inline Sym &Sym::operator+=(const Sym &o) { return *this = *this + o; }
inline Sym &Sym::operator-=(const Sym &o) { return *this = *this - o; }
inline Sym &Sym::operator*=(const Sym &o) { return *this = *this * o; }
inline Sym &Sym::operator/=(const Sym &o) { return *this = *this / o; }
inline Sym &Sym::operator++() { return *this = *this + Sym(1); }
inline Sym Sym::operator++(int) { Sym t = *this; *this = *this + Sym(1); return t; }
inline Sym &Sym::operator--() { return *this = *this - Sym(1); }
inline Sym Sym::operator--(int) { Sym t = *this; *this = *this - Sym(1); return t; }
inline Sym::operator bool() const { return *this != Sym(0); }
template <class T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>, int>>
inline Sym::operator T() const {
  if (id == 0) return (T)v;
  if constexpr (!std::is_integral_v<T>) vsym_unsupported("symbolic value converted to a machine float");
  return (T)vsym_trunc(*this);
}
// result of floor / ceil / ...: integral value, may be used as an integer
struct SymI : Sym {
  SymI(const Sym &s) : Sym(s) {}
  template <class T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, int> = 0>
  operator T() const { return (T) static_cast<const Sym &>(*this); }
};

inline std::ostream &operator<<(std::ostream &o, const Sym &s) { return s.id ? o << "<sym>" : o << s.v; }

namespace vsym_math {
inline Sym sqrt(const Sym &a) { return vsym_un("sqrt", a); }
inline Sym log(const Sym &a) { return vsym_un("log", a); }
inline Sym log2(const Sym &a) { return vsym_un("log2", a); }
inline Sym log10(const Sym &a) { return vsym_un("log10", a); }
inline Sym log1p(const Sym &a) { return vsym_un("log", a + Sym(1)); }
inline Sym exp(const Sym &a) { return vsym_un("exp", a); }
inline Sym exp2(const Sym &a) { return vsym_bin("pow", Sym(2), a); }
inline Sym tanh(const Sym &a) { return vsym_un("tanh", a); }
inline Sym pow(const Sym &a, const Sym &b) { return vsym_bin("pow", a, b); }
inline Sym abs(const Sym &a) { return a.id == 0 ? Sym(std::fabs(a.v)) : vsym_un("abs", a); }
inline Sym fabs(const Sym &a) { return abs(a); }
inline SymI floor(const Sym &a) { return a.id == 0 ? Sym(std::floor(a.v)) : vsym_un("floor", a); }
inline SymI ceil(const Sym &a) { return a.id == 0 ? Sym(std::ceil(a.v)) : vsym_un("ceil", a); }
inline SymI round(const Sym &a) { return a.id == 0 ? Sym(std::round(a.v)) : vsym_un("round", a); }
inline SymI trunc(const Sym &a) { return a.id == 0 ? Sym(std::trunc(a.v)) : vsym_un("trunc", a); }
inline SymI rint(const Sym &a) { return a.id == 0 ? Sym(std::rint(a.v)) : vsym_un("rint", a); }
inline SymI nearbyint(const Sym &a) { return rint(a); }
inline int64_t lround(const Sym &a) { return (int64_t)round(a); }
inline int64_t llround(const Sym &a) { return (int64_t)round(a); }
inline bool isfinite(const Sym &a) { return a.id != 0 || std::isfinite(a.v); }
inline bool isinf(const Sym &a) { return a.id == 0 && std::isinf(a.v); }
inline bool isnan(const Sym &a) { return a.id == 0 && std::isnan(a.v); }
inline bool signbit(const Sym &a) { return a.id == 0 ? std::signbit(a.v) : a < Sym(0); }
inline Sym fmin(const Sym &a, const Sym &b) { return b < a ? b : a; }
inline Sym fmax(const Sym &a, const Sym &b) { return a < b ? b : a; }
inline Sym fma(const Sym &a, const Sym &b, const Sym &c) { return a * b + c; }
inline Sym hypot(const Sym &a, const Sym &b) { return sqrt(a * a + b * b); }
inline Sym cbrt(const Sym &a) { return vsym_bin("pow", a, Sym(1) / Sym(3)); }
#define VS_POWMIX(T) inline Sym pow(const Sym &a, T b) { return pow(a, Sym(b)); } inline Sym pow(T a, const Sym &b) { return pow(Sym(a), b); }
VS_POWMIX(int) VS_POWMIX(long) VS_POWMIX(unsigned) VS_POWMIX(unsigned long) VS_POWMIX(long long) VS_POWMIX(unsigned long long) VS_POWMIX(vsym_native_double) VS_POWMIX(vsym_native_float)
#undef VS_POWMIX
// transcendental functions of integer / literal arguments stay exact terms
#define VS_INTFN(F) \
  template <class T, std::enable_if_t<std::is_integral_v<T>, int> = 0> inline Sym F(T x) { return F(Sym(x)); } \
  inline Sym F(vsym_native_double x) { return F(Sym(x)); } inline Sym F(vsym_native_float x) { return F(Sym(x)); }
VS_INTFN(sqrt) VS_INTFN(log) VS_INTFN(log2) VS_INTFN(log10) VS_INTFN(log1p) VS_INTFN(exp)
#undef VS_INTFN
template <class T, class U, std::enable_if_t<std::is_arithmetic_v<T> && std::is_arithmetic_v<U>, int> = 0>
inline Sym pow(T a, U b) { return pow(Sym(a), Sym(b)); }
template <class T, std::enable_if_t<std::is_integral_v<T>, int> = 0> inline T abs(T x) { return x < 0 ? -x : x; }
inline vsym_native_double abs(vsym_native_double x) { return std::fabs(x); }
inline vsym_native_double fabs(vsym_native_double x) { return std::fabs(x); }
inline vsym_native_double floor(vsym_native_double x) { return std::floor(x); }
inline vsym_native_double ceil(vsym_native_double x) { return std::ceil(x); }
inline vsym_native_double round(vsym_native_double x) { return std::round(x); }
inline bool isfinite(vsym_native_double x) { return std::isfinite(x); }
inline bool isinf(vsym_native_double x) { return std::isinf(x); }
inline bool isnan(vsym_native_double x) { return std::isnan(x); }
} // namespace vsym_math
// ADL-visible versions for Eigen and unqualified calls
#define VS_FWD(F) inline auto F(const Sym &a) { return vsym_math::F(a); }
VS_FWD(sqrt) VS_FWD(log) VS_FWD(log2) VS_FWD(log10) VS_FWD(log1p) VS_FWD(exp) VS_FWD(tanh) VS_FWD(abs) VS_FWD(fabs) VS_FWD(floor) VS_FWD(ceil) VS_FWD(round) VS_FWD(trunc) VS_FWD(rint)
VS_FWD(isfinite) VS_FWD(isinf) VS_FWD(isnan)
#undef VS_FWD
inline Sym pow(const Sym &a, const Sym &b) { return vsym_math::pow(a, b); }
template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> inline Sym pow(const Sym &a, T b) { return vsym_math::pow(a, Sym(b)); }
inline Sym conj(const Sym &a) { return a; }
inline Sym real(const Sym &a) { return a; }
inline Sym imag(const Sym &) { return Sym(0); }
inline Sym abs2(const Sym &a) { return a * a; }

namespace std {
#define VS_FWD(F) inline auto F(const Sym &a) { return vsym_math::F(a); }
VS_FWD(sqrt) VS_FWD(log) VS_FWD(log2) VS_FWD(log10) VS_FWD(log1p) VS_FWD(exp) VS_FWD(tanh) VS_FWD(abs) VS_FWD(fabs) VS_FWD(floor) VS_FWD(ceil) VS_FWD(round) VS_FWD(trunc) VS_FWD(rint) VS_FWD(nearbyint)
VS_FWD(isfinite) VS_FWD(isinf) VS_FWD(isnan) VS_FWD(signbit) VS_FWD(lround) VS_FWD(llround) VS_FWD(exp2) VS_FWD(cbrt)
#undef VS_FWD
using vsym_math::fmin; using vsym_math::fmax; using vsym_math::fma; using vsym_math::hypot;
inline Sym pow(const Sym &a, const Sym &b) { return vsym_math::pow(a, b); }
template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> inline Sym pow(const Sym &a, T b) { return vsym_math::pow(a, Sym(b)); }
template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> inline Sym pow(T a, const Sym &b) { return vsym_math::pow(Sym(a), b); }
template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> inline Sym max(const Sym &a, const T &b) { return a < Sym(b) ? Sym(b) : a; }
template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> inline Sym max(const T &a, const Sym &b) { return Sym(a) < b ? b : Sym(a); }
template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> inline Sym min(const Sym &a, const T &b) { return Sym(b) < a ? Sym(b) : a; }
template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> inline Sym min(const T &a, const Sym &b) { return b < Sym(a) ? b : Sym(a); }
template <> struct numeric_limits<Sym> {
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false, has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = true, is_iec559 = true, is_bounded = true, is_modulo = false;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2, min_exponent = -1021, max_exponent = 1024, min_exponent10 = -307, max_exponent10 = 308;
  static constexpr Sym infinity() { return Sym(std::numeric_limits<vsym_native_double>::infinity()); }
  static constexpr Sym quiet_NaN() { return Sym(std::numeric_limits<vsym_native_double>::quiet_NaN()); }
  static constexpr Sym signaling_NaN() { return quiet_NaN(); }
  static constexpr Sym epsilon() { return Sym(std::numeric_limits<vsym_native_double>::epsilon()); }
  static constexpr Sym min() { return Sym(std::numeric_limits<vsym_native_double>::min()); }
  static constexpr Sym max() { return Sym(std::numeric_limits<vsym_native_double>::max()); }
  static constexpr Sym lowest() { return Sym(std::numeric_limits<vsym_native_double>::lowest()); }
  static constexpr Sym denorm_min() { return min(); }
};
template <> struct hash<Sym> { size_t operator()(const Sym &s) const { return s.id ? 1u : std::hash<vsym_native_double>()(s.v); } };
} // namespace std

namespace Eigen {
template <> struct NumTraits<Sym> : GenericNumTraits<Sym> {
  typedef Sym Real; typedef Sym NonInteger; typedef Sym Literal; typedef Sym Nested;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 3, MulCost = 3 };
  static inline Sym epsilon() { return Sym(std::numeric_limits<vsym_native_double>::epsilon()); }
  // exact arithmetic: "is zero" means exactly zero
  static inline Sym dummy_precision() { return Sym(0); }
  static inline Sym highest() { return std::numeric_limits<Sym>::max(); }
  static inline Sym lowest() { return std::numeric_limits<Sym>::lowest(); }
  static inline Sym infinity() { return std::numeric_limits<Sym>::infinity(); }
  static inline Sym quiet_NaN() { return std::numeric_limits<Sym>::quiet_NaN(); }
  static inline int digits10() { return 15; }
};
#define VS_BIN(T) \
template <typename Op> struct ScalarBinaryOpTraits<Sym, T, Op> { typedef Sym ReturnType; }; \
template <typename Op> struct ScalarBinaryOpTraits<T, Sym, Op> { typedef Sym ReturnType; };
VS_BIN(vsym_native_double) VS_BIN(vsym_native_float) VS_BIN(int) VS_BIN(long)
#undef VS_BIN
namespace internal {
#ifdef VS_BLOCK2
// the native build processes SLIM columns in SIMD-width blocks; keep blocks of
// width 2 so that the block logic is exercised (no vectorised kernels exist).
template <> struct packet_traits<Sym> : default_packet_traits {
  typedef Sym type; typedef Sym half;
  enum { Vectorizable = 0, size = 2, AlignedOnScalar = 0, HasHalfPacket = 0 };
  enum { HasAdd = 0, HasSub = 0, HasMul = 0, HasNegate = 0, HasAbs = 0, HasAbs2 = 0, HasMin = 0, HasMax = 0, HasConj = 0, HasSetLinear = 0 };
};
template <> struct unpacket_traits<Sym> { typedef Sym type; typedef Sym half; enum { size = 1, alignment = alignof(Sym), vectorizable = false, masked_load_available = false, masked_store_available = false }; };
inline void ptranspose(PacketBlock<Sym, 2> &) { vsym_unsupported("vectorised transposition"); }
#endif
} // namespace internal
} // namespace Eigen

// ---------------------------------------------------------------------------
// Threads: coroutines over the real closures.  A scheduling point exists
// before every atomic read-modify-write, at thread start and at thread end;
// the scheduler's decisions are choices of the exploration engine.
namespace vsym_sched {
struct Task {
  ucontext_t ctx; std::vector<char> stack; std::function<void()> fn;
  bool done = false, started = false; const bool *waits = nullptr; std::exception_ptr err;
  bool runnable() const { return !done && !(waits && *waits); }
  PyThreadState *dummy = nullptr;
};
struct Sched {
  std::vector<std::shared_ptr<Task>> tasks; Task *current = nullptr; ucontext_t main_ctx;
  Task *last = nullptr; int preemptions = 0;
  int bound() { static int b = [] { const char *e = getenv("VS_PREEMPT"); return e ? atoi(e) : 2; }(); return b; }
};
inline Sched &S() { static Sched s; return s; }
inline void entry() {
  Task *t = S().current;
  try { t->fn(); } catch (...) { t->err = std::current_exception(); }
  t->done = true;
  swapcontext(&t->ctx, &S().main_ctx);
}
inline void resume(Task *t) {
  Sched &s = S();
  Task *prev = s.current; s.current = t;
  if (!t->started) {
    t->started = true;
    t->stack.resize(512 * 1024);
    getcontext(&t->ctx);
    t->ctx.uc_stack.ss_sp = t->stack.data(); t->ctx.uc_stack.ss_size = t->stack.size(); t->ctx.uc_link = &s.main_ctx;
    makecontext(&t->ctx, (void (*)())entry, 0);
  }
  ucontext_t saved = s.main_ctx;
  swapcontext(&s.main_ctx, &t->ctx);
  s.main_ctx = saved;
  s.current = prev;
}
inline void yield_point() {
  Sched &s = S();
  if (s.current) { Task *t = s.current; swapcontext(&t->ctx, &s.main_ctx); }
}
// main waits for `want`: repeatedly pick a runnable task
inline void wait_for(Task *want) {
  Sched &s = S();
  if (s.current) {  // a worker waiting on another worker: run it inline
    while (!want->done) { resume(want); }
    return;
  }
  while (!want->done) {
    // delay-bounded: at most bound() deviations from the default order (keep running the current task, else the
    // oldest runnable one), anywhere on the path
    std::vector<Task *> run;
    for (auto &t : s.tasks) if (t->runnable() && t.get() == s.last) run.push_back(t.get());
    for (auto &t : s.tasks) if (t->runnable() && t.get() != s.last) run.push_back(t.get());
    if (run.empty()) { vsym_unsupported("deadlock"); }
    int64_t k = 0;
    if (run.size() > 1 && s.preemptions < s.bound()) {
      k = vsym_choice("sched", (int64_t)run.size());
      if (k != 0) s.preemptions++;
    }
    s.last = run[(size_t)k];
    resume(run[(size_t)k]);
  }
}
inline void reap() {
  Sched &s = S();
  std::vector<std::shared_ptr<Task>> keep;
  for (auto &t : s.tasks) if (!t->done) keep.push_back(t);
  s.tasks.swap(keep);
  bool live = false;  // a reaped task's address may be reused
  for (auto &t : s.tasks) if (t.get() == s.last) live = true;
  if (!live) s.last = nullptr;
}
inline std::shared_ptr<Task> spawn(std::function<void()> f) {
  auto t = std::make_shared<Task>(); t->fn = std::move(f);
  S().tasks.push_back(t);
  return t;
}
} // namespace vsym_sched

namespace std {
struct vsym_thread {
  using id = int;
  std::shared_ptr<vsym_sched::Task> t;
  vsym_thread() = default;
  template <class F, class... A> explicit vsym_thread(F &&f, A &&...a) {
    auto g = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
    t = vsym_sched::spawn([g] { std::apply([](auto &ff, auto &...aa) { std::invoke(ff, aa...); }, *g); });
  }
  vsym_thread(vsym_thread &&) = default;
  vsym_thread &operator=(vsym_thread &&) = default;
  vsym_thread(const vsym_thread &) = delete;
  bool joinable() const { return (bool)t; }
  void join() {
    vsym_sched::wait_for(t.get()); auto k = t; t.reset(); vsym_sched::reap();
    if (k->err) { // a real std::thread would call std::terminate
      std::rethrow_exception(k->err); }
  }
  void detach() { vsym_sched::wait_for(t.get()); t.reset(); }
  static unsigned hardware_concurrency() { return 2; }
  ~vsym_thread() { if (t && !t->done && !std::uncaught_exceptions()) { try { vsym_sched::wait_for(t.get()); } catch (...) {} } }
};
template <class T> struct vsym_future_state { std::shared_ptr<vsym_sched::Task> t; std::optional<T> v; };
template <> struct vsym_future_state<void> { std::shared_ptr<vsym_sched::Task> t; };
template <class T> struct vsym_future {
  std::shared_ptr<vsym_future_state<T>> s;
  vsym_future() = default;
  vsym_future(vsym_future &&) = default;
  vsym_future &operator=(vsym_future &&o) { finish(); s = std::move(o.s); return *this; }
  vsym_future(const vsym_future &) = delete;
  bool valid() const { return (bool)s; }
  void wait() const { vsym_sched::wait_for(s->t.get()); }
  T get() {
    wait();
    auto k = s; s.reset(); vsym_sched::reap();
    if (k->t->err) std::rethrow_exception(k->t->err);
    if constexpr (!std::is_void_v<T>) return std::move(*k->v);
  }
  void finish() { if (s && !s->t->done) { try { vsym_sched::wait_for(s->t.get()); } catch (...) {} } s.reset(); }
  ~vsym_future() { finish(); }
};
template <class F, class... A> auto vsym_async_impl(F &&f, A &&...a) {
  using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>;
  auto st = std::make_shared<vsym_future_state<R>>();
  auto g = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
  auto *raw = st.get();
  st->t = vsym_sched::spawn([raw, g] {
    if constexpr (std::is_void_v<R>) std::apply([](auto &ff, auto &...aa) { std::invoke(ff, aa...); }, *g);
    else raw->v.emplace(std::apply([](auto &ff, auto &...aa) -> R { return std::invoke(ff, aa...); }, *g));
  });
  vsym_future<R> fu; fu.s = st;
  return fu;
}
enum class vsym_launch { vsym_async = 1, deferred = 2 };
inline vsym_launch operator|(vsym_launch a, vsym_launch b) { return (vsym_launch)((int)a | (int)b); }
template <class F, class... A, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, vsym_launch>>>
auto vsym_async(F &&f, A &&...a) { return vsym_async_impl(std::forward<F>(f), std::forward<A>(a)...); }
template <class F, class... A> auto vsym_async(vsym_launch, F &&f, A &&...a) { return vsym_async_impl(std::forward<F>(f), std::forward<A>(a)...); }

template <class T> struct vsym_atomic {
  T v;
  vsym_atomic() : v() {}
  constexpr vsym_atomic(T x) : v(x) {}
  vsym_atomic(const vsym_atomic &) = delete;
  T load(std::memory_order = std::memory_order_seq_cst) const { vsym_sched::yield_point(); return v; }
  void store(T x, std::memory_order = std::memory_order_seq_cst) { vsym_sched::yield_point(); v = x; }
  operator T() const { return load(); }
  T operator=(T x) { store(x); return x; }
  T exchange(T x, std::memory_order = std::memory_order_seq_cst) { vsym_sched::yield_point(); T o = v; v = x; return o; }
  template <class U> T fetch_add(U d, std::memory_order = std::memory_order_seq_cst) { vsym_sched::yield_point(); T o = v; v = (T)(v + (T)d); return o; }
  template <class U> T fetch_sub(U d, std::memory_order = std::memory_order_seq_cst) { vsym_sched::yield_point(); T o = v; v = (T)(v - (T)d); return o; }
  T operator++() { return fetch_add(1) + 1; }
  T operator++(int) { return fetch_add(1); }
  T operator+=(T d) { return fetch_add(d) + d; }
  bool compare_exchange_strong(T &e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) {
    vsym_sched::yield_point(); if (v == e) { v = d; return true; } e = v; return false; }
  bool compare_exchange_weak(T &e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) { return compare_exchange_strong(e, d); }
};

struct vsym_mutex {
  bool held = false;
  void lock() { vsym_sched::yield_point(); while (held) { auto *c = vsym_sched::S().current; if (!c) vsym_unsupported("deadlock"); c->waits = &held; vsym_sched::yield_point(); c->waits = nullptr; } held = true; }
  bool try_lock() { vsym_sched::yield_point(); if (held) return false; held = true; return true; }
  void unlock() { held = false; }
};
// randomness: arbitrary draws
template <class It, class G> void vsym_shuffle(It b, It e, G &&) {
  auto n = e - b;
  for (auto i = n - 1; i > 0; --i) {
    int64_t k = vsym_choice("shuffle", (int64_t)i + 1);
    if (k != i) std::iter_swap(b + i, b + k);
  }
}
template <class T = int> struct vsym_uid {
  T a, b;
  using result_type = T;
  explicit vsym_uid(T a_ = 0, T b_ = std::numeric_limits<T>::max()) : a(a_), b(b_) {}
  template <class G> T operator()(G &&) { if (b <= a) return a; return (T)(a + (T)vsym_choice("uniform_int", (int64_t)(b - a) + 1)); }
};
template <class T = Sym> struct vsym_normal {
  Sym m, s;
  explicit vsym_normal(Sym m_ = Sym(0), Sym s_ = Sym(1)) : m(m_), s(s_) {}
  // the draw is an arbitrary function of the generator's state: equal states give equal draws
  template <class G> Sym operator()(G &&g) {
    uint64_t x = (uint64_t)g(), y = (uint64_t)g();
    return m + s * vsym_fresh("normal", Sym((int64_t)(x & 0xffffffffu)), Sym((int64_t)(y & 0xffffffffu))); }
};
template <class T = Sym> struct vsym_urd {
  Sym a, b;
  explicit vsym_urd(Sym a_ = Sym(0), Sym b_ = Sym(1)) : a(a_), b(b_) {}
  template <class G> Sym operator()(G &&) { return vsym_fresh("uniform", a, b); }
};
} // namespace std

#include "sym_impl.hpp"
#include <nanobind/nanobind.h>
inline void vsym_throw_impl() { throw nanobind::python_error(); }
[[noreturn]] void vsym_throw() { vsym_throw_impl(); __builtin_unreachable(); }

[[noreturn]] void vsym_eigen_assert(const char *what) { PyErr_SetString(PyExc_AssertionError, what); vsym_throw(); }

#define double Sym
#define float Sym
#define thread vsym_thread
#define future vsym_future
#define async vsym_async
#define launch vsym_launch
#define atomic vsym_atomic
#define mutex vsym_mutex
#define shuffle vsym_shuffle
#define uniform_int_distribution vsym_uid
#define normal_distribution vsym_normal
#define uniform_real_distribution vsym_urd
