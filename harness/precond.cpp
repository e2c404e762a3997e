// C22 monitor: violated preconditions stop the program as configured; satisfied ones never do.
// Every scenario runs in a forked child; the parent observes how the child ended.
#include <vir/simd_execution.h>
#include "fb.h"
#include <span>
#include <sys/time.h>
#include <sys/wait.h>
#include <vector>
#include <climits>
#define LEVEL VIR_CHECK_PRECONDITIONS

struct outcome { bool completed = false; int sig = 0, code = -1; std::string err; };

template <typename F>
static outcome observe(F&& f)
{
  int pe[2], pc[2];
  if (pipe(pe) or pipe(pc)) std::_Exit(9);
  std::fflush(stdout);
  const pid_t pid = fork();
  if (pid < 0) std::_Exit(9);
  if (pid == 0)
    {
      for (int s : {SIGILL, SIGTRAP, SIGABRT, SIGFPE, SIGXCPU, SIGPROF, SIGSEGV, SIGBUS})
        signal(s, SIG_DFL);
      dup2(pe[1], 2);
      const itimerval limit = {{0, 0}, {2, 0}};
      setitimer(ITIMER_PROF, &limit, nullptr); // a call that never returns
      close(pe[0]); close(pc[0]);
      f();
      (void)!write(pc[1], "C", 1);
      _exit(0);
    }
  close(pe[1]); close(pc[1]);
  outcome o;
  char b[4096];
  for (ssize_t n; (n = read(pe[0], b, sizeof b)) > 0;) o.err.append(b, n);
  o.completed = read(pc[0], b, 1) == 1;
  close(pe[0]); close(pc[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) o.sig = WTERMSIG(st);
  else o.code = WEXITSTATUS(st);
  return o;
}

// f must hold its preconditions iff ok
template <typename F>
static void scenario(bool ok, F&& f, const char* needle1 = nullptr, const char* needle2 = nullptr)
{
  if (not ok and LEVEL < 2)
    return; // undefined by configuration
  const outcome o = observe(f);
  static int hung = 0;
  if (o.sig == SIGPROF and ++hung == 3)
    {
      mon::fail("the call does not return");
      std::exit(mon::finish());
    }
  ++mon::evals;
  ++mon::events;
  if (ok)
    {
      if (not o.completed or o.sig or o.code)
        mon::fail("a call with satisfied preconditions ended the program (signal %d, status %d): %.200s", o.sig, o.code,
                  o.err.c_str());
      else if (not o.err.empty())
        mon::fail("a call with satisfied preconditions printed: %.200s", o.err.c_str());
      return;
    }
  mon::nontrivial();
  if (o.completed)
    mon::fail("violated precondition went unnoticed: the call completed");
  else if (LEVEL < 4)
    {
      if (o.sig != SIGILL and o.sig != SIGTRAP)
        mon::fail("expected a trap, got signal %d, status %d: %.200s", o.sig, o.code, o.err.c_str());
    }
  else
    {
      if (o.sig != SIGABRT)
        mon::fail("expected abort, got signal %d, status %d: %.200s", o.sig, o.code, o.err.c_str());
      else if (o.err.find("precondition failure") == std::string::npos)
        mon::fail("no message about the failed precondition printed, only: %.200s", o.err.c_str());
      else if (needle1 and o.err.find(needle1) == std::string::npos)
        mon::fail("the message does not contain '%s': %.300s", needle1, o.err.c_str());
      else if (needle2 and o.err.find(needle2) == std::string::npos)
        mon::fail("the message does not contain '%s': %.300s", needle2, o.err.c_str());
    }
}

template <typename T> [[gnu::noinline]] static T opaque(T x) { asm volatile("" : "+r"(x)); return x; }
template <typename T> static void sink(const T& x) { asm volatile("" :: "r"(&x) : "memory"); }

#if FALLBACK
template <typename V>
static void subscripts(const char* tn)
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr std::size_t N = V::size();
  std::vector<std::size_t> idx;
  for (std::size_t i = 0; i < 2 * N + 3; ++i) idx.push_back(i);
  for (std::size_t i : {std::size_t(255), std::size_t(256), std::size_t(256) + N - 1, std::size_t(65536), std::size_t(1) << 31, (std::size_t(1) << 32),
                        (std::size_t(1) << 32) + N - 1, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - N, SIZE_MAX / 2 + 1, SIZE_MAX / 2})
    idx.push_back(i);
  for (std::size_t i : idx)
    {
      const bool ok = i < N;
      char want[32];
      std::snprintf(want, sizeof want, "%zu", i);
      mon::begin("subscript", tn, N, i, 0);
      scenario(ok, [&] { const V v = T(1); sink(v); const std::size_t k = opaque(i); sink(T(v[k])); }, want);
      mon::begin("subscript", tn, N, i, 1);
      scenario(ok, [&] { V v = T(1); sink(v); const std::size_t k = opaque(i); v[k] = T(3); sink(v); }, want);
      mon::begin("subscript mask", tn, N, i, 2);
      scenario(ok, [&] { const M v(true); sink(v); const std::size_t k = opaque(i); sink(bool(v[k])); }, want);
      mon::begin("subscript mask", tn, N, i, 3);
      scenario(ok, [&] { M v(true); sink(v); const std::size_t k = opaque(i); v[k] = false; sink(v); }, want);
      mon::begin("subscript read non-const", tn, N, i, 4);
      scenario(ok, [&] { V v = T(1); sink(v); const std::size_t k = opaque(i); T x = v[k]; sink(x); }, want);
      mon::begin("subscript read non-const mask", tn, N, i, 5);
      scenario(ok, [&] { M v(true); sink(v); const std::size_t k = opaque(i); bool x = v[k]; sink(x); }, want);
    }
  // find_*_set
  std::vector<long> bits = {-1}; // -1: empty
  for (std::size_t i = 0; i < N; ++i) bits.push_back(i);
  for (long b : bits)
    for (int last = 0; last < 2; ++last)
      {
        mon::begin("find_set", tn, N, b, last);
        scenario(b >= 0, [&] {
          M k(false);
          for (std::size_t i = 0; i < N; ++i) k[i] = opaque(int(i) == b);
          sink(k);
          const int r = last ? find_last_set(k) : find_first_set(k);
          if (r != b) { std::fprintf(stderr, "wrong result %d", r); }
        });
      }
}
#endif

template <typename T, typename Pol>
static void matching(Pol pol, const char* name)
{
  constexpr int W = vir::simdize<T, Pol::SIZE>::size();
  alignas(64) static T in[1024], in2[1024], out[1024];
  for (int n = 0; n <= 1024; n += (n < 3 * W + 2 ? 1 : (W > 3 ? W / 3 : 1) + (n > 200 ? 61 : 0)))
    {
      const bool ok = n % W == 0;
      const char* want = nullptr;
      char nb[32];
      std::snprintf(nb, sizeof nb, "%d", n);

      want = nb;
      int v = 0;
#define SC(what, ...) mon::begin(what, name, n, W, v++, sizeof(T)); \
      scenario(ok, [&] { for (auto& x : in) x = T(1); sink(in); const int k = opaque(n); T* b = opaque(&in[0]); T* b2 = opaque(&in2[0]); \
                         T* o = opaque(&out[0]); __VA_ARGS__; sink(out); }, want)
      SC("for_each const", vir::for_each(pol.real(), (const T*)b, (const T*)b + k, [&](auto... x) { (sink(x), ...); }));
      SC("for_each write", vir::for_each(pol.real(), b, b + k, [&](auto&... x) { ((x += T(1)), ...); }));
      SC("for_each range", vir::for_each(pol.real(), std::span<T>(b, k), [&](auto&... x) { ((x += T(1)), ...); }));
      if constexpr (Pol::UNROLL == 0)
        {
          SC("transform", vir::transform(pol.real(), b, b + k, o, [](auto x) { return x + x; }));
          SC("transform binary", vir::transform(pol.real(), b, b + k, b2, o, [](auto x, auto y) { return x + y; }));
          SC("transform range", std::span<T> so(o, k); vir::transform(pol.real(), std::span<T>(b, k), so, [](auto x) { return x + x; }));
          SC("transform_reduce", T r = vir::transform_reduce(pol.real(), b, b + k, T(), std::plus<>(), [](auto x) { return x; }); sink(r));
          SC("transform_reduce dot", T r = vir::transform_reduce(pol.real(), b, b + k, b2, T()); sink(r));
          SC("reduce", T r = vir::reduce(pol.real(), b, b + k); sink(r));
          SC("reduce init op", T r = vir::reduce(pol.real(), b, b + k, T(2), std::plus<>()); sink(r));
          SC("count_if", int r = vir::count_if(pol.real(), b, b + k, [](auto x) { return x == x; }); sink(r));
        }
      else
        {
          SC("transform u", vir::transform(pol.real(), b, b + k, o, [](auto x) { return x + x; }));
          SC("reduce u", T r = vir::reduce(pol.real(), b, b + k); sink(r));
          SC("count_if u", int r = vir::count_if(pol.real(), b, b + k, [](auto x) { return x == x; }); sink(r));
        }
#undef SC
    }
}

template <typename R, int S, int U> struct pd { static constexpr R real() { return {}; } static constexpr int SIZE = S, UNROLL = U; };
#define P(sz, un, x) pd<std::remove_cvref_t<decltype(x)>, sz, un>(), #x

int main(int argc, char** argv)
{
  mon::init(argc, argv);
#if PART == 0
  for_all_types([]<typename X>(X) {
    using T = typename X::t;
    for_all_simds<T>([]<typename Y>(Y) {
      using V = typename Y::t;
      subscripts<V>(mon::type_name<typename V::value_type>());
    });
  });
#else
  for_all_types([]<typename X>(X) {
    using T = typename X::t;
    constexpr auto simd = vir::execution::simd;
    matching<T>(P(0, 0, simd.assume_matching_size()));
    matching<T>(P(4, 0, simd.prefer_size<4>().assume_matching_size()));
    matching<T>(P(5, 0, simd.assume_matching_size().prefer_size<5>()));
    matching<T>(P(0, 3, simd.unroll_by<3>().assume_matching_size()));
    matching<T>(P(3, 2, simd.assume_matching_size().unroll_by<2>().prefer_size<3>()));
  });
#endif
  return mon::finish();
}
