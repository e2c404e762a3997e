// C01 monitor: for_each. Every lane handed to the callable is logged; offline the log is compared
// with the range content as a multiset (exactly-once), memory is compared with the lane-wise model.
#include "policies.h"
#include <algorithm>
#include <array>
#include <map>
#include <span>
#include <vector>

#ifndef ELT
#define ELT int
#endif

using T = ELT;

static std::vector<T> lane_log;
static std::uint64_t calls;

template <typename V>
static void log_lanes(const V& v)
{
  for (std::size_t i = 0; i < V::size(); ++i)
    {
      lane_log.push_back(T(v[i]));
      ++mon::events;
    }
}

static T f_of(T x) // what the mutating callable does to a lane
{ return static_cast<T>(x + T(1)); }

static void check_log(const std::vector<T>& expect)
{
  ++mon::evals;
  if (lane_log.size() != expect.size())
    {
      mon::fail("callable saw %zu lanes for %zu elements", lane_log.size(), expect.size());
      return;
    }
  std::vector<T> a = lane_log, b = expect;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  for (std::size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i])
      {
        mon::fail("lane multiset differs from range: sorted pos %zu saw %Lg expected %Lg", i,
                  (long double)a[i], (long double)b[i]);
        return;
      }
}

template <typename Exp>
static void check_mem(const T* p, std::size_t n, Exp&& e)
{
  ++mon::evals;
  for (std::size_t i = 0; i < n; ++i)
    if (p[i] != e(i))
      {
        mon::fail("element %zu of %zu is %Lg, expected %Lg", i, n, (long double)p[i],
                  (long double)e(i));
        return;
      }
}

static void check_guard(mon::arena& a)
{
  if (long long off = a.check(); off != mon::arena::intact)
    mon::fail("byte at offset %lld relative to the range was modified", off);
}

struct functor
{
  std::size_t lanes = 0;
  template <typename... Vs>
  void operator()(const Vs&... vs) { ((lanes += Vs::size()), ...); (log_lanes(vs), ...); }
};

template <typename Pol>
static void one(Pol pol, const char* name, mon::arena& ar, std::size_t n, std::size_t mis,
                bool at_end, int variant)
{
  mon::begin("for_each", name, n, mis, at_end, variant);
  T* p = static_cast<T*>(ar.place(n * sizeof(T), mis * sizeof(T), at_end));
  std::vector<T> before(n);
  for (std::size_t i = 0; i < n; ++i)
    p[i] = before[i] = id_of<T>(i);
  ar.arm();
  lane_log.clear();
  switch (variant)
    {
    case 0: // write-back, iterators
      vir::for_each(pol.real(), p, p + n, [](auto&... x) {
        (log_lanes(x), ...);
        ((x += T(1)), ...);
      });
      check_guard(ar);
      check_log(before);
      check_mem(p, n, [&](std::size_t i) { return f_of(before[i]); });
      break;
    case 1: // by value: callable modifies its own copy only. range overload
      vir::for_each(pol.real(), std::span<T>(p, n), [](auto... x) {
        (log_lanes(x), ...);
        ((x += T(1)), ...);
      });
      check_guard(ar);
      check_log(before);
      check_mem(p, n, [&](std::size_t i) { return before[i]; });
      break;
    case 2: // const iterators, std:: overload, stateful lvalue functor
      {
        functor fn;
        const T* q = p;
        std::for_each(pol.real(), q, q + n, fn);
        check_guard(ar);
        check_log(before);
        check_mem(p, n, [&](std::size_t i) { return before[i]; });
        if (fn.lanes != n)
          mon::fail("functor state saw %zu lanes, expected %zu", fn.lanes, n);
        break;
      }
    case 3: // write back of a lane-position dependent value through std::for_each
      {
        T counter = T(7);
        std::for_each(pol.real(), p, p + n, [&](auto&... x) {
          auto one_v = [&](auto& v) {
            log_lanes(v);
            for (std::size_t i = 0; i < v.size(); ++i)
              {
                v[i] = static_cast<T>(T(v[i]) * T(2) + counter);
              }
          };
          (one_v(x), ...);
        });
        check_guard(ar);
        check_log(before);
        check_mem(p, n, [&](std::size_t i) { return static_cast<T>(before[i] * T(2) + counter); });
        break;
      }
    }
  if (n > 0)
    mon::nontrivial();
}

template <typename Pol>
static void sweep(Pol pol, const char* name)
{
  using V = vir::simdize<T, Pol::_size>;
  constexpr int W = V::size();
  constexpr int U = Pol::_unroll_by;
  const int N = sweep_len(W, U);
  static mon::arena ar((4 * 4096 + 1024) + 4096 * sizeof(T));
  const int mis_max = std::max<int>(1, 64 / sizeof(T));
  if constexpr (Pol::_assume_matching_size)
    {
      for (int m = 0; m <= 4 * std::max(U, 1) + 3; ++m)
        for (int mis = 0; mis < mis_max; mis += (mis_max > 16 ? 5 : 1))
          for (int v = 0; v < 4; ++v)
            one(pol, name, ar, m * W, mis, (m + mis) & 1, v);
    }
  else
    {
      const bool prologue = Pol::_prefers_aligned or Pol::_auto_prologue;
      int rot = 0;
      for (int n = 0; n <= N; ++n)
        for (int mis = 0; mis < mis_max; mis += (prologue ? 1 : mis_max > 16 ? 13 : mis_max > 4 ? 3 : 1))
          {
            ++rot;
            one(pol, name, ar, n, mis, rot & 1, 0);
            if (mon::thorough or not prologue)
              for (int v = 1; v < 4; ++v)
                one(pol, name, ar, n, mis, (rot + v) & 1, v);
            else
              one(pol, name, ar, n, mis, (rot >> 1) & 1, 1 + rot % 3);
          }
      // long ranges (auto_prologue switches at 4000 bytes)
      mon::rng r(mon::hash_str(name));
      for (int k = 0; k < (mon::thorough ? 200 : 40); ++k)
        {
          const std::size_t n = 4000 / sizeof(T) - 20 + r.below(120);
          one(pol, name, ar, n, r.below(mis_max), r.below(2), k % 4);
        }
    }
}

// container / callable-signature variety, fixed policy
static void overloads()
{
  for (int n = 0; n < 90; ++n)
    {
      mon::begin("overload", "vector", n);
      std::vector<T> v(n), b(n);
      for (int i = 0; i < n; ++i)
        v[i] = b[i] = id_of<T>(i);
      lane_log.clear();
      vir::for_each(ex::simd, v, [](auto& x) { log_lanes(x); x += T(1); });
      check_log(b);
      check_mem(v.data(), n, [&](std::size_t i) { return f_of(b[i]); });
      lane_log.clear();
      vir::for_each(ex::simd, v.begin(), v.end(), [](auto& x) { log_lanes(x); x -= T(1); });
      check_mem(v.data(), n, [&](std::size_t i) { return b[i]; });
      // const reference: no write-back even though elements are writable
      lane_log.clear();
      vir::for_each(ex::simd, v, [](const auto& x) { log_lanes(x); });
      check_log(b);
      check_mem(v.data(), n, [&](std::size_t i) { return b[i]; });
      // forwarding reference: accepts rvalues => no write-back expected
      lane_log.clear();
      const std::vector<T> cv = b;
      vir::for_each(ex::simd, cv, [](auto&& x) { log_lanes(x); });
      check_log(b);
      std::for_each(ex::simd, cv.cbegin(), cv.cend(), [](auto) {});
      // sub-ranges: neighbours stay untouched
      for (int lo = 0; lo < 3 and lo <= n; ++lo)
        for (int hi = 0; hi < 3 and lo + hi <= n; ++hi)
          {
            mon::begin("overload", "subrange", n, lo, hi);
            std::vector<T> w = b;
            vir::for_each(ex::simd, std::span<T>(w).subspan(lo, n - lo - hi), [](auto& x) { x += T(1); });
            check_mem(w.data(), n, [&](std::size_t i) {
              return (int(i) >= lo and int(i) < n - hi) ? f_of(b[i]) : b[i];
            });
          }
      mon::nontrivial();
    }
  mon::begin("overload", "array");
  std::array<T, 37> a;
  for (int i = 0; i < 37; ++i) a[i] = id_of<T>(i);
  vir::for_each(ex::simd, a, [](auto& x) { x += T(1); });
  check_mem(a.data(), 37, [&](std::size_t i) { return f_of(id_of<T>(i)); });
  T carr[21];
  for (int i = 0; i < 21; ++i) carr[i] = id_of<T>(i);
  vir::for_each(ex::simd, carr, [](auto& x) { x += T(1); });
  check_mem(carr, 21, [&](std::size_t i) { return f_of(id_of<T>(i)); });
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_policies([](auto pol, const char* name) { sweep(pol, name); });
#if POLSET == 0
  overloads();
#endif
  return mon::finish();
}
