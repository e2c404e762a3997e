// helpers for monitors of the element-wise simd API
#pragma once
#include <vir/simd.h>
#include "mon.h"
#include <array>
#include <cmath>
#include <limits>
#include <utility>
namespace stdx = vir::stdx;

#ifndef ELTS
#define ELTS int
#endif
#ifndef NS
#define NS 2, 3, 4, 8
#endif
#ifdef VIR_DISABLE_STDX_SIMD
#define FALLBACK 1
#else
#define FALLBACK 0
#endif

template <typename T> struct type { using t = T; };

// call f(type<simd<T, Abi>>) for scalar and all fixed sizes in NS
template <typename T, typename F>
void for_all_simds(F&& f)
{
  f(type<stdx::simd<T, stdx::simd_abi::scalar>>());
  [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
    (f(type<stdx::fixed_size_simd<T, Ns>>()), ...);
  }(std::integer_sequence<int, NS>());
}

template <typename F, typename... Ts>
void for_types_impl(F&& f, type<Ts>...)
{ (f(type<Ts>()), ...); }

template <typename... Ts> struct tlist {
  template <typename F> static void each(F&& f) { (f(type<Ts>()), ...); }
};

template <typename F>
void for_all_types(F&& f)
{ tlist<ELTS>::each(f); }

// a value of T: special ones often
template <typename T>
T any_value(mon::rng& r)
{
  using L = std::numeric_limits<T>;
  const unsigned k = r.below(10);
  if constexpr (std::is_same_v<T, bool>)
    return k & 1;
  else if constexpr (std::is_floating_point_v<T>)
    {
      switch (k)
        {
        case 0: {
          static const T sp[] = {T(0), T(-0.0), T(1), T(-1), L::infinity(), -L::infinity(), L::quiet_NaN(),
                                 L::denorm_min(), -L::denorm_min(), L::min(), L::max(), L::lowest(),
                                 L::epsilon(), T(0.5), T(-0.5), T(2.5), T(3.5), T(1e10), T(2147483648.5)};
          return sp[r.below(sizeof(sp) / sizeof(T))];
        }
        case 1: return T(int(r.below(2001)) - 1000) / T(4);
        case 2: { const T m = int(r.below(2000001)) - 1000000; return std::ldexp(m, int(r.below(200)) - 100); }
        case 3: { // integral or nearly so, of any magnitude, using all bits of the significand
          const T m = static_cast<T>(static_cast<long long>(r()) >> r.below(63));
          return (r() & 1) ? m + T(0.5) : m;
        }
        default: { const T m = int(r.below(200001)) - 100000; return m / T(1 + r.below(100)); }
        }
    }
  else
    {
      switch (k)
        {
        case 0: {
          static const T sp[] = {T(0), T(1), T(-1), L::min(), L::max(), T(L::max() - 1), T(L::min() + 1), T(2),
                                 T(L::max() / 2), T(L::max() / 2 + 1)};
          return sp[r.below(10)];
        }
        case 1: return T(1) << r.below(L::digits);
        case 2: case 3: case 4: return T(int(r.below(201)) - 100);
        case 5: return T(r() & 0xffff);
        default: return static_cast<T>(r());
        }
    }
}

// can x be converted to T without UB (float -> int range)?
template <typename To, typename From>
bool convertible_value(From x)
{
  if constexpr (std::is_floating_point_v<From> and std::is_integral_v<To> and not std::is_same_v<To, bool>)
    {
      const long double y = x, lo = (long double)std::numeric_limits<To>::min() - 1,
                        hi = (long double)std::numeric_limits<To>::max() + 1;
      return y > lo and y < hi and y == y;
    }
  else if constexpr (std::is_floating_point_v<From> and std::is_floating_point_v<To> and sizeof(To) < sizeof(From))
    return x != x or std::isinf(x) or std::abs(x) <= std::numeric_limits<To>::max();
  else
    return true;
}

template <typename V, typename A>
V make(const A& arr)
{
  using T = typename V::value_type;
  V v = T();
  for (std::size_t i = 0; i < V::size(); ++i) v[i] = arr[i];
  return v;
}

template <typename M, typename A>
M make_mask(const A& arr)
{
  M k(false);
  for (std::size_t i = 0; i < M::size(); ++i) k[i] = arr[i];
  return k;
}

template <typename T> long double ld(T x) { return static_cast<long double>(x); }

// compare all lanes of v with arr
template <typename V, typename A>
bool lanes(const V& v, const A& arr, const char* what)
{
  using T = typename V::value_type;
  for (std::size_t i = 0; i < V::size(); ++i)
    {
      ++mon::events;
      const T g = v[i], e = arr[i];
      if (not mon::same(g, e))
        {
          mon::fail("%s: lane %zu of %zu is %Lg, expected %Lg", what, i, V::size(), ld(g), ld(e));
          return false;
        }
    }
  return true;
}
