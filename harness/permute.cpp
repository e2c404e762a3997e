// C08 monitor: every lane of simd_permute / simd_shift_in is compared with the documented index map.
#include <vir/simd_permute.h>
#include "mon.h"
#include <utility>
#ifndef ELT
#define ELT float
#endif
#ifndef WIDTHS
#define WIDTHS 1, 2, 3, 4, 8
#endif
using T = ELT;
namespace stdx = vir::stdx;
namespace sp = vir::simd_permutations;

static T value(std::uint64_t r, int mode)
{
  if constexpr (std::is_floating_point_v<T>)
    {
      if (mode == 1)
        {
          static const T sp[] = {T(0), T(-0.0), T(1), T(-1), std::numeric_limits<T>::infinity(),
                                 -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(),
                                 std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max(), T(42.5)};
          return sp[r % 10];
        }
      return T(int(r % 2000001) - 1000000);
    }
  else if (mode == 1)
    {
      static const T sp[] = {T(0), T(1), T(-1), std::numeric_limits<T>::min(), std::numeric_limits<T>::max()};
      return sp[r % 5];
    }
  else
    return static_cast<T>(r);
}

constexpr int Z = vir::simd_permute_zero, U = vir::simd_permute_uninit;

// index functions; `at` is the oracle: it states the documented map independently
template <unsigned S> struct Rnd // arbitrary map with negative indices and zeros
{
  static constexpr int at(int i, int size)
  {
    const unsigned h = (unsigned(i) * 2654435761u + S * 40503u) ^ (S << 7);
    const unsigned k = (h >> 11) % unsigned(2 * size + 1);
    return k == unsigned(2 * size) ? Z : int(k) - size;
  }
  consteval int operator()(int i, int size) const { return at(i, size); }
};
template <unsigned S> struct RndPos // arbitrary map, one-argument, no negatives
{
  static constexpr int at(int i, int size) { return int((unsigned(i) * 7u + S * 13u + (unsigned(i) * S) / 3u)) % size; }
  template <int Size> struct f { consteval int operator()(int i) const { return at(i, Size); } };
};
struct Mixed // zero, uninit, first, last
{
  static constexpr int at(int i, int) { return i % 4 == 0 ? Z : i % 4 == 1 ? -1 : i % 4 == 2 ? U : 0; }
  consteval int operator()(int i) const { return at(i, 0); }
};
struct AllZero { static constexpr int at(int, int) { return Z; } consteval int operator()(int) const { return Z; } };
struct LongIdx { static constexpr int at(int i, int size) { return i % size - size; }
                 consteval long operator()(long i, long size) const { return i % size - size; } };
struct UIdx { static constexpr int at(int i, int size) { return (size - 1) - i % size; }
              consteval unsigned operator()(unsigned i, unsigned size) const { return (size - 1) - i % size; } };

// oracles of the predefined permutations (from the documentation)
template <auto M> struct oracle { int (*p)(int, int) = M; };

template <typename V, typename R, typename F>
static void compare(const V& v, const R& r, F at, const char* name, int mode, long long extra)
{
  ++mon::evals;
  const int n = V::size();
  for (int i = 0; i < int(R::size()); ++i)
    {
      int j = at(i, n);
      ++mon::events;
      if (j == U) continue;
      if (j < 0) j += n;
      const T e = j == Z ? T(0) : T(v[j]);
      const T g = T(r[i]);
      if (not mon::same(g, e))
        {
          mon::fail("result lane %d of %d is %Lg, expected input lane %d of %d = %Lg", i, int(R::size()),
                    (long double)g, j == Z ? -1 : j, n, (long double)e);
          return;
        }
    }
  mon::nontrivial(extra * 3 + mode);
}

template <std::size_t N, typename V, typename P, typename F>
[[gnu::noinline]] static void one(const char* name, P p, F at, long long x = 0)
{
  for (int rep = 0; rep < (mon::thorough ? 40 : 6); ++rep)
    {
      mon::begin("simd_permute", name, V::size(), N, x, sizeof(V), rep);
      mon::rng r(rep * 1000 + V::size() * 7 + N + mon::hash_str(name));
      T in[V::size()];
      for (auto& e : in) e = value(r(), rep & 1);
      V v(in, stdx::element_aligned);
      auto res = vir::simd_permute<N>(v, p);
      static_assert(decltype(res)::size() == (N == 0 ? V::size() : N));
      for (std::size_t i = 0; i < V::size(); ++i)
        if (not mon::same(T(v[i]), in[i]))
          mon::fail("input lane %zu was modified", i);
      compare(v, res, at, name, rep & 1, x);
    }
}

template <typename V> constexpr V cinput()
{ return V([](auto i) -> T { return T(int(i) % 100 + 1); }); }

template <std::size_t N, typename V, typename P, typename F>
[[gnu::noinline]] static void one_const(const char* name, P, F at, long long x = 0)
{
  mon::begin("simd_permute constexpr", name, V::size(), N, x, sizeof(V));
  static constexpr V v = cinput<V>();
  static constexpr auto res = vir::simd_permute<N>(cinput<V>(), P{});
  compare(v, res, at, name, 0, x);
}

template <std::size_t N, typename V>
static void general()
{
  one<N, V>("Rnd<1>", Rnd<1>{}, Rnd<1>::at);
  one<N, V>("Rnd<2>", Rnd<2>{}, Rnd<2>::at);
  one<N, V>("Rnd<77>", Rnd<77>{}, Rnd<77>::at);
  one<N, V>("RndPos<5>", RndPos<5>::f<int(V::size())>{}, RndPos<5>::at);
  one<N, V>("Mixed", Mixed{}, Mixed::at);
  one<N, V>("AllZero", AllZero{}, AllZero::at);
  one<N, V>("LongIdx", LongIdx{}, LongIdx::at);
  one<N, V>("UIdx", UIdx{}, UIdx::at);
  one<N, V>("broadcast_first", sp::broadcast_first, [](int, int) { return 0; });
  one<N, V>("broadcast_last", sp::broadcast_last, [](int, int n) { return n - 1; });
}

template <typename V, unsigned K>
static void swaps()
{
  if constexpr (2 * K <= V::size())
    {
      if constexpr (V::size() % (2 * K) == 0)
        one<0, V>("swap_neighbors", sp::swap_neighbors<K>,
                  [](int i, int) { return (i / int(K)) % 2 == 0 ? i + int(K) : i - int(K); }, K);
      swaps<V, K + 1>();
    }
}

template <typename V>
static void predefined()
{
  constexpr int n = V::size();
  if constexpr (n % 2 == 0)
    {
      one<0, V>("duplicate_even", sp::duplicate_even, [](int i, int) { return i % 2 ? i - 1 : i; });
      one<0, V>("duplicate_odd", sp::duplicate_odd, [](int i, int) { return i % 2 ? i : i + 1; });
      one<0, V>("swap_neighbors<>", sp::swap_neighbors<>, [](int i, int) { return i % 2 ? i - 1 : i + 1; });
    }
  swaps<V, 1>();
  one<0, V>("reverse", sp::reverse, [](int i, int n) { return n - 1 - i; });
  [&]<int... Is>(std::integer_sequence<int, Is...>) {
    (one<0, V>("broadcast", sp::broadcast<Is - n>, [](int, int n) { return Is >= n ? Is - n : Is; }, Is), ...);
  }(std::make_integer_sequence<int, 2 * n>());
#ifdef ROTSTEP
  static constexpr int rs = ROTSTEP;
#else
  static constexpr int rs = 1;
#endif
  [&]<int... Is>(std::integer_sequence<int, Is...>) {
    (one<0, V>("rotate", sp::rotate<Is * rs - (2 * n + 2)>,
               [](int i, int n) { return ((i + Is * rs - (2 * n + 2)) % n + n) % n; }, Is), ...);
    (one<0, V>("shift", sp::shift<Is * rs - (2 * n + 2)>,
               [](int i, int n) { const int j = i + Is * rs - (2 * n + 2); return j < 0 or j >= n ? Z : j; }, Is), ...);
  }(std::make_integer_sequence<int, (4 * n + 4) / rs + 1>());
}

template <int Off, typename V, std::size_t... Js>
[[gnu::noinline]] static void shift_in_k(std::index_sequence<Js...>)
{
  constexpr int n = V::size();
  constexpr int k = 1 + sizeof...(Js);
  for (int rep = 0; rep < 4; ++rep)
    {
      mon::begin("simd_shift_in", "", n, k, Off, rep);
      mon::rng r(rep * 1000 + n * 7 + k + Off * 31);
      T in[k * n];
      for (auto& e : in) e = value(r(), rep & 1);
      V a(in, stdx::element_aligned);
      V m[k] = {};
      for (int q = 0; q < k; ++q) m[q].copy_from(in + q * n, stdx::element_aligned);
      V res = vir::simd_shift_in<Off>(a, m[Js + 1]...);
      ++mon::evals;
      for (int i = 0; i < n; ++i)
        {
          ++mon::events;
          const T e = i + Off < k * n ? in[i + Off] : T(0);
          if (not mon::same(T(res[i]), e))
            { mon::fail("lane %d is %Lg, expected %Lg", i, (long double)T(res[i]), (long double)e); break; }
        }
      mon::nontrivial();
    }
}

template <typename V>
static void shift_in()
{
  constexpr int n = V::size();
  [&]<int... Is>(std::integer_sequence<int, Is...>) {
    (shift_in_k<Is, V>(std::make_index_sequence<0>()), ...);
    (shift_in_k<Is, V>(std::make_index_sequence<1>()), ...);
  }(std::make_integer_sequence<int, (n > 8 ? 9 : n) + 1>());
  shift_in_k<n - 1, V>(std::make_index_sequence<1>());
  shift_in_k<n + n / 2, V>(std::make_index_sequence<1>());
  shift_in_k<2 * n - 1, V>(std::make_index_sequence<1>());
  shift_in_k<2 * n, V>(std::make_index_sequence<2>());
  shift_in_k<2 * n + n / 2, V>(std::make_index_sequence<2>());
  shift_in_k<3 * n, V>(std::make_index_sequence<2>());
  shift_in_k<n + 1, V>(std::make_index_sequence<3>());
}

template <typename V>
static void all()
{
  predefined<V>();
  shift_in<V>();
  general<0, V>();
#ifdef RESIZE
  general<1, V>();
  general<2, V>();
  general<4, V>();
  general<7, V>();
  general<V::size() * 2 <= 32 ? V::size() * 2 : 16, V>();
  general<(V::size() + 1) / 2, V>();
#else
  general<V::size() == 8 ? 5 : 8, V>();
#endif
#if not defined NOCONST and not defined __clang__
  one_const<0, V>("Rnd<3>", Rnd<3>{}, Rnd<3>::at);
  one_const<5, V>("Rnd<4>", Rnd<4>{}, Rnd<4>::at);
  one_const<0, V>("reverse", sp::reverse, [](int i, int n) { return n - 1 - i; });
  one_const<0, V>("rotate2", sp::rotate<2>, [](int i, int n) { return (i + 2) % n; });
  one_const<0, V>("rotate-2", sp::rotate<-2>, [](int i, int n) { return ((i - 2) % n + n) % n; });
  one_const<0, V>("shift1", sp::shift<1>, [](int i, int n) { return i + 1 < n ? i + 1 : Z; });
  one_const<0, V>("shift-1", sp::shift<-1>, [](int i, int) { return i ? i - 1 : Z; });
#endif
}

template <std::size_t N, typename P, typename F>
static void scalar_one(const char* name, P p, F at)
{
  for (int rep = 0; rep < 6; ++rep)
    {
      mon::begin("simd_permute scalar", name, N, rep);
      mon::rng r(rep + 5);
      const T x = value(r(), rep & 1);
      const auto res = vir::simd_permute<N>(x, p);
      ++mon::evals;
      if constexpr (N <= 1)
        {
          static_assert(std::is_same_v<decltype(res), const T>);
          const int j = at(0, 1);
          if (j != U and not mon::same(res, j == Z ? T(0) : x))
            mon::fail("got %Lg", (long double)res);
        }
      else
        for (std::size_t i = 0; i < N; ++i)
          {
            const int j = at(int(i), 1);
            ++mon::events;
            if (j != U and not mon::same(T(res[i]), j == Z ? T(0) : x))
              mon::fail("lane %zu got %Lg", i, (long double)T(res[i]));
          }
      mon::nontrivial();
    }
}

template <std::size_t N>
static void scalar_all()
{
  scalar_one<N>("broadcast_first", sp::broadcast_first, [](int, int) { return 0; });
  scalar_one<N>("broadcast_last", sp::broadcast_last, [](int, int) { return 0; });
  scalar_one<N>("AllZero", AllZero{}, AllZero::at);
  scalar_one<N>("Mixed", Mixed{}, Mixed::at);
  scalar_one<N>("Rnd<9>", Rnd<9>{}, Rnd<9>::at);
  scalar_one<N>("Rnd<10>", Rnd<10>{}, Rnd<10>::at);
  scalar_one<N>("LongIdx", LongIdx{}, LongIdx::at);
  if constexpr (N <= 1)
    {
      scalar_one<N>("reverse", sp::reverse, [](int, int) { return 0; });
      scalar_one<N>("shift<1>", sp::shift<1>, [](int, int) { return Z; });
      scalar_one<N>("shift<-1>", sp::shift<-1>, [](int, int) { return Z; });
      scalar_one<N>("shift<0>", sp::shift<0>, [](int, int) { return 0; });
    }
  scalar_one<N>("rotate<1>", sp::rotate<1>, [](int, int) { return 0; });
  scalar_one<N>("rotate<-3>", sp::rotate<-3>, [](int, int) { return 0; });
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  [&]<int... Ws>(std::integer_sequence<int, Ws...>) {
    (all<stdx::simd<T, stdx::simd_abi::deduce_t<T, Ws>>>(), ...);
#ifdef FIXED
    (all<stdx::fixed_size_simd<T, Ws>>(), ...);
#endif
  }(std::integer_sequence<int, WIDTHS>());
#ifdef SCALAR
  scalar_all<0>();
  scalar_all<1>();
  scalar_all<2>();
  scalar_all<5>();
  scalar_all<8>();
#endif
  return mon::finish();
}
