// C17 monitor: split, concat, simd_resize, simd_size_cast, iota.
#include <vir/simd_iota.h>
#include <vir/simd_resize.h>
#include "fb.h"
#ifndef TO
#define TO 1, 2, 3, 4, 5, 8, 13, 16, 32
#endif
#ifndef REPS
#define REPS 24
#endif

template <typename T, std::size_t N>
static void fill(mon::rng& r, T (&a)[N]) { for (auto& x : a) x = any_value<T>(r); }

template <typename T, int K> using deduced = stdx::simd<T, stdx::simd_abi::deduce_t<T, K>>;
template <typename T, int K> using deduced_mask = stdx::simd_mask<T, stdx::simd_abi::deduce_t<T, K>>;

template <typename V>
static void resize()
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr int N = V::size();
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::rng r(rep * 7 + N + sizeof(T) * 555);
      T a[N]; bool k[N];
      fill(r, a);
      for (auto& x : k) x = rep == 0 ? true : r() & 1;
      const V v = make<V>(a);
      const M m = make_mask<M>(k);
      auto to = [&]<int K>(std::integral_constant<int, K>) {
        T e[K]; bool ek[K];
        for (int i = 0; i < K; ++i) { e[i] = i < N ? a[i % N] : T(); ek[i] = i < N ? k[i % N] : false; }
        mon::begin("simd_resize", mon::type_name<T>(), N, K, rep); ++mon::evals; mon::nontrivial();
        const auto x = vir::simd_resize<K>(v);
        static_assert(std::is_same_v<std::decay_t<decltype(x)>, deduced<T, K>>);
        lanes(x, e, "simd_resize(simd)");
        const auto y = vir::simd_resize<K>(m);
        static_assert(std::is_same_v<std::decay_t<decltype(y)>, deduced_mask<T, K>>);
        lanes(y, ek, "simd_resize(mask)");
        mon::begin("simd_size_cast", mon::type_name<T>(), N, K, rep); ++mon::evals; mon::nontrivial();
        using F = stdx::fixed_size_simd<T, K>;
        using D = deduced<T, K>;
        lanes(vir::simd_size_cast<F>(v), e, "simd_size_cast<fixed>(simd)");
        lanes(vir::simd_size_cast<D>(v), e, "simd_size_cast<deduced>(simd)");
        lanes(vir::simd_size_cast<typename F::mask_type>(m), ek, "simd_size_cast<fixed>(mask)");
        lanes(vir::simd_size_cast<typename D::mask_type>(m), ek, "simd_size_cast<deduced>(mask)");
        lanes(v, a, "operand afterwards"); lanes(m, k, "operand afterwards");
        static_assert(stdx::resize_simd_t<K, V>::size() == K and stdx::resize_simd_t<K, M>::size() == K);
      };
      [&]<int... Ks>(std::integer_sequence<int, Ks...>) { (to(std::integral_constant<int, Ks>()), ...); }(std::integer_sequence<int, TO>());
    }
}

#if FALLBACK
template <typename T, int... Ks>
static void concat_split()
{
  constexpr int N = (Ks + ...);
  constexpr int P = sizeof...(Ks);
  using W = deduced<T, N>;
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::rng r(rep * 7 + N + sizeof(T) * 555);
      T a[N]; bool k[N];
      fill(r, a);
      for (auto& x : k) x = r() & 1;
      constexpr int off[P] = {}; (void)off;
      mon::begin("concat", mon::type_name<T>(), N, P, rep); ++mon::evals; mon::nontrivial();
      int o = 0;
      auto next = [&]<int K>(std::integral_constant<int, K>) {
        deduced<T, K> x = T();
        for (int i = 0; i < K; ++i) x[i] = a[o + i];
        o += K;
        return x;
      };
      std::tuple<deduced<T, Ks>...> parts {next(std::integral_constant<int, Ks>())...};
      o = 0;
      auto nextm = [&]<int K>(std::integral_constant<int, K>) {
        deduced_mask<T, K> x(false);
        for (int i = 0; i < K; ++i) x[i] = k[o + i];
        o += K;
        return x;
      };
      std::tuple<deduced_mask<T, Ks>...> mparts {nextm(std::integral_constant<int, Ks>())...};
      const auto c = std::apply([](const auto&... xs) { return stdx::concat(xs...); }, parts);
      static_assert(std::is_same_v<std::decay_t<decltype(c)>, W>);
      lanes(c, a, "concat(simd...)");
      const auto mc = std::apply([](const auto&... xs) { return stdx::concat(xs...); }, mparts);
      lanes(mc, k, "concat(mask...)");
      mon::begin("split<Sizes...>", mon::type_name<T>(), N, P, rep); ++mon::evals; mon::nontrivial();
      stdx::fixed_size_simd<T, N> f = T();
      for (int i = 0; i < N; ++i) f[i] = a[i];
      const auto s = stdx::split<std::size_t(Ks)...>(f);
      static_assert(std::tuple_size_v<std::decay_t<decltype(s)>> == P);
      o = 0;
      std::apply([&](const auto&... xs) {
        auto one = [&](const auto& x) {
          lanes(x, a + o, "split<Sizes...>");
          o += x.size();
        };
        (one(xs), ...);
      }, s);
      if (o != N) mon::fail("split<Sizes...> returned %d lanes instead of %d", o, N);
      lanes(f, a, "operand afterwards");
    }
}

template <typename V, int Parts>
static void split_into()
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr int K = V::size(), N = K * Parts;
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::rng r(rep * 7 + N + sizeof(T) * 555);
      T a[N]; bool k[N];
      fill(r, a);
      for (auto& x : k) x = r() & 1;
      mon::begin("split<V>", mon::type_name<T>(), N, Parts, rep); ++mon::evals; mon::nontrivial();
      stdx::fixed_size_simd<T, N> f = T();
      stdx::fixed_size_simd_mask<T, N> m(false);
      for (int i = 0; i < N; ++i) { f[i] = a[i]; m[i] = k[i]; }
      auto do_split = [&](const auto& x) {
        using X = std::decay_t<decltype(x)>;
        using Q = std::conditional_t<stdx::is_simd_v<X>, V, M>;
        if constexpr (Parts == 1 and std::is_same_v<X, Q>) return stdx::split(x);
        else return stdx::split<Q>(x);
      };
      const auto s = do_split(f);
      const auto ms = do_split(m);
      static_assert(std::tuple_size_v<std::decay_t<decltype(s)>> == Parts and std::tuple_size_v<std::decay_t<decltype(ms)>> == Parts);
      for (int p = 0; p < Parts; ++p)
        { lanes(s[p], a + p * K, "split<V>(simd)"); lanes(ms[p], k + p * K, "split<M>(mask)"); }
      mon::begin("concat(array)", mon::type_name<T>(), N, Parts, rep); ++mon::evals; mon::nontrivial();
      std::array<V, Parts> ar; std::array<M, Parts> mar;
      for (int p = 0; p < Parts; ++p)
        { ar[p] = make<V>(a + p * K); mar[p] = make_mask<M>(k + p * K); }
      lanes(stdx::concat(ar), a, "concat(array<simd>)");
      lanes(stdx::concat(mar), k, "concat(array<mask>)");
      lanes(f, a, "operand afterwards"); lanes(m, k, "operand afterwards");
    }
}
#endif

template <typename T, std::size_t N>
static void iotas()
{
  mon::begin("iota_v", mon::type_name<T>(), N); ++mon::evals; mon::nontrivial();
  constexpr auto& s = vir::iota_v<T[N]>;
  static_assert(std::extent_v<std::remove_reference_t<decltype(s)>> == N);
  constexpr auto a = vir::iota_v<std::array<T, N>>;
  static_assert(std::is_same_v<decltype(a), const std::array<T, N>>);
  for (std::size_t i = 0; i < N; ++i)
    {
      ++mon::events;
      if (s[i] != static_cast<T>(i) or a[i] != static_cast<T>(i)) { mon::fail("iota_v[%zu] is %Lg / %Lg", i, ld(s[i]), ld(a[i])); break; }
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_types([](auto t) {
    using T = typename decltype(t)::t;
    if (vir::iota_v<T> != T(0)) mon::fail("iota_v<arithmetic>");
    iotas<T, 1>(); iotas<T, 2>(); iotas<T, 17>(); iotas<T, 100>(); iotas<T, 300>();
    auto per = [](auto v) {
      using V = typename decltype(v)::t;
      resize<V>();
      T e[V::size()];
      for (std::size_t i = 0; i < V::size(); ++i) e[i] = static_cast<T>(i);
      mon::begin("iota_v<simd>", mon::type_name<T>(), V::size()); ++mon::evals; mon::nontrivial();
      lanes(vir::iota_v<V>, e, "iota_v<simd>");
    };
    for_all_simds<T>(per);
#if not FALLBACK
    per(type<stdx::native_simd<T>>());
    per(type<stdx::simd<T>>());
#else
    concat_split<T, 1>(); concat_split<T, 4>(); concat_split<T, 1, 2>(); concat_split<T, 2, 1>(); concat_split<T, 3, 5, 1, 4>();
    concat_split<T, 1, 1, 1>(); concat_split<T, 8, 8>(); concat_split<T, 7, 3, 2, 1, 6>(); concat_split<T, 16, 15>(); concat_split<T, 4, 4, 4, 4, 4, 4, 4, 4>();
    using S = stdx::simd<T, stdx::simd_abi::scalar>;
    split_into<S, 1>(); split_into<S, 5>(); split_into<S, 8>();
    split_into<stdx::fixed_size_simd<T, 1>, 3>(); split_into<stdx::fixed_size_simd<T, 2>, 2>(); split_into<stdx::fixed_size_simd<T, 3>, 4>();
    split_into<stdx::fixed_size_simd<T, 4>, 4>(); split_into<stdx::fixed_size_simd<T, 5>, 1>(); split_into<stdx::fixed_size_simd<T, 8>, 4>(); split_into<stdx::fixed_size_simd<T, 16>, 2>();
#endif
  });
  return mon::finish();
}
