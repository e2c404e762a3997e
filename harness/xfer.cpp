// C13 monitor: loads, stores, broadcasts, generators, subscripts and casts of the portable simd.
#include "fb.h"
#ifndef UELTS
#define UELTS int, float
#endif
#ifndef REPS
#define REPS 12
#endif
static mon::arena* A;

template <typename To, typename From>
static From source(mon::rng& r)
{
  for (int t = 0; t < 100; ++t)
    {
      From x = any_value<From>(r);
      if constexpr (not std::is_same_v<From, bool> and not std::is_same_v<To, bool>)
        if (t % 2 == 0 and (r() & 1)) // a value near one the target type can (just) hold
          if (const To y = any_value<To>(r); convertible_value<From>(y)) x = static_cast<From>(y);
      if (convertible_value<To>(x)) return x;
    }
  return From(1);
}

template <typename V, typename U, typename Flags>
static void memory(int fl, Flags flags, std::size_t align)
{
  using T = typename V::value_type;
  constexpr std::size_t N = V::size();
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::rng r(rep * 131 + N * 7 + sizeof(T) * 1000 + sizeof(U) * 10000 + fl);
      const std::size_t mis = align * r.below(128 / align);
      const bool at_end = rep & 1;
      auto place = [&]() { return static_cast<U*>(A->place(N * sizeof(U), mis, at_end)); };
      auto intact = [&](const char* w) {
        const long long o = A->check();
        ++mon::events;
        if (o != mon::arena::intact) mon::fail("%s changed the byte at offset %lld of the %zu byte range", w, o, N * sizeof(U));
      };
      U src[N]; T e[N];
      for (std::size_t i = 0; i < N; ++i)
        { src[i] = source<T, U>(r); e[i] = static_cast<T>(src[i]); }
      {
        mon::begin("copy_from", mon::type_name<T>(), N, sizeof(U), fl, mis, at_end, rep);
        U* p = place();
        for (std::size_t i = 0; i < N; ++i) p[i] = src[i];
        A->arm();
        V v = T(77 % 50);
        v.copy_from(static_cast<const U*>(p), flags);
        const V w(static_cast<const U*>(p), flags);
        ++mon::evals;
        lanes(v, e, "copy_from"); lanes(w, e, "load constructor");
        bool same = true;
        for (std::size_t i = 0; i < N; ++i) same = same and mon::same(p[i], src[i]);
        if (not same) mon::fail("load modified its source");
        intact("load");
        mon::nontrivial();
      }
      {
        mon::begin("copy_to", mon::type_name<T>(), N, sizeof(U), fl, mis, at_end, rep);
        T a[N]; U x[N];
        for (std::size_t i = 0; i < N; ++i)
          { a[i] = source<U, T>(r); x[i] = static_cast<U>(a[i]); }
        U* p = place();
        for (std::size_t i = 0; i < N; ++i) p[i] = U(9);
        A->arm();
        const V v = make<V>(a);
        v.copy_to(p, flags);
        ++mon::evals;
        for (std::size_t i = 0; i < N; ++i)
          {
            ++mon::events;
            if (not mon::same(p[i], x[i]))
              { mon::fail("copy_to: element %zu is %Lg, expected %Lg", i, ld(p[i]), ld(x[i])); break; }
          }
        lanes(v, a, "value after copy_to");
        intact("store");
        mon::nontrivial();
      }
    }
}

template <typename V>
static void construct()
{
  using T = typename V::value_type;
  constexpr std::size_t N = V::size();
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::rng r(rep * 17 + N + sizeof(T) * 777);
      T a[N], e[N];
      for (auto& x : a) x = any_value<T>(r);
      auto start = [&](const char* n) { mon::begin(n, mon::type_name<T>(), N, rep); ++mon::evals; mon::nontrivial(); };
      {
        start("broadcast"); const T x = any_value<T>(r);
        for (auto& y : e) y = x;
        const V v(x); lanes(v, e, "broadcast");
        V w = T(1); w = x; lanes(w, e, "assignment of a scalar");
        const int k = int(r.below(100));
        for (auto& y : e) y = static_cast<T>(k);
        const V u = k; lanes(u, e, "broadcast of int");
      }
      {
        start("generator"); std::size_t calls[N] = {};
        const V v([&](auto i) -> T { ++calls[i]; return a[i]; });
        lanes(v, a, "generator constructor");
        for (std::size_t i = 0; i < N; ++i)
          if (calls[i] != 1) mon::fail("generator called %zu times for %zu", calls[i], i);
        const V w([&](int i) { return static_cast<T>(i + 1); });
        for (std::size_t i = 0; i < N; ++i) e[i] = static_cast<T>(i + 1);
        lanes(w, e, "generator with int parameter");
      }
      {
        start("copy"); V v = make<V>(a); const V w = v; V u = T(3); u = w; V m = std::move(u);
        lanes(w, a, "copy"); lanes(m, a, "move");
        lanes(v, a, "source of copy");
      }
      for (std::size_t k = 0; k < N; ++k)
        {
          start("subscript"); mon::arg[2] = k;
          V v = make<V>(a);
          for (std::size_t i = 0; i < N; ++i) e[i] = a[i];
          e[k] = any_value<T>(r);
          v[k] = e[k]; lanes(v, e, "write through subscript");
          const T g = v[k]; const T h = static_cast<const V&>(v)[k];
          if (not mon::same(g, e[k]) or not mon::same(h, e[k])) mon::fail("read through subscript %zu", k);
        }
    }
}

template <typename V, typename U>
static void casts()
{
  using T = typename V::value_type;
  constexpr int N = V::size();
  using A = typename V::abi_type;
  using W = stdx::simd<U, A>;
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::rng r(rep * 17 + N + sizeof(T) * 777 + sizeof(U) * 33);
      T a[N]; U e[N]; bool k[N];
      for (int i = 0; i < N; ++i) { a[i] = source<U, T>(r); e[i] = static_cast<U>(a[i]); k[i] = r() & 1; }
      const V v = make<V>(a);
      const auto m = make_mask<typename V::mask_type>(k);
      auto start = [&](const char* n) { mon::begin(n, mon::type_name<T>(), N, sizeof(U), rep); ++mon::evals; mon::nontrivial(); };
      start("static_simd_cast<U>");
      auto w = stdx::static_simd_cast<U>(v);
      static_assert(std::is_same_v<decltype(w), W>);
      lanes(w, e, "static_simd_cast<U>");
      start("static_simd_cast<V>");
      lanes(stdx::static_simd_cast<W>(v), e, "static_simd_cast<V>");
      if constexpr (N > 1 or not std::is_same_v<A, stdx::simd_abi::scalar>)
        {
          start("static_simd_cast across ABIs (1 lane)");
          if constexpr (N == 1)
            lanes(stdx::static_simd_cast<stdx::simd<U, stdx::simd_abi::scalar>>(v), e, "to scalar");
        }
      else
        lanes(stdx::static_simd_cast<stdx::fixed_size_simd<U, 1>>(v), e, "from scalar");
      start("mask cast");
      lanes(stdx::static_simd_cast<U>(m), k, "mask static_simd_cast<U>");
      lanes(stdx::static_simd_cast<typename W::mask_type>(m), k, "mask static_simd_cast<M>");
      if constexpr (not std::is_same_v<A, stdx::simd_abi::scalar>)
        { const typename W::mask_type mm = m; lanes(mm, k, "mask conversion"); }
      if constexpr (requires { stdx::simd_cast<U>(v); })
        {
          start("simd_cast");
          lanes(stdx::simd_cast<U>(v), e, "simd_cast<U>");
          lanes(stdx::simd_cast<W>(v), e, "simd_cast<V>");
        }
      if constexpr (not std::is_same_v<T, U> and std::is_convertible_v<V, W>)
        {
          start("implicit conversion");
          const W x = v; lanes(x, e, "converting constructor");
        }
      lanes(v, a, "operand afterwards"); lanes(m, k, "mask operand afterwards");
    }
}

template <typename V>
static void named_casts()
{
  using T = typename V::value_type;
  constexpr int N = V::size();
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::rng r(rep * 17 + N + sizeof(T) * 778);
      T a[N]; bool k[N];
      for (int i = 0; i < N; ++i) { a[i] = any_value<T>(r); k[i] = r() & 1; }
      const V v = make<V>(a);
      const auto m = make_mask<typename V::mask_type>(k);
      auto start = [&](const char* n) { mon::begin(n, mon::type_name<T>(), N, rep); ++mon::evals; mon::nontrivial(); };
      start("to_fixed_size");
      lanes(stdx::to_fixed_size(v), a, "to_fixed_size(simd)");
      lanes(stdx::to_fixed_size(m), k, "to_fixed_size(mask)");
      if constexpr (N == stdx::native_simd<T>::size() and not std::is_same_v<typename V::abi_type, stdx::simd_abi::scalar>)
        {
          start("to_native");
          const stdx::native_simd<T> x = stdx::to_native(v);
          const stdx::native_simd_mask<T> y = stdx::to_native(m);
          lanes(x, a, "to_native(simd)"); lanes(y, k, "to_native(mask)");
        }
      if constexpr (N == stdx::simd<T>::size() and not std::is_same_v<typename V::abi_type, stdx::simd_abi::scalar>)
        {
          start("to_compatible");
          const stdx::simd<T> x = stdx::to_compatible(v);
          const stdx::simd_mask<T> y = stdx::to_compatible(m);
          lanes(x, a, "to_compatible(simd)"); lanes(y, k, "to_compatible(mask)");
        }
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  A = new mon::arena(4096);
  for_all_types([](auto t) {
    using T = typename decltype(t)::t;
    for_all_simds<T>([](auto v) {
      using V = typename decltype(v)::t;
      construct<V>();
      named_casts<V>();
      tlist<UELTS, T>::each([](auto u) {
        using U = typename decltype(u)::t;
        memory<V, U>(0, stdx::element_aligned, alignof(U));
        memory<V, U>(1, stdx::vector_aligned, stdx::memory_alignment_v<V, U>);
        memory<V, U>(2, stdx::overaligned<64>, 64);
        casts<V, U>();
      });
    });
  });
  delete A;
  return mon::finish();
}
