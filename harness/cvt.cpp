// C21 monitor: vir::cvt and static_simd_cast keep each lane's value.
#include <vir/simd_cvt.h>
#include <vir/simd_cast.h>
#include "fb.h"
#include <array>
#ifndef UELTS
#define UELTS float, int
#endif

template <typename U, typename T>
static T source(mon::rng& r)
{
  // libstdc++ rounds some 64-bit integers to floating-point differently than the scalar conversion
  if constexpr (not FALLBACK and std::is_integral_v<T> and std::is_floating_point_v<U> and sizeof(T) >= 4)
    return T(any_value<T>(r) % T(1 << 24));
  else for (;;)
    if (T x = any_value<T>(r); convertible_value<U>(x)) return x;
}

template <typename V, typename A>
static void check(const V& v, const A& a, const char* what)
{
  using U = typename V::value_type;
  for (std::size_t i = 0; i < V::size(); ++i)
    {
      ++mon::events;
      const U e = static_cast<U>(a[i]), g = v[i];
      if (not mon::same(g, e)) { mon::fail("%s: lane %zu is %Lg, expected %Lg", what, i, ld(g), ld(e)); return; }
    }
}

template <typename V> static V take(V x) { return x; }
template <typename V> static V take_ref(const V& x) { return x; }

template <typename U, typename V>
static void pair_(const char* tn)
{
  using T = typename V::value_type;
  using W = stdx::rebind_simd_t<U, V>;
  using F = stdx::fixed_size_simd<U, V::size()>;
  using M = typename V::mask_type;
  constexpr std::size_t N = V::size();
  mon::rng r(N + 100 * sizeof(U));
  for (int k = 0; k < (mon::thorough ? 600 : 120); ++k)
    {
      mon::begin("cvt", tn, N, sizeof(T), sizeof(U), std::is_floating_point_v<U>, k);
      ++mon::evals;
      mon::nontrivial();
      std::array<T, N> a;
      for (auto& x : a) x = source<U, T>(r);
      const V v = make<V>(a);
      // conversions of simd
      const W w = vir::cvt(v);
      check(w, a, "W w = cvt(v)");
      check(take<W>(vir::cvt(v)), a, "argument");
      check(take_ref<W>(vir::cvt(v)), a, "reference argument");
      W w2 = U();
      w2 = vir::cvt(v);
      check(w2, a, "assignment");
      check(static_cast<W>(vir::cvt(v)), a, "static_cast<W>(cvt(v))");
      auto ret = [&]() -> W { return vir::cvt(v); };
      check(ret(), a, "return");
      check(stdx::static_simd_cast<W>(v), a, "static_simd_cast<W>");
      if constexpr (requires { { stdx::simd_cast<W>(v) } -> std::same_as<W>; })
        check(stdx::simd_cast<W>(v), a, "simd_cast<W>");
      auto y0 = vir::cvt(v);
      const W w4 = y0;
      check(w4, a, "auto y = cvt(v); W w = y");
      if constexpr (N > 1 or FALLBACK)
        {
          const F f = vir::cvt(v);
          check(f, a, "fixed_size = cvt(v)");
          const stdx::fixed_size_simd<T, N> fv = make<stdx::fixed_size_simd<T, N>>(a);
          const W w3 = vir::cvt(fv);
          check(w3, a, "W = cvt(fixed_size)");
          const V v3 = vir::cvt(fv);
          check(v3, a, "V = cvt(fixed_size)");
          check(stdx::static_simd_cast<U>(fv), a, "static_simd_cast<U>");
        }
      const V same = vir::cvt(v);
      check(same, a, "V = cvt(v)");
      // in expressions: operands with values small enough for exact sums
      {
        std::array<T, N> sm;
        std::array<U, N> um;
        for (std::size_t i = 0; i < N; ++i) { sm[i] = T(r.below(60)); um[i] = U(r.below(60)); }
        const V x = make<V>(sm);
        const W y = make<W>(um);
        const W s = vir::cvt(x) + y, d = y + vir::cvt(x), p = y - vir::cvt(y - vir::cvt(x));
        const auto lt = vir::cvt(x) < y;
        for (std::size_t i = 0; i < N; ++i)
          {
            mon::events += 4;
            const U e = U(U(sm[i]) + um[i]);
            if (U(s[i]) != e or U(d[i]) != e) { mon::fail("cvt(x) + y: lane %zu is %Lg/%Lg, expected %Lg", i, ld(U(s[i])), ld(U(d[i])), ld(e)); break; }
            if (U(p[i]) != U(sm[i])) { mon::fail("y - cvt(y - cvt(x)): lane %zu", i); break; }
            if (bool(lt[i]) != (U(sm[i]) < um[i])) { mon::fail("cvt(x) < y: lane %zu", i); break; }
          }
      }
      // masks
      std::array<bool, N> b;
      for (auto& x : b) x = r.below(2);
      const M m = make_mask<M>(b);
      const typename W::mask_type wm = vir::cvt(m);
      const typename F::mask_type fm = vir::cvt(m);
      const M mm = vir::cvt(m);
      const typename W::mask_type sc = vir::static_simd_cast<typename W::mask_type>(m);
      const typename W::mask_type sc2 = stdx::static_simd_cast<typename W::mask_type>(m);
      if (not all_of(sc == sc2)) mon::fail("vir::static_simd_cast and stdx::static_simd_cast of a mask differ");
      const M back = vir::cvt(wm);
      for (std::size_t i = 0; i < N; ++i)
        {
          mon::events += 5;
          if (bool(wm[i]) != b[i] or bool(fm[i]) != b[i] or bool(mm[i]) != b[i] or bool(sc[i]) != b[i] or bool(back[i]) != b[i])
            { mon::fail("mask conversion changed lane %zu (%d%d%d%d%d, expected %d)", i, bool(wm[i]), bool(fm[i]), bool(mm[i]), bool(sc[i]), bool(back[i]), b[i]); break; }
        }
      const auto eq = vir::cvt(m) == wm;
      if (not all_of(eq)) mon::fail("cvt(mask) == mask of the other type is not all true");
      W sel = U(1);
      where(vir::cvt(m), sel) = U(2);
      for (std::size_t i = 0; i < N; ++i)
        if (U(sel[i]) != U(b[i] ? 2 : 1)) { mon::fail("where(cvt(mask), v): lane %zu", i); break; }
      // scalars
      const U u = vir::cvt(a[0]);
      const U u2 = U(vir::cvt(a[N - 1]));
      if (not mon::same(u, static_cast<U>(a[0])) or not mon::same(u2, static_cast<U>(a[N - 1])))
        mon::fail("scalar: %Lg -> %Lg", ld(a[0]), ld(u));
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_types([]<typename X>(X) {
    using T = typename X::t;
    const char* tn = mon::type_name<T>();
    tlist<UELTS>::each([&]<typename Y>(Y) {
      using U = typename Y::t;
      [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
        (pair_<U, stdx::simd<T, stdx::simd_abi::deduce_t<T, Ns>>>(tn), ...);
        (pair_<U, stdx::fixed_size_simd<T, Ns>>(tn), ...);
      }(std::integer_sequence<int, NS>());
      pair_<U, stdx::simd<T, stdx::simd_abi::scalar>>(tn);
    });
  });
  return mon::finish();
}
