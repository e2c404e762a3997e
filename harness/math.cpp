// C18 monitor: math functions of the portable simd against the scalar std functions.
#include "fb.h"
#include <cfenv>
#ifndef REPS
#define REPS 40
#endif

template <typename T>
static T arg(mon::rng& r)
{
  using L = std::numeric_limits<T>;
  switch (r.below(8))
    {
    case 0: return any_value<T>(r);
    case 1: return T(int(r.below(2001)) - 1000) / T(1000);      // [-1, 1]
    case 2: return T(1) + T(r.below(100000)) / T(7);            // >= 1
    case 3: return T(int(r.below(41)) - 20) / T(2);             // halves
    case 4: { static const T sp[] = {T(0), T(-0.0), L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), -L::denorm_min(),
                                     L::min(), L::max(), L::lowest(), T(1), T(-1), L::min() / 2};
              return sp[r.below(13)]; }
    case 5: return T(int(r.below(20001)) - 10000) / T(100);
    default: return std::ldexp(T(int(r.below(2000001)) - 1000000), int(r.below(60)) - 40);
    }
}

template <typename V, typename R, std::size_t N>
static void compare(const char* name, const V& got, const R (&e)[N])
{ lanes(got, e, name); }

template <typename V>
static void run()
{
  using T = typename V::value_type;
  constexpr std::size_t N = V::size();
  using IV = stdx::fixed_size_simd<int, N>;
  using LV = stdx::fixed_size_simd<long, N>;
  for (int rep = 0; rep < REPS * (mon::thorough ? 60 : 1); ++rep)
    {
      mon::rng r(rep * 17 + N * 3 + sizeof(T) * 99);
      T a[N], b[N], c[N];
      for (auto& x : a) x = arg<T>(r);
      for (auto& x : b) x = arg<T>(r);
      for (auto& x : c) x = arg<T>(r);
      if (rep & 1) b[rep % N] = a[rep % N];
      const V x = make<V>(a), y = make<V>(b), z = make<V>(c);
      auto start = [&](const char* n) { mon::begin(n, mon::type_name<T>(), N, rep); ++mon::evals; mon::nontrivial(); };
#define F1(f) { start(#f); T e[N]; for (std::size_t i = 0; i < N; ++i) e[i] = std::f(a[i]); compare(#f, stdx::f(x), e); }
#define M1(f) { start(#f); bool e[N]; for (std::size_t i = 0; i < N; ++i) e[i] = std::f(a[i]); compare(#f, stdx::f(x), e); }
      F1(abs) M1(isnan) M1(isfinite) M1(isinf) M1(isnormal) M1(signbit)
      F1(erf) F1(erfc) F1(tgamma) F1(lgamma) F1(sqrt) F1(trunc) F1(ceil) F1(floor) F1(round) F1(nearbyint) F1(rint)
      F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh) F1(atanh)
      F1(log) F1(log10) F1(log1p) F1(log2) F1(logb)
#define I1(f, R, av) { start(#f); R e[N]; for (std::size_t i = 0; i < N; ++i) e[i] = std::f(av[i]); compare(#f, stdx::f(make<V>(av)), e); }
      I1(fpclassify, int, a)
      T s[N], nz[N];
      for (std::size_t i = 0; i < N; ++i) { s[i] = std::isfinite(a[i]) and std::abs(a[i]) < T(1e9) ? a[i] : T(2.5); nz[i] = std::isfinite(a[i]) and a[i] != 0 ? a[i] : T(3); }
      I1(lround, long, s) I1(llround, long long, s) I1(lrint, long, s) I1(llrint, long long, s) I1(ilogb, int, nz)
#define F2(f, R) { start(#f); R e[N];                                                              \
        for (std::size_t i = 0; i < N; ++i) e[i] = std::f(a[i], b[i]); compare(#f, stdx::f(x, y), e);    \
        for (std::size_t i = 0; i < N; ++i) e[i] = std::f(a[i], b[0]); compare(#f " (simd, scalar)", stdx::f(x, b[0]), e); \
        for (std::size_t i = 0; i < N; ++i) e[i] = std::f(a[0], b[i]); compare(#f " (scalar, simd)", stdx::f(a[0], y), e); }
      F2(hypot, T) F2(pow, T) F2(fmod, T) F2(remainder, T) F2(nextafter, T) F2(copysign, T) F2(fdim, T) F2(atan2, T)
      F2(isgreater, bool) F2(isgreaterequal, bool) F2(isless, bool) F2(islessequal, bool) F2(islessgreater, bool) F2(isunordered, bool)
      // fmax/fmin: the sign of zero is not specified
#define FM(f) { start(#f); for (std::size_t i = 0; i < N; ++i) { const T e = std::f(a[i], b[i]); \
        if (e == 0) continue; const T g = stdx::f(x, y)[i]; ++mon::events; \
        if (not mon::same(g, e)) mon::fail(#f ": lane %zu is %Lg, expected %Lg", i, ld(g), ld(e)); } \
        for (std::size_t i = 0; i < N; ++i) { const T e = std::f(a[i], b[0]), e2 = std::f(a[0], b[i]); \
        const T g = stdx::f(x, b[0])[i], g2 = stdx::f(a[0], y)[i]; \
        if ((e != 0 and not mon::same(g, e)) or (e2 != 0 and not mon::same(g2, e2))) mon::fail(#f " with scalar: lane %zu", i); } }
      FM(fmax) FM(fmin)
#define F3(f) { start(#f "3"); T e[N];                                                                \
        for (std::size_t i = 0; i < N; ++i) e[i] = std::f(a[i], b[i], c[i]); compare(#f, stdx::f(x, y, z), e); \
        for (std::size_t i = 0; i < N; ++i) e[i] = std::f(a[i], b[0], c[0]); compare(#f " (simd, scalar, scalar)", stdx::f(x, b[0], c[0]), e); \
        for (std::size_t i = 0; i < N; ++i) e[i] = std::f(a[0], b[i], c[0]); compare(#f " (scalar, simd, scalar)", stdx::f(a[0], y, c[0]), e); \
        for (std::size_t i = 0; i < N; ++i) e[i] = std::f(a[0], b[0], c[i]); compare(#f " (scalar, scalar, simd)", stdx::f(a[0], b[0], z), e); }
      F3(hypot) F3(fma)
      {
        start("remquo"); T e[N]; int q[N];
        IV qv = -77;
        T d[N], n[N];
        for (std::size_t i = 0; i < N; ++i)
          { n[i] = std::isfinite(a[i]) ? a[i] : T(1); d[i] = std::isfinite(b[i]) and b[i] != 0 ? b[i] : T(7); q[i] = -77; e[i] = std::remquo(n[i], d[i], &q[i]); }
        compare("remquo", stdx::remquo(make<V>(n), make<V>(d), &qv), e); lanes(qv, q, "remquo quotient");
      }
      {
        start("modf"); T e[N], ip[N];
        V iv = T(-77);
        for (std::size_t i = 0; i < N; ++i) e[i] = std::modf(a[i], &ip[i]);
        compare("modf", stdx::modf(x, &iv), e); lanes(iv, ip, "modf integral part");
      }
      {
        start("frexp"); T e[N]; int ex[N]; T f[N];
        IV ev = -77;
        for (std::size_t i = 0; i < N; ++i) { f[i] = std::isfinite(a[i]) ? a[i] : T(12.5); e[i] = std::frexp(f[i], &ex[i]); }
        compare("frexp", stdx::frexp(make<V>(f), &ev), e); lanes(ev, ex, "frexp exponent");
        for (std::size_t i = 0; i < N; ++i) e[i] = std::frexp(a[i], &ex[i]); // (exponents of inf and NaN: unspecified)
        compare("frexp mantissa", stdx::frexp(x, &ev), e);
      }
      {
        start("ldexp"); T e[N]; int ex[N]; long lx[N];
        for (std::size_t i = 0; i < N; ++i) lx[i] = ex[i] = int(r.below(300)) - 150;
        const IV iv = make<IV>(ex); const LV lv = make<LV>(lx);
        for (std::size_t i = 0; i < N; ++i) e[i] = std::ldexp(a[i], ex[i]);
        compare("ldexp", stdx::ldexp(x, iv), e);
        for (std::size_t i = 0; i < N; ++i) e[i] = std::scalbn(a[i], ex[i]);
        compare("scalbn", stdx::scalbn(x, iv), e);
        for (std::size_t i = 0; i < N; ++i) e[i] = std::scalbln(a[i], lx[i]);
        compare("scalbln", stdx::scalbln(x, lv), e);
        // far exponents, also beyond int
        constexpr int far[] = {32768, -32768, 65536 + 3, -70000, 20000, -20000, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()};
        for (std::size_t i = 0; i < N; ++i)
          {
            ex[i] = r.below(2) ? far[r.below(8)] : int(r.below(9000)) - 4500;
            lx[i] = r.below(2) ? (long(r.below(7)) - 3) * 0x100000000l + int(r.below(40)) - 20 : ex[i];
          }
        const IV iv2 = make<IV>(ex); const LV lv2 = make<LV>(lx);
        for (std::size_t i = 0; i < N; ++i) e[i] = std::ldexp(a[i], ex[i]);
        compare("ldexp far", stdx::ldexp(x, iv2), e);
        for (std::size_t i = 0; i < N; ++i) e[i] = std::scalbn(a[i], ex[i]);
        compare("scalbn far", stdx::scalbn(x, iv2), e);
        for (std::size_t i = 0; i < N; ++i) e[i] = std::scalbln(a[i], lx[i]);
        compare("scalbln far", stdx::scalbln(x, lv2), e);
      }
      lanes(x, a, "first argument afterwards"); lanes(y, b, "second argument afterwards"); lanes(z, c, "third argument afterwards");
    }
}

template <typename V>
static void iabs()
{
  using T = typename V::value_type;
  constexpr std::size_t N = V::size();
  for (int rep = 0; rep < REPS; ++rep)
    {
      mon::begin("abs", mon::type_name<T>(), N, rep); ++mon::evals; mon::nontrivial();
      mon::rng r(rep * 17 + N * 3 + sizeof(T) * 99);
      T a[N], e[N];
      for (std::size_t i = 0; i < N; ++i)
        { do a[i] = any_value<T>(r); while (a[i] == std::numeric_limits<T>::min()); e[i] = static_cast<T>(std::abs(a[i])); }
      const V x = make<V>(a);
      lanes(stdx::abs(x), e, "abs"); lanes(x, a, "argument afterwards");
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_types([](auto t) {
    using T = typename decltype(t)::t;
    for_all_simds<T>([](auto v) {
      if constexpr (std::is_floating_point_v<T>) run<typename decltype(v)::t>();
      else iabs<typename decltype(v)::t>();
    });
  });
  return mon::finish();
}
