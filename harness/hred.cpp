// C16 monitor: horizontal reductions and lane-wise min/max/minmax/clamp.
#include "fb.h"
#include <functional>
#ifndef REPS
#define REPS 60
#endif

template <typename T, std::size_t N>
static void values(mon::rng& r, T (&a)[N], int kind) // 0 plus, 1 multiplies, 2 any
{
  if (kind == 1)
    {
      int budget = sizeof(T) == 1 ? 5 : 10;
      for (auto& x : a)
        {
          const int q = r.below(4);
          x = T(1);
          if (q == 0 and budget > 1) { x = T(3); budget -= 2; }
          else if (q == 1 and budget > 0) { x = T(2); --budget; }
          else if (q == 2 and std::is_signed_v<T>) x = T(-1);
        }
      if (r.below(16) == 0) a[r.below(N)] = T(0);
    }
  else
    for (std::size_t i = 0; i < N; ++i)
      {
        if (kind == 2) { do a[i] = any_value<T>(r); while (a[i] != a[i]); }
        else if (std::is_floating_point_v<T>) a[i] = T(int(r.below(2001)) - 1000);
        else if (std::is_unsigned_v<decltype(T() + T())> or (std::is_unsigned_v<T>)) a[i] = static_cast<T>(r());
        else if (sizeof(T) == 1) a[i] = T(int(r.below(7)) - 3);
        else if (sizeof(T) == 2) a[i] = T(int(r.below(1001)) - 500);
        else a[i] = T(int(r.below(2000001)) - 1000000);
      }
}

template <typename T> static T expect_eq(const char* w, T g, T e)
{
  ++mon::events;
  if (not (g == e)) mon::fail("%s is %Lg, expected %Lg", w, ld(g), ld(e));
  return g;
}

template <typename V>
static void run()
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr std::size_t N = V::size();
  for (int rep = 0; rep < REPS * (mon::thorough ? 40 : 1); ++rep)
    {
      mon::rng r(rep * 77 + N * 5 + sizeof(T));
      T a[N], b[N], c[N], e[N]; bool k[N];
      const int p = rep % 6;
      const std::size_t one = r.below(N);
      for (std::size_t i = 0; i < N; ++i)
        k[i] = p == 0 ? false : p == 1 ? true : p == 2 ? i == one : p == 3 ? i != one : bool(r() & 1);
      int sel = 0;
      for (bool x : k) sel += x;
      const M m = make_mask<M>(k);
      auto start = [&](const char* n) { mon::begin(n, mon::type_name<T>(), N, rep); ++mon::evals; mon::nontrivial(); };
#define RED(name, kind, id, op, sc)                                                          \
      {                                                                                      \
        start(name); values(r, a, kind);                                                     \
        V v = make<V>(a); const V cv = v;                                                    \
        T x = a[0]; for (std::size_t i = 1; i < N; ++i) { const T y = a[i]; x = static_cast<T>(sc); } \
        expect_eq(name, stdx::reduce(cv, op), x);                                            \
        x = id; for (std::size_t i = 0; i < N; ++i) if (k[i]) { const T y = a[i]; x = static_cast<T>(sc); } \
        expect_eq("masked " name, stdx::reduce(stdx::where(m, cv), op), x);                  \
        expect_eq("masked " name, stdx::reduce(stdx::where(m, v), op), x);                   \
        expect_eq("masked " name " with identity", stdx::reduce(stdx::where(m, cv), T(id), op), x); \
        lanes(cv, a, "operand afterwards"); lanes(v, a, "operand afterwards"); lanes(m, k, "mask afterwards"); \
      }
      RED("reduce plus", 0, T(0), std::plus<>(), x + y)
      RED("reduce multiplies", 1, T(1), std::multiplies<>(), x * y)
      {
        start("reduce default"); values(r, a, 0);
        const V v = make<V>(a);
        T x = T(0), z = T(0);
        for (std::size_t i = 0; i < N; ++i) { x = static_cast<T>(x + a[i]); if (k[i]) z = static_cast<T>(z + a[i]); }
        expect_eq("reduce(v)", stdx::reduce(v), x);
        expect_eq("reduce(where)", stdx::reduce(stdx::where(m, v)), z);
      }
      if constexpr (std::is_integral_v<T>)
        {
          RED("reduce bit_and", 2, static_cast<T>(~T(0)), std::bit_and<>(), x & y)
          RED("reduce bit_or", 2, T(0), std::bit_or<>(), x | y)
          RED("reduce bit_xor", 2, T(0), std::bit_xor<>(), x ^ y)
        }
      {
        start("reduce custom"); values(r, a, 2);
        const V v = make<V>(a);
        auto op = [](const auto& l, const auto& rr) { using std::max; using stdx::max; return max(l, rr); };
        T x = a[0]; for (T y : a) x = std::max(x, y);
        expect_eq("reduce with a custom operation", stdx::reduce(v, op), x);
        const T id = std::numeric_limits<T>::has_infinity ? T(-std::numeric_limits<T>::infinity()) : std::numeric_limits<T>::lowest();
        x = id; for (std::size_t i = 0; i < N; ++i) if (k[i]) x = std::max(x, a[i]);
        expect_eq("masked reduce with a custom operation", stdx::reduce(stdx::where(m, v), id, op), x);
      }
      {
        start("hmin/hmax"); values(r, a, 2);
        if (p == 5 and std::is_floating_point_v<T>)
          for (std::size_t i = 0; i < N; ++i) if (k[i]) a[i] = rep & 1 ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity();
        V v = make<V>(a); const V cv = v;
        T lo = a[0], hi = a[0];
        for (T y : a) { lo = std::min(lo, y); hi = std::max(hi, y); }
        expect_eq("hmin", stdx::hmin(cv), lo);
        expect_eq("hmax", stdx::hmax(cv), hi);
        lo = std::numeric_limits<T>::max(); hi = std::numeric_limits<T>::lowest();
        bool first = true;
        for (std::size_t i = 0; i < N; ++i)
          if (k[i])
            { lo = first ? a[i] : std::min(lo, a[i]); hi = first ? a[i] : std::max(hi, a[i]); first = false; }
        expect_eq("masked hmin", stdx::hmin(stdx::where(m, cv)), lo);
        expect_eq("masked hmax", stdx::hmax(stdx::where(m, cv)), hi);
        expect_eq("masked hmin", stdx::hmin(stdx::where(m, v)), lo);
        expect_eq("masked hmax", stdx::hmax(stdx::where(m, v)), hi);
        lanes(cv, a, "operand afterwards"); lanes(v, a, "operand afterwards");
      }
      {
        start("min/max/clamp"); values(r, a, 2); values(r, b, 2); values(r, c, 2);
        if (rep & 1) { const std::size_t j = r.below(N); b[j] = a[j]; }
        const V v = make<V>(a), w = make<V>(b);
        auto eq = [&](const V& g, const char* what) {
          for (std::size_t i = 0; i < N; ++i)
            { ++mon::events; if (not (T(g[i]) == e[i])) { mon::fail("%s: lane %zu is %Lg, expected %Lg", what, i, ld(T(g[i])), ld(e[i])); return; } }
        };
        for (std::size_t i = 0; i < N; ++i) e[i] = std::min(a[i], b[i]);
        eq(stdx::min(v, w), "min"); auto mm = stdx::minmax(v, w); eq(mm.first, "minmax.first");
        for (std::size_t i = 0; i < N; ++i) e[i] = std::max(a[i], b[i]);
        eq(stdx::max(v, w), "max"); eq(mm.second, "minmax.second");
        for (std::size_t i = 0; i < N; ++i)
          { if (c[i] < b[i]) std::swap(b[i], c[i]); e[i] = std::clamp(a[i], b[i], c[i]); }
        const V lo = make<V>(b), hi = make<V>(c);
        eq(stdx::clamp(v, lo, hi), "clamp");
        lanes(v, a, "operand afterwards"); lanes(lo, b, "operand afterwards"); lanes(hi, c, "operand afterwards");
      }
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_types([](auto t) {
    for_all_simds<typename decltype(t)::t>([](auto v) { run<typename decltype(v)::t>(); });
  });
  return mon::finish();
}
