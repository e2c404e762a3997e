// C02 monitor: transform (unary, binary, zip; iterator and range forms; in place).
#include "policies.h"
#include <algorithm>
#include <array>
#include <ranges>
#include <span>
#include <vector>

#ifndef IN1
#define IN1 int
#endif
#ifndef IN2
#define IN2 IN1
#endif
#ifndef OUT
#define OUT IN1
#endif

using A = IN1;
using B = IN2;
using O = OUT;

template <typename V>
using out_simd = vir::simdize<O, int(V::size())>;

template <typename V>
static out_simd<V> to_out(const V& v)
{
  if constexpr (std::is_same_v<out_simd<V>, V>)
    return v;
  else
    return vir::stdx::static_simd_cast<out_simd<V>>(v);
}

// element-wise reference
static O ref1(A a) { return static_cast<O>(static_cast<O>(a) + O(3)); }
static O ref2(A a, B b) { return static_cast<O>(static_cast<O>(a) + static_cast<O>(static_cast<O>(b) + static_cast<O>(b))); }

struct op1
{
  template <typename V>
  auto operator()(const V& v) const { mon::events += V::size(); return to_out(v) + O(3); }
};
struct op2
{
  template <typename V, typename W>
  auto operator()(const V& v, const W& w) const
  {
    mon::events += V::size();
    const auto o = to_out(w);
    return to_out(v) + (o + o);
  }
};

template <typename X>
static X val(std::size_t i, int salt)
{
  if constexpr (std::is_floating_point_v<X>)
    return X(int((i * 7 + salt * 5) % 97) % (std::is_same_v<O, signed char> ? 31 : 97));
  else
    return static_cast<X>((i * 7 + salt * 5) % (std::is_same_v<O, signed char> ? 31 : 97));
}

#ifdef FULL
#define IF_FULL if constexpr (true)
static constexpr bool enabled(int) { return true; }
#else
#define IF_FULL if constexpr (sizeof(Pol) == 0)
static constexpr bool enabled(int v) { return v == 0 or v == 1 or v == 6; }
#endif
struct mem
{
  mon::arena a{40000 * 2}, b{40000 * 2}, o{40000 * 2};
};

template <typename Pol>
static void one(Pol pol, const char* name, mem& m, std::size_t n, std::size_t mo, std::size_t ma,
                std::size_t mb, bool at_end, int variant)
{
  if (not enabled(variant))
    return;
  mon::begin("transform", name, n, mo, ma, mb, at_end, variant);
  A* a = static_cast<A*>(m.a.place(n * sizeof(A), ma * sizeof(A), not at_end));
  B* b = static_cast<B*>(m.b.place(n * sizeof(B), mb * sizeof(B), at_end));
  O* o = static_cast<O*>(m.o.place(n * sizeof(O), mo * sizeof(O), at_end));
  for (std::size_t i = 0; i < n; ++i)
    {
      a[i] = val<A>(i, 1);
      b[i] = val<B>(i, 2);
      o[i] = O(101); // never a valid result of a dropped store: checked below per element
    }
  m.a.arm(); m.b.arm(); m.o.arm();
  bool inplace = false, binary = true;
  std::ptrdiff_t ret = -1;
  const A* ca = a;
  switch (variant)
    {
    case 0: ret = vir::transform(pol.real(), ca, ca + n, o, op1()) - o; binary = false; break;
    case 1: ret = vir::transform(pol.real(), ca, ca + n, b, o, op2()) - o; break;
    case 2:
      IF_FULL {
        std::span<O> os(o, n);
        ret = vir::transform(pol.real(), std::span<A>(a, n), os, op1()) - os.begin();
        binary = false;
      }
      break;
    case 3:
      IF_FULL {
        std::span<O> os(o, n);
        ret = vir::transform(pol.real(), std::span<A>(a, n), std::span<const B>(b, n), os, op2()) - os.begin();
      }
      break;
    case 4: IF_FULL ret = std::transform(pol.real(), ca, ca + n, o, op1()) - o; binary = false; break;
    case 5: IF_FULL ret = std::transform(pol.real(), ca, ca + n, b, o, op2()) - o; break;
    case 6:
      if constexpr (std::is_same_v<A, O>)
        {
          ret = vir::transform(pol.real(), a, a + n, a, op1()) - a;
          inplace = true;
          binary = false;
        }
      else
        { ret = n; return; }
      break;
    }
  struct chk { mon::arena& x; const char* w; } cs[] = {{m.a, "input 1"}, {m.b, "input 2"}, {m.o, "output"}};
  for (auto& c : cs)
    if (long long off = c.x.check(); off != mon::arena::intact)
      mon::fail("memory at offset %lld around %s was modified", off, c.w);
  ++mon::evals;
  if (ret != std::ptrdiff_t(n))
    mon::fail("returned iterator at +%td, expected +%zu", ret, n);
  const O* res = o;
  if constexpr (std::is_same_v<A, O>)
    if (inplace) res = reinterpret_cast<const O*>(a);
  for (std::size_t i = 0; i < n; ++i)
    {
      const A av = val<A>(i, 1);
      const B bv = val<B>(i, 2);
      if (not inplace and a[i] != av)
        { mon::fail("input 1 element %zu modified", i); break; }
      if (b[i] != bv)
        { mon::fail("input 2 element %zu modified", i); break; }
      const O e = binary ? ref2(av, bv) : ref1(av);
      if (res[i] != e)
        {
          mon::fail("output %zu of %zu is %Lg, expected %Lg", i, n, (long double)res[i], (long double)e);
          break;
        }
    }
  if (n > 0)
    mon::nontrivial();
}

template <typename Pol>
static void sweep(Pol pol, const char* name)
{
  constexpr int W = Pol::_size > 0 ? Pol::_size
                      : std::max(int(vir::simdize<A, 0>::size()), int(vir::simdize<B, 0>::size()));
  constexpr int W1 = Pol::_size > 0 ? Pol::_size : int(vir::simdize<A, 0>::size());
  constexpr int U = Pol::_unroll_by;
  static mem m;
  mon::rng r(mon::hash_str(name) ^ mon::hash_str("transform"));
  const int mo_max = std::max<int>(1, 64 / sizeof(O));
  const int ma_max = std::max<int>(1, 64 / sizeof(A));
  const int mb_max = std::max<int>(1, 64 / sizeof(B));
  // binary width differs from unary width when the input types differ
  if constexpr (Pol::_assume_matching_size)
    {
      for (int k = 0; k <= 4 * std::max(U, 1) + 3; ++k)
        for (int rep = 0; rep < 12; ++rep)
          for (int v = 0; v < 7; ++v)
            {
              const bool bin = v == 1 or v == 3 or v == 5;
              one(pol, name, m, k * (bin ? W : W1), r.below(mo_max), r.below(ma_max),
                  r.below(mb_max), r.below(2), v);
            }
    }
  else
    {
      const int N = sweep_len(W, U);
      const bool prologue = Pol::_prefers_aligned or Pol::_auto_prologue;
      int rot = 0;
      for (int n = 0; n <= N; ++n)
        {
          for (int mo = 0; mo < mo_max; mo += (prologue ? 1 : mo_max > 16 ? 13 : mo_max > 4 ? 3 : 1))
            {
              ++rot;
              one(pol, name, m, n, mo, r.below(ma_max), r.below(mb_max), rot & 1, rot % 2);
              one(pol, name, m, n, mo, r.below(ma_max), r.below(mb_max), r.below(2), enabled(2) ? (rot + 3) % 7 : (rot / 2) % 2 * 6);
              if (mon::thorough)
                for (int v = 0; v < 7; ++v)
                  one(pol, name, m, n, mo, r.below(ma_max), r.below(mb_max), r.below(2), v);
            }
          for (int v = 0; v < 7; ++v)
            one(pol, name, m, n, r.below(mo_max), r.below(ma_max), r.below(mb_max), r.below(2), v);
        }
      for (int k = 0; k < (mon::thorough ? 210 : 42); ++k)
        one(pol, name, m, 4000 / sizeof(O) - 20 + r.below(120), r.below(mo_max), r.below(ma_max),
            r.below(mb_max), r.below(2), k % 7);
    }
}

#if __cpp_lib_ranges_zip >= 202110L
template <typename Pol>
static void zips(Pol pol, const char* name)
{
  constexpr int W = Pol::_size > 0 ? Pol::_size
                      : std::max(int(vir::simdize<A, 0>::size()), int(vir::simdize<B, 0>::size()));
  const int N = 2 * W * std::max(1, Pol::_unroll_by) + W + 5;
  for (int n = 0; n <= N; ++n)
    {
      if (Pol::_assume_matching_size and n % W)
        continue;
      // 2, 3 and 4 input ranges
      std::vector<A> a(n), c(n);
      std::vector<B> b(n), d(n);
      for (int i = 0; i < n; ++i)
        { a[i] = val<A>(i, 1); b[i] = val<B>(i, 2); c[i] = val<A>(i, 3); d[i] = val<B>(i, 4); }
      auto check = [&](const std::vector<O>& o, auto&& f, std::ptrdiff_t ret) {
        ++mon::evals;
        if (ret != n)
          mon::fail("returned iterator at +%td, expected +%d", ret, n);
        for (int i = 0; i < n + 3; ++i)
          {
            const O e = i < n ? f(i) : O(77);
            if (o[i] != e)
              { mon::fail("output %d of %d is %Lg, expected %Lg", i, n, (long double)o[i], (long double)e); return; }
          }
      };
      {
        mon::begin("zip2", name, n);
        std::vector<O> o(n + 3, O(77));
        auto z = std::views::zip(a, b);
        auto it = vir::transform(pol.real(), z, o, [](const auto& p) {
          const auto& [x, y] = p; return to_out(x) + (to_out(y) + to_out(y)); });
        check(o, [&](int i) { return ref2(a[i], b[i]); }, it - o.begin());
        mon::nontrivial();
      }
      {
        mon::begin("zip3", name, n);
        std::vector<O> o(n + 3, O(77));
        auto z = std::views::zip(a, b, c);
        auto it = vir::transform(pol.real(), z, o, [](const auto& p) {
          const auto& [x, y, q] = p; return to_out(x) + (to_out(y) - to_out(q)); });
        check(o, [&](int i) { return static_cast<O>(O(a[i]) + static_cast<O>(O(b[i]) - O(c[i]))); }, it - o.begin());
        mon::nontrivial();
      }
      {
        mon::begin("zip4", name, n);
        std::vector<O> o(n + 3, O(77));
        auto z = std::views::zip(a, b, c, d);
        auto it = vir::transform(pol.real(), z, o, [](const auto& p) {
          const auto& [x, y, q, w] = p; return (to_out(w) - to_out(x)) + (to_out(y) - to_out(q)); });
        check(o, [&](int i) { return static_cast<O>(static_cast<O>(O(d[i]) - O(a[i])) + static_cast<O>(O(b[i]) - O(c[i]))); }, it - o.begin());
        mon::nontrivial();
      }
    }
}
#endif

int main(int argc, char** argv)
{
  mon::init(argc, argv);
#ifndef ONLYZIPS
  for_all_policies([](auto pol, const char* name) {
    sweep(pol, name);
  });
#endif
#if __cpp_lib_ranges_zip >= 202110L && defined ZIPS
  for_all_policies([](auto pol, const char* name) {
    zips(pol, name);
  });
#endif
  return mon::finish();
}
