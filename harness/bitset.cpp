// C20 monitor: to_bitset / to_simd_mask are exact inverses, lane by lane.
#include <vir/simd_bitset.h>
#include "fb.h"
#include <vector>

template <typename M, typename T, typename A>
static void one(const std::vector<bool>& p, const char* tn, int pat)
{
  constexpr std::size_t N = M::size();
  mon::begin("bitset", tn, N, pat, sizeof(T));
  ++mon::evals;
  std::bitset<N> want;
  for (std::size_t i = 0; i < N; ++i) want[i] = p[i];
  M k(false);
  for (std::size_t i = 0; i < N; ++i) k[i] = p[i];
  // a second construction path: from memory, and as the result of an operation
  bool mem[N + 1];
  for (std::size_t i = 0; i < N; ++i) mem[i] = p[i];
  const M k2(mem, stdx::element_aligned);
  const M k3 = !!k2;
  const M k4 = !(!k ^ M(false)); 
  for (const M* q : {(const M*)&k, &k2, &k3, &k4})
    {
      const auto b = vir::to_bitset(*q);
      static_assert(b.size() == N);
      mon::events += N;
      if (b != want)
        for (std::size_t i = 0; i < N; ++i)
          if (b[i] != want[i]) { mon::fail("to_bitset: bit %zu is %d, expected %d", i, bool(b[i]), bool(want[i])); break; }
      // bits above N must not leak into the bitset's count/compare
      if (b.count() != want.count() or b.any() != want.any() or b.all() != want.all())
        mon::fail("to_bitset: count %zu, expected %zu", b.count(), want.count());
    }
  auto mask_is = [&](const auto& m, const char* what) {
    mon::events += N;
    for (std::size_t i = 0; i < N; ++i)
      if (bool(m[i]) != p[i]) { mon::fail("%s: lane %zu is %d, expected %d", what, i, bool(m[i]), bool(p[i])); return; }
    if (popcount(m) != int(want.count()) or any_of(m) != want.any() or all_of(m) != want.all())
      mon::fail("%s: inconsistent mask: popcount %d, expected %zu", what, popcount(m), want.count());
    bool back[N + 1] = {};
    m.copy_to(back, stdx::element_aligned);
    for (std::size_t i = 0; i < N; ++i)
      if (back[i] != p[i]) { mon::fail("%s: stored lane %zu differs", what, i); return; }
  };
  mask_is(vir::to_simd_mask<M>(want), "to_simd_mask<M>");
  mask_is(vir::to_simd_mask<T, A>(want), "to_simd_mask<T, Abi>");
  mask_is(vir::to_simd_mask<T>(want), "to_simd_mask<T>(bitset<N>)");
  static_assert(decltype(vir::to_simd_mask<T>(want))::size() == N);
  static_assert(std::is_same_v<decltype(vir::to_simd_mask<T, A>(want)), M>);
  // round trips
  if (vir::to_bitset(vir::to_simd_mask<M>(want)) != want) mon::fail("bitset -> mask -> bitset changes the bits");
  if (not all_of(vir::to_simd_mask<M>(vir::to_bitset(k)) == k)) mon::fail("mask -> bitset -> mask changes the lanes");
  // use as a select: the produced mask must be usable
  stdx::simd<T, A> v = T(1);
  where(vir::to_simd_mask<M>(want), v) = T(2);
  for (std::size_t i = 0; i < N; ++i)
    if (T(v[i]) != T(p[i] ? 2 : 1)) { mon::fail("where(to_simd_mask(bits)): lane %zu wrong", i); break; }
  if (want.any() and not want.all()) mon::nontrivial(std::hash<std::bitset<N>>()(want));
}

template <typename T, typename A>
static void masks(const char* tn)
{
  using M = stdx::simd_mask<T, A>;
  constexpr std::size_t N = M::size();
  mon::rng r(N * 77 + sizeof(T));
  std::vector<bool> p(N);
  if constexpr (N <= 10)
    for (unsigned long x = 0; x < (1ul << N); ++x)
      { for (std::size_t i = 0; i < N; ++i) p[i] = x >> i & 1; one<M, T, A>(p, tn, 0); }
  else
    {
      for (std::size_t a = 0; a <= N; ++a) // prefixes, single bits and their complements
        {
          for (std::size_t i = 0; i < N; ++i) p[i] = i < a; one<M, T, A>(p, tn, 1);
          for (std::size_t i = 0; i < N; ++i) p[i] = i >= a; one<M, T, A>(p, tn, 2);
          for (std::size_t i = 0; i < N; ++i) p[i] = i == a; one<M, T, A>(p, tn, 3);
          for (std::size_t i = 0; i < N; ++i) p[i] = i != a; one<M, T, A>(p, tn, 4);
        }
      for (int k = 0; k < (mon::thorough ? 20000 : 600); ++k)
        { unsigned d = 1 + r.below(9); for (std::size_t i = 0; i < N; ++i) p[i] = r.below(10) < d; one<M, T, A>(p, tn, 5); }
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_types([]<typename X>(X) {
    using T = typename X::t;
    const char* tn = mon::type_name<T>();
    masks<T, stdx::simd_abi::scalar>(tn);
    masks<T, stdx::simd_abi::native<T>>(tn);
    masks<T, stdx::simd_abi::compatible<T>>(tn);
    [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
      (masks<T, stdx::simd_abi::fixed_size<Ns>>(tn), ...);
      (masks<T, stdx::simd_abi::deduce_t<T, Ns>>(tn), ...);
    }(std::integer_sequence<int, NS>());
  });
  return mon::finish();
}
