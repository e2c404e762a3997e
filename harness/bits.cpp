// C19 monitor: simd_bit_cast, bitwise operators on floating-point simd, fake_modify / fake_read.
#include <vir/simd_bit.h>
#include <vir/simd_float_ops.h>
#include <vir/simd_benchmarking.h>
#include "fb.h"
#include <cstring>

template <typename T>
constexpr std::size_t value_bytes = std::is_same_v<T, long double> ? 10 : sizeof(T);

template <typename T>
static T from_bits(mon::rng& r)
{
  T x{};
  unsigned char b[sizeof(T)] = {};
  const unsigned k = r.below(8);
  for (std::size_t i = 0; i < value_bytes<T>; ++i)
    b[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (i + 1 == value_bytes<T> ? 0x80 : 0) : k == 3 ? (r.below(4) ? 0xff : 0) : r();
  if constexpr (std::is_floating_point_v<T> and sizeof(T) <= 8)
    if (k == 4) // NaN / inf with payload
      { b[sizeof(T) - 1] |= 0x7f; b[sizeof(T) - 2] |= 0xf0; }
  std::memcpy(&x, b, sizeof(T));
  return x;
}

// lanes as raw bytes, obtained through loads/stores only (no arithmetic on the values)
template <typename V>
struct raw
{
  using T = typename V::value_type;
  T lane[V::size()];
  raw(mon::rng& r) { std::memset(lane, 0, sizeof lane); for (auto& x : lane) { T y = from_bits<T>(r); std::memcpy(&x, &y, sizeof(T)); } }
  raw(const V& v) { std::memset(lane, 0, sizeof lane); v.copy_to(lane, stdx::element_aligned); }
  V get() const { return V(lane, stdx::element_aligned); }
  unsigned char byte(std::size_t i, std::size_t b) const { return reinterpret_cast<const unsigned char*>(&lane[i])[b]; }
};

template <typename To, typename V>
static void cast_one(const char* a, mon::rng& r)
{
  if constexpr (sizeof(To) == sizeof(V) and sizeof(typename To::value_type) * To::size() == sizeof(typename V::value_type) * V::size())
    {
      mon::begin("simd_bit_cast", a, V::size(), sizeof(typename V::value_type), To::size(), sizeof(typename To::value_type));
      for (int k = 0; k < 40; ++k)
        {
          const raw<V> x(r);
          const To y = vir::simd_bit_cast<To>(x.get());
          static_assert(std::is_same_v<decltype(vir::simd_bit_cast<To>(x.get())), To>);
          const raw<To> z(y);
          ++mon::evals;
          mon::events += sizeof z.lane;
          mon::nontrivial(k);
          if (std::memcmp(z.lane, x.lane, sizeof z.lane))
            mon::fail("simd_bit_cast changes the value representation");
          const raw<V> back(vir::simd_bit_cast<V>(y));
          if (std::memcmp(back.lane, x.lane, sizeof x.lane))
            mon::fail("simd_bit_cast is not its own inverse");
        }
    }
}

// masks: only masks of equal layout can be compared through the API
template <typename To, typename M>
static void cast_mask(const char* a, mon::rng& r)
{
  if constexpr (sizeof(To) == sizeof(M) and To::size() == M::size())
    {
      mon::begin("simd_bit_cast mask", a, M::size(), sizeof(M));
      for (int k = 0; k < 40; ++k)
        {
          bool b[M::size()];
          for (auto& x : b) x = r.below(2);
          const M m(b, stdx::element_aligned);
          const To t = vir::simd_bit_cast<To>(m);
          ++mon::evals;
          mon::events += M::size();
          mon::nontrivial(k);
          for (std::size_t i = 0; i < M::size(); ++i)
            if (bool(t[i]) != b[i]) { mon::fail("mask lane %zu changed", i); break; }
          const M u = vir::simd_bit_cast<M>(t);
          for (std::size_t i = 0; i < M::size(); ++i)
            if (bool(u[i]) != b[i]) { mon::fail("mask lane %zu changed by the round trip", i); break; }
        }
    }
}

template <typename V>
static void float_ops(const char* tn, mon::rng& r)
{
  using T = typename V::value_type;
  using namespace vir::simd_float_ops;
  for (int k = 0; k < 200; ++k)
    {
      const raw<V> a(r), b(r);
      const V x = a.get(), y = b.get();
      const raw<V> A(x & y), O(x | y), X(x ^ y), XX((x ^ y) ^ y), N(x & x);
      mon::begin("float ops", tn, V::size(), k);
      ++mon::evals;
      mon::nontrivial();
      for (std::size_t i = 0; i < V::size(); ++i)
        for (std::size_t j = 0; j < value_bytes<T>; ++j)
          {
            ++mon::events;
            const unsigned p = a.byte(i, j), q = b.byte(i, j);
            if (A.byte(i, j) != (p & q)) { mon::fail("operator&: lane %zu byte %zu is %02x, expected %02x", i, j, A.byte(i, j), p & q); return; }
            if (O.byte(i, j) != (p | q)) { mon::fail("operator|: lane %zu byte %zu is %02x, expected %02x", i, j, O.byte(i, j), p | q); return; }
            if (X.byte(i, j) != (p ^ q)) { mon::fail("operator^: lane %zu byte %zu is %02x, expected %02x", i, j, X.byte(i, j), p ^ q); return; }
            if (XX.byte(i, j) != p) { mon::fail("(x^y)^y: lane %zu byte %zu is %02x, expected %02x", i, j, XX.byte(i, j), p); return; }
            if (N.byte(i, j) != p) { mon::fail("x&x: lane %zu byte %zu is %02x, expected %02x", i, j, N.byte(i, j), p); return; }
          }
    }
  // the classic uses: sign extraction, abs, copysign
  const V sgn = T(-0.0);
  V v = T(0);
  for (std::size_t i = 0; i < V::size(); ++i) v[i] = (i & 1 ? -T(i + 1) : T(i + 1));
  const V s = sgn & v, w = v ^ sgn, o = sgn | v;
  mon::begin("float ops sign", tn, V::size());
  ++mon::evals;
  for (std::size_t i = 0; i < V::size(); ++i)
    {
      if (std::signbit(T(s[i])) != (i & 1) or T(s[i]) != 0) mon::fail("sign extraction wrong in lane %zu", i);
      if (T(w[i]) != -T(v[i])) mon::fail("sign flip wrong in lane %zu", i);
      if (T(o[i]) != -T(i + 1)) mon::fail("negative absolute value wrong in lane %zu", i);
    }
}

template <typename T>
static bool same_bytes(const T& a, const T& b, std::size_t n = value_bytes<T>) { return std::memcmp(&a, &b, n) == 0; }

template <typename T>
[[gnu::noinline]] static bool same_ref(const T& a, const T& b) { return same_bytes(a, b); }

template <typename V, typename T>
static bool differ(const T* a, const T* b)
{
  for (std::size_t i = 0; i < V::size(); ++i)
    if (not same_bytes(a[i], b[i])) return true;
  return false;
}

// objects passed on by reference afterwards, in a loop
template <typename T>
[[gnu::noinline]] static int fake_loop(const T* p, int n)
{
  int bad = 0;
  for (int k = 0; k < n; ++k)
    {
      T s;
      std::memcpy(&s, p + k, sizeof(T));
      T s0 = s;
      vir::fake_modify(s);
      bad += not same_ref(s, s0);
      vir::fake_read(s);
      bad += not same_ref(s, s0);
    }
  return bad;
}

template <typename V>
static void fakes(const char* tn, mon::rng& r)
{
  using T = typename V::value_type;
  for (int k = 0; k < 60; ++k)
    {
      mon::begin("fake_modify", tn, V::size(), k);
      ++mon::evals;
      mon::events += 3 * V::size();
      mon::nontrivial();
      const raw<V> a(r), b(r);
      V x = a.get(), y = b.get();
      vir::fake_modify(x);
      if (differ<V>(raw<V>(x).lane, a.lane)) mon::fail("fake_modify changed a simd");
      vir::fake_modify(x, y);
      if (differ<V>(raw<V>(x).lane, a.lane)) mon::fail("fake_modify(x, y) changed x");
      if (differ<V>(raw<V>(y).lane, b.lane)) mon::fail("fake_modify(x, y) changed y");
      vir::fake_read(x, y);
      vir::fake_read(x);
      if (differ<V>(raw<V>(x).lane, a.lane)) mon::fail("fake_read changed x");
      if (differ<V>(raw<V>(y).lane, b.lane)) mon::fail("fake_read changed y");
      T s = a.lane[0];
      T s0 = s;
      vir::fake_modify(s);
      vir::fake_read(s);
      if (not same_bytes(s, s0)) mon::fail("fake_modify changed a scalar");
      if (const int bad = fake_loop(a.lane, V::size()))
        mon::fail("fake_modify changed %d of %zu scalars", bad, V::size());
      bool bb[V::size()];
      for (auto& q : bb) q = r.below(2);
      typename V::mask_type m(bb, stdx::element_aligned);
      vir::fake_modify(m);
      vir::fake_read(m);
      for (std::size_t i = 0; i < V::size(); ++i)
        if (bool(m[i]) != bb[i]) { mon::fail("fake_modify changed mask lane %zu", i); break; }
    }
}

#if not defined __clang__ and defined __OPTIMIZE__
// after fake_modify the value must be unknown to the optimizer
template <typename V>
static void opaque_values(const char* tn)
{
  using T = typename V::value_type;
  mon::begin("fake_modify hides the value", tn, V::size());
  ++mon::evals;
  mon::events += 3;
  T s = T(3);
  vir::fake_modify(s);
  if (__builtin_constant_p(s)) mon::fail("the optimizer still knows the value of the scalar");
  T a = T(1), b = T(2);
  vir::fake_modify(a, b);
  if (__builtin_constant_p(a) or __builtin_constant_p(b)) mon::fail("the optimizer still knows one of two scalars");
  V v = T(3);
  vir::fake_modify(v);
  const T l0 = v[0], l1 = v[V::size() - 1];
  if (__builtin_constant_p(l0) or __builtin_constant_p(l1)) mon::fail("the optimizer still knows the value of the simd");
}
#endif

template <typename V>
static void all(const char* tn)
{
  using T = typename V::value_type;
  mon::rng r(V::size() * 131 + sizeof(T));
  if constexpr (std::is_floating_point_v<T>)
    float_ops<V>(tn, r);
#if not defined __clang__
  fakes<V>(tn, r);
#ifdef __OPTIMIZE__
  opaque_values<V>(tn);
#endif
#endif
  constexpr std::size_t bytes = sizeof(T) * V::size();
  tlist<signed char, unsigned char, short, unsigned short, int, unsigned, long long, unsigned long long, float, double, char16_t, wchar_t>::each([&]<typename X>(X) {
    using U = typename X::t;
    if constexpr (not std::is_same_v<T, long double>)
      if constexpr (bytes % sizeof(U) == 0 and bytes / sizeof(U) > 0 and (FALLBACK or bytes / sizeof(U) <= 32))
        {
          using Deduced = stdx::simd<U, stdx::simd_abi::deduce_t<U, bytes / sizeof(U)>>;
          cast_one<Deduced, V>(tn, r);
#ifndef NO_FIXED_CAST
          cast_one<stdx::fixed_size_simd<U, bytes / sizeof(U)>, V>(tn, r);
#endif
        }
    if constexpr (sizeof(U) == sizeof(T)) if constexpr (sizeof(typename stdx::rebind_simd_t<U, V>::mask_type) == sizeof(typename V::mask_type))
      cast_mask<typename stdx::rebind_simd_t<U, V>::mask_type, typename V::mask_type>(tn, r);
  });
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_types([]<typename X>(X) {
    using T = typename X::t;
    const char* tn = mon::type_name<T>();
    all<stdx::simd<T, stdx::simd_abi::scalar>>(tn);
    all<stdx::native_simd<T>>(tn);
    [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
      (all<stdx::simd<T, stdx::simd_abi::deduce_t<T, Ns>>>(tn), ...);
      (all<stdx::fixed_size_simd<T, Ns>>(tn), ...);
    }(std::integer_sequence<int, NS>());
  });
  return mon::finish();
}
