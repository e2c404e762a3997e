// C29 monitor: histories of operations on simd objects, executed by the compiler's constant evaluator (which rejects
// undefined behaviour) and by the program, compared with each other and, lane by lane, with a scalar oracle.
#include <vir/simd.h>
#include <vir/simd_iota.h>
#include <vir/simd_permute.h>
#include <vir/simd_resize.h>
#include <vir/simd_cvt.h>
#include <algorithm>
#include <array>
#include <bit>
#include <cstdint>
#include <functional>
#include <limits>
#include <utility>
#include "mon.h"
namespace stdx = vir::stdx;
#ifndef ELT
#define ELT int
#endif
#ifndef NS
#define NS 4
#endif
#ifdef VIR_DISABLE_STDX_SIMD
#define PORTABLE 1
#else
#define PORTABLE 0
#endif

constexpr int CAP = 6000;

struct Log
{
  int n = 0, bad = 0, firstbad = -1, lanes = 0;
  const char* name[CAP] = {};
  std::uint64_t val[CAP] = {};

  template <typename X>
  static constexpr std::uint64_t bits(X x)
  {
    if constexpr (std::is_floating_point_v<X>)
      return x != x ? 0x7ff8000000000000ull : std::bit_cast<std::uint64_t>(double(x));
    else
      return std::uint64_t(x);
  }
  template <typename X, typename Y>
  constexpr void one(const char* w, X x, Y want)
  {
    if (n >= CAP) { n = CAP + 1; return; }
    name[n] = w;
    val[n] = bits(X(x));
    if (bits(X(x)) != bits(X(want)))
      { if (not bad++) firstbad = n; }
    ++n;
  }
  // every lane of a simd / simd_mask against f(lane)
  template <typename V, typename F>
  constexpr void all(const char* w, const V& v, F f)
  {
    for (std::size_t i = 0; i < V::size(); ++i)
      { one(w, static_cast<typename V::value_type>(v[i]), static_cast<typename V::value_type>(f(int(i)))); ++lanes; }
  }
};

struct Rng
{
  std::uint32_t s;
  constexpr std::uint32_t next() { s ^= s << 13; s ^= s >> 17; s ^= s << 5; return s; }
  constexpr int below(int n) { return int(next() % std::uint32_t(n)); }
};

template <typename X, int N>
#ifdef DEDUCE
using simd_of = stdx::simd<X, stdx::simd_abi::deduce_t<X, N>>;
#else
using simd_of = std::conditional_t<N == 1, stdx::simd<X, stdx::simd_abi::scalar>, stdx::fixed_size_simd<X, N>>;
#endif

template <typename X, int N>
constexpr std::array<X, N> values(Rng& r)
{
  std::array<X, N> a{};
  for (auto& x : a)
    {
      int k = r.below(41) - (std::is_signed_v<X> ? 20 : 0);
      x = std::is_floating_point_v<X> ? X(k) / X(4) : X(k);
    }
  return a;
}

template <typename X>
constexpr X pos(X x) { return x < X(0) ? X(-x) : x; }

#ifndef PART
#define PART 0
#endif

#if PART == 4
#include <vir/simdize.h>
template <typename A>
struct point { A x, y, z; };
#endif

template <typename T, int N>
constexpr Log history(unsigned seed)
{
  Log l;
  Rng r{seed * 2654435761u + 12345u};
  using V = simd_of<T, N>;
  using M = typename V::mask_type;
  const auto A = values<T, N>(r), B = values<T, N>(r), C = values<T, N>(r);
  std::array<bool, N> KA{};
  for (auto& k : KA) k = r.below(2);
  if (seed % 7 == 0) KA.fill(true);
  if (seed % 7 == 1) KA.fill(false);
  if (seed % 7 == 2) { KA.fill(false); KA[r.below(N)] = true; }
  const V a([&](int i) { return A[i]; }), b([&](int i) { return B[i]; });
#if PART == 0
  l.all("generator", a, [&](int i) { return A[i]; });
  V c{};
  {
    T buf[N + 2] = {};
    for (int i = 0; i < N; ++i) buf[i + 1] = C[i];
    const V x(buf + 1, stdx::element_aligned);
    l.all("load constructor", x, [&](int i) { return C[i]; });
    c.copy_from(buf + 1, stdx::element_aligned);
    l.all("copy_from", c, [&](int i) { return C[i]; });
    b.copy_to(buf + 1, stdx::element_aligned);
    for (int i = 0; i < N + 2; ++i)
      l.one("copy_to", buf[i], i == 0 or i > N ? T(0) : B[i - 1]);
    short sh[N] = {};
    for (int i = 0; i < N; ++i) sh[i] = short(i * 3);
    c.copy_from(sh, stdx::element_aligned);
    l.all("converting copy_from", c, [&](int i) { return T(i * 3); });
    V d(T(5));
    l.all("broadcast", d, [&](int) { return T(5); });
    for (int i = 0; i < N; ++i) d[i] = A[N - 1 - i];
    l.all("operator[]", d, [&](int i) { return A[N - 1 - i]; });
    d[0] += T(1);
    l.one("operator[] +=", d[0], T(A[N - 1] + T(1)));
  }
  l.all("operator+", a + b, [&](int i) { return A[i] + B[i]; });
  l.all("operator-", a - b, [&](int i) { return A[i] - B[i]; });
  l.all("operator*", a * b, [&](int i) { return A[i] * B[i]; });
  l.all("operator/", a / (b * b + T(1)), [&](int i) { return T(A[i]) / T(T(B[i] * B[i]) + T(1)) ; });
  l.all("unary -", -a, [&](int i) { return -A[i]; });
  l.all("unary +", +a, [&](int i) { return A[i]; });
  l.all("operator!", !a, [&](int i) { return !A[i]; });
  {
    V x = a;
    l.all("++x", ++x, [&](int i) { return A[i] + 1; });
    l.all("x++", x++, [&](int i) { return A[i] + 1; });
    l.all("--x", --x, [&](int i) { return A[i] + 1; });
    l.all("x--", x--, [&](int i) { return A[i] + 1; });
    l.all("after x--", x, [&](int i) { return A[i]; });
    x += b;
    x -= T(2);
    x *= b;
    l.all("compound", x, [&](int i) { return T(T(A[i] + B[i] - T(2)) * B[i]); });
  }
  l.all("==", a == b, [&](int i) { return A[i] == B[i]; });
  l.all("!=", a != b, [&](int i) { return A[i] != B[i]; });
  l.all("<", a < b, [&](int i) { return A[i] < B[i]; });
  l.all("<=", a <= b, [&](int i) { return A[i] <= B[i]; });
  l.all(">", a > b, [&](int i) { return A[i] > B[i]; });
  l.all(">=", a >= b, [&](int i) { return A[i] >= B[i]; });
  if constexpr (std::is_integral_v<T>)
    {
      const std::array<int, 4> sh{r.below(3), r.below(5), 1, 0};
      V p([&](int i) { return pos(A[i]); }), s([&](int i) { return T(sh[i % 4]); });
      l.all("%", p % (V([&](int i) { return T(pos(B[i]) + 1); })), [&](int i) { return pos(A[i]) % (pos(B[i]) + 1); });
      l.all("&", a & b, [&](int i) { return A[i] & B[i]; });
      l.all("|", a | b, [&](int i) { return A[i] | B[i]; });
      l.all("^", a ^ b, [&](int i) { return A[i] ^ B[i]; });
      l.all("~", ~a, [&](int i) { return ~A[i]; });
      l.all("<<", p << s, [&](int i) { return T(pos(A[i])) << sh[i % 4]; });
      l.all(">>", p >> s, [&](int i) { return T(pos(A[i])) >> sh[i % 4]; });
      l.all("<< int", p << sh[0], [&](int i) { return T(pos(A[i])) << sh[0]; });
      l.all(">> int", a >> sh[1], [&](int i) { return A[i] >> sh[1]; });
      V x = p;
      x %= V(T(7)); x |= T(8); x ^= T(3); x &= T(13); x <<= T(2); x >>= T(1);
      l.all("compound bits", x, [&](int i) { return (((((pos(A[i]) % 7) | 8) ^ 3) & 13) << 2) >> 1; });
    }
  const M k([&](auto i) -> bool { return KA[i]; });
  // masks
  l.all("mask generator", k, [&](int i) { return KA[i]; });
  {
    M x = k;
    x[N - 1] = not KA[N - 1];
    l.all("mask operator[]", x, [&](int i) { return i == N - 1 ? not KA[i] : KA[i]; });
    x = k;
    l.all("mask !", !x, [&](int i) { return not KA[i]; });
    l.all("mask broadcast", M(true), [](int) { return true; });
    const M q = a < b;
    l.all("mask &&", k && q, [&](int i) { return KA[i] and A[i] < B[i]; });
    l.all("mask ||", k || q, [&](int i) { return KA[i] or A[i] < B[i]; });
    l.all("mask &", k & q, [&](int i) { return KA[i] and A[i] < B[i]; });
    l.all("mask |", k | q, [&](int i) { return KA[i] or A[i] < B[i]; });
    l.all("mask ^", k ^ q, [&](int i) { return KA[i] != (A[i] < B[i]); });
    l.all("mask ==", k == q, [&](int i) { return KA[i] == (A[i] < B[i]); });
    l.all("mask !=", k != q, [&](int i) { return KA[i] != (A[i] < B[i]); });
    x &= q; x |= k; x ^= M(true);
    l.all("mask compound", x, [&](int i) { return not KA[i]; });
    if constexpr (PORTABLE)
      {
        bool buf[N + 2] = {};
        for (int i = 0; i < N; ++i) buf[i + 1] = KA[i];
        const M y(buf + 1, stdx::element_aligned);
        l.all("mask load constructor", y, [&](int i) { return KA[i]; });
        const M z(buf + 1, q, stdx::element_aligned);
        l.all("masked mask load constructor", z, [&](int i) { return A[i] < B[i] ? KA[i] : false; });
        q.copy_to(buf + 1, stdx::element_aligned);
        for (int i = 0; i < N + 2; ++i)
          l.one("mask copy_to", buf[i], i > 0 and i <= N ? A[i - 1] < B[i - 1] : false);
        x.copy_from(buf + 1, stdx::element_aligned);
        l.all("mask copy_from", x, [&](int i) { return A[i] < B[i]; });
        bool o[N + 2] = {};
        where(k, x).copy_to(o + 1, stdx::element_aligned);
        for (int i = 0; i < N + 2; ++i)
          l.one("where mask copy_to", o[i], i > 0 and i <= N and KA[i - 1] and A[i - 1] < B[i - 1]);
        for (int i = 0; i < N; ++i) o[i + 1] = not (A[i] < B[i]);
        where(k, x).copy_from(o + 1, stdx::element_aligned);
        l.all("where mask copy_from", x, [&](int i) { return (A[i] < B[i]) != KA[i]; });
      }
  }
  int cnt = 0, first = -1, last = -1;
  for (int i = 0; i < N; ++i) if (KA[i]) { ++cnt; last = i; if (first < 0) first = i; }
  l.one("popcount", popcount(k), cnt);
  l.one("all_of", all_of(k), cnt == N);
  l.one("any_of", any_of(k), cnt > 0);
  l.one("none_of", none_of(k), cnt == 0);
  l.one("some_of", some_of(k), cnt > 0 and cnt < N);
  if (cnt)
    {
      l.one("find_first_set", find_first_set(k), first);
      l.one("find_last_set", find_last_set(k), last);
    }
#endif
#if PART == 1
  const M k([&](auto i) -> bool { return KA[i]; });
  int cnt = 0;
  for (int i = 0; i < N; ++i) cnt += KA[i];
  // where
  {
    V x = a;
    where(k, x) = b;
    l.all("where =", x, [&](int i) { return KA[i] ? B[i] : A[i]; });
    x = a; where(k, x) = T(3);
    l.all("where = scalar", x, [&](int i) { return KA[i] ? T(3) : A[i]; });
    x = a; where(k, x) += b;
    l.all("where +=", x, [&](int i) { return KA[i] ? A[i] + B[i] : A[i]; });
    x = a; where(k, x) -= b;
    l.all("where -=", x, [&](int i) { return KA[i] ? A[i] - B[i] : A[i]; });
    x = a; where(k, x) *= b;
    l.all("where *=", x, [&](int i) { return KA[i] ? A[i] * B[i] : A[i]; });
    // lanes which are not selected must not be evaluated: division by zero is not a constant expression
    x = a; where(b != T(0), x) /= b;
    l.all("where /=", x, [&](int i) { return B[i] != T(0) ? A[i] / B[i] : A[i]; });
    x = a; ++where(k, x);
    l.all("++where", x, [&](int i) { return KA[i] ? A[i] + 1 : A[i]; });
    x = a; where(k, x)--;
    l.all("where--", x, [&](int i) { return KA[i] ? A[i] - 1 : A[i]; });
    x = a; x = -where(k, x);
    l.all("-where", x, [&](int i) { return KA[i] ? -A[i] : A[i]; });
    if constexpr (std::is_integral_v<T>)
      {
        V p([&](int i) { return pos(A[i]); });
        x = p; where(b != T(0), x) %= b;
        l.all("where %=", x, [&](int i) { return B[i] != T(0) ? T(pos(A[i])) % B[i] : T(pos(A[i])); });
        x = a; where(k, x) &= b;
        l.all("where &=", x, [&](int i) { return KA[i] ? A[i] & B[i] : A[i]; });
        x = a; where(k, x) |= b;
        l.all("where |=", x, [&](int i) { return KA[i] ? A[i] | B[i] : A[i]; });
        x = a; where(k, x) ^= b;
        l.all("where ^=", x, [&](int i) { return KA[i] ? A[i] ^ B[i] : A[i]; });
        x = p; where(k, x) <<= T(2);
        l.all("where <<=", x, [&](int i) { return KA[i] ? T(pos(A[i])) << 2 : T(pos(A[i])); });
        x = p; where(k, x) >>= T(1);
        l.all("where >>=", x, [&](int i) { return KA[i] ? T(pos(A[i])) >> 1 : T(pos(A[i])); });
      }
    // masked loads and stores must not touch what is not selected: beyond the array is no constant expression
    int need = 0;
    for (int i = 0; i < N; ++i) if (KA[i]) need = i + 1;
    auto masked = [&]<int L>(std::integral_constant<int, L>) {
      T buf[L] = {};
      for (int i = 0; i < L; ++i) buf[i] = C[i];
      V y = a;
      where(k, y).copy_from(buf, stdx::element_aligned);
      l.all("where copy_from", y, [&](int i) { return KA[i] ? C[i] : A[i]; });
      where(k, b).copy_to(buf, stdx::element_aligned);
      for (int i = 0; i < L; ++i)
        l.one("where copy_to", buf[i], KA[i] ? B[i] : C[i]);
    };
    [&]<int... Is>(std::integer_sequence<int, Is...>) {
      ((need == Is + 1 ? masked(std::integral_constant<int, Is + 1>()) : void()), ...);
    }(std::make_integer_sequence<int, N>());
    M q = a < b;
    where(k, q) = M(true);
    l.all("where mask", q, [&](int i) { return KA[i] or A[i] < B[i]; });
    T s = A[0];
    stdx::where(cnt > 0, s) = B[0];
    l.one("where bool", s, cnt > 0 ? B[0] : A[0]);
    stdx::where(cnt == N, s) += T(2);
    l.one("where bool +=", s, T((cnt > 0 ? B[0] : A[0]) + (cnt == N ? T(2) : T(0))));
  }
  // reductions
  {
    T sum = T(0), mn = A[0], mx = A[0], wsum = T(0);
    T wmn = std::numeric_limits<T>::max(), wmx = std::numeric_limits<T>::lowest(), xr = T(0);
    for (int i = 0; i < N; ++i)
      {
        sum = T(sum + A[i]); mn = std::min(mn, A[i]); mx = std::max(mx, A[i]);
        if constexpr (std::is_integral_v<T>) xr = T(xr ^ A[i]);
        if (KA[i]) { wsum = T(wsum + A[i]); wmn = std::min(wmn, A[i]); wmx = std::max(wmx, A[i]); }
      }
    l.one("reduce", reduce(a), sum);
    l.one("reduce(max)", reduce(a, [](const auto& x, const auto& y) { using std::max; return max(x, y); }), mx);
    if constexpr (std::is_integral_v<T>)
      l.one("reduce(xor)", reduce(a, std::bit_xor<>()), xr);
    l.one("hmin", hmin(a), mn);
    l.one("hmax", hmax(a), mx);
    l.one("where reduce", reduce(where(k, a), T(0), std::plus<>()), wsum);
    l.one("where reduce", reduce(where(k, a)), wsum);
    if (cnt)
      {
        l.one("where hmin", hmin(where(k, a)), wmn);
        l.one("where hmax", hmax(where(k, a)), wmx);
      }
  }
  l.all("min", min(a, b), [&](int i) { return std::min(A[i], B[i]); });
  l.all("max", max(a, b), [&](int i) { return std::max(A[i], B[i]); });
  l.all("minmax", minmax(a, b).first, [&](int i) { return std::min(A[i], B[i]); });
  l.all("minmax", minmax(a, b).second, [&](int i) { return std::max(A[i], B[i]); });
  {
    const V lo = min(a, b), hi = max(a, b);
    l.all("clamp", clamp(V([&](int i) { return C[i]; }), lo, hi),
          [&](int i) { return std::clamp(C[i], std::min(A[i], B[i]), std::max(A[i], B[i])); });
  }
#endif
#if PART == 2
  // conversions
  {
    using U = std::conditional_t<std::is_same_v<T, double>, float, double>;
    l.all("static_simd_cast", stdx::static_simd_cast<U>(a), [&](int i) { return U(A[i]); });
    l.all("static_simd_cast int", stdx::static_simd_cast<simd_of<int, N>>(a), [&](int i) { return int(A[i]); });
    l.all("static_simd_cast char", stdx::static_simd_cast<simd_of<signed char, N>>(a), [&](int i) { return (signed char)(A[i]); });
    l.all("static_simd_cast mask", stdx::static_simd_cast<typename simd_of<char, N>::mask_type>(a < b),
          [&](int i) { return A[i] < B[i]; });
    const simd_of<U, N> cv = vir::cvt(a);
    l.all("cvt", cv, [&](int i) { return U(A[i]); });
    const simd_of<short, N> cs = vir::cvt(a);
    l.all("cvt", cs, [&](int i) { return short(A[i]); });
    const typename simd_of<short, N>::mask_type cm = vir::cvt(a < b);
    l.all("cvt mask", cm, [&](int i) { return A[i] < B[i]; });
    l.all("simd_cast", stdx::simd_cast<long double>(a), [&](int i) { return (long double)(A[i]); });
    if constexpr (N > 1)
      l.all("to_fixed_size", stdx::to_fixed_size(a), [&](int i) { return A[i]; });
  }
  // split, concat, resize
  {
    const auto cc = concat(a, b);
    l.all("concat", cc, [&](int i) { return i < N ? A[i] : B[i - N]; });
    const auto ck = concat(a < b, a == b);
    l.all("concat masks", ck, [&](int i) { return i < N ? A[i] < B[i] : A[i - N] == B[i - N]; });
    const auto halves = split<V>(cc);
    l.all("split", halves[0], [&](int i) { return A[i]; });
    l.all("split", halves[1], [&](int i) { return B[i]; });
    if constexpr (PORTABLE)
      {
        const auto khalves = split<typename V::mask_type>(ck);
        l.all("split mask", khalves[0], [&](int i) { return A[i] < B[i]; });
        l.all("split mask", khalves[1], [&](int i) { return A[i] == B[i]; });
      }
    if constexpr (N > 2)
      {
        const auto [x, y] = split<1, N - 1>(a);
        l.one("split<1,N-1>", T(x[0]), A[0]);
        l.all("split<1,N-1>", y, [&](int i) { return A[i + 1]; });
      }
    l.all("simd_resize +3", vir::simd_resize<N + 3>(a), [&](int i) { return i < N ? A[i] : T(0); });
    if constexpr (N > 1)
      l.all("simd_resize -1", vir::simd_resize<N - 1>(a), [&](int i) { return A[i]; });
    l.all("simd_resize mask", vir::simd_resize<N + 2>(a < b), [&](int i) { return i < N ? A[i] < B[i] : false; });
    l.all("simd_size_cast", vir::simd_size_cast<simd_of<T, N + 1>>(a), [&](int i) { return i < N ? A[i] : T(0); });
  }
  l.all("iota_v", vir::iota_v<V>, [](int i) { return T(i); });
#endif
#if PART == 3
  l.all("iota_v", vir::iota_v<V>, [](int i) { return T(i); });
  // permutations
  {
    l.all("reverse", vir::simd_permute(a, vir::simd_permutations::reverse), [&](int i) { return A[N - 1 - i]; });
    l.all("broadcast_first", vir::simd_permute(a, vir::simd_permutations::broadcast_first), [&](int) { return A[0]; });
    l.all("broadcast_last", vir::simd_permute(a, vir::simd_permutations::broadcast_last), [&](int) { return A[N - 1]; });
    l.all("broadcast<1>", vir::simd_permute(a, vir::simd_permutations::broadcast<N / 2>), [&](int) { return A[N / 2]; });
    l.all("rotate<1>", vir::simd_permute(a, vir::simd_permutations::rotate<1>), [&](int i) { return A[(i + 1) % N]; });
    l.all("rotate<-1>", vir::simd_permute(a, vir::simd_permutations::rotate<-1>), [&](int i) { return A[(i + N - 1) % N]; });
    l.all("shift<1>", vir::simd_permute(a, vir::simd_permutations::shift<1>), [&](int i) { return i + 1 < N ? A[i + 1] : T(0); });
    l.all("shift<-2>", vir::simd_permute(a, vir::simd_permutations::shift<-2>), [&](int i) { return i >= 2 ? A[i - 2] : T(0); });
    if constexpr (N % 2 == 0)
      {
        l.all("swap_neighbors", vir::simd_permute(a, vir::simd_permutations::swap_neighbors<>), [&](int i) { return A[i ^ 1]; });
        l.all("duplicate_even", vir::simd_permute(a, vir::simd_permutations::duplicate_even), [&](int i) { return A[i & ~1]; });
        l.all("duplicate_odd", vir::simd_permute(a, vir::simd_permutations::duplicate_odd), [&](int i) { return A[i | 1]; });
      }
    l.all("permute index", vir::simd_permute(a, [](auto i) { return int((i * 3 + 1) % N); }), [&](int i) { return A[(i * 3 + 1) % N]; });
    l.all("permute zero", vir::simd_permute(a, [](auto i) { return i % 2 ? vir::simd_permute_zero : int(i); }),
          [&](int i) { return i % 2 ? T(0) : A[i]; });
    l.all("simd_resize +3", vir::simd_resize<N + 3>(a), [&](int i) { return i < N ? A[i] : T(0); });
    if constexpr (N > 1)
      l.all("simd_resize -1", vir::simd_resize<N - 1>(a), [&](int i) { return A[i]; });
    l.all("simd_size_cast", vir::simd_size_cast<simd_of<T, 2 * N>>(a), [&](int i) { return i < N ? A[i] : T(0); });
    if constexpr (PORTABLE or N == 1)
      {
        const simd_of<short, N> cs = vir::cvt(a);
        l.all("cvt", cs, [&](int i) { return short(A[i]); });
        const simd_of<double, N> cd = vir::cvt(a);
        l.all("cvt", cd, [&](int i) { return double(A[i]); });
      }
    l.all("simd_shift_in<1>", vir::simd_shift_in<1>(a, b), [&](int i) { return i + 1 < N ? A[i + 1] : B[i + 1 - N]; });
  }
#endif
#if PART == 4
  // structures of simd
  {
    using P = point<T>;
    std::array<P, N + 2> s{};
    for (int i = 0; i < N; ++i) s[i + 1] = {A[i], B[i], T(i + 3)};
    vir::simdize<P, N> x;
    x.copy_from(s.data() + 1, stdx::element_aligned);
    l.all("struct copy_from", x.x, [&](int i) { return A[i]; });
    l.all("struct copy_from", x.y, [&](int i) { return B[i]; });
    l.all("struct copy_from", x.z, [&](int i) { return T(i + 3); });
    const vir::simdize<P, N> w(s.data() + 1, stdx::element_aligned);
    l.all("struct load constructor", w.y, [&](int i) { return B[i]; });
    for (int i = 0; i < N; ++i)
      {
        const P e = x[i];
        l.one("struct subscript", e.x, A[i]);
        l.one("struct subscript", e.y, B[i]);
        l.one("struct subscript", e.z, T(i + 3));
      }
    x.x += x.y;
    x.y = T(1);
    std::array<P, N + 2> o{};
    x.copy_to(o.data() + 1, stdx::element_aligned);
    for (int i = 0; i < N + 2; ++i)
      {
        const bool in = i > 0 and i <= N;
        l.one("struct copy_to", o[i].x, in ? T(A[i - 1] + B[i - 1]) : T(0));
        l.one("struct copy_to", o[i].y, in ? T(1) : T(0));
        l.one("struct copy_to", o[i].z, in ? T(i + 2) : T(0));
      }
    std::array<std::pair<T, T>, N> pr{};
    for (int i = 0; i < N; ++i) pr[i] = {A[i], C[i]};
    vir::simdize<std::pair<T, T>, N> q;
    q.copy_from(pr.data(), stdx::element_aligned);
    l.all("pair copy_from", std::get<0>(q), [&](int i) { return A[i]; });
    l.all("pair copy_from", std::get<1>(q), [&](int i) { return C[i]; });
    pr = {};
    q.copy_to(pr.data(), stdx::element_aligned);
    for (int i = 0; i < N; ++i)
      { l.one("pair copy_to", pr[i].first, A[i]); l.one("pair copy_to", pr[i].second, C[i]); }
  }
#endif
  return l;
}

template <int N, unsigned Seed>
static void both(std::integral_constant<int, N>, std::integral_constant<unsigned, Seed>)
{
  static constexpr Log at_compile_time = history<ELT, N>(Seed);
  volatile unsigned s = Seed;
  static Log rt;
  rt = history<ELT, N>(s);
  auto check = [&](const char* how, const Log& l) {
    mon::begin(how, "", N, Seed, l.n);
    ++mon::evals; mon::nontrivial();
    mon::events += l.n;
    if (l.n > CAP) mon::fail("log overflow");
    if (l.bad)
      mon::fail("%d of %d observed values differ from the scalar oracle, first: %s (entry %d, value %#llx)", l.bad, l.n, l.name[l.firstbad],
                l.firstbad, (unsigned long long)l.val[l.firstbad]);
  };
  check("constant evaluation", at_compile_time);
  check("execution", rt);
  mon::begin("constant evaluation vs. execution", "", N, Seed);
  if (at_compile_time.n != rt.n)
    mon::fail("different number of observations: %d, %d", at_compile_time.n, rt.n);
  else
    for (int i = 0; i < rt.n; ++i)
      if (rt.val[i] != at_compile_time.val[i])
        { mon::fail("%s (entry %d): constant evaluation %#llx, execution %#llx", rt.name[i], i,
                    (unsigned long long)at_compile_time.val[i], (unsigned long long)rt.val[i]); break; }
}

#ifndef SEEDS
#define SEEDS 8
#endif
#ifndef SEED0
#define SEED0 0
#endif

template <int N>
static void width(std::integral_constant<int, N> n)
{
  [&]<unsigned... Is>(std::integer_sequence<unsigned, Is...>) {
    (both(n, std::integral_constant<unsigned, SEED0 + Is>()), ...);
  }(std::make_integer_sequence<unsigned, SEEDS>());
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
    (width(std::integral_constant<int, Ns>()), ...);
  }(std::integer_sequence<int, NS>());
  return mon::finish();
}
