// C03 monitor: transform_reduce / reduce. The reduction operations are chosen such that a dropped,
// doubled, padded or stale operand changes the result: modular sums of hashed ids, products of odd
// numbers, min of positive / max of negative values, and a+b+1, which also counts the operands.
#include "policies.h"
#include <algorithm>
#include <functional>
#include <limits>
#include <numeric>
#include <span>
#include <vector>

#ifndef IN1
#define IN1 int
#endif
#ifndef IN2
#define IN2 IN1
#endif
#ifndef ACC
#define ACC IN1
#endif

using A = IN1;
using B = IN2;
using R = ACC;
static constexpr bool same_types = std::is_same_v<A, R> and std::is_same_v<B, R>;
static constexpr bool wide_u = std::is_unsigned_v<R>;

template <typename V>
using acc_simd = vir::simdize<R, int(V::size())>;

template <typename V>
static acc_simd<V> to_acc(const V& v)
{
  if constexpr (std::is_same_v<acc_simd<V>, V>)
    return v;
  else
    return vir::stdx::static_simd_cast<acc_simd<V>>(v);
}

struct plus1 // associative, commutative; counts operands; 0 is not neutral
{
  template <typename X> X operator()(const X& a, const X& b) const { return a + b + X(R(1)); }
  static R s(R a, R b) { return static_cast<R>(a + b + R(1)); }
};
struct min_op
{
  template <typename X> X operator()(const X& a, const X& b) const { using std::min; return min(a, b); }
  static R s(R a, R b) { return b < a ? b : a; }
};
struct max_op
{
  template <typename X> X operator()(const X& a, const X& b) const { using std::max; return max(a, b); }
  static R s(R a, R b) { return a < b ? b : a; }
};
struct mul_op
{
  template <typename X> X operator()(const X& a, const X& b) const { return a * b; }
  static R s(R a, R b) { if constexpr (sizeof(R) < 4 and std::is_integral_v<R>) return static_cast<R>(unsigned(a) * unsigned(b)); else return static_cast<R>(a * b); }
};
struct plus_op
{
  template <typename X> X operator()(const X& a, const X& b) const { return a + b; }
  static R s(R a, R b) { return static_cast<R>(a + b); }
};
struct tf1
{
  template <typename V> acc_simd<V> operator()(const V& v) const { mon::events += V::size(); return to_acc(v); }
};
struct tf2
{
  template <typename V, typename W>
  acc_simd<V> operator()(const V& v, const W& w) const { mon::events += V::size(); return to_acc(v) + to_acc(w); }
  static R s(A a, B b) { return static_cast<R>(R(a) + R(b)); }
};

enum gen { gen_small, gen_hash, gen_odd, gen_pos, gen_neg };

// Values per element. Every value representable in all used types; sums exact for float.
template <typename X>
static X val(gen g, std::size_t i, int salt)
{
  const std::uint64_t h = mon::mix(i * 2 + salt * 1000003ull + mon::seed);
  switch (g)
    {
    case gen_small: return X(h % (std::is_floating_point_v<X> ? 50 : sizeof(X) == 1 ? 50 : 50));
    case gen_hash:
      if constexpr (std::is_unsigned_v<X>) return static_cast<X>(h);
      else return X(h % 50);
    case gen_odd:
      if constexpr (std::is_unsigned_v<X>) return static_cast<X>(h | 1);
      else return (h % 97) == 0 ? X(-1) : X(1);
    case gen_pos: return X(2 + h % 60);
    case gen_neg:
      if constexpr (std::is_unsigned_v<X>) return X(h % 60);
      else return -X(2 + h % 60);
    }
  return X();
}

struct mem { mon::arena a{40000 * 2}, b{40000 * 2}; };

static void expect(R got, R want)
{
  ++mon::evals;
  if (not (got == want))
    mon::fail("result %.17Lg, expected %.17Lg", (long double)got, (long double)want);
}

static void guards(mem& m)
{
  if (long long off = m.a.check(); off != mon::arena::intact)
    mon::fail("memory at offset %lld around input 1 was modified", off);
  if (long long off = m.b.check(); off != mon::arena::intact)
    mon::fail("memory at offset %lld around input 2 was modified", off);
}

static constexpr int n_variants = 18;
// The overload wrappers are exercised in full only where FULL is set; elsewhere the essential forms.
#ifdef FULL
#define IF_FULL if constexpr (true)
static constexpr bool enabled(int) { return true; }
#else
#define IF_FULL if constexpr (sizeof(Pol) == 0)
static constexpr bool enabled(int v) { return v == 0 or v == 1 or v == 3 or v == 8; }
#endif

// returns false if the variant is not applicable for these types
template <typename Pol>
static void one(Pol pol, const char* name, mem& m, std::size_t n, std::size_t ma, std::size_t mb,
                bool at_end, int variant)
{
  if (not enabled(variant))
    return;
  mon::begin("treduce", name, n, ma, mb, at_end, variant);
  A* a = static_cast<A*>(m.a.place(n * sizeof(A), ma * sizeof(A), at_end));
  B* b = static_cast<B*>(m.b.place(n * sizeof(B), mb * sizeof(B), not at_end));
  static const gen gens[n_variants] = {
    gen_hash, gen_small, gen_small, gen_pos, gen_small, gen_hash, gen_hash, gen_hash, gen_neg,
    gen_hash, gen_hash, gen_pos, gen_hash, gen_small, gen_odd, gen_small, gen_hash, gen_hash };
  const gen g = gens[variant];
  // large sums of narrow signed / float types stay exact: keep values tiny for long ranges
  auto av = [&](std::size_t i) -> A { A x = val<A>(g, i, 1); if constexpr (not std::is_unsigned_v<R> and sizeof(R) == 1) { if (g == gen_small or g == gen_hash) return A(int(x) % 2 * (i % 2 ? 1 : 0)); } return x; };
  auto bv = [&](std::size_t i) -> B { B x = val<B>(g, i, 2); if constexpr (not std::is_unsigned_v<R> and sizeof(R) == 1) { if (g == gen_small or g == gen_hash) return B(int(x) % 2); } return x; };
  for (std::size_t i = 0; i < n; ++i)
    {
      a[i] = av(i);
      b[i] = bv(i);
    }
  m.a.arm();
  m.b.arm();
  const A* f = a;
  const A* l = a + n;
  const B* f2 = b;
  auto fold = [&](R init, auto red, auto tr) {
    R acc = init;
    for (std::size_t i = 0; i < n; ++i)
      acc = red(acc, tr(i));
    return acc;
  };
  auto ida = [&](std::size_t i) -> R { return static_cast<R>(av(i)); };
  auto sum2 = [&](std::size_t i) -> R { return tf2::s(av(i), bv(i)); };
  auto prod = [&](std::size_t i) -> R { return mul_op::s(R(av(i)), R(bv(i))); };
  const R i5 = R(5), i1 = R(1);
  R got{}, want{};
  bool done = true;
  switch (variant)
    {
    case 0: got = vir::transform_reduce(pol.real(), f, l, i5, plus1(), tf1()); want = fold(i5, plus1::s, ida); break;
    case 1: got = vir::transform_reduce(pol.real(), f, l, f2, i5, plus1(), tf2()); want = fold(i5, plus1::s, sum2); break;
    case 3: { const R init = R(62); got = vir::transform_reduce(pol.real(), std::span<const A>(f, n), init, min_op(), tf1()); want = fold(init, min_op::s, ida); break; }
    case 4: IF_FULL {got = vir::transform_reduce(pol.real(), std::span<const A>(f, n), std::span<const B>(f2, n), i5, std::plus<>(), tf2()); want = fold(i5, plus_op::s, sum2); } break;
    case 5: IF_FULL {got = vir::transform_reduce(pol.real(), f, l, i1, plus_op(), tf1()); want = fold(i1, plus_op::s, ida); } break;
    case 8: { const R init = std::is_unsigned_v<R> ? R(0) : static_cast<R>(R(0) - R(100)); got = vir::transform_reduce(pol.real(), f, l, init, max_op(), tf1()); want = fold(init, max_op::s, ida); break; }
    case 11: IF_FULL {{ const R init = R(60); got = std::transform_reduce(pol.real(), f, l, init, min_op(), tf1()); want = fold(init, min_op::s, ida); break; } }
    case 13: IF_FULL {got = std::transform_reduce(pol.real(), f, l, f2, i5, plus1(), tf2()); want = fold(i5, plus1::s, sum2); } break;
    case 14: IF_FULL {if constexpr (sizeof(R) >= 4 or std::is_unsigned_v<R>) { if constexpr (std::is_same_v<A, unsigned short>) { done = false; } else { got = vir::transform_reduce(pol.real(), f, l, R(3), mul_op(), tf1()); want = fold(R(3), mul_op::s, ida); } } else done = false; } break;
    default:
      if constexpr (not same_types or not enabled(17))
        done = false;
      else
        switch (variant)
          {
          case 2: if constexpr (std::is_same_v<A, unsigned short>) done = false; else { got = vir::transform_reduce(pol.real(), f, l, f2, i5); want = fold(i5, plus_op::s, prod); } break;
          case 6: got = vir::reduce(pol.real(), f, l); want = fold(R(0), plus_op::s, ida); break;
          case 7: got = vir::reduce(pol.real(), std::span<const A>(f, n), i5, plus1()); want = fold(i5, plus1::s, ida); break;
          case 9: got = vir::reduce(pol.real(), std::span<const A>(f, n)); want = fold(R(0), plus_op::s, ida); break;
          case 10: got = vir::reduce(pol.real(), f, l, i5, plus1()); want = fold(i5, plus1::s, ida); break;
          case 12: got = std::reduce(pol.real(), f, l, i5, plus1()); want = fold(i5, plus1::s, ida); break;
          case 15: if constexpr (std::is_same_v<A, unsigned short>) done = false; else { got = std::transform_reduce(pol.real(), f, l, f2, i5); want = fold(i5, plus_op::s, prod);
                     got = static_cast<R>(got + vir::transform_reduce(pol.real(), std::span<const A>(f, n), std::span<const B>(f2, n), i5)); want = static_cast<R>(want + want); } break;
          case 16: got = std::reduce(pol.real(), f, l); want = fold(R(0), plus_op::s, ida); break;
          case 17: got = static_cast<R>(vir::reduce(pol.real(), f, l, i5) + R(3) * std::reduce(pol.real(), f, l, i5) + vir::reduce(pol.real(), std::span<A>(a, n), i5));
                   { const R w = fold(i5, plus_op::s, ida); want = static_cast<R>(w + R(3) * w + w); } break;
          }
    }
  guards(m);
  if (done)
    {
      expect(got, want);
      for (std::size_t i = 0; i < n; ++i)
        if (a[i] != av(i) or b[i] != bv(i))
          { mon::fail("input element %zu modified", i); break; }
      if (n > 0)
        mon::nontrivial();
    }
}

template <typename Pol>
static void sweep(Pol pol, const char* name)
{
  constexpr int W1 = Pol::_size > 0 ? Pol::_size : int(vir::simdize<A, 0>::size());
  constexpr int W = Pol::_size > 0 ? Pol::_size : std::max(W1, int(vir::simdize<B, 0>::size()));
  constexpr int U = Pol::_unroll_by;
  static mem m;
  mon::rng r(mon::hash_str(name) ^ 17);
  const int ma_max = std::max<int>(1, 64 / sizeof(A));
  const int mb_max = std::max<int>(1, 64 / sizeof(B));
  auto binary = [](int v) { return v == 1 or v == 2 or v == 4 or v == 13 or v == 15; };
  if constexpr (Pol::_assume_matching_size)
    {
      for (int k = 0; k <= 4 * std::max(U, 1) + 3; ++k)
        for (int v = 0; v < n_variants; ++v)
          for (int rep = 0; rep < 4; ++rep)
            one(pol, name, m, k * (binary(v) ? W : W1), r.below(ma_max), r.below(mb_max), r.below(2), v);
    }
  else
    {
      const int N = 3 * W * std::max(U, 1) + W + 66;
      const bool prologue = Pol::_prefers_aligned or Pol::_auto_prologue;
      int rot = 0;
      for (int n = 0; n <= N; ++n)
        {
          for (int ma = 0; ma < ma_max; ma += (prologue ? 1 : ma_max > 16 ? 13 : ma_max > 4 ? 3 : 1))
            {
              ++rot;
              one(pol, name, m, n, ma, r.below(mb_max), rot & 1, 0);
              one(pol, name, m, n, ma, r.below(mb_max), r.below(2), rot % 3 == 0 ? 1 : rot % 3 == 1 ? 3 : 8);
              if (enabled(17))
                one(pol, name, m, n, ma, r.below(mb_max), r.below(2), rot % n_variants);
              if (mon::thorough)
                for (int v = 0; v < n_variants; ++v)
                  one(pol, name, m, n, ma, r.below(mb_max), r.below(2), v);
            }
          for (int v = 0; v < n_variants; ++v)
            one(pol, name, m, n, r.below(ma_max), r.below(mb_max), r.below(2), v);
        }
      if (not (sizeof(R) == 1 and std::is_signed_v<R>))
      for (int k = 0; k < 3 * n_variants; ++k)
        one(pol, name, m, 4000 / sizeof(A) - 20 + r.below(120), r.below(ma_max), r.below(mb_max),
            r.below(2), k % n_variants);
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_policies([](auto pol, const char* name) { sweep(pol, name); });
  return mon::finish();
}
