// C25 monitor: one source, two simd implementations. Random histories of API calls on a small register file;
// every step logs a digest of everything it made observable. The logs of the builds are compared offline (checks.py).
#include <vir/simd.h>
#include <vir/simd_execution.h>
#include <vir/simd_cvt.h>
#include <vir/simd_iota.h>
#include <vir/simd_bitset.h>
#include <vir/simd_permute.h>
#include <vir/simd_resize.h>
#include <vir/simd_bit.h>
#include <vir/simd_float_ops.h>
#include "fb.h"
#include <bit>
#include <functional>
#include <numeric>
#include <string>

#ifndef HIST
#define HIST 60
#endif
#ifndef STEPS
#define STEPS 80
#endif

template <typename T, int N, bool Deduce>
struct History
{
  using Abi = std::conditional_t<Deduce, stdx::simd_abi::deduce_t<T, N>, stdx::simd_abi::fixed_size<N>>;
  using V = stdx::simd<T, Abi>;
  using M = typename V::mask_type;
  using I = stdx::fixed_size_simd<int, N>;
  static_assert(V::size() == N);
  static constexpr bool fp = std::is_floating_point_v<T>;
  mon::rng r;
  V v[4];
  M m[3];
  std::string log;
  std::uint64_t h = 0;
  int steps = 0;

  History(std::uint64_t s) : r(s) {}

  void put(std::uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; ++mon::events; }
  template <typename U> void put_val(U x)
  {
    if constexpr (std::is_floating_point_v<U>)
      {
        if (x != x) { put(0x7ff8123); return; }
        double d = double(x);
        std::uint64_t b; std::memcpy(&b, &d, 8); put(b);
      }
    else
      put(std::uint64_t(x));
  }
  template <typename W> void see(const W& w)
  { for (std::size_t i = 0; i < w.size(); ++i) put_val(typename W::value_type(w[i])); }

  // values for which integer + - * cannot overflow, floats stay finite
  V tame(const V& x)
  {
    return V([&](auto i) -> T {
      T y = x[i];
      if constexpr (fp) return y > T(-1e6) and y < T(1e6) ? y : T(3);
      else if constexpr (std::is_signed_v<T> and sizeof(T) >= 4) return T(y % 1000);
      else return y;
    });
  }
  V small(const V& x) // small integers: any summation order is exact
  {
    return V([&](auto i) -> T {
      T y = x[i];
      if constexpr (fp) return y > T(-1e6) and y < T(1e6) ? T(int(y) % 8) : T(1);
      else return T(y % T(8));
    });
  }
  V fresh() { T a[N]; for (T& x : a) x = any_value<T>(r); return V(&a[0], stdx::element_aligned); }
  M fresh_mask() { bool a[N]; const unsigned k = r.below(5); for (bool& x : a) x = k == 0 ? true : k == 1 ? false : r() & 1; return M(&a[0], stdx::element_aligned); }

  // calls f with a value of one of the other element types
  template <typename F> void other(F f)
  {
    switch (r.below(8))
      {
      case 0: f((signed char)0); break;
      case 1: f((unsigned short)0); break;
      case 2: f(0); break;
      case 3: f(0u); break;
      case 4: f(0ll); break;
      case 5: f(0ull); break;
      case 6: f(0.f); break;
      case 7: f(0.); break;
      }
  }
  // lane values which can be converted to U
  template <typename U> V storable(const V& x)
  {
    return V([&](auto i) -> T {
      T y = x[i];
      if constexpr (fp and std::is_integral_v<U>)
        return y >= T(0) and y < T(100) ? y : T(int(i) + 1) + T(0.5);
      else if constexpr (std::is_same_v<T, double> and std::is_same_v<U, float>)
        return y > T(-1e30) and y < T(1e30) ? y : T(2.5);
      else if constexpr (std::is_same_v<U, float> and sizeof(T) == 8) // (libstdc++ rounds twice)
        return T(y % T(1 << 24));
      else
        return y;
    });
  }
  template <typename U> U loadable()
  {
    const U y = any_value<U>(r);
    if constexpr (std::is_floating_point_v<U> and not fp)
      return y >= U(0) and y < U(100) ? y : U(r.below(100)) + U(0.25);
    else if constexpr (std::is_same_v<U, double> and std::is_same_v<T, float>)
      return y > U(-1e30) and y < U(1e30) ? y : U(2.5);
    else if constexpr (std::is_same_v<T, float> and sizeof(U) == 8)
      return U(y % U(1 << 24));
    else
      return y;
  }

  static constexpr int n_ops = 58;
  void step()
  {
    const unsigned op = r.below(n_ops);
    V &a = v[r.below(4)], &b = v[r.below(4)], &d = v[r.below(4)];
    M &k = m[r.below(3)], &l = m[r.below(3)], &o = m[r.below(3)];
    T s = any_value<T>(r);
    h = 1;
    ++mon::evals;
    ++steps;
    switch (op)
      {
      case 0: d = fresh(); see(d); break;
      case 1: o = fresh_mask(); see(o); break;
      case 2: d = tame(a) + tame(b); see(d); break;
      case 3: d = tame(a) - tame(b); see(d); break;
      case 4: { V x = small(a); d = x * small(b); see(d); break; }
      case 5: { V y = tame(b); where(y == T(), y) = T(3); d = tame(a) / y; see(d); break; }
      case 6: if constexpr (not fp) { V y = tame(b); where(y == T(), y) = T(3); d = tame(a) % y; } see(d); break;
      case 7: if constexpr (not fp) d = a & b; else d = -a; see(d); break;
      case 8: if constexpr (not fp) d = a | b; else d = +a; see(d); break;
      case 9: if constexpr (not fp) d = a ^ b; else d = abs(a); see(d); break;
      case 10: if constexpr (not fp) d = ~a; see(d); break;
      case 11: if constexpr (not fp) { const int c = r.below(sizeof(T) * 8); d = a >> c; } see(d); break;
      case 12: if constexpr (std::is_unsigned_v<T>) { const int c = r.below(sizeof(T) * 8); d = a << c; } see(d); break;
      case 13: o = a < b; see(o); break;
      case 14: o = a <= b; see(o); break;
      case 15: o = a == b; see(o); break;
      case 16: o = a != b; see(o); break;
      case 17: o = a > b; see(o); break;
      case 18: o = a >= b; see(o); break;
      case 19: o = k && l; see(o); break;
      case 20: o = k || l; see(o); break;
      case 21: o = !k; see(o); break;
      case 22: o = k ^ l; see(o); break;
      case 23: o = (k & l) | (!k); see(o); break;
      case 24: put(all_of(k)); put(any_of(k)); put(none_of(k)); put(some_of(k)); put(popcount(k));
        if (any_of(k)) { put(find_first_set(k)); put(find_last_set(k)); } break;
      case 25: { V x = a; where(k, x) = b; d = x; see(d); break; }
      case 26: { V x = tame(a); where(k, x) += tame(b); d = x; see(d); break; }
      case 27: { V x = tame(a); where(k, x) -= T(5); d = x; see(d); break; }
      case 28: { T mem[N + 2]; for (T& x : mem) x = s; V x = a; where(k, x).copy_to(mem + 1, stdx::element_aligned); for (T x : mem) put_val(x); break; }
      case 29: { T mem[N + 2]; for (T& x : mem) x = any_value<T>(r); V x = a; where(k, x).copy_from(mem + 1, stdx::element_aligned); d = x; see(d); break; }
      case 30: { put_val(reduce(small(a))); put_val(reduce(small(a), [](auto p, auto q) { return p + q; })); put_val(hmin(small(a))); put_val(hmax(small(a))); break; }
      case 31: { V x = small(a); put_val(reduce(where(k, x), T(0), std::plus<>())); if (any_of(k)) { put_val(hmin(where(k, x))); put_val(hmax(where(k, x))); } break; }
      case 32: { V x = small(a), y = small(b); d = min(x, y); see(d); d = max(x, y); see(d); see(clamp(small(a), min(x, y), max(x, y))); break; }
      case 33: { I x = stdx::static_simd_cast<I>(small(a)); see(x); d = stdx::static_simd_cast<V>(x); see(d); break; }
      case 34: { auto x = stdx::to_fixed_size(a); see(x); auto y = stdx::to_fixed_size(k); see(y); break; }
      case 35: { auto x = concat(a, b); static_assert(x.size() == 2 * N); see(x); break; }
      case 36: if constexpr (N % 2 == 0) { auto x = split<N / 2, N / 2>(a); see(get<0>(x)); see(get<1>(x)); auto y = concat(get<1>(x), get<0>(x)); see(y); } break;
      case 37: if constexpr (N > 2) { auto x = split<1, N - 1>(a); see(get<0>(x)); see(get<1>(x)); } break;
      case 38: { V x = a; x[int(r.below(N))] = s; d = x; see(d); M y = k; y[int(r.below(N))] = not y[0]; o = y; see(o); break; }
      case 39: { V x = small(a); put_val(T(x++[0])); see(x); put_val(T((--x)[N - 1])); see(x); d = x; break; }
      case 40: { auto x = vir::to_bitset(k); put(x.count()); for (int i = 0; i < N; ++i) put(x[i]); break; }
      case 41: { see(vir::iota_v<V>); d = vir::iota_v<V>; break; }
      case 42: { double mem[N]; for (double& x : mem) x = int(r.below(100)); d.copy_from(&mem[0], stdx::element_aligned); see(d); tame(d).copy_to(&mem[0], stdx::element_aligned); for (double x : mem) put_val(x); break; }
      case 43:
        if constexpr (fp)
          {
            using std::sqrt;
            V x = abs(tame(a));
            see(sqrt(x)); see(floor(tame(a))); see(ceil(tame(a))); see(trunc(tame(a)));
            see(copysign(tame(a), tame(b))); see(isnan(a)); see(isinf(a)); see(isfinite(a)); see(signbit(a));
            see(fmin(tame(a), tame(b)) + T(0)); see(fmax(tame(a), tame(b)) + T(0)); // + 0: the sign of a zero result is unspecified
          }
        break;
      case 44: { // algorithms over memory
          T mem[40], out[40] = {};
          const int n = r.below(41);
          for (T& x : mem) x = T(r.below(8));
          using namespace vir::execution;
          vir::for_each(simd, mem, mem + n, [](auto& x) { x += 1; });
          for (T x : mem) put_val(x);
          vir::transform(simd.prefer_size<4>(), mem, mem + n, out, [](auto x) { return x + x; });
          for (T x : out) put_val(x);
          put(vir::count_if(simd, mem, mem + n, [](auto x) { return x > 4; }));
          if constexpr (fp or sizeof(T) >= 4)
            put_val(vir::transform_reduce(simd.unroll_by<2>(), mem, mem + n, T(1), std::plus<>(), [](auto x) { return x * 2; }));
          break;
        }
      case 45: { // generator, broadcast, conversions
          T base = T(r.below(50));
          V x([&](auto i) { return T(base + T(int(i))); }); see(x);
          d = V(T(r.below(100))); see(d);
          M y = k; y = M(true); see(y); o = M(bool(r() & 1)); see(o);
          put(all_of(x == x)); put(any_of(x != x));
          break;
        }
      case 46: // converting stores
        other([&](auto u) {
          using U = decltype(u);
          V x = storable<U>(a);
          U mem[N + 2] = {};
          x.copy_to(mem + 1, stdx::element_aligned);
          for (U y : mem) put_val(y);
        });
        break;
      case 47: // converting loads
        other([&](auto u) {
          using U = decltype(u);
          U mem[N + 2];
          for (U& y : mem) y = loadable<U>();
          d.copy_from(mem + 1, stdx::element_aligned); see(d);
          V x(mem + 1, stdx::element_aligned); see(x);
        });
        break;
      case 48: // masked converting loads and stores
        other([&](auto u) {
          using U = decltype(u);
          U mem[N + 2];
          for (U& y : mem) y = loadable<U>();
          V x = storable<U>(a);
          where(k, x).copy_to(mem + 1, stdx::element_aligned);
          for (U y : mem) put_val(y);
          for (U& y : mem) y = loadable<U>();
          where(l, x).copy_from(mem + 1, stdx::element_aligned);
          d = x; see(d);
        });
        break;
      case 49: { // masked compound assignment
          V x = small(a);
          where(k, x) *= small(b); see(x);
          V y = small(b); where(y == T(), y) = T(3);
          where(l, x) /= y; see(x);
          x += V(T(0)); // no -0: libstdc++ adds 0 to the unselected lanes
          ++where(k, x); see(x);
          where(l, x)--; see(x);
          if constexpr (fp or std::is_signed_v<T>) { x = -where(k, x); see(x); }
          if constexpr (not fp)
            {
              x = tame(a);
              where(k, x) %= y; see(x);
              where(k, x) &= b; see(x);
              where(l, x) |= a; see(x);
              where(k, x) ^= b; see(x);
              // (masked shifts do not compile with libstdc++)
            }
          d = x;
          break;
        }
      case 50: { // compound assignment
          V x = tame(a);
          x += tame(b); see(x); x -= tame(a); see(x); x = small(x); x *= small(b); see(x);
          V y = small(b); where(y == T(), y) = T(5);
          x /= y; see(x);
          if constexpr (not fp) { x %= y; see(x); x |= a; see(x); x ^= b; see(x); x &= a; see(x); x >>= 1; see(x); }
          d = x;
          break;
        }
      case 51: // reductions over other operations
        if constexpr (not fp)
          {
            put_val(T(reduce(a, std::bit_and<>()))); put_val(T(reduce(a, std::bit_or<>()))); put_val(T(reduce(a, std::bit_xor<>())));
            put_val(T(reduce(where(k, a), std::bit_and<>()))); put_val(T(reduce(where(k, a), std::bit_or<>()))); put_val(T(reduce(where(k, a), std::bit_xor<>())));
          }
        { V x = max(min(small(a), V(T(2))), V(T(1))); if constexpr (N <= 6) put_val(T(reduce(x, std::multiplies<>()))); 
          if constexpr (N <= 6) put_val(T(reduce(where(k, x), std::multiplies<>()))); }
        put_val(T(reduce(where(k, small(a)))));
        break;
      case 52: // shifts by vectors
        if constexpr (not fp)
          {
            T cs[N]; for (T& e : cs) e = T(r.below(sizeof(T) * 8));
            const V c(&cs[0], stdx::element_aligned);
            d = a >> c; see(d);
            if constexpr (std::is_unsigned_v<T>) { d = a << c; see(d); }
          }
        break;
      case 53: // conversions between simd types
        other([&](auto u) {
          using U = decltype(u);
          using W = stdx::simd<U, Abi>;
          if constexpr (not Deduce)
            {
              V x = storable<U>(a);
              see(stdx::static_simd_cast<W>(x)); see(stdx::static_simd_cast<U>(x));
              W w = vir::cvt(x); see(w);
              typename W::mask_type q = vir::cvt(k); see(q);
              see(stdx::static_simd_cast<typename W::mask_type>(l));
            }
        });
        break;
      case 54: { // permutations and resizing
          see(vir::simd_permute(a, vir::simd_permutations::reverse));
          see(vir::simd_permute(a, vir::simd_permutations::rotate<1>));
          see(vir::simd_permute(a, vir::simd_permutations::shift<-1>));
          see(vir::simd_permute(a, [](auto i) { return int(i) % 3 == 1 ? vir::simd_permute_zero : (int(i) * 5 + 2) % N; }));
          see(vir::simd_shift_in<1>(a, b));
          see(vir::simd_resize<N + 3>(a)); if constexpr (N > 2) see(vir::simd_resize<N - 1>(a));
          see(vir::simd_resize<N + 1>(k));
          break;
        }
      case 55: // array forms of split and concat
        if constexpr (3 * N <= 32) {
          const auto c2 = concat(a, b, d); // (const: else subscripts are reference objects)
          using F = stdx::fixed_size_simd<T, 3 * N>;
          F f([&](auto i) { return c2[i]; });
          auto parts = stdx::split<stdx::fixed_size_simd<T, N>>(f);
          for (auto& p : parts) see(p);
          see(concat(parts));
        }
        break;
      case 56: // bit casts
        if constexpr (sizeof(T) == 4)
          { using U = std::conditional_t<fp, unsigned, float>; if constexpr (fp) see(vir::simd_bit_cast<stdx::simd<U, Abi>>(tame(a))); }
        break;
      case 57: { // algorithms with several ranges
          T x[40], y[40], z[40] = {};
          const int n = r.below(41);
          for (T& e : x) e = T(r.below(5));
          for (T& e : y) e = T(r.below(5));
          using namespace vir::execution;
          vir::transform(simd.prefer_size<4>().unroll_by<2>(), x, x + n, y, z, [](auto p, auto q) { return p + q; });
          for (T e : z) put_val(e);
          if constexpr (fp or sizeof(T) >= 4)
            {
              put_val(vir::transform_reduce(simd, x, x + n, y, T(2)));
              put_val(vir::reduce(simd.prefer_size<4>().unroll_by<3>(), x, x + n, T(1)));
              put_val(vir::reduce(simd, x, x + n, T(0), [](auto p, auto q) { using std::max; return max(p, q); }));
            }
          vir::for_each(simd.prefer_aligned().prefer_size<8>(), x, x + n, [](auto& p) { where(p > 2, p) = 9; });
          for (T e : x) put_val(e);
          break;
        }
      }
    char buf[32];
    std::snprintf(buf, sizeof buf, "%u=%04x,", op, unsigned(h & 0xffff));
    log += buf;
    mon::nontrivial(op * 1000003ull + h);
  }

  void run(int id)
  {
    mon::begin("history", mon::type_name<T>(), N, id, Deduce);
    for (V& x : v) x = fresh();
    for (M& x : m) x = fresh_mask();
    for (int i = 0; i < STEPS; ++i) step();
    h = 1;
    for (V& x : v) see(x);
    for (M& x : m) see(x);
    std::printf("DIGEST %s:%d:%d:%d %sfinal=%04x\n", mon::type_name<T>(), N, Deduce, id, log.c_str(), unsigned(h & 0xffff));
  }
};

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  const int n = mon::thorough ? HIST * 20 : HIST;
  tlist<ELTS>::each([&](auto t) {
    using T = typename decltype(t)::t;
    [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
      ([&] {
        for (int i = 0; i < n; ++i)
          {
            History<T, Ns, false>(mon::seed * 7919 + i * 31 + Ns).run(i);
#ifdef DEDUCE
            if constexpr (std::has_single_bit(unsigned(Ns)))
              History<T, Ns, true>(mon::seed * 7919 + i * 31 + Ns).run(i);
#endif
          }
      }(), ...);
    }(std::integer_sequence<int, NS>());
  });
  return mon::finish();
}
