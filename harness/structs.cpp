// C10 monitor: algorithms over ranges of structs. Callables log every struct lane they receive; results are
// compared with a scalar loop, memory around the ranges is guarded.
#include "policies.h"
#include <vir/simd_cvt.h>
#include <algorithm>
#include <span>
#include <tuple>
#include <vector>
namespace stdx = vir::stdx;

#ifndef ELT
#define ELT float
#endif
#ifndef SHAPE
#define SHAPE 2
#endif
using T = ELT;

template <typename U> struct Q2 { U x, y; };
template <typename U> struct Q3 { U x, y, z; };
// over-aligned: padding between the structs in memory, and in the structs of simds
template <typename U> struct alignas(std::bit_ceil(4 * sizeof(U))) A2 { U x, y; };
template <typename U> struct alignas(std::bit_ceil(4 * sizeof(U))) A3 { U x, y, z; };
struct Plain { T x; T y; };
struct Mixed { double x; T y; };

#if SHAPE == 2
using S = Q2<T>;
template <typename V> auto build(const V& a, const V& b) { return Q2<V>{a, b}; }
#define GX(v) ((v).x)
#define GY(v) ((v).y)
#elif SHAPE == 3
using S = Q3<T>;
template <typename V> auto build(const V& a, const V& b) { return Q3<V>{a, b, a + b}; }
#define GX(v) ((v).x)
#define GY(v) ((v).y)
#elif SHAPE == 4
using S = std::pair<T, T>;
template <typename V> auto build(const V& a, const V& b) { return std::pair<V, V>{a, b}; }
#define GX(v) ((v).first)
#define GY(v) ((v).second)
#elif SHAPE == 5
using S = Plain;
template <typename V> auto build(const V& a, const V& b) { return std::tuple<V, V>{a, b}; }
#define GX(v) (get<0>(v))
#define GY(v) (get<1>(v))
#elif SHAPE == 6
using S = std::tuple<T, T>;
template <typename V> auto build(const V& a, const V& b) { return std::tuple<V, V>{a, b}; }
#define GX(v) (get<0>(v))
#define GY(v) (get<1>(v))
#elif SHAPE == 7
using S = std::tuple<T, T, T>;
template <typename V> auto build(const V& a, const V& b) { return std::tuple<V, V, V>{a, b, a + b}; }
#define GX(v) (get<0>(v))
#define GY(v) (get<1>(v))
#elif SHAPE == 8
using S = std::array<T, 2>;
template <typename V> auto build(const V& a, const V& b) { return std::array<V, 2>{a, b}; }
#define GX(v) (get<0>(v))
#define GY(v) (get<1>(v))
#elif SHAPE == 9
using S = A2<T>;
template <typename V> auto build(const V& a, const V& b) { return A2<V>{a, b}; }
#define GX(v) ((v).x)
#define GY(v) ((v).y)
#elif SHAPE == 10
using S = A3<T>;
template <typename V> auto build(const V& a, const V& b) { return A3<V>{a, b, a + b}; }
#define GX(v) ((v).x)
#define GY(v) ((v).y)
#endif

static T sx(const S& s)
{
#if SHAPE == 5
  return s.x;
#else
  return GX(s);
#endif
}
static T sy(const S& s)
{
#if SHAPE == 5
  return s.y;
#else
  return GY(s);
#endif
}
#if SHAPE == 3 || SHAPE == 10
static T sz(const S& s) { return s.z; }
static S mk(T a, T b, T c) { return {a, b, c}; }
#elif SHAPE == 7
static T sz(const S& s) { return std::get<2>(s); }
static S mk(T a, T b, T c) { return {a, b, c}; }
#else
static T sz(const S&) { return T(); }
static S mk(T a, T b, T) { return S{a, b}; }
#endif
static bool eq(const S& a, const S& b) { return sx(a) == sx(b) and sy(a) == sy(b) and sz(a) == sz(b); }

static std::vector<S> seen;

template <typename V>
static void log_structs(const V& v)
{
  for (std::size_t i = 0; i < V::size(); ++i) { seen.push_back(v[i]); ++mon::events; }
}

static bool less(const S& a, const S& b)
{ return std::tuple(sx(a), sy(a), sz(a)) < std::tuple(sx(b), sy(b), sz(b)); }

static void check_seen(const S* p, std::size_t n)
{
  ++mon::evals;
  if (seen.size() != n) return mon::fail("callable saw %zu structs for %zu elements", seen.size(), n);
  std::vector<S> a = seen, b(p, p + n);
  std::sort(a.begin(), a.end(), less);
  std::sort(b.begin(), b.end(), less);
  for (std::size_t i = 0; i < n; ++i)
    if (not eq(a[i], b[i]))
      return mon::fail("multiset of structs seen differs from the range (sorted position %zu: %g,%g,%g)", i,
                       double(sx(a[i])), double(sy(a[i])), double(sz(a[i])));
}

struct mem { mon::arena a{1 << 16}, b{1 << 16}, o{1 << 16}; };

template <typename E>
static void check_out(const S* o, std::size_t n, E&& e)
{
  ++mon::evals;
  for (std::size_t i = 0; i < n; ++i)
    {
      const S w = e(i);
      mon::events += 2;
      if (not eq(o[i], w))
        return mon::fail("element %zu of %zu is (%g,%g,%g), expected (%g,%g,%g)", i, n, double(sx(o[i])), double(sy(o[i])),
                         double(sz(o[i])), double(sx(w)), double(sy(w)), double(sz(w)));
    }
}

static void intact(mon::arena& a, const char* w)
{ if (long long off = a.check(); off != mon::arena::intact) mon::fail("%s range: byte at offset %lld modified", w, off); }

enum { n_variants = 10 };

template <typename Pol>
static void one(Pol pol, const char* name, mem& m, std::size_t n, std::size_t ma, std::size_t mb, std::size_t mo,
                bool at_end, int variant)
{
  if constexpr (Pol::_assume_matching_size)
    {
      constexpr std::size_t W = std::max(int(vir::simdize<S, Pol::_size>::size()), int(vir::simdize<T, Pol::_size>::size()));
      if (n % W) return;
    }
  static const char* const nm[] = {"for_each const", "for_each mutable", "transform S->S", "transform S,S->S", "transform S->T",
                                   "transform T->S", "transform_reduce S->T", "count_if", "transform T,S->S", "transform_reduce S,S->T"};
  mon::begin(nm[variant], name, n, ma, mb, mo, at_end);
  auto id = [](std::size_t i) { return T(int(i % 50) + 1); };
  auto mkA = [&](std::size_t i) { return mk(id(i), id(i * 7 + 3), id(i * 3 + 5)); };
  auto mkB = [&](std::size_t i) { return mk(id(i * 5 + 11), id(i * 2 + 1), id(i + 9)); };
  S* a = static_cast<S*>(m.a.place(n * sizeof(S), ma * alignof(S), at_end));
  for (std::size_t i = 0; i < n; ++i) new (a + i) S(mkA(i));
  S* b = static_cast<S*>(m.b.place(n * sizeof(S), mb * alignof(S), at_end));
  for (std::size_t i = 0; i < n; ++i) new (b + i) S(mkB(i));
  T* tb = nullptr;
  const bool bt = variant == 5 or variant == 8;
  if (bt)
    {
      tb = static_cast<T*>(m.b.place(n * sizeof(T), mb * alignof(T), at_end));
      for (std::size_t i = 0; i < n; ++i) tb[i] = id(i * 5 + 2);
    }
  T* to = nullptr;
  S* o = nullptr;
  if (variant == 4)
    {
      to = static_cast<T*>(m.o.place(n * sizeof(T), mo * alignof(T), at_end));
      for (std::size_t i = 0; i < n; ++i) to[i] = T(99);
    }
  else
    {
      o = static_cast<S*>(m.o.place(n * sizeof(S), mo * alignof(S), at_end));
      for (std::size_t i = 0; i < n; ++i) new (o + i) S(mk(T(9), T(9), T(9)));
    }
  m.a.arm(); m.b.arm(); m.o.arm();
  seen.clear();
  const S* ca = a;
  bool a_changed = false;
  switch (variant)
    {
    case 0:
      vir::for_each(pol.real(), ca, ca + n, [](const auto&... v) { (log_structs(v), ...); });
      check_seen(a, n);
      break;
    case 1:
      {
        std::vector<S> before(a, a + n);
        vir::for_each(pol.real(), std::span<S>(a, n), [](auto&... v) {
          (log_structs(v), ...);
          auto f = [](auto& s) { GX(s) = GX(s) + GY(s); GY(s) = GY(s) + T(1); };
          (f(v), ...);
        });
        a_changed = true;
        check_seen(before.data(), n);
        check_out(a, n, [&](std::size_t i) { return mk(T(sx(before[i]) + sy(before[i])), T(sy(before[i]) + T(1)), sz(before[i])); });
        break;
      }
    case 2:
      {
        auto ret = vir::transform(pol.real(), ca, ca + n, o, [](const auto& v) {
          log_structs(v);
          return build(GX(v) + GY(v), GX(v) + T(2));
        });
        if (ret != o + n) mon::fail("returned iterator at %td", ret - o);
        check_seen(a, n);
        check_out(o, n, [&](std::size_t i) { const T x = T(sx(a[i]) + sy(a[i])), y = T(sx(a[i]) + T(2)); return mk(x, y, T(x + y)); });
        break;
      }
    case 3:
      vir::transform(pol.real(), ca, ca + n, b, o, [](const auto& v, const auto& w) {
        return build(GX(v) + GY(w), GY(v) + GX(w) + T(1));
      });
      check_out(o, n, [&](std::size_t i) { const T x = T(sx(a[i]) + sy(b[i])), y = T(sy(a[i]) + sx(b[i]) + T(1)); return mk(x, y, T(x + y)); });
      break;
    case 4:
      vir::transform(pol.real(), ca, ca + n, to, [](const auto& v) { return GX(v) + GX(v) + GY(v); });
      ++mon::evals;
      for (std::size_t i = 0; i < n; ++i)
        {
          ++mon::events;
          const T w = T(sx(a[i]) + sx(a[i]) + sy(a[i]));
          if (to[i] != w) { mon::fail("element %zu of %zu is %g, expected %g", i, n, double(to[i]), double(w)); break; }
        }
      break;
    case 5:
      vir::transform(pol.real(), tb, tb + n, o, [](const auto& v) { return build(v, v + T(3)); });
      check_out(o, n, [&](std::size_t i) { const T x = tb[i], y = T(tb[i] + T(3)); return mk(x, y, T(x + y)); });
      break;
    case 6:
      {
        // lanes are logged, so a wrong or repeated element shows even if the sum happens to agree
        const T got = vir::transform_reduce(pol.real(), ca, ca + n, T(0),
                                            [](const auto& x, const auto& y) { using std::max; using stdx::max; return max(x, y); },
                                            [](const auto& v) { log_structs(v); return GX(v) + GY(v); });
        T w = T(0);
        for (std::size_t i = 0; i < n; ++i) w = std::max(w, T(sx(a[i]) + sy(a[i])));
        check_seen(a, n);
        if (got != w) mon::fail("transform_reduce returned %g, expected %g", double(got), double(w));
        break;
      }
    case 7:
      {
        const int got = vir::count_if(pol.real(), ca, ca + n, [](const auto& v) { return GX(v) < GY(v); });
        int w = 0;
        for (std::size_t i = 0; i < n; ++i) w += sx(a[i]) < sy(a[i]);
        ++mon::evals;
        if (got != w) mon::fail("count_if returned %d, expected %d", got, w);
        break;
      }
    case 8:
      vir::transform(pol.real(), tb, tb + n, ca, o, [](const auto& v, const auto& s) { return build(v + GY(s), GX(s) + T(1)); });
      check_out(o, n, [&](std::size_t i) { const T x = T(tb[i] + sy(a[i])), y = T(sx(a[i]) + T(1)); return mk(x, y, T(x + y)); });
      break;
    case 9:
      {
        const T got = vir::transform_reduce(pol.real(), ca, ca + n, b, T(7),
                                            [](const auto& x, const auto& y) { using std::min; using stdx::min; return min(x, y); },
                                            [](const auto& v, const auto& w) { return GX(v) + GY(w); });
        T w = T(7);
        for (std::size_t i = 0; i < n; ++i) w = std::min(w, T(sx(a[i]) + sy(b[i])));
        ++mon::evals;
        if (got != w) mon::fail("transform_reduce returned %g, expected %g", double(got), double(w));
        break;
      }
    }
  intact(m.a, "first input"); intact(m.b, "second input"); intact(m.o, "output");
  if (not a_changed) for (std::size_t i = 0; i < n; ++i) if (not eq(a[i], mkA(i))) { mon::fail("input element %zu was modified", i); break; }
  if (not bt) for (std::size_t i = 0; i < n; ++i) if (not eq(b[i], mkB(i))) { mon::fail("second input element %zu was modified", i); break; }
  if (n) mon::nontrivial();
}

template <typename Pol>
static void sweep(Pol pol, const char* name)
{
  static mem m;
  mon::rng r(mon::hash_str(name) ^ 77);
  constexpr int W = std::max(int(vir::simdize<S, Pol::_size>::size()), int(vir::simdize<T, Pol::_size>::size()));
  constexpr int U = Pol::_unroll_by > 0 ? Pol::_unroll_by : 1;
  const int N = Pol::_assume_matching_size ? 3 * W * U + 2 * W : 2 * W * U + 2 * W + 6;
  for (int n = 0; n <= N; n += Pol::_assume_matching_size ? W : 1)
    for (int v = 0; v < n_variants; ++v)
      for (int rep = 0; rep < (mon::thorough ? 12 : 2); ++rep)
        one(pol, name, m, n, r.below(8), r.below(8), r.below(16), r.below(2), v);
  if (not Pol::_assume_matching_size)
    for (int k = 0; k < 40; ++k)
      one(pol, name, m, 4000 / sizeof(T) - 20 + r.below(60), r.below(8), r.below(8), r.below(16), r.below(2), k % n_variants);
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_policies([](auto pol, const char* name) { sweep(pol, name); });
  return mon::finish();
}
