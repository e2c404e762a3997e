// C06 monitor: which chunks do the callables receive? Every simd argument is logged (width, type
// identity, index of its first element, number of sibling arguments); an offline checker replays
// the log against the documented chunking contract.
#include "policies.h"
#include <algorithm>
#include <functional>
#include <span>
#include <typeinfo>
#include <vector>
#ifndef ELT
#define ELT int
#endif
using T = ELT;
#ifndef ELT2
#define ELT2 ELT
#endif
using T2 = ELT2;

struct ev { std::size_t first, width; const std::type_info* type; int call; int nargs; bool consecutive; };
static std::vector<ev> evs;
static int call_no;

// element value = own index + 1 (unique up to 255 for 8-bit types)
template <typename X> static X idv(std::size_t i) { return static_cast<X>(i + 1); }

template <typename V>
static void log(const V& v, int nargs)
{
  using X = typename V::value_type;
  const auto as_index = [](X x) -> std::size_t {
    if constexpr (std::is_floating_point_v<X>) return std::size_t(x) - 1;
    else return std::size_t(std::make_unsigned_t<X>(x)) - 1;
  };
  ev e{as_index(v[0]), V::size(), &typeid(V), call_no, nargs, true};
  for (std::size_t i = 1; i < V::size(); ++i)
    if (as_index(v[i]) != e.first + i)
      e.consecutive = false;
  evs.push_back(e);
  ++mon::events;
}

template <typename Pol>
static void check(std::size_t n, std::size_t W, const void* base, std::size_t esize, std::size_t align,
                  int unroll_args, bool coverage = true)
{
  ++mon::evals;
  std::vector<ev> s = evs;
  for (auto& e : s)
    if (not e.consecutive)
      { mon::fail("chunk starting at %zu width %zu does not hold consecutive elements", e.first, e.width); return; }
  std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::size_t at = 0, full = 0, pro = 0;
  bool seen_full = false;
  for (auto& e : s)
    {
      if (e.width > W)
        { mon::fail("chunk width %zu exceeds preferred width %zu", e.width, W); return; }
      if (coverage and e.first != at)
        { mon::fail("chunks do not tile the range: expected chunk at %zu, got %zu", at, e.first); return; }
      at = e.first + e.width;
      if (e.width == W)
        {
          ++full;
          if (not seen_full) { pro = e.first; seen_full = true; }
          if (Pol::_prefers_aligned and W > 1 and align > esize and (W * esize) % align == 0)
            {
              const auto adr = (std::uintptr_t)base + e.first * esize;
              if (adr % align)
                { mon::fail("full-width chunk at element %zu starts at a misaligned address (mod %zu = %zu)",
                            e.first, align, std::size_t(adr % align)); return; }
            }
        }
    }
  if (coverage and at != n)
    { mon::fail("chunks end at %zu of %zu", at, n); return; }
  // every full-width chunk that fits after the prologue must be full width
  std::size_t expect_full;
  if (not Pol::_prefers_aligned and not Pol::_auto_prologue)
    expect_full = n / W;
  else if (Pol::_prefers_aligned and W > 1 and align > esize and (W * esize) % align == 0)
    {
      const std::size_t mis = (std::uintptr_t)base % align / esize;
      const std::size_t p = mis ? align / esize - mis : 0;
      expect_full = p >= n ? 0 : (n - p) / W;
    }
  else if (Pol::_auto_prologue)
    {
      if (seen_full)
        {
          if (pro >= std::max<std::size_t>(align / esize, 1))
            { mon::fail("prologue of %zu elements is longer than needed to align", pro); return; }
          if (pro and ((std::uintptr_t)base + pro * esize) % align)
            { mon::fail("auto prologue did not end aligned"); return; }
          expect_full = (n - pro) / W;
        }
      else
        expect_full = n / W ? (n >= W + align / esize ? 1 : 0) : 0;
    }
  else
    expect_full = n / W;
  if (full != expect_full)
    { mon::fail("%zu full-width chunks, expected %zu (n=%zu W=%zu)", full, expect_full, n, W); return; }
  if (Pol::_assume_matching_size)
    for (auto& e : s)
      if (e.width != W or *e.type != *s[0].type)
        { mon::fail("assume_matching_size call with width %zu / other type", e.width); return; }
  // unrolled calls
  if (unroll_args > 1)
    {
      std::size_t multi = 0;
      for (auto& e : s)
        {
          if (e.nargs != 1 and e.nargs != unroll_args)
            { mon::fail("callable invoked with %d chunks", e.nargs); return; }
          if (e.nargs == unroll_args)
            {
              ++multi;
              if (e.width != W)
                { mon::fail("unrolled call with width %zu", e.width); return; }
            }
        }
      if (multi != full / unroll_args * unroll_args)
        { mon::fail("%zu chunks in unrolled calls, expected %zu", multi, full / unroll_args * unroll_args); return; }
    }
  else
    for (auto& e : s)
      if (e.nargs != 1)
        { mon::fail("callable invoked with %d chunks without unrolling", e.nargs); return; }
  if (n) mon::nontrivial();
}

template <typename Pol>
static void one(Pol pol, const char* name, std::size_t n, std::size_t mis)
{
  alignas(256) static T abuf[4096];
  alignas(256) static T2 bbuf[4096];
  alignas(256) static T obuf[4096];
  T* a = abuf + mis;
  T2* b = bbuf + (mis * 3) % 8;
  T* o = obuf + (mis * 5) % (64 / sizeof(T));
  for (std::size_t i = 0; i < n; ++i)
    { a[i] = idv<T>(i); b[i] = idv<T2>(i); }
  using V = vir::simdize<T, Pol::_size>;
  constexpr std::size_t W1 = V::size();
  constexpr std::size_t W = Pol::_size > 0 ? Pol::_size : std::max(int(vir::simdize<T, 0>::size()), int(vir::simdize<T2, 0>::size()));
  using V2 = vir::simdize<T, int(W)>;
  constexpr std::size_t al1 = vir::stdx::memory_alignment_v<V>;
  constexpr std::size_t al = vir::stdx::memory_alignment_v<V2>;
  auto start = [&](const char* w) { mon::begin(w, name, n, mis); evs.clear(); call_no = 0; };
  const bool ok1 = not Pol::_assume_matching_size or n % W1 == 0;
  const bool ok2 = not Pol::_assume_matching_size or n % W == 0;
  if (ok1)
    {
      start("for_each&");
      vir::for_each(pol.real(), a, a + n, [](auto&... x) { (log(x, sizeof...(x)), ...); ++call_no; });
      check<Pol>(n, W1, a, sizeof(T), al1, Pol::_unroll_by);
      start("for_each const");
      vir::for_each(pol.real(), std::span<const T>(a, n), [](const auto&... x) { (log(x, sizeof...(x)), ...); ++call_no; });
      check<Pol>(n, W1, a, sizeof(T), al1, Pol::_unroll_by);
      start("count_if");
      (void)vir::count_if(pol.real(), a, a + n, [](const auto& x) { log(x, 1); ++call_no; return x == T(1); });
      check<Pol>(n, W1, a, sizeof(T), al1, 0);
      start("transform_reduce1");
      (void)vir::transform_reduce(pol.real(), a, a + n, T(), std::plus<>(), [](const auto& x) { log(x, 1); ++call_no; return std::remove_cvref_t<decltype(x)>(T()); });
      check<Pol>(n, W1, a, sizeof(T), al1, 0);
      start("transform1");
      vir::transform(pol.real(), a, a + n, o, [](const auto& x) { log(x, 1); ++call_no; return x; });
      check<Pol>(n, W1, o, sizeof(T), al1, 0);
    }
  if (ok2)
    {
      start("transform2");
      vir::transform(pol.real(), a, a + n, b, o, [](const auto& x, const auto& y) {
        log(x, 1);
        if (x.size() != y.size() or T2(y[0]) != static_cast<T2>(T(x[0])))
          mon::fail("arguments of the binary operation are not corresponding elements");
        ++call_no; return x; });
      check<Pol>(n, W, o, sizeof(T), al, 0);
      start("transform_reduce2");
      (void)vir::transform_reduce(pol.real(), a, a + n, b, T(), std::plus<>(), [](const auto& x, const auto& y) {
        log(x, 1);
        if (x.size() != y.size() or T2(y[0]) != static_cast<T2>(T(x[0])))
          mon::fail("arguments of the binary operation are not corresponding elements");
        ++call_no; return std::remove_cvref_t<decltype(x)>(T()); });
      check<Pol>(n, W, a, sizeof(T), al, 0);
    }
}

template <typename Pol>
static void sweep(Pol pol, const char* name)
{
  constexpr int W = Pol::_size > 0 ? Pol::_size : std::max(int(vir::simdize<T, 0>::size()), int(vir::simdize<T2, 0>::size()));
  constexpr int U = Pol::_unroll_by;
  const int mm = std::max<int>(1, 64 / sizeof(T));
  int N = 2 * W * std::max(U, 1) + W + 40;
  if (sizeof(T) == 1 or sizeof(T2) == 1)
    N = std::min(N, 250); // indices must be unique
  if (Pol::_assume_matching_size)
    {
      N = 4 * W * std::max(U, 1) + W;
      if (sizeof(T) == 1 or sizeof(T2) == 1) N = std::min(N, 250);
    }
  const bool prologue = Pol::_prefers_aligned or Pol::_auto_prologue;
  for (int n = 0; n <= N; ++n)
    for (int mis = 0; mis < mm; mis += (prologue ? (mm > 16 and not mon::thorough ? 3 : 1) : mm > 16 ? 13 : mm > 4 ? 3 : 1))
      one(pol, name, n, mis);
  if (prologue and mm > 16)
    for (int n = 0; n <= N; n += 7)
      for (int mis = 0; mis < mm; ++mis)
        one(pol, name, n, mis);
  if (sizeof(T) > 1 and sizeof(T2) > 1 and not Pol::_assume_matching_size)
    for (int n : {4000 / int(sizeof(T)) - 3, 4000 / int(sizeof(T)) + 37})
      for (int mis = 0; mis < mm; ++mis)
        one(pol, name, n, mis);
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_policies([](auto pol, const char* name) { sweep(pol, name); });
  return mon::finish();
}
