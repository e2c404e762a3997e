// C05 monitor: memory safety / UB of all algorithms. Meant for sanitizer builds (poisoned exact
// ranges, exact heap allocations) and for plain builds (guard pages, canaries, aligned-access faults).
#include "policies.h"
#include <algorithm>
#include <functional>
#include <memory>
#include <span>
#ifndef ELT
#define ELT int
#endif
using T = ELT;

struct mem { mon::arena a{40000 * 2}, b{40000 * 2}, o{40000 * 2}; };

static void guards(mem& m)
{
  ++mon::evals;
  mon::arena* as[] = {&m.a, &m.b, &m.o};
  for (int i = 0; i < 3; ++i)
    if (long long off = as[i]->check(); off != mon::arena::intact)
      mon::fail("memory at offset %lld relative to range %d was modified", off, i);
}

template <typename Pol>
static void run_algos(Pol pol, const char* name, T* a, T* b, T* o, std::size_t n, int which,
                      std::size_t ma, std::size_t mb, std::size_t mo)
{
  static volatile T sink;
  static volatile int isink;
  switch (which)
    {
    case 0:
      mon::begin("for_each", name, n, ma, mb, mo);
      vir::for_each(pol.real(), a, a + n, [](auto&... x) { ((mon::events += x.size()), ...); ((x += T(1)), ...); });
      break;
    case 1:
      mon::begin("for_each-const", name, n, ma, mb, mo);
      vir::for_each(pol.real(), std::span<const T>(a, n), [](const auto&... x) {
        ((mon::events += x.size()), ...);
        ((sink = T(reduce(x, [](auto p, auto q) { return p + q; }))), ...);
      });
      break;
    case 2:
      mon::begin("transform1", name, n, ma, mb, mo);
      vir::transform(pol.real(), a, a + n, o, [](const auto& x) { mon::events += x.size(); return x + T(1); });
      break;
    case 3:
      mon::begin("transform2", name, n, ma, mb, mo);
      vir::transform(pol.real(), a, a + n, b, o, [](const auto& x, const auto& y) { mon::events += x.size(); return x + y; });
      break;
    case 4:
      mon::begin("transform_reduce1", name, n, ma, mb, mo);
      sink = vir::transform_reduce(pol.real(), a, a + n, T(1), std::plus<>(), [](const auto& x) { mon::events += x.size(); return x; });
      break;
    case 5:
      mon::begin("transform_reduce2", name, n, ma, mb, mo);
      sink = vir::transform_reduce(pol.real(), a, a + n, b, T(1), std::plus<>(), [](const auto& x, const auto& y) { mon::events += x.size(); return x + y; });
      break;
    case 6:
      mon::begin("count_if", name, n, ma, mb, mo);
      isink = vir::count_if(pol.real(), a, a + n, [](const auto& x) { mon::events += x.size(); return x > T(1); });
      break;
    }
}

template <typename Pol>
static void one(Pol pol, const char* name, mem& m, std::size_t n, std::size_t ma, std::size_t mb,
                std::size_t mo, bool at_end, int which)
{
  T* a = static_cast<T*>(m.a.place(n * sizeof(T), ma * sizeof(T), at_end));
  T* b = static_cast<T*>(m.b.place(n * sizeof(T), mb * sizeof(T), not at_end));
  T* o = static_cast<T*>(m.o.place(n * sizeof(T), mo * sizeof(T), at_end));
  for (std::size_t i = 0; i < n; ++i)
    a[i] = b[i] = o[i] = T(i % 3);
  m.a.arm(); m.b.arm(); m.o.arm();
  run_algos(pol, name, a, b, o, n, which, ma, mb, mo);
  guards(m);
  if (n)
    mon::nontrivial(at_end);
}

// exact heap blocks (ASan red zones on both sides, MSan uninitialised output)
template <typename Pol>
static void heap(Pol pol, const char* name, std::size_t n, std::size_t off, int which)
{
  std::unique_ptr<T[]> a(new T[n + off]), b(new T[n]), o(new T[n]);
  for (std::size_t i = 0; i < n; ++i)
    { a[i + off] = T(i % 3); b[i] = T(i % 5); }
  ++mon::evals;
  run_algos(pol, name, a.get() + off, b.get(), o.get(), n, which, off, 0, 0);
  mon::nontrivial(77);
#if defined __has_feature
#if __has_feature(memory_sanitizer)
  if (which == 2 or which == 3)
    {
      std::size_t c = 0;
      for (std::size_t i = 0; i < n; ++i)
        if (o[i] > T(1)) ++c; // MSan: every output must be initialised
      mon::events += c;
    }
#endif
#endif
}

template <typename Pol>
static void sweep(Pol pol, const char* name)
{
  constexpr int W = vir::simdize<T, Pol::_size>::size();
  constexpr int U = Pol::_unroll_by;
  static mem m;
  mon::rng r(mon::hash_str(name) ^ 99);
  const int mm = std::max<int>(1, 64 / sizeof(T));
  if constexpr (Pol::_assume_matching_size)
    {
      for (int k = 0; k <= 3 * std::max(U, 1) + 2; ++k)
        for (int w = 0; w < 7; ++w)
          for (int rep = 0; rep < 6; ++rep)
            {
              one(pol, name, m, k * W, r.below(mm), r.below(mm), r.below(mm), rep & 1, w);
              heap(pol, name, k * W, r.below(mm), w);
            }
    }
  else
    {
      const int N = 2 * W * std::max(U, 1) + W + 5;
      const bool prologue = Pol::_prefers_aligned or Pol::_auto_prologue;
      for (int n = 0; n <= N; ++n)
        {
          for (int mis = 0; mis < mm; mis += (prologue ? 1 : mm > 16 ? 13 : mm > 4 ? 3 : 1))
            for (int w = 0; w < 7; ++w)
              {
                const bool tr = w == 2 or w == 3;
                if (prologue and mm > 16 and not mon::thorough and (n + mis + w) % 3)
                  continue;
                one(pol, name, m, n, tr ? r.below(mm) : mis, r.below(mm), tr ? mis : 0, r.below(2), w);
              }
          for (int w = 0; w < 7; ++w)
            heap(pol, name, n, r.below(mm), w);
        }
      for (int k = 0; k < 42; ++k)
        one(pol, name, m, 4000 / sizeof(T) - 20 + r.below(120), r.below(mm), r.below(mm), r.below(mm), k & 1, k % 7);
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_policies([](auto pol, const char* name) { sweep(pol, name); });
  return mon::finish();
}
