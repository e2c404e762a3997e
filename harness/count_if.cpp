// C04 monitor: count_if.
#include "policies.h"
#include <algorithm>
#include <span>
#include <vector>
#ifndef ELT
#define ELT int
#endif
using T = ELT;

struct mem { mon::arena a{40000 * 4}; };

template <typename Pol>
static void one(Pol pol, const char* name, mem& m, std::size_t n, std::size_t mis, bool at_end,
                int pattern, int variant, mon::rng& r)
{
  mon::begin("count_if", name, n, mis, at_end, pattern, variant);
  T* p = static_cast<T*>(m.a.place(n * sizeof(T), mis * sizeof(T), at_end));
  std::vector<T> before(n);
  const std::size_t pos = n ? r.below(n) : 0;
  for (std::size_t i = 0; i < n; ++i)
    {
      bool hit = false;
      switch (pattern)
        {
        case 0: hit = true; break;
        case 1: hit = false; break;
        case 2: hit = i == pos; break;
        case 3: hit = i != pos; break;
        case 4: hit = r.below(2); break;
        case 5: hit = i + 1 == n; break;
        case 6: hit = i % 3 == 1; break;
        }
      before[i] = p[i] = hit ? T(10 + (i % 7)) : T(i % 7);
    }
  int want = 0;
  for (std::size_t i = 0; i < n; ++i)
    want += before[i] >= T(10);
  m.a.arm();
  auto pred = [](const auto& x) { mon::events += x.size(); return x >= T(10); };
  int got = -1;
  switch (variant)
    {
    case 0: got = vir::count_if(pol.real(), p, p + n, pred); break;
    case 1: got = vir::count_if(pol.real(), std::span<const T>(p, n), pred); break;
    case 2: got = std::count_if(pol.real(), (const T*)p, (const T*)p + n, pred); break;
    }
  if (long long off = m.a.check(); off != mon::arena::intact)
    mon::fail("memory at offset %lld around the range was modified", off);
  ++mon::evals;
  if (got != want)
    mon::fail("count %d, expected %d", got, want);
  for (std::size_t i = 0; i < n; ++i)
    if (p[i] != before[i])
      { mon::fail("element %zu modified", i); break; }
  if (n > 0)
    mon::nontrivial();
}

template <typename Pol>
static void sweep(Pol pol, const char* name)
{
  constexpr int W = vir::simdize<T, Pol::_size>::size();
  constexpr int U = Pol::_unroll_by;
  static mem m;
  mon::rng r(mon::hash_str(name) ^ 5);
  const int mis_max = std::max<int>(1, 64 / sizeof(T));
  if constexpr (Pol::_assume_matching_size)
    {
      for (int k = 0; k <= 4 * std::max(U, 1) + 3; ++k)
        for (int pat = 0; pat < 7; ++pat)
          for (int v = 0; v < 3; ++v)
            one(pol, name, m, k * W, r.below(mis_max), r.below(2), pat, v, r);
    }
  else
    {
      const int N = sweep_len(W, U);
      const bool prologue = Pol::_prefers_aligned or Pol::_auto_prologue;
      int rot = 0;
      for (int n = 0; n <= N; ++n)
        {
          for (int mis = 0; mis < mis_max; mis += (prologue ? 1 : mis_max > 16 ? 13 : mis_max > 4 ? 3 : 1))
            {
              ++rot;
              one(pol, name, m, n, mis, rot & 1, 4, rot % 3, r);
              one(pol, name, m, n, mis, rot & 1, 0, (rot / 3) % 3, r);
            }
          for (int pat = 0; pat < 7; ++pat)
            one(pol, name, m, n, r.below(mis_max), r.below(2), pat, r.below(3), r);
        }
      for (int k = 0; k < 40; ++k)
        one(pol, name, m, 4000 / sizeof(T) - 20 + r.below(120), r.below(mis_max), r.below(2), k % 7, k % 3, r);
      // many matches per lane: lane counters must not wrap for any element type
      static mon::arena big(600000 * sizeof(T));
      for (std::size_t n : {33000u, 70001u, 599999u})
        {
          mon::begin("count_if big", name, n);
          T* p = static_cast<T*>(big.place(n * sizeof(T), 0, true));
          for (std::size_t i = 0; i < n; ++i)
            p[i] = T(11);
          big.arm();
          const int got = vir::count_if(pol.real(), p, p + n, [](const auto& x) { return x >= T(10); });
          ++mon::evals;
          if (got != int(n))
            mon::fail("count %d, expected %zu", got, n);
          big.check();
          mon::nontrivial();
        }
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_policies([](auto pol, const char* name) { sweep(pol, name); });
  return mon::finish();
}
