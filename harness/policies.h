// Policy sets used by the algorithm monitors. POLSET selects one.
#pragma once
#include <vir/simd_execution.h>
#include "mon.h"
namespace ex = vir::execution;

#ifndef POLSET
#define POLSET 0
#endif

// What a policy means is read from its spelling, not from the policy type under test.
struct pol_desc { int size = 0, unroll = 0; bool aligned = false, autop = false, match = false; };

consteval bool starts(const char* s, const char* w)
{ for (; *w; ++s, ++w) if (*s != *w) return false; return true; }

consteval int number_in(const char* s)
{
  int n = 0;
  while (*s != '<') ++s;
  for (++s; *s != '>'; ++s) n = n * 10 + (*s - '0');
  return n;
}

consteval pol_desc parse_policy(const char* s)
{
  pol_desc d;
  for (; *s; ++s)
    if (starts(s, "prefer_size<")) d.size = number_in(s);
    else if (starts(s, "unroll_by<")) d.unroll = number_in(s);
    else if (starts(s, "prefer_aligned(")) d.aligned = true;
    else if (starts(s, "auto_prologue(")) d.autop = true;
    else if (starts(s, "assume_matching_size(")) d.match = true;
  return d;
}

template <typename Real, int Size, int Unroll, bool Aligned, bool Auto, bool Match>
struct described
{
  static constexpr Real real() { return {}; }
  static constexpr int _size = Size, _unroll_by = Unroll;
  static constexpr bool _prefers_aligned = Aligned, _auto_prologue = Auto, _assume_matching_size = Match;
};

// F(policy object, printable name)
template <typename F>
void for_all_policies(F&& f)
{
  constexpr auto simd = ex::simd;
#define P(x) { constexpr pol_desc d = parse_policy(#x); \
    f(described<std::remove_cvref_t<decltype(x)>, d.size, d.unroll, d.aligned, d.autop, d.match>(), #x); }
#if POLSET == 0
  P(simd);
  P(simd.prefer_aligned());
  P(simd.auto_prologue());
#elif POLSET == 1
  P(simd.unroll_by<2>());
  P(simd.unroll_by<3>());
  P(simd.unroll_by<4>());
  P(simd.unroll_by<5>());
  P(simd.unroll_by<7>());
#elif POLSET == 2
  P(simd.prefer_aligned().unroll_by<2>());
  P(simd.unroll_by<3>().prefer_aligned());
  P(simd.auto_prologue().unroll_by<4>());
  P(simd.unroll_by<5>().auto_prologue());
#elif POLSET == 3
  P(simd.prefer_size<1>());
  P(simd.prefer_size<2>());
  P(simd.prefer_size<3>());
  P(simd.prefer_size<4>());
  P(simd.prefer_size<5>());
  P(simd.prefer_size<6>());
  P(simd.prefer_size<7>());
#elif POLSET == 4
  P(simd.prefer_size<8>());
  P(simd.prefer_size<12>());
  P(simd.prefer_size<15>());
  P(simd.prefer_size<16>());
  P(simd.prefer_size<17>());
  P(simd.prefer_size<24>());
  P(simd.prefer_size<32>());
#elif POLSET == 5
  // libstdc++'s fixed_size stops at 32 (plus native widths), so larger widths need an element type
  // / target that supports them: see max_prefer_size
#if defined POL_LARGE
  P(simd.prefer_size<33>());
  P(simd.prefer_size<48>());
  P(simd.prefer_size<63>());
  P(simd.prefer_size<64>());
#else
  P(simd.prefer_size<31>());
  P(simd.prefer_size<23>());
  P(simd.prefer_size<9>());
  P(simd.prefer_size<11>());
#endif
#elif POLSET == 6
  P(simd.prefer_size<2>().unroll_by<2>());
  P(simd.prefer_size<4>().prefer_aligned());
  P(simd.prefer_size<16>().prefer_aligned());
  P(simd.prefer_aligned().prefer_size<32>());
  P(simd.prefer_size<8>().auto_prologue());
  P(simd.unroll_by<3>().prefer_size<4>().auto_prologue());
  P(simd.prefer_size<3>().unroll_by<6>());
  P(simd.prefer_size<8>().unroll_by<3>().prefer_aligned());
  P(simd.prefer_size<1>().unroll_by<4>());
#elif POLSET == 7
  P(simd.assume_matching_size());
  P(simd.assume_matching_size().unroll_by<2>());
  P(simd.unroll_by<3>().assume_matching_size());
  P(simd.prefer_size<4>().assume_matching_size());
  P(simd.prefer_size<5>().assume_matching_size());
  P(simd.prefer_size<2>().unroll_by<4>().assume_matching_size());
  P(simd.assume_matching_size().prefer_size<1>());
  P(simd.prefer_size<16>().assume_matching_size().unroll_by<3>());
#elif POLSET == 8
  P(simd.prefer_size<2>().prefer_aligned());
  P(simd.prefer_size<2>().auto_prologue());
  P(simd.unroll_by<8>());
  P(simd.unroll_by<6>());
  P(simd.prefer_size<4>().auto_prologue());
  P(simd.prefer_size<12>().prefer_aligned());
  P(simd.prefer_size<6>().unroll_by<2>().auto_prologue());
#endif
#undef P
}

// longest range worth sweeping for chunk width w and unroll u
constexpr int sweep_len(int w, int u)
{
  const int step = w * (u > 1 ? u : 1);
  int n = 2 * step + w + 70;
  return n;
}

template <typename T> struct vals;

// unique-ish ids that are exactly representable in T
template <typename T>
constexpr T id_of(std::size_t i)
{
  if constexpr (std::is_floating_point_v<T>)
    return T(int(i % 30011) + 1);
  else
    return static_cast<T>(i * 3 + 1);
}
