// C24 monitor: simd_version comparisons vs lexicographic order of the components; macros agree.
#include <vir/simd_version.h>
#include "mon.h"
#include <climits>
#include <tuple>
#ifndef VIR_SIMD_VERSION
#error "VIR_SIMD_VERSION is not defined"
#endif
#if VIR_SIMD_VERSION < 0x000400
#error "VIR_SIMD_VERSION is not usable in preprocessor conditions"
#endif
using Ver = vir::simd_version_t;

static void pair_(int a, int b, int c, int d, int e, int f)
{
  const Ver x{a, b, c}, y{d, e, f};
  const auto tx = std::make_tuple(a, b, c), ty = std::make_tuple(d, e, f);
  mon::begin("version", "", a, b, c, d, e, f);
  auto expect = [&](bool got, bool want, const char* op) {
    ++mon::events;
    if (got != want) mon::fail("%s is %d, expected %d", op, got, want);
  };
  ++mon::evals;
  expect(x == y, tx == ty, "==");
  expect(x != y, tx != ty, "!=");
  expect(x < y, tx < ty, "<");
  expect(x <= y, tx <= ty, "<=");
  expect(x > y, tx > ty, ">");
  expect(x >= y, tx >= ty, ">=");
#if __cplusplus >= 202002L
  expect((x <=> y) < 0, tx < ty, "<=> <0");
  expect((x <=> y) == 0, tx == ty, "<=> ==0");
  expect((x <=> y) > 0, tx > ty, "<=> >0");
#endif
  mon::nontrivial();
}

template <int A, int B, int C, int D, int E, int F>
static void cpair()
{
  constexpr Ver x{A, B, C}, y{D, E, F};
  constexpr int got = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5;
  const auto tx = std::make_tuple(A, B, C), ty = std::make_tuple(D, E, F);
  const int want = (tx == ty) | (tx != ty) << 1 | (tx < ty) << 2 | (tx <= ty) << 3 | (tx > ty) << 4 | (tx >= ty) << 5;
  mon::begin("version constexpr", "", A, B, C, D, E, F);
  ++mon::evals; mon::events += 6; mon::nontrivial();
  if (got != want) mon::fail("constant evaluation gives %#x, expected %#x", got, want);
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  const int g[] = {0, 1, 2, 3, 255};
  for (int a : g) for (int b : g) for (int c : g) for (int d : g) for (int e : g) for (int f : g)
    pair_(a, b, c, d, e, f);
  const int s[] = {INT_MIN, -1, 0, 1, 256, 65536, INT_MAX};
  mon::rng r(3);
  for (int i = 0; i < (mon::thorough ? 2000000 : 50000); ++i)
    {
      auto pick = [&] { return r.below(4) ? s[r.below(7)] : int(r()); };
      int a = pick(), b = pick(), c = pick();
      pair_(a, b, c, r.below(2) ? a : pick(), r.below(2) ? b : pick(), r.below(2) ? c : pick());
    }
  cpair<0, 0, 1, 0, 0, 2>(); cpair<0, 1, 0, 0, 0, 2>(); cpair<1, 0, 0, 0, 9, 9>(); cpair<0, 4, 9, 0, 4, 9>();
  cpair<0, 9, 9, 1, 0, 0>(); cpair<0, 1, 9, 0, 2, 0>(); cpair<2, 1, 0, 1, 2, 3>(); cpair<1, 2, 3, 2, 1, 0>();
  mon::begin("constants", "", VIR_SIMD_VERSION, VIR_SIMD_VERSION_MAJOR, VIR_SIMD_VERSION_MINOR, VIR_SIMD_VERSION_PATCHLEVEL);
  ++mon::evals; mon::events += 4; mon::nontrivial();
  if (vir::simd_version.major != VIR_SIMD_VERSION_MAJOR or vir::simd_version.minor != VIR_SIMD_VERSION_MINOR
      or vir::simd_version.patchlevel != VIR_SIMD_VERSION_PATCHLEVEL)
    mon::fail("simd_version is %d.%d.%d", vir::simd_version.major, vir::simd_version.minor, vir::simd_version.patchlevel);
  if (VIR_SIMD_VERSION_MAJOR * 0x10000 + VIR_SIMD_VERSION_MINOR * 0x100 + VIR_SIMD_VERSION_PATCHLEVEL != VIR_SIMD_VERSION)
    mon::fail("components do not add up to VIR_SIMD_VERSION");
  // precedence: the macros must be usable as operands
  if (VIR_SIMD_VERSION_MAJOR * 1 != vir::simd_version.major or 100 - VIR_SIMD_VERSION_MINOR != 100 - vir::simd_version.minor
      or VIR_SIMD_VERSION_PATCHLEVEL % 1000 != vir::simd_version.patchlevel or (1000 - VIR_SIMD_VERSION_PATCHLEVEL) * 2 != 2000 - 2 * vir::simd_version.patchlevel)
    mon::fail("the version macros are not usable as operands");
  return mon::finish();
}
