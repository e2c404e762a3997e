// Very long ranges (more than 2^31 / 2^32 elements): a small file mapped over and over into one contiguous range.
// PART 1: for_each, 2: transform, 3: transform_reduce/reduce, 4: count_if.
#include <vir/simd_execution.h>
#include "mon.h"
#include <functional>
#include <span>
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <sys/mman.h>
namespace ex = vir::execution;
using T = unsigned char;
constexpr std::size_t block = std::size_t(4) << 20;

struct repeated
{
  T* p = nullptr;
  T* one = nullptr;
  std::size_t bytes;
  repeated(std::size_t n) : bytes((n + block - 1) / block * block + block)
  {
    const int fd = memfd_create("block", 0);
    if (fd < 0 or ftruncate(fd, block)) std::_Exit(9);
    void* r = mmap(nullptr, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r == MAP_FAILED) std::_Exit(9);
    p = static_cast<T*>(r);
    for (std::size_t o = 0; o < bytes; o += block)
      if (mmap(p + o, block, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) std::_Exit(9);
    one = static_cast<T*>(mmap(nullptr, block, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (one == MAP_FAILED) std::_Exit(9);
    close(fd);
  }
  ~repeated() { munmap(p, bytes); munmap(one, block); }
};

template <typename Pol>
static void run(Pol pol, const char* name, std::size_t n, std::size_t off)
{
  mon::begin(PART == 1 ? "for_each" : PART == 2 ? "transform" : PART == 3 ? "reduce" : "count_if", name, (long long)n, off);
  repeated in(n + off);
  mon::rng r(n + off);
  for (std::size_t i = 0; i < block; ++i) in.one[i] = r.below(250);
  T* const b = in.p + off;
  auto sum = [&](auto f) { // exact fold over the n elements, f: element -> count
    std::uint64_t full = 0, rest = 0;
    for (std::size_t i = 0; i < block; ++i) full += f(in.one[i]);
    std::uint64_t s = full * (n / block);
    for (std::size_t i = 0; i < n % block; ++i) rest += f(in.one[(off + i) % block]);
    return s + rest;
  };
  ++mon::evals;
  mon::nontrivial();
#if PART == 1
  std::uint64_t seen = 0, x77 = 0;
  vir::for_each(pol, (const T*)b, (const T*)b + n, [&](const auto&... x) {
    ((seen += x.size(), x77 += popcount(x == T(77))), ...);
    mon::events += sizeof...(x);
  });
  if (seen != n) mon::fail("%llu elements visited", (unsigned long long)seen);
  if (x77 != sum([](T x) { return x == 77; })) mon::fail("wrong elements visited");
#elif PART == 2
  repeated out(n + off);
  std::memset(out.one, 0xff, block);
  T* const o = out.p + off;
  T* const e = vir::transform(pol, b, b + n, o, [](auto x) { return x + T(1); });
  mon::events += block;
  if (e != o + n) mon::fail("returned iterator is off by %lld", (long long)(e - (o + n)));
  for (std::size_t i = 0; i < block; ++i)
    if (out.one[i] != in.one[i] + 1) { mon::fail("element %zu of the block is wrong", i); break; }
#elif PART == 3
  const T s = vir::reduce(pol, b, b + n, T(3), [](auto x, auto y) { return x ^ y; });
  T want = 3;
  if ((n / block) & 1) for (std::size_t i = 0; i < block; ++i) want ^= in.one[i];
  for (std::size_t i = 0; i < n % block; ++i) want ^= in.one[(off + i) % block];
  if (s != want) mon::fail("xor of all elements is %d, expected %d", s, want);
  const T t = vir::transform_reduce(pol, b, b + n, T(9), std::plus<>(), [](auto x) { return x + T(1); });
  const T want2 = T(9 + sum([](T x) { return x + 1; }));
  if (t != want2) mon::fail("sum modulo 256 is %d, expected %d", t, want2);
  mon::events += n;
#else
  const std::uint64_t c = vir::count_if(pol, b, b + n, [](auto x) { return x == T(77); });
  if (c != sum([](T x) { return x == 77; })) mon::fail("count %llu, expected %llu", (unsigned long long)c, (unsigned long long)sum([](T x) { return x == 77; }));
  const std::size_t m = std::min(n, std::size_t(200) << 20); // every lane counts far beyond 16 bits
  const std::uint64_t d = vir::count_if(pol, b, b + m, [](auto x) { return x < T(251); });
  if (d != m) mon::fail("count %llu, expected %llu", (unsigned long long)d, (unsigned long long)m);
  mon::events += n + m;
#endif
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  const std::size_t G = std::size_t(1) << 32;
  run(ex::simd, "simd", G + 13, 3);
  run(ex::simd.unroll_by<4>(), "simd.unroll_by<4>()", G / 2 + 101, 5);
  run(ex::simd.prefer_aligned(), "simd.prefer_aligned()", G / 2 + 7, 1);
  if (mon::thorough)
    {
      run(ex::simd.auto_prologue().unroll_by<2>(), "simd.auto_prologue().unroll_by<2>()", G + 1000001, 17);
      run(ex::simd.prefer_size<8>(), "simd.prefer_size<8>()", G + 5, 0);
    }
  return mon::finish();
}
