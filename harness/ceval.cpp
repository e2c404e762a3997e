// C07 monitor: the same calls in constant evaluation (the compiler's UB-checking interpreter) and at
// run time, compared with each other and with a scalar oracle.
#include "policies.h"
#include <algorithm>
#include <array>
#include <functional>
#include <utility>
#ifndef ELT
#define ELT int
#endif
#ifndef MAXN
#define MAXN 12
#endif
using T = ELT;

static constexpr int CAP = 100;
struct result
{
  int n = 0;
  std::array<T, CAP + 2> fe{}, fe2{}, t1{}, t2{};
  T fesum{}, tr1{}, tr2{}, tr3{}, red{}, mn{};
  int lanes = 0, cnt = 0, cnt2 = 0;
  int t1ret = 0, t2ret = 0;
};

template <std::size_t N>
constexpr std::array<T, N> input(int salt)
{
  std::array<T, N> a{};
  for (std::size_t i = 0; i < N; ++i)
    a[i] = T(int(i) * 3 % 11 + salt);
  return a;
}

template <typename Pol>
constexpr result compute(Pol pol, const int N)
{
  result r;
  r.n = N;
  const auto in = input<CAP + 2>(1), in2 = input<CAP + 2>(2);
  const T* f = in.data() + 1;
  const T* l = f + N;
  const T* g = in2.data() + 1;
  r.fe = in;
  vir::for_each(pol.real(), r.fe.data() + 1, r.fe.data() + 1 + N, [](auto&... x) { ((x += T(20)), ...); });
  r.fe2 = in;
  T sum = 0;
  int lanes = 0;
  vir::for_each(pol.real(), r.fe2.data() + 1, r.fe2.data() + 1 + N, [&](auto... x) {
    ((lanes += int(x.size())), ...);
    auto add = [&](auto& v) { for (std::size_t i = 0; i < v.size(); ++i) sum = T(sum + T(v[i])); };
    (add(x), ...);
    ((x += T(20)), ...);
  });
  r.fesum = sum;
  r.lanes = lanes;
  r.t1.fill(T(99));
  r.t1ret = int(vir::transform(pol.real(), f, l, r.t1.data() + 1, [](const auto& x) { return x + T(7); }) - r.t1.data()) - 1;
  r.t2.fill(T(99));
  r.t2ret = int(vir::transform(pol.real(), f, l, g, r.t2.data() + 1, [](const auto& x, const auto& y) { return x + y + y; }) - r.t2.data()) - 1;
  r.tr1 = vir::transform_reduce(pol.real(), f, l, T(5), [](const auto& a, const auto& b) { return a + b; }, [](const auto& x) { return x + T(1); });
  r.tr2 = vir::transform_reduce(pol.real(), f, l, g, T(5), std::plus<>(), [](const auto& x, const auto& y) { return x + y; });
  r.red = vir::reduce(pol.real(), f, l, T(9));
  r.tr3 = vir::reduce(pol.real(), f, l);
  r.cnt = vir::count_if(pol.real(), f, l, [](const auto& x) { return x > T(4); });
  r.cnt2 = vir::count_if(pol.real(), f, l, [](const auto& x) { return x > T(-1); });
  return r;
}

static result oracle(const int N)
{
  result r;
  r.n = N;
  const auto in = input<CAP + 2>(1), in2 = input<CAP + 2>(2);
  r.fe = r.fe2 = in;
  r.t1.fill(T(99));
  r.t2.fill(T(99));
  r.tr1 = 5; r.tr2 = 5; r.red = 9;
  for (int i = 1; i <= N; ++i)
    {
      r.fe[i] = T(in[i] + T(20));
      r.fesum = T(r.fesum + in[i]);
      ++r.lanes;
      r.t1[i] = T(in[i] + T(7));
      r.t2[i] = T(in[i] + in2[i] + in2[i]);
      r.tr1 = T(r.tr1 + in[i] + T(1));
      r.tr2 = T(r.tr2 + in[i] + in2[i]);
      r.red = T(r.red + in[i]);
      r.tr3 = T(r.tr3 + in[i]);
      r.cnt += in[i] > T(4);
      r.cnt2 += in[i] > T(-1);
    }
  r.t1ret = r.t2ret = N;
  return r;
}

static void compare(const result& a, const result& b, const char* what)
{
  const int N = a.n;
  ++mon::evals;
  mon::events += 4 * N + 11;
  auto arr = [&](const auto& x, const auto& y, const char* w) {
    for (int i = 0; i < CAP + 2; ++i)
      if (x[i] != y[i])
        { mon::fail("%s: %s element %d: %Lg vs %Lg", what, w, i - 1, (long double)x[i], (long double)y[i]); return; }
  };
  arr(a.fe, b.fe, "for_each write-back");
  arr(a.fe2, b.fe2, "for_each by value");
  arr(a.t1, b.t1, "unary transform");
  arr(a.t2, b.t2, "binary transform");
#define S(m) if (a.m != b.m) mon::fail("%s: " #m " %Lg vs %Lg", what, (long double)a.m, (long double)b.m)
  S(fesum); S(lanes); S(t1ret); S(t2ret); S(tr1); S(tr2); S(tr3); S(red); S(cnt); S(cnt2);
#undef S
}

template <typename Pol>
constexpr auto lengths()
{
  constexpr int W = vir::simdize<T, Pol::_size>::size();
  constexpr int U = Pol::_unroll_by > 0 ? Pol::_unroll_by : 1;
  std::array<int, 64> l{};
  int k = 0;
  auto add = [&](int n) {
    if (n < 0 or n > CAP or (Pol::_assume_matching_size and n % W) or k >= 40) return;
    for (int i = 0; i < k; ++i)
      if (l[i] == n) return;
    l[k++] = n;
  };
  for (int m : {0, 1, 2, U, U + 1, 2 * U, 2 * U + 1})
    add(m * W);
  for (int n = 0; n < MAXN; ++n)
    add(n);
  for (int m : {1, 2, U, U + 1, 2 * U})
    for (int d : {-1, 1, 3})
      add(m * W + d);
  l[63] = k;
  return l;
}

template <typename Pol>
static void one(const char* name)
{
  static constexpr auto L = lengths<Pol>();
  static constexpr int K = L[63];
  static constexpr auto c = [] {
    std::array<result, K> r{};
    for (int k = 0; k < K; ++k)
      r[k] = compute(Pol{}, L[k]);
    return r;
  }();
  for (int k = 0; k < K; ++k)
    {
      mon::begin("constexpr-vs-runtime", name, L[k]);
      const result r = compute(Pol{}, L[k]);
      const result o = oracle(L[k]);
      compare(c[k], o, "constant evaluation vs oracle");
      compare(r, o, "run time vs oracle");
      compare(c[k], r, "constant evaluation vs run time");
      if (L[k] > 0) mon::nontrivial();
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_policies([](auto pol, const char* name) { one<decltype(pol)>(name); });
  return mon::finish();
}
