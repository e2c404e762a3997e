// C15 monitor: simd_mask operations; exhaustive over the patterns of small widths.
#include "fb.h"
#ifndef REPS
#define REPS 60
#endif
static mon::arena* A;

template <typename M, typename U>
static void one(const bool* a, const bool* b, std::uint64_t id)
{
  constexpr int N = M::size();
  using T = typename M::simd_type::value_type;
  bool e[N];
  const M x = make_mask<M>(a), y = make_mask<M>(b);
  auto start = [&](const char* n) { mon::begin(n, mon::type_name<T>(), N, id); ++mon::evals; };
#define BIN(name, ex, sc)                                                          \
  { start(name); for (int i = 0; i < N; ++i) { [[maybe_unused]] bool p = a[i], q = b[i]; e[i] = sc; } \
    const M r = ex; lanes(r, e, name); lanes(x, a, "left operand afterwards"); lanes(y, b, "right operand afterwards"); }
  BIN("!", !x, not p)
  BIN("&&", x && y, p and q)
  BIN("||", x || y, p or q)
  BIN("&", x & y, p and q)
  BIN("|", x | y, p or q)
  BIN("^", x ^ y, p != q)
  BIN("==", x == y, p == q)
  BIN("!=", x != y, p != q)
#define ASG(name, op, sc)                                                          \
  { start(name); for (int i = 0; i < N; ++i) { bool p = a[i], q = b[i]; e[i] = sc; } \
    M r = x; if (&(r op y) != &r) mon::fail("does not return its operand"); lanes(r, e, name);   \
    lanes(y, b, "right operand afterwards"); M s = x; s op s; for (int i = 0; i < N; ++i) { bool p = a[i], q = a[i]; e[i] = sc; } \
    lanes(s, e, name " (self)"); }
  ASG("&=", &=, p and q)
  ASG("|=", |=, p or q)
  ASG("^=", ^=, p != q)
  int cnt = 0, first = -1, last = -1;
  for (int i = 0; i < N; ++i) if (a[i]) { ++cnt; last = i; if (first < 0) first = i; }
  start("reductions");
  mon::events += 7;
  if (stdx::all_of(x) != (cnt == N)) mon::fail("all_of is %d, %d of %d lanes are true", stdx::all_of(x), cnt, N);
  if (stdx::any_of(x) != (cnt > 0)) mon::fail("any_of is %d, %d of %d lanes are true", stdx::any_of(x), cnt, N);
  if (stdx::none_of(x) != (cnt == 0)) mon::fail("none_of is %d, %d of %d lanes are true", stdx::none_of(x), cnt, N);
  if (stdx::some_of(x) != (cnt > 0 and cnt < N)) mon::fail("some_of is %d, %d of %d lanes are true", stdx::some_of(x), cnt, N);
  if (stdx::popcount(x) != cnt) mon::fail("popcount is %d, %d of %d lanes are true", stdx::popcount(x), cnt, N);
  if (cnt)
    {
      if (stdx::find_first_set(x) != first) mon::fail("find_first_set is %d, expected %d", stdx::find_first_set(x), first);
      if (stdx::find_last_set(x) != last) mon::fail("find_last_set is %d, expected %d", stdx::find_last_set(x), last);
    }
  // memory
  for (int fl = 0; fl < 2; ++fl)
    {
      start("memory"); mon::arg[2] = fl;
      mon::rng r(id + fl);
      const std::size_t mis = r.below(64);
      bool* p = static_cast<bool*>(A->place(N, fl ? mis / stdx::memory_alignment_v<M> * stdx::memory_alignment_v<M> : mis, id & 1));
      for (int i = 0; i < N; ++i) p[i] = b[i];
      A->arm();
      M m = x;
      const bool* cp = p;
      if (fl) m.copy_from(cp, stdx::vector_aligned); else m.copy_from(cp, stdx::element_aligned);
      lanes(m, b, "copy_from");
      const M l = fl ? M(cp, stdx::vector_aligned) : M(cp, stdx::element_aligned);
      lanes(l, b, "load constructor");
      // masked load constructor; reads selected elements only
      M ml = fl ? M(cp, x, stdx::vector_aligned) : M(cp, x, stdx::element_aligned);
      for (int i = 0; i < N; ++i) e[i] = a[i] and b[i];
      lanes(ml, e, "masked load constructor");
      if (fl) x.copy_to(p, stdx::vector_aligned); else x.copy_to(p, stdx::element_aligned);
      for (int i = 0; i < N; ++i)
        {
          unsigned char c; std::memcpy(&c, p + i, 1);
          if (c != (a[i] ? 1 : 0)) mon::fail("copy_to: element %d is %d, expected %d", i, c, a[i]);
        }
      if (A->check() != mon::arena::intact) mon::fail("load/store changed memory outside of the range");
      const int n = last + 1; // only elements up to the last selected one are accessible
      p = static_cast<bool*>(A->place(n, 0, true, 1));
      for (int i = 0; i < n; ++i) p[i] = b[i];
      A->arm();
      cp = p;
      const M mk(cp, x, stdx::element_aligned);
      lanes(mk, e, "masked load constructor at the end of memory");
      A->check();
    }
  start("subscript");
  for (int i = 0; i < N; ++i)
    {
      M m = x;
      m[i] = not a[i];
      for (int j = 0; j < N; ++j) e[j] = a[j] != (i == j);
      lanes(m, e, "write through subscript");
    }
  start("conversion");
  {
    const M br(a[0]);
    for (auto& q : e) q = a[0];
    lanes(br, e, "broadcast");
    const M gen([&](auto i) -> bool { return b[i]; });
    lanes(gen, b, "generator constructor");
    M cp = x, as(false); as = y; const M mv = std::move(cp);
    lanes(mv, a, "copy"); lanes(as, b, "assignment");
    if constexpr (not std::is_same_v<typename M::abi_type, stdx::simd_abi::scalar>)
      { const stdx::simd_mask<U, typename M::abi_type> cv = x; lanes(cv, a, "converting constructor"); }
    lanes(stdx::static_simd_cast<U>(x), a, "static_simd_cast<U>");
  }
  mon::begin("pattern", mon::type_name<T>(), N, id);
  mon::nontrivial();
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  A = new mon::arena(4096);
  for_all_types([](auto t) {
    using T = typename decltype(t)::t;
    using U = std::conditional_t<std::is_same_v<T, float>, short, float>;
    for_all_simds<T>([](auto v) {
      using M = typename decltype(v)::t::mask_type;
      constexpr int N = M::size();
      bool a[N], b[N];
      if constexpr (N <= 5)
        for (unsigned x = 0; x < (1u << N); ++x)
          for (unsigned y = 0; y < (1u << N); ++y)
            {
              for (int i = 0; i < N; ++i) { a[i] = x >> i & 1; b[i] = y >> i & 1; }
              one<M, U>(a, b, x * 256 + y);
            }
      else
        {
          if constexpr (N <= 12)
            for (unsigned x = 0; x < (1u << N); ++x)
              {
                mon::rng r(x);
                for (int i = 0; i < N; ++i) { a[i] = x >> i & 1; b[i] = r() & 1; }
                if (N <= 8 or mon::thorough or x % 8 == 0) one<M, U>(a, b, x);
              }
          for (int i = 0; i < N; ++i)
            for (int j = 0; j < 2; ++j)
              {
                for (int q = 0; q < N; ++q) { a[q] = (i == q) != j; b[q] = q > i; }
                one<M, U>(a, b, 100000 + i * 2 + j);
              }
          for (int rep = 0; rep < REPS * (mon::thorough ? 40 : 1); ++rep)
            {
              mon::rng r(rep + N * 100);
              const unsigned den = 1 + r.below(5);
              for (int i = 0; i < N; ++i) { a[i] = r.below(den) == 0; b[i] = r() & 1; }
              if (rep == 0) for (auto& q : a) q = true;
              if (rep == 1) for (auto& q : a) q = false;
              one<M, U>(a, b, 200000 + rep);
            }
        }
    });
  });
  for (bool k : {false, true})
    {
      mon::begin("bool reductions", "", k); ++mon::evals; mon::nontrivial();
      if (stdx::all_of(k) != k or stdx::any_of(k) != k or stdx::none_of(k) == k or stdx::some_of(k) or stdx::popcount(k) != int(k))
        mon::fail("reductions of bool %d", k);
      if (k and (stdx::find_first_set(k) != 0 or stdx::find_last_set(k) != 0)) mon::fail("find_*_set(true)");
    }
  delete A;
  return mon::finish();
}
