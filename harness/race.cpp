// C27 monitor: no interference between threads. Calls that own disjoint (adjacent, or mask-interleaved) memory and
// share read-only inputs run concurrently: ThreadSanitizer watches every access of the instrumented real code; builds
// without it detect lost updates of neighbouring elements; shared const objects and inputs live in read-only pages.
#include "fb.h"
#ifndef PART
#define PART 0
#endif
#if PART == 0 or PART == 2
#include "policies.h"
#endif
#include <vir/simd_cvt.h>
#include <vir/simdize.h>
#include <vir/simd_permute.h>
#include <vir/simd_resize.h>
#include <vir/simd_bit.h>
#include <vir/simd_bitset.h>
#include <vir/simd_float_ops.h>
#include <algorithm>
#include <atomic>
#include <span>
#include <thread>
#if defined __SANITIZE_THREAD__
#define TSAN 1
#elif defined __has_feature
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
#ifndef TSAN
#define TSAN 0
#endif
#ifndef ROUNDS
#define ROUNDS 60
#endif

static std::uint64_t overlaps, shared_reads;

// run f(0) ... f(k - 1) concurrently; all of them start together
template <typename F>
static void together(int k, F&& f)
{
  std::atomic<int> ready{0}, running{0}, seen{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < k; ++t)
    ts.emplace_back([&, t] {
      ready.fetch_add(1);
      for (int spin = 0; ready.load(std::memory_order_relaxed) < k; ++spin)
        if (spin > 200) std::this_thread::yield();
      if (running.fetch_add(1, std::memory_order_relaxed) > 0) seen.store(1, std::memory_order_relaxed);
      f(t);
      running.fetch_sub(1, std::memory_order_relaxed);
    });
  for (auto& t : ts) t.join();
  overlaps += seen.load();
  mon::events += k;
}

// memory that is writable while it is being filled and read-only afterwards
struct ro_pages
{
  unsigned char* p; std::size_t n;
  explicit ro_pages(std::size_t bytes) : n((bytes + 4095) / 4096 * 4096)
  {
    p = static_cast<unsigned char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (p == MAP_FAILED) std::_Exit(9);
  }
  void freeze() { if (mprotect(p, n, PROT_READ)) std::_Exit(9); }
  void thaw() { if (mprotect(p, n, PROT_READ | PROT_WRITE)) std::_Exit(9); }
  ~ro_pages() { munmap(p, n); }
};

#if PART == 0
// ---- algorithms ---------------------------------------------------------------------------------------------
#ifndef ELT
#define ELT float
#endif
using T = ELT;

struct shared_ops // one object of each, shared by all threads, in read-only memory
{
  struct inc { void operator()(auto&... x) const { ((x += T(1)), ...); } } i;
  struct un { auto operator()(const auto& x) const { return x + T(3); } } u;
  struct bin { auto operator()(const auto& x, const auto& y) const { return x + y; } } b;
  struct pr { auto operator()(const auto& x) const { return x > T(9); } } p;
  struct look { void operator()(const auto&...) const {} } l;
  struct byval { void operator()(auto... x) const { ((x += T(1)), ...); } } v;
};

static T model(int op, T x) { return op == 0 or op == 8 ? (op == 0 ? T(x + T(1)) : T(x + T(3))) : x; }

template <typename Pol>
static void algos(Pol pol, const char* name)
{
  constexpr std::size_t W = vir::simdize<T, Pol::_size>::size();
  constexpr int U = Pol::_unroll_by > 1 ? Pol::_unroll_by : 1;
  const std::size_t cap = 16384;
  ro_pages in(2 * cap * sizeof(T)), obj(sizeof(shared_ops) + sizeof(decltype(pol.real())));
  const T* const in1 = reinterpret_cast<T*>(in.p);
  const T* const in2 = in1 + cap;
  for (std::size_t i = 0; i < 2 * cap; ++i) const_cast<T*>(in1)[i] = T(i % 19);
  const shared_ops& ops = *new (obj.p) shared_ops;
  in.freeze(); obj.freeze();
  static T* const io = static_cast<T*>(std::aligned_alloc(64, cap * sizeof(T)));
  static T* const out = static_cast<T*>(std::aligned_alloc(64, cap * sizeof(T)));
  std::vector<T> io0(cap);
  struct piece { std::size_t b, n, src, src2; int op; long long res, expect; };
  for (int round = 0; round < ROUNDS * (mon::thorough ? 20 : 1); ++round)
    {
      mon::begin("algorithms", name, round);
      mon::rng r(mon::hash_str(name) + round * 977);
      std::vector<piece> ps;
      std::size_t b = r.below(64);
      const int np = 5 + r.below(8), K = 2 + r.below(4);
      for (int k = 0; k < np; ++k)
        {
          std::size_t n = r.below(5) == 0 ? r.below(3) : r.below(2 * W * U + W + 5);
          if (r.below(40) == 0) n = 4000 / sizeof(T) + r.below(80);
          if (Pol::_assume_matching_size) n = n / W * W;
          if (b + n > cap) break;
          ps.push_back({b, n, r.below(cap - n), r.below(cap - n), int(r.below(12)), 0, 0});
          b += n;
        }
      for (std::size_t i = 0; i < b + 128 and i < cap; ++i) { io[i] = io0[i] = T(r.below(19)); out[i] = T(77); }
      std::size_t hits = 0;
      for (piece& p : ps)
        if (p.op >= 4)
          for (std::size_t i = 0; i < p.n; ++i)
            switch (p.op)
              {
              case 4: p.expect += in1[p.src + i] > T(9); break;
              case 9: p.expect += io0[p.b + i] > T(9); break;
              case 5: p.expect += (unsigned long long)(in1[p.src + i]); break;
              case 10: p.expect += (unsigned long long)(io0[p.b + i]); break;
              case 6: p.expect += in1[p.src + i] + in2[p.src2 + i]; break;
              }
      const auto wrap = [](long long x) { return std::is_floating_point_v<T> ? x : (long long)T(x); };
      for (piece& p : ps) if (p.op == 5 or p.op == 10 or p.op == 6) p.expect = wrap(p.expect);
      // each thread executes its pieces; neighbouring pieces belong to different threads
      const decltype(pol.real()) policy = pol.real();
      together(K, [&](int t) {
        for (std::size_t k = t; k < ps.size(); k += K)
          {
            piece& p = ps[k];
            T* const x = io + p.b; T* const o = out + p.b; const T* const s = in1 + p.src; const T* const s2 = in2 + p.src2;
            switch (p.op)
              {
              case 0: vir::for_each(policy, x, x + p.n, ops.i); break;
              case 1: vir::transform(policy, s, s + p.n, o, ops.u); break;
              case 2: vir::transform(policy, s, s + p.n, s2, o, ops.b); break;
              case 3: vir::for_each(policy, const_cast<T*>(s), const_cast<T*>(s) + p.n, ops.l); break;
              case 4: p.res = vir::count_if(policy, s, s + p.n, ops.p); break;
              case 5: p.res = (long long)vir::reduce(policy, s, s + p.n, T(0)); break;
              case 6: p.res = (long long)vir::transform_reduce(policy, s, s + p.n, s2, T(0), std::plus<>(), ops.b); break;
              case 7: vir::for_each(policy, const_cast<T*>(s), const_cast<T*>(s) + p.n, ops.v); break;
              case 8: vir::transform(policy, x, x + p.n, x, ops.u); break;
              case 9: p.res = vir::count_if(policy, x, x + p.n, ops.p); break;
              case 10: p.res = (long long)vir::reduce(policy, x, x + p.n, T(0)); break;
              case 11: vir::transform(policy, x, x + p.n, o, ops.u); break;
              }
          }
      });
      for (piece& p : ps)
        {
          ++mon::evals;
          if (p.expect != p.res)
            mon::fail("op %d on elements [%zu, %zu): %lld, expected %lld", p.op, p.b, p.b + p.n, p.res, p.expect);
          for (std::size_t i = 0; i < p.n; ++i)
            {
              const T eo = p.op == 1 ? T(in1[p.src + i] + T(3)) : p.op == 2 ? T(in1[p.src + i] + in2[p.src2 + i])
                           : p.op == 11 ? T(io0[p.b + i] + T(3)) : T(77);
              if (io[p.b + i] != model(p.op, io0[p.b + i]))
                { mon::fail("op %d: element %zu of [%zu, %zu) wrong", p.op, i, p.b, p.b + p.n); break; }
              if (out[p.b + i] != eo)
                { mon::fail("op %d: output %zu of [%zu, %zu) wrong", p.op, i, p.b, p.b + p.n); break; }
            }
          hits += p.n;
          shared_reads += p.n;
        }
      mon::nontrivial(b);
    }
}
#endif

#if PART == 1
// ---- simd and mask objects ----------------------------------------------------------------------------------
#ifndef UELTS
#define UELTS int, float
#endif
template <typename V, typename U, typename Fl>
static void stores(Fl fl, const char* fn)
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr std::size_t N = V::size();
  for (int rep = 0; rep < ROUNDS / 3 * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::begin("simd stores", mon::type_name<T>(), N, sizeof(U), rep);
      mon::rng r(rep * 131 + N * 7 + sizeof(T) + mon::hash_str(fn));
      T a[N], b[N]; bool ka[N], kb[N];
      for (std::size_t i = 0; i < N; ++i)
        {
          a[i] = T(1 + r.below(50)); b[i] = T(60 + r.below(50));
          ka[i] = rep % 4 == 0 ? i % 2 : r() & 1; kb[i] = not ka[i];
        }
      constexpr std::size_t al = vir::stdx::memory_alignment_v<V, U> > 64 ? vir::stdx::memory_alignment_v<V, U> : 64;
      alignas(al) U mem[3 * N + 64];
      for (auto& m : mem) m = U(5);
      const V va = make<V>(a), vb = make<V>(b);
      const M ma = make_mask<M>(ka), mb = make_mask<M>(kb);
      (void)ma, (void)mb;
      // 1: whole vectors next to each other (element alignment unless the width permits more)
      together(3, [&](int t) {
        if (t == 0) va.copy_to(mem, stdx::element_aligned);
        else if (t == 1) vb.copy_to(mem + N, stdx::element_aligned);
        else va.copy_to(mem + 2 * N, stdx::element_aligned);
      });
      ++mon::evals;
      for (std::size_t i = 0; i < 3 * N + 64; ++i)
        if (mem[i] != (i < N ? U(a[i]) : i < 2 * N ? U(b[i - N]) : i < 3 * N ? U(a[i - 2 * N]) : U(5)))
          { mon::fail("adjacent stores: element %zu wrong", i); break; }
#if FALLBACK
      // 2: complementary masks into the same object
      together(2, [&](int t) {
        if (t == 0) where(ma, va).copy_to(mem, fl);
        else where(mb, vb).copy_to(mem, fl);
      });
      ++mon::evals;
      for (std::size_t i = 0; i < N; ++i)
        if (mem[i] != (ka[i] ? U(a[i]) : U(b[i])))
          { mon::fail("masked stores with complementary masks: element %zu is %g", i, double(mem[i])); break; }
      // 3: masked load and store while somebody else uses the unselected elements
      V got = V(T(0)), got2 = V(T(0));
      together(3, [&](int t) {
        if (t == 0) { where(ma, got).copy_from(mem, fl); where(ma, vb).copy_to(mem, fl); }
        else if (t == 1) { for (std::size_t i = 0; i < N; ++i) if (kb[i]) { mem[i] = mem[i] + U(1); } }
        else got2.copy_from(mem + N, stdx::element_aligned);
      });
      ++mon::evals;
      for (std::size_t i = 0; i < N; ++i)
        if (T(got[i]) != (ka[i] ? T(U(a[i])) : T(0)) or mem[i] != (ka[i] ? U(b[i]) : U(U(b[i]) + U(1))))
          { mon::fail("masked load/store next to foreign writes: element %zu is %g", i, double(mem[i])); break; }
#endif
      // 4: loads while the neighbours are being written
      V mid = V(T(0));
      together(3, [&](int t) {
        if (t == 0) va.copy_to(mem, stdx::element_aligned);
        else if (t == 1) { mid.copy_from(mem + N, stdx::element_aligned); vb.copy_to(mem + N, stdx::element_aligned); }
        else for (std::size_t i = 2 * N; i < 3 * N + 8; ++i) mem[i] = U(3);
      });
      ++mon::evals;
      for (std::size_t i = 0; i < N; ++i)
        if (T(mid[i]) != T(U(b[i])) or mem[i] != U(a[i]) or mem[N + i] != U(b[i]))
          { mon::fail("load/store between foreign stores: element %zu wrong", i); break; }
      mon::nontrivial();
    }
}

template <typename V>
struct fixture
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  V a, b; M k, l; T s; T arr[V::size()];
};

// digest of everything that can be done with const objects
template <typename V>
static std::uint64_t use_all(const fixture<V>& f)
{
  using T = typename V::value_type;
  constexpr std::size_t N = V::size();
  std::uint64_t h = 0;
  auto put = [&](auto x) { h = mon::mix(h ^ (std::uint64_t)(long long)(x)); };
  auto putv = [&](const auto& v) { for (std::size_t i = 0; i < v.size(); ++i) put(v[i]); };
  putv(f.a + f.b); putv(f.a * f.b); putv(f.b - f.a); putv(+f.a); putv(-f.a);
  putv(f.a == f.b); putv(f.a < f.b); putv(f.a >= f.b); putv(f.k && f.l); putv(f.k || f.l); putv(!f.k); putv(f.k ^ f.l);
  put(all_of(f.k)); put(any_of(f.k)); put(none_of(f.k)); put(some_of(f.k)); put(popcount(f.k));
  if (any_of(f.k)) { put(find_first_set(f.k)); put(find_last_set(f.k)); }
  put(reduce(f.a)); put(hmin(f.a)); put(hmax(f.b)); put(reduce(f.a, [](auto x, auto y) { return x + y; }));
  putv(min(f.a, f.b)); putv(max(f.a, f.b)); putv(clamp(f.a, f.a, f.b));
  T m[N];
  f.a.copy_to(m, stdx::element_aligned); for (T x : m) put(x);
  V v(f.arr, stdx::element_aligned); putv(v); v.copy_from(f.arr, stdx::element_aligned); putv(v);
  bool bm[N]; f.k.copy_to(bm, stdx::element_aligned); for (bool x : bm) put(x);
#if FALLBACK
  put(reduce(where(f.k, f.a), T(0), std::plus<>())); put(hmin(where(f.k, f.a)));
  for (T& x : m) x = T(0);
  where(f.k, f.a).copy_to(m, stdx::element_aligned); for (T x : m) put(x);
  where(f.l, v).copy_from(f.arr, stdx::element_aligned); putv(v);
#endif
  where(f.k, v) = f.b; putv(v); where(f.l, v) += f.b; putv(v);
  putv(vir::cvt(f.a) + f.b);
  if constexpr (N >= 2)
    {
      putv(vir::simd_permute(f.a, vir::simd_permutations::reverse));
      putv(vir::simd_resize<N / 2 + 1>(f.a));
    }
  if constexpr (N <= 64) put(vir::to_bitset(f.k).to_ullong());
  if constexpr (std::is_floating_point_v<T>)
    {
      putv(isfinite(f.a)); putv(sqrt(f.a)); putv(trunc(f.b)); putv(floor(f.a)); putv(abs(f.b)); putv(isnan(f.a));
      putv(fmin(f.a, f.b)); putv(ldexp(f.a, stdx::fixed_size_simd<int, N>(2)));
#if FALLBACK
      putv(sin(f.a)); putv(log(f.b)); putv(hypot(f.a, f.b)); putv(pow(f.a, f.b) - V(1)); putv(fma(f.a, f.b, f.a));
      stdx::fixed_size_simd<int, N> ie; putv(frexp(f.a, &ie)); putv(ie);
#endif
    }
  return h;
}

template <typename V>
static void objects()
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr std::size_t N = V::size();
  ro_pages page(sizeof(fixture<V>));
  for (int rep = 0; rep < ROUNDS / 3 * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::begin("const objects", mon::type_name<T>(), N, rep);
      mon::rng r(rep * 37 + N + sizeof(T) * 3);
      T a[N], b[N]; bool k[N], l[N];
      for (std::size_t i = 0; i < N; ++i)
        { a[i] = T(1 + r.below(10)); b[i] = T(12 + r.below(10)); k[i] = r() & 1; l[i] = r() & 1; }
      page.thaw();
      fixture<V>& f = *new (page.p) fixture<V>{make<V>(a), make<V>(b), make_mask<M>(k), make_mask<M>(l), T(3), {}};
      for (std::size_t i = 0; i < N; ++i) f.arr[i] = b[i];
      page.freeze();
      std::uint64_t h[3] = {};
      together(3, [&](int t) { h[t] = use_all<V>(f); });
      const std::uint64_t expect = use_all<V>(fixture<V>(f));
      ++mon::evals;
      for (int t = 0; t < 3; ++t)
        if (h[t] != expect)
          mon::fail("thread %d observed other results than a single-threaded run on copies", t);
      lanes(f.a, a, "shared object afterwards"); lanes(f.b, b, "shared object afterwards");
      lanes(f.k, k, "shared mask afterwards"); lanes(f.l, l, "shared mask afterwards");
      mon::nontrivial();
    }
}
#endif

#if PART == 2
// ---- structs ------------------------------------------------------------------------------------------------
struct P2 { float x, y; };
template <typename U> struct P3 { U x, y, z; };
struct Mix { double d; short s; float f; };
struct P5 { int a, b, c, d, e; };
static auto tup(const P2& s) { return std::tuple(s.x, s.y); }
template <typename U> static auto tup(const P3<U>& s) { return std::tuple(s.x, s.y, s.z); }
static auto tup(const Mix& s) { return std::tuple(s.d, s.s, s.f); }
static auto tup(const P5& s) { return std::tuple(s.a, s.b, s.c, s.d, s.e); }
template <typename U, typename V> static auto tup(const std::pair<U, V>& s) { return s; }
template <typename... U> static auto tup(const std::tuple<U...>& s) { return s; }
template <typename S> static S val(int i);
template <> P2 val<P2>(int i) { return {float(i), float(i + 1)}; }
template <> P3<float> val<P3<float>>(int i) { return {float(i), float(i + 1), float(i + 2)}; }
template <> P3<short> val<P3<short>>(int i) { return {short(i), short(i + 1), short(i + 2)}; }
template <> Mix val<Mix>(int i) { return {double(i), short(i + 1), float(i + 2)}; }
template <> P5 val<P5>(int i) { return {i, i + 1, i + 2, i + 3, i + 4}; }
template <> std::pair<int, float> val<std::pair<int, float>>(int i) { return {i, float(i + 1)}; }
template <> std::tuple<double, double> val<std::tuple<double, double>>(int i) { return {i, i + 1}; }

template <typename S, int N>
static void struct_objects(const char* sn)
{
  using V = vir::simdize<S, N>;
  constexpr std::size_t W = V::size();
  ro_pages page(sizeof(V) + 64 + sizeof(S) * W * 2);
  for (int rep = 0; rep < ROUNDS / 3 * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::begin("struct stores", sn, W, rep);
      mon::rng r(rep * 31 + N);
      page.thaw();
      S* const src = reinterpret_cast<S*>(page.p + (sizeof(V) + 63) / 64 * 64);
      for (std::size_t i = 0; i < 2 * W; ++i) new (src + i) S(val<S>(int(r.below(900))));
      const V& v = *new (page.p) V(src, stdx::element_aligned);
      page.freeze();
      const std::size_t off = r.below(5);
      std::vector<S> mem(3 * W + 10, val<S>(0));
      V got[3] = {v, v, v};
      together(3, [&](int t) {
        got[t].copy_from(src + t * (W / 2), stdx::element_aligned); // overlapping, read-only
        if (t == 0) v.copy_to(mem.data() + off, stdx::element_aligned);
        else if (t == 1) { got[1].copy_to(mem.data() + off + W, stdx::element_aligned); got[1].copy_from(mem.data() + off + W, stdx::element_aligned); }
        else v.copy_to(mem.data() + off + 2 * W, stdx::element_aligned);
      });
      mon::evals += 2;
      for (std::size_t i = 0; i < mem.size(); ++i)
        {
          const S e = i < off or i >= off + 3 * W ? val<S>(0) : i < off + W ? src[i - off] : i < off + 2 * W ? src[i - off - W + W / 2]
                      : src[i - off - 2 * W];
          if (tup(mem[i]) != tup(e)) { mon::fail("adjacent struct stores: element %zu wrong", i); break; }
        }
      for (int t = 0; t < 3; ++t)
        for (std::size_t i = 0; i < W; ++i)
          if (tup(S(got[t][i])) != tup(src[t * (W / 2) + i])) { mon::fail("shared struct input: lane %zu of thread %d wrong", i, t); break; }
      for (std::size_t i = 0; i < W; ++i)
        if (tup(S(v[i])) != tup(src[i])) { mon::fail("shared const struct of simd changed: lane %zu", i); break; }
      mon::nontrivial();
    }
}

template <typename S, typename Pol>
static void struct_algos(Pol pol, const char* sn, const char* name)
{
  constexpr std::size_t W = vir::simdize<S, Pol::_size>::size();
  const std::size_t cap = 1200;
  ro_pages page(sizeof(S) * cap);
  S* const in = reinterpret_cast<S*>(page.p);
  for (std::size_t i = 0; i < cap; ++i) new (in + i) S(val<S>(int(i % 700)));
  page.freeze();
  for (int rep = 0; rep < ROUNDS / 4 * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::begin(sn, name, rep);
      mon::rng r(rep * 31 + mon::hash_str(name) + mon::hash_str(sn));
      std::vector<S> io(cap), out(cap, val<S>(0));
      for (std::size_t i = 0; i < cap; ++i) io[i] = val<S>(int(r.below(900)));
      const std::vector<S> io0 = io;
      struct piece { std::size_t b, n, src; int op, res, expect; };
      std::vector<piece> ps;
      for (std::size_t b = r.below(9), k = 0; k < 8; ++k)
        {
          std::size_t n = r.below(3 * W + 3);
          if (Pol::_assume_matching_size) n = n / W * W;
          if (b + n > cap) break;
          piece p{b, n, r.below(cap - n), int(r.below(5)), 0, 0};
          if (p.op == 3) for (std::size_t i = 0; i < n; ++i) p.expect += std::get<0>(tup(in[p.src + i])) > 300;
          if (p.op == 4) for (std::size_t i = 0; i < n; ++i) p.expect += std::get<0>(tup(io0[b + i])) > 300;
          ps.push_back(p);
          b += n;
        }
      const auto ident = [](const auto& s) { return s; };
      together(3, [&](int t) {
        for (std::size_t k = t; k < ps.size(); k += 3)
          {
            piece& p = ps[k];
            switch (p.op)
              {
              case 0: vir::for_each(pol.real(), io.data() + p.b, io.data() + p.b + p.n, [](auto&... s) { ((get<0>(s) += 1), ...); }); break;
              case 1: vir::transform(pol.real(), in + p.src, in + p.src + p.n, out.data() + p.b, ident); break;
              case 2: vir::for_each(pol.real(), in + p.src, in + p.src + p.n, [](const auto&...) {}); break;
              case 3: p.res = vir::count_if(pol.real(), in + p.src, in + p.src + p.n, [](const auto& s) { return get<0>(s) > 300; }); break;
              case 4: p.res = vir::count_if(pol.real(), io.data() + p.b, io.data() + p.b + p.n, [](const auto& s) { return get<0>(s) > 300; }); break;
              }
          }
      });
      for (piece& p : ps)
        {
          ++mon::evals;
          if (p.res != p.expect) mon::fail("count_if of [%zu, %zu) is %d, expected %d", p.b, p.b + p.n, p.res, p.expect);
          for (std::size_t i = 0; i < p.n; ++i)
            {
              auto e = tup(io0[p.b + i]);
              if (p.op == 0) std::get<0>(e) += 1;
              if (tup(io[p.b + i]) != e or tup(out[p.b + i]) != tup(p.op == 1 ? in[p.src + i] : val<S>(0)))
                { mon::fail("op %d: element %zu of [%zu, %zu) wrong", p.op, i, p.b, p.b + p.n); break; }
            }
        }
      mon::nontrivial();
    }
}
#endif

#if PART == 3
// ---- lost updates (no sanitizer) ---------------------------------------------------------------------------
#include <vir/simd_execution.h>
namespace ex = vir::execution;
#ifndef ELT
#define ELT int
#endif
using T = ELT;
struct Q3 { T x, y, z; };

// `body` runs in this thread while another one keeps incrementing the words listed in `foreign`
template <typename W, typename F>
static void lost(const char* what, const char* name, std::vector<W*> foreign, int calls, F&& body)
{
  mon::begin(what, name, calls);
  std::sort(foreign.begin(), foreign.end());
  foreign.erase(std::unique(foreign.begin(), foreign.end()), foreign.end());
  for (W* p : foreign) *p = W(0);
  std::atomic<bool> stop{false}, started{false};
  unsigned long long n = 0;
  std::thread other([&] {
    while (not stop.load(std::memory_order_relaxed))
      {
        for (W* p : foreign) { volatile W* q = p; *q = W(*q + W(1)); }
        ++n;
        started.store(true, std::memory_order_relaxed);
        // short enough that every value stays exactly representable
        if (n % 250 == 0) for (W* p : foreign) if (W(*p) != W(n % 250 ? n % 250 : 250)) { stop = true; break; } else { volatile W* q = p; *q = W(0); }
      }
  });
  while (not started.load()) {}
  W last = *static_cast<volatile W*>(foreign[0]);
  for (int i = 0; i < calls and not stop.load(std::memory_order_relaxed); ++i)
    {
      body();
      if (const W now = *static_cast<volatile W*>(foreign[0]); now != last) { ++overlaps; last = now; }
    }
  const bool bad = stop.load();
  stop = true;
  other.join();
  mon::events += n;
  ++mon::evals;
  const unsigned left = n % 250;
  if (bad) return mon::fail("an element owned by another thread lost an update");
  for (W* p : foreign)
    if (*p != W(left)) return mon::fail("an element owned by another thread lost an update");
  mon::nontrivial();
}

static void lost_updates()
{
  constexpr int L = 400;
  static T* const io = static_cast<T*>(std::aligned_alloc(64, 4096 * sizeof(T)));
  static T in[L + 64];
  for (int i = 0; i < L + 64; ++i) in[i] = T(i % 17);
  const int calls = mon::thorough ? 60000 : 6000;
  auto algos = [&](auto pol, const char* name) {
    constexpr int w = vir::simdize<T, decltype(pol)::_size>::size();
    mon::rng r(mon::hash_str(name));
    for (int k = 0; k < 6; ++k)
      {
        const int off = 1 + r.below(9);
        int n = 1 + r.below(3 * w + 9);
        if (decltype(pol)::_assume_matching_size) n = (n + w - 1) / w * w;
        std::vector<T*> f{io + off - 1, io + off + n, io + off + n + 1, io + off + n + 3};
        lost("for_each", name, f, calls, [&] { vir::for_each(pol, io + off, io + off + n, [](auto&... x) { ((x = x + T(1)), ...); }); });
        lost("transform", name, f, calls, [&] { vir::transform(pol, in, in + n, io + off, [](auto x) { return x + T(1); }); });
        std::vector<T*> own{io + off, io + off + n / 2, io + off + n - 1};
        lost("for_each const&", name, own, calls, [&] { vir::for_each(pol, io + off, io + off + n, [](const auto&...) {}); });
        lost("for_each by value", name, own, calls, [&] { vir::for_each(pol, io + off, io + off + n, [](auto... x) { ((x += T(1)), ...); }); });
        lost("count_if", name, own, calls, [&] { (void)vir::count_if(pol, io + off, io + off + n, [](auto x) { return x > T(3); }); });
      }
  };
#define A(p) algos(p, #p)
  A(ex::simd); A(ex::simd.prefer_aligned()); A(ex::simd.unroll_by<3>()); A(ex::simd.prefer_size<3>());
  A(ex::simd.assume_matching_size()); A(ex::simd.auto_prologue().unroll_by<2>()); A(ex::simd.prefer_size<8>().prefer_aligned());
#if FALLBACK
  [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
    ([&] {
      using V = stdx::fixed_size_simd<T, Ns>;
      using M = typename V::mask_type;
      const V v([](int i) { return T(i + 1); });
      for (int k = 0; k < 4; ++k)
        {
          M m(false); std::vector<T*> f;
          for (int i = 0; i < Ns; ++i) { m[i] = ((i * 7 + k) >> (k & 1)) & 1; if (not m[i] and f.size() < 4) f.push_back(io + i); }
          f.push_back(io + Ns);
          lost("where(k, v).copy_to", "", f, calls, [&] { where(m, v).copy_to(io, stdx::element_aligned); });
        }
    }(), ...);
  }(std::integer_sequence<int, 2, 3, 4, 7, 8, 16>());
#endif
  static Q3 st[200];
  [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
    ([&] {
      using V = vir::simdize<Q3, Ns>;
      V v(st + 100, stdx::element_aligned);
      for (int off : {1, 2, 5})
        lost("struct copy_to", "", std::vector<T*>{&st[off - 1].x, &st[off - 1].z, &st[off + Ns].x, &st[off + Ns].y}, calls,
             [&] { v.copy_to(st + off, stdx::element_aligned); });
    }(), ...);
  }(std::integer_sequence<int, 1, 2, 3, 4, 8>());
}
#endif

int main(int argc, char** argv)
{
  mon::init(argc, argv);
#if PART == 0
  for_all_policies([](auto pol, const char* name) { algos(pol, name); });
#elif PART == 1
  for_all_types([](auto t) {
    using E = typename decltype(t)::t;
    for_all_simds<E>([](auto v) {
      using V = typename decltype(v)::t;
      objects<V>();
      stores<V, E>(stdx::element_aligned, "element_aligned");
      tlist<UELTS>::each([](auto u) {
        using U = typename decltype(u)::t;
        stores<V, U>(stdx::element_aligned, "element_aligned");
        stores<V, U>(stdx::overaligned<sizeof(U)>, "overaligned");
      });
      stores<V, E>(stdx::vector_aligned, "vector_aligned");
    });
  });
#elif PART == 2
  struct_objects<P2, 4>("P2"); struct_objects<P2, 8>("P2"); struct_objects<P3<float>, 4>("P3"); struct_objects<P3<float>, 8>("P3");
  struct_objects<P3<short>, 8>("P3s"); struct_objects<Mix, 4>("Mix"); struct_objects<P5, 4>("P5");
  struct_objects<std::pair<int, float>, 4>("pair"); struct_objects<std::tuple<double, double>, 2>("tuple");
  for_all_policies([](auto pol, const char* name) {
    struct_algos<P2>(pol, "P2", name); struct_algos<P3<float>>(pol, "P3", name); struct_algos<Mix>(pol, "Mix", name);
  });
#elif PART == 3
  lost_updates();
#endif
  std::printf("STAT concurrent_phases=%llu\n", (unsigned long long)overlaps);
  return mon::finish();
}
