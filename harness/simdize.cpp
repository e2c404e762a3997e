// C09 monitor: simdized structs. Every leaf member of every struct loaded, stored, broadcast,
// subscripted or converted is compared with the plain struct; memory around the accessed structs is
// guarded.
#include <vir/simdize.h>
#include "fb.h"
#include <array>
#include <span>
#include <tuple>

#ifndef REPS
#define REPS 6
#endif
#ifndef KIND
#define KIND 0
#endif

template <typename T> struct P1 { T a; };
#define OPS(S, ...) \
  friend constexpr S operator+(const S& x, const S& y) { return S::zip(x, y, [](auto p, auto q) { return decltype(p)(p + q); }); } \
  friend constexpr S operator-(const S& x, const S& y) { return S::zip(x, y, [](auto p, auto q) { return decltype(p)(p - q); }); } \
  friend constexpr auto operator==(const S& x, const S& y) { return x.a == y.a; } \
  friend constexpr auto operator!=(const S& x, const S& y) { return x.a != y.a; } \
  friend constexpr auto operator<(const S& x, const S& y) { return x.b < y.a; } \
  friend constexpr auto operator<=(const S& x, const S& y) { return x.b <= y.a; } \
  friend constexpr auto operator>(const S& x, const S& y) { return x.b > y.a; } \
  friend constexpr auto operator>=(const S& x, const S& y) { return x.b >= y.a; }
template <typename T> struct P2 {
  T a, b;
  template <class F> static constexpr P2 zip(const P2& x, const P2& y, F f) { return {f(x.a, y.a), f(x.b, y.b)}; }
  OPS(P2)
};
template <typename T> struct P3 {
  T a, b, c;
  template <class F> static constexpr P3 zip(const P3& x, const P3& y, F f) { return {f(x.a, y.a), f(x.b, y.b), f(x.c, y.c)}; }
  OPS(P3)
};
template <typename T> struct P4 { T a, b, c, d; };
template <typename T> struct P5 { T a, b, c, d, e; };
template <typename A, typename B> struct M2 { A a; B b; };
template <typename A, typename B, typename C> struct M3 { A a; B b; C c; };
template <typename T> struct Rev3 { T c, b, a; }; // same layout, declaration order matters
template <typename T> struct base_empty {};
template <typename T> struct alignas(std::bit_ceil(4 * sizeof(T))) A2 { T a, b; }; // padding between the structs, and in
template <typename T> struct alignas(std::bit_ceil(4 * sizeof(T))) A3 { T a, b, c; }; // structs of simds as well
template <typename T> struct alignas(std::bit_ceil(8 * sizeof(T))) A4 { T a, b, c, d; };
struct alignas(16) AF3 { float x, y, z; };
struct F2 { float x, y; };
struct D3 { double x, y, z; };
struct Mix { double d; short s; int i; unsigned char c; };
struct Mix2 { short s; double d; };
struct One { int i; };
struct Big { float a, b, c, d, e, f, g, h; };
template <typename T, auto X> struct Tag2 { T a, b; static constexpr auto x = X; };
struct Nest { F2 p; int k; double q; };

template <typename T> auto tie_of(P1<T>& s) { return std::tie(s.a); }
template <typename T> auto tie_of(P2<T>& s) { return std::tie(s.a, s.b); }
template <typename T> auto tie_of(P3<T>& s) { return std::tie(s.a, s.b, s.c); }
template <typename T> auto tie_of(Rev3<T>& s) { return std::tie(s.c, s.b, s.a); }
template <typename T> auto tie_of(P4<T>& s) { return std::tie(s.a, s.b, s.c, s.d); }
template <typename T> auto tie_of(P5<T>& s) { return std::tie(s.a, s.b, s.c, s.d, s.e); }
template <typename A, typename B> auto tie_of(M2<A, B>& s) { return std::tie(s.a, s.b); }
template <typename A, typename B, typename C> auto tie_of(M3<A, B, C>& s) { return std::tie(s.a, s.b, s.c); }
template <typename T, auto X> auto tie_of(Tag2<T, X>& s) { return std::tie(s.a, s.b); }
template <typename T> auto tie_of(A2<T>& s) { return std::tie(s.a, s.b); }
template <typename T> auto tie_of(A3<T>& s) { return std::tie(s.a, s.b, s.c); }
template <typename T> auto tie_of(A4<T>& s) { return std::tie(s.a, s.b, s.c, s.d); }
auto tie_of(AF3& s) { return std::tie(s.x, s.y, s.z); }
auto tie_of(F2& s) { return std::tie(s.x, s.y); }
auto tie_of(D3& s) { return std::tie(s.x, s.y, s.z); }
auto tie_of(Mix& s) { return std::tie(s.d, s.s, s.i, s.c); }
auto tie_of(Mix2& s) { return std::tie(s.s, s.d); }
auto tie_of(One& s) { return std::tie(s.i); }
auto tie_of(Big& s) { return std::tie(s.a, s.b, s.c, s.d, s.e, s.f, s.g, s.h); }
auto tie_of(Nest& s) { return std::tie(s.p.x, s.p.y, s.k, s.q); }
template <typename A, typename B> auto tie_of(std::pair<A, B>& s) { return std::tie(s.first, s.second); }
template <typename... Ts> auto tie_of(std::tuple<Ts...>& s)
{ return std::apply([](auto&... x) { return std::tie(x...); }, s); }
template <typename T> auto tie_of(std::array<T, 2>& s) { return std::tie(s[0], s[1]); }
template <typename T> auto tie_of(std::array<T, 3>& s) { return std::tie(s[0], s[1], s[2]); }

// the struct template instantiated for simd types
template <typename S, int N> struct base_of_;
template <template <typename> class Tpl, typename T, int N>
struct base_of_<Tpl<T>, N> { using type = Tpl<vir::simdize<T, N>>; };
template <typename S, int N> using base_of = typename base_of_<S, N>::type;

template <typename S> struct is_nested : std::false_type {};
template <> struct is_nested<Nest> : std::true_type {};

template <typename S, typename F>
void each_leaf(S& s, F&& f)
{ std::apply([&](auto&... x) { (f(x), ...); }, tie_of(s)); }

template <typename S> constexpr std::size_t leaves = std::tuple_size_v<decltype(tie_of(std::declval<S&>()))>;

template <typename S>
bool eq(S& x, S& y, int* which)
{
  return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
    auto a = tie_of(x); auto b = tie_of(y);
    bool ok = true;
    ((ok and not mon::same(std::get<Is>(a), std::get<Is>(b)) ? (void)(ok = false, *which = Is) : void()), ...);
    mon::events += sizeof...(Is);
    return ok;
  }(std::make_index_sequence<leaves<S>>());
}

template <typename S>
double leaf(S& s, int w)
{ double r = 0; int k = 0; each_leaf(s, [&](auto& x) { if (k++ == w) r = double(x); }); return r; }

template <typename S>
S random_struct(mon::rng& r, int i)
{
  S s{};
  int k = 0;
  each_leaf(s, [&](auto& x) {
    using T = std::remove_reference_t<decltype(x)>;
    x = r.below(4) ? T(1 + i * int(leaves<S>) + k) : any_value<T>(r);
    ++k;
  });
  return s;
}

template <typename S, typename V>
void check_lanes(const V& v, std::vector<S>& ref, const char* what)
{
  constexpr int N = V::size();
  ++mon::evals;
  for (int i = 0; i < N; ++i)
    {
      S got = v[i];
      int w = -1;
      if (not eq(got, ref[i], &w))
        return mon::fail("%s: operator[](%d) member %d is %g, expected %g", what, i, w, leaf(got, w), leaf(ref[i], w));
    }
  if constexpr (not is_nested<S>::value)
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      auto one = [&](auto I) {
        const auto& x = get<I()>(v);
        static_assert(std::tuple_size<V>::value == sizeof...(Is));
        static_assert(std::is_same_v<std::remove_cvref_t<decltype(x)>, std::remove_cvref_t<std::tuple_element_t<I(), V>>>);
        for (int i = 0; i < N; ++i)
          {
            ++mon::events;
            if (not mon::same(std::get<I()>(tie_of(ref[i])), std::remove_cvref_t<decltype(std::get<I()>(tie_of(ref[i])))>(x[i])))
              return mon::fail("%s: lane %d of member %d differs", what, i, int(I()));
          }
      };
      (one(std::integral_constant<std::size_t, Is>()), ...);
    }(std::make_index_sequence<leaves<S>>());
}

template <typename S, int N>
void run(const char* sname)
{
  using V = vir::simdize<S, N>;
  mon::rng r(mon::hash_str(sname) ^ N);
  if (int(V::size()) != N or int(vir::simdize_size_v<V>) != N)
    {
      mon::begin("size", sname, N);
      mon::fail("size() is %d, simdize_size_v is %d", int(V::size()), int(vir::simdize_size_v<V>));
    }
  static_assert(std::is_same_v<typename V::value_type, S>);
  mon::arena ar(sizeof(S) * N + 1024);
  for (int rep = 0; rep < REPS * (mon::thorough ? 10 : 1); ++rep)
    {
      std::vector<S> ref(N), other(N);
      for (int i = 0; i < N; ++i) ref[i] = random_struct<S>(r, i), other[i] = random_struct<S>(r, i + 7);
      const bool at_end = rep & 1;
      const std::size_t mis = alignof(S) * r.below(128 / alignof(S));

      // broadcast
      {
        mon::begin("broadcast", sname, N, rep);
        mon::nontrivial();
        S s = ref[0];
        V v(s);
        std::vector<S> b(N, s);
        check_lanes<S>(v, b, "broadcast");
      }
      if constexpr (not is_nested<S>::value)
        {
          // load constructor and copy_from, all flags
          auto load = [&](auto flag, const char* fn, bool ctor) {
            mon::begin(ctor ? "load ctor" : "copy_from", sname, N, rep, fn[0], mis, at_end);
            mon::nontrivial();
            S* p = static_cast<S*>(ar.place(sizeof(S) * N, mis, at_end));
            for (int i = 0; i < N; ++i) new (p + i) S(ref[i]);
            ar.arm();
            const S* cp = p;
            if (ctor)
              {
                V v(cp, flag);
                ar.unpoison();
                check_lanes<S>(v, ref, "load constructor");
              }
            else
              {
                V v(other[0]);
                v.copy_from(p, flag);
                ar.unpoison();
                check_lanes<S>(v, ref, "copy_from");
              }
            for (int i = 0; i < N; ++i) if (int w; not eq(p[i], ref[i], &w)) mon::fail("load modified memory");
            if (ar.check() != mon::arena::intact) mon::fail("load modified memory outside of the range");
          };
          for (bool ctor : {true, false})
            {
              load(stdx::element_aligned, "e", ctor);
              if (rep < 2) { load(stdx::vector_aligned, "v", ctor); load(stdx::overaligned<alignof(S)>, "o", ctor); }
            }
          // from iterators
          if (rep == 0)
            {
              mon::begin("load iterator", sname, N);
              V v(ref.begin());
              check_lanes<S>(v, ref, "load ctor from vector::iterator");
              v.copy_from(other.cbegin());
              check_lanes<S>(v, other, "copy_from vector::const_iterator");
            }
        }
      // a simdized object holding ref
      V v = [&] {
        if constexpr (is_nested<S>::value)
          {
            return V(vir::simdize<F2, N>(stdx::simd<float, typename std::tuple_element_t<0, vir::simdize<F2, N>>::abi_type>([&](auto i) { return ref[i].p.x; }),
                                         std::tuple_element_t<1, vir::simdize<F2, N>>([&](auto i) { return ref[i].p.y; })),
                     std::tuple_element_t<1, V>([&](auto i) { return ref[i].k; }),
                     std::tuple_element_t<2, V>([&](auto i) { return ref[i].q; }));
          }
        else
          return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            return V(std::remove_cvref_t<std::tuple_element_t<Is, V>>([&](auto i) {
                       return std::get<Is>(tie_of(ref[i]));
                     })...);
          }(std::make_index_sequence<leaves<S>>());
      }();
      mon::begin("member ctor", sname, N, rep);
      mon::nontrivial();
      check_lanes<S>(v, ref, "constructor from members");
      // copies
      {
        V w = v;
        check_lanes<S>(w, ref, "copy");
        w = V(other[0]);
        std::vector<S> b(N, other[0]);
        check_lanes<S>(w, b, "assignment");
      }
      // store
      auto store = [&](auto flag, const char* fn, std::size_t m) {
        mon::begin("copy_to", sname, N, rep, fn[0], m, at_end);
        mon::nontrivial();
        S* p = static_cast<S*>(ar.place(sizeof(S) * N, m, at_end));
        for (int i = 0; i < N; ++i) new (p + i) S(other[i]);
        ar.arm();
        v.copy_to(p, flag);
        ++mon::evals;
        for (int i = 0; i < N; ++i)
          if (int w = -1; not eq(p[i], ref[i], &w))
            {
              mon::fail("copy_to: element %d member %d is %g, expected %g", i, w, leaf(p[i], w), leaf(ref[i], w));
              break;
            }
        if (long long o = ar.check(); o != mon::arena::intact)
          mon::fail("copy_to modified the byte at offset %lld relative to the range", o);
      };
      store(stdx::element_aligned, "e", mis);
      if (rep < 2)
        {
          store(stdx::vector_aligned, "v", alignof(S) * r.below(128 / alignof(S)));
          store(stdx::overaligned<alignof(S)>, "o", mis);
          std::vector<S> dst(other);
          v.copy_to(dst.begin());
          for (int i = 0; i < N; ++i) if (int w = -1; not eq(dst[i], ref[i], &w)) mon::fail("copy_to(vector::iterator) element %d", i);
        }
      // get<I> refers to the member
      if constexpr (not is_nested<S>::value)
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
          auto one = [&](auto I) {
            mon::begin("get assign", sname, N, rep, I());
            V w = v;
            std::vector<S> exp = ref;
            get<I()>(w) = std::remove_cvref_t<std::tuple_element_t<I(), V>>([&](auto i) { return std::get<I()>(tie_of(other[i])); });
            for (int i = 0; i < N; ++i) std::get<I()>(tie_of(exp[i])) = std::get<I()>(tie_of(other[i]));
            check_lanes<S>(w, exp, "assignment through get<I>");
          };
          (one(std::integral_constant<std::size_t, Is>()), ...);
        }(std::make_index_sequence<leaves<S>>());
      // conversion of simd_tuple to a struct of simds and back
      if constexpr (not is_nested<S>::value and requires { v.as_tuple(); })
        {
          mon::begin("conversion", sname, N, rep);
          auto conv = [&]<typename... Ts>(const std::tuple<Ts...>&) {
            std::tuple<Ts...> t = v;
            V w = t;
            check_lanes<S>(w, ref, "conversion to a tuple of simds and back");
          };
          conv(v.as_tuple());
        }
      // operators of vectorized structs, mixed with broadcasts and the base type
      if constexpr (requires { v + v; })
        {
          auto arith = [&](const char* nm, auto op) {
            V w = v;
            for (int i = 0; i < N; ++i) each_leaf(ref[i], [&](auto& x) { x = std::remove_reference_t<decltype(x)>(1 + (i * 7 + rep) % 50); });
            [&]<std::size_t... Is>(std::index_sequence<Is...>) {
              ((get<Is>(w) = std::remove_cvref_t<std::tuple_element_t<Is, V>>([&](auto i) { return std::get<Is>(tie_of(ref[i])); })), ...);
            }(std::make_index_sequence<leaves<S>>());
            S s = ref[N / 2];
            mon::begin(nm, sname, N, rep);
            mon::nontrivial();
            std::vector<S> e(N);
            const base_of<S, N> base(w);
            for (int i = 0; i < N; ++i) e[i] = op(ref[i], ref[i]);
            static_assert(std::is_same_v<decltype(op(w, w)), V>);
            check_lanes<S>(op(w, w), e, "vectorized op vectorized");
            check_lanes<S>(V(op(w, base)), e, "vectorized op base");
            check_lanes<S>(V(op(base, w)), e, "base op vectorized");
            for (int i = 0; i < N; ++i) e[i] = op(ref[i], s);
            check_lanes<S>(op(w, V(s)), e, "vectorized op broadcast");
            check_lanes<S>(op(w, s), e, "vectorized op struct");
            for (int i = 0; i < N; ++i) e[i] = op(s, ref[i]);
            check_lanes<S>(op(s, w), e, "struct op vectorized");
          };
          auto saved = ref;
          arith("+", [](const auto& a, const auto& b) { return a + b; });
          arith("-", [](const auto& a, const auto& b) { return a - b; });
          ref = saved;
          auto cmp = [&](const char* nm, auto op) {
            mon::begin(nm, sname, N, rep);
            mon::nontrivial();
            ++mon::evals;
            V w = v;
            get<0>(w) = std::remove_cvref_t<std::tuple_element_t<0, V>>([&](auto i) { return std::get<0>(tie_of(other[i])); });
            auto ow = [&](int i) { S x = ref[i]; std::get<0>(tie_of(x)) = std::get<0>(tie_of(other[i])); return x; };
            auto m = op(v, w);
            auto m2 = op(w, ref[0]);
            for (int i = 0; i < N; ++i)
              {
                ++mon::events;
                if (bool(m[i]) != bool(op(ref[i], ow(i)))) { mon::fail("comparison lane %d", i); break; }
                if (bool(m2[i]) != bool(op(ow(i), ref[0]))) { mon::fail("comparison with struct lane %d", i); break; }
              }
          };
          cmp("==", [](const auto& a, const auto& b) { return a == b; });
          cmp("!=", [](const auto& a, const auto& b) { return a != b; });
          cmp("<", [](const auto& a, const auto& b) { return a < b; });
          cmp("<=", [](const auto& a, const auto& b) { return a <= b; });
          cmp(">", [](const auto& a, const auto& b) { return a > b; });
          cmp(">=", [](const auto& a, const auto& b) { return a >= b; });
        }
    }
}

template <typename S, int... Ns>
void all(const char* n, std::integer_sequence<int, Ns...>)
{ (run<S, Ns>(n), ...); }

#define GO(...) all<__VA_ARGS__>(#__VA_ARGS__, std::integer_sequence<int, NS>());

int main(int argc, char** argv)
{
  mon::init(argc, argv);
#if KIND == 0
  GO(P2<float>) GO(P3<float>)
#elif KIND == 1
  GO(P2<int>) GO(P3<double>) GO(P3<short>)
#elif KIND == 2
  GO(P1<float>) GO(P4<int>) GO(P5<float>) GO(Rev3<float>)
#elif KIND == 3
  GO(F2) GO(D3) GO(Mix) GO(Nest)
#elif KIND == 4
  GO(std::pair<float, int>) GO(std::tuple<float, float>) GO(std::tuple<float, float, float>) GO(std::pair<double, short>)
#elif KIND == 5
  GO(std::array<float, 2>) GO(std::array<int, 3>) GO(M2<float, unsigned>) GO(M3<int, float, unsigned>)
#elif KIND == 6
  GO(M2<double, short>) GO(M3<short, unsigned short, short>) GO(Mix2) GO(One) GO(Tag2<double, 3>)
#elif KIND == 7
  GO(P2<double>) GO(P3<long long>) GO(P2<unsigned char>) GO(P3<signed char>)
#elif KIND == 8
  GO(Big) GO(std::tuple<short, short, short>) GO(std::tuple<int, double, float, char>) GO(std::pair<int, int>)
#elif KIND == 9
  GO(P2<unsigned short>) GO(P3<int>) GO(P3<unsigned>)
#elif KIND == 10
  GO(A2<float>) GO(A3<float>) GO(AF3)
#elif KIND == 11
  GO(A2<int>) GO(A3<short>) GO(A3<double>) GO(A4<float>)
#endif
  return mon::finish();
}
