// C11 monitor: struct reflection. Addresses, constness, types and values seen through vir::struct_get & co are
// compared with direct member access.
#include <vir/struct_reflect.h>
#include "mon.h"
#include <array>
#include <string>
#include <tuple>
#include <utility>

#ifndef VAR
#define VAR 0
#endif
#ifndef PART
#define PART 0
#endif

template <typename S> struct members;
#include "reflect_structs.h"

// hand-written special cases
struct base_with_members { int m0; double m1; };
struct derived_only : base_with_members {};
struct with_array { int m0[3]; float m1; char m2[2][2]; };
struct inner { float a; int b; };
struct with_nested { inner m0; char m1; inner m2; };
struct with_string { std::string m0; int m1; std::string m2; };
struct with_ptrs { const char* m0; int (*m1)(int); const int* m2; };
struct overaligned { alignas(64) char m0; short m1; alignas(16) float m2; };
#define MEM(S, N, ...) template <> struct members<S> { static constexpr int n = N; static auto tie(auto& s) { return std::tie(__VA_ARGS__); } }
MEM(derived_only, 2, s.m0, s.m1);
MEM(with_array, 3, s.m0, s.m1, s.m2);
MEM(with_nested, 3, s.m0, s.m1, s.m2);
MEM(with_string, 3, s.m0, s.m1, s.m2);
MEM(with_ptrs, 3, s.m0, s.m1, s.m2);
MEM(overaligned, 3, s.m0, s.m1, s.m2);
template <typename A, typename B> struct members<std::pair<A, B>>
{ static constexpr int n = 2; static auto tie(auto& s) { return std::tie(s.first, s.second); } };
template <typename... Ts> struct members<std::tuple<Ts...>>
{
  static constexpr int n = sizeof...(Ts);
  static auto tie(auto& s) { return std::apply([](auto&... x) { return std::tie(x...); }, s); }
};
template <typename T> struct members<std::array<T, 4>>
{ static constexpr int n = 4; static auto tie(auto& s) { return std::tie(s[0], s[1], s[2], s[3]); } };

template <typename T>
void assign(T& x, mon::rng& r)
{
  if constexpr (std::is_array_v<T>)
    for (auto& e : x) assign(e, r);
  else if constexpr (std::is_same_v<T, inner>)
    x = {float(r.below(1000)), int(r.below(1000))};
  else if constexpr (std::is_same_v<T, std::string>)
    x = std::string(r.below(40), char('a' + r.below(26)));
  else if constexpr (std::is_same_v<T, bool>)
    x = r.below(2);
  else if constexpr (std::is_pointer_v<T>)
    { if constexpr (std::is_function_v<std::remove_pointer_t<T>>) x = nullptr; else x = (T)(std::uintptr_t)(r.below(1 << 20) * 8); }
  else
    x = T(1 + r.below(120));
}

template <typename T>
bool eq(const T& a, const T& b)
{
  if constexpr (std::is_array_v<T>)
    { for (std::size_t i = 0; i < std::extent_v<T>; ++i) if (not eq(a[i], b[i])) return false; return true; }
  else if constexpr (std::is_same_v<T, inner>)
    return a.a == b.a and a.b == b.b;
  else
    return a == b;
}

template <typename A, typename B>
bool all_eq(const A& a, const B& b)
{
  return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
    mon::events += sizeof...(Is);
    return (eq(std::get<Is>(a), std::get<Is>(b)) and ...);
  }(std::make_index_sequence<std::tuple_size_v<A>>());
}

#define CHECK(c, ...) (++mon::evals, (c) ? void() : mon::fail(__VA_ARGS__))

template <typename Tup> struct has_array;
template <typename... Ts> struct has_array<std::tuple<Ts...>> : std::bool_constant<(std::is_array_v<std::remove_reference_t<Ts>> or ...)> {};

template <typename S>
void run(const char* name)
{
  constexpr int N = members<S>::n;
  mon::rng r(mon::hash_str(name));
  mon::begin("reflect", name, N);
  mon::nontrivial();
  // volatile copy: reported as a violation, not as a compile error
  CHECK(int(vir::struct_size_v<S>) == N, "struct_size_v is %d, there are %d members", int(vir::struct_size_v<S>), N);
  static_assert(vir::reflectable_struct<S>);
  if constexpr (vir::struct_size_v<S> == N)
    {
      S s{};
      const S& cs = s;
      auto tie = members<S>::tie(s);
      auto ctie = members<S>::tie(cs);
      using Refs = std::remove_cvref_t<decltype(members<S>::tie(std::declval<S&>()))>;
      using CRefs = std::remove_cvref_t<decltype(members<S>::tie(std::declval<const S&>()))>;
      [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        auto fill = [&] { (assign(std::get<Is>(tie), r), ...); };
        fill();
        // references: address, constness, type
        auto one = [&](auto I_) {
          constexpr std::size_t I = I_();
          using M = std::remove_reference_t<std::tuple_element_t<I, Refs>>;
          using CM = std::remove_reference_t<std::tuple_element_t<I, CRefs>>;
          CHECK((const void*)std::addressof(vir::struct_get<I>(s)) == (const void*)std::addressof(std::get<I>(tie)),
                "struct_get<%zu> refers to another object", I);
          CHECK((const void*)std::addressof(vir::struct_get<I>(cs)) == (const void*)std::addressof(std::get<I>(tie)),
                "struct_get<%zu>(const) refers to another object", I);
          CHECK((std::is_same_v<decltype(vir::struct_get<I>(s)), M&>), "type of struct_get<%zu>", I);
          CHECK((std::is_same_v<decltype(vir::struct_get<I>(cs)), CM&>), "type of struct_get<%zu>(const)", I);
          CHECK((std::is_same_v<vir::struct_element_t<I, S>, M>), "struct_element_t<%zu>", I);
          CHECK((std::is_same_v<typename vir::struct_element<I, S>::type, M>), "struct_element<%zu>", I);
          // writing through the reference changes this member only
          auto before = vir::to_tuple_ref(s);
          (void)before;
          for (int rep = 0; rep < 3; ++rep)
            {
              fill();
              S old = s;
              auto otie = members<S>::tie(old);
              assign(vir::struct_get<I>(s), r);
              S after = s;
              auto atie = members<S>::tie(after);
              auto cmp = [&](auto J_) {
                constexpr std::size_t J = J_();
                if constexpr (J != I)
                  if (not eq(std::get<J>(atie), std::get<J>(otie)))
                    mon::fail("assigning struct_get<%zu> changed member %zu", I, J);
              };
              (cmp(std::integral_constant<std::size_t, Is>()), ...);
              ++mon::evals;
            }
        };
        if constexpr (N <= 12) (one(std::integral_constant<std::size_t, Is>()), ...);
        else
          {
            one(std::integral_constant<std::size_t, 0>());
            one(std::integral_constant<std::size_t, N / 2>());
            one(std::integral_constant<std::size_t, N - 1>());
            // all members at least by address
            ((CHECK((const void*)std::addressof(vir::struct_get<Is>(s)) == (const void*)std::addressof(std::get<Is>(tie)),
                    "struct_get<%zu> refers to another object", Is)), ...);
            ((CHECK((const void*)std::addressof(vir::struct_get<Is>(cs)) == (const void*)std::addressof(std::get<Is>(tie)),
                    "struct_get<%zu>(const) refers to another object", Is)), ...);
            ((CHECK((std::is_same_v<vir::struct_element_t<Is, S>, std::remove_reference_t<std::tuple_element_t<Is, Refs>>>),
                    "struct_element_t<%zu>", Is)), ...);
          }
        // copies and tuples of references
        fill();
        CHECK((all_eq(vir::to_tuple_ref(s), tie)), "to_tuple_ref has other values");
        [&](auto&& t) {
          CHECK((std::is_same_v<std::remove_cvref_t<decltype(t)>, Refs>), "type of to_tuple_ref");
          ((CHECK((const void*)std::addressof(std::get<Is>(t)) == (const void*)std::addressof(std::get<Is>(tie)),
                  "to_tuple_ref element %zu refers to another object", Is)), ...);
        }(vir::to_tuple_ref(s));
        [&](auto&& t) {
          CHECK((std::is_same_v<std::remove_cvref_t<decltype(t)>, CRefs>), "type of to_tuple_ref(const)");
          ((CHECK((const void*)std::addressof(std::get<Is>(t)) == (const void*)std::addressof(std::get<Is>(tie)),
                  "to_tuple_ref(const) element %zu refers to another object", Is)), ...);
        }(vir::to_tuple_ref(cs));
        using Vals = std::tuple<std::remove_reference_t<std::tuple_element_t<Is, Refs>>...>;
        if constexpr (not has_array<Refs>::value)
          {
            CHECK((std::is_same_v<vir::as_tuple_t<S>, Vals>), "as_tuple_t");
            CHECK((std::is_same_v<vir::as_tuple_t<const S>, const Vals>), "as_tuple_t<const>");
            CHECK((std::is_same_v<vir::as_tuple_t<S&>, Vals&>), "as_tuple_t<&>");
            CHECK((std::is_same_v<vir::as_tuple_t<const S&>, const Vals&>), "as_tuple_t<const&>");
            auto t = vir::to_tuple(s);
            CHECK((std::is_same_v<decltype(t), Vals>), "type of to_tuple");
            CHECK((all_eq(t, tie)), "to_tuple has other values");
            auto t2 = vir::to_tuple(cs);
            CHECK((all_eq(t2, tie)), "to_tuple(const) has other values");
            CHECK((all_eq(vir::to_tuple(S(s)), tie)), "to_tuple(rvalue) has other values");
            // copies are independent of the object
            S keep = s;
            fill();
            CHECK((all_eq(t, members<S>::tie(keep))), "to_tuple does not copy");
            if constexpr (N == 2)
              {
                auto p = vir::to_pair(s);
                using M0 = std::tuple_element_t<0, Vals>;
                using M1 = std::tuple_element_t<1, Vals>;
                CHECK((std::is_same_v<decltype(p), std::pair<M0, M1>>), "type of to_pair");
                CHECK((std::is_same_v<vir::as_pair_t<S>, std::pair<M0, M1>>), "as_pair_t");
                CHECK((std::is_same_v<vir::as_pair_t<const S&>, const std::pair<M0, M1>&>), "as_pair_t<const&>");
                CHECK(eq(p.first, std::get<0>(tie)) and eq(p.second, std::get<1>(tie)), "to_pair has other values");
                auto pr = vir::to_pair_ref(s);
                CHECK((std::is_same_v<decltype(pr), std::pair<M0&, M1&>>), "type of to_pair_ref");
                CHECK(std::addressof(pr.first) == std::addressof(std::get<0>(tie)) and std::addressof(pr.second) == std::addressof(std::get<1>(tie)), "to_pair_ref refers to other objects");
                auto cpr = vir::to_pair_ref(cs);
                CHECK(std::addressof(cpr.first) == std::addressof(std::get<0>(tie)) and std::addressof(cpr.second) == std::addressof(std::get<1>(tie)), "to_pair_ref(const) refers to other objects");
                CHECK((std::is_same_v<decltype(cpr), std::pair<const M0&, const M1&>>), "type of to_pair_ref(const)");
              }
          }
      }(std::make_index_sequence<N>());
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
#define X(S) run<S>(#S);
#define CAT_(a, b) STRUCTS_##a##b
#define CAT(a, b) CAT_(a, b)
  CAT(PART, VAR)(X)
#if PART == 0 and VAR == 0
  run<derived_only>("derived_only"); run<with_array>("with_array"); run<with_nested>("with_nested"); run<with_string>("with_string");
  run<with_ptrs>("with_ptrs"); run<overaligned>("overaligned");
  run<std::pair<int, double>>("pair"); run<std::pair<std::string, char>>("pair2"); run<std::tuple<int>>("tuple1");
  run<std::tuple<int, char, double>>("tuple3"); run<std::tuple<std::string, float, float, int, char>>("tuple5");
  run<std::array<short, 4>>("array4");
#endif
  return mon::finish();
}
