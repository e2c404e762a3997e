// C23 monitor: constexpr_wrapper expressions and _cw literals denote the right constants (value and type).
#include <vir/constexpr_wrapper.h>
#include <memory>
#include "mon.h"
#include <array>
#include <climits>
#include <compare>
#include <functional>
using vir::cw;
using namespace vir::literals;

template <typename R, typename E>
static void same_const(const char* op, E want)
{
  ++mon::events;
  ++mon::evals;
  mon::nontrivial(mon::hash_str(op));
  using V = std::remove_cvref_t<decltype(R::value)>;
  using VT = std::remove_cvref_t<typename R::value_type>;
  if constexpr (not std::is_same_v<V, E>)
    mon::fail("%s: the result has the wrong type", op);
  else
    {
      if (not (R::value == want)) mon::fail("%s: the result has the wrong value", op);
      if (not (static_cast<V>(R()) == want)) mon::fail("%s: the result converts to the wrong value", op);
      if constexpr (not std::is_same_v<VT, E>) mon::fail("%s: value_type is wrong", op);
      if constexpr (requires { R()(); requires std::is_same_v<std::remove_cvref_t<decltype(R()())>, V>; })
        if (not (R()() == want)) mon::fail("%s: operator() gives the wrong value", op);
    }
}
template <typename R> concept wrapper = requires { typename R::value_type; R::value; };

#define BIN(op) \
  if constexpr (requires { typename vir::constexpr_wrapper<(A op B)>; }) { \
    if constexpr (wrapper<decltype(cw<A> op cw<B>)>) { \
      auto r = cw<A> op cw<B>; same_const<decltype(r)>("w " #op " w", A op B); \
      auto r2 = cw<A> op IC<B>(); same_const<decltype(r2)>("w " #op " integral_constant", A op B); \
      auto r3 = IC<A>() op cw<B>; same_const<decltype(r3)>("integral_constant " #op " w", A op B); } \
    else mon::fail(#op " of two wrappers gives no wrapper"); \
    if ((cw<A> op B) != (A op B) or (A op cw<B>) != (A op B)) mon::fail(#op " with a run-time operand is wrong"); \
    static_assert(std::is_same_v<std::remove_cvref_t<decltype(cw<A> op B)>, decltype(A op B)>); }
#define UN(op) \
  if constexpr (requires { typename vir::constexpr_wrapper<(op A)>; }) { \
    auto r = op cw<A>; if constexpr (wrapper<decltype(r)>) same_const<decltype(r)>(#op "w", op A); else mon::fail(#op " of a wrapper gives no wrapper"); }

template <auto X> using IC = std::integral_constant<decltype(X), X>;

template <auto A, auto B>
static void binary()
{
  mon::begin("binary", "", (long long)A, (long long)B, sizeof(A), sizeof(B), A > decltype(A)(-1), B > decltype(B)(-1));
  BIN(+) BIN(-) BIN(*) BIN(/) BIN(%) BIN(&) BIN(|) BIN(^) BIN(&&) BIN(||) BIN(<<) BIN(>>)
  BIN(==) BIN(!=) BIN(<) BIN(<=) BIN(>) BIN(>=)
  if constexpr (requires { cw<A> <=> cw<B>; A <=> B; })
    {
      auto r = (cw<A> <=> cw<B>);
      if constexpr (wrapper<decltype(r)>) same_const<decltype(r)>("w <=> w", A <=> B);
      else if (r != (A <=> B)) mon::fail("w <=> w: wrong value"); // std::strong_ordering may not be a structural type
    }
  { auto r = (cw<A>, cw<B>); same_const<decltype(r)>("w , w", B); }
}

template <auto A>
static void unary()
{
  mon::begin("unary", "", (long long)A, sizeof(A), A > decltype(A)(-1));
  UN(+) UN(-) UN(~) UN(!)
  same_const<std::remove_cvref_t<decltype(cw<A>)>>("cw", A);
  same_const<vir::constexpr_wrapper<A>>("constexpr_wrapper", A);
  const auto x = cw<A>;
  if (x != A or *x.operator->() != A or static_cast<decltype(A)>(x) != A or x() != A) mon::fail("conversion");
  static_assert(vir::constexpr_value<decltype(x)> and vir::constexpr_value<std::remove_cvref_t<decltype(x)>, decltype(A)>);
}

template <auto... A> struct list {};
template <auto A, auto... B> static void row(list<B...>) { unary<A>(); (binary<A, B>(), ...); (binary<B, A>(), ...); }

// a class type whose operators all do different things
struct S
{
  int v = 0;
  int tag = 0;
  constexpr bool operator==(const S&) const = default;
#define C(op, n) constexpr S operator op(S o) const { return {v * 31 + o.v, n}; }
  C(+, 1) C(-, 2) C(*, 3) C(/, 4) C(%, 5) C(&, 6) C(|, 7) C(^, 8) C(&&, 9) C(||, 10) C(<<, 11) C(>>, 12)
  C(<, 13) C(<=, 14) C(>, 15) C(>=, 16) C(+=, 17) C(-=, 18) C(*=, 19) C(/=, 20) C(%=, 21) C(&=, 22) C(|=, 23) C(^=, 24)
  C(<<=, 25) C(>>=, 26) C(!=, 27) C(->*, 28) C(<=>, 29)
#undef C
  constexpr S operator,(S o) const { return {v * 31 + o.v, 30}; }
  constexpr S operator+() const { return {v, 40}; }
  constexpr S operator-() const { return {v, 41}; }
  constexpr S operator~() const { return {v, 42}; }
  constexpr S operator!() const { return {v, 43}; }
  constexpr S operator*() const { return {v, 44}; }
  constexpr S operator++() const { return {v, 45}; }
  constexpr S operator++(int) const { return {v, 46}; }
  constexpr S operator--() const { return {v, 47}; }
  constexpr S operator--(int) const { return {v, 48}; }
  constexpr S operator&() const { return {v, 51}; }
  constexpr int operator()(int a, int b) const { return v * 1000 + a * 100 + b; }
  constexpr int operator()(int a) const { return v * 1000 + a; }
  constexpr int operator[](int a) const { return v * 10 + a; }
#if __cpp_multidimensional_subscript
  constexpr int operator[](int a, int b) const { return v * 100 + a * 10 + b; }
#endif
};
// assignment operators that are usable on constants
struct As { int v; constexpr As(int x) : v(x) {} constexpr As(const As&) = default; constexpr As operator=(const As& o) const { return As(v * 100 + o.v); }
  constexpr bool operator==(const As&) const = default; };

constexpr int table[] = {5, 6, 7, 8};
// results that are references: to the constant itself or to the argument
struct MoveOnly
{
  int v;
  constexpr explicit MoveOnly(int x) : v(x) {}
  constexpr MoveOnly(MoveOnly&& o) : v(o.v) { o.v = 0; }
  MoveOnly& operator=(MoveOnly&&) = delete;
};

struct Refs
{
  int m[3];
  constexpr const int& operator[](int i) const { return m[i]; }
  constexpr int& operator()(int& x) const { return x; }
  constexpr int&& operator()(int&& x) const { return static_cast<int&&>(x); }
  constexpr const int& operator()(const int& x) const { return x; }
  constexpr const Refs& operator()(int, double) const { return *this; }
  constexpr MoveOnly operator()(MoveOnly p) const { return p; }
#if __cpp_multidimensional_subscript
  constexpr const int& operator[](int i, int j) const { return m[i + j]; }
#endif
  constexpr bool operator==(const Refs&) const = default;
};

static void references()
{
  mon::begin("references", "");
  constexpr auto w = cw<Refs{{4, 5, 6}}>;
  constexpr auto arr = cw<std::array<int, 3>{4, 5, 6}>;
  int i = 1;
  asm volatile("" : "+r"(i));
#define SAME(e, f) { if constexpr (not std::is_same_v<decltype(e), decltype(f)>) mon::fail(#e " does not have the type of " #f); \
    else if (std::addressof(e) != std::addressof(f)) mon::fail(#e " does not refer to the object " #f " does"); ++mon::evals; }
  SAME(w[i], w.value[i])
  SAME(arr[i], arr.value[i])
  SAME(w(i), w.value(i))
  SAME(w(std::as_const(i)), w.value(std::as_const(i)))
  SAME(w(i, 2.), w.value(i, 2.))
  SAME(w(i, cw<2.>), w.value(i, 2.))
#if __cpp_multidimensional_subscript
  SAME((w[i, 1]), (w.value[i, 1]))
  SAME((w[cw<1>, i]), (w.value[1, i]))
#endif
  if constexpr (not std::is_same_v<decltype(w(std::move(i))), int&&>) mon::fail("an rvalue argument is not forwarded");
  MoveOnly p(7);
  MoveOnly q = w(std::move(p));
  if (p.v != 0 or q.v != 7) mon::fail("a move-only argument is not forwarded");
  int* ip = std::addressof(i);
  if (std::addressof(cw<&table>.value[0][1]) != table + 1) mon::fail("pointer to array");
  if constexpr (std::is_same_v<decltype(cw<&table[0]>[i]), const int&>)
    { if (std::addressof(cw<&table[0]>[i]) != table + i) mon::fail("pointer[run-time] refers to another object"); }
  else
    mon::fail("pointer[run-time] has the wrong type");
  if (w.operator->() != std::addressof(w.value)) mon::fail("operator-> does not point to the constant");
  (void) ip;
#undef SAME
}

template <S A, S B>
static void classes()
{
  mon::begin("class", "", A.v, B.v);
  const auto a = cw<A>;
  const auto b = cw<B>;
#define T(op) { auto r = (a op b); if constexpr (wrapper<decltype(r)>) same_const<decltype(r)>("class " #op, (A op B)); \
                else mon::fail("class " #op " gives no wrapper"); }
  T(+) T(-) T(*) T(/) T(%) T(&) T(|) T(^) T(&&) T(||) T(<<) T(>>) T(<) T(<=) T(>) T(>=) T(!=) T(+=) T(-=) T(*=) T(/=) T(%=)
  T(&=) T(|=) T(^=) T(<<=) T(>>=) T(->*) T(<=>) T(==)
#undef T
  { auto r = (a, b); same_const<decltype(r)>("class ,", (A, B)); }
#define U(op) { auto r = op a; if constexpr (wrapper<decltype(r)>) same_const<decltype(r)>("class " #op, op A); else mon::fail("class " #op " gives no wrapper"); }
  U(+) U(-) U(~) U(!) U(*) U(++) U(--) U(&)
#undef U
  { auto r = a++; same_const<decltype(r)>("class post++", A++); }
  { auto r = a--; same_const<decltype(r)>("class post--", A--); }
  // call and subscript with constant and run-time arguments
  { auto r = a(cw<3>, cw<4>); if constexpr (wrapper<decltype(r)>) same_const<decltype(r)>("a(w, w)", A(3, 4)); else mon::fail("a(w,w) gives no wrapper"); }
  { auto r = a(cw<7>); if constexpr (wrapper<decltype(r)>) same_const<decltype(r)>("a(w)", A(7)); else mon::fail("a(w) gives no wrapper"); }
  { auto r = a[cw<6>]; if constexpr (wrapper<decltype(r)>) same_const<decltype(r)>("a[w]", A[6]); else mon::fail("a[w] gives no wrapper"); }
  int three = 3;
  asm volatile("" : "+r"(three));
  if (a(three, 4) != A(3, 4) or a(three, cw<4>) != A(3, 4) or a(cw<3>, three) != A(3, 3)) mon::fail("call with run-time arguments");
  if (a[three] != A[3]) mon::fail("subscript with a run-time argument");
#if __cpp_multidimensional_subscript
  { auto r = a[cw<6>, cw<5>]; if constexpr (wrapper<decltype(r)>) same_const<decltype(r)>("a[w, w]", A[6, 5]); else mon::fail("a[w,w] gives no wrapper"); }
  if (a[three, 2] != A[3, 2] or a[cw<1>, three] != A[1, 3]) mon::fail("two-dimensional subscript with run-time arguments");
#endif
  if (a->v != A.v or a->tag != A.tag) mon::fail("operator->");
}

constexpr int fn(int x, int y) { return 10 * x + y; }
constexpr int nullary() { return 77; }

template <char... C> static constexpr auto unused() { return 0; }

template <typename W>
static void literal(const char* text, unsigned long long v)
{
  mon::begin("literal", text, (long long)v);
  ++mon::evals;
  ++mon::events;
  mon::nontrivial();
  using T = std::remove_cvref_t<decltype(W::value)>;
  if (static_cast<unsigned long long>(W::value) != v)
    mon::fail("value %llu, expected %llu", static_cast<unsigned long long>(W::value), v);
  int want = v <= SCHAR_MAX ? 0 : v <= SHRT_MAX ? 1 : v <= INT_MAX ? 2 : v <= LONG_MAX ? 3 : v <= LLONG_MAX ? 4 : 5;
  int got = std::is_same_v<T, signed char> ? 0 : std::is_same_v<T, short> ? 1 : std::is_same_v<T, int> ? 2
    : std::is_same_v<T, long> ? 3 : std::is_same_v<T, long long> ? 4 : std::is_same_v<T, unsigned long long> ? 5 : 6;
  if (got != want) mon::fail("type index %d, expected %d", got, want);
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
#if PART == 0
  using Ints = list<0, 1, -1, 2, 3, -7, 31, INT_MAX, INT_MIN>;
  using Mixed = list<0u, 1u, 5u, UINT_MAX, 2L, -3L, LLONG_MAX, 7ull, (short)-2, (signed char)100, (unsigned char)200, true, false, 'a'>;
  [&]<auto... A>(list<A...>) { (row<A>(Ints()), ...); }(Ints());
  [&]<auto... A>(list<A...>) { (row<A>(list<2, -5, 3u, 0>()), ...); }(Mixed());
  row<10ull>(Mixed());
  row<(short)3>(Mixed());
#elif PART == 1
  classes<S{1, 0}, S{2, 0}>();
  classes<S{7, 3}, S{-5, 9}>();
  classes<S{0, 0}, S{0, 0}>();
  references();
  mon::begin("pointers", "");
#ifdef __clang__ // GCC 13 deduces a wrong type for template<auto X, class T = decltype(X)> W<*P> (compiler bug)
  { auto r = cw<&table[1]>[cw<2>]; same_const<decltype(r)>("pointer[w]", 8); }
  { auto r = *cw<&table[1]>; same_const<decltype(r)>("*pointer", 6); }
#endif
  { int i = 2; asm volatile("" : "+r"(i)); if (cw<&table[0]>[i] != 7) mon::fail("pointer[run-time]"); }
  { auto r = cw<&table[0]> + cw<3>; if (*r.value != 8) mon::fail("pointer + w"); ++mon::evals; }
  { auto r = cw<&fn>(cw<4>, cw<5>); same_const<decltype(r)>("function(w, w)", 45); }
  { int i = 6; asm volatile("" : "+r"(i)); if (cw<&fn>(i, 1) != 61 or cw<&fn>(cw<2>, i) != 26) mon::fail("function(run-time)"); ++mon::evals; }
  { auto r = cw<&nullary>(); same_const<decltype(r)>("function()", 77); }
  { auto r = cw<std::array<int, 3>{4, 5, 6}>[cw<1>]; same_const<decltype(r)>("array[w]", 5); }
  { if (cw<std::array<int, 3>{4, 5, 6}>->size() != 3 or (*cw<std::array<int, 3>{4, 5, 6}>.operator->())[2] != 6) mon::fail("array->"); ++mon::evals; }
  { auto r = (cw<As(3)> = cw<As(4)>); if constexpr (wrapper<decltype(r)>) same_const<decltype(r)>("w = w", As(304)); else mon::fail("= gives no wrapper"); }
  { struct D : vir::constexpr_wrapper<5> {}; auto r = D() + cw<2>; same_const<decltype(r)>("derived + w", 7);
    auto r2 = cw<2> - D(); same_const<decltype(r2)>("w - derived", -3); auto r3 = D() * D(); same_const<decltype(r3)>("derived * derived", 25); }
  { auto r = cw<3>(); if constexpr (std::is_same_v<decltype(r), int>) { if (r != 3) mon::fail("w()"); } else mon::fail("w() has the wrong type"); ++mon::evals; }
  { auto r = 3_cw + 4_cw; same_const<decltype(r)>("3_cw + 4_cw", 7); auto r2 = -0x80_cw; same_const<decltype(r2)>("-0x80_cw", -128);
    auto r3 = -128_cw; same_const<decltype(r3)>("-128_cw", -128); std::array<int, 12_cw> x{}; if (x.size() != 12) mon::fail("12_cw as array bound"); }
  static_assert(vir::constexpr_value<vir::constexpr_wrapper<3>> and vir::constexpr_value<vir::constexpr_wrapper<3>, int>
                and vir::constexpr_value<std::integral_constant<int, 3>> and not vir::constexpr_value<int> and not vir::constexpr_value<float, int>
                and not vir::constexpr_value<vir::constexpr_wrapper<3>, int*>);
#else
#define L(text, v) literal<std::remove_cvref_t<decltype(text##_cw)>>(#text, v);
#include "literals.h"
#endif
  return mon::finish();
}
