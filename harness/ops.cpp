// C12 monitor: every operator of the portable simd, lane by lane against the scalar operator.
#include "fb.h"
#ifndef REPS
#define REPS 60
#endif

template <typename T> using promoted = decltype(T() + T());

enum kind { k_arith, k_div, k_shift, k_bit, k_cmp };

template <typename T>
constexpr bool arith_ok(__int128 r)
{
  using P = promoted<T>;
  if constexpr (std::is_floating_point_v<T> or std::is_unsigned_v<P>) return true;
  else return r >= std::numeric_limits<P>::min() and r <= std::numeric_limits<P>::max();
}

#define BINOPS(X) X(add, +, k_arith) X(sub, -, k_arith) X(mul, *, k_arith) X(div, /, k_div)
#define INTOPS(X) X(mod, %, k_div) X(band, &, k_bit) X(bor, |, k_bit) X(bxor, ^, k_bit) X(shl, <<, k_shift) X(shr, >>, k_shift)
#define CMPOPS(X) X(eq, ==, k_cmp) X(ne, !=, k_cmp) X(lt, <, k_cmp) X(le, <=, k_cmp) X(gt, >, k_cmp) X(ge, >=, k_cmp)

#define DEF(name, op, kd)                                                                        \
  struct name##_op {                                                                              \
    static constexpr const char* nm = #op;                                                       \
    static constexpr kind k = kd;                                                                \
    template <typename A, typename B> static constexpr auto f(const A& a, const B& b) { return a op b; } \
    template <typename T> static bool defined(T a, T b) {                                        \
      if constexpr (std::is_floating_point_v<T>) return true;                                    \
      else if constexpr (kd == k_div) {                                                          \
        using P = promoted<T>;                                                                   \
        return b != 0 and not (std::is_signed_v<P> and P(a) == std::numeric_limits<P>::min() and P(b) == P(-1)); \
      } else if constexpr (kd == k_shift)                                                        \
        return b >= T(0) and (unsigned long long)(b) < sizeof(promoted<T>) * 8;                    \
      else if constexpr (kd == k_arith and std::is_unsigned_v<promoted<T>>) return true;          \
      else if constexpr (kd == k_arith)                                                          \
        return arith_ok<T>((__int128)a op (__int128)b);                                          \
      else return true;                                                                          \
    }                                                                                            \
  };
#define DEFC(name, op, kd) DEF(name, op, kd)                                                     \
  struct name##_c {                                                                              \
    static constexpr const char* nm = #op "=";                                                   \
    template <typename A, typename B> static constexpr auto& f(A& a, const B& b) { return a op##= b; } \
  };
BINOPS(DEFC) INTOPS(DEFC) CMPOPS(DEF)

// operands for which the operation is defined in every lane
template <typename O, typename T, std::size_t N>
static void operands(mon::rng& r, T (&a)[N], T (&b)[N], bool bcast_b, bool bcast_a)
{
  T sb = T(1), sa = T(1);
  for (int t = 0; t < 50; ++t)
    {
      T x = any_value<T>(r), y = any_value<T>(r);
      if constexpr (O::k == k_shift) y = T(r.below(sizeof(promoted<T>) * 8));
      if (O::defined(x, y)) { sa = x; sb = y; break; }
    }
  for (std::size_t i = 0; i < N; ++i)
    {
      bool found = false;
      for (int t = 0; t < 60 and not found; ++t)
        {
          a[i] = bcast_a ? sa : any_value<T>(r);
          b[i] = bcast_b ? sb : any_value<T>(r);
          if constexpr (O::k == k_shift)
            if (not bcast_b) b[i] = T(r.below(sizeof(promoted<T>) * 8));
          if (not std::is_floating_point_v<T> and O::k == k_cmp and r.below(3) == 0)
            { if (not bcast_b) b[i] = a[i]; else if (not bcast_a) a[i] = b[i]; }
          found = O::defined(a[i], b[i]);
        }
      if (not found) { if (bcast_b) a[i] = sa; else if (bcast_a) b[i] = sb; else { a[i] = sa; b[i] = sb; } }
    }
}

template <typename V, typename O>
static void binary()
{
  using T = typename V::value_type;
  constexpr std::size_t N = V::size();
  using R = std::conditional_t<O::k == k_cmp, bool, T>;
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      const int mode = rep % 3; // simd-simd, simd-scalar, scalar-simd
      mon::begin(O::nm, mon::type_name<T>(), N, mode, rep);
      mon::rng r(rep * 977 + N * 31 + mon::hash_str(O::nm) + sizeof(T) * 7);
      T a[N], b[N];
      R e[N];
      operands<O>(r, a, b, mode == 1, mode == 2);
      for (std::size_t i = 0; i < N; ++i)
        e[i] = static_cast<R>(O::f(a[i], b[i]));
      const V va = make<V>(a), vb = make<V>(b);
      ++mon::evals;
      using W = std::conditional_t<O::k == k_cmp, typename V::mask_type, V>;
      auto chk = [&](const auto& w, const char* how) {
        static_assert(std::is_same_v<std::decay_t<decltype(w)>, W>);
        return lanes(w, e, how);
      };
      if (mode == 0) chk(O::f(va, vb), "simd op simd");
      else if (mode == 1) chk(O::f(va, b[0]), "simd op scalar");
      else chk(O::f(a[0], vb), "scalar op simd");
      lanes(va, a, "left operand afterwards");
      lanes(vb, b, "right operand afterwards");
      mon::nontrivial();
    }
}

template <typename V, typename O, typename C>
static void compound()
{
  using T = typename V::value_type;
  constexpr std::size_t N = V::size();
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      const int mode = rep % 3; // simd, scalar, self
      mon::begin(C::nm, mon::type_name<T>(), N, mode, rep);
      mon::rng r(rep * 977 + N * 37 + mon::hash_str(C::nm) + sizeof(T) * 7);
      T a[N], b[N], e[N];
      operands<O>(r, a, b, mode == 1, false);
      if (mode == 2)
        for (std::size_t i = 0; i < N; ++i)
          { a[i] = b[i]; if (not O::defined(a[i], b[i])) a[i] = b[i] = T(1); }
      for (std::size_t i = 0; i < N; ++i)
        {
          T t = a[i];
          e[i] = static_cast<T>(O::f(t, b[i]));
        }
      V va = make<V>(a);
      const V vb = make<V>(b);
      ++mon::evals;
      const void* adr = nullptr;
      if (mode == 0) adr = &C::f(va, vb);
      else if (mode == 1) adr = &C::f(va, b[0]);
      else adr = &C::f(va, va);
      if (adr != &va)
        mon::fail("compound assignment does not return its left operand");
      lanes(va, e, "compound result");
      lanes(vb, b, "right operand afterwards");
      mon::nontrivial();
    }
}

template <typename V>
static void unary()
{
  using T = typename V::value_type;
  using P = promoted<T>;
  using M = typename V::mask_type;
  constexpr std::size_t N = V::size();
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::rng r(rep * 91 + N + sizeof(T) * 1000);
      T a[N], e[N];
      bool eb[N];
      auto gen = [&](auto ok) {
        for (auto& x : a)
          { x = any_value<T>(r); while (not ok(x)) x = any_value<T>(r); }
      };
      auto start = [&](const char* n) { mon::begin(n, mon::type_name<T>(), N, rep); ++mon::evals; mon::nontrivial(); };
      auto any = [](T) { return true; };
      auto inc_ok = [](T x) { return sizeof(T) < sizeof(int) or std::is_floating_point_v<T> or std::is_unsigned_v<T> or x != std::numeric_limits<T>::max(); };
      auto dec_ok = [](T x) { return sizeof(T) < sizeof(int) or std::is_floating_point_v<T> or std::is_unsigned_v<T> or x != std::numeric_limits<T>::min(); };
      auto neg_ok = [](T x) { return std::is_floating_point_v<T> or std::is_unsigned_v<P> or P(x) != std::numeric_limits<P>::min(); };
#define UN(name, gn, expr, ex)                                                                      \
      {                                                                                             \
        start(name); gen(gn);                                                                       \
        const V v = make<V>(a);                                                                     \
        for (std::size_t i = 0; i < N; ++i) { [[maybe_unused]] T x = a[i]; e[i] = static_cast<T>(ex); } \
        const V w = expr;                                                                           \
        lanes(w, e, name); lanes(v, a, "operand afterwards");                                       \
      }
      UN("unary -", neg_ok, -v, -x)
      UN("unary +", any, +v, +x)
      if constexpr (std::is_integral_v<T>)
        UN("unary ~", any, ~v, ~x)
      {
        start("unary !"); gen(any);
        if (rep % 2) a[rep % N] = T(0);
        const V v = make<V>(a);
        for (std::size_t i = 0; i < N; ++i) eb[i] = not a[i];
        const M w = !v;
        lanes(w, eb, "unary !"); lanes(v, a, "operand afterwards");
      }
#define INC(name, gn, pre, stmt, sc)                                                                 \
      {                                                                                              \
        start(name); gen(gn);                                                                        \
        V v = make<V>(a);                                                                            \
        for (std::size_t i = 0; i < N; ++i) { T x = a[i]; sc; e[i] = x; }                            \
        if constexpr (pre) { V& w = stmt; if (&w != &v) mon::fail("does not return its operand"); }  \
        else { V w = stmt; lanes(w, a, "value of the postfix expression"); }                         \
        lanes(v, e, name);                                                                           \
      }
      INC("prefix ++", inc_ok, true, ++v, ++x)
      INC("prefix --", dec_ok, true, --v, --x)
      INC("postfix ++", inc_ok, false, v++, x++)
      INC("postfix --", dec_ok, false, v--, x--)
    }
}

template <typename V>
static void int_shift()
{
  using T = typename V::value_type;
  constexpr std::size_t N = V::size();
  for (int s = 0; s < int(sizeof(promoted<T>) * 8); ++s)
    {
      mon::rng r(s * 91 + N + sizeof(T) * 1000);
      T a[N], e[N], f[N];
      mon::begin("shift by int", mon::type_name<T>(), N, s); ++mon::evals; mon::nontrivial();
      for (std::size_t i = 0; i < N; ++i)
        { a[i] = any_value<T>(r); e[i] = static_cast<T>(a[i] << s); f[i] = static_cast<T>(a[i] >> s); }
      const V v = make<V>(a);
      const V l = v << s, h = v >> s;
      lanes(l, e, "<< int"); lanes(h, f, ">> int"); lanes(v, a, "operand afterwards");
      V q = v; q <<= s; lanes(q, e, "<<= int");
      V p = v; p >>= s; lanes(p, f, ">>= int");
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_types([](auto t) {
    using T = typename decltype(t)::t;
    for_all_simds<T>([](auto v) {
      using V = typename decltype(v)::t;
      unary<V>();
#define RUN(name, op, k) binary<V, name##_op>();
#define RUNC(name, op, k) binary<V, name##_op>(); compound<V, name##_op, name##_c>();
      BINOPS(RUNC)
      CMPOPS(RUN)
      if constexpr (std::is_integral_v<T>)
        {
          INTOPS(RUNC)
          int_shift<V>();
        }
    });
  });
  return mon::finish();
}
