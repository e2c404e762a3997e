// C14 monitor: where-expressions, lane by lane, with memory that faults when unselected elements
// are touched.
#include "fb.h"
#ifndef UELTS
#define UELTS int, float
#endif
#ifndef REPS
#define REPS 40
#endif
static mon::arena* A;

template <std::size_t N>
static void pattern(mon::rng& r, bool (&k)[N], int rep)
{
  const int p = rep % 7;
  const std::size_t one = r.below(N);
  for (std::size_t i = 0; i < N; ++i)
    k[i] = p == 0 ? false : p == 1 ? true : p == 2 ? i == one : p == 3 ? i != one : p == 4 ? i == N - 1 : bool(r() & 1);
}

template <typename T> using promoted = decltype(T() + T());

// operands such that a op b is defined for all lanes
enum okind { o_assign, o_arith, o_div, o_bit, o_shift };
template <typename T>
static bool defined_for(okind k, char op, T a, T b)
{
  if constexpr (std::is_floating_point_v<T>) return true;
  else
    {
      using P = promoted<T>;
      using L = std::numeric_limits<P>;
      switch (k)
        {
        case o_arith: {
          if (std::is_unsigned_v<P>) return true;
          const __int128 x = op == '+' ? (__int128)a + b : op == '-' ? (__int128)a - b : (__int128)a * b;
          return x >= L::min() and x <= L::max();
        }
        case o_div: return b != 0 and not (std::is_signed_v<P> and P(a) == L::min() and P(b) == P(-1));
        case o_shift: return b >= T(0) and (unsigned long long)b < sizeof(P) * 8;
        default: return true;
        }
    }
}

template <typename T, std::size_t N>
static void operands(mon::rng& r, okind k, char op, T (&a)[N], T (&b)[N], bool bcast)
{
  for (std::size_t i = 0; i < N; ++i)
    for (int t = 0;; ++t)
      {
        a[i] = any_value<T>(r);
        b[i] = bcast and i ? b[0] : k == o_shift ? T(r.below(sizeof(promoted<T>) * 8)) : any_value<T>(r);
        if (t > 60) { a[i] = T(1); if (not (bcast and i)) b[i] = T(1); }
        if (defined_for(k, op, a[i], b[i]) or t > 60) break;
      }
}

template <typename V, typename Op, typename F>
static void assign_op(const char* name, okind kd, char opc, Op scalar, F apply)
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr std::size_t N = V::size();
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      const int mode = rep % 3; // simd, scalar, own value
      mon::begin(name, mon::type_name<T>(), N, mode, rep);
      mon::rng r(rep * 63 + N + sizeof(T) * 19 + mon::hash_str(name));
      T a[N], b[N], e[N]; bool k[N];
      pattern(r, k, rep / 3);
      operands(r, kd, opc, a, b, mode == 1);
      if (mode == 2)
        for (std::size_t i = 0; i < N; ++i) { if (not defined_for(kd, opc, b[i], b[i])) b[i] = T(1); a[i] = b[i]; }
      for (std::size_t i = 0; i < N; ++i)
        { T x = a[i]; if (k[i]) scalar(x, b[i]); e[i] = x; }
      V v = make<V>(a);
      const V w = make<V>(b);
      const M m = make_mask<M>(k);
      ++mon::evals;
      if (mode == 0) apply(m, v, w);
      else if (mode == 1) apply(m, v, b[0]);
      else apply(m, v, v);
      lanes(v, e, name); lanes(w, b, "right operand afterwards"); lanes(m, k, "mask afterwards");
      mon::nontrivial();
    }
}

template <typename V, typename U>
static void memory()
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr std::size_t N = V::size();
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::rng r(rep * 63 + N + sizeof(T) * 19 + sizeof(U) * 1777);
      T a[N], e[N]; U src[N], old[N]; bool k[N];
      const int cls = rep % 3; // full range; prefix only; suffix only accessible
      pattern(r, k, rep / 3);
      std::size_t lo = 0, hi = N;
      if (cls == 1) hi = r.below(N + 1);
      if (cls == 2) lo = r.below(N + 1);
      for (std::size_t i = 0; i < N; ++i) if (i < lo or i >= hi) k[i] = false;
      for (std::size_t i = 0; i < N; ++i)
        {
          do a[i] = any_value<T>(r); while (not convertible_value<U>(a[i]));
          do src[i] = any_value<U>(r); while (not convertible_value<T>(src[i]));
          e[i] = k[i] ? static_cast<T>(src[i]) : a[i];
        }
      const std::size_t cnt = hi - lo;
      auto place = [&]() {
        U* p = static_cast<U*>(A->place(cnt * sizeof(U), cls == 2 ? 0 : alignof(U) * r.below(64 / alignof(U)), cls != 2));
        return p;
      };
      const M m = make_mask<M>(k);
      auto intact = [&](const char* w) {
        const long long o = A->check();
        ++mon::events;
        if (o != mon::arena::intact) mon::fail("%s changed the byte at offset %lld of the %zu accessible bytes", w, o, cnt * sizeof(U));
      };
      {
        mon::begin("where.copy_from", mon::type_name<T>(), N, sizeof(U), cls, rep, cnt);
        U* p = place();
        for (std::size_t i = 0; i < cnt; ++i) p[i] = src[lo + i];
        A->arm();
        V v = make<V>(a);
        const V cv = make<V>(a);
        const U* q = p - lo;
        asm volatile("" : "+r"(q));
        stdx::where(m, v).copy_from(q, stdx::element_aligned);
        ++mon::evals;
        lanes(v, e, "masked load");
#if FALLBACK
        // not in libstdc++
        const V n = stdx::where(m, cv).copy_from(q, stdx::element_aligned);
        lanes(n, e, "masked load from const where");
        lanes(cv, a, "const value after masked load");
#endif
        for (std::size_t i = 0; i < cnt; ++i)
          if (not mon::same(p[i], src[lo + i])) { mon::fail("masked load modified its source"); break; }
        intact("masked load");
        mon::nontrivial();
      }
      {
        mon::begin("where.copy_to", mon::type_name<T>(), N, sizeof(U), cls, rep, cnt);
        U* p = place();
        for (std::size_t i = 0; i < cnt; ++i) old[i] = p[i] = src[lo + i];
        A->arm();
        V v = make<V>(a);
        U* q = p - lo;
        asm volatile("" : "+r"(q));
        if (rep & 1) stdx::where(m, v).copy_to(q, stdx::element_aligned);
        else stdx::where(m, static_cast<const V&>(v)).copy_to(q, stdx::element_aligned);
        ++mon::evals;
        for (std::size_t i = 0; i < cnt; ++i)
          {
            ++mon::events;
            const U x = k[lo + i] ? static_cast<U>(a[lo + i]) : old[i];
            if (not mon::same(p[i], x))
              { mon::fail("masked store: element %zu is %Lg, expected %Lg", lo + i, ld(p[i]), ld(x)); break; }
          }
        lanes(v, a, "value after masked store");
        intact("masked store");
        mon::nontrivial();
      }
    }
}

template <typename V>
static void others()
{
  using T = typename V::value_type;
  using P = promoted<T>;
  using M = typename V::mask_type;
  constexpr std::size_t N = V::size();
  for (int rep = 0; rep < REPS * (mon::thorough ? 20 : 1); ++rep)
    {
      mon::rng r(rep * 63 + N + sizeof(T) * 19);
      T a[N], e[N]; bool k[N], b[N], c[N], eb[N];
      pattern(r, k, rep);
      pattern(r, b, int(r.below(7))); pattern(r, c, int(r.below(7)));
      for (auto& x : a)
        do x = any_value<T>(r);
        while (std::is_signed_v<P> and not std::is_floating_point_v<T> and (x == std::numeric_limits<T>::min() or x == std::numeric_limits<T>::max()));
      const M m = make_mask<M>(k);
      auto start = [&](const char* n) { mon::begin(n, mon::type_name<T>(), N, rep); ++mon::evals; mon::nontrivial(); };
      {
        start("where unary -");
        V v = make<V>(a); const V cv = v;
        for (std::size_t i = 0; i < N; ++i) e[i] = k[i] ? static_cast<T>(-a[i]) : a[i];
        const V x = -stdx::where(m, v), y = -stdx::where(m, cv);
        lanes(x, e, "-where"); lanes(y, e, "-const where"); lanes(v, a, "value after -where"); lanes(cv, a, "value after -const where");
      }
#define INC(name, st, sc)                                                                        \
      {                                                                                          \
        start(name); V v = make<V>(a);                                                           \
        for (std::size_t i = 0; i < N; ++i) { T x = a[i]; if (k[i]) sc; e[i] = x; }              \
        st; lanes(v, e, name); lanes(m, k, "mask afterwards");                                   \
      }
      INC("where ++x", ++stdx::where(m, v), ++x)
      INC("where x++", stdx::where(m, v)++, ++x)
      INC("where --x", --stdx::where(m, v), --x)
      INC("where x--", stdx::where(m, v)--, --x)
      // masked operations on masks
#define MOP(name, st, sc)                                                                        \
      {                                                                                          \
        start(name); M x = make_mask<M>(b); const M y = make_mask<M>(c);                         \
        for (std::size_t i = 0; i < N; ++i) { bool p = b[i], q = c[i]; if (k[i]) sc; eb[i] = p; } \
        st; lanes(x, eb, name); lanes(y, c, "right operand afterwards"); lanes(m, k, "mask afterwards"); \
      }
      MOP("where(mask) =", stdx::where(m, x) = y, p = q)
#if FALLBACK
      MOP("where(mask) &=", stdx::where(m, x) &= y, p &= q)
      MOP("where(mask) |=", stdx::where(m, x) |= y, p |= q)
      MOP("where(mask) ^=", stdx::where(m, x) ^= y, p ^= q)
#endif
      MOP("where(mask) = bool", stdx::where(m, x) = true, p = true)
      {
        start("where(mask) memory");
        const std::size_t mis = r.below(64);
        bool* p = static_cast<bool*>(A->place(N, mis, rep & 1));
        for (std::size_t i = 0; i < N; ++i) p[i] = c[i];
        A->arm();
        M x = make_mask<M>(b);
        stdx::where(m, x).copy_from(static_cast<const bool*>(p), stdx::element_aligned);
        for (std::size_t i = 0; i < N; ++i) eb[i] = k[i] ? c[i] : b[i];
        lanes(x, eb, "masked mask load");
        const M z = make_mask<M>(b);
        stdx::where(m, z).copy_to(p, stdx::element_aligned);
        for (std::size_t i = 0; i < N; ++i)
          if (p[i] != (k[i] ? b[i] : c[i])) mon::fail("masked mask store, element %zu", i);
        if (A->check() != mon::arena::intact) mon::fail("masked mask store outside of the range");
      }
      if constexpr (N == 1)
        { // where(bool, scalar)
          start("where(bool, x)");
          const bool kk = k[0];
          T x = a[0], y = any_value<T>(r), ref = x;
          if (kk) ref = y;
          stdx::where(kk, x) = y;
          if (not mon::same(x, ref)) mon::fail("where(bool, T) = ");
          x = ref = a[0]; if (kk) ++ref; ++stdx::where(kk, x);
          if (not mon::same(x, ref)) mon::fail("++where(bool, T)");
          x = ref = a[0]; if (kk) --ref; stdx::where(kk, x)--;
          if (not mon::same(x, ref)) mon::fail("where(bool, T)--");
          x = ref = a[0]; if (kk) ++ref; stdx::where(kk, x)++;
          if (not mon::same(x, ref)) mon::fail("where(bool, T)++");
          x = ref = a[0]; if (kk) --ref; --stdx::where(kk, x);
          if (not mon::same(x, ref)) mon::fail("--where(bool, T)");
          const T cx = a[0];
          const T ng = -stdx::where(kk, cx);
          if (not mon::same(ng, kk ? static_cast<T>(-cx) : cx)) mon::fail("-where(bool, T)");
#define SOP(kd, ch, opq)                                                                         \
          { T p[1], q[1]; operands(r, kd, ch, p, q, false); x = ref = p[0]; if (kk) ref opq q[0]; \
            stdx::where(kk, x) opq q[0]; if (not mon::same(x, ref)) mon::fail("where(bool, T) " #opq); }
          SOP(o_arith, '+', +=) SOP(o_arith, '-', -=) SOP(o_arith, '*', *=) SOP(o_div, '/', /=)
          if constexpr (std::is_integral_v<T>)
            {
              SOP(o_div, '%', %=) SOP(o_bit, '&', &=) SOP(o_bit, '|', |=) SOP(o_bit, '^', ^=)
              SOP(o_shift, 's', <<=) SOP(o_shift, 's', >>=)
            }
          T memv = y; x = ref = a[0]; if (kk) ref = memv;
          stdx::where(kk, x).copy_from(static_cast<const T*>(&memv), stdx::element_aligned);
          if (not mon::same(x, ref)) mon::fail("where(bool, T).copy_from");
          const T cf = stdx::where(kk, cx).copy_from(static_cast<const T*>(&memv), stdx::element_aligned);
          if (not mon::same(cf, kk ? memv : cx)) mon::fail("const where(bool, T).copy_from");
          stdx::where(kk, cx).copy_to(&memv, stdx::element_aligned);
          if (not mon::same(memv, kk ? cx : y)) mon::fail("where(bool, T).copy_to");
        }
    }
}

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  A = new mon::arena(4096);
  for_all_types([](auto t) {
    using T = typename decltype(t)::t;
    for_all_simds<T>([](auto v) {
      using V = typename decltype(v)::t;
#define OP(name, kd, ch, op) assign_op<V>("where " #op, kd, ch, [](T& x, T y) { x op y; }, \
                                [](const auto& m, V& x, const auto& y) { stdx::where(m, x) op y; });
      OP(set, o_assign, '=', =)
      OP(add, o_arith, '+', +=) OP(sub, o_arith, '-', -=) OP(mul, o_arith, '*', *=) OP(div, o_div, '/', /=)
      if constexpr (std::is_integral_v<T>)
        {
          OP(mod, o_div, '%', %=) OP(band, o_bit, '&', &=) OP(bor, o_bit, '|', |=) OP(bxor, o_bit, '^', ^=)
          OP(shl, o_shift, '<', <<=) OP(shr, o_shift, '>', >>=)
        }
      others<V>();
      tlist<UELTS, T>::each([](auto u) { memory<V, typename decltype(u)::t>(); });
    });
  });
  delete A;
  return mon::finish();
}
