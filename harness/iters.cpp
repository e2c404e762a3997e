// C28 monitor: the algorithms use iterators the way the iterator requirements allow. A checked contiguous iterator
// observes every operation the real code performs on it: iterators outside [begin, end], dereferencing the end,
// comparing or subtracting iterators of different ranges and using singular iterators are violations.
#include "policies.h"
#include <algorithm>
#include <compare>
#include <iterator>
#include <span>
#include <vector>
#ifndef ELT
#define ELT int
#endif
using T = ELT;

static std::uint64_t iterator_ops;
static const char* range_names[] = {"first input", "second input", "output"};

template <typename U>
struct range_info { U* lo; std::size_t n; int id; };

template <typename U>
class checked
{
  U* p_ = nullptr;
  const range_info<U>* r_ = nullptr;

  void valid(U* q, const char* op)
  {
    ++iterator_ops;
    if (r_ == nullptr)
      { if (mon::viols < 50) mon::fail("operator%s on a singular iterator", op); return; }
    // (as integers: that is the point)
    const std::intptr_t off = ((std::intptr_t)q - (std::intptr_t)r_->lo) / (std::intptr_t)sizeof(U);
    if (off < 0 or off > (std::intptr_t)r_->n)
      if (mon::viols < 50)
        mon::fail("operator%s forms an iterator to position %td of the %s range with %zu elements", op, off,
                  range_names[r_->id], r_->n);
  }
  void related(const checked& o, const char* op) const
  {
    ++iterator_ops;
    if (r_ != o.r_ and mon::viols < 50) mon::fail("operator%s on iterators of different ranges", op);
    if (r_ == nullptr and mon::viols < 50) mon::fail("operator%s on singular iterators", op);
  }
  U* at(std::ptrdiff_t n) const
  { return (U*)((std::intptr_t)p_ + n * (std::ptrdiff_t)sizeof(U)); }

public:
  using iterator_concept = std::contiguous_iterator_tag;
  using iterator_category = std::random_access_iterator_tag;
  using value_type = std::remove_cv_t<U>;
  using element_type = U;
  using difference_type = std::ptrdiff_t;
  using pointer = U*;
  using reference = U&;

  checked() = default;
  checked(const range_info<U>& r, std::size_t pos) : p_(r.lo + pos), r_(&r) {}

  reference operator*() const
  {
    ++iterator_ops;
    if (r_ == nullptr or p_ < r_->lo or p_ >= r_->lo + r_->n)
      if (mon::viols < 50) mon::fail("dereferences an iterator that does not point to an element");
    return *p_;
  }
  pointer operator->() const { ++iterator_ops; return p_; } // std::to_address, valid for the end, too
  reference operator[](difference_type n) const { return *(*this + n); }
  checked& operator+=(difference_type n) { p_ = at(n); valid(p_, "+="); return *this; }
  checked& operator-=(difference_type n) { p_ = at(-n); valid(p_, "-="); return *this; }
  checked& operator++() { p_ = at(1); valid(p_, "++"); return *this; }
  checked& operator--() { p_ = at(-1); valid(p_, "--"); return *this; }
  checked operator++(int) { checked c = *this; ++*this; return c; }
  checked operator--(int) { checked c = *this; --*this; return c; }
  friend checked operator+(checked a, difference_type n) { a.p_ = a.at(n); a.valid(a.p_, "+"); return a; }
  friend checked operator+(difference_type n, checked a) { return a + n; }
  friend checked operator-(checked a, difference_type n) { a.p_ = a.at(-n); a.valid(a.p_, "-"); return a; }
  friend difference_type operator-(const checked& a, const checked& b)
  { a.related(b, "-"); return a.p_ - b.p_; }
  friend bool operator==(const checked& a, const checked& b) { a.related(b, "=="); return a.p_ == b.p_; }
  friend auto operator<=>(const checked& a, const checked& b) { a.related(b, "<=>"); return a.p_ <=> b.p_; }
};
static_assert(std::contiguous_iterator<checked<T>> and std::contiguous_iterator<checked<const T>>);

template <typename U>
struct checked_range
{
  range_info<U> info;
  checked<U> begin() const { return {info, 0}; }
  checked<U> end() const { return {info, info.n}; }
};

template <typename Pol>
static void one(Pol pol, const char* name, std::size_t n, mon::rng& r)
{
  static std::vector<T> a(8192), b(8192), o(8192);
  const std::size_t oa = r.below(40), ob = r.below(40), oo = r.below(40);
  for (std::size_t i = 0; i < n + 80; ++i) { a[i] = T(i % 23); b[i] = T(i % 7); o[i] = T(99); }
  const range_info<T> ra{a.data() + oa, n, 0}, rb{b.data() + ob, n, 1}, ro{o.data() + oo, n, 2};
  const range_info<const T> ca{a.data() + oa, n, 0}, cb{b.data() + ob, n, 1};
  using I = checked<T>;
  using C = checked<const T>;
  checked_range<T> orng{ro};
  auto start = [&](const char* w) { mon::begin(w, name, n, oa, ob, oo); ++mon::evals; if (n) mon::nontrivial(); };
  auto out = [&](const char* w, auto&& f) {
    for (std::size_t i = 0; i < n; ++i)
      if (ro.lo[i] != T(f(ra.lo[i], rb.lo[i]))) { mon::fail("%s: element %zu wrong", w, i); break; }
    for (std::size_t i = 0; i < n; ++i) ro.lo[i] = T(99);
  };
  const auto p = pol.real();
  start("for_each (write)");
  vir::for_each(p, I(ro, 0), I(ro, n), [](auto&... x) { ((x += T(1)), ...); });
  out("for_each", [](T, T) { return T(100); });
  start("for_each (range)");
  vir::for_each(p, checked_range<T>{ro}, [](auto&... x) { ((x -= T(1)), ...); });
  out("for_each", [](T, T) { return T(98); });
  start("std::for_each (read)");
  std::size_t lanes = 0;
  std::for_each(p, C(ca, 0), C(ca, n), [&](const auto&... x) { ((lanes += x.size()), ...); });
  if (lanes != n) mon::fail("saw %zu lanes", lanes);
  start("transform");
  if (vir::transform(p, checked_range<const T>{ca}, orng, [](const auto& x) { return x + T(1); }), true)
    out("transform", [](T x, T) { return x + T(1); });
  start("std::transform");
  if (std::transform(p, C(ca, 0), C(ca, n), I(ro, 0), [](const auto& x) { return x + T(2); }) != I(ro, n))
    mon::fail("returned iterator is not the end of the output range");
  out("std::transform", [](T x, T) { return x + T(2); });
  start("std::transform (binary)");
  if (std::transform(p, C(ca, 0), C(ca, n), I(rb, 0), I(ro, 0), [](const auto& x, const auto& y) { return x + y; }) != I(ro, n))
    mon::fail("returned iterator is not the end of the output range");
  out("std::transform", [](T x, T y) { return x + y; });
  start("transform (binary, ranges)");
  vir::transform(p, checked_range<const T>{ca}, checked_range<const T>{cb}, orng, [](const auto& x, const auto& y) { return x - y; });
  out("transform", [](T x, T y) { return x - y; });
  T sum = T(3), dot = T(3); int cnt = 0; T mx = T(0);
  for (std::size_t i = 0; i < n; ++i)
    { sum = T(sum + ra.lo[i]); dot = T(dot + ra.lo[i] * rb.lo[i]); cnt += ra.lo[i] > T(4); mx = std::max(mx, ra.lo[i]); }
  start("std::reduce");
  if (std::reduce(p, C(ca, 0), C(ca, n), T(3)) != sum) mon::fail("wrong sum");
  start("reduce");
  if (vir::reduce(p, checked_range<T>{ra}, T(3)) != sum) mon::fail("wrong sum");
  start("std::transform_reduce");
  if (std::transform_reduce(p, I(ra, 0), I(ra, n), C(cb, 0), T(3)) != dot) mon::fail("wrong inner product");
  start("transform_reduce");
  if (vir::transform_reduce(p, checked_range<const T>{ca}, T(0), [](const auto& x, const auto& y) { using std::max; using vir::stdx::max; return max(x, y); },
                            [](const auto& x) { return x; }) != mx) mon::fail("wrong maximum");
  start("std::count_if");
  if (std::count_if(p, C(ca, 0), C(ca, n), [](const auto& x) { return x > T(4); }) != cnt) mon::fail("wrong count");
  start("count_if");
  if (vir::count_if(p, checked_range<T>{ra}, [](const auto& x) { return x > T(4); }) != cnt) mon::fail("wrong count");
}

template <typename Pol>
static void sweep(Pol pol, const char* name)
{
  constexpr int W = vir::simdize<T, Pol::_size>::size();
  constexpr int U = Pol::_unroll_by;
  const int N = Pol::_assume_matching_size ? (3 * std::max(U, 1) + 2) * W : 3 * W * std::max(U, 1) + 2 * W + 3;
  mon::rng r(mon::hash_str(name));
  for (int n = 0; n <= N; n += Pol::_assume_matching_size ? W : 1)
    for (int rep = 0; rep < (mon::thorough ? 20 : 3); ++rep)
      one(pol, name, n, r);
  if (not Pol::_assume_matching_size)
    for (int k = 0; k < (mon::thorough ? 100 : 10); ++k)
      one(pol, name, 4000 / sizeof(T) - 20 + r.below(120), r);
}

// the checked iterators of the standard library (with -D_GLIBCXX_DEBUG: aborts on misuse)
#ifdef LIBCHECKS
template <typename Pol>
static void library(Pol pol, const char* name)
{
  constexpr int W = vir::simdize<T, Pol::_size>::size();
  for (int n = 0; n < 4 * W * std::max(Pol::_unroll_by, 1) + 3; n += Pol::_assume_matching_size ? W : 1)
    {
      mon::begin("std::vector", name, n); ++mon::evals; mon::nontrivial();
      std::vector<T> a(n), b(n), o(n);
      for (int i = 0; i < n; ++i) { a[i] = T(i % 23); b[i] = T(i % 7); }
      const auto p = pol.real();
      vir::for_each(p, a, [](auto&... x) { ((x += T(1)), ...); });
      for (int i = 0; i < n; ++i) if (a[i] != T(i % 23 + 1)) { mon::fail("element %d wrong", i); break; }
      vir::transform(p, a, b, o, [](const auto& x, const auto& y) { return x + y; });
      for (int i = 0; i < n; ++i) if (o[i] != T(a[i] + b[i])) { mon::fail("element %d wrong", i); break; }
      if (std::transform(p, a.cbegin(), a.cend(), o.begin(), [](const auto& x) { return x; }) != o.end()) mon::fail("returned iterator");
      if (o != a) mon::fail("copy differs");
      T s = T(0); int c = 0;
      for (T x : a) { s = T(s + x); c += x > T(4); }
      if (vir::reduce(p, a.begin(), a.end(), T(0)) != s or std::reduce(p, a.cbegin(), a.cend()) != s) mon::fail("sum");
      if (vir::transform_reduce(p, a, T(0), std::plus<>(), [](const auto& x) { return x; }) != s) mon::fail("sum");
      if (vir::count_if(p, a, [](const auto& x) { return x > T(4); }) != c) mon::fail("count");
    }
}
#endif

int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for_all_policies([](auto pol, const char* name) {
#ifdef LIBCHECKS
    library(pol, name);
#else
    sweep(pol, name);
#endif
  });
  mon::events = iterator_ops;
  return mon::finish();
}
