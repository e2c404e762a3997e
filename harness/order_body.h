// C30: one section per header of vir-simd; a section only relies on its own header. No standard headers here except
// those a section needs for its own oracle: the headers under test have to be self-contained.

struct observed { int n = 0; unsigned long long v[4000]; const char* w[4000]; int bad = -1; };

static void obs(observed& o, const char* w, double x, double want)
{
  if (o.n >= 4000) return;
  o.w[o.n] = w;
  __builtin_memcpy(&o.v[o.n], &x, 8);
  if (not (x == want) and o.bad < 0) o.bad = o.n;
  ++o.n;
}

template <typename V, typename F>
static void lanes(observed& o, const char* w, const V& v, F f)
{ for (unsigned i = 0; i < V::size(); ++i) obs(o, w, double(typename V::value_type(v[i])), double(f(int(i)))); }

static void body(observed& o, int salt)
{
#ifdef USE_simd
  {
    namespace stdx = vir::stdx;
    stdx::fixed_size_simd<int, 5> a([&](int i) { return i * 3 + salt; }), b = a * 2;
    where(a > 6 + salt, b) = 1;
    lanes(o, "simd.h", b, [&](int i) { return i * 3 > 6 ? 1 : (i * 3 + salt) * 2; });
    obs(o, "simd.h", popcount(a > 6 + salt), 2);
    obs(o, "simd.h", reduce(b), (0 + 3 + 6 + 3 * salt) * 2 + 2);
    stdx::native_simd<float> f = float(salt);
    lanes(o, "simd.h", f + 1.f, [&](int) { return salt + 1; });
    lanes(o, "simd.h", sqrt(f * f), [&](int) { return salt; });
  }
#endif
#ifdef USE_simd_cast
  {
    vir::stdx::fixed_size_simd<int, 4> a([&](int i) { return i + salt; });
    lanes(o, "simd_cast.h", vir::static_simd_cast<vir::stdx::fixed_size_simd_mask<float, 4>>(a > 1 + salt),
          [&](int i) { return i > 1; });
  }
#endif
#ifdef USE_simd_bit
  {
    vir::stdx::fixed_size_simd<unsigned, 4> a([&](unsigned i) { return 0x3f800000u + (i << 23); });
    lanes(o, "simd_bit.h", vir::simd_bit_cast<vir::stdx::fixed_size_simd<float, 4>>(a), [&](int i) { return 1 << i; });
  }
#endif
#ifdef USE_simd_bitset
  {
    vir::stdx::fixed_size_simd<int, 6> a([&](int i) { return i; });
    auto b = vir::to_bitset(a > 2);
    for (int i = 0; i < 6; ++i) obs(o, "simd_bitset.h", b[i], i > 2);
    lanes(o, "simd_bitset.h", vir::to_simd_mask<vir::stdx::fixed_size_simd_mask<int, 6>>(b), [&](int i) { return i > 2; });
  }
#endif
#ifdef USE_simd_float_ops
  {
    using namespace vir::simd_float_ops;
    vir::stdx::native_simd<float> a = -float(salt), b = -0.f;
    lanes(o, "simd_float_ops.h", a ^ b, [&](int) { return salt; });
  }
#endif
#ifdef USE_simd_resize
  {
    vir::stdx::fixed_size_simd<int, 3> a([&](int i) { return i + salt; });
    lanes(o, "simd_resize.h", vir::simd_resize<5>(a), [&](int i) { return i < 3 ? i + salt : 0; });
  }
#endif
#ifdef USE_simd_version
  obs(o, "simd_version.h", vir::simd_version == vir::simd_version, 1);
  obs(o, "simd_version.h", vir::simd_version < vir::simd_version_t{1000, 0, 0}, 1);
#endif
#if __cplusplus > 201703L
#ifdef USE_constexpr_wrapper
  {
    using namespace vir::literals;
    auto c = 3_cw + vir::cw<4>;
    obs(o, "constexpr_wrapper.h", decltype(c)::value, 7);
  }
#endif
#ifdef USE_simd_concepts
  obs(o, "simd_concepts.h", vir::sized_simd<vir::stdx::fixed_size_simd<int, 3>, 3>, 1);
#endif
#ifdef USE_simd_cvt
  {
    vir::stdx::fixed_size_simd<int, 4> a([&](int i) { return i + salt; });
    vir::stdx::fixed_size_simd<float, 4> f = vir::cvt(a);
    lanes(o, "simd_cvt.h", f, [&](int i) { return i + salt; });
  }
#endif
#ifdef USE_simd_iota
  lanes(o, "simd_iota.h", vir::iota_v<vir::stdx::fixed_size_simd<int, 7>>, [&](int i) { return i; });
#endif
#ifdef USE_simd_permute
  {
    vir::stdx::native_simd<int> a([&](int i) { return i + salt; });
    const int n = a.size();
    lanes(o, "simd_permute.h", vir::simd_permute(a, vir::simd_permutations::reverse), [&](int i) { return n - 1 - i + salt; });
    lanes(o, "simd_permute.h", vir::simd_permute(a, vir::simd_permutations::rotate<1>), [&](int i) { return (i + 1) % n + salt; });
  }
#endif
#ifdef USE_simd_benchmarking
  {
    vir::stdx::native_simd<float> a = float(salt + 4);
    int i = salt;
    vir::fake_modify(a, i);
    vir::fake_read(a, i);
    lanes(o, "simd_benchmarking.h", a, [&](int) { return salt + 4; });
    obs(o, "simd_benchmarking.h", i, salt);
  }
#endif
#ifdef USE_struct_reflect
  {
    struct S { int a; float b; char c; } s{salt, 2.f, 3};
    obs(o, "struct_reflect.h", vir::struct_size_v<S>, 3);
    obs(o, "struct_reflect.h", vir::struct_get<0>(s), salt);
    obs(o, "struct_reflect.h", vir::struct_get<1>(s), 2);
    obs(o, "struct_reflect.h", vir::struct_get<2>(s), 3);
  }
#endif
#ifdef USE_simdize
  {
    std::tuple<int, float> t[8];
    for (int i = 0; i < 8; ++i) t[i] = {i + salt, i * 2.f};
    vir::simdize<std::tuple<int, float>, 8> v;
    v.copy_from(t, vir::stdx::element_aligned);
    lanes(o, "simdize.h", std::get<0>(v), [&](int i) { return i + salt; });
    lanes(o, "simdize.h", std::get<1>(v), [&](int i) { return i * 2; });
  }
#endif
#ifdef USE_simd_execution
  {
    int a[37], b[37];
    for (int i = 0; i < 37; ++i) { a[i] = i; b[i] = 0; }
    vir::for_each(vir::execution::simd, a, [&](auto& x) { x += salt; });
    for (int i = 0; i < 37; ++i) obs(o, "for_each", a[i], i + salt);
    vir::transform(vir::execution::simd.unroll_by<2>(), a, b, [](auto x) { return x * 2; });
    for (int i = 0; i < 37; ++i) obs(o, "transform", b[i], 2 * (i + salt));
    obs(o, "reduce", vir::reduce(vir::execution::simd, a), 37 * 18 + 37 * salt);
    obs(o, "transform_reduce", vir::transform_reduce(vir::execution::simd.prefer_size<4>(), a, b, 0), [&] {
      int s = 0; for (int i = 0; i < 37; ++i) s += a[i] * b[i]; return s; }());
    obs(o, "count_if", vir::count_if(vir::execution::simd, a, [&](auto x) { return x > 10 + salt; }), 26);
  }
#endif
#endif
  obs(o, "end", salt, salt);
}
