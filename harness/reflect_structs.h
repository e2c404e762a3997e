// generated by tools/gen_reflect.py
#pragma once
struct e_a {}; struct e_b {}; struct e_c {};
struct A1 { double m0; };
template <> struct members<A1> { static constexpr int n = 1; static auto tie(auto& s) { return std::tie(s.m0); } };
struct H1 { float m0; };
template <> struct members<H1> { static constexpr int n = 1; static auto tie(auto& s) { return std::tie(s.m0); } };
struct E1 : e_a { short m0; };
template <> struct members<E1> { static constexpr int n = 1; static auto tie(auto& s) { return std::tie(s.m0); } };
struct A2 { short m0; unsigned char m1; };
template <> struct members<A2> { static constexpr int n = 2; static auto tie(auto& s) { return std::tie(s.m0, s.m1); } };
struct H2 { unsigned char m0; unsigned char m1; };
template <> struct members<H2> { static constexpr int n = 2; static auto tie(auto& s) { return std::tie(s.m0, s.m1); } };
struct E2 : e_a, e_b { long long m0; unsigned char m1; };
template <> struct members<E2> { static constexpr int n = 2; static auto tie(auto& s) { return std::tie(s.m0, s.m1); } };
struct A3 { float m0; int m1; void* m2; };
template <> struct members<A3> { static constexpr int n = 3; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2); } };
struct H3 { int m0; int m1; int m2; };
template <> struct members<H3> { static constexpr int n = 3; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2); } };
struct E3 : e_a, e_b, e_c { int m0; bool m1; unsigned short m2; };
template <> struct members<E3> { static constexpr int n = 3; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2); } };
struct A4 { long long m0; bool m1; long double m2; short m3; };
template <> struct members<A4> { static constexpr int n = 4; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3); } };
struct H4 { float m0; float m1; float m2; float m3; };
template <> struct members<H4> { static constexpr int n = 4; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3); } };
struct E4 { unsigned short m0; void* m1; long double m2; char m3; };
template <> struct members<E4> { static constexpr int n = 4; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3); } };
struct A5 { unsigned char m0; unsigned short m1; char m2; float m3; int m4; };
template <> struct members<A5> { static constexpr int n = 5; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4); } };
struct H5 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; };
template <> struct members<H5> { static constexpr int n = 5; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4); } };
struct E5 : e_a { long double m0; char m1; double m2; short m3; float m4; };
template <> struct members<E5> { static constexpr int n = 5; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4); } };
struct A6 { int m0; void* m1; double m2; long long m3; bool m4; long double m5; };
template <> struct members<A6> { static constexpr int n = 6; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5); } };
struct H6 { int m0; int m1; int m2; int m3; int m4; int m5; };
template <> struct members<H6> { static constexpr int n = 6; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5); } };
struct E6 : e_a, e_b { double m0; short m1; float m2; long long m3; unsigned char m4; int m5; };
template <> struct members<E6> { static constexpr int n = 6; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5); } };
struct A7 { bool m0; long double m1; short m2; unsigned char m3; unsigned short m4; char m5; float m6; };
template <> struct members<A7> { static constexpr int n = 7; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6); } };
struct H7 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; };
template <> struct members<H7> { static constexpr int n = 7; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6); } };
struct E7 : e_a, e_b, e_c { float m0; long long m1; unsigned char m2; int m3; bool m4; unsigned short m5; void* m6; };
template <> struct members<E7> { static constexpr int n = 7; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6); } };
struct A8 { unsigned short m0; char m1; float m2; int m3; void* m4; double m5; long long m6; bool m7; };
template <> struct members<A8> { static constexpr int n = 8; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7); } };
struct H8 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; };
template <> struct members<H8> { static constexpr int n = 8; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7); } };
struct E8 { unsigned char m0; int m1; bool m2; unsigned short m3; void* m4; long double m5; char m6; double m7; };
template <> struct members<E8> { static constexpr int n = 8; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7); } };
struct A9 { void* m0; double m1; long long m2; bool m3; long double m4; short m5; unsigned char m6; unsigned short m7; char m8; };
template <> struct members<A9> { static constexpr int n = 9; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8); } };
struct H9 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; };
template <> struct members<H9> { static constexpr int n = 9; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8); } };
struct E9 : e_a { bool m0; unsigned short m1; void* m2; long double m3; char m4; double m5; short m6; float m7; long long m8; };
template <> struct members<E9> { static constexpr int n = 9; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8); } };
struct A10 { long double m0; short m1; unsigned char m2; unsigned short m3; char m4; float m5; int m6; void* m7; double m8; long long m9; };
template <> struct members<A10> { static constexpr int n = 10; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9); } };
struct H10 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; };
template <> struct members<H10> { static constexpr int n = 10; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9); } };
struct E10 : e_a, e_b { void* m0; long double m1; char m2; double m3; short m4; float m5; long long m6; unsigned char m7; int m8; bool m9; };
template <> struct members<E10> { static constexpr int n = 10; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9); } };
struct A11 { char m0; float m1; int m2; void* m3; double m4; long long m5; bool m6; long double m7; short m8; unsigned char m9; unsigned short m10; };
template <> struct members<A11> { static constexpr int n = 11; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10); } };
struct H11 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; };
template <> struct members<H11> { static constexpr int n = 11; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10); } };
struct E11 : e_a, e_b, e_c { char m0; double m1; short m2; float m3; long long m4; unsigned char m5; int m6; bool m7; unsigned short m8; void* m9; long double m10; };
template <> struct members<E11> { static constexpr int n = 11; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10); } };
struct A12 { double m0; long long m1; bool m2; long double m3; short m4; unsigned char m5; unsigned short m6; char m7; float m8; int m9; void* m10; double m11; };
template <> struct members<A12> { static constexpr int n = 12; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11); } };
struct H12 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; };
template <> struct members<H12> { static constexpr int n = 12; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11); } };
struct E12 { short m0; float m1; long long m2; unsigned char m3; int m4; bool m5; unsigned short m6; void* m7; long double m8; char m9; double m10; short m11; };
template <> struct members<E12> { static constexpr int n = 12; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11); } };
struct A13 { short m0; unsigned char m1; unsigned short m2; char m3; float m4; int m5; void* m6; double m7; long long m8; bool m9; long double m10; short m11; unsigned char m12; };
template <> struct members<A13> { static constexpr int n = 13; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12); } };
struct H13 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; };
template <> struct members<H13> { static constexpr int n = 13; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12); } };
struct E13 : e_a { long long m0; unsigned char m1; int m2; bool m3; unsigned short m4; void* m5; long double m6; char m7; double m8; short m9; float m10; long long m11; unsigned char m12; };
template <> struct members<E13> { static constexpr int n = 13; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12); } };
struct A14 { float m0; int m1; void* m2; double m3; long long m4; bool m5; long double m6; short m7; unsigned char m8; unsigned short m9; char m10; float m11; int m12; void* m13; };
template <> struct members<A14> { static constexpr int n = 14; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13); } };
struct H14 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; };
template <> struct members<H14> { static constexpr int n = 14; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13); } };
struct E14 : e_a, e_b { int m0; bool m1; unsigned short m2; void* m3; long double m4; char m5; double m6; short m7; float m8; long long m9; unsigned char m10; int m11; bool m12; unsigned short m13; };
template <> struct members<E14> { static constexpr int n = 14; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13); } };
struct A15 { long long m0; bool m1; long double m2; short m3; unsigned char m4; unsigned short m5; char m6; float m7; int m8; void* m9; double m10; long long m11; bool m12; long double m13; short m14; };
template <> struct members<A15> { static constexpr int n = 15; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14); } };
struct H15 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; };
template <> struct members<H15> { static constexpr int n = 15; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14); } };
struct E15 : e_a, e_b, e_c { unsigned short m0; void* m1; long double m2; char m3; double m4; short m5; float m6; long long m7; unsigned char m8; int m9; bool m10; unsigned short m11; void* m12; long double m13; char m14; };
template <> struct members<E15> { static constexpr int n = 15; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14); } };
struct A16 { unsigned char m0; unsigned short m1; char m2; float m3; int m4; void* m5; double m6; long long m7; bool m8; long double m9; short m10; unsigned char m11; unsigned short m12; char m13; float m14; int m15; };
template <> struct members<A16> { static constexpr int n = 16; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15); } };
struct H16 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; };
template <> struct members<H16> { static constexpr int n = 16; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15); } };
struct E16 { long double m0; char m1; double m2; short m3; float m4; long long m5; unsigned char m6; int m7; bool m8; unsigned short m9; void* m10; long double m11; char m12; double m13; short m14; float m15; };
template <> struct members<E16> { static constexpr int n = 16; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15); } };
struct A17 { int m0; void* m1; double m2; long long m3; bool m4; long double m5; short m6; unsigned char m7; unsigned short m8; char m9; float m10; int m11; void* m12; double m13; long long m14; bool m15; long double m16; };
template <> struct members<A17> { static constexpr int n = 17; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16); } };
struct H17 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; };
template <> struct members<H17> { static constexpr int n = 17; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16); } };
struct E17 : e_a { double m0; short m1; float m2; long long m3; unsigned char m4; int m5; bool m6; unsigned short m7; void* m8; long double m9; char m10; double m11; short m12; float m13; long long m14; unsigned char m15; int m16; };
template <> struct members<E17> { static constexpr int n = 17; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16); } };
struct A18 { bool m0; long double m1; short m2; unsigned char m3; unsigned short m4; char m5; float m6; int m7; void* m8; double m9; long long m10; bool m11; long double m12; short m13; unsigned char m14; unsigned short m15; char m16; float m17; };
template <> struct members<A18> { static constexpr int n = 18; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17); } };
struct H18 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; };
template <> struct members<H18> { static constexpr int n = 18; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17); } };
struct E18 : e_a, e_b { float m0; long long m1; unsigned char m2; int m3; bool m4; unsigned short m5; void* m6; long double m7; char m8; double m9; short m10; float m11; long long m12; unsigned char m13; int m14; bool m15; unsigned short m16; void* m17; };
template <> struct members<E18> { static constexpr int n = 18; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17); } };
struct A19 { unsigned short m0; char m1; float m2; int m3; void* m4; double m5; long long m6; bool m7; long double m8; short m9; unsigned char m10; unsigned short m11; char m12; float m13; int m14; void* m15; double m16; long long m17; bool m18; };
template <> struct members<A19> { static constexpr int n = 19; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18); } };
struct H19 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; };
template <> struct members<H19> { static constexpr int n = 19; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18); } };
struct E19 : e_a, e_b, e_c { unsigned char m0; int m1; bool m2; unsigned short m3; void* m4; long double m5; char m6; double m7; short m8; float m9; long long m10; unsigned char m11; int m12; bool m13; unsigned short m14; void* m15; long double m16; char m17; double m18; };
template <> struct members<E19> { static constexpr int n = 19; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18); } };
struct A20 { void* m0; double m1; long long m2; bool m3; long double m4; short m5; unsigned char m6; unsigned short m7; char m8; float m9; int m10; void* m11; double m12; long long m13; bool m14; long double m15; short m16; unsigned char m17; unsigned short m18; char m19; };
template <> struct members<A20> { static constexpr int n = 20; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19); } };
struct H20 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; };
template <> struct members<H20> { static constexpr int n = 20; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19); } };
struct E20 { bool m0; unsigned short m1; void* m2; long double m3; char m4; double m5; short m6; float m7; long long m8; unsigned char m9; int m10; bool m11; unsigned short m12; void* m13; long double m14; char m15; double m16; short m17; float m18; long long m19; };
template <> struct members<E20> { static constexpr int n = 20; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19); } };
struct A21 { long double m0; short m1; unsigned char m2; unsigned short m3; char m4; float m5; int m6; void* m7; double m8; long long m9; bool m10; long double m11; short m12; unsigned char m13; unsigned short m14; char m15; float m16; int m17; void* m18; double m19; long long m20; };
template <> struct members<A21> { static constexpr int n = 21; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20); } };
struct H21 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; };
template <> struct members<H21> { static constexpr int n = 21; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20); } };
struct E21 : e_a { void* m0; long double m1; char m2; double m3; short m4; float m5; long long m6; unsigned char m7; int m8; bool m9; unsigned short m10; void* m11; long double m12; char m13; double m14; short m15; float m16; long long m17; unsigned char m18; int m19; bool m20; };
template <> struct members<E21> { static constexpr int n = 21; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20); } };
struct A22 { char m0; float m1; int m2; void* m3; double m4; long long m5; bool m6; long double m7; short m8; unsigned char m9; unsigned short m10; char m11; float m12; int m13; void* m14; double m15; long long m16; bool m17; long double m18; short m19; unsigned char m20; unsigned short m21; };
template <> struct members<A22> { static constexpr int n = 22; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21); } };
struct H22 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; float m19; float m20; float m21; };
template <> struct members<H22> { static constexpr int n = 22; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21); } };
struct E22 : e_a, e_b { char m0; double m1; short m2; float m3; long long m4; unsigned char m5; int m6; bool m7; unsigned short m8; void* m9; long double m10; char m11; double m12; short m13; float m14; long long m15; unsigned char m16; int m17; bool m18; unsigned short m19; void* m20; long double m21; };
template <> struct members<E22> { static constexpr int n = 22; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21); } };
struct A23 { double m0; long long m1; bool m2; long double m3; short m4; unsigned char m5; unsigned short m6; char m7; float m8; int m9; void* m10; double m11; long long m12; bool m13; long double m14; short m15; unsigned char m16; unsigned short m17; char m18; float m19; int m20; void* m21; double m22; };
template <> struct members<A23> { static constexpr int n = 23; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22); } };
struct H23 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; unsigned char m20; unsigned char m21; unsigned char m22; };
template <> struct members<H23> { static constexpr int n = 23; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22); } };
struct E23 : e_a, e_b, e_c { short m0; float m1; long long m2; unsigned char m3; int m4; bool m5; unsigned short m6; void* m7; long double m8; char m9; double m10; short m11; float m12; long long m13; unsigned char m14; int m15; bool m16; unsigned short m17; void* m18; long double m19; char m20; double m21; short m22; };
template <> struct members<E23> { static constexpr int n = 23; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22); } };
struct A24 { short m0; unsigned char m1; unsigned short m2; char m3; float m4; int m5; void* m6; double m7; long long m8; bool m9; long double m10; short m11; unsigned char m12; unsigned short m13; char m14; float m15; int m16; void* m17; double m18; long long m19; bool m20; long double m21; short m22; unsigned char m23; };
template <> struct members<A24> { static constexpr int n = 24; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23); } };
struct H24 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; };
template <> struct members<H24> { static constexpr int n = 24; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23); } };
struct E24 { long long m0; unsigned char m1; int m2; bool m3; unsigned short m4; void* m5; long double m6; char m7; double m8; short m9; float m10; long long m11; unsigned char m12; int m13; bool m14; unsigned short m15; void* m16; long double m17; char m18; double m19; short m20; float m21; long long m22; unsigned char m23; };
template <> struct members<E24> { static constexpr int n = 24; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23); } };
struct A25 { float m0; int m1; void* m2; double m3; long long m4; bool m5; long double m6; short m7; unsigned char m8; unsigned short m9; char m10; float m11; int m12; void* m13; double m14; long long m15; bool m16; long double m17; short m18; unsigned char m19; unsigned short m20; char m21; float m22; int m23; void* m24; };
template <> struct members<A25> { static constexpr int n = 25; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24); } };
struct H25 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; float m19; float m20; float m21; float m22; float m23; float m24; };
template <> struct members<H25> { static constexpr int n = 25; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24); } };
struct E25 : e_a { int m0; bool m1; unsigned short m2; void* m3; long double m4; char m5; double m6; short m7; float m8; long long m9; unsigned char m10; int m11; bool m12; unsigned short m13; void* m14; long double m15; char m16; double m17; short m18; float m19; long long m20; unsigned char m21; int m22; bool m23; unsigned short m24; };
template <> struct members<E25> { static constexpr int n = 25; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24); } };
struct A26 { long long m0; bool m1; long double m2; short m3; unsigned char m4; unsigned short m5; char m6; float m7; int m8; void* m9; double m10; long long m11; bool m12; long double m13; short m14; unsigned char m15; unsigned short m16; char m17; float m18; int m19; void* m20; double m21; long long m22; bool m23; long double m24; short m25; };
template <> struct members<A26> { static constexpr int n = 26; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25); } };
struct H26 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; unsigned char m20; unsigned char m21; unsigned char m22; unsigned char m23; unsigned char m24; unsigned char m25; };
template <> struct members<H26> { static constexpr int n = 26; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25); } };
struct E26 : e_a, e_b { unsigned short m0; void* m1; long double m2; char m3; double m4; short m5; float m6; long long m7; unsigned char m8; int m9; bool m10; unsigned short m11; void* m12; long double m13; char m14; double m15; short m16; float m17; long long m18; unsigned char m19; int m20; bool m21; unsigned short m22; void* m23; long double m24; char m25; };
template <> struct members<E26> { static constexpr int n = 26; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25); } };
struct A27 { unsigned char m0; unsigned short m1; char m2; float m3; int m4; void* m5; double m6; long long m7; bool m8; long double m9; short m10; unsigned char m11; unsigned short m12; char m13; float m14; int m15; void* m16; double m17; long long m18; bool m19; long double m20; short m21; unsigned char m22; unsigned short m23; char m24; float m25; int m26; };
template <> struct members<A27> { static constexpr int n = 27; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26); } };
struct H27 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; int m24; int m25; int m26; };
template <> struct members<H27> { static constexpr int n = 27; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26); } };
struct E27 : e_a, e_b, e_c { long double m0; char m1; double m2; short m3; float m4; long long m5; unsigned char m6; int m7; bool m8; unsigned short m9; void* m10; long double m11; char m12; double m13; short m14; float m15; long long m16; unsigned char m17; int m18; bool m19; unsigned short m20; void* m21; long double m22; char m23; double m24; short m25; float m26; };
template <> struct members<E27> { static constexpr int n = 27; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26); } };
struct A28 { int m0; void* m1; double m2; long long m3; bool m4; long double m5; short m6; unsigned char m7; unsigned short m8; char m9; float m10; int m11; void* m12; double m13; long long m14; bool m15; long double m16; short m17; unsigned char m18; unsigned short m19; char m20; float m21; int m22; void* m23; double m24; long long m25; bool m26; long double m27; };
template <> struct members<A28> { static constexpr int n = 28; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27); } };
struct H28 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; float m19; float m20; float m21; float m22; float m23; float m24; float m25; float m26; float m27; };
template <> struct members<H28> { static constexpr int n = 28; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27); } };
struct E28 { double m0; short m1; float m2; long long m3; unsigned char m4; int m5; bool m6; unsigned short m7; void* m8; long double m9; char m10; double m11; short m12; float m13; long long m14; unsigned char m15; int m16; bool m17; unsigned short m18; void* m19; long double m20; char m21; double m22; short m23; float m24; long long m25; unsigned char m26; int m27; };
template <> struct members<E28> { static constexpr int n = 28; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27); } };
struct A29 { bool m0; long double m1; short m2; unsigned char m3; unsigned short m4; char m5; float m6; int m7; void* m8; double m9; long long m10; bool m11; long double m12; short m13; unsigned char m14; unsigned short m15; char m16; float m17; int m18; void* m19; double m20; long long m21; bool m22; long double m23; short m24; unsigned char m25; unsigned short m26; char m27; float m28; };
template <> struct members<A29> { static constexpr int n = 29; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28); } };
struct H29 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; unsigned char m20; unsigned char m21; unsigned char m22; unsigned char m23; unsigned char m24; unsigned char m25; unsigned char m26; unsigned char m27; unsigned char m28; };
template <> struct members<H29> { static constexpr int n = 29; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28); } };
struct E29 : e_a { float m0; long long m1; unsigned char m2; int m3; bool m4; unsigned short m5; void* m6; long double m7; char m8; double m9; short m10; float m11; long long m12; unsigned char m13; int m14; bool m15; unsigned short m16; void* m17; long double m18; char m19; double m20; short m21; float m22; long long m23; unsigned char m24; int m25; bool m26; unsigned short m27; void* m28; };
template <> struct members<E29> { static constexpr int n = 29; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28); } };
struct A30 { unsigned short m0; char m1; float m2; int m3; void* m4; double m5; long long m6; bool m7; long double m8; short m9; unsigned char m10; unsigned short m11; char m12; float m13; int m14; void* m15; double m16; long long m17; bool m18; long double m19; short m20; unsigned char m21; unsigned short m22; char m23; float m24; int m25; void* m26; double m27; long long m28; bool m29; };
template <> struct members<A30> { static constexpr int n = 30; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29); } };
struct H30 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; int m24; int m25; int m26; int m27; int m28; int m29; };
template <> struct members<H30> { static constexpr int n = 30; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29); } };
struct E30 : e_a, e_b { unsigned char m0; int m1; bool m2; unsigned short m3; void* m4; long double m5; char m6; double m7; short m8; float m9; long long m10; unsigned char m11; int m12; bool m13; unsigned short m14; void* m15; long double m16; char m17; double m18; short m19; float m20; long long m21; unsigned char m22; int m23; bool m24; unsigned short m25; void* m26; long double m27; char m28; double m29; };
template <> struct members<E30> { static constexpr int n = 30; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29); } };
struct A31 { void* m0; double m1; long long m2; bool m3; long double m4; short m5; unsigned char m6; unsigned short m7; char m8; float m9; int m10; void* m11; double m12; long long m13; bool m14; long double m15; short m16; unsigned char m17; unsigned short m18; char m19; float m20; int m21; void* m22; double m23; long long m24; bool m25; long double m26; short m27; unsigned char m28; unsigned short m29; char m30; };
template <> struct members<A31> { static constexpr int n = 31; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30); } };
struct H31 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; float m19; float m20; float m21; float m22; float m23; float m24; float m25; float m26; float m27; float m28; float m29; float m30; };
template <> struct members<H31> { static constexpr int n = 31; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30); } };
struct E31 : e_a, e_b, e_c { bool m0; unsigned short m1; void* m2; long double m3; char m4; double m5; short m6; float m7; long long m8; unsigned char m9; int m10; bool m11; unsigned short m12; void* m13; long double m14; char m15; double m16; short m17; float m18; long long m19; unsigned char m20; int m21; bool m22; unsigned short m23; void* m24; long double m25; char m26; double m27; short m28; float m29; long long m30; };
template <> struct members<E31> { static constexpr int n = 31; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30); } };
struct A32 { long double m0; short m1; unsigned char m2; unsigned short m3; char m4; float m5; int m6; void* m7; double m8; long long m9; bool m10; long double m11; short m12; unsigned char m13; unsigned short m14; char m15; float m16; int m17; void* m18; double m19; long long m20; bool m21; long double m22; short m23; unsigned char m24; unsigned short m25; char m26; float m27; int m28; void* m29; double m30; long long m31; };
template <> struct members<A32> { static constexpr int n = 32; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31); } };
struct H32 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; unsigned char m20; unsigned char m21; unsigned char m22; unsigned char m23; unsigned char m24; unsigned char m25; unsigned char m26; unsigned char m27; unsigned char m28; unsigned char m29; unsigned char m30; unsigned char m31; };
template <> struct members<H32> { static constexpr int n = 32; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31); } };
struct E32 { void* m0; long double m1; char m2; double m3; short m4; float m5; long long m6; unsigned char m7; int m8; bool m9; unsigned short m10; void* m11; long double m12; char m13; double m14; short m15; float m16; long long m17; unsigned char m18; int m19; bool m20; unsigned short m21; void* m22; long double m23; char m24; double m25; short m26; float m27; long long m28; unsigned char m29; int m30; bool m31; };
template <> struct members<E32> { static constexpr int n = 32; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31); } };
struct A33 { char m0; float m1; int m2; void* m3; double m4; long long m5; bool m6; long double m7; short m8; unsigned char m9; unsigned short m10; char m11; float m12; int m13; void* m14; double m15; long long m16; bool m17; long double m18; short m19; unsigned char m20; unsigned short m21; char m22; float m23; int m24; void* m25; double m26; long long m27; bool m28; long double m29; short m30; unsigned char m31; unsigned short m32; };
template <> struct members<A33> { static constexpr int n = 33; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32); } };
struct H33 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; int m24; int m25; int m26; int m27; int m28; int m29; int m30; int m31; int m32; };
template <> struct members<H33> { static constexpr int n = 33; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32); } };
struct E33 : e_a { char m0; double m1; short m2; float m3; long long m4; unsigned char m5; int m6; bool m7; unsigned short m8; void* m9; long double m10; char m11; double m12; short m13; float m14; long long m15; unsigned char m16; int m17; bool m18; unsigned short m19; void* m20; long double m21; char m22; double m23; short m24; float m25; long long m26; unsigned char m27; int m28; bool m29; unsigned short m30; void* m31; long double m32; };
template <> struct members<E33> { static constexpr int n = 33; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32); } };
struct A34 { double m0; long long m1; bool m2; long double m3; short m4; unsigned char m5; unsigned short m6; char m7; float m8; int m9; void* m10; double m11; long long m12; bool m13; long double m14; short m15; unsigned char m16; unsigned short m17; char m18; float m19; int m20; void* m21; double m22; long long m23; bool m24; long double m25; short m26; unsigned char m27; unsigned short m28; char m29; float m30; int m31; void* m32; double m33; };
template <> struct members<A34> { static constexpr int n = 34; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33); } };
struct H34 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; float m19; float m20; float m21; float m22; float m23; float m24; float m25; float m26; float m27; float m28; float m29; float m30; float m31; float m32; float m33; };
template <> struct members<H34> { static constexpr int n = 34; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33); } };
struct E34 : e_a, e_b { short m0; float m1; long long m2; unsigned char m3; int m4; bool m5; unsigned short m6; void* m7; long double m8; char m9; double m10; short m11; float m12; long long m13; unsigned char m14; int m15; bool m16; unsigned short m17; void* m18; long double m19; char m20; double m21; short m22; float m23; long long m24; unsigned char m25; int m26; bool m27; unsigned short m28; void* m29; long double m30; char m31; double m32; short m33; };
template <> struct members<E34> { static constexpr int n = 34; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33); } };
struct A35 { short m0; unsigned char m1; unsigned short m2; char m3; float m4; int m5; void* m6; double m7; long long m8; bool m9; long double m10; short m11; unsigned char m12; unsigned short m13; char m14; float m15; int m16; void* m17; double m18; long long m19; bool m20; long double m21; short m22; unsigned char m23; unsigned short m24; char m25; float m26; int m27; void* m28; double m29; long long m30; bool m31; long double m32; short m33; unsigned char m34; };
template <> struct members<A35> { static constexpr int n = 35; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34); } };
struct H35 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; unsigned char m20; unsigned char m21; unsigned char m22; unsigned char m23; unsigned char m24; unsigned char m25; unsigned char m26; unsigned char m27; unsigned char m28; unsigned char m29; unsigned char m30; unsigned char m31; unsigned char m32; unsigned char m33; unsigned char m34; };
template <> struct members<H35> { static constexpr int n = 35; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34); } };
struct E35 : e_a, e_b, e_c { long long m0; unsigned char m1; int m2; bool m3; unsigned short m4; void* m5; long double m6; char m7; double m8; short m9; float m10; long long m11; unsigned char m12; int m13; bool m14; unsigned short m15; void* m16; long double m17; char m18; double m19; short m20; float m21; long long m22; unsigned char m23; int m24; bool m25; unsigned short m26; void* m27; long double m28; char m29; double m30; short m31; float m32; long long m33; unsigned char m34; };
template <> struct members<E35> { static constexpr int n = 35; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34); } };
struct A36 { float m0; int m1; void* m2; double m3; long long m4; bool m5; long double m6; short m7; unsigned char m8; unsigned short m9; char m10; float m11; int m12; void* m13; double m14; long long m15; bool m16; long double m17; short m18; unsigned char m19; unsigned short m20; char m21; float m22; int m23; void* m24; double m25; long long m26; bool m27; long double m28; short m29; unsigned char m30; unsigned short m31; char m32; float m33; int m34; void* m35; };
template <> struct members<A36> { static constexpr int n = 36; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35); } };
struct H36 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; int m24; int m25; int m26; int m27; int m28; int m29; int m30; int m31; int m32; int m33; int m34; int m35; };
template <> struct members<H36> { static constexpr int n = 36; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35); } };
struct E36 { int m0; bool m1; unsigned short m2; void* m3; long double m4; char m5; double m6; short m7; float m8; long long m9; unsigned char m10; int m11; bool m12; unsigned short m13; void* m14; long double m15; char m16; double m17; short m18; float m19; long long m20; unsigned char m21; int m22; bool m23; unsigned short m24; void* m25; long double m26; char m27; double m28; short m29; float m30; long long m31; unsigned char m32; int m33; bool m34; unsigned short m35; };
template <> struct members<E36> { static constexpr int n = 36; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35); } };
struct A37 { long long m0; bool m1; long double m2; short m3; unsigned char m4; unsigned short m5; char m6; float m7; int m8; void* m9; double m10; long long m11; bool m12; long double m13; short m14; unsigned char m15; unsigned short m16; char m17; float m18; int m19; void* m20; double m21; long long m22; bool m23; long double m24; short m25; unsigned char m26; unsigned short m27; char m28; float m29; int m30; void* m31; double m32; long long m33; bool m34; long double m35; short m36; };
template <> struct members<A37> { static constexpr int n = 37; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36); } };
struct H37 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; float m19; float m20; float m21; float m22; float m23; float m24; float m25; float m26; float m27; float m28; float m29; float m30; float m31; float m32; float m33; float m34; float m35; float m36; };
template <> struct members<H37> { static constexpr int n = 37; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36); } };
struct E37 : e_a { unsigned short m0; void* m1; long double m2; char m3; double m4; short m5; float m6; long long m7; unsigned char m8; int m9; bool m10; unsigned short m11; void* m12; long double m13; char m14; double m15; short m16; float m17; long long m18; unsigned char m19; int m20; bool m21; unsigned short m22; void* m23; long double m24; char m25; double m26; short m27; float m28; long long m29; unsigned char m30; int m31; bool m32; unsigned short m33; void* m34; long double m35; char m36; };
template <> struct members<E37> { static constexpr int n = 37; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36); } };
struct A38 { unsigned char m0; unsigned short m1; char m2; float m3; int m4; void* m5; double m6; long long m7; bool m8; long double m9; short m10; unsigned char m11; unsigned short m12; char m13; float m14; int m15; void* m16; double m17; long long m18; bool m19; long double m20; short m21; unsigned char m22; unsigned short m23; char m24; float m25; int m26; void* m27; double m28; long long m29; bool m30; long double m31; short m32; unsigned char m33; unsigned short m34; char m35; float m36; int m37; };
template <> struct members<A38> { static constexpr int n = 38; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37); } };
struct H38 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; unsigned char m20; unsigned char m21; unsigned char m22; unsigned char m23; unsigned char m24; unsigned char m25; unsigned char m26; unsigned char m27; unsigned char m28; unsigned char m29; unsigned char m30; unsigned char m31; unsigned char m32; unsigned char m33; unsigned char m34; unsigned char m35; unsigned char m36; unsigned char m37; };
template <> struct members<H38> { static constexpr int n = 38; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37); } };
struct E38 : e_a, e_b { long double m0; char m1; double m2; short m3; float m4; long long m5; unsigned char m6; int m7; bool m8; unsigned short m9; void* m10; long double m11; char m12; double m13; short m14; float m15; long long m16; unsigned char m17; int m18; bool m19; unsigned short m20; void* m21; long double m22; char m23; double m24; short m25; float m26; long long m27; unsigned char m28; int m29; bool m30; unsigned short m31; void* m32; long double m33; char m34; double m35; short m36; float m37; };
template <> struct members<E38> { static constexpr int n = 38; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37); } };
struct A39 { int m0; void* m1; double m2; long long m3; bool m4; long double m5; short m6; unsigned char m7; unsigned short m8; char m9; float m10; int m11; void* m12; double m13; long long m14; bool m15; long double m16; short m17; unsigned char m18; unsigned short m19; char m20; float m21; int m22; void* m23; double m24; long long m25; bool m26; long double m27; short m28; unsigned char m29; unsigned short m30; char m31; float m32; int m33; void* m34; double m35; long long m36; bool m37; long double m38; };
template <> struct members<A39> { static constexpr int n = 39; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38); } };
struct H39 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; int m24; int m25; int m26; int m27; int m28; int m29; int m30; int m31; int m32; int m33; int m34; int m35; int m36; int m37; int m38; };
template <> struct members<H39> { static constexpr int n = 39; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38); } };
struct E39 : e_a, e_b, e_c { double m0; short m1; float m2; long long m3; unsigned char m4; int m5; bool m6; unsigned short m7; void* m8; long double m9; char m10; double m11; short m12; float m13; long long m14; unsigned char m15; int m16; bool m17; unsigned short m18; void* m19; long double m20; char m21; double m22; short m23; float m24; long long m25; unsigned char m26; int m27; bool m28; unsigned short m29; void* m30; long double m31; char m32; double m33; short m34; float m35; long long m36; unsigned char m37; int m38; };
template <> struct members<E39> { static constexpr int n = 39; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38); } };
struct A40 { bool m0; long double m1; short m2; unsigned char m3; unsigned short m4; char m5; float m6; int m7; void* m8; double m9; long long m10; bool m11; long double m12; short m13; unsigned char m14; unsigned short m15; char m16; float m17; int m18; void* m19; double m20; long long m21; bool m22; long double m23; short m24; unsigned char m25; unsigned short m26; char m27; float m28; int m29; void* m30; double m31; long long m32; bool m33; long double m34; short m35; unsigned char m36; unsigned short m37; char m38; float m39; };
template <> struct members<A40> { static constexpr int n = 40; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39); } };
struct H40 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; float m19; float m20; float m21; float m22; float m23; float m24; float m25; float m26; float m27; float m28; float m29; float m30; float m31; float m32; float m33; float m34; float m35; float m36; float m37; float m38; float m39; };
template <> struct members<H40> { static constexpr int n = 40; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39); } };
struct E40 { float m0; long long m1; unsigned char m2; int m3; bool m4; unsigned short m5; void* m6; long double m7; char m8; double m9; short m10; float m11; long long m12; unsigned char m13; int m14; bool m15; unsigned short m16; void* m17; long double m18; char m19; double m20; short m21; float m22; long long m23; unsigned char m24; int m25; bool m26; unsigned short m27; void* m28; long double m29; char m30; double m31; short m32; float m33; long long m34; unsigned char m35; int m36; bool m37; unsigned short m38; void* m39; };
template <> struct members<E40> { static constexpr int n = 40; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39); } };
struct A41 { unsigned short m0; char m1; float m2; int m3; void* m4; double m5; long long m6; bool m7; long double m8; short m9; unsigned char m10; unsigned short m11; char m12; float m13; int m14; void* m15; double m16; long long m17; bool m18; long double m19; short m20; unsigned char m21; unsigned short m22; char m23; float m24; int m25; void* m26; double m27; long long m28; bool m29; long double m30; short m31; unsigned char m32; unsigned short m33; char m34; float m35; int m36; void* m37; double m38; long long m39; bool m40; };
template <> struct members<A41> { static constexpr int n = 41; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40); } };
struct H41 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; unsigned char m20; unsigned char m21; unsigned char m22; unsigned char m23; unsigned char m24; unsigned char m25; unsigned char m26; unsigned char m27; unsigned char m28; unsigned char m29; unsigned char m30; unsigned char m31; unsigned char m32; unsigned char m33; unsigned char m34; unsigned char m35; unsigned char m36; unsigned char m37; unsigned char m38; unsigned char m39; unsigned char m40; };
template <> struct members<H41> { static constexpr int n = 41; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40); } };
struct E41 : e_a { unsigned char m0; int m1; bool m2; unsigned short m3; void* m4; long double m5; char m6; double m7; short m8; float m9; long long m10; unsigned char m11; int m12; bool m13; unsigned short m14; void* m15; long double m16; char m17; double m18; short m19; float m20; long long m21; unsigned char m22; int m23; bool m24; unsigned short m25; void* m26; long double m27; char m28; double m29; short m30; float m31; long long m32; unsigned char m33; int m34; bool m35; unsigned short m36; void* m37; long double m38; char m39; double m40; };
template <> struct members<E41> { static constexpr int n = 41; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40); } };
struct A42 { void* m0; double m1; long long m2; bool m3; long double m4; short m5; unsigned char m6; unsigned short m7; char m8; float m9; int m10; void* m11; double m12; long long m13; bool m14; long double m15; short m16; unsigned char m17; unsigned short m18; char m19; float m20; int m21; void* m22; double m23; long long m24; bool m25; long double m26; short m27; unsigned char m28; unsigned short m29; char m30; float m31; int m32; void* m33; double m34; long long m35; bool m36; long double m37; short m38; unsigned char m39; unsigned short m40; char m41; };
template <> struct members<A42> { static constexpr int n = 42; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41); } };
struct H42 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; int m24; int m25; int m26; int m27; int m28; int m29; int m30; int m31; int m32; int m33; int m34; int m35; int m36; int m37; int m38; int m39; int m40; int m41; };
template <> struct members<H42> { static constexpr int n = 42; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41); } };
struct E42 : e_a, e_b { bool m0; unsigned short m1; void* m2; long double m3; char m4; double m5; short m6; float m7; long long m8; unsigned char m9; int m10; bool m11; unsigned short m12; void* m13; long double m14; char m15; double m16; short m17; float m18; long long m19; unsigned char m20; int m21; bool m22; unsigned short m23; void* m24; long double m25; char m26; double m27; short m28; float m29; long long m30; unsigned char m31; int m32; bool m33; unsigned short m34; void* m35; long double m36; char m37; double m38; short m39; float m40; long long m41; };
template <> struct members<E42> { static constexpr int n = 42; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41); } };
struct A43 { long double m0; short m1; unsigned char m2; unsigned short m3; char m4; float m5; int m6; void* m7; double m8; long long m9; bool m10; long double m11; short m12; unsigned char m13; unsigned short m14; char m15; float m16; int m17; void* m18; double m19; long long m20; bool m21; long double m22; short m23; unsigned char m24; unsigned short m25; char m26; float m27; int m28; void* m29; double m30; long long m31; bool m32; long double m33; short m34; unsigned char m35; unsigned short m36; char m37; float m38; int m39; void* m40; double m41; long long m42; };
template <> struct members<A43> { static constexpr int n = 43; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42); } };
struct H43 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; float m19; float m20; float m21; float m22; float m23; float m24; float m25; float m26; float m27; float m28; float m29; float m30; float m31; float m32; float m33; float m34; float m35; float m36; float m37; float m38; float m39; float m40; float m41; float m42; };
template <> struct members<H43> { static constexpr int n = 43; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42); } };
struct E43 : e_a, e_b, e_c { void* m0; long double m1; char m2; double m3; short m4; float m5; long long m6; unsigned char m7; int m8; bool m9; unsigned short m10; void* m11; long double m12; char m13; double m14; short m15; float m16; long long m17; unsigned char m18; int m19; bool m20; unsigned short m21; void* m22; long double m23; char m24; double m25; short m26; float m27; long long m28; unsigned char m29; int m30; bool m31; unsigned short m32; void* m33; long double m34; char m35; double m36; short m37; float m38; long long m39; unsigned char m40; int m41; bool m42; };
template <> struct members<E43> { static constexpr int n = 43; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42); } };
struct A44 { char m0; float m1; int m2; void* m3; double m4; long long m5; bool m6; long double m7; short m8; unsigned char m9; unsigned short m10; char m11; float m12; int m13; void* m14; double m15; long long m16; bool m17; long double m18; short m19; unsigned char m20; unsigned short m21; char m22; float m23; int m24; void* m25; double m26; long long m27; bool m28; long double m29; short m30; unsigned char m31; unsigned short m32; char m33; float m34; int m35; void* m36; double m37; long long m38; bool m39; long double m40; short m41; unsigned char m42; unsigned short m43; };
template <> struct members<A44> { static constexpr int n = 44; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43); } };
struct H44 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; unsigned char m20; unsigned char m21; unsigned char m22; unsigned char m23; unsigned char m24; unsigned char m25; unsigned char m26; unsigned char m27; unsigned char m28; unsigned char m29; unsigned char m30; unsigned char m31; unsigned char m32; unsigned char m33; unsigned char m34; unsigned char m35; unsigned char m36; unsigned char m37; unsigned char m38; unsigned char m39; unsigned char m40; unsigned char m41; unsigned char m42; unsigned char m43; };
template <> struct members<H44> { static constexpr int n = 44; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43); } };
struct E44 { char m0; double m1; short m2; float m3; long long m4; unsigned char m5; int m6; bool m7; unsigned short m8; void* m9; long double m10; char m11; double m12; short m13; float m14; long long m15; unsigned char m16; int m17; bool m18; unsigned short m19; void* m20; long double m21; char m22; double m23; short m24; float m25; long long m26; unsigned char m27; int m28; bool m29; unsigned short m30; void* m31; long double m32; char m33; double m34; short m35; float m36; long long m37; unsigned char m38; int m39; bool m40; unsigned short m41; void* m42; long double m43; };
template <> struct members<E44> { static constexpr int n = 44; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43); } };
struct A45 { double m0; long long m1; bool m2; long double m3; short m4; unsigned char m5; unsigned short m6; char m7; float m8; int m9; void* m10; double m11; long long m12; bool m13; long double m14; short m15; unsigned char m16; unsigned short m17; char m18; float m19; int m20; void* m21; double m22; long long m23; bool m24; long double m25; short m26; unsigned char m27; unsigned short m28; char m29; float m30; int m31; void* m32; double m33; long long m34; bool m35; long double m36; short m37; unsigned char m38; unsigned short m39; char m40; float m41; int m42; void* m43; double m44; };
template <> struct members<A45> { static constexpr int n = 45; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44); } };
struct H45 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; int m24; int m25; int m26; int m27; int m28; int m29; int m30; int m31; int m32; int m33; int m34; int m35; int m36; int m37; int m38; int m39; int m40; int m41; int m42; int m43; int m44; };
template <> struct members<H45> { static constexpr int n = 45; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44); } };
struct E45 : e_a { short m0; float m1; long long m2; unsigned char m3; int m4; bool m5; unsigned short m6; void* m7; long double m8; char m9; double m10; short m11; float m12; long long m13; unsigned char m14; int m15; bool m16; unsigned short m17; void* m18; long double m19; char m20; double m21; short m22; float m23; long long m24; unsigned char m25; int m26; bool m27; unsigned short m28; void* m29; long double m30; char m31; double m32; short m33; float m34; long long m35; unsigned char m36; int m37; bool m38; unsigned short m39; void* m40; long double m41; char m42; double m43; short m44; };
template <> struct members<E45> { static constexpr int n = 45; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44); } };
struct A46 { short m0; unsigned char m1; unsigned short m2; char m3; float m4; int m5; void* m6; double m7; long long m8; bool m9; long double m10; short m11; unsigned char m12; unsigned short m13; char m14; float m15; int m16; void* m17; double m18; long long m19; bool m20; long double m21; short m22; unsigned char m23; unsigned short m24; char m25; float m26; int m27; void* m28; double m29; long long m30; bool m31; long double m32; short m33; unsigned char m34; unsigned short m35; char m36; float m37; int m38; void* m39; double m40; long long m41; bool m42; long double m43; short m44; unsigned char m45; };
template <> struct members<A46> { static constexpr int n = 46; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45); } };
struct H46 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; float m19; float m20; float m21; float m22; float m23; float m24; float m25; float m26; float m27; float m28; float m29; float m30; float m31; float m32; float m33; float m34; float m35; float m36; float m37; float m38; float m39; float m40; float m41; float m42; float m43; float m44; float m45; };
template <> struct members<H46> { static constexpr int n = 46; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45); } };
struct E46 : e_a, e_b { long long m0; unsigned char m1; int m2; bool m3; unsigned short m4; void* m5; long double m6; char m7; double m8; short m9; float m10; long long m11; unsigned char m12; int m13; bool m14; unsigned short m15; void* m16; long double m17; char m18; double m19; short m20; float m21; long long m22; unsigned char m23; int m24; bool m25; unsigned short m26; void* m27; long double m28; char m29; double m30; short m31; float m32; long long m33; unsigned char m34; int m35; bool m36; unsigned short m37; void* m38; long double m39; char m40; double m41; short m42; float m43; long long m44; unsigned char m45; };
template <> struct members<E46> { static constexpr int n = 46; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45); } };
struct A47 { float m0; int m1; void* m2; double m3; long long m4; bool m5; long double m6; short m7; unsigned char m8; unsigned short m9; char m10; float m11; int m12; void* m13; double m14; long long m15; bool m16; long double m17; short m18; unsigned char m19; unsigned short m20; char m21; float m22; int m23; void* m24; double m25; long long m26; bool m27; long double m28; short m29; unsigned char m30; unsigned short m31; char m32; float m33; int m34; void* m35; double m36; long long m37; bool m38; long double m39; short m40; unsigned char m41; unsigned short m42; char m43; float m44; int m45; void* m46; };
template <> struct members<A47> { static constexpr int n = 47; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46); } };
struct H47 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; unsigned char m20; unsigned char m21; unsigned char m22; unsigned char m23; unsigned char m24; unsigned char m25; unsigned char m26; unsigned char m27; unsigned char m28; unsigned char m29; unsigned char m30; unsigned char m31; unsigned char m32; unsigned char m33; unsigned char m34; unsigned char m35; unsigned char m36; unsigned char m37; unsigned char m38; unsigned char m39; unsigned char m40; unsigned char m41; unsigned char m42; unsigned char m43; unsigned char m44; unsigned char m45; unsigned char m46; };
template <> struct members<H47> { static constexpr int n = 47; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46); } };
struct E47 : e_a, e_b, e_c { int m0; bool m1; unsigned short m2; void* m3; long double m4; char m5; double m6; short m7; float m8; long long m9; unsigned char m10; int m11; bool m12; unsigned short m13; void* m14; long double m15; char m16; double m17; short m18; float m19; long long m20; unsigned char m21; int m22; bool m23; unsigned short m24; void* m25; long double m26; char m27; double m28; short m29; float m30; long long m31; unsigned char m32; int m33; bool m34; unsigned short m35; void* m36; long double m37; char m38; double m39; short m40; float m41; long long m42; unsigned char m43; int m44; bool m45; unsigned short m46; };
template <> struct members<E47> { static constexpr int n = 47; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46); } };
struct A48 { long long m0; bool m1; long double m2; short m3; unsigned char m4; unsigned short m5; char m6; float m7; int m8; void* m9; double m10; long long m11; bool m12; long double m13; short m14; unsigned char m15; unsigned short m16; char m17; float m18; int m19; void* m20; double m21; long long m22; bool m23; long double m24; short m25; unsigned char m26; unsigned short m27; char m28; float m29; int m30; void* m31; double m32; long long m33; bool m34; long double m35; short m36; unsigned char m37; unsigned short m38; char m39; float m40; int m41; void* m42; double m43; long long m44; bool m45; long double m46; short m47; };
template <> struct members<A48> { static constexpr int n = 48; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46, s.m47); } };
struct H48 { int m0; int m1; int m2; int m3; int m4; int m5; int m6; int m7; int m8; int m9; int m10; int m11; int m12; int m13; int m14; int m15; int m16; int m17; int m18; int m19; int m20; int m21; int m22; int m23; int m24; int m25; int m26; int m27; int m28; int m29; int m30; int m31; int m32; int m33; int m34; int m35; int m36; int m37; int m38; int m39; int m40; int m41; int m42; int m43; int m44; int m45; int m46; int m47; };
template <> struct members<H48> { static constexpr int n = 48; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46, s.m47); } };
struct E48 { unsigned short m0; void* m1; long double m2; char m3; double m4; short m5; float m6; long long m7; unsigned char m8; int m9; bool m10; unsigned short m11; void* m12; long double m13; char m14; double m15; short m16; float m17; long long m18; unsigned char m19; int m20; bool m21; unsigned short m22; void* m23; long double m24; char m25; double m26; short m27; float m28; long long m29; unsigned char m30; int m31; bool m32; unsigned short m33; void* m34; long double m35; char m36; double m37; short m38; float m39; long long m40; unsigned char m41; int m42; bool m43; unsigned short m44; void* m45; long double m46; char m47; };
template <> struct members<E48> { static constexpr int n = 48; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46, s.m47); } };
struct A49 { unsigned char m0; unsigned short m1; char m2; float m3; int m4; void* m5; double m6; long long m7; bool m8; long double m9; short m10; unsigned char m11; unsigned short m12; char m13; float m14; int m15; void* m16; double m17; long long m18; bool m19; long double m20; short m21; unsigned char m22; unsigned short m23; char m24; float m25; int m26; void* m27; double m28; long long m29; bool m30; long double m31; short m32; unsigned char m33; unsigned short m34; char m35; float m36; int m37; void* m38; double m39; long long m40; bool m41; long double m42; short m43; unsigned char m44; unsigned short m45; char m46; float m47; int m48; };
template <> struct members<A49> { static constexpr int n = 49; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46, s.m47, s.m48); } };
struct H49 { float m0; float m1; float m2; float m3; float m4; float m5; float m6; float m7; float m8; float m9; float m10; float m11; float m12; float m13; float m14; float m15; float m16; float m17; float m18; float m19; float m20; float m21; float m22; float m23; float m24; float m25; float m26; float m27; float m28; float m29; float m30; float m31; float m32; float m33; float m34; float m35; float m36; float m37; float m38; float m39; float m40; float m41; float m42; float m43; float m44; float m45; float m46; float m47; float m48; };
template <> struct members<H49> { static constexpr int n = 49; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46, s.m47, s.m48); } };
struct E49 : e_a { long double m0; char m1; double m2; short m3; float m4; long long m5; unsigned char m6; int m7; bool m8; unsigned short m9; void* m10; long double m11; char m12; double m13; short m14; float m15; long long m16; unsigned char m17; int m18; bool m19; unsigned short m20; void* m21; long double m22; char m23; double m24; short m25; float m26; long long m27; unsigned char m28; int m29; bool m30; unsigned short m31; void* m32; long double m33; char m34; double m35; short m36; float m37; long long m38; unsigned char m39; int m40; bool m41; unsigned short m42; void* m43; long double m44; char m45; double m46; short m47; float m48; };
template <> struct members<E49> { static constexpr int n = 49; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46, s.m47, s.m48); } };
struct A50 { int m0; void* m1; double m2; long long m3; bool m4; long double m5; short m6; unsigned char m7; unsigned short m8; char m9; float m10; int m11; void* m12; double m13; long long m14; bool m15; long double m16; short m17; unsigned char m18; unsigned short m19; char m20; float m21; int m22; void* m23; double m24; long long m25; bool m26; long double m27; short m28; unsigned char m29; unsigned short m30; char m31; float m32; int m33; void* m34; double m35; long long m36; bool m37; long double m38; short m39; unsigned char m40; unsigned short m41; char m42; float m43; int m44; void* m45; double m46; long long m47; bool m48; long double m49; };
template <> struct members<A50> { static constexpr int n = 50; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46, s.m47, s.m48, s.m49); } };
struct H50 { unsigned char m0; unsigned char m1; unsigned char m2; unsigned char m3; unsigned char m4; unsigned char m5; unsigned char m6; unsigned char m7; unsigned char m8; unsigned char m9; unsigned char m10; unsigned char m11; unsigned char m12; unsigned char m13; unsigned char m14; unsigned char m15; unsigned char m16; unsigned char m17; unsigned char m18; unsigned char m19; unsigned char m20; unsigned char m21; unsigned char m22; unsigned char m23; unsigned char m24; unsigned char m25; unsigned char m26; unsigned char m27; unsigned char m28; unsigned char m29; unsigned char m30; unsigned char m31; unsigned char m32; unsigned char m33; unsigned char m34; unsigned char m35; unsigned char m36; unsigned char m37; unsigned char m38; unsigned char m39; unsigned char m40; unsigned char m41; unsigned char m42; unsigned char m43; unsigned char m44; unsigned char m45; unsigned char m46; unsigned char m47; unsigned char m48; unsigned char m49; };
template <> struct members<H50> { static constexpr int n = 50; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46, s.m47, s.m48, s.m49); } };
struct E50 : e_a, e_b { double m0; short m1; float m2; long long m3; unsigned char m4; int m5; bool m6; unsigned short m7; void* m8; long double m9; char m10; double m11; short m12; float m13; long long m14; unsigned char m15; int m16; bool m17; unsigned short m18; void* m19; long double m20; char m21; double m22; short m23; float m24; long long m25; unsigned char m26; int m27; bool m28; unsigned short m29; void* m30; long double m31; char m32; double m33; short m34; float m35; long long m36; unsigned char m37; int m38; bool m39; unsigned short m40; void* m41; long double m42; char m43; double m44; short m45; float m46; long long m47; unsigned char m48; int m49; };
template <> struct members<E50> { static constexpr int n = 50; static auto tie(auto& s) { return std::tie(s.m0, s.m1, s.m2, s.m3, s.m4, s.m5, s.m6, s.m7, s.m8, s.m9, s.m10, s.m11, s.m12, s.m13, s.m14, s.m15, s.m16, s.m17, s.m18, s.m19, s.m20, s.m21, s.m22, s.m23, s.m24, s.m25, s.m26, s.m27, s.m28, s.m29, s.m30, s.m31, s.m32, s.m33, s.m34, s.m35, s.m36, s.m37, s.m38, s.m39, s.m40, s.m41, s.m42, s.m43, s.m44, s.m45, s.m46, s.m47, s.m48, s.m49); } };
#define STRUCTS_00(X) X(A1) X(A2) X(A3) X(A4) X(A5) X(A6) X(A7) X(A8) X(A9) X(A10)
#define STRUCTS_01(X) X(H1) X(H2) X(H3) X(H4) X(H5) X(H6) X(H7) X(H8) X(H9) X(H10)
#define STRUCTS_02(X) X(E1) X(E2) X(E3) X(E4) X(E5) X(E6) X(E7) X(E8) X(E9) X(E10)
#define STRUCTS_10(X) X(A11) X(A12) X(A13) X(A14) X(A15) X(A16) X(A17) X(A18) X(A19) X(A20)
#define STRUCTS_11(X) X(H11) X(H12) X(H13) X(H14) X(H15) X(H16) X(H17) X(H18) X(H19) X(H20)
#define STRUCTS_12(X) X(E11) X(E12) X(E13) X(E14) X(E15) X(E16) X(E17) X(E18) X(E19) X(E20)
#define STRUCTS_20(X) X(A21) X(A22) X(A23) X(A24) X(A25) X(A26) X(A27) X(A28) X(A29) X(A30)
#define STRUCTS_21(X) X(H21) X(H22) X(H23) X(H24) X(H25) X(H26) X(H27) X(H28) X(H29) X(H30)
#define STRUCTS_22(X) X(E21) X(E22) X(E23) X(E24) X(E25) X(E26) X(E27) X(E28) X(E29) X(E30)
#define STRUCTS_30(X) X(A31) X(A32) X(A33) X(A34) X(A35) X(A36) X(A37) X(A38) X(A39) X(A40)
#define STRUCTS_31(X) X(H31) X(H32) X(H33) X(H34) X(H35) X(H36) X(H37) X(H38) X(H39) X(H40)
#define STRUCTS_32(X) X(E31) X(E32) X(E33) X(E34) X(E35) X(E36) X(E37) X(E38) X(E39) X(E40)
#define STRUCTS_40(X) X(A41) X(A42) X(A43) X(A44) X(A45) X(A46) X(A47) X(A48) X(A49) X(A50)
#define STRUCTS_41(X) X(H41) X(H42) X(H43) X(H44) X(H45) X(H46) X(H47) X(H48) X(H49) X(H50)
#define STRUCTS_42(X) X(E41) X(E42) X(E43) X(E44) X(E45) X(E46) X(E47) X(E48) X(E49) X(E50)
