#!/usr/bin/env python3
"""Generates harness/reflect_structs.h: aggregates with 1..50 members of varying types."""
import os
T = ["char", "double", "short", "float", "long long", "unsigned char", "int", "bool", "unsigned short", "void*", "long double"]
E = ["e_a", "e_b", "e_c"]
out = ["// generated by tools/gen_reflect.py", "#pragma once", "struct e_a {}; struct e_b {}; struct e_c {};"]
names = []
for n in range(1, 51):
    for v in range(3):
        if v == 0:
            name, base, ty = "A%d" % n, "", lambda i, n=n: T[(i * 3 + n) % len(T)]
        elif v == 1:  # all members of one type (the layout cannot tell them apart)
            name, base, ty = "H%d" % n, "", lambda i, n=n: ["int", "float", "unsigned char"][n % 3]
        else:
            k = n % 4
            name, base = "E%d" % n, (" : " + ", ".join(E[:k]) if k else "")
            ty = lambda i, n=n: T[(i + 2 * n) % len(T)]
        mem = " ".join("%s m%d;" % (ty(i), i) for i in range(n))
        out.append("struct %s%s { %s };" % (name, base, mem))
        out.append("template <> struct members<%s> { static constexpr int n = %d; "
                   "static auto tie(auto& s) { return std::tie(%s); } };"
                   % (name, n, ", ".join("s.m%d" % i for i in range(n))))
        names.append(name)
for lo, hi in ((1, 10), (11, 20), (21, 30), (31, 40), (41, 50)):
    for k, v in enumerate("AHE"):
        out.append("#define STRUCTS_%d%d(X) " % (lo // 10, k) + " ".join("X(%s)" % n for n in names
                                                                        if n[0] == v and lo <= int(n[1:]) <= hi))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "reflect_structs.h")
open(p, "w").write("\n".join(out) + "\n")
