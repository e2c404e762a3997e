#!/usr/bin/env python3
"""Generates harness/literals.h: integer literals in all bases with their values (fixed seed)."""
import random, os
rnd = random.Random(20240611)
LIM = [0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 63, 64, 100, 126, 127, 128, 129, 255, 256, 999, 1000, 32766, 32767, 32768, 65535, 65536,
       2**31 - 2, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 2, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 2, 2**64 - 1, 10**18, 10**19]


def sep(s, mode):
    if mode == 0 or len(s) < 2:
        return s
    out = s[0]
    for c in s[1:]:
        if rnd.random() < (0.3 if mode == 1 else 1.0):
            out += "'"
        out += c
    return out


def case(s):
    return "".join(rnd.choice([c.lower(), c.upper()]) for c in s)


def spell(v, base, mode):
    if base == 10:
        return sep(str(v), mode)
    if base == 16:
        return rnd.choice(["0x", "0X"]) + sep(case("%x" % v), mode)
    if base == 2:
        return rnd.choice(["0b", "0b", "0B"]) + sep(bin(v)[2:], mode)
    return sep("0" + oct(v)[2:], mode)


seen, out = set(), []


def add(v, base, mode=None):
    t = spell(v, base, rnd.choice([0, 0, 1, 2]) if mode is None else mode)
    if t not in seen:
        seen.add(t)
        out.append((t, v))


for v in LIM:
    for b in (10, 16, 8, 2):
        add(v, b, 0)
        add(v, b, 1)
for b in (10, 16, 8, 2):
    for bits in range(1, 65):
        for _ in range(2):
            add(rnd.getrandbits(bits) | 1 << (bits - 1), b)
for d in "0123456789abcdefABCDEF":
    out.append(("0x" + d, int(d, 16)))
    out.append(("0X1" + d + d, int("1" + d + d, 16)))
for z in ("0x0", "0x00", "0b0", "0B0", "00", "000", "0'0"):
    out.append((z, 0))
for t, v in (("007", 7), ("0x0f", 15), ("0b0001", 1), ("0000001", 1), ("0x00000000000000000001", 1), ("0'1'2", 10)):
    out.append((t, v))
uniq = {}
for t, v in out:
    uniq.setdefault(t, v)
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "literals.h")
with open(path, "w") as f:
    f.write("// generated by tools/gen_literals.py\n")
    items = list(uniq.items())
    for i, (t, v) in enumerate(items):
        f.write("#if LITPART == %d\n" % (i % 4) if False else "")
    for p in range(4):
        f.write("#if LITPART == %d\n" % p)
        for t, v in items[p::4]:
            f.write("L(%s, %dull)\n" % (t, v))
        f.write("#endif\n")
print(len(uniq), "literals")
