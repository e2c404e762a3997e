"""Registry: which monitor programs, in which build configurations, decide which property."""
from run import Unit, CONFIGS


class Spec:
    def __init__(self, units, rule, level="exploration", assumptions=None, cross=None, technique=None, note=None):
        self.units, self.rule, self.level, self.cross = units, rule, level, cross
        self.technique = technique or TECH
        self.note = note or NOTE
        self.assumptions = assumptions or []


CHECKS = {}
TECH = "runtime monitoring: event log of every lane / element the real code touches, compared with a scalar oracle"
NOTE = ("Exploration: holds for every case executed (systematic sweeps plus seeded random cases, several element types "
        "and build configurations). Trusts the compilers, libstdc++'s <experimental/simd> and the scalar oracle.")


def check(pid, rule, assumptions=None, cross=None, technique=None, note=None):
    def deco(fn):
        CHECKS[pid] = Spec(fn, rule, "exploration", assumptions, cross, technique, note)
        return fn
    return deco


def rot(lst, i, n):
    """n consecutive entries of lst starting at i (cyclic), without repetition."""
    return [lst[(i + k) % len(lst)] for k in range(min(n, len(lst)))]


ALGO_TYPES = ["unsigned char", "short", "int", "float", "double", "long long"]
POLSETS = range(9)
# order chosen such that consecutive entries are of different kind
ROT = ["v3", "clsanos", "os", "fb", "v4", "clsan", "sse2", "cl3", "v3o0"]


def large(t, cfg, ps):
    """prefer_size > 32 exists for 1-byte elements with AVX-512 (libstdc++) only"""
    if ps == 5 and t in ("unsigned char", "signed char") and cfg in ("v4", "san4", "os4", "cl4", "clsan4"):
        return ["POL_LARGE"]
    return []


ALGO_ASSUME = ["element values chosen such that lane sums are exact and do not overflow",
               "all lengths up to a few unrolled steps, lengths around 4000 bytes, and three lengths beyond 2^31 / 2^32"]


def fixcfg(t, c):
    """libstdc++ 13 with clang and AVX-512 compiles for few element types only"""
    if c in ("clsan4", "cl4") and not set(t) <= {"int", "float", "double"}:
        return "v4"
    return c


def algo_units(src, types, tier, per=2, macro="ELT", full_on=(), rotation=ROT, extra=(), skip=(2,)):
    """types x policy sets; quick leaves out the combinations on the diagonals in `skip`"""
    us = []
    n = per if tier == "quick" else len(rotation)
    for ti, t in enumerate(types):
        tt = t if isinstance(t, tuple) else (t,)
        for ps in POLSETS:
            if tier == "quick" and (ti + ps) % 3 in skip:
                continue
            for c in rot(rotation, ti * 2 + ps * 3, n):
                c = fixcfg(tt, c)
                defs = []
                if macro == "ELT":
                    defs = ["ELT=" + tt[0]] + (["ELT2=" + tt[1]] if len(tt) > 1 else [])
                else:
                    defs = [m + "=" + x for m, x in zip(macro.split(","), tt)]
                defs.append("POLSET=%d" % ps)
                defs += large(tt[0], c, ps)
                if ps in full_on:
                    defs.append("FULL")
                us.append(Unit(src, c, defs))
    for t, ps, c in extra:
        tt = t if isinstance(t, tuple) else (t,)
        defs = (["ELT=" + tt[0]] if macro == "ELT" else [m + "=" + x for m, x in zip(macro.split(","), tt)])
        defs += ["POLSET=%d" % ps] + large(tt[0], c, ps) + (["FULL"] if ps in full_on else [])
        u = Unit(src, c, defs)
        if u.name not in {x.name for x in us}:
            us.append(u)
    return us


def huge(part, tier):
    """ranges of more than 2^31 and 2^32 elements"""
    return [Unit("huge.cpp", c, ["PART=%d" % part]) for c in (["v3"] if tier == "quick" else ["v3", "cl3", "v4", "sse2"])]


@check("C01", "case = (policy, length, misalignment, placement, callable form) per element type and "
       "build; non-trivial when the range is not empty", ALGO_ASSUME)
def c01(tier):
    ex = [("unsigned char", 0, c) for c in ("v4", "os4", "os", "v3", "fb")]
    ex += [("unsigned char", 5, "v4"), ("unsigned char", 2, "os4"), ("int", 0, "v3"), ("float", 0, "os"),
           ("double", 0, "sse2")]
    return algo_units("for_each.cpp", ALGO_TYPES, tier, 1, extra=ex) + huge(1, tier)


TR_TYPES = [("unsigned char", "unsigned char", "unsigned char"), ("int", "int", "int"),
            ("float", "double", "double"), ("double", "double", "double"), ("short", "int", "float"),
            ("long long", "int", "signed char")]


@check("C02", "case = (policy, length, three misalignments, placement, overload) per element type triple and "
       "build; non-trivial when the range is not empty", ALGO_ASSUME)
def c02(tier):
    ex = [(TR_TYPES[0], 0, c) for c in ("v4", "os", "v3", "fb")] + [(TR_TYPES[0], 5, "v4"), (TR_TYPES[1], 0, "v3"),
                                                                   (TR_TYPES[3], 0, "sse2")]
    us = algo_units("transform.cpp", TR_TYPES, tier, 1, macro="IN1,IN2,OUT", full_on=(0, 7), extra=ex) + huge(2, tier)
    zs = [("int", "int", "int", 0, "v3"), ("float", "double", "float", 1, "san3"), ("unsigned char", "short", "int", 3, "v4"),
          ("double", "double", "double", 2, "san4"), ("int", "int", "int", 4, "fb"), ("short", "short", "short", 7, "v3"),
          ("float", "float", "float", 0, "fbsan"), ("int", "int", "int", 0, "san3")]
    for a, b, o, ps, c in zs:
        us.append(Unit("transform.cpp", c, ["IN1=" + a, "IN2=" + b, "OUT=" + o, "POLSET=%d" % ps, "ZIPS", "ONLYZIPS"]))
    return us


RED_TYPES = [("unsigned char", "unsigned char", "unsigned char"), ("unsigned", "unsigned", "unsigned"),
             ("float", "double", "double"), ("double", "double", "double"), ("short", "int", "int"),
             ("unsigned long long", "unsigned long long", "unsigned long long")]


@check("C03", "case = (policy, length, misalignments, placement, overload/operation) per element type triple and "
       "build; non-trivial when the range is not empty", ALGO_ASSUME)
def c03(tier):
    ex = [(RED_TYPES[0], 0, c) for c in ("v4", "fb")] + [(RED_TYPES[0], 5, "v4"), (RED_TYPES[1], 0, "v3"),
                                                              (RED_TYPES[3], 0, "sse2")]
    us = algo_units("treduce.cpp", RED_TYPES, tier, 1, macro="IN1,IN2,ACC", full_on=(7,), extra=ex) + huge(3, tier)
    for t, c in ((RED_TYPES[1], "v3"), (RED_TYPES[3], "fb"), (RED_TYPES[2], "cl3")):
        us.append(Unit("treduce.cpp", c, [m + "=" + x for m, x in zip(("IN1", "IN2", "ACC"), t)] + ["POLSET=0", "FULL"]))
    return us


@check("C04", "case = (policy, length, misalignment, placement, match pattern, overload) per element type and "
       "build; non-trivial when the range is not empty", ALGO_ASSUME)
def c04(tier):
    ex = [("unsigned char", 0, c) for c in ("v4", "v3", "fb", "sse2")] + [("unsigned char", 5, "v4"), ("int", 0, "v3")]
    return algo_units("count_if.cpp", ALGO_TYPES, tier, 1, extra=ex) + huge(4, tier)


SAFE_ROT = ["clsan", "v3", "clfbsan", "clsanos", "v4", "clmsan", "clsan2"]


@check("C05", "case = (algorithm, policy, length, misalignments, placement) per element type and build; "
       "non-trivial when the range is not empty. Oracle: ASan with poisoned surroundings and exact heap blocks, "
       "UBSan, MSan, guard pages, canary bytes, aligned-access faults", ALGO_ASSUME,
       technique="ASan/UBSan/MSan builds, guard pages, canaries and poisoned surroundings around exactly-sized ranges")
def c05(tier):
    ex = [("unsigned char", 0, "v4"), ("unsigned char", 2, "v4"), ("int", 0, "san4"), ("float", 7, "san3"), ("float", 2, "v3"), ("short", 8, "fbsan"),
          ("double", 0, "v3")]
    return algo_units("safety.cpp", ALGO_TYPES, tier, 1, rotation=SAFE_ROT, extra=ex, skip=(1, 2))


SHAPE_TYPES = [("unsigned char", "unsigned char"), ("int", "int"), ("float", "double"), ("double", "short"),
               ("short", "long long")]


@check("C06", "case = (algorithm, policy, length, misalignment) per element types and build; non-trivial when the "
       "range is not empty. Events: simd arguments received by callables", ALGO_ASSUME)
def c06(tier):
    return algo_units("shape.cpp", SHAPE_TYPES, tier, 1, rotation=["v3", "v4", "fb", "sse2", "os", "cl3"])


CEVAL_FLAGS = ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000"]


@check("C07", "case = (policy, length) per element type and build: all algorithms evaluated in constant evaluation, "
       "at run time and by a scalar oracle; non-trivial when the range is not empty", ALGO_ASSUME,
       technique="runtime monitoring: results of the compiler's constant evaluation compared at run time with the "
       "runtime execution and a scalar oracle")
def c07(tier):
    us = []
    cf = ["sse2", "fb", "v3"]
    for ti, t in enumerate(["int", "signed char", "double", "unsigned short", "float", "long long"]):
        for ps in POLSETS:
            if tier == "quick" and (ti + ps) % 2:
                continue
            for c in rot(cf, ti + ps // 2, 1 if tier == "quick" else 3):
                us.append(Unit("ceval.cpp", c, ["ELT=" + t, "POLSET=%d" % ps] + (["MAXN=40"] if tier != "quick" else []),
                               flags=CEVAL_FLAGS))
    return us


@check("C08", "case = (permutation, input width, result width, input values) per element type and build; every result "
       "lane is compared with the documented index map", ["index functions sampled: all predefined permutations with all "
       "offsets in [-2n-2, 2n+2] for the widths used, plus pseudo-random maps with negative and zero indices"])
def c08(tier):
    us = []
    cf = ["v3", "sse2", "fb", "v4", "cl3", "san3", "fbsan", "v3o0"]
    tw = [("float", "8", "v3 v4 fb sse2 cl3"), ("float", "3,4", "v3 sse2 clsan"), ("float", "16", "v4 v3 fb"),
          ("float", "1,2,5,6", "v3 fb"), ("double", "2,4", "v3 sse2 cl3"), ("double", "8,3", "v4 fb v3"),
          ("int", "4,8", "v3 fb clsan"), ("int", "5,7,12", "v3 v4"), ("unsigned", "16", "v4"), ("short", "8,6", "v3 sse2"),
          ("short", "16", "v3 fb"), ("unsigned char", "16", "sse2 v3"), ("signed char", "4,7", "v3 fb"),
          ("long long", "2,4,3", "v3 v4 fb"), ("unsigned long long", "8", "v4"), ("long double", "1,2,3", "fb")]
    big = [("unsigned char", "32", "v3"), ("signed char", "64", "v4"), ("unsigned short", "32", "v4")]
    for t, w, cs in tw + big:
        cs = cs.split()
        if tier != "quick":
            cs = list(dict.fromkeys(cs + [c for c in cf if int(w.split(",")[-1]) <= 16]))
        for c in cs:
            d = ["ELT=" + t, "WIDTHS=" + w]
            if (t, w, cs) in big or int(w.split(",")[-1]) >= 16:
                d += ["ROTSTEP=3" if int(w.split(",")[-1]) <= 16 else "ROTSTEP=7"]
            if c in ("v3", "fb") and "," in w:
                d.append("RESIZE")
            if w.startswith(("1", "2")):
                d.append("SCALAR")
            us.append(Unit("permute.cpp", c, d, flags=["-O1"]))
            if tier != "quick" and c in ("v3", "fb", "v4") and int(w.split(",")[-1]) <= 8:
                us.append(Unit("permute.cpp", c, d + ["FIXED"], flags=["-O1"]))
    return us


# --- portable implementation of <experimental/simd> ------------------------------------------
FB_TYPES = [["signed char", "unsigned short"], ["int", "float"], ["double", "long long"],
            ["char16_t", "long double"], ["unsigned", "wchar_t"], ["char", "unsigned long"],
            ["unsigned char", "short"], ["char32_t", "unsigned long long"], ["long", "float"]]
FB_SIZES = ["1,4,7", "2,8", "3,16", "5,17", "6,32", "9,12"]
FB_ROT = ["fb", "clfbsan", "fb0", "fbsse", "clfbmsan", "fbos", "fbsan", "clfb"]
FB_ASSUME = ["operand values for which the scalar operation itself is defined (no overflow, no division by zero, "
             "shift counts in range); special values (zeros, limits, infinities, NaN, denormals) are over-represented",
             "widths 1..32 sampled, plus some of 33..130 for a few element types"]


def fb_units(src, tier, quick_sizes=2, quick_cfgs=1, extra_defs=(), types=None, rotation=None, sizes=None, also=()):
    us = []
    types, rotation, sizes = types or FB_TYPES, rotation or FB_ROT, sizes or FB_SIZES
    for ti, ts in enumerate(types):
        for k, s in enumerate(rot(sizes, ti, quick_sizes if tier == "quick" else len(sizes))):
            nc = quick_cfgs if tier == "quick" else len(rotation)
            for c in rot(rotation, ti * 3 + k, nc):
                if c == "fbsan" and "long double" in ts and src == "math.cpp":
                    pass
                us.append(Unit(src, c, ["ELTS=" + ",".join(ts), "NS=" + s] + list(extra_defs)
                               + (["REPS=400"] if tier != "quick" else [])))
    # widths beyond one machine word of lanes
    wide = [("40,67", ["signed char", "unsigned"]), ("33,130", ["short", "float"]), ("64,96", ["unsigned char", "int"]),
            ("65,128", ["unsigned short", "double"]), ("34,80", ["char", "long long"])]
    if src == "math.cpp":
        wide = [("40,67", ["float"]), ("33,80", ["double"])]
    h = sum(map(ord, src))
    for k in range(min(2, len(wide)) if tier == "quick" else len(wide)):
        n, ts = wide[(h + k) % len(wide)]
        us.append(Unit(src, ["fb", "clfb", "clfbsan", "fbsse"][(h + k) % 4], ["ELTS=" + ",".join(ts), "NS=" + n]
                       + list(extra_defs)))
    us += list(also)
    return us


@check("C12", "case = (operator, simd type, operand values); every result lane compared with the scalar operator; "
       "non-trivial: operands for which the scalar operation is defined", FB_ASSUME,
       technique="runtime monitoring (lane-by-lane oracle) under UBSan/ASan/MSan builds of the portable simd")
def c12(tier):
    return fb_units("ops.cpp", tier, 3)


@check("C13", "case = (transfer operation, simd type, memory element type, alignment flag, address, values); lanes, "
       "memory contents and surrounding canaries compared; non-trivial: always (values differ per lane)", FB_ASSUME,
       technique="runtime monitoring: lanes and memory compared with per-element static_cast; ASan-poisoned "
       "surroundings, canaries, guard pages, MSan")
def c13(tier):
    us = fb_units("xfer.cpp", tier, 2)
    for i, u in enumerate(us):
        u2 = [["unsigned char", "double"], ["int", "float"], ["short", "long long"], ["unsigned", "char16_t"]][(i + i // 9) % 4]
        us[i] = Unit(u.src, u.cfg, u.defs + ["UELTS=" + ",".join(u2)])
    return us


@check("C14", "case = (where operation, simd type, mask pattern, operand values, memory element type); all lanes and "
       "memory bytes compared; non-trivial: mask neither empty nor full", FB_ASSUME,
       technique="runtime monitoring: selected/unselected lanes and memory compared with a scalar loop; masked access "
       "next to guard pages and ASan-poisoned memory, MSan")
def c14(tier):
    return fb_units("where.cpp", tier, 2)


@check("C15", "case = (mask operation, mask type, pattern(s)); lane-exact comparison; non-trivial: pattern neither "
       "empty nor full", FB_ASSUME)
def c15(tier):
    return fb_units("mask.cpp", tier, 3, 2)


@check("C16", "case = (reduction, simd type, mask pattern, values); exact comparison with a scalar fold; non-trivial: "
       "more than one lane", FB_ASSUME + ["lane values chosen such that every evaluation order gives the same result"])
def c16(tier):
    return fb_units("hred.cpp", tier, 3)


@check("C17", "case = (operation, simd type, target width(s), lane values); every lane of every result compared with "
       "the corresponding source lane; non-trivial: more than one lane involved", FB_ASSUME)
def c17(tier):
    also = [Unit("resize.cpp", c, ["ELTS=" + t, "NS=" + n]) for c, t, n in
            [("v3", "int,float", "2,3,4,8"), ("v4", "double,signed char", "2,5,8,16"), ("sse2", "short,float", "1,4,7"),
             ("cl3", "int,double", "2,4,8"), ("san3", "unsigned char,float", "4,6,8"), ("clsan", "unsigned short,double", "3,8"),
             ("v4", "float", "16,12"), ("v3", "signed char", "16,32"), ("sse2", "long long,unsigned", "2,4")]]
    return fb_units("resize.cpp", tier, 2, also=also)


@check("C18", "case = (function, simd type, argument values); every result lane compared bit for bit (NaN equivalent) "
       "with the std function; non-trivial: always", ["the C library's own math functions are the oracle",
       "arguments: uniform, special values, large and tiny magnitudes"])
def c18(tier):
    T = [["float"], ["double"], ["long double"], ["float", "double"]]
    return fb_units("math.cpp", tier, 3, 2, types=T)


@check("C09", "case = (operation, struct type, width, flag, address, values); every leaf member of every element and the "
       "memory around the range compared; non-trivial: always (all members and elements differ)",
       ["struct types sampled: aggregates, templates, pairs, tuples, arrays with 1-8 members of equal and mixed types; "
        "over-aligned structs",
        "nested structs: construction, subscript, broadcast and store only (their load does not compile)"],
       technique="runtime monitoring: every leaf of every loaded/stored struct compared with the plain array of structs; "
       "guard pages, canaries, ASan/UBSan/MSan")
def c09(tier):
    us = []
    rotation = ["v3", "sse2", "fb", "v4", "cl3", "clfbsan", "san3", "clfbmsan", "fb0"]
    sizes = ["1,2,4", "3,8", "4,16", "5,8", "2,32", "4,6,7"]
    for k in range(12):
        for j, c in enumerate(rot(rotation, k * 2, 4 if tier == "quick" else len(rotation))):
            ss = rot(sizes, k + j, 1 if tier == "quick" else len(sizes))
            for s in ss:
                if "san" in c and tier == "quick":
                    s = ["4", "8", "3", "2"][(k + j) % 4]
                us.append(Unit("simdize.cpp", c, ["KIND=%d" % k, "NS=" + s], flags=["-O1"] if "san" not in c and c != "fb0" else []))
    ex = [("v3", 0, "4,8"), ("v4", 0, "8,16"), ("sse2", 0, "4,8"), ("v4", 7, "16,32"), ("v3", 7, "8,16"), ("v3", 1, "4,8,16"),
          ("v3", 9, "8,16"), ("v4", 1, "8,32"), ("clsan", 0, "8"), ("san3", 4, "4,8"), ("v3", 4, "4,8"), ("v3", 5, "4,8"),
          ("v3", 6, "8,16"), ("sse2", 9, "4,8"), ("cl3", 9, "4,8"), ("v3", 10, "4,8"), ("v3", 11, "4,8"),
          ("v4", 11, "8,16")]
    for c, k, s in ex:
        us.append(Unit("simdize.cpp", c, ["KIND=%d" % k, "NS=" + s], flags=["-O1"] if "san" not in c else []))
    return list({u.name: u for u in us}.values())


@check("C10", "case = (algorithm, policy, length, addresses) per struct type, element type and build; every struct lane "
       "the callable received, every output element and guard bytes compared; non-trivial when the range is not empty",
       ALGO_ASSUME)
def c10(tier):
    us = []
    T = ["float", "int", "double", "short", "unsigned char", "long long"]
    SH = [2, 3, 4, 5, 6, 7, 8, 9, 10]
    rotation = ["v3", "fb", "v4", "clfbsan", "sse2", "cl3", "fbos", "clfbmsan"]
    for i, sh in enumerate(SH):
        for ps in POLSETS:
            if tier == "quick" and (i + ps) % 2:
                continue
            for c in rot(rotation, i * 3 + ps // 2, 1 if tier == "quick" else len(rotation)):
                t = T[(i + ps) % len(T)]
                us.append(Unit("structs.cpp", c, ["SHAPE=%d" % sh, "ELT=" + t, "POLSET=%d" % ps],
                               flags=["-O1"] if "san" not in c else []))
    for sh, t, ps, c in [(2, "float", 0, "v3"), (3, "float", 0, "v3"), (3, "float", 0, "v4"), (3, "float", 1, "v3"),
                         (2, "unsigned char", 0, "v4"), (3, "short", 0, "v3"), (2, "double", 2, "v3"),
                         (3, "float", 0, "clsan"), (7, "int", 0, "clsan"), (5, "double", 0, "san3"),
                         (9, "float", 0, "v3"), (10, "float", 0, "v3"), (10, "short", 2, "v4")]:
        us.append(Unit("structs.cpp", c, ["SHAPE=%d" % sh, "ELT=" + t, "POLSET=%d" % ps], flags=["-O1"] if "san" not in c else []))
    return list({u.name: u for u in us}.values())


@check("C11", "case = one struct type: member count, address, constness and type of every member, tuples and pairs of "
       "copies and references compared with direct member access; writes through references change one member only",
       ["aggregates of 1..50 members (mixed types, homogeneous, with 0-3 empty bases), arrays, nested structs, strings, "
        "pointers, over-aligned members, derived-only, pair/tuple/array"],
       technique="runtime monitoring: addresses, types and values observed through reflection compared with direct "
       "member access; ASan/UBSan builds")
def c11(tier):
    us = []
    for p in range(5):
        for v in range(3):
            for c in rot(["san2", "v3o0", "cl3"], p + v, 1 if tier == "quick" else 3):
                us.append(Unit("reflect.cpp", c, ["PART=%d" % p, "VAR=%d" % v], flags=["-O0"]))
    us += [Unit("reflect.cpp", "clsan2", ["PART=0", "VAR=0"]), Unit("reflect.cpp", "v3", ["PART=0", "VAR=2"])]
    return list({u.name: u for u in us}.values())


# --- bit casts, bitsets, conversions, preconditions, constants, version ----------------------------
@check("C19", "case = (operation, simd type(s), bit pattern); every byte of the value representation compared; "
       "non-trivial: always", ["fake_modify / fake_read are checked with GCC (several forms do not compile with Clang)"])
def c19(tier):
    us = []
    T = ["float,int", "double,long long", "float,unsigned", "double,short", "signed char,unsigned short",
         "float,double", "unsigned char,unsigned long long"]
    cs = ["v3", "fb", "sse2", "clfbsan", "v4", "cl3", "fb0", "san3", "fbsse", "v3o0"]
    ns = ["2,4,8", "1,3,16", "4,5", "8,16", "2,7"]
    for i, t in enumerate(T):
        for j, c in enumerate(rot(cs, i * 3, 3 if tier == "quick" else len(cs))):
            for n in rot(ns, i + j, 1 if tier == "quick" else len(ns)):
                us.append(Unit("bits.cpp", c, ["ELTS=" + t, "NS=" + n]))
    us += [Unit("bits.cpp", "fb", ["ELTS=long double,float", "NS=1,2,4"]), Unit("bits.cpp", "v3", ["ELTS=float,double", "NS=4,8"]),
           Unit("bits.cpp", "os", ["ELTS=float,int", "NS=4,8"])]
    return list({u.name: u for u in us}.values())


@check("C20", "case = (mask type, pattern); every bit and lane compared in both directions; non-trivial: pattern "
       "neither empty nor full", ["libstdc++ masks have at most 32 (AVX-512: 64) lanes"])
def c20(tier):
    us = []
    T = ["signed char,float", "int,double", "unsigned short,long long", "unsigned char,unsigned", "short,float", "char16_t,double"]
    cs = ["v3", "fb", "v4", "sse2", "clfbsan", "cl3", "fb0", "san3"]
    for i, t in enumerate(T):
        for j, c in enumerate(rot(cs, i * 3, 3 if tier == "quick" else len(cs))):
            fbk = "fb" in c
            sizes = ["1,2,7,8,9", "16,17,31,32", "3,4,5,15,24"] if not fbk else ["1,8,33,64", "65,100,16", "3,32,63,128"]
            for n in rot(sizes, i + j, 1 if tier == "quick" else 3):
                us.append(Unit("bitset.cpp", c, ["ELTS=" + t, "NS=" + n]))
    us += [Unit("bitset.cpp", "v4", ["ELTS=signed char,unsigned char", "NS=16,32"]),
           Unit("bitset.cpp", "fb", ["ELTS=float,signed char", "NS=31,32,33,63,64,65"])]
    return list({u.name: u for u in us}.values())


@check("C21", "case = (conversion, source type, target type, lane values); every lane compared with static_cast; "
       "non-trivial: always", ["values for which static_cast is defined"])
def c21(tier):
    us = []
    T = [("int,float", "double,short"), ("signed char,unsigned", "int,float"), ("double,long long", "unsigned char,float"),
         ("short,unsigned short", "long long,double"), ("unsigned long long", "int,unsigned short"), ("float", "int,unsigned")]
    cs = ["v3", "fb", "clfbsan", "v4", "sse2", "fbsse", "san3", "fb0", "cl3"]
    ns = ["1,4,8", "2,3", "5,16", "4,7"]
    for i, (t, u) in enumerate(T):
        for j, c in enumerate(rot(cs, i * 2, 3 if tier == "quick" else len(cs))):
            for n in rot(ns, i + j, 1 if tier == "quick" else len(ns)):
                us.append(Unit("cvt.cpp", c, ["ELTS=" + t, "UELTS=" + u, "NS=" + n]))
    return us


@check("C22", "case = (call, index / mask / length, level): forked child executes the real call, parent observes trap, "
       "abort with message, or normal completion; non-trivial: always",
       ["a violation the optimizer already knows at compile time may trap instead of printing at level 4"],
       technique="fault injection: every call with violated and with met preconditions executed in a forked child whose "
       "termination (trap, abort, message, normal) is observed")
def c22(tier):
    us = []
    T = ["int", "float", "signed char", "double", "long long", "unsigned short"]
    levels = ["", "0", "1", "2", "3", "4", "5"]
    fbc = ["fb", "fb0", "clfb", "fbos", "fbsse"]
    anyc = ["v3", "fb", "cl3", "sse2", "v3o0", "v4", "clfb", "os"]
    for i, lv in enumerate(levels):
        d = ["VIR_CHECK_PRECONDITIONS=" + lv] if lv else []
        for j, c in enumerate(rot(fbc, i * 2, 3 if tier == "quick" else len(fbc))):
            t = rot(T, i + j * 2, 2 if tier == "quick" else len(T))
            us.append(Unit("precond.cpp", c, d + ["PART=0", "ELTS=" + ",".join(t), "NS=" + ["1,4", "2,5", "3,8,17"][(i + j) % 3]]))
        for j, c in enumerate(rot(anyc, i * 3, 2 if tier == "quick" else len(anyc))):
            us.append(Unit("precond.cpp", c, d + ["PART=1", "ELTS=" + ",".join(rot(T, i + j, 1))]))
    return us


@check("C23", "case = (expression, operand constants): value and type of the resulting constant compared with the same "
       "expression on plain values; literal: value and type compared with the generator's number; non-trivial: always",
       ["operand constants and literals sampled: 9x9 ints, 16 mixed-type constants, three class values, 805 literals",
        "dereferenced / subscripted pointers only with Clang (GCC 13 deduces a wrong type for template<auto> there)"])
def c23(tier):
    us = [Unit("cw.cpp", "sse2", ["PART=0"], flags=["-O0"]), Unit("cw.cpp", "clsan2", ["PART=1"]),
          Unit("cw.cpp", "sse2", ["PART=1"]), Unit("cw.cpp", "sse2", ["PART=1"], std="gnu++20"),
          Unit("cw.cpp", "cl3", ["PART=0"], flags=["-O0"])]
    for i in range(4):
        us.append(Unit("cw.cpp", "sse2", ["PART=2", "LITPART=%d" % i], flags=["-O0"]))
        us.append(Unit("cw.cpp", "cl3", ["PART=2", "LITPART=%d" % i], flags=["-O0"]))
    if tier != "quick":
        us += [Unit("cw.cpp", c, ["PART=%d" % p]) for c in ("v3", "san2", "cl3") for p in (0, 1)]
    return list({u.name: u for u in us}.values())


@check("C24", "case = (operator, pair of versions); compared with the lexicographic order of the triples; non-trivial: "
       "always", ["components 0..255 sampled at the boundaries and at random"])
def c24(tier):
    return [Unit("version.cpp", c, [], std=s) for c in ("sse2", "cl3", "san2", "clsan2", "v3")
            for s in ("gnu++17", "gnu++20", "gnu++23", "c++20")]


def same_results(results):
    """offline comparison of the logged histories: all builds must have observed the same values in every step"""
    logs, out, n = {}, [], 0
    for r in results:
        for d in r.digests:
            k, l = d.split(" ", 1)
            logs.setdefault(k, []).append((r.unit.cfg, l))
    for k, ls in sorted(logs.items()):
        ref_cfg, ref = next(((c, l) for c, l in ls if not CONFIGS[c][1].count("-DVIR_DISABLE_STDX_SIMD")), ls[0])
        for c, l in ls:
            if l != ref:
                n += 1
                for i, (x, y) in enumerate(zip(l.split(","), ref.split(","))):
                    if x != y:
                        out.append("history %s step %d: operation %s observes different values with %s than with %s"
                                   % (k, i, x.split("=")[0], c, ref_cfg))
                        break
    return out[:20]


@check("C25", "case = one step of a random history of API calls (operators, where, masks, reductions, loads/stores, casts, "
       "split/concat, algorithms), same seed in every build; digests of all observed values compared offline; "
       "non-trivial: distinct (operation, observed values)",
       ["operands for which the operations are defined and, for floats, exact in any evaluation order of sums"],
       cross=same_results,
       technique="runtime monitoring: event logs of identical histories recorded with both implementations, compared offline")
def c25(tier):
    us = []
    T = [("int,float", "4,7"), ("signed char,unsigned short", "8,3"), ("double,long long", "2,5"), ("unsigned,char", "4,16"),
         ("float,short", "8,6"), ("unsigned char,unsigned long long", "4,3"), ("double,int", "4,12"), ("long,float", "2,16")]
    for i, (t, n) in enumerate(T):
        for c in [["v3", "v4", "sse2", "v2"][i % 4], ["fb", "fbsse", "clfbsan", "fb0"][i % 4]] if tier == "quick" else \
                ["v3", "v4", "sse2", "v2", "fb", "fbsse", "clfbsan", "fb0", "clfb", "clfbmsan", "fbos", "san3"]:
            us.append(Unit("same.cpp", c, ["ELTS=" + t, "NS=" + n, "DEDUCE"], flags=["-ffp-contract=off"]
                           + (["-O1"] if c in ("v3", "v4", "sse2", "v2", "fb") else [])))
    return us


@check("C27", "case = (concurrent phase: set of calls on adjacent / mask-interleaved memory or on shared const objects, "
       "element type, build); non-trivial: always (at least two threads act). Oracle: ThreadSanitizer on every access, "
       "values afterwards, lost updates of foreign elements, read-only pages below shared inputs and const objects",
       ["threads own disjoint elements and share only const objects and inputs",
        "libstdc++'s own masked stores are not judged (only the portable implementation's)"],
       technique="ThreadSanitizer builds of concurrent workloads, lost-update monitors and read-only pages below shared data")
def c27(tier):
    us = []
    P = ["-pthread"]
    cs = ["tsan3", "fbtsan", "tsan2", "clfbtsan", "fbtsan0"]
    for i, t in enumerate(ALGO_TYPES):
        for ps in POLSETS:
            if tier == "quick" and (i + ps) % 3 != 1:
                continue
            for c in rot(["tsan3", "fbtsan", "tsan3", "tsan2"], i + ps, 1) if tier == "quick" else cs:
                us.append(Unit("race.cpp", c, ["PART=0", "ELT=" + t, "POLSET=%d" % ps], libs=P))
    T = [("signed char,float", "float,short"), ("int,double", "signed char,int"), ("unsigned short,long long", "double,unsigned"),
         ("float,unsigned char", "int,double")]
    for i, (t, u) in enumerate(T):
        for j, n in enumerate(rot(["4,7", "2,8", "3,16", "5,33"], i, 2 if tier == "quick" else 4)):
            for c in rot(["fbtsan", "clfbtsan", "fbtsan0"], i + j, 1 if tier == "quick" else 3):
                us.append(Unit("race.cpp", c, ["PART=1", "ELTS=" + t, "UELTS=" + u, "NS=" + n], libs=P))
        us.append(Unit("race.cpp", ["tsan3", "tsan2"][i % 2], ["PART=1", "ELTS=" + t, "UELTS=" + u, "NS=" + ["4,7", "2,8", "3,16", "8"][i]], libs=P))
    for ps in ([0, 1, 3, 6, 7] if tier == "quick" else POLSETS):
        for c in rot(["tsan3", "fbtsan", "tsan2"], ps, 1 if tier == "quick" else 3):
            us.append(Unit("race.cpp", c, ["PART=2", "POLSET=%d" % ps], libs=P))
    for i, c in enumerate(["v3", "fb", "v4", "sse2", "fbsse", "cl3", "os", "clfb"]):
        for t in rot(["int", "float", "short", "unsigned char", "double"], i, 1 if tier == "quick" else 5):
            us.append(Unit("race.cpp", c, ["PART=3", "ELT=" + t], libs=P))
    return list({u.name: u for u in us}.values())


@check("C28", "case = (algorithm, policy, length, misalignments) per element type and build with checked iterators; events = "
       "iterator operations observed; non-trivial when the range is not empty. Oracle: position of every iterator formed, "
       "dereferenced, compared or subtracted; with libstdc++'s debug mode: its own iterator checks", ALGO_ASSUME,
       technique="runtime monitoring: iterators that record and judge every operation the algorithms perform on them; "
       "libstdc++'s debug-mode iterators")
def c28(tier):
    us = []
    cs = ["v3", "fb", "cl3", "sse2", "v4", "os"]
    for i, t in enumerate(ALGO_TYPES):
        for ps in POLSETS:
            if tier == "quick" and (i + ps) % 3:
                continue
            for c in rot(cs, i + 2 * ps, 1 if tier == "quick" else 6):
                us.append(Unit("iters.cpp", fixcfg((t,), c), ["ELT=" + t, "POLSET=%d" % ps] + large(t, c, ps)))
            if tier != "quick" or (i + ps) % 2 == 0:
                for c in rot(["v3", "fb", "clfb", "sse2"], i + ps, 1 if tier == "quick" else 4):
                    us.append(Unit("iters.cpp", c, ["LIBCHECKS", "ELT=" + t, "POLSET=%d" % ps], flags=["-D_GLIBCXX_DEBUG"]))
    return list({u.name: u for u in us}.values())


CE_FLAGS = {"g": ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=100000000"], "c": ["-fconstexpr-steps=2000000000"]}


@check("C29", "case = one random history of operations (widths x element types x seeds) executed by the compiler's constant evaluator "
       "and by the program; events = observed lane values; non-trivial: always. Oracle: scalar value per lane, equality of both "
       "executions, rejection of undefined behaviour by the constant evaluator",
       ["operations declared constexpr; with libstdc++'s simd only vir-simd's own extensions",
        "values small enough that the scalar operation is defined"],
       technique="runtime monitoring: identical histories executed by the compilers' UB-checking constant evaluators and by the "
       "program, every observed lane compared with a scalar oracle")
def c29(tier):
    import os
    us = []
    seed0 = "SEED0=%d" % (1000 * (int(os.environ.get("VERIF_SEED", "1") or "1") % 1000000))
    T = ["int", "float", "unsigned char", "short", "double", "long long", "unsigned", "signed char"]
    W = ["1,4,7", "2,5,8", "3,16", "6,9,12"]
    fb = ["fb", "clfb", "fbsan", "clfbsan", "fb0", "fbsse"]
    for part in range(5):
        for i, t in enumerate(T):
            for j, w in enumerate(rot(W, i + part, 1 if tier == "quick" else 4)):
                for c in rot(fb, i // 2 + part + j, 1 if tier == "quick" else 3):
                    us.append(Unit("conste.cpp", c, ["ELT=" + t, "PART=%d" % part, "NS=" + w, "SEEDS=%d" % (8 if tier == "quick" else 24), seed0],
                                   flags=CE_FLAGS["c" if c.startswith("cl") else "g"]))
    for i, (t, w) in enumerate([("int", "1,4,8"), ("float", "4,8"), ("double", "2,4"), ("short", "8,16"), ("unsigned char", "8,16"),
                                ("long long", "2,4")]):
        for c in rot(["v3", "san3", "v3o0"], i, 1 if tier == "quick" else 3):
            us.append(Unit("conste.cpp", c, ["ELT=" + t, "PART=3", "NS=" + w, "DEDUCE", seed0], flags=CE_FLAGS["g"]))
    return us


ORDER_HEADERS = ("simd simd_cast simd_bit simd_bitset simd_float_ops simd_resize simd_version constexpr_wrapper simd_concepts simd_cvt "
                 "simd_iota simd_permute simd_benchmarking struct_reflect simdize simd_execution").split()


@check("C30", "case = one program of two translation units which include the headers in different random orders (or one header alone), "
       "per language mode, compiler and implementation, executing one section per header 50 times; events = observed values; "
       "oracle: scalar values, equality of the logs of both units",
       ["16 public headers; sections exercise the main entry points of each"],
       technique="runtime monitoring: programs of two translation units with randomly ordered includes record the same event log, "
       "compared with each other and a scalar oracle")
def c30(tier):
    import os, random
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or "1"))
    second = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "order2.cpp")
    us = []

    def add(a, b, c, std, k):
        us.append(Unit("order.cpp", c, ["A%d=%s" % (i + 1, h) for i, h in enumerate(a)] + ["B%d=%s" % (i + 1, h) for i, h in enumerate(b)]
                       + ["USE_" + h for h in a], std=std, flags=[second], name="order.%s.%s.%s" % (c, std.replace("gnu++", ""), k)))

    cs = ["v3", "fb", "cl3", "clfb", "sse2", "fbsan"]
    stds = ["gnu++20", "gnu++23", "gnu++17"]
    n = 0
    for h in ORDER_HEADERS:
        for c in rot(cs, n, 1 if tier == "quick" else 6):
            for std in rot(stds, n // 2, 1 if tier == "quick" else 3):
                add([h], [h], c, std, h)
        n += 1
    for k in range(18 if tier == "quick" else 120):
        m = [2, 3, 16][k % 3]
        a = rnd.sample(ORDER_HEADERS, m)
        b = rnd.sample(a, m)
        add(a, b, cs[k % 6], stds[0] if k % 6 in (2, 3) or k // 6 != 2 else stds[1 + k % 2], "%d-%s" % (k, "-".join(a) if m < 16 else "all"))
    return us
