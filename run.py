#!/usr/bin/env python3
"""Check runner: builds the monitor programs of one property from /repo's current headers, runs
them, collects what the monitors observed and writes evidence/<id>.json.

  run.py <property-id> [quick|thorough]     (tier defaults to $VERIF_TIER, then quick)
"""
import concurrent.futures, json, os, re, resource, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
JOBS = min(os.cpu_count() or 4, 16)

_COMMON = ["-Wno-psabi", "-w", "-pipe"]
_SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
_TS = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
_FB = ["-DVIR_DISABLE_STDX_SIMD"]
GCC = ["g++-13" if shutil.which("g++-13") else "g++"]
CLANG = ["clang++-18" if shutil.which("clang++-18") else "clang++", "-fno-crash-diagnostics"]


def _m(x):
    return ["-march=x86-64-" + x] if x else []


# name -> (compiler, flags, needs AVX-512)
CONFIGS = {
    "sse2": (GCC, ["-O2"], False),
    "v2": (GCC, ["-O2"] + _m("v2"), False),
    "v3": (GCC, ["-O2"] + _m("v3"), False),
    "v3o0": (GCC, ["-O0"] + _m("v3"), False),
    "v3o3": (GCC, ["-O3"] + _m("v3"), False),
    "os": (GCC, ["-Os"] + _m("v3"), False),
    "os4": (GCC, ["-Os"] + _m("v4"), True),
    "v4": (GCC, ["-O2"] + _m("v4"), True),
    "san2": (GCC, ["-O0"] + _SAN, False),
    "san3": (GCC, ["-O0"] + _m("v3") + _SAN, False),
    "san3o1": (GCC, ["-O1"] + _m("v3") + _SAN, False),
    "san3os": (GCC, ["-Os"] + _m("v3") + _SAN, False),
    "san4": (GCC, ["-O0"] + _m("v4") + _SAN, True),
    "fb": (GCC, ["-O2"] + _m("v3") + _FB, False),
    "fbsse": (GCC, ["-O2"] + _FB, False),
    "fb0": (GCC, ["-O0"] + _FB, False),
    "fbos": (GCC, ["-Os"] + _m("v3") + _FB, False),
    "fbsan": (GCC, ["-O1"] + _m("v3") + _FB + _SAN, False),
    "cl3": (CLANG, ["-O2"] + _m("v3"), False),
    "cl4": (CLANG, ["-O2"] + _m("v4"), True),
    "clsan": (CLANG, ["-O1"] + _m("v3") + _SAN, False),
    "clsan2": (CLANG, ["-O1"] + _SAN, False),
    "clsan4": (CLANG, ["-O1"] + _m("v4") + _SAN, True),
    "clsanos": (CLANG, ["-Os"] + _m("v3") + _SAN, False),
    "clmsan": (CLANG, ["-O1"] + _m("v3") + ["-fsanitize=memory", "-fno-sanitize-recover=all"], False),
    "tsan2": (GCC, ["-O1"] + _TS, False),
    "tsan3": (GCC, ["-O1"] + _m("v3") + _TS, False),
    "fbtsan": (GCC, ["-O1"] + _m("v3") + _FB + _TS, False),
    "fbtsan0": (GCC, ["-O0"] + _FB + _TS, False),
    "clfbtsan": (CLANG, ["-O1"] + _FB + _TS, False),
    "clfb": (CLANG, ["-O2"] + _m("v3") + _FB, False),
    "clfbsan": (CLANG, ["-O1"] + _m("v3") + _FB + _SAN, False),
    "clfbmsan": (CLANG, ["-O1"] + _m("v3") + _FB + ["-fsanitize=memory", "-fno-sanitize-recover=all"], False),
}

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=77:print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=0",
    "MSAN_OPTIONS": "exitcode=77:abort_on_error=0",
}


class Unit:
    def __init__(self, src, cfg, defs=(), std="gnu++23", args=(), cpu=200, libs=(), name=None, run=True,
                 driver=None, post=None, flags=()):
        self.flags = list(flags)
        self.src, self.cfg, self.defs, self.std = src, cfg, list(defs), std
        self.args, self.cpu, self.libs, self.run = list(args), cpu, list(libs), run
        d = "_".join(re.sub(r"[^A-Za-z0-9.]+", "-", x.replace(",", ".")) for x in self.defs)
        self.name = name or "%s.%s.%s%s" % (os.path.splitext(src)[0], cfg, std.replace("gnu++", ""),
                                            "." + d if d else "")
        self.driver = driver  # optional python callable(unit, binary, env) -> output text
        self.post = post

    def compile_cmd(self, out):
        comp, flags, _ = CONFIGS[self.cfg]
        std = self.std
        if comp is CLANG and std == "gnu++23":
            std = "gnu++20"   # libstdc++ 13's <expected>/<ranges> in C++23 mode is not clang-18 clean
        return (list(comp) + ["-std=" + std] + flags + _COMMON + ["-I" + REPO, "-I" + HARNESS]
                + self.flags + ["-D" + d for d in self.defs] + [os.path.join(HARNESS, self.src), "-o", out] + self.libs)


def cpu_has_v4():
    try:
        t = open("/proc/cpuinfo").read()
    except OSError:
        return False
    m = re.search(r"^flags\s*:(.*)$", t, re.M)
    f = set(m.group(1).split()) if m else set()
    return {"avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd"} <= f


class Result:
    def __init__(self, unit):
        self.unit, self.viols, self.stats, self.samples = unit, [], {}, []
        self.error, self.wall, self.digests = None, 0.0, []
        self.out = self.err = ""


def first_report(t):
    ls = t.splitlines()
    for i, l in enumerate(ls):
        if re.search(r"runtime error|ERROR: |WARNING: Memory|WARNING: Thread|terminate called|Assertion|recondition", l):
            return " | ".join(ls[i:i + 3])[:500]
    return t[-400:].replace("\n", " | ")


COMPILE_CPU = 330          # seconds; the largest monitor program needs about 45
COMPILE_AS = 10 << 30      # bytes; the largest monitor program needs about 1.5 GB
_found = []                # violations so far (only used to stop early)
_start = time.time()


def _compile_limits():
    resource.setrlimit(resource.RLIMIT_CPU, (COMPILE_CPU, COMPILE_CPU + 5))
    resource.setrlimit(resource.RLIMIT_AS, (COMPILE_AS, COMPILE_AS))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_unit(unit, bdir, seed, tier):
    r = Result(unit)
    t0 = time.time()
    if _found and (os.environ.get("VERIF_FAST") or tier == "quick" and t0 - _start > 300):
        r.skipped = True   # the verdict is known; a changed tree made the monitors (too) slow
        return r
    try:
        return _run_unit(r, unit, bdir, seed, tier, t0)
    finally:
        _found.extend(r.viols)


def _run_unit(r, unit, bdir, seed, tier, t0):
    binp = os.path.join(bdir, unit.name[:180])
    cmd = unit.compile_cmd(binp)
    r.cmd = cmd
    cp = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                        preexec_fn=_compile_limits)
    if cp.returncode != 0:
        r.out = cp.stdout
        if re.search(r"CPU time limit exceeded|virtual memory exhausted|out of memory allocating|bad_alloc", cp.stdout):
            r.viols.append("compile %s :: a valid use of the public API no longer compiles within %d s of CPU time and "
                           "%d GB: %s" % (unit.name, COMPILE_CPU, COMPILE_AS >> 30, cp.stdout[-300:].replace("\n", " | ")))
        elif cp.returncode < 0 or re.search(r"internal compiler error|Killed|cannot allocate|No space left|"
                                          r"fatal error: error writing", cp.stdout):
            r.error = "compiler failed abnormally: " + cp.stdout[-600:]
        else:
            errs = [l for l in cp.stdout.splitlines() if "error" in l]
            r.viols.append("compile %s :: a valid use of the public API no longer compiles: %s"
                           % (unit.name, (errs[0] if errs else cp.stdout[-300:])[:400]))
        r.wall = time.time() - t0
        return r
    r.tc = time.time() - t0
    env = dict(os.environ, **SAN_ENV)
    args = [binp] + (unit.args or [str(seed), tier, unit.name])
    r.runcmd = args
    cpu = unit.cpu * (4 if tier == "thorough" else 1)

    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        rp = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                            env=env, preexec_fn=lim, cwd=bdir)
        r.out, r.err, rc = rp.stdout, rp.stderr, rp.returncode
        if rc != 0 and "ThreadSanitizer: unexpected memory mapping" in r.err:   # unlucky address space layout
            rp = subprocess.run(["setarch", "-R"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                errors="replace", env=env, preexec_fn=lim, cwd=bdir)
            r.out, r.err, rc = rp.stdout, rp.stderr, rp.returncode
            if rc != 0 and "ThreadSanitizer: unexpected memory mapping" in r.err:
                r.error = "ThreadSanitizer cannot run here"
                return r
    except OSError as e:
        r.error = "cannot run: %s" % e
        return r
    for line in r.out.splitlines():
        if line.startswith("VIOL "):
            r.viols.append(line[5:])
        elif line.startswith("SAMPLE "):
            r.samples.append(line[7:])
        elif line.startswith("DIGEST "):
            r.digests.append(line[7:])
        elif line.startswith("STAT "):
            for kv in line[5:].split():
                k, v = kv.split("=")
                r.stats[k] = r.stats.get(k, 0) + int(v)
    if rc != 0 and not r.viols:
        if rc == -9:
            r.error = "killed (signal 9)"
        elif rc == 9:
            r.error = "harness set-up failed: " + r.err[-300:]
        else:
            r.viols.append("%s :: exited with status %d: %s" % (unit.name, rc, first_report(r.err or r.out)))
    if rc == 0 and not r.stats:
        r.error = "no STAT line from %s" % unit.name
    try:
        os.unlink(binp)
    except OSError:
        pass
    r.wall = time.time() - t0
    return r


def main():
    import checks
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")) or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    spec = checks.CHECKS[pid]
    units = spec.units(tier)
    v4 = cpu_has_v4()
    skipped = [u for u in units if CONFIGS[u.cfg][2] and not v4]
    units = [u for u in units if not (CONFIGS[u.cfg][2] and not v4)]
    only = os.environ.get("VERIF_ONLY")
    if only:
        units = [u for u in units if re.search(only, u.name)]
    # longest first is unknown; sanitizers take longest
    units.sort(key=lambda u: (0 if "san" in u.cfg else 1))
    broot = os.path.join(VERIF, "build")
    os.makedirs(broot, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + "-", dir=broot)
    results = []
    try:
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(run_unit, u, bdir, seed, tier) for u in units]
            for f in concurrent.futures.as_completed(futs):
                results.append(f.result())
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    extra_viols = []
    if spec.cross:
        extra_viols = spec.cross(results)
    known = []
    kf = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if not line:
                continue
            k = json.loads(line)
            if k.get("property") == pid and k.get("status") == "known":
                known.append(k)
    errors, viols, seen_known = [], [], {}
    for r in results:
        if r.error:
            errors.append("%s: %s" % (r.unit.name, r.error))
        for v in r.viols:
            hit = next((k for k in known if re.search(k["match"], r.unit.name + " " + v)), None)
            if hit:
                seen_known[hit["what"]] = seen_known.get(hit["what"], 0) + 1
            else:
                viols.append((r, v))
    for v in extra_viols:
        viols.append((None, v))
    st = lambda k: sum(r.stats.get(k, 0) for r in results)
    samples = []
    for r in results:
        for s in r.samples[:2]:
            if len(samples) < 12:
                samples.append(r.unit.name + ": " + s)
    cfgs = {}
    for r in results:
        cfgs[r.unit.cfg] = cfgs.get(r.unit.cfg, 0) + r.stats.get("evaluations", 0)
    cov = {"evaluations": st("evaluations"), "distinct_nontrivial": st("distinct"), "rule": spec.rule,
           "samples": samples or ["none"], "monitor_events": st("events"), "programs_run": len(results),
           "evaluations_per_config": cfgs}
    for k in sorted({k for r in results for k in r.stats} - {"evaluations", "distinct", "events", "violations"}):
        cov[k] = st(k)
    if skipped:
        cov["skipped_configs"] = sorted({u.cfg for u in skipped})
    if seen_known:
        cov["known_findings_seen"] = seen_known
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.level, "coverage": cov,
          "assumptions": spec.assumptions, "wall_s": round(wall, 1), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r.wall)[:25]:
            print("  %6.1fs (compile %5.1f) %s" % (r.wall, getattr(r, "tc", 0), r.unit.name))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for w, n in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    print("%s %s: %d programs, %d evaluations, %d distinct non-trivial, %d events, %d violations, %.1f s"
          % (pid, tier, len(results), cov["evaluations"], cov["distinct_nontrivial"], cov["monitor_events"],
             len(viols), wall) + (" cpu %.0f s" % sum(resource.getrusage(resource.RUSAGE_CHILDREN)[:2])
                                  if os.environ.get("VERIF_TIMES") else ""))
    if viols:
        rdir = os.path.join(VERIF, "replays", pid)
        os.makedirs(rdir, exist_ok=True)
        byunit = {}
        for r, v in viols:
            byunit.setdefault(r.unit.name if r else "cross", []).append((r, v))
        for n, (un, lst) in enumerate(sorted(byunit.items())):
            if n >= 5:
                print("... violations in %d more programs" % (len(byunit) - 5))
                break
            r = lst[0][0]
            path = os.path.join(rdir, un[:150] + ".sh")
            with open(path, "w") as f:
                f.write("#!/bin/sh\n# replay of %s (seed %d, tier %s)\n" % (un, seed, tier))
                for _, v in lst[:20]:
                    f.write("# VIOL %s\n" % v.replace("\n", " "))
                if r is not None:
                    d = "/tmp/verif-replay-%s" % pid
                    f.write("mkdir -p %s\n" % d)
                    c = r.unit.compile_cmd(d + "/prog")
                    f.write(" ".join(shlex.quote(x) for x in c) + " || exit 2\n")
                    f.write("".join("%s=%s " % kv for kv in SAN_ENV.items())
                            + " ".join(shlex.quote(x) for x in [d + "/prog"]
                                       + (r.unit.args or [str(seed), tier, un])) + "\n")
                    for l in r.err.splitlines()[:40]:
                        f.write("# stderr: %s\n" % l)
            for _, v in lst[:3]:
                print("  %s: %s" % (un, v))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR", e)
        return 2
    if cov["evaluations"] == 0:
        print("ERROR: nothing was evaluated")
        return 2
    return 0


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.exit(main())
