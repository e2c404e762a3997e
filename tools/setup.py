#!/usr/bin/env python3
"""Nothing to install: every check compiles its monitors from /repo's current headers. This only
verifies that the compilers work."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "build", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.cpp")
    open(src, "w").write("#include <cstdio>\nint main() { std::puts(\"ok\"); }\n")
    for c in ("g++", "clang++"):
        for f in ([], ["-fsanitize=address,undefined"]):
            subprocess.run([c, "-O1"] + f + [src, "-o", os.path.join(d, "a")], check=True)
            subprocess.run([os.path.join(d, "a")], check=True)
