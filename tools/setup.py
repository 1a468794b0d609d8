#!/usr/bin/env python3
"""Checks that the tools the checks rely on are there (every check builds what it needs itself)."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(here, "..", d), exist_ok=True)
src = os.path.join(here, "..", "build", "probe.cpp")
open(src, "w").write("#include <rapidcheck.h>\n#include <boost/program_options.hpp>\nint main() { return 0; }\n")
r = subprocess.run(["g++", "-std=c++17", "-fsanitize=address", src, "-o", src[:-4], "-lrapidcheck", "-lboost_program_options"])
sys.exit(r.returncode)
