#!/usr/bin/env python3
"""setup_cmd: builds the two runtimes and checks that they find the planted defects of a toy program (and nothing else)."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    def sh(*a): subprocess.run(a, check=True, cwd=d)
    sh("g++-14", "-std=c++23", "-O2", "-w", "-c", V + "/seqrt/seqrt.cpp", "-I" + V + "/seqrt", "-o", "seqrt.o")
    sh("g++-14", "-std=c++23", "-O2", "-g", "-w", "-c", V + "/mcrt/mcrt.cpp", "-o", "mcrt.o")
    sh("g++-14", "-std=c++23", "-O1", "-g", "-w", "-fsanitize=thread", "-I" + V + "/mcrt", "-c", V + "/mcrt/selftest.cpp", "-o", "toy.o")
    sh("g++-14", "toy.o", "mcrt.o", "-static-libstdc++", "-static-libgcc", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-pthread", "-o", "toy")
    bad = 0
    for n in subprocess.run(["./toy", "--list"], capture_output=True, text=True, cwd=d).stdout.split():
        rc = subprocess.run(["./toy", "--only", n, "--replay-dir", d], cwd=d, capture_output=True).returncode
        if rc != (1 if n.startswith("bad_") else 0):
            print("selftest: unexpected result", n, rc); bad = 1
        if n.startswith("bad_") and subprocess.run(["./toy", "--replay", n + ".replay"], cwd=d, capture_output=True).returncode != 1:
            print("selftest: replay does not reproduce", n); bad = 1
print("selftest", "FAILED" if bad else "ok")
sys.exit(bad)
