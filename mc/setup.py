#!/usr/bin/env python3
import os, subprocess, sys
# Nothing is kept from setup: every check rebuilds its harness from /repo. This only verifies that the toolchain works.
r = subprocess.run(["g++", "-std=c++17", "-x", "c++", "-fsyntax-only", "-"], input="int main(){}", text=True)
sys.exit(r.returncode)
