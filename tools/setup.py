#!/usr/bin/env python3
"""Warm the object cache: compile the current sources once (both the plain
set and the one that needs the Pythia stand-in). Checks do not rely on it."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402

h = os.path.join(B.CACHE, "warm.cc")
os.makedirs(B.CACHE, exist_ok=True)
with open(h, "w") as f:
    f.write("int main() { return 0; }\n")
try:
    B.build(h, "rel", pythia=True)
    print("setup: ok")
except B.BuildError as e:
    # the checks report build problems themselves
    print("setup: build failed\n", e)
    sys.exit(1)
