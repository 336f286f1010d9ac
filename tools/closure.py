#!/usr/bin/env python3
"""Development aid: record which sources each harness links against."""
import json
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
import props as P  # noqa: E402


def closure_of(spec):
    h = spec["harness"]
    v = spec.get("variant", "rel")
    B.build(f"{B.VERIF}/harness/{h}.cc", variant=v,
            pythia=spec.get("pythia", False), extra_link=spec.get("link", ()),
            extra_src=[f"{B.VERIF}/harness/{s}" for s in spec.get("extra", ())],
            with_main=spec.get("with_main", False))
    work = f"{B.CACHE}/obj-{v}"
    arch = f"{work}/libsmash_{'p' if spec.get('pythia') else 'n'}.a"
    objs = [f"{work}/H_{h}.o"] + [
        f"{work}/X_{os.path.basename(s)}.o" for s in spec.get("extra", ())]
    if spec.get("with_main"):
        objs.append(f"{work}/smash_main.o")
    cmd = (["g++"] + B.VARIANTS[v] + ["-pthread", "-Wl,-t"] + objs + [arch] +
           B.prebuilt_third_party() + B.build_cuba() +
           ["-lgsl", "-lgslcblas", "-lm"] + list(spec.get("link", ())) +
           ["-o", "/dev/null"])
    out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True).stdout
    return sorted(set(re.findall(r"libsmash_[pn]\.a\(([\w]+\.cc)\.o\)", out)) |
                  set(re.findall(r"\(([\w]+\.cc)\.o\)", out)))


if __name__ == "__main__":
    path = f"{B.VERIF}/tools/closure.json"
    try:
        with open(path) as f:
            data = json.load(f)
    except OSError:
        data = {}
    want = sys.argv[1:]
    for pid, spec in P.CHECKS.items():
        if want and pid not in want:
            continue
        data[spec["harness"]] = closure_of(spec)
        print(pid, spec["harness"], len(data[spec["harness"]]))
    with open(path, "w") as f:
        json.dump(data, f, indent=0, sort_keys=True)
        f.write("\n")
