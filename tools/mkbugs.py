#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/bugdefs.py (patch.diff, demo, meta)."""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "tools"))
import bugdefs  # noqa: E402

SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build_demo.sh"
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export DEMO_REPO=$PWD
build_demo "$T/demo" demo.cc %s > "$T/log" 2>&1 || { cat "$T/log"; exit 98; }
mkdir -p "$T/work" && cd "$T/work" && timeout 200 "$T/demo" > "$T/out" 2>&1
rc=$?
tail -5 "$T/out"
exit $rc
"""


def main(only):
    for b in bugdefs.BUGS:
        if only and b["id"] not in only:
            continue
        d = f"{VERIF}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        diff = ""
        for path, edits in b["edits"].items():
            old = subprocess.run(["git", "-C", REPO, "show", f"HEAD:{path}"],
                                 capture_output=True, text=True).stdout
            new = old
            for a, c in edits:
                assert new.count(a) == 1, (b["id"], path, new.count(a), a)
                new = new.replace(a, c)
            base = "/tmp/mkbug"
            shutil.rmtree(base, ignore_errors=True)
            for side, t in (("a", old), ("b", new)):
                p = f"{base}/{side}/{path}"
                os.makedirs(os.path.dirname(p))
                open(p, "w").write(t)
            r = subprocess.run(["diff", "-u", f"a/{path}", f"b/{path}"],
                               cwd=base, capture_output=True, text=True)
            lines = r.stdout.split("\n")
            lines[0] = f"--- a/{path}"
            lines[1] = f"+++ b/{path}"
            diff += f"diff --git a/{path} b/{path}\n" + "\n".join(lines)
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        if "demo" in b:
            open(f"{d}/demo.cc", "w").write(b["demo"])
            open(f"{d}/demo.sh", "w").write(SH % ("py" if b.get("py") else ""))
            shutil.copy(f"{VERIF}/tools/demo/build_demo.sh", d)
            if b.get("py"):
                shutil.copytree(f"{VERIF}/stub", f"{d}/stub",
                                dirs_exist_ok=True)
                shutil.copy(f"{VERIF}/tools/demo/params.h", d)
        else:
            open(f"{d}/demo.sh", "w").write(b["sh"])
        os.chmod(f"{d}/demo.sh", 0o755)
        print(b["id"])


main(sys.argv[1:])
