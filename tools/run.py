#!/usr/bin/env python3
"""Run one registered check: build its harness from /repo, explore, report.

usage: check <property id> [quick|thorough]
exit 0: held on everything explored; 1: VIOLATION; other: the check failed.
"""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
import props as P  # noqa: E402

VERIF = B.VERIF


def known_findings(pid):
    out = {}
    path = f"{VERIF}/known-findings.txt"
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                pre = f"finding: property={pid} key="
                if line.startswith(pre):
                    key, _, what = line[len(pre):].partition(" | ")
                    out[key.strip()] = what.strip()
    return out


def tail(path, n=1500):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def run_shard(exe, tier, i, n, tmp, attempt, spec):
    out = f"{tmp}/out-{i}-{attempt}.jsonl"
    cur = f"{tmp}/cur-{i}-{attempt}"
    scratch = f"{tmp}/scratch-{i}-{attempt}"
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:"
               "allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1",
               VERIF_DIR=VERIF, VERIF_REPO=B.REPO)
    cmd = [exe, "--tier", tier, "--shard", f"{i}/{n}", "--out", out,
           "--cur", cur, "--scratch", scratch]
    err = open(f"{tmp}/err-{i}-{attempt}", "w")
    p = subprocess.Popen(cmd, stdout=err, stderr=err, cwd=scratch, env=env,
                         start_new_session=True)
    return p, out, cur, err.name


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read_results(path):
    res = []
    try:
        with open(path) as f:
            for line in f:
                try:
                    res.append(json.loads(line))
                except ValueError:
                    pass
    except OSError:
        pass
    return res


def read_cur(path):
    try:
        with open(path, "rb") as f:
            return f.read().split(b"\0")[0].decode("utf-8", "replace")
    except OSError:
        return ""


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    spec = P.CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        exe = B.build(f"{VERIF}/harness/{spec['harness']}.cc",
                      variant=spec.get("variant", "rel"),
                      pythia=spec.get("pythia", False),
                      extra_link=spec.get("link", ()),
                      extra_src=[f"{VERIF}/harness/{s}"
                                 for s in spec.get("extra", ())],
                      with_main=spec.get("with_main", False),
                      closure=P.closure(spec["harness"]))
    except B.BuildError as e:
        print(f"check {pid}: the harness does not build:\n{e}")
        return 3
    t_build = time.time() - t0
    n = spec.get("shards", 8)
    limit = spec.get("limit", 420) if tier == "quick" else \
        spec.get("limit_thorough", 3000)
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.chmod(tmp, 0o755)
    results, crashes, notes = [], [], []
    try:
        procs = [(i,) + run_shard(exe, tier, i, n, tmp, 0, spec)
                 for i in range(n)]
        deadline = time.time() + limit
        bad = []
        for i, p, out, cur, err in procs:
            try:
                rc = p.wait(max(0.1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                kill(p)
                rc = "timeout"
            if rc == 0:
                results += read_results(out)
            else:
                bad.append((i, rc, read_cur(cur), err))
        for i, rc, case, err in bad:
            # replay before report: a hang gets the machine for itself
            p, out, cur, err = run_shard(exe, tier, i, n, tmp, 1, spec)
            try:
                rc2 = p.wait(limit + 120)
            except subprocess.TimeoutExpired:
                kill(p)
                rc2 = "timeout"
            case2 = read_cur(cur)
            if rc2 == 0:
                results += read_results(out)
                notes.append(f"shard {i}: first attempt ended with {rc}, "
                             "the replay completed")
                continue
            results += read_results(out)
            crashes.append((rc2, case2, tail(err)))
            if len(crashes) >= 2 and any(c[0] == "timeout" for c in crashes):
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    tot = {k: sum(r[k] for r in results)
           for k in ("states", "transitions", "traces", "evaluations")}
    capped = any(r["capped"] for r in results)
    extra, samples, viol = {}, [], {}
    for r in results:
        for k, v in r["extra"].items():
            if k.startswith("max_"):
                extra[k] = max(extra.get(k, 0), v)
            else:
                extra[k] = extra.get(k, 0) + v
        samples += r["samples"]
        notes += r["notes"]
        for v in r["violations"]:
            viol.setdefault(v["key"], [v["msg"], 0])[1] += v["n"]
    for rc, case, err in crashes:
        what = "did not finish" if rc == "timeout" else f"died ({rc})"
        viol.setdefault(f"crash:{case[:200]}",
                        [f"the process {what} while executing: {case}\n{err}",
                         1])
    known = known_findings(pid)
    new = {k: v for k, v in viol.items() if k not in known}
    for k in sorted(viol):
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k]} [{k}]")
    samples = samples[:8]
    level = spec.get("level", "model_checking")
    cov = {"samples": samples or ["(no sample recorded)"],
           "exhaustive": not capped and not crashes,
           "bounds": spec["bounds_thorough" if tier == "thorough" and
                          "bounds_thorough" in spec else "bounds"]}
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"],
                   traces_validated_against_impl=tot["traces"])
        if tot["evaluations"]:
            cov["evaluations"] = tot["evaluations"]
    else:
        cov.update(evaluations=tot["evaluations"],
                   distinct_nontrivial=tot["states"], rule=spec["rule"])
    cov.update(extra)
    if notes:
        cov["notes"] = sorted(set(notes))[:20]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level,
          "coverage": cov,
          "assumptions": spec.get("assumptions", []) + P.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(f"check {pid} [{tier}]: {tot} extra={extra} build={t_build:.1f}s "
          f"total={time.time() - t0:.1f}s")
    if new:
        d = f"{VERIF}/replays/{pid}"
        os.makedirs(d, exist_ok=True)
        for k in sorted(new)[:20]:
            name = hashlib.sha256(k.encode()).hexdigest()[:12]
            path = f"{d}/{name}.txt"
            with open(path, "w") as f:
                f.write(f"property: {pid}\ncase: {k}\noccurrences: "
                        f"{new[k][1]}\nreplay: cd {VERIF} && ./check {pid} "
                        f"{tier}\n\n{new[k][0]}\n")
            print(f"VIOLATION property={pid} replay={path}")
            print("    " + new[k][0].replace("\n", "\n    ")[:700])
        return 1
    if not results:
        print(f"check {pid}: no result was produced")
        return 4
    if tot["states"] + tot["evaluations"] == 0 or tot["transitions"] + \
            tot["evaluations"] == 0:
        print(f"check {pid}: nothing was explored")
        return 5
    return 0


if __name__ == "__main__":
    sys.exit(main())
