"""Build the sources of the working tree in /repo together with a harness.

Every translation unit is compiled from the current contents of /repo (ccache
is used only as a content-addressed object cache: its key is the compiler, the
flags and the contents of the source and of every header it includes, so
neither timestamps nor leftovers of another tree can influence a build).
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))

# optional back ends that need libraries which are not installed, and main()
NEVER = {"hepmcinterface.cc", "hepmcoutput.cc", "rivetoutput.cc",
         "rootoutput.cc", "tsc.cc", "smash.cc"}
# sources that include Pythia8/Pythia.h (compiled against /verif/stub)
PYTHIA = {"bremsstrahlungaction.cc", "crosssections.cc", "experiment.cc",
          "scatteraction.cc", "scatteractionmulti.cc",
          "scatteractionphoton.cc", "scatteractionsfinder.cc",
          "stringprocess.cc"}

BASE = ["-std=c++17", "-fno-math-errno", "-DNDEBUG", "-DGCC_COMPILER",
        "-DLITTLE_ENDIAN_ARCHITECTURE", "-w", "-pthread"]
VARIANTS = {
    "rel": ["-O1"],
    "san": ["-O1", "-g1", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
            "-fno-omit-frame-pointer"],
}


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CCACHE_"):
            del env[k]
    env.update(CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_MAXSIZE="3G",
               CCACHE_NOHASHDIR="1", CCACHE_CONFIGPATH="/dev/null",
               LC_ALL="C.UTF-8")
    return env


_CCACHE = shutil.which("ccache")


def _run(cmd):
    p = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode and _CCACHE and cmd[0] == _CCACHE:
        # never let a broken cache decide anything
        p = subprocess.run(cmd[1:], env=_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           errors="replace")
    return p


def _write_if_changed(path, text):
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    except OSError:
        pass
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "w", encoding="utf-8") as f:
        f.write(text)
    os.replace(tmp, path)


def generate_headers(gen):
    os.makedirs(os.path.join(gen, "smash"), exist_ok=True)
    with open(f"{REPO}/src/include/smash/config.h.in") as f:
        t = f.read()
    t = re.sub(r"#cmakedefine\s+(\w+)\s.*", r'#define \1 "verif"', t)
    t = t.replace("@SMASH_VERSION@", "SMASH-verif")
    t = re.sub(r"@\w+@", "verif", t)
    _write_if_changed(f"{gen}/smash/config.h", t)
    for name in ("particles.txt", "decaymodes.txt"):
        out = ["const char data[] ="]
        with open(f"{REPO}/input/{name}", encoding="utf-8") as f:
            for line in f.read().splitlines():
                line = line.replace("\\", "\\\\").replace('"', '\\"')
                out.append(f'  "{line}\\n"')
        _write_if_changed(f"{gen}/{name}.h", "\n".join(out) + ";\n")


def sources(pythia):
    d = f"{REPO}/src"
    names = sorted(f for f in os.listdir(d)
                   if f.endswith(".cc") and f not in NEVER)
    if not pythia:
        names = [n for n in names if n not in PYTHIA]
    return [f"{d}/{n}" for n in names]


def third_party():
    t = f"{REPO}/3rdparty"
    out = [f"{t}/einhard/einhard.cpp"]
    y = f"{t}/yaml-cpp-0.8.0/src"
    out += sorted(f"{y}/{n}" for n in os.listdir(y) if n.endswith(".cpp"))
    return out


def cuba_objects():
    """(source, extra flags) of the Cuba integrators SMASH links."""
    c = f"{REPO}/3rdparty/Cuba-4.2.2"
    out = []
    for alg in ("cuhre", "suave", "divonne", "vegas"):
        src = f"{c}/src/{alg}/{alg.capitalize()}.c"
        if os.path.exists(src):
            out.append((src, [f"-I{c}/src/{alg}"]))
    com = f"{c}/src/common"
    for n in sorted(os.listdir(com)):
        if n.endswith(".c"):
            out.append((f"{com}/{n}", []))
    return c, out


def includes(gen):
    t = f"{REPO}/3rdparty"
    return [f"-I{VERIF}/stub", f"-I{REPO}/src/include", f"-I{gen}",
            "-isystem", f"{t}/Cuba-4.2.2", "-isystem", f"{t}/einhard",
            "-isystem", f"{t}/yaml-cpp-0.8.0/include",
            "-isystem", "/usr/include/eigen3",
            '-DPYTHIA_XML_DIR="none"']


def build(harness, variant="rel", pythia=False, extra_link=(), extra_src=(),
          with_main=False, defines=(), closure=None):
    """Build one harness; returns the path of the executable.

    `closure` names the sources the harness is expected to need; when the
    program does not link with them, all sources are compiled instead.
    """
    os.makedirs(CACHE, exist_ok=True)
    work = os.path.join(CACHE, f"obj-{variant}")
    gen = os.path.join(CACHE, "gen")
    os.makedirs(work, exist_ok=True)
    with open(os.path.join(CACHE, f"lock-{variant}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if closure:
            try:
                return _build(harness, variant, pythia, extra_link, extra_src,
                              with_main, defines, work, gen, set(closure))
            except BuildError:
                pass
        return _build(harness, variant, pythia, extra_link, extra_src,
                      with_main, defines, work, gen, None)


def _build(harness, variant, pythia, extra_link, extra_src, with_main,
           defines, work, gen, closure):
    generate_headers(gen)
    flags = BASE + VARIANTS[variant] + includes(gen)
    pre = [_CCACHE] if _CCACHE else []
    jobs = []

    def add(src, obj, cmd):
        jobs.append((src, obj, pre + cmd + ["-c", src, "-o", obj]))
        return obj

    hname = os.path.basename(harness).rsplit(".", 1)[0]
    hobj = f"{work}/H_{hname}.o"
    add(harness, hobj, ["g++"] + flags + [f"-I{VERIF}/harness"] +
        [f"-D{d}" for d in defines])
    objs = []
    for s in extra_src:
        objs.append(add(s, f"{work}/X_{os.path.basename(s)}.o",
                        ["g++"] + flags + [f"-I{VERIF}/harness"]))
    lib = []
    srcs = sources(pythia)
    if closure is not None:
        srcs = [s for s in srcs if os.path.basename(s) in closure]
    # longest first
    srcs.sort(key=lambda s: -os.path.getsize(s))
    if with_main:
        objs.append(add(f"{REPO}/src/smash.cc", f"{work}/smash_main.o",
                        ["g++"] + flags))
    for s in srcs:
        lib.append(add(s, f"{work}/{os.path.basename(s)}.o",
                       ["g++"] + flags))
    third = prebuilt_third_party()
    # third-party code is compiled without sanitizers or assertions
    tflags = ["-std=c++17", "-O1", "-w", "-DYAML_CPP_STATIC_DEFINE",
              f"-I{REPO}/3rdparty/yaml-cpp-0.8.0/include",
              f"-I{REPO}/3rdparty/einhard"]
    tw = os.path.join(CACHE, "obj-third")
    os.makedirs(tw, exist_ok=True)
    for s in [] if third else third_party():
        third.append(add(s, f"{tw}/{variant}_{os.path.basename(s)}.o",
                         ["g++"] + tflags))
    failed = []

    def one(job):
        src, obj, cmd = job
        p = _run(cmd)
        if p.returncode:
            failed.append((src, p.stdout))

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    if failed:
        raise BuildError("\n".join(f"{s}:\n{o[-3000:]}" for s, o in failed))
    cuba = build_cuba()
    archive = f"{work}/libsmash_{'p' if pythia else 'n'}.a"
    if os.path.exists(archive):
        os.remove(archive)
    p = _run(["ar", "rcs", archive] + lib)
    if p.returncode:
        raise BuildError(p.stdout)
    os.makedirs(f"{CACHE}/bin", exist_ok=True)
    exe = f"{CACHE}/bin/{hname}.{variant}"
    tmp = f"{exe}.tmp{os.getpid()}"
    cmd = (["g++"] + VARIANTS[variant] + ["-pthread", hobj] + objs +
           [archive] + third + cuba + ["-lgsl", "-lgslcblas", "-lm"] +
           list(extra_link) + ["-o", tmp])
    p = _run(cmd)
    if p.returncode:
        raise BuildError("link: " + p.stdout[-6000:])
    os.replace(tmp, exe)
    return exe


# sha256 over the contents of the vendored libraries as pinned
PINNED = {"yaml-cpp-0.8.0": "24927b874292aa67a5ea1415392113df1c855d9c9c697f8051a3ab88c832d21a", "einhard": "c7a564f8739a07876bd6e7505ef22dc80be992463f4fd8844439ab78af6efe6f"}


def tree_hash(d):
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(d)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".cpp", ".c")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fd:
                    h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()


def prebuilt_third_party():
    """The libraries of the baseline build, if their sources are pristine."""
    b = f"{REPO}/_build/3rdparty"
    libs = [f"{b}/yaml-cpp-0.8.0/libyaml-cpp.a", f"{b}/einhard/libeinhard.a"]
    if all(os.path.exists(p) for p in libs) and all(
            tree_hash(f"{REPO}/3rdparty/{n}") == h
            for n, h in PINNED.items()):
        return libs
    return []


def build_cuba():
    """Cuba is C with a configure step; reuse its library when it is there."""
    d = f"{REPO}/_build/3rdparty/Cuba-4.2.2/src"
    libs = []
    for alg in ("cuhre", "suave", "divonne", "vegas"):
        p = f"{d}/{alg}/lib{alg}.a"
        if os.path.exists(p):
            libs.append(p)
    if len(libs) == 4:
        return libs
    b = f"{CACHE}/cuba"
    cfg = (f"cmake -S {REPO}/3rdparty/Cuba-4.2.2 -B {b} "
           "-DCMAKE_BUILD_TYPE=Release >/dev/null 2>&1 && "
           f"cmake --build {b} -j{JOBS} >/dev/null 2>&1")
    subprocess.run(cfg, shell=True)
    for root, _, files in os.walk(b):
        for f in files:
            if f.endswith(".a"):
                libs.append(os.path.join(root, f))
    return sorted(set(libs))


if __name__ == "__main__":
    print(build(sys.argv[1], *(sys.argv[2:3] or ["rel"]),
                pythia="-p" in sys.argv))
