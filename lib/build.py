"""Builds the C++ side of aihwkit from /repo's current working tree, outside /repo.

Objects are cached by content (source + every project header it included + flags), so that an
unchanged tree costs a few hundred ms and a changed .cpp costs one compile and one link.
The code that is compiled is exactly /repo's; the only difference with the shipped build is where
the product lands and that LTO is off.  Random draws are owned at link level by an LD_PRELOADed
shim (shim/mcrand.cpp), not by any change of the sources.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import subprocess
import sys
import sysconfig
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
OUT = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))
VENV = "/opt/venv"
SITE = VENV + "/lib/python3.12/site-packages"
PYINC = "/usr/include/python3.12"

COMMON = ["-fopenmp", "-w", "-Wno-narrowing", "-O2", "-ftree-vectorize", "-DNDEBUG",
          "-std=gnu++17", "-fPIC", "-DRPU_USE_OPENBLAS", "-DRPU_USE_WITH_TORCH",
          "-D_GLIBCXX_USE_CXX11_ABI=1"]
INC = ["-I" + VENV + "/include", "-I" + PYINC, "-I" + SITE + "/pybind11/include",
       "-I" + SITE + "/torch/include", "-I" + SITE + "/torch/include/torch/csrc/api/include",
       "-isystem", REPO + "/src/rpucuda"]
TORCHLIB = SITE + "/torch/lib"
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def read(path):
    with open(path, "rb") as f:
        return f.read()


def sources():
    core, base, ext = [], [], []
    d = REPO + "/src/rpucuda"
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp") and not f.endswith("_test.cpp"):
            core.append(os.path.join(d, f))
    d = REPO + "/src/aihwkit/simulator/rpu_base_src"
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp"):
            base.append(os.path.join(d, f))
    d = REPO + "/src/aihwkit/extension/extension_src"
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            if f.endswith(".cpp"):
                ext.append(os.path.join(root, f))
    return core, base, sorted(ext)


def parse_deps(path):
    txt = open(path).read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    return sorted({os.path.normpath(p) for p in deps if p.startswith(REPO + "/")})


def compile_one(src, defs):
    flags = COMMON + defs + INC
    tag = sha(src, " ".join(flags), "all headers")[:20]
    depfile = os.path.join(OUT, "dep", tag + ".txt")
    body = read(src)

    def key(deps):
        return sha(" ".join(flags), body, *[d.encode() + b"\0" + read(d) for d in deps])

    if os.path.exists(depfile):
        for line in open(depfile).read().splitlines():
            deps = line.split()
            if all(os.path.exists(d) for d in deps):
                obj = os.path.join(OUT, "obj", key(deps) + ".o")
                if os.path.exists(obj):
                    return obj, False
    tmp = os.path.join(OUT, "obj", "tmp-%d-%s" % (os.getpid(), tag))
    cmd = ["g++"] + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    for _ in range(4):  # again when a file changed under the compiler
        start = time.time()
        body = read(src)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not r.returncode and max(os.path.getmtime(d) for d in parse_deps(tmp + ".d")) < start:
            break
    if r.returncode:
        raise RuntimeError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
    deps = [d for d in parse_deps(tmp + ".d") if d != os.path.normpath(src)]
    obj = os.path.join(OUT, "obj", key(deps) + ".o")
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    old = open(depfile).read().splitlines() if os.path.exists(depfile) else []
    line = " ".join(deps)
    with open(depfile, "w") as f:
        f.write("\n".join([line] + [o for o in old if o != line][:7]) + "\n")
    return obj, True


def link(name, objs, extra):
    out_dir = os.path.join(OUT, "lib", sha(name, *objs, *extra)[:24])
    out = os.path.join(out_dir, name + SUFFIX)
    if not os.path.exists(out):
        os.makedirs(out_dir, exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        cmd = (["g++", "-shared", "-fopenmp", "-fPIC", "-o", tmp] + objs +
               ["-Wl,-rpath," + TORCHLIB, "-L" + TORCHLIB] + extra)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("link failed: %s\n%s" % (name, r.stdout[-4000:]))
        os.replace(tmp, out)
    return out


def build():
    """Returns (rpu_base .so, extension .so, shim .so)."""
    for d in ("obj", "dep", "lib"):
        os.makedirs(os.path.join(OUT, d), exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        core, base, ext = sources()
        jobs = [(s, ["-Drpu_base_EXPORTS", "-fvisibility=hidden"], "base") for s in base]
        jobs += [(s, ["-Daihwkit_extension_EXPORTS"], "ext") for s in ext]
        jobs += [(s, [], "core") for s in core]
        res = {"core": [], "base": [], "ext": []}
        rebuilt = 0
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            futs = [(k, pool.submit(compile_one, s, d)) for s, d, k in jobs]
            for k, f in futs:
                obj, fresh = f.result()
                rebuilt += fresh
                res[k].append(obj)
        so = link("rpu_base", res["base"] + res["core"],
                  ["-ltorch_python", "-ltorch", "-ltorch_cpu", "-lc10",
                   "/usr/lib/x86_64-linux-gnu/libopenblas.so"])
        eso = link("aihwkit_extension", res["ext"],
                   ["-ltorch_python", "-ltorch", "-ltorch_cpu", "-lc10",
                    "/usr/lib/x86_64-linux-gnu/libopenblas.so"])
        shim_src = os.path.join(VERIF, "shim", "mcrand.cpp")
        shim = os.path.join(OUT, "lib", "mcrand-" + sha(read(shim_src))[:16] + ".so")
        if not os.path.exists(shim):
            subprocess.run(["g++", "-O2", "-shared", "-fPIC", "-o", shim + ".tmp", shim_src],
                           check=True)
            os.replace(shim + ".tmp", shim)
        if rebuilt and os.environ.get("MC_VERBOSE"):
            print("built %d objects in %.1fs" % (rebuilt, time.time() - t0), file=sys.stderr)
    return so, eso, shim


if __name__ == "__main__":
    print("\n".join(build()))
