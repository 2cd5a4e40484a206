"""Builds the replay driver and the command line tools from /repo's working tree."""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PSDD_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
TLA = "/opt/veriftools/tla"


class BuildError(Exception):
    pass


def files(d, exts):
    out = []
    for b, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(b, f))
    return out


SRC_EXT = (".h", ".hpp", ".c", ".cc", ".cpp", ".cxx", ".inl")


def sources():
    top = [os.path.join(REPO, f) for f in sorted(os.listdir(REPO)) if f.endswith(SRC_EXT)]
    return files(REPO + "/src", SRC_EXT) + files(REPO + "/include", SRC_EXT) + top


def key():
    h = hashlib.sha256()
    for f in sources() + files(ROOT + "/harness", SRC_EXT) + [os.path.abspath(__file__)]:
        h.update(f.encode())
        h.update(b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


CXX = ["g++", "-std=gnu++17", "-O1", "-g0", "-no-pie", "-fno-pie", "-w", "-fsanitize=address", "-include", "cstdint", "-include", "cmath",
       "-include", "memory", "-D_GLIBCXX_USE_CXX11_ABI=0"]
CC = ["gcc", "-std=gnu99", "-O1", "-g0", "-no-pie", "-fno-pie", "-w", "-fsanitize=address"]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def ensure():
    """returns the directory with replay, cli_inf, cli_uai and cli_bench"""
    os.makedirs(BUILD, exist_ok=True)
    k = key()
    out = os.path.join(BUILD, "bin-" + k)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out + "/ok"):
            os.utime(out + "/ok")
            return out
        # keep the directory small: at most a few builds
        old = sorted((d for d in os.listdir(BUILD) if d.startswith("bin-")),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        inc = ["-I" + ROOT + "/harness/fake", "-I" + REPO + "/include"]
        jobs = {}
        lib = []
        for f in files(REPO + "/src", (".cpp", ".cc", ".cxx", ".c")):
            if os.path.basename(f) == "psdd_inference_main.cpp":
                continue
            o = "lib_" + os.path.relpath(f, REPO + "/src").replace("/", "_") + ".o"
            lib.append(o)
            jobs[o] = (CC if f.endswith(".c") else CXX) + inc + ["-c", f, "-o", os.path.join(tmp, o)]
        for n, f in (("replay.o", ROOT + "/harness/replay.cpp"), ("env.o", ROOT + "/harness/env.cpp"),
                     ("cli_inf.o", REPO + "/psdd_inference_main.cpp"), ("cli_uai.o", REPO + "/uai_compiler.cpp"),
                     ("cli_bench.o", REPO + "/psdd_inference_benchmark.cpp")):
            jobs[n] = CXX + inc + ["-c", f, "-o", os.path.join(tmp, n)]
        msgs = []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for n, (rc, o) in zip(jobs, ex.map(run, jobs.values())):
                if rc:
                    msgs.append(n + ":\n" + o)
        if not msgs:
            objs = [os.path.join(tmp, o) for o in lib] + [os.path.join(tmp, "env.o")]
            tail = [REPO + "/lib/linux/libsdd.a", "-lgmp", "-lpthread"]
            links = [["g++", "-no-pie", "-fsanitize=address", os.path.join(tmp, m)] + objs + ["-o", os.path.join(tmp, e)] + tail
                     for m, e in (("replay.o", "replay"), ("cli_inf.o", "cli_inf"), ("cli_uai.o", "cli_uai"), ("cli_bench.o", "cli_bench"))]
            with concurrent.futures.ThreadPoolExecutor(3) as ex:
                for rc, o in ex.map(run, links):
                    if rc:
                        msgs.append(o)
        if msgs:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("\n".join(msgs))
        for f in os.listdir(tmp):
            if f.endswith(".o"):
                os.unlink(os.path.join(tmp, f))
        open(tmp + "/ok", "w").close()
        os.rename(tmp, out)
    return out


def java_classes():
    """compiles the operator overrides if needed"""
    d = ROOT + "/build/java"
    src = ROOT + "/spec/numlog/Num.java"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "java-" + h)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock.java"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out + "/Num.class"):
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            rc, o = run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", tmp, src])
            if rc:
                raise BuildError(o)
            shutil.copy(ROOT + "/spec/numlog/Num.tla", tmp)
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
    return out


if __name__ == "__main__":
    try:
        print(java_classes())
        print(ensure())
    except BuildError as e:
        print(e)
        sys.exit(2)
