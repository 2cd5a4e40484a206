"""Replays cases on the real code and has TLC judge the recorded histories."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

import build

ROOT = build.ROOT
SPEC = ROOT + "/spec"
TLA = build.TLA


class Broken(Exception):
    """the machinery itself failed"""


def replay(exe, cases, scratch, tag):
    script, out, sd = (os.path.join(scratch, tag + x) for x in (".script", ".ndjson", ".d"))
    os.makedirs(sd, exist_ok=True)
    with open(script, "w") as f:
        for c in cases:
            f.write(c.text())
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    for attempt in (1, 2, 3):
        p = subprocess.run([exe, script, out, sd], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
        shutil.rmtree(sd, ignore_errors=True)
        if p.returncode == 0:
            return out
    raise Broken("replay failed: %d %s" % (p.returncode, p.stderr.decode()))


def replay_all(exe, cases, scratch, n=8):
    chunks = [cases[i::n] for i in range(n)]
    outs = []
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(replay, exe, ch, scratch, "r%d" % i) for i, ch in enumerate(chunks) if ch]
        for f in fs:
            outs.append(f.result())
    lines = []
    for o in outs:
        with open(o) as f:
            lines += f.read().splitlines()
        os.unlink(o)
    return lines


FAILRE = re.compile(r'^"FAIL\|([^|]*)\|([^|]*)\|(\d+)\|([^|]*)\|(.*)"$')
STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def tlc(module, cfg, scratch, env=None, numlib=None, workers=1, extra=(), timeout=3000, heap="2g"):
    lib = build.java_classes() if numlib == "numlog" else SPEC + "/numrat"
    meta = tempfile.mkdtemp(prefix="meta", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cp = ":".join([lib, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])
    jvm = ["-XX:+UseSerialGC", "-Xmn600m", "-XX:TieredStopAtLevel=1"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java"] + jvm + ["-Xmx" + heap, "-Xms1g", "-Xss64m", "-cp", cp,
           "-DTLA-Library=" + lib + ":" + SPEC, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-workers", str(workers),
           "-metadir", meta, "-config", cfg] + list(extra) + [module]
    rc = None
    with open(meta + ".out", "w+b") as o:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=o, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            pass
        o.seek(0)
        out = o.read().decode("utf-8", "replace")
    os.unlink(meta + ".out")
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


class Judged:
    def __init__(self):
        self.fails = []      # (prop, case, l, op, msg)
        self.states = 0
        self.generated = 0
        self.errors = []     # (case id, l, text): TLC could not evaluate an event
        self.timeouts = 0    # runs that were not finished
        self.cases = 0
        self.events = 0
        self.skips = 0
        self.ops = {}


def judge_lines(lines, scratch, tag, J, deadline):
    """one TLC run; on an evaluation error the offending case is set aside"""
    while lines:
        path = os.path.join(scratch, tag + ".ndjson")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        rc, out = tlc("PsddTrace.tla", "PsddTrace.cfg", scratch, {"TRACE": path}, "numlog", 1, timeout=max(1, deadline - time.time()))
        os.unlink(path)
        fails = []
        for ln in out.splitlines():
            m = FAILRE.match(ln.strip())
            if m:
                fails.append((m.group(1), m.group(2), int(m.group(3)), m.group(4), m.group(5)))
        st = STAT.findall(out)
        want = sum(len(json.loads(x)["ev"]) + 1 for x in lines)
        if rc == 0 and st and int(st[-1][1]) == want and int(st[-1][2]) == 0:
            J.fails += fails
            J.generated += int(st[-1][0])
            J.states += int(st[-1][1])
            return
        if rc is None:
            J.fails += fails
            J.timeouts += 1
            return
        # which case?
        cs = re.findall(r"^/\\ c = (\d+)$", out, re.M)
        if not cs:
            with open(os.path.join(build.BUILD, "tlc-error.txt"), "w") as f:
                f.write(out)
            raise Broken("TLC failed without naming a case:\n" + out[-3000:])
        k = int(cs[-1]) - 1
        cid = json.loads(lines[k])["id"]
        ls = re.findall(r"^/\\ l = (\d+)$", out, re.M)
        i = out.find("Error:")
        J.errors.append((cid, int(ls[-1]) if ls else 0, out[i:i + 1500]))
        lines = lines[:k] + lines[k + 1:]


def judge(lines, scratch, n=8, timeout=3000):
    deadline = time.time() + timeout
    J = Judged()
    for x in lines:
        d = json.loads(x)
        J.cases += 1
        for e in d["ev"]:
            J.events += 1
            J.ops[e["op"]] = J.ops.get(e["op"], 0) + 1
            if e["op"] == "skip":
                J.skips += 1
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    chunks = [[lines[j] for j in order[i::n]] for i in range(n)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(judge_lines, ch, scratch, "t%d" % i, J, deadline) for i, ch in enumerate(chunks) if ch]
        for f in fs:
            f.result()
    return J


def scratch_dir():
    os.makedirs(build.BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix="run", dir=build.BUILD)
