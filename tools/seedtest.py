"""seedtest.py [--no-check] [ID ...]: confirms planted bugs and says which checks catch them.

Works on a scratch copy of /repo, laid over /repo in a mount namespace of its own, so that it
can run beside other work."""
import json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, timeout=900, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main(argv):
    nocheck = "--no-check" in argv
    ids = [a for a in argv if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    res = {}
    for i in ids:
        d = "%s/seeded/%s" % (ROOT, i)
        meta = json.load(open(d + "/meta.json"))
        t0 = time.time()
        say = []
        if sh("git -C /repo status --porcelain --untracked-files=no")[1].strip():
            sys.exit("/repo is not clean")
        rc, out = sh("git -C /repo apply %s/patch.diff" % d)
        if rc:
            print(i, "DOES NOT APPLY", out[:300]); continue
        try:
            tmp = tempfile.mkdtemp(prefix="seed")
            shutil.copytree(d, tmp + "/x")
            rc, out = sh("bash /opt/vp/build.sh")
            if rc:
                say.append("BUILD FAILS " + out[-600:])
            else:
                sh("bash /opt/vp/test.sh %s/t.json" % tmp)
                t = json.load(open(tmp + "/t.json"))
                miss = stable - set(t["passed"])
                if miss:
                    say.append("TESTS FAIL %s" % sorted(miss))
                rc, out = sh("bash %s/x/demo.sh" % tmp, cwd="/repo", timeout=300)
                if rc == 0:
                    say.append("DEMO PASSES WITH THE BUG")
                say.append("demo rc %d: %s" % (rc, " ".join(out.split())[-120:]))
                if not nocheck and not any(s.isupper() for s in say[:1]):
                    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
                    rc, out = sh("python3 pylib/check.py %s quick" % meta["property"], cwd=ROOT, env=env)
                    hit = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s " % meta["property"])]
                    say.append("CAUGHT (%d lines)" % len(hit) if rc == 1 and hit else "*** MISSED *** rc %d %s" % (rc, out[-300:]))
        finally:
            sh("git -C /repo checkout -- .")
            sh("bash /opt/vp/build.sh")
        rc, out = sh("bash %s/x/demo.sh" % tmp, cwd="/repo", timeout=300)
        if rc:
            say.append("DEMO FAILS ON THE CLEAN TREE rc %d %s" % (rc, out[-400:]))
        shutil.rmtree(tmp, ignore_errors=True)
        print("%-28s %s %5.1fs  %s" % (i, meta["property"], time.time() - t0, "; ".join(say)), flush=True)


if os.environ.get("SEED_NS"):
    main(sys.argv[1:])
else:
    tmp = tempfile.mkdtemp(prefix="seedrepo")
    try:
        subprocess.run("cp -a /repo %s/r && git -C %s/r checkout -q -- ." % (tmp, tmp), shell=True, check=True)
        subprocess.run(["unshare", "-m", "sh", "-c", 'mount --make-rprivate / && mount --bind %s/r /repo && exec python3 "$0" "$@"' % tmp, os.path.abspath(__file__)] + sys.argv[1:],
                       env=dict(os.environ, SEED_NS="1"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
