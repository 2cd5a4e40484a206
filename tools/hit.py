"""hit.py ID...: does the quick check catch the planted bug?  On scratch copies of /repo and /verif,
so that it can run beside other work.  (seedtest.py confirms the bug itself.)"""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tmp = tempfile.mkdtemp(prefix="hit")
subprocess.run("mkdir %s/verif; cd %s; cp -a pylib spec harness properties.jsonl known_findings.txt MANIFEST.json %s/verif/; mkdir %s/repo; cd /repo; git archive HEAD | tar x -C %s/repo" % (tmp, ROOT, tmp, tmp, tmp), shell=True, check=True)
try:
    for i in sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded")):
        d = ROOT + "/seeded/" + i
        prop = json.load(open(d + "/meta.json"))["property"]
        t = time.time()
        subprocess.run("cd %s/repo && git apply --unsafe-paths %s/patch.diff" % (tmp, d), shell=True, check=True)
        env = dict(os.environ, PSDD_REPO=tmp + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        p = subprocess.run(["python3", "pylib/check.py", prop, "quick"], cwd=tmp + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode()
        ok = p.returncode == 1 and "VIOLATION property=%s " % prop in out
        print("%-26s %s %s %.0fs %s" % (i, prop, "CAUGHT" if ok else "*** MISSED *** rc %d" % p.returncode, time.time() - t,
              " / ".join(l for l in out.splitlines() if l.startswith("case"))[:160] if ok else out[-400:]), flush=True)
        subprocess.run("cd %s/repo && git apply --unsafe-paths -R %s/patch.diff" % (tmp, d), shell=True, check=True)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
