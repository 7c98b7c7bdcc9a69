#!/usr/bin/env python3
"""Confirm planted bugs: tools/plant.py ID... [--checks C01,C02] [--no-tests]
For each seeded/ID: patch applies to /repo's HEAD, the stable tests pass with it, demo.sh exits 0 without
and nonzero with it; then the given checks (default: the bug's property) run against the patched copy.
Everything happens in a scratch copy under /tmp which is removed afterwards."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PIP_NO_INDEX="1", DASK_DATAFRAME__QUERY_PLANNING="False", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore")


def run(cmd, cwd, env=None, t=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def tests(wt):
    x = os.path.join(wt, "out.xml")
    run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
         "-o", "junit_family=xunit2", "-n", "8", "--dist", "loadfile", "--ignore=featuretools/tests/plugin_tests", "--junitxml=" + x, "featuretools"],
        wt, dict(ENV, PYTHONPATH=wt))
    out = os.path.join(wt, "res.json")
    run(["python3", "/opt/vp/results.py", out, "junit:" + x], wt)
    stable = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if "plugin_tests" not in t]
    got = set(json.load(open(out))["passed"])
    return [t for t in stable if t not in got]


def one(pid, checks, do_tests):
    d = os.path.join(V, "seeded", pid)
    meta = json.load(open(d + "/meta.json"))
    wt = tempfile.mkdtemp(prefix="plant-")
    rep = os.path.join(wt, "repo")
    try:
        shutil.copytree(os.environ.get("FTV_SRC", "/repo"), rep, symlinks=True)
        demo = os.path.join(wt, "demo")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = dict(ENV, PYTHONPATH=rep)
        rc0, o0 = run(["bash", demo + "/demo.sh"], rep, env)
        rc, o = run(["git", "apply", "--check", d + "/patch.diff"], rep)
        if rc:
            return print(pid, "DOES NOT APPLY", o)
        run(["git", "apply", d + "/patch.diff"], rep)
        rc1, o1 = run(["bash", demo + "/demo.sh"], rep, env)
        print(pid, "demo without/with patch:", rc0, rc1, "OK" if rc0 == 0 and rc1 != 0 else "BAD\n%s\n%s" % (o0[-1500:], o1[-1500:]), flush=True)
        if do_tests:
            bad = tests(rep)
            print(pid, "stable tests:", "OK" if not bad else "FAIL %s" % bad[:5], flush=True)
        for c in checks or [meta["property"]]:
            rc, o = run([V + "/run.sh", c], V, dict(ENV, FTV_REPO=rep))
            lines = [x for x in o.splitlines() if x.startswith("VIOLATION") or x.strip().startswith("key=") or x.startswith("INCON")]
            print(pid, c, "rc=%d" % rc, "CAUGHT" if rc == 1 and any(x.startswith("VIOLATION property=%s " % c) for x in lines) else "missed",
                  [x.strip()[:90] for x in lines if "key=" in x][:4], flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    checks = None
    do = "--no-tests" not in args
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    for a in [x for x in args if not x.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded"))):
        one(a, checks, do)
