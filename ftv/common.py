"""Shared harness: case runner, verdicts, evidence, comparison helpers.

Every check is a function `case(rng, rec, tier)` which drives the real
featuretools code on one generated workload and reports what its monitors
observed through a Recorder.  The runner executes many cases in parallel,
aggregates observations into evidence/<id>.json and decides the verdict:
  exit 0  held on everything observed
  exit 1  a monitor saw a violation (VIOLATION line + replay file)
  exit 2  inconclusive: harness error, or the deciding monitors saw too little
"""
import collections
import hashlib
import json
import math
import multiprocessing
import os
import random
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FTV_REPO", "/repo")


def setup_process():
    warnings.simplefilter("ignore")
    import logging
    logging.getLogger("featuretools").setLevel(logging.CRITICAL)
    for n in ("distributed", "tornado", "asyncio"):
        logging.getLogger(n).setLevel(logging.CRITICAL)


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__("%s: %s" % (key, msg))
        self.key = key
        self.msg = msg


class Recorder:
    """What the monitors of one case saw."""

    def __init__(self):
        self.events = collections.Counter()
        self.keys = set()
        self.violations = []   # (key, message)
        self.samples = []
        self.notes = []

    def event(self, name, n=1):
        self.events[name] += n

    def nontrivial(self, obj):
        self.keys.add(hashlib.sha1(repr(obj).encode()).hexdigest()[:16])

    def violation(self, key, msg):
        self.violations.append((key, str(msg)[:3000]))

    def check(self, cond, key, msg):
        self.events["oracle_checks"] += 1
        if not cond:
            self.violation(key, msg() if callable(msg) else msg)
        return bool(cond)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)


def in_repo_traceback(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(os.path.realpath(REPO) + "/"):
            return True
    return False


def exc_key(e):
    """Mechanism key for an exception escaping featuretools: type and the
    innermost featuretools function (no line numbers, no values)."""
    where = "?"
    for fr in traceback.extract_tb(e.__traceback__):
        if os.path.realpath(fr.filename).startswith(os.path.realpath(REPO) + "/"):
            where = "%s:%s" % (os.path.basename(fr.filename), fr.name)
    return "raised:%s@%s" % (type(e).__name__, where)


def case_rng(pid, seed, i):
    return random.Random("%s/%s/%s" % (pid, seed, i))


def run_one(args):
    mod, pid, seed, i, tier = args
    setup_process()
    import importlib
    m = importlib.import_module(mod)
    rec = Recorder()
    rng = case_rng(pid, seed, i)
    import numpy as np
    np.random.seed(rng.randrange(2 ** 31))
    t0 = time.time()
    err = None
    try:
        m.case(rng, rec, tier)
    except Violation as v:
        rec.violation(v.key, v.msg)
    except Exception as e:  # noqa
        tb = traceback.format_exc()
        if in_repo_traceback(e.__traceback__):
            rec.violation(exc_key(e), "unexpected exception from featuretools on a legitimate input:\n" + tb[-2500:])
        elif isinstance(e, (MemoryError, OSError, ImportError)):
            err = tb
        else:
            # on the reference tree every oracle runs through; one that cannot even
            # read featuretools' answer has seen an answer of the wrong shape
            rec.violation("unreadable-answer:%s" % type(e).__name__,
                          "the oracle could not interpret what featuretools returned:\n" + tb[-2500:])
    return {"i": i, "events": rec.events, "keys": rec.keys, "viol": rec.violations,
            "samples": rec.samples, "err": err, "t": time.time() - t0}


def load_known():
    """known_findings.txt: lines `known: property=<id> key=<key> <text>` and
    `fixed: property=<id> <commit> <text>` (fixed lines suppress nothing)."""
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                parts = line.split(None, 3)
                pid = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                known.setdefault(pid, {})[key] = parts[3] if len(parts) > 3 else ""
    return known


def run_check(pid, mod, tier, seed, only_case=None, procs=None, verbose=False):
    import importlib
    setup_process()
    t0 = time.time()
    m = importlib.import_module(mod)
    n = m.CASES[tier]
    budget = getattr(m, "BUDGET", {"quick": 300, "thorough": 780})[tier]
    procs = procs or getattr(m, "PROCS", 8)
    ids = [only_case] if only_case is not None else list(range(n))
    work = [(mod, pid, seed, i, tier) for i in ids]
    events = collections.Counter()
    keys = set()
    samples, errs = [], []
    viols = collections.OrderedDict()
    done = 0
    stopped = False

    def absorb(r):
        nonlocal done
        done += 1
        events.update(r["events"])
        keys.update(r["keys"])
        if len(samples) < 5:
            for s in r["samples"]:
                samples.append("case %d: %s" % (r["i"], str(s)[:700]))
        if r["err"]:
            errs.append((r["i"], r["err"]))
        for k, msg in r["viol"]:
            viols.setdefault(k, []).append((r["i"], msg))
        if verbose:
            print("case", r["i"], "%.2fs" % r["t"], len(r["viol"]), "violations", flush=True)

    ctx_start = m.start(tier) if hasattr(m, "start") else None

    if len(work) == 1 or procs == 1:
        for w in work:
            absorb(run_one(w))
            if time.time() - t0 > budget:
                stopped = True
                break
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(procs, maxtasksperchild=getattr(m, "TASKS_PER_CHILD", 60)) as pool:
            it = pool.imap_unordered(run_one, work)
            while True:
                try:
                    left = budget - (time.time() - t0)
                    absorb(it.next(timeout=max(left, 0.01)))
                except StopIteration:
                    break
                except multiprocessing.TimeoutError:
                    stopped = True
                    pool.terminate()
                    break
                if len(errs) > 20:
                    pool.terminate()
                    break

    if hasattr(m, "finish") and only_case is None:
        rec = Recorder()
        try:
            m.finish(rec, tier, seed)
        except Violation as v:
            rec.violation(v.key, v.msg)
        except Exception as e:  # noqa
            if in_repo_traceback(e.__traceback__):
                rec.violation(exc_key(e), traceback.format_exc()[-2500:])
            else:
                errs.append((-1, traceback.format_exc()))
        absorb({"i": -1, "events": rec.events, "keys": rec.keys, "viol": rec.violations,
                "samples": rec.samples, "err": None, "t": 0})

    if ctx_start is not None:
        m.stop(ctx_start)
    known = load_known().get(pid, {})
    new = {k: v for k, v in viols.items() if k not in known}
    rc = 0
    replay_dir = os.path.join(VERIF, "evidence", "replays")
    nviol = 0
    for k, occ in list(new.items())[:20]:
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, "%s-%s.json" % (pid, hashlib.sha1(k.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": pid, "key": k, "seed": seed, "tier": tier,
                       "cases": [o[0] for o in occ][:50], "message": occ[0][1],
                       "replay": "cd /verif && ./run.sh %s --tier %s --seed %s --case %s" % (pid, tier, seed, occ[0][0])},
                      f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  key=%s cases=%d first=case %d\n  %s" % (k, len(occ), occ[0][0],
              (occ[0][1][-1200:] if k.startswith("raised:") else occ[0][1][:1500]).replace("\n", "\n  ")))
        nviol += len(occ)
        rc = 1
    for k in known:
        if k in viols:
            print("KNOWN-FINDING: property=%s %s (key=%s, seen in %d cases)" % (pid, known[k], k, len(viols[k])))
        else:
            print("note: listed finding %s not reproduced by this run" % k)
    need = getattr(m, "NEED", {})
    if isinstance(need, dict) and tier in need and isinstance(need[tier], dict):
        need = need[tier]
    missing = [(k, v, events.get(k, 0)) for k, v in need.items() if events.get(k, 0) < v]
    if only_case is None:
        ev = {"property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
              "coverage": {"evaluations": int(done),
                           "distinct_nontrivial": len(keys),
                           "rule": m.RULE,
                           "samples": samples or ["(none)"],
                           "monitor_events": {k: int(v) for k, v in sorted(events.items())},
                           "cases_planned": n, "stopped_by_budget": stopped},
              "assumptions": getattr(m, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - t0, 2), "violations": nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    print("%s tier=%s seed=%s cases=%d/%d distinct=%d wall=%.1fs violations=%d events=%s" % (
        pid, tier, seed, done, len(work), len(keys), time.time() - t0, nviol,
        dict(sorted(events.items()))))
    if rc == 0 and errs:
        print("INCONCLUSIVE: %d harness errors; first (case %s):\n%s" % (len(errs), errs[0][0], errs[0][1]))
        rc = 2
    elif errs:
        print("note: also %d harness errors; first (case %s):\n%s" % (len(errs), errs[0][0], errs[0][1]))
    if rc == 0 and only_case is None and missing:
        print("INCONCLUSIVE: monitors saw too little: %s" % missing)
        rc = 2
    return rc


# ---------------------------------------------------------------- comparison

NULL = None


def norm(v):
    """Canonical scalar: None for any missing value, float for numbers and
    booleans, ('ts', ns) for datetimes, str for strings."""
    import numpy as np
    import pandas as pd
    if v is None or v is pd.NaT or v is getattr(pd, "NA", None):
        return None
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, (int, np.integer)):
        return float(v)
    if isinstance(v, (float, np.floating)):
        return None if math.isnan(v) else float(v)
    if isinstance(v, (pd.Timestamp, np.datetime64)) or hasattr(v, "strftime"):
        t = pd.Timestamp(v)
        return None if t is pd.NaT else ("ts", t.value)
    if isinstance(v, (pd.Timedelta, np.timedelta64)):
        t = pd.Timedelta(v)
        return None if t is pd.NaT else ("td", t.value)
    if isinstance(v, (tuple, list)):
        return tuple(norm(x) for x in v)
    return str(v)


def same(a, b, rtol=1e-7, atol=1e-9):
    a, b = norm(a), norm(b)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, float) and isinstance(b, float):
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y, rtol, atol) if not isinstance(x, int) else x == y for x, y in zip(a, b))
    return a == b


def frame_diff(a, b, rtol=1e-9, atol=1e-12, check_order=True):
    """None if feature matrices agree (index, columns, values), else text."""
    if list(a.columns) != list(b.columns):
        return "columns differ: %s vs %s" % (list(a.columns), list(b.columns))
    ia = [norm(x) for x in a.index]
    ib = [norm(x) for x in b.index]
    if ia != ib:
        if check_order or sorted(map(repr, ia)) != sorted(map(repr, ib)):
            return "index differs: %s vs %s" % (ia[:30], ib[:30])
    for ci, c in enumerate(a.columns):
        ca, cb = a.iloc[:, ci].tolist(), b.iloc[:, ci].tolist()
        for i, (x, y) in enumerate(zip(ca, cb)):
            if not same(x, y, rtol, atol):
                return "column %r row %s: %r vs %r" % (c, ia[i], x, y)
    return None


def freeze_frame(df):
    """Exact snapshot of a dataframe: column order, dtypes, index, cells."""
    return (list(df.columns), [str(t) for t in df.dtypes], [norm(x) for x in df.index],
            str(df.index.dtype), df.index.name,
            [[(type(x).__name__, norm(x)) for x in df.iloc[:, i].tolist()] for i in range(df.shape[1])])
