"""C05: how the work is executed (chunks, processes, progress reporting,
saving) does not change the answer."""
import os
import tempfile

import numpy as np
import pandas as pd

import featuretools as ft
from .. import cluster, gen, ref
from ..common import frame_diff, norm, same
from ..workload import cutoff_frame, nmc_feature, random_window, unique_features, window_arg

CASES = {"quick": 240, "thorough": 3000}
BUDGET = {"quick": 400, "thorough": 800}
RULE = ("random worlds and requests (frame or single cutoff, extra columns, windows, approximate); the same request executed "
        "with a random chunk size (count, fraction, oversize), on a shared dask cluster of real worker processes, with "
        "verbose, with a progress callback and with save_progress must give the same matrix; callback increments are "
        "monotone and total 100; saved files hold exactly the answered rows; non-trivial = at least 2 chunks or a parallel "
        "run; distinct = (features, rows, chunk size)")
NEED = {"chunked_runs": 200, "parallel_runs": 60, "callback_runs": 80, "callback_events": 400, "saved_runs": 60,
        "saved_rows": 200, "verbose_runs": 30, "same_schema_runs": 20, "failing_runs": 20, "njobs_runs": 1}
ASSUMPTIONS = ["dtypes of columns may differ between executions (an all-missing chunk has no integer dtype); values may not"]


def start(tier):
    return cluster.start(4)


def stop(p):
    cluster.stop(p)


def compare(rec, key, base, other, what):
    d = frame_diff(other, base)
    if d is None and list(other.index.names) != list(base.index.names):
        d = "index names %s vs %s" % (list(other.index.names), list(base.index.names))
    rec.check(d is None, key, lambda: "%s: %s" % (what() if callable(what) else what, d))


def case(rng, rec, tier):
    w = gen.gen_world(rng, kinds=("num", "num", "int", "bool", "cat", "ord", "dt", "text"), max_rows=rng.choice([14, 14, 40]))
    es = gen.build_es(w, lti=rng.random() < 0.6, rng=rng, shuffle=True)
    target = rng.choice(list(w.tables))
    t = w.tables[target]
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3]))
    fs = [fg.top(target) for _ in range(rng.randint(2, 6))]
    approx = None
    kids = [(c, col) for p, c, col in w.rels if p == target]
    if w.time_kind == "datetime" and kids and rng.random() < 0.25:
        c, col = rng.choice(kids)
        fs.append(ref.F("agg", target, ref.NUM, False, bases=[[f for f in fg.identities(c) if f.kind == "index"][0]],
                        prim="count", path=[(target, c, col)], where=None, use_previous=None))
        approx = rng.choice(["1 day", "6 hours", "2 days"])
    objs = [b[1] for b in unique_features(fs, ref.Builder(es, w))]
    m = nmc_feature(rng, w, es, target) if rng.random() < 0.3 else None
    if m is not None:
        objs.append(m)
    names = [n for f in objs for n in f.get_feature_names()]
    kw = dict(include_cutoff_time=rng.random() < 0.7, cutoff_time_in_index=rng.random() < 0.6)
    if w.time_kind == "datetime" and rng.random() < 0.2:
        kw["training_window"] = window_arg(rng, random_window(rng))
    if approx is not None:
        kw["approximate"] = approx
    single = rng.random() < 0.25 and approx is None
    if single:
        ids = [r[t.index] for r in t.rows]
        ids = rng.sample(ids, rng.randint(1, len(ids)))
        T = gen.pick_cutoffs(rng, w, 1)[0]
        n = len(ids)
        rows = [(i, T) for i in ids]
        req = lambda: dict(cutoff_time=T, instance_ids=list(ids))   # noqa
    else:
        pairs, df = cutoff_frame(rng, w, target, rng.randint(2, 16), n_times=rng.randint(1, 5))
        if not pairs:
            return
        if w.time_kind == "datetime" and rng.random() < 0.5:
            # instants which differ by little, or by exactly half a day
            base = df["time"].iloc[0]
            df["time"] = [base + rng.choice([pd.Timedelta(0), 12 * gen.HOUR, 24 * gen.HOUR, pd.Timedelta(microseconds=1),
                                             gen.HOUR]) for _ in range(len(df))]
            df = df.drop_duplicates(["instance_id", "time"]).reset_index(drop=True)
        if rng.random() < 0.4:
            df["label"] = [rng.choice([None, "x", "y"]) for _ in range(len(df))]
        n = len(df)
        rows = list(zip(df["instance_id"], df["time"]))
        req = lambda: dict(cutoff_time=df.copy())   # noqa

    def run(**opts):
        if "dask_kwargs" in opts:
            with quiet():
                return ft.calculate_feature_matrix(objs, es, **req(), **kw, **opts)
        return ft.calculate_feature_matrix(objs, es, **req(), **kw, **opts)
    base = run()

    def what(**o):
        return lambda: "the matrix differs from the plain run when executed with %s (%d rows, %s, features %s, world %s)" % (
            o, n, kw, [f.get_name() for f in objs], w.describe())
    for _ in range(2):
        cs = rng.choice([1, 2, 3, 5, n, n + 7, 0.1, 0.5, 0.99, 1.0])
        compare(rec, "chunk", base, run(chunk_size=cs), what(chunk_size=cs))
        rec.event("chunked_runs")
        rec.nontrivial((tuple(names), tuple(map(str, rows)), cs))
    # parallel
    if rng.random() < 0.45:
        cs = rng.choice([None, 1, 2, 4, 0.3])
        opt = dict(chunk_size=cs, dask_kwargs={"cluster": os.environ["FTV_CLUSTER"]}, n_jobs=rng.choice([1, 2]))
        rec.event("parallel_runs")
        calls = []
        if rng.random() < 0.5:
            # note: the callback itself stays in the client
            opt["progress_callback"] = Callback()
            calls = opt["progress_callback"].calls
        compare(rec, "parallel", base, run(**opt), what(**opt))
        if calls:
            check_calls(rec, calls, "parallel")
        if rng.random() < 0.5:
            # other data of the same shape, right after, on the same cluster
            w2 = w.clone()
            for t2 in w2.tables.values():
                for r in t2.rows:
                    for c, k in t2.kinds.items():
                        if k not in ("index", "fk", "time", "sec") and rng.random() < 0.5:
                            r[c] = gen._val(rng, k, 0.1)
            es2 = gen.build_es(w2, lti=any(e.last_time_index is not None for e in es.entities), rng=rng, shuffle=True)
            a = ft.calculate_feature_matrix(objs, es2, **req(), **kw)
            with quiet():
                b = ft.calculate_feature_matrix(objs, es2, **req(), **kw, dask_kwargs={"cluster": os.environ["FTV_CLUSTER"]})
            rec.event("same_schema_runs")
            compare(rec, "parallel-stale", a, b, "a second calculation with other data on the same cluster")
    # progress callback
    if rng.random() < 0.5:
        cb = Callback()
        cs = rng.choice([None, 1, 2, 0.5])
        verbose = rng.random() < 0.4
        if verbose:
            rec.event("verbose_runs")
            with quiet():
                fm = run(progress_callback=cb, chunk_size=cs, verbose=True)
        else:
            fm = run(progress_callback=cb, chunk_size=cs)
        rec.event("callback_runs")
        compare(rec, "callback", base, fm, what(progress_callback=True, chunk_size=cs, verbose=verbose))
        check_calls(rec, cb.calls, "chunk_size=%r" % cs)
        rec.event("callback_events", len(cb.calls))
    if not single and rng.random() < 0.5:
        saved(rng, rec, objs, es, df, kw, base, names, run, what)
    if rng.random() < 0.2:
        failing(rng, rec, w, es, target, objs, req, kw, base, run)
    rec.sample({"target": target, "rows": n, "single": single, "approx": approx, "features": names[:5]})


class Callback:
    def __init__(self):
        self.calls = []

    def __call__(self, update, percent, elapsed):
        self.calls.append((update, percent, elapsed))

    def __reduce__(self):       # shipped to workers with the task; must not be called there
        return (Callback, ())


class quiet:
    def __enter__(self):
        self.fd = [os.dup(1), os.dup(2)]
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 1)
        os.dup2(n, 2)
        os.close(n)

    def __exit__(self, *a):
        for k, fd in zip((1, 2), self.fd):
            os.dup2(fd, k)
            os.close(fd)


def check_calls(rec, calls, what):
    rec.check(len(calls) > 0, "callback-never", "the progress callback was never called (%s)" % what)
    if not calls:
        return
    rec.check(abs(sum(c[0] for c in calls) - 100) < 1e-6, "callback-total",
              lambda: "progress updates add up to %r, not 100 (%s): %s" % (sum(c[0] for c in calls), what, calls[:12]))
    rec.check(abs(calls[-1][1] - 100) < 1e-6, "callback-end", lambda: "last progress percent is %r (%s)" % (calls[-1][1], what))
    last = 0.0
    for u, p, e in calls:
        if u < -1e-9 or p < last - 1e-9 or p > 100 + 1e-6 or abs(p - last - u) > 1e-6:
            rec.violation("callback-monotone", "progress is not a running total: %s (%s)" % (calls[:12], what))
            break
        last = p


def saved(rng, rec, objs, es, df, kw, base, names, run, what):
    cs = rng.choice([None, 1, 2, 0.4])
    opt = {"chunk_size": cs}
    if rng.random() < 0.25:
        opt["dask_kwargs"] = {"cluster": os.environ["FTV_CLUSTER"]}
    with tempfile.TemporaryDirectory(prefix="ftv_save_") as d:
        fm = run(save_progress=d, **opt)
        rec.event("saved_runs")
        compare(rec, "save_progress", base, fm, what(save_progress=True, **opt))
        rec.check(not os.path.exists(os.path.join(d, "temp")), "save-temp", "the temporary folder of save_progress was left behind")
        files = sorted(f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)))
        if any(not f.get_feature_names() for f in objs):
            return
        frames = [pd.read_csv(os.path.join(d, f), index_col=0, dtype={0: str} if False else None) for f in files]
    got = sorted(str(i) for fr in frames for i in fr.index)
    want = sorted(str(i) for i in df["instance_id"])
    rec.event("saved_rows", len(got))
    rec.check(got == want, "save-rows", lambda: "save_progress kept instances %s of the requested %s (chunk_size=%r)" % (got, want, cs))
    if got == want:
        # numeric cells survive as the multiset per instance
        for c in names:
            if c in base.columns and all(c in fr.columns for fr in frames) and list(base.columns).count(c) == 1:
                a = sorted((str(i), show(v)) for i, v in zip(df["instance_id"], base[c]))
                b = sorted((str(i), show(v)) for fr in frames for i, v in zip(fr.index, fr[c]))
                if all(isinstance(norm(v), float) for v in base[c]) and all(isinstance(v, (int, float, np.number)) for fr in frames for v in fr[c]):
                    rec.check(len(a) == len(b) and all(x[0] == y[0] and close(x[1], y[1]) for x, y in zip(a, b)), "save-values",
                              lambda: "saved values of %s are %s, computed %s" % (c, b, a))


def show(v):
    v = norm(v)
    return v if isinstance(v, float) else float("-inf")


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 + 1e-9 * max(abs(a), abs(b))


class Boom(Exception):
    pass


def failing(rng, rec, w, es, target, objs, req, kw, base, run):
    """A primitive that fails part of the way: the error surfaces, and the
    next run is unaffected."""
    t = w.tables[target]
    cols = [c for c, k in t.kinds.items() if k in ("num", "int")]
    if not cols:
        return
    state = {"n": rng.randint(0, 3)}

    def f(x):
        if state["n"] <= 0:
            raise Boom("injected")
        state["n"] -= 1
        return x
    from featuretools.primitives import make_trans_primitive
    from featuretools.variable_types import Numeric
    P = make_trans_primitive(function=f, input_types=[Numeric], return_type=Numeric, name="boom")
    bad = ft.Feature(es[target][cols[0]], primitive=P)
    cb = Callback()
    rec.event("failing_runs")
    for opts in ({"chunk_size": rng.choice([None, 1])}, {"chunk_size": 1, "progress_callback": cb}):
        state["n"] = rng.randint(0, 2)
        try:
            ft.calculate_feature_matrix(objs + [bad], es, **req(), **kw, **opts)
        except Boom:
            rec.event("faults_surfaced")
    compare(rec, "after-failure", base, run(), "the plain run repeated after a failed one differs")


def finish(rec, tier, seed):
    """n_jobs=2 with featuretools' own cluster of processes."""
    import random
    for k in range(1 if tier == "quick" else 6):
        rng = random.Random("njobs/%s/%d" % (seed, k))
        w = gen.gen_world(rng, time_kind="datetime", max_rows=30)
        es = gen.build_es(w)
        target = rng.choice(list(w.tables))
        feats = ft.dfs(entityset=es, target_entity=target, features_only=True, max_depth=2)[:40]
        pairs, df = cutoff_frame(rng, w, target, 20, n_times=4)
        if len(pairs) < 3:
            pairs = [(r[w.tables[target].index], gen.T0 + 30 * gen.HOUR) for r in w.tables[target].rows]
            df = pd.DataFrame(pairs, columns=["instance_id", "time"])
        a = ft.calculate_feature_matrix(feats, es, cutoff_time=df.copy(), cutoff_time_in_index=True)
        cb = Callback()
        with tempfile.TemporaryDirectory(prefix="ftv_save_") as d, quiet():
            b = ft.calculate_feature_matrix(feats, es, cutoff_time=df.copy(), cutoff_time_in_index=True, n_jobs=2,
                                            progress_callback=cb, chunk_size=rng.choice([None, 2, 5]), save_progress=d)
            left = os.path.exists(os.path.join(d, "temp"))
        rec.event("njobs_runs")
        compare(rec, "n_jobs", a, b, "n_jobs=2")
        check_calls(rec, cb.calls, "n_jobs=2")
        rec.check(not left, "save-temp", "the temporary folder of save_progress was left behind (n_jobs=2)")
