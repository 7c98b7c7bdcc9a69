"""C01: no feature value depends on data after its row's cutoff time."""
import pandas as pd

import featuretools as ft
from .. import gen, ref, perturb
from ..common import same
from ..workload import random_window, window_arg, cutoff_frame, unique_features

CASES = {"quick": 420, "thorough": 7000}
RULE = ("random worlds, random stacked features and DFS feature sets; for one cutoff T of the request the world is "
        "rewritten everywhere after T (rows deleted, altered, moved, inserted; values guarded by a secondary time) and "
        "every output row with cutoff <= T must not change; non-trivial = the rewrite changed at least one row and the "
        "same rewrite does change some value at a later cutoff or T hides a row; distinct = (features, T, include)")
NEED = {"pairs_compared": 250, "cells_compared": 4000, "world_changes": 800, "include_false": 40, "boundary_cutoffs": 30,
        "approx_pairs": 20, "window_pairs": 20, "secondary_worlds": 30}
ASSUMPTIONS = ["training windows are combined with no last_time_index here (C02/C15 cover them)",
               "approximate is exercised with at least one non-approximated aggregation (see known finding of C06)"]


def case(rng, rec, tier):
    w = gen.gen_world(rng, secondary=0.5, nulls=rng.choice([0.0, 0.2]),
                      kinds=("num", "num", "int", "bool", "cat", "ord", "dt", "text"))
    target = rng.choice(list(w.tables))
    es = gen.build_es(w, lti=False, rng=rng, shuffle=True)
    include = rng.random() < 0.6
    mode = rng.choice(["gen", "gen", "dfs"])
    approx = None
    if mode == "dfs":
        feats = ft.dfs(entityset=es, target_entity=target, features_only=True, max_depth=rng.choice([1, 2, 2, 3]),
                       agg_primitives=rng.sample(["sum", "mean", "count", "max", "last", "first", "mode", "std",
                                                  "num_unique", "percent_true", "trend", "time_since_last", "n_most_common",
                                                  "entropy", "any", "avg_time_between"], 4) if w.time_kind == "datetime" else ["sum", "last", "count", "mode"],
                       trans_primitives=rng.sample(["percentile", "cum_sum", "diff", "month", "is_null", "absolute",
                                                    "cum_count", "time_since_previous"], 3) if w.time_kind == "datetime" else ["percentile", "diff"],
                       groupby_trans_primitives=rng.choice([[], ["cum_sum"], ["cum_count"]]))
        if len(feats) > 40:
            feats = rng.sample(feats, 40)
        if w.time_kind == "datetime" and rng.random() < 0.5:
            has_agg = [f for f in feats if isinstance(f, ft.feature_base.AggregationFeature)]
            if has_agg:
                approx = rng.choice(["1 day", "6 hours", "90 minutes"])
    else:
        fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3]), custom=True)
        feats = [o for _, o in unique_features([fg.top(target) for _ in range(rng.randint(3, 8))], ref.Builder(es, w))]
    window = None
    if w.time_kind == "datetime" and rng.random() < 0.2:
        window = random_window(rng)
    pairs, df = cutoff_frame(rng, w, target, rng.randint(2, 8), n_times=rng.randint(1, 3))
    if not pairs:
        return
    T = rng.choice(pairs)[1]
    kw = dict(training_window=window_arg(rng, window), include_cutoff_time=include, cutoff_time_in_index=True,
              approximate=approx, chunk_size=rng.choice([None, 2]))
    single = rng.random() < 0.2 and approx is None
    w2, n = perturb.future(rng, w, T, include, keep_ids=[p[0] for p in pairs])
    es2 = gen.build_es(w2, lti=False, rng=rng, shuffle=True)

    def compute(e):
        if single:
            return ft.calculate_feature_matrix(feats, e, cutoff_time=T, **kw)
        return ft.calculate_feature_matrix(feats, e, cutoff_time=df.copy(), **kw)
    one = gen.HOUR if w.time_kind == "datetime" else 1.0
    tt = w.tables[target]
    if single and not ref.Oracle(w, T, include, window).rows(target):
        return   # no instance exists yet at T: nothing to ask for
    a, b = compute(es), compute(es2)
    rec.event("pairs_compared")
    rec.event("world_changes", n)
    if approx:
        rec.event("approx_pairs")
    if window:
        rec.event("window_pairs")
    if not include:
        rec.event("include_false")
    if T in gen.times_in(w):
        rec.event("boundary_cutoffs")
    if any(t.secondary for t in w.tables.values()):
        rec.event("secondary_worlds")
    ia, ib = [tuple(x) for x in a.index], [tuple(x) for x in b.index]
    if not rec.check(ia == ib if not single else sorted(map(repr, ia)) == sorted(map(repr, ib)), "rows",
                     lambda: "rows of the matrix depend on data after the cutoff: %s vs %s" % (ia, ib)):
        return
    pos = {k: i for i, k in enumerate(ib)}
    for ri, (iid, t) in enumerate(ia):
        if t > T:
            continue
        for ci, c in enumerate(a.columns):
            x, y = a.iloc[ri, ci], b.iloc[pos[(iid, t)], ci]
            rec.event("cells_compared")
            if not same(x, y, 1e-9, 1e-12):
                f = [f for f in feats if c in f.get_feature_names()][0]
                rec.violation("leak:%s" % getattr(f.primitive, "name", type(f).__name__),
                              "feature %s of %r at cutoff %s (include=%s window=%s approx=%s) was %r, but is %r after only "
                              "data after %s changed; world=%s" % (c, iid, t, include, window, approx, x, y, T, w.describe()))
    if n:
        rec.nontrivial((tuple(sorted(f.get_name() for f in feats)), str(T), include, str(window), approx))
    rec.sample({"target": target, "T": str(T), "include": include, "changes": n, "approx": approx, "window": str(window),
                "features": [f.get_name() for f in feats][:6]})
