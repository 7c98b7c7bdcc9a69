"""C02: a training window restricts the data a row may use to the window."""
import pandas as pd

import featuretools as ft
from .. import gen, ref, perturb
from ..common import same, frame_diff
from ..workload import random_window, window_arg, cutoff_frame, unique_features

CASES = {"quick": 500, "thorough": 8000}
RULE = ("random datetime worlds with and without last time indexes, random features, every request has a training window; "
        "monitors: value == meaning over the rows inside the window; rewriting rows outside the window changes nothing; a "
        "window longer than history changes nothing; rows chosen for a single cutoff are the visible ones; non-trivial = "
        "the window hides at least one otherwise visible row; distinct = (features, cutoffs, window)")
NEED = {"values_compared": 2500, "rows_hidden_by_window": 300, "lti_worlds": 80, "no_lti_worlds": 80,
        "outside_changes": 150, "edge_windows": 20, "edge_last_times": 100, "huge_windows": 50, "default_instances": 30, "lti_rescued_rows": 20}


def case(rng, rec, tier):
    w = gen.gen_world(rng, time_kind="datetime", nulls=rng.choice([0.0, 0.2]),
                      kinds=("num", "num", "int", "bool", "cat", "dt"), time_span=rng.choice([40, 60, 120]))
    lti_on = rng.random() < 0.5
    es = gen.build_es(w, lti=lti_on, rng=rng, shuffle=True)
    rec.event("lti_worlds" if lti_on else "no_lti_worlds")
    target = rng.choice(list(w.tables))
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3]), custom=True)
    both = unique_features([fg.top(target) for _ in range(rng.randint(3, 7))], ref.Builder(es, w))
    fs, objs = [b[0] for b in both], [b[1] for b in both]
    include = rng.random() < 0.5
    pairs, df = cutoff_frame(rng, w, target, rng.randint(1, 7), n_times=rng.randint(1, 2))
    if not pairs:
        return
    window = random_window(rng)
    if rng.random() < 0.5:
        # the window's edge falls exactly on an event
        T = rng.choice(pairs)[1]
        early = [t for t in gen.times_in(w) if t < T]
        if early:
            hours = int((T - rng.choice(early)) / gen.HOUR)
            if hours > 0 and (T - hours * gen.HOUR) in early:
                window = [(hours, "h")]
                rec.event("edge_windows")
    if rng.random() < 0.5:
        # somebody's last activity lies exactly on the edge
        at = []
        for n, t in w.tables.items():
            own = {r[t.index]: r.get(t.time_index) for r in t.rows}
            at += [(n, i, x) for i, x in ref.last_times(w)[n].items() if x is not None and x != own.get(i)]
        at = [a for a in at if a[0] == target] or at
        if at:
            n, i, x = rng.choice(at)
            hours = rng.randint(1, 72)
            window = [(hours, "h")]
            T = x + hours * gen.HOUR
            ids = [i] if n == target else [p[0] for p in pairs]
            pairs = [(p if rng.random() < 0.5 else rng.choice(ids), T) for p, _ in pairs]
            pairs = pairs + [(k, T) for k in ids[:1]]
            pairs = [p for k, p in enumerate(pairs) if p not in pairs[:k]]
            df = pd.DataFrame({"instance_id": gen.series([{"i": p[0]} for p in pairs], "i", "fk", w.idkind, w.time_kind), "time": [p[1] for p in pairs]})
            rec.event("edge_last_times")
    warg = window_arg(rng, window)
    kw = dict(training_window=warg, include_cutoff_time=include, cutoff_time_in_index=True)
    fm = ft.calculate_feature_matrix(objs, es, cutoff_time=df.copy(), chunk_size=rng.choice([None, 1, 2]), **kw)
    lti = ref.last_times(w) if lti_on else None
    oracles = {}
    for _, T in pairs:
        if T not in oracles:
            oracles[T] = ref.Oracle(w, T, include, window, lti)
    hid = 0
    for T, o in oracles.items():
        full = ref.Oracle(w, T, include)
        for n in w.tables:
            hid += len(full.rows(n)) - len(o.rows(n))
            if lti is not None and w.tables[n].time_index:
                rec.event("lti_rescued_rows", sum(1 for r in o.rows(n) if not o._in_window(r[w.tables[n].time_index])))
    rec.event("rows_hidden_by_window", hid)
    for ri, (iid, T) in enumerate(pairs):
        o = oracles[T]
        for f, obj in zip(fs, objs):
            want, got = o.value(f, iid), fm[obj.get_name()].iloc[ri]
            rec.event("values_compared")
            if not same(got, want, 1e-6, 1e-7) and not o.infinite(f):
                rec.violation("window-value:%s:%s" % (f.op, getattr(f, "prim", "")),
                              "%s [%s] of %r at %s, window %s include=%s lti=%s: got %r, data inside the window says %r; world=%s"
                              % (obj.get_name(), f.text(), iid, T, window, include, lti_on, got, want, w.describe()))
    if hid:
        rec.nontrivial((tuple(o.get_name() for o in objs), tuple(map(str, pairs)), str(window)))
    # rewriting data outside the window must not matter
    T = rng.choice(pairs)[1]
    o = oracles[T]
    w2, n = perturb.drop_old(rng, w, T, include, o.first_allowed, lti, o._in_window)
    rec.event("outside_changes", n)
    if n:
        es2 = gen.build_es(w2, lti=lti_on, rng=rng, shuffle=True)
        sub = df[df["time"] == T].reset_index(drop=True)
        a = ft.calculate_feature_matrix(objs, es, cutoff_time=sub.copy(), **kw)
        b = ft.calculate_feature_matrix(objs, es2, cutoff_time=sub.copy(), **kw)
        d = frame_diff(a, b)
        rec.check(d is None, "outside-window-matters",
                  lambda: "window %s include=%s lti=%s at %s: values changed after only data outside the window was "
                  "rewritten: %s; features=%s world=%s" % (window, include, lti_on, T, d, [f.text() for f in fs], w.describe()))
    # a window longer than all of history is no window
    big = ft.Timedelta(4000, "d")
    rec.event("huge_windows")
    a = ft.calculate_feature_matrix(objs, es, cutoff_time=df.copy(), training_window=big, include_cutoff_time=include,
                                    cutoff_time_in_index=True)
    b = ft.calculate_feature_matrix(objs, es, cutoff_time=df.copy(), include_cutoff_time=include, cutoff_time_in_index=True)
    d = frame_diff(a, b)
    rec.check(d is None, "huge-window", lambda: "a window covering all history changed values: %s" % d)
    # default instances of a single cutoff: exactly the rows inside the window
    if rng.random() < 0.4:
        vis = [r[w.tables[target].index] for r in o.rows(target)]
        if vis:
            rec.event("default_instances")
            c = ft.calculate_feature_matrix(objs, es, cutoff_time=T, training_window=warg, include_cutoff_time=include)
            rec.check(sorted(map(str, c.index)) == sorted(map(str, vis)), "default-rows",
                      lambda: "instances of a request without ids: %s, rows inside the window: %s" % (list(c.index), vis))
    rec.sample({"target": target, "window": str(window), "include": include, "lti": lti_on, "hidden": hid,
                "features": [o.get_name() for o in objs][:5]})
