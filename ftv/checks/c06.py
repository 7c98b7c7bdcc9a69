"""C06: approximate moves only the approximated features, to the start of the
row's bin."""
import math

import pandas as pd

import featuretools as ft
from .. import gen, ref
from ..common import frame_diff, same
from ..workload import cutoff_frame, random_window, unique_features, window_arg

CASES = {"quick": 700, "thorough": 9000}
RULE = ("random worlds; features: direct (one or two hops, several paths) of aggregations on ancestors of the target, plus "
        "unrelated features of every kind; random bin sizes (minutes to weeks, plain ints for numeric time), windows, chunk "
        "sizes; monitors: approximated values == exact meaning at the bin start, all other values == exact meaning at the "
        "cutoff, rows and times as asked, cutoffs on bin edges == exact run; non-trivial = some approximated value differs "
        "between bin start and cutoff; distinct = (features, rows, bin)")
NEED = {"approximated_cells": 600, "exact_cells": 600, "moved_cells": 60, "edge_requests": 60, "numeric_bins": 20,
        "two_hop": 30, "windows": 40, "single_cutoffs": 20, "known_probe": 1, "multi_unit_bins": 20}


def approx_feature(rng, w, fg, target):
    """(path of fks, agg AST, chain AST)"""
    fks = list(w.tables[target].fks.items())
    if not fks:
        return None
    path = []
    cur = target
    while True:
        opts = list(w.tables[cur].fks.items())
        if not opts or (path and rng.random() < 0.5):
            break
        fk, p = rng.choice(opts)
        path.append((cur, fk, p))
        cur = p
    for _ in range(20):
        a = fg.any_feature(cur, rng.choice([1, 2, 2]), None)
        if a is not None and a.op == "agg" and a.kind not in ("index", "time", "fk", "latlong"):
            break
    else:
        return None
    f = a
    for child, fk, p in reversed(path):
        f = ref.F("direct", child, f.kind, True, bases=[f], fk=fk)
    return path, a, f


def floor_time(T, size):
    if isinstance(size, int):
        return float(T // size * size)
    ns = int(pd.Timedelta(**{{"m": "minutes", "h": "hours", "d": "days", "w": "weeks", "s": "seconds"}[size[1]]: size[0]}).value)
    if len(size) == 4:
        ns += int(pd.Timedelta(**{{"m": "minutes", "h": "hours"}[size[3]]: size[2]}).value)
    return pd.Timestamp(T.value - T.value % ns)


def case(rng, rec, tier):
    w = gen.gen_world(rng, n_tables=rng.choice([2, 3, 3, 4]), nulls=rng.choice([0.0, 0.15]),
                      kinds=("num", "num", "int", "bool", "cat", "dt"), time_span=rng.choice([20, 60, 120]))
    if rng.random() < 0.4:
        w.idkind
    lti_on = rng.random() < 0.5
    es = gen.build_es(w, lti=lti_on, rng=rng, shuffle=True)
    lti = ref.last_times(w) if lti_on else None
    targets = [n for n, t in w.tables.items() if t.fks]
    if not targets:
        return
    target = rng.choice(targets)
    fg = ref.FeatureGen(rng, w, max_depth=3)
    apx = [a for a in (approx_feature(rng, w, fg, target) for _ in range(rng.randint(1, 4))) if a]
    if not apx:
        return
    build = ref.Builder(es, w)
    taken = {a[1].text() for a in apx}
    others = []
    for _ in range(rng.randint(1, 4)):
        f = fg.top(target)
        if not any(x.text() in taken for x in f.walk()) and not (f.op == "direct" and chain_end(f).op == "agg"):
            others.append(f)
    # guarantee an aggregation which is not approximated (see known finding)
    guard = None
    p = [x for x in apx[0][0]][-1][2]
    for f in others:
        if any(x.op == "agg" for x in f.walk()):
            guard = f
    if guard is None:
        kids = [(pp, c, col) for pp, c, col in w.rels if pp == p]
        r = rng.choice(kids)
        idx = [f for f in fg.identities(r[1]) if f.kind == "index"][0]
        c = ref.F("agg", p, ref.NUM, False, bases=[idx], prim="count", path=[r], where=None, use_previous=None)
        if c.text() in taken:
            c = ref.F("agg", p, ref.NUM, True, bases=[idx], prim="num_unique", path=[r], where=None, use_previous=None)
            cols = [f for f in fg.identities(r[1]) if f.kind == ref.NUM]
            if not cols:
                return
            c = ref.F("agg", p, ref.NUM, True, bases=[cols[0]], prim="skew", path=[r], where=None, use_previous=None)
            if c.text() in taken:
                return
        f = c
        for child, fk, pp in reversed(apx[0][0]):
            f = ref.F("direct", child, f.kind, True, bases=[f], fk=fk)
        guard = ref.F("row", target, ref.BOOL, False, bases=[f], prim="is_null", param=None)
        others.append(guard)
    both = unique_features([a[2] for a in apx] + others, build)
    apx = [a for a in apx if any(b[0] is a[2] for b in both)]
    others = [f for f in others if any(b[0] is f for b in both)]
    if not others or not any(x.op == "agg" for f in others for x in f.walk()):
        return
    rng.shuffle(both)
    objs = [b[1] for b in both]
    size = rng.choice([(rng.randint(1, 90), "m"), (rng.randint(1, 30), "h"), (rng.randint(1, 3), "d"), (1, "w")]) \
        if w.time_kind == "datetime" else rng.randint(1, 30)
    if w.time_kind == "numeric":
        arg = size
        rec.event("numeric_bins")
    else:
        long = {"m": "minutes", "h": "hours", "d": "days", "w": "weeks"}[size[1]]
        if rng.random() < 0.15:
            size = (rng.randint(1, 2), "d", rng.randint(1, 20), "h")
            rec.event("multi_unit_bins")
        arg = rng.choice([ft.Timedelta({"d": size[0], "h": size[2]}), pd.DateOffset(days=size[0], hours=size[2]),
                          pd.Timedelta(days=size[0], hours=size[2])]) if len(size) == 4 else rng.choice([ft.Timedelta(size[0], size[1]), "%d %s" % (size[0], long), "%d%s" % size])
    include = rng.random() < 0.6
    window = random_window(rng, months=False) if w.time_kind == "datetime" and rng.random() < 0.25 else None
    if window:
        rec.event("windows")
    if any(len(a[0]) > 1 for a in apx):
        rec.event("two_hop")
    kw = dict(include_cutoff_time=include, training_window=window_arg(rng, window), cutoff_time_in_index=True,
              chunk_size=rng.choice([None, None, 1, 3]))
    single = rng.random() < 0.15
    pairs, df = cutoff_frame(rng, w, target, rng.randint(1, 9), n_times=rng.randint(1, 4))
    if not pairs:
        return
    edge = not single and rng.random() < 0.25
    if single:
        T = pairs[0][1]
        ids = list(dict.fromkeys(p[0] for p in pairs))
        pairs = [(i, T) for i in ids]
        rec.event("single_cutoffs")
        fm = ft.calculate_feature_matrix(objs, es, cutoff_time=T, instance_ids=ids, approximate=arg, **kw)
    else:
        if edge:
            rec.event("edge_requests")
            df["time"] = [floor_time(t, size) for t in df["time"]]
            df = df.drop_duplicates().reset_index(drop=True)
            pairs = list(zip(df["instance_id"].tolist(), df["time"].tolist()))
        fm = ft.calculate_feature_matrix(objs, es, cutoff_time=df.copy(), approximate=arg, **kw)
    got = [tuple(x) for x in fm.index]
    if not rec.check(got == pairs, "rows", lambda: "rows %s, asked for %s" % (got, pairs)):
        return
    if edge:
        exact = ft.calculate_feature_matrix(objs, es, cutoff_time=df.copy(), **kw)
        d = frame_diff(fm, exact)
        rec.check(d is None, "edge", lambda: "cutoffs on bin edges %r: approximate and exact differ: %s" % (size, d))
    memo = {}

    def oracle(T):
        if T not in memo:
            memo[T] = ref.Oracle(w, T, include, window, lti)
        return memo[T]

    def info(f, iid, T):
        return "instance %r cutoff %s approximate=%r include=%s window=%s lti=%s target=%s; features=%s world=%s" % (
            iid, T, size, include, window, lti_on, target, [x.text() for x, _ in both], w.describe())
    moved = 0
    for ri, (iid, T) in enumerate(pairs):
        o, b = oracle(T), oracle(floor_time(T, size))
        for path, a, f in apx:
            if o.infinite(f) or b.infinite(a):
                continue
            want = chain_value(o, b, path, a, f, iid)
            gotv = fm[build(f).get_name()].iloc[ri]
            rec.event("approximated_cells")
            if not same(want, o.value(f, iid)):
                moved += 1
            if not same(gotv, want, 1e-6, 1e-7):
                rec.violation("approx-value:%s" % a.prim, "approximated %s: got %r, at the bin start %s it is %r (exact: %r); %s" % (
                    f.text(), gotv, b.T, want, o.value(f, iid), info(f, iid, T)))
        for f in others:
            if o.infinite(f):
                continue
            want = o.value(f, iid)
            gotv = fm[build(f).get_name()].iloc[ri]
            rec.event("exact_cells")
            if not same(gotv, want, 1e-6, 1e-7):
                rec.violation("exact-value:%s:%s" % (f.op, getattr(f, "prim", "")),
                              "%s is not approximated but is %r, meaning at the cutoff is %r; %s" % (f.text(), gotv, want, info(f, iid, T)))
    rec.event("moved_cells", moved)
    if moved:
        rec.nontrivial((tuple(o.get_name() for o in objs), tuple(map(str, pairs)), str(size)))
    rec.sample({"approximated": [a[2].text() for a in apx], "others": [f.text() for f in others][:3], "bin": str(size),
                "rows": len(pairs), "moved": moved})


def chain_end(f):
    while f.op == "direct":
        f = f.bases[0]
    return f


def chain_value(o, b, path, a, f, iid):
    """Follow the foreign keys as visible at the cutoff; the aggregation at the
    end is the one of the bin start."""
    cur = iid
    for child, fk, parent in path:
        t = o.w.tables[child]
        row = [r for r in o.rows(child) if r[t.index] == cur]
        if not row:
            return a.default
        cur = row[0][fk]
        if ref.isnull(cur):
            return a.default
    last = path[-1][2]
    t = o.w.tables[last]
    v = b.value(a, cur) if any(r[t.index] == cur for r in o.rows(last)) else a.default
    return a.default if ref.isnull(v) else v


def finish(rec, tier, seed):
    """Known finding: with nothing but approximated aggregations, the other
    features are computed at the current time."""
    es = ft.EntitySet("known")
    T = pd.Timestamp("2020-01-01 10:30")
    es.entity_from_dataframe("p", pd.DataFrame({"id": [1]}), index="id")
    es.entity_from_dataframe("c", pd.DataFrame({"id": [1, 2], "p_id": [1, 1], "v": [5.0, 7.0],
                                                "t": [T, T + pd.Timedelta("1d")]}), index="id", time_index="t")
    es.add_relationship(ft.Relationship(es["p"]["id"], es["c"]["p_id"]))
    approx = ft.Feature(ft.Feature(es["c"]["v"], parent_entity=es["p"], primitive=ft.primitives.Sum), entity=es["c"])
    cs = ft.Feature(es["c"]["v"], primitive=ft.primitives.Percentile)
    cut = pd.DataFrame({"instance_id": [1], "time": [T]})
    fm = ft.calculate_feature_matrix([approx, cs], es, cutoff_time=cut, approximate="1 hour")
    rec.event("known_probe")
    if fm[cs.get_name()].iloc[0] != 1.0:
        rec.violation("approx-now", "PERCENTILE(v) of the only row known at the cutoff is %r instead of 1.0: with only "
                      "approximated aggregations in the request the other features are computed at the current time"
                      % fm[cs.get_name()].iloc[0])
