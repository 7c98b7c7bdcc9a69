"""C04: the matrix answers exactly the rows and columns asked for, each
independently of what else is asked for."""
import numpy as np
import pandas as pd

import featuretools as ft
from .. import gen, ref
from ..common import same, frame_diff, norm
from ..workload import random_window, window_arg, cutoff_frame, unique_features, nmc_feature

CASES = {"quick": 420, "thorough": 6000}
RULE = ("random worlds and features; cutoff frames with random row order, column order and names, foreign index, extra "
        "columns of several dtypes, unknown ids, one instance at several times; monitors: rows/columns as asked, extra "
        "columns intact per row, each row and each feature equal to asking for it alone, permuting the request permutes "
        "the matrix, unknown ids get defaults; non-trivial = at least 3 rows; distinct = (features, rows)")
NEED = {"requests": 300, "rows_alone": 300, "features_alone": 300, "permutations": 150, "passthrough_cells": 600,
        "unknown_ids": 40, "single_cutoffs": 60, "renamed_columns": 60, "repeated_instances": 100, "multi_output": 20}


def default_of(f):
    return f.default_value


def case(rng, rec, tier):
    w = gen.gen_world(rng, kinds=("num", "num", "int", "bool", "cat", "ord", "dt", "text"))
    es = gen.build_es(w, lti=False, rng=rng, shuffle=True)
    target = rng.choice(list(w.tables))
    t = w.tables[target]
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3]))
    both = unique_features([fg.top(target) for _ in range(rng.randint(2, 6))], ref.Builder(es, w))
    objs = [b[1] for b in both]
    # multi output aggregations
    m = nmc_feature(rng, w, es, target) if rng.random() < 0.5 else None
    if m is not None:
        objs.insert(rng.randint(0, len(objs)), m)
        rec.event("multi_output")
    kw = dict(include_cutoff_time=rng.random() < 0.7)
    if w.time_kind == "datetime" and rng.random() < 0.2:
        kw["training_window"] = window_arg(rng, random_window(rng))
    names = [n for f in objs for n in f.get_feature_names()]
    in_index = rng.random() < 0.5
    rec.event("requests")
    if rng.random() < 0.2:
        return single(rng, rec, w, es, target, objs, names, kw, in_index)
    pairs, df = cutoff_frame(rng, w, target, rng.randint(1, 10), n_times=rng.randint(1, 4), missing=0.25)
    if not pairs:
        return
    rng.shuffle(pairs)
    df = pd.DataFrame({"instance_id": [p[0] for p in pairs], "time": [p[1] for p in pairs]})
    if w.time_kind == "numeric":
        df["time"] = df["time"].astype(float)
    extra = {}
    for k in range(rng.randint(0, 3)):
        kind = rng.choice(["num", "str", "dt", "bool", "mixed"])
        vals = [{"num": rng.uniform(-5, 5), "str": "s%d" % rng.randint(0, 5), "dt": gen.T0 + gen.HOUR * rng.randint(0, 99),
                 "bool": rng.random() < 0.5, "mixed": rng.choice([None, 1, "x"])}[kind] for _ in pairs]
        extra["label %d %s" % (k, kind)] = vals
        df["label %d %s" % (k, kind)] = vals
    ren = {}
    if rng.random() < 0.4:
        ren["instance_id"] = t.index
    if t.time_index and rng.random() < 0.4:
        ren["time"] = t.time_index
    if ren:
        rec.event("renamed_columns")
    df = df.rename(columns=ren)
    cols = list(df.columns)
    if rng.random() < 0.5:
        rng.shuffle(cols)
        df = df[cols]
    if rng.random() < 0.5:
        df.index = rng.sample(range(100, 100 + 5 * len(df)), len(df))
    ignored = {}
    if rng.random() < 0.15:      # instance ids beside a cutoff dataframe are ignored
        some = [r[t.index] for r in t.rows][:3]
        ignored = {"instance_ids": rng.choice([some, pd.Series(some), np.array(some)])}
        rec.event("ids_beside_frame")
    fm = ft.calculate_feature_matrix(objs, es, cutoff_time=df.copy(), cutoff_time_in_index=in_index,
                                     chunk_size=rng.choice([None, None, 1, 3, 0.4]), **kw, **ignored)
    got = [tuple(x) for x in fm.index] if in_index else list(fm.index)
    want = pairs if in_index else [p[0] for p in pairs]
    if not rec.check(got == want, "rows", lambda: "asked for rows %s, got %s" % (want, got)):
        return
    rec.check(list(fm.index.names) == ([t.index, "time"] if in_index else [t.index]), "index-name",
              lambda: "index names %s for target %s" % (list(fm.index.names), t.index))
    if len({p[0] for p in pairs}) < len(pairs):
        rec.event("repeated_instances")
    passed = [c for c in cols if c.startswith("label")]
    rec.check([c for c in fm.columns if c not in passed] == names, "columns",
              lambda: "asked for columns %s (+%s), got %s" % (names, passed, list(fm.columns)))
    rec.check(sorted(c for c in fm.columns if c in passed) == sorted(passed), "passed-columns",
              lambda: "extra columns %s, got %s" % (passed, list(fm.columns)))
    for c in passed:
        for i, v in enumerate(extra[c]):
            rec.event("passthrough_cells")
            rec.check(same(fm[c].iloc[i], v), "passthrough",
                      lambda: "extra column %s of row %s was %r, became %r" % (c, pairs[i], v, fm[c].iloc[i]))
    ids = {r[t.index] for r in t.rows}
    for i, (iid, T) in enumerate(pairs):
        if iid not in ids:
            rec.event("unknown_ids")
            for f in objs:
                for n in f.get_feature_names():
                    rec.check(same(fm[n].iloc[i], default_of(f)), "unknown-id-default",
                              lambda: "unknown id %r: %s is %r, default %r" % (iid, n, fm[n].iloc[i], default_of(f)))
    base = fm[names]
    if len(pairs) >= 3:
        rec.nontrivial((tuple(names), tuple(map(str, pairs))))
    # each row alone
    for i in rng.sample(range(len(pairs)), min(2, len(pairs))):
        one = df.iloc[[i]].copy()
        alone = ft.calculate_feature_matrix(objs, es, cutoff_time=one, cutoff_time_in_index=in_index, **kw)[names]
        rec.event("rows_alone")
        d = frame_diff(alone, base.iloc[[i]])
        rec.check(d is None, "row-alone:%s" % prim_of(objs, d),
                  lambda: "row %s asked alone differs from the same row asked together with %d others: %s; features=%s "
                  "world=%s" % (pairs[i], len(pairs) - 1, d, [f.get_name() for f in objs], w.describe()))
    # each feature alone
    for f in rng.sample(objs, min(2, len(objs))):
        rec.event("features_alone")
        alone = ft.calculate_feature_matrix([f], es, cutoff_time=df.copy(), cutoff_time_in_index=in_index, **kw)
        d = frame_diff(alone[f.get_feature_names()], base[f.get_feature_names()])
        rec.check(d is None, "feature-alone:%s" % getattr(f.primitive, "name", ""),
                  lambda: "feature %s asked alone differs from asking it together with %s: %s" % (
                      f.get_name(), [g.get_name() for g in objs], d))
    # permuted request
    if rng.random() < 0.6:
        rec.event("permutations")
        perm = list(range(len(pairs)))
        rng.shuffle(perm)
        order = objs[:]
        rng.shuffle(order)
        b = ft.calculate_feature_matrix(order, es, cutoff_time=df.iloc[perm].copy(), cutoff_time_in_index=in_index, **kw)
        d = frame_diff(b[names], base.iloc[perm])
        rec.check(d is None, "permutation", lambda: "permuting the request changed answers: %s" % d)
    rec.sample({"target": target, "rows": [str(p) for p in pairs][:4], "extra": passed, "columns": names[:5], "renamed": ren})


def prim_of(objs, d):
    if d and d.startswith("column "):
        for f in objs:
            for n in f.get_feature_names():
                if d.startswith("column %r" % n):
                    return getattr(f.primitive, "name", "") or type(f).__name__
    return ""


def single(rng, rec, w, es, target, objs, names, kw, in_index):
    rec.event("single_cutoffs")
    t = w.tables[target]
    T = gen.pick_cutoffs(rng, w, 1)[0]
    ids = [r[t.index] for r in t.rows]
    ids = rng.sample(ids, rng.randint(1, len(ids)))
    if rng.random() < 0.3:
        ids.append({"int": 777, "int_neg": 777}.get(w.idkind, "nobody"))
        rng.shuffle(ids)
    form = rng.choice(["list", "series", "array", "tuple"])
    arg = {"list": ids, "series": pd.Series(ids, index=range(5, 5 + len(ids))), "array": np.array(ids),
           "tuple": pd.Index(ids).tolist()}[form]
    fm = ft.calculate_feature_matrix(objs, es, cutoff_time=T, instance_ids=arg, cutoff_time_in_index=in_index,
                                     chunk_size=rng.choice([None, 1, 2]), **kw)
    got = [tuple(x) for x in fm.index] if in_index else list(fm.index)
    want = [(i, T) for i in ids] if in_index else ids
    if not rec.check(got == want, "rows-single", lambda: "asked for %s (%s), got %s" % (want, form, got)):
        return
    rec.check(list(fm.columns) == names, "columns", lambda: "%s vs %s" % (names, list(fm.columns)))
    df = pd.DataFrame({"instance_id": ids, "time": [T] * len(ids)})
    b = ft.calculate_feature_matrix(objs, es, cutoff_time=df, cutoff_time_in_index=in_index, **kw)
    d = frame_diff(b, fm)
    rec.check(d is None, "single-vs-frame", lambda: "one cutoff for all instances differs from the same cutoff given per row: %s" % d)
    rec.nontrivial((tuple(names), tuple(map(str, ids)), str(T)))
    i = rng.randrange(len(ids))
    one = ft.calculate_feature_matrix(objs, es, cutoff_time=T, instance_ids=[ids[i]], cutoff_time_in_index=in_index, **kw)
    rec.event("rows_alone")
    d = frame_diff(one, fm.iloc[[i]])
    rec.check(d is None, "row-alone:%s" % prim_of(objs, d), lambda: "instance %r alone differs: %s" % (ids[i], d))
    # no ids: exactly the visible instances
    win = None
    if "training_window" not in kw:
        vis = [r[t.index] for r in ref.Oracle(w, T, kw["include_cutoff_time"], win).rows(target)]
        if vis:
            c = ft.calculate_feature_matrix(objs, es, cutoff_time=T, **kw)
            rec.check(sorted(map(str, c.index)) == sorted(map(str, vis)), "default-rows",
                      lambda: "request without ids answered %s, visible instances are %s" % (list(c.index), vis))
