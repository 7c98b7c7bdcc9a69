"""C07: no call changes what the user passed in."""
import os
import tempfile

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt
from .. import gen, ref
from ..common import frame_diff
from ..snap import diff_state, es_state, obj_state
from ..workload import cutoff_frame, nmc_feature, random_window, unique_features, window_arg

CASES = {"quick": 500, "thorough": 6000}
RULE = ("random worlds; a random sequence of public calls (load, normalize, compute single/frame/window/approximate, dfs with "
        "every kind of option, encode, select, save/load, serialize, concat, query, describe, failing computations); deep "
        "snapshots of every argument and of the EntitySet before and after each call must be equal; non-trivial = the call "
        "completed; distinct = (call kind, argument shapes, world)")
CALLS = ["load", "load_convert", "make_index", "normalize", "compute_single", "compute_frame", "compute_approx", "compute_fail", "dfs",
         "dfs_entities", "encode", "select", "features_io", "es_io", "concat", "query", "describe", "construct", "temporal",
         "misc", "update"]
NEED = dict({"call:" + c: 5 for c in CALLS}, snapshots=2000)


class Watch:
    """Snapshots arguments on entry, compares on exit."""

    def __init__(self, rec, key, info=""):
        self.rec, self.key, self.info = rec, key, info
        self.items = []

    def on(self, name, x):
        self.items.append((name, x, obj_state(x)))
        return x

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is not None and et is not Boom:
            return False
        for name, x, before in self.items:
            self.rec.event("snapshots")
            d = diff_state(before, obj_state(x))
            self.rec.check(d is None, "mutated:%s:%s" % (self.key, name),
                           lambda: "%s changed the caller's %s: %s %s" % (self.key, name, d, self.info() if callable(self.info) else self.info))
        self.rec.event("call:" + self.key)
        self.rec.nontrivial((self.key, repr(self.items)[:4000]))
        return et is Boom


class Boom(Exception):
    pass


def case(rng, rec, tier):
    w = gen.gen_world(rng, kinds=("num", "num", "int", "bool", "cat", "ord", "dt", "text"), secondary=0.5, timeless=0.3,
                      timeless_secondary=0.6)
    es = gen.build_es(w, lti=rng.random() < 0.5, rng=rng, shuffle=True)
    target = rng.choice(list(w.tables))
    fg = ref.FeatureGen(rng, w, max_depth=3)
    objs = [o for _, o in unique_features([fg.top(target) for _ in range(rng.randint(2, 5))], ref.Builder(es, w))]
    m = nmc_feature(rng, w, es, target) if rng.random() < 0.4 else None
    if m is not None:
        objs.append(m)
    st = dict(rng=rng, rec=rec, w=w, es=es, target=target, fg=fg, objs=objs)
    for kind in rng.sample(CALLS, 6):
        globals()["do_" + kind](**st)
    rec.sample({"world": {n: len(t.rows) for n, t in w.tables.items()}, "features": [f.get_name() for f in objs][:4]})


def watch(rec, key, es, objs=None, **kw):
    x = Watch(rec, key)
    if es is not None:
        x.on("EntitySet", es)
    if objs is not None:
        x.on("features", objs)
    for k, v in kw.items():
        x.on(k, v)
    return x


def do_load(rng, rec, w, es, target, **_):
    e2 = ft.EntitySet("x")
    n = rng.choice(list(w.tables))
    t = w.tables[n]
    df = gen.frame(w, n)
    rng.shuffle(df.index.values) if False else None
    vts = gen.vtypes_for(w, n)
    if rng.random() < 0.4:
        vts = {k: (v if rng.random() < 0.5 else v.type_string) for k, v in vts.items()}
    sec = {k: [c for c in v] for k, v in t.secondary.items()} if t.time_index else None
    with watch(rec, "load", None, dataframe=df, variable_types=vts, **({"secondary_time_index": sec} if sec else {})):
        e2.entity_from_dataframe(n, df, index=t.index, time_index=t.time_index, variable_types=vts, secondary_time_index=sec or None)


def do_load_convert(rng, rec, w, **_):
    """columns whose data has to be converted on the way in"""
    n = rng.randint(2, 6)
    df = pd.DataFrame({"id": range(n), "s_date": ["2020-01-%02d" % (i + 1) for i in range(n)],
                       "s_num": [str(i * 1.5) for i in range(n)], "ll": [(1.0, 2.0)] * (n - 1) + [np.nan],
                       "flag": [rng.choice([0, 1]) for _ in range(n)], "when": ["2021-03-%02d 10:00" % (i + 1) for i in range(n)]})
    df.index = range(0, n)
    if rng.random() < 0.5:
        df["c"] = pd.Series(["a", "b"] * n).iloc[:n].values
    vts = {"s_date": vt.Datetime, "s_num": vt.Numeric, "ll": vt.LatLong, "flag": vt.Categorical}
    e2 = ft.EntitySet("x")
    with watch(rec, "load_convert", None, dataframe=df, variable_types=vts):
        e2.entity_from_dataframe("t", df, index="id", time_index="when" if rng.random() < 0.6 else None, variable_types=vts)
    df2 = e2["t"].df.copy()
    with watch(rec, "load_convert", None, converted=df2):
        e3 = ft.EntitySet("y").entity_from_dataframe("t", df2, index="id", variable_types={"ll": vt.LatLong})
        e3["t"].convert_variable_type("s_num", vt.Categorical)


def do_make_index(rng, rec, w, **_):
    df = pd.DataFrame({"a": range(5), "b": list("xyzxy")})
    e2 = ft.EntitySet("x")
    with watch(rec, "make_index", None, dataframe=df):
        if rng.random() < 0.5:
            e2.entity_from_dataframe("t", df, index="new", make_index=True)
        else:
            e2.entity_from_dataframe("t", df, index="absent")


def do_normalize(rng, rec, w, es, **_):
    n = rng.choice(list(w.tables))
    t = w.tables[n]
    e2 = gen.build_es(w, lti=False)
    cats = [c for c, k in t.kinds.items() if k in ("cat", "ord", "int") and not any(c in v for v in t.secondary.values())]
    if not cats:
        return
    key = rng.choice(cats)
    rest = [c for c, k in t.kinds.items() if k not in ("index", "time", "fk", "sec") and c != key
            and not any(c in v for v in t.secondary.values())]
    rng.shuffle(rest)
    k = rng.randint(0, len(rest))
    add, cp = rest[:k], rest[k:k + 1]
    kw = dict(additional_variables=add, copy_variables=cp)
    if t.time_index and rng.random() < 0.4:
        kw["make_time_index"] = True
    sec = None
    if t.time_index and w.time_kind == "datetime" and rng.random() < 0.4:
        dts = [c for c, kk in t.kinds.items() if kk == "dt" and c not in add + cp and c != key and not any(c in v for v in t.secondary.values())]
        if dts:
            sec = {dts[0]: []}
            kw["make_secondary_time_index"] = sec
    with watch(rec, "normalize", None, **kw):
        try:
            e2.normalize_entity(n, "fresh", key, **kw)
        except TypeError:
            # a missing first secondary time cannot be typed: a refused call must not change its arguments either
            rec.event("refused")


def request(rng, w, target):
    pairs, df = cutoff_frame(rng, w, target, rng.randint(1, 6), n_times=2)
    if rng.random() < 0.5:
        df = df.rename(columns={"instance_id": w.tables[target].index})
    if rng.random() < 0.5:
        df["label"] = range(len(df))
    if len(df) and rng.random() < 0.5:
        df.index = range(10, 10 + len(df))
    return df


def do_compute_single(rng, rec, w, es, target, objs, **_):
    T = gen.pick_cutoffs(rng, w, 1)[0]
    ids = rng.choice([None, "list", "series", "array"])
    t = w.tables[target]
    vals = [r[t.index] for r in t.rows][:4]
    vals = {None: None, "list": vals, "series": pd.Series(vals, index=range(3, 3 + len(vals))), "array": np.array(vals)}[ids]
    if vals is None and not ref.Oracle(w, T).rows(target):
        return
    with watch(rec, "compute_single", es, objs, **({"instance_ids": vals} if ids else {})):
        ft.calculate_feature_matrix(objs, es, cutoff_time=T, instance_ids=vals, chunk_size=rng.choice([None, 2]))


def do_compute_frame(rng, rec, w, es, target, objs, **_):
    df = request(rng, w, target)
    if not len(df):
        return
    kw = {}
    if w.time_kind == "datetime" and rng.random() < 0.4:
        kw["training_window"] = window_arg(rng, random_window(rng))
    with watch(rec, "compute_frame", es, objs, cutoff_time=df):
        ft.calculate_feature_matrix(objs, es, cutoff_time=df, include_cutoff_time=rng.random() < 0.5, chunk_size=rng.choice([None, 1]), **kw)


def do_compute_approx(rng, rec, w, es, target, objs, **_):
    if w.time_kind != "datetime":
        return
    feats = ft.dfs(entityset=es, target_entity=target, features_only=True, max_depth=2, agg_primitives=["count", "sum"], trans_primitives=[])
    df = request(rng, w, target)
    if not len(df) or not feats:
        return
    with watch(rec, "compute_approx", es, feats, cutoff_time=df):
        ft.calculate_feature_matrix(feats, es, cutoff_time=df, approximate="6 hours")


def do_compute_fail(rng, rec, w, es, target, objs, **_):
    """a user primitive which raises, or which misbehaves and writes into what it is given"""
    cols = [(n, c) for n, t in w.tables.items() for c, k in t.kinds.items() if k in ("num", "int") and n == target]
    if not cols:
        return
    n, c = rng.choice(cols)

    def fail(x):
        raise Boom("injected")
    prim = P.make_trans_primitive(fail, [vt.Numeric], vt.Numeric, name="fail")
    bad = ft.Feature(es[n][c], primitive=prim)
    df = request(rng, w, target)
    if not len(df):
        return
    with watch(rec, "compute_fail", es, objs, cutoff_time=df):
        ft.calculate_feature_matrix(objs + [bad], es, cutoff_time=df)
        rec.event("no_row_reached_the_failing_primitive")
    # and the EntitySet still answers
    ft.calculate_feature_matrix(objs, es, cutoff_time=df.copy())


def do_dfs(rng, rec, w, es, target, objs, **_):
    others = [n for n in w.tables if n != target]
    n = rng.choice(list(w.tables))
    col = rng.choice([c for c in w.tables[n].cols()])
    args = dict(agg_primitives=rng.sample(["sum", "mean", "count", "mode", "last"], 2) + [P.NMostCommon(n=2)],
                trans_primitives=["cum_sum", "is_null", P.Absolute], groupby_trans_primitives=["cum_count"],
                where_primitives=["count"],
                ignore_variables={n: [col]} if rng.random() < 0.6 else None,
                ignore_entities=[rng.choice(others)] if others and rng.random() < 0.3 else None,
                primitive_options={rng.choice(["mean", "mode", ("sum", "last")]): {
                    "ignore_entities": [rng.choice(others)] if others else [], "include_variables": {n: [col]}}}
                if rng.random() < 0.4 else None,
                seed_features=[f for f in objs[:1] if f.number_output_features == 1] if rng.random() < 0.4 else None,
                drop_contains=["zzz"], drop_exact=["yyy"], return_variable_types=rng.choice([None, "all", [vt.Numeric]]),
                allowed_paths=[[target]] if rng.random() < 0.2 else None)
    args = {k: v for k, v in args.items() if v is not None}
    x = watch(rec, "dfs", es, None, **args)
    with x:
        ft.dfs(entityset=es, target_entity=target, features_only=True, max_depth=rng.choice([1, 2]), max_features=rng.choice([-1, 5]), **args)
    kw = {}
    df = request(rng, w, target)
    if not len(df):
        return
    with watch(rec, "dfs", es, None, cutoff_time=df):
        ft.dfs(entityset=es, target_entity=target, cutoff_time=df, max_depth=1, agg_primitives=["sum"], trans_primitives=["absolute"])


def do_dfs_entities(rng, rec, w, target, **_):
    ents = {}
    for n, t in w.tables.items():
        e = [gen.frame(w, n), t.index]
        if t.time_index:
            e.append(t.time_index)
            if rng.random() < 0.5:
                e.append({c: v for c, v in gen.vtypes_for(w, n).items()})
        ents[n] = tuple(e)
    rels = [(p, w.tables[p].index, c, col) for p, c, col in w.rels]
    frames = {n: e[0] for n, e in ents.items()}
    with watch(rec, "dfs_entities", None, entities=ents, relationships=rels, frames=frames):
        ft.dfs(entities=ents, relationships=rels, target_entity=target, features_only=True, max_depth=1)


def matrix(rng, w, es, target, objs):
    df = request(rng, w, target)
    if not len(df):
        return None
    return ft.calculate_feature_matrix(objs, es, cutoff_time=df.copy())


def do_encode(rng, rec, w, es, target, objs, **_):
    fm = matrix(rng, w, es, target, objs)
    if fm is None:
        return
    top = rng.choice([1, 3, {f.get_name(): 2 for f in objs}])
    enc = rng.choice([None, [objs[0].get_name()], []])
    drop = rng.random() < 0.3 and not isinstance(top, dict)
    with watch(rec, "encode", es, objs, feature_matrix=fm, top_n=top, to_encode=enc):
        ft.encode_features(fm, objs, top_n=top, to_encode=enc, include_unknown=rng.random() < 0.5, drop_first=drop)


def do_select(rng, rec, w, es, target, objs, **_):
    from featuretools import selection as S
    fm = matrix(rng, w, es, target, objs)
    if fm is None:
        return
    fs = [f for f in objs if f.number_output_features == 1]
    names = [f.get_name() for f in fs]
    fm = fm[names]
    with watch(rec, "select", es, fs, feature_matrix=fm, names=names):
        S.remove_low_information_features(fm, fs)
        S.remove_highly_null_features(fm, fs, pct_null_threshold=0.5)
        S.remove_single_value_features(fm, fs, count_nan_as_value=rng.random() < 0.5)
        S.remove_highly_correlated_features(fm, fs, features_to_check=names, features_to_keep=names[:1])


def do_features_io(rng, rec, w, es, objs, **_):
    with watch(rec, "features_io", es, objs):
        s = ft.save_features(objs)
        ft.load_features(s)


def do_es_io(rng, rec, w, es, **_):
    with tempfile.TemporaryDirectory(prefix="ftv_io_") as d:
        with watch(rec, "es_io", es):
            rng.choice([es.to_pickle, es.to_csv, es.to_parquet])(os.path.join(d, "x")) if not any(
                k == "latlong" for t in w.tables.values() for k in t.kinds.values()) else es.to_pickle(os.path.join(d, "x"))
            es.to_dictionary()
        with watch(rec, "es_io", es):
            es2 = ft.read_entityset(os.path.join(d, "x"))
            es == es2
            es.__eq__(es2, deep=True)


def do_concat(rng, rec, w, es, **_):
    import copy
    with watch(rec, "concat", es):
        other = copy.deepcopy(es)
    for n, t in w.tables.items():
        df = other[n].df.copy()
        if len(df) and rng.random() < 0.6:
            other[n].update_data(df.iloc[:max(1, len(df) // 2)])
    with watch(rec, "concat", es, other=other):
        es.concat(other, inplace=False)


def do_query(rng, rec, w, es, target, **_):
    t = w.tables[target]
    ids = [r[t.index] for r in t.rows][:3]
    vals = rng.choice([None, ids, pd.Series(ids, index=range(5, 5 + len(ids)), name="q"), pd.DataFrame({t.index: ids})])
    T = gen.pick_cutoffs(rng, w, 1)[0]
    with watch(rec, "query", es, instance_vals=vals):
        out = es.query_by_values(target, vals, time_last=rng.choice([None, T]), columns=None)
        for c in out.columns:      # what the caller does with the answer does not reach the EntitySet
            if len(out):
                try:
                    out.loc[:, c] = out[c].iloc[0]
                except Exception:
                    pass


def do_describe(rng, rec, w, es, objs, **_):
    with watch(rec, "describe", es, objs):
        for f in objs:
            ft.describe_feature(f)
            repr(f), f.get_dependencies(deep=True), f.get_depth(), f.unique_name(), hash(f)
            f.rename("other name"), f.copy()
        repr(es), es.metadata, es.to_dictionary()
        for n in w.tables:
            repr(es[n]), es[n].shape, list(es.get_forward_entities(n, deep=True)), list(es.get_backward_entities(n, deep=True))


def do_construct(rng, rec, w, es, target, fg, **_):
    bases = [ft.Feature(es[target][c]) for c, k in w.tables[target].kinds.items() if k in ("num", "int")][:2]
    gb = [ft.Feature(es[target][c]) for c, k in w.tables[target].kinds.items() if k in ("cat", "fk", "ord")]
    if not bases or not gb:
        return
    one = bases[:1]
    two = bases if len(bases) == 2 else bases + bases
    fixed = [vt.Numeric]
    with watch(rec, "construct", es, None, base_features=one, two=two, groupby=gb, types=fixed):
        ft.Feature(one, primitive=P.CumSum, groupby=gb[0])
        ft.feature_base.GroupByTransformFeature(one, primitive=P.CumMax, groupby=gb[0])
        ft.feature_base.TransformFeature(one, primitive=P.Absolute)
        ft.Feature(two, primitive=P.AddNumeric)
        P.make_agg_primitive(lambda x: 1.0, fixed, vt.Numeric, name="one_%d" % rng.randint(0, 99))
        P.make_trans_primitive(lambda x: x, fixed, vt.Numeric, name="same_%d" % rng.randint(0, 99))


def do_temporal(rng, rec, **_):
    ids = [1, 2, 3]
    cuts = [gen.T0, gen.T0 + gen.HOUR, gen.T0 + 5 * gen.HOUR]
    a = dict(instance_ids=ids, cutoffs=cuts)
    with watch(rec, "temporal", None, **a):
        ft.make_temporal_cutoffs(ids, cuts, window_size="1h", num_windows=2)
        ft.make_temporal_cutoffs(ids, cuts, window_size="2h", start=[c - 5 * gen.HOUR for c in cuts])


def do_misc(rng, rec, w, es, objs, **_):
    td = {"h": 2, "d": 1}
    with watch(rec, "misc", es, objs, units=td):
        t = ft.Timedelta(td)
        t.get_arguments(), t.get_name(), t.is_absolute()
        gen.T0 - t
        ft.list_primitives()
        ft.variable_types.list_variable_types()
        list(es.find_forward_paths(*[rng.choice(list(w.tables)) for _ in range(2)]))


def do_update(rng, rec, w, es, **_):
    n = rng.choice(list(w.tables))
    e2 = gen.build_es(w, lti=rng.random() < 0.5)
    df = e2[n].df.copy()
    df = df[rng.sample(list(df.columns), len(df.columns))].sample(frac=1, random_state=rng.randint(0, 99))
    df.index = range(len(df))
    with watch(rec, "update", es, None, df=df):
        e2[n].update_data(df)


def finish(rec, tier, seed):
    """a cluster made for one call: the options given for it stay as they are"""
    import random
    rng = random.Random("C07/%s/finish" % seed)
    w = gen.gen_world(rng, n_tables=2)
    es = gen.build_es(w)
    t = list(w.tables)[0]
    feats = [ft.Feature(es[t][c]) for c in w.tables[t].kinds if c != w.tables[t].index]
    T = max(gen.times_in(w)) + (gen.HOUR if w.time_kind == "datetime" else 1)
    one = ft.calculate_feature_matrix(feats, es, cutoff_time=T)
    kw = {"diagnostics_port": None, "memory_limit": "auto"}
    with watch(rec, "cluster", es, feats, dask_kwargs=kw):
        fm = ft.calculate_feature_matrix(feats, es, cutoff_time=T, n_jobs=2, dask_kwargs=kw)
    d = frame_diff(one, fm)
    rec.check(d is None, "cluster-differs", d)
