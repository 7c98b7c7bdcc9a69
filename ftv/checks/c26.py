"""C26: a request without a meaning is refused, and refusing changes nothing."""
import io
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt
from featuretools.entityset.relationship import RelationshipPath
from featuretools.feature_base import AggregationFeature, DirectFeature, GroupByTransformFeature, TransformFeature
from .. import feat, gen, ref, snap
from ..common import exc_key, frame_diff
from ..workload import cutoff_frame, nmc_feature, unique_features

CASES = {"quick": 420, "thorough": 9000}
RULE = ("random worlds and features; for each of the ways in which a request can lack a meaning (no such entity, primitive, column, path; times of the wrong kind, "
        "twice the same row; features of nothing, of another entity, of inputs of the wrong kind or number; options misspelt, of the wrong type, given twice; windows of "
        "observations or of nothing; slices out of range; thresholds out of range ...) the request is made once sound, and once with that one fault; monitors: the sound one is answered, the "
        "faulty one raises, before and after it EntitySet, features and arguments are the same and the sound one has the same answer; distinct = fault and case")


class Ctx:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.w = w = gen.gen_world(rng, n_tables=rng.choice([2, 3, 3, 4]), kinds=("num", "int", "bool", "cat", "cat", "ord", "dt", "text"), max_rows=8, empty_tables=0, shared_names=rng.random() < 0.5)
        self.es = gen.build_es(w, lti=rng.random() < 0.7, rng=rng, shuffle=True)
        self.target = rng.choice(list(w.tables))
        fg = ref.FeatureGen(rng, w, max_depth=2, allow_calc=False)
        self.build = ref.Builder(self.es, w)
        self.objs = [o for _, o in unique_features([fg.top(self.target) for _ in range(rng.randint(1, 4))], self.build)]
        self.pairs, self.cut = cutoff_frame(rng, w, self.target, rng.randint(2, 4), n_times=2, missing=0)
        self.tab = w.tables[self.target]
        self.args = []          # what the caller passes and must find as it was

    def keep(self, x):
        self.args.append(x)
        return x

    def column(self, kinds, entity=None):
        """(entity, column) of one of the kinds"""
        cand = [(n, c) for n, t in self.w.tables.items() for c, k in t.kinds.items() if k in kinds and entity in (None, n)]
        return self.rng.choice(cand) if cand else None

    def ident(self, kinds, entity=None):
        x = self.column(kinds, entity)
        return None if x is None else ft.Feature(self.es[x[0]][x[1]])

    def rel(self, p, c, k):
        return self.build.rel(p, c, k)

    def fm(self, features=None, **kw):
        if "cutoff_time" not in kw:
            kw["cutoff_time"] = self.cut
        return ft.calculate_feature_matrix(self.objs if features is None else features, self.es, **kw)

    def other(self, *not_these):
        """an entity which is none of these"""
        cand = [n for n in self.w.tables if n not in not_these]
        return self.rng.choice(cand) if cand else None


ENTRIES = {}


def entry(fn):
    ENTRIES[fn.__name__] = fn
    return fn


# ------------------------------------------------------------------ matrices
@entry
def cutoff_list(c):
    times = [t for _, t in c.pairs]
    return c.fm, lambda: c.fm(cutoff_time=c.keep(times))


@entry
def cutoff_no_instance(c):
    bad = c.keep(c.cut.rename(columns={"instance_id": "who"}))
    good = c.cut.rename(columns={"instance_id": c.tab.index})
    return lambda: c.fm(cutoff_time=good), lambda: c.fm(cutoff_time=bad)


@entry
def cutoff_no_time(c):
    bad = c.keep(c.cut.rename(columns={"time": "when"}))
    if c.tab.time_index == "when":
        return None
    good = c.cut if c.tab.time_index is None else c.cut.rename(columns={"time": c.tab.time_index})
    return lambda: c.fm(cutoff_time=good), lambda: c.fm(cutoff_time=bad)


@entry
def cutoff_two_instances(c):
    bad = c.keep(c.cut.assign(**{c.tab.index: c.cut["instance_id"]}))
    return lambda: c.fm(cutoff_time=bad.drop(columns="instance_id")), lambda: c.fm(cutoff_time=bad)


@entry
def cutoff_two_times(c):
    if c.tab.time_index in (None, "time"):
        return None
    bad = c.keep(c.cut.assign(**{c.tab.time_index: c.cut["time"]}))
    return lambda: c.fm(cutoff_time=bad.drop(columns="time")), lambda: c.fm(cutoff_time=bad)


@entry
def cutoff_twice(c):
    k = c.rng.randrange(len(c.cut))
    df = pd.concat([c.cut, c.cut.iloc[[k]]])
    df = df.sample(frac=1, random_state=c.rng.randrange(1000))
    if c.rng.random() < 0.5:
        df["label"] = range(len(df))
    if c.rng.random() < 0.5:
        df.index = range(10, 10 + len(df))
    opts = {}
    if c.rng.random() < 0.3:
        opts["chunk_size"] = 1
    bad = c.keep(df)
    return lambda: c.fm(cutoff_time=df.drop_duplicates(["instance_id", "time"]), **opts), lambda: c.fm(cutoff_time=bad, **opts)


@entry
def cutoff_kind(c):
    bad = c.cut.copy()
    dated = c.w.time_kind == "datetime"
    how = c.rng.choice(["other", "text"])
    if how == "text":
        bad["time"] = bad["time"].astype(str).astype(object)
    elif dated:
        bad["time"] = c.rng.choice([bad["time"].astype("int64"), pd.Series([1.5] * len(bad))])
    else:
        bad["time"] = pd.to_datetime(["2020-01-01"] * len(bad)) + pd.to_timedelta(range(len(bad)), unit="h")
    opts = {}
    if dated and c.rng.random() < 0.3:
        opts["training_window"] = "2 days"
    return lambda: c.fm(**opts), lambda: c.fm(cutoff_time=c.keep(bad), **opts)


@entry
def cutoff_single_kind(c):
    dated = c.w.time_kind == "datetime"
    t = gen.pick_cutoffs(c.rng, c.w, 1)[0]
    ids = list(dict.fromkeys(i for i, _ in c.pairs))
    bad = c.rng.choice([5, 2.5, "five", np.int64(3)]) if dated else c.rng.choice([pd.Timestamp("2020-01-01"), np.datetime64("2020-01-01"), "five"])
    return lambda: c.fm(cutoff_time=t, instance_ids=ids), lambda: c.fm(cutoff_time=bad, instance_ids=c.keep(ids))


@entry
def no_features(c):
    bad = c.rng.choice([[], None, tuple(c.objs), c.objs[0], c.objs + ["x"], c.objs + [None], [o.get_name() for o in c.objs], {o.get_name(): o for o in c.objs}])
    return c.fm, lambda: ft.calculate_feature_matrix(bad, c.es, cutoff_time=c.cut)


@entry
def no_entityset(c):
    bad = c.rng.choice([None, "es", c.es[c.target], {}])
    return c.fm, lambda: ft.calculate_feature_matrix(c.objs, bad, cutoff_time=c.cut)


@entry
def chunk_size(c):
    n = c.rng.choice([0, -1, -0.5])
    return lambda: c.fm(chunk_size=c.rng.choice([1, 0.5, 100])), lambda: c.fm(chunk_size=n)


NONSENSE = ["many days", "3 bananas", "", "d 3", "three days", "3", "days", "3 d 4 h"]


@entry
def window_text(c):
    if c.w.time_kind != "datetime":
        return None
    timed = [n for n, t in c.w.tables.items() if t.time_index]
    if not timed:
        return None
    n = c.rng.choice(timed)
    f = [ft.Feature(c.es[n][c.w.tables[n].index])]
    t = max(gen.times_in(c.w))
    bad = c.rng.choice(NONSENSE[:2] + NONSENSE[3:5] + NONSENSE[6:7])
    return (lambda: ft.calculate_feature_matrix(f, c.es, cutoff_time=t, training_window="3 years"),
            lambda: ft.calculate_feature_matrix(f, c.es, cutoff_time=t, training_window=bad))


@entry
def window_observations(c):
    if c.w.time_kind != "datetime":
        return None
    bad = c.rng.choice(["3 observations", ft.Timedelta(2, "o"), ft.Timedelta({"o": 2})])
    return lambda: c.fm(training_window="3 days"), lambda: c.fm(training_window=bad)


@entry
def approximate_text(c):
    if c.w.time_kind != "datetime":
        return None
    bad = c.rng.choice(NONSENSE[:2] + NONSENSE[3:5] + NONSENSE[6:7])
    return lambda: c.fm(approximate="3 days"), lambda: c.fm(approximate=bad)


@entry
def workers(c):
    if c.rng.random() < 0.8:
        return None
    return c.fm, lambda: c.fm(n_jobs=0)


# ----------------------------------------------------------------------- dfs
def dfs(c, **kw):
    opts = dict(entityset=c.es, target_entity=c.target, agg_primitives=["count", "mean"], trans_primitives=["is_null"], max_depth=2, max_features=60, features_only=True)
    opts.update(kw)
    return ft.dfs(**opts)


@entry
def target_unknown(c):
    bad = c.rng.choice(["nobody", c.target + " ", "", c.target.upper() + "?"])
    return lambda: dfs(c), lambda: dfs(c, target_entity=bad)


@entry
def primitive_unknown(c):
    which = c.rng.choice(["agg_primitives", "trans_primitives", "where_primitives", "groupby_trans_primitives"])
    good = {"agg_primitives": ["count", "sum"], "trans_primitives": ["year", "IS_NULL"], "where_primitives": ["count"], "groupby_trans_primitives": ["cum_sum"]}[which]
    bad = list(good)
    bad.insert(c.rng.randrange(len(good) + 1), c.rng.choice(["summ", "no such", "", " sum", "Sum ", "cum-sum"]))
    return lambda: dfs(c, **{which: good}), lambda: dfs(c, **{which: c.keep(bad)})


@entry
def primitive_kind(c):
    which = c.rng.choice(["agg_primitives", "trans_primitives", "groupby_trans_primitives"])
    good = {"agg_primitives": ["count"], "trans_primitives": ["year"], "groupby_trans_primitives": ["cum_sum"]}[which]
    wrong = [P.Year, P.Year(), "year", P.CumSum] if which == "agg_primitives" else [P.Sum, P.Sum(), "sum", P.NMostCommon(n=2)]
    wrong += [int, str, pd.Series]
    bad = good + [c.rng.choice(wrong)]
    return lambda: dfs(c, **{which: good}), lambda: dfs(c, **{which: c.keep(bad)})


@entry
def target_ignored(c):
    o = c.other(c.target)
    return lambda: dfs(c, ignore_entities=[o]), lambda: dfs(c, ignore_entities=c.keep([o, c.target]))


@entry
def ignored_entities(c):
    o = c.other(c.target)
    bad = c.rng.choice([o, (o,), {o}, {o: []}])
    return lambda: dfs(c, ignore_entities=[o]), lambda: dfs(c, ignore_entities=bad)


@entry
def ignored_variables(c):
    n, col = c.column(("num", "int", "bool", "cat", "ord", "dt", "text"))
    bad = c.rng.choice([{n: col}, {n: (col,)}, {1: [col]}, {n: [1]}, {n: [col, None]}, {n: {col}}])
    return lambda: dfs(c, ignore_variables={n: [col]}), lambda: dfs(c, ignore_variables=c.keep(bad))


OPTION = ["ignore_entities", "include_entities", "ignore_variables", "include_variables", "ignore_groupby_entities", "include_groupby_entities",
          "ignore_groupby_variables", "include_groupby_variables"]


@entry
def option_unknown(c):
    name = c.rng.choice(OPTION)
    o = c.target
    val = {o: [c.w.tables[o].index]} if name.endswith("variables") else [o]
    prim = c.rng.choice(["mean", "count", ("mean", "count"), P.Mean])
    bad = c.rng.choice([name[:-1], name.upper(), "entities", "ignore", name + "_"])
    if prim is P.Mean or prim == ("mean", "count"):     # the message names strings only
        prim = "mean"
    return lambda: dfs(c, primitive_options={prim: {name: val}}), lambda: dfs(c, primitive_options=c.keep({prim: {bad: val}}))


@entry
def option_type(c):
    name = c.rng.choice(OPTION)
    o = c.target
    col = c.w.tables[o].index
    if name.endswith("variables"):
        val, bad = {o: [col]}, c.rng.choice([[o], o, {o: col}, [[o, col]]])
    else:
        val, bad = [o], c.rng.choice([o, {o: [col]}, (o,), {o}])
    return lambda: dfs(c, primitive_options={"mean": {name: val}}), lambda: dfs(c, primitive_options=c.keep({"mean": {name: bad}}))


@entry
def option_twice(c):
    opt = {"ignore_entities": [c.other(c.target)]}
    a = c.rng.choice([("mean", "count"), ("count", "mean", "is_null")])
    return (lambda: dfs(c, primitive_options={a: dict(opt)}),
            lambda: dfs(c, primitive_options=c.keep({a: dict(opt), c.rng.choice(["mean", P.Mean]): dict(opt)})))


@entry
def option_inputs(c):
    opt = {"ignore_entities": [c.other(c.target)]}
    prim, n = c.rng.choice([("trend", 2), ("mean", 1), ("add_numeric", 2)])
    m = c.rng.choice([k for k in (1, 2, 3) if k != n])
    ps = dict(agg_primitives=["trend", "mean"], trans_primitives=["add_numeric"]) if c.w.time_kind == "datetime" else dict(agg_primitives=["mean"], trans_primitives=["add_numeric"])
    if prim == "trend" and c.w.time_kind != "datetime":
        prim, n, m = "mean", 1, 2
    return (lambda: dfs(c, primitive_options={prim: [dict(opt) for _ in range(n)]}, **ps),
            lambda: dfs(c, primitive_options=c.keep({prim: [dict(opt) for _ in range(m)]}), **ps))


@entry
def option_primitive(c):
    opt = [{"ignore_entities": [c.other(c.target)]}]
    return lambda: dfs(c, primitive_options={"mean": opt}), lambda: dfs(c, primitive_options={"meen": opt})


@entry
def returned_types(c):
    bad = c.rng.choice(["numeric", vt.Numeric, (vt.Numeric,), {vt.Numeric}])
    return lambda: dfs(c, return_variable_types=c.rng.choice(["all", [vt.Numeric]])), lambda: dfs(c, return_variable_types=bad)


@entry
def dropped(c):
    which = c.rng.choice(["drop_exact", "drop_contains"])
    return lambda: dfs(c, **{which: ["MEAN("]}), lambda: dfs(c, **{which: "MEAN("})


@entry
def dfs_no_entityset(c):
    return lambda: dfs(c), lambda: dfs(c, entityset=None)


# ------------------------------------------------------------------ features
@entry
def not_a_feature(c):
    x = c.ident(("num", "int"))
    if x is None:
        return None
    thing = c.rng.choice(["v", None, 3, c.es, c.es[c.target].df])
    how = c.rng.choice(["row", "list", "direct", "where", "groupby"])
    if how == "row":
        return lambda: ft.Feature(x, primitive=P.Negate), lambda: ft.Feature(thing, primitive=P.Negate)
    if how == "list":
        return lambda: ft.Feature([x, x], primitive=P.AddNumeric), lambda: ft.Feature([x, thing], primitive=P.AddNumeric)
    p, k, col = c.rng.choice(c.w.rels)
    up, down = ft.Feature(c.es[p][c.w.tables[p].index]), ft.Feature(c.es[k][c.w.tables[k].index])
    if how == "direct":
        r = c.rel(p, k, col)
        return lambda: DirectFeature(up, c.es[k], relationship=r), lambda: DirectFeature(thing, c.es[k], relationship=r)
    if how == "where":
        if thing is None:
            return None
        path = RelationshipPath([(False, c.rel(p, k, col))])
        cond = ft.Feature(down, primitive=P.IsNull)
        make = lambda wh: AggregationFeature([down], c.es[p], P.Count, relationship_path=path, where=wh)  # noqa
        return lambda: make(cond), lambda: make(thing)
    if thing is None:
        return None
    g = c.ident(("cat", "fk", "ord"), x.entity.id)
    if g is None:
        return None
    return lambda: GroupByTransformFeature(x, P.CumSum, g), lambda: GroupByTransformFeature(x, P.CumSum, thing)


@entry
def primitive_missing(c):
    p, k, col = c.rng.choice(c.w.rels)
    x = c.ident(("num", "int"), k)
    if x is None or sum(1 for r in c.w.rels if r[1] == k) > 1:
        return None
    if c.rng.random() < 0.5:     # the wrong kind of primitive
        bad = lambda: ft.Feature(x, parent_entity=c.es[p], primitive=c.rng.choice([P.Negate, P.CumSum()]))  # noqa
    else:
        bad = lambda: ft.Feature(x, primitive=c.rng.choice([P.Sum, P.Mean()]))  # noqa
    if len(list(c.es.find_backward_paths(p, k))) != 1:
        return None
    return lambda: ft.Feature(x, parent_entity=c.es[p], primitive=P.Sum), bad


@entry
def input_kind(c):
    n = c.other()
    num, cat, dt = (c.ident(k, n) for k in (("num", "int"), ("cat",), ("dt",)))
    cand = []
    if num is not None and cat is not None:
        cand += [(P.Negate, [num], [cat]), (P.AddNumeric, [num, num], [num, cat]), (P.CumSum, [num], [cat]), (P.CumSum, [num], [cat]), (P.GreaterThanScalar(3), [num], [cat])]
    if num is not None and dt is not None:
        cand += [(P.Year, [dt], [num]), (P.Month(), [dt], [num]), (P.Negate, [num], [dt])]
    if dt is not None and cat is not None:
        cand += [(P.Weekday, [dt], [cat])]
    if not cand:
        return None
    prim, good, bad = c.rng.choice(cand)
    return lambda: ft.Feature(good, primitive=prim), lambda: ft.Feature(bad, primitive=prim)


@entry
def aggregated_kind(c):
    p, k, col = c.rng.choice(c.w.rels)
    num, cat, boo = (c.ident(x, k) for x in (("num", "int"), ("cat",), ("bool",)))
    path = RelationshipPath([(False, c.rel(p, k, col))])
    cand = []
    if num is not None and cat is not None:
        cand += [(P.Sum, num, cat), (P.Mean(), num, cat), (P.Mode, cat, num), (P.Std, num, cat), (P.NMostCommon(n=2), cat, num)]
    if num is not None and boo is not None:
        cand += [(P.PercentTrue, boo, num), (P.Any, boo, num), (P.Max, num, boo)]
    if not cand:
        return None
    prim, good, bad = c.rng.choice(cand)
    make = lambda x: AggregationFeature([x], c.es[p], prim, relationship_path=path)  # noqa
    return lambda: make(good), lambda: make(bad)


@entry
def input_number(c):
    x = c.ident(("num", "int"))
    if x is None:
        return None
    if c.rng.random() < 0.3:
        g = c.ident(("cat", "fk", "ord"), x.entity.id)
        if g is not None:
            k = c.rng.choice([0, 2, 3])
            return lambda: ft.Feature([x], primitive=P.CumSum, groupby=g), lambda: ft.Feature(c.keep([x] * k), primitive=P.CumSum, groupby=g)
    k, prim, good = c.rng.choice([(1, P.AddNumeric, 2), (3, P.AddNumeric, 2), (2, P.Negate, 1), (2, P.CumSum, 1), (3, P.GreaterThan, 2)])
    return lambda: ft.Feature([x] * good, primitive=prim), lambda: ft.Feature(c.keep([x] * k), primitive=prim)


@entry
def two_entities(c):
    a = c.ident(("num", "int"))
    if a is None:
        return None
    b = [x for x in (c.ident(("num", "int"), n) for n in c.w.tables if n != a.entity.id) if x is not None]
    if not b:
        return None
    b = c.rng.choice(b)
    return lambda: ft.Feature([a, a], primitive=P.AddNumeric), lambda: ft.Feature(c.keep([a, b]), primitive=P.AddNumeric)


@entry
def aggregated_entities(c):
    p, k, col = c.rng.choice(c.w.rels)
    x = c.ident(("num", "int"), k)
    t = c.ident(("time",), k)
    if x is None or t is None or c.w.time_kind != "datetime":
        return None
    o = [y for y in (c.ident(("num", "int"), n) for n in c.w.tables if n != k) if y is not None]
    if not o:
        return None
    y = c.rng.choice(o)
    path = RelationshipPath([(False, c.rel(p, k, col))])
    return (lambda: AggregationFeature([x, t], c.es[p], P.Trend, relationship_path=path),
            lambda: AggregationFeature([y, t], c.es[p], P.Trend, relationship_path=path))


@entry
def where_elsewhere(c):
    p, k, col = c.rng.choice(c.w.rels)
    n = c.other(k)
    down = ft.Feature(c.es[k][c.w.tables[k].index])
    cond = lambda e: ft.Feature(ft.Feature(c.es[e][c.w.tables[e].index]), primitive=P.IsNull)  # noqa
    good, bad = cond(k), cond(n)
    path = RelationshipPath([(False, c.rel(p, k, col))])
    make = lambda wh: AggregationFeature([down], c.es[p], P.Count, relationship_path=path, where=wh)  # noqa
    return lambda: make(good), lambda: make(bad)


def child_of(c, a, b):
    """b is reached from a going to children"""
    return bool(list(c.es.find_backward_paths(a, b)))


@entry
def no_path_down(c):
    p, k, col = c.rng.choice(c.w.rels)
    if len(list(c.es.find_backward_paths(p, k))) != 1:
        return None
    n = [x for x in c.w.tables if not child_of(c, x, k) and x != k]
    if not n:
        return None
    n = c.rng.choice(n)
    x = ft.Feature(c.es[k][c.w.tables[k].index])
    return (lambda: ft.Feature(x, parent_entity=c.es[p], primitive=P.Count), lambda: ft.Feature(x, parent_entity=c.es[n], primitive=P.Count))


@entry
def many_paths_down(c):
    amb = [(a, b) for a in c.w.tables for b in c.w.tables if a != b and len(list(c.es.find_backward_paths(a, b))) > 1]
    if not amb:
        return None
    a, b = c.rng.choice(amb)
    paths = list(c.es.find_backward_paths(a, b))
    x = ft.Feature(c.es[b][c.w.tables[b].index])
    path = RelationshipPath([(False, r) for r in c.rng.choice(paths)])
    return (lambda: AggregationFeature([x], c.es[a], P.Count, relationship_path=path), lambda: ft.Feature(x, parent_entity=c.es[a], primitive=P.Count))


@entry
def path_wrong(c):
    p, k, col = c.rng.choice(c.w.rels)
    r = c.rel(p, k, col)
    x = ft.Feature(c.es[k][c.w.tables[k].index])
    how = c.rng.choice(["forward", "parent", "child"])
    good = lambda: AggregationFeature([x], c.es[p], P.Count, relationship_path=RelationshipPath([(False, r)]))  # noqa
    if how == "forward":
        return good, lambda: AggregationFeature([x], c.es[p], P.Count, relationship_path=RelationshipPath([(True, r)]))
    n = c.other(p if how == "parent" else k)
    if how == "parent":
        return good, lambda: AggregationFeature([x], c.es[n], P.Count, relationship_path=RelationshipPath([(False, r)]))
    y = ft.Feature(c.es[n][c.w.tables[n].index])
    return good, lambda: AggregationFeature([y], c.es[p], P.Count, relationship_path=RelationshipPath([(False, r)]))


@entry
def no_parent(c):
    p, k, col = c.rng.choice(c.w.rels)
    if sum(1 for a, b, _ in c.w.rels if (a, b) == (p, k)) > 1:
        return None
    bad = [(a, b) for a in c.w.tables for b in c.w.tables if not any((x, y) == (a, b) for x, y, _ in c.w.rels)]
    a, b = c.rng.choice(bad)
    up = lambda n: ft.Feature(c.es[n][c.w.tables[n].index])  # noqa
    return lambda: ft.Feature(up(p), entity=c.es[k]), lambda: ft.Feature(up(a), entity=c.es[b])


@entry
def two_parents(c):
    amb = [(p, k, col) for p, k, col in c.w.rels if sum(1 for a, b, _ in c.w.rels if (a, b) == (p, k)) > 1]
    if not amb:
        return None
    p, k, col = c.rng.choice(amb)
    up = ft.Feature(c.es[p][c.w.tables[p].index])
    return lambda: DirectFeature(up, c.es[k], relationship=c.rel(p, k, col)), lambda: ft.Feature(up, entity=c.es[k])


@entry
def relationship_wrong(c):
    p, k, col = c.rng.choice(c.w.rels)
    r = c.rel(p, k, col)
    up = ft.Feature(c.es[p][c.w.tables[p].index])
    good = lambda: DirectFeature(up, c.es[k], relationship=r)  # noqa
    if c.rng.random() < 0.5:
        n = c.other(k)
        return good, lambda: DirectFeature(up, c.es[n], relationship=r)
    n = c.other(p)
    y = ft.Feature(c.es[n][c.w.tables[n].index])
    return good, lambda: DirectFeature(y, c.es[k], relationship=r)


@entry
def previous_without_times(c):
    cand = [(p, k, col) for p, k, col in c.w.rels if c.w.tables[k].time_index is None]
    if not cand:
        return None
    p, k, col = c.rng.choice(cand)
    x = ft.Feature(c.es[k][c.w.tables[k].index])
    path = RelationshipPath([(False, c.rel(p, k, col))])
    bad = c.rng.choice(["2 days", "3 observations", ft.Timedelta(2, "h"), ft.Timedelta(1, "o")])
    return lambda: AggregationFeature([x], c.es[p], P.Count, relationship_path=path), lambda: AggregationFeature([x], c.es[p], P.Count, relationship_path=path, use_previous=bad)


@entry
def previous_kind(c):
    cand = [(p, k, col) for p, k, col in c.w.rels if c.w.tables[k].time_index is not None]
    if not cand:
        return None
    p, k, col = c.rng.choice(cand)
    x = ft.Feature(c.es[k][c.w.tables[k].index])
    path = RelationshipPath([(False, c.rel(p, k, col))])
    make = lambda up: AggregationFeature([x], c.es[p], P.Count, relationship_path=path, use_previous=up)  # noqa
    bad = c.rng.choice(["many days", "3 bananas", "d 3", "three days", "days"] + (["2 days", "1 month"] if c.w.time_kind == "numeric" else []))
    return lambda: make("3 observations"), lambda: make(bad)


@entry
def whole_outputs(c):
    m = nmc_feature(c.rng, c.w, c.es, c.target, P.NMostCommon(n=c.rng.choice([2, 3])))
    if m is None:
        return None
    if c.rng.random() < 0.5:
        return lambda: ft.Feature(m[1], primitive=P.IsNull), lambda: ft.Feature(m, primitive=P.IsNull)
    up = [(p, k, col) for p, k, col in c.w.rels if k == c.target]
    if not up:
        return None
    p, k, col = c.rng.choice(up)
    path = RelationshipPath([(False, c.rel(p, k, col))])
    return lambda: AggregationFeature([m[0]], c.es[p], P.NumUnique, relationship_path=path), lambda: AggregationFeature([m], c.es[p], P.NumUnique, relationship_path=path)


@entry
def slices(c):
    n = c.rng.choice([2, 3, 4])
    m = nmc_feature(c.rng, c.w, c.es, c.target, P.NMostCommon(n=n))
    if m is None:
        return None
    how = c.rng.choice(["range", "range", "single", "slice"])
    if how == "range":
        i = n + c.rng.choice([0, 0, 1, 5])
        return lambda: m[n - 1], lambda: m[i]
    if how == "single":
        x = c.objs[0]
        if x.number_output_features > 1:
            return None
        return lambda: m[0], lambda: x[0]
    return lambda: m[0], lambda: m[0][0]


@entry
def group_kind(c):
    n = c.other()
    x, g, bad = c.ident(("num", "int"), n), c.ident(("cat", "fk", "ord"), n), c.ident(("num", "dt", "text"), n)
    if x is None or bad is None or g is None:
        return None
    prim = c.rng.choice([P.CumSum, P.CumMean()])
    return lambda: ft.Feature(x, primitive=prim, groupby=g), lambda: ft.Feature(x, primitive=prim, groupby=bad)


@entry
def group_elsewhere(c):
    a = c.ident(("num", "int"))
    if a is None:
        return None
    n = c.other(a.entity.id)
    g, bad = c.ident(("cat", "fk", "ord"), a.entity.id), c.ident(("cat", "fk", "ord"), n)
    if g is None or bad is None:
        return None
    return lambda: ft.Feature(a, primitive=P.CumSum, groupby=g), lambda: ft.Feature(a, primitive=P.CumSum, groupby=bad)


@entry
def unknown_names(c):
    how = c.rng.choice(["entity", "variable", "query", "query entity"])
    if how == "entity":
        return lambda: c.es[c.target], lambda: c.es["no such"]
    if how == "variable":
        return lambda: c.es[c.target][c.tab.index], lambda: c.es[c.target]["no such"]
    ids = [i for i, _ in c.pairs]
    good = lambda: c.es.query_by_values(c.target, ids)  # noqa
    if how == "query":
        return good, lambda: c.es.query_by_values(c.target, c.keep(ids), variable_id="no such")
    return good, lambda: c.es.query_by_values("no such", c.keep(ids))


# ------------------------------------------------------ selection, encoding
@entry
def thresholds(c):
    fm = c.fm()
    fm = fm[[x for x in fm.columns if fm[x].dtype.kind in "fib"]]
    which = c.rng.choice(["null", "corr"])
    bad = c.rng.choice([-0.1, 1.01, 95, -1, 5])
    good = c.rng.choice([0, 1, 0.0, 1.0, 0.5])
    if which == "null":
        return (lambda: ft.selection.remove_highly_null_features(fm, pct_null_threshold=good), lambda: ft.selection.remove_highly_null_features(c.keep(fm), pct_null_threshold=bad))
    return (lambda: ft.selection.remove_highly_correlated_features(fm, pct_corr_threshold=good), lambda: ft.selection.remove_highly_correlated_features(c.keep(fm), pct_corr_threshold=bad))


@entry
def checked_columns(c):
    fm = c.fm()
    names = list(fm.columns)
    return (lambda: ft.selection.remove_highly_correlated_features(fm, features_to_check=names[:1]),
            lambda: ft.selection.remove_highly_correlated_features(c.keep(fm), features_to_check=c.keep(names[:1] + ["no such"])))


@entry
def encoded_matrix(c):
    fm = c.fm()
    if c.rng.random() < 0.5:
        return lambda: ft.encode_features(fm, c.objs)[0], lambda: ft.encode_features(c.rng.choice([None, fm.values, fm.to_dict(), list(fm.columns)]), c.objs)
    k = c.rng.randrange(len(fm.columns))
    return (lambda: ft.encode_features(fm, c.objs)[0], lambda: ft.encode_features(c.keep(fm.drop(columns=[fm.columns[k]])), c.objs, inplace=c.rng.random() < 0.3))


# --------------------------------------------------------- saving, loading
@entry
def urls(c):
    how = c.rng.choice(["features", "parquet", "csv", "pickle"])
    url = c.rng.choice(["http://example.com/x", "https://example.com/x.json"])
    if how == "features":
        return lambda: ft.save_features(c.objs), lambda: ft.save_features(c.objs, url)
    return (lambda: c.es.metadata and None, lambda: getattr(c.es, "to_" + how)(url))


@entry
def nothing_there(c):
    d = tempfile.mkdtemp(prefix="ftv26")

    def good():
        try:
            path = os.path.join(d, "es")
            c.es.to_csv(path)
            return sorted(ft.read_entityset(path).entity_dict)
        finally:
            shutil.rmtree(os.path.join(d, "es"))

    def bad():
        try:
            if how == "es":
                ft.read_entityset(os.path.join(d, "nothing"))
            elif how == "features":
                ft.load_features(os.path.join(d, "nothing.json"))
            elif how == "garbage":
                ft.load_features("{]")
            else:
                ft.load_features(ft.save_features(c.objs)[:-20])
        finally:
            left = os.listdir(d)
            c.rec.check(not left, "left", lambda: "a refused request left files: %r" % left)
            os.rmdir(d)
    how = c.rng.choice(["es", "features", "garbage", "cut off"])
    return good, bad


@entry
def saved_format(c):
    d = tempfile.mkdtemp(prefix="ftv26")
    from featuretools.entityset import serialize

    def good():
        serialize.write_data_description(c.es, os.path.join(d, "a"), format="csv", index=False, sep=",", encoding="utf-8", engine="python", compression=None)

    def bad():
        try:
            serialize.write_data_description(c.es, os.path.join(d, "b"), format=c.rng.choice(["xls", "CSV ", "", "feather"]))
        finally:
            shutil.rmtree(d)
    return good, bad


@entry
def made_primitives(c):
    from featuretools.primitives import make_agg_primitive, make_trans_primitive
    how = c.rng.choice(["agg", "trans", "slot"])

    def fine(x, k=2):
        return x * k

    def timed(x, time=None):
        return x
    if how == "slot":
        class Loose(P.TransformPrimitive):
            name = "loose"
            input_types = [vt.Numeric]
            return_type = vt.Numeric

            def __init__(self, k=1):
                self.other = k

            def get_function(self):
                return lambda x: x * self.other

        class Tight(Loose):
            name = "tight"

            def __init__(self, k=1):
                self.k = self.other = k
        return lambda: Tight(3).get_arguments(), lambda: Loose(3).get_arguments()
    make = make_agg_primitive if how == "agg" else make_trans_primitive
    return (lambda: make(fine, [vt.Numeric], vt.Numeric, name="fine").name, lambda: make(timed, [vt.Numeric], vt.Numeric, name="timed"))


@entry
def primitive_files(c):
    d = tempfile.mkdtemp(prefix="ftv26")
    head = "from featuretools.primitives import TransformPrimitive, AggregationPrimitive\nfrom featuretools.variable_types import Numeric\n\n\n"
    one = "class A%d(TransformPrimitive):\n    name = 'a%d'\n    input_types = [Numeric]\n    return_type = Numeric\n\n\n"
    how = c.rng.choice(["none", "two"])

    def load(text):
        path = os.path.join(d, "p.py")
        with open(path, "w") as f:
            f.write(text)
        return ft.primitives.utils.load_primitive_from_file(path)

    def bad():
        try:
            load(head if how == "none" else head + one % (1, 1) + one % (2, 2))
        finally:
            shutil.rmtree(d)
    return lambda: load(head + one % (1, 1))[0], bad


@entry
def temporal_cutoffs(c):
    ids = [1, 2]
    ts = list(pd.to_datetime(["2020-01-05", "2020-01-07"]))
    start = list(pd.to_datetime(["2020-01-01", "2020-01-02"]))
    good = c.rng.choice([dict(window_size="1d", num_windows=2), dict(num_windows=3, start=start), dict(window_size="12h", start=start)])
    return lambda: ft.make_temporal_cutoffs(ids, ts, **good), lambda: ft.make_temporal_cutoffs(c.keep(ids), c.keep(ts), window_size="1d", num_windows=2, start=c.keep(start))


@entry
def time_units(c):
    from featuretools.utils import convert_time_units
    bad = c.rng.choice(["day", "hour", "", "fortnights", "Days", "sec"])
    return lambda: convert_time_units(3600, "hours"), lambda: convert_time_units(3600, bad)


NEED = dict({"refused:" + n: 4 for n in ENTRIES if n != "workers"}, answered=1200, refused=1200, states=1200, again=600)


# ------------------------------------------------------------------- monitor
def picture(x):
    if isinstance(x, pd.DataFrame):
        return ("frame", [str(c) for c in x.columns], [repr(i) for i in x.index], {i: [repr(v) for v in x.iloc[:, i]] for i in range(x.shape[1])}, [str(d) for d in x.dtypes])
    if isinstance(x, (list, tuple)):
        return [picture(y) for y in x]
    if isinstance(x, dict):
        return [(repr(k), picture(v)) for k, v in x.items()]
    if isinstance(x, ft.feature_base.FeatureBase):
        return repr(feat.canon(x)), x.get_name()
    return repr(x)


def state(c):
    return (snap.es_state(c.es), [repr(feat.canon(o)) for o in c.objs], [o.get_name() for o in c.objs], picture(c.cut), [sorted(P.utils.get_aggregation_primitives()), sorted(P.utils.get_transform_primitives())])


def case(rng, rec, tier):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = Ctx(rng, rec)
        if len(c.pairs) < 1:
            return
        for name in rng.sample(sorted(ENTRIES), 8):
            c.args = []
            made = ENTRIES[name](c)
            if made is None:
                continue
            good, bad = made
            info = lambda: "%s; target %s features %r cutoffs %r world %s" % (name, c.target, [o.get_name() for o in c.objs], c.pairs, c.w.describe())  # noqa
            try:
                rs = rng.getstate()
                before = picture(good())
            except Exception as e:
                rec.violation("sound:" + name, "a sound request was refused: %s: %s" % (exc_key(e), info()))
                bad_only(bad)
                continue
            rec.event("answered")
            s0 = state(c)
            a0 = None
            try:
                got = bad()
            except Exception as e:
                rec.event("refused")
                rec.event("refused:" + name)
                rec.nontrivial((name, type(e).__name__, c.w.describe()))
            else:
                rec.violation("accepted:" + name, "a request without a meaning was answered: %s: %s" % (str(picture(got))[:500], info()))
                continue
            s1 = state(c)
            rec.event("states")
            d = snap.diff_state(s0, s1)
            rec.check(d is None, "changed:" + name, lambda: "a refused request changed something: %s: %s" % (d, info()))
            if name not in ("primitive_files", "saved_format", "nothing_there") and rng.random() < 0.7:
                end = rng.getstate()
                rng.setstate(rs)
                after = picture(good())
                rng.setstate(end)
                rec.event("again")
                rec.check(after == before, "again:" + name, lambda: "after a refused request the sound one has another answer: %s" % info())


def bad_only(bad):
    try:
        bad()
    except Exception:
        pass
