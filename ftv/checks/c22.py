"""C22: a Dask EntitySet gives the matrix the pandas EntitySet gives."""
import random
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from .. import dfswork, gen, ref
from ..common import exc_key, norm, same
from ..workload import cutoff_frame, pick_instances, unique_features

CASES = {"quick": 160, "thorough": 2500}
RULE = ("random worlds loaded twice, as pandas and as Dask in random partitions (empty partitions, any row order, secondary times, tables "
        "without time index), random features built of the primitives listed as Dask compatible (stacked, where, all relationship shapes) "
        "or found by dfs; calculated at one cutoff, per row cutoffs with columns passed along, with and without instance ids, chunked, "
        "by the synchronous or threaded scheduler, twice; monitors: rows, columns and every cell equal to pandas, same definitions from "
        "dfs, EntitySets left as they were, what is documented as unsupported refused; distinct = feature texts")
NEED = {"matrices": 100, "cells": 2000, "dfs": 25, "partitions": 150, "cutoff_rows": 60, "single_cutoff": 30, "secondary": 20, "where": 30,
        "aggregations": 150, "refused": 60, "twice": 40, "passed": 40, "empty_partitions": 20, "normalized": 5, "left_alone": 60, "skipna": 2, "missing_booleans": 20}

KINDS = ("num", "num", "int", "bool", "cat", "ord", "dt", "text", "zip")


def compatible():
    from featuretools.primitives.utils import get_aggregation_primitives, get_transform_primitives
    from featuretools.utils.gen_utils import Library
    split = lambda d: ({k: v for k, v in d.items() if Library.DASK in v.compatibility},  # noqa
                       {k: v for k, v in d.items() if Library.DASK not in v.compatibility})
    (agg, noagg), (tr, notr) = split(get_aggregation_primitives()), split(get_transform_primitives())
    return agg, tr, noagg, notr


def repartition(rng, rec, es):
    """the same rows in other partitions, some of them empty"""
    import dask.dataframe as dd
    for e in es.entities:
        df = e.df.compute()
        how = rng.random()
        if how < 0.3:
            continue
        order = list(range(len(df)))
        rng.shuffle(order)
        df = df.iloc[order].reset_index(drop=True)
        cuts = sorted(rng.randint(0, len(df)) for _ in range(rng.randint(0, 3)))
        parts = [df.iloc[a:b] for a, b in zip([0] + cuts, cuts + [len(df)])]
        e.df = dd.concat([dd.from_pandas(p.reset_index(drop=True), npartitions=1) for p in parts], interleave_partitions=True) \
            if len(parts) > 1 else dd.from_pandas(df, npartitions=1)
        rec.event("empty_partitions", sum(len(p) == 0 for p in parts))
    rec.event("partitions", sum(e.df.npartitions for e in es.entities))


def content(es):
    out = {}
    for e in es.entities:
        df = e.df.compute()
        df = df[sorted(df.columns)].sort_values(e.index, key=lambda s: s.astype(str))
        out[e.id] = (df.astype(object).where(df.notnull(), None).values.tolist(), df.dtypes.astype(str).to_dict(),
                     {v.id: type(v).__name__ for v in e.variables}, e.index, e.time_index)
    return out


def worlds(rng):
    return gen.gen_world(rng, n_tables=rng.choice([1, 2, 3, 3, 4]), kinds=KINDS, nulls=rng.choice([0, 0.2]), null_fks=rng.choice([0.06, 0.3]), dangling=rng.choice([0.04, 0.25]),
                         secondary=0.3,
                         timeless_secondary=0.3, empty_tables=0, time_kind=rng.choice(["datetime", "datetime", "datetime", "numeric"]))


def visible(w, orc, target, key):
    return any(r[w.tables[target].index] == key for r in orc.rows(target))


def compare(rec, w, target, a, b, names, times, include, info, row_key, meaning):
    """a: pandas matrix, b: computed Dask matrix"""
    idn = w.tables[target].index
    ids = [norm(i[0] if isinstance(i, tuple) else i) for i in a.index]
    if idn not in b.columns:
        rec.violation("no-index", "the Dask matrix has no column %r: %s" % (idn, info()))
        return
    if row_key is None:
        ra, rb = ids, [norm(x) for x in b[idn]]
    else:
        ra, rb = list(a[row_key]), list(b[row_key])
    orc = {}
    for t in times:
        if t not in orc:
            orc[t] = ref.Oracle(w, t, include)
    vis = [visible(w, orc[t], target, i) for t, i in zip(times, ids)]
    # instances which do not exist (yet) have no row unless one is passed along
    want = sorted(map(repr, ra)) if row_key else sorted(repr(r) for r, v in zip(ra, vis) if v)
    if sorted(map(repr, rb)) != want:
        rec.violation("rows", "rows of the Dask matrix %r, of pandas %r: %s" % (sorted(map(repr, rb)), want, info()))
        return
    pos = {r: i for i, r in enumerate(rb)}
    for i, r in enumerate(ra):
        if not vis[i]:
            continue
        if norm(b[idn].iloc[pos[r]]) != ids[i]:
            rec.violation("ids", "row %r is instance %r instead of %r: %s" % (r, b[idn].iloc[pos[r]], ids[i], info()))
            return
    for n in names:
        if n not in b.columns:
            rec.violation("columns", "column %r is missing from the Dask matrix: %s" % (n, info()))
            return
        for i, r in enumerate(ra):
            if not vis[i]:
                continue
            x, y = a[n].iloc[i], b[n].iloc[pos[r]]
            if n in meaning and orc[times[i]].infinite(meaning[n]):     # means over infinities are left open
                continue
            rec.event("cells")
            if not same(x, y, 1e-6, 1e-9):
                rec.violation("value", "%r of %r: Dask %r, pandas %r: %s" % (n, r, y, x, info()))
                return


def requests(rng, w, target):
    """(keyword arguments, times per row of pandas, include, row key)"""
    include = rng.random() < 0.7
    how = rng.random()
    if how < 0.55:
        pairs, df = cutoff_frame(rng, w, target, rng.randint(1, 6), n_times=rng.choice([1, 2, 3]))
        if pairs:
            passed = rng.random() < 0.8 or df["instance_id"].duplicated().any()
            if passed:
                df["row no"] = ["r%d" % i for i in range(len(df))]
                if rng.random() < 0.5:
                    df["weight"] = [rng.choice([1.5, 2.0, np.nan]) for _ in pairs]
            return dict(cutoff_time=df), include, "row no" if passed else None, [c for c in df.columns[2:]]
    t = gen.pick_cutoffs(rng, w, 1)[0]
    kw = dict(cutoff_time=t)
    if rng.random() < 0.5:
        ids = list(dict.fromkeys(pick_instances(rng, w, target, rng.randint(1, 6))))
        if ids:
            kw["instance_ids"] = ids
    elif rng.random() < 0.2:
        kw.pop("cutoff_time")
    return kw, include, None, []


def fresh(kw):
    return {k: v.copy() if isinstance(v, (pd.DataFrame, list)) else v for k, v in kw.items()}


def case(rng, rec, tier):
    import dask
    w = worlds(rng)
    pes = gen.build_es(w, lti=False)
    des = gen.build_es(w, lti=False, rng=rng, make_dask=True)
    if rng.random() < 0.7:
        repartition(rng, rec, des)
    else:
        rec.event("partitions", sum(e.df.npartitions for e in des.entities))
    if any(t.secondary for t in w.tables.values()):
        rec.event("secondary")
    with dask.config.set(scheduler=rng.choice(["synchronous", "synchronous", "threads"])):
        before = content(des) if rng.random() < 0.6 else None
        full = [n for n in w.tables if w.tables[n].rows] or list(w.tables)
        parents = [n for n in full if any(p == n for p, _, _ in w.rels)]
        target = rng.choice(parents if parents and rng.random() < 0.6 else full)
        what = rng.random()
        crossed = [x[0] for x in crossings(w) if w.tables[x[0]].rows]
        if crossed and rng.random() < 0.6:
            target = rng.choice(crossed)
        if what < 0.6:
            explicit(rng, rec, w, pes, des, target)
        elif what < 0.9:
            synthesis(rng, rec, w, pes, des, target)
        else:
            # the order of rows is the caller's business on Dask, and decides which of equals is the first
            normalized(rng, rec, w, pes, gen.build_es(w, lti=False, rng=rng, make_dask=True))
        refused(rng, rec, w, pes, des, target)
        if before is not None and not rec.violations:
            rec.event("left_alone")
            after = content(des)
            rec.check(after == before, "changed", lambda: "calculating features changed the Dask EntitySet: %r" % [
                (n, before[n], after[n]) for n in before if after.get(n) != before[n]][:1])


def excluded():
    agg, tr, noagg, notr = compatible()
    return set(noagg) | set(notr)


def calculate(rng, rec, w, pes, des, target, pf, df_, info, meaning={}):
    kw, include, row_key, passed = requests(rng, w, target)
    opt = dict(include_cutoff_time=include)
    dopt = dict(opt)
    if rng.random() < 0.2:
        dopt["chunk_size"] = rng.choice([1, 2, 0.5])
    names = [o.get_name() for o in pf]
    if any(n in passed for n in names):
        return
    more = lambda: "%s kw=%r include=%r world=%s" % (info(), kw, include, w.describe())  # noqa
    if "cutoff_time" not in kw:
        pairs_kw = fresh(kw)
        pairs_kw["cutoff_time"] = pd.Timestamp("2262-01-01") if w.time_kind == "datetime" else np.inf
    else:
        pairs_kw = fresh(kw)
    calc_time = any(p is not None and p.uses_calc_time for p in (getattr(f, "primitive", None) for f in ref_walk(pf)))
    if "cutoff_time" not in kw and calc_time:
        return
    try:
        a = ft.calculate_feature_matrix(pf, pes, cutoff_time_in_index=True, **pairs_kw, **opt)
    except AssertionError as e:
        if "0 instance ids" in str(e):      # nobody exists at this time
            return
        raise
    for attempt in range(2 if rng.random() < 0.5 else 1):
        try:
            lazy = ft.calculate_feature_matrix(df_, des, **fresh(kw), **dopt)
            b = lazy.compute()
        except Exception as e:
            rec.violation("raised", "Dask raised %s where pandas calculates: %s" % (exc_key(e), more()))
            return
        rec.event("matrices")
        if attempt:
            rec.event("twice")
        compare(rec, w, target, a, b, names + passed, [i[1] for i in a.index], include, more, row_key, meaning)
        if rec.violations:
            return
    rec.event("cutoff_rows" if isinstance(kw.get("cutoff_time"), pd.DataFrame) else "single_cutoff")
    if passed:
        rec.event("passed")


def ref_walk(fs):
    for f in fs:
        yield f
        for d in f.get_dependencies(deep=True):
            yield d


def crossings(w):
    """children with two parents: (parent aggregating, child, its column, other column, other parent)"""
    return [(p, c, k, k2, p2) for p, c, k in w.rels for k2, p2 in w.tables[c].fks.items() if k2 != k]


def missing_booleans(rng, w, target):
    """booleans of one parent, missing where there is none, counted for the other"""
    out = []
    for p, c, k, k2, p2 in crossings(w):
        if p != target:
            continue
        cols = [ref.identity(w, p2, x) for x in w.tables[p2].kinds]
        bools = [f for f in cols if f.kind == ref.BOOL] + [ref.F("row", p2, ref.BOOL, False, prim="not", param=None, bases=[ref.F("row", p2, ref.BOOL, False, bases=[f], prim="is_null", param=None)])
                                                            for f in cols if f.kind == ref.NUM]
        for b in rng.sample(bools, min(2, len(bools))):
            d = ref.F("direct", c, ref.BOOL, True, bases=[b], fk=k2)
            out += [ref.F("agg", p, ref.NUM, False, bases=[d], prim=n, path=[(p, c, k)], where=None, use_previous=None) for n in ("num_true", "percent_true")]
    return out


def explicit(rng, rec, w, pes, des, target):
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([2, 2, 3]), allow_full=False, use_previous=False, exclude=excluded())
    fs = [fg.top(target) for _ in range(rng.randint(4, 9))]
    if rng.random() < 0.7:
        more = missing_booleans(rng, w, target)
        rec.event("missing_booleans", len(more))
        fs += more
    both = unique_features(fs, ref.Builder(pes, w))
    bd = ref.Builder(des, w)
    dobj = [bd(f) for f, _ in both]
    for f, _ in both:
        rec.nontrivial(f.text())
        for g in f.walk():
            if g.op == "agg":
                rec.event("aggregations")
                if getattr(g, "where", None) is not None:
                    rec.event("where")
    calculate(rng, rec, w, pes, des, target, [o for _, o in both], dobj, lambda: "features %r" % [f.text() for f, _ in both],
              {o.get_name(): f for f, o in both})


def synthesis(rng, rec, w, pes, des, target):
    agg, tr, _, _ = compatible()
    if w.time_kind == "numeric":
        agg, tr = ({k: v for k, v in x.items() if not v.uses_calc_time} for x in (agg, tr))
    kw = dict(target_entity=target, max_depth=rng.choice([1, 2, 2]), features_only=True, max_features=400)
    a = dfswork.spell(rng, rng.sample(sorted(agg.items()), rng.randint(1, 3)))
    if rng.random() < 0.25:
        a.append(ft.primitives.Mean(skipna=False))
        rec.event("skipna")
    # means over infinities are left open
    tr = {k: v for k, v in tr.items() if not k.startswith(("divide", "modulo", "scalar_divide", "scalar_modulo"))}
    t = [n for n, c in rng.sample(sorted(tr.items()), rng.randint(0, 3)) if len(c.input_types) == 1 or kw["max_depth"] == 1]
    kw.update(agg_primitives=a, trans_primitives=t)
    if rng.random() < 0.5:
        kw["where_primitives"] = [rng.choice(a)]
        for n, tab in w.tables.items():
            for c, k in tab.kinds.items():
                if k in ("cat", "ord", "int", "bool") and rng.random() < 0.4:
                    vals = sorted({r[c] for r in tab.rows if r[c] is not None}, key=repr)[:2]
                    for es in (pes, des):
                        es[n][c].interesting_values = vals
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pf = ft.dfs(entityset=pes, **kw)
        df_ = ft.dfs(entityset=des, **kw)
    rec.event("dfs")
    x, y = [f.get_name() for f in pf], [f.get_name() for f in df_]
    full = max(len(x), len(y)) >= 400       # which ones are left out depends on the order of columns
    rec.check(full or sorted(x) == sorted(y), "definitions", lambda: "dfs found other features on Dask: only pandas %r, only Dask %r; request %r world %s" % (
        sorted(set(x) - set(y)), sorted(set(y) - set(x)), kw, w.describe()))
    if rec.violations or not pf:
        return
    by = {f.get_name(): f for f in df_}
    pf = [f for f in pf if f.get_name() in by]
    pf = rng.sample(pf, min(40, len(pf)))
    x = [f.get_name() for f in pf]
    for n in x:
        rec.nontrivial(n)
    calculate(rng, rec, w, pes, des, target, pf, [by[n] for n in x], lambda: "dfs %r" % (kw,))


def normalized(rng, rec, w, pes, des):
    """normalize_entity gives the same entities"""
    cands = [(n, c) for n, t in w.tables.items() for c, k in t.kinds.items()
             if k in ("cat", "ord", "int", "zip") and t.rows and all(r[c] is not None for r in t.rows)]
    if not cands:
        return
    n, c = rng.choice(cands)
    t = w.tables[n]
    timed = t.time_index is not None and rng.random() < 0.7
    for es in (pes, des):
        try:
            es.normalize_entity(n, "new one", c, make_time_index=timed)
        except Exception as e:
            if es is pes:
                return
            rec.violation("normalize-raised", "normalize_entity raised on Dask only: %s; %s.%s world %s" % (exc_key(e), n, c, w.describe()))
            return
    rec.event("normalized")
    x, y = pes["new one"].df, des["new one"].df.compute()
    key = lambda d: sorted(map(repr, ([norm(v) for v in r] for r in d[sorted(d.columns)].values.tolist())))  # noqa
    rec.check(sorted(x.columns) == sorted(y.columns) and sorted(map(repr, x[c])) == sorted(map(repr, y[c])), "normalized",
              lambda: "normalize_entity made %r on Dask and %r on pandas; %s.%s world %s" % (y.values.tolist(), x.values.tolist(), n, c, w.describe()))
    if timed and not rec.violations:
        ti = pes["new one"].time_index
        rec.check(des["new one"].time_index == ti, "normalized-time", "another time index on Dask")
        a, b = dict(zip(x[c], x[ti])), dict(zip(y[c], y[ti]))
        rec.check({k: norm(v) for k, v in a.items()} == {k: norm(v) for k, v in b.items()}, "normalized-first",
                  lambda: "first times %r on Dask and %r on pandas; %s.%s world %s" % (b, a, n, c, w.describe()))


def refused(rng, rec, w, pes, des, target):
    """what is documented as unsupported is refused, not miscalculated"""
    agg, tr, noagg, notr = compatible()
    how = rng.randrange(6)
    name = None
    try:
        if how == 0:
            name = "agg " + rng.choice(sorted(noagg))
            ft.dfs(entityset=des, target_entity=target, agg_primitives=[name[4:]], trans_primitives=[], features_only=True)
        elif how == 1:
            name = "trans " + rng.choice(sorted(notr))
            ft.dfs(entityset=des, target_entity=target, agg_primitives=[], trans_primitives=[name[6:]], features_only=True)
        elif how == 2:
            name = "groupby " + rng.choice(sorted(k for k in notr if k.startswith(("cum_", "diff"))))
            ft.dfs(entityset=des, target_entity=target, agg_primitives=[], trans_primitives=[], groupby_trans_primitives=[name[8:]],
                   features_only=True)
        else:
            f = ft.Feature(des[target][w.tables[target].index])
            cols = [c for c, k in w.tables[target].kinds.items() if k in ("num", "cat", "int")]
            if not cols:
                return
            f = ft.Feature(des[target][rng.choice(cols)])
            if how == 3:
                if w.time_kind != "datetime":
                    return
                name = "training_window"
                ft.calculate_feature_matrix([f], des, cutoff_time=gen.pick_cutoffs(rng, w, 1)[0], training_window="2 days")
            elif how == 4:
                pairs, df = cutoff_frame(rng, w, target, 3)
                if not pairs or w.time_kind != "datetime":
                    return
                name = "approximate"
                ft.calculate_feature_matrix([f], des, cutoff_time=df, approximate="1 hour")
            else:
                t = w.tables[target]
                name = "mixed"
                des.entity_from_dataframe("a pandas one", pd.DataFrame({"id": [1, 2]}), index="id", variable_types={"id": vt.Index})
    except (ValueError, NotImplementedError):
        rec.event("refused")
    except Exception as e:
        rec.violation("refused-badly", "%s: %s" % (name, exc_key(e)))
    else:
        rec.violation("not-refused", "%s was accepted by a Dask EntitySet" % name)
