"""C16: queries return exactly the matching rows visible at a time; paths are enumerated exactly."""
import numpy as np
import pandas as pd

import featuretools as ft
from featuretools.entityset.relationship import Relationship, RelationshipPath
from .. import gen, ref, snap
from ..common import norm
from ..workload import random_window, window_arg

CASES = {"quick": 600, "thorough": 10000}
RULE = ("random worlds (as C02/C03, all id kinds, secondary times, last times, pandas and dask) queried by id or any column with "
        "values given as scalar, list, tuple, set-like, series, frame, with duplicates, missing and unknown values, at random times, windows and column "
        "subsets; plus random relationship graphs (diamonds, parallel links, unconnected parts, cycles for the path finders); monitors: rows, order, "
        "cells and columns equal those of the logical tables by the time rules; paths equal an independent enumeration, names distinct; distinct = queries")
NEED = {"queries": 3000, "cells": 20000, "by_variable": 800, "hidden_by_time": 2000, "hidden_by_window": 300, "secondary_hidden": 100, "columns": 500,
        "nothing": 100, "dask": 40, "graphs": 300, "paths": 2000, "cyclic": 40, "names": 1500, "lti_rescue": 20}


def same_cell(a, b):
    a, b = norm(a), norm(b)
    return a == b or (a is None and b is None) or (a != a and b != b)


def case(rng, rec, tier):
    dask = rng.random() < 0.06
    w = gen.gen_world(rng, nulls=rng.choice([0, 0.25]), secondary=0.4, timeless_secondary=0.3, empty_tables=0 if dask else 0.08,
                      kinds=("num", "int", "bool", "cat", "ord", "dt", "text", "zip"), time_kind="datetime" if dask else None,
                      idkind=rng.choice(["int", "str", "int_neg"]))
    lti_on = rng.random() < 0.6 and not dask
    es = gen.build_es(w, lti=lti_on, rng=rng, shuffle=True, make_dask=dask)
    before = snap.es_state(es)
    lti = ref.last_times(w) if lti_on else None
    for _ in range(2 if dask else 8):
        query(rng, rec, w, es, lti, dask)
        if rec.violations:
            return
    if not dask:
        d = snap.diff_state(before, snap.es_state(es))
        rec.check(d is None, "query-changed", lambda: d)
    for _ in range(2):
        graph(rng, rec)


def query(rng, rec, w, es, lti, dask):
    name = rng.choice(list(w.tables))
    t = w.tables[name]
    col = rng.choice([None, t.index, rng.choice(t.cols()), rng.choice(list(t.fks) or [t.index])])
    key = col or t.index
    stored = [r[key] for r in t.rows]
    pool = [v for v in stored if v is not None]
    vals = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))] if pool else []
    unknown = {"int": -12345, "num": -0.125, "ord": -12345, "bool": True, "dt": pd.Timestamp("1999-01-01"), "time": pd.Timestamp("1999-01-01"),
               "sec": pd.Timestamp("1999-01-01")}.get(t.kinds[key], "nobody")
    if t.kinds[key] in ("index", "fk") and w.idkind.startswith("int"):
        unknown = 4321
    if t.kinds[key] in ("time", "sec") and w.time_kind == "numeric":
        unknown = -7.5
    if rng.random() < 0.3:
        vals.append(unknown)
    given, want_vals = vals, set(map(norm, vals))
    form = rng.choice(["none", "list", "list", "tuple", "series", "frame", "scalar", "array", "index"])
    with_nan = False
    if dask:
        form = rng.choice(["none", "list", "series"])
    if form == "none":
        given, want_vals = None, None
    elif form == "tuple":
        given = tuple(vals)
    elif form == "scalar":
        if not vals:
            return
        given, want_vals = vals[0], {norm(vals[0])}
    elif form in ("series", "frame", "array", "index"):
        dt = es[name].df[key].dtype
        s = pd.Series(vals, dtype=object if not vals else None) if not vals or rng.random() < 0.5 else pd.Series(vals)
        if form == "series" and len(s) and rng.random() < 0.3 and not dask:
            s = pd.concat([s, pd.Series([None if s.dtype == object else np.nan if s.dtype.kind in "if" else pd.NaT if s.dtype.kind == "M" else None])])
            with_nan = True
        given = {"series": s.rename(rng.choice([None, "x", key])), "frame": pd.DataFrame({"other": range(len(s)), key: s.values}), "array": s.values, "index": s}[form]
    inc = rng.random() < 0.6
    T = gen.pick_cutoffs(rng, w, 1)[0] if rng.random() < 0.8 else None
    win = random_window(rng, months=False) if T is not None and w.time_kind == "datetime" and rng.random() < 0.4 and not dask else None
    cols = rng.sample(t.cols(), rng.randint(1, len(t.cols()))) if rng.random() < 0.4 else None
    time_arg = T
    if T is not None and w.time_kind == "datetime" and rng.random() < 0.2:
        time_arg = np.datetime64(T) if rng.random() < 0.5 else T.to_pydatetime()
    kw = {}
    if col is not None:
        kw["variable_id"] = col
    if cols is not None:
        kw["columns"] = list(cols)
    if T is not None:
        kw["time_last"] = time_arg
    if win is not None:
        kw["training_window"] = window_arg(rng, win)
    if not inc or rng.random() < 0.5:
        kw["include_cutoff_time"] = inc
    arg = given.copy() if hasattr(given, "copy") and not isinstance(given, (list, str)) else given
    got = es.query_by_values(name, given, **kw)
    if dask:
        rec.event("dask")
        if hasattr(got, "compute"):
            got = got.compute()
    rec.event("queries")
    if want_vals is not None and not vals:
        rec.event("nothing")
    if key != t.index:
        rec.event("by_variable")
    # what the rules say
    match = [r for r in w.ordered_rows(name) if want_vals is None or (r[key] is not None and norm(r[key]) in want_vals)]
    if T is None:
        want = match
    else:
        o = ref.Oracle(w, T, inc, win, lti)
        vis = {r[t.index]: r for r in o.rows(name)}
        want = [vis[r[t.index]] for r in match if r[t.index] in vis]
        rec.event("hidden_by_time", len(match) - len(want))
        if win is not None:
            full = ref.Oracle(w, T, inc, None, None)
            rec.event("hidden_by_window", len([r for r in full.rows(name)]) - len(vis))
            rec.event("lti_rescue", len(vis) - len(ref.Oracle(w, T, inc, win, None).rows(name)))
        byid = {r[t.index]: r for r in t.rows}
        rec.event("secondary_hidden", sum(1 for r in want for c in t.cols() if r[c] is None and byid[r[t.index]][c] is not None))
    info = lambda: "query %s by %s in %s(%r) %s" % (name, key, form, vals, kw)
    wc = cols if cols is not None else list(es[name].df.columns)
    if cols is not None:
        rec.event("columns")
    if want or cols is not None:
        rec.check(list(got.columns) == wc, "columns", lambda: "%s: %s wanted %s" % (info(), list(got.columns), wc))
    if t.index in got.columns:
        ids = [norm(x) for x in got[t.index]]
    elif not dask:
        ids = [norm(x) for x in got.index]
    else:
        ids = None
    wid = [norm(r[t.index]) for r in want]
    if ids is not None:
        ok = ids == wid if not dask else sorted(ids) == sorted(wid)
        rec.check(ok, "rows", lambda: "%s: rows %s, wanted %s; %s" % (info(), ids, wid, w.describe()))
        if not dask:
            rec.check([norm(x) for x in got.index] == wid, "labels", lambda: "%s: labels %s wanted %s" % (info(), list(got.index), wid))
        if ok:
            at = {k: i for i, k in enumerate(ids)}
            for r in want:
                i = at[norm(r[t.index])]
                for c in got.columns:
                    rec.event("cells")
                    if not same_cell(got[c].iloc[i], r[c]):
                        rec.violation("cell", "%s: %s of %r is %r, wanted %r" % (info(), c, r[t.index], got[c].iloc[i], r[c]))
                        return
    if isinstance(arg, (pd.Series, pd.DataFrame)):
        rec.check(arg.equals(given) and (isinstance(arg, pd.DataFrame) or arg.name == given.name), "argument-changed", info)
    rec.nontrivial((form, len(wid), repr(kw), name, repr(vals)))


# ------------------------------------------------------------------ paths
def enum(rels, a, b, forward=True):
    """all acyclic forward paths from a to b as lists of relationship indexes"""
    out = []

    def go(node, path, seen):
        if node == b:
            out.append(tuple(path))
        for i, (p, c, col) in enumerate(rels):
            if c == node and p not in seen:
                go(p, path + [i], seen | {p})
    go(a, [], {a})
    return out


def graph(rng, rec):
    n = rng.randint(2, 6)
    es = ft.EntitySet("g")
    names = ["e%d" % i for i in range(n)]
    rng.shuffle(names)
    cyclic = rng.random() < 0.25
    rels = []
    for i in range(n):
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if i or cyclic else 0):
            p = rng.choice(names) if cyclic and rng.random() < 0.3 else names[rng.randrange(i)] if i else None
            if p is not None:
                rels.append((p, names[i], "f%d" % len(rels)))
    for e in names:
        df = pd.DataFrame(dict({"id": [0, 1]}, **{col: [0, 1] for p, c, col in rels if c == e}))
        es.entity_from_dataframe(e, df, index="id", variable_types={c: ft.variable_types.Id for c in df.columns if c != "id"})
    order = list(range(len(rels)))
    rng.shuffle(order)
    rels = [rels[i] for i in order]
    for p, c, col in rels:
        es.add_relationship(Relationship(es[p]["id"], es[c][col]))
    if not rels:
        return
    rec.event("graphs")
    if cyclic:
        rec.event("cyclic")
    idx = lambda r: rels.index((r.parent_entity.id, r.child_entity.id, r.child_variable.id))
    info = lambda: "%s" % rels
    for a in names:
        f = [idx(r) for r in es.get_forward_relationships(a)]
        rec.check(sorted(f) == [i for i, r in enumerate(rels) if r[1] == a], "forward-relationships", lambda: "%s of %s in %s" % (f, a, rels))
        b_ = [idx(r) for r in es.get_backward_relationships(a)]
        rec.check(sorted(b_) == [i for i, r in enumerate(rels) if r[0] == a], "backward-relationships", lambda: "%s of %s in %s" % (b_, a, rels))
        direct = sorted((e, [(d, idx(r)) for d, r in p]) for e, p in es.get_forward_entities(a))
        rec.check(direct == sorted((rels[i][0], [(True, i)]) for i in f), "forward-entities", lambda: "%s: %s in %s" % (a, direct, rels))
        direct = sorted((e, [(d, idx(r)) for d, r in p]) for e, p in es.get_backward_entities(a))
        rec.check(direct == sorted((rels[i][1], [(False, i)]) for i in b_), "backward-entities", lambda: "%s: %s in %s" % (a, direct, rels))
        allf = []
        for b in names:
            want = sorted(enum(rels, a, b))
            got = sorted(tuple(idx(r) for r in p) for p in es.find_forward_paths(a, b))
            rec.event("paths", len(want))
            rec.check(got == want, "forward-paths", lambda: "%s to %s: %s wanted %s; %s" % (a, b, got, want, rels))
            back = sorted(tuple(idx(r) for r in p) for p in es.find_backward_paths(b, a))
            rec.check(back == sorted(p[::-1] for p in want), "backward-paths", lambda: "%s to %s: %s wanted %s; %s" % (b, a, back, want, rels))
            if want:
                rec.check(es.has_unique_forward_path(a, b) == (len(want) == 1), "unique-path", lambda: "%s to %s: %s; %s" % (a, b, want, rels))
            else:
                try:
                    es.has_unique_forward_path(a, b)
                except StopIteration:
                    pass
            ps = [RelationshipPath([(True, es.relationships[i]) for i in p]) for p in want if p]
            bs = [RelationshipPath([(False, es.relationships[i]) for i in p[::-1]]) for p in want if p]
            for group in (ps, bs):
                rec.event("names", len(group))
                rec.check(len({p.name for p in group}) == len(group), "path-names", lambda: "%s: names %s for %s" % (rels, [p.name for p in group], want))
                for p in group:
                    ents = list(p.entities())
                    ends = (a, b) if group is ps else (b, a)
                    rec.check((ents[0], ents[-1]) == ends and len(ents) == len(p) + 1, "path-entities", lambda: "%s: %s" % (p, ents))
            allf += [(b, tuple(p)) for p in want if p]
        if not cyclic:
            got = sorted((e, tuple(idx(r) for d, r in p)) for e, p in es.get_forward_entities(a, deep=True))
            rec.check(got == sorted(allf), "deep-forward", lambda: "%s: %s wanted %s; %s" % (a, got, sorted(allf), rels))
            want = sorted((b, p[::-1]) for b in names for p in enum(rels, b, a) if p)
            got = sorted((e, tuple(idx(r) for d, r in p)) for e, p in es.get_backward_entities(a, deep=True))
            rec.check(got == want, "deep-backward", lambda: "%s: %s wanted %s; %s" % (a, got, want, rels))
