"""C20: equality of EntitySets: equal exactly when they hold the same."""
import copy
import pickle
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from featuretools.entityset.relationship import RelationshipPath
from .. import gen, snap
from ..common import exc_key

CASES = {"quick": 220, "thorough": 3000}
RULE = ("pairs of EntitySets: built twice from one world (rows, columns, entities and relationships in other orders), copies, pickles, "
        "round trips through pickle files, Dask twins, and pairs differing in one thing (a cell, a missing value, a row, a column, a variable type, "
        "time index, secondary time index, last time index, interesting values, entity, relationship); monitors: ==, != and deep equality in "
        "both directions equal to 'the same content', no exception for any other object, operands unchanged; also relationships, paths, "
        "variables: equality, symmetry and hashes; distinct = (kind of difference, dtype)")
NEED = {"same": 250, "different_deep": 600, "different_shallow": 250, "cell": 150, "missing": 60, "row": 60, "last_time": 60, "interesting": 60,
        "type": 60, "foreign": 300, "dask": 20, "paths": 1000, "disk": 30}

CHANGES = ["cell", "cell", "missing", "row", "last_time", "interesting", "type", "drop_variable", "relationship", "entity", "secondary", "time_index"]


def build(w, rng, shuffle, dask=False):
    es = gen.build_es(w, rng=rng, shuffle=shuffle and not dask, make_dask=dask)
    if not dask:
        for name, var, vals in w.interesting:
            es[name][var].interesting_values = list(vals)
    return es


def other_value(rng, v):
    if isinstance(v, (bool, np.bool_)):
        return not v
    if isinstance(v, str):
        return v + rng.choice(["x", " ", "X"])
    if isinstance(v, pd.Timestamp):
        return v + pd.Timedelta(seconds=1)
    if isinstance(v, tuple):
        return (v[0], v[1] + 0.5)
    return v + 1


def change(rng, rec, w, es, kind):
    """change one thing; (what, shows in shallow comparison) or None"""
    name = rng.choice(list(es.entity_dict))
    e = es[name]
    t = w.tables[name]
    plain = [c for c, k in t.kinds.items() if k not in ("index", "fk", "time", "sec")]
    if kind in ("cell", "missing"):
        cands = [(i, c) for c in plain for i in range(len(e.df)) if np.all(pd.notnull(e.df[c].iloc[i]))]
        if kind == "missing":
            cands = [(i, c) for i, c in cands if t.kinds[c] in ("num", "cat", "dt", "text")]
        if not cands:
            return None
        i, c = rng.choice(cands)
        df = e.df.copy()
        values = df[c].tolist()
        dtype = df[c].dtype
        if kind == "missing":
            values[i] = None if dtype == object else (pd.NaT if dtype.kind == "M" else np.nan)
        else:
            values[i] = other_value(rng, values[i])
        if str(dtype) == "category":
            df[c] = pd.Series(pd.Categorical(values), index=df.index)
        else:
            df[c] = pd.Series(values, index=df.index, dtype=dtype)
        e.df = df
        return "%s %s %s" % (kind, dtype, t.kinds[c]), False
    if kind == "row":
        if len(e.df) < 2:
            return None
        i = rng.randrange(len(e.df))
        e.df = e.df.drop(e.df.index[i])
        return "row", False
    if kind == "last_time":
        lti = e.last_time_index
        if lti is None:
            return None
        how = rng.random()
        if how < 0.25 or not len(lti):
            e.last_time_index = None
            return "lti none", False
        i = rng.randrange(len(lti))
        lti = lti.copy()
        if pd.isnull(lti.iloc[i]):
            return None
        if how < 0.5:
            lti.iloc[i] = pd.NaT if w.time_kind == "datetime" else np.nan
        else:
            lti.iloc[i] = lti.iloc[i] + (gen.HOUR if w.time_kind == "datetime" else 1)
        e.last_time_index = lti
        return "lti value", False
    if kind == "interesting":
        c = rng.choice([c for c, k in t.kinds.items() if k in ("cat", "int", "ord", "bool", "text", "zip")] or [None])
        if c is None:
            return None
        v = e[c]
        cur = list(v.interesting_values)
        if cur and rng.random() < 0.5:
            v.interesting_values = cur[:-1]
        else:
            extra = {"int": 99, "ord": 99, "bool": (not cur[0]) if cur else True}.get(t.kinds[c], "other")
            if any(type(x) == type(extra) and x == extra for x in cur):
                return None
            v.interesting_values = cur + [extra]
        return "interesting", False
    if kind == "type":
        c = rng.choice([c for c in plain if t.kinds[c] in ("cat", "num", "int", "ord", "zip")] or [None])
        if c is None:
            return None
        old = type(e[c])
        new = rng.choice([x for x in (vt.Categorical, vt.Ordinal, vt.Unknown, vt.Discrete, vt.ZIPCode, vt.CountryCode, vt.Text, vt.Variable)
                          if x is not old])
        i = [k for k, v in enumerate(e.variables) if v.id == c][0]
        v = new(c, e)
        v.interesting_values = e.variables[i].interesting_values
        e.variables[i] = v
        return "type %s %s" % (old.__name__, new.__name__), True
    if kind == "drop_variable":
        if not plain:
            return None
        used = [c for vs in (e.secondary_time_index or {}).values() for c in vs]
        plain = [c for c in plain if c not in used]
        if not plain:
            return None
        e.delete_variables([rng.choice(plain)])
        return "variable", True
    if kind == "relationship":
        if not es.relationships:
            return None
        i = rng.randrange(len(es.relationships))
        if rng.random() < 0.5:
            del es.relationships[i]
            return "relationship", True
        r = es.relationships[i]
        others = [v for v in r.child_entity.variables if v.id not in (r.child_variable.id, r.child_entity.index, r.child_entity.time_index)]
        others = [v for v in others if not any(x.child_entity.id == r.child_entity.id and x.child_variable.id == v.id for x in es.relationships)]
        if not others:
            return None
        es.relationships[i] = ft.Relationship(r.parent_variable, rng.choice(others))
        return "relationship other variable", True
    if kind == "entity":
        if rng.random() < 0.5:
            es.entity_from_dataframe("one more", pd.DataFrame({"id": [1]}), index="id")
        else:
            del es.entity_dict[name]
            es.relationships = [r for r in es.relationships if name not in (r._parent_entity_id, r._child_entity_id)]
        return "entity", True
    if kind == "secondary":
        if not e.secondary_time_index:
            return None
        old = {k: list(v) for k, v in e.secondary_time_index.items()}
        k = rng.choice(list(old))
        how = rng.choice(["none", "column", "key"])
        guarded = [c for c in old[k] if c != k]
        if how == "column" and guarded:
            old[k].remove(rng.choice(guarded))
        elif how == "key" and len(guarded) > 1:
            old[guarded[0]] = old.pop(k)
        else:
            how, old = "none", {}
        e.secondary_time_index = old
        return "secondary " + how, True
    if kind == "time_index":
        if e.time_index is None:
            return None
        e.time_index = None
        return "time index", True


def compare(rec, what, a, b, shallow, deep):
    for x, y in ((a, b), (b, a)):
        try:
            got = (x == y, x != y, x.__eq__(y, deep=True), x.__ne__(y, deep=True))
        except Exception as e:
            rec.violation("raised", "comparison of EntitySets (%s) raised %s" % (what, exc_key(e)))
            return
        want = (shallow, not shallow, deep, not deep)
        if tuple(bool(g) for g in got) != want:
            rec.violation("equality", "EntitySets (%s): ==, !=, deep ==, deep != are %r instead of %r" % (what, got, want))
            return


def paths(rec, es, es2):
    rels, rels2 = list(es.relationships), list(es2.relationships)
    all_paths = [RelationshipPath([])]
    for r in rels:
        all_paths += [RelationshipPath([(True, r)]), RelationshipPath([(False, r)])]
    for r in rels:
        for s in rels:
            all_paths.append(RelationshipPath([(True, r), (False, s)]))
    spec = [tuple((d, r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id) for d, r in p) for p in all_paths]
    for i, p in enumerate(all_paths[:12]):
        for j, q in enumerate(all_paths[:12]):
            rec.event("paths")
            if (p == q) != (spec[i] == spec[j]) or (p != q) == (spec[i] == spec[j]):
                rec.violation("paths", "RelationshipPath equality of %r and %r is %r" % (spec[i], spec[j], p == q))
    key = lambda r: (r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id)
    for r in rels:
        for s in rels2:
            same = key(r) == key(s)
            if (r == s) != same or (s == r) != same or (same and hash(r) != hash(s)):
                rec.violation("relationships", "Relationship equality of %r and %r is %r / hashes" % (key(r), key(s), r == s))
    for e in es.entities:
        for e2 in es2.entities:
            for v in e.variables:
                for u in e2.variables:
                    same = type(v) is type(u) and v.id == u.id and e.id == e2.id
                    if (v == u) != same or (same and hash(v) != hash(u)):
                        rec.violation("variables", "Variable equality of %r (%s) and %r (%s) is %r" % (v, e.id, u, e2.id, v == u))


def case(rng, rec, tier):
    w = gen.gen_world(rng, secondary=0.5, kinds=("num", "int", "bool", "cat", "ord", "dt", "text", "latlong", "zip"))
    w.interesting = []
    for name, t in w.tables.items():
        for c, k in t.kinds.items():
            if k in ("cat", "int", "bool") and rng.random() < 0.5:
                vals = sorted({r[c] for r in t.rows if r[c] is not None})[:3]
                if vals:
                    w.interesting.append((name, c, vals))
    dask = rng.random() < 0.12
    a = build(w, rng, False, dask)
    s0 = snap.es_state(a) if not dask else None
    rec.nontrivial(("same", dask, w.time_kind))
    # a pandas frame without time index keeps the order of its rows, so only columns and entities move
    b = build(w, rng, True, dask)
    rec.event("same")
    if dask:
        rec.event("dask")
    compare(rec, "built twice%s" % (" (Dask)" if dask else ""), a, b, True, True)
    compare(rec, "itself", a, a, True, True)
    if not dask:
        for how, c in (("pickled", pickle.loads(pickle.dumps(a))), ("copied", copy.deepcopy(a))):
            rec.event("same")
            compare(rec, how, a, c, True, True)
        meta = a.metadata
        if not (meta == a and a == meta):
            rec.violation("metadata", "the metadata of an EntitySet is not equal to it (shallow)")
        if rng.random() < 0.3:
            d = tempfile.mkdtemp(prefix="ftv_c20_")
            try:
                a.to_pickle(os.path.join(d, "es"))
                c = ft.read_entityset(os.path.join(d, "es"))
            finally:
                shutil.rmtree(d)
            rec.event("disk")
            compare(rec, "written and read", a, c, True, True)
    paths(rec, a, b)
    for x in (None, 5, "es", [], {}, object(), pd.DataFrame({"a": [1]}), np.nan, a.entities[0], a.entities[0].variables[0]):
        if isinstance(x, pd.DataFrame):
            continue
        rec.event("foreign")
        for l, r in ((a, x), (a.entities[0], x)):
            if l is r:
                continue
            try:
                eq, ne = l == r, l != r
            except Exception as e:
                rec.violation("foreign", "comparison of %s with %s raised %s" % (type(l).__name__, type(x).__name__, exc_key(e)))
                continue
            if eq or not ne:
                rec.violation("foreign-equal", "%s equals %r" % (type(l).__name__, x))
    if dask:
        # one cell of a Dask entity
        name = rng.choice(list(w.tables))
        t = w.tables[name]
        cols = [c for c, k in t.kinds.items() if k in ("num", "int")]
        if cols and t.rows:
            w2 = copy.deepcopy(w)
            row = rng.choice(w2.tables[name].rows)
            c = rng.choice(cols)
            row[c] = 77 if row[c] is None else row[c] + 1
            d = build(w2, rng, False, True)
            rec.event("different_deep")
            compare(rec, "Dask, cell", a, d, True, False)
        return
    for kind in rng.sample(CHANGES, 7):
        c = build(w, rng, rng.random() < 0.5)
        out = change(rng, rec, w, c, kind)
        if out is None:
            continue
        what, shows = out
        rec.event("different_shallow" if shows else "different_deep")
        rec.event(kind)
        rec.nontrivial(what)
        compare(rec, what, a, c, not shows, False)
    d = snap.diff_state(s0, snap.es_state(a))
    if d:
        rec.violation("changed", "comparison changed the EntitySet: %s" % d)
