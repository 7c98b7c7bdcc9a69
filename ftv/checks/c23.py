"""C23: loading a dataframe keeps its data and types each column by itself."""
import datetime
import math
import warnings

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from .. import gen, snap
from ..common import exc_key, same

CASES = {"quick": 1500, "thorough": 20000}
RULE = ("random dataframes (every numpy dtype, category, objects of text, long text, dates, date texts, digits, booleans, tuples, missing and "
        "all missing, no or one row, any labels) loaded with random index (given, first, created), time index (dates, texts, numbers), "
        "secondary time index, already sorted or not, variable types as class, name or with arguments; the same columns in other "
        "order and company; one after another, by the constructor, by dfs(entities=...); and rejected requests; monitors: type, "
        "every value, order of rows and columns, created index, caller's dataframe, state after an error; distinct = (column kind, request)")
NEED = {"loads": 400, "cells": 20000, "columns": 2500, "inferred": 1500, "given": 500, "converted": 250, "date_texts": 80, "long_text": 80,
        "created": 50, "first_column": 30, "sorted": 100, "already_sorted": 30, "secondary": 40, "empty": 20, "all_missing": 40, "company": 150,
        "rejected": 150, "by_constructor": 40, "by_dfs": 20, "names": 150, "unknown_name": 10}

WORDS = ["alpha", "beta", "gamma delta", "x, y", "ünï", "", "Alpha"]


# each kind: (make n values, inferred type when there are rows / when there are none)
def col(rng, kind, n):
    """(series, kind of values)"""
    miss = rng.choice([0, 0, 0.3])
    none = rng.choice([None, np.nan])

    def fill(make):
        return [none if rng.random() < miss else make() for _ in range(n)]
    if kind == "int":
        return pd.Series([rng.randint(-9, 9) for _ in range(n)], dtype=rng.choice(["int64", "int32", "int16", "int8", "uint8"]) if n == 0 or rng.random() < 0
                         else rng.choice(["int64", "int64", "int32", "int16", "int8"]))
    if kind == "uint":
        return pd.Series([rng.randint(0, 200) for _ in range(n)], dtype=rng.choice(["uint8", "uint32", "uint64"]))
    if kind == "float":
        return pd.Series([np.nan if rng.random() < miss else rng.choice([0.5, -2.0, 1e12, rng.random()]) for _ in range(n)], dtype=rng.choice(["float64", "float64", "float32"]))
    if kind == "floatnan":
        return pd.Series([np.nan] * n, dtype="float64")
    if kind == "bool":
        return pd.Series([rng.random() < 0.5 for _ in range(n)], dtype=bool)
    if kind == "cat":
        vals = [rng.choice(WORDS[:4]) for _ in range(n)] if rng.random() < 0.7 else [rng.randint(1, 3) for _ in range(n)]
        return pd.Series(pd.Categorical([None if rng.random() < miss else v for v in vals]))
    if kind == "dt":
        return pd.Series([pd.NaT if rng.random() < miss else pd.Timestamp("2020-01-01") + pd.Timedelta(minutes=rng.randint(0, 99999)) for _ in range(n)],
                         dtype="datetime64[ns]")
    if kind == "tz":
        return pd.Series([pd.NaT if rng.random() < miss else pd.Timestamp("2020-01-01", tz="UTC") + pd.Timedelta(minutes=rng.randint(0, 99999)) for _ in range(n)],
                         dtype="datetime64[ns, UTC]")
    if kind == "td":
        return pd.Series([pd.NaT if rng.random() < miss else pd.Timedelta(minutes=rng.randint(0, 99999)) for _ in range(n)], dtype="timedelta64[ns]")
    if kind == "word":
        return pd.Series(fill(lambda: rng.choice(WORDS)), dtype=object)
    if kind == "long":
        return pd.Series(fill(lambda: " ".join(rng.choice(WORDS[:4]) for _ in range(rng.randint(20, 30)))), dtype=object)
    if kind == "edge":        # exactly 50 characters on average is not yet long
        return pd.Series(["a" * 50] * n, dtype=object)
    if kind == "edge2":
        return pd.Series(["a" * 50] * (n - 1) + ["b" * 51] * min(n, 1), dtype=object)
    if kind == "repeats":     # a few texts, some of them often
        pool = [rng.choice("abc") * rng.randint(1, 49) for _ in range(rng.randint(1, 3))] + [rng.choice("xyz") * rng.randint(51, 150) for _ in range(rng.randint(1, 2))]
        weights = [rng.choice([1, 1, 8]) for _ in pool]
        return pd.Series(fill(lambda: rng.choices(pool, weights)[0]), dtype=object)
    if kind == "digits":
        return pd.Series(fill(lambda: str(rng.randint(1, 99999)).zfill(5)), dtype=object)
    if kind == "datetext":
        return pd.Series(fill(lambda: "20%02d-%02d-%02d" % (rng.randint(10, 29), rng.randint(1, 12), rng.randint(1, 28)) + rng.choice([""])), dtype=object)
    if kind == "dates":
        return pd.Series(fill(lambda: datetime.date(2020, rng.randint(1, 12), rng.randint(1, 28))), dtype=object)
    if kind == "nat word":
        return pd.Series([pd.NaT] * min(n, 1) + [rng.choice(WORDS[:3]) for _ in range(n - 1)], dtype=object)
    if kind == "stamps":
        vals = [pd.Timestamp("2021-03-01") + pd.Timedelta(hours=rng.randint(0, 999)) for _ in range(n)]
        return pd.Series(vals, dtype=object)
    if kind == "mixedtext":       # one that is not a date
        v = ["2020-01-%02d" % rng.randint(1, 28) for _ in range(n)]
        if n:
            v[rng.randrange(n)] = "alpha"
        return pd.Series(v, dtype=object)
    if kind == "objbool":
        return pd.Series(fill(lambda: rng.random() < 0.5), dtype=object)
    if kind == "objnum":
        return pd.Series(fill(lambda: rng.choice([1, 2.5, -7])), dtype=object)
    if kind == "tuple":
        return pd.Series([(rng.random() * 80, rng.random() * 80) for _ in range(n)] or [], dtype=object)
    if kind == "missing":
        return pd.Series([none] * n, dtype=object)
    if kind == "mess":
        return pd.Series(fill(lambda: rng.choice(["alpha", 3, 2.5, True])), dtype=object)
    raise ValueError(kind)


KINDS = ["int", "int", "uint", "float", "floatnan", "bool", "cat", "dt", "word", "word", "long", "edge", "edge2", "repeats", "repeats", "digits", "datetext", "datetext", "dates", "stamps",
         "mixedtext", "objbool", "objnum", "tuple", "missing", "mess", "tz", "td", "nat word"]


def inferred(kind, s):
    if kind in ("int", "uint", "float", "floatnan"):
        return vt.Numeric
    if kind == "bool":
        return vt.Boolean
    if kind == "cat":
        return vt.Categorical
    if kind in ("dt", "tz"):
        return vt.Datetime
    if kind == "td":         # left open, but must not depend on other columns
        return None
    if kind == "nat word" and len(s) == 1:      # nothing but NaT
        return vt.Datetime
    if not len(s) or s.isnull().all():
        return vt.Categorical
    if kind in ("datetext", "dates", "stamps"):
        return vt.Datetime
    if kind == "repeats":
        lens = [len(v) for v in s if isinstance(v, str)]
        return vt.NaturalLanguage if sum(lens) > 50 * len(lens) else vt.Categorical
    if kind in ("long", "edge2"):
        return vt.NaturalLanguage
    return vt.Categorical


def as_number(v):
    if v is None or isinstance(v, (tuple, datetime.date)):
        return np.nan
    try:
        return float(v)
    except (TypeError, ValueError):
        return np.nan


def expected(kind, s, typ, fmt=None):
    """values after loading as typ"""
    vals = s.tolist()
    if typ is vt.Numeric and s.dtype == object and len(s):
        return [as_number(v) for v in vals]
    if typ is vt.Numeric and str(s.dtype).startswith("timedelta"):
        return [np.nan if v is pd.NaT else v.value for v in vals]
    if issubclass(typ, vt.Datetime) and not str(s.dtype).startswith("datetime64") and len(s):
        return [pd.NaT if v is None or (isinstance(v, float) and math.isnan(v)) else pd.Timestamp(datetime.datetime.strptime(v, fmt) if fmt else v) for v in vals]
    if issubclass(typ, vt.LatLong):
        return [(np.nan, np.nan) if v is None or (isinstance(v, float) and math.isnan(v)) else v for v in vals]
    return vals


def given(rng, kind, s):
    """(what to pass, class it stands for, format) fit for the column, or None"""
    pool = {"int": [vt.Categorical, vt.Ordinal, vt.Numeric, vt.Id, vt.Unknown, vt.Discrete, vt.ZIPCode],
            "float": [vt.Numeric, vt.Categorical, vt.Unknown], "bool": [vt.Boolean, vt.Categorical, vt.Unknown],
            "cat": [vt.Categorical, vt.Ordinal, vt.Id, vt.CountryCode], "dt": [vt.Datetime, vt.DateOfBirth, vt.Unknown],
            "word": [vt.Categorical, vt.NaturalLanguage, vt.FullName, vt.EmailAddress, vt.URL, vt.Unknown, vt.SubRegionCode, vt.IPAddress, vt.FilePath],
            "long": [vt.Categorical, vt.NaturalLanguage], "repeats": [vt.Categorical, vt.NaturalLanguage], "digits": [vt.Numeric, vt.Numeric, vt.ZIPCode, vt.PhoneNumber, vt.Categorical],
            "tz": [vt.Datetime], "datetext": [vt.Datetime, vt.Categorical, vt.DateOfBirth, vt.NaturalLanguage], "dates": [vt.Datetime, vt.DateOfBirth],
            "stamps": [vt.Datetime], "objnum": [vt.Numeric, vt.Categorical], "mess": [vt.Categorical, vt.Unknown],
            "tuple": [vt.LatLong, vt.Unknown], "objbool": [vt.Categorical, vt.Unknown], "missing": [vt.Categorical, vt.Unknown, vt.Numeric],
            "mixedtext": [vt.Categorical, vt.NaturalLanguage], "uint": [vt.Numeric, vt.Ordinal]}.get(kind)
    if not pool:
        return None
    t = rng.choice(pool)
    how = rng.random()
    if how < 0.35:
        return t.type_string, t, None
    if how < 0.5 and t in (vt.Numeric, vt.Categorical, vt.Datetime, vt.Unknown, vt.Ordinal):
        if t is vt.Datetime and kind == "datetext":
            return (t, {"format": "%Y-%m-%d"}), t, "%Y-%m-%d"
        return (t, {"name": "called so"}), t, None
    if how < 0.55 and kind in ("word", "int"):
        return "no such type", vt.Unknown, None
    return t, t, None


def equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    na = a is None or (not isinstance(a, (tuple, str)) and bool(pd.isnull(a)))
    nb = b is None or (not isinstance(b, (tuple, str)) and bool(pd.isnull(b)))
    if na or nb:
        return na and nb
    if isinstance(a, datetime.date) and not isinstance(a, datetime.datetime):
        a = pd.Timestamp(a) if isinstance(b, datetime.datetime) else a
    return a == b and isinstance(a, str) == isinstance(b, str)


def table(rng, rec):
    """a dataframe and what is asked of it"""
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 30]) if rng.random() < 0.7 else rng.randint(2, 12)
    cols = {}
    names = ["a", "b b", "c,d", "Ω", "time", "value", "x", "y", "z"]
    rng.shuffle(names)
    kinds = {}
    for name in names[:rng.randint(1, 7)]:
        k = rng.choice(KINDS)
        kinds[name], cols[name] = k, col(rng, k, n)
    req = {}
    # time index
    tname = None
    if rng.random() < 0.6:
        tname = "when"
        k = rng.choice(["dt", "dt", "datetext", "int", "float", "stamps", "dates"])
        if k == "dt":
            s = pd.Series([pd.Timestamp("2020-01-01") + pd.Timedelta(minutes=rng.choice([0, 0, 5, 7, rng.randint(0, 999)])) for _ in range(n)], dtype="datetime64[ns]")
        elif k == "int":
            s = pd.Series([rng.randint(-5, 5) for _ in range(n)], dtype="int64")
        elif k == "float":
            s = pd.Series([rng.choice([0.5, 1.5, -3.25, 1e9]) for _ in range(n)], dtype="float64")
        elif k == "datetext":
            s = pd.Series(["2020-%02d-%02d" % (rng.randint(1, 12), rng.randint(1, 28)) for _ in range(n)], dtype=object)
        elif k == "dates":
            s = pd.Series([datetime.date(2020, rng.randint(1, 3), rng.randint(1, 28)) for _ in range(n)], dtype=object)
        else:
            s = pd.Series([pd.Timestamp("2021-03-01") + pd.Timedelta(hours=rng.randint(0, 99)) for _ in range(n)], dtype=object)
        if n == 0 and k in ("datetext", "stamps", "dates"):
            k, s = "dt", pd.Series([], dtype="datetime64[ns]")
        kinds[tname], cols[tname] = k, s
    # index
    how = rng.choice(["given", "given", "given", "first", "make", "absent"])
    ik = rng.choice(["int", "word", "neg"])
    ids = rng.sample(range(-50, 200), n) if ik != "word" else rng.sample(["k%d" % i for i in range(100)], n)
    if how in ("given", "first"):
        cols["the id"] = pd.Series(ids, dtype=object if ik == "word" else "int64")
        kinds["the id"] = "index"
    order = list(cols)
    rng.shuffle(order)
    if how == "first":
        order.remove("the id")
        order.insert(0, "the id")
    df = pd.DataFrame({c: cols[c] for c in order}, columns=order)
    labels = rng.random()
    if labels < 0.3 and n:
        df.index = rng.sample(range(1000), n)
    elif labels < 0.4 and n:
        df.index = ["l"] * n
    return df, kinds, how, tname


def case(rng, rec, tier):
    if rng.random() < 0.2:
        return together(rng, rec)
    if rng.random() < 0.35:
        return rejected(rng, rec)
    df, kinds, how, tname = table(rng, rec)
    n = len(df)
    kw, types, fmts = {}, {}, {}
    index = {"given": "the id", "first": None, "make": "made id", "absent": "absent id"}[how]
    asked = {}
    for c, k in kinds.items():
        if c in ("the id", tname) or rng.random() > 0.35:
            continue
        g = given(rng, k, df[c])
        if g is None:
            continue
        what, typ, fmt = g
        if typ is vt.Numeric and df[c].dtype == object and n and all(math.isnan(as_number(v)) for v in df[c]) and df[c].notnull().any():
            continue                      # nothing in it is a number: rejected
        asked[c], types[c], fmts[c] = what, typ, fmt
    sec = None
    if tname is not None and n and rng.random() < 0.35:
        dates = kinds[tname] not in ("int", "float")
        if rng.random() < 0.7:
            k = rng.choice(["dt", "dt", "stamps", "datetext"]) if dates else rng.choice(["int", "float"])
            kinds["later"], df["later"] = k, col(rng, k, n).values
        cand = [c for c, k in kinds.items() if c not in asked and c not in ("the id", tname) and k in (("dt", "stamps", "datetext") if dates else ("int", "float"))]
        if cand:
            s = rng.choice(cand)
            if pd.notnull(df[s].iloc[0]):
                cov = [c for c in kinds if c not in ("the id", tname, s) and rng.random() < 0.3]
                sec = {s: cov}
    already = tname is not None and rng.random() < 0.3
    es = ft.EntitySet("es")
    before = df.copy()
    args = dict(entity_id="e", dataframe=df, index=index, time_index=tname, variable_types=dict(asked) or None, already_sorted=already,
                make_index=how == "make" or None if rng.random() < 0.5 else how == "make", secondary_time_index={k: list(v) for k, v in sec.items()} if sec else None)
    info = lambda: "kinds=%r dtypes=%r index=%s time=%r types=%r secondary=%r sorted=%r df=%r" % (  # noqa
        kinds, df.dtypes.astype(str).to_dict(), how, tname, asked, sec, already, before.to_dict("list"))
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        es.entity_from_dataframe(**args)
    texts = [str(x.message) for x in caught]
    rec.event("loads")
    if n == 0:
        rec.event("empty")
    rec.check(any("first column" in t for t in texts) == (how == "first"), "warning-first", lambda: "%r %s" % (texts, info()))
    rec.check(any("creating new integer column" in t for t in texts) == (how == "absent"), "warning-created", lambda: "%r %s" % (texts, info()))
    unknown = [c for c, x in asked.items() if x == "no such type"]
    rec.check(sum("unrecognized" in t for t in texts) == len(unknown), "warning-unknown", lambda: "%r %s" % (texts, info()))
    if unknown:
        rec.event("unknown_name")
    rec.check(list(df.columns) == list(before.columns) and df.index.equals(before.index) and all(
        df[c].dtype == before[c].dtype and all(equal(a, b) for a, b in zip(df[c], before[c])) for c in df), "caller", lambda: "the dataframe handed over was changed: %s" % info())
    e = es["e"]
    idn = index or "the id"
    verify(rec, es, e, before, kinds, idn, how, tname, types, fmts, sec, already, info, asked)
    if rec.violations:
        return
    # the same columns in other company
    if rng.random() < 0.6 and how != "first":
        keep = [c for c in before.columns if c in ("the id", tname) or (sec and c in [*sec, *sum(sec.values(), [])]) or rng.random() < 0.6]
        rng.shuffle(keep)
        rec.event("company")
        es2 = ft.EntitySet("es")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            es2.entity_from_dataframe(**dict(args, dataframe=before[keep].copy(), variable_types={c: v for c, v in asked.items() if c in keep} or None))
        e2 = es2["e"]
        for v in e2.variables:
            rec.check(type(v) is type(e[v.id]), "company-type", lambda: "%r is %s alone with %r and %s with all: %s" % (v.id, type(v).__name__, keep, type(e[v.id]).__name__, info()))
            rec.check(e2.df[v.id].dtype == e.df[v.id].dtype and all(equal(a, b) for a, b in zip(e2.df[v.id], e.df[v.id])), "company-values",
                      lambda: "%r differs beside other columns: %s" % (v.id, info()))


def verify(rec, es, e, df, kinds, idn, how, tname, types, fmts, sec, already, info, asked):
    n = len(df)
    data = {c: df[c].tolist() for c in df}
    created = how in ("make", "absent")
    if created:
        data[idn] = list(range(n))
        rec.event("created")
    elif how == "first":
        rec.event("first_column")
    rec.check(e.index == idn and e.time_index == tname and e.created_index == (idn if created else None), "index", lambda: "%r %r %r %s" % (e.index, e.time_index, e.created_index, info()))
    rec.check(list(e.df.columns) == [v.id for v in e.variables] and e.variables[0].id == idn and set(e.df.columns) == set(data), "columns",
              lambda: "%r %r %s" % (list(e.df.columns), e.variables, info()))
    if rec.violations:
        return
    want = {}
    for c in data:
        if c == idn:
            want[c] = (vt.Index, data[c])
            continue
        k, s = kinds[c], df[c]
        if c == tname:
            t = vt.NumericTimeIndex if k in ("int", "float") else vt.DatetimeTimeIndex
            want[c] = (t, expected(k, s, vt.Datetime if t is vt.DatetimeTimeIndex else vt.Numeric))
            continue
        t = types.get(c)
        if t is None:
            t = inferred(k, s)
            rec.event("inferred")
            if t is None:
                t = type(e[c])
                rec.check(t in ((vt.Numeric, vt.Categorical) if n else (vt.Unknown,)), "type", lambda: "%r is %s: %s" % (c, t.__name__, info()))
        else:
            rec.event("given")
        want[c] = (t, expected(k, s, t, fmts.get(c)))
        rec.event("columns")
        rec.nontrivial((k, t.__name__, c in types, str(s.dtype)))
        if s.dtype == object and (t is vt.Numeric or issubclass(t, vt.Datetime)):
            rec.event("converted")
        if k == "datetext":
            rec.event("date_texts")
        if k in ("long", "edge", "edge2", "repeats"):
            rec.event("long_text")
        if n and s.isnull().all():
            rec.event("all_missing")
    for c, x in asked.items():
        name = "called so" if isinstance(x, tuple) and "name" in x[1] else c
        rec.event("names")
        rec.check(e[c].name == name, "name", lambda: "%r is named %r: %s" % (c, e[c].name, info()))
    order = list(range(n))
    if tname is not None:
        if already:
            rec.event("already_sorted")
        else:
            rec.event("sorted")
            order.sort(key=lambda i: (want[tname][1][i], data[idn][i]))
    for c, (t, vals) in want.items():
        rec.check(type(e[c]) is t, "type", lambda: "%r is %s instead of %s: %s" % (c, type(e[c]).__name__, t.__name__, info()))
        got = e.df[c].tolist()
        rec.event("cells", n)
        if len(got) != n or not all(equal(vals[i], g) for i, g in zip(order, got)):
            rec.violation("values", "%r holds %r instead of %r: %s" % (c, got, [vals[i] for i in order], info()))
            return
    rec.check(e.df.index.tolist() == e.df[idn].tolist(), "labels", lambda: "rows are labelled %r: %s" % (e.df.index.tolist(), info()))
    wsec = {s: list(cov) + [s] for s, cov in (sec or {}).items()}
    rec.check({k: sorted(v) for k, v in e.secondary_time_index.items()} == {k: sorted(v) for k, v in wsec.items()}, "secondary", lambda: "%r %s" % (e.secondary_time_index, info()))
    if sec:
        rec.event("secondary")
    tt = {vt.DatetimeTimeIndex: vt.DatetimeTimeIndex, vt.NumericTimeIndex: vt.NumericTimeIndex}.get(want[tname][0]) if tname else None
    rec.check(es.time_type is tt, "time-type", lambda: "%r instead of %r: %s" % (es.time_type, tt, info()))


def together(rng, rec):
    """one after another, through the constructor, through dfs and calculate_feature_matrix"""
    w = gen.gen_world(rng, n_tables=rng.choice([1, 2, 3]), kinds=("num", "int", "bool", "cat", "dt", "text"), empty_tables=0, secondary=0)
    ents, rels = {}, []
    es = ft.EntitySet("one by one")
    for n, t in w.tables.items():
        df = gen.frame(w, n, list(t.rows), t.cols())
        vts = gen.vtypes_for(w, n)
        es.entity_from_dataframe(n, df.copy(), index=t.index, time_index=t.time_index, variable_types=dict(vts))
        entry = [df, t.index, t.time_index, dict(vts), False]
        while len(entry) > 2 and (entry[-1] in (None, False) or (isinstance(entry[-1], dict) and not entry[-1])) and rng.random() < 0.7:
            entry.pop()
        ents[n] = tuple(entry) if rng.random() < 0.8 else list(entry)
    for p, c, k in w.rels:
        rels.append((p, w.tables[p].index, c, k))
        es.add_relationship(ft.Relationship(es[p][w.tables[p].index], es[c][k]))
    info = lambda: "entities=%r world=%s" % ({n: len(x) for n, x in ents.items()}, w.describe())  # noqa
    by = ft.EntitySet("by constructor", ents, rels or None)
    rec.event("by_constructor")
    rec.check(by.__eq__(es, deep=True) and {e.id: {v.id: type(v) for v in e.variables} for e in by.entities} == {e.id: {v.id: type(v) for v in e.variables} for e in es.entities}
              and by.time_type == es.time_type and by.id == "by constructor", "constructor", lambda: "EntitySet(entities) is not what is loaded one by one: %s" % info())
    if rec.violations:
        return
    target = rng.choice(list(w.tables))
    kw = dict(target_entity=target, agg_primitives=["sum", "count", "mode"], trans_primitives=["month", "is_null"], max_depth=2, max_features=30)
    if not w.tables[target].rows:
        return
    T = gen.pick_cutoffs(rng, w, 1)[0]
    if w.tables[target].time_index and rng.random() < 0.9:
        T = max(T, max(r[w.tables[target].time_index] for r in w.tables[target].rows))
    ckw = dict(cutoff_time=T)
    if rng.random() < 0.3:
        ckw["include_cutoff_time"] = False
    if rng.random() < 0.3:
        ckw["instance_ids"] = [rng.choice(w.tables[target].rows)[w.tables[target].index]]
    if rng.random() < 0.3:
        ckw["cutoff_time_in_index"] = True
    try:
        want_f = ft.dfs(entityset=es, features_only=True, **kw)
        want = ft.calculate_feature_matrix(want_f, es, **ckw)
    except AssertionError as ex:
        if "0 instance ids" in str(ex) or "No features" in str(ex):
            return
        raise
    got, got_f = ft.dfs(entities=ents, relationships=rels, **kw, **ckw)
    rec.event("by_dfs")
    names = [f.get_name() for f in want_f]
    rec.check([f.get_name() for f in got_f] == names, "dfs-definitions", lambda: "%r instead of %r: %s" % ([f.get_name() for f in got_f], names, info()))
    d = snap.diff_frame(want, got) if hasattr(snap, "diff_frame") else frame_diff(want, got)
    rec.check(d is None, "dfs-matrix", lambda: "dfs(entities=...) differs from its parts: %s %r %s" % (d, ckw, info()))
    direct = ft.calculate_feature_matrix(want_f, entities=ents, relationships=rels, **ckw)
    d = frame_diff(want, direct)
    rec.check(d is None, "cfm-matrix", lambda: "calculate_feature_matrix(entities=...) differs: %s %r %s" % (d, ckw, info()))


def frame_diff(a, b):
    if list(a.columns) != list(b.columns) or a.index.tolist() != b.index.tolist():
        return "shape %r %r" % (list(a.columns), list(b.columns))
    for c in range(a.shape[1]):
        for x, y in zip(a.iloc[:, c], b.iloc[:, c]):
            if not same(x, y):
                return "%r: %r %r" % (a.columns[c], x, y)
    return None


def rejected(rng, rec):
    """what cannot be loaded is refused and leaves no trace"""
    es = ft.EntitySet("es")
    if rng.random() < 0.7:
        es.entity_from_dataframe("other", pd.DataFrame({"id": [1, 2], "t": pd.to_datetime(["2020-01-01", "2020-01-02"])}), index="id", time_index="t")
    n = rng.randint(2, 6)
    df = pd.DataFrame({"id": range(n), "v": [rng.random() for _ in range(n)], "word": [rng.choice(WORDS[:3]) for _ in range(n)],
                       "t": [pd.Timestamp("2020-01-01") + pd.Timedelta(hours=rng.randint(0, 9)) for _ in range(n)]})
    cols = list(df.columns)
    rng.shuffle(cols)
    df = df[cols]
    kw = dict(entity_id="e", dataframe=df, index="id")
    has = "other" in es.entity_dict
    how = rng.choice(["dup", "make", "names", "twice", "notime", "same", "types", "text", "words time", "kind of time", "id"])
    if how == "dup":
        i, j = rng.sample(range(n), 2)
        df.loc[df.index[i], "id"] = df["id"].iloc[j]
        if rng.random() < 0.5:
            kw["time_index"] = "t"
    elif how == "make":
        kw["make_index"] = True
    elif how == "names":
        df = df.rename(columns={"v": rng.choice([3, 2.5, None, ("a", "b")])})
        kw["dataframe"] = df
    elif how == "twice":
        df = df.rename(columns={"v": "word"})
        kw["dataframe"] = df
    elif how == "notime":
        kw["time_index"] = "when"
    elif how == "same":
        kw["time_index"] = "id"
    elif how == "types":
        kw["variable_types"] = {"nothing of the kind": vt.Numeric}
    elif how == "text":
        df["word"] = [rng.choice(["alpha", "beta"]) for _ in range(n)]
        kw["variable_types"] = {"word": rng.choice([vt.Numeric, "numeric"])}
        if rng.random() < 0.5:
            kw["time_index"] = "t"
    elif how == "words time":
        df["word"] = [rng.choice(["alpha", "beta"]) for _ in range(n)]
        kw["time_index"] = "word"
    elif how == "kind of time":
        if not has:
            return
        kw["time_index"] = "v"
    elif how == "id":
        kw["entity_id"] = rng.choice([3, None, ("a",)])
    before, state, tt = df.copy(), sorted(es.entity_dict), es.time_type
    meta = None if not has else snap.es_state(es)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            es.entity_from_dataframe(**kw)
    except Exception as e:
        rec.event("rejected")
        rec.nontrivial(("rejected", how, type(e).__name__))
    else:
        rec.violation("accepted", "a dataframe which cannot be loaded (%s) was: %r" % (how, before.to_dict("list")))
        return
    rec.check(sorted(es.entity_dict) == state and es.time_type is tt, "trace", lambda: "after a refused load (%s): %r, time type %r instead of %r" % (how, list(es.entity_dict), es.time_type, tt))
    if has:
        rec.check(snap.diff_state(meta, snap.es_state(es)) is None, "trace", lambda: "after a refused load (%s) the EntitySet differs: %s" % (how, snap.diff_state(meta, snap.es_state(es))))
    rec.check(list(map(repr, df.columns)) == list(map(repr, before.columns)) and df.equals(before), "caller", lambda: "a refused dataframe (%s) was changed" % how)
