"""C13: an EntitySet written to disk reads back as the same EntitySet."""
import json
import os
import shutil
import subprocess
import sys
import tarfile
import tempfile

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt
from .. import gen, snap
from ..common import frame_diff, norm
from ..workload import cutoff_frame

CASES = {"quick": 260, "thorough": 4000}
RULE = ("random EntitySets with hostile columns (numbers, dates, booleans and missing-value markers as text, quotes, separators, newlines, "
        "unicode, narrow and nullable dtypes, categories, timedeltas, nanoseconds, infinities, objects of one kind), interesting values, "
        "descriptions, type arguments, secondary and last times, written as csv (separators, encodings, engines, compressions), parquet "
        "and pickle, read here, from a tar archive and in fresh processes, on pandas and dask; monitors: structure, every cell, dtype, "
        "row order, last time index, second round trip, the description alone, a matrix; distinct = EntitySets x format")
NEED = {"round_trips": 200, "cells": 20000, "csv": 60, "parquet": 60, "pickle": 30, "tar": 15, "fresh": 6, "dask": 6, "matrices": 80,
        "overwritten": 15, "hostile_columns": 300, "interesting_values": 150, "metadata": 150}

STRINGS = {
    "digits": ["007", "02116", "1e5", "-0", "1.50", " 12 ", "0x1f", "1_000", "12345678901234567890", "+3", ".5"],
    "missing": ["NA", "nan", "None", "null", "N/A", "NULL", "#N/A", "-", "n/a", "NaN", "<NA>"],
    "bools": ["True", "False", "true", "yes", "T"],
    "dates": ["2020-01-01", "12/31/1999", "2020-01-01T00:00:00Z", "10:30", "now", "Jan"],
    "odd": ['a"b', "a,b", "a;b", "a|b", "new\nline", "tab\there", "cr\rx", "crlf\r\nx", "é日本", "' '", " lead", "trail ", "\\", "\\n", '""', "=1+1",
            "#x", "a'b", "x\u2028y", "\u200b", "😀"],
    "empty": ["", "a", "b"],
    "json": ['{"a": 1}', "[1, 2]", "(1.0, 2.0)", "1,2"],
}


def hostile(rng, n):
    """(name, series, variable type): a column of a kind which is easily changed on the way to disk and back"""
    k = rng.choice(list(STRINGS) * 2 + ["boolnull", "int8", "float32", "Int64", "string", "cat", "catint", "catord", "td", "ns", "nat", "inf", "bigint",
                                        "allnull", "objint", "objfloat", "uint", "boolean", "digitcat", "tdnull", "onechar"])
    hole = rng.choice([0, 0, 0.2])

    def holes(vals, missing=None):
        return [missing if rng.random() < hole else v for v in vals]
    if k in STRINGS:
        v = pd.Series(holes([rng.choice(STRINGS[k]) for _ in range(n)], rng.choice([None, np.nan])), dtype=object)
        return k, v, rng.choice([vt.Categorical, vt.NaturalLanguage, vt.ZIPCode, vt.Id, vt.FullName, vt.URL, vt.IPAddress, vt.Unknown])
    if k == "boolnull":
        return k, pd.Series(holes([rng.random() < 0.5 for _ in range(n)]), dtype=object), vt.Boolean
    if k == "int8":
        return k, pd.Series([rng.randint(-128, 127) for _ in range(n)], dtype=rng.choice(["int16", "int32", "int8"])), vt.Ordinal
    if k == "uint":
        return k, pd.Series([rng.randint(0, 255) for _ in range(n)], dtype=rng.choice(["uint8", "uint64"])), vt.Ordinal
    if k == "float32":
        return k, pd.Series([rng.uniform(-9, 9) for _ in range(n)], dtype="float32"), vt.Numeric
    if k == "Int64":
        return k, pd.Series(holes([rng.randint(-9, 9) for _ in range(n)]), dtype="Int64"), vt.Ordinal
    if k == "string":
        return k, pd.Series(holes([rng.choice(STRINGS["digits"] + ["x", "y z"]) for _ in range(n)]), dtype="string"), vt.NaturalLanguage
    if k == "boolean":
        return k, pd.Series(holes([rng.random() < 0.5 for _ in range(n)]), dtype="boolean"), vt.Boolean
    if k in ("cat", "digitcat"):
        return k, pd.Series(holes([rng.choice(STRINGS["digits" if k == "digitcat" else "odd"][:4]) for _ in range(n)]), dtype="category"), rng.choice(
            [vt.Categorical, vt.Ordinal])
    if k == "catint":
        return k, pd.Series([rng.randint(1, 4) for _ in range(n)], dtype="category"), vt.Categorical
    if k == "catord":
        return k, pd.Series(pd.Categorical([rng.choice(["lo", "mid", "hi"]) for _ in range(n)], categories=["lo", "mid", "hi", "never"], ordered=True)), vt.Ordinal
    if k in ("td", "tdnull"):
        v = [pd.Timedelta(seconds=rng.randint(-10 ** 6, 10 ** 6), unit="s") for _ in range(n)]
        return k, pd.Series(pd.to_timedelta(holes(v, pd.NaT) if k == "tdnull" else v)), vt.Timedelta
    if k == "ns":
        return k, pd.Series(pd.to_datetime(holes([gen.T0 + pd.Timedelta(rng.randint(0, 10 ** 17), unit="ns") for _ in range(n)], pd.NaT))), rng.choice(
            [vt.Datetime, vt.DateOfBirth])
    if k == "nat":
        return k, pd.Series([pd.NaT] * n, dtype="datetime64[ns]"), vt.Datetime
    if k == "inf":
        return k, pd.Series([rng.choice([np.inf, -np.inf, 1e300, -1e-300, 0.1, 1 / 3, np.nan, 123456789.125]) for _ in range(n)]), vt.Numeric
    if k == "bigint":
        return k, pd.Series([rng.choice([2 ** 53 + 1, -2 ** 62, 2 ** 31, 31536001]) for _ in range(n)], dtype="int64"), rng.choice([vt.Ordinal, vt.Numeric])
    if k == "allnull":
        return k, pd.Series([rng.choice([None, np.nan])] * n, dtype=object), vt.Categorical
    if k == "objint":
        return k, pd.Series([rng.randint(-3, 3) for _ in range(n)], dtype=object), vt.Categorical
    if k == "objfloat":
        return k, pd.Series([rng.choice([1.5, 2.0, -0.25]) for _ in range(n)], dtype=object), vt.Categorical
    return k, pd.Series([rng.choice("abN-1") for _ in range(n)], dtype=object), vt.Categorical


ARGS = {vt.Boolean: lambda rng: {"true_values": ["yes", 1], "false_values": ["no"]}, vt.Datetime: lambda rng: {"format": rng.choice(["%Y-%m-%d", None])}}


def build(rng, rec, w, with_hostile=True):
    es = ft.EntitySet(rng.choice(["es", "", "a/b", "日本", None]))
    names = list(w.tables)
    rng.shuffle(names)
    for n in names:
        t = w.tables[n]
        df = gen.frame(w, n)
        vts = dict(gen.vtypes_for(w, n))
        if with_hostile and len(df):
            for i in range(rng.choice([0, 1, 2, 4])):
                k, s, v = hostile(rng, len(df))
                name = rng.choice(["h%d_%s" % (i, k), "h %d, %s" % (i, k), 'h"%d' % i, "ü%d" % i, "%d" % i, "h%d.x" % i])
                if name in df.columns:
                    continue
                s.index = df.index
                df[name] = s
                vts[name] = v
                rec.event("hostile_columns")
        for c, v in list(vts.items()):
            if v in ARGS and rng.random() < 0.3:
                vts[c] = (v, ARGS[v](rng))
        cols = list(df.columns)
        rng.shuffle(cols)
        es.entity_from_dataframe(n, df[cols], index=t.index, time_index=t.time_index,
                                 secondary_time_index={k: list(v) for k, v in t.secondary.items()} or None, variable_types=vts)
    rels = list(w.rels)
    rng.shuffle(rels)
    for p, c, col in rels:
        es.add_relationship(ft.Relationship(es[p][w.tables[p].index], es[c][col]))
    for e in es.entities:
        for v in e.variables:
            if rng.random() < 0.15:
                v.description = rng.choice(["what it is", 'the "x"', "日本", ""])
            if rng.random() < 0.3:
                vals = [x for x in e.df[v.id].tolist() if not isinstance(x, (tuple, list)) and not pd.isnull(x)]
                if vals and e.df[v.id].dtype.name not in ("Int64", "boolean", "string", "float32") and "timedelta" not in e.df[v.id].dtype.name:
                    v.interesting_values = rng.sample(vals, min(len(vals), rng.randint(1, 3)))
                    rec.event("interesting_values")
    if rng.random() < 0.3:
        es.add_interesting_values(max_values=rng.choice([1, 2]))
    if rng.random() < 0.5:
        es.add_last_time_indexes()
    if rng.random() < 0.2:
        # an entity made by normalizing, and one whose data was replaced
        n = rng.choice(names)
        cats = [v.id for v in es[n].variables if type(v) is vt.Categorical and not es[n].df[v.id].isnull().any()]
        if cats and "made" not in es.entity_dict:
            c = rng.choice(cats)
            if not any(c in x for x in es[n].secondary_time_index.values()):
                es.normalize_entity(n, "made", c, make_time_index=False)
    if rng.random() < 0.2:
        n = rng.choice(names)
        if len(es[n].df) > 1:
            es[n].update_data(es[n].df.iloc[:-1])
    return es


MISSING = ("missing",)


def cell(x, fmt):
    if isinstance(x, (tuple, list)):
        return ("ll",) + tuple(cell(y, fmt) for y in x)
    if x is None or x is pd.NA or x is pd.NaT or (isinstance(x, float) and x != x):
        return MISSING
    if fmt == "csv":
        if isinstance(x, str) and x == "":
            return MISSING          # csv has no way to tell them apart
        if isinstance(x, (float, np.floating)):
            return ("f", float("%.14g" % x))
    return norm(x)


def state(es, fmt):
    """all of an EntitySet, entities by id"""
    out = {"id": es.id, "time_type": getattr(es.time_type, "__name__", es.time_type), "entities": sorted(e.id for e in es.entities),
           "relationships": [str(r) for r in es.relationships]}
    for e in es.entities:
        df = e.df
        if not isinstance(df, pd.DataFrame):
            df = df.compute()
        d = {"index": e.index, "time_index": e.time_index, "secondary": {k: list(v) for k, v in e.secondary_time_index.items()},
             "vars": [snap.var_state(v) for v in e.variables], "columns": list(df.columns),
             "dtypes": [str(x) for x in df.dtypes], "data": {c: [cell(x, fmt) for x in df[c].tolist()] for c in df.columns},
             "rows": [cell(x, fmt) for x in df.index.tolist()] if isinstance(e.df, pd.DataFrame) else None}
        if fmt != "csv":
            d["categories"] = {c: (list(df[c].cat.categories), df[c].cat.ordered) for c in df.columns if df[c].dtype.name == "category"}
        lti = e.last_time_index
        if lti is not None:
            lti = lti if isinstance(lti, pd.Series) else lti.compute()
            d["lti"] = sorted((repr(cell(i, fmt)), repr(cell(x, fmt))) for i, x in lti.items())
            d["lti_dtype"] = str(lti.dtype)
        out["e:" + e.id] = d
    return out


def write(rng, es, fmt, path):
    if fmt == "csv":
        kw = {"sep": rng.choice([",", ",", ";", "\t", "|"]), "encoding": rng.choice(["utf-8", "utf-8", "utf-16", "utf-8-sig"]),
              "engine": rng.choice(["python", "c"]), "compression": rng.choice([None, None, "gzip", "bz2", "xz", "zip"])}
        if kw["compression"]:        # pandas does not read compressed utf-16
            kw["encoding"] = "utf-8"
        es.to_csv(path, **kw)
    elif fmt == "parquet":
        kw = {"engine": rng.choice(["auto", "fastparquet"]), "compression": rng.choice([None, "snappy", "gzip"])}
        es.to_parquet(path, **kw)
    else:
        kw = {"compression": rng.choice([None, "gzip", "xz"])}
        es.to_pickle(path, **kw)
    return kw


def case(rng, rec, tier):
    fmt = rng.choice(["csv", "csv", "parquet", "parquet", "pickle"])
    w = gen.gen_world(rng, kinds=("num", "int", "bool", "cat", "ord", "dt", "text", "zip", "latlong", "dob"), n_tables=rng.choice([1, 2, 3, 4]),
                      empty_tables=0.1 if rng.random() < 0.3 else 0, secondary=0.4)
    es = build(rng, rec, w)
    d = tempfile.mkdtemp(prefix="ftv-c13-")
    try:
        before = state(es, fmt)
        exact = snap.es_state(es)
        path = os.path.join(d, rng.choice(["es", "with space", "ü", "a/b"]))
        if rng.random() < 0.12:      # something else was there
            w2 = gen.gen_world(rng, n_tables=2)
            write(rng, build(rng, rec, w2), fmt, path)
            rec.event("overwritten")
        kw = write(rng, es, fmt, path)
        info = lambda: "%s %s world=%s vars=%s" % (fmt, kw, w.describe(), {e.id: [(v.id, v.type_string, str(e.df[v.id].dtype)) for v in e.variables] for e in es.entities})  # noqa
        diff = snap.diff_state(exact, snap.es_state(es))
        rec.check(diff is None, "writing-changed:" + fmt, lambda: "writing changed the EntitySet: %s; %s" % (diff, info()))
        src = path
        if rng.random() < 0.15:
            src = os.path.join(d, "es.tar")
            with tarfile.open(src, "w") as tar:
                tar.add(path + "/data_description.json", arcname="/data_description.json")
                tar.add(path + "/data", arcname="/data")
            rec.event("tar")
        got = ft.read_entityset(src)
        rec.event("round_trips")
        rec.event(fmt)
        for k, v in before.items():
            if k.startswith("e:"):
                rec.event("cells", sum(len(x) for x in v["data"].values()))
        after = state(got, fmt)
        compare(rec, before, after, fmt, info)
        if rng.random() < 0.4:
            p2 = os.path.join(d, "again")
            write(rng, got, fmt, p2)
            diff = snap.diff_state(after, state(ft.read_entityset(p2), fmt))
            rec.check(diff is None, "second:" + fmt, lambda: "a second round trip changes: %s; %s" % (diff, info()))
        # the description alone
        rec.event("metadata")
        m1, m2, m = state(es.metadata, fmt), state(got.metadata, fmt), structure(before)
        diff = snap.diff_state(m, structure(m1))
        rec.check(diff is None, "metadata", lambda: "metadata differs from the EntitySet: %s; %s" % (diff, info()))
        diff = snap.diff_state(structure(m1), structure(m2))
        rec.check(diff is None, "metadata-read", lambda: "metadata of the EntitySet read: %s; %s" % (diff, info()))
        if fmt == "pickle":
            rec.check(es.__eq__(got, deep=True) and got.__eq__(es, deep=True), "equality", lambda: "es == what was read is False; %s" % info())
        if rng.random() < 0.6:
            matrices(rng, rec, w, es, got, fmt, info)
        if rng.random() < 0.06:
            fresh(rec, path, fmt, after, info)
        if rng.random() < 0.06:
            dask(rng, rec, d)
    finally:
        shutil.rmtree(d)
    rec.nontrivial((fmt, before))
    rec.sample({"format": fmt, "entities": {k: len(v["vars"]) for k, v in before.items() if k.startswith("e:")}})


def structure(s):
    out = {k: v for k, v in s.items() if not k.startswith("e:")}
    for k, v in s.items():
        if k.startswith("e:"):
            out[k] = {x: y for x, y in v.items() if x not in ("data", "rows", "lti", "lti_dtype", "categories")}
            # missing is missing in a list of interesting values too
    return out


def compare(rec, a, b, fmt, info):
    for k in a:
        if k.startswith("e:") and k in b:
            for c, vals in a[k]["data"].items():
                other = b[k]["data"].get(c)
                bad = None if other == vals else [(x, y) for x, y in zip(vals, other or []) if x != y][:3] or [(len(vals), other and len(other))]
                i = a[k]["columns"].index(c)
                rec.check(bad is None, "cells:%s:%s" % (fmt, a[k]["dtypes"][i]), lambda: "%s.%s (%s): %s; %s" % (k, c, a[k]["dtypes"][i], bad, info()))
        elif k.startswith("e:"):
            rec.check(False, "lost:" + fmt, lambda: "entity %s lost; %s" % (k, info()))
    no = lambda s: {k: ({x: y for x, y in v.items() if x != "data"} if k.startswith("e:") else v) for k, v in s.items()}  # noqa
    diff = snap.diff_state(no(a), no(b))
    what = (diff or "").split("/")[-1].split(":")[0].split("[")[0]
    rec.check(diff is None, "structure:%s:%s" % (fmt, what), lambda: "%s; %s" % (diff, info()))


def matrices(rng, rec, w, es, got, fmt, info):
    target = rng.choice([t for t in w.tables])
    if not len(es[target].df):
        return
    args = dict(target_entity=target, max_depth=2, max_features=25, agg_primitives=rng.sample(["sum", "count", "mode", "num_unique", "last", "percent_true"], 3),
                trans_primitives=rng.sample(["is_null", "num_characters", "year", "cum_count"], 2), where_primitives=["count"])
    fs = ft.dfs(entityset=es, features_only=True, **args)
    fs2 = ft.dfs(entityset=got, features_only=True, **args)
    a, b = sorted(f.get_name() for f in fs), sorted(f.get_name() for f in fs2)
    if len(fs) < 25:
        if not rec.check(a == b, "dfs:" + fmt, lambda: "dfs on what was read: %s / %s; %s" % ([x for x in a if x not in b], [x for x in b if x not in a], info())):
            return
    elif a != b:
        return
    pairs, df = cutoff_frame(rng, w, target, rng.randint(1, 4), missing=0)
    if not len(df):
        return
    df = df[df["instance_id"].isin(es[target].df[es[target].index])]
    if not len(df):
        return
    try:
        m1 = ft.calculate_feature_matrix(fs, es, cutoff_time=df.copy())
    except TypeError:       # a primitive which cannot handle one of the dtypes
        return
    m2 = ft.calculate_feature_matrix(fs2, got, cutoff_time=df.copy())[list(m1.columns)]
    rec.event("matrices")
    if fmt == "csv":
        # an empty string is a missing value there
        odd = any(isinstance(x, str) and x == "" for e in es.entities for c in e.df.columns if e.df[c].dtype.name in ("object", "string", "category")
                  for x in e.df[c].tolist())
        if odd:
            return
    bad = None
    for c in m1.columns:
        x, y = [cell(v, "csv") for v in m1[c].tolist()], [cell(v, "csv") for v in m2[c].tolist()]
        if x != y:
            bad = (c, [(p, q) for p, q in zip(x, y) if p != q][:3])
            break
    rec.check(bad is None and list(m1.index) == list(m2.index), "matrix:" + fmt, lambda: "matrix on what was read: %s; %s" % (bad, info()))


CODE = """
import sys, json
from ftv.checks import c13
import featuretools as ft
print("STATE " + json.dumps(repr(c13.state(ft.read_entityset(sys.argv[1]), sys.argv[2]))))
"""


def fresh(rec, path, fmt, after, info):
    env = dict(os.environ, PYTHONHASHSEED="random", LC_ALL="C")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", CODE, path, fmt], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    rec.event("fresh")
    line = [x for x in r.stdout.splitlines() if x.startswith("STATE ")]
    if rec.check(r.returncode == 0 and line, "fresh:raised", lambda: "%s; %s" % (r.stderr[-1500:], info())):
        rec.check(json.loads(line[0][6:]) == repr(after), "fresh:state", lambda: "read in a fresh process: something else; %s" % info())


def dask(rng, rec, d):
    w = gen.gen_world(rng, kinds=("num", "int", "cat", "dt", "zip"), n_tables=2, nulls=rng.choice([0, 0.15]), idkind="int")
    es = gen.build_es(w, lti=rng.random() < 0.5, rng=rng, make_dask=True)
    fmt = rng.choice(["csv", "parquet"])
    p = os.path.join(d, "dask")
    before = state(es, fmt)
    if fmt == "csv":
        es.to_csv(p, sep=rng.choice([",", ";"]))
    else:
        es.to_parquet(p)
    got = ft.read_entityset(p)
    rec.event("dask")
    info = lambda: "dask %s world=%s" % (fmt, w.describe())  # noqa
    compare(rec, before, state(got, fmt), "dask-" + fmt, info)
