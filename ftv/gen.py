"""Random relational worlds: plain-Python tables, independent of featuretools,
plus the code which loads one into an EntitySet through the public API."""
import copy

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import variable_types as vt

T0 = pd.Timestamp("2020-02-27 00:00:00")
HOUR = pd.Timedelta(hours=1)

VTYPE = {"num": vt.Numeric, "int": vt.Numeric, "bool": vt.Boolean, "cat": vt.Categorical,
         "ord": vt.Ordinal, "dt": vt.Datetime, "text": vt.NaturalLanguage,
         "latlong": vt.LatLong, "dob": vt.DateOfBirth, "zip": vt.ZIPCode}


class Table:
    def __init__(self, name, index):
        self.name = name
        self.index = index
        self.time_index = None
        self.secondary = {}     # secondary time col -> [cols]
        self.kinds = {}         # col -> kind ('index','fk','time','sec' or VTYPE key)
        self.rows = []          # list of dicts (col -> python value or None)
        self.fks = {}           # col -> parent table name

    def cols(self):
        return list(self.kinds)


class World:
    def __init__(self, time_kind):
        self.time_kind = time_kind
        self.tables = {}
        self.idkind = "int"

    @property
    def rels(self):
        """(parent, child, fk column)"""
        return [(p, t.name, c) for t in self.tables.values() for c, p in t.fks.items()]

    def clone(self):
        return copy.deepcopy(self)

    def sort_key(self, table, row):
        t = self.tables[table]
        return (row[t.time_index], row[t.index])

    def ordered_rows(self, table):
        """Rows in the order featuretools defines: by (time, index) when the
        entity has a time index, else as given."""
        t = self.tables[table]
        if t.time_index is None:
            return list(t.rows)
        return sorted(t.rows, key=lambda r: (r[t.time_index], r[t.index]))

    def describe(self):
        return {n: {"rows": len(t.rows), "index": t.index, "time": t.time_index, "fks": t.fks,
                    "secondary": t.secondary, "kinds": t.kinds} for n, t in self.tables.items()}


WORDS = ["alpha", "beta", "gamma, delta", "red", "Blue", "it's", "x y", "Zoë", "a.b", "n-1"]
TEXTS = ["hello world", "one", "", "a  b c", "This is a sentence. And another one!", "  lead", "tail ", "日本 語",
         "x" * 70]


def _val(rng, kind, nulls):
    if nulls and kind in ("num", "cat", "dt", "text", "zip", "dob") and rng.random() < nulls:
        return None
    if kind == "num":
        return rng.choice([rng.randint(-5, 5) * 1.0, round(rng.uniform(-100, 100), 3), 0.0, 2.5])
    if kind == "int":
        return rng.randint(-4, 9)
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "cat":
        return rng.choice(WORDS[:6])
    if kind == "zip":
        return rng.choice(["02116", "90210", "60091"])
    if kind == "ord":
        return rng.randint(0, 4)
    if kind == "dt":
        return T0 + HOUR * rng.randint(-2000, 2000) + pd.Timedelta(seconds=rng.randint(0, 3599))
    if kind == "dob":
        return pd.Timestamp("1980-01-01") + pd.Timedelta(days=rng.randint(0, 12000))
    if kind == "text":
        return rng.choice(TEXTS)
    if kind == "latlong":
        return (round(rng.uniform(-80, 80), 2), round(rng.uniform(-170, 170), 2))
    raise ValueError(kind)


def gen_world(rng, n_tables=None, time_kind=None, secondary=0.25, nulls=0.15, max_rows=14,
              kinds=("num", "int", "bool", "cat", "ord", "dt"), timeless=0.2, dangling=0.04,
              idkind=None, empty_tables=0.0, shared_names=True, two_paths=True, tie=0.3,
              time_span=60, extra_cols=(2, 4), min_time_tables=1,
              timeless_secondary=0.0, null_fks=0.06, chain=False, table_names=None, decorate=None):
    time_kind = time_kind or rng.choice(["datetime"] * 4 + ["numeric"])
    w = World(time_kind)
    w.idkind = idkind or rng.choice(["int", "int", "str", "str", "int_neg"])
    n = n_tables or rng.choice([2, 3, 3, 4])
    names = rng.sample(["cust", "sess", "log", "items", "shop", "region", "a b", "T1"], n)
    if table_names:
        names = rng.sample(table_names, n)
    same_id = rng.random() < 0.4
    for i, name in enumerate(names):
        idx = "id" if same_id else name + "_id"
        t = Table(name, idx)
        t.kinds[idx] = "index"
        has_time = rng.random() >= timeless or (min_time_tables and i == n - 1)
        parents = []
        if i > 0:
            parents = [names[i - 1] if chain else rng.choice(names[:i])]
            if two_paths and i > 1 and rng.random() < 0.3:
                parents.append(rng.choice(names[:i]))
            elif two_paths and rng.random() < 0.12:
                parents.append(parents[0])
        for k, p in enumerate(parents):
            base = w.tables[p].index
            col = base if (base != idx and base not in t.kinds and rng.random() < 0.6) else "%s_ref" % p
            while col in t.kinds:
                col += "2"
            t.kinds[col] = "fk"
            t.fks[col] = p
        if has_time:
            t.time_index = "time" if shared_names else name + "_time"
            t.kinds[t.time_index] = "time"
        # a time column named like the cutoff frame's columns is deliberate
        ncols = rng.randint(*extra_cols)
        for k in range(ncols):
            kind = rng.choice(kinds)
            c = ("v%d" % k if shared_names and rng.random() < 0.5 else "%s_%s%d" % (name, kind, k))
            if decorate:
                c = decorate(rng, c)
            while c in t.kinds:
                c += "_"
            t.kinds[c] = kind
        if (has_time and rng.random() < secondary) or (not has_time and timeless_secondary and
                                                       rng.random() < timeless_secondary):
            cand = [c for c, k in t.kinds.items() if k in ("num", "cat", "dt", "text")]
            if cand:
                t.kinds["sec_time"] = "sec"
                t.secondary["sec_time"] = rng.sample(cand, rng.randint(1, min(2, len(cand))))
        w.tables[name] = t
    fill(rng, w, nulls, max_rows, dangling, empty_tables, tie, time_span, null_fks)
    return w


def refill(rng, w, **kw):
    """Other data of the same shape."""
    w2 = w.clone()
    for t in w2.tables.values():
        t.rows = []
    opts = dict(nulls=0.15, max_rows=14, dangling=0.04, empty_tables=0.0, tie=0.3, time_span=60, null_fks=0.06)
    opts.update(kw)
    fill(rng, w2, **opts)
    return w2


def fill(rng, w, nulls, max_rows, dangling, empty_tables, tie, time_span, null_fks):
    time_kind = w.time_kind
    for i, (name, t) in enumerate(w.tables.items()):
        lo, hi = (2, max(3, max_rows // 3)) if i == 0 else (3, max_rows)
        nrows = 0 if rng.random() < empty_tables and i > 0 else rng.randint(lo, hi)
        ids = rng.sample(range(0, max(nrows, rng.choice([20, 60]))), nrows)
        for k in range(nrows):
            r = {}
            for c, kind in t.kinds.items():
                if kind == "index":
                    r[c] = ids[k] if w.idkind == "int" else (ids[k] - 30 if w.idkind == "int_neg" else "k%02d" % ids[k])
                elif kind == "fk":
                    pt = w.tables[t.fks[c]]
                    if rng.random() < dangling:
                        r[c] = "zz" if w.idkind in ("str", "cat") else 999
                    elif nulls and w.idkind == "str" and rng.random() < null_fks:
                        r[c] = None
                    elif pt.rows:
                        r[c] = rng.choice(pt.rows)[pt.index]
                    else:
                        r[c] = "zz" if w.idkind in ("str", "cat") else 999
                elif kind == "time":
                    if t.rows and rng.random() < tie:
                        r[c] = rng.choice(t.rows)[c]
                    else:
                        h = rng.randint(0, time_span)
                        r[c] = T0 + h * HOUR if time_kind == "datetime" else float(h)
                elif kind == "sec":
                    base = r[t.time_index] if t.time_index else (
                        T0 + rng.randint(0, time_span) * HOUR if time_kind == "datetime" else float(rng.randint(0, time_span)))
                    d = rng.randint(0, 30)
                    r[c] = (base + (d + 0.5) * HOUR) if time_kind == "datetime" else base + d + 0.5
                else:
                    r[c] = _val(rng, kind, nulls)
            t.rows.append(r)


def series(rows, col, kind, idkind, time_kind):
    vals = [r[col] for r in rows]
    if kind in ("time", "sec") and time_kind == "numeric":
        return pd.Series([np.nan if v is None else v for v in vals], dtype="float64")
    if kind in ("time", "sec", "dt", "dob"):
        return pd.Series(pd.to_datetime(pd.Series([pd.NaT if v is None else v for v in vals], dtype="datetime64[ns]")))
    if kind == "num":
        return pd.Series([np.nan if v is None else v for v in vals], dtype="float64")
    if kind in ("int", "ord"):
        return pd.Series(vals, dtype="int64")
    if kind == "bool":
        return pd.Series(vals, dtype="bool")
    if kind in ("index", "fk"):
        if idkind.startswith("int"):
            return pd.Series(vals, dtype="int64")
        return pd.Series(vals, dtype="object")
    return pd.Series(vals, dtype="object")


def frame(w, name, rows=None, cols=None):
    t = w.tables[name]
    rows = t.rows if rows is None else rows
    cols = cols or t.cols()
    df = pd.DataFrame({c: series(rows, c, t.kinds[c], w.idkind, w.time_kind) for c in cols}, columns=cols)
    if t.secondary or getattr(w, "nan_objects", False):
        # one representation of missing per column: values hidden by a
        # secondary time become NaN
        for c in cols:
            if df[c].dtype == object and t.kinds[c] in ("cat", "text", "zip"):
                df[c] = df[c].where(df[c].notna(), np.nan)
    return df


def vtypes_for(w, name):
    t = w.tables[name]
    return {c: VTYPE[k] for c, k in t.kinds.items() if k in VTYPE}


def build_es(w, lti=True, rng=None, shuffle=False, es_id="es", names=None, make_dask=False):
    """Load the world through the public API.  With rng+shuffle the physical
    presentation (row order, column order, entity order, relationship order)
    is randomised; the logical content is the same."""
    es = ft.EntitySet(es_id)
    names = list(names or w.tables)
    rels = list(w.rels)
    if shuffle:
        rng.shuffle(names)
        rng.shuffle(rels)
    for n in names:
        t = w.tables[n]
        rows = list(t.rows)
        cols = t.cols()
        if shuffle:
            if t.time_index is not None:
                rng.shuffle(rows)
            rng.shuffle(cols)
        df = frame(w, n, rows, cols)
        if w.idkind == "cat":
            for c, k in t.kinds.items():
                if k == "index":
                    df[c] = df[c].astype("category")
        vts = vtypes_for(w, n)
        if make_dask:
            import dask.dataframe as dd
            vts = dict(vts)
            for c, k in t.kinds.items():
                if k == "fk":
                    vts[c] = vt.Id
                elif k in ("time", "sec"):
                    vts[c] = vt.Numeric if w.time_kind == "numeric" else vt.Datetime
                elif k == "index":
                    vts[c] = vt.Index
            if t.time_index is not None:
                df = df.sort_values([t.time_index, t.index]).reset_index(drop=True)
            df = dd.from_pandas(df, npartitions=rng.randint(1, 3) if rng else 2)
        es.entity_from_dataframe(entity_id=n, dataframe=df, index=t.index, time_index=t.time_index,
                                 secondary_time_index={k: list(v) for k, v in t.secondary.items()} or None,
                                 variable_types=vts)
    for p, c, col in rels:
        es.add_relationship(ft.Relationship(es[p][w.tables[p].index], es[c][col]))
    if lti:
        es.add_last_time_indexes()
    return es


def times_in(w):
    return sorted({r[t.time_index] for t in w.tables.values() if t.time_index for r in t.rows})


def pick_cutoffs(rng, w, k):
    """Cutoff instants: exactly on event times, between them, before all and after all."""
    ts = times_in(w)
    one = HOUR if w.time_kind == "datetime" else 1.0
    half = one / 2
    lo = ts[0] if ts else (T0 if w.time_kind == "datetime" else 0.0)
    hi = ts[-1] if ts else lo + 10 * one
    out = []
    while len(out) < k:
        r = rng.random()
        if ts and r < 0.5:
            out.append(rng.choice(ts))
        elif r < 0.8:
            out.append(lo + one * rng.randint(0, 60) + half / 2)
        elif r < 0.95:
            out.append(hi + one * rng.randint(1, 48) + half / 2)
        else:
            out.append(lo - one)
    return out
