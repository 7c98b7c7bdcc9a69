"""C08: how the same data is presented (row order, column order, loading order,
names, id labels, physical dtypes, unrelated extra data) does not matter."""
import datetime

import numpy as np
import pandas as pd

import featuretools as ft
from .. import gen, ref
from ..common import norm, same
from ..workload import cutoff_frame, random_window, unique_features, window_arg

CASES = {"quick": 450, "thorough": 7000}
RULE = ("one logical world presented in two ways: rows of time-indexed tables shuffled, columns, entities and relationships "
        "added in another order, dataframe index labels scrambled, tables and columns renamed, ids relabelled (order kept), "
        "integer/float/category/string-date dtypes swapped, unrelated entities, columns and relationships added, the cutoff "
        "given in other types; monitor: the two real matrices agree cell by cell; non-trivial = a row with data; distinct = "
        "(features, rows, kinds of change)")
VARIATIONS = ["order", "labels", "rename", "relabel", "dtypes", "extra_columns", "extra_entity", "unordered_rows", "cutoff_type", "strings"]
NEED = dict({"var:" + v: 40 for v in VARIATIONS}, cells=3000)


def map_feature(f, ent, col, memo):
    """The same feature on the renamed world."""
    if id(f) in memo:
        return memo[id(f)][1]
    kw = dict(f.__dict__)
    for k in ("op", "entity", "kind", "nullable", "depth"):
        kw.pop(k)
    par = kw.pop("param")
    if f.op == "id":
        kw["col"] = col[f.entity].get(f.col, f.col)
    if "bases" in kw:
        kw["bases"] = [map_feature(b, ent, col, memo) for b in f.bases]
    for k in ("where", "groupby"):
        if kw.get(k) is not None:
            kw[k] = map_feature(kw[k], ent, col, memo)
    if "fk" in kw:
        kw["fk"] = col[f.entity].get(f.fk, f.fk)
    if kw.get("path"):
        kw["path"] = [(ent[p], ent[c], col[c].get(k, k)) for p, c, k in f.path]
    out = ref.F(f.op, ent[f.entity], f.kind, f.nullable, **kw)
    out.param = par
    memo[id(f)] = (f, out)
    return out


def renamed(w, ent, col):
    w2 = gen.World(w.time_kind)
    w2.idkind = w.idkind
    for n, t in w.tables.items():
        m = col[n]
        t2 = gen.Table(ent[n], m.get(t.index, t.index))
        t2.time_index = None if t.time_index is None else m.get(t.time_index, t.time_index)
        t2.kinds = {m.get(c, c): k for c, k in t.kinds.items()}
        t2.secondary = {m.get(s, s): [m.get(c, c) for c in cs] for s, cs in t.secondary.items()}
        t2.fks = {m.get(c, c): ent[p] for c, p in t.fks.items()}
        t2.rows = [{m.get(c, c): v for c, v in r.items()} for r in t.rows]
        w2.tables[ent[n]] = t2
    return w2


def relabel(rng, w):
    """New ids in the same order, one mapping for the whole world."""
    ids = set()
    for t in w.tables.values():
        for r in t.rows:
            ids |= {r[c] for c, k in t.kinds.items() if k in ("index", "fk") and r[c] is not None}
    ids |= {777, 999} if w.idkind.startswith("int") else {"nobody", "zz"}
    ids = sorted(ids)
    new = rng.choice(["int", "str"])
    nulls = any(r[c] is None for t in w.tables.values() for r in t.rows for c, k in t.kinds.items() if k in ("index", "fk"))
    if new == "int" and not nulls:
        vals = sorted(rng.sample(range(1, 5000), len(ids)))
        if rng.random() < 0.5:
            vals = list(range(-rng.randint(0, len(ids) - 1), len(ids)))[:len(ids)]     # zero among them
        w.idkind = "int"
    else:
        vals = ["q%05d" % v for v in sorted(rng.sample(range(1, 5000), len(ids)))]
        if rng.random() < 0.4:
            vals[0] = ""
        w.idkind = "str"
    m = dict(zip(ids, vals))
    for t in w.tables.values():
        for r in t.rows:
            for c, k in t.kinds.items():
                if k in ("index", "fk") and r[c] is not None:
                    r[c] = m[r[c]]
    return m


def load(w, rng, var, lti):
    """Load with the physical variations asked for."""
    es = ft.EntitySet("es")
    names, rels = list(w.tables), list(w.rels)
    if "order" in var:
        rng.shuffle(names)
        rng.shuffle(rels)
    for n in names:
        t = w.tables[n]
        rows, cols = list(t.rows), t.cols()
        if "order" in var:
            if t.time_index is not None:
                rng.shuffle(rows)
                p = rng.random()
                if p < 0.5:
                    # in order of time already, those of the same time in any order
                    rows.sort(key=lambda r: r[t.time_index], reverse=p < 0.1)
            rng.shuffle(cols)
        if "unordered_rows" in var:
            rng.shuffle(rows)
        df = gen.frame(w, n, rows, cols)
        vts = gen.vtypes_for(w, n)
        if "dtypes" in var:
            for c, k in t.kinds.items():
                if k in ("int", "ord") and len(df):
                    df[c] = df[c].astype(rng.choice(["float64", "int32", "int64", "int8"]))
                elif k == "num" and rng.random() < 0.3 and len(df):
                    df[c] = df[c].astype(object)
                elif k == "cat" and rng.random() < 0.5:
                    df[c] = df[c].astype("category")
                elif k == "text" and rng.random() < 0.3:
                    df[c] = df[c].astype("string").astype(object).where(df[c].notna(), None)
        if "strings" in var:
            for c, k in t.kinds.items():
                if k in ("dt", "time", "sec") and df[c].dtype.kind == "M" and len(df) and df[c].notna().all():
                    df[c] = df[c].dt.strftime("%Y-%m-%d %H:%M:%S") if rng.random() < 0.6 else df[c].astype(object)
                    if k in ("time", "sec"):
                        vts[c] = ft.variable_types.Datetime
                elif k == "num" and len(df) and df[c].notna().all() and rng.random() < 0.5:
                    df[c] = [repr(x) for x in df[c]]
        if "extra_columns" in var:
            for k in range(rng.randint(1, 3)):
                df.insert(rng.randint(0, df.shape[1]), "zz_extra%d" % k, [rng.choice([1.5, 2.5, 7.0]) for _ in range(len(df))])
        if "labels" in var and len(df):
            df.index = rng.choice([rng.sample(range(500), len(df)), ["r%d" % i for i in rng.sample(range(99), len(df))],
                                   [0] * len(df)])
        es.entity_from_dataframe(entity_id=n, dataframe=df, index=t.index, time_index=t.time_index,
                                 secondary_time_index={k: list(v) for k, v in t.secondary.items()} or None, variable_types=vts)
    if "extra_entity" in var:
        top = rng.choice(names)
        t = w.tables[top]
        ids = [r[t.index] for r in t.rows]
        extra = pd.DataFrame({"eid": range(7), "ref": gen.series([{"ref": rng.choice(ids)} for _ in range(7)], "ref", "fk", w.idkind,
                                                                w.time_kind), "v0": [1.0, 2, 3, 4, 5, 6, 7]})
        es.entity_from_dataframe("unrelated_child", extra, index="eid")
        r = ft.Relationship(es[top][t.index], es["unrelated_child"]["ref"])
        es.add_relationships([r])
        es.entity_from_dataframe("lonely", pd.DataFrame({"id": [1, 2], "v0": [9, 9]}), index="id")
    for p, c, col in rels:
        es.add_relationship(ft.Relationship(es[p][w.tables[p].index], es[c][col]))
    if lti:
        es.add_last_time_indexes()
    return es


def case(rng, rec, tier):
    unordered = rng.random() < 0.2
    w = gen.gen_world(rng, kinds=("num", "num", "int", "bool", "cat", "ord", "dt", "text"),
                      timeless=0.6 if unordered else 0.2, secondary=0.0 if unordered else 0.25,
                      tie=rng.choice([0.2, 0.5, 0.8]))
    var = set(rng.sample([v for v in VARIATIONS if v != "unordered_rows"], rng.randint(1, 3)))
    if rng.random() < 0.4:
        var.add("order")
    if unordered:
        var.add("unordered_rows")
    if "dtypes" in var or "strings" in var:
        for t in w.tables.values():          # a column some values of which get hidden needs room for missing values
            t.secondary = {}
    lti = rng.random() < 0.5
    es = gen.build_es(w, lti=lti)
    target = rng.choice(list(w.tables))
    kw = {}
    if unordered:
        # a timeless table has no order but the given one, so only ask what needs none
        kw = dict(allow_full=False, allow_order=False)
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3]), **kw)
    fs = [fg.top(target) for _ in range(rng.randint(2, 6))]
    if unordered:
        fs = [f for f in fs if not any(d.op == "agg" and d.use_previous and d.use_previous[0][1] == "o" for d in f.walk())]
    both = unique_features(fs, ref.Builder(es, w))
    if not both:
        return
    args = dict(include_cutoff_time=rng.random() < 0.6)
    if w.time_kind == "datetime" and rng.random() < 0.25:
        args["training_window"] = window_arg(rng, random_window(rng))
    single = rng.random() < 0.4
    if single:
        T = gen.pick_cutoffs(rng, w, 1)[0]
        t = w.tables[target]
        ids = [r[t.index] for r in t.rows]
        pairs = [(i, T) for i in rng.sample(ids, min(len(ids), rng.randint(1, 6)))]
        a = ft.calculate_feature_matrix([o for _, o in both], es, cutoff_time=T, instance_ids=[p[0] for p in pairs], **args)
    else:
        pairs, df = cutoff_frame(rng, w, target, rng.randint(1, 7))
        if not pairs:
            return
        a = ft.calculate_feature_matrix([o for _, o in both], es, cutoff_time=df.copy(), cutoff_time_in_index=False, **args)
    # the other presentation
    w2, fs2, ids = w.clone(), [f for f, _ in both], {}
    ent = {n: n for n in w.tables}
    col = {n: {} for n in w.tables}
    if "relabel" in var:
        ids = relabel(rng, w2)
    if "rename" in var:
        new = rng.sample(["zeta", "Alpha 1", "m_m", "e.f", "Q", "0x", "beta"], len(w.tables))
        ent = dict(zip(w.tables, new))
        for n, t in w.tables.items():
            cs = list(t.kinds)
            names = rng.sample(["c%d" % i for i in range(20)] + ["a b", "time2", "x.y", "instance_id" if single else "iid", "SUM"], len(cs))
            col[n] = {c: m for c, m in zip(cs, names) if rng.random() < 0.8}
            left = set(cs) - set(col[n])
            col[n] = {c: m for c, m in col[n].items() if m not in left}
        w2 = renamed(w2, ent, col)
        memo = {}
        fs2 = [map_feature(f, ent, col, memo) for f in fs2]
    es2 = load(w2, rng, var, lti)
    target2 = ent[target]
    b2 = ref.Builder(es2, w2)
    objs2 = [b2(f) for f in fs2]
    if single:
        T2 = pairs[0][1]
        if "cutoff_type" in var and w.time_kind == "datetime":
            T2 = rng.choice([T2.to_pydatetime(), T2.to_datetime64(), datetime.datetime.fromisoformat(str(T2))])
        iids = [ids.get(p[0], p[0]) for p in pairs]
        if "cutoff_type" in var:
            iids = rng.choice([np.array(iids, dtype=object if isinstance(iids[0], str) else None), pd.Series(iids), tuple(iids) and list(iids)])
        b = ft.calculate_feature_matrix(objs2, es2, cutoff_time=T2, instance_ids=iids, **args)
    else:
        df2 = pd.DataFrame({"instance_id": [ids.get(p[0], p[0]) for p in pairs], "time": [p[1] for p in pairs]})
        if "cutoff_type" in var:
            if w.time_kind == "numeric" and all(float(p[1]).is_integer() for p in pairs):
                df2["time"] = df2["time"].astype("int64")
            df2.index = range(3, 3 + len(df2))
        if "rename" in var and rng.random() < 0.5:
            df2 = df2.rename(columns={"instance_id": w2.tables[target2].index})
        b = ft.calculate_feature_matrix(objs2, es2, cutoff_time=df2, cutoff_time_in_index=False, **args)
    for v in var:
        rec.event("var:" + v)
    want = [norm(ids.get(p[0], p[0])) for p in pairs]
    if not rec.check([norm(x) for x in b.index] == want and [norm(x) for x in a.index] == [norm(p[0]) for p in pairs], "rows",
                     lambda: "rows %s / %s for request %s" % (list(a.index), list(b.index), pairs)):
        return
    back = {norm(v): norm(k) for k, v in ids.items()}
    for (f, o), o2 in zip(both, objs2):
        ca, cb = a[o.get_name()].tolist(), b[o2.get_name()].tolist()
        # infinities: pandas' running sums give nan or inf depending on what came before
        for i, (x, y) in enumerate(zip(ca, cb)):
            rec.event("cells")
            if f.kind in ("fk", "index"):
                x, y = norm(x), norm(y)
                y = back.get(y, y)
            ok = same(x, y, 1e-6, 1e-9)
            if not ok and infinite(w, f, pairs[i][1], args):
                rec.event("unspecified_infinite")
                continue
            if not rec.check(ok, "presentation:%s:%s" % ("+".join(sorted(var)) if len(var) == 1 else "multi", f.op + "." + str(getattr(f, "prim", ""))),
                             lambda: "%s of %s is %r, and %r when the same data is presented with %s; world=%s" % (
                                 f.text(), pairs[i], ca[i], cb[i], sorted(var), w.describe())):
                return
    if any(len(ref.Oracle(w, p[1]).rows(target)) for p in pairs):
        rec.nontrivial((tuple(f.text() for f, _ in both), tuple(map(str, pairs)), tuple(sorted(var))))
    rec.sample({"variations": sorted(var), "features": [f.text() for f, _ in both][:4], "rows": [str(p) for p in pairs][:3]})


def infinite(w, f, T, args):
    if "training_window" in args:
        return any(d.op == "row" and d.prim.startswith(("divide", "modulo")) or d.op in ("seq", "group") for d in f.walk())
    return ref.Oracle(w, T, args["include_cutoff_time"]).infinite(f)
