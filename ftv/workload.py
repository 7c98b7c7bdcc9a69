"""Common pieces of calculation workloads."""
import pandas as pd

import featuretools as ft
from . import gen, ref


LONG = {"ms": "milliseconds", "s": "seconds", "h": "hours", "d": "days", "m": "minutes", "w": "weeks", "mo": "months", "Y": "years"}


def random_window(rng, months=True):
    pool = [[(rng.randint(1, 48), "h")], [(rng.randint(1, 3), "d")], [(rng.randint(20, 2000), "m")], [(1, "w")]]
    if rng.random() < 0.25:
        pool = [[(rng.randint(1, 2), "d"), (rng.randint(1, 23), "h")], [(rng.randint(1, 20), "h"), (rng.randint(1, 59), "m")],
                [(rng.randint(1, 3), "h"), (500, "ms")]]
        if months:
            pool += [[(1, "mo"), (rng.randint(1, 5), "h")]]
    elif months:
        pool += [[(1, "mo")]]
    return rng.choice(pool)


def window_arg(rng, win):
    """one of the spellings of a window"""
    if win is None:
        return None
    fixed = all(u not in ("mo", "Y") for _, u in win)
    k = rng.randint(0, 5)
    if k == 0 and fixed:
        return sum((pd.Timedelta(**{LONG[u]: v}) for v, u in win), pd.Timedelta(0))
    if k == 1 and all(u != "ms" for _, u in win):
        return pd.DateOffset(**{LONG[u]: v for v, u in win})
    if len(win) > 1:
        return ft.Timedelta({rng.choice([u, LONG[u]]): v for v, u in win})
    v, u = win[0]
    if k == 2:
        return ft.Timedelta(v, u)
    if k == 3 and u == "h":
        return "%.2f d" % (v / 24) if v % 6 == 0 else "%d Hour" % v
    if k == 4:
        return "%d %s" % (v, LONG[u])
    return "%d%s" % (v, u)


def pick_instances(rng, w, target, k, missing=0.1):
    t = w.tables[target]
    ids = [r[t.index] for r in t.rows]
    out = [rng.choice(ids) for _ in range(k)] if ids else []
    if rng.random() < missing:
        out.append({"int": 777, "int_neg": 777}.get(w.idkind, "nobody"))
    return out


def cutoff_frame(rng, w, target, n, n_times=3, missing=0.1):
    ids = pick_instances(rng, w, target, n, missing)
    ts = gen.pick_cutoffs(rng, w, n_times)
    pairs, seen = [], set()
    for i in ids:
        t = rng.choice(ts)
        if (i, t) not in seen:
            seen.add((i, t))
            pairs.append((i, t))
    cols = ["instance_id", "time"]
    df = pd.DataFrame(pairs, columns=cols)
    if w.time_kind == "datetime":
        df["time"] = pd.to_datetime(df["time"])
    else:
        df["time"] = df["time"].astype(float)
    return pairs, df


def unique_features(fs, build):
    """Build the feature objects, dropping later ones whose name repeats."""
    out, seen = [], set()
    for f in fs:
        obj = build(f)
        n = obj.get_name()
        if n not in seen:
            seen.add(n)
            out.append((f, obj))
    return out


def nmc_feature(rng, w, es, target, prim=None):
    """A multi-output aggregation on target (or None)."""
    from featuretools.entityset.relationship import RelationshipPath
    kids = [(c, col) for p, c, col in w.rels if p == target]
    rng.shuffle(kids)
    for c, col in kids:
        cats = [x for x, k in w.tables[c].kinds.items() if k in ("cat", "ord")]
        if cats:
            rel = ref.Builder(es, w).rel(target, c, col)
            return ft.feature_base.AggregationFeature([ft.Feature(es[c][rng.choice(cats)])], parent_entity=es[target],
                                                      primitive=prim or ft.primitives.NMostCommon,
                                                      relationship_path=RelationshipPath([(False, rel)]))
    return None
