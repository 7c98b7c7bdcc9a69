"""C18: feature selection keeps exactly the columns its rule says, with the definitions that calculate them."""
import math

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools.selection import (remove_highly_correlated_features, remove_highly_null_features, remove_low_information_features,
                                    remove_single_value_features)
from .. import feat, gen, ref, snap
from ..common import frame_diff, freeze_frame, norm, same
from ..workload import cutoff_frame, nmc_feature, unique_features

CASES = {"quick": 400, "thorough": 8000}
RULE = ("feature matrices of random features (all types, multi-output features and slices of them, missing values, ties, constants) and made-up matrices "
        "(infinities, category, timedelta, tuple, near-threshold columns) given to the four selection functions with random options; monitors: kept "
        "columns are exactly those of the rule (computed cell by cell by the harness), untouched and in order; the definitions returned match "
        "the columns one to one and calculate them again; selecting again removes nothing; arguments unchanged; distinct = selections")
NEED = {"selections": 3000, "dropped": 3000, "kept": 10000, "multi_whole": 60, "multi_part": 30, "recalculated": 150, "null_dropped": 300,
        "corr_dropped": 400, "single_dropped": 400, "low_dropped": 400, "made_up": 1000, "subset": 200, "protected": 60, "nan_counts": 100, "at_threshold": 30}


def missing(v):
    return norm(v) is None


def distinct(vals):
    return {norm(v) for v in vals if not missing(v)}


def corr(a, b):
    ps = [(float(x), float(y)) for x, y in zip(a, b) if not missing(x) and not missing(y)]
    if len(ps) < 2 or any(math.isinf(x) or math.isinf(y) for x, y in ps):
        return None
    n = len(ps)
    mx, my = sum(x for x, _ in ps) / n, sum(y for _, y in ps) / n
    sx, sy = math.fsum((x - mx) ** 2 for x, _ in ps), math.fsum((y - my) ** 2 for _, y in ps)
    # a constant column (to rounding) has no correlation
    if len({x for x, _ in ps}) < 2 or len({y for _, y in ps}) < 2:
        return None
    return math.fsum((x - mx) * (y - my) for x, y in ps) / math.sqrt(sx * sy)


def settled(fm, c, o):
    """the correlation to the last bit, if every way of asking pandas gives the same"""
    a, b = fm[c], fm[o]
    got = {a.corr(b), b.corr(a), a.astype(float).corr(b.astype(float)), fm[[c, o]].astype(float).corr().iloc[0, 1],
           fm[[o, c]].astype(float).corr().iloc[0, 1]}
    return abs(got.pop()) if len(got) == 1 else None


def made_up(rng):
    n = rng.randint(1, 25)
    cols = {}
    k = rng.randint(1, 9)
    for i in range(k):
        kind = rng.choice(["num", "int", "bool", "const", "nulls", "cat", "category", "dt", "td", "inf", "copy", "noisy", "neg", "allnull", "objbool", "tuple", "float32"])
        p = rng.choice([0, 0, 0.1, 0.5, 0.9])
        nums = [c for c in cols if pd.api.types.is_float_dtype(cols[c]) or pd.api.types.is_integer_dtype(cols[c])]
        if kind in ("copy", "noisy", "neg") and not nums:
            kind = "num"
        if kind == "num":
            s = pd.Series([np.nan if rng.random() < p else rng.choice([rng.uniform(-5, 5), 1.0, 1e9]) for _ in range(n)], dtype=float)
        elif kind == "float32":
            s = pd.Series([np.nan if rng.random() < p else rng.uniform(-5, 5) for _ in range(n)], dtype="float32")
        elif kind == "int":
            s = pd.Series([rng.randint(0, 5) for _ in range(n)])
        elif kind == "bool":
            s = pd.Series([rng.random() < 0.5 for _ in range(n)])
        elif kind == "const":
            s = pd.Series([rng.choice([3, 0.0, "x", True])] * n)
        elif kind == "nulls":
            s = pd.Series([np.nan if rng.random() < 0.7 else 2.0 for _ in range(n)])
        elif kind == "allnull":
            s = pd.Series([rng.choice([np.nan, None])] * n)
        elif kind == "cat":
            s = pd.Series([None if rng.random() < p else rng.choice("abc") for _ in range(n)], dtype=object)
        elif kind == "category":
            s = pd.Series([None if rng.random() < p else rng.choice("ab") for _ in range(n)]).astype(pd.CategoricalDtype(["a", "b", "c"]))
        elif kind == "dt":
            s = pd.Series([pd.NaT if rng.random() < p else pd.Timestamp("2020-01-01") + pd.Timedelta(days=rng.randint(0, 3)) for _ in range(n)], dtype="datetime64[ns]")
        elif kind == "td":
            s = pd.Series([pd.NaT if rng.random() < p else pd.Timedelta(days=rng.randint(0, 3)) for _ in range(n)], dtype="timedelta64[ns]")
        elif kind == "inf":
            s = pd.Series([rng.choice([np.inf, -np.inf, 1.0]) for _ in range(n)])
        elif kind == "objbool":
            s = pd.Series([rng.choice([True, False, None]) for _ in range(n)], dtype=object)
        elif kind == "tuple":
            s = pd.Series([rng.choice([(1.0, 2.0), (3.0, 4.0), None]) for _ in range(n)], dtype=object)
        else:
            b = cols[rng.choice(nums)].astype(float)
            e = {"copy": 0.0, "noisy": 0.3, "neg": 0.05}[kind]
            f = {"copy": rng.choice([1, 2.5]), "noisy": 1, "neg": -1}[kind]
            s = pd.Series([x * f + rng.uniform(-e, e) * (abs(x) if not math.isnan(x) and not math.isinf(x) else 0) for x in b])
            if rng.random() < 0.2:
                s[rng.randrange(n)] = np.nan
        cols[rng.choice(["f%d", "a, %d", "x(%d)"]) % i] = s
    idx = [rng.choice([3, 4, "z", 9]) for _ in range(n)] if rng.random() < 0.2 else list(range(n))
    df = pd.DataFrame({c: s.values for c, s in cols.items()}, index=pd.Index(idx, name="id"))
    for c, s in cols.items():
        if str(s.dtype) == "category":
            df[c] = pd.Categorical(list(s), categories=s.cat.categories)
    return df


def select(rng, rec, fm, fn):
    """options and, by the rule, the columns to keep (None: too close to call)"""
    kw = {}
    cells = {c: list(fm[c]) for c in fm}
    n = len(fm)
    if fn is remove_low_information_features:
        keep = [c for c in fm if len(distinct(cells[c])) + any(map(missing, cells[c])) > 1 and distinct(cells[c])]
        return kw, keep, "low_dropped"
    if fn is remove_single_value_features:
        nan = rng.random() < 0.5
        if nan or rng.random() < 0.3:
            kw["count_nan_as_value"] = nan
        if nan:
            rec.event("nan_counts")
        return kw, [c for c in fm if len(distinct(cells[c])) + (nan and any(map(missing, cells[c]))) > 1], "single_dropped"
    if fn is remove_highly_null_features:
        thr = 0.95
        if rng.random() < 0.8:
            thr = kw["pct_null_threshold"] = rng.choice([0, 0.0, 1, 1.0, 0.5, 0.25, rng.random(), rng.randint(0, n) / n])
        share = {c: sum(map(missing, cells[c])) / n for c in fm}
        if any(abs(s - thr) < 1e-9 and s != thr for s in share.values()):
            return kw, None, None
        return kw, [c for c in fm if (share[c] == 0 if thr == 0 else share[c] < thr)], "null_dropped"
    thr = 0.95
    if rng.random() < 0.8:
        thr = kw["pct_corr_threshold"] = rng.choice([0.5, 0.9, 0.2, 0.99, rng.random()])
    check = list(fm.columns)
    if rng.random() < 0.4:
        check = [c for c in check if rng.random() < 0.7]
        if rng.random() < 0.5:
            rng.shuffle(check)
        kw["features_to_check"] = list(check)
        rec.event("subset")
    protect = []
    if rng.random() < 0.3:
        protect = kw["features_to_keep"] = [c for c in fm if rng.random() < 0.3]
        rec.event("protected")
    num = [c for c in fm if c in check and (fm[c].dtype == bool or str(fm[c].dtype) in ("int16", "int32", "int64", "float16", "float32", "float64"))]
    keep = []
    vals = {c: [float(x) for x in fm[c]] for c in num}
    if len(num) > 1 and rng.random() < 0.3:
        # one pair exactly at the threshold
        for _ in range(8):
            c, o = rng.sample(num, 2)
            if corr(vals[c], vals[o]) is not None:
                r = settled(fm, c, o)
                if r is not None and 0 < r <= 1:
                    thr = kw["pct_corr_threshold"] = float(r)
                    break
    for i, c in enumerate(fm.columns):
        drop = False
        if c in num:
            for o in list(fm.columns)[:i]:
                if o in num:
                    r = corr(vals[c], vals[o])
                    if r is not None:
                        r = abs(r)
                        if abs(r - thr) < 1e-6:
                            r = settled(fm, c, o)
                            if r is None:
                                return kw, None, None
                            if r == thr:
                                rec.event("at_threshold")
                        drop = drop or r >= thr
        if not drop or c in protect:
            keep.append(c)
    return kw, keep, "corr_dropped"


FNS = [remove_low_information_features, remove_single_value_features, remove_highly_null_features, remove_highly_correlated_features]


def judge(rng, rec, fm, feats, fn, passed=(), calc=None):
    kw, keep, label = select(rng, rec, fm, fn)
    if keep is None:
        return rec.event("close")
    rec.event("selections")
    before = freeze_frame(fm)
    info = lambda: "%s(%s, %s)" % (fn.__name__, list(fm.columns), kw)
    if feats is None:
        out, fl = fn(fm, **kw), None
        rec.check(isinstance(out, pd.DataFrame), "shape", info)
    else:
        given = list(feats)
        states = [snap.feature_state(f) for f in feats]
        out, fl = fn(fm, given, **kw)
        rec.check(len(given) == len(feats) and all(a is b for a, b in zip(given, feats)), "features-changed", info)
        rec.check([snap.feature_state(f) for f in feats] == states, "features-changed", info)
    rec.event("dropped", len(fm.columns) - len(keep))
    rec.event(label, len(fm.columns) - len(keep))
    rec.event("kept", len(keep))
    rec.check(freeze_frame(fm) == before, "matrix-changed", info)
    if not rec.check(list(out.columns) == keep, "rule", lambda: "%s: kept %s, wanted %s; %s" % (info(), list(out.columns), keep, fm.to_dict("list"))):
        return
    rec.check(freeze_frame(out) == freeze_frame(fm[keep]), "cells", info)
    rec.nontrivial((tuple(fm.columns), fn.__name__, repr(kw), len(keep)))
    again = fn(out, **kw) if "features_to_check" not in kw else fn(out, **dict(kw, features_to_check=[c for c in kw["features_to_check"] if c in keep]))
    rec.check(list(again.columns) == keep, "again", lambda: "%s: then kept %s of %s" % (info(), list(again.columns), keep))
    if fl is None:
        return
    got = [n for f in fl for n in f.get_feature_names()]
    if not rec.check(sorted(got) == sorted(c for c in keep if c not in passed), "definitions", lambda: "%s: definitions %s for columns %s" % (info(), got, keep)):
        return
    rec.check(got == [c for c in keep if c not in passed], "definition-order", lambda: "%s: definitions %s for columns %s" % (info(), got, keep))
    for f in feats:
        if f.number_output_features > 1:
            k = sum(n in keep for n in f.get_feature_names())
            if k == f.number_output_features:
                rec.event("multi_whole")
                rec.check(any(x is f for x in fl), "whole", lambda: "%s: %s" % (info(), fl))
            elif k:
                rec.event("multi_part")
    if fl and calc and rng.random() < 0.2:
        rec.event("recalculated")
        d = frame_diff(out[[c for c in keep if c not in passed]], calc(fl)[got])
        rec.check(d is None, "recalculated", lambda: "%s: %s" % (info(), d))


def case(rng, rec, tier):
    for _ in range(4):
        fm = made_up(rng)
        for fn in FNS:
            rec.event("made_up")
            judge(rng, rec, fm, None, fn)
    w = gen.gen_world(rng, nulls=rng.choice([0, 0.2, 0.5]), kinds=("num", "num", "int", "bool", "cat", "ord", "dt", "text"))
    es = gen.build_es(w, lti=False, rng=rng, shuffle=True)
    target = rng.choice(list(w.tables))
    fg = ref.FeatureGen(rng, w, max_depth=2)
    build = ref.Builder(es, w)
    feats = [o for _, o in unique_features([fg.top(target) for _ in range(rng.randint(1, 6))], build)]
    seen = {n for f in feats for n in f.get_feature_names()}
    for _ in range(rng.choice([0, 1, 2])):
        m = nmc_feature(rng, w, es, target, P.NMostCommon(n=rng.choice([2, 3, 4])))
        if m is not None and rng.random() < 0.2:
            m = m.rename("multi")
        if m is not None and rng.random() < 0.2:
            m = m[0]
        if m is not None and not seen & set(m.get_feature_names()):
            feats.insert(rng.randint(0, len(feats)), m)
            seen |= set(m.get_feature_names())
    _, df = cutoff_frame(rng, w, target, rng.randint(1, 14), n_times=2, missing=0.2)
    if not len(df):
        return
    passed = []
    if rng.random() < 0.3:
        df["label"] = [rng.choice([0, 1]) for _ in range(len(df))]
        passed = ["label"]
    calc = lambda fs: ft.calculate_feature_matrix(fs, es, cutoff_time=df, cutoff_time_in_index=True)
    fm = calc(feats)
    for fn in FNS:
        judge(rng, rec, fm, feats, fn, passed, calc)
        if rng.random() < 0.2:
            judge(rng, rec, fm, None, fn)
