"""C17: encode_features: the encoded matrix says what the definitions say, and the encoded definitions calculate it again."""
import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools import variable_types as vt
from .. import gen, ref, snap
from ..common import frame_diff, freeze_frame, norm, same
from ..workload import cutoff_frame, nmc_feature, unique_features

CASES = {"quick": 420, "thorough": 8000}
RULE = ("feature matrices of random features (identity, direct, aggregation and transform features of discrete and other types, ids, ordinals, zip "
        "codes, renamed features, multi-output features, pass-through columns, category columns, repeated instances, missing values) encoded with random top_n "
        "(number or dict), include_unknown, drop_first, to_encode, inplace; monitors: kept columns untouched, labels are the most frequent "
        "values, every cell is (value == label), unknown is the rest, same result for any row order, argument left alone, and the definitions returned "
        "calculate the encoded matrix (also on other instances); distinct = encodings")
NEED = {"encodings": 600, "encoded": 600, "labels": 1500, "unknowns": 400, "kept": 500, "recalculated": 350, "others": 120, "inplace": 60, "drop_first": 150,
        "dict_top_n": 100, "category": 30, "passed": 150, "missing_cells": 300, "reloaded": 30, "multi": 15, "truncated": 200, "default_truncated": 10}


def extra(rng, w, es, target):
    out = []
    t = w.tables[target]
    for c, k in t.kinds.items():
        if k in ("cat", "ord", "fk", "zip") and rng.random() < 0.7:
            f = ft.Feature(es[target][c])
            if rng.random() < 0.25:
                f = f.rename(rng.choice(["index", "level_0", "count", "a = b", "0", "x is unknown", "Ünï"]))
            out.append(f)
        if k == "fk" and rng.random() < 0.6:
            p = t.fks[c]
            rel = ref.Builder(es, w).rel(p, target, c)
            for c2, k2 in w.tables[p].kinds.items():
                if k2 in ("cat", "ord", "zip", "fk") and rng.random() < 0.7:
                    out.append(ft.feature_base.DirectFeature(ft.Feature(es[p][c2]), es[target], relationship=rel))
    if rng.random() < 0.3:
        m = nmc_feature(rng, w, es, target, P.NMostCommon(n=2))
        if m is not None:
            out.append(m)
    return out


def case(rng, rec, tier):
    w = gen.gen_world(rng, nulls=rng.choice([0, 0.2]), kinds=("num", "int", "bool", "cat", "cat", "ord", "zip", "dt"), max_rows=rng.choice([14, 14, 50]))
    target = rng.choice(list(w.tables))
    many = rng.random() < 0.25
    if many:
        # more labels than are encoded unless told otherwise
        t = max(w.tables.values(), key=lambda t: (any(k == "cat" for k in t.kinds.values()), len(t.rows)))
        target = t.name
        for c, k in t.kinds.items():
            if k == "cat":
                for r in t.rows:
                    if r[c] is not None:
                        r[c] = "k%02d" % rng.randint(0, 30)
    es = gen.build_es(w, lti=False, rng=rng, shuffle=True)
    fg = ref.FeatureGen(rng, w, max_depth=2)
    build = ref.Builder(es, w)
    feats = [o for _, o in unique_features([fg.top(target) for _ in range(rng.randint(0, 4))], build)]
    seen = {n for f in feats for n in f.get_feature_names()}
    for f in extra(rng, w, es, target):
        if not seen & set(f.get_feature_names()):
            feats.append(f)
            seen |= set(f.get_feature_names())
    if many:
        for c, k in w.tables[target].kinds.items():
            f = ft.Feature(es[target][c])
            if k == "cat" and f.get_name() not in seen:
                feats.append(f)
                seen.add(f.get_name())
    if not feats:
        return
    rng.shuffle(feats)
    # a feature that is already called like an encoded column is left out
    names = [n for f in feats for n in f.get_feature_names()]
    feats = [f for f in feats if not any(n.startswith(o + " = ") for n in f.get_feature_names() for o in names)]
    if not feats:
        return
    for f in feats:
        if f.number_output_features > 1:
            rec.event("multi")
    _, df = cutoff_frame(rng, w, target, rng.randint(1, 60 if many else 12), n_times=2, missing=0.2)
    if not len(df):
        return
    passed = []
    if rng.random() < 0.4:
        df["label"] = [rng.choice(["yes", "no"]) for _ in range(len(df))]
        passed = ["label"]
    fm = ft.calculate_feature_matrix(feats, es, cutoff_time=df, cutoff_time_in_index=rng.random() < 0.5)
    # the encoding is decided on this matrix: optionally a part of it (as train / test splits do)
    names = [n for f in feats for n in f.get_feature_names()]
    cats = set()
    if rng.random() < 0.25:
        for f in feats:
            n = f.get_name()
            if f.number_output_features == 1 and fm[n].dtype == object and issubclass(f.variable_type, vt.Discrete) and rng.random() < 0.7:
                fm[n] = fm[n].astype("category")
                cats.add(n)
        if cats:
            rec.event("category")
    if rng.random() < (0.1 if many else 0.3) and len(fm) > 1:
        fm = fm.iloc[:rng.randint(1, len(fm))]
    part = len(fm)
    for _ in range(2):
        one(rng, rec, w, es, feats, fm.copy(), df, passed, names, cats, target, part)
        if rec.violations:
            return


def one(rng, rec, w, es, feats, fm, df, passed, names, cats, target, part):
    discrete = [f for f in feats if f.number_output_features == 1 and issubclass(f.variable_type, vt.Discrete)]
    dn = [f.get_name() for f in discrete]
    kw = {}
    top = 10
    if rng.random() < 0.8:
        top = rng.choice([1, 2, 3, 5, 50])
        if rng.random() < (0.7 if any(fm[n].nunique() > 10 for n in dn) else 0.35):
            rec.event("dict_top_n")
            top = {n: rng.choice([1, 2, 4]) for n in dn if rng.random() < 0.6}
        kw["top_n"] = top
    unknown = True
    if rng.random() < 0.5:
        unknown = kw["include_unknown"] = rng.random() < 0.5
    drop = False
    if rng.random() < 0.35:
        drop = kw["drop_first"] = True
        rec.event("drop_first")
    chosen = None
    if rng.random() < 0.35:
        chosen = kw["to_encode"] = [n for n in names if rng.random() < 0.6]
    inplace = rng.random() < 0.2
    if inplace:
        kw["inplace"] = True
        rec.event("inplace")
    info = lambda: "encode_features(%s, %s)" % (names, kw)
    before = freeze_frame(fm)
    states = [snap.feature_state(f) for f in feats]
    given = fm.copy()
    arg = list(feats)
    enc, fl = ft.encode_features(given, arg, **kw)
    rec.event("encodings")
    if inplace:
        given = fm
    rec.check(inplace or freeze_frame(given) == before, "matrix-changed", info)
    rec.check(len(arg) == len(feats) and all(x is y for x, y in zip(arg, feats)) and [snap.feature_state(f) for f in feats] == states, "features-changed", info)
    rec.check([norm(x) for x in enc.index] == [norm(x) for x in fm.index] and enc.index.names == fm.index.names, "index", info)
    # walk through the columns in the order of the features
    cols = list(enc.columns)
    got = [n for f in fl for n in f.get_feature_names()] + passed
    if not rec.check(cols == got, "columns-of-definitions", lambda: "%s: matrix %s, definitions %s" % (info(), cols, got)):
        return
    pos = 0
    fpos = 0
    for f in feats:
        fnames = f.get_feature_names()
        if f.number_output_features > 1 or fnames[0] not in dn or chosen is not None and fnames[0] not in chosen:
            for n in fnames:
                rec.event("kept")
                a, b = fm[n], enc.iloc[:, pos]
                rec.check(cols[pos] == n and str(a.dtype) == str(b.dtype) and all(same(x, y, 0, 0) for x, y in zip(a, b)), "kept-column",
                          lambda: "%s: %s is %s (%s), was %s (%s)" % (info(), n, list(b), cols[pos], list(a), a.dtype))
                pos += 1
            rec.check(fl[fpos] is f, "kept-feature", lambda: "%s: %s" % (info(), fl[fpos]))
            fpos += 1
            continue
        n = fnames[0]
        rec.event("encoded")
        vals = list(fm[n])
        counts = {}
        for v in vals:
            if norm(v) is not None:
                counts[norm(v)] = counts.get(norm(v), 0) + 1
        rec.event("missing_cells", sum(norm(v) is None for v in vals))
        want_n = top.get(n, 10) if isinstance(top, dict) else top
        lo, hi = len(counts), len(fm[n].cat.categories) if n in cats else len(counts)
        k_lo, k_hi = min(want_n, lo), min(want_n, hi)
        if drop:
            k_lo, k_hi = [max(k - 1, 1) if m else 0 for k, m in ((k_lo, lo), (k_hi, hi))]
        labels = []
        prefix = n + " = "
        while fpos < len(fl) and len(labels) < k_hi and fl[fpos].get_name().startswith(prefix) and hasattr(fl[fpos].primitive, "value"):
            lab = norm(fl[fpos].primitive.value)
            col = enc.iloc[:, pos]
            rec.check(fl[fpos].base_features[0] is f, "label-base", info)
            rec.check(all(bool(x) == (norm(v) == lab) and norm(x) in (0.0, 1.0) for x, v in zip(col, vals)), "label-cells",
                      lambda: "%s: %s: %s of %s" % (info(), cols[pos], list(col), vals))
            labels.append(lab)
            pos += 1
            fpos += 1
        rec.event("labels", len(labels))
        rec.check(k_lo <= len(labels) <= k_hi and len(set(labels)) == len(labels), "label-count",
                  lambda: "%s: %s has labels %s, wanted %d to %d of %s" % (info(), n, labels, k_lo, k_hi, counts))
        rest = [c for v, c in counts.items() if v not in labels]
        if rest:
            rec.event("truncated")
            if isinstance(top, dict) and n not in top:
                rec.event("default_truncated")
        rec.check(not rest or not labels or max(rest) <= min(counts.get(l, 0) for l in labels), "most-frequent",
                  lambda: "%s: %s has labels %s of %s" % (info(), n, labels, counts))
        if unknown:
            rec.event("unknowns")
            col = enc.iloc[:, pos]
            rec.check(cols[pos] == n + " is unknown" and all(bool(x) == (norm(v) not in labels) for x, v in zip(col, vals)), "unknown-cells",
                      lambda: "%s: %s: %s of %s, labels %s" % (info(), cols[pos], list(col), vals, labels))
            pos += 1
            fpos += 1
    for n in passed:
        rec.event("passed")
        rec.check(cols[pos] == n and list(enc.iloc[:, pos]) == list(fm[n]), "passed-through", info)
        pos += 1
    if not rec.check(pos == len(cols) and fpos == len(fl), "extra-columns", lambda: "%s: %s" % (info(), cols)):
        return
    # the order of the rows does not matter
    perm = list(range(len(fm)))
    rng.shuffle(perm)
    enc2, fl2 = ft.encode_features(fm.iloc[perm], feats, **{k: v for k, v in kw.items() if k != "inplace"})
    d = frame_diff(enc.iloc[perm], enc2)
    rec.check(d is None, "row-order", lambda: "%s: %s" % (info(), d))
    rec.nontrivial((tuple(cols), repr(kw)))
    # the definitions calculate the encoded matrix
    if not fl or len(set(cols)) < len(cols) or rng.random() < 0.4:
        return
    fl3 = fl
    if rng.random() < 0.15:
        rec.event("reloaded")
        fl3 = ft.load_features(ft.save_features(fl))
    again = ft.calculate_feature_matrix(fl3, es, cutoff_time=df, cutoff_time_in_index=True)
    base = ft.calculate_feature_matrix(feats, es, cutoff_time=df, cutoff_time_in_index=True)
    rec.event("recalculated")
    vis = []
    for i, T in zip(df["instance_id"], df["time"]):
        vis.append(norm(i) in {norm(r[w.tables[target].index]) for r in ref.Oracle(w, T, True, None, None).rows(target)})
    for i, c in enumerate(cols):
        a, b = list(enc.iloc[:, i]), list(again[c])[:part]
        if not rec.check(all(same(x, y) for x, y, v in zip(a, b, vis) if v), "recalculated", lambda: "%s: %s is %s, encoded %s; %s" % (info(), c, b, a, vis)):
            return
    rec.event("others", len(df) - part)
    for f in fl:
        if any(f is x for x in feats) or len(f.get_feature_names()) > 1 or hasattr(f.primitive, "value") is False:
            continue
        b = f.base_features[0].get_name()
        if b in base and f.get_name() in again:
            lab = norm(f.primitive.value)
            rec.check(all(bool(x) == (norm(v) == lab) for x, v, s in zip(again[f.get_name()], base[b], vis) if s), "other-instances",
                      lambda: "%s: %s is %s of %s" % (info(), f.get_name(), list(again[f.get_name()]), list(base[b])))
