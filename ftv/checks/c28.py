"""C28: definitions made on one EntitySet mean the same on every other EntitySet of the same shape."""
import copy
import pickle

import featuretools as ft
from .. import dfswork, gen, ref, snap
from ..common import same, frame_diff
from ..workload import random_window, window_arg, cutoff_frame, pick_instances, unique_features

CASES = {"quick": 330, "thorough": 6000}
RULE = ("definitions are made on one random EntitySet (node by node, by dfs or by encode_features; then kept, saved and loaded, pickled or "
        "copied) and calculated in turns on it and on 1-3 others with other data of the same shape: new ones in another physical order, with further columns, "
        "children and unrelated entities, other interesting values and another id, or the old one with its data updated; every cell against the row-at-a-time model "
        "of the data at hand; non-trivial when a stacked feature has a value on an EntitySet it was not made on; distinct = (feature, how carried)")
NEED = {"values_compared": 15000, "elsewhere_nonnull": 4000, "made": 60, "made_by_dfs": 25, "encoded": 25, "loaded": 40, "pickled": 20, "updated": 60,
        "with_more_columns": 60, "with_more_entities": 60, "again": 100, "encoded_cells": 100}
KINDS = ("num", "num", "int", "bool", "cat", "cat", "ord", "dt", "text", "dob")


def more_columns(rng, w, names):
    for t in w.tables.values():
        if rng.random() < 0.6:
            kind = rng.choice(["num", "cat", "bool", "dt"])
            c = rng.choice(["extra", "v7", "value", "label"] + list(names) * 2)
            if c in t.kinds:
                continue
            if c in names:
                kind = "num"
            t.kinds[c] = kind
            if rng.random() < 0.5:      # in front
                t.kinds = dict([(c, kind)] + [(k, v) for k, v in t.kinds.items() if k != c])
            for r in t.rows:
                r[c] = gen._val(rng, kind, 0.2)


def more_entities(rng, w):
    for name in rng.sample(["extra1", "A0", "zz"], rng.randint(1, 2)):
        t = gen.Table(name, "xid")
        t.kinds["xid"] = "index"
        if rng.random() < 0.7:
            p = rng.choice(list(w.tables))
            t.kinds["to"] = "fk"
            t.fks["to"] = p
        if rng.random() < 0.6:
            t.time_index = "time"
            t.kinds["time"] = "time"
        t.kinds["v0"] = "num"
        for k in range(rng.randint(1, 6)):
            r = {}
            for c, kind in t.kinds.items():
                if kind == "index":
                    r[c] = k if w.idkind.startswith("int") else "k%02d" % k
                elif kind == "fk":
                    rows = w.tables[t.fks[c]].rows
                    r[c] = rng.choice(rows)[w.tables[t.fks[c]].index] if rows else ("zz" if w.idkind == "str" else 999)
                elif kind == "time":
                    h = rng.randint(0, 80)
                    r[c] = gen.T0 + h * gen.HOUR if w.time_kind == "datetime" else float(h)
                else:
                    r[c] = gen._val(rng, kind, 0.2)
            t.rows.append(r)
        w.tables[name] = t
        if rng.random() < 0.5:      # loaded first
            w.tables = dict([(name, t)] + [(k, v) for k, v in w.tables.items() if k != name])


class Place:
    def __init__(self, w, es, lti, how):
        self.w, self.es, self.lti_on, self.how = w, es, lti, how
        self.lti = ref.last_times(w) if lti else None


def other(rng, rec, w, es, lti, plain=False, names=()):
    nulls = rng.choice([0.0, 0.15, 0.5])
    w2 = gen.refill(rng, w, nulls=nulls, max_rows=rng.choice([5, 14, 20]), time_span=rng.choice([5, 60, 200]),
                    dangling=rng.choice([0, 0.04, 0.2]))
    if not plain and rng.random() < 0.3:        # the same EntitySet (or a copy of it) with new data
        es2 = copy.deepcopy(es) if rng.random() < 0.8 else es
        names = list(w2.tables)
        rng.shuffle(names)
        for n in names:
            rows = list(w2.tables[n].rows)
            if w2.tables[n].time_index is not None:
                rng.shuffle(rows)
            es2[n].update_data(gen.frame(w2, n, rows, list(es2[n].df.columns)), already_sorted=False, recalculate_last_time_indexes=False)
        if lti:
            es2.add_last_time_indexes()
        rec.event("updated")
        return Place(w2, es2, lti, "updated" if es2 is not es else "updated in place")
    how = "new"
    if not plain and rng.random() < 0.5:
        more_columns(rng, w2, names)
        rec.event("with_more_columns")
        how += " with more columns"
    if not plain and rng.random() < 0.5:
        more_entities(rng, w2)
        rec.event("with_more_entities")
        how += " with more entities"
    es2 = gen.build_es(w2, lti=lti, rng=rng, shuffle=not plain, es_id=rng.choice(["es", "production", None]))
    for e in es2.entities:
        for v in e.variables:
            if rng.random() < 0.2 and w2.tables[e.id].kinds[v.id] == "cat":
                v.interesting_values = ["beta", "alpha"]
    return Place(w2, es2, lti, how)


def carry(rng, rec, objs):
    how = rng.choice(["kept", "kept", "loaded", "pickled", "copied"])
    if how == "loaded":
        objs = ft.load_features(ft.save_features(objs))
        rec.event("loaded")
    elif how == "pickled":
        objs = pickle.loads(pickle.dumps(objs))
        rec.event("pickled")
    elif how == "copied":
        objs = [copy.copy(o) for o in objs]
    return objs, how


def request(rng, w, target, lti):
    include = rng.random() < 0.7
    window = random_window(rng) if w.time_kind == "datetime" and lti and rng.random() < 0.2 else None
    kw = dict(training_window=window_arg(rng, window), include_cutoff_time=include, cutoff_time_in_index=True,
              chunk_size=rng.choice([None, None, 1, 3]))
    if rng.random() < 0.7:
        pairs, df = cutoff_frame(rng, w, target, rng.randint(2, 12), n_times=rng.randint(1, 3))
        kw["cutoff_time"] = df
    else:
        T = gen.pick_cutoffs(rng, w, 1)[0]
        ids = list(dict.fromkeys(pick_instances(rng, w, target, rng.randint(1, 8))))
        pairs = [(i, T) for i in ids]
        kw.update(cutoff_time=T, instance_ids=ids)
    return pairs, include, window, kw


def case(rng, rec, tier):
    w = gen.gen_world(rng, nulls=rng.choice([0.0, 0.15, 0.4]), kinds=KINDS)
    lti = rng.random() < 0.6
    es = gen.build_es(w, lti=lti, rng=rng, shuffle=True)
    target = rng.choice(list(w.tables))
    r = rng.random()
    if r < 0.15:
        by_dfs(rng, rec, w, es, lti, target)
    elif r < 0.35:
        by_encoding(rng, rec, w, es, lti, target)
    else:
        by_hand(rng, rec, w, es, lti, target)


def features(rng, w, es, target, n, exclude=()):
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3, 4]), multi_unit=True, exclude=exclude)
    fs = unique_features([fg.top(target) for _ in range(n)], ref.Builder(es, w))
    return [f[0] for f in fs], [f[1] for f in fs]


def by_hand(rng, rec, w, es, lti, target):
    fs, objs = features(rng, w, es, target, rng.randint(3, 8))
    rec.event("made")
    keep = [snap.feature_state(o) for o in objs]
    names = [o.get_name() for o in objs]
    places = [Place(w, es, lti, "where they were made")]
    below = sorted({d.get_name() for o in objs for d in [o] + o.get_dependencies(deep=True) if d.base_features})
    for _ in range(rng.randint(1, 3)):
        p = other(rng, rec, w, es, rng.random() < 0.6, names=below)
        if p.es is es:
            places = [q for q in places if q.es is not es]
        places.append(p)
    states = [snap.es_state(p.es) for p in places]
    objs, how = carry(rng, rec, objs)
    order = list(range(len(places))) + [rng.randrange(len(places)) for _ in range(rng.randint(0, 2))]
    rng.shuffle(order)
    seen = set()
    for k in order:
        p = places[k]
        if k in seen:
            rec.event("again")
        seen.add(k)
        pairs, include, window, kw = request(rng, p.w, target, p.lti_on)
        fm = ft.calculate_feature_matrix(objs, p.es, **kw)
        rec.check(list(fm.columns) == names, "columns", lambda: "%s wanted %s" % (list(fm.columns), names))
        rec.check([tuple(x) for x in fm.index] == pairs, "row-index", lambda: "rows %s wanted %s" % (list(fm.index), pairs))
        oracles = {}
        for ri, (iid, T) in enumerate(pairs):
            if T not in oracles:
                oracles[T] = ref.Oracle(p.w, T, include, window, p.lti)
            o = oracles[T]
            for name, f in zip(names, fs):
                want = o.value(f, iid)
                got = fm[name].iloc[ri]
                rec.event("values_compared")
                if not ref.isnull(want) and p.es is not es:
                    rec.event("elsewhere_nonnull")
                    if f.depth > 0:
                        rec.nontrivial((f.text(), how, p.how))
                if not same(got, want, 1e-6, 1e-7) and not o.infinite(f):
                    rec.violation("value:%s:%s" % (f.op, getattr(f, "prim", "")),
                                  "%s [%s] (%s) on the EntitySet %s, instance %r cutoff %s include=%s window=%s: got %r, its data say %r; order %s; world=%s" % (
                                      name, f.text(), how, p.how, iid, T, include, window, got, want, [places[j].how for j in order], p.w.describe()))
    for p, s in zip(places, states):
        d = snap.diff_state(s, snap.es_state(p.es))
        rec.check(d is None, "entityset-changed", lambda: "the EntitySet %s: %s" % (p.how, d))
    rec.check([snap.feature_state(o) for o in objs] == keep, "features-changed", lambda: "%s" % names)
    rec.sample({"features": names, "places": [p.how for p in places], "order": order, "carried": how})


def by_dfs(rng, rec, w, es, lti, target):
    agg, tr = dfswork.all_prims()
    if w.time_kind == "numeric":        # their times are not those of the cutoffs
        for n in ("time_since_last", "time_since_first", "time_since", "age"):
            agg.pop(n, None)
            tr.pop(n, None)
    # which paths are taken within max_depth can depend on the order of relationships
    es = gen.build_es(w, lti=lti)
    opts = dict(target_entity=target, agg_primitives=rng.sample(sorted(agg), 4), trans_primitives=rng.sample(sorted(tr), 3),
                max_depth=rng.choice([1, 2, 2]), features_only=True)
    if rng.random() < 0.4:
        opts["groupby_trans_primitives"] = rng.sample(["cum_sum", "cum_count", "cum_max", "diff"], 1)
    defs = ft.dfs(entityset=es, **opts)
    p = other(rng, rec, w, es, rng.random() < 0.6, plain=True)
    for e in p.es.entities:
        for v in e.variables:
            v.interesting_values = []
    there = ft.dfs(entityset=p.es, **opts)
    rec.event("made_by_dfs")
    names = [f.get_name() for f in defs]
    if not rec.check(sorted(names) == sorted(f.get_name() for f in there), "dfs-elsewhere",
                     lambda: "dfs on data of the same shape: only here %s, only there %s (options %s)" % (
                         sorted(set(names) - {f.get_name() for f in there}), sorted({f.get_name() for f in there} - set(names)), opts)):
        return
    byname = {f.get_name(): f for f in there}
    rng.shuffle(defs)
    defs = defs[:60]
    names = [f.get_name() for f in defs]
    defs, how = carry(rng, rec, defs)
    pairs, include, window, kw = request(rng, p.w, target, p.lti_on)
    a = ft.calculate_feature_matrix(defs, p.es, **kw)
    b = ft.calculate_feature_matrix([byname[n] for n in names], p.es, **kw)
    rec.event("values_compared", a.size)
    rec.event("elsewhere_nonnull", int(a.notna().values.sum()))
    for n in names:
        rec.nontrivial((n, how, "dfs"))
    d = frame_diff(a, b)
    rec.check(d is None, "dfs-values", lambda: "definitions made elsewhere (%s) and here differ: %s; %s" % (how, d, p.w.describe()))


def by_encoding(rng, rec, w, es, lti, target):
    fs, objs = features(rng, w, es, target, rng.randint(4, 8), exclude=("equal_scalar", "not_equal_scalar"))
    mine = {o.get_name() for o in objs}
    for c, k in w.tables[target].kinds.items():
        if k in ("cat", "ord", "bool") and c not in mine:
            objs.append(ft.Feature(es[target][c]))
    pairs, include, window, kw = request(rng, w, target, lti)
    fm = ft.calculate_feature_matrix(objs, es, **kw)
    efm, defs = ft.encode_features(fm, objs, top_n=rng.choice([2, 3, 10]), include_unknown=rng.random() < 0.7)
    rec.event("encoded")
    defs, how = carry(rng, rec, defs)
    p = other(rng, rec, w, es, rng.random() < 0.6)
    pairs, include, window, kw = request(rng, p.w, target, p.lti_on)
    got = ft.calculate_feature_matrix(defs, p.es, **kw)
    base = ft.calculate_feature_matrix(objs, p.es, **kw)
    names = [f.get_name() for f in defs]
    rec.check(list(got.columns) == names == list(efm.columns), "encoded-columns", lambda: "%s wanted %s" % (list(got.columns), list(efm.columns)))
    for o in objs:
        n = o.get_name()
        labels = [c for c in names if c.startswith(n + " = ")]
        unknown = n + " is unknown"
        if n in names:
            for i in range(len(base)):
                rec.event("values_compared")
                rec.check(same(got[n].iloc[i], base[n].iloc[i]), "encoded-kept", lambda: "%s row %d: %r not %r" % (n, i, got[n].iloc[i], base[n].iloc[i]))
            continue
        if any(m != n and m.startswith(n + " = ") for m in [x.get_name() for x in objs]):
            continue
        texts = [c[len(n) + 3:] for c in labels]
        for i in range(len(base)):
            v = base[n].iloc[i]
            known = False
            for c, x in zip(labels, texts):
                want = (not ref.isnull(v)) and (str(v) == x or (isinstance(v, float) and v == int(v) and str(int(v)) == x) or (
                    not isinstance(v, str) and _num(x) is not None and not isinstance(v, bool) and _num(x) == v))
                known = known or want
                rec.event("encoded_cells")
                rec.nontrivial((c, want, how))
                rec.check((not ref.isnull(got[c].iloc[i]) and bool(got[c].iloc[i])) == want, "encoded-value", lambda: "%s (%s) on the EntitySet %s row %d with value %r: %r" % (c, how, p.how, i, v, got[c].iloc[i]))
            if unknown in names:
                rec.check(ref.isnull(got[unknown].iloc[i]) or bool(got[unknown].iloc[i]) == (not known), "encoded-unknown", lambda: "%s row %d with value %r: %r, labels %s" % (unknown, i, v, got[unknown].iloc[i], texts))


def _num(x):
    try:
        return float(x)
    except ValueError:
        return None
