"""C03: computed feature values equal the declarative meaning of the feature."""
import featuretools as ft
from .. import gen, ref
from ..common import same
from ..workload import random_window, window_arg, cutoff_frame, pick_instances, unique_features

CASES = {"quick": 500, "thorough": 9000}
RULE = ("random relational worlds (2-4 entities, multi-parent, ties, nulls, dangling/missing keys), random stacked "
        "features (identity/direct/agg/transform/groupby, where, use_previous), random cutoffs; a case is non-trivial "
        "when its feature set has a stacked or aggregating feature with at least one non-null expected value; "
        "distinct = distinct (feature expression) computed")
NEED = {"values_compared": 3000, "agg_nonnull": 500, "direct_nonnull": 100, "where_features": 30,
        "use_previous_features": 30, "groupby_features": 10, "fullentity_features": 20, "renamed_copies": 50}


def case(rng, rec, tier):
    w = gen.gen_world(rng, nulls=rng.choice([0.0, 0.15, 0.4]), kinds=("num", "num", "int", "bool", "cat", "ord", "dt",
                                                                     "text", "dob"))
    es = gen.build_es(w, lti=rng.random() < 0.7, rng=rng, shuffle=True)
    lti_on = any(e.last_time_index is not None for e in es.entities)
    target = rng.choice(list(w.tables))
    fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3, 4]), multi_unit=True, custom=True)
    fs = [fg.top(target) for _ in range(rng.randint(3, 8))]
    build = ref.Builder(es, w)
    pairs_f = unique_features(fs, build)
    fs = [p[0] for p in pairs_f]
    objs = [p[1] for p in pairs_f]
    for k in range(rng.choice([0, 0, 1, 2])):      # renamed copies mean the same
        j = rng.randrange(len(fs))
        fs.append(fs[j])
        objs.append(objs[j].rename(rng.choice(["aaa%d", "zzz%d"]) % k))
        rec.event("renamed_copies")
    both = list(zip(fs, objs))
    rng.shuffle(both)
    fs, objs = [b[0] for b in both], [b[1] for b in both]
    include = rng.random() < 0.7
    window = None
    if w.time_kind == "datetime" and lti_on and rng.random() < 0.25:
        window = random_window(rng)
    kw = dict(training_window=window_arg(rng, window), include_cutoff_time=include, cutoff_time_in_index=True,
              chunk_size=rng.choice([None, None, 1, 3, 0.5]))
    if rng.random() < 0.7:
        pairs, df = cutoff_frame(rng, w, target, rng.randint(1, 8), n_times=rng.randint(1, 3))
        fm = ft.calculate_feature_matrix(objs, es, cutoff_time=df, **kw)
    else:
        T = gen.pick_cutoffs(rng, w, 1)[0]
        ids = list(dict.fromkeys(pick_instances(rng, w, target, rng.randint(1, 6))))
        pairs = [(i, T) for i in ids]
        fm = ft.calculate_feature_matrix(objs, es, cutoff_time=T, instance_ids=ids, **kw)
    got_index = [tuple(x) for x in fm.index]
    rec.check([(a, b) for a, b in got_index] == pairs, "row-index", lambda: "rows %s wanted %s" % (got_index, pairs))
    lti = ref.last_times(w) if lti_on else None
    oracles = {}
    for ri, (iid, T) in enumerate(pairs):
        if T not in oracles:
            oracles[T] = ref.Oracle(w, T, include, window, lti)
        o = oracles[T]
        for f, obj in zip(fs, objs):
            want = o.value(f, iid)
            got = fm[obj.get_name()].iloc[ri]
            rec.event("values_compared")
            if not ref.isnull(want):
                rec.event(f.op + "_nonnull")
                if f.depth > 0:
                    rec.nontrivial(f.text())
            if not same(got, want, 1e-6, 1e-7):
                if o.infinite(f):
                    rec.event("skipped_infinite_intermediate")
                    continue
                rec.violation("value:%s:%s" % (f.op, getattr(f, "prim", "")),
                              "%s [%s] instance %r cutoff %s include=%s window=%s chunk=%s: got %r, meaning says %r\nworld=%s" % (
                                  obj.get_name(), f.text(), iid, T, include, window, kw["chunk_size"], got, want, w.describe()))
    for f in fs:
        for x in f.walk():
            if x.op == "agg" and x.where is not None:
                rec.event("where_features")
            if x.op == "agg" and x.use_previous:
                rec.event("use_previous_features")
            if x.op == "group":
                rec.event("groupby_features")
            if x.op == "seq":
                rec.event("fullentity_features")
    rec.sample({"target": target, "features": [o.get_name() for o in objs], "cutoffs": [str(p) for p in pairs][:4],
                "include": include, "window": str(window)})
