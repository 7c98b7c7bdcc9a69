"""C11: saved feature definitions load as the same features."""
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd

import featuretools as ft
from featuretools import primitives as P
from featuretools.feature_base import AggregationFeature, DirectFeature, GroupByTransformFeature, IdentityFeature, TransformFeature
from featuretools.entityset.relationship import RelationshipPath
from .. import dfswork as D, feat, gen, ref, snap
from ..common import same
from ..workload import cutoff_frame, nmc_feature, unique_features

CASES = {"quick": 260, "thorough": 4000}
RULE = ("feature lists from random ASTs, from dfs and hand-made ones (multi-output and their slices, renamed features and bases, "
        "where, use_previous in every unit, several paths, groupby on its own input, primitives with arguments) saved to string, path "
        "and open file and loaded here and in fresh processes; monitors: structure (independent canonical form), names, types, defaults, "
        "order, EntitySet description, second save equal to the first, same matrix; distinct = feature lists")
NEED = {"lists": 200, "features": 2000, "matrices": 100, "renamed": 50, "multi_output": 60, "slices": 40, "where": 60, "use_previous": 60,
        "group": 100, "fresh_process": 10, "two_paths": 15, "parameters": 60}


def odd_features(rng, w, es, target):
    """features the generators do not make"""
    out = []
    b = ref.Builder(es, w)
    nmc = nmc_feature(rng, w, es, target, prim=P.NMostCommon(n=rng.choice([1, 2, 3, 4])))
    if nmc is not None:
        out.append(nmc)
        if nmc.number_output_features > 1:
            s = nmc[rng.randrange(nmc.number_output_features)]
            out.append(s)
            if rng.random() < 0.5:
                out.append(TransformFeature([s], primitive=P.IsNull))
            if rng.random() < 0.3:
                out.append(nmc.rename("mostcommon"))
            if rng.random() < 0.3:
                out.append(s.rename("one of them"))
            if rng.random() < 0.3:
                ren = nmc.rename("renamed most")
                out.append(TransformFeature([ren[0]], primitive=P.IsNull))
    for fk, p in w.tables[target].fks.items():
        n2 = nmc_feature(rng, w, es, p, prim=P.NMostCommon(n=2))
        if n2 is not None and rng.random() < 0.6:
            d = DirectFeature(n2, es[target], relationship=b.rel(p, target, fk))
            out += [d, d[1], DirectFeature(n2[0], es[target], relationship=b.rel(p, target, fk))]
    me = [IdentityFeature(v) for v in es[target].variables]
    disc = [f for f in me if issubclass(f.variable_type, ft.variable_types.Discrete)]
    num = [f for f in me if issubclass(f.variable_type, ft.variable_types.Numeric)]
    if disc:
        g = rng.choice(disc)
        out.append(GroupByTransformFeature([g], primitive=P.CumCount, groupby=g))
        if num:
            x = rng.choice(num)
            out.append(GroupByTransformFeature([x], primitive=rng.choice([P.CumSum, P.Diff, P.CumMean(), P.Percentile]), groupby=g))
            out.append(GroupByTransformFeature([x], primitive=P.CumMax, groupby=g.rename("the group")))
            if rng.random() < 0.3 and issubclass(g.variable_type, ft.variable_types.Numeric):
                out.append(GroupByTransformFeature([g], primitive=P.CumSum, groupby=g))
    for x in rng.sample(num, min(2, len(num))):
        s = rng.choice([0, -1, 2.5, True, 7, float("inf"), 1e300, 10 ** 12])
        out += [rng.choice([x + s, x - s, s - x, x * s, x > s, x <= s, x == s, x != s, x % 3, 5 % x, 1.5 / x, -x, x.isin([1, 2.5, 3]), x.isin([]),
                            abs(x)])]
        out.append(AggregationLike(rng, w, es, target, x))
    for x in [f for f in disc if w.tables[target].kinds.get(f.variable.id) in ("cat", "zip")][:1]:
        v = rng.choice(["alpha", "", "quo\"te", "日本", "a: b", "02116", None, "nan"])
        out += [x == v, x != v, x.isin(["alpha", v]), x.isin([1, None, "2"])]
    dts = [f for f in me if f.variable_type == ft.variable_types.Datetime]
    for x in dts[:1] if w.time_kind != "numeric" else []:
        out += [TransformFeature([x], primitive=P.TimeSince(unit=rng.choice(["hours", "days", "seconds"]))), TransformFeature([x], primitive=P.IsWeekend)]
    return [f for f in out if f is not None]


def AggregationLike(rng, w, es, target, x):
    """an aggregation with where, use_previous and arguments over a random child path"""
    b = ref.Builder(es, w)
    rels = [r for r in w.rels if r[0] == target]
    if not rels:
        return None
    p, c, col = rng.choice(rels)
    path = [(False, b.rel(p, c, col))]
    more = [r for r in w.rels if r[0] == c]
    if more and rng.random() < 0.5:
        p, c, col = rng.choice(more)
        path.append((False, b.rel(p, c, col)))
    kid = [IdentityFeature(v) for v in es[c].variables]
    nums = [f for f in kid if f.variable_type == ft.variable_types.Numeric]
    if not nums:
        return None
    y = rng.choice(nums)
    where = up = None
    if rng.random() < 0.6:
        z = rng.choice(nums)
        where = rng.choice([z > 0, z <= 2.5, TransformFeature([z > 0], primitive=P.Not), (z > 1) & (z < 5), (z == 1).rename("is one")])
    if w.tables[c].time_index and rng.random() < 0.8:
        if w.time_kind == "numeric":
            up = rng.choice([ft.Timedelta(3, "o"), ft.Timedelta(1, "observations")])
        else:
            up = rng.choice([ft.Timedelta(3, "o"), ft.Timedelta(2, "h"), ft.Timedelta(30, "m"), ft.Timedelta(1, "mo"), ft.Timedelta(2, "Y"),
                             ft.Timedelta({"d": 2, "h": 3}), ft.Timedelta({"Y": 1, "mo": 2}), ft.Timedelta(1.5, "d"), ft.Timedelta("3 weeks"),
                             ft.Timedelta(90, "seconds"), "2 days", "4 observations"])
    prim = rng.choice([P.Sum, P.Mean, P.Max(), P.Std, P.Count, P.Last])
    if prim is P.Count:
        y = kid[0] if kid[0].variable_type == ft.variable_types.Index else [k for k in kid if k.variable_type == ft.variable_types.Index][0]
    f = AggregationFeature([y], parent_entity=es[target], relationship_path=RelationshipPath(path), primitive=prim, where=where, use_previous=up)
    return f.rename("agg of %s" % rng.randint(0, 99)) if rng.random() < 0.2 else f


def renamed(rng, fs):
    """some features renamed, and features on renamed features"""
    out = []
    for i, f in enumerate(fs):
        r = rng.random()
        if r < 0.12:
            f = f.rename(rng.choice(["new %d" % i, "n(%d)" % i, "a, %d" % i, "Ünï %d" % i]))
        elif r < 0.2 and f.number_output_features == 1:
            f = TransformFeature([f.rename("base%d" % i)], primitive=P.IsNull)
        out.append(f)
    return out


def names_are_identities(fs):
    """features are identified by entity and name: what is saved must not use one name for two features"""
    seen = {}
    for f in fs:
        for x in feat.walk(f):
            k = (x.entity.id, x.get_name())
            c = feat.canon(x)
            if seen.setdefault(k, c) != c:
                return False
    return True


def make(rng, w, es, target):
    fs = []
    src = rng.choice(["ast", "dfs", "mixed"])
    if src in ("ast", "mixed"):
        fg = ref.FeatureGen(rng, w, max_depth=rng.choice([1, 2, 3, 4]), multi_unit=True)
        fs += [o for _, o in unique_features([fg.top(target) for _ in range(rng.randint(1, 6))], ref.Builder(es, w))]
    if src in ("dfs", "mixed"):
        a = D.request(rng, w, es, target, max_depth=rng.choice([1, 2, 2, 3]))
        fl = ft.dfs(**a)
        fs += rng.sample(fl, min(len(fl), 15))
    fs = renamed(rng, fs)
    fs += odd_features(rng, w, es, target)
    rng.shuffle(fs)
    if rng.random() < 0.3:
        # definitions of several entities can be saved together
        other = rng.choice(list(w.tables))
        fg = ref.FeatureGen(rng, w, max_depth=2)
        fs += [o for _, o in unique_features([fg.top(other)], ref.Builder(es, w))]
    out = []
    for f in fs:
        if names_are_identities(out + [f]):
            if any(f.unique_name() == o.unique_name() for o in out):
                continue
            out.append(f)
    return out


def full(f):
    """everything about a feature, names included"""
    return (feat.canon(f), tuple((type(x).__name__, x.entity.id, x.get_name(), tuple(x.get_feature_names()), x.variable_type.__name__,
                                  x.number_output_features, repr(x.default_value), str(x.relationship_path), x.get_depth())
                                 for x in feat.walk(f)))


def case(rng, rec, tier):
    w = gen.gen_world(rng, kinds=D.KINDS, n_tables=rng.choice([1, 2, 3, 3, 4]))
    es, iv = D.load(rng, w, lti=rng.random() < 0.4)
    if rng.random() < 0.4:
        es.add_interesting_values(max_values=rng.choice([1, 3]))
    target = rng.choice(list(w.tables))
    fs = make(rng, w, es, target)
    if not fs:
        return
    info = lambda: "features=%s world=%s" % ([f.get_name() for f in fs][:12], w.describe())  # noqa
    if not D.is_tree(w):
        rec.event("two_paths")
    for f in fs:
        rec.event("features")
        k = feat.kind(f)
        rec.event({"group": "group", "slice": "slices"}.get(k, "kind:" + k))
        if f.number_output_features > 1:
            rec.event("multi_output")
        if f._name and f._name != f.generate_name():
            rec.event("renamed")
        for x in feat.walk(f):
            if feat.kind(x) == "agg":
                rec.event("where", x.where is not None)
                rec.event("use_previous", x.use_previous is not None)
            if x.primitive is not None and feat.kind(x) in ("agg", "trans") and x.primitive.get_arguments():
                rec.event("parameters")
    before = [full(f) for f in fs]
    d = tempfile.mkdtemp(prefix="ftv-c11-")
    try:
        how = rng.choice(["string", "path", "file", "stringio"])
        text = ft.save_features(fs)
        p = os.path.join(d, rng.choice(["f.json", "x y.json", "noext"]))
        if how == "string":
            got = ft.load_features(text)
        elif how == "path":
            ft.save_features(fs, p)
            got = ft.load_features(p)
        elif how == "file":
            with open(p, "w") as fh:
                ft.save_features(fs, fh)
            with open(p) as fh:
                got = ft.load_features(fh)
        else:
            buf = io.StringIO()
            ft.save_features(fs, buf)
            buf.seek(0)
            got = ft.load_features(buf)
        if how in ("path", "file"):
            rec.check(json.loads(open(p).read()) == json.loads(text) or "NaN" in text, "same-text", lambda: "%s differs from the string; %s" % (how, info()))
        rec.event("lists")
        compare(rec, fs, got, before, info, "loaded")
        rec.check([full(f) for f in fs] == before, "saving-changed", lambda: info())
        # an EntitySet description goes along
        a, b = snap.es_state(fs[0].entityset, data=False), snap.es_state(got[0].entityset, data=False)
        diff = snap.diff_state(strip(a), strip(b))
        rec.check(diff is None, "entityset", lambda: "EntitySet of the loaded features: %s; %s" % (diff, info()))
        text2 = ft.save_features(got)
        rec.check(defs(text2) == defs(text), "second-save", lambda: "saving what was loaded gives something else: %s; %s" % (
            delta(defs(text), defs(text2)), info()))
        # in any order, and any part of the list
        part = rng.sample(fs, rng.randint(1, len(fs)))
        compare(rec, part, ft.load_features(ft.save_features(part)), [full(f) for f in part], info, "part")
        if rng.random() < 0.08:
            fresh(rec, d, fs, text, before, info)
        mine = [i for i, f in enumerate(fs) if f.entity.id == target]
        if rng.random() < 0.6 and mine:
            matrix(rng, rec, w, es, target, [fs[i] for i in mine], [got[i] for i in mine], info)
    finally:
        shutil.rmtree(d)
    rec.nontrivial([c for c, _ in before])
    rec.sample({"features": [f.get_name() for f in fs][:5], "how": how})


def strip(s):
    """without what a description of an EntitySet does not have"""
    s = dict(s)
    for k, v in list(s.items()):
        if k.startswith("e:"):
            s[k] = {x: y for x, y in v.items() if x not in ("created_index",)}
    return s


def defs(text):
    d = json.loads(text)
    return json.dumps([d["feature_list"], d["feature_definitions"], d["entityset"]], sort_keys=True)


def delta(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%r / %r" % (a[max(0, i - 60):i + 60], b[max(0, i - 60):i + 60])


def compare(rec, fs, got, before, info, what):
    if not rec.check(len(got) == len(fs), what + ":count", lambda: "%d features saved, %d loaded; %s" % (len(fs), len(got), info())):
        return
    for f, g, b in zip(fs, got, before):
        x = full(g)
        rec.check(x[0] == b[0], "%s:structure:%s" % (what, feat.kind(f)), lambda: "%s loads as another feature: %s / %s; %s" % (
            f.get_name(), b[0], x[0], info()))
        if x[0] == b[0]:
            rec.check(x[1] == b[1], "%s:attributes:%s" % (what, feat.kind(f)), lambda: "%s: %s; %s" % (
                f.get_name(), [(p, q) for p, q in zip(b[1], x[1]) if p != q][:2], info()))


def matrix(rng, rec, w, es, target, fs, got, info):
    pairs, df = cutoff_frame(rng, w, target, rng.randint(1, 5), missing=0)
    if not pairs:
        return
    keep, seen = [], set()
    for i, f in enumerate(fs):      # a column can be asked for once
        if not seen & set(f.get_feature_names()):
            seen |= set(f.get_feature_names())
            keep.append(i)
    fs, got = [fs[i] for i in keep], [got[i] for i in keep]
    a = ft.calculate_feature_matrix(fs, es, cutoff_time=df.copy())
    b = ft.calculate_feature_matrix(got, es, cutoff_time=df.copy())
    rec.event("matrices")
    if not rec.check(list(a.columns) == list(b.columns) and list(a.index) == list(b.index), "matrix:shape", lambda: "%s / %s; %s" % (
            list(a.columns), list(b.columns), info())):
        return
    for i, c in enumerate(a.columns):
        bad = [(x, y) for x, y in zip(a.iloc[:, i].tolist(), b.iloc[:, i].tolist()) if not same(x, y, 1e-9, 1e-12)]
        rec.check(not bad, "matrix:value", lambda: "%s computed by the loaded features: %s; %s" % (c, bad[:3], info()))


CODE = """
import sys, json
from ftv.checks import c11
import featuretools as ft
fs = ft.load_features(sys.argv[1])
print(json.dumps([repr(c11.full(f)) for f in fs]))
print(json.dumps(c11.defs(ft.save_features(fs))))
"""


def fresh(rec, d, fs, text, before, info):
    p = os.path.join(d, "fresh.json")
    with open(p, "w") as f:
        f.write(text)
    env = dict(os.environ, PYTHONHASHSEED="random")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", CODE, p], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    rec.event("fresh_process")
    lines = [x for x in r.stdout.splitlines() if x.startswith(("[", '"'))]
    if not rec.check(r.returncode == 0 and len(lines) == 2, "fresh:raised", lambda: "%s; %s" % (r.stderr[-1500:], info())):
        return
    got = json.loads(lines[0])
    for f, g, b in zip(fs, got, before):
        rec.check(g == repr(b), "fresh:structure", lambda: "%s in a fresh process: %s / %s; %s" % (f.get_name(), repr(b)[:600], g[:600], info()))
    rec.check(len(got) == len(fs), "fresh:count", info)
    rec.check(json.loads(lines[1]) == defs(text), "fresh:second-save", info)

