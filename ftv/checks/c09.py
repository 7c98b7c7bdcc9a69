"""C09: every feature dfs returns is a legitimate answer to the request, the
list is deterministic, and all of it can be computed."""
import json
import os
import random
import subprocess
import sys

import featuretools as ft
from .. import dfswork as D, feat, gen
from ..common import VERIF

CASES = {"quick": 400, "thorough": 6000}
RULE = ("random entity sets (1-4 tables, several paths, all variable types, interesting values) x random dfs requests over all "
        "built-in primitives; monitors walk every feature returned and check membership of its primitives, input types, "
        "depth, stacking, where, ignore/allowed/option rules, unique names, order; the list is recomputed in this process and "
        "in processes with other hash seeds; a sample is computed; distinct = (request, schema)")
NEED = {"features": 3000, "subfeatures": 5000, "where_features": 80, "multi_output": 15, "groupby": 100, "with_options": 80,
        "computed": 1500, "seeded": 40, "hashseed_lists": 20, "limited": 40, "chains": 15, "allowed_paths": 20, "stacking_rules": 60}


def build(rng, rec):
    if rng.random() < 0.12:
        w = D.world(rng, n_tables=rng.choice([4, 5, 5]), chain=True, two_paths=False, extra_cols=(1, 2), kinds=("num", "int", "cat", "bool"))
        w.chain = True
    else:
        w = D.world(rng)
        w.chain = False
    es, iv = D.load(rng, w, interesting=2 if w.chain else 0.5)
    target = rng.choice(list(w.tables))
    a = D.request(rng, w, es, target, rng.choice([1, 1, 2, 2, 2, 2, 3, 3, 4, -1]) if len(w.tables) < 4 else rng.choice([1, 2, 2, 3]))
    if w.chain:
        # where clauses far below each other: few columns, few primitives, a deep request
        target = list(w.tables)[0]
        names = rng.sample(["mean", "max", "sum", "count", "num_unique", "last", "std"], 2)
        a = D.request(rng, w, es, target, rng.choice([3, 4, 5, 5]) if len(w.tables) < 5 else 4)
        a.update(agg_primitives=names, where_primitives=names, groupby_trans_primitives=[],
                 trans_primitives=a["trans_primitives"] if rng.random() < 0.3 else [])
        if rec is not None:
            rec.event("chains")
    others = [n for n in w.tables if n != target]
    if rng.random() < 0.25 and others:
        a["ignore_entities"] = rng.sample(others, rng.randint(1, len(others)))
    if rng.random() < 0.3:
        a["ignore_variables"] = {n: rng.sample(list(t.kinds), rng.randint(1, 2)) for n, t in w.tables.items() if rng.random() < 0.6}
    if rng.random() < 0.2:
        a["allowed_paths"] = paths(rng, w, target)
    if rng.random() < 0.3:
        a["drop_contains"] = rng.sample(["COUNT", "MEAN", "v0", "YEAR", "a b", "num"], rng.randint(1, 2))
    if rng.random() < 0.2:
        a["max_features"] = rng.randint(1, 12)
    if rng.random() < 0.3:
        a["primitive_options"] = options(rng, w, a)
    return w, es, iv, target, a


def paths(rng, w, target):
    """allowed entity paths: prefixes closed under shortening, from random walks"""
    out = {(target,)}
    adj = {n: set() for n in w.tables}
    for p, c, _ in w.rels:
        adj[p].add(c)
        adj[c].add(p)
    for _ in range(rng.randint(1, 3)):
        cur = [target]
        while rng.random() < 0.7 and adj[cur[-1]]:
            cur.append(rng.choice(sorted(adj[cur[-1]])))
            out.add(tuple(cur))
    return [list(x) for x in sorted(out)]


def options(rng, w, a):
    out = {}
    prims = D.prim_classes(a["agg_primitives"] + a["trans_primitives"])
    if not prims:
        return {}
    for p in rng.sample(prims, min(len(prims), 2)):
        o = {}
        names = list(w.tables)
        kind = rng.choice(["ignore_entities", "include_entities", "ignore_variables", "include_variables"])
        if kind.endswith("entities"):
            o[kind] = rng.sample(names, rng.randint(1, len(names)))
        else:
            n = rng.choice(names)
            o[kind] = {n: rng.sample(list(w.tables[n].kinds), rng.randint(1, len(w.tables[n].kinds)))}
        if p.name not in out:
            out[p.name] = o
    return out


def instances(ps):
    return D.prim_classes(ps)


def case(rng, rec, tier):
    w, es, iv, target, a = build(rng, rec)
    if rng.random() < 0.3:
        with D.Stacking(rng, a) as st:
            rec.event("stacking_rules")
            request(rng, rec, w, es, iv, target, a, st)
    else:
        request(rng, rec, w, es, iv, target, a)


def request(rng, rec, w, es, iv, target, a, st=None):
    seeds = []
    if rng.random() < 0.3:
        from .. import ref
        fg = ref.FeatureGen(rng, w, max_depth=2)
        n = rng.choice(list(w.tables))
        b = ref.Builder(es, w)
        seeds = [b(fg.top(n)) for _ in range(rng.randint(1, 2))]
        seeds = [s for i, s in enumerate(seeds) if s.unique_name() not in [x.unique_name() for x in seeds[:i]]
                 and feat.kind(s) != "id"]
        if seeds:
            a["seed_features"] = seeds
            rec.event("seeded")
    fl = ft.dfs(**a)
    again = ft.dfs(**a) if len(fl) < 2000 else fl
    info = lambda: "target=%s args=%s stacking=%s world=%s" % (target, {k: v for k, v in a.items() if k != "entityset"}, st, w.describe())  # noqa
    rec.check([feat.canon(f) for f in fl] == [feat.canon(f) for f in again], "not-repeatable",
              lambda: "two identical calls differ: %s / %s; %s" % ([f.get_name() for f in fl][:20], [f.get_name() for f in again][:20], info()))
    judge(rec, w, iv, target, a, fl, seeds, info)
    # a sample of the list really computes
    some = rng.sample(fl, min(len(fl), 12))
    if some:
        T = max(gen.times_in(w) or [gen.T0 if w.time_kind == "datetime" else 0.0])
        t = w.tables[target]
        ids = [r[t.index] for r in t.rows][:4]
        fm = ft.calculate_feature_matrix(some, es, cutoff_time=T, instance_ids=ids)
        names = [n for f in some for n in f.get_feature_names()]
        rec.event("computed", len(some))
        rec.check(list(fm.columns) == names and list(fm.index) == ids, "computed-shape",
                  lambda: "columns %s for features %s; %s" % (list(fm.columns), names, info()))
    if fl:
        rec.nontrivial((sorted(f.get_name() for f in fl)[:50], target, a["max_depth"]))
    rec.sample({"target": target, "n": len(fl), "depth": a["max_depth"], "features": [f.get_name() for f in fl][-4:]})


def judge(rec, w, iv, target, a, fl, seeds, info):
    seedc = {feat.canon(s) for s in seeds}
    inseed = {feat.canon(x) for s in seeds for x in feat.walk(s)}
    allowed = {k: [feat.prim_key(p) for p in instances(a[k])] for k in ("agg_primitives", "trans_primitives", "groupby_trans_primitives")}
    wheretypes = tuple(type(p) for p in instances(a["where_primitives"]))
    ign_e = set(a.get("ignore_entities") or ())
    ign_v = {(n, c) for n, cs in (a.get("ignore_variables") or {}).items() for c in cs}
    opts = a.get("primitive_options") or {}
    if opts:
        rec.event("with_options")
        for o in opts.values():        # what a primitive's options include is not globally ignored
            ign_e -= set(o.get("include_entities", ())) | set(o.get("include_variables", ()))
            for n, cs in o.get("include_variables", {}).items():
                ign_v -= {(n, c) for c in cs}
    tree = D.is_tree(w)
    rec.event("features", len(fl))
    depths = [feat.depth(f) for f in fl]
    rec.check(depths == sorted(depths), "order", lambda: "not sorted by depth: %s; %s" % (depths, info()))
    names = [n for f in fl for n in f.get_feature_names()]
    rec.check(len(set(names)) == len(names), "names-collide",
              lambda: "same name twice: %s; %s" % (sorted({n for n in names if names.count(n) > 1})[:5], info()))
    rec.check(len({feat.canon(f) for f in fl}) == len(fl), "same-feature-twice", info)
    if "max_features" in a:
        rec.event("limited")
        rec.check(len(fl) <= a["max_features"], "max_features", lambda: "%d features; %s" % (len(fl), info()))
    if "allowed_paths" in a:
        rec.event("allowed_paths")
    seen = set()
    for f in (fl if len(fl) <= 400 else fl[:100] + fl[-100:] + fl[100:-100:len(fl) // 200]):
        tell = lambda: "%s; %s" % (f.get_name(), info())  # noqa
        rec.check(f.entity.id == target, "wrong-entity", tell)
        rec.check(not (feat.kind(f) == "id" and f.variable.id == w.tables[target].index), "target-index", tell)
        if a["max_depth"] >= 0:
            # the clause of a where feature and picking one output of several are not counted
            other = not tree and any(feat.kind(x) == "direct" for x in feat.walk(f))
            rec.check(feat.depth(f, seedc, False) <= a["max_depth"], "max_depth-other-path" if other else "max_depth:%s" % feat.kind(f),
                      lambda: "depth %d > %d: %s" % (feat.depth(f, seedc, False), a["max_depth"], tell()))
        for s in a.get("drop_contains", ()):
            rec.check(s not in f.get_name(), "drop_contains", tell)
        if f.number_output_features > 1:
            rec.event("multi_output")
        for s in feat.walk(f):
            c = feat.canon(s)
            if c in seen:
                continue
            seen.add(c)
            rec.event("subfeatures")
            if c in inseed:
                continue
            rules(rec, w, iv, s, allowed, wheretypes, ign_e, ign_v, opts, seedc, a, tell)
        if tree and "allowed_paths" in a:
            ok = {tuple(p) for p in a["allowed_paths"]}
            for p in entity_paths(f, (target,), inseed):
                rec.check(p in ok, "allowed_paths", lambda: "uses path %s: %s" % (p, tell()))


def entity_paths(f, at, inseed):
    """entity paths (from the target) along which f reads data"""
    if feat.canon(f) in inseed:
        return
    k = feat.kind(f)
    here = at
    if k in ("direct", "agg"):
        for step in feat.path_key(f.relationship_path):
            here = here + ((step[1] if step[0] else step[3]),)
        yield here
    for d in feat.deps(f):
        # a where clause lives where the inputs live; a slice where its feature lives
        for p in entity_paths(d, here, inseed):
            yield p


def rules(rec, w, iv, s, allowed, wheretypes, ign_e, ign_v, opts, seedc, a, tell):
    k = feat.kind(s)
    if k == "id":
        rec.check((s.entity.id, s.variable.id) not in ign_v, "ignored-variable", lambda: "%s.%s %s" % (s.entity.id, s.variable.id, tell()))
        rec.check(s.entity.id not in ign_e, "ignored-entity", lambda: "%s %s" % (s.entity.id, tell()))
        rec.check(s.variable.id in w.tables[s.entity.id].kinds, "unknown-variable", tell)
        return
    if k == "slice":
        rec.check(0 <= s.n < s.base_feature.number_output_features, "slice", tell)
        return
    if k == "direct":
        (fwd, p, pv, c, cv), = feat.path_key(s.relationship_path)
        b = s.base_features[0]
        rec.check(fwd and c == s.entity.id and b.entity.id == p and (p, c, cv) in w.rels and pv == w.tables[p].index, "direct-path", tell)
        rec.check(not (feat.kind(b) == "id" and b.variable.id == w.tables[p].index), "direct-of-index", tell)
        return
    name = getattr(s.primitive, "name", None)
    key = feat.prim_key(s.primitive)
    where = k == "agg" and s.where is not None
    role = {"agg": "agg_primitives", "trans": "trans_primitives", "group": "groupby_trans_primitives"}[k]
    if k == "trans" and is_where_clause(s, iv):
        return
    rec.check(key in allowed[role], "primitive-not-asked:%s" % k, lambda: "%s not in %s: %s" % (key, allowed[role], tell()))
    bases = s.base_features[:-1] if k == "group" else s.base_features
    types = s.primitive.input_types
    types = types[0] if isinstance(types[0], list) else types
    rec.check(len(bases) == len(types) and all(any(issubclass(b.variable_type, t) for b in bases) for t in types) and
              matches(bases, types, s.primitive.commutative), "input-types:%s" % k,
              lambda: "%s on %s: %s" % (key, [b.variable_type.__name__ for b in bases], tell()))
    rec.check(len({feat.canon(b) for b in bases}) == len(bases), "same-input-twice", tell)
    rec.check(all(b.number_output_features == 1 for b in bases), "whole-multi-output-input", tell)
    if k == "agg":
        path = feat.path_key(s.relationship_path)
        cur = s.entity.id
        for fwd, p, pv, c, cv in path:
            rec.check(not fwd and p == cur and (p, c, cv) in w.rels, "agg-path", tell)
            cur = c
        rec.check(all(b.entity.id == cur for b in bases), "agg-path", tell)
        links = {(e, v) for _, p, pv, c, cv in path for e, v in ((p, pv), (c, cv))}
        for b in bases:
            rec.check(not (feat.kind(b) == "id" and (b.entity.id, b.variable.id) in links), "agg-of-link", tell)
            rec.check(not (feat.kind(b) == "direct" and b.parent_entity.id == s.entity.id), "agg-of-own-direct", tell)
            why = D.stacks(s.primitive, b)
            rec.check(why is None, "stacking:%s" % why, tell)
        if where:
            rec.event("where_features")
            rec.check(isinstance(s.primitive, wheretypes), "where-primitive", tell)
            rec.check(is_where_clause(s.where, iv) and s.where.entity.id == cur, "where-clause", tell)
            wb = feat.canon(s.where.base_features[0])
            rec.check(wb not in {feat.canon(b) for b in bases}, "where-on-own-base", tell)
            rec.check(not any(feat.kind(x) == "agg" and x.where is not None for b in bases for x in feat.walk(b)), "where-stacking", tell)
    else:
        for b in bases:
            tb = b.base_features[0] if feat.kind(b) == "direct" else b
            rec.check(not is_transform(b) and not is_transform(tb), "transform-stacking", tell)
        if k == "group":
            rec.event("groupby")
            rec.check(issubclass(s.groupby.variable_type, ft.variable_types.Id), "groupby-type",
                      lambda: "%s %s" % (s.groupby.variable_type, tell()))
    o = opts.get(name)
    if o:
        es = {x.entity.id for b in bases for x in feat.walk(b)}
        vs = {(x.entity.id, x.variable.id) for b in bases for x in feat.walk(b) if feat.kind(x) == "id"}
        for e in o.get("ignore_entities", ()):
            rec.check(e not in es, "option-ignore_entities", lambda: "%s %s" % (o, tell()))
        if "include_entities" in o:
            rec.check(es <= set(o["include_entities"]), "option-include_entities", lambda: "%s %s" % (o, tell()))
        for e, cs in o.get("ignore_variables", {}).items():
            rec.check(not vs & {(e, c) for c in cs}, "option-ignore_variables", lambda: "%s %s" % (o, tell()))
        for e, cs in o.get("include_variables", {}).items():
            rec.check({v for x, v in vs if x == e} <= set(cs), "option-include_variables", lambda: "%s %s" % (o, tell()))


def is_transform(f):
    from featuretools.primitives import TransformPrimitive
    return feat.kind(f) in ("trans", "group") and isinstance(f.primitive, TransformPrimitive)


def matches(bases, types, commutative):
    import itertools
    orders = itertools.permutations(bases) if commutative else [bases]
    return any(all(issubclass(b.variable_type, t) for b, t in zip(o, types)) for o in orders)


def is_where_clause(s, iv):
    from ..common import same
    if not (feat.kind(s) == "trans" and type(s.primitive).__name__ == "EqualScalar"):
        return False
    b = s.base_features[0]
    while feat.kind(b) == "direct":
        b = b.base_features[0]
    return feat.kind(b) == "id" and any(same(s.primitive.value, v) for v in iv.get((b.entity.id, b.variable.id), ()))


# ------------------------------------------------------------- hash seeds
def names_for(seed, n):
    out = []
    for i in range(n):
        rng = random.Random("C09/hash/%s/%d" % (seed, i))
        w, es, iv, target, a = build(rng, None)
        fl = ft.dfs(**a)
        out.append([f.get_name() for f in fl])
    return out


def probe(rec):
    """the listed finding, on one fixed schema: T -> A -> C and T -> B -> C"""
    import pandas as pd
    es = ft.EntitySet("probe")
    es.entity_from_dataframe("C", pd.DataFrame({"c": [1, 2], "x": [1.0, 2.0]}), index="c")
    for n in "AB":
        es.entity_from_dataframe(n, pd.DataFrame({n.lower(): [1, 2], "c": [1, 2]}), index=n.lower())
        es.add_relationship(ft.Relationship(es["C"]["c"], es[n]["c"]))
    es.entity_from_dataframe("T", pd.DataFrame({"t": [1, 2], "a": [1, 2], "b": [1, 2]}), index="t")
    for n in "AB":
        es.add_relationship(ft.Relationship(es[n][n.lower()], es["T"][n.lower()]))
    for d in (1, 2):
        for f in ft.dfs(entityset=es, target_entity="T", agg_primitives=[], trans_primitives=[], max_depth=d, features_only=True):
            rec.check(feat.depth(f, (), False) <= d, "max_depth-other-path", f.get_name())


def finish(rec, tier, seed):
    probe(rec)
    n = 30 if tier == "quick" else 150
    want = json.loads(json.dumps(names_for(seed, n)))
    ps = []
    for h in ("1", "77", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=h)
        ps.append((h, subprocess.Popen([sys.executable, "-W", "ignore", "-m", "ftv.checks.c09", str(seed), str(n)], env=env, cwd=VERIF,
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    for h, p in ps:
        out, _ = p.communicate(timeout=600)
        got = json.loads(out.strip().splitlines()[-1])
        rec.event("hashseed_lists", n)
        for i, (x, y) in enumerate(zip(want, got)):
            rec.check(x == y, "hash-seed", lambda: "request %d: hash seed %s gives another list: %s vs %s" % (
                i, h, [v for v in x if v not in y][:5] or x[:8], [v for v in y if v not in x][:5] or y[:8]))


if __name__ == "__main__":
    from ..common import setup_process
    setup_process()
    print(json.dumps(names_for(int(sys.argv[1]), int(sys.argv[2]))))
